//! Scripted worlds: one real endpoint and a scripted peer, driven call by call.

use crate::endpoint::*;
use crate::model::*;
use crate::net::{ent_of, slots_of};
use crate::peer::{self, RefDev};
use crate::pki;
use crate::rng::key;
use crate::scn::{arg, pos, Scn};

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2)
        .filter_map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).ok())
        .collect()
}
fn args<'a>(o: &'a [String], k: &'a str) -> impl Iterator<Item = &'a str> + 'a {
    o.iter().filter_map(move |x| x.strip_prefix(k).and_then(|x| x.strip_prefix('=')))
}
/// `need`, `need+3`, `need-1`, or an absolute number
fn length(s: Option<&str>, need: usize, default: usize) -> usize {
    match s {
        None => default,
        Some(s) => match s.strip_prefix("need") {
            Some(d) => (need as i64 + d.parse::<i64>().unwrap_or(0)).max(0) as usize,
            None => s.parse().unwrap_or(default),
        },
    }
}

const MAXLEN: usize = if BUF + 1024 > 8192 { BUF + 1024 } else { 8192 };

/// `repeat k n` does the k operations before it n times more. Each gets a key
/// of its own.
fn unroll(ops: &[Vec<String>]) -> Vec<(u64, &Vec<String>)> {
    let mut v: Vec<(u64, &Vec<String>)> = vec![];
    for (i, op) in ops.iter().enumerate() {
        if op[0] != "repeat" {
            v.push((i as u64, op));
            continue;
        }
        let p = pos(op);
        let k = (p.first().copied().unwrap_or(1) as usize).min(i);
        for t in 1..=p.get(1).copied().unwrap_or(0).min(3000) {
            for j in i - k..i {
                if ops[j][0] != "repeat" {
                    v.push((j as u64 + 100_000 * t, &ops[j]));
                }
            }
        }
    }
    v
}

pub fn dev(s: &Scn) {
    let seed = s.num("seed", 1);
    let slots = slots_of(s.get("slots"));
    let mut d = RealDev::new("dev", seed, &slots);
    d.twins = s.num("twins", 0) == 1;
    let flip = s.num("flip", 0);
    if flip > 0 {
        d.start_log();
    }
    let strict = s.num("strict", 0) == 1;
    for (i, op) in unroll(&s.ops) {
        match &op[0][..] {
            "reset" => {
                d.reset();
                continue;
            }
            "reboot" => {
                d.boot();
                continue;
            }
            _ => (),
        }
        // A dead session is not called again before it is reset.
        if !d.alive || d.model.ph == Ph::Dead {
            continue;
        }
        let k = arg(op, "k").and_then(|x| x.parse().ok()).unwrap_or(i);
        let k = key(&[seed, k]);
        let mut m = match &op[0][..] {
            "raw" => unhex(op.get(1).map_or("", |x| &x[..])),
            x => peer::request(x, &pos(op), k),
        };
        for x in args(op, "mut") {
            peer::mutate(x, &mut m, k);
        }
        let mut opt = Opt {
            len: length(arg(op, "len"), d.need(&m), BUF + 1024),
            ents: args(op, "ent").filter_map(ent_of).collect(),
            plan: plan(arg(op, "sign").unwrap_or("ok")),
            ekey: 0,
        };
        if opt.len > MAXLEN {
            opt.len = MAXLEN;
        }
        let h = d.model.hash;
        let o = d.handle(&m, &opt);
        if strict && o.ok && m.len() > 3 && m[1] == 0x83 && m[3] == 0 {
            let n = 4 + crate::crypt::ds(h) + 32 + 2 + 4 + SIG;
            count("strict probe");
            if o.out.len() != n {
                violation(
                    &["C15"],
                    format!(
                        "[summary-hash] no measurement summary was requested, yet CHALLENGE_AUTH has {} bytes more than the specified layout",
                        o.out.len() as i64 - n as i64
                    ),
                );
            }
        }
    }
    if flip > 0 {
        fresh_dev(&d, flip);
    }
    count("script runs");
}

pub fn host(s: &Scn) {
    let seed = s.num("seed", 1);
    let c = |k: &str, d: &str| {
        let v = s.get(k);
        pki::chain(if v.is_empty() { d } else { v })
    };
    let chain = c("chain", "valid:A:1:1:0:32");
    let victim = c("victim", "valid:A:0:7:0:32");
    let imp = s.get("imp");
    let mut peer = RefDev::new(seed, chain, victim, if imp.is_empty() { "legit" } else { imp });
    peer.plain = s.num("plain", 0) == 1;
    peer.strict = s.num("strict", 0) == 1;
    let deep = s.num("deep", 0) == 1;
    if let Ok(x) = s.get("caps").parse::<u32>() {
        peer.force_caps = Some(x);
    }
    let hslots = slots_of(s.get("hslots"));
    let root = s.get("root").chars().next().unwrap_or('A');
    let mut n = 1;
    let mut h = RealHost::new("host1", seed, root, &hslots);
    let mut last_req: Vec<u8> = vec![];
    let mut old: Vec<Vec<u8>> = vec![];
    for (i, op) in unroll(&s.ops) {
        let k = arg(op, "k").and_then(|x| x.parse().ok()).unwrap_or(i);
        let k = key(&[seed, k]);
        match &op[0][..] {
            "new" => {
                n += 1;
                h = RealHost::new(&format!("host{}", n), seed, root, &hslots);
                last_req.clear();
            }
            "req" if h.live() => {
                // One request per response, as the protocol has it; `again`
                // is a host that asks for the request once more.
                if h.model.outstanding && arg(op, "again").is_none() {
                    continue;
                }
                let len = length(arg(op, "len"), h.need(), 2048);
                let ents: Vec<_> = args(op, "ent").filter_map(ent_of).collect();
                if let HostOut::Req(b) = h.next(len, &ents) {
                    last_req = b;
                }
            }
            "rsp" if h.live() => {
                let mut m = if let Some(x) = arg(op, "raw") {
                    unhex(x)
                } else if let Some(x) = arg(op, "rand") {
                    let mut r = crate::rng::Rng::new(&[k, 1]);
                    r.bytes(x.parse().unwrap_or(0))
                } else if let Some(x) = arg(op, "head") {
                    // the right header, then anything
                    let mut r = crate::rng::Rng::new(&[k, 2]);
                    let mut m = match h.model.ph {
                        Hp::V => vec![0x10, 4],
                        Hp::C => vec![0x11, 0x61],
                        Hp::A => vec![0x11, 0x63],
                        Hp::D => vec![0x11, 1],
                        Hp::X => vec![0x11, 2],
                        _ => vec![0x11, 3],
                    };
                    let z = r.pct(50);
                    for _ in 0..x.parse::<usize>().unwrap_or(0) {
                        m.push(if z && r.pct(85) { 0 } else { r.u64() as u8 });
                    }
                    m
                } else if let Some(x) = arg(op, "again") {
                    let j = x.parse::<usize>().unwrap_or(0);
                    if old.is_empty() {
                        vec![]
                    } else {
                        old[j % old.len()].clone()
                    }
                } else if let Some(x) = arg(op, "of") {
                    peer.make(x.parse::<u64>().unwrap_or(4) as u8, &last_req)
                } else if h.model.outstanding {
                    peer.handle(&last_req)
                } else {
                    continue;
                };
                if let Some(x) = arg(op, "alg") {
                    peer.bad_algorithms(x, &mut m, k);
                }
                for x in args(op, "mut") {
                    peer::mutate(x, &mut m, k);
                }
                if peer.strict && h.model.ph == Hp::G {
                    count("strict probe");
                    let r = h.handle(&m);
                    if r != HostRes::Done {
                        violation(&["C15"], "[summary-hash] a CHALLENGE_AUTH of the specified layout, without the measurement summary that was not requested, is refused".into());
                    }
                    continue;
                }
                if m.len() > 2 {
                    old.push(m.clone());
                }
                let r = h.handle(&m);
                if deep && r == HostRes::Failed {
                    violation(&["C04"], "[deep-chain] a valid certificate chain within the configured depth is refused".into());
                }
            }
            // beyond the end of the handshake
            "req" if h.done => {
                h.next(length(arg(op, "len"), 36, 2048), &[]);
            }
            _ => (),
        }
    }
    count("script runs");
}

pub fn run(s: &Scn) {
    match s.get("mode") {
        "dev" => dev(s),
        "host" => host(s),
        _ => crate::net::run(s),
    }
}
