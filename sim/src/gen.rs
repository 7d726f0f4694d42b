//! Scenario generation: (property, seed, index) -> scenario. Every draw comes
//! from a stream keyed by those three values.

use crate::model::*;
use crate::peer::{self, random_mutation, IMPOSTURES};
use crate::pki::{self, INVALID_KINDS, VALID_KINDS};
use crate::rng::{tag, Rng};
use crate::scn::Scn;

/// (profile, weight) per property
fn mix(p: &str) -> &'static [(&'static str, u64)] {
    match p {
        "C01" => &[("mitm", 40), ("net", 20), ("impostor", 14), ("clean", 8), ("walk", 18)],
        "C02" => &[("impostor", 62), ("mitm", 18), ("clean", 8), ("hfuzz", 12)],
        "C03" => &[("replay", 30), ("net", 14), ("mitm", 16), ("walk", 18), ("res", 10), ("impostor", 8), ("refdev", 6), ("nonce", 1), ("long", 1)],
        "C04" => &[("clean", 45), ("net", 55)],
        "C05" => &[("walk", 36), ("clean", 14), ("net", 14), ("refdev", 16), ("brim", 10), ("hfuzz", 6), ("hres", 4), ("long", 1)],
        "C06" => &[("walk", 55), ("fuzz", 35), ("brim", 4), ("net", 5), ("long", 1)],
        "C07" => &[("fuzz", 36), ("hfuzz", 34), ("nego", 7), ("hnego", 7), ("res", 3), ("hres", 3), ("mitm", 9), ("long", 1)],
        "C08" => &[("nego", 48), ("hnego", 32), ("refdev", 20)],
        "C09" => &[("walk", 58), ("hfuzz", 16), ("refdev", 14), ("clean", 11), ("long", 1)],
        "C10" => &[("walk", 55), ("fuzz", 20), ("res", 10), ("net", 14), ("long", 1)],
        "C11" => &[("hfuzz", 48), ("refdev", 26), ("net", 20), ("clean", 6)],
        "C12" => &[("walk", 15), ("fuzz", 12), ("hfuzz", 15), ("res", 12), ("net", 14), ("refdev", 12), ("impostor", 14), ("clean", 5), ("long", 1)],
        "C13" => &[("res", 52), ("hres", 16), ("brim", 22), ("net", 9), ("long", 1)],
        "C14" => &[("multi", 100)],
        "C15" => &[("refdev", 40), ("walk", 34), ("nego", 12), ("clean", 8), ("res", 5), ("long", 1)],
        "C16" => &[("refdev", 36), ("nego", 20), ("walk", 20), ("hfuzz", 8), ("res", 6), ("clean", 5), ("net", 4), ("long", 1)],
        _ => &[("clean", 1)],
    }
}

/// Tried now and then whatever the property is: a violation may show where it
/// was not looked for.
const OTHERS: &[&str] = &[
    "clean", "net", "replay", "mitm", "refdev", "impostor", "walk", "fuzz", "nego", "hfuzz", "hnego", "res", "hres", "brim",
];

pub fn scenario(prop: &str, seed: u64, i: u64) -> Scn {
    let mut r = Rng::new(&[0x5ce0, tag(prop), seed, i]);
    let m = mix(prop);
    let total: u64 = m.iter().map(|x| x.1).sum();
    let mut d = r.below(total);
    let mut prof = m[0].0;
    for (p, w) in m {
        if d < *w {
            prof = p;
            break;
        }
        d -= w;
    }
    if prop != "C14" && r.pct(8) {
        prof = r.pick(OTHERS);
    }
    let mut s = Scn::default();
    s.set("profile", prof);
    s.set("seed", r.u64() >> 1);
    if prop == "C10" {
        s.set("twins", 1);
    }
    let g = G { prop };
    match prof {
        "clean" => g.clean(&mut s, &mut r),
        "net" | "replay" => g.net(&mut s, &mut r, prof),
        "mitm" => g.mitm(&mut s, &mut r),
        "refdev" => g.refdev(&mut s, &mut r),
        "impostor" => g.impostor(&mut s, &mut r),
        "walk" => g.walk(&mut s, &mut r),
        "fuzz" => g.fuzz(&mut s, &mut r),
        "nego" => g.nego(&mut s, &mut r),
        "hfuzz" => g.hfuzz(&mut s, &mut r),
        "hnego" => g.hnego(&mut s, &mut r),
        "res" => g.res(&mut s, &mut r),
        "hres" => g.hres(&mut s, &mut r),
        "brim" => g.brim(&mut s, &mut r),
        "long" => g.long(&mut s, &mut r),
        "multi" => g.multi(&mut s, &mut r),
        _ => g.nonce(&mut s, &mut r),
    }
    roots(&mut s, &mut r);
    if r.pct(if prop == "C03" { 12 } else { 1 }) && prof != "multi" && prof != "nonce" && prof != "long" {
        s.set("flip", if r.pct(8) { 48 } else { 6 });
    }
    s
}

/// Some requesters trust another root; mostly the chains move along.
fn roots(s: &mut Scn, r: &mut Rng) {
    if s.get("mode") == "dev" || !r.pct(30) {
        return;
    }
    let links = s.num("links", 0);
    let worlds: Vec<String> = if s.get("mode") == "host" {
        vec!["".into()]
    } else {
        (0..links).map(|l| format!("l{}.", l)).collect()
    };
    for p in &worlds {
        if links > 1 && r.pct(30) {
            continue;
        }
        let x = *r.pick(&["B", "C", "D"]);
        s.set(&format!("{}root", p), x);
        if r.pct(if links > 1 { 25 } else { 4 }) {
            continue;
        }
        let (a, b) = (":A:".to_string(), format!(":{}:", x));
        let swap = |v: &str| v.replace(&a, ":-:").replace(&b, &a).replace(":-:", &b);
        for k in ["slots", "victim", "chain"] {
            let k = format!("{}{}", p, k);
            let d = match &k[p.len()..] {
                "victim" => "valid:A:0:7:0:32",
                "slots" if p.is_empty() => continue,
                "chain" if !p.is_empty() => continue,
                _ => "valid:A:1:1:0:32",
            };
            let v = if s.get(&k).is_empty() { d.to_string() } else { s.get(&k).to_string() };
            s.set(&k, swap(&v));
        }
        if p.is_empty() {
            for o in s.ops.iter_mut() {
                for t in o.iter_mut() {
                    *t = swap(t);
                }
            }
        }
    }
}

struct G<'a> {
    prop: &'a str,
}

/// A chain valid under root A that fits the certificate buffer.
pub fn good_chain(r: &mut Rng, hs: usize) -> String {
    for _ in 0..40 {
        let mut kind = if r.pct(70) { "valid" } else { *r.pick(VALID_KINDS) };
        let depth = r.below(PATH as u64 + 1) as usize;
        let (leaf, size) = if r.pct(45) {
            let size = match r.below(6) {
                5 => {
                    // a leaf whose DER length is about to need another byte
                    let n = *r.pick(&[255usize, 256, 256, 257, 511, 512, 513, 1023, 1024, 1025]);
                    kind = if n < 300 { "bare" } else { "tiny" };
                    let one = pki::chain(&pki::spec(kind, 'A', depth, 1, 0, hs));
                    one.bytes.len() - one.leaf.len() + n + if n < 256 { 3 } else { 4 }
                }
                // building big chains takes time, so there are few of them
                _ if BUF > 16384 && r.pct(70) => {
                    *r.pick(&[MAXCHAIN, MAXCHAIN - 1, 65280, 65281, 0x8000, 0x7fff, 0x8001, 16384, 16383, 4096])
                }
                0 => MAXCHAIN,
                1 => MAXCHAIN - r.below(6) as usize,
                2 => (200 + r.below(16) as usize * 8).min(BUF),
                3 => 380 + r.below(20) as usize,
                _ => 256 + r.below(((BUF as u64).min(16384) - 256).max(1) / 16) as usize * 16,
            };
            (1 + r.below(4) as u32, size)
        } else {
            (1 + r.below(24) as u32, 0)
        };
        let sp = pki::spec(kind, 'A', depth, leaf, size, hs);
        let c = pki::chain(&sp);
        if c.bytes.len() <= BUF && c.inters.len() <= PATH {
            return sp;
        }
    }
    pki::spec("tiny", 'A', 0, 1, 0, hs)
}

fn bad_chain(r: &mut Rng, hs: usize) -> String {
    let kind = if r.pct(10) { "der" } else { *r.pick(INVALID_KINDS) };
    let depth = r.below(DEPTH.min(7) as u64 + 2) as usize;
    let size = if kind == "der" { r.below(64) as usize } else { 0 };
    let sp = pki::spec(kind, if r.pct(12) { 'B' } else { 'A' }, depth, 1 + r.below(10) as u32, size, hs);
    if pki::chain(&sp).bytes.len() <= BUF {
        return sp;
    }
    pki::spec(kind, 'A', 0, 1 + r.below(10) as u32, 0, hs)
}

/// Slot 0 as given; the others populated at random.
fn slots(r: &mut Rng, first: &str) -> String {
    let mut v = vec![first.to_string()];
    let p = *r.pick(&[0u64, 30, 60, 100]);
    for _ in 1..N {
        v.push(if r.pct(p) { good_chain(r, 32) } else { "-".into() });
    }
    if N > 1 && r.pct(30) {
        // a slot that is another one but for a part
        let i = r.below(N as u64 - 1) as usize + 1;
        let f: Vec<String> = v[r.below(i as u64) as usize].split(':').map(|x| x.into()).collect();
        if f.len() == 6 {
            let k = *r.pick(&["twinhash", "twinpath", "twinleaf"]);
            let t = pki::spec(k, 'A', f[2].parse().unwrap(), f[3].parse().unwrap(), 0, 32);
            let base = pki::spec("valid", 'A', f[2].parse().unwrap(), f[3].parse().unwrap(), 0, 32);
            if pki::chain(&t).bytes.len() <= BUF && pki::chain(&t).inters.len() <= PATH && pki::chain(&base).bytes.len() <= BUF {
                v[i] = t;
                if r.pct(60) {
                    let j = (0..i).find(|j| v[*j] != "-").unwrap_or(0);
                    if j > 0 || f[0] == "valid" {
                        v[j] = base;
                    }
                }
            }
        }
    }
    v.join(",")
}

fn hs(r: &mut Rng) -> usize {
    match hashes() {
        7 => *r.pick(&[32, 48, 64]),
        3 => *r.pick(&[32, 48]),
        _ => 32,
    }
}

impl<'a> G<'a> {
    // -------------------------------------------------------- worlds

    fn world(&self, s: &mut Scn, r: &mut Rng, links: u64) {
        s.set("links", links);
        s.set("sessions", if r.pct(60) { 1 } else { r.range(2, 3) });
        s.set("transport", if r.pct(50) { "stream" } else { "dgram" });
        s.set("onerr", if r.pct(50) { "boot" } else { "reset" });
        if r.pct(30) {
            s.set("retx", r.range(1, 3));
            s.set("timeout", *r.pick(&[20u64, 60, 200]));
        }
        for l in 0..links {
            let c = good_chain(r, 32);
            s.set(&format!("l{}.slots", l), slots(r, &c));
            if r.pct(30) {
                let c = good_chain(r, 32);
                s.set(&format!("l{}.hslots", l), slots(r, &c));
            }
        }
        if r.pct(50) {
            s.set("after", 1);
        }
    }

    fn clean(&self, s: &mut Scn, r: &mut Rng) {
        self.world(s, r, 1);
        s.kv.remove("retx");
        s.kv.remove("timeout");
        if r.pct(25) {
            let h = hs(r);
            let c = good_chain(r, h);
            s.set("l0.slots", c);
            s.set("l0.dev", "legit");
        } else if crypto() && r.pct(12) {
            // signatures whose integers need unusual encodings
            let p = *r.pick(&["r0", "s0", "rhigh", "shigh"]);
            s.fault(format!("sign 0 q 5 {}", p));
        }
    }

    fn a_fault(&self, s: &mut Scn, r: &mut Rng, links: u64, frames: u64, hard: bool) {
        let l = r.below(links);
        let q = r.pct(50);
        let d = if q { "q" } else { "r" };
        let n = r.below(frames);
        let f = match r.below(if hard { 22 } else { 18 }) {
            0 | 1 => format!("drop {} {} {}", l, d, n),
            2 => format!("dup {} {} {} {}", l, d, n, r.below(60)),
            3 => format!("delay {} {} {} {}", l, d, n, r.below(400)),
            4 | 5 => format!("mut {} {} {} {}", l, d, n, random_mutation(r)),
            6 => format!("replay {} {} {} {}", l, d, n, r.below(n + 1)),
            7 => format!("echo {} {} {} {} {}", l, d, n, r.below(n + 1), r.below(60)),
            8 => format!("part {} {} {} {}", l, d, n, 10 + r.below(500)),
            9 => format!("stall {} {} {} {}", l, d, n, 10 + r.below(400)),
            10 => format!("hostcrash {} {} {} {}", l, d, n, r.below(200)),
            11 => format!("devcrash {} {} {} {}", l, d, n, r.below(200)),
            12 => format!("devreset {} {} {}", l, d, n),
            13 => format!("sign {} q {} {}", l, n, r.pick(&["err", "short", "long", "empty", "erronce", "shortonce", "garbage", "zero", "zeror", "zeros"])),
            14 => format!("ent {} q {} {}:{}", l, n, r.below(3), r.pick(&["eio", "eintr", "short"])),
            15 => format!("hent {} q {} {}:{}", l, n, r.below(3), r.pick(&["eio", "eintr", "short"])),
            16 => format!("buf {} q {} {}", l, n, r.pick(&["-1", "0", "-8", "-40", "1"])),
            17 => format!("hbuf {} q {} {}", l, n, r.pick(&["-1", "0", "-8", "-40", "1"])),
            18 => format!("reflect {} {} {}", l, d, n),
            19 => format!("cross {} {} {} {} {}", l, d, n, r.below(links), if r.pct(50) { "copy" } else { "move" }),
            20 => format!(
                "inject {} q {} {} {} {}",
                l,
                n,
                r.pick(&["ver", "caps", "alg", "dig", "cert", "chal", "head", "other", "rand"]),
                r.below(30),
                if r.pct(70) { "swallow" } else { "answer" }
            ),
            _ => format!("answer {} q {} {}", l, n, if r.pct(50) { "rec" } else { "forged" }),
        };
        s.fault(f);
    }

    fn net(&self, s: &mut Scn, r: &mut Rng, prof: &str) {
        let links = if r.pct(70) { 1 } else { 2 };
        self.world(s, r, links);
        let sessions = s.num("sessions", 1);
        if prof == "replay" {
            s.set("sessions", r.range(2, 4));
            for _ in 0..r.range(1, 4) {
                let n = 1 + r.below(6 * s.num("sessions", 2));
                let l = r.below(links);
                let d = if r.pct(30) { "q" } else { "r" };
                // mostly the frame one session back
                let back = if r.pct(60) && n >= 6 { n - 6 } else { r.below(n) };
                s.fault(match r.below(5) {
                    0 => format!("echo {} {} {} {} {}", l, d, n, back, r.below(20)),
                    1 => format!("answer {} q {} rec", l, n),
                    2 => format!("dup {} {} {} {}", l, d, n, r.below(60)),
                    _ => format!("replay {} {} {} {}", l, d, n, back),
                });
            }
            return;
        }
        let most = if r.pct(25) { 9 } else { 4 };
        for _ in 0..r.range(1, most) {
            self.a_fault(s, r, links, 7 * sessions, false);
        }
    }

    fn mitm(&self, s: &mut Scn, r: &mut Rng) {
        let links = if r.pct(60) { 1 } else { 2 };
        self.world(s, r, links);
        let sessions = s.num("sessions", 1);
        let n = if r.pct(60) { 1 } else { r.range(2, 4) };
        for _ in 0..n {
            match r.below(10) {
                // one byte of one message
                0..=4 => {
                    let l = r.below(links);
                    let d = if r.pct(50) { "q" } else { "r" };
                    let f = r.below(6 * sessions);
                    // where the message has content
                    let bit = match f % 6 {
                        0 => r.below(if d == "q" { 32 } else { 80 }),
                        1 => r.below(96),
                        2 => r.below(if d == "q" { 384 } else { 416 }),
                        3 => r.below(if d == "q" { 32 } else { 8 * (4 + 32 * N as u64) }),
                        4 => r.below(if d == "q" { 64 } else { 8 * (8 + BUF.min(4096) as u64) }),
                        _ => r.below(if d == "q" { 288 } else { 8 * 170 }),
                    };
                    if r.pct(80) {
                        s.fault(format!("mut {} {} {} flip:{}", l, d, f, bit));
                    } else {
                        s.fault(format!("mut {} {} {} {}", l, d, f, random_mutation(r)));
                    }
                }
                _ => self.a_fault(s, r, links, 6 * sessions, true),
            }
        }
    }

    fn refdev(&self, s: &mut Scn, r: &mut Rng) {
        if r.pct(45) {
            // scripted, so that every response is judged
            s.set("mode", "host");
            let h = hs(r);
            s.set("chain", good_chain(r, h));
            if r.pct(40) {
                let c = good_chain(r, 32);
                s.set("hslots", slots(r, &c));
            }
            for i in 0..r.range(1, 3) {
                if i > 0 {
                    s.op("new".into());
                }
                let twice = if r.pct(25) { r.below(6) } else { 99 };
                for j in 0..6 {
                    s.op("req".into());
                    if j == twice {
                        s.op("req again=1".into());
                    }
                    s.op("rsp".into());
                }
                s.op("req".into());
                match r.below(4) {
                    0 => {
                        // a proof after the fact
                        s.op("rsp again=5".into());
                        s.op("req".into());
                    }
                    1 => {
                        s.op(format!("rsp again={}", r.below(6)));
                        s.op(format!("rsp of={}", r.pick(&[4u64, 0x61, 0x63, 1, 2, 3])));
                        s.op("req".into());
                    }
                    _ => (),
                }
            }
            return;
        }
        self.world(s, r, 1);
        s.kv.remove("retx");
        s.kv.remove("timeout");
        let h = hs(r);
        s.set("l0.slots", good_chain(r, h));
        s.set("l0.dev", "legit");
        s.set("sessions", r.range(1, 3));
    }

    fn impostor(&self, s: &mut Scn, r: &mut Rng) {
        s.set("links", 1);
        s.set("sessions", 1);
        s.set("attempts", if r.pct(80) { 1 } else { 2 });
        let h = hs(r);
        if r.pct(40) {
            s.set("l0.dev", *r.pick(IMPOSTURES));
            s.set("l0.slots", good_chain(r, h));
            s.set("l0.victim", good_chain(r, h));
            if s.get("l0.dev") == "cached" {
                s.set("attempts", 3);
                s.set("sessions", 3);
            }
        } else if r.pct(12) {
            // a valid chain, deeper than allowed
            let c = pki::spec("valid", 'A', DEPTH + 1 + r.below(2) as usize, 1 + r.below(4) as u32, 0, h);
            if pki::chain(&c).bytes.len() <= BUF {
                s.set("l0.slots", c);
            } else {
                s.set("l0.slots", bad_chain(r, h));
            }
            s.set("l0.dev", "legit");
            s.set("plain", 1);
        } else if r.pct(75) {
            s.set("l0.dev", "legit");
            s.set("l0.slots", bad_chain(r, h));
            s.set("plain", 1);
        } else {
            // the library's own responder with a chain nobody should accept
            for _ in 0..20 {
                let c = bad_chain(r, 32);
                if pki::chain(&c).inters.len() <= DEPTH {
                    s.set("l0.slots", c);
                    break;
                }
            }
        }
    }

    fn multi(&self, s: &mut Scn, r: &mut Rng) {
        let links = if r.pct(92) { r.range(2, 4) } else { r.range(5, 12) };
        self.world(s, r, links);
        s.set("solo", 1);
        if r.pct(12) {
            s.set("alone", 1);
        }
        let sessions = s.num("sessions", 1);
        // shared identities
        if r.pct(40) {
            let c = s.get("l0.slots").to_string();
            for l in 1..links {
                s.set(&format!("l{}.slots", l), &c);
            }
        }
        if r.pct(30) {
            let h = hs(r);
            let c = if r.pct(50) { good_chain(r, h) } else { bad_chain(r, h) };
            s.set("l1.slots", c);
            s.set("l1.dev", "legit");
            s.set("plain", 1);
        }
        // other slots than the first: the requester asks for that one only
        if r.pct(40) {
            for l in 0..links {
                let c = s.get(&format!("l{}.slots", l)).to_string();
                if !c.contains(',') && !c.is_empty() && s.get(&format!("l{}.dev", l)).is_empty() {
                    s.set(&format!("l{}.slots", l), slots(r, &c));
                }
                for k in 0..sessions {
                    if r.pct(40) {
                        s.fault(format!("mut {} q {} set:2:{}", l, 6 * k + 5, r.below(N as u64)));
                    } else if r.pct(20) {
                        s.fault(format!("mut {} q {} set:2:{}", l, 6 * k + 4, r.below(N as u64)));
                    }
                }
            }
        }
        for _ in 0..r.below(6) {
            self.a_fault(s, r, links, 6 * sessions, true);
        }
        if r.pct(5) {
            let n = *r.pick(&[1u64, 2, 7, 15, 31, 63, 127, 130, 255, 260, 520]);
            let hold = if r.pct(40) { "hold" } else { "go" };
            s.fault(format!("crowd {} {} {} {} {}", r.below(links), if r.pct(50) { "q" } else { "r" }, r.below(6), n, hold));
        }
    }

    fn nonce(&self, s: &mut Scn, r: &mut Rng) {
        s.set("links", 1);
        s.set("sessions", 70);
        s.set("attempts", 80);
        s.set("onerr", if r.pct(50) { "boot" } else { "reset" });
        s.set("l0.slots", good_chain(r, 32));
    }

    // ------------------------------------------------ scripted responder

    fn dev_slots(&self, s: &mut Scn, r: &mut Rng) {
        let first = if r.pct(90) { good_chain(r, 32) } else { "-".into() };
        s.set("mode", "dev");
        s.set("slots", slots(r, &first));
    }

    fn slot_no(&self, r: &mut Rng) -> u64 {
        match r.below(10) {
            0..=3 => 0,
            4..=7 => r.below(N as u64),
            8 => *r.pick(&[N as u64, 8, 15, 16, 128, 129, 255]),
            _ => r.below(256),
        }
    }

    fn step(&self, ph: &mut u8, r: &mut Rng) -> String {
        // the request of this phase; ph: 0 V, 1 C, 2 A, 3 I, 4 Ch, 9 dead
        match *ph {
            0 => {
                *ph = 1;
                "ver".into()
            }
            1 => {
                *ph = 2;
                "caps".into()
            }
            2 => {
                *ph = 3;
                "alg".into()
            }
            3 => {
                if r.pct(40) {
                    "dig".into()
                } else {
                    *ph = 4;
                    let sl = self.slot_no(r);
                    if r.pct(85) {
                        format!("cert {}", sl)
                    } else {
                        let len = *r.pick(&[0u64, 1, 64, BUF as u64 - 1, 0x7fff, 0xffff]);
                        format!("cert {} {} {}", sl, r.pick(&[0u64, 0, 0, 1, 64]), len)
                    }
                }
            }
            _ => {
                let sl = self.slot_no(r);
                let t = if r.pct(80) { 0 } else { *r.pick(&[1u64, 255, 2, 0x80]) };
                format!("chal {} {}", sl, t)
            }
        }
    }

    fn any_op(&self, r: &mut Rng) -> String {
        match r.below(14) {
            0..=1 => "ver".into(),
            2 => "caps".into(),
            3 => "alg".into(),
            4 => "dig".into(),
            5 => format!("cert {}", self.slot_no(r)),
            6 => format!("chal {}", self.slot_no(r)),
            7 => "meas".into(),
            8 => "other".into(),
            9 => "rand".into(),
            10 => "head".into(),
            11 => "badalg".into(),
            12 => format!("rand {}", r.below(6)),
            _ => {
                let mut p = r.below(5) as u8;
                let o = self.step(&mut p, r);
                format!("{} mut={}", o, random_mutation(r))
            }
        }
    }

    fn walk(&self, s: &mut Scn, r: &mut Rng) {
        self.dev_slots(s, r);
        let n = r.range(6, 34);
        let legal = *r.pick(&[75u64, 88, 96, 100]);
        let mut ph = 0u8;
        let mut dead = false;
        let extras = self.prop == "C03" || self.prop == "C10";
        for _ in 0..n {
            if dead && r.pct(55) {
                s.op(if r.pct(60) { "reset".into() } else { "reboot".into() });
                dead = false;
                ph = 0;
                continue;
            }
            if r.pct(3) {
                s.op(if r.pct(70) { "reset".into() } else { "reboot".into() });
                dead = false;
                ph = 0;
                continue;
            }
            if ph > 0 && r.pct(9) {
                s.op("ver".into());
                ph = 1;
                continue;
            }
            let mut o = if r.pct(legal) {
                self.step(&mut ph, r)
            } else {
                dead = true;
                self.any_op(r)
            };
            if r.pct(4) {
                // bytes after the message
                o.push_str(&format!(" mut=ext:{}", 1 + r.below(9)));
            }
            if extras && r.pct(8) {
                o.push_str(&format!(" ent={}:{}", r.below(2), r.pick(&["eio", "eintr", "short"])));
            }
            if extras && r.pct(5) {
                o.push_str(&format!(" len=need{}", r.pick(&["-1", "+0", "-9"])));
            }
            if r.pct(2) {
                o.push_str(&format!(" sign={}", r.pick(&["err", "short", "erronce", "garbage"])));
            }
            s.op(o);
        }
    }

    fn prefix(&self, s: &mut Scn, r: &mut Rng, to: u8) -> u8 {
        let mut ph = 0;
        while ph < to {
            let o = if ph == 3 {
                ph = 4;
                "cert 0".to_string()
            } else {
                self.step(&mut ph, r)
            };
            s.op(o);
        }
        ph
    }

    fn fuzz(&self, s: &mut Scn, r: &mut Rng) {
        self.dev_slots(s, r);
        for i in 0..r.range(2, 6) {
            if i > 0 {
                s.op(if r.pct(80) { "reset".into() } else { "reboot".into() });
            }
            let to = r.below(5) as u8;
            let mut ph = self.prefix(s, r, to);
            let o = match r.below(10) {
                0 => format!("rand {}", r.below(8)),
                1 => "rand".into(),
                2 | 3 => "head".into(),
                4 if to == 2 => "badalg".into(),
                _ => {
                    let mut o = self.step(&mut ph, r);
                    for _ in 0..r.range(1, 3) {
                        o.push_str(&format!(" mut={}", random_mutation(r)));
                    }
                    o
                }
            };
            s.op(o);
            if r.pct(50) {
                let o = self.any_op(r);
                s.op(o);
            }
        }
    }

    fn nego(&self, s: &mut Scn, r: &mut Rng) {
        self.dev_slots(s, r);
        for i in 0..r.range(2, 5) {
            if i > 0 {
                s.op(if r.pct(70) { "reset".into() } else { "reboot".into() });
            }
            s.op("ver".into());
            s.op("caps".into());
            s.op(match r.below(10) {
                0..=5 => "alg".into(),
                6..=8 => "badalg".into(),
                _ => format!("alg mut={}", random_mutation(r)),
            });
            if r.pct(60) {
                s.op("dig".into());
                s.op("cert 0".into());
                s.op("chal 0".into());
            }
        }
    }

    fn res(&self, s: &mut Scn, r: &mut Rng) {
        self.dev_slots(s, r);
        if r.pct(25) && BUF < 65500 {
            // a chain just beyond the certificate buffer
            let mut v: Vec<String> = s.get("slots").split(',').map(|x| x.to_string()).collect();
            let i = r.below(v.len() as u64) as usize;
            let d = r.below(PATH as u64 + 1) as usize;
            v[i] = pki::spec("valid", 'A', d, 1 + r.below(4) as u32, BUF + 1 + r.below(9) as usize, 32);
            s.set("slots", v.join(","));
        }
        for i in 0..r.range(2, 5) {
            if i > 0 {
                s.op(if r.pct(70) { "reset".into() } else { "reboot".into() });
            }
            let to = *r.pick(&[0u8, 1, 2, 3, 3, 3, 4, 4, 4, 4]);
            let mut ph = self.prefix(s, r, to);
            let mut o = self.step(&mut ph, r);
            if r.pct(10) {
                // refused anyway, in little space
                o = self.any_op(r);
            }
            match r.below(if to == 4 { 10 } else { 6 }) {
                0..=2 => {
                    let d = r.pick(&["need-1", "need+0", "need+1", "need-2", "need-4", "need-63", "need-64", "need-65"]).to_string();
                    o.push_str(&format!(" len={}", d));
                }
                3 => o.push_str(&format!(" len={}", r.below(12))),
                4 | 5 => o.push_str(&format!(" len={}", r.below(BUF as u64 + 300))),
                6 | 7 => o.push_str(&format!(" sign={}", r.pick(&["err", "short", "long", "empty", "erronce", "shortonce"]))),
                _ => {
                    o.push_str(&format!(" ent={}:{}", r.below(2), r.pick(&["eio", "eintr", "short"])));
                    if r.pct(40) {
                        o.push_str(&format!(" ent={}:{}", r.below(4), r.pick(&["eio", "eintr", "short"])));
                    }
                }
            }
            s.op(o);
        }
        // everything works afterwards
        s.op("reset".into());
        for o in ["ver", "caps", "alg", "dig", "cert 0", "chal 0"] {
            s.op(o.into());
        }
    }

    /// One responder for hundreds of requests.
    fn long(&self, s: &mut Scn, r: &mut Rng) {
        self.dev_slots(s, r);
        let full = ["ver", "caps", "alg", "dig", "cert 0", "chal 0"];
        let go = |s: &mut Scn, v: &[&str], n: u64| {
            for o in v {
                s.op(o.to_string());
            }
            s.op(format!("repeat {} {}", v.len(), n));
        };
        match r.below(12) {
            10 => {
                // sessions that fail, one after the other
                let mut v: Vec<String> = vec![];
                let to = r.below(6) as usize;
                for o in &full[..to] {
                    v.push(o.to_string());
                }
                v.push(match r.below(6) {
                    0 => "caps mut=set:0:18".into(),
                    1 => "rand".into(),
                    2 => "meas".into(),
                    3 => "badalg".into(),
                    4 => format!("{} len=need-1", full[to]),
                    _ => self.any_op(r),
                });
                v.push(if r.pct(80) { "reset".into() } else { "reboot".into() });
                let v: Vec<&str> = v.iter().map(|x| &x[..]).collect();
                go(s, &v, *r.pick(&[2u64, 3, 4, 5, 7, 8, 9, 10, 15, 16, 17, 31, 32, 64, 127, 128, 255, 256]));
            }
            11 => {
                let sign = format!("chal 0 sign={}", r.pick(&["err", "short", "long", "empty"]));
                go(s, &["ver", "caps", "alg", "dig", "cert 0", &sign, "reset"], r.range(2, 20));
            }
            0 => go(s, &["ver"], 256 + r.below(300)),
            1 => go(s, &["ver", "caps"], 130 + r.below(300)),
            2 => go(s, &["ver", "caps", "alg"], 90 + r.below(300)),
            3 => go(s, &full, 20 + r.below(60)),
            4 => go(s, &full, 256 + r.below(20)),
            5 => go(s, &["reset", "ver"], 256 + r.below(100)),
            6 => go(s, &["ver", "chal 0", "reset"], 256 + r.below(100)),
            7 => go(s, &["ver", "reboot"], 128 + r.below(200)),
            8 => {
                for o in &full[..3] {
                    s.op(o.to_string());
                }
                go(s, &["dig"], 60 + r.below(if TR > 20000 { 1700 } else { 200 }));
                s.op("reset".into());
            }
            _ => {
                for o in &full[..5] {
                    s.op(o.to_string());
                }
                go(s, &["chal 0"], 10 + r.below(if TR > 20000 { 400 } else { 60 }));
                s.op("reset".into());
            }
        }
        if r.pct(50) {
            s.op("reset".into());
        }
        for o in full {
            s.op(o.to_string());
        }
    }

    /// Fill the transcript to the last byte.
    fn brim(&self, s: &mut Scn, r: &mut Rng) {
        s.set("mode", "dev");
        let mut d = r.below(DEPTH.min(2) as u64 + 1) as usize;
        while d > 0 && pki::chain(&pki::spec("valid", 'A', d, 1, 0, 32)).bytes.len() > BUF {
            d -= 1;
        }
        let want = r.below(19) as i64 - 9;
        let others = r.below(N as u64) as usize;
        let dig = 8 + 32 * (1 + others);
        let tail = match r.below(3) {
            0 => 0,             // the certificate fills it
            1 => 142,           // the challenge does
            _ => 2 * 142,
        };
        // 138 bytes up to ALGORITHMS, 16 + chain for the certificate
        let room = TR as i64 + want - 138 - 16 - tail as i64;
        let base = pki::chain(&pki::spec("valid", 'A', d, 1, 0, 32)).bytes.len() as i64;
        let mut n = (room - base) / dig as i64;
        if room - n * dig as i64 > MAXCHAIN as i64 {
            n = (room - MAXCHAIN as i64 + dig as i64 - 1) / dig as i64;
        }
        let n = n.max(0);
        let size = (room - n * dig as i64).clamp(base, MAXCHAIN as i64) as usize;
        let mut v = vec![pki::spec("valid", 'A', d, 1, size, 32)];
        for i in 1..N {
            v.push(if i <= others { pki::spec("tiny", 'A', 0, i as u32, 0, 32) } else { "-".into() });
        }
        s.set("slots", v.join(","));
        s.op("ver".into());
        s.op("caps".into());
        let mut h = String::new();
        for b in negotiate_request() {
            h.push_str(&format!("{:02x}", b));
        }
        s.op(format!("raw {}", h));
        for _ in 0..n {
            s.op("dig".into());
        }
        s.op("cert 0".into());
        for _ in 0..=tail / 142 {
            s.op("chal 0".into());
        }
        s.op("reset".into());
        for o in ["ver", "caps", "alg", "cert 0", "chal 0"] {
            s.op(o.into());
        }
    }

    // ------------------------------------------------ scripted requester

    fn host_base(&self, s: &mut Scn, r: &mut Rng) {
        s.set("mode", "host");
        let h = hs(r);
        s.set("chain", if r.pct(92) { good_chain(r, h) } else { bad_chain(r, h) });
        s.set("victim", good_chain(r, h));
        if r.pct(60) {
            s.set("plain", 1);
        }
        if r.pct(20) {
            let c = good_chain(r, 32);
            s.set("hslots", slots(r, &c));
        }
    }

    fn hfuzz(&self, s: &mut Scn, r: &mut Rng) {
        self.host_base(s, r);
        for i in 0..r.range(1, 4) {
            if i > 0 {
                s.op("new".into());
            }
            let to = r.below(if caps() == 0 { 3 } else { 6 });
            let twice = if r.pct(12) { r.below(to + 1) } else { 99 };
            for j in 0..to {
                s.op("req".into());
                if j == twice {
                    s.op("req again=1".into());
                }
                s.op("rsp".into());
            }
            if r.pct(12) {
                // the right answer to a question that was not asked
                s.op(format!("rsp of={}", [4u64, 0x61, 0x63, 1, 2, 3][to as usize]));
                for _ in 0..6 {
                    s.op("req".into());
                    s.op("rsp".into());
                }
                continue;
            }
            if !r.pct(4) {
                s.op("req".into());
                if to == twice {
                    s.op("req again=1".into());
                }
            }
            s.op(match r.below(17) {
                16 => format!("rsp mut={}", peer::error_mutation(r)),
                0 => format!("rsp rand={}", r.below(10)),
                1 => format!("rsp rand={}", r.below(300)),
                2 | 3 => format!("rsp head={}", r.below(*r.clone().pick(&[8u64, 60, 200, 1300]))),
                4 => format!("rsp again={}", r.below(12)),
                5 => format!("rsp of={}", r.pick(&[4u64, 0x61, 0x63, 1, 2, 3, 0x7f])),
                6 => format!("rsp of={} mut=set:{}:{}", [4u64, 0x61, 0x63, 1, 2, 3][to as usize], 1 + r.below(3), r.below(256)),
                7 => {
                    let c = *r.pick(&[4u64, 0x61, 0x63, 1, 2, 3]);
                    format!("rsp of={} mut={}", c, random_mutation(r))
                }
                _ => {
                    let mut o = "rsp".to_string();
                    for _ in 0..if r.pct(70) { 1 } else { 2 } {
                        o.push_str(&format!(" mut={}", random_mutation(r)));
                    }
                    o
                }
            });
            // and on, whatever came of it
            for _ in 0..r.below(8) {
                s.op("req".into());
                s.op("rsp".into());
            }
            if r.pct(30) {
                s.op("rsp".into());
            }
        }
    }

    fn hnego(&self, s: &mut Scn, r: &mut Rng) {
        self.host_base(s, r);
        for i in 0..r.range(1, 4) {
            if i > 0 {
                s.op("new".into());
            }
            match r.below(10) {
                // version lists
                0..=2 => {
                    let n = if r.pct(85) { r.below(4) } else { *r.pick(&[0u64, 5, 127, 255]) };
                    let mut h = format!("100400000000{:02x}", n);
                    h.replace_range(10..12, "");
                    for _ in 0..n.min(6) {
                        let hi = *r.pick(&[0x10u8, 0x11, 0x11, 0x12, 0x13, 0x20, 0x01, 0x00, 0xff]);
                        let lo = if r.pct(80) { 0 } else { r.u64() as u8 };
                        h.push_str(&format!("{:02x}{:02x}", lo, hi));
                    }
                    s.op("req".into());
                    s.op(format!("rsp raw={}", h));
                    for _ in 0..r.below(6) {
                        s.op("req".into());
                        s.op("rsp".into());
                    }
                }
                // capability sets
                3 | 4 => {
                    s.op("req".into());
                    s.op("rsp".into());
                    s.op("req".into());
                    s.op(format!("rsp mut=flip:{}", 64 + r.below(32)));
                    for _ in 0..5 {
                        s.op("req".into());
                        s.op("rsp".into());
                    }
                }
                _ => {
                    for _ in 0..2 {
                        s.op("req".into());
                        s.op("rsp".into());
                    }
                    s.op("req".into());
                    let k = r.pick(&["spec", "mhash", "asym", "hash", "struct", "struct", "struct", "twice", "twice", "type", "count", "n", "ext", "more"]);
                    s.op(format!("rsp alg={}", k));
                    for _ in 0..r.below(5) {
                        s.op("req".into());
                        s.op("rsp".into());
                    }
                }
            }
        }
    }

    fn hres(&self, s: &mut Scn, r: &mut Rng) {
        self.host_base(s, r);
        for i in 0..r.range(2, 4) {
            if i > 0 {
                s.op("new".into());
            }
            let to = r.below(if caps() == 0 { 3 } else { 6 });
            for _ in 0..to {
                s.op("req".into());
                s.op("rsp".into());
            }
            let mut o = match r.below(4) {
                0 => format!("req len={}", r.below(60)),
                1 | 2 => format!("req len=need{}", r.pick(&["-1", "+0", "+1", "-2", "-8", "-33"])),
                _ => "req".into(),
            };
            if to == 5 && r.pct(50) {
                o.push_str(&format!(" ent={}:{}", r.below(2), r.pick(&["eio", "eintr", "short"])));
            }
            s.op(o);
            if r.pct(12) {
                // an answer, whether or not the question got out
                s.op(match r.below(4) {
                    0 => format!("rsp again={}", r.below(6)),
                    1 => format!("rsp of={}", r.pick(&[4u64, 0x61, 0x63, 1, 2, 3])),
                    _ => format!("rsp of={}", [4u64, 0x61, 0x63, 1, 2, 3][to as usize]),
                });
            }
            if r.pct(50) {
                // with room this time, or not yet
                s.op(if r.pct(70) { "req".into() } else { format!("req len=need{}", r.pick(&["-1", "+0", "-3"])) });
                s.op("req".into());
            }
            for _ in 0..6 {
                s.op("rsp".into());
                s.op("req".into());
            }
        }
        s.op("new".into());
        for _ in 0..6 {
            s.op("req".into());
            s.op("rsp".into());
        }
    }
}
