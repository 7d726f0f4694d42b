//! The discrete-event world: several requester/responder pairs, one clock.

use crate::alone;
use crate::endpoint::*;
use crate::model::*;
use crate::peer::{self, RefDev};
use crate::pki;
use crate::rng::{key, tag, Rng};
use crate::scn::Scn;
use crate::sys::{EntFault, EntKind};
use std::cmp::Reverse;
use std::collections::{BTreeMap, BinaryHeap};

pub const HOST_BUF: usize = 2048;
pub const DEV_BUF: usize = BUF + 1024;

/// A round trip on an undisturbed link takes less than this (send: 5 to 14
/// each way).
const MAX_RTT: u64 = 30;

enum Dev {
    Real(RealDev),
    Ref(RefDev),
}

struct Link {
    name: String,
    seed: u64,
    dev: Dev,
    /// never expected to complete
    impostor: bool,
    up: bool,
    stall_until: u64,
    part_until: u64,
    host: Option<RealHost>,
    host_slots: Slots,
    /// the root the requester trusts
    root: char,
    attempt: u32,
    completed: u32,
    target: u32,
    max_attempts: u32,
    pending: Option<Vec<u8>>,
    retries: u32,
    token: u64,
    sent: [u32; 2],
    /// frames sent by the host in this attempt
    asked: u32,
    last_at: [u64; 2],
    disturb: u64,
    disturb_at_start: u64,
    clean_failures: u32,
    ever_disturbed: bool,
    rec: [Vec<Vec<u8>>; 2],
    host_logs: Vec<(String, Vec<HostLog>)>,
}

#[derive(Clone)]
struct Frame {
    bytes: Vec<u8>,
    n: u32,
    attempt: u32,
    /// swallow the response (an inserted request)
    swallow: bool,
}

enum Ev {
    Deliver(usize, usize, Frame),
    Timeout(usize, u64),
    Start(usize),
    DevUp(usize),
}

pub struct World<'a> {
    s: &'a Scn,
    seed: u64,
    links: Vec<Link>,
    q: BinaryHeap<Reverse<(u64, u64)>>,
    evs: BTreeMap<u64, Ev>,
    now: u64,
    seq: u64,
    stream: bool,
    timeout: u64,
    retx: u32,
    solo: bool,
    flip: u64,
    /// responses seen on the wire, by code
    wire: BTreeMap<u8, Vec<u8>>,
    fired: u64,
    /// bystanders, kept until the end
    crowd: Vec<(RealDev, RealHost)>,
}

const DEFAULT_SLOTS: &str = "valid:A:1:1:0:32";

pub fn slots_of(s: &str) -> Slots {
    let mut v: Slots = vec![None; N];
    for (i, x) in s.split(',').enumerate() {
        if i < N && !x.is_empty() && x != "-" {
            v[i] = Some(pki::chain(x));
        }
    }
    v
}

pub fn ent_of(s: &str) -> Option<EntFault> {
    let (at, k) = s.split_once(':')?;
    Some(EntFault {
        at: at.parse().ok()?,
        kind: match k {
            "eio" => EntKind::Eio,
            "eintr" => EntKind::Eintr,
            _ => EntKind::Short,
        },
    })
}

impl<'a> World<'a> {
    pub fn new(s: &'a Scn) -> World<'a> {
        let seed = s.num("seed", 1);
        let n = s.num("links", 1).max(1) as usize;
        let solo = s.num("solo", 0) == 1;
        let flip = s.num("flip", 0);
        let mut links = vec![];
        for i in 0..n {
            let name = format!("l{}", i);
            let g = |k: &str| s.get(&format!("{}.{}", name, k)).to_string();
            let lseed = key(&[seed, tag(&name)]);
            let root = g("root").chars().next().unwrap_or('A');
            let slots = g("slots");
            let slots = slots_of(if slots.is_empty() { DEFAULT_SLOTS } else { &slots });
            let kind = g("dev");
            let impostor;
            let dev = match &kind[..] {
                "" | "real" => {
                    let mut d = RealDev::new(&format!("{}.dev", name), lseed, &slots);
                    d.twins = s.num("twins", 0) == 1;
                    if solo || flip > 0 {
                        d.start_log();
                    }
                    // A chain that is not valid must never be accepted.
                    if let Some(c) = slots[0] {
                        impostor = c.trust(root) != pki::Trust::Valid || c.inters.len() > DEPTH;
                    } else {
                        impostor = true;
                    }
                    Dev::Real(d)
                }
                k => {
                    let c = slots[0].unwrap_or_else(|| pki::chain("valid:A:1:1:0:32"));
                    let v = g("victim");
                    let v = pki::chain(if v.is_empty() { "valid:A:0:7:0:32" } else { &v });
                    let mut d = RefDev::new(lseed, c, v, k);
                    d.plain = s.num("plain", 0) == 1;
                    impostor =
                        k != "legit" || c.trust(root) != pki::Trust::Valid || c.inters.len() > DEPTH;
                    Dev::Ref(d)
                }
            };
            let hs = g("hslots");
            links.push(Link {
                host_slots: slots_of(&hs),
                root,
                name,
                seed: lseed,
                dev,
                impostor,
                up: true,
                stall_until: 0,
                part_until: 0,
                host: None,
                attempt: 0,
                completed: 0,
                target: s.num("sessions", 1) as u32,
                max_attempts: s.num("attempts", 12) as u32,
                pending: None,
                retries: 0,
                token: 0,
                sent: [0, 0],
                asked: 0,
                last_at: [0, 0],
                disturb: 0,
                disturb_at_start: 0,
                clean_failures: 0,
                ever_disturbed: false,
                rec: [vec![], vec![]],
                host_logs: vec![],
            });
        }
        World {
            s,
            seed,
            links,
            q: BinaryHeap::new(),
            evs: BTreeMap::new(),
            now: 0,
            seq: 0,
            stream: s.get("transport") == "stream",
            timeout: s.num("timeout", 200),
            retx: s.num("retx", 0) as u32,
            solo,
            flip,
            wire: BTreeMap::new(),
            fired: 0,
            crowd: vec![],
        }
    }

    fn at(&mut self, t: u64, e: Ev) {
        self.seq += 1;
        self.q.push(Reverse((t, self.seq)));
        self.evs.insert(self.seq, e);
    }
    fn disturb(&mut self, l: usize) {
        self.links[l].disturb += 1;
        self.links[l].ever_disturbed = true;
    }
    fn faults(&self, l: usize, dir: usize, n: u32) -> Vec<Vec<String>> {
        let d = ["q", "r"][dir];
        self.s
            .faults
            .iter()
            .filter(|f| {
                f.len() >= 4
                    && f[1].parse() == Ok(l)
                    && f[2] == d
                    && f[3].parse() == Ok(n)
            })
            .cloned()
            .collect()
    }
    fn fire(&mut self, l: usize, what: &str) {
        self.fired += 1;
        count(&format!("fault {}", what));
        shape(&format!("fault {}", what));
        self.disturb(l);
    }

    pub fn run(&mut self) {
        for l in 0..self.links.len() {
            let d = Rng::new(&[self.seed, 0x57a7, l as u64]).below(30);
            self.at(d, Ev::Start(l));
        }
        let mut steps = 0u64;
        while let Some(Reverse((t, id))) = self.q.pop() {
            self.now = t;
            steps += 1;
            if steps > 20_000 {
                count("step limit");
                break;
            }
            match self.evs.remove(&id).unwrap() {
                Ev::Deliver(l, dir, f) => self.deliver(l, dir, f),
                Ev::Timeout(l, tok) => self.timed_out(l, tok),
                Ev::Start(l) => self.start(l),
                Ev::DevUp(l) => {
                    self.links[l].up = true;
                    if let Dev::Real(d) = &mut self.links[l].dev {
                        d.boot();
                    }
                }
            }
        }
        rec(|r| *r.counts.entry("simulated ms".into()).or_insert(0) += self.now);
        for l in 0..self.links.len() {
            self.retire(l);
            let k = &self.links[l];
            if k.completed < k.target && !k.impostor && k.clean_failures == 0 && !k.ever_disturbed {
                violation(&["C04"], format!("{}: {} of {} sessions", k.name, k.completed, k.target));
            }
        }
        if self.flip > 0 {
            for k in &self.links {
                if let Dev::Real(d) = &k.dev {
                    fresh_dev(d, self.flip);
                }
            }
        }
        if self.solo {
            quiet_alone(|| {
                for k in &self.links {
                    if let Dev::Real(d) = &k.dev {
                        if let Some(log) = &d.log {
                            solo_dev(&d.name, &d.slots, log);
                        }
                    }
                    for (name, log) in &k.host_logs {
                        solo_host(name, k.root, &k.host_slots, log);
                    }
                }
            });
            if self.s.num("alone", 0) == 1 {
                let mut logs = alone::Logs::new(self.seed);
                for k in &self.links {
                    if let Dev::Real(d) = &k.dev {
                        if let Some(log) = &d.log {
                            let slots = self.s.get(&format!("{}.slots", k.name));
                            logs.dev(&d.name, if slots.is_empty() { DEFAULT_SLOTS } else { slots }, log);
                        }
                    }
                    for (name, log) in &k.host_logs {
                        logs.host(name, k.root, self.s.get(&format!("{}.hslots", k.name)), log);
                    }
                }
                logs.check();
            }
        }
    }

    // ---- requester side

    fn retire(&mut self, l: usize) {
        let k = &mut self.links[l];
        if let Some(mut h) = k.host.take() {
            if self.flip > 0 && h.nonce_at.is_some() && (k.attempt < 3 || h.nonce_at.unwrap().0 % 5 == 0) {
                fresh_host(&h, self.flip);
            }
            if let Some(log) = h.log.take() {
                k.host_logs.push((h.name.clone(), log));
            }
        }
        k.pending = None;
        k.token += 1;
    }

    fn start(&mut self, l: usize) {
        let solo = self.solo;
        let k = &mut self.links[l];
        if k.completed >= k.target || k.attempt >= k.max_attempts {
            return;
        }
        k.attempt += 1;
        k.asked = 0;
        k.disturb_at_start = k.disturb;
        if !k.up || k.stall_until > self.now || k.part_until > self.now {
            k.disturb += 1;
        }
        let name = format!("{}.host{}", k.name, k.attempt);
        let mut h = RealHost::new(&name, k.seed, k.root, &k.host_slots);
        if solo || self.flip > 0 {
            h.log = Some(vec![]);
        }
        k.host = Some(h);
        self.step(l);
    }

    fn step(&mut self, l: usize) {
        let n = self.links[l].sent[0];
        let mut len = HOST_BUF;
        let mut ents = vec![];
        for f in self.faults(l, 0, n) {
            match &f[0][..] {
                "hbuf" => {
                    let need = self.links[l].host.as_ref().unwrap().need() as i64;
                    len = (need + f[4].parse::<i64>().unwrap_or(0)).max(0) as usize;
                    self.fire(l, "requester buffer");
                }
                "hent" => {
                    if let Some(e) = ent_of(&f[4]) {
                        if e.kind == EntKind::Eio {
                            self.disturb(l);
                        }
                        ents.push(e);
                    }
                }
                _ => (),
            }
        }
        let k = &mut self.links[l];
        match k.host.as_mut().unwrap().next(len, &ents) {
            HostOut::Req(b) => {
                k.pending = Some(b.clone());
                k.retries = 0;
                k.asked += 1;
                self.send(l, 0, b);
                self.arm(l);
            }
            HostOut::Complete => self.over(l, false),
            _ => self.over(l, false),
        }
    }

    fn arm(&mut self, l: usize) {
        self.links[l].token += 1;
        let tok = self.links[l].token;
        self.at(self.now + self.timeout, Ev::Timeout(l, tok));
    }

    fn timed_out(&mut self, l: usize, tok: u64) {
        if self.links[l].token != tok || self.links[l].host.is_none() {
            return;
        }
        shape("timeout");
        count("requester timeout");
        if self.timeout < MAX_RTT {
            // a premature timeout: frames may still be in flight
            self.disturb(l);
        }
        if self.links[l].retries < self.retx {
            self.links[l].retries += 1;
            let b = self.links[l].pending.clone().unwrap();
            count("requester retransmission");
            self.send(l, 0, b);
            self.arm(l);
        } else {
            self.over(l, false);
        }
    }

    /// The current attempt ended.
    fn over(&mut self, l: usize, done: bool) {
        if self.links[l].host.as_ref().map_or(false, |h| h.short) {
            self.disturb(l);
        }
        let k = &mut self.links[l];
        let clean = k.disturb == k.disturb_at_start;
        if done {
            k.completed += 1;
            k.clean_failures = 0;
            let h = k.host.as_mut().unwrap();
            let rsp = h.model.rsp_caps & caps();
            let cert = rsp & CERT != 0;
            let want = 3 + if cert { 2 } else { 0 } + if cert && rsp & CHAL != 0 { 1 } else { 0 };
            if clean && (h.model.exchanges != want || k.asked != want) {
                violation(
                    &["C04"],
                    format!("{}: {} exchanges, {} requests instead of {}", h.name, h.model.exchanges, k.asked, want),
                );
            }
            // Completed for good: no further request.
            h.next(HOST_BUF, &[]);
            if self.s.num("after", 0) == 1 {
                let n = h.next(0, &[]);
                if n != HostOut::Complete {
                    violation(&["C11"], format!("{}: {:?} after completion", h.name, n));
                }
            }
        } else if clean && !k.impostor {
            k.clean_failures += 1;
            if !k.ever_disturbed || k.clean_failures >= 2 {
                violation(
                    &["C04"],
                    format!("{} attempt {}: no completion on an undisturbed link", k.name, k.attempt),
                );
            }
        }
        note(|| format!("-- {} attempt over, done={} clean={}", l, done, clean));
        self.retire(l);
        let k = &self.links[l];
        if k.completed < k.target && k.attempt < k.max_attempts {
            let gap = Rng::new(&[self.seed, 0x9a9, l as u64, k.attempt as u64]).below(150);
            self.at(self.now + 1 + gap, Ev::Start(l));
        }
    }

    // ---- network

    fn send(&mut self, l: usize, dir: usize, bytes: Vec<u8>) {
        let k = &mut self.links[l];
        let n = k.sent[dir];
        k.sent[dir] += 1;
        k.rec[dir].push(bytes.clone());
        let attempt = k.attempt;
        if dir == 1 && bytes.len() > 1 {
            self.wire.insert(bytes[1], bytes.clone());
        }
        let mut f = Frame { bytes, n, attempt, swallow: false };
        let mut extra: Vec<(usize, u64, Frame)> = vec![];
        let mut delay = 0u64;
        let mut lost = self.links[l].part_until > self.now;
        if lost {
            count("frame lost in partition");
            self.disturb(l);
        }
        for x in self.faults(l, dir, n) {
            let a = |i: usize| x.get(i).cloned().unwrap_or_default();
            let num = |i: usize| a(i).parse::<u64>().unwrap_or(0);
            match &x[0][..] {
                "drop" => {
                    self.fire(l, "drop");
                    lost = true;
                }
                "crowd" => {
                    // other endpoints come, do something, and go or stay
                    count("fault crowd");
                    let hold = a(5) == "hold";
                    for i in 0..num(4) {
                        let k = key(&[self.seed, tag("crowd"), l as u64, n as u64, i]);
                        let mut d = RealDev::new("crowd.dev", k, &vec![None; N]);
                        let mut h = RealHost::new("crowd.host", k, 'A', &vec![None; N]);
                        let mut f = vec![];
                        for _ in 0..1 + i % 3 {
                            if let HostOut::Req(q) = h.next(2048, &[]) {
                                f = d.handle(&q, &Opt { len: DEV_BUF, ents: vec![], plan: Plan::Ok, ekey: 0 }).out;
                            }
                            h.handle(&f);
                        }
                        if hold {
                            self.crowd.push((d, h));
                        }
                    }
                }
                "dup" => {
                    self.fire(l, "duplicate");
                    extra.push((dir, 1 + num(4), f.clone()));
                }
                "delay" => {
                    self.fire(l, "delay");
                    delay += num(4);
                }
                "mut" => {
                    let was = f.bytes.clone();
                    peer::mutate(&a(4), &mut f.bytes, key(&[self.links[l].seed, n as u64]));
                    if was != f.bytes {
                        self.fire(l, &format!("corrupt {}", a(4).split(':').next().unwrap()));
                    }
                }
                "replay" => {
                    let v = &self.links[l].rec[dir];
                    let i = (num(4) as usize) % v.len();
                    f.bytes = v[i].clone();
                    self.fire(l, "replay old frame");
                }
                "echo" => {
                    // an old frame arrives in addition
                    let v = &self.links[l].rec[dir];
                    let i = (num(4) as usize) % v.len();
                    let e = Frame { bytes: v[i].clone(), ..f.clone() };
                    extra.push((dir, num(5), e));
                    self.fire(l, "insert old frame");
                }
                "reflect" => {
                    // back to its sender
                    extra.push((1 - dir, 0, f.clone()));
                    self.fire(l, "reflect");
                }
                "cross" => {
                    let m = num(4) as usize % self.links.len();
                    if m != l {
                        self.fire(l, "misdelivery");
                        self.disturb(m);
                        let at = self.links[m].attempt;
                        let e = Frame { attempt: at, ..f.clone() };
                        self.at(self.now + 3, Ev::Deliver(m, dir, e));
                        if a(5) != "copy" {
                            lost = true;
                        }
                    }
                }
                "inject" => {
                    let b = peer::request(&a(4), &[], key(&[self.links[l].seed, n as u64, 0x1213]));
                    extra.push((dir, num(5), Frame { bytes: b, swallow: a(6) == "swallow", ..f.clone() }));
                    self.fire(l, "inject");
                }
                "answer" if dir == 0 && f.bytes.len() > 1 => {
                    // somebody else answers, the responder never sees it
                    let code = f.bytes[1] & 0x7f;
                    let code = match f.bytes[1] {
                        0x84 => 4,
                        0xE1 => 0x61,
                        0xE3 => 0x63,
                        0x81 => 1,
                        0x82 => 2,
                        0x83 => 3,
                        _ => code,
                    };
                    let b = if a(4) == "rec" {
                        self.wire.get(&code).cloned()
                    } else {
                        let c = match &self.links[l].dev {
                            Dev::Real(d) => d.slots[0],
                            Dev::Ref(d) => Some(d.chain),
                        };
                        let c = c.unwrap_or_else(|| pki::chain("valid:A:1:1:0:32"));
                        let mut p = RefDev::new(key(&[self.seed, n as u64]), c, c, "wrongkey");
                        p.hash = self.links[l].host.as_ref().map_or(1, |h| h.model.hash);
                        if let Some(h) = &self.links[l].host {
                            p.tr = h.model.tr.clone();
                        }
                        Some(p.make(code, &f.bytes))
                    };
                    if let Some(b) = b {
                        self.fire(l, if a(4) == "rec" { "answer recorded" } else { "answer forged" });
                        extra.push((1, 0, Frame { bytes: b, ..f.clone() }));
                        lost = true;
                    }
                }
                "part" => {
                    self.fire(l, "partition");
                    let e = self.now + num(4);
                    self.links[l].part_until = e;
                    lost = true;
                }
                "stall" => {
                    self.fire(l, "stall");
                    let e = self.now + num(4);
                    self.links[l].stall_until = e;
                }
                "hostcrash" => {
                    self.fire(l, "requester crash");
                    self.retire(l);
                    let g = 1 + num(4);
                    self.at(self.now + g, Ev::Start(l));
                }
                "devcrash" => {
                    self.fire(l, "responder crash");
                    self.links[l].up = false;
                    let g = 1 + num(4);
                    self.at(self.now + g, Ev::DevUp(l));
                }
                "devreset" => {
                    self.fire(l, "responder reset");
                    if let Dev::Real(d) = &mut self.links[l].dev {
                        d.reset();
                    }
                }
                _ => (),
            }
        }
        let jit = Rng::new(&[self.links[l].seed, 0x117, dir as u64, n as u64]).below(10);
        let mut t = self.now + 5 + jit + delay;
        if self.stream {
            if self.links[l].last_at[dir] > t {
                // held up behind an earlier frame
                self.disturb(l);
                t = self.links[l].last_at[dir];
            }
            self.links[l].last_at[dir] = t;
        }
        if !lost {
            self.at(t, Ev::Deliver(l, dir, f));
        }
        for (d, dt, e) in extra {
            let mut t = self.now + 4 + dt;
            if self.stream {
                t = t.max(self.links[l].last_at[d]);
                self.links[l].last_at[d] = t;
            }
            self.at(t, Ev::Deliver(l, d, e));
        }
    }

    fn deliver(&mut self, l: usize, dir: usize, f: Frame) {
        if f.attempt != self.links[l].attempt {
            // left over from an earlier attempt
            self.disturb(l);
            count("stale frame");
        }
        if dir == 1 {
            let k = &mut self.links[l];
            let h = match k.host.as_mut() {
                Some(h) => h,
                None => return,
            };
            match h.handle(&f.bytes) {
                HostRes::More => {
                    k.token += 1;
                    k.pending = None;
                    self.step(l)
                }
                HostRes::Done => self.over(l, true),
                _ => self.over(l, false),
            }
            return;
        }
        if self.links[l].stall_until > self.now {
            let t = self.links[l].stall_until;
            self.disturb(l);
            self.at(t, Ev::Deliver(l, dir, f));
            return;
        }
        if !self.links[l].up {
            self.disturb(l);
            return;
        }
        let mut opt = Opt { len: DEV_BUF, ents: vec![], plan: Plan::Ok, ekey: 0 };
        for x in self.faults(l, 0, f.n) {
            match &x[0][..] {
                "sign" => {
                    opt.plan = plan(&x[4]);
                    if opt.plan.fails() || opt.plan.bogus() {
                        self.disturb(l);
                    }
                }
                "ent" => {
                    if let Some(e) = ent_of(&x[4]) {
                        if e.kind == EntKind::Eio {
                            self.disturb(l);
                        }
                        opt.ents.push(e);
                    }
                }
                "buf" => {
                    if let Dev::Real(d) = &self.links[l].dev {
                        let n = d.need(&f.bytes) as i64 + x[4].parse::<i64>().unwrap_or(0);
                        opt.len = n.max(0) as usize;
                        self.fire(l, "responder buffer");
                    }
                }
                _ => (),
            }
        }
        let reboot = self.s.get("onerr") == "boot";
        let mut out = vec![];
        match &mut self.links[l].dev {
            Dev::Real(d) => {
                if !d.alive {
                    d.boot();
                }
                let o = d.handle(&f.bytes, &opt);
                out = o.out;
                if d.short {
                    self.links[l].disturb += 1;
                    self.links[l].ever_disturbed = true;
                }
                if o.crashed {
                    self.links[l].up = false;
                    self.disturb(l);
                    self.at(self.now + 40, Ev::DevUp(l));
                } else if !o.ok {
                    if let Dev::Real(d) = &mut self.links[l].dev {
                        if reboot {
                            d.boot()
                        } else {
                            d.reset()
                        }
                    }
                }
            }
            Dev::Ref(d) => out.extend(d.handle(&f.bytes)),
        }
        if f.swallow || out.is_empty() {
            return;
        }
        self.send(l, 1, out);
    }
}

/// Solo replays report C14 only and leave no trace in the history.
fn quiet_alone(f: impl FnOnce()) {
    f()
}

pub fn run(s: &Scn) {
    let mut w = World::new(s);
    w.run();
}
