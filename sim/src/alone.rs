//! Replays of single endpoints in processes that have run nothing else.
//!
//! Replaying an endpoint later in the same process shows what others did to
//! it, but not what the first user of a process-wide variable leaves behind
//! for good. So a second process starts before any library call, makes nothing
//! but the chains, and forks once for each log: each endpoint is the first one
//! its process ever sees.

use crate::endpoint::{self, count, violation, DevLog, HostLog, Opt, Seen, PLANS};
use crate::net::{ent_of, slots_of};
use crate::pair::{self, Log};
use crate::rng::{mix, Rng};
use crate::sys::{EntFault, EntKind};
use std::cell::RefCell;
use std::fs::File;
use std::io::{BufRead, BufReader, Read, Write};
use std::os::fd::FromRawFd;

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn alarm(seconds: u32) -> u32;
    fn pipe(fds: *mut i32) -> i32;
    fn _exit(code: i32) -> !;
}

thread_local! {
    static ZYGOTE: RefCell<Option<(File, BufReader<File>)>> = const { RefCell::new(None) };
}

/// A few of the logs of a run
pub struct Logs {
    rng: Rng,
    seen: u64,
    keep: Vec<String>,
}

fn ents(v: &[EntFault]) -> String {
    let s: Vec<String> = v
        .iter()
        .map(|e| {
            let k = match e.kind {
                EntKind::Eio => "eio",
                EntKind::Eintr => "eintr",
                EntKind::Short => "short",
            };
            format!("{}:{}", e.at, k)
        })
        .collect();
    s.join(",")
}
fn unents(s: &str) -> Vec<EntFault> {
    s.split(',').filter_map(ent_of).collect()
}
fn seen(s: &Seen) -> String {
    format!("{}\t{}\t{}\t{}\t{}", hex(&s.out), s.res.replace(['\t', '\n'], " "), s.state, hex(&s.tr), s.exp)
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
fn unseen(f: &[&str]) -> Seen {
    Seen {
        out: unhex(f[0]),
        res: f[1].into(),
        state: f[2].into(),
        tr: unhex(f[3]),
        exp: f[4].parse().unwrap(),
    }
}

impl Logs {
    pub fn new(seed: u64) -> Logs {
        Logs { rng: Rng::new(&[seed, 0xa10e]), seen: 0, keep: vec![] }
    }
    fn add(&mut self, t: String) {
        const MOST: usize = 4;
        self.seen += 1;
        if self.keep.len() < MOST {
            self.keep.push(t);
        } else {
            let i = self.rng.below(self.seen) as usize;
            if i < MOST {
                self.keep[i] = t;
            }
        }
    }
    pub fn dev(&mut self, name: &str, slots: &str, log: &[DevLog]) {
        let mut all = format!("dev\t{}\t{}\n", name, slots);
        for l in log {
            let t = match l {
                DevLog::New(k) => format!("n\t{}", k),
                DevLog::Reset => "r".into(),
                DevLog::Msg(m, o, s) => {
                    let p = PLANS.iter().find(|p| p.1 == o.plan).map_or("ok", |p| p.0);
                    format!("m\t{}\t{}\t{}\t{}\t{}\t{}", hex(m), o.len, ents(&o.ents), p, o.ekey, seen(s))
                }
            };
            all.push_str(&t);
            all.push('\n');
        }
        self.add(all);
    }
    pub fn host(&mut self, name: &str, root: char, slots: &str, log: &[HostLog]) {
        let mut all = format!("host\t{}\t{}\t{}\n", name, slots, root);
        for l in log {
            let t = match l {
                HostLog::Next(len, e, k, s) => format!("x\t{}\t{}\t{}\t{}", len, ents(e), k, seen(s)),
                HostLog::Msg(m, k, s) => format!("h\t{}\t{}\t{}", hex(m), k, seen(s)),
            };
            all.push_str(&t);
            all.push('\n');
        }
        self.add(all);
    }
    /// Hand the logs to the other process and enter what it finds.
    pub fn check(mut self) {
        let head = if self.rng.pct(80) { format!("pair\t{}\n", self.rng.u64()) } else { String::new() };
        let found = ZYGOTE.with(|z| {
            let mut z = z.borrow_mut();
            let z = z.as_mut().expect("no process to replay in");
            let text = head + &self.keep.concat();
            z.0.write_all(&(text.len() as u64).to_le_bytes()).unwrap();
            z.0.write_all(text.as_bytes()).unwrap();
            let mut v = vec![];
            loop {
                let mut l = String::new();
                let n = z.1.read_line(&mut l).unwrap();
                assert!(n > 0, "the process that replays endpoints alone is gone");
                match l.trim_end() {
                    "end" => return v,
                    x => v.push(x.to_string()),
                }
            }
        });
        for l in found {
            match l.split_once('\t') {
                Some(("v", m)) => violation(&["C14"], format!("{} (in a process of its own)", m)),
                Some(("c", m)) => {
                    if let Some((k, n)) = m.split_once('\t') {
                        for _ in 0..n.parse::<u64>().unwrap_or(0) {
                            count(k);
                        }
                    }
                }
                _ => count("replayed in a process of its own"),
            }
        }
    }
}

fn read(head: &[&str], body: &[&str]) -> Log {
    let slots = slots_of(head[2]);
    match head[0] {
        "dev" => {
            let log: Vec<DevLog> = body
                .iter()
                .map(|l| {
                    let f: Vec<&str> = l.split('\t').collect();
                    match f[0] {
                        "n" => DevLog::New(f[1].parse().unwrap()),
                        "r" => DevLog::Reset,
                        _ => {
                            let o = Opt {
                                len: f[2].parse().unwrap(),
                                ents: unents(f[3]),
                                plan: endpoint::plan(f[4]),
                                ekey: f[5].parse().unwrap(),
                            };
                            DevLog::Msg(unhex(f[1]), o, unseen(&f[6..]))
                        }
                    }
                })
                .collect();
            Log::Dev(head[1].into(), slots, log)
        }
        _ => {
            let log: Vec<HostLog> = body
                .iter()
                .map(|l| {
                    let f: Vec<&str> = l.split('\t').collect();
                    match f[0] {
                        "x" => {
                            HostLog::Next(f[1].parse().unwrap(), unents(f[2]), f[3].parse().unwrap(), unseen(&f[4..]))
                        }
                        _ => HostLog::Msg(unhex(f[1]), f[2].parse().unwrap(), unseen(&f[3..])),
                    }
                })
                .collect();
            Log::Host(head[1].into(), head[3].chars().next().unwrap(), slots, log)
        }
    }
}

/// In a process of its own; its status.
fn apart(out: &mut File, secs: u32, f: impl FnOnce()) -> i32 {
    let pid = unsafe { fork() };
    assert!(pid >= 0, "fork");
    if pid == 0 {
        unsafe { alarm(secs) };
        endpoint::start(false);
        if std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).is_err() {
            unsafe { _exit(3) };
        }
        let mut o = String::new();
        let rec = endpoint::take();
        for v in rec.viol {
            o.push_str(&format!("v\t{}\n", v.msg.replace('\n', " ")));
        }
        for (k, n) in rec.counts {
            if k.starts_with("preempted") || k.starts_with("accesses") {
                o.push_str(&format!("c\t{}\t{}\n", k, n));
            }
        }
        o.push_str("ok\n");
        let _ = out.write_all(o.as_bytes());
        unsafe { _exit(0) };
    }
    let mut st = 0;
    let r = unsafe { waitpid(pid, &mut st, 0) };
    assert!(r == pid, "waitpid");
    assert!(st != 3 << 8, "replaying endpoints apart failed");
    st
}

const PAIRS: u64 = 4;

fn serve(text: &str, out: &mut File) {
    let mut pairs: Option<u64> = None;
    let mut logs: Vec<(Vec<&str>, Vec<&str>)> = vec![];
    for l in text.lines() {
        let f: Vec<&str> = l.split('\t').collect();
        match f[0] {
            "pair" => pairs = f[1].parse().ok(),
            "dev" | "host" => {
                // made here, so that the next logs find them
                slots_of(f[2]);
                logs.push((f, vec![]));
            }
            _ => logs.last_mut().unwrap().1.push(l),
        }
    }
    for r in "ABCD".chars() {
        crate::pki::root(r);
    }
    for (h, b) in &logs {
        let st = apart(out, 20, || pair::run(&read(h, b)));
        if st != 0 {
            out.write_all(format!("v\t{}: the process ends with status {:x} alone\n", h[1], st).as_bytes()).unwrap();
        }
    }
    let pairs = pairs.filter(|_| logs.len() > 1);
    for seed in pairs.iter().flat_map(|s| (0..PAIRS).map(move |k| mix(s ^ k))) {
        let mut r = Rng::new(&[seed]);
        let i = r.below(logs.len() as u64) as usize;
        // rather two of a kind
        let mut j = (i + 1 + r.below(logs.len() as u64 - 1) as usize) % logs.len();
        if logs[i].0[0] != logs[j].0[0] && r.pct(80) {
            j = (0..logs.len()).find(|k| *k != i && logs[*k].0[0] == logs[i].0[0]).unwrap_or(j);
        }
        // a process that takes too long tells nothing
        apart(out, 60, || pair::replay(seed, read(&logs[i].0, &logs[i].1), read(&logs[j].0, &logs[j].1)));
    }
    out.write_all(b"end\n").unwrap();
}

/// Start the other process. To be called before the library has done anything
/// and before there are threads.
pub fn prepare() {
    let (mut to, mut from) = ([0i32; 2], [0i32; 2]);
    unsafe {
        assert!(pipe(to.as_mut_ptr()) == 0 && pipe(from.as_mut_ptr()) == 0, "pipe");
    }
    let f = |fd: i32| unsafe { File::from_raw_fd(fd) };
    let (to_r, to_w, from_r, mut from_w) = (f(to[0]), f(to[1]), f(from[0]), f(from[1]));
    let pid = unsafe { fork() };
    assert!(pid >= 0, "fork");
    if pid == 0 {
        drop((to_w, from_r));
        let mut r = to_r;
        loop {
            let mut n = [0u8; 8];
            if r.read_exact(&mut n).is_err() {
                unsafe { _exit(0) };
            }
            let mut t = vec![0; u64::from_le_bytes(n) as usize];
            let ok = r.read_exact(&mut t).is_ok()
                && std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    serve(std::str::from_utf8(&t).unwrap(), &mut from_w)
                }))
                .is_ok();
            if !ok {
                unsafe { _exit(3) };
            }
        }
    }
    ZYGOTE.with(|z| *z.borrow_mut() = Some((to_w, BufReader::new(from_r))));
}
