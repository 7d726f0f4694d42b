//! Two endpoints on two threads, one preempted inside its library calls.
//!
//! The logs of two endpoints are replayed in a process of their own, each on
//! its own thread. The first thread stops at instructions the seed chooses
//! (the processor single-steps it: the trap flag, and a handler that counts;
//! instructions that read or write a variable of the program, and those
//! after them, are chosen more than others) and where the library waits for
//! the platform (entropy, the signer); each time the second thread makes one whole call before the first goes on. So
//! the schedule is the seed's, not the operating system's. A thread that
//! cannot go on because the other one holds a lock ends the preemption, and
//! the two run on as they like: a lock is no influence.

use crate::endpoint::{self, count, solo_dev, solo_host, violation, DevLog, HostLog, Slots};
use crate::rng::{mix, Rng};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::OnceLock;
use std::time::{Duration, Instant};

pub enum Log {
    Dev(String, Slots, Vec<DevLog>),
    Host(String, char, Slots, Vec<HostLog>),
}

#[derive(Clone, Copy, PartialEq)]
enum Role {
    None,
    First,
    Second,
}

thread_local! {
    static ROLE: Cell<Role> = const { Cell::new(Role::None) };
    static STEPPED: Cell<bool> = const { Cell::new(false) };
}

/// 1 while the second thread has its turn
static TURN: AtomicU32 = AtomicU32::new(0);
/// how far the two threads are
static AT: AtomicUsize = AtomicUsize::new(0);
static DONE: AtomicUsize = AtomicUsize::new(0);
static KINDS: OnceLock<(Vec<u16>, Vec<u16>)> = OnceLock::new();
static READY: AtomicBool = AtomicBool::new(false);
static OVER: AtomicBool = AtomicBool::new(false);
static FREE: AtomicBool = AtomicBool::new(false);
static STEPS: AtomicU64 = AtomicU64::new(0);
static NEXT: AtomicU64 = AtomicU64::new(u64::MAX);
static SEED: AtomicU64 = AtomicU64::new(0);
static LEFT: AtomicU64 = AtomicU64::new(0);
/// of a call: preemptions at accesses to variables left, and one in how many
static FEW: AtomicU64 = AtomicU64::new(0);
static RATE: AtomicU64 = AtomicU64::new(1);
/// the only kind of call to preempt, or 0
static FOCUS: AtomicUsize = AtomicUsize::new(0);
static MET: AtomicU64 = AtomicU64::new(0);
static TRAPPED: AtomicU64 = AtomicU64::new(0);
static SEAMED: AtomicU64 = AtomicU64::new(0);

const MOST_STEPS: u64 = 300_000;

fn draw() -> u64 {
    mix(SEED.fetch_add(0x9e37_79b9_7f4a_7c15, SeqCst))
}
/// The number of instructions up to the next preemption.
fn gap() -> u64 {
    let most = 4 + draw() % 12;
    1 + draw() % (1 << most)
}

/// The second thread makes one call. Neither allocates nor locks: this runs
/// in the signal handler.
fn hand_over() -> bool {
    if OVER.load(SeqCst) || FREE.load(SeqCst) {
        return false;
    }
    TURN.store(1, SeqCst);
    let t = Instant::now();
    let mut n = 0u64;
    while TURN.load(SeqCst) == 1 {
        n += 1;
        std::thread::yield_now();
        if n % 64 == 0 && t.elapsed() > Duration::from_millis(1500) {
            FREE.store(true, SeqCst);
            return false;
        }
    }
    true
}

/// Before each entry of a log.
pub fn gate() {
    match ROLE.get() {
        Role::None => (),
        Role::First => {
            // mostly, the second thread first gets to where its next call is
            // of the same kind as this one
            let i = AT.fetch_add(1, SeqCst);
            let (a, b) = KINDS.get().unwrap();
            if draw() % 10 < 7 {
                let done = DONE.load(SeqCst);
                let n = a.get(i).and_then(|k| b.iter().skip(done).take(24).position(|x| x == k));
                for _ in 0..n.unwrap_or(0) {
                    hand_over();
                }
                if n.is_some() && draw() % 4 < 3 && NEXT.load(SeqCst) != u64::MAX {
                    NEXT.store(STEPS.load(SeqCst) + gap(), SeqCst);
                }
            }
            FEW.store(1 + draw() % 3, SeqCst);
            RATE.store([1, 2, 6, 20, 60, 200][(draw() % 6) as usize], SeqCst);
            let focus = FOCUS.load(SeqCst);
            STEPPED.set(
                !OVER.load(SeqCst)
                    && !FREE.load(SeqCst)
                    && STEPS.load(SeqCst) < MOST_STEPS
                    && (focus == 0 || a.get(i).is_some_and(|k| *k as usize == focus)),
            )
        }
        Role::Second => {
            // the turn that ends here, if this is not the first entry
            if READY.swap(true, SeqCst) {
                DONE.fetch_add(1, SeqCst);
                TURN.store(0, SeqCst);
            }
            while TURN.load(SeqCst) == 0 && !FREE.load(SeqCst) {
                std::thread::yield_now();
            }
        }
    }
}

/// The library is waiting for the platform.
pub fn seam() {
    if ROLE.get() == Role::First && LEFT.load(SeqCst) > 0 && draw() % 2 == 0 {
        LEFT.fetch_sub(1, SeqCst);
        step(false);
        if hand_over() {
            SEAMED.fetch_add(1, SeqCst);
        }
        step(true);
    }
}

#[repr(C)]
struct Action {
    handler: usize,
    mask: [u64; 16],
    flags: i32,
    restorer: usize,
}
extern "C" {
    fn sigaction(signal: i32, new: *const Action, old: *mut Action) -> i32;
}
const TRAP: u64 = 0x100;

extern "C" {
    static __data_start: u8;
    static _end: u8;
}

/// Is the instruction about to run one that reads or writes memory among the
/// program's variables (.data, .bss)? Threads meet there and nowhere else:
/// everything else the two endpoints use is their own.
unsafe fn shared(reg: *const u64) -> bool {
    // gregs in the order of the register numbers
    const AT: [usize; 16] = [13, 14, 12, 11, 15, 10, 9, 8, 0, 1, 2, 3, 4, 5, 6, 7];
    let (lo, hi) = (&raw const __data_start as u64, &raw const _end as u64);
    let within = |a: u64| a.wrapping_add(8) > lo && a < hi;
    let get = |i: usize| *reg.add(AT[i]);
    let mut p = *reg.add(16) as *const u8;
    let mut rex = 0u8;
    loop {
        match *p {
            0x66 | 0x67 | 0xf0 | 0xf2 | 0xf3 | 0x2e | 0x36 | 0x3e | 0x26 => (),
            // thread locals
            0x64 | 0x65 => return false,
            0x40..=0x4f => rex = *p,
            _ => break,
        }
        p = p.add(1);
    }
    let op = *p;
    p = p.add(1);
    match op {
        0x0f => {
            let op = *p;
            p = p.add(1);
            match op {
                0x38 | 0x3a => p = p.add(1),
                0x05 | 0x0b | 0x18..=0x1f | 0x31 | 0x77 | 0x80..=0x8f | 0xa0..=0xa2 | 0xa8..=0xaa | 0xc8..=0xcf => return false,
                _ => (),
            }
        }
        // string instructions
        0xa4..=0xa7 | 0xaa..=0xaf => return within(get(7)) || within(get(6)),
        0x00..=0x3f if op & 7 < 4 => (),
        0x63 | 0x69 | 0x6b | 0x80..=0x8c | 0x8e | 0x8f => (),
        0xc0 | 0xc1 | 0xc6 | 0xc7 | 0xd0..=0xd3 | 0xd8..=0xdf | 0xf6 | 0xf7 | 0xfe | 0xff => (),
        _ => return false,
    }
    let m = *p;
    p = p.add(1);
    let (mode, rm) = (m >> 6, m & 7);
    if mode == 3 {
        return false;
    }
    let mut a = 0u64;
    let mut wide = mode == 2;
    if rm == 4 {
        let s = *p;
        p = p.add(1);
        let (i, b) = ((s >> 3 & 7 | (rex & 2) << 2) as usize, (s & 7 | (rex & 1) << 3) as usize);
        if i != 4 {
            a = get(i) << (s >> 6);
        }
        if b & 7 == 5 && mode == 0 {
            wide = true;
        } else {
            a = a.wrapping_add(get(b));
        }
    } else if rm == 5 && mode == 0 {
        // up to four bytes short, where an immediate follows
        a = p.add(4) as u64;
        wide = true;
    } else {
        a = get((rm | (rex & 1) << 3) as usize);
    }
    if wide {
        a = a.wrapping_add((p as *const i32).read_unaligned() as i64 as u64);
    } else if mode == 1 {
        a = a.wrapping_add(*(p as *const i8) as i64 as u64);
    }
    within(a)
}

unsafe extern "C" fn on_trap(_: i32, _: usize, ctx: *mut u8) {
    let reg = ctx.add(40) as *mut u64;
    // gregs[REG_EFL]
    let flags = reg.add(17);
    let n = STEPS.fetch_add(1, SeqCst);
    let met = shared(reg);
    if met {
        MET.fetch_add(1, SeqCst);
    }
    // whether before or after this instruction
    let chosen = met && FEW.load(SeqCst) > 0 && draw() % RATE.load(SeqCst) == 0;
    let after = chosen && draw() % 2 == 0;
    if n >= NEXT.load(SeqCst) || chosen && !after {
        if hand_over() {
            TRAPPED.fetch_add(1, SeqCst);
        }
        NEXT.store(n + gap(), SeqCst);
    }
    if chosen {
        FEW.fetch_sub(1, SeqCst);
        if after {
            NEXT.store(n + 1, SeqCst);
        }
    }
    if n > MOST_STEPS || OVER.load(SeqCst) || FREE.load(SeqCst) {
        *flags &= !TRAP;
    }
}

/// Single-step this thread from here on, or no longer.
#[inline(never)]
pub fn step(on: bool) {
    if !STEPPED.get() {
        return;
    }
    unsafe {
        if on {
            core::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq");
        } else {
            core::arch::asm!("pushfq", "and qword ptr [rsp], -257", "popfq");
        }
    }
}

fn kinds(l: &Log) -> Vec<u16> {
    let code = |m: &[u8]| m.get(1).copied().unwrap_or(0) as u16;
    match l {
        Log::Dev(_, _, l) => l
            .iter()
            .map(|x| match x {
                DevLog::Msg(m, _, _) => code(m),
                _ => 0,
            })
            .collect(),
        Log::Host(_, _, _, l) => l
            .iter()
            .map(|x| match x {
                HostLog::Msg(m, _, _) => 0x200 | code(m),
                HostLog::Next(_, _, _, s) => 0x100 | code(&s.out),
            })
            .collect(),
    }
}

pub fn run(l: &Log) {
    match l {
        Log::Dev(n, s, l) => solo_dev(n, s, l),
        Log::Host(n, r, s, l) => solo_host(n, *r, s, l),
    }
}

/// To be called in a process of its own.
pub fn replay(seed: u64, a: Log, b: Log) {
    let mut r = Rng::new(&[seed, 0xa12]);
    SEED.store(r.u64(), SeqCst);
    LEFT.store(6, SeqCst);
    let (ka, kb) = (kinds(&a), kinds(&b));
    let mut both: Vec<u16> = ka.iter().copied().filter(|k| *k != 0 && kb.contains(k)).collect();
    both.sort();
    both.dedup();
    if !both.is_empty() && r.pct(75) {
        FOCUS.store(*r.pick(&both) as usize, SeqCst);
    }
    let _ = KINDS.set((ka, kb));
    let trap = r.pct(75);
    if trap {
        NEXT.store(gap(), SeqCst);
        let h: unsafe extern "C" fn(i32, usize, *mut u8) = on_trap;
        // SA_SIGINFO
        let act = Action { handler: h as usize, mask: [0; 16], flags: 4, restorer: 0 };
        assert!(unsafe { sigaction(5, &act, std::ptr::null_mut()) } == 0, "sigaction");
    }
    let t = std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || {
            ROLE.set(Role::Second);
            endpoint::start(false);
            let ok = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run(&b))).is_ok();
            OVER.store(true, SeqCst);
            READY.store(true, SeqCst);
            TURN.store(0, SeqCst);
            assert!(ok, "replay failed");
            endpoint::take().viol
        })
        .expect("thread");
    while !READY.load(SeqCst) && !OVER.load(SeqCst) {
        std::thread::yield_now();
    }
    ROLE.set(Role::First);
    if !trap {
        STEPS.store(MOST_STEPS, SeqCst);
    }
    run(&a);
    ROLE.set(Role::None);
    STEPPED.set(false);
    FREE.store(true, SeqCst);
    for v in t.join().expect("second thread") {
        violation(&["C14"], v.msg);
    }
    for (n, what) in [(&TRAPPED, "preempted within a call"), (&SEAMED, "preempted at a seam"), (&MET, "accesses to program variables within a call")] {
        for _ in 0..n.load(SeqCst) {
            count(what);
        }
    }
}
