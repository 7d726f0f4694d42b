//! Seams below the library: operating system entropy, the heap, panics and a
//! wall-clock watchdog that only ever aborts the process.
//!
//! `getrandom` and `ring` both reach the kernel through libc's `syscall`
//! symbol. This binary defines that symbol: SYS_getrandom is served from the
//! simulator's keyed stream, with the faults the scenario asks for, and
//! everything else goes to the kernel unchanged.

use crate::pair;
use crate::rng::{key, mix};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell, UnsafeCell};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum EntKind {
    Eio,
    Eintr,
    Short,
}

#[derive(Clone, Copy, Debug)]
pub struct EntFault {
    /// index of the read within the library call
    pub at: u32,
    pub kind: EntKind,
}

struct Ent {
    armed: bool,
    key: u64,
    ctr: u64,
    reads: u32,
    bytes_ok: u32,
    failed: u32,
    injected: [u32; 3],
    nfaults: usize,
    faults: [EntFault; 4],
    served: [u8; 512],
}

const NOFAULT: EntFault = EntFault { at: u32::MAX, kind: EntKind::Eio };

thread_local! {
    static ENT: UnsafeCell<Ent> = const { UnsafeCell::new(Ent {
        armed: false, key: 0x1234_5678, ctr: 0, reads: 0, bytes_ok: 0, failed: 0,
        injected: [0; 3], nfaults: 0, faults: [NOFAULT; 4], served: [0; 512],
    }) };
    static HEAP_ARMED: Cell<bool> = const { Cell::new(false) };
    static HEAP_COUNT: Cell<u64> = const { Cell::new(0) };
    static IN_LIB: Cell<bool> = const { Cell::new(false) };
    static PANIC_MSG: RefCell<String> = const { RefCell::new(String::new()) };
}

extern "C" {
    fn __errno_location() -> *mut i32;
}

#[inline(always)]
unsafe fn raw(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    core::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b,
        in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
        lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}

fn shape(key: u64) -> u64 {
    mix(key ^ 0x5a5a) % 24
}
/// Does this key give entropy that is not shaped?
pub fn plain(key: u64) -> bool {
    shape(key) > 4
}

unsafe fn serve(buf: *mut u8, len: usize) -> i64 {
    ENT.with(|e| {
        let e = &mut *e.get();
        let n = e.reads;
        if len == 0 {
            return 0; // availability probe
        }
        e.reads += 1;
        let mut give = len.min(256);
        for i in 0..e.nfaults {
            let f = e.faults[i];
            match f.kind {
                EntKind::Eio if n >= f.at => {
                    e.failed += 1;
                    e.injected[0] += 1;
                    return -5;
                }
                EntKind::Eintr if n == f.at => {
                    e.injected[1] += 1;
                    return -4;
                }
                EntKind::Short if n == f.at && len > 1 => {
                    e.injected[2] += 1;
                    give = (len / 2).max(1);
                }
                _ => (),
            }
        }
        // Legal entropy need not look random: now and then a draw begins or
        // ends with equal bytes.
        let shape = if e.armed { shape(e.key) } else { 24 };
        for i in 0..give {
            let v = mix(e.key ^ mix(e.ctr / 8)) >> ((e.ctr % 8) * 8);
            let v = match (shape, e.ctr) {
                (0, 0..=3) | (1, 28..=31) | (2, 0) => 0,
                (3, 0..=3) | (4, 28..=31) => 0xff,
                _ => v,
            };
            *buf.add(i) = v as u8;
            let at = e.bytes_ok as usize;
            if at < e.served.len() {
                e.served[at] = v as u8;
            }
            e.ctr += 1;
            e.bytes_ok += 1;
        }
        give as i64
    })
}

#[no_mangle]
pub unsafe extern "C" fn syscall(
    n: i64,
    a: i64,
    b: i64,
    c: i64,
    d: i64,
    e: i64,
    f: i64,
) -> i64 {
    let r = if n == 318 {
        if IN_LIB.with(|c| c.get()) {
            pair::seam();
        }
        serve(a as *mut u8, b as usize)
    } else {
        raw(n, a, b, c, d, e, f)
    };
    if r < 0 && r > -4096 {
        *__errno_location() = -r as i32;
        return -1;
    }
    r
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let r = serve(buf, len);
    if r < 0 {
        *__errno_location() = -r as i32;
        return -1;
    }
    r as isize
}

#[no_mangle]
pub unsafe extern "C" fn getentropy(buf: *mut u8, len: usize) -> i32 {
    let mut off = 0;
    while off < len {
        let r = serve(buf.add(off), len - off);
        if r == -4 {
            continue;
        }
        if r < 0 {
            *__errno_location() = -r as i32;
            return -1;
        }
        off += r as usize;
    }
    0
}

pub struct Heap;
unsafe impl GlobalAlloc for Heap {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let _ = HEAP_ARMED.try_with(|a| {
            if a.get() {
                let _ = HEAP_COUNT.try_with(|c| c.set(c.get() + 1));
            }
        });
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
}
#[global_allocator]
static HEAP: Heap = Heap;

/// Seed the entropy stream outside library calls (key generation, ring's
/// signatures over certificates).
pub fn ambient(parts: &[u64]) {
    ENT.with(|e| unsafe {
        let e = &mut *e.get();
        e.key = key(parts);
        e.ctr = 0;
        e.nfaults = 0;
        e.reads = 0;
    })
}

#[derive(Clone, Debug, Default)]
pub struct EntStat {
    pub reads: u32,
    pub bytes_ok: u32,
    pub failed: u32,
    pub injected: [u32; 3],
    pub served: Vec<u8>,
}

pub struct Obs<T> {
    pub r: Result<T, String>,
    pub allocs: u64,
    pub ent: EntStat,
}

pub static IN_CALL: AtomicBool = AtomicBool::new(false);
pub static CALLS: AtomicU64 = AtomicU64::new(0);

/// Run `f` as code under test: entropy from the keyed stream `k`, heap armed,
/// panics caught.
pub fn call<T>(k: u64, faults: &[EntFault], f: impl FnOnce() -> T) -> Obs<T> {
    ENT.with(|e| unsafe {
        let e = &mut *e.get();
        e.armed = true;
        e.key = k;
        e.ctr = 0;
        e.reads = 0;
        e.bytes_ok = 0;
        e.failed = 0;
        e.injected = [0; 3];
        e.nfaults = faults.len().min(4);
        for i in 0..e.nfaults {
            e.faults[i] = faults[i];
        }
    });
    CALLS.fetch_add(1, Ordering::Relaxed);
    IN_CALL.store(true, Ordering::Relaxed);
    IN_LIB.with(|c| c.set(true));
    HEAP_COUNT.with(|c| c.set(0));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        HEAP_ARMED.with(|a| a.set(true));
        pair::step(true);
        let v = f();
        pair::step(false);
        HEAP_ARMED.with(|a| a.set(false));
        v
    }));
    pair::step(false);
    HEAP_ARMED.with(|a| a.set(false));
    IN_LIB.with(|c| c.set(false));
    IN_CALL.store(false, Ordering::Relaxed);
    let ent = ENT.with(|e| unsafe {
        let e = &mut *e.get();
        e.armed = false;
        e.nfaults = 0;
        EntStat {
            reads: e.reads,
            bytes_ok: e.bytes_ok,
            failed: e.failed,
            injected: e.injected,
            served: e.served[..(e.bytes_ok as usize).min(512)].to_vec(),
        }
    });
    let panicked = r.is_err();
    let r = r.map_err(|_| PANIC_MSG.with(|m| m.borrow().clone()));
    // The panic machinery itself allocates; a panic is reported as such.
    let allocs = if panicked { 0 } else { HEAP_COUNT.with(|c| c.get()) };
    Obs { r, allocs, ent }
}

/// Harness code running inside a library call (the simulated signer).
pub fn outside<T>(f: impl FnOnce() -> T) -> T {
    let was = HEAP_ARMED.with(|a| a.replace(false));
    let r = f();
    HEAP_ARMED.with(|a| a.set(was));
    r
}

/// As `outside`, but undisturbed by the entropy faults of the current call.
pub fn outside_with_entropy<T>(k: u64, f: impl FnOnce() -> T) -> T {
    let was = HEAP_ARMED.with(|a| a.replace(false));
    let saved = ENT.with(|e| unsafe {
        let e = &mut *e.get();
        let s = (e.key, e.ctr, e.nfaults, e.reads, e.bytes_ok);
        e.key = k;
        e.ctr = 0;
        e.nfaults = 0;
        s
    });
    let r = f();
    ENT.with(|e| unsafe {
        let e = &mut *e.get();
        e.key = saved.0;
        e.ctr = saved.1;
        e.nfaults = saved.2;
        e.reads = saved.3;
        e.bytes_ok = saved.4;
    });
    HEAP_ARMED.with(|a| a.set(was));
    r
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        HEAP_ARMED.with(|a| a.set(false));
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "?".into());
        let loc = info
            .location()
            .map(|l| {
                let f = l.file();
                let f = f.rsplit("/src/").next().unwrap_or(f);
                format!("{}:{}", f, l.line())
            })
            .unwrap_or_default();
        let s = format!("panic at {}: {}", loc, msg);
        if !IN_LIB.with(|c| c.get()) {
            eprintln!("HARNESS {}", s);
        }
        PANIC_MSG.with(|m| *m.borrow_mut() = s);
    }));
}

/// Exit with status 97 when a single library call keeps the processor for more
/// than `secs` seconds: an endless loop in the code under test. Real time is
/// read here only, and never influences a run that terminates.
pub fn watchdog(secs: u64) {
    std::thread::spawn(move || {
        let mut last = (0u64, 0u64);
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let c = CALLS.load(Ordering::Relaxed);
            if IN_CALL.load(Ordering::Relaxed) && c == last.0 {
                last.1 += 1;
                if last.1 > secs * 2 {
                    eprintln!("WATCHDOG: library call does not return");
                    std::process::exit(97);
                }
            } else {
                last = (c, 0);
            }
        }
    });
}
