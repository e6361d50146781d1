//! Simulation context shared by everything that takes part in a run.

use std::any::Any;
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex, MutexGuard};

use crate::tape::Tape;

thread_local! {
    static HASH_STATE: Cell<u64> = const { Cell::new(0x1234_5678) };
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

/// Seed the hash keys of the current thread. Has to be called before the
/// thread creates its first `RandomState`.
pub fn seed_hash_keys(seed: u64) {
    HASH_STATE.with(|h| h.set(crate::tape::mix(seed, 0x4a5)));
}

/// std obtains the keys of `RandomState` through this symbol.
///
/// # Safety
/// Called by libstd with a valid buffer.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut libc::c_void, len: usize, _flags: libc::c_uint) -> isize {
    let out = buf as *mut u8;
    HASH_STATE.with(|h| {
        let mut g = crate::tape::SplitMix(h.get());
        for i in 0..len {
            *out.add(i) = (g.next() >> 24) as u8;
        }
        h.set(g.next());
    });
    len as isize
}

/// Payload of panics injected into callbacks.
pub struct Injected;

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "<opaque>".to_string()
        };
        let loc = info
            .location()
            .map(|l| {
                let f = l.file();
                let f = f
                    .split_once("/registry/src/")
                    .map(|(_, r)| r.split_once('/').map(|x| x.1).unwrap_or(r))
                    .unwrap_or(f);
                format!("{}:{}", f, l.line())
            })
            .unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(format!("{} at {}", msg, loc)));
    }));
}

pub fn take_panic() -> String {
    LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default()
}

#[derive(Clone, Debug)]
pub struct Fail {
    /// Coarse name of the kind of failure; minimisation keeps it constant.
    pub class: String,
    pub msg: String,
}

pub type Res<T = ()> = Result<T, Fail>;

pub fn fail<T>(class: impl Into<String>, msg: impl Into<String>) -> Res<T> {
    Err(Fail {
        class: class.into(),
        msg: msg.into(),
    })
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $class:expr, $($arg:tt)*) => {
        if !$cond {
            return $crate::ctx::fail($class, format!($($arg)*));
        }
    };
}

/// A panic of the code under test.
pub struct Panicked {
    pub msg: String,
    pub injected: bool,
}

/// Calls of code under test that have not returned, and all calls.
pub static SUT_DEPTH: AtomicU64 = AtomicU64::new(0);
pub static SUT_CALLS: AtomicU64 = AtomicU64::new(0);

/// Run code under test, catching panics.
pub fn sut<T>(f: impl FnOnce() -> T) -> Result<T, Panicked> {
    let _ = take_panic();
    SUT_DEPTH.fetch_add(1, Ordering::Relaxed);
    SUT_CALLS.fetch_add(1, Ordering::Relaxed);
    let r = catch_unwind(AssertUnwindSafe(f));
    SUT_DEPTH.fetch_sub(1, Ordering::Relaxed);
    match r {
        Ok(v) => Ok(v),
        Err(p) => Err(Panicked {
            injected: (*p).is::<Injected>(),
            msg: take_panic(),
        }),
    }
}

/// Run code under test that must not panic.
pub fn sut_ok<T>(what: &str, f: impl FnOnce() -> T) -> Res<T> {
    sut(f).or_else(|p| fail("panic", format!("{} panicked: {}", what, p.msg)))
}

pub fn is_injected(p: &(dyn Any + Send)) -> bool {
    p.is::<Injected>()
}

pub struct Inner {
    pub tape: Tape,
    pub hash: u64,
    pub steps: u64,
    pub verbose: bool,
    pub log: Vec<String>,
    pub faults: BTreeMap<&'static str, u64>,
    pub probes: BTreeMap<&'static str, u64>,
    pub nontrivial: bool,
    pub scratch: Option<std::path::PathBuf>,
}

#[derive(Clone)]
pub struct Ctx(Arc<Mutex<Inner>>);

/// Hard bound on the number of calls without progress on a stream.
pub const IDLE_CAP: u64 = 300_000;

impl Ctx {
    pub fn new(tape: Tape, verbose: bool, scratch: Option<std::path::PathBuf>) -> Ctx {
        Ctx(Arc::new(Mutex::new(Inner {
            tape,
            hash: 0xcbf2_9ce4_8422_2325,
            steps: 0,
            verbose,
            log: Vec::new(),
            faults: BTreeMap::new(),
            probes: BTreeMap::new(),
            nontrivial: false,
            scratch,
        })))
    }

    pub fn lock(&self) -> MutexGuard<'_, Inner> {
        self.0.lock().unwrap_or_else(|e| e.into_inner())
    }

    pub fn draw(&self, n: u64) -> u64 {
        self.lock().tape.draw(n)
    }

    /// A value in `0..n`.
    pub fn below(&self, n: usize) -> usize {
        self.draw(n as u64) as usize
    }

    /// A value in `lo..=hi`; `lo` is the simplest.
    pub fn range(&self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }

    /// True with probability `num / den`; false is the simplest.
    pub fn chance(&self, num: u64, den: u64) -> bool {
        self.draw(den) >= den - num
    }

    pub fn pick<'a, T>(&self, items: &'a [T]) -> &'a T {
        &items[self.below(items.len())]
    }

    /// Index drawn with the given weights; the first index is the simplest.
    pub fn weighted(&self, w: &[u64]) -> usize {
        let total: u64 = w.iter().sum();
        let mut v = self.draw(total);
        for (i, x) in w.iter().enumerate() {
            if v < *x {
                return i;
            }
            v -= x;
        }
        0
    }

    pub fn event(&self, kind: &str, a: u64, b: u64) {
        let mut g = self.lock();
        g.steps += 1;
        let mut h = g.hash;
        for x in [crate::tape::hash_str(kind), a, b] {
            h = (h ^ x).wrapping_mul(0x0000_0100_0000_01B3);
            h ^= h >> 29;
        }
        g.hash = h;
        if g.verbose && g.log.len() < 4000 {
            let s = format!("{:>5} {} {} {}", g.steps, kind, a, b);
            g.log.push(s);
        }
    }


    pub fn note(&self, f: impl FnOnce() -> String) {
        if self.lock().verbose {
            let s = f();
            let mut g = self.lock();
            if g.log.len() < 4000 {
                g.log.push(format!("      | {}", s.replace('\n', "\n      | ")));
            }
        }
    }

    pub fn hash_bytes(&self, b: &[u8]) {
        let mut g = self.lock();
        let mut h = g.hash;
        for x in b {
            h = (h ^ *x as u64).wrapping_mul(0x0000_0100_0000_01B3);
        }
        g.hash = h;
    }

    pub fn fault(&self, kind: &'static str) {
        let mut g = self.lock();
        *g.faults.entry(kind).or_insert(0) += 1;
        g.nontrivial = true;
    }

    pub fn probe(&self, kind: &'static str) {
        *self.lock().probes.entry(kind).or_insert(0) += 1;
    }

    pub fn nontrivial(&self) {
        self.lock().nontrivial = true;
    }

    pub fn scratch(&self) -> std::path::PathBuf {
        self.lock().scratch.clone().expect("scratch directory")
    }
}
