//! One simulated run: a fresh thread, a tape, a verdict.

use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::mpsc::{channel, RecvTimeoutError};
use std::time::{Duration, Instant};

use std::sync::atomic::Ordering;

use crate::ctx::{seed_hash_keys, take_panic, Ctx, Fail, Res, SUT_CALLS, SUT_DEPTH};
use crate::registry::Prop;
use crate::tape::Tape;

pub struct Outcome {
    pub result: Result<(), Fail>,
    pub hash: u64,
    pub steps: u64,
    pub faults: BTreeMap<&'static str, u64>,
    pub probes: BTreeMap<&'static str, u64>,
    pub nontrivial: bool,
    pub used: Vec<u64>,
    pub log: Vec<String>,
}

/// The process ends with this status if the code under test does not return...
pub const EXIT_HANG: i32 = 97;
/// ... and with this one if the run takes long for other reasons.
pub const EXIT_SLOW: i32 = 96;

pub fn cpu_ms() -> u64 {
    unsafe {
        let mut ts: libc::timespec = std::mem::zeroed();
        libc::clock_gettime(libc::CLOCK_PROCESS_CPUTIME_ID, &mut ts);
        ts.tv_sec as u64 * 1000 + ts.tv_nsec as u64 / 1_000_000
    }
}

/// Run a property once. If one call of the code under test burns more CPU than
/// allowed the process exits with `EXIT_HANG` (it cannot be stopped otherwise).
pub fn run_once(prop: &Prop, tape: Tape, verbose: bool, scratch: Option<PathBuf>, cpu_limit_ms: u64) -> Outcome {
    let f: fn(&Ctx) -> Res = prop.run;
    let ctx = Ctx::new(tape, verbose, scratch);
    let ctx2 = ctx.clone();
    let (tx, rx) = channel();
    SUT_DEPTH.store(0, Ordering::Relaxed);
    let start = cpu_ms();
    let t0 = Instant::now();
    let th = std::thread::Builder::new()
        .stack_size(16 << 20)
        .spawn(move || {
            let key = ctx2.draw(1 << 30);
            seed_hash_keys(key);
            let r = match catch_unwind(AssertUnwindSafe(|| f(&ctx2))) {
                Ok(r) => r,
                Err(_) => Err(Fail {
                    class: "unexpected-panic".into(),
                    msg: take_panic(),
                }),
            };
            let _ = tx.send(r);
        })
        .expect("thread");
    let (mut last_call, mut last_cpu) = (0, start);
    let (mut in_call, mut in_calls) = (0, 0);
    let result = loop {
        match rx.recv_timeout(Duration::from_millis(200)) {
            Ok(r) => break r,
            Err(RecvTimeoutError::Timeout) => {
                let now = cpu_ms();
                let call = SUT_CALLS.load(Ordering::Relaxed);
                if SUT_DEPTH.load(Ordering::Relaxed) == 0 {
                    in_call = 0;
                } else {
                    in_call = if call == last_call { in_call + now - last_cpu } else { 0 };
                    in_calls += now - last_cpu;
                }
                last_call = call;
                last_cpu = now;
                let total = now - start;
                // a run that neither computes nor finishes is stuck as well
                let stuck = t0.elapsed() > Duration::from_millis(cpu_limit_ms * 30);
                let code = if in_call > cpu_limit_ms || stuck && total < cpu_limit_ms {
                    EXIT_HANG
                } else if total > 5 * cpu_limit_ms || stuck {
                    if in_calls * 10 > total * 9 {
                        EXIT_HANG
                    } else {
                        EXIT_SLOW
                    }
                } else {
                    continue;
                };
                use std::io::Write;
                let _ = std::io::stdout().flush();
                unsafe { libc::_exit(code) };
            }
            Err(RecvTimeoutError::Disconnected) => {
                break Err(Fail {
                    class: "unexpected-panic".into(),
                    msg: "the run's thread died".into(),
                })
            }
        }
    };
    let _ = th.join();
    let mut g = ctx.lock();
    Outcome {
        result,
        hash: g.hash,
        steps: g.steps,
        faults: std::mem::take(&mut g.faults),
        probes: std::mem::take(&mut g.probes),
        nontrivial: g.nontrivial,
        used: g.tape.used(),
        log: std::mem::take(&mut g.log),
    }
}
