//! Executes single runs and minimises failing ones.

use crate::core::*;
use crate::tape::*;
use crate::Prop;

pub struct RunResult {
    pub verdict: Res,
    pub tape: Vec<u64>,
    pub stats: RunStats,
}

extern "C" {
    fn setitimer(which: i32, new: *const [i64; 4], old: *mut [i64; 4]) -> i32;
    fn setrlimit(resource: i32, limit: *const [u64; 2]) -> i32;
}

pub const RUN_CPU_SECONDS: i64 = 30;

/// A run that burns more CPU time than this is ended by SIGVTALRM.
pub fn arm_timer() {
    unsafe {
        setitimer(1, &[0, 0, RUN_CPU_SECONDS, 0], std::ptr::null_mut());
    }
}

pub fn limit_memory(bytes: u64) {
    unsafe {
        setrlimit(9, &[bytes, bytes]); // RLIMIT_AS
        setrlimit(4, &[0, 0]); // RLIMIT_CORE
    }
}

pub fn execute(prop: &Prop, tape: Tape, tracing: bool) -> RunResult {
    let cx = Cx::new(tape, tracing);
    let verdict = match catch(|| (prop.run)(&cx)) {
        Ok(verdict) => verdict,
        // a failure of the code under test outside of any expectation
        Err(caught) => Err(caught.to_viol("panic")),
    };
    let mut inner = cx.lock();
    RunResult {
        verdict,
        tape: std::mem::take(&mut inner.tape.rec),
        stats: std::mem::take(&mut inner.stats),
    }
}

/// Shrinks a failing tape while the same class of violation persists.
pub fn minimise(
    prop: &Prop,
    class: &str,
    tape: Vec<u64>,
    seconds: f64,
    progress: &mut dyn FnMut(&[u64]),
) -> Vec<u64> {
    let start = std::time::Instant::now();
    let mut best = tape;
    let mut try_it = |candidate: Vec<u64>, best: &mut Vec<u64>| -> bool {
        if start.elapsed().as_secs_f64() > seconds {
            return false;
        }
        arm_timer();
        let r = execute(prop, Tape::replay(candidate), false);
        let better = match &r.verdict {
            Err(v) if v.class == class => {
                let mut t = r.tape;
                while t.last() == Some(&0) {
                    t.pop();
                }
                let key = |t: &Vec<u64>| (t.len(), t.iter().map(|&v| v as u128).sum::<u128>());
                if key(&t) < key(best) {
                    *best = t;
                    true
                } else {
                    false
                }
            }
            _ => false,
        };
        if better {
            progress(best);
        }
        better
    };
    loop {
        let before = best.clone();
        // truncate
        let mut keep = best.len() / 2;
        while keep < best.len() {
            let c = best[..keep].to_vec();
            if try_it(c, &mut best) {
                keep = best.len() / 2;
            } else {
                keep += ((best.len() - keep) / 2).max(1);
            }
        }
        // delete chunks
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut i = best.len().saturating_sub(size);
            loop {
                if i + size <= best.len() {
                    let mut c = best.clone();
                    c.drain(i..i + size);
                    try_it(c, &mut best);
                }
                if i == 0 || start.elapsed().as_secs_f64() > seconds {
                    break;
                }
                i = i.saturating_sub(size);
            }
            if size == 1 || start.elapsed().as_secs_f64() > seconds {
                break;
            }
            size /= 2;
        }
        // zero and lower single values
        let mut i = 0;
        while i < best.len() && start.elapsed().as_secs_f64() <= seconds {
            if best[i] > 0 {
                let mut c = best.clone();
                c[i] = 0;
                if !try_it(c, &mut best) && i < best.len() {
                    let mut low = 0;
                    while i < best.len() && best[i] > low + 1 {
                        let mid = low + (best[i] - low) / 2;
                        let mut c = best.clone();
                        c[i] = mid;
                        if !try_it(c, &mut best) {
                            low = mid;
                        }
                        if start.elapsed().as_secs_f64() > seconds {
                            break;
                        }
                    }
                }
            }
            i += 1;
        }
        if best == before || start.elapsed().as_secs_f64() > seconds {
            break;
        }
    }
    best
}
