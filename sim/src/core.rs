//! Context of one simulated run: choices, fault and probe counters, trace.

use crate::tape::{mix, Rng, Tape};
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex, MutexGuard};

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Viol {
    pub class: String,
    pub detail: String,
}

pub type Res = Result<(), Viol>;

pub fn viol<T>(class: &str, detail: String) -> Result<T, Viol> {
    Err(Viol { class: class.to_string(), detail })
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $class:expr, $($arg:tt)*) => {
        if !$cond {
            return Err($crate::core::Viol {
                class: $class.to_string(),
                detail: format!($($arg)*),
            });
        }
    };
}

#[derive(Default, Clone)]
pub struct RunStats {
    /// faults that fired, by kind
    pub faults: BTreeMap<&'static str, u64>,
    /// rare conditions that were reached
    pub probes: BTreeMap<&'static str, u64>,
    /// simulated steps (coded bits, transport calls, context switches)
    pub steps: u64,
    pub sched_hash: u64,
    pub switches: u64,
    pub nontrivial: bool,
    pub sim_ns: u64,
    pub notes: Vec<String>,
}

pub struct Inner {
    pub tape: Tape,
    pub stats: RunStats,
    pub tracing: bool,
}

#[derive(Clone)]
pub struct Cx(pub Arc<Mutex<Inner>>);

impl Cx {
    pub fn new(tape: Tape, tracing: bool) -> Self {
        Cx(Arc::new(Mutex::new(Inner { tape, stats: RunStats::default(), tracing })))
    }
    pub fn lock(&self) -> MutexGuard<'_, Inner> {
        match self.0.lock() {
            Ok(guard) => guard,
            Err(poisoned) => poisoned.into_inner(),
        }
    }
    /// A choice in 0..n, 0 is the simplest one.
    pub fn draw(&self, n: usize) -> usize {
        self.lock().tape.draw(n as u64) as usize
    }
    pub fn draw64(&self, n: u64) -> u64 {
        self.lock().tape.draw(n)
    }
    pub fn seed(&self) -> u64 {
        self.lock().tape.draw(1 << 32)
    }
    /// A choice in lo..=hi.
    pub fn range(&self, lo: usize, hi: usize) -> usize {
        lo + self.draw(hi + 1 - lo)
    }
    /// True with probability p/1024, false is the simplest choice.
    pub fn chance(&self, p: usize) -> bool {
        if p == 0 {
            return false;
        }
        self.draw(1024) >= 1024usize.saturating_sub(p)
    }
    pub fn coin(&self) -> bool {
        self.draw(2) == 1
    }
    /// A size in 0..=max, small ones as likely as big ones.
    pub fn size(&self, max: usize) -> usize {
        if max == 0 {
            return 0;
        }
        let bits = 64 - (max as u64).leading_zeros() as usize;
        let b = self.draw(bits + 1);
        let top = if b == 0 { 0 } else { ((1usize << b) - 1).min(max) };
        let low = if b == 0 { 0 } else { (1usize << (b - 1)).min(max) };
        self.range(low, top)
    }
    pub fn pick<'x, T>(&self, items: &'x [T]) -> &'x T {
        &items[self.draw(items.len())]
    }
    pub fn fault(&self, kind: &'static str) {
        *self.lock().stats.faults.entry(kind).or_insert(0) += 1;
    }
    pub fn probe(&self, name: &'static str) {
        *self.lock().stats.probes.entry(name).or_insert(0) += 1;
    }
    pub fn probe_if(&self, cond: bool, name: &'static str) {
        if cond {
            self.probe(name)
        }
    }
    pub fn steps(&self, n: u64) {
        self.lock().stats.steps += n;
    }
    pub fn nontrivial(&self) {
        self.lock().stats.nontrivial = true;
    }
    /// Runs n sessions that each draw from a seed of their own, so that only the
    /// seed of all is a choice of this run, and adds up what they report.
    pub fn fleet<T, F: Fn(&Cx) -> Result<T, Viol>>(&self, n: usize, session: F) -> Result<Vec<T>, Viol> {
        let seed = self.seed();
        let mut results = Vec::with_capacity(n);
        for i in 0..n {
            // a fleet takes long, none of its sessions may
            crate::runner::arm_timer();
            let child = Cx::new(Tape::generate(crate::tape::run_seed(seed, "fleet", 0, i as u64)), false);
            let result = session(&child);
            let s = std::mem::take(&mut child.lock().stats);
            let mut inner = self.lock();
            for (k, v) in s.faults {
                *inner.stats.faults.entry(k).or_insert(0) += v;
            }
            for (k, v) in s.probes {
                *inner.stats.probes.entry(k).or_insert(0) += v;
            }
            inner.stats.steps += s.steps;
            results.push(result?);
        }
        Ok(results)
    }
    pub fn switched(&self, to: usize) {
        let mut inner = self.lock();
        inner.stats.switches += 1;
        inner.stats.sched_hash = mix(inner.stats.sched_hash ^ (to as u64 + 1));
    }
    pub fn note<F: FnOnce() -> String>(&self, text: F) {
        let mut inner = self.lock();
        if inner.tracing && inner.stats.notes.len() < 400 {
            let t = text();
            inner.stats.notes.push(t);
        }
    }
    pub fn tracing(&self) -> bool {
        self.lock().tracing
    }
}

/// Choices for bulk data: taken one by one from the tape in short runs (so
/// that they can be minimised), from a PRNG seeded by one choice in long ones.
pub struct Bulk<'a> {
    cx: &'a Cx,
    rng: Option<Rng>,
}

impl<'a> Bulk<'a> {
    pub fn new(cx: &'a Cx, individually: bool) -> Self {
        let rng = if individually { None } else { Some(Rng::new(cx.seed())) };
        Bulk { cx, rng }
    }
    pub fn draw(&mut self, n: usize) -> usize {
        match &mut self.rng {
            None => self.cx.draw(n),
            Some(rng) => rng.below(n.max(1) as u64) as usize,
        }
    }
    pub fn chance(&mut self, p: usize) -> bool {
        self.draw(1024) >= 1024usize.saturating_sub(p)
    }
}

pub fn hash_bytes(bytes: &[u8]) -> u64 {
    let mut h = 0x1234_5678u64;
    for chunk in bytes.chunks(8) {
        let mut v = chunk.len() as u64;
        for &b in chunk {
            v = (v << 8) ^ b as u64 ^ (v >> 56);
        }
        h = mix(h ^ v);
    }
    mix(h ^ bytes.len() as u64)
}

pub fn short(bytes: &[u8]) -> String {
    let mut s = String::new();
    for b in bytes.iter().take(48) {
        s.push_str(&format!("{:02x}", b));
    }
    if bytes.len() > 48 {
        s.push_str(&format!("... ({} bytes)", bytes.len()));
    }
    s
}

// ---- capturing failures of the code under test ----

#[derive(Clone, Debug)]
pub struct Caught {
    pub file: String,
    pub line: u32,
    pub msg: String,
    pub by_harness: bool,
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<Option<Caught>> =
        const { std::cell::RefCell::new(None) };
}

/// Payload of panics raised on purpose by a simulated owner of a session.
pub struct OwnerFailure;

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let (file, line) = info
            .location()
            .map(|l| (l.file().to_string(), l.line()))
            .unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let by_harness = file.starts_with("src/") || file.contains("/verif/sim/");
        if by_harness || std::env::var_os("DSIM_PANICS").is_some() {
            eprintln!("panic at {}:{}: {}", file, line, msg);
        }
        LAST_PANIC.with(|c| {
            *c.borrow_mut() = Some(Caught { file, line, msg, by_harness });
        });
    }));
}

pub fn take_panic() -> Option<Caught> {
    LAST_PANIC.with(|c| c.borrow_mut().take())
}

/// Runs code under test; a failure of the harness itself is propagated.
pub fn catch<T, F: FnOnce() -> T>(f: F) -> Result<T, Caught> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(value) => Ok(value),
        Err(payload) => {
            if payload.is::<OwnerFailure>() {
                return Err(Caught {
                    file: "owner".into(),
                    line: 0,
                    msg: "owner failure".into(),
                    by_harness: false,
                });
            }
            let caught = LAST_PANIC.with(|c| c.borrow_mut().take()).unwrap_or(Caught {
                file: "?".into(),
                line: 0,
                msg: "?".into(),
                by_harness: false,
            });
            if caught.by_harness {
                std::panic::resume_unwind(payload);
            }
            Err(caught)
        }
    }
}

impl Caught {
    pub fn to_viol(&self, class: &str) -> Viol {
        let file = self.file.rsplit("/src/").next().unwrap_or("?").to_string();
        Viol {
            class: format!("{}:{}", class, file),
            detail: format!("{} at {}:{}", self.msg, self.file, self.line),
        }
    }
}

/// Code under test that must not fail.
pub fn must<T, F: FnOnce() -> T>(class: &str, f: F) -> Result<T, Viol> {
    catch(f).map_err(|c| c.to_viol(class))
}
