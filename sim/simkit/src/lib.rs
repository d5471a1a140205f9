//! Deterministic-simulation kernel: one choice tape decides everything in a run.
//!
//! * [`Sim`] is the handle of one simulated run. Every source of nondeterminism draws from it.
//! * [`hooks`] interposes libc (clock, entropy, file system, futex) for threads that belong to a run.
//! * [`threads`] is a seeded scheduler for real OS threads (one runs at a time).
//! * [`runner`] searches seeds in parallel, minimises, replays and writes evidence.
pub mod hooks;
pub mod runner;
pub mod threads;

use std::cell::RefCell;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering};
use std::sync::{Arc, Mutex, MutexGuard};

const RUNAWAY: u64 = 4_000_000;

#[derive(Clone, Debug)]
pub struct Violation {
    pub kind: String,
    pub message: String,
}

pub struct State {
    tape: Vec<u32>,
    pos: usize,
    replay: bool,
    rng: u64,
    pub entropy: u64,
    entropy_pos: u64,
    pub violation: Option<Violation>,
    pub trace: Vec<String>,
    trace_hash: u64,
    keep_trace: bool,
    pub faults: BTreeMap<&'static str, u64>,
    pub counters: BTreeMap<&'static str, u64>,
    nontrivial: bool,
    draws: u64,
    finished_ns: u64,
}

pub struct Inner {
    st: Mutex<State>,
    pub mono_ns: AtomicU64,
    pub wall_off_ns: AtomicI64,
    pub clock_on: AtomicBool,
    /// Real instant (raw monotonic ns) at which the run began: the watchdog reads it.
    pub started_real: AtomicU64,
    /// The run drew far more numbers than any scenario can: something loops.
    pub runaway: AtomicBool,
    pub disk: Mutex<Option<hooks::Disk>>,
    pub sched: threads::Sched,
}

/// Handle on one simulated run.
#[derive(Clone)]
pub struct Sim(pub Arc<Inner>);

thread_local! {
    static CUR: RefCell<Option<Sim>> = const { RefCell::new(None) };
    pub static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

/// Simulated wall clock at the start of each run: 2023-11-14T22:13:20Z.
pub const EPOCH_NS: u64 = 1_700_000_000_000_000_000;

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

pub fn hash_str(h: u64, s: &str) -> u64 {
    let mut h = h ^ 0xcbf29ce484222325;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    mix(h ^ (s.len() as u64))
}

/// The run this thread belongs to, if any.
pub fn current() -> Option<Sim> {
    CUR.try_with(|c| c.try_borrow().ok().and_then(|c| c.clone())).ok().flatten()
}

pub fn set_current(sim: Option<Sim>) {
    CUR.with(|c| *c.borrow_mut() = sim);
}

impl Sim {
    pub fn random(seed: u64, keep_trace: bool) -> Sim {
        Self::build(Vec::new(), false, seed, mix(seed ^ 0x5eed), keep_trace)
    }

    pub fn replay(tape: Vec<u32>, entropy: u64, keep_trace: bool) -> Sim {
        Self::build(tape, true, 0, entropy, keep_trace)
    }

    fn build(tape: Vec<u32>, replay: bool, rng: u64, entropy: u64, keep_trace: bool) -> Sim {
        Sim(Arc::new(Inner {
            st: Mutex::new(State {
                tape,
                pos: 0,
                replay,
                rng,
                entropy,
                entropy_pos: 0,
                violation: None,
                trace: Vec::new(),
                trace_hash: 0,
                keep_trace,
                faults: BTreeMap::new(),
                counters: BTreeMap::new(),
                nontrivial: false,
                draws: 0,
                finished_ns: 0,
            }),
            mono_ns: AtomicU64::new(1_000_000_000),
            wall_off_ns: AtomicI64::new(0),
            clock_on: AtomicBool::new(true),
            started_real: AtomicU64::new(hooks::real_mono_ns()),
            runaway: AtomicBool::new(false),
            disk: Mutex::new(None),
            sched: threads::Sched::default(),
        }))
    }

    fn st(&self) -> MutexGuard<'_, State> {
        self.0.st.lock().unwrap_or_else(|e| e.into_inner())
    }

    /// Draws a number in `0..n`. 0 is the simplest choice: the minimiser moves towards it.
    pub fn choose(&self, n: u32) -> u32 {
        assert!(n > 0, "choose(0)");
        let mut st = self.st();
        st.draws += 1;
        if st.draws > RUNAWAY {
            self.0.runaway.store(true, Ordering::Relaxed);
            return 0;
        }
        if st.replay {
            let pos = st.pos;
            st.pos += 1;
            return st.tape.get(pos).map_or(0, |v| if *v < n { *v } else { *v % n });
        }
        st.rng = st.rng.wrapping_add(0x9e3779b97f4a7c15);
        let v = ((mix(st.rng) >> 32) * n as u64 >> 32) as u32;
        st.tape.push(v);
        v
    }

    /// True with probability `permille`/1000; false when minimised.
    pub fn chance(&self, permille: u32) -> bool {
        permille > 0 && self.choose(1000) >= 1000 - permille.min(1000)
    }

    /// `lo..=hi`, minimised towards `lo`.
    pub fn range(&self, lo: u64, hi: u64) -> u64 {
        let span = hi - lo + 1;
        if span <= u32::MAX as u64 {
            lo + self.choose(span as u32) as u64
        } else {
            let v = (self.choose(u32::MAX) as u64) << 32 | self.choose(u32::MAX) as u64;
            lo + if span == 0 { v } else { v % span }
        }
    }

    /// Roughly log-uniform in `lo..=hi`.
    pub fn log_range(&self, lo: u64, hi: u64) -> u64 {
        let span = hi - lo;
        let bits = 64 - span.leading_zeros();
        let b = self.choose(bits + 1);
        let max = if b >= 64 { u64::MAX } else { (1u64 << b) - 1 };
        lo + self.range(0, max).min(span)
    }

    pub fn pick<'a, T>(&self, items: &'a [T]) -> &'a T {
        &items[self.choose(items.len() as u32) as usize]
    }

    pub fn pick_mut<'a, T>(&self, items: &'a mut [T]) -> &'a mut T {
        let i = self.choose(items.len() as u32) as usize;
        &mut items[i]
    }

    pub fn shuffle<T>(&self, items: &mut [T]) {
        for i in 0..items.len().saturating_sub(1) {
            let j = i + self.choose((items.len() - i) as u32) as usize;
            items.swap(i, j);
        }
    }

    /// Appends to the run's history: this is what determinism is checked on.
    pub fn event(&self, msg: impl AsRef<str>) {
        let mut st = self.st();
        st.trace_hash = hash_str(st.trace_hash, msg.as_ref());
        if st.keep_trace && st.trace.len() < 5000 {
            let t = self.now_ns();
            st.trace.push(format!("{:>12.6}s {}", (t - 1_000_000_000) as f64 / 1e9, msg.as_ref()));
        }
    }

    /// Event whose text is only built if somebody reads it; `key` is what is hashed.
    pub fn event_with(&self, key: u64, f: impl FnOnce() -> String) {
        let mut st = self.st();
        st.trace_hash = mix(st.trace_hash ^ key);
        if st.keep_trace && st.trace.len() < 5000 {
            drop(st);
            let t = self.now_ns();
            let s = format!("{:>12.6}s {}", (t - 1_000_000_000) as f64 / 1e9, f());
            self.st().trace.push(s);
        }
    }

    pub fn trace_so_far(&self) -> Vec<String> {
        self.st().trace.clone()
    }

    pub fn keeps_trace(&self) -> bool {
        self.st().keep_trace
    }

    pub fn fault(&self, kind: &'static str) {
        let mut st = self.st();
        st.nontrivial = true;
        *st.faults.entry(kind).or_default() += 1;
    }

    pub fn count(&self, name: &'static str) {
        self.count_n(name, 1);
    }

    pub fn count_n(&self, name: &'static str, n: u64) {
        *self.st().counters.entry(name).or_default() += n;
    }

    pub fn nontrivial(&self) {
        self.st().nontrivial = true;
    }

    /// Reports a violation; the first one of a run counts. `kind` is stable, `msg` is for people.
    pub fn violate(&self, kind: impl Into<String>, msg: impl Into<String>) {
        let kind = kind.into();
        let msg = msg.into();
        self.event(format!("VIOLATION {kind}: {msg}"));
        let mut st = self.st();
        if st.violation.is_none() {
            st.violation = Some(Violation { kind, message: msg });
        }
    }

    pub fn check(&self, ok: bool, kind: &str, msg: impl FnOnce() -> String) -> bool {
        if !ok {
            self.violate(kind, msg());
        }
        ok
    }

    pub fn violated(&self) -> bool {
        self.st().violation.is_some()
    }

    pub fn now_ns(&self) -> u64 {
        hooks::sim_now(&self.0)
    }

    pub fn wall_ns(&self) -> u64 {
        (EPOCH_NS as i64 + self.now_ns() as i64 + self.0.wall_off_ns.load(Ordering::Relaxed)) as u64
    }

    pub fn advance_ns(&self, ns: u64) {
        self.0.mono_ns.fetch_add(ns, Ordering::Relaxed);
    }

    /// Moves the wall clock (not the monotonic one).
    pub fn jump_wall_ns(&self, ns: i64) {
        self.0.wall_off_ns.fetch_add(ns, Ordering::Relaxed);
    }

    /// For the watchdog, which must not block on a lock whose owner the simulation may have stopped.
    pub fn try_tape(&self) -> Option<(Vec<u32>, u64)> {
        let st = self.0.st.try_lock().ok()?;
        Some((st.tape.clone(), st.entropy))
    }

    pub fn tape(&self) -> Vec<u32> {
        self.st().tape.clone()
    }

    pub fn entropy(&self) -> u64 {
        self.st().entropy
    }

    /// Deterministic entropy for this run (hash seeds, jitter): not part of the tape.
    pub fn entropy_bytes(&self, buf: &mut [u8]) {
        let mut st = self.st();
        for b in buf.chunks_mut(8) {
            st.entropy_pos += 1;
            let v = mix(st.entropy ^ mix(st.entropy_pos)).to_le_bytes();
            b.copy_from_slice(&v[..b.len()]);
        }
    }

    pub fn note_finished(&self) {
        let t = self.now_ns();
        self.st().finished_ns = t;
    }
}

/// What one run left behind.
pub struct RunReport {
    pub tape: Vec<u32>,
    pub entropy: u64,
    pub violation: Option<Violation>,
    pub harness_error: Option<String>,
    pub trace: Vec<String>,
    pub trace_hash: u64,
    pub faults: BTreeMap<&'static str, u64>,
    pub counters: BTreeMap<&'static str, u64>,
    pub nontrivial: bool,
    pub draws: u64,
    pub sim_ns: u64,
}

/// Runs `f` as one simulated run in a fresh thread (fresh thread-locals, hence fresh hash seeds).
pub fn run_one(sim: &Sim, f: fn(&Sim)) -> RunReport {
    let s2 = sim.clone();
    let outcome = std::thread::Builder::new()
        .stack_size(16 << 20)
        .spawn(move || {
            set_current(Some(s2.clone()));
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&s2)));
            s2.note_finished();
            let p = PANIC.with(|p| p.borrow_mut().take());
            set_current(None);
            r.err().map(|_| p.unwrap_or_else(|| ("?".into(), "panic without hook".into())))
        })
        .expect("spawn run thread")
        .join()
        .unwrap_or_else(|_| Some(("?".into(), "run thread died".into())));
    let mut st = sim.st();
    let mut harness_error = None;
    if let Some((loc, msg)) = outcome {
        if is_harness_location(&loc) {
            harness_error = Some(format!("{loc}: {msg}"));
        } else if st.violation.is_none() {
            st.violation = Some(panic_violation(&loc, &msg));
        }
    }
    RunReport {
        tape: st.tape.clone(),
        entropy: st.entropy,
        violation: st.violation.clone(),
        harness_error,
        trace: std::mem::take(&mut st.trace),
        trace_hash: st.trace_hash,
        faults: st.faults.clone(),
        counters: st.counters.clone(),
        nontrivial: st.nontrivial,
        draws: st.draws,
        sim_ns: st.finished_ns.saturating_sub(1_000_000_000),
    }
}

pub fn panic_violation(loc: &str, msg: &str) -> Violation {
    let file = loc.rsplit_once(':').map_or(loc, |(f, _)| f);
    Violation {
        kind: format!("panic in {}", short_path(file)),
        message: format!("the code under test panicked at {loc}: {msg}"),
    }
}

fn short_path(p: &str) -> &str {
    p.split("/crates/").nth(1).unwrap_or(p)
}

/// Panics raised from harness code (paths relative to the sim workspace) are errors of the check.
pub fn is_harness_location(loc: &str) -> bool {
    !loc.starts_with('/') || loc.contains("/verif/sim/")
}

/// Silences panics inside runs and keeps their location for the verdict.
pub fn install_panic_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if current().is_some() {
            let loc = info
                .location()
                .map(|l| format!("{}:{}", l.file(), l.line()))
                .unwrap_or_else(|| "?".into());
            let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = info.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "<non-string panic>".into()
            };
            PANIC.with(|p| {
                let mut p = p.borrow_mut();
                if p.is_none() {
                    *p = Some((loc, msg));
                }
            });
        } else {
            default(info);
        }
    }));
}

/// The last panic recorded on this thread, if any (for harnesses that catch panics themselves).
pub fn take_panic() -> Option<(String, String)> {
    PANIC.with(|p| p.borrow_mut().take())
}

pub use libc;
