//! The event log of the current run: every seam event passes through `ev`.
//! Its hash identifies the execution; its length is the simulated time.

use std::sync::Mutex;

pub struct Log {
    pub hash: u64,
    pub steps: u64,
    pub cap: u64,
    pub keep: bool,
    pub lines: Vec<String>,
    pub capped: bool,
}

static LOG: Mutex<Log> = Mutex::new(Log {
    hash: 0, steps: 0, cap: u64::MAX, keep: false, lines: Vec::new(), capped: false,
});

/// Panic payload: the run exceeded its step budget (no progress).
pub struct StepCap;
/// Panic payload: a fault the simulator injected.
pub struct Injected(pub &'static str);

fn with<R>(f: impl FnOnce(&mut Log) -> R) -> R {
    let mut g = LOG.lock().unwrap_or_else(std::sync::PoisonError::into_inner);
    f(&mut g)
}

pub fn reset(keep: bool) {
    with(|l| {
        l.hash = 0x1234_5678_9abc_def1;
        l.steps = 0;
        l.cap = 50_000_000;
        l.keep = keep;
        l.lines.clear();
        l.capped = false;
    });
}

pub fn set_cap(cap: u64) {
    with(|l| l.cap = l.steps + cap);
}

fn add(l: &mut Log, code: &'static str, a: u64) {
    l.steps += 1;
    for b in code.as_bytes() {
        l.hash = (l.hash ^ u64::from(*b)).wrapping_mul(0x0000_0100_0000_01b3);
    }
    l.hash = (l.hash ^ a).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(23);
    if l.keep && l.lines.len() < 20_000 {
        crate::mem::apart(|| l.lines.push(format!("{} {code} {a}", l.steps)));
    }
}

/// An event at a seam.
pub fn ev(code: &'static str, a: u64) {
    let over = with(|l| {
        add(l, code, a);
        let over = l.steps > l.cap && !l.capped;
        if over { l.capped = true; }
        over
    });
    if over && !std::thread::panicking() {
        std::panic::panic_any(StepCap);
    }
}

/// A probe that only counts towards the step budget (not logged).
pub fn tick() {
    let over = with(|l| {
        l.steps += 1;
        let over = l.steps > l.cap && !l.capped;
        if over { l.capped = true; }
        over
    });
    if over && !std::thread::panicking() {
        std::panic::panic_any(StepCap);
    }
}

/// Events and probes so far.
pub fn steps() -> u64 { with(|l| l.steps) }

pub fn capped() -> bool { with(|l| l.capped) }

pub fn snapshot() -> (u64, u64, Vec<String>) {
    with(|l| (l.hash, l.steps, std::mem::take(&mut l.lines)))
}
