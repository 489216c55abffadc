//! Baton scheduler: real threads, exactly one of which runs at any time.  At
//! every yield point the next one is chosen by the seeded policy, or by the
//! explicit decisions of the case when it is replayed.

use std::cell::RefCell;
use std::sync::{Arc, Condvar, Mutex, MutexGuard, PoisonError};

use crate::log::ev;
use crate::rng::Rng;

pub enum Policy {
    /// Switch with probability 1/den at each yield point.
    Random(Rng, usize),
    /// Fixed priorities, lowered at a few chosen steps (PCT).
    Priority(Vec<u32>, Vec<u64>, u32),
    /// Round robin every n steps.
    Robin(u64),
    /// Explicit decisions; otherwise keep running.
    Script(Vec<(u64, u32)>),
}

struct State {
    n: usize,
    cur: usize,
    alive: Vec<bool>,
    started: bool,
    step: u64,
    policy: Policy,
    taken: Vec<(u64, u32)>,
    switches: u64,
}

pub struct Sched {
    st: Mutex<State>,
    cv: Vec<Condvar>,
}

thread_local! {
    static ME: RefCell<Option<(Arc<Sched>, usize)>> = const { RefCell::new(None) };
}

pub struct Report {
    pub taken: Vec<(u64, u32)>,
    pub switches: u64,
    pub steps: u64,
}

impl Sched {
    fn lock(&self) -> MutexGuard<'_, State> {
        self.st.lock().unwrap_or_else(PoisonError::into_inner)
    }
}

impl State {
    /// Choose who runs next. `must` when the current thread cannot go on.
    fn choose(&mut self, must: bool) -> usize {
        self.step += 1;
        let step = self.step;
        let alive: Vec<usize> = (0..self.n).filter(|&i| self.alive[i]).collect();
        if alive.is_empty() { return self.cur }
        let default = if must { alive[0] } else { self.cur };
        let next = match &mut self.policy {
            Policy::Random(r, den) => {
                if must || r.chance(1, *den) { *r.pick(&alive) } else { default }
            }
            Policy::Priority(pr, change, low) => {
                if change.contains(&step) && self.cur < self.n {
                    pr[self.cur] = *low;
                    *low = low.saturating_sub(1);
                }
                *alive.iter().max_by_key(|&&i| pr[i]).unwrap_or(&default)
            }
            Policy::Robin(n) => {
                if must || step % *n == 0 {
                    *alive.iter().find(|&&i| i > self.cur).unwrap_or(&alive[0])
                } else { default }
            }
            Policy::Script(v) => {
                match v.binary_search_by_key(&step, |x| x.0) {
                    Ok(k) if self.alive.get(v[k].1 as usize) == Some(&true) => v[k].1 as usize,
                    _ => default,
                }
            }
        };
        if next != default { self.taken.push((step, next as u32)); }
        if next != self.cur { self.switches += 1; }
        next
    }
}

/// A point at which another thread may be scheduled.  Does nothing outside of
/// a simulated thread.
pub fn yield_now(code: &'static str) {
    let me = ME.try_with(|m| m.try_borrow().ok().and_then(|b| b.clone())).ok().flatten();
    let Some((s, id)) = me else { return };
    if crate::log::capped() { return }
    ev(code, id as u64);
    let mut g = s.lock();
    let next = g.choose(false);
    if next != id {
        g.cur = next;
        s.cv[next].notify_one();
        while g.cur != id {
            g = s.cv[id].wait(g).unwrap_or_else(PoisonError::into_inner);
        }
    }
}

/// Run the bodies as simulated threads to completion.
pub fn run<'a>(policy: Policy, stack: usize, bodies: Vec<Box<dyn FnOnce() + Send + 'a>>)
               -> (Report, Vec<Result<(), Box<dyn std::any::Any + Send>>>) {
    let n = bodies.len();
    let s = Arc::new(Sched {
        st: Mutex::new(State {
            n, cur: usize::MAX, alive: vec![true; n], started: false, step: 0, policy,
            taken: Vec::new(), switches: 0,
        }),
        cv: (0..n).map(|_| Condvar::new()).collect(),
    });
    let mut results: Vec<Result<(), Box<dyn std::any::Any + Send>>> = Vec::new();
    std::thread::scope(|scope| {
        let mut hs = Vec::new();
        for (id, body) in bodies.into_iter().enumerate() {
            let s = Arc::clone(&s);
            let h = std::thread::Builder::new().stack_size(stack).spawn_scoped(scope, move || {
                {
                    let mut g = s.lock();
                    while !(g.started && g.cur == id) {
                        g = s.cv[id].wait(g).unwrap_or_else(PoisonError::into_inner);
                    }
                }
                ME.with(|m| *m.borrow_mut() = Some((Arc::clone(&s), id)));
                crate::hooks::install();
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(body));
                ME.with(|m| *m.borrow_mut() = None);
                let mut g = s.lock();
                g.alive[id] = false;
                if g.alive.iter().any(|&a| a) {
                    let next = g.choose(true);
                    g.cur = next;
                    s.cv[next].notify_one();
                }
                drop(g);
                r
            });
            match h {
                Ok(h) => hs.push(h),
                Err(e) => {
                    eprintln!("harness error: cannot start a thread: {e}");
                    std::process::exit(3);
                }
            }
        }
        {
            let mut g = s.lock();
            g.started = true;
            let next = g.choose(true);
            g.cur = next;
            s.cv[next].notify_one();
        }
        for h in hs {
            results.push(match h.join() { Ok(r) => r, Err(e) => Err(e) });
        }
    });
    let g = s.lock();
    (Report { taken: g.taken.clone(), switches: g.switches, steps: g.step }, results)
}

/// Policy for a case: scripted, or derived from its seed with swarm variation.
pub fn policy(case: &crate::case::Case, n: usize) -> Policy {
    if case.scripted { return Policy::Script(case.sched.clone()) }
    let mut r = Rng::new(case.get("sseed") as u64);
    match case.get("policy") {
        0 => Policy::Random(r, 2),
        1 => Policy::Random(r, 6),
        2 => Policy::Random(r, 30),
        3 => {
            let mut pr: Vec<u32> = (0..n as u32).map(|i| 100 + i).collect();
            for i in (1..n).rev() { pr.swap(i, r.below(i + 1)); }
            let len = case.get("plen").max(10) as usize;
            let d = 1 + r.below(4);
            let ch = (0..d).map(|_| 1 + r.below(len) as u64).collect();
            Policy::Priority(pr, ch, 50)
        }
        _ => Policy::Robin(1 + r.below(5) as u64),
    }
}
