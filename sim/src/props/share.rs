//! C11, C12: shared trees under concurrent reference operations.

use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;
use std::sync::{Arc as StdArc, Mutex, MutexGuard, PoisonError};

use kul::datum::{DatumArc, DatumRc};
use kul::{Datum, DerefTryMut};

use crate::case::Case;
use crate::engine::{fail, Cx, PropDef, Violation};
use crate::hooks;
use crate::log::{ev, set_cap, StepCap};
use crate::rng::Rng;
use crate::sched;

type V = Result<(), Violation>;

// ------------------------------------------------------------------- model

#[derive(Clone, Copy, Debug, PartialEq)]
enum Node { Text(u32), Extra(u32), EmptyNest, EmptyList, Comb(usize, usize), List(usize, usize) }

#[derive(Default)]
struct State {
    nodes: Vec<Node>,
    /// Strong references held by the application, per node.
    held: Vec<u32>,
    /// How often each token was dropped.
    dropped: Vec<u32>,
    /// Drops of application references going on.
    dropping: u32,
    /// Observations made while content is being dropped go on.
    observing: u32,
    bad: Option<(&'static str, String)>,
    drops_seen: u64,
    reads: u64,
    upgrades_alive: u64,
    upgrades_dead: u64,
    upgrades_dying: u64,
    observed_in_drop: u64,
}

impl State {
    fn reachable(&self) -> Vec<bool> {
        let mut r: Vec<bool> = self.held.iter().map(|&h| h > 0).collect();
        // Children come before their parents.
        for i in (0..self.nodes.len()).rev() {
            if r[i] {
                if let Node::Comb(a, b) | Node::List(a, b) = self.nodes[i] { r[a] = true; r[b] = true; }
            }
        }
        r
    }
    fn bad(&mut self, kind: &'static str, msg: String) {
        if self.bad.is_none() { self.bad = Some((kind, msg)); }
    }
}

type Shared = StdArc<Mutex<State>>;

fn lock(s: &Shared) -> MutexGuard<'_, State> { s.lock().unwrap_or_else(PoisonError::into_inner) }

/// Content of a leaf: counts its drop.
pub struct Tok { id: u32, node: usize, s: Shared }

impl Drop for Tok {
    fn drop(&mut self) {
        ev("content-drop", u64::from(self.id));
        {
            let mut g = lock(&self.s);
            g.dropped[self.id as usize] += 1;
            g.drops_seen += 1;
            if g.dropped[self.id as usize] > 1 {
                g.bad("dropped-twice", format!("content of node {} dropped again", self.node));
            }
            if g.reachable()[self.node] {
                let n = self.node;
                g.bad("dropped-early", format!("content of node {n} dropped while strongly reachable"));
            }
        }
        observe();
        sched::yield_now("content-drop");
    }
}

// Observers run from inside of content drops; one list per thread.
thread_local! {
    static OBS: RefCell<(usize, Vec<Rc<dyn Fn()>>)> = const { RefCell::new((0, Vec::new())) };
}

fn observe() {
    let f = OBS.try_with(|o| {
        let mut o = o.try_borrow_mut().ok()?;
        if o.1.is_empty() { return None }
        o.0 += 1;
        let k = o.0 % o.1.len();
        Some(Rc::clone(&o.1[k]))
    }).ok().flatten();
    if let Some(f) = f { f() }
}

// ------------------------------------------------------------ abstraction

pub trait Ref: DerefTryMut<Target = Datum<Tok, Tok, Self>> + Sized + 'static {
    type W: Clone + 'static;
    fn make(d: Datum<Tok, Tok, Self>) -> Self;
    fn dup(&self) -> Self;
    fn down(&self) -> Self::W;
    fn up(w: &Self::W) -> Option<Self>;
}

impl Ref for DatumRc<Tok, Tok> {
    type W = std::rc::Weak<Datum<Tok, Tok, Self>>;
    fn make(d: Datum<Tok, Tok, Self>) -> Self { DatumRc::new(d) }
    fn dup(&self) -> Self { DatumRc(Rc::clone(&self.0)) }
    fn down(&self) -> Self::W { Rc::downgrade(&self.0) }
    fn up(w: &Self::W) -> Option<Self> { w.upgrade().map(DatumRc) }
}

impl Ref for DatumArc<Tok, Tok> {
    type W = hooks::Weak<Datum<Tok, Tok, Self>>;
    fn make(d: Datum<Tok, Tok, Self>) -> Self { DatumArc::new(d) }
    fn dup(&self) -> Self { DatumArc(hooks::Arc::clone(&self.0)) }
    fn down(&self) -> Self::W { hooks::Arc::downgrade(&self.0) }
    fn up(w: &Self::W) -> Option<Self> { w.upgrade().map(DatumArc) }
}

fn build<R: Ref>(s: &Shared) -> Vec<R> {
    let nodes = lock(s).nodes.clone();
    let mut v: Vec<R> = Vec::new();
    for (i, n) in nodes.iter().enumerate() {
        let tok = |id: u32| Tok { id, node: i, s: StdArc::clone(s) };
        let d = match *n {
            Node::Text(t) => Datum::Text(tok(t)),
            Node::Extra(t) => Datum::Extra(tok(t)),
            Node::EmptyNest => Datum::EmptyNest,
            Node::EmptyList => Datum::EmptyList,
            Node::Comb(a, b) => Datum::Combination { operator: v[a].dup(), operands: v[b].dup() },
            Node::List(a, b) => Datum::List { elem: v[a].dup(), next: v[b].dup() },
        };
        v.push(R::make(d));
    }
    v
}

/// Is the datum the one built as `node`, all the way down?
fn read<R: Ref>(d: &R, node: usize, s: &Shared, how: &str) {
    let nodes = {
        let mut g = lock(s);
        g.reads += 1;
        g.nodes.clone()
    };
    let mut stack: Vec<(&Datum<Tok, Tok, R>, usize)> = vec![(&**d, node)];
    let mut budget = 48;
    while let Some((d, n)) = stack.pop() {
        sched::yield_now("read");
        if budget == 0 { break }
        budget -= 1;
        let ok = match (d, nodes[n]) {
            (Datum::Text(t), Node::Text(id)) | (Datum::Extra(t), Node::Extra(id)) => t.id == id,
            (Datum::EmptyNest, Node::EmptyNest) | (Datum::EmptyList, Node::EmptyList) => true,
            (Datum::Combination { operator: x, operands: y }, Node::Comb(a, b))
            | (Datum::List { elem: x, next: y }, Node::List(a, b)) => {
                stack.push((&**y, b));
                stack.push((&**x, a));
                true
            }
            _ => false,
        };
        if !ok {
            let now = match d {
                Datum::Text(t) => format!("text {}", t.id),
                Datum::Extra(t) => format!("value {}", t.id),
                Datum::EmptyNest => "an empty nest".into(),
                Datum::EmptyList => "an empty list".into(),
                Datum::Combination { .. } => "a combination".into(),
                Datum::List { .. } => "a list".into(),
            };
            lock(s).bad("altered", format!(
                "{how}: below node {node}, node {n} was built as {:?} but is seen as {now}", nodes[n]));
            return
        }
    }
}

struct Hand<R: Ref> {
    s: Shared,
    strong: Vec<(usize, R)>,
    weak: Vec<(usize, R::W)>,
    watch: bool,
}

impl<R: Ref> Hand<R> {
    fn gain(&mut self, n: usize, r: R) {
        lock(&self.s).held[n] += 1;
        self.strong.push((n, r));
    }

    fn release(&mut self, n: usize, r: R) { release(&self.s, n, r) }

    fn up(&mut self, k: usize, keep: bool) {
        if self.weak.is_empty() { return }
        let k = k % self.weak.len();
        let (n, w) = self.weak[k].clone();
        let r = R::up(&w);
        let alive = lock(&self.s).reachable()[n];
        match r {
            Some(r) => {
                {
                    let mut g = lock(&self.s);
                    if alive { g.upgrades_alive += 1 } else { g.upgrades_dying += 1 }
                    g.held[n] += 1;
                }
                read(&r, n, &self.s, "after following a weak reference");
                if keep { self.strong.push((n, r)) } else { self.release(n, r) }
            }
            None => {
                let mut g = lock(&self.s);
                g.upgrades_dead += 1;
                if alive {
                    g.bad("weak-lost", format!(
                        "a weak reference to node {n} gives nothing though the node is held"));
                }
            }
        }
    }

    fn act(&mut self, op: &[i64; 4], mail: &Mutex<Vec<(usize, R)>>) {
        let arg = op[3].unsigned_abs() as usize;
        let ns = self.strong.len();
        match op[2] {
            0 => if ns > 0 {
                let (n, r) = &self.strong[arg % ns];
                let (n, c) = (*n, r.dup());
                self.gain(n, c);
            },
            1 => if ns > 0 {
                let (n, r) = self.strong.swap_remove(arg % ns);
                self.release(n, r);
            },
            2 => if ns > 0 {
                let (n, r) = &self.strong[arg % ns];
                let x = (*n, r.down());
                self.add_weak(x);
            },
            3 => self.up(arg, true),
            4 => if ns > 0 {
                let (n, r) = &self.strong[arg % ns];
                read(r, *n, &self.s, "through a strong reference");
            },
            5 => if ns > 0 {
                // A reference further down.
                let (n, r) = &self.strong[arg % ns];
                let node = lock(&self.s).nodes[*n];
                let got = match (&**r, node) {
                    (Datum::Combination { operator: x, operands: y }, Node::Comb(a, b))
                    | (Datum::List { elem: x, next: y }, Node::List(a, b))
                        => if arg / 7 % 2 == 0 { Some((a, x.dup())) } else { Some((b, y.dup())) },
                    _ => None,
                };
                if let Some((n, r)) = got { self.gain(n, r) }
            },
            6 => if !self.weak.is_empty() {
                let k = arg % self.weak.len();
                let _ = self.weak.swap_remove(k);
            },
            7 => self.up(arg, false),
            8 => if ns > 0 {
                let x = self.strong.swap_remove(arg % ns);
                mail.lock().unwrap_or_else(PoisonError::into_inner).push(x);
            },
            9 => {
                let x = mail.lock().unwrap_or_else(PoisonError::into_inner).pop();
                if let Some(x) = x { self.strong.push(x) }
            }
            _ => if ns > 0 {
                // A weak reference further down.
                let (n, r) = &self.strong[arg % ns];
                let node = lock(&self.s).nodes[*n];
                let got = match (&**r, node) {
                    (Datum::Combination { operator: x, operands: y }, Node::Comb(a, b))
                    | (Datum::List { elem: x, next: y }, Node::List(a, b))
                        => if arg / 7 % 2 == 0 { Some((a, x.down())) } else { Some((b, y.down())) },
                    _ => None,
                };
                if let Some(x) = got { self.add_weak(x) }
            },
        }
    }

    fn add_weak(&mut self, (n, w): (usize, R::W)) {
        if self.watch {
            let (s, w2) = (StdArc::clone(&self.s), w.clone());
            let f: Rc<dyn Fn()> = Rc::new(move || {
                {
                    let mut g = lock(&s);
                    if g.observing > 0 { return }
                    g.observing += 1;
                    g.observed_in_drop += 1;
                }
                let r = R::up(&w2);
                if let Some(r) = r {
                    lock(&s).held[n] += 1;
                    read(&r, n, &s, "while content is being dropped");
                    release(&s, n, r);
                }
                lock(&s).observing -= 1;
            });
            OBS.with(|o| o.borrow_mut().1.push(f));
        }
        self.weak.push((n, w));
    }
}

fn release<R: Ref>(s: &Shared, n: usize, r: R) {
    {
        let mut g = lock(s);
        g.held[n] -= 1;
        g.dropping += 1;
    }
    ev("release", n as u64);
    drop(r);
    let mut g = lock(s);
    g.dropping -= 1;
    if g.dropping == 0 {
        // Nothing is going on: what cannot be reached must be gone.
        let reach = g.reachable();
        let left = (0..g.nodes.len()).find(|&i| match g.nodes[i] {
            Node::Text(t) | Node::Extra(t) => !reach[i] && g.dropped[t as usize] == 0,
            _ => false,
        });
        if let Some(i) = left {
            g.bad("leaked", format!("node {i} was not dropped though its last reference is gone"));
        }
    }
}

// ---------------------------------------------------------------- the runs

fn spec(case: &Case) -> Vec<Node> {
    let mut v: Vec<Node> = Vec::new();
    let mut tok = 0;
    for op in case.ops.iter().filter(|o| o[0] == 0) {
        let i = v.len();
        let pick = |x: i64| (i as i64 - 1 - x.abs()).rem_euclid(i.max(1) as i64) as usize;
        let n = match op[1] {
            3 if i > 0 => Node::Comb(pick(op[2]), pick(op[3])),
            4 if i > 0 => Node::List(pick(op[2]), pick(op[3])),
            2 => Node::EmptyNest,
            5 => Node::EmptyList,
            x => {
                tok += 1;
                if x == 1 { Node::Extra(tok - 1) } else { Node::Text(tok - 1) }
            }
        };
        v.push(n);
    }
    v
}

fn gen(r: &mut Rng, rc: bool) -> Case {
    let mut c = Case::default();
    let threads = if rc { 1 } else { r.range(2, 4) };
    c.set("threads", threads as i64);
    c.set("rc", i64::from(rc));
    c.set("watch", i64::from(r.chance(1, 2)));
    let n = match r.below(6) { 0 => r.range(1, 4), 1..=3 => r.range(4, 14), _ => r.range(14, 40) };
    let shape = r.below(6);
    // How far back children are taken from: 0 makes chains, more makes DAGs.
    let sharing = r.below(4);
    for i in 0..n {
        let branch = i > 1 && r.chance(if shape == 5 { 1 } else { 2 }, 3) || i + 1 == n;
        if !branch {
            c.ops.push([0, *r.pick(&[0i64, 0, 0, 1, 1, 2, 5]), 0, 0]);
            continue
        }
        let k = *r.pick(&[3i64, 4]);
        let far = r.below(i.max(1)) as i64;
        let near = if sharing == 0 { 0 } else { r.below(sharing + 1) as i64 };
        let (a, b) = match shape {
            0 => (far, 0),                     // list
            1 => (0, far),                     // nest
            2 => if i % 2 == 0 { (near, far) } else { (far, near) },
            3 => (near, r.below(3) as i64),
            _ => (r.below(i.max(1)) as i64, near),
        };
        c.ops.push([0, k, a, b]);
    }
    // Initial references: (1, thread, node distance from the end, weak).
    // One holder taking the tree down under the eyes of the others, or
    // everybody holding something.
    let lone = r.chance(1, 3);
    for t in 0..threads {
        let k = r.range(1, 4) + if lone { 2 } else { 0 };
        for j in 0..k {
            let back = if j == 0 && r.chance(2, 3) { 0 } else { r.below(n) };
            let weak = if lone { t > 0 || j > 0 } else { r.chance(1, 4) };
            let back = if lone && t == 0 && j == 0 { 0 } else { back };
            c.ops.push([1, t as i64, back as i64, i64::from(weak)]);
        }
    }
    let mut weights: Vec<u32> = (0..11).map(|_| if r.chance(1, 4) { 0 } else { 1 + r.below(5) as u32 })
        .collect();
    if lone { weights[3] += 4; weights[7] += 4; weights[1] += 2; }
    for t in 0..threads {
        let len = if rc { r.range(4, 24) } else { r.range(1, 10) };
        for _ in 0..len {
            let a = if weights.iter().all(|&w| w == 0) { 1 } else { r.weighted(&weights) };
            c.ops.push([2, t as i64, a as i64, r.below(64) as i64]);
        }
    }
    c.set("sseed", (r.next() >> 8) as i64);
    c.set("policy", r.below(5) as i64);
    c.set("plen", r.range(20, 400) as i64);
    c
}

fn setup<R: Ref>(case: &Case) -> (Shared, Vec<Hand<R>>, Vec<(usize, R::W)>) {
    let nodes = spec(case);
    let n = nodes.len();
    let toks = nodes.iter().filter(|x| matches!(x, Node::Text(_) | Node::Extra(_))).count();
    let s: Shared = StdArc::new(Mutex::new(State {
        nodes, held: vec![0; n], dropped: vec![0; toks], ..State::default()
    }));
    let built: Vec<R> = build(&s);
    let threads = case.get("threads").clamp(1, 4) as usize;
    let mut hands: Vec<Hand<R>> = (0..threads).map(|_| Hand {
        s: StdArc::clone(&s), strong: Vec::new(), weak: Vec::new(), watch: case.get("watch") == 1,
    }).collect();
    for op in case.ops.iter().filter(|o| o[0] == 1) {
        if n == 0 { break }
        let t = op[1].rem_euclid(threads as i64) as usize;
        let k = n - 1 - op[2].rem_euclid(n as i64) as usize;
        if op[3] == 1 { hands[t].weak.push((k, built[k].down())) }
        else { let r = built[k].dup(); hands[t].gain(k, r) }
    }
    // To see at the end whether nodes without content are gone.
    let all: Vec<(usize, R::W)> = if case.get("watch") == 1 {
        built.iter().enumerate().map(|(i, r)| (i, r.down())).collect()
    } else { Vec::new() };
    // The builder lets go.
    for i in 0..n { lock(&s).held[i] += 1; }
    for (i, r) in built.into_iter().enumerate() { release(&s, i, r) }
    (s, hands, all)
}

fn finish<R: Ref>(s: &Shared, mail: Mutex<Vec<(usize, R)>>, all: &[(usize, R::W)]) {
    for (n, r) in mail.into_inner().unwrap_or_else(PoisonError::into_inner) { release(s, n, r) }
    let mut g = lock(s);
    for (i, n) in g.nodes.clone().iter().enumerate() {
        if let Node::Text(t) | Node::Extra(t) = n {
            if g.dropped[*t as usize] != 1 {
                let k = g.dropped[*t as usize];
                g.bad("leaked", format!("at the end the content of node {i} was dropped {k} times"));
            }
        }
    }
    drop(g);
    for (i, w) in all {
        if R::up(w).is_some() {
            lock(s).bad("leaked", format!("node {i} still exists at the end"));
        }
    }
}

/// Runs one script; the hand's leftovers are dropped at the end.
fn perform<R: Ref>(mut h: Hand<R>, ops: &[[i64; 4]], mail: &Mutex<Vec<(usize, R)>>) {
    for op in ops {
        sched::yield_now("act");
        h.act(op, mail);
    }
    while let Some((n, r)) = h.strong.pop() { h.release(n, r) }
    OBS.with(|o| o.borrow_mut().1.clear());
    h.weak.clear();
}

fn run(case: &Case, cx: &mut Cx) -> Result<State2, Violation> {
    set_cap(400_000);
    let threads = case.get("threads").clamp(1, 4) as usize;
    let script = |t: usize| -> Vec<[i64; 4]> {
        case.ops.iter().filter(|o| o[0] == 2 && o[1].rem_euclid(threads as i64) as usize == t)
            .copied().collect()
    };
    OBS.with(|o| *o.borrow_mut() = (0, Vec::new()));
    let mut panic: Option<String> = None;
    let s = if case.get("rc") == 1 {
        let (s, hands, all) = setup::<DatumRc<Tok, Tok>>(case);
        let mail = Mutex::new(Vec::new());
        for (t, h) in hands.into_iter().enumerate() { perform(h, &script(t), &mail); }
        finish(&s, mail, &all);
        s
    } else {
        let (s, hands, all) = setup::<DatumArc<Tok, Tok>>(case);
        let mail: Mutex<Vec<(usize, DatumArc<Tok, Tok>)>> = Mutex::new(Vec::new());
        let mut bodies: Vec<Box<dyn FnOnce() + Send + '_>> = Vec::new();
        for (t, h) in hands.into_iter().enumerate() {
            let (ops, mail) = (script(t), &mail);
            bodies.push(Box::new(move || perform(h, &ops, mail)));
        }
        let (rep, results) = sched::run(sched::policy(case, threads), 4 << 20, bodies);
        cx.sched = rep.taken;
        cx.count("thread switches", rep.switches);
        cx.count("scheduling points", rep.steps);
        for r in results {
            if let Err(p) = r {
                if p.is::<StepCap>() { std::panic::resume_unwind(p) }
                panic = Some(crate::drive::panic_text(&*p));
            }
        }
        if panic.is_none() { finish(&s, mail, &all); }
        s
    };
    let mut g = lock(&s);
    if let Some(p) = panic {
        let at = crate::engine::take_panic().map_or(String::new(), |x| x.0);
        if at.starts_with("src/") {
            eprintln!("harness error: panic in the simulator at {at}: {p}");
            std::process::exit(3);
        }
        g.bad = Some(("panic", format!("a reference operation panicked at {at}: {p}")));
    }
    cx.count("content drops", g.drops_seen);
    cx.count("reads of shared trees", g.reads);
    cx.count("weak references followed, node held", g.upgrades_alive);
    cx.count("weak references followed, node dying", g.upgrades_dying);
    cx.count("weak references followed, node gone", g.upgrades_dead);
    cx.count("observations from inside of drops", g.observed_in_drop);
    cx.fault("preemption between reference-count operations", cx.sched.len() as u64);
    Ok(State2 { bad: g.bad.take(), reads: g.reads, drops: g.drops_seen })
}

struct State2 { bad: Option<(&'static str, String)>, reads: u64, drops: u64 }

// Nodes, edges and counts of use, for the evidence.
fn shape_counts(case: &Case, cx: &mut Cx) {
    let nodes = spec(case);
    let mut uses: HashMap<usize, u32> = HashMap::new();
    for n in &nodes {
        if let Node::Comb(a, b) | Node::List(a, b) = n {
            *uses.entry(*a).or_insert(0) += 1;
            *uses.entry(*b).or_insert(0) += 1;
        }
    }
    cx.count("nodes", nodes.len() as u64);
    cx.count("nodes with several parents", uses.values().filter(|&&u| u > 1).count() as u64);
}

fn c11_gen(r: &mut Rng, _: bool) -> Case { gen(r, false) }

fn c11_run(case: &Case, cx: &mut Cx) -> V {
    let r = run(case, cx)?;
    shape_counts(case, cx);
    cx.nontrivial = !cx.sched.is_empty() && r.drops > 0;
    match r.bad {
        Some((k, m)) if k != "altered" && k != "weak-lost" => fail(k, m),
        _ => Ok(()),
    }
}

pub static C11: PropDef = PropDef {
    id: "C11", gen: c11_gen, run: c11_run, runs: (500_000, 8_000_000), level: "exploration",
    rule: "seeded trees and DAGs of up to 40 nodes, two to four threads with scripts of reference \
           operations, seeded schedules (random, priority, round robin) over every reference-count \
           operation; non-trivial when threads were preempted and content was dropped",
    real: "kul Datum, DatumArc and its Drop (algorithm 1), std Arc and Weak behind the announcing hook",
    stub: "thread scheduler (one thread at a time), leaf content that counts its drops",
};

fn c12_gen(r: &mut Rng, _: bool) -> Case { let rc = r.chance(1, 3); gen(r, rc) }

fn c12_run(case: &Case, cx: &mut Cx) -> V {
    let r = run(case, cx)?;
    shape_counts(case, cx);
    cx.count(if case.get("rc") == 1 { "single-threaded runs" } else { "multi-threaded runs" }, 1);
    cx.nontrivial = r.reads > 0;
    match r.bad {
        Some((k, m)) if k == "altered" || k == "weak-lost" => fail(k, m),
        _ => Ok(()),
    }
}

pub static C12: PropDef = PropDef {
    id: "C12", gen: c12_gen, run: c12_run, runs: (480_000, 9_000_000), level: "exploration",
    rule: "as C11, plus single-threaded runs on the non-atomic type with observers that follow weak \
           references from inside of content drops; non-trivial when a shared tree was read",
    real: "kul Datum, DatumArc, DatumRc and their Drop (algorithm 1), std Arc, Rc and Weak",
    stub: "thread scheduler (one thread at a time), leaf content that counts its drops and observes",
};
