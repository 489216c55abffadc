//! C19: parses running at the same time.

use std::collections::VecDeque;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::{Arc, Mutex, MutexGuard, PoisonError};

use kul::datum::{ArcDatum, DatumArc};
use kul::parser::{ArcDatumAllocator, DatumAllocator, OperatorBindings};
use kul::source_stream::{CharIterSourceStream, StrishIterSourceStream};
use kul::text::chunk::{PosStrish, RefCntStrish};
use kul::text::TextVec;
use kul::{Combiner, Datum, Parser, Text};

use crate::case::Case;
use crate::drive::{ctls, panic_text, piece_strings, Conf, Ctls, Plan};
use crate::engine::{fail, take_panic, Cx, PropDef, Violation};
use crate::gen;
use crate::hooks;
use crate::log::{ev, set_cap, Injected, StepCap};
use crate::model::{Call, Item, M};
use crate::rng::Rng;
use crate::sched;
use crate::world::{bindings, intern, to_e, to_m, ApBox, Binds, Comb, DatumOf, DynSrc, OpBox,
                   Pieces, SimAlloc, SimCC, CE};

type V = Result<(), Violation>;
type TV<R> = TextVec<PosStrish<R>>;
type DA<R> = SimAlloc<ArcDatumAllocator<TV<R>, i64>>;
type Ref<R> = DatumArc<TV<R>, i64>;

fn lock<T>(m: &Mutex<T>) -> MutexGuard<'_, T> { m.lock().unwrap_or_else(PoisonError::into_inner) }

fn dup<R: RefCntStrish>(r: &Ref<R>) -> Ref<R> { DatumArc(hooks::Arc::clone(&r.0)) }

/// What the parses share.
struct Common<R: RefCntStrish> {
    /// Per parse, the buffers it is given.
    pieces: Vec<Vec<R>>,
    /// Trees that macros put into results.
    consts: Vec<Ref<R>>,
}

/// The tables of the library, plus macros that return a shared tree.
struct Table<R: RefCntStrish + 'static> {
    inner: Binds<DA<R>>,
    consts: Vec<(ArcDatum<TV<R>, i64>, Comb<DA<R>>)>,
}

impl<R: RefCntStrish + 'static> OperatorBindings<DA<R>> for Table<R> {
    type OR = OpBox<DA<R>>;
    type AR = ApBox<DA<R>>;
    type CE = CE;
    fn lookup(&self, operator: &DatumOf<DA<R>>) -> Option<&Comb<DA<R>>> {
        self.consts.iter().find(|c| c.0 == *operator).map(|c| &c.1)
            .or_else(|| self.inner.lookup(operator))
    }
}

const SHARED: [&str; 3] = ["k", "kk", "日"];

fn tree<R: RefCntStrish>(shape: i64) -> Ref<R> {
    let text = |s: &str| DatumArc::new(Datum::Text(TV::<R>::from_str(intern(s))));
    let list = |elem, next| DatumArc::new(Datum::List { elem, next });
    match shape {
        0 => text("shared"),
        1 => {
            let t = text("one");
            list(dup(&t), list(t, DatumArc::new(Datum::EmptyList)))
        }
        _ => {
            let mut l = DatumArc::new(Datum::EmptyList);
            for i in 0..4 {
                let c = DatumArc::new(Datum::Combination {
                    operator: text("op"), operands: DatumArc::new(Datum::Extra(i)) });
                l = list(c, l);
            }
            l
        }
    }
}

/// The kind of source of one of the parses: string pieces or characters.
fn source(case: &Case, t: usize) -> i64 { (case.get("srcs") >> t) & 1 }

/// The case of one of the parses.
fn part(case: &Case, t: usize) -> Case {
    let mut c = Case::default();
    c.cfg = case.cfg.clone();
    let d = if case.get("same") == 1 { 0 } else { t };
    c.docs = vec![case.doc(d).to_vec()];
    c.cuts = vec![case.cuts.get(d).cloned().unwrap_or_default()];
    c.binds = case.binds.clone();
    c.faults = case.faults.iter().filter(|f| (f.1 >> 32) as usize == t)
        .map(|f| (f.0.clone(), f.1 & 0xffff_ffff)).collect();
    c
}

/// What a parse did.
#[derive(Default, Debug, PartialEq, Clone)]
struct Seen {
    items: Vec<Item>,
    calls: Vec<Call>,
    pulls: u64,
    panic: Option<String>,
    ended: bool,
}

struct Mail<R: RefCntStrish> {
    boxes: Vec<Mutex<VecDeque<(Ref<R>, M)>>>,
    bad: Mutex<Option<String>>,
    reads: Mutex<u64>,
}

/// Something to run one parse step by step.
fn with_parse<R, X>(case: &Case, t: usize, common: &Common<R>, f: impl FnOnce(&mut dyn FnMut() -> Option<Result<DatumOf<DA<R>>, crate::model::E>>, &Ctls) -> X) -> X
    where R: RefCntStrish + 'static,
{
    let sub = part(case, t);
    let mut conf = Conf::of(&sub);
    conf.src = 0; conf.text = 5; conf.store = 2;
    let plan = Plan::new(&sub, conf);
    let c = ctls(&plan);
    let delims = conf.delims();
    let inner = bindings::<DA<R>>(conf.table, conf.hseed, delims, &plan.binds, &c.mac,
                                  &|s| TV::<R>::from_str(s), &|d| Some(DatumArc::new(d)));
    let consts = common.consts.iter().zip(SHARED).map(|(k, name)| {
        let k = dup(k);
        let f: OpBox<DA<R>> = Box::new(move |operator, _, dalloc| {
            sched::yield_now("macro");
            Ok(Some(Datum::Combination {
                operator: dalloc.new_datum(operator)?,
                operands: dup(&k),
            }))
        });
        (Datum::Text(TV::<R>::from_str(name)), Combiner::Operative(f))
    }).collect();
    let mut parser = Parser {
        classifier: SimCC::new(delims),
        allocator: SimAlloc { inner: ArcDatumAllocator::default(), ctl: Rc::clone(&c.alloc) },
        bindings: Table { inner, consts },
    };
    let items: Vec<R> = common.pieces[t].clone();
    let ctl = Rc::clone(&c.src[0]);
    let src: DynSrc<'_, DA<R>> = if source(case, t) == 1 {
        let v: Vec<char> = piece_strings(&sub, 0).iter().flat_map(|s| s.chars()).collect();
        DynSrc(Box::new(CharIterSourceStream::new(Pieces { items: v.into_iter(), ctl },
                                                  |s: String| R::from_str(&s))))
    } else {
        DynSrc(Box::new(StrishIterSourceStream::<_, TV<R>>::new(Pieces { items: items.into_iter(), ctl })))
    };
    let mut it = parser.parse(src);
    let mut step = || it.next().map(|r| r.map_err(|e| to_e(&e)));
    f(&mut step, &c)
}

/// Run a whole parse; results go to the mailboxes, if any.
fn parse<R>(case: &Case, t: usize, common: &Common<R>, mail: Option<&Mail<R>>) -> Seen
    where R: RefCntStrish + 'static,
{
    let mut seen = Seen::default();
    let take = case.get(&format!("take{t}"));
    let mut kept: Vec<(Ref<R>, M)> = Vec::new();
    let r = catch_unwind(AssertUnwindSafe(|| {
        with_parse(case, t, common, |step, c| {
            let got = catch_unwind(AssertUnwindSafe(|| loop {
                if take > 0 && seen.items.len() as i64 >= take { break }
                match step() {
                    None => { seen.ended = true; break }
                    Some(Err(e)) => seen.items.push(Err(e)),
                    Some(Ok(d)) => {
                        let m = to_m(&d);
                        ev("item", t as u64);
                        seen.items.push(Ok(m.clone()));
                        if let Some(mail) = mail {
                            hand_out(DatumArc::new(d), m, t + seen.items.len(), mail, &mut kept);
                        }
                    }
                }
            }));
            seen.calls = c.mac.calls.borrow().clone();
            seen.pulls = c.src[0].pulls.get();
            if let Err(p) = got { std::panic::resume_unwind(p) }
        })
    }));
    if let Err(p) = r {
        if p.is::<StepCap>() { std::panic::resume_unwind(p) }
        seen.panic = Some(if p.is::<Injected>() { panic_text(&*p) } else {
            let at = take_panic().map_or(String::new(), |x| x.0);
            if at.starts_with("src/") {
                eprintln!("harness error: panic in the simulator at {at}: {}", panic_text(&*p));
                std::process::exit(3);
            }
            format!("not injected: {} at {at}", panic_text(&*p))
        });
        ev("panicked", t as u64);
    }
    if let Some(mail) = mail { for (r, m) in &kept { examine(r, m, mail, "its producer"); } }
    seen
}

fn hand_out<R: RefCntStrish>(r: Ref<R>, m: M, k: usize, mail: &Mail<R>, kept: &mut Vec<(Ref<R>, M)>) {
    let n = mail.boxes.len();
    if n > 0 {
        for i in 0..if k % 3 == 0 { 2 } else { 1 } {
            // Made before the lock is taken, as another thread may be scheduled.
            let x = (dup(&r), m.clone());
            lock(&mail.boxes[(k + i) % n]).push_back(x);
        }
    }
    if k % 2 == 0 { kept.push((r, m)); }
}

fn examine<R: RefCntStrish>(r: &Ref<R>, m: &M, mail: &Mail<R>, who: &str) {
    *lock(&mail.reads) += 1;
    let now = to_m(&**r);
    if now != *m {
        let mut b = lock(&mail.bad);
        if b.is_none() { *b = Some(format!("{who} sees {now:?} in a result that was {m:?}")); }
    }
}

/// A thread that reads results, keeps parts of them and drops the rest.
fn consume<R: RefCntStrish>(i: usize, polls: usize, mail: &Mail<R>) {
    let mut parts: VecDeque<(Ref<R>, M)> = VecDeque::new();
    for _ in 0..polls {
        sched::yield_now("poll");
        let got = lock(&mail.boxes[i]).pop_front();
        let Some((r, m)) = got else { continue };
        examine(&r, &m, mail, "a consumer");
        sched::yield_now("read");
        examine(&r, &m, mail, "a consumer, later,");
        let p = match (&*r, m) {
            (Datum::Combination { operator, operands }, M::Comb(a, b)) =>
                if polls % 2 == 0 { Some((dup(operator), *a)) } else { Some((dup(operands), *b)) },
            (Datum::List { elem, .. }, M::List(v)) =>
                v.into_iter().next().map(|m| (dup(elem), m)),
            _ => None,
        };
        if let Some(p) = p { parts.push_back(p) }
        drop(r);
        if parts.len() > 2 {
            if let Some((r, m)) = parts.pop_front() { examine(&r, &m, mail, "the holder of a part"); }
        }
    }
    for (r, m) in parts { examine(&r, &m, mail, "the holder of a part"); }
}

fn gen19(r: &mut Rng, _: bool) -> Case {
    let mut c = Case::default();
    let n = r.range(2, 3);
    c.set("parses", n as i64);
    c.set("consumers", r.below(3) as i64);
    c.set("polls", r.range(2, 12) as i64);
    c.set("srcs", if r.chance(1, 2) { 0 } else { r.below(8) as i64 });
    c.set("same", i64::from(r.chance(1, 3)));
    c.set("strings", r.below(3) as i64);
    c.set("tree", r.below(3) as i64);
    c.set("table", r.below(3) as i64);
    c.set("hseed", (r.next() >> 8) as i64);
    c.set("delims", if r.chance(1, 5) { r.range(1, 3) as i64 } else { 0 });
    // All on one thread, taking turns.
    c.set("turns", i64::from(r.chance(1, 5)));
    let w = gen::kind_weights(r, &gen::ALL_KINDS);
    c.binds = gen::binds(r, 4, &w);
    let mut names = gen::names_for(r, &c.binds);
    for k in SHARED { if r.chance(1, 2) { names.push(k) } }
    for _ in 0..n {
        let sw = gen::Swarm::new(r, names.clone());
        let size = match r.below(4) { 0 => r.below(8), 1 | 2 => r.range(5, 30), _ => r.range(20, 70) };
        if r.chance(1, 10) {
            // Deeply nested.
            let k = r.range(20, 90);
            let mut d: Vec<char> = Vec::new();
            for _ in 0..k { d.extend("{u ".chars()); }
            if r.chance(1, 2) { d.extend(sw.doc(r, 6)); }
            for _ in 0..k - r.below(2) { d.push('}'); }
            let cuts = gen::cuts(r, &d);
            gen::push_doc(r, &mut c, d, cuts);
            continue
        }
        gen::add_doc(r, &mut c, &sw, size);
    }
    for t in 0..n {
        if r.chance(1, 4) { c.set(&format!("take{t}"), 1 + r.below(4) as i64); }
        if r.chance(1, 2) {
            let at = (t as u64) << 32;
            let (k, x) = match r.below(6) {
                0 => ("src-panic", r.below(8)),
                1 => ("macro-panic", r.below(3)),
                2 => ("alloc-panic", r.below(12)),
                3 => ("macro-err", r.below(3)),
                4 => ("alloc-from", r.below(20)),
                _ => ("alloc", r.below(16)),
            };
            c.faults.push((k.into(), at | x as u64));
        }
    }
    c.set("sseed", (r.next() >> 8) as i64);
    c.set("policy", r.below(5) as i64);
    c.set("plen", r.range(50, 1500) as i64);
    c
}

fn common<R: RefCntStrish>(case: &Case, n: usize) -> Common<R> {
    let mut pieces: Vec<Vec<R>> = Vec::new();
    for t in 0..n {
        if case.get("same") == 1 && t > 0 { let p = pieces[0].clone(); pieces.push(p); continue }
        pieces.push(piece_strings(case, t).iter().map(|s| R::from_str(s)).collect());
    }
    let consts = (0..SHARED.len()).map(|i| tree((case.get("tree") + i as i64).rem_euclid(3))).collect();
    Common { pieces, consts }
}

fn alternate(order: &mut Rng, steps: &mut [&mut dyn FnMut() -> bool]) {
    let mut live: Vec<usize> = (0..steps.len()).collect();
    while !live.is_empty() {
        let k = order.below(live.len());
        if !steps[live[k]]() { let _ = live.remove(k); }
    }
}

/// All parses on this thread, one item each in turns.
fn turns<R: RefCntStrish + 'static>(case: &Case, n: usize, common: &Common<R>) -> Vec<Seen> {
    // Each parse borrows its own parser, so they are made one inside another.
    let mut out: Vec<Seen> = vec![Seen::default(); n];
    let mut order = Rng::new(case.get("sseed") as u64);
    if n == 2 {
        let (a, b) = out.split_at_mut(1);
        driver(case, 0, common, &mut a[0], |s0| driver(case, 1, common, &mut b[0], |s1| {
            alternate(&mut order, &mut [s0, s1]);
        }));
    } else {
        let (a, b) = out.split_at_mut(1);
        let (b, c) = b.split_at_mut(1);
        driver(case, 0, common, &mut a[0], |s0| driver(case, 1, common, &mut b[0], |s1| {
            driver(case, 2, common, &mut c[0], |s2| {
                alternate(&mut order, &mut [s0, s1, s2]);
            })
        }));
    }
    out
}

/// Gives a function that makes the next step of the parse, recorded in `seen`.
fn driver<R: RefCntStrish + 'static>(case: &Case, t: usize, common: &Common<R>, seen: &mut Seen,
                                     f: impl FnOnce(&mut dyn FnMut() -> bool))
{
    let take = case.get(&format!("take{t}"));
    let r = catch_unwind(AssertUnwindSafe(|| with_parse(case, t, common, |step, c| {
        let mut go = || {
            let more = if take > 0 && seen.items.len() as i64 >= take { false } else {
                match catch_unwind(AssertUnwindSafe(&mut *step)) {
                    Ok(None) => { seen.ended = true; false }
                    Ok(Some(Err(e))) => { seen.items.push(Err(e)); true }
                    Ok(Some(Ok(d))) => { seen.items.push(Ok(to_m(&d))); true }
                    Err(p) => {
                        if p.is::<StepCap>() { std::panic::resume_unwind(p) }
                        seen.panic = Some(panic_text(&*p));
                        false
                    }
                }
            };
            ev("turn", t as u64);
            seen.calls = c.mac.calls.borrow().clone();
            seen.pulls = c.src[0].pulls.get();
            more
        };
        f(&mut go);
    })));
    if let Err(p) = r {
        if p.is::<StepCap>() { std::panic::resume_unwind(p) }
        seen.panic = Some(panic_text(&*p));
    }
}

fn run<R: RefCntStrish + Send + Sync + 'static>(case: &Case, cx: &mut Cx) -> V
    where Ref<R>: Send + Sync,
{
    let n = case.get("parses").clamp(1, 3) as usize;
    let chars: usize = (0..n).map(|t| case.doc(t).len()).sum();
    set_cap(200_000 + 20_000 * chars as u64);
    let common: Common<R> = common(case, n);
    // Each alone.
    let alone: Vec<Seen> = (0..n).map(|t| parse(case, t, &common, None)).collect();
    for (t, a) in alone.iter().enumerate() {
        if let Some(p) = &a.panic {
            // A panic of the library itself is not this property's matter.
            if p.starts_with("not injected") { return Ok(()) }
            cx.fault(p.strip_prefix("injected ").unwrap_or(p), 1);
        }
        cx.count("items", a.items.len() as u64);
        cx.count("macro calls", a.calls.len() as u64);
        cx.count("error items", a.items.iter().filter(|i| i.is_err()).count() as u64);
        if case.get(&format!("take{t}")) > 0 && !a.ended { cx.fault("parse abandoned", 1) }
    }
    let seen: Vec<Seen>;
    if case.get("turns") == 1 && n > 1 {
        // Crashing while the source is made is out of this driver's reach.
        if alone.iter().any(|a| a.panic.is_some() && a.pulls <= 1) { return Ok(()) }
        ev("turns", n as u64);
        seen = turns(case, n, &common);
        cx.count("runs in turns on one thread", 1);
        cx.nontrivial = alone.iter().filter(|a| !a.items.is_empty()).count() > 1;
    } else {
        let consumers = case.get("consumers").clamp(0, 2) as usize;
        let polls = case.get("polls").clamp(0, 50) as usize;
        let mail: Mail<R> = Mail {
            boxes: (0..consumers).map(|_| Mutex::default()).collect(),
            bad: Mutex::new(None), reads: Mutex::new(0),
        };
        let out: Vec<Mutex<Option<Seen>>> = (0..n).map(|_| Mutex::new(None)).collect();
        let mut bodies: Vec<Box<dyn FnOnce() + Send + '_>> = Vec::new();
        for (t, slot) in out.iter().enumerate() {
            let (common, mail) = (&common, &mail);
            bodies.push(Box::new(move || {
                let s = parse(case, t, common, Some(mail));
                *lock(slot) = Some(s);
            }));
        }
        for i in 0..consumers {
            let mail = &mail;
            bodies.push(Box::new(move || consume(i, polls, mail)));
        }
        let (rep, results) = sched::run(sched::policy(case, n + consumers), 64 << 20, bodies);
        cx.sched = rep.taken;
        cx.fault("preemption", rep.switches);
        cx.count("scheduling points", rep.steps);
        for r in results {
            if let Err(p) = r {
                if p.is::<StepCap>() { std::panic::resume_unwind(p) }
                let at = take_panic().map_or(String::new(), |x| x.0);
                if at.starts_with("src/") { std::panic::resume_unwind(p) }
                return fail("panic", format!("a thread panicked at {at}: {}", panic_text(&*p)))
            }
        }
        for b in &mail.boxes {
            for (r, m) in lock(b).drain(..) { examine(&r, &m, &mail, "the last holder"); }
        }
        cx.count("reads of results by other threads", *lock(&mail.reads));
        if let Some(b) = lock(&mail.bad).take() { return fail("altered", b) }
        seen = out.into_iter().map(|m| lock(&m).take().unwrap_or_default()).collect();
        cx.nontrivial = rep.switches > n as u64 && alone.iter().any(|a| !a.items.is_empty());
    }
    for (t, (a, s)) in alone.iter().zip(&seen).enumerate() {
        if a != s { return fail("differs", describe(t, a, s)) }
    }
    // Afterwards, the shared trees are what they were.
    for (i, k) in common.consts.iter().enumerate() {
        let fresh: Ref<R> = tree((case.get("tree") + i as i64).rem_euclid(3));
        if to_m(&**k) != to_m(&*fresh) {
            return fail("altered", format!("the shared tree {i} became {:?}", to_m(&**k)))
        }
    }
    Ok(())
}

fn describe(t: usize, a: &Seen, s: &Seen) -> String {
    if let Some(i) = (0..a.items.len().max(s.items.len())).find(|&i| a.items.get(i) != s.items.get(i)) {
        return format!("parse {t}, item {i}: alone {:?}, at the same time as others {:?}",
                       a.items.get(i), s.items.get(i))
    }
    if a.calls != s.calls { return format!("parse {t}: other macro calls than when alone") }
    if a.panic != s.panic {
        return format!("parse {t}: alone ended by {:?}, at the same time as others by {:?}", a.panic, s.panic)
    }
    format!("parse {t}: {} requests alone, {} at the same time as others; ended {} and {}",
            a.pulls, s.pulls, a.ended, s.ended)
}

fn run19(case: &Case, cx: &mut Cx) -> V {
    match case.get("strings") {
        0 => run::<Arc<str>>(case, cx),
        1 => run::<Arc<String>>(case, cx),
        _ => run::<Arc<Box<str>>>(case, cx),
    }
}

pub static C19: PropDef = PropDef {
    id: "C19", gen: gen19, run: run19, runs: (180_000, 3_600_000), level: "exploration",
    rule: "seeded documents parsed by two or three simulated threads (or in turns on one) with own \
           parsers, shared buffers and shared trees put into results by macros, up to two consumer \
           threads reading, sharing and dropping results meanwhile, seeded schedules, per-parse panics, \
           errors, refusals and abandonments; non-trivial when threads were preempted and something was \
           produced",
    real: "kul_core parser, kul StrishIterSourceStream, PosStrish, TextVec, DatumArc and its Drop, \
           ArcDatumAllocator, binding tables, std Arc behind the announcing hook",
    stub: "thread scheduler (one thread at a time), deliverer of buffers, macros, consumers; the same \
           parse run alone as oracle",
};
