//! C15: the delivered buffers are shared by the results, and released.

use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::Arc;

use kul::datum::{DatumArc, DatumBox, DatumRc};
use kul::parser::{ArcDatumAllocator, BoxDatumAllocator, DatumAllocator, EmptyOperatorBindings,
                  RcDatumAllocator};
use kul::source_stream::{CharIterSourceStream, StrishIterSourceStream};
use kul::text::chunk::{PosStrish, RefCntStrish};
use kul::text::TextVec;
use kul::{Error, Parser, Text};

use crate::case::Case;
use crate::drive::{collect_texts, ctls, piece_strings, Conf, Ctls, Plan, SimRefNew};
use crate::engine::{fail, take_panic, Cx, PropDef, Violation};
use crate::gen;
use crate::log::{ev, set_cap, Injected, StepCap};
use crate::model::Delims;
use crate::rng::Rng;
use crate::world::{bindings, Borrowed, DatumOf, DynSrc, SimAlloc, SimBoxAlloc, SimCC, SrcCtl,
                   MUTCTL};

type V = Result<(), Violation>;
type TV<R> = TextVec<PosStrish<R>>;

/// A buffer that was handed over, watched from outside.
struct Buf {
    start: usize,
    len: usize,
    alive: Box<dyn Fn() -> bool>,
}

type Bufs = Rc<RefCell<Vec<Buf>>>;

trait Watch: RefCntStrish + 'static {
    fn watch(&self) -> Buf;
}

macro_rules! watch {
    ($rc:ident, $t:ty) => {
        impl Watch for $rc<$t> {
            fn watch(&self) -> Buf {
                let s: &str = &***self;
                watch!(@ self, $rc, s)
            }
        }
    };
    (str $rc:ident) => {
        impl Watch for $rc<str> {
            fn watch(&self) -> Buf {
                let s: &str = self;
                watch!(@ self, $rc, s)
            }
        }
    };
    (@ $self:ident, $rc:ident, $s:ident) => {{
        let w = $rc::downgrade($self);
        Buf { start: $s.as_ptr() as usize, len: $s.len(),
              alive: Box::new(move || w.strong_count() > 0) }
    }};
}
watch!(Rc, String);
watch!(Rc, Box<str>);
watch!(str Rc);
watch!(Arc, String);
watch!(Arc, Box<str>);
watch!(str Arc);

/// Makes each piece when it is asked for, and forgets it.
struct Deliver<R> {
    items: std::vec::IntoIter<String>,
    ctl: Rc<SrcCtl>,
    bufs: Bufs,
    kind: std::marker::PhantomData<R>,
}

impl<R: Watch> Iterator for Deliver<R> {
    type Item = R;
    fn next(&mut self) -> Option<R> {
        self.ctl.request(self.items.len() > 0);
        let r = R::from_str(&self.items.next()?);
        self.bufs.borrow_mut().push(r.watch());
        Some(r)
    }
}

fn gen15(r: &mut Rng, _: bool) -> Case {
    let mut c = Case::default();
    gen::conf(r, &mut c, &[0, 0, 0, 0, 1], &[0, 1, 2, 4]);
    let w = gen::kind_weights(r, &gen::ALL_KINDS);
    c.binds = gen::binds(r, 4, &w);
    let names = gen::names_for(r, &c.binds);
    let sw = gen::Swarm::new(r, names);
    let size = gen::size(r);
    gen::add_doc(r, &mut c, &sw, size);
    // What is done with each result: 0 kept, 1 dropped, 2 one text kept,
    // 3 one text parsed again and that kept; for how many more items.
    for _ in 0..r.range(1, 6) {
        c.ops.push([r.below(4) as i64, *r.pick(&[0, 1, 2, 5, 100]), r.below(5) as i64, 0]);
    }
    if r.chance(1, 3) { c.set("take", 1 + r.below(5) as i64); }
    c.set("last", r.below(2) as i64);
    if r.chance(1, 2) {
        match r.below(7) {
            0 => c.faults.push(("src-panic".into(), r.below(12) as u64)),
            1 => c.faults.push(("macro-panic".into(), r.below(3) as u64)),
            2 => c.faults.push(("alloc-panic".into(), r.below(20) as u64)),
            3 => c.faults.push(("macro-err".into(), r.below(3) as u64)),
            4 => { c.set("store", 4); c.faults.push(("mut".into(), r.below(6) as u64)); }
            5 => c.faults.push(("alloc-period".into(), (r.range(2, 12) << 8) as u64 | 1)),
            _ => for _ in 0..r.range(1, 3) { c.faults.push(("alloc".into(), r.below(20) as u64)) },
        }
    }
    c
}

struct Out {
    delivered: u64,
    nonempty: u64,
    chunks: u64,
    multi: u64,
    shared: u64,
    most: u64,
    items: u64,
    errors: u64,
    early: u64,
    reparsed: u64,
    crash: &'static str,
}

enum Held<A: DatumAllocator> { D(DatumOf<A>), T(A::TT) }

fn go<R, A>(plan: &Plan<'_>, c: &Ctls, inner: A, mkref: &dyn Fn(DatumOf<A>) -> A::DR) -> Result<Out, Violation>
    where R: Watch,
          A: DatumAllocator<TT = TV<R>, ET = i64>,
          A::DR: std::hash::Hash + Eq,
{
    let delims = plan.conf.delims();
    let case = plan.case;
    let bs = bindings::<SimAlloc<A>>(plan.conf.table, plan.conf.hseed, delims, &plan.binds, &c.mac,
                                     &|s| TV::<R>::from_str(s), &|d| Some(mkref(d)));
    let mut parser = Parser {
        classifier: SimCC::new(delims),
        allocator: SimAlloc { inner, ctl: Rc::clone(&c.alloc) },
        bindings: bs,
    };
    let bufs: Bufs = Rc::default();
    let pieces = piece_strings(case, 0);
    let streamed = plan.conf.src == 0;
    let mut o = Out { delivered: 0, nonempty: 0, chunks: 0, multi: 0, shared: 0, most: 0, items: 0,
                      errors: 0, early: 0, reparsed: 0, crash: "" };
    let mut held: Vec<(i64, Held<SimAlloc<A>>)> = Vec::new();
    let take = case.get("take");
    let mut bad: V = Ok(());
    let r = catch_unwind(AssertUnwindSafe(|| {
        let ctl = Rc::clone(&c.src[0]);
        let src: DynSrc<'_, SimAlloc<A>> = if streamed {
            DynSrc(Box::new(StrishIterSourceStream::<Deliver<R>, TV<R>>::new(Deliver {
                items: pieces.clone().into_iter(), ctl, bufs: Rc::clone(&bufs),
                kind: std::marker::PhantomData })))
        } else {
            let v: Vec<char> = pieces.iter().flat_map(|s| s.chars()).collect();
            let b2 = Rc::clone(&bufs);
            DynSrc(Box::new(CharIterSourceStream::new(
                crate::world::Pieces { items: v.into_iter(), ctl },
                move |s: String| {
                    let r = R::from_str(&s);
                    b2.borrow_mut().push(r.watch());
                    r
                })))
        };
        let mut it = parser.parse(src);
        let mut k = 0i64;
        // After input ended inside a nest, what was begun may still be held.
        let mut begun = false;
        loop {
            if take > 0 && k >= take { o.early += 1; break }
            let x = it.next();
            let Some(x) = x else { break };
            held.retain(|h| h.0 > k);
            let op = if case.ops.is_empty() { [0, 100, 0, 0] }
                     else { case.ops[k as usize % case.ops.len()] };
            k += 1;
            o.items += 1;
            match x {
                Err(e) => {
                    ev("error", 0);
                    o.errors += 1;
                    begun |= matches!(e, Error::MissingEndChar);
                }
                Ok(d) => {
                    ev("item", 0);
                    let till = k + op[1];
                    let h = match op[0] {
                        0 => Some(Held::D(d)),
                        2 | 3 => {
                            let mut texts = Vec::new();
                            collect_texts(&d, &mut texts);
                            if texts.is_empty() { None }
                            else { Some(Held::T(texts[op[2].unsigned_abs() as usize % texts.len()].clone())) }
                        }
                        _ => None,
                    };
                    if let Some(h) = h {
                        held.push((if op[0] == 3 { i64::MIN + till } else { till }, h));
                    }
                }
            }
            // Texts to parse again: needs the allocator, which the iteration
            // has borrowed, so another one is used.
            for h in &mut held {
                if h.0 < 0 {
                    h.0 -= i64::MIN;
                    if let Held::T(t) = &h.1 {
                        o.reparsed += 1;
                        if let Some(d) = again::<R>(t, delims) { h.1 = Held::T(d) }
                    }
                }
            }
            // Not at every one of very many.
            if k > 60 && k % 61 != 0 { continue }
            bad = look(&held, &bufs.borrow(), streamed, begun, k, &mut o);
            if bad.is_err() { break }
        }
        if case.get("last") == 1 { held.clear(); }
        drop(it);
    }));
    if let Err(p) = r {
        if p.is::<StepCap>() { std::panic::resume_unwind(p) }
        if !p.is::<Injected>() {
            let at = take_panic().map_or(String::new(), |x| x.0);
            if at.starts_with("src/") { std::panic::resume_unwind(p) }
            return fail("panic", format!("the parse panicked at {at}"))
        }
        o.crash = p.downcast_ref::<Injected>().map_or("", |i| i.0);
        ev("panicked", 0);
    }
    bad?;
    // The iterator is gone.
    gone(&held, &bufs.borrow(), "the iteration is over", &mut o)?;
    while !held.is_empty() {
        let i = held.len() / 2;
        let _ = held.swap_remove(i);
        if held.len() > 60 && held.len() % 61 != 0 { continue }
        gone(&held, &bufs.borrow(), "a result was dropped", &mut o)?;
    }
    let bufs = bufs.borrow();
    o.delivered = bufs.len() as u64;
    o.nonempty = bufs.iter().filter(|b| b.len > 0).count() as u64;
    if let Some(i) = bufs.iter().position(|b| (b.alive)()) {
        return fail("leak", format!("buffer {i} is still alive after all results and the iteration are gone"))
    }
    drop(parser);
    Ok(o)
}

/// The first text in the forms of a text.
fn again<R: Watch>(t: &TV<R>, delims: Delims) -> Option<TV<R>> {
    let mut a: BoxDatumAllocator<TV<R>, i64> = BoxDatumAllocator::default();
    let mut p = Parser { classifier: SimCC::new(delims), allocator: Borrowed(&mut a),
                         bindings: EmptyOperatorBindings };
    let forms: Vec<_> = p.parse(t.iter()).filter_map(Result::ok).collect();
    let mut texts = Vec::new();
    for f in &forms { collect_texts::<_, DatumBox<TV<R>, i64>>(f, &mut texts); }
    texts.last().map(|t| (*t).clone())
}

/// Which buffers the kept results refer to.
fn pinned<A, R>(held: &[(i64, Held<A>)], bufs: &[Buf], o: &mut Out) -> Result<Vec<u32>, Violation>
    where R: Watch, A: DatumAllocator<TT = TV<R>, ET = i64>,
{
    let mut pin = vec![0u32; bufs.len()];
    let mut by_start: Vec<usize> = (0..bufs.len()).filter(|&i| bufs[i].len > 0 && (bufs[i].alive)()).collect();
    by_start.sort_unstable_by_key(|&i| bufs[i].start);
    for (_, h) in held {
        let mut texts = Vec::new();
        match h {
            Held::D(d) => collect_texts(d, &mut texts),
            Held::T(t) => texts.push(t),
        }
        for t in texts {
            let mut n = 0;
            for ch in t.iter_chunks() {
                let s: &str = ch.val.as_ref();
                let at = s.as_ptr() as usize;
                if s.is_empty() { continue }
                let before = by_start.partition_point(|&i| bufs[i].start <= at);
                match before.checked_sub(1).map(|j| by_start[j]) {
                    Some(i) if at + s.len() <= bufs[i].start + bufs[i].len => { pin[i] += 1; n += 1; }
                    _ => return fail("copied", format!(
                        "the part {s:?} of a result's text is not in any delivered buffer that is alive")),
                }
            }
            o.chunks += n;
            if n > 1 { o.multi += 1; }
        }
    }
    o.shared += pin.iter().filter(|&&p| p > 1).count() as u64;
    Ok(pin)
}

fn look<A, R>(held: &[(i64, Held<A>)], bufs: &[Buf], streamed: bool, begun: bool, k: i64, o: &mut Out) -> V
    where R: Watch, A: DatumAllocator<TT = TV<R>, ET = i64>,
{
    let pin = pinned(held, bufs, o)?;
    if !streamed || begun { return Ok(()) }
    // Being read, and looked ahead to.
    let mut recent = 0;
    let mut extra = 0;
    for (i, b) in bufs.iter().enumerate().rev() {
        if b.len == 0 { continue }
        recent += 1;
        let alive = (b.alive)();
        if alive && pin[i] == 0 { extra += 1; }
        if alive && pin[i] == 0 && recent > 2 {
            return fail("retained", format!(
                "after item {k}, buffer {i} of {} delivered is alive though no result has a part of it \
                 and reading is past it", bufs.len()))
        }
    }
    o.most = o.most.max(extra);
    Ok(())
}

fn gone<A, R>(held: &[(i64, Held<A>)], bufs: &[Buf], when: &str, o: &mut Out) -> V
    where R: Watch, A: DatumAllocator<TT = TV<R>, ET = i64>,
{
    let pin = pinned(held, bufs, o)?;
    match bufs.iter().enumerate().find(|(i, b)| pin[*i] == 0 && (b.alive)()) {
        Some((i, _)) => fail("leak", format!(
            "buffer {i} of {} delivered is alive, {when}, though no result has a part of it", bufs.len())),
        None => Ok(()),
    }
}

fn run15(case: &Case, cx: &mut Cx) -> V {
    let mut conf = Conf::of(case);
    conf.src = conf.src.min(1);
    conf.text = conf.text.min(5);
    if !matches!(conf.store, 0 | 1 | 2 | 4) { conf.store = 0; }
    let conf = conf.norm();
    set_cap(40_000 + 4_000 * case.doc(0).len() as u64);
    let plan = Plan::new(case, conf);
    let c = ctls(&plan);
    MUTCTL.with(|m| *m.borrow_mut() = Some(Rc::clone(&c.mutc)));
    macro_rules! with {
        ($R:ty, $DR:ident, $alloc:expr) => { go::<$R, _>(&plan, &c, $alloc, &|d| $DR::new(d)) };
    }
    let r = match (conf.store, conf.text) {
        (0, 0) => with!(Rc<String>, DatumBox, BoxDatumAllocator::default()),
        (0, 1) => with!(Rc<Box<str>>, DatumBox, BoxDatumAllocator::default()),
        (0, 2) => with!(Rc<str>, DatumBox, BoxDatumAllocator::default()),
        (0, 3) => with!(Arc<String>, DatumBox, BoxDatumAllocator::default()),
        (0, 4) => with!(Arc<Box<str>>, DatumBox, BoxDatumAllocator::default()),
        (0, _) => with!(Arc<str>, DatumBox, BoxDatumAllocator::default()),
        (1, 0) => with!(Rc<String>, DatumRc, RcDatumAllocator::default()),
        (1, _) => with!(Rc<str>, DatumRc, RcDatumAllocator::default()),
        (4, _) => with!(Rc<String>, SimRefNew, SimBoxAlloc(std::marker::PhantomData)),
        _ => with!(Arc<str>, DatumArc, ArcDatumAllocator::default()),
    };
    MUTCTL.with(|m| *m.borrow_mut() = None);
    let o = r?;
    if !o.crash.is_empty() { cx.fault(o.crash, 1); }
    cx.fault("allocation refused", c.alloc.refused.get());
    cx.fault("mutable access refused", c.mutc.refused.get());
    cx.fault("macro failed", c.mac.errs.get());
    cx.fault("iteration abandoned", o.early);
    cx.count("buffers delivered", o.delivered);
    cx.count("items", o.items);
    cx.count("error items", o.errors);
    cx.count("parts of texts located in buffers", o.chunks);
    cx.count("texts in several buffers", o.multi);
    cx.count("buffers shared by several parts", o.shared);
    cx.count("texts parsed again", o.reparsed);
    cx.count(if conf.src == 0 { "string pieces" } else { "characters" }, 1);
    if o.most > 0 { cx.count(&format!("runs with at most {} buffers held by reading", o.most), 1); }
    cx.nontrivial = o.nonempty > 1 && o.chunks > 0;
    Ok(())
}

pub static C15: PropDef = PropDef {
    id: "C15", gen: gen15, run: run15, runs: (5_000_000, 75_000_000), level: "exploration",
    rule: "seeded documents and fragmentations with results kept, dropped, reduced to one text or parsed \
           again at seeded moments, abandoned iterations, panics, errors and refusals at seeded points; \
           every buffer is watched through a weak reference; non-trivial when a result referred to a \
           buffer and more than one was delivered",
    real: "kul StrishIterSourceStream, CharIterSourceStream, PosStrish, TextVec, kul_core parser, \
           allocators, reference types and their Drop",
    stub: "deliverer of buffers, macros, allocation and mutability faults, holder of results",
};
