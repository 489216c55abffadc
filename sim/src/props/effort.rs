//! C22: effort grows in proportion to the input.

use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::Arc;

use kul::datum::{DatumArc, DatumBox, DatumRc};
use kul::parser::{ArcDatumAllocator, BoxDatumAllocator, DatumAllocator, EmptyOperatorBindings,
                  RcDatumAllocator};
use kul::source_stream::{CharIterSourceStream, StrishIterSourceStream};
use kul::text::chunk::{PosStrish, RefCntStrish};
use kul::text::TextVec;
use kul::{Datum, Parser, Text};

use crate::case::Case;
use crate::drive::{collect_texts, ctls, piece_strings, Conf, Ctls, Plan};
use crate::engine::{fail, take_panic, Cx, PropDef, Violation};
use crate::gen;
use crate::log::{set_cap, steps, StepCap};
use crate::mem;
use crate::props::depth::{gen16, with_doc, DIRS};
use crate::rng::Rng;
use crate::world::{bindings, Borrowed, DatumOf, DynSrc, Pieces, SimAlloc, SimCC};

type V = Result<(), Violation>;
type TV<R> = TextVec<PosStrish<R>>;

/// The long document is this many times the short one.
const TIMES: usize = 8;

fn gen22(r: &mut Rng, _: bool) -> Case {
    let mut c = gen16(r, false);
    c.set("src", *r.pick(&[0, 0, 1]));
    c.set("store", *r.pick(&[0, 0, 1, 2]));
    c.set("text", r.below(6) as i64);
    c.set("n", r.range(20, 120) as i64);
    c.set("again", i64::from(r.chance(1, 3)));
    match r.below(5) {
        // A document of any kind, repeated.
        0 | 1 => {
            let names = gen::names_for(r, &c.binds);
            let sw = gen::Swarm::new(r, names);
            let size = r.range(3, 40);
            c.set("dir", 14);
            gen::add_doc(r, &mut c, &sw, size);
        }
        // Nested ever deeper.
        2 => { c.set("dir", 15); c.set("n", r.range(10, 40) as i64); }
        _ => {}
    }
    c.faults.clear();
    match r.below(6) {
        0 => c.faults.push(("alloc-period".into(), (r.range(3, 90) as u64) << 8 | 1)),
        1 => c.faults.push(("macro-err-period".into(), r.range(2, 20) as u64)),
        _ => {}
    }
    c
}

fn long(case: &Case, n: usize) -> Case {
    match case.get("dir") {
        14 => {
            let mut c = case.clone();
            let (d, cuts) = (case.doc(0), case.norm_cuts(0));
            c.docs = vec![d.repeat(n)];
            c.cuts = vec![(0..n).flat_map(|i| cuts.iter().map(move |x| x + i * d.len())).collect()];
            c
        }
        15 => {
            let mut c = with_doc(case, 1);
            let (open, close) = *[("{f ", "}"), ("{f a", "b}"), ("{g x{}", "y}"), ("{o ", "}"), ("{u {", "}}")]
                .get(case.get("unit").unsigned_abs() as usize % 5).unwrap_or(&("{f ", "}"));
            let d: Vec<char> = (open.repeat(n) + &close.repeat(n)).chars().collect();
            let f = case.get("frag").max(0) as usize;
            c.cuts = vec![if f > 0 { (f..d.len()).step_by(f).collect() } else { Vec::new() }];
            c.docs = vec![d];
            c
        }
        _ => with_doc(case, n),
    }
}

#[derive(Clone, Copy, Debug, Default)]
struct Cost { steps: u64, bytes: u64, blocks: u64, items: u64, refused: u64, errs: u64 }

fn go<R, A>(plan: &Plan<'_>, c: &Ctls, inner: A, mkref: &dyn Fn(DatumOf<A>) -> A::DR) -> Result<Cost, Violation>
    where R: RefCntStrish,
          A: DatumAllocator<TT = TV<R>, ET = i64>,
          A::DR: std::hash::Hash + Eq,
{
    let delims = plan.conf.delims();
    let bs = bindings::<SimAlloc<A>>(plan.conf.table, plan.conf.hseed, delims, &plan.binds, &c.mac,
                                     &|s| TV::<R>::from_str(s), &|d| Some(mkref(d)));
    let mut parser = Parser {
        classifier: SimCC::new(delims),
        allocator: SimAlloc { inner, ctl: Rc::clone(&c.alloc) },
        bindings: bs,
    };
    c.mac.quiet.set(true);
    let strings = piece_strings(plan.case, 0);
    let ctl = Rc::clone(&c.src[0]);
    let src: DynSrc<'_, SimAlloc<A>> = if plan.conf.src == 0 {
        let v: Vec<R> = strings.iter().map(|s| R::from_str(s)).collect();
        DynSrc(Box::new(StrishIterSourceStream::<Pieces<R>, TV<R>>::new(Pieces { items: v.into_iter(), ctl })))
    } else {
        let v: Vec<char> = strings.iter().flat_map(|s| s.chars()).collect();
        DynSrc(Box::new(CharIterSourceStream::new(Pieces { items: v.into_iter(), ctl },
                                                  |s: String| R::from_str(&s))))
    };
    let again = plan.case.get("again") == 1;
    let mut o = Cost::default();
    let (s0, (b0, n0)) = (steps(), mem::allocated());
    let r = catch_unwind(AssertUnwindSafe(|| {
        for x in parser.parse(src) {
            o.items += 1;
            let Ok(d) = x else { o.errs += 1; continue };
            if again { reparse::<R, _>(&d, delims); }
        }
    }));
    if let Err(e) = r {
        if e.is::<StepCap>() { std::panic::resume_unwind(e) }
        let at = take_panic().map_or(String::new(), |x| x.0);
        if at.starts_with("src/") { std::panic::resume_unwind(e) }
        return fail("panic", format!("the parse panicked at {at}"))
    }
    let (s1, (b1, n1)) = (steps(), mem::allocated());
    o.steps = s1 - s0;
    o.bytes = b1 - b0;
    o.blocks = n1 - n0;
    o.refused = c.alloc.refused.get();
    Ok(o)
}

/// Parse the texts of a result again.
fn reparse<R, DR>(d: &Datum<TV<R>, i64, DR>, delims: crate::model::Delims)
    where R: RefCntStrish, DR: kul::DerefTryMut<Target = Datum<TV<R>, i64, DR>>,
{
    let mut texts = Vec::new();
    mem::apart(|| collect_texts(d, &mut texts));
    let mut a: BoxDatumAllocator<TV<R>, i64> = BoxDatumAllocator::default();
    for t in &texts {
        let mut p = Parser { classifier: SimCC::new(delims), allocator: Borrowed(&mut a),
                             bindings: EmptyOperatorBindings };
        for x in p.parse(t.iter()) { drop(x); }
    }
    mem::apart(|| drop(texts));
}

fn cost(case: &Case, n: usize) -> Result<Cost, Violation> {
    let lc = long(case, n);
    let mut conf = Conf::of(&lc);
    conf.src = conf.src.min(1);
    conf.text = conf.text.min(5);
    if !matches!(conf.store, 0..=2) { conf.store = 0; }
    let conf = conf.norm();
    set_cap(2_000_000 + 40_000 * lc.doc(0).len() as u64);
    let plan = Plan::new(&lc, conf);
    let c = ctls(&plan);
    macro_rules! with {
        ($R:ty, $DR:ident, $alloc:expr) => { go::<$R, _>(&plan, &c, $alloc, &|d| $DR::new(d)) };
    }
    match (conf.store, conf.text) {
        (0, 0) => with!(Rc<String>, DatumBox, BoxDatumAllocator::default()),
        (0, 1) => with!(Rc<Box<str>>, DatumBox, BoxDatumAllocator::default()),
        (0, 2) => with!(Rc<str>, DatumBox, BoxDatumAllocator::default()),
        (0, 3) => with!(Arc<String>, DatumBox, BoxDatumAllocator::default()),
        (0, 4) => with!(Arc<Box<str>>, DatumBox, BoxDatumAllocator::default()),
        (0, _) => with!(Arc<str>, DatumBox, BoxDatumAllocator::default()),
        (1, 0) => with!(Rc<String>, DatumRc, RcDatumAllocator::default()),
        (1, _) => with!(Rc<str>, DatumRc, RcDatumAllocator::default()),
        _ => with!(Arc<str>, DatumArc, ArcDatumAllocator::default()),
    }
}

fn run22(case: &Case, cx: &mut Cx) -> V {
    let n = case.get("n").clamp(1, 2_000) as usize;
    if case.get("dir") == 15 && n > 60 { return Ok(()) }
    let dir = match case.get("dir") {
        14 => "repetitions of a document",
        15 => "nesting",
        d => DIRS[d.clamp(0, DIRS.len() as i64 - 1) as usize],
    };
    let a = cost(case, n)?;
    let b = cost(case, n * TIMES)?;
    cx.nontrivial = n >= 20;
    cx.count(&format!("long in {dir}"), 1);
    cx.count("items", a.items + b.items);
    cx.count("requests, classifications and allocations of nodes", a.steps + b.steps);
    cx.count("bytes allocated", a.bytes + b.bytes);
    cx.count("blocks allocated", a.blocks + b.blocks);
    cx.fault("allocation refused", a.refused + b.refused);
    cx.fault("forms that failed", a.errs + b.errs);
    for (what, x, y, spare) in [("requests, classifications and node allocations", a.steps, b.steps, 400),
                                ("bytes of memory allocated", a.bytes, b.bytes, 4_000),
                                ("blocks of memory allocated", a.blocks, b.blocks, 100)] {
        // Buffers that grow by doubling may count double.
        let most = (x * TIMES as u64) * 5 / 2 + spare;
        if y > most {
            return fail("effort", format!(
                "a document {TIMES} times as long in {dir} takes {y} {what}, the short one (n = {n}) {x} \
                 (components {})", Conf::of(case).name()))
        }
    }
    Ok(())
}

pub static C22: PropDef = PropDef {
    id: "C22", gen: gen22, run: run22, runs: (48_000, 2_000_000), level: "exploration",
    rule: "seeded documents long in one of 16 directions, in two lengths, delivered in seeded pieces, with \
           seeded components, macros, failing macros and refused allocations; requests to the source, \
           classifications, node allocations and heap allocations of both are counted and compared; \
           non-trivial when the short one has at least 20 repetitions",
    real: "kul_core parser, kul sources, text types, allocators, binding tables, reference types and Drop",
    stub: "deliverer of pieces, classifier's caller count, heap counter, allocation faults, macros",
};
