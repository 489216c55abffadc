//! C21: memory in use while streaming.

use std::cell::{Cell, RefCell};
use std::collections::VecDeque;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::Arc;

use kul::datum::{DatumArc, DatumBox, DatumRc};
use kul::parser::{ArcDatumAllocator, BoxDatumAllocator, DatumAllocator, RcDatumAllocator};
use kul::source_stream::{CharIterSourceStream, StrishIterSourceStream};
use kul::text::chunk::{PosStrish, RefCntStrish};
use kul::text::TextVec;
use kul::{Parser, Text};

use crate::case::Case;
use crate::drive::{ctls, piece_strings, Conf, Ctls, Plan, SimRefNew};
use crate::engine::{fail, take_panic, Cx, PropDef, Violation};
use crate::gen;
use crate::log::{ev, set_cap, Injected, StepCap};
use crate::mem::live;
use crate::rng::{mix, Rng};
use crate::world::{bindings, DatumOf, DynSrc, SimAlloc, SimBoxAlloc, SimCC, SrcCtl, MUTCTL};

type V = Result<(), Violation>;
type TV<R> = TextVec<PosStrish<R>>;

fn gen21(r: &mut Rng, _: bool) -> Case {
    let mut c = Case::default();
    gen::conf(r, &mut c, &[0, 0, 0, 1], &[0, 0, 1, 2, 4]);
    let w = gen::kind_weights(r, &gen::ALL_KINDS);
    c.binds = gen::binds(r, 4, &w);
    let names = gen::names_for(r, &c.binds);
    let mut sw = gen::Swarm::new(r, names);
    if r.chance(2, 3) { sw.damage = 0; }
    let size = r.range(3, 40);
    gen::add_doc(r, &mut c, &sw, size);
    // Each period of the stream is the document once.
    c.set("periods", *r.pick(&[30, 60, 100]));
    // Or each period is a parse of its own, with the same parser.
    c.set("apart", i64::from(r.chance(1, 3)));
    c.set("keep", *r.pick(&[0, 0, 0, 1, 3]));
    // A text that is different in every period, put somewhere.
    if r.chance(1, 2) { c.set("vary", 1 + r.below(c.doc(0).len() + 1) as i64); }
    c.set("take", if r.chance(1, 2) { 0 } else { r.range(1, 6) as i64 });
    if r.chance(1, 2) {
        match r.below(5) {
            0 => { c.set("store", 4); c.faults.push(("mut-period".into(), r.range(2, 12) as u64)); }
            1 | 2 => c.faults.push(("alloc-period".into(), (r.range(2, 20) << 8) as u64 | 1)),
            3 => c.set("panics", r.range(1, 4) as i64),
            _ => c.faults.push(("macro-err-period".into(), r.range(2, 7) as u64)),
        }
    }
    c
}

/// The repeated part: what it opens it closes, and it ends the text before it.
fn unit(case: &Case) -> Vec<String> {
    let de = Conf::of(case).delims();
    let mut p = piece_strings(case, 0);
    if case.get("vary") > 0 {
        let mut at = case.get("vary") as usize - 1;
        let mark: String = std::iter::once('Q').chain(DIGITS).collect();
        match p.iter_mut().find(|s| {
            let n = s.chars().count();
            let here = at <= n;
            if !here { at -= n; }
            here
        }) {
            Some(s) => {
                let b = s.char_indices().nth(at).map_or(s.len(), |x| x.0);
                s.insert_str(b, &mark);
            }
            None => p.push(mark),
        }
    }
    let (mut depth, mut esc, mut any) = (0usize, false, false);
    for c in p.iter().flat_map(|s| s.chars()) {
        if esc { esc = false; continue }
        if de.escape(c) { esc = true; }
        else if de.start(c) { depth += 1; }
        else if de.end(c) { any |= depth <= 1; depth = depth.saturating_sub(1); }
    }
    let mut tail = String::new();
    if esc { tail.push('x'); }
    for _ in 0..depth { tail.push(de.translate('}', false)); }
    if depth == 0 && !any { tail.push(de.translate('{', false)); tail.push(de.translate('}', false)); }
    if !tail.is_empty() { p.push(tail); }
    p
}

/// Stand for the digits of the number of the period.
const DIGITS: std::ops::RangeInclusive<char> = '\u{E000}'..='\u{E003}';

fn varied(c: char, period: usize) -> char {
    if !DIGITS.contains(&c) { return c }
    let k = c as u32 - 0xE000;
    char::from(b'0' + (period / 10usize.pow(k) % 10) as u8)
}

/// What was in use, by period.
struct Meter {
    low: RefCell<Vec<i64>>,
    high: RefCell<Vec<i64>>,
    at: Cell<usize>,
}

impl Meter {
    fn new(n: usize) -> Rc<Meter> {
        Rc::new(Meter { low: RefCell::new(vec![i64::MAX; n]), high: RefCell::new(vec![0; n]), at: Cell::new(0) })
    }
    /// `rest`: between results.
    fn look(&self, rest: bool) {
        let (x, i) = (live(), self.at.get());
        if let Some(h) = self.high.borrow_mut().get_mut(i) { *h = x.max(*h); }
        if rest { if let Some(l) = self.low.borrow_mut().get_mut(i) { *l = x.min(*l); } }
    }
}

/// Delivers the unit a number of times.
struct Cycle<'a, X> {
    unit: &'a [X],
    at: usize,
    left: usize,
    period: usize,
    ctl: Rc<SrcCtl>,
    meter: Rc<Meter>,
}

impl<'a, X> Cycle<'a, X> {
    fn advance(&mut self) -> Option<(&'a X, usize)> {
        let more = self.left > 0;
        self.meter.look(false);
        self.ctl.request(more);
        if !more { return None }
        let x = (&self.unit[self.at], self.period);
        self.at += 1;
        if self.at == self.unit.len() {
            self.at = 0;
            self.left -= 1;
            self.period += 1;
            self.meter.at.set(self.meter.at.get() + 1);
        }
        Some(x)
    }
}

struct Strs<'a, R>(Cycle<'a, String>, std::marker::PhantomData<R>);
impl<R: RefCntStrish> Iterator for Strs<'_, R> {
    type Item = R;
    fn next(&mut self) -> Option<R> { 
        let (s, p) = self.0.advance()?;
        if !s.contains(|c| DIGITS.contains(&c)) { return Some(R::from_str(s)) }
        let s: String = s.chars().map(|c| varied(c, p)).collect();
        Some(R::from_str(&s))
    }
}
struct Chars<'a>(Cycle<'a, char>);
impl Iterator for Chars<'_> {
    type Item = char;
    fn next(&mut self) -> Option<char> { self.0.advance().map(|(c, p)| varied(*c, p)) }
}

#[derive(Default)]
struct Out { items: u64, errors: u64, panics: u64, early: u64, periods: usize, span: i64 }

fn go<R, A>(plan: &Plan<'_>, c: &Ctls, inner: A, mkref: &dyn Fn(DatumOf<A>) -> A::DR) -> Result<Out, Violation>
    where R: RefCntStrish,
          A: DatumAllocator<TT = TV<R>, ET = i64>,
          A::DR: std::hash::Hash + Eq,
{
    let case = plan.case;
    let delims = plan.conf.delims();
    let pieces = unit(case);
    let chars: Vec<char> = pieces.iter().flat_map(|s| s.chars()).collect();
    let longest = pieces.iter().map(String::len).max().unwrap_or(0) as i64;
    let periods = case.get("periods").clamp(24, 1000) as usize;
    let separate = case.get("apart") == 1;
    let streamed = plan.conf.src == 0;
    let keep = case.get("keep").clamp(0, 8) as usize;
    let take = case.get("take").max(0) as u64;
    let panics = case.get("panics").max(0) as u64;
    let mut o = Out { periods, ..Out::default() };
    let meter = Meter::new(periods + 1);
    c.mac.quiet.set(true);

    let before = live();
    let bs = bindings::<SimAlloc<A>>(plan.conf.table, plan.conf.hseed, delims, &plan.binds, &c.mac,
                                     &|s| TV::<R>::from_str(s), &|d| Some(mkref(d)));
    let mut parser = Parser {
        classifier: SimCC::new(delims),
        allocator: SimAlloc { inner, ctl: Rc::clone(&c.alloc) },
        bindings: bs,
    };
    let mut held: VecDeque<DatumOf<SimAlloc<A>>> = VecDeque::with_capacity(keep + 1);
    let count = if separate { periods } else { 1 };
    for p in 0..count {
        if separate { meter.at.set(p); }
        let ctl = Rc::new(SrcCtl::default());
        if panics > 0 && (!separate || mix(p as u64) % 3 == 0) {
            ctl.panic_at.set(Some(mix(p as u64 ^ (panics << 20)) % (3 * pieces.len() as u64)));
        }
        let left = if separate { 1 } else { periods };
        let m2 = Rc::clone(&meter);
        let r = catch_unwind(AssertUnwindSafe(|| {
            let src: DynSrc<'_, SimAlloc<A>> = if streamed {
                DynSrc(Box::new(StrishIterSourceStream::<Strs<'_, R>, TV<R>>::new(
                    Strs(Cycle { unit: &pieces, at: 0, left, period: p, ctl, meter: m2 }, std::marker::PhantomData))))
            } else {
                DynSrc(Box::new(CharIterSourceStream::new(
                    Chars(Cycle { unit: &chars, at: 0, left, period: p, ctl, meter: m2 }), |s: String| R::from_str(&s))))
            };
            let mut n = 0;
            for x in parser.parse(src) {
                n += 1;
                o.items += 1;
                match x {
                    Ok(d) => {
                        ev("item", 0);
                        if keep > 0 {
                            if held.len() == keep { let _ = held.pop_front(); }
                            held.push_back(d);
                        } else { drop(d) }
                    }
                    Err(_) => { ev("error", 0); o.errors += 1; }
                }
                if !separate { meter.look(true); }
                if separate && take > 0 && n >= take { o.early += 1; break }
            }
        }));
        if let Err(e) = r {
            if e.is::<StepCap>() { std::panic::resume_unwind(e) }
            if !e.is::<Injected>() {
                let at = take_panic().map_or(String::new(), |x| x.0);
                if at.starts_with("src/") { std::panic::resume_unwind(e) }
                return fail("panic", format!("the parse panicked at {at}"))
            }
            o.panics += 1;
            ev("panicked", 0);
        }
        if separate {
            meter.at.set(p);
            meter.look(true);
        }
    }
    drop(held);
    drop(parser);
    let after = live();
    let (low, high) = (meter.low.borrow(), meter.high.borrow());
    // Periods in which reading got that far.
    let full = (0..periods).take_while(|&i| high[i] > 0).count();
    if full >= 24 {
        let (a, b) = (full / 4..full / 2, full * 3 / 4..full);
        let lo = |r: std::ops::Range<usize>| low[r].iter().copied().min().unwrap_or(0);
        let hi = |r: std::ops::Range<usize>| high[r].iter().copied().max().unwrap_or(0);
        let (lo_a, hi_a, lo_b, hi_b) = (lo(a.clone()), hi(a.clone()), lo(b.clone()), hi(b.clone()));
        // Fewer may have been kept so far, and they may be smaller.
        let slack = if lo_a == i64::MAX { hi_a - before } else { hi_a - lo_a } * keep as i64 + 2 * longest + 256;
        if lo_a != i64::MAX && lo_b != i64::MAX {
            o.span = hi_a - lo_a;
            if lo_b > lo_a + slack {
                return fail("grows", format!(
                    "between results, {} bytes are in use in the first of {full} equal periods of the stream, \
                     but {} in the last", lo_a - before, lo_b - before))
            }
        }
        if hi_b > hi_a + o.span + slack + 256 {
            return fail("grows", format!(
                "at most {} bytes are in use in the first of {full} equal periods of the stream, \
                 but {} in the last", hi_a - before, hi_b - before))
        }
    }
    if after != before {
        return fail("leak", format!(
            "{} bytes are still in use after the parser, the iteration and all results are gone", after - before))
    }
    Ok(o)
}

fn run21(case: &Case, cx: &mut Cx) -> V {
    let mut conf = Conf::of(case);
    conf.src = conf.src.min(1);
    conf.text = conf.text.min(5);
    if !matches!(conf.store, 0 | 1 | 2 | 4) { conf.store = 0; }
    let conf = conf.norm();
    let periods = case.get("periods").clamp(24, 1000) as u64;
    set_cap(100_000 + 1_000 * periods * (case.doc(0).len() as u64 + 40));
    let plan = Plan::new(case, conf);
    macro_rules! with {
        ($c:ident, $R:ty, $DR:ident, $alloc:expr) => { go::<$R, _>(&plan, $c, $alloc, &|d| $DR::new(d)) };
    }
    let once = |c: &Ctls| match (conf.store, conf.text) {
        (0, 0) => with!(c, Rc<String>, DatumBox, BoxDatumAllocator::default()),
        (0, 1) => with!(c, Rc<Box<str>>, DatumBox, BoxDatumAllocator::default()),
        (0, 2) => with!(c, Rc<str>, DatumBox, BoxDatumAllocator::default()),
        (0, 3) => with!(c, Arc<String>, DatumBox, BoxDatumAllocator::default()),
        (0, 4) => with!(c, Arc<Box<str>>, DatumBox, BoxDatumAllocator::default()),
        (0, _) => with!(c, Arc<str>, DatumBox, BoxDatumAllocator::default()),
        (1, 0) => with!(c, Rc<String>, DatumRc, RcDatumAllocator::default()),
        (1, _) => with!(c, Rc<str>, DatumRc, RcDatumAllocator::default()),
        (4, _) => with!(c, Rc<String>, SimRefNew, SimBoxAlloc(std::marker::PhantomData)),
        _ => with!(c, Arc<str>, DatumArc, ArcDatumAllocator::default()),
    };
    // Something made once for the life of the process is not a leak: only what
    // is left behind each time is.
    let mut left = 0;
    let (o, c) = loop {
        let c = ctls(&plan);
        MUTCTL.with(|m| *m.borrow_mut() = Some(Rc::clone(&c.mutc)));
        let r = once(&c);
        MUTCTL.with(|m| *m.borrow_mut() = None);
        match r {
            Err(v) if v.kind == "leak" && left < 2 => left += 1,
            r => break (r?, c),
        }
    };
    if left > 0 { cx.count("left something behind at first", 1); }
    cx.fault("source panic", o.panics);
    cx.fault("allocation refused", c.alloc.refused.get());
    cx.fault("mutable access refused", c.mutc.refused.get());
    cx.fault("macro failed", c.mac.errs.get());
    cx.fault("iteration abandoned", o.early);
    cx.count("items", o.items);
    cx.count("error items", o.errors);
    cx.count("periods", o.periods as u64);
    cx.count("bytes between least and most in use in a period", o.span.unsigned_abs());
    if case.get("vary") > 0 { cx.count("text different in every period", 1); }
    cx.count(if case.get("apart") == 1 { "a parse per period" } else { "one parse" }, 1);
    cx.count(if conf.src == 0 { "string pieces" } else { "characters" }, 1);
    cx.nontrivial = o.items as usize >= o.periods;
    Ok(())
}

pub static C21: PropDef = PropDef {
    id: "C21", gen: gen21, run: run21, runs: (300_000, 2_000_000), level: "exploration",
    rule: "seeded documents repeated many times in one stream, or parsed again and again by one parser, in \
           seeded pieces, with results dropped or kept for a while, errors, refusals, panics and abandoned \
           iterations recurring; heap use is counted exactly at every request and item; non-trivial when \
           every period gave an item",
    real: "kul StrishIterSourceStream, CharIterSourceStream, PosStrish, TextVec, kul_core parser, \
           allocators, binding tables, reference types and their Drop",
    stub: "heap counter, endless deliverer, macros, allocation and mutability faults, holder of results",
};
