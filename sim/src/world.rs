//! The simulated environment of a parse: classifier, sources, allocators,
//! reference types, macros and binding tables, all scripted by the case.
//! Everything they are plugged into is the real library.

use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::hash::{BuildHasher, Hash, Hasher};
use std::ops::Deref;
use std::rc::Rc;

use kul::combiner::{ApFn, OpFn};
use kul::datum::{DatumArc, DatumRc};
use kul::parser::{
    AllocError, CharClassifier, DatumAllocator, DefaultCharClassifier, EmptyOperatorBindings,
    HashMapOperatorBindings, OperatorBindings, PairOperatorBindings,
};
use kul::text::chunk::{CharPos, StrPos};
use kul::{Combiner, Datum, DerefTryMut, Error, Parser, SourceIterItem, SourceStream, Text,
          TextBase, TextConcat};

use crate::log::{ev, tick, Injected};
use crate::model::{extra_of, Call, Ch, Delims, Item, Key, Kind, E, M};
use crate::sched;

// ---------------------------------------------------------------- positions

pub trait PosInfo {
    fn chpos(&self) -> u32;
    fn bytepos(&self) -> Option<u32>;
    /// Is what the position claims about its own source true for `ch`?
    fn consistent(&self, ch: char) -> bool;
}

impl PosInfo for CharPos {
    fn chpos(&self) -> u32 { self.0 as u32 }
    fn bytepos(&self) -> Option<u32> { None }
    fn consistent(&self, _: char) -> bool { true }
}

impl PosInfo for StrPos<'_> {
    fn chpos(&self) -> u32 { self.char_pos as u32 }
    fn bytepos(&self) -> Option<u32> { Some(self.byte_pos as u32) }
    fn consistent(&self, ch: char) -> bool {
        self.src.get(self.byte_pos..).and_then(|s| s.chars().next()) == Some(ch)
    }
}

// --------------------------------------------------------------- classifier

/// The default classifier of the library, or custom delimiters.
pub struct SimCC {
    pub delims: Delims,
    real: DefaultCharClassifier,
}

impl SimCC {
    pub fn new(delims: Delims) -> Self { Self { delims, real: DefaultCharClassifier } }
}

impl CharClassifier for SimCC {
    fn is_nest_start(&self, c: char) -> bool {
        tick();
        sched::yield_now("classify");
        if self.delims.0 == 0 { self.real.is_nest_start(c) } else { self.delims.start(c) }
    }
    fn is_nest_end(&self, c: char) -> bool {
        tick();
        if self.delims.0 == 0 { self.real.is_nest_end(c) } else { self.delims.end(c) }
    }
    fn is_nest_escape(&self, c: char) -> bool {
        tick();
        if self.delims.0 == 0 { self.real.is_nest_escape(c) } else { self.delims.escape(c) }
    }
    fn is_whitespace(&self, c: char) -> bool {
        tick();
        if self.delims.0 == 0 { self.real.is_whitespace(c) } else { self.delims.ws(c) }
    }
}

// ------------------------------------------------------------------ sources

/// What a scripted source does and what was asked of it.
#[derive(Default)]
pub struct SrcCtl {
    /// Number of pieces (or characters) requested so far.
    pub pulls: Cell<u64>,
    /// Requests after the source had ended.
    pub after_end: Cell<u64>,
    pub ended: Cell<bool>,
    /// Panic when this request is made.
    pub panic_at: Cell<Option<u64>>,
    pub panics: Cell<u64>,
}

impl SrcCtl {
    /// Called for every request, before anything is delivered.
    pub fn request(&self, more: bool) {
        let n = self.pulls.get();
        ev("pull", n);
        sched::yield_now("pull");
        if self.panic_at.get() == Some(n) {
            self.panics.set(self.panics.get() + 1);
            self.pulls.set(n + 1);
            std::panic::panic_any(Injected("source panic"));
        }
        if more {
            self.pulls.set(n + 1);
        } else {
            if self.ended.get() { self.after_end.set(self.after_end.get() + 1) }
            self.ended.set(true);
            ev("end", n);
        }
    }
}

/// Iterator of pieces.
pub struct Pieces<R> {
    pub items: std::vec::IntoIter<R>,
    pub ctl: Rc<SrcCtl>,
}

impl<R> Iterator for Pieces<R> {
    type Item = R;
    fn next(&mut self) -> Option<R> {
        self.ctl.request(self.items.len() > 0);
        self.items.next()
    }
}

/// Any source, behind one type.
pub struct DynSrc<'a, DA: DatumAllocator>(
    pub Box<dyn SourceStream<DA, Item = SourceIterItem<<DA::TT as TextBase>::Pos>> + 'a>);

impl<DA: DatumAllocator> Iterator for DynSrc<'_, DA> {
    type Item = SourceIterItem<<DA::TT as TextBase>::Pos>;
    fn next(&mut self) -> Option<Self::Item> { self.0.next() }
}

impl<DA: DatumAllocator> SourceStream<DA> for DynSrc<'_, DA> {
    fn peek(&mut self) -> Option<&<Self as Iterator>::Item> { self.0.peek() }
    fn next_accum(&mut self, d: &mut DA)
                  -> Result<Option<<Self as Iterator>::Item>, AllocError> {
        self.0.next_accum(d)
    }
    fn accum_done(&mut self, d: &mut DA) -> Result<DA::TT, AllocError> { self.0.accum_done(d) }
}

// ---------------------------------------------------------------- allocator

/// Fault plan and counters of an allocator.
#[derive(Default)]
pub struct AllocCtl {
    pub calls: Cell<u64>,
    pub granted: Cell<u64>,
    pub refused: Cell<u64>,
    /// Refuse these calls.
    pub refuse: RefCell<Vec<u64>>,
    /// Refuse every call from this one on.
    pub refuse_from: Cell<Option<u64>>,
    /// Refuse while `calls % period < len`.
    pub refuse_period: Cell<(u64, u64)>,
    /// Set when a refusal happened since it was last cleared.
    pub hit: Cell<bool>,
    /// Same for the storage itself running out.
    pub exhausted: Cell<u64>,
    pub panic_at: Cell<Option<u64>>,
}

impl AllocCtl {
    fn refuse_now(&self) -> bool {
        let n = self.calls.get();
        self.calls.set(n + 1);
        let (p, l) = self.refuse_period.get();
        self.refuse.borrow().contains(&n)
            || self.refuse_from.get().map_or(false, |f| n >= f)
            || (p > 0 && n % p < l)
    }
}

/// Real allocator behind a fault-injecting seam.
pub struct SimAlloc<A> {
    pub inner: A,
    pub ctl: Rc<AllocCtl>,
}

impl<A: DatumAllocator> DatumAllocator for SimAlloc<A> {
    type TT = A::TT;
    type ET = A::ET;
    type DR = A::DR;

    fn new_datum(&mut self, from: Datum<A::TT, A::ET, A::DR>) -> Result<A::DR, AllocError> {
        let n = self.ctl.calls.get();
        ev("alloc", n);
        sched::yield_now("alloc");
        if self.ctl.panic_at.get() == Some(n) {
            self.ctl.calls.set(n + 1);
            std::panic::panic_any(Injected("allocator panic"));
        }
        if self.ctl.refuse_now() {
            ev("alloc-refused", n);
            self.ctl.refused.set(self.ctl.refused.get() + 1);
            self.ctl.hit.set(true);
            return Err(AllocError::AllocExhausted)
        }
        let r = self.inner.new_datum(from);
        if r.is_ok() {
            self.ctl.granted.set(self.ctl.granted.get() + 1);
        } else {
            ev("alloc-exhausted", n);
            self.ctl.exhausted.set(self.ctl.exhausted.get() + 1);
            self.ctl.hit.set(true);
        }
        r
    }
}

/// Lends an allocator to a nested parser (as a macro that re-parses does).
pub struct Borrowed<'a, A>(pub &'a mut A);

impl<A: DatumAllocator> DatumAllocator for Borrowed<'_, A> {
    type TT = A::TT;
    type ET = A::ET;
    type DR = A::DR;
    fn new_datum(&mut self, from: Datum<A::TT, A::ET, A::DR>) -> Result<A::DR, AllocError> {
        self.0.new_datum(from)
    }
}

// ---------------------------------------------------------- reference types

#[derive(Default)]
pub struct MutCtl {
    pub calls: Cell<u64>,
    pub refused: Cell<u64>,
    pub refuse: RefCell<Vec<u64>>,
    pub refuse_from: Cell<Option<u64>>,
    /// Refuse every one whose number is a multiple of this.
    pub period: Cell<u64>,
    pub hit: Cell<bool>,
}

thread_local! {
    pub static MUTCTL: RefCell<Option<Rc<MutCtl>>> = const { RefCell::new(None) };
}

/// A user-provided reference type that may refuse mutable access.
#[derive(PartialEq, Eq, Hash)]
pub struct SimBox<TT, ET>(Box<Datum<TT, ET, SimBox<TT, ET>>>);

impl<TT, ET> SimBox<TT, ET> {
    pub fn of(d: Datum<TT, ET, SimBox<TT, ET>>) -> Self { SimBox(Box::new(d)) }
}

impl<TT, ET> Deref for SimBox<TT, ET> {
    type Target = Datum<TT, ET, SimBox<TT, ET>>;
    fn deref(&self) -> &Self::Target { &self.0 }
}

impl<TT, ET> DerefTryMut for SimBox<TT, ET> {
    fn get_mut(this: &mut Self) -> Option<&mut Self::Target> {
        let refuse = MUTCTL.with(|m| m.borrow().as_ref().map_or(false, |c| {
            let n = c.calls.get();
            c.calls.set(n + 1);
            ev("get-mut", n);
            let r = c.refuse.borrow().contains(&n)
                || c.refuse_from.get().map_or(false, |f| n >= f)
                || (c.period.get() > 0 && n % c.period.get() == 0);
            if r {
                ev("get-mut-refused", n);
                c.refused.set(c.refused.get() + 1);
                c.hit.set(true);
            }
            r
        }));
        if refuse { None } else { Some(&mut this.0) }
    }
}

pub struct SimBoxAlloc<TT, ET>(pub std::marker::PhantomData<(TT, ET)>);

impl<TT: Text, ET> DatumAllocator for SimBoxAlloc<TT, ET> {
    type TT = TT;
    type ET = ET;
    type DR = SimBox<TT, ET>;
    fn new_datum(&mut self, from: Datum<TT, ET, Self::DR>) -> Result<Self::DR, AllocError> {
        Ok(SimBox(Box::new(from)))
    }
}

/// An allocator of the application that remembers some of the nodes it made
/// (interning, diagnostics), so that they are shared while still being built.
pub trait Keep {
    type Weak;
    fn strong(&self) -> Self;
    fn weak(&self) -> Self::Weak;
}
impl<TT, ET> Keep for DatumRc<TT, ET> {
    type Weak = std::rc::Weak<kul::datum::RcDatum<TT, ET>>;
    fn strong(&self) -> Self { DatumRc(Rc::clone(&self.0)) }
    fn weak(&self) -> Self::Weak { Rc::downgrade(&self.0) }
}
impl<TT, ET> Keep for DatumArc<TT, ET> {
    type Weak = crate::hooks::Weak<kul::datum::ArcDatum<TT, ET>>;
    fn strong(&self) -> Self { DatumArc(crate::hooks::Arc::clone(&self.0)) }
    fn weak(&self) -> Self::Weak { crate::hooks::Arc::downgrade(&self.0) }
}

pub struct KeepAlloc<A: DatumAllocator> where A::DR: Keep {
    pub inner: A,
    pub n: u64,
    pub strong_at: Vec<u64>,
    pub weak_at: Vec<u64>,
    pub ctl: Rc<MutCtl>,
    kept: Vec<A::DR>,
    kept_weak: Vec<<A::DR as Keep>::Weak>,
}

impl<A: DatumAllocator> KeepAlloc<A> where A::DR: Keep {
    pub fn new(inner: A, ctl: Rc<MutCtl>, strong_at: Vec<u64>, weak_at: Vec<u64>) -> Self {
        Self { inner, n: 0, strong_at, weak_at, ctl, kept: Vec::new(), kept_weak: Vec::new() }
    }
}

impl<A: DatumAllocator> DatumAllocator for KeepAlloc<A> where A::DR: Keep {
    type TT = A::TT;
    type ET = A::ET;
    type DR = A::DR;
    fn new_datum(&mut self, from: Datum<A::TT, A::ET, A::DR>) -> Result<A::DR, AllocError> {
        let n = self.n;
        self.n += 1;
        let r = self.inner.new_datum(from)?;
        if self.strong_at.contains(&n) {
            ev("keep-strong", n);
            self.ctl.hit.set(true);
            self.ctl.refused.set(self.ctl.refused.get() + 1);
            self.kept.push(r.strong());
        } else if self.weak_at.contains(&n) {
            ev("keep-weak", n);
            self.ctl.hit.set(true);
            self.ctl.refused.set(self.ctl.refused.get() + 1);
            self.kept_weak.push(r.weak());
        }
        Ok(r)
    }
}

// ------------------------------------------------------------------ hashers

/// Seeded hasher; with few bits, nearly everything collides.
#[derive(Clone)]
pub struct SimState {
    pub seed: u64,
    pub bits: u32,
}

pub struct SimHasher {
    h: u64,
    bits: u32,
}

impl BuildHasher for SimState {
    type Hasher = SimHasher;
    fn build_hasher(&self) -> SimHasher { SimHasher { h: self.seed, bits: self.bits } }
}

impl Hasher for SimHasher {
    fn finish(&self) -> u64 {
        let v = crate::rng::mix(self.h);
        if self.bits >= 64 { v } else { v & ((1u64 << self.bits) - 1) }
    }
    fn write(&mut self, bytes: &[u8]) {
        for b in bytes {
            self.h = (self.h ^ u64::from(*b)).wrapping_mul(0x0000_0100_0000_01b3);
        }
        self.h = self.h.rotate_left(5) ^ bytes.len() as u64;
    }
}

// ------------------------------------------------------------------- macros

#[derive(Default)]
pub struct MacroCtl {
    pub calls: RefCell<Vec<Call>>,
    pub count: Cell<u64>,
    /// Panic at this call (before doing anything but logging it).
    pub panic_at: Cell<Option<u64>>,
    /// Fail these calls.
    pub err_at: RefCell<Vec<u64>>,
    /// Fail every one whose number is a multiple of this.
    pub err_period: Cell<u64>,
    pub errs: Cell<u64>,
    /// First call of the current session (values and errors count from it).
    pub base: Cell<u64>,
    /// What re-parsing macros were given and what came out.
    pub reparses: RefCell<Vec<(Vec<Ch>, Vec<Item>)>>,
    /// Do not record operands (for very long documents).
    pub quiet: Cell<bool>,
}

pub type CE = i64;
pub type DatumOf<DA> = Datum<<DA as DatumAllocator>::TT, <DA as DatumAllocator>::ET,
                             <DA as DatumAllocator>::DR>;
pub type ErrOf<DA> = Error<<<DA as DatumAllocator>::TT as TextBase>::Pos, CE>;

/// Convert a result of the real code to the model's terms.
pub fn to_m<TT, DR>(d: &Datum<TT, i64, DR>) -> M
    where TT: Text, TT::Pos: PosInfo, DR: DerefTryMut<Target = Datum<TT, i64, DR>>,
{
    match d {
        Datum::Text(t) => M::Text(text_chars(t)),
        Datum::Combination { operator, operands }
            => M::Comb(Box::new(to_m(operator)), Box::new(to_m(operands))),
        Datum::EmptyNest => M::Nest,
        Datum::EmptyList => M::List(Vec::new()),
        Datum::List { elem, next } => {
            let mut v = vec![to_m(elem)];
            let mut cur: &Datum<TT, i64, DR> = next;
            loop {
                match cur {
                    Datum::List { elem, next } => { v.push(to_m(elem)); cur = next; }
                    Datum::EmptyList => break M::List(v),
                    x => break M::Odd(format!("improper list ending in {:?}", to_m(x))),
                }
            }
        }
        Datum::Extra(n) => M::Extra(*n),
        #[allow(unreachable_patterns)]
        _ => M::Odd("unknown variant".to_string()),
    }
}

pub fn text_chars<TT>(t: &TT) -> Vec<Ch>
    where TT: Text, TT::Pos: PosInfo,
{
    // A text is finite: bounded by what could have been delivered.
    t.iter().take(50_000_000).map(|i| item_ch(&i)).collect()
}

pub fn item_ch<P: PosInfo>(SourceIterItem { ch, pos }: &SourceIterItem<P>) -> Ch {
    // A position that is wrong about its own source cannot match the model.
    let p = if pos.consistent(*ch) { pos.chpos() } else { u32::MAX - 7 };
    Ch { ch: *ch, pos: p, byte: pos.bytepos() }
}

pub fn to_e<P: PosInfo>(e: &Error<P, CE>) -> E {
    match e {
        Error::UnbalancedEndChar(p) => E::Unbalanced(p.chpos(), p.bytepos()),
        Error::MissingEndChar => E::Missing,
        Error::FailedAlloc(_) => E::Alloc,
        Error::FailedDerefTryMut => E::Deref,
        Error::FailedCombiner(n) => E::Macro(*n),
    }
}

fn macro_entry<DA>(ctl: &MacroCtl, b: usize, operator: &DatumOf<DA>, operands: impl FnOnce() -> M)
                   -> Result<usize, ErrOf<DA>>
    where DA: DatumAllocator<ET = i64>, <DA::TT as TextBase>::Pos: PosInfo,
{
    let n = ctl.count.get();
    ctl.count.set(n + 1);
    ev("macro", n);
    sched::yield_now("macro");
    if !ctl.quiet.get() {
        ctl.calls.borrow_mut().push(Call { bind: b, operator: to_m(operator), operands: operands() });
    }
    if ctl.panic_at.get() == Some(n) {
        std::panic::panic_any(Injected("macro panic"));
    }
    let period = ctl.err_period.get();
    if ctl.err_at.borrow().contains(&n) || (period > 0 && n % period == 0) {
        ctl.errs.set(ctl.errs.get() + 1);
        return Err(Error::FailedCombiner(1_000_000 + n as i64))
    }
    Ok((n - ctl.base.get()) as usize)
}

pub type OpBox<DA> = Box<OpFn<DA, CE>>;
pub type ApBox<DA> = Box<ApFn<DA, CE>>;
pub type Comb<DA> = Combiner<OpBox<DA>, ApBox<DA>>;

/// The scripted macro for a binding.
pub fn combiner<DA>(kind: Kind, b: usize, delims: Delims, ctl: &Rc<MacroCtl>) -> Comb<DA>
    where DA: DatumAllocator<ET = i64>,
          <DA::TT as TextBase>::Pos: PosInfo,
          DA::TT: for<'x> TextConcat<Borrowed<'x, DA>>,
{
    let ctl = Rc::clone(ctl);
    if kind.is_op() {
        Combiner::Operative(Box::new(move |operator, operands, dalloc| {
            let n = macro_entry::<DA>(&ctl, b, &operator, || M::Text(text_chars(&operands)))?;
            match kind {
                Kind::OpRemove => Ok(None),
                Kind::OpExtra => Ok(Some(Datum::Extra(extra_of(n)))),
                Kind::OpErr => Err(Error::FailedCombiner(n as i64)),
                Kind::OpComb => Ok(Some(Datum::Combination {
                    operator: dalloc.new_datum(operator)?,
                    operands: dalloc.new_datum(Datum::Text(operands))?,
                })),
                Kind::OpAllocErr => Err(Error::FailedAlloc(AllocError::AllocExhausted)),
                Kind::OpOperator => Ok(Some(operator)),
                Kind::OpNest => Ok(Some(Datum::EmptyNest)),
                Kind::OpReparse => {
                    let mut forms = Vec::new();
                    {
                        let mut p = Parser {
                            classifier: SimCC::new(delims),
                            allocator: Borrowed(&mut *dalloc),
                            bindings: EmptyOperatorBindings,
                        };
                        let mut out: Vec<Item> = Vec::new();
                        let mut err = None;
                        for r in p.parse(operands.iter()) {
                            match r {
                                Ok(d) => { out.push(Ok(to_m(&d))); forms.push(d); }
                                Err(e) => {
                                    let e = widen::<DA, _>(e);
                                    out.push(Err(to_e(&e)));
                                    err = Some(e);
                                    break
                                }
                            }
                        }
                        if !ctl.quiet.get() {
                            ctl.reparses.borrow_mut().push((text_chars(&operands), out));
                        }
                        if let Some(e) = err { return Err(e) }
                    }
                    let mut list = Datum::EmptyList;
                    for f in forms.into_iter().rev() {
                        list = Datum::List {
                            elem: dalloc.new_datum(f)?,
                            next: dalloc.new_datum(list)?,
                        };
                    }
                    Ok(Some(list))
                }
                _ => Ok(Some(Datum::Text(operands))),
            }
        }))
    } else {
        Combiner::Applicative(Box::new(move |operator, operands, dalloc| {
            let n = macro_entry::<DA>(&ctl, b, &operator, || to_m(&operands))?;
            match kind {
                Kind::ApRemove => Ok(None),
                Kind::ApExtra => Ok(Some(Datum::Extra(extra_of(n)))),
                Kind::ApErr => Err(Error::FailedCombiner(n as i64)),
                Kind::ApComb => Ok(Some(Datum::Combination {
                    operator: dalloc.new_datum(operator)?,
                    operands: dalloc.new_datum(operands)?,
                })),
                Kind::ApOperator => Ok(Some(operator)),
                Kind::ApAllocErr => Err(Error::FailedAlloc(AllocError::AllocExhausted)),
                Kind::ApMissing => Err(Error::MissingEndChar),
                _ => Ok(Some(operands)),
            }
        }))
    }
}

/// The error of a parser without macros, as an error of one with macros.
pub fn widen<DA: DatumAllocator, X>(e: Error<<DA::TT as TextBase>::Pos, X>) -> ErrOf<DA> {
    match e {
        Error::UnbalancedEndChar(p) => Error::UnbalancedEndChar(p),
        Error::MissingEndChar => Error::MissingEndChar,
        Error::FailedAlloc(a) => Error::FailedAlloc(a),
        Error::FailedDerefTryMut => Error::FailedDerefTryMut,
        Error::FailedCombiner(_) => Error::FailedCombiner(-1),
    }
}

// ----------------------------------------------------------------- bindings

pub type Pairs<DA> = Vec<(DatumOf<DA>, Comb<DA>)>;

/// One of the library's binding tables.
pub enum Binds<DA>
    where DA: DatumAllocator<ET = i64>, DA::TT: Hash + Eq, DA::DR: Hash + Eq,
{
    Hash(HashMapOperatorBindings<DA, OpBox<DA>, ApBox<DA>, CE, SimState>),
    Pair(PairOperatorBindings<Pairs<DA>, DA, OpBox<DA>, ApBox<DA>, CE>),
}

impl<DA> OperatorBindings<DA> for Binds<DA>
    where DA: DatumAllocator<ET = i64>, DA::TT: Hash + Eq, DA::DR: Hash + Eq,
{
    type OR = OpBox<DA>;
    type AR = ApBox<DA>;
    type CE = CE;
    fn lookup(&self, operator: &DatumOf<DA>) -> Option<&Comb<DA>> {
        match self {
            Binds::Hash(h) => h.lookup(operator),
            Binds::Pair(p) => p.lookup(operator),
        }
    }
}

impl<DA> Binds<DA>
    where DA: DatumAllocator<ET = i64>, DA::TT: Hash + Eq, DA::DR: Hash + Eq,
          <DA::TT as TextBase>::Pos: PosInfo,
{
    /// Have just those of all bindings in the table that are in the mask; the
    /// others are put aside.
    pub fn only(&mut self, mask: u64, binds: &[(Key, Kind)], aside: &mut Pairs<DA>) {
        let is_in = |d: &DatumOf<DA>| {
            let m = to_m(d);
            binds.iter().position(|(k, _)| k.matches(&m)).map_or(true, |i| mask >> i.min(63) & 1 == 1)
        };
        let (back, stay): (Vec<_>, Vec<_>) = std::mem::take(aside).into_iter()
            .partition(|(k, _)| is_in(k));
        *aside = stay;
        match self {
            Binds::Hash(h) => {
                let t = &mut h.hashmap;
                if t.keys().any(|k| !is_in(k)) {
                    let all: Pairs<DA> = t.drain().collect();
                    for (k, v) in all {
                        if is_in(&k) { let _ = t.insert(k, v); } else { aside.push((k, v)); }
                    }
                }
                for (k, v) in back { let _ = t.insert(k, v); }
            }
            Binds::Pair(p) => {
                let (keep, out): (Vec<_>, Vec<_>) = std::mem::take(&mut p.pairs).into_iter()
                    .partition(|(k, _)| is_in(k));
                p.pairs = keep;
                p.pairs.extend(back);
                aside.extend(out);
            }
        }
    }
}

/// `table`: 0 hash map, 1 hash map with colliding hasher, 2 pairs.
pub fn bindings<DA>(table: i64, hseed: u64, delims: Delims, binds: &[(Key, Kind)],
                    ctl: &Rc<MacroCtl>, mktext: &dyn Fn(&'static str) -> DA::TT,
                    mkref: &dyn Fn(DatumOf<DA>) -> Option<DA::DR>) -> Binds<DA>
    where DA: DatumAllocator<ET = i64>, DA::TT: Hash + Eq, DA::DR: Hash + Eq,
          <DA::TT as TextBase>::Pos: PosInfo,
          DA::TT: for<'x> TextConcat<Borrowed<'x, DA>>,
{
    let mut pairs: Pairs<DA> = Vec::new();
    for (b, (key, kind)) in binds.iter().enumerate() {
        let d = match key {
            Key::Text(s) => Datum::Text(mktext(intern(s))),
            Key::Nest => Datum::EmptyNest,
            Key::EList => Datum::EmptyList,
            Key::Extra(n) => Datum::Extra(*n),
            Key::Comb(s) => {
                let (Some(operator), Some(operands))
                    = (mkref(Datum::Text(mktext(intern(s)))), mkref(Datum::EmptyList))
                    else { continue };
                Datum::Combination { operator, operands }
            }
            Key::One(s) => {
                let (Some(elem), Some(next))
                    = (mkref(Datum::Text(mktext(intern(s)))), mkref(Datum::EmptyList))
                    else { continue };
                Datum::List { elem, next }
            }
        };
        pairs.push((d, combiner::<DA>(*kind, b, delims, ctl)));
    }
    match table {
        2 => Binds::Pair(PairOperatorBindings::new(pairs)),
        t => {
            let st = SimState { seed: hseed, bits: if t == 1 { 0 } else { 64 } };
            let mut h = HashMap::with_hasher(st);
            for (k, v) in pairs { let _ = h.insert(k, v); }
            Binds::Hash(HashMapOperatorBindings::new(h))
        }
    }
}

/// Operator names come from a small set; keep one leaked copy of each.
pub fn intern(s: &str) -> &'static str {
    use std::collections::BTreeSet;
    use std::sync::Mutex;
    static SET: Mutex<BTreeSet<&'static str>> = Mutex::new(BTreeSet::new());
    let mut g = SET.lock().unwrap_or_else(std::sync::PoisonError::into_inner);
    if let Some(x) = g.get(s) { return x }
    crate::mem::apart(|| {
        let l: &'static str = Box::leak(s.to_string().into_boxed_str());
        let _ = g.insert(l);
        l
    })
}
