//! Runs parses of a case on a chosen combination of real components and
//! records everything observable.

use std::hash::Hash;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::Arc;

use kul::datum::{DatumArc, DatumBox, DatumRc};
use kul::parser::{
    AllocError, ArcDatumAllocator, BoxDatumAllocator, DatumAllocator, EmptyOperatorBindings, RcDatumAllocator,
    SliceDatumAllocator,
};
use kul::source_stream::{
    to_arc_box_str, to_arc_str, to_arc_string, to_rc_box_str, to_rc_str, to_rc_string,
    CharIterSourceStream, StrishIterSourceStream,
};
use kul::text::chunk::{CharPos, PosStr, PosStrish, RefCntStrish, StrPos};
use kul::text::{TextDatumList, TextVec};
use kul::{Datum, Parser, SourceStream, Text, TextBase, TextConcat};

use crate::case::Case;
use crate::log::{ev, Injected, StepCap};
use crate::model::{Call, Ch, Delims, Item, Key, Kind};
use crate::world::*;

/// Chosen components.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Conf {
    /// 0 string pieces, 1 characters, 2 text in memory.
    pub src: i64,
    /// 0-5 vector of counted-string chunks, 6 vector of borrowed chunks,
    /// 7 node-list of borrowed chunks, 8 node-list of counted-string chunks,
    /// 9 an application's own type.
    pub text: i64,
    /// 0 boxed, 1 counted, 2 atomic, 3 array, 4 refusing box, 5 counted and
    /// remembered, 6 atomic and remembered.
    pub store: i64,
    /// 0 hash map, 1 colliding hash map, 2 pairs.
    pub table: i64,
    pub delims: u8,
    pub hseed: u64,
    /// Array storage: number of nodes.
    pub cap: usize,
}

/// As many nodes as any parse of the documents could need.
pub fn ample(case: &Case) -> usize {
    20_000.max(12 * case.docs.iter().map(Vec::len).sum::<usize>())
}

impl Conf {
    pub fn of(case: &Case) -> Conf {
        Conf {
            src: case.get("src"),
            text: case.get("text"),
            store: case.get("store"),
            table: case.get("table"),
            delims: case.get("delims") as u8,
            hseed: case.get("hseed") as u64,
            cap: case.cfg.get("cap").map_or_else(|| ample(case), |&c| c as usize),
        }.norm()
    }

    /// Replace combinations that do not exist.
    pub fn norm(mut self) -> Conf {
        self.src = self.src.clamp(0, 2);
        self.text = self.text.clamp(0, 9);
        self.store = self.store.clamp(0, 6);
        self.table = self.table.clamp(0, 2);
        self.delims = self.delims.min(3);
        if matches!(self.text, 6 | 7 | 9) { self.src = 2; }
        if matches!(self.text, 7 | 8) { self.store = 3; }
        if self.text == 9 { self.store = 0; }
        if self.store != 0 && self.text < 6 {
            // Not all string types are combined with all storages.
            self.text = match self.store { 2 | 6 => 5, 3 => 2, 4 => 0, _ => self.text % 2 * 2 };
        }
        self
    }

    pub fn bytes(self) -> bool { matches!(self.text, 6 | 7 | 9) }
    pub fn delims(self) -> Delims { Delims(self.delims) }
    pub fn name(self) -> String {
        let src = ["pieces", "chars", "inmem"][self.src as usize];
        let text = ["vec-rc-string", "vec-rc-boxstr", "vec-rc-str", "vec-arc-string",
                    "vec-arc-boxstr", "vec-arc-str", "vec-posstr", "dlist-posstr",
                    "dlist-rc-str", "own"][self.text as usize];
        let store = ["box", "rc", "arc", "slice", "simbox", "keep-rc", "keep-arc"]
            [self.store as usize];
        let table = ["hashmap", "hashmap-colliding", "pairs"][self.table as usize];
        format!("{src}/{text}/{store}/{table}/delims{}", self.delims)
    }
}

/// One parse with the (shared) parser.
#[derive(Clone, Debug)]
pub struct Session {
    pub doc: usize,
    /// Stop after this many items (abandon); None: to the end.
    pub take: Option<usize>,
    /// Polls after the end.
    pub extra: usize,
    /// Stop after the first error.
    pub stop_at_err: bool,
    /// Which of the bindings are in the table.
    pub mask: u64,
}

impl Session {
    pub fn full(doc: usize) -> Session {
        Session { doc, take: None, extra: 2, stop_at_err: false, mask: u64::MAX }
    }
}

#[derive(Clone, Debug)]
pub struct ItemLog {
    pub res: Item,
    pub pulls: u64,
    pub calls: usize,
    /// A refusal (allocation / mutable access) happened during this item.
    pub alloc_hit: bool,
    pub mut_hit: bool,
    /// The source had been asked for more after its last piece.
    pub asked_end: bool,
}

/// Outcome of one operation on a source.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Did {
    Char(Option<Ch>),
    Text(Vec<Ch>),
    Refused,
}

#[derive(Clone, Debug, Default)]
pub struct SessionLog {
    pub did: Vec<Did>,
    pub items: Vec<ItemLog>,
    pub ended: bool,
    /// Items produced by polls after the end.
    pub revived: usize,
    pub panic: Option<String>,
    pub injected: bool,
    pub calls: Vec<Call>,
    pub pulls: u64,
    pub tail_alloc_hit: bool,
    pub tail_mut_hit: bool,
    /// Kept results compared unequal when looked at again at the end.
    pub changed: Option<String>,
}

#[derive(Clone, Debug, Default)]
pub struct DriveLog {
    pub sessions: Vec<SessionLog>,
    pub allocs: u64,
    pub granted: u64,
    pub refused: u64,
    pub exhausted: u64,
    pub mut_refused: u64,
    pub macro_errs: u64,
    pub macro_calls: u64,
    pub src_panics: u64,
    /// What re-parsing macros were given and what came out (up to an error).
    pub macro_reparses: Vec<(Vec<Ch>, Vec<Item>)>,
    /// Texts of results parsed again and what came out.
    pub reparses: Vec<(Vec<Ch>, Vec<Item>)>,
    /// The same with the parser the results came from, and the macros called.
    pub own_reparses: Vec<(Vec<Ch>, Vec<Item>, Vec<Call>)>,
    /// Pairs of results compared, and those of them found equal.
    pub compared: u64,
    pub equal: u64,
    /// Array storage left over at the end.
    pub unused: Option<usize>,
}

pub struct Plan<'c> {
    pub case: &'c Case,
    pub conf: Conf,
    pub binds: Vec<(Key, Kind)>,
    pub sessions: Vec<Session>,
    /// Re-parse texts of results this many levels deep.
    pub reparse: usize,
    /// Re-parse texts of results with the parser itself.
    pub own: bool,
    /// Drop results at once instead of keeping them to the end.
    pub drop_early: bool,
    /// Instead of parsing, do these operations on the source: 0 look ahead,
    /// 1 skip, 2 accumulate, 3 finish.
    pub script: Option<Vec<i64>>,
    /// Compare results of different sessions with each other.
    pub compare: bool,
}

impl<'c> Plan<'c> {
    pub fn new(case: &'c Case, conf: Conf) -> Plan<'c> {
        Plan { case, conf, binds: binds_of(case, conf), sessions: vec![Session::full(0)],
               reparse: 0, own: false, drop_early: false, script: None, compare: false }
    }
}

/// Bindings of the case that exist in the configuration.
pub fn binds_of(case: &Case, conf: Conf) -> Vec<(Key, Kind)> {
    let mut v: Vec<(Key, Kind)> = Vec::new();
    for (k, m) in &case.binds {
        let key = Key::parse(k);
        if v.iter().any(|x| x.0 == key) { continue }
        if conf.store == 3 && matches!(key, Key::Comb(_) | Key::One(_)) { continue }
        v.push((key, Kind::parse(m)));
    }
    v
}

pub fn piece_strings(case: &Case, doc: usize) -> Vec<String> {
    let d = case.doc(doc);
    case.pieces(doc).into_iter().map(|(a, b)| d[a..b].iter().collect()).collect()
}

// -------------------------------------------------------------- the driver

pub struct Ctls {
    pub src: Vec<Rc<SrcCtl>>,
    pub alloc: Rc<AllocCtl>,
    pub mutc: Rc<MutCtl>,
    pub mac: Rc<MacroCtl>,
}

pub fn ctls(plan: &Plan<'_>) -> Ctls {
    let case = plan.case;
    let src: Vec<Rc<SrcCtl>> = plan.sessions.iter().enumerate().map(|(i, _)| {
        let c = SrcCtl::default();
        // A source panic is planned for (session << 32 | pull).
        for n in case.fault_at("src-panic") {
            if (n >> 32) as usize == i { c.panic_at.set(Some(n & 0xffff_ffff)); }
        }
        Rc::new(c)
    }).collect();
    let alloc = AllocCtl::default();
    *alloc.refuse.borrow_mut() = case.fault_at("alloc");
    alloc.refuse_from.set(case.fault_at("alloc-from").first().copied());
    if let Some(p) = case.fault_at("alloc-period").first() {
        alloc.refuse_period.set((p >> 8, p & 0xff));
    }
    alloc.panic_at.set(case.fault_at("alloc-panic").first().copied());
    let mutc = MutCtl::default();
    *mutc.refuse.borrow_mut() = case.fault_at("mut");
    mutc.refuse_from.set(case.fault_at("mut-from").first().copied());
    mutc.period.set(case.fault_at("mut-period").first().copied().unwrap_or(0));
    let mac = MacroCtl::default();
    mac.err_period.set(case.fault_at("macro-err-period").first().copied().unwrap_or(0));
    mac.panic_at.set(case.fault_at("macro-panic").first().copied());
    *mac.err_at.borrow_mut() = case.fault_at("macro-err");
    Ctls { src, alloc: Rc::new(alloc), mutc: Rc::new(mutc), mac: Rc::new(mac) }
}

#[allow(clippy::too_many_arguments)]
fn go<'s, A>(plan: &Plan<'_>, c: &Ctls, inner: A,
             mktext: &dyn Fn(&'static str) -> A::TT,
             mkref: &dyn Fn(DatumOf<A>) -> Option<A::DR>,
             mksrc: &mut dyn FnMut(usize) -> DynSrc<'s, SimAlloc<A>>,
             unused: &dyn Fn(A) -> Option<usize>) -> DriveLog
    where A: DatumAllocator<ET = i64>,
          A::TT: Hash + Eq,
          A::DR: Hash + Eq,
          <A::TT as TextBase>::Pos: PosInfo,
          A::TT: TextConcat<SimAlloc<A>>,
          A::TT: for<'x> TextConcat<Borrowed<'x, SimAlloc<A>>>,
{
    let delims = plan.conf.delims();
    let mut log = DriveLog::default();
    let bs = bindings::<SimAlloc<A>>(plan.conf.table, plan.conf.hseed, delims, &plan.binds,
                                     &c.mac, mktext, mkref);
    let mut parser = Parser {
        classifier: SimCC::new(delims),
        allocator: SimAlloc { inner, ctl: Rc::clone(&c.alloc) },
        bindings: bs,
    };
    let mut kept: Vec<(usize, usize, DatumOf<A>)> = Vec::new();
    let mut aside: Pairs<SimAlloc<A>> = Vec::new();
    for (si, sess) in plan.sessions.iter().enumerate() {
        ev("session", si as u64);
        if sess.mask != u64::MAX || !aside.is_empty() {
            parser.bindings.only(sess.mask, &plan.binds, &mut aside);
        }
        c.mac.base.set(c.mac.count.get());
        let mut sl = SessionLog::default();
        let calls0 = c.mac.calls.borrow().len();
        c.alloc.hit.set(false);
        c.mutc.hit.set(false);
        let r = catch_unwind(AssertUnwindSafe(|| {
            let mut src = mksrc(si);
            if let Some(ops) = &plan.script {
                for op in ops {
                    ev("op", *op as u64);
                    let did = match op {
                        0 => Did::Char(src.peek().map(item_ch)),
                        1 => Did::Char(src.next().as_ref().map(item_ch)),
                        2 => match src.next_accum(&mut parser.allocator) {
                            Ok(x) => Did::Char(x.as_ref().map(item_ch)),
                            Err(_) => Did::Refused,
                        },
                        _ => match src.accum_done(&mut parser.allocator) {
                            Ok(t) => Did::Text(text_chars(&t)),
                            Err(_) => Did::Refused,
                        },
                    };
                    sl.did.push(did);
                }
                return
            }
            let mut it = parser.parse(src);
            loop {
                if sess.take.map_or(false, |t| sl.items.len() >= t) { break }
                let x = it.next();
                let (ah, mh) = (c.alloc.hit.replace(false), c.mutc.hit.replace(false));
                match x {
                    None => {
                        ev("none", 0);
                        sl.ended = true;
                        sl.tail_alloc_hit = ah;
                        sl.tail_mut_hit = mh;
                        break
                    }
                    Some(r) => {
                        let pulls = c.src[si].pulls.get();
                        let res = match &r {
                            Ok(d) => Ok(to_m(d)),
                            Err(e) => Err(to_e(e)),
                        };
                        ev(if res.is_ok() { "item" } else { "error" }, sl.items.len() as u64);
                        let is_err = res.is_err();
                        sl.items.push(ItemLog {
                            res, pulls, calls: c.mac.count.get() as usize,
                            alloc_hit: ah, mut_hit: mh,
                            asked_end: c.src[si].ended.get(),
                        });
                        if let Ok(d) = r {
                            if !plan.drop_early { kept.push((si, sl.items.len() - 1, d)); }
                        }
                        if is_err && sess.stop_at_err { break }
                    }
                }
            }
            if sl.ended {
                for _ in 0..sess.extra {
                    if it.next().is_some() { sl.revived += 1; }
                }
            }
        }));
        if let Err(p) = r {
            if p.is::<StepCap>() { std::panic::resume_unwind(p) }
            sl.injected = p.is::<Injected>();
            sl.panic = Some(panic_text(&*p));
            ev("panicked", 0);
        }
        sl.pulls = c.src[si].pulls.get();
        sl.calls = c.mac.calls.borrow()[calls0..].to_vec();
        log.sessions.push(sl);
    }
    // Results are looked at again after everything else happened.
    for (si, ii, d) in &kept {
        let again: Item = Ok(to_m(d));
        if log.sessions[*si].items[*ii].res != again && log.sessions[*si].changed.is_none() {
            log.sessions[*si].changed = Some(format!(
                "item {ii} was {:?} and later {:?}", log.sessions[*si].items[*ii].res, again));
        }
    }
    if plan.compare {
        let second = kept.iter().position(|k| k.0 > 0).unwrap_or(kept.len());
        for (a, b) in kept.iter().zip(&kept[second..]) {
            log.compared += 1;
            if a.2 == b.2 { log.equal += 1; }
        }
    }
    if plan.own {
        let mut texts = Vec::new();
        for (_, _, d) in &kept { collect_texts(d, &mut texts); }
        for t in texts.into_iter().take(20) {
            ev("reparse", 0);
            c.mac.base.set(c.mac.count.get());
            let calls0 = c.mac.calls.borrow().len();
            let out: Vec<Item> = parser.parse(t.iter())
                .map(|r| match r { Ok(d) => Ok(to_m(&d)), Err(e) => Err(to_e(&e)) })
                .collect();
            let calls = c.mac.calls.borrow()[calls0..].to_vec();
            log.own_reparses.push((text_chars(t), out, calls));
        }
    }
    // Chains of re-parses.
    if plan.reparse > 0 {
        let ds: Vec<DatumOf<A>> = kept.drain(..).map(|x| x.2).collect();
        let mut budget = 40usize;
        reparse(&ds, plan.reparse, &mut budget, delims, &mut parser.allocator, &mut log.reparses);
    }
    kept.clear();
    log.allocs = c.alloc.calls.get();
    log.granted = c.alloc.granted.get();
    log.refused = c.alloc.refused.get();
    log.exhausted = c.alloc.exhausted.get();
    log.mut_refused = c.mutc.refused.get();
    log.macro_reparses = std::mem::take(&mut *c.mac.reparses.borrow_mut());
    log.macro_errs = c.mac.errs.get();
    log.macro_calls = c.mac.count.get();
    log.src_panics = c.src.iter().map(|s| s.panics.get()).sum();
    let Parser { allocator, .. } = parser;
    log.unused = unused(allocator.inner);
    log
}

pub fn panic_text(p: &(dyn std::any::Any + Send)) -> String {
    if let Some(i) = p.downcast_ref::<Injected>() { format!("injected {}", i.0) }
    else if let Some(s) = p.downcast_ref::<&str>() { (*s).to_string() }
    else if let Some(s) = p.downcast_ref::<String>() { s.clone() }
    else { "unknown panic".to_string() }
}

pub fn collect_texts<'k, TT, DR>(d: &'k Datum<TT, i64, DR>, out: &mut Vec<&'k TT>)
    where DR: kul::DerefTryMut<Target = Datum<TT, i64, DR>>,
{
    let mut cur = d;
    loop {
        match cur {
            Datum::Text(t) => { out.push(t); break }
            Datum::Combination { operator: a, operands: b } | Datum::List { elem: a, next: b } => {
                collect_texts(a, out);
                cur = b;
            }
            _ => break,
        }
    }
}

/// Parse the texts of results again, and the texts of those results, and so on.
fn reparse<A>(from: &[DatumOf<A>], levels: usize, budget: &mut usize, delims: Delims,
              alloc: &mut SimAlloc<A>, log: &mut Vec<(Vec<Ch>, Vec<Item>)>)
    where A: DatumAllocator<ET = i64>,
          <A::TT as TextBase>::Pos: PosInfo,
          A::TT: for<'x> TextConcat<Borrowed<'x, SimAlloc<A>>>,
{
    let mut texts = Vec::new();
    for d in from { collect_texts(d, &mut texts); }
    let mut next: Vec<DatumOf<A>> = Vec::new();
    for t in texts {
        if *budget == 0 { break }
        *budget -= 1;
        ev("reparse", levels as u64);
        let chars = text_chars(t);
        let mut out: Vec<Item> = Vec::new();
        let mut p = Parser {
            classifier: SimCC::new(delims),
            allocator: Borrowed(&mut *alloc),
            bindings: EmptyOperatorBindings,
        };
        for r in p.parse(t.iter()) {
            match r {
                Ok(d) => { out.push(Ok(to_m(&d))); next.push(d); }
                Err(e) => out.push(Err(to_e(&widen::<A, ()>(e)))),
            }
        }
        log.push((chars, out));
    }
    if levels > 1 { reparse(&next, levels - 1, budget, delims, alloc, log) }
}

// ------------------------------------------------------------- the dispatch

macro_rules! strish {
    ($plan:expr, $c:expr, $R:ty, $conv:expr, $DR:ident, $alloc:expr) => {{
        type TT = TextVec<PosStrish<$R>>;
        let plan: &Plan<'_> = $plan;
        let c: &Ctls = $c;
        let docs: Vec<Vec<String>> = plan.sessions.iter()
            .map(|s| piece_strings(plan.case, s.doc)).collect();
        let texts: Vec<TT> = if plan.conf.src == 2 {
            docs.iter().map(|p| strish_text::<$R>(p)).collect()
        } else { Vec::new() };
        go(plan, c, $alloc, &|s| TT::from_str(s), &|d| Some($DR::new(d)),
           &mut |i| strish_src!(plan, c, docs, texts, i, $R, $conv),
           &|_| None)
    }};
}

macro_rules! strish_src {
    ($plan:expr, $c:expr, $docs:expr, $texts:expr, $i:expr, $R:ty, $conv:expr) => {{
        let ctl = Rc::clone(&$c.src[$i]);
        match $plan.conf.src {
            0 => {
                let v: Vec<$R> = $docs[$i].iter().map(|s| <$R as RefCntStrish>::from_str(s))
                                          .collect();
                DynSrc(Box::new(StrishIterSourceStream::new(Pieces { items: v.into_iter(), ctl })))
            }
            1 => {
                let v: Vec<char> = $docs[$i].iter().flat_map(|s| s.chars()).collect();
                DynSrc(Box::new(CharIterSourceStream::new(
                    Pieces { items: v.into_iter(), ctl }, $conv)))
            }
            _ => DynSrc(Box::new($texts[$i].iter())),
        }
    }};
}

fn strish_text<R: RefCntStrish>(pieces: &[String]) -> TextVec<PosStrish<R>> {
    let mut t = TextVec::empty();
    let mut n = 0;
    let mut first = true;
    for p in pieces {
        let chunk = PosStrish::new(R::from_str(p), CharPos(n));
        n += p.chars().count();
        // The storage-independent concatenation of the text type.
        t = if first { TextVec::from(chunk) } else {
            match TextConcat::<()>::concat(t, TextVec::from(chunk), &mut ()) {
                Ok(t) => t,
                Err(_) => TextVec::empty(),
            }
        };
        first = false;
    }
    t
}

pub fn posstr_pieces<'d>(case: &Case, doc: usize, s: &'d str) -> Vec<PosStr<'d>> {
    let d = case.doc(doc);
    let mut bytes = Vec::with_capacity(d.len() + 1);
    let mut b = 0;
    for c in d { bytes.push(b); b += c.len_utf8(); }
    bytes.push(b);
    case.pieces(doc).into_iter().map(|(x, y)| PosStr {
        val: &s[bytes[x]..bytes[y]],
        pos: StrPos { src: s, byte_pos: bytes[x], char_pos: x },
    }).collect()
}

pub fn posstr_text<'d>(pieces: &[PosStr<'d>]) -> TextVec<PosStr<'d>> {
    let mut t: Option<TextVec<PosStr<'d>>> = None;
    for p in pieces {
        let x = TextVec::from(*p);
        t = Some(match t {
            None => x,
            Some(t) => TextConcat::<()>::concat(t, x, &mut ()).unwrap_or_else(|_| TextVec::empty()),
        });
    }
    t.unwrap_or_else(TextVec::empty)
}

/// An application's own text type, which keeps every chunk, empty ones too.
#[derive(Clone, Debug)]
pub struct OwnText<'d>(Vec<PosStr<'d>>);

impl<'d> From<PosStr<'d>> for OwnText<'d> {
    fn from(c: PosStr<'d>) -> Self { OwnText(vec![c]) }
}

impl<'d> TextBase for OwnText<'d> {
    type Pos = StrPos<'d>;
    fn empty() -> Self { OwnText(Vec::new()) }
    fn is_empty(&self) -> bool { self.0.iter().all(TextBase::is_empty) }
}

impl<'d> Text for OwnText<'d> {
    type Chunk = PosStr<'d>;
    type IterChunksState = [PosStr<'d>];
    fn iter_chunks_state(&self) -> Option<&Self::IterChunksState> { Some(&self.0) }
}

impl<DA> TextConcat<DA> for OwnText<'_> {
    fn concat(mut self, mut other: Self, _: &mut DA) -> Result<Self, AllocError> {
        self.0.append(&mut other.0);
        Ok(self)
    }
}

impl PartialEq for OwnText<'_> {
    fn eq(&self, o: &Self) -> bool { Text::eq(self, o) }
}
impl Eq for OwnText<'_> {}
impl Hash for OwnText<'_> {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) { Text::hash(self, h) }
}

/// Execute the plan on its configuration.
pub fn drive(plan: &Plan<'_>) -> DriveLog {
    let c = ctls(plan);
    MUTCTL.with(|m| *m.borrow_mut() = Some(Rc::clone(&c.mutc)));
    let r = dispatch(plan, &c);
    MUTCTL.with(|m| *m.borrow_mut() = None);
    r
}

fn dispatch(plan: &Plan<'_>, c: &Ctls) -> DriveLog {
    let case = plan.case;
    let conf = plan.conf;
    let keep = (case.fault_at("keep"), case.fault_at("keep-weak"));
    type RS = Rc<String>; type RB = Rc<Box<str>>; type R = Rc<str>;
    type AS = Arc<String>; type AB = Arc<Box<str>>; type AR = Arc<str>;
    if conf.text == 6 {
        let strs: Vec<String> = plan.sessions.iter()
            .map(|s| case.doc(s.doc).iter().collect()).collect();
        let texts: Vec<TextVec<PosStr<'_>>> = plan.sessions.iter().zip(&strs)
            .map(|(s, t)| posstr_text(&posstr_pieces(case, s.doc, t))).collect();
        macro_rules! posstr {
            ($DR:ident, $alloc:expr) => {
                go(plan, c, $alloc, &|s| TextVec::<PosStr<'_>>::from_str(s),
                   &|d| Some($DR::new(d)),
                   &mut |i| DynSrc(Box::new(texts[i].iter())), &|_| None)
            };
        }
        return match conf.store {
            1 => posstr!(DatumRc, RcDatumAllocator::default()),
            2 => posstr!(DatumArc, ArcDatumAllocator::default()),
            3 => slice_posstr(plan, c, &texts),
            4 => posstr!(SimRefNew, SimBoxAlloc(std::marker::PhantomData)),
            5 => posstr!(DatumRc, KeepAlloc::new(RcDatumAllocator::default(),
                                                 Rc::clone(&c.mutc), keep.0, keep.1)),
            6 => posstr!(DatumArc, KeepAlloc::new(ArcDatumAllocator::default(),
                                                  Rc::clone(&c.mutc), keep.0, keep.1)),
            _ => posstr!(DatumBox, BoxDatumAllocator::default()),
        }
    }
    if conf.text == 7 {
        let strs: Vec<String> = plan.sessions.iter()
            .map(|s| case.doc(s.doc).iter().collect()).collect();
        let chunks: Vec<Vec<PosStr<'_>>> = plan.sessions.iter().zip(&strs)
            .map(|(s, t)| posstr_pieces(case, s.doc, t)).collect();
        return slice_dlist_posstr(plan, c, &chunks);
    }
    if conf.text == 8 {
        let chunks: Vec<Vec<PosStrish<R>>> = plan.sessions.iter().map(|s| {
            let mut n = 0;
            piece_strings(case, s.doc).iter().map(|p| {
                let x = PosStrish::new(<R as RefCntStrish>::from_str(p), CharPos(n));
                n += p.chars().count();
                x
            }).collect()
        }).collect();
        return slice_dlist_strish(plan, c, &chunks);
    }
    if conf.text == 9 {
        let strs: Vec<String> = plan.sessions.iter()
            .map(|s| case.doc(s.doc).iter().collect()).collect();
        let texts: Vec<OwnText<'_>> = plan.sessions.iter().zip(&strs)
            .map(|(s, t)| OwnText(posstr_pieces(case, s.doc, t))).collect();
        return go(plan, c, BoxDatumAllocator::default(), &|s| OwnText::from_str(s),
                  &|d| Some(DatumBox::new(d)),
                  &mut |i| DynSrc(Box::new(texts[i].iter())), &|_| None)
    }
    match (conf.store, conf.text) {
        (0, 0) => strish!(plan, c, RS, to_rc_string, DatumBox, BoxDatumAllocator::default()),
        (0, 1) => strish!(plan, c, RB, to_rc_box_str, DatumBox, BoxDatumAllocator::default()),
        (0, 2) => strish!(plan, c, R, to_rc_str, DatumBox, BoxDatumAllocator::default()),
        (0, 3) => strish!(plan, c, AS, to_arc_string, DatumBox, BoxDatumAllocator::default()),
        (0, 4) => strish!(plan, c, AB, to_arc_box_str, DatumBox, BoxDatumAllocator::default()),
        (0, _) => strish!(plan, c, AR, to_arc_str, DatumBox, BoxDatumAllocator::default()),
        (1, 0) => strish!(plan, c, RS, to_rc_string, DatumRc, RcDatumAllocator::default()),
        (1, _) => strish!(plan, c, R, to_rc_str, DatumRc, RcDatumAllocator::default()),
        (2, _) => strish!(plan, c, AR, to_arc_str, DatumArc, ArcDatumAllocator::default()),
        (4, _) => strish!(plan, c, RS, to_rc_string, SimRefNew,
                          SimBoxAlloc(std::marker::PhantomData)),
        (5, 0) => strish!(plan, c, RS, to_rc_string, DatumRc,
                          KeepAlloc::new(RcDatumAllocator::default(), Rc::clone(&c.mutc),
                                         keep.0, keep.1)),
        (5, _) => strish!(plan, c, R, to_rc_str, DatumRc,
                          KeepAlloc::new(RcDatumAllocator::default(), Rc::clone(&c.mutc),
                                         keep.0, keep.1)),
        (6, _) => strish!(plan, c, AR, to_arc_str, DatumArc,
                          KeepAlloc::new(ArcDatumAllocator::default(), Rc::clone(&c.mutc),
                                         keep.0, keep.1)),
        _ => slice_strish(plan, c),
    }
}

/// `SimBox::new` under a name like the library's reference types have.
pub struct SimRefNew;
impl SimRefNew {
    #[allow(clippy::new_ret_no_self)]
    pub fn new<TT, ET>(d: Datum<TT, ET, SimBox<TT, ET>>) -> SimBox<TT, ET> { SimBox::of(d) }
}

fn slice_posstr(plan: &Plan<'_>, c: &Ctls, texts: &[TextVec<PosStr<'_>>]) -> DriveLog {
    let mut store: Vec<_> = (0..plan.conf.cap).map(|_| Datum::EmptyNest).collect();
    let a = SliceDatumAllocator::new(&mut store[..]);
    go(plan, c, a, &|s| TextVec::<PosStr<'_>>::from_str(s), &|_| None,
       &mut |i| DynSrc(Box::new(texts[i].iter())),
       &|a| Some(a.unused().map_or(0, |s| s.len())))
}

fn slice_strish(plan: &Plan<'_>, c: &Ctls) -> DriveLog {
    type TT = TextVec<PosStrish<Rc<str>>>;
    let docs: Vec<Vec<String>> = plan.sessions.iter()
        .map(|s| piece_strings(plan.case, s.doc)).collect();
    let texts: Vec<TT> = docs.iter().map(|p| strish_text::<Rc<str>>(p)).collect();
    let mut store: Vec<_> = (0..plan.conf.cap).map(|_| Datum::EmptyNest).collect();
    let a = SliceDatumAllocator::new(&mut store[..]);
    go(plan, c, a, &|s| TT::from_str(s), &|_| None,
       &mut |i| strish_src!(plan, c, docs, texts, i, Rc<str>, to_rc_str),
       &|a| Some(a.unused().map_or(0, |s| s.len())))
}

/// The source texts of node-list type, built in a store of their own.
pub fn dlist_texts<'d, C>(chunks: &[Vec<C>], alloc: &mut SliceDatumAllocator<'d, TextDatumList<'d, C, i64>, i64>)
                      -> Vec<TextDatumList<'d, C, i64>>
    where C: kul::TextChunk + Clone,
{
    chunks.iter().map(|cs| {
        let mut t: Option<TextDatumList<'d, C, i64>> = None;
        for ch in cs {
            let x = TextDatumList::from(ch.clone());
            t = Some(match t {
                None => x,
                Some(t) => t.concat(x, alloc).unwrap_or_else(|_| TextDatumList::empty()),
            });
        }
        t.unwrap_or_else(TextDatumList::empty)
    }).collect()
}

fn slice_dlist_posstr(plan: &Plan<'_>, c: &Ctls, chunks: &[Vec<PosStr<'_>>]) -> DriveLog {
    let n: usize = chunks.iter().map(Vec::len).sum();
    let mut store0: Vec<_> = (0..n).map(|_| Datum::EmptyNest).collect();
    let mut store: Vec<_> = (0..plan.conf.cap).map(|_| Datum::EmptyNest).collect();
    let mut a0 = SliceDatumAllocator::new(&mut store0[..]);
    let texts = dlist_texts(chunks, &mut a0);
    let a = SliceDatumAllocator::new(&mut store[..]);
    go(plan, c, a, &|s| TextDatumList::from(PosStr::from(s)), &|_| None,
       &mut |i| DynSrc(Box::new(texts[i].iter())),
       &|a| Some(a.unused().map_or(0, |s| s.len())))
}

fn slice_dlist_strish(plan: &Plan<'_>, c: &Ctls, chunks: &[Vec<PosStrish<Rc<str>>>]) -> DriveLog {
    let docs: Vec<Vec<String>> = plan.sessions.iter()
        .map(|s| piece_strings(plan.case, s.doc)).collect();
    let n: usize = chunks.iter().map(Vec::len).sum();
    let mut store0: Vec<_> = (0..n).map(|_| Datum::EmptyNest).collect();
    let mut store: Vec<_> = (0..plan.conf.cap).map(|_| Datum::EmptyNest).collect();
    let mut a0 = SliceDatumAllocator::new(&mut store0[..]);
    let texts = dlist_texts(chunks, &mut a0);
    let a = SliceDatumAllocator::new(&mut store[..]);
    go(plan, c, a, &|s| TextDatumList::from(PosStrish::from(s)), &|_| None,
       &mut |i| strish_src!(plan, c, docs, texts, i, Rc<str>, to_rc_str),
       &|a| Some(a.unused().map_or(0, |s| s.len())))
}
