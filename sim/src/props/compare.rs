//! C20: the same characters, received or joined differently.

use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::hash::{BuildHasher, Hash, Hasher};
use std::rc::Rc;
use std::sync::Arc;

use kul::datum::DatumBox;
use kul::parser::{ArcDatumAllocator, BoxDatumAllocator, DatumAllocator, EmptyOperatorBindings,
                  RcDatumAllocator, SliceDatumAllocator};
use kul::source_stream::{to_arc_str, to_rc_box_str, CharIterSourceStream, StrishIterSourceStream};
use kul::text::chunk::{PosStr, PosStrish, RefCntStrish};
use kul::text::{TextDatumList, TextVec};
use kul::{Datum, DerefTryMut, Parser, SourceStream, Text, TextChunk, TextConcat};

use crate::case::Case;
use crate::drive::{piece_strings, posstr_pieces, posstr_text};
use crate::engine::{fail, Cx, PropDef, Violation};
use crate::gen;
use crate::log::{ev, set_cap};
use crate::model::Delims;
use crate::rng::Rng;
use crate::world::{Pieces, SimCC, SimState, SrcCtl};

type V = Result<(), Violation>;
pub type D<TT, DR> = Datum<TT, i64, DR>;

/// The characters of a text, read one chunk at a time.
fn chars<T: Text>(t: &T) -> Vec<char> {
    t.iter_chunks().flat_map(|c| c.src_strm().map(|i| i.ch).collect::<Vec<_>>()).collect()
}

/// What the text is and how it is divided, for the trace.
fn note<T: Text>(code: &'static str, c: &[char], t: &T) {
    let mut h = DefaultHasher::new();
    c.hash(&mut h);
    for x in t.iter_chunks() { x.src_strm().count().hash(&mut h); }
    ev(code, h.finish());
}

fn str_of(v: &[char]) -> String { v.iter().collect() }

/// Structure of a form, with the characters of its texts.
#[derive(PartialEq, Eq, Clone, Debug)]
enum S {
    Leaf(u8, i64),
    Text(Vec<char>),
    Two(u8, Box<S>, Box<S>),
}

fn shape<TT: Text, DR: DerefTryMut<Target = D<TT, DR>>>(d: &D<TT, DR>) -> S {
    let mut firsts: Vec<(u8, S)> = Vec::new();
    let mut cur = d;
    let mut s = loop {
        match cur {
            Datum::Text(t) => break S::Text(chars(t)),
            Datum::EmptyNest => break S::Leaf(0, 0),
            Datum::EmptyList => break S::Leaf(1, 0),
            Datum::Extra(n) => break S::Leaf(2, *n),
            Datum::Combination { operator, operands } => {
                firsts.push((0, shape(operator)));
                cur = operands;
            }
            Datum::List { elem, next } => {
                firsts.push((1, shape(elem)));
                cur = next;
            }
        }
    };
    while let Some((k, f)) = firsts.pop() { s = S::Two(k, Box::new(f), Box::new(s)); }
    s
}

fn hashes<T: Hash>(t: &T, seed: u64) -> (u64, u64) {
    let mut a = DefaultHasher::new();
    t.hash(&mut a);
    let mut b = SimState { seed, bits: 64 }.build_hasher();
    t.hash(&mut b);
    (a.finish(), b.finish())
}

fn text_hash<T: Text>(t: &T) -> u64 {
    let mut a = DefaultHasher::new();
    Text::hash(t, &mut a);
    a.finish()
}

/// What a side of a comparison is made of.
struct Side<'f, TT, DR: DerefTryMut<Target = D<TT, DR>>> {
    /// Forms of the two deliveries.
    forms: &'f [Vec<D<TT, DR>>],
    /// Texts joined from parts, with what they must consist of.
    joined: &'f [(TT, Vec<char>)],
}

impl<'f, TT, DR: DerefTryMut<Target = D<TT, DR>>> Side<'f, TT, DR> {
    fn texts(&self) -> Vec<&'f TT> {
        let mut v = Vec::new();
        for d in self.forms.iter().flatten() { crate::drive::collect_texts(d, &mut v); }
        v.extend(self.joined.iter().map(|j| &j.0));
        v
    }
}

/// The library's text types, each of which compares with every other.
pub trait Lib: Text + Hash + Ord {
    fn same<O: Text>(&self, o: &O) -> bool;
    fn order<O: Text>(&self, o: &O) -> Option<Ordering>;
    fn same_form<O, R, R2>(a: &D<Self, R>, b: &D<O, R2>) -> bool
        where O: Text, R: DerefTryMut<Target = D<Self, R>>, R2: DerefTryMut<Target = D<O, R2>>;
}

macro_rules! lib {
    ($t:ty $(, $l:lifetime)?) => {
        impl<$($l,)? C: TextChunk> Lib for $t {
            fn same<O: Text>(&self, o: &O) -> bool { *self == *o }
            fn order<O: Text>(&self, o: &O) -> Option<Ordering> { self.partial_cmp(o) }
            fn same_form<O, R, R2>(a: &D<Self, R>, b: &D<O, R2>) -> bool
                where O: Text, R: DerefTryMut<Target = D<Self, R>>, R2: DerefTryMut<Target = D<O, R2>>,
            {
                *a == *b
            }
        }
    };
}
lib!(TextVec<C>);
lib!(TextDatumList<'d, C, i64>, 'd);

/// What to do with a side, whatever its types.
trait With {
    fn with<TT, DR>(self, s: &Side<'_, TT, DR>, cx: &mut Cx) -> V
        where TT: Lib, DR: DerefTryMut<Target = D<TT, DR>> + Hash;
}

/// Judge each text by itself.
fn alone<TT: Text>(case: &Case, t: &TT, cx: &mut Cx) -> V {
    let want = chars(t);
    let got: Vec<char> = t.iter().take(want.len() + 2).map(|i| i.ch).collect();
    let got2: Vec<char> = t.chars().take(want.len() + 2).collect();
    if got != want || got2 != want {
        return fail("read", format!("the chunks of a text hold {:?} but reading it gives {:?} and {:?}",
                                    str_of(&want), str_of(&got), str_of(&got2)))
    }
    note("text", &want, t);
    if t.is_empty() != want.is_empty() {
        return fail("read", format!("is {:?} empty: {}", str_of(&want), t.is_empty()))
    }
    let full = str_of(&want);
    for k in 0..4 {
        // Buffers, mostly too small.
        let n = match k {
            0 => full.len(),
            1 => full.len() + 1 + (case.get("buf") as usize) % 7,
            2 => full.len().saturating_sub(1 + case.get("buf") as usize % 4),
            _ => case.get("buf").unsigned_abs() as usize % (full.len() + 1),
        };
        let mut buf = vec![0xA5u8; n];
        let got = t.encode_utf8(&mut buf);
        if n >= full.len() {
            if got != Ok(full.as_str()) {
                return fail("encode", format!("{full:?} encoded into {n} bytes gives {got:?}"))
            }
        } else {
            cx.fault("buffer too small", 1);
            let mut e = 0;
            for c in full.chars() {
                if e + c.len_utf8() > n { break }
                e += c.len_utf8();
            }
            if got != Err(&full[..e]) {
                return fail("encode", format!("{full:?} encoded into only {n} bytes gives {got:?}"))
            }
        }
    }
    Ok(())
}

fn pair<A, B>(a: &A, b: &B, cx: &mut Cx) -> V
    where A: Lib, B: Lib,
{
    let (x, y) = (chars(a), chars(b));
    let order = x.cmp(&y);
    let same = order == Ordering::Equal;
    if same { note("left", &x, a); note("right", &y, b); }
    cx.count("pairs of texts compared", 1);
    if same && a.iter_chunks().count() != b.iter_chunks().count() {
        cx.count("pairs of equal texts in different chunks", 1);
    }
    let eqs = [Text::eq(a, b), Text::eq(b, a), a.same(b), b.same(a)];
    if eqs.iter().any(|&e| e != same) {
        return fail("equality", format!("{:?} and {:?} compare equal: {eqs:?}", str_of(&x), str_of(&y)))
    }
    let os = [Text::cmp(a, b), Text::cmp(b, a).reverse()];
    let ps = [a.order(b), b.order(a).map(Ordering::reverse)];
    if os.iter().any(|&o| o != order) || ps.iter().any(|&o| o != Some(order)) {
        return fail("order", format!("{:?} and {:?} are ordered {os:?} {ps:?}", str_of(&x), str_of(&y)))
    }
    Ok(())
}

/// All on one type.
struct Same<'c>(&'c Case);

impl With for Same<'_> {
    fn with<TT, DR>(self, s: &Side<'_, TT, DR>, cx: &mut Cx) -> V
        where TT: Lib, DR: DerefTryMut<Target = D<TT, DR>> + Hash,
    {
        let case = self.0;
        for (t, want) in s.joined {
            let got = chars(t);
            if got != *want {
                return fail("join", format!("joining the parts of {:?} gives {:?}", str_of(want),
                                            str_of(&got)))
            }
        }
        let texts = s.texts();
        for t in &texts { alone(case, *t, cx)?; }
        for (i, t) in texts.iter().enumerate() {
            for u in &texts[i..] {
                let (x, y) = (chars(*t), chars(*u));
                if Ord::cmp(*t, *u) != x.cmp(&y) || (*t == *u) != (x == y) {
                    return fail("order", format!("{:?} and {:?} are ordered {:?}, equal: {}", str_of(&x),
                                                 str_of(&y), Ord::cmp(*t, *u), *t == *u))
                }
                if x == y && (hashes(*t, 1) != hashes(*u, 1) || text_hash(*t) != text_hash(*u)) {
                    return fail("hash", format!("{:?} has different hashes, in {} and {} chunks",
                                                str_of(&x), t.iter_chunks().count(),
                                                u.iter_chunks().count()))
                }
                if x == y && t.iter_chunks().count() != u.iter_chunks().count() {
                    cx.count("hashes compared of texts in different chunks", 1);
                }
            }
        }
        let all: Vec<&D<TT, DR>> = s.forms.iter().flatten().collect();
        let shapes: Vec<S> = all.iter().map(|d| shape(*d)).collect();
        for i in 0..all.len() {
            for j in i..all.len() {
                let same = shapes[i] == shapes[j];
                if (*all[i] == *all[j]) != same || (*all[j] == *all[i]) != same {
                    return fail("equality", format!("forms {:?} and {:?} compare the wrong way",
                                                    shapes[i], shapes[j]))
                }
                if same && hashes(all[i], 3) != hashes(all[j], 3) {
                    return fail("hash", format!("the form {:?} has different hashes", shapes[i]))
                }
            }
        }
        cx.nontrivial = cx.counts.contains_key("hashes compared of texts in different chunks");
        Ok(())
    }
}

/// One side, then a second one of other types.
struct First<'c>(&'c Case);
struct Second<'a, 'f, TT, DR: DerefTryMut<Target = D<TT, DR>>>(&'a Side<'f, TT, DR>);

impl With for First<'_> {
    fn with<TT, DR>(self, s: &Side<'_, TT, DR>, cx: &mut Cx) -> V
        where TT: Lib, DR: DerefTryMut<Target = D<TT, DR>> + Hash,
    {
        produce(self.0, self.0.get("kind2"), &[1], 1, Second(s), cx)
    }
}

impl<TT, DR> With for Second<'_, '_, TT, DR>
    where TT: Lib, DR: DerefTryMut<Target = D<TT, DR>>,
{
    fn with<T2, R2>(self, s: &Side<'_, T2, R2>, cx: &mut Cx) -> V
        where T2: Lib, R2: DerefTryMut<Target = D<T2, R2>> + Hash,
    {
        let (ta, tb) = (self.0.texts(), s.texts());
        for a in &ta { for b in &tb { pair(*a, *b, cx)?; } }
        for a in self.0.forms.iter().flatten() {
            for b in s.forms.iter().flatten() {
                let (x, y) = (shape(a), shape(b));
                let (ab, ba) = (Lib::same_form(a, b), Lib::same_form(b, a));
                if ab != (x == y) || ba != (x == y) {
                    return fail("equality", format!("forms {x:?} and {y:?}, of different types, compare \
                                                     the wrong way"))
                }
            }
        }
        cx.nontrivial = cx.counts.contains_key("pairs of equal texts in different chunks");
        Ok(())
    }
}

// --------------------------------------------------------------- the sides

/// Parse with no macros; errors are left out.
fn parse<A, S>(case: &Case, src: S, alloc: A) -> (Vec<DatumOf<A>>, A)
    where A: DatumAllocator<ET = i64>, A::TT: TextConcat<A>,
          S: SourceStream<A> + Iterator<Item = kul::SourceIterItem<<A::TT as kul::TextBase>::Pos>>,
{
    let mut p = Parser {
        classifier: SimCC::new(Delims(case.get("delims") as u8)),
        allocator: alloc,
        bindings: EmptyOperatorBindings,
    };
    let v = p.parse(src).filter_map(Result::ok).collect();
    (v, p.allocator)
}

/// The parts to join: slices of the documents.
fn parts(case: &Case) -> Vec<Vec<char>> {
    case.ops.iter().filter(|o| o[0] == 0).map(|o| {
        let d = case.doc(o[1].unsigned_abs() as usize % 2);
        let a = (o[2].unsigned_abs() as usize).min(d.len());
        let b = (a + o[3].unsigned_abs() as usize).min(d.len());
        d[a..b].to_vec()
    }).collect()
}

/// Follow the script: make a part, or join two of those there are.
fn join<TT>(case: &Case, mut made: impl Iterator<Item = TT>, mut concat: impl FnMut(TT, TT) -> Option<TT>,
            cx: &mut Cx) -> Vec<(TT, Vec<char>)> {
    let mut want = parts(case).into_iter();
    let mut v: Vec<(TT, Vec<char>)> = Vec::new();
    for o in &case.ops {
        if o[0] == 0 {
            if let (Some(t), Some(w)) = (made.next(), want.next()) { v.push((t, w)); }
        } else if v.len() > 1 {
            let i = o[1].unsigned_abs() as usize % v.len();
            let (t, mut w) = v.remove(i);
            let j = o[2].unsigned_abs() as usize % v.len();
            let (u, x) = v.remove(j);
            ev("join", (w.len() as u64) << 32 | x.len() as u64);
            match concat(t, u) {
                Some(t) => {
                    w.extend(x);
                    cx.count("joins", 1);
                    v.push((t, w));
                }
                None => cx.fault("no node left for a join", 1),
            }
        }
    }
    v
}

fn pieces<R>(v: Vec<R>) -> Pieces<R> {
    Pieces { items: v.into_iter(), ctl: Rc::new(SrcCtl::default()) }
}

fn vec_join<C: TextChunk>(a: TextVec<C>, b: TextVec<C>) -> Option<TextVec<C>> {
    TextConcat::<()>::concat(a, b, &mut ()).ok()
}

/// Receive the documents `docs` by way of `kind`, with the joined texts.
fn produce<W: With>(case: &Case, kind: i64, docs: &[usize], side: u64, w: W, cx: &mut Cx) -> V {
    ev("side", side << 8 | kind.unsigned_abs());
    let part_strs: Vec<String> = parts(case).iter().map(|p| str_of(p)).collect();
    cx.count(&format!("received as {}", KINDS[kind.clamp(0, 5) as usize]), docs.len() as u64);
    macro_rules! strings {
        ($R:ty, $src:expr, $alloc:ident) => {{
            let forms: Vec<_> = docs.iter().map(|&d| {
                let p = piece_strings(case, d);
                parse(case, $src(p), $alloc::<TextVec<PosStrish<$R>>, i64>::default()).0
            }).collect();
            let made = part_strs.iter().map(|s| TextVec::<PosStrish<$R>>::from_str(s.as_str()));
            let joined = join(case, made, vec_join, cx);
            w.with(&Side { forms: &forms, joined: &joined }, cx)
        }};
    }
    let strs: Vec<String> = docs.iter().map(|&d| str_of(case.doc(d))).collect();
    let chunks: Vec<Vec<PosStr<'_>>> = docs.iter().zip(&strs).map(|(&d, s)| posstr_pieces(case, d, s))
        .collect();
    let n_chars: usize = docs.iter().map(|&d| case.doc(d).len()).sum();
    match kind {
        0 => strings!(Rc<str>, |p: Vec<String>| StrishIterSourceStream::new(pieces(
            p.iter().map(|s| <Rc<str> as RefCntStrish>::from_str(s)).collect())), BoxDatumAllocator),
        1 => strings!(Arc<String>, |p: Vec<String>| StrishIterSourceStream::new(pieces(
            p.into_iter().map(Arc::new).collect())), ArcDatumAllocator),
        2 => strings!(Rc<Box<str>>, |p: Vec<String>| CharIterSourceStream::new(pieces(
            p.iter().flat_map(|s| s.chars()).collect()), to_rc_box_str), RcDatumAllocator),
        3 => strings!(Arc<str>, |p: Vec<String>| CharIterSourceStream::new(pieces(
            p.iter().flat_map(|s| s.chars()).collect()), to_arc_str), BoxDatumAllocator),
        4 => {
            let texts: Vec<TextVec<PosStr<'_>>> = chunks.iter().map(|c| posstr_text(c)).collect();
            let forms: Vec<_> = texts.iter().map(|t| {
                parse(case, t.iter(), BoxDatumAllocator::<TextVec<PosStr<'_>>, i64>::default()).0
            }).collect();
            let joined = join(case, part_strs.iter().map(|s| TextVec::from(PosStr::from(s.as_str()))),
                              vec_join, cx);
            w.with::<_, DatumBox<_, _>>(&Side { forms: &forms, joined: &joined }, cx)
        }
        _ => {
            // Nodes for the documents, the parses and the joins; the last may
            // run out.
            let nodes = |n: usize| (0..n).map(|_| Datum::EmptyNest).collect::<Vec<_>>();
            let (mut s0, mut s1) = (nodes(chunks.iter().map(Vec::len).sum()), nodes(4 * n_chars + 40));
            let mut s2 = nodes(case.get("nodes").unsigned_abs() as usize);
            let mut a0 = SliceDatumAllocator::new(&mut s0[..]);
            let texts = crate::drive::dlist_texts(&chunks, &mut a0);
            let mut a1 = SliceDatumAllocator::new(&mut s1[..]);
            let mut forms = Vec::new();
            for t in &texts {
                let (f, a) = parse(case, t.iter(), a1);
                a1 = a;
                forms.push(f);
            }
            let mut a2 = SliceDatumAllocator::new(&mut s2[..]);
            let joined = join(case, part_strs.iter().map(|s| TextDatumList::from(PosStr::from(s.as_str()))),
                              |a: TextDatumList<'_, PosStr<'_>, i64>, b| a.concat(b, &mut a2).ok(), cx);
            w.with(&Side { forms: &forms, joined: &joined }, cx)
        }
    }
}

type DatumOf<A> = Datum<<A as DatumAllocator>::TT, <A as DatumAllocator>::ET, <A as DatumAllocator>::DR>;

const KINDS: [&str; 6] = ["counted strings", "atomically counted strings", "characters",
                          "characters (atomic)", "text in memory", "node list in memory"];

fn gen20(r: &mut Rng, _: bool) -> Case {
    let mut c = Case::default();
    c.set("kind", r.below(6) as i64);
    c.set("kind2", r.below(6) as i64);
    c.set("cross", i64::from(r.chance(1, 2)));
    c.set("buf", r.below(1000) as i64);
    c.set("nodes", if r.chance(1, 3) { r.below(6) as i64 } else { 64 });
    c.set("delims", if r.chance(1, 6) { r.range(1, 3) as i64 } else { 0 });
    let names = gen::names_for(r, &[]);
    let mut sw = gen::Swarm::new(r, names);
    if r.chance(2, 3) { sw.w_text = 12; sw.w_nest = 1; sw.w_empty = 0; }
    let size = match r.below(4) { 0 => r.below(6), 1 | 2 => r.range(4, 24), _ => r.range(20, 60) };
    let mut d = sw.doc(r, size);
    d.truncate(if r.chance(1, 40) { 1500 } else { 90 });
    let long = r.chance(1, 250);
    if long {
        // One long text.
        let n = r.range(100, 3_000);
        d = (0..n).map(|_| *r.pick(&['a', 'b', 'B', 'é', '日', '𐀀', 'c'])).collect();
    }
    let mut e = d.clone();
    if r.chance(1, if long { 2 } else { 8 }) && !e.is_empty() {
        // Very nearly the same.
        let i = e.len() - 1 - r.below(e.len()) * r.below(2);
        let x = e[i];
        let y = match r.below(4) {
            0 => char::from_u32(x as u32 ^ 1),
            1 => char::from_u32(x as u32 ^ 0x20),
            2 => char::from_u32(x as u32 ^ 0x100),
            _ => char::from_u32(x as u32 ^ 0x1_0000),
        };
        e[i] = y.unwrap_or('q');
    } else if r.chance(1, 2) && !e.is_empty() {
        // Nearly the same.
        let i = r.below(e.len());
        match r.below(4) {
            0 => { let _ = e.remove(i); }
            1 => e[i] = *r.pick(&['a', 'b', 'é', '日', '{', ' ']),
            2 => e.insert(i, *r.pick(&['a', '\\', '\u{0}'])),
            _ => e.truncate(i),
        }
    }
    for x in [d, e] {
        let cuts = gen::cuts(r, &x);
        gen::push_doc(r, &mut c, x, cuts);
    }
    if r.chance(1, 50) {
        // Very many parts.
        let n = *r.pick(&[12, 20, 40, 70, 140, 300]);
        for _ in 0..n { c.ops.push([0, r.below(2) as i64, r.below(20) as i64, r.below(9) as i64]); }
        for k in 0..n - r.range(1, 3) {
            let at = if r.chance(1, 2) { 2 * k + 2 } else { c.ops.len() };
            c.ops.insert(at.min(c.ops.len()), [1, r.below(8) as i64, r.below(8) as i64, 0]);
        }
        c.set("nodes", 2 * n as i64);
    } else if r.chance(2, 3) {
        for _ in 0..r.range(1, 8) {
            c.ops.push([0, r.below(2) as i64, r.below(20) as i64,
                        if r.chance(1, 4) { 0 } else { r.below(9) as i64 }]);
        }
        for _ in 0..r.below(8) {
            let at = r.below(c.ops.len() + 1);
            c.ops.insert(at, [1, r.below(8) as i64, r.below(8) as i64, 0]);
        }
    }
    c
}

fn run20(case: &Case, cx: &mut Cx) -> V {
    set_cap(2_000_000);
    if case.get("cross") == 1 {
        cx.count("comparisons across types", 1);
        produce(case, case.get("kind"), &[0], 0, First(case), cx)
    } else {
        cx.count("comparisons within a type", 1);
        produce(case, case.get("kind"), &[0, 1], 0, Same(case), cx)
    }
}

pub static C20: PropDef = PropDef {
    id: "C20", gen: gen20, run: run20, runs: (2_400_000, 24_000_000), level: "exploration",
    rule: "seeded documents received twice with different piece boundaries by the same or another of six \
           source and text types, texts joined from parts in seeded order, nearly equal documents, buffers \
           too small, nodes for joins running out; non-trivial when equal texts divided differently were \
           compared",
    real: "kul_core parser, text types, their comparisons, hashing and encoding, kul sources, allocators",
    stub: "deliverer of pieces, delimiter sets, hashers; characters read chunk by chunk as oracle",
};
