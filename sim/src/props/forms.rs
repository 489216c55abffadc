//! C23: forms and errors made differently, compared.

use std::collections::HashMap;
use std::hash::{BuildHasher, Hash, Hasher};
use std::ops::Deref;
use std::rc::Rc;
use std::sync::Arc;

use kul::datum::{DatumArc, DatumBox, DatumMutRef, DatumRc};
use kul::parser::{AllocError, DatumAllocator, SliceDatumAllocator};
use kul::text::chunk::{CharPos, PosStr, PosStrish};
use kul::text::{TextDatumList, TextVec};
use kul::{Datum, DerefTryMut, Error, TextBase, TextConcat};

use super::compare::{Lib, D};
use crate::case::Case;
use crate::engine::{fail, Cx, PropDef, Violation};
use crate::gen;
use crate::log::{ev, set_cap};
use crate::rng::Rng;
use crate::world::SimState;

type V = Result<(), Violation>;

// ------------------------------------------------------------------- model

#[derive(Clone, PartialEq, Eq, Debug)]
enum N {
    Text(Vec<char>),
    Extra(i64),
    EmptyNest,
    EmptyList,
    Comb(usize, usize),
    List(usize, usize),
}

/// A node in front of what is below it.
#[derive(Clone, PartialEq, Eq, Debug)]
enum P { Text(Vec<char>), Extra(i64), EmptyNest, EmptyList, Comb, List }

/// The most nodes of a form, parts used several times counted as often.
fn largest(case: &Case) -> usize { case.ops.len().max(4000) }

/// The nodes of the script; what is below a node comes before it.
fn plan(case: &Case) -> Vec<N> {
    let d = case.doc(0);
    let mut v: Vec<N> = Vec::new();
    let mut size: Vec<usize> = Vec::new();
    let most = largest(case);
    for o in &case.ops {
        let i = v.len();
        let below = |x: i64| i - 1 - x.unsigned_abs() as usize % i;
        let mut n = match o[0] {
            0 => {
                let a = (o[1].unsigned_abs() as usize).min(d.len());
                N::Text(d[a..(a + o[2].unsigned_abs() as usize).min(d.len())].to_vec())
            }
            1 => N::Extra(o[1]),
            2 => N::EmptyNest,
            3 => N::EmptyList,
            4 if i > 0 => N::Comb(below(o[1]), below(o[2])),
            5 if i > 0 => N::List(below(o[1]), below(o[2])),
            _ => continue,
        };
        let mut s = 1;
        if let N::Comb(a, b) | N::List(a, b) = n { s += size[a] + size[b]; }
        if s > most { n = N::EmptyNest; s = 1; }
        v.push(n);
        size.push(s);
    }
    v
}

/// The plan with one node changed.
fn edited(case: &Case, v: &[N]) -> Vec<N> {
    let mut w = v.to_vec();
    if w.is_empty() { return w }
    let at = case.get("at").unsigned_abs() as usize % w.len();
    let k = case.get("which").unsigned_abs() as usize;
    w[at] = match (case.get("edit"), w[at].clone()) {
        (0, n) => n,
        (1, N::Text(mut t)) => {
            if t.is_empty() { t.push('a') } else { let i = k % t.len(); t[i] = if t[i] == 'a' { 'b' } else { 'a' } }
            N::Text(t)
        }
        (2, N::Text(mut t)) => { let _ = t.pop(); N::Text(t) }
        (3, N::Text(mut t)) => { t.insert(k % (t.len() + 1), *['a', ' ', 'é', '{', '\0'].get(k % 5).unwrap()); N::Text(t) }
        (_, N::Text(t)) => if t.is_empty() || k % 2 == 0 {
            [N::EmptyNest, N::EmptyList, N::Extra(0)][k % 3].clone()
        } else {
            N::Text(t.into_iter().rev().collect())
        },
        (e, N::Extra(x)) => if e % 2 == 0 { N::Extra(x ^ (1 << (k % 40))) } else {
            [N::EmptyNest, N::EmptyList, N::Text(vec![])][k % 3].clone()
        },
        (e, N::EmptyNest) => if e % 2 == 0 { N::EmptyList } else {
            [N::Extra(0), N::Text(vec![]), N::EmptyList][k % 3].clone()
        },
        (e, N::EmptyList) => if e % 2 == 0 { N::EmptyNest } else {
            [N::Extra(0), N::Text(vec![]), N::EmptyNest][k % 3].clone()
        },
        (e, N::Comb(a, b)) => match e % 4 {
            0 => N::List(a, b),
            1 => N::Comb(b, a),
            2 => v[if k % 2 == 0 { a } else { b }].clone(),
            _ => if k % 2 == 0 { N::Comb(a, a) } else { N::Comb(b, b) },
        },
        (e, N::List(a, b)) => match e % 4 {
            0 => N::Comb(a, b),
            1 => N::List(b, a),
            2 => v[if k % 2 == 0 { a } else { b }].clone(),
            _ => if k % 2 == 0 { N::List(a, a) } else { N::EmptyList },
        },
    };
    w
}

fn written(v: &[N], at: usize) -> Vec<P> {
    let mut out = Vec::new();
    let mut todo = vec![at];
    while let Some(i) = todo.pop() {
        out.push(match &v[i] {
            N::Text(t) => P::Text(t.clone()),
            N::Extra(x) => P::Extra(*x),
            N::EmptyNest => P::EmptyNest,
            N::EmptyList => P::EmptyList,
            N::Comb(a, b) => { todo.push(*b); todo.push(*a); P::Comb }
            N::List(a, b) => { todo.push(*b); todo.push(*a); P::List }
        });
        // An edit can make it larger than planned.
        if out.len() > 4 * v.len().max(4000) { break }
    }
    out
}

fn show(p: &[P]) -> String {
    let mut s = format!("{p:?}");
    if s.len() > 300 {
        let mut n = 300;
        while !s.is_char_boundary(n) { n -= 1; }
        s.truncate(n);
        s.push('…');
    }
    s
}

// ------------------------------------------------------- reference of a user

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
struct Mine<TT>(Box<D<TT, Mine<TT>>>);

impl<TT> Deref for Mine<TT> {
    type Target = D<TT, Mine<TT>>;
    fn deref(&self) -> &Self::Target { &self.0 }
}

impl<TT> DerefTryMut for Mine<TT> {
    fn get_mut(this: &mut Self) -> Option<&mut Self::Target> { Some(&mut this.0) }
}

// ------------------------------------------------------------------ building

/// Makes texts and nodes of one kind.
trait Make {
    type TT: Lib;
    type DR: DerefTryMut<Target = D<Self::TT, Self::DR>> + Hash + Eq;
    fn text(&mut self, parts: &[(String, usize)]) -> Self::TT;
    fn node(&mut self, d: D<Self::TT, Self::DR>) -> Self::DR;
    /// Another reference to the same node, where there is that.
    fn again(&self, _: &Self::DR) -> Option<Self::DR> { None }
    /// A copy of a form, where there is that.
    fn copy(&self, _: &D<Self::TT, Self::DR>) -> Option<D<Self::TT, Self::DR>> { None }
}

macro_rules! vec_maker {
    ($n:ident, $S:ty, $dr:ident, $share:expr) => {
        struct $n;
        impl Make for $n {
            type TT = TextVec<PosStrish<$S>>;
            type DR = $dr<Self::TT, i64>;
            fn text(&mut self, parts: &[(String, usize)]) -> Self::TT {
                let mut t = Self::TT::empty();
                for (s, at) in parts {
                    let c = TextVec::from(PosStrish::new(<$S>::from(s.as_str()), CharPos(*at)));
                    t = TextConcat::<()>::concat(t, c, &mut ()).unwrap_or_else(|_| TextVec::empty());
                }
                t
            }
            fn node(&mut self, d: D<Self::TT, Self::DR>) -> Self::DR { $dr::new(d) }
            fn again(&self, r: &Self::DR) -> Option<Self::DR> { if $share { Some(r.clone()) } else { None } }
            fn copy(&self, d: &D<Self::TT, Self::DR>) -> Option<D<Self::TT, Self::DR>> { Some(d.clone()) }
        }
    };
}
vec_maker!(Boxes, Rc<str>, DatumBox, false);
vec_maker!(Arcs, Arc<str>, DatumArc, true);

/// In-memory text in counted nodes.
struct Rcs;
impl Make for Rcs {
    type TT = TextVec<PosStr<'static>>;
    type DR = DatumRc<Self::TT, i64>;
    fn text(&mut self, parts: &[(String, usize)]) -> Self::TT { in_memory(parts) }
    fn node(&mut self, d: D<Self::TT, Self::DR>) -> Self::DR { DatumRc::new(d) }
    fn again(&self, r: &Self::DR) -> Option<Self::DR> { Some(r.clone()) }
    fn copy(&self, d: &D<Self::TT, Self::DR>) -> Option<D<Self::TT, Self::DR>> { Some(d.clone()) }
}

/// In-memory text in nodes of a user.
struct Mines;
impl Make for Mines {
    type TT = TextVec<PosStr<'static>>;
    type DR = Mine<Self::TT>;
    fn text(&mut self, parts: &[(String, usize)]) -> Self::TT { in_memory(parts) }
    fn node(&mut self, d: D<Self::TT, Self::DR>) -> Self::DR { Mine(Box::new(d)) }
    fn copy(&self, d: &D<Self::TT, Self::DR>) -> Option<D<Self::TT, Self::DR>> { Some(d.clone()) }
}

fn in_memory(parts: &[(String, usize)]) -> TextVec<PosStr<'static>> {
    let mut t = TextVec::empty();
    for (s, _) in parts {
        let c = TextVec::from(PosStr::from(crate::world::intern(s)));
        t = TextConcat::<()>::concat(t, c, &mut ()).unwrap_or_else(|_| TextVec::empty());
    }
    t
}

/// Everything in one array.
struct Slices<'a>(SliceDatumAllocator<'a, TextDatumList<'a, PosStr<'static>, i64>, i64>);
impl<'a> Make for Slices<'a> {
    type TT = TextDatumList<'a, PosStr<'static>, i64>;
    type DR = DatumMutRef<'a, Self::TT, i64>;
    fn text(&mut self, parts: &[(String, usize)]) -> Self::TT {
        let mut t = Self::TT::empty();
        for (s, _) in parts {
            let c = TextDatumList::from(PosStr::from(crate::world::intern(s)));
            t = t.concat(c, &mut self.0).unwrap_or_else(|_| panic!("array storage too small"));
        }
        t
    }
    fn node(&mut self, d: D<Self::TT, Self::DR>) -> Self::DR {
        self.0.new_datum(d).unwrap_or_else(|_| panic!("array storage too small"))
    }
}

/// The text in the pieces of delivery `side`; every third part or so of them
/// when it occurs for the n-th time.
fn parts(case: &Case, side: usize, n: usize, t: &[char]) -> Vec<(String, usize)> {
    let cuts = case.cuts.get(side).map_or(&[][..], |c| c);
    let mut v = Vec::new();
    let mut a = 0;
    for (i, &c) in cuts.iter().enumerate() {
        if (i + n) % 3 == 0 { continue }
        let c = c % (t.len() + 1);
        if c < a { continue }
        v.push((t[a..c].iter().collect(), a));
        a = c;
    }
    v.push((t[a..].iter().collect(), a));
    v
}

/// Make the form of node `at`.
fn build<M: Make>(case: &Case, side: usize, v: &[N], at: usize, m: &mut M, cx: &mut Cx)
                  -> D<M::TT, M::DR> {
    let share = case.get("share").unsigned_abs() >> side & 1 == 1;
    let mut made: HashMap<usize, M::DR> = HashMap::new();
    let mut texts = 0;
    fn go<M: Make>(case: &Case, side: usize, v: &[N], at: usize, m: &mut M, share: bool,
                   made: &mut HashMap<usize, M::DR>, texts: &mut usize, cx: &mut Cx) -> D<M::TT, M::DR> {
        let mut node = |i: usize, m: &mut M, made: &mut HashMap<usize, M::DR>, texts: &mut usize| {
            if share {
                if let Some(r) = made.get(&i).and_then(|r| m.again(r)) {
                    cx.count("references to a node already there", 1);
                    return r
                }
            }
            let d = go(case, side, v, i, m, share, made, texts, cx);
            let r = m.node(d);
            if share { if let Some(a) = m.again(&r) { let _ = made.insert(i, a); } }
            r
        };
        match &v[at] {
            N::Text(t) => {
                *texts += 1;
                Datum::Text(m.text(&parts(case, side, *texts, t)))
            }
            N::Extra(x) => Datum::Extra(*x),
            N::EmptyNest => Datum::EmptyNest,
            N::EmptyList => Datum::EmptyList,
            N::Comb(a, b) => Datum::Combination { operator: node(*a, m, made, texts),
                                                  operands: node(*b, m, made, texts) },
            N::List(a, b) => Datum::List { elem: node(*a, m, made, texts), next: node(*b, m, made, texts) },
        }
    }
    go(case, side, v, at, m, share, &mut made, &mut texts, cx)
}

/// The nodes whose forms are compared.
fn chosen(case: &Case, n: usize) -> Vec<usize> {
    let mut r = Rng::new(case.get("pick") as u64);
    let mut v = vec![n - 1];
    for _ in 0..3 { v.push(r.below(n)); }
    v
}

type Made<M> = Vec<(Vec<P>, D<<M as Make>::TT, <M as Make>::DR>)>;

fn side<M: Make>(case: &Case, side: usize, v: &[N], m: &mut M, cx: &mut Cx) -> Made<M> {
    let mut budget = 3 * largest(case);
    chosen(case, v.len()).into_iter().filter_map(|i| {
        let w = written(v, i);
        if w.len() > budget { return None }
        budget -= w.len();
        let d = build(case, side, v, i, m, cx);
        Some((w, d))
    }).collect()
}

// ------------------------------------------------------------------- judging

fn hash_of<T: Hash>(t: &T, seed: u64) -> u64 {
    let mut h = SimState { seed, bits: 64 }.build_hasher();
    t.hash(&mut h);
    h.finish()
}

fn wrong(what: &str, a: &[P], b: &[P]) -> V {
    fail("equality", format!("{what}: {} and {} compare the wrong way", show(a), show(b)))
}

/// Within one kind.
fn within<M: Make>(case: &Case, m: &mut M, cx: &mut Cx) -> V {
    let v = plan(case);
    let w = edited(case, &v);
    let left = side(case, 0, &v, m, cx);
    let right = side(case, 1, &w, m, cx);
    let all: Vec<_> = left.iter().chain(&right).collect();
    for (x, a) in &all {
        for (y, b) in &all {
            cx.count("pairs compared", 1);
            let same = x == y;
            ev("pair", u64::from(same) << 40 | (x.len() as u64) << 20 | y.len() as u64);
            if (a == b) != same || (a != b) == same { return wrong("forms of one kind", x, y) }
            if same {
                cx.count("pairs of equal forms", 1);
                for seed in 1..3 {
                    if hash_of(a, seed) != hash_of(b, seed) {
                        return fail("hash", format!("{} has different hashes", show(x)))
                    }
                }
            }
        }
        if let Some(c) = m.copy(a) {
            cx.count("copies", 1);
            if c != *a || *a != c || hash_of(&c, 3) != hash_of(a, 3) {
                return fail("copy", format!("a copy of {} is different", show(x)))
            }
        }
    }
    // The forms as keys of a table.
    let keys: Vec<Vec<P>> = left.iter().map(|x| x.0.clone()).collect();
    let mut t = HashMap::with_hasher(SimState { seed: case.get("hseed") as u64,
                                                bits: [0, 2, 64][case.get("hseed").unsigned_abs() as usize % 3] });
    for (i, (_, d)) in left.into_iter().enumerate() { let _ = t.insert(d, i); }
    for (y, b) in &right {
        let found = t.get(b).map(|&i| &keys[i]);
        cx.count("lookups", 1);
        if found != keys.iter().find(|k| *k == y) {
            return fail("lookup", format!("{} is found in a table as {:?}", show(y), found.map(|f| show(f))))
        }
    }
    Ok(())
}

fn across<A: Make, B: Make>(case: &Case, ma: &mut A, mb: &mut B, cx: &mut Cx) -> V {
    let v = plan(case);
    let w = edited(case, &v);
    let left = side(case, 0, &v, ma, cx);
    let right = side(case, 1, &w, mb, cx);
    for (x, a) in &left {
        for (y, b) in &right {
            cx.count("pairs compared across kinds", 1);
            let same = x == y;
            ev("cross", u64::from(same) << 40 | (x.len() as u64) << 20 | y.len() as u64);
            if same { cx.count("pairs of equal forms", 1); }
            if Lib::same_form(a, b) != same || Lib::same_form(b, a) != same {
                return wrong("forms of different kinds", x, y)
            }
        }
    }
    Ok(())
}

fn errors(case: &Case, cx: &mut Cx) -> V {
    let make = |o: &[i64; 4]| -> Error<CharPos, i64> {
        match o[1] {
            0 => Error::UnbalancedEndChar(CharPos(o[2].unsigned_abs() as usize)),
            1 => Error::MissingEndChar,
            2 => Error::FailedAlloc(AllocError::AllocExhausted),
            3 => Error::FailedDerefTryMut,
            _ => Error::FailedCombiner(o[2]),
        }
    };
    let what = |o: &[i64; 4]| match o[1] { 0 => (0, o[2]), 1 => (1, 0), 2 => (2, 0), 3 => (3, 0), _ => (4, o[2]) };
    let es: Vec<&[i64; 4]> = case.ops.iter().filter(|o| o[0] == 6).collect();
    for a in &es {
        for b in &es {
            cx.count("pairs of errors compared", 1);
            if (make(a) == make(b)) != (what(a) == what(b)) {
                return fail("errors", format!("{:?} and {:?} compare the wrong way", make(a), make(b)))
            }
        }
    }
    Ok(())
}

fn run23(case: &Case, cx: &mut Cx) -> V {
    set_cap(4_000_000);
    errors(case, cx)?;
    let v = plan(case);
    if v.is_empty() { return Ok(()) }
    cx.nontrivial = v.len() > 1;
    if case.get("edit") != 0 { cx.fault("one node different", 1); }
    let nodes = || {
        let n = 3 * largest(case) * (2 + case.cuts.iter().map(Vec::len).max().unwrap_or(0));
        let n = n.min(8 * largest(case) * 3);
        // Only as many as the forms of this case can need.
        let s: usize = chosen(case, v.len()).iter()
            .map(|&i| written(&v, i).len() + written(&edited(case, &v), i).len()).sum();
        let c = 2 + case.cuts.iter().map(Vec::len).max().unwrap_or(0);
        (0..n.min(s * c + 16)).map(|_| Datum::EmptyNest).collect::<Vec<_>>()
    };
    macro_rules! second {
        ($b:expr, $first:expr) => {{
            let (b, mut first) = ($b, $first);
            match b {
                0 => across(case, &mut first, &mut Boxes, cx),
                1 => across(case, &mut first, &mut Rcs, cx),
                2 => across(case, &mut first, &mut Arcs, cx),
                3 => { let mut s = nodes(); across(case, &mut first, &mut Slices(SliceDatumAllocator::new(&mut s[..])), cx) }
                _ => across(case, &mut first, &mut Mines, cx),
            }
        }};
    }
    let (a, b) = (case.get("kind"), case.get("kind2"));
    cx.count(&format!("made as {}", KINDS[a.clamp(0, 4) as usize]), 1);
    if case.get("cross") == 1 {
        match a {
            0 => second!(b, Boxes),
            1 => second!(b, Rcs),
            2 => second!(b, Arcs),
            3 => { let mut s = nodes(); second!(b, Slices(SliceDatumAllocator::new(&mut s[..]))) }
            _ => second!(b, Mines),
        }
    } else {
        match a {
            0 => within(case, &mut Boxes, cx),
            1 => within(case, &mut Rcs, cx),
            2 => within(case, &mut Arcs, cx),
            3 => { let mut s = nodes(); within(case, &mut Slices(SliceDatumAllocator::new(&mut s[..])), cx) }
            _ => within(case, &mut Mines, cx),
        }
    }
}

const KINDS: [&str; 5] = ["boxes", "counted nodes", "atomically counted nodes", "array nodes",
                          "nodes of a user's type"];

fn gen23(r: &mut Rng, _: bool) -> Case {
    let mut c = Case::default();
    c.set("kind", r.below(5) as i64);
    c.set("kind2", r.below(5) as i64);
    c.set("cross", r.below(2) as i64);
    c.set("share", r.below(4) as i64);
    c.set("hseed", r.below(1000) as i64);
    c.set("pick", r.below(1 << 20) as i64);
    c.set("edit", if r.chance(1, 4) { 0 } else { r.range(1, 8) as i64 });
    c.set("which", r.below(1000) as i64);
    let d = gen::Swarm::new(r, vec!["ab"]).doc(r, 20);
    for _ in 0..2 {
        let mut cuts = Vec::new();
        if r.chance(2, 3) { for _ in 0..r.range(1, 6) { cuts.push(r.below(9)); } cuts.sort_unstable(); }
        c.cuts.push(cuts);
    }
    c.docs.push(d);
    let leaf = |r: &mut Rng| match r.below(6) {
        0 | 1 | 2 => [0, r.below(24) as i64, if r.chance(1, 5) { 0 } else { r.below(8) as i64 }, 0],
        3 => [1, r.below(3) as i64, 0, 0],
        4 => [2, 0, 0, 0],
        _ => [3, 0, 0, 0],
    };
    let n = match r.below(40) { 0 => r.range(100, 700), 1..=8 => r.range(1, 5), _ => r.range(4, 40) };
    let far = *r.pick(&[1usize, 2, 4, 12]);
    let branches = r.range(1, 4);
    c.ops.push(leaf(r));
    match if r.chance(1, 150) { 4 } else { r.below(4) } {
        // A very long list; comparing and hashing go along it.
        4 => for _ in 0..r.range(900, 5_000) {
            c.ops.push(leaf(r));
            c.ops.push([5, 0, 1, 0]);
        },
        // A long chain along one side.
        0 => {
            let (k, left) = (r.range(4, 5) as i64, r.chance(1, 2));
            for _ in 0..n {
                if r.chance(1, 2) {
                    c.ops.push(leaf(r));
                    c.ops.push(if left { [k, 1, 0, 0] } else { [k, 0, 1, 0] });
                } else {
                    let o = r.range(1, 9) as i64;
                    c.ops.push(if left { [k, 0, o, 0] } else { [k, o, 0, 0] });
                }
            }
        }
        _ => for _ in 0..n {
            if r.below(4) < branches {
                c.ops.push([r.range(4, 5) as i64, r.below(far) as i64, r.below(far) as i64, 0]);
            } else {
                c.ops.push(leaf(r));
            }
        },
    }
    let m = c.ops.len();
    // Mostly something that the last form has in it.
    c.set("at", if r.chance(1, 3) { m as i64 - 1 - r.below(m.min(6)) as i64 } else { r.below(m) as i64 });
    if r.chance(1, 10) {
        for _ in 0..r.range(2, 6) { c.ops.push([6, r.below(5) as i64, r.below(3) as i64, 0]); }
    }
    c
}

pub static C23: PropDef = PropDef {
    id: "C23", gen: gen23, run: run23, runs: (450_000, 10_000_000), level: "exploration",
    rule: "seeded scripts that build forms of every variant, also of shapes only macros make, mostly of \
           up to some hundred nodes, now and then lists of up to 5,000 elements, twice, of the same or of two of five kinds of nodes and four of texts, with texts \
           divided differently and parts shared or not, and with no or one node different; non-trivial when \
           there is more than one node",
    real: "equality, hashing and cloning of forms and errors, text types, reference types, array allocator",
    stub: "application (macros) that builds the forms, a reference type of a user, hashers; written-out \
           nodes as oracle",
};
