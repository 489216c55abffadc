//! C13: stack and work needed to drop trees.

use std::cell::{Cell, RefCell};
use std::ops::Deref;
use std::rc::Rc;

use kul::datum::{DatumArc, DatumBox, DatumRc};
use kul::drop::{algo1, Algo1DatumRef, RcLike, RcLikeAtomicCounts};
use kul::{Datum, DerefTryMut};

use crate::case::Case;
use crate::engine::{fail, Cx, PropDef, Violation};
use crate::hooks;
use crate::log::{set_cap, tick, StepCap};
use crate::rng::Rng;
use crate::{sched, stack};

type V = Result<(), Violation>;
type D<R> = Datum<u32, u32, R>;

// ----------------------------------------------------- user reference types

#[derive(Default)]
struct Ctl {
    ops: Cell<u64>,
    /// Nodes looked at.
    looks: Cell<u64>,
    asked: Cell<u64>,
    refuse: RefCell<Vec<u64>>,
    refused: Cell<u64>,
}

thread_local! { static CTL: Ctl = Ctl::default(); }

fn op() {
    tick();
    let _ = CTL.try_with(|c| c.ops.set(c.ops.get() + 1));
}

fn look() { let _ = CTL.try_with(|c| c.looks.set(c.looks.get() + 1)); }

/// Does the script refuse this request for exclusive access?
fn refused() -> bool {
    CTL.try_with(|c| {
        let n = c.asked.get();
        c.asked.set(n + 1);
        let r = c.refuse.borrow().binary_search(&n).is_ok();
        if r { c.refused.set(c.refused.get() + 1); }
        r
    }).unwrap_or(false)
}

macro_rules! user_type {
    ($name:ident) => {
        pub struct $name(Rc<D<$name>>);
        impl Deref for $name {
            type Target = D<$name>;
            fn deref(&self) -> &Self::Target { look(); &self.0 }
        }
        impl DerefTryMut for $name {
            fn get_mut(this: &mut Self) -> Option<&mut Self::Target> { op(); Rc::get_mut(&mut this.0) }
        }
        impl RcLike for $name {
            type RC = Rc<D<$name>>;
            fn get_rc(this: &mut Self) -> &mut Self::RC { &mut this.0 }
            fn new_rc(val: D<$name>) -> Self::RC { op(); Rc::new(val) }
            fn try_unwrap(rc: Self::RC) -> Result<D<$name>, Self::RC> {
                op();
                // A stand-in just made by the algorithm is never refused.
                if Rc::strong_count(&rc) == 1 && is_branch(&rc) && refused() { return Err(rc) }
                Rc::try_unwrap(rc)
            }
        }
        impl Drop for $name {
            fn drop(&mut self) { op(); algo1(self); }
        }
    };
}

fn is_branch<R: DerefTryMut<Target = D<R>>>(d: &D<R>) -> bool {
    matches!(d, Datum::Combination { .. } | Datum::List { .. })
}

user_type!(UserBasic);
user_type!(UserCounts);

impl Algo1DatumRef for UserBasic {
    fn try_replace(this: &mut Self, val: D<Self>) -> Result<D<Self>, D<Self>> {
        RcLike::try_replace(this, val)
    }
    fn set(this: &mut Self, val: D<Self>) { RcLike::set(this, val) }
}

impl RcLikeAtomicCounts for UserCounts {
    fn counts(this: &Self) -> (usize, usize) {
        op();
        let s = Rc::strong_count(&this.0);
        (if s == 1 && is_branch(&this.0) && refused() { 2 } else { s }, Rc::weak_count(&this.0))
    }
}

impl Algo1DatumRef for UserCounts {
    fn try_replace(this: &mut Self, val: D<Self>) -> Result<D<Self>, D<Self>> {
        RcLikeAtomicCounts::try_replace_optim(this, val)
    }
    fn set(this: &mut Self, val: D<Self>) { RcLike::set(this, val) }
}

/// Exclusive ownership, like a box.
pub struct UserBox(Box<D<UserBox>>);
impl Deref for UserBox {
    type Target = D<UserBox>;
    fn deref(&self) -> &Self::Target { look(); &self.0 }
}
impl DerefTryMut for UserBox {
    fn get_mut(this: &mut Self) -> Option<&mut Self::Target> { op(); Some(&mut this.0) }
}
impl Algo1DatumRef for UserBox {
    fn try_replace(this: &mut Self, val: D<Self>) -> Result<D<Self>, D<Self>> {
        op();
        if is_branch(&this.0) && refused() { return Err(val) }
        Ok(std::mem::replace(&mut *this.0, val))
    }
    fn set(this: &mut Self, val: D<Self>) { op(); *this.0 = val; }
}
impl Drop for UserBox {
    fn drop(&mut self) { op(); algo1(self); }
}

trait Ref: DerefTryMut<Target = D<Self>> + Sized {
    type W;
    /// Are its operations counted?
    const COUNTED: bool;
    fn make(d: D<Self>) -> Self;
    fn dup(&self) -> Option<Self>;
    fn down(&self) -> Option<Self::W>;
}

macro_rules! is_ref {
    ($t:ty, $counted:expr, $w:ty, $make:expr, $dup:expr, $down:expr) => {
        impl Ref for $t {
            type W = $w;
            const COUNTED: bool = $counted;
            fn make(d: D<Self>) -> Self { $make(d) }
            fn dup(&self) -> Option<Self> { $dup(self) }
            fn down(&self) -> Option<Self::W> { $down(self) }
        }
    };
}

is_ref!(DatumBox<u32, u32>, false, (), |d| DatumBox::new(d), |_| None, |_| None);
is_ref!(UserBox, true, (), |d| UserBox(Box::new(d)), |_| None, |_| None);
is_ref!(DatumRc<u32, u32>, false, std::rc::Weak<D<DatumRc<u32, u32>>>, |d| DatumRc::new(d),
        |r: &Self| Some(DatumRc(Rc::clone(&r.0))), |r: &Self| Some(Rc::downgrade(&r.0)));
is_ref!(DatumArc<u32, u32>, cfg!(feature = "hooks"), hooks::Weak<D<DatumArc<u32, u32>>>,
        |d| DatumArc::new(d), |r: &Self| Some(DatumArc(hooks::Arc::clone(&r.0))),
        |r: &Self| Some(hooks::Arc::downgrade(&r.0)));
is_ref!(UserBasic, true, std::rc::Weak<D<UserBasic>>, |d| UserBasic(Rc::new(d)),
        |r: &Self| Some(UserBasic(Rc::clone(&r.0))), |r: &Self| Some(Rc::downgrade(&r.0)));
is_ref!(UserCounts, true, std::rc::Weak<D<UserCounts>>, |d| UserCounts(Rc::new(d)),
        |r: &Self| Some(UserCounts(Rc::clone(&r.0))), |r: &Self| Some(Rc::downgrade(&r.0)));

// ------------------------------------------------------------------ shapes

const SHAPES: [&str; 12] = [
    "list", "nest", "zigzag", "list of small trees", "nest of small trees", "balanced", "random tree",
    "vee", "list of one shared element", "ladder (both sides the same)", "overlapping (Fibonacci)",
    "list of shared earlier parts",
];

#[derive(Clone, Copy)]
enum N { Leaf(u32), Br(usize, usize, bool) }

const LEAVES: [&str; 6] = ["mixed leaves", "texts", "empty lists", "empty nests", "extras",
                           "empty lists and texts"];
const BRANCHES: [&str; 3] = ["mixed branches", "lists", "combinations"];

fn leaf_datum<R: Ref>(x: u32) -> D<R> {
    match x & 3 {
        0 => Datum::Text(x),
        1 => Datum::EmptyList,
        2 => Datum::EmptyNest,
        _ => Datum::Extra(x),
    }
}

/// Nodes, children before parents; the last is the root.
fn plan(shape: i64, n: usize, leaves: i64, branches: i64, r: &mut Rng) -> Vec<N> {
    let mut v: Vec<N> = Vec::with_capacity(n + 64);
    let mut cnt = 0u32;
    let mut kinds = r.clone();
    let mut leaf = |v: &mut Vec<N>| -> usize {
        cnt += 1;
        let k = match leaves {
            0 => *kinds.pick(&[0, 0, 1, 2, 3]),
            1 => 0,
            2 => 1,
            3 => 2,
            4 => 3,
            _ => kinds.below(2) as u32,
        };
        v.push(N::Leaf(cnt << 2 | k));
        v.len() - 1
    };
    let mut comb = r.clone();
    let mut br = |v: &mut Vec<N>, a: usize, b: usize| -> usize {
        let c = match branches { 0 => comb.chance(1, 3), 1 => false, _ => true };
        v.push(N::Br(a, b, c));
        v.len() - 1
    };
    match shape {
        5 | 6 => {
            let mut pool: std::collections::VecDeque<usize> = (0..n / 2 + 1).map(|_| leaf(&mut v)).collect();
            while pool.len() > 1 {
                if shape == 6 && r.chance(1, 2) {
                    let k = r.below(pool.len());
                    pool.swap(0, k);
                }
                let (a, b) = (pool.pop_front().unwrap_or(0), pool.pop_front().unwrap_or(0));
                let x = br(&mut v, a, b);
                if shape == 6 && r.chance(1, 2) { pool.push_front(x) } else { pool.push_back(x) }
            }
        }
        7 => {
            let half = |v: &mut Vec<N>, leaf: &mut dyn FnMut(&mut Vec<N>) -> usize,
                        br: &mut dyn FnMut(&mut Vec<N>, usize, usize) -> usize, left: bool| {
                let mut cur = leaf(v);
                for _ in 0..n / 4 {
                    let l = leaf(v);
                    cur = if left { br(v, cur, l) } else { br(v, l, cur) };
                }
                cur
            };
            let a = half(&mut v, &mut leaf, &mut br, true);
            let b = half(&mut v, &mut leaf, &mut br, false);
            let _ = br(&mut v, a, b);
        }
        8..=11 => {
            let l = leaf(&mut v);
            let l2 = leaf(&mut v);
            let shared = br(&mut v, l, l2);
            let mut prev = leaf(&mut v);
            let mut cur = br(&mut v, shared, prev);
            while v.len() < n {
                let next = match shape {
                    8 => br(&mut v, shared, cur),
                    9 => br(&mut v, cur, cur),
                    10 => br(&mut v, cur, prev),
                    _ => {
                        let back = r.below(v.len());
                        if r.chance(1, 2) { br(&mut v, back, cur) } else { br(&mut v, cur, back) }
                    }
                };
                prev = cur;
                cur = next;
            }
        }
        _ => {
            let mut cur = leaf(&mut v);
            let mut i = 0;
            while v.len() < n {
                let side = if shape >= 3 {
                    let (a, b) = (leaf(&mut v), leaf(&mut v));
                    let mut t = br(&mut v, a, b);
                    if r.chance(1, 3) { let c = leaf(&mut v); t = br(&mut v, t, c); }
                    if r.chance(1, 3) { let c = leaf(&mut v); t = br(&mut v, c, t); }
                    t
                } else { leaf(&mut v) };
                let left = match shape { 1 | 4 => true, 2 => i % 2 == 0, _ => false };
                cur = if left { br(&mut v, cur, side) } else { br(&mut v, side, cur) };
                i += 1;
            }
        }
    }
    v
}

/// Build; returns the root and the asked-for extra references.
fn build<R: Ref>(v: &[N], strong: &[usize], weak: &[usize]) -> (R, Vec<R>, Vec<R::W>) {
    let mut uses = vec![0u32; v.len()];
    for n in v { if let N::Br(a, b, _) = n { uses[*a] += 1; uses[*b] += 1; } }
    let mut slots: Vec<Option<R>> = Vec::with_capacity(v.len());
    let (mut hs, mut ws) = (Vec::new(), Vec::new());
    fn take<R: Ref>(slots: &mut [Option<R>], uses: &mut [u32], k: usize) -> R {
        uses[k] -= 1;
        let x = if uses[k] == 0 { slots[k].take() } else { slots[k].as_ref().and_then(Ref::dup) };
        match x { Some(x) => x, None => { eprintln!("harness error: shape"); std::process::exit(3) } }
    }
    for (i, n) in v.iter().enumerate() {
        let d = match *n {
            N::Leaf(x) => leaf_datum(x),
            N::Br(a, b, comb) => {
                let (x, y) = (take(&mut slots, &mut uses, a), take(&mut slots, &mut uses, b));
                if comb { Datum::Combination { operator: x, operands: y } }
                else { Datum::List { elem: x, next: y } }
            }
        };
        let r = R::make(d);
        if strong.binary_search(&i).is_ok() { hs.extend(r.dup()) }
        if weak.binary_search(&i).is_ok() { ws.extend(r.down()) }
        slots.push(Some(r));
    }
    let root = match slots.pop().flatten() {
        Some(r) => r,
        None => { eprintln!("harness error: empty shape"); std::process::exit(3) }
    };
    // Nodes nobody refers to.
    for s in slots { drop(s) }
    (root, hs, ws)
}

// --------------------------------------------------------------------- run

const PAINT: usize = 1 << 20;
/// What a drop may use whatever the tree; the unoptimised frames of one level
/// of the algorithm are around 2 KiB.
const BASE: usize = 24 << 10;
/// How much more a large tree may use than a small one.
const GROWTH: usize = 6 << 10;
const PER_EVENT: usize = 12 << 10;

fn counted(ops: [u64; 11]) -> u64 { ops.iter().sum::<u64>() }

fn ops_now() -> u64 { CTL.with(|c| c.ops.replace(0)) + counted(hooks::take_ops()) }

fn work_bound(nodes: usize, handles: usize, refused: u64) -> u64 {
    500 + 24 * (nodes as u64 + handles as u64 + refused)
}

fn single<R: Ref>(case: &Case, v: &[N], strong: &[usize], weak: &[usize], order: i64, refuse: &[u64])
                  -> Result<(usize, u64, u64), Violation> {
    CTL.with(|c| {
        c.asked.set(0);
        c.refused.set(0);
        c.refuse.borrow_mut().clear();
    });
    let (root, mut hs, ws) = build::<R>(v, strong, weak);
    let mut worst = 0usize;
    let mut total = 0u64;
    // A second reference to the root: letting go of it frees nothing.
    if let Some(second) = root.dup() {
        let _ = ops_now();
        let (r, used) = stack::in_paint(PAINT, move || drop(second));
        resume(r)?;
        let o = ops_now();
        if used > BASE {
            return fail("stack", format!("dropping one of two references to a {} of {} nodes used {used} \
                                          bytes of stack", name(case), v.len()))
        }
        if R::COUNTED && o > 100 {
            return fail("work", format!("dropping one of two references to a {} of {} nodes, which frees \
                                         nothing, took {o} operations", name(case), v.len()))
        }
    }
    CTL.with(|c| {
        c.asked.set(0);
        *c.refuse.borrow_mut() = refuse.to_vec();
    });
    let (mut all, mut later) = (Vec::new(), Vec::new());
    match order {
        0 => { all.push(root); hs.reverse(); all.append(&mut hs); }
        1 => { all.append(&mut hs); all.push(root); }
        2 => { later.append(&mut hs); all.push(root); all.append(&mut later); }
        _ => { hs.reverse(); all.append(&mut hs); all.push(root); }
    }
    let handles = all.len();
    let cap = work_bound(v.len(), handles, refuse.len() as u64 * 4);
    set_cap(cap + 10_000);
    let _ = ops_now();
    CTL.with(|c| c.looks.set(0));
    // One measurement for each drop, or for several when there are many.
    let size = handles.div_ceil(8);
    let mut all = all.into_iter();
    loop {
        let group: Vec<R> = all.by_ref().take(size).collect();
        if group.is_empty() { break }
        let before = CTL.with(|c| c.refused.get());
        let (r, used) = stack::in_paint(PAINT, move || for x in group { drop(x) });
        if let Err(p) = r {
            if p.is::<StepCap>() {
                return fail("work", format!(
                    "dropping a {} of {} nodes with {} other references took more than {cap} reference \
                     operations", name(case), v.len(), strong.len()))
            }
            std::panic::resume_unwind(p)
        }
        total += ops_now();
        let events = (CTL.with(|c| c.refused.get()) - before) as usize;
        worst = worst.max(used);
        if used > BASE + events * PER_EVENT {
            return fail("stack", format!(
                "dropping a {} of {} nodes ({}) with {} other references and {events} refusals used {} of \
                 stack", name(case), v.len(), tyname(case), strong.len(),
                if used >= PAINT { "more than 1 MiB".to_string() } else { format!("{used} bytes") }))
        }
    }
    drop(ws);
    let refused = CTL.with(|c| c.refused.get());
    if R::COUNTED && total > work_bound(v.len(), handles, refused) {
        return fail("work", format!("dropping a {} of {} nodes ({}) with {} other references took {total} \
                                     reference operations", name(case), v.len(), tyname(case), strong.len()))
    }
    let looks = CTL.with(|c| c.looks.get());
    if looks > 2_000 + 64 * (v.len() as u64 + handles as u64 + refused) {
        return fail("work", format!("dropping a {} of {} nodes ({}) with {} other references looked {looks} \
                                     times at nodes", name(case), v.len(), tyname(case), strong.len()))
    }
    Ok((worst, total, refused))
}

/// Drop a short list, one of whose values owns a tree of its own.
macro_rules! owner {
    ($case:expr, $v:expr, $strong:expr, $weak:expr, $t:ident) => {{
        let (inner, hs, ws) = build::<$t<u32, u32>>($v, $strong, $weak);
        let len = $case.get("owned").clamp(1, 16);
        let at = $case.get("ownpos").rem_euclid(len);
        let mut inner = Some(inner);
        let mut list = $t::<u32, $t<u32, u32>>::new(Datum::EmptyList);
        for k in 0..len {
            let value = match inner.take() {
                Some(tree) if k == at => Datum::Extra(tree),
                other => { inner = other; Datum::EmptyNest }
            };
            let elem = $t::new(value);
            list = $t::new(if k % 3 == 2 { Datum::Combination { operator: elem, operands: list } }
                           else { Datum::List { elem, next: list } });
        }
        set_cap(work_bound($v.len(), hs.len(), 0) * 4 + 40_000);
        let _ = ops_now();
        let (r, used) = stack::in_paint(PAINT, move || drop(list));
        resume(r)?;
        let (r, rest) = stack::in_paint(PAINT, move || { for h in hs { drop(h) } drop(ws) });
        resume(r)?;
        let total = ops_now();
        if used > 2 * BASE {
            return fail("stack", format!(
                "dropping a list of {len} elements, one of which owns a {} of {} nodes ({}), used {} of stack",
                name($case), $v.len(), tyname($case),
                if used >= PAINT { "more than 1 MiB".to_string() } else { format!("{used} bytes") }))
        }
        Ok((used.max(rest), total, 0))
    }};
}

fn owned(case: &Case, v: &[N], strong: &[usize], weak: &[usize], ty: i64)
         -> Result<(usize, u64, u64), Violation> {
    match ty {
        0 => owner!(case, v, &[], &[], DatumBox),
        1 => owner!(case, v, strong, weak, DatumRc),
        _ => owner!(case, v, strong, weak, DatumArc),
    }
}

fn resume<T>(r: std::thread::Result<T>) -> Result<T, Violation> {
    match r { Ok(x) => Ok(x), Err(p) => std::panic::resume_unwind(p) }
}

fn name(case: &Case) -> &'static str { SHAPES[case.get("shape").clamp(0, 11) as usize] }

const TYPES: [&str; 6] = ["box", "counted", "atomically counted", "user type",
                          "user type with counts", "user type like a box"];
fn tyname(case: &Case) -> &'static str { TYPES[case.get("ty").clamp(0, 5) as usize] }

fn gen(r: &mut Rng, _: bool) -> Case {
    let mut c = Case::default();
    let threads = if r.chance(1, 3) { r.range(2, 3) } else { 1 };
    let ty = if threads > 1 { 2 } else { r.below(6) as i64 };
    c.set("ty", ty);
    c.set("threads", threads as i64);
    let tree_only = ty == 0 || ty == 5 || threads > 1;
    c.set("shape", if tree_only { r.below(8) as i64 } else { r.below(12) as i64 });
    let n = if threads > 1 { r.range(300, 1500) }
            else if r.chance(1, 1000) { r.range(600_000, 1_000_000) }
            else if r.chance(1, 60) { r.range(60_000, 200_000) }
            else { r.range(4_000, 12_000) };
    c.set("n", n as i64);
    c.set("vseed", (r.next() >> 8) as i64);
    c.set("leaves", if r.chance(1, 3) { 0 } else { r.below(6) as i64 });
    c.set("branches", if r.chance(1, 3) { 0 } else { r.below(3) as i64 });
    if ty != 0 && ty != 5 {
        // Extra references: a few, or to every k-th node.
        match r.below(4) {
            0 => {}
            1 => c.set("every", r.range(1, 9) as i64),
            _ => for _ in 0..r.range(1, 6) { c.ops.push([0, r.below(n) as i64, r.below(3) as i64, 0]) },
        }
        match r.below(4) {
            0 => c.set("wevery", r.range(1, 9) as i64),
            1 => for _ in 0..r.range(1, 6) { c.ops.push([1, r.below(n) as i64, 0, 0]) },
            _ => {}
        }
        if threads > 1 { c.cfg.remove("every"); }
    }
    c.set("order", r.below(4) as i64);
    if ty < 3 && threads == 1 && r.chance(1, 8) {
        c.set("owned", r.range(1, 16) as i64);
        c.set("ownpos", r.below(16) as i64);
    }
    if ty >= 3 {
        for _ in 0..r.below(4) { c.faults.push(("refuse".into(), r.below(2 * n) as u64)); }
    }
    c.set("sseed", (r.next() >> 8) as i64);
    c.set("policy", r.below(5) as i64);
    c.set("plen", r.range(20, 4000) as i64);
    c
}

fn run(case: &Case, cx: &mut Cx) -> V {
    let mut r = Rng::new(case.get("vseed") as u64);
    let n = case.get("n").clamp(1, 1_000_000) as usize;
    let ty = case.get("ty").clamp(0, 5);
    let threads = case.get("threads").clamp(1, 3) as usize;
    let mut shape = case.get("shape").clamp(0, 11);
    if (ty == 0 || ty == 5 || threads > 1) && shape > 7 { shape %= 8; }
    let (leaves, branches) = (case.get("leaves").clamp(0, 5), case.get("branches").clamp(0, 2));
    let v = plan(shape, n, leaves, branches, &mut r);
    let pick = |kind: i64, every: &str| -> Vec<usize> {
        let mut s: Vec<usize> = case.ops.iter().filter(|o| o[0] == kind)
            .map(|o| o[1].unsigned_abs() as usize % v.len()).collect();
        let e = case.get(every);
        if e > 0 { s.extend((0..v.len()).step_by(e as usize)); }
        s.sort_unstable();
        s.dedup();
        s
    };
    let (strong, weak) = (pick(0, "every"), pick(1, "wevery"));
    let mut refuse = case.fault_at("refuse");
    refuse.sort_unstable();
    cx.count(&format!("type {}", tyname(case)), 1);
    cx.count(&format!("shape {}", SHAPES[shape as usize]), 1);
    cx.count(LEAVES[leaves as usize], 1);
    cx.count(BRANCHES[branches as usize], 1);
    cx.count("nodes", v.len() as u64);
    cx.count("other strong references", strong.len() as u64);
    cx.count("other weak references", weak.len() as u64);
    cx.nontrivial = v.len() > 200;
    crate::log::ev("shape", (shape as u64) << 32 | v.len() as u64);
    crate::log::ev("refs", (strong.len() as u64) << 32 | weak.len() as u64);
    if threads > 1 && ty == 2 { return concurrent(case, cx, &v, &strong, &weak, threads) }
    let order = case.get("order");
    let own = ty < 3 && case.get("owned") > 0;
    if own { cx.count("tree owned by a value of another tree", 1); }
    let res = stack::deep(|| std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        match ty {
            _ if own => owned(case, &v, &strong, &weak, ty),
            0 => single::<DatumBox<u32, u32>>(case, &v, &[], &[], order, &[]),
            1 => single::<DatumRc<u32, u32>>(case, &v, &strong, &weak, order, &[]),
            2 => single::<DatumArc<u32, u32>>(case, &v, &strong, &weak, order, &[]),
            3 => single::<UserBasic>(case, &v, &strong, &weak, order, &refuse),
            4 => single::<UserCounts>(case, &v, &strong, &weak, order, &refuse),
            _ => single::<UserBox>(case, &v, &[], &[], order, &refuse),
        }
    })));
    match res {
        Ok(Ok((worst, total, refused))) => {
            if n >= 50_000 && !own {
                // The same shape, much smaller.
                let small = plan(shape, n / 32, leaves, branches, &mut Rng::new(case.get("vseed") as u64));
                let used = |v: &[N]| stack::deep(|| match ty {
                    0 => single::<DatumBox<u32, u32>>(case, v, &[], &[], 1, &[]),
                    1 => single::<DatumRc<u32, u32>>(case, v, &[], &[], 1, &[]),
                    2 => single::<DatumArc<u32, u32>>(case, v, &[], &[], 1, &[]),
                    3 => single::<UserBasic>(case, v, &[], &[], 1, &[]),
                    4 => single::<UserCounts>(case, v, &[], &[], 1, &[]),
                    _ => single::<UserBox>(case, v, &[], &[], 1, &[]),
                });
                let (big, small) = (used(&v)?.0, used(&small)?.0);
                cx.count("compared with a much smaller tree", 1);
                if big > small + GROWTH {
                    return fail("stack", format!(
                        "dropping a {} of {} nodes ({}) used {big} bytes of stack, one of {} nodes only {small}",
                        name(case), v.len(), tyname(case), n / 32))
                }
            }
            crate::log::ev("ops", total);
            cx.count("reference operations", total);
            cx.count("stack bytes (sum of maxima)", worst as u64);
            cx.fault("exclusive access refused", refused);
            cx.fault("strong reference elsewhere", strong.len() as u64);
            cx.fault("weak reference elsewhere", weak.len() as u64);
            Ok(())
        }
        Ok(Err(v)) => Err(v),
        Err(p) => std::panic::resume_unwind(p),
    }
}

fn concurrent(case: &Case, cx: &mut Cx, v: &[N], strong: &[usize], weak: &[usize], threads: usize) -> V {
    type A = DatumArc<u32, u32>;
    let (root, hs, ws) = build::<A>(v, strong, weak);
    let second = if case.get("order") % 2 == 0 { root.dup() } else { None };
    let mut hands: Vec<Vec<A>> = (0..threads).map(|_| Vec::new()).collect();
    let handles = hs.len();
    for (k, h) in hs.into_iter().enumerate() {
        let to = case.ops.get(k).map_or(k, |o| o[2].unsigned_abs() as usize) % threads;
        hands[to].push(h);
    }
    hands[0].push(root);
    if let Some(s) = second { hands[1].push(s) }
    if case.get("order") >= 2 { for h in &mut hands { h.reverse() } }
    let events = handles + 2;
    let cap = work_bound(v.len(), handles + 2, 4 * events as u64) * 4;
    set_cap(cap + 40_000);
    let used: Vec<std::sync::Mutex<usize>> = (0..threads).map(|_| std::sync::Mutex::new(0)).collect();
    let ops = std::sync::Mutex::new(0u64);
    let mut bodies: Vec<Box<dyn FnOnce() + Send + '_>> = Vec::new();
    for (t, h) in hands.into_iter().enumerate() {
        let (used, ops) = (&used[t], &ops);
        bodies.push(Box::new(move || {
            let _ = hooks::take_ops();
            let (r, u) = stack::in_paint(PAINT, move || for x in h { drop(x) });
            *used.lock().unwrap_or_else(std::sync::PoisonError::into_inner) = u;
            *ops.lock().unwrap_or_else(std::sync::PoisonError::into_inner) += counted(hooks::take_ops());
            if let Err(p) = r { std::panic::resume_unwind(p) }
        }));
    }
    let (rep, results) = sched::run(sched::policy(case, threads), 64 << 20, bodies);
    drop(ws);
    cx.sched = rep.taken;
    cx.count("thread switches", rep.switches);
    cx.fault("preemption between reference-count operations", cx.sched.len() as u64);
    cx.fault("strong reference elsewhere", handles as u64);
    for r in results {
        if let Err(p) = r {
            if p.is::<StepCap>() {
                return fail("work", format!("concurrent drops of a {} of {} nodes do not end within {cap} \
                                             operations", name(case), v.len()))
            }
            std::panic::resume_unwind(p)
        }
    }
    let ops = ops.into_inner().unwrap_or(0);
    cx.count("reference operations", ops);
    for u in used {
        let u = u.into_inner().unwrap_or(0);
        if u > BASE + events * PER_EVENT {
            return fail("stack", format!("a thread dropping its part of a {} of {} nodes used {u} bytes of \
                                          stack, with {events} references elsewhere", name(case), v.len()))
        }
    }
    if cfg!(feature = "hooks") && ops > work_bound(v.len(), handles + 2, 4 * events as u64) {
        return fail("work", format!("concurrent drops of a {} of {} nodes took {ops} operations",
                                    name(case), v.len()))
    }
    Ok(())
}

pub static C13: PropDef = PropDef {
    id: "C13", gen, run, runs: (18_000, 400_000), level: "exploration",
    rule: "seeded shapes (trees and DAGs, 300 to 12,000 and now and then up to 1,000,000 nodes), reference types, \
           additional strong and weak references, order of drops, refusals of exclusive access, and for \
           the atomic type two or three threads under seeded schedules; now and then the tree is owned by a \
           value of another tree; non-trivial above 200 nodes",
    real: "kul Datum, DatumBox, DatumRc, DatumArc, algo1 and the RcLike traits' provided methods",
    stub: "thread scheduler, user-provided reference types with scripted refusals, painted stacks",
};
