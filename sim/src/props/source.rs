//! C14: operation sequences on the sources.

use crate::case::Case;
use crate::drive::{drive, Conf, Did, Plan};
use crate::engine::{fail, Cx, PropDef, Violation};
use crate::gen;
use crate::log::set_cap;
use crate::model::{chars_of, Ch};
use crate::props::parse::sane;
use crate::rng::Rng;

type V = Result<(), Violation>;

const OPS: [&str; 4] = ["look ahead", "skip", "accumulate", "finish"];

fn gen14(r: &mut Rng, _: bool) -> Case {
    let mut c = Case::default();
    gen::conf(r, &mut c, &[0, 0, 1, 2, 2], &[0, 1, 2, 3, 3]);
    // Only the node-list texts allocate.
    if r.chance(1, 2) {
        c.set("store", 3);
        c.set("text", if c.get("src") == 2 { r.range(7, 8) as i64 } else { 8 });
    }
    if c.get("src") == 2 && r.chance(1, 8) { c.set("text", 9); }
    c.set("delims", 0);
    let size = r.below(30);
    let sw = gen::Swarm::new(r, vec!["f", "é", "日本"]);
    let mut d = sw.doc(r, size);
    d.truncate(60);
    let long = r.chance(1, 400) && !d.is_empty();
    if long {
        let n = *r.pick(&[300, 1000, 3000, 5000, 9000, 20_000, 70_000]);
        d = d.iter().copied().cycle().take(n).collect();
    }
    let cuts = if d.len() > 3000 {
        (0..r.below(30)).map(|_| r.below(d.len() + 1)).collect()
    } else {
        gen::cuts(r, &d)
    };
    let n = d.len();
    gen::push_doc(r, &mut c, d, cuts);
    // Runs of operations, to beyond the end.
    let w: Vec<u32> = (0..4).map(|k| if k != 2 && r.chance(1, 5) { 0 } else { 1 + r.below(4) as u32 }).collect();
    let (mut moved, mut after) = (0, 0);
    let extra = r.below(8);
    if long {
        // Mostly long accumulations.
        for _ in 0..r.range(1, 8) {
            if r.chance(1, 3) { c.ops.push([r.weighted(&w) as i64, r.below(30) as i64, 0, 0]); }
            c.ops.push([2, r.below(2 * n) as i64, 0, 0]);
            if r.chance(1, 2) { c.ops.push([3, 0, 0, 0]); }
        }
        c.ops.push([3, 0, 0, 0]);
    }
    while !long && c.ops.len() < 400 {
        let k = r.weighted(&w);
        let times = if k == 2 && r.chance(1, 2) { r.range(2, 6) }
                    else if r.chance(1, 6) { 2 } else { 1 };
        for _ in 0..times {
            c.ops.push([k as i64, 0, 0, 0]);
            if k == 1 || k == 2 { moved += 1; }
            if moved > n { after += 1; }
        }
        if after > extra { break }
    }
    if r.chance(1, 2) { c.ops.push([3, 0, 0, 0]); }
    if r.chance(2, 3) {
        for _ in 0..r.range(1, 4) { c.faults.push(("alloc".into(), r.below(12) as u64)); }
        if r.chance(1, 6) { c.faults.push(("alloc-from".into(), r.below(12) as u64)); }
    }
    if r.chance(1, 3) { c.set("cap", r.below(12) as i64); }
    c
}

/// `t` = some of `maybe`, in order, followed by all of `sure`.
fn fits(t: &[Ch], maybe: &[Ch], sure: &[Ch]) -> bool {
    if t.len() < sure.len() { return false }
    let (head, tail) = t.split_at(t.len() - sure.len());
    let mut it = maybe.iter();
    tail == sure && head.iter().all(|c| it.any(|m| m == c))
}

fn run14(case: &Case, cx: &mut Cx) -> V {
    let conf = Conf::of(case);
    let mut plan = Plan::new(case, conf);
    let ops: Vec<i64> = case.ops.iter().flat_map(|o| {
        std::iter::repeat(o[0].clamp(0, 3)).take(o[1].clamp(1, 200_000) as usize)
    }).collect();
    set_cap(20_000 + 400 * (case.doc(0).len() as u64 + ops.len() as u64));
    plan.script = Some(ops.clone());
    let l = drive(&plan);
    sane(&l)?;
    let src = chars_of(case.doc(0), conf.bytes());
    cx.count(["source-pieces", "source-chars", "source-inmem"][conf.src as usize], 1);
    if conf.text == 9 { cx.count("application's own text type", 1); }
    cx.fault("allocation refused", l.refused + l.exhausted);
    let mut empties = 0;
    for (a, b) in case.pieces(0) { if a == b { empties += 1 } }
    cx.fault("empty piece", empties);
    cx.fault("fragment boundary", case.pieces(0).len() as u64 - 1);
    let did = &l.sessions[0].did;
    // Position, characters that are pending for sure, and after a refusal or
    // a skip at the end those that may be.
    let (mut i, mut sure, mut maybe): (usize, Vec<Ch>, Vec<Ch>) = (0, Vec::new(), Vec::new());
    for (k, (op, d)) in ops.iter().zip(did).enumerate() {
        let name = OPS[*op as usize];
        let at = i;
        let wrong = |what: String| fail(
            "source", format!("operation {k} ({name}) at character {at} of {}: {what}", src.len()));
        cx.count(name, 1);
        match (op, d) {
            (0..=2, Did::Char(got)) => {
                let want = src.get(i);
                if got.as_ref() != want { return wrong(format!("gave {got:?} instead of {want:?}")) }
                if want.is_none() { cx.fault("operation after the end", 1); }
                match (op, got) {
                    (1, Some(_)) => { i += 1; sure.clear(); maybe.clear(); }
                    (1, None) => { maybe.append(&mut sure); }
                    (2, Some(c)) => { i += 1; sure.push(*c); cx.nontrivial = true; }
                    _ => {}
                }
            }
            (2, Did::Refused) => { maybe.append(&mut sure); cx.count("refused accumulate", 1); }
            (3, Did::Refused) => { maybe.append(&mut sure); cx.count("refused finish", 1); }
            (3, Did::Text(t)) => {
                if !fits(t, &maybe, &sure) {
                    if t.len() + sure.len() > 60 {
                        return wrong(format!("gave {} characters where {} were accumulated{}", t.len(), sure.len(),
                                             if maybe.is_empty() { "" } else { " since a refusal" }))
                    }
                    return wrong(format!("gave {t:?} where {sure:?} was accumulated{}",
                                         if maybe.is_empty() { "" } else { " since a refusal" }))
                }
                cx.count("accumulated characters", t.len() as u64);
                sure.clear();
                maybe.clear();
            }
            _ => return wrong(format!("unexpected {d:?}")),
        }
        if *d == Did::Refused && l.refused + l.exhausted == 0 {
            return wrong("refused without a refused allocation".into())
        }
    }
    Ok(())
}

pub static C14: PropDef = PropDef {
    id: "C14", gen: gen14, run: run14, runs: (3_000_000, 60_000_000), level: "exploration",
    rule: "seeded sequences of look-ahead, skip, accumulate and finish operations running past the end, on \
           every source type over seeded fragmentations, also of a text type of the application's own, with refused allocations and exhausted storage; \
           non-trivial when something was accumulated",
    real: "kul StrishIterSourceStream, CharIterSourceStream, kul_core text iteration source, chunk and text \
           types, allocators",
    stub: "iterator of pieces, allocation faults; sequence model as oracle",
};
