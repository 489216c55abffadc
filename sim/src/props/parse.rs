//! Properties of parses under simulated delivery, allocation and macros.

use crate::case::Case;
use crate::drive::{ample, binds_of, drive, Conf, DriveLog, Plan, Session, SessionLog};
use crate::engine::{fail, Cx, PropDef, Violation};
use crate::gen;
use crate::log::set_cap;
use crate::model::{chars_of, texts, Ch, Item, Model, Run, E, M};
use crate::rng::Rng;

type V = Result<(), Violation>;

const REAL: &str = "kul_core parser, kul sources, text types, allocators, binding tables, \
                    reference types and their Drop";
const STUB: &str = "deliverer of pieces, allocation and mutability faults, macros, delimiter \
                    sets, hashers; reference model as oracle";

// ------------------------------------------------------------------ helpers

/// Budget for a parse of n characters; far above what linear work needs.
fn budget(n: usize) -> u64 { 40_000 + 2_000 * n as u64 }

fn total_chars(case: &Case) -> usize { case.docs.iter().map(Vec::len).sum() }

pub fn model(case: &Case, conf: Conf, doc: usize) -> Run {
    let chars = chars_of(case.doc(doc), conf.bytes());
    let binds = binds_of(case, conf);
    Model::new(&chars, conf.delims(), &binds, &case.fault_at("macro-err")).run()
}

/// Without positions.
pub fn bare(m: &M) -> M {
    match m {
        M::Text(t) => M::Text(t.iter().map(|c| Ch { ch: c.ch, pos: 0, byte: None }).collect()),
        M::Comb(a, b) => M::Comb(Box::new(bare(a)), Box::new(bare(b))),
        M::List(v) => M::List(v.iter().map(bare).collect()),
        x => x.clone(),
    }
}

pub fn bare_item(i: &Item) -> Item {
    match i {
        Ok(m) => Ok(bare(m)),
        Err(E::Unbalanced(..)) => Err(E::Unbalanced(0, None)),
        Err(e) => Err(e.clone()),
    }
}

/// First index at which the bare items differ.
pub fn first_diff(a: &[Item], b: &[Item]) -> Option<usize> {
    let n = a.len().max(b.len());
    (0..n).find(|&i| match (a.get(i), b.get(i)) {
        (Some(x), Some(y)) => bare_item(x) != bare_item(y),
        _ => true,
    })
}

fn items(l: &SessionLog) -> Vec<Item> { l.items.iter().map(|i| i.res.clone()).collect() }
fn mitems(r: &Run) -> Vec<Item> { r.items.iter().map(|i| i.res.clone()).collect() }

fn show(i: Option<&Item>) -> String {
    i.map_or("nothing (end)".to_string(), |x| format!("{x:?}"))
}

fn diff_msg(what: &str, i: usize, want: &[Item], got: &[Item]) -> String {
    format!("{what}: item {i} should be {} but is {}", show(want.get(i)), show(got.get(i)))
}

/// No panic that the simulator did not inject, and results stay what they were.
pub fn sane(l: &DriveLog) -> V {
    for s in &l.sessions {
        if let Some(p) = &s.panic {
            if !s.injected {
                let at = crate::engine::take_panic().map_or(String::new(), |x| x.0);
                if at.starts_with("src/") {
                    eprintln!("harness error: panic in the simulator at {at}: {p}");
                    std::process::exit(3);
                }
                return fail("panic", format!("the parse panicked at {at}: {p}"))
            }
        }
    }
    Ok(())
}

fn count_conf(cx: &mut Cx, conf: Conf) {
    cx.count(&format!("source-{}", ["pieces", "chars", "inmem"][conf.src as usize]), 1);
    cx.count(&format!("storage-{}", ["box", "rc", "arc", "slice", "simbox", "keep-rc", "keep-arc"]
                                    [conf.store as usize]), 1);
}

fn count_frag(cx: &mut Cx, case: &Case) {
    let mut empties = 0;
    let mut splits = 0;
    for d in 0..case.docs.len() {
        for (a, b) in case.pieces(d) { if a == b { empties += 1 } else { splits += 1 } }
    }
    cx.fault("empty piece", empties);
    cx.fault("fragment boundary", u64::saturating_sub(splits, case.docs.len() as u64));
}

fn base_gen(r: &mut Rng, srcs: &[i64], stores: &[i64], kinds: &[u32; 17], max_binds: usize) -> Case {
    let mut c = Case::default();
    gen::conf(r, &mut c, srcs, stores);
    let w = gen::kind_weights(r, kinds);
    c.binds = gen::binds(r, max_binds, &w);
    let names = gen::names_for(r, &c.binds);
    let sw = gen::Swarm::new(r, names);
    let size = gen::size(r);
    gen::add_doc(r, &mut c, &sw, size);
    c
}

// ---------------------------------------------------------------------- C01

fn c01_gen(r: &mut Rng, _: bool) -> Case {
    base_gen(r, &[0, 0, 0, 1, 2], &[0, 0, 1, 2, 3], &gen::ALL_KINDS, 5)
}

fn c01_run(case: &Case, cx: &mut Cx) -> V {
    let conf = Conf::of(case);
    set_cap(budget(total_chars(case)));
    let l = drive(&Plan::new(case, conf));
    count_conf(cx, conf);
    count_frag(cx, case);
    sane(&l)?;
    let m = model(case, conf, 0);
    cx.nontrivial = m.items.len() > 0 && case.pieces(0).len() > 1;
    cx.count("items", m.items.len() as u64);
    let (want, got) = (mitems(&m), items(&l.sessions[0]));
    if let Some(i) = first_diff(&want, &got) {
        return fail("wrong-form", diff_msg("fragmented delivery", i, &want, &got))
    }
    Ok(())
}

pub static C01: PropDef = PropDef {
    id: "C01", gen: c01_gen, run: c01_run, runs: (2_400_000, 36_000_000), level: "exploration",
    rule: "seeded documents (grammar and character soup), bindings, component choice and piece \
           boundaries; a run is non-trivial when it yields items from more than one piece",
    real: REAL, stub: STUB,
};

// ---------------------------------------------------------------------- C02

fn c02_gen(r: &mut Rng, _: bool) -> Case {
    base_gen(r, &[0, 0, 1, 2, 2], &[0, 0, 1, 2, 3], &gen::ALL_KINDS, 4)
}

fn c02_run(case: &Case, cx: &mut Cx) -> V {
    let conf = Conf::of(case);
    set_cap(budget(total_chars(case)));
    let l = drive(&Plan::new(case, conf));
    count_conf(cx, conf);
    count_frag(cx, case);
    sane(&l)?;
    let m = model(case, conf, 0);
    let (want, got) = (mitems(&m), items(&l.sessions[0]));
    let src = chars_of(case.doc(0), conf.bytes());
    for (i, g) in got.iter().enumerate() {
        match g {
            Err(E::Unbalanced(p, b)) => {
                match src.get(*p as usize) {
                    Some(c) if conf.delims().end(c.ch) && *b == c.byte => {}
                    _ => return fail("error-position", format!(
                        "item {i}: unbalanced end reported at {p} (byte {b:?}), where there is none")),
                }
                cx.count("error positions checked", 1);
            }
            Ok(f) => {
                let mut ts = Vec::new();
                texts(f, &mut ts);
                for t in ts {
                    for c in t {
                        cx.nontrivial = true;
                        cx.count("character positions checked", 1);
                        match src.get(c.pos as usize) {
                            Some(s) if s == c => {}
                            s => return fail("position", format!(
                                "item {i}: character {:?} claims position {} (byte {:?}), where the \
                                 source has {:?}", c.ch, c.pos as i32, c.byte, s)),
                        }
                    }
                }
            }
            Err(_) => {}
        }
    }
    // Where the forms are the right ones, so must be every position in them.
    for i in 0..want.len().min(got.len()) {
        if bare_item(&want[i]) != bare_item(&got[i]) { break }
        if want[i] != got[i] {
            return fail("position", diff_msg("positions", i, &want, &got))
        }
    }
    Ok(())
}

pub static C02: PropDef = PropDef {
    id: "C02", gen: c02_gen, run: c02_run, runs: (3_000_000, 36_000_000), level: "exploration",
    rule: "as C01, including in-memory text with byte offsets; a run is non-trivial when at least \
           one character position was checked",
    real: REAL, stub: STUB,
};

// ---------------------------------------------------------------------- C03

fn c03_gen(r: &mut Rng, _: bool) -> Case {
    let mut c = base_gen(r, &[0, 0, 0, 1], &[0, 0, 1, 2, 3], &gen::ALL_KINDS, 4);
    let n = c.doc(0).len();
    if n <= 24 {
        for t in 0..n { c.ops.push([t as i64, 0, 0, 0]); }
    } else {
        for _ in 0..12 { c.ops.push([r.below(n) as i64, 0, 0, 0]); }
    }
    c
}

fn c03_run(case: &Case, cx: &mut Cx) -> V {
    let conf = Conf::of(case);
    let n = case.doc(0).len();
    set_cap(budget(n) * (case.ops.len() as u64 + 1));
    let whole = drive(&Plan::new(case, conf));
    sane(&whole)?;
    count_conf(cx, conf);
    let whole_items = items(&whole.sessions[0]);
    let whole_model = model(case, conf, 0);
    // Where the uncut parse is not the notation's, "complete before the cut"
    // is not defined.
    let sound = first_diff(&mitems(&whole_model), &whole_items).is_none();
    if !sound { cx.count("uncut parse differs from the notation", 1); return Ok(()) }
    for op in &case.ops {
        let t = (op[0].max(0) as usize).min(n);
        let mut c2 = case.clone();
        c2.docs[0].truncate(t);
        if let Some(c) = c2.cuts.get_mut(0) { c.retain(|&x| x <= t); }
        let mut plan = Plan::new(&c2, conf);
        plan.sessions[0].extra = 3;
        let l = drive(&plan);
        sane(&l)?;
        let got = items(&l.sessions[0]);
        cx.fault("stream cut off", 1);
        let m = model(&c2, conf, 0);
        let want = mitems(&m);
        // Forms complete before the cut.
        let complete = whole_model.items.iter().take_while(|i| i.need <= t).count();
        for i in 0..complete {
            if got.get(i).map(bare_item) != whole_items.get(i).map(bare_item) {
                return fail("complete-form-lost", format!(
                    "cut at {t}: {}", diff_msg("form complete before the cut", i, &whole_items, &got)))
            }
        }
        if complete > 0 { cx.nontrivial = true; }
        if let Some(i) = first_diff(&want, &got) {
            return fail("cut-result", format!("cut at {t}: {}",
                                              diff_msg("stream cut off", i, &want, &got)))
        }
        if !l.sessions[0].ended { return fail("not-ended", format!("cut at {t}: no end")) }
        if l.sessions[0].revived > 0 {
            return fail("revived", format!("cut at {t}: items after the end"))
        }
    }
    Ok(())
}

pub static C03: PropDef = PropDef {
    id: "C03", gen: c03_gen, run: c03_run, runs: (400_000, 6_000_000), level: "fault_enumeration",
    rule: "seeded documents and fragmentations; every cut point of documents up to 24 characters, \
           12 drawn ones of longer documents; non-trivial when a form was complete before a cut",
    real: REAL, stub: STUB,
};

// ---------------------------------------------------------------------- C04

fn c04_gen(r: &mut Rng, _: bool) -> Case {
    let mut c = base_gen(r, &[0, 0, 0, 1], &[0, 0, 1, 2, 3], &gen::ALL_KINDS, 5);
    // Finer fragmentations say more.
    if c.cuts[0].is_empty() && r.chance(3, 4) {
        c.cuts[0] = (1..c.docs[0].len().max(1)).collect();
    }
    c
}

fn c04_run(case: &Case, cx: &mut Cx) -> V {
    let conf = Conf::of(case);
    set_cap(budget(total_chars(case)));
    let l = drive(&Plan::new(case, conf));
    sane(&l)?;
    count_conf(cx, conf);
    count_frag(cx, case);
    if conf.src == 2 { return Ok(()) }
    let m = model(case, conf, 0);
    let n = case.doc(0).len();
    let pieces = case.pieces(0);
    for (i, (want, got)) in m.items.iter().zip(&l.sessions[0].items).enumerate() {
        if bare_item(&want.res) != bare_item(&got.res) { break }
        if want.need > n { break }
        let allowed = if conf.src == 1 { want.need } else {
            pieces.iter().position(|&(_, e)| e >= want.need).map_or(pieces.len(), |p| p + 1)
        } as u64;
        // Everything behind what was allowed could stall forever.
        if n as u64 > 0 && allowed < if conf.src == 1 { n } else { pieces.len() } as u64 {
            cx.nontrivial = true;
            cx.fault("stall after the needed piece", 1);
        }
        if got.pulls > allowed {
            return fail("reads-ahead", format!(
                "item {i} ({:?}) is decided after {} characters, i.e. {allowed} pieces, but {} had \
                 been requested when it was produced", want.res, want.need, got.pulls))
        }
        if got.asked_end {
            return fail("waits-for-end", format!(
                "item {i} ({:?}) is decided after {} of {n} characters, but the end of the stream \
                 was waited for", want.res, want.need))
        }
    }
    Ok(())
}

pub static C04: PropDef = PropDef {
    id: "C04", gen: c04_gen, run: c04_run, runs: (2_400_000, 36_000_000), level: "exploration",
    rule: "seeded documents and fragmentations, the source counting requests; non-trivial when \
           some item is decided while pieces are still outstanding (they may stall forever)",
    real: REAL, stub: STUB,
};

// ---------------------------------------------------------------- C05 / C06

/// After a refused allocation or mutation: texts are runs of source
/// characters (escape characters left out), none used twice.
fn relaxed(case: &Case, conf: Conf, items: &[Item], from: usize) -> V {
    let src = chars_of(case.doc(0), conf.bytes());
    let de = conf.delims();
    let mut next = 0u32;
    for (i, it) in items.iter().enumerate() {
        let Ok(f) = it else { continue };
        let mut ts = Vec::new();
        texts(f, &mut ts);
        for t in ts {
            let mut prev: Option<u32> = None;
            for c in t {
                if i >= from {
                    if src.get(c.pos as usize).map(|s| s.ch) != Some(c.ch) {
                        return fail("not-a-run", format!(
                            "item {i} after the failure: character {:?} at {} is not the source's",
                            c.ch, c.pos as i32))
                    }
                    if c.pos < next {
                        return fail("used-twice", format!(
                            "item {i} after the failure: the character at {} was used before", c.pos))
                    }
                    if let Some(p) = prev {
                        if (p + 1..c.pos).any(|q| !de.escape(src[q as usize].ch)) {
                            return fail("not-a-run", format!(
                                "item {i} after the failure: text jumps from {p} to {}", c.pos))
                        }
                    }
                }
                prev = Some(c.pos);
                if c.pos != u32::MAX - 7 { next = next.max(c.pos + 1); }
            }
        }
    }
    Ok(())
}

fn c05_gen(r: &mut Rng, _: bool) -> Case {
    let mut c = base_gen(r, &[0, 0, 1, 2], &[0, 1, 2, 3, 3, 3], &gen::ALL_KINDS, 4);
    // How many allocations there are is not known yet; most documents need
    // about one per few characters.
    let n = (c.doc(0).len() + 4) as usize;
    match r.below(6) {
        0 => c.faults.push(("alloc-from".into(), r.below(n) as u64)),
        1 => {
            let p = r.range(2, 9);
            c.faults.push(("alloc-period".into(), ((p << 8) | r.range(1, p - 1)) as u64));
        }
        2 => for _ in 0..r.range(2, 4) { c.faults.push(("alloc".into(), r.below(n) as u64)) },
        3 if c.get("store") == 3 || c.get("text") >= 7 => c.set("cap", r.below(n) as i64),
        _ => c.faults.push(("alloc".into(), r.below(n) as u64)),
    }
    c
}

fn c05_run(case: &Case, cx: &mut Cx) -> V {
    let conf = Conf::of(case);
    set_cap(budget(total_chars(case)) * 2);
    let mut free_case = case.clone();
    free_case.faults.clear();
    let free_conf = Conf { cap: ample(case), ..conf };
    let free = drive(&Plan::new(&free_case, free_conf));
    let l = drive(&Plan::new(case, conf));
    count_conf(cx, conf);
    sane(&l)?;
    cx.fault("allocation refused", l.refused);
    cx.fault("array storage exhausted", l.exhausted);
    after_refusal(case, conf, &free, &l, cx, false)?;
    if conf.store == 3 {
        if l.granted > conf.cap as u64 {
            return fail("over-capacity", format!("storage for {} nodes gave {}", conf.cap, l.granted))
        }
        if let Some(u) = l.unused {
            cx.count("array storage accounted", 1);
            if u as u64 + l.granted != conf.cap as u64 {
                return fail("lost-storage", format!(
                    "of {} nodes {} were given out and {u} are left", conf.cap, l.granted))
            }
        }
    }
    Ok(())
}

fn after_refusal(case: &Case, conf: Conf, free: &DriveLog, l: &DriveLog, cx: &mut Cx, muta: bool) -> V {
    let (s, f) = (&l.sessions[0], &free.sessions[0]);
    if f.panic.is_some() { return Ok(()) }
    let (want, got) = (items(f), items(s));
    let hit = |i: &crate::drive::ItemLog| if muta { i.mut_hit } else { i.alloc_hit };
    let any = |i: &crate::drive::ItemLog| i.mut_hit || i.alloc_hit;
    let first = s.items.iter().position(any);
    match first {
        None => {
            if s.tail_alloc_hit || s.tail_mut_hit {
                return fail("refusal-swallowed", "a refusal happened but the parse just ended")
            }
            if let Some(i) = first_diff(&want, &got) {
                return fail("changed-without-fault", diff_msg("no refusal struck", i, &want, &got))
            }
        }
        Some(k) => {
            cx.nontrivial = true;
            if k > 0 { cx.count("failures with forms before them", 1); }
            for i in 0..k {
                if want.get(i).map(bare_item) != got.get(i).map(bare_item) {
                    return fail("earlier-form-changed", diff_msg("form before the failure", i, &want, &got))
                }
            }
            for (i, it) in s.items.iter().enumerate() {
                if any(it) && matches!(it.res, Ok(_)) {
                    return fail("refusal-swallowed", format!(
                        "item {i}: a refusal happened while it was built, but it is {:?}", it.res))
                }
                if hit(it) {
                    let e = if muta { E::Deref } else { E::Alloc };
                    let other = if muta { it.alloc_hit } else { it.mut_hit };
                    if it.res != Err(e.clone()) && !other {
                        return fail("wrong-error", format!("item {i}: should be {e:?} but is {:?}", it.res))
                    }
                }
            }
            if s.tail_alloc_hit || s.tail_mut_hit {
                return fail("refusal-swallowed", "a refusal happened but the parse just ended")
            }
            cx.count("items after a failure", (got.len() - k - 1) as u64);
            relaxed(case, conf, &got, k)?;
        }
    }
    if !s.ended { return fail("not-ended", "the parse did not end") }
    if s.revived > 0 { return fail("revived", "items after the end") }
    if got.len() > case.doc(0).len() + 1 {
        return fail("too-many-items", format!("{} items from {} characters", got.len(), case.doc(0).len()))
    }
    Ok(())
}

pub static C05: PropDef = PropDef {
    id: "C05", gen: c05_gen, run: c05_run, runs: (1_600_000, 24_000_000), level: "exploration",
    rule: "seeded documents with a seeded plan of refused allocations (single, several, from some \
           point on, periodic, array storage of drawn capacity); non-trivial when a refusal struck",
    real: REAL, stub: STUB,
};

fn c06_gen(r: &mut Rng, _: bool) -> Case {
    let mut c = base_gen(r, &[0, 0, 1, 2], &[4, 4, 4, 5, 6], &gen::ALL_KINDS, 4);
    let n = (c.doc(0).len() / 2 + 3) as usize;
    if c.get("store") >= 5 {
        for _ in 0..r.range(1, 4) {
            let k = if r.chance(1, 2) { "keep" } else { "keep-weak" };
            c.faults.push((k.into(), r.below(n * 2) as u64));
        }
    } else {
        match r.below(5) {
            0 => c.faults.push(("mut-from".into(), r.below(n) as u64)),
            1 => for _ in 0..r.range(2, 4) { c.faults.push(("mut".into(), r.below(n) as u64)) },
            _ => c.faults.push(("mut".into(), r.below(n) as u64)),
        }
        if r.chance(1, 5) { c.faults.push(("alloc".into(), r.below(n * 2) as u64)); }
    }
    c
}

fn c06_run(case: &Case, cx: &mut Cx) -> V {
    let conf = Conf::of(case);
    set_cap(budget(total_chars(case)) * 2);
    let mut free_case = case.clone();
    free_case.faults.clear();
    let free = drive(&Plan::new(&free_case, conf));
    let l = drive(&Plan::new(case, conf));
    count_conf(cx, conf);
    sane(&l)?;
    cx.fault("allocation refused", l.refused);
    if conf.store == 4 {
        cx.fault("mutable access refused", l.mut_refused);
        return after_refusal(case, conf, &free, &l, cx, true)
    }
    // The application keeps references to nodes under construction: whether
    // the parser needs to mutate such a node is its own business, but the item
    // is either the right one or the error.
    cx.fault("node shared while built", l.mut_refused);
    let (want, got) = (items(&free.sessions[0]), items(&l.sessions[0]));
    if free.sessions[0].panic.is_some() { return Ok(()) }
    let k = l.sessions[0].items.iter().position(|i| i.mut_hit && i.res == Err(E::Deref));
    cx.nontrivial = k.is_some();
    let upto = k.unwrap_or(want.len().max(got.len()));
    for i in 0..upto {
        if want.get(i).map(bare_item) != got.get(i).map(bare_item) {
            return fail("shared-node-misparse", diff_msg("nodes shared while built", i, &want, &got))
        }
    }
    if let Some(k) = k { relaxed(case, conf, &got, k)?; }
    if !l.sessions[0].ended { return fail("not-ended", "the parse did not end") }
    if l.sessions[0].revived > 0 { return fail("revived", "items after the end") }
    Ok(())
}

pub static C06: PropDef = PropDef {
    id: "C06", gen: c06_gen, run: c06_run, runs: (2_400_000, 36_000_000), level: "exploration",
    rule: "seeded documents with a seeded plan of refused mutable accesses (user reference type) \
           or of nodes the application shares while they are built (counted types), partly combined \
           with refused allocations; non-trivial when a refusal struck",
    real: REAL, stub: "user-provided reference type, remembering allocator; otherwise as C01",
};

// ---------------------------------------------------------------------- C07

fn c07_gen(r: &mut Rng, _: bool) -> Case {
    let mut c = base_gen(r, &[0, 0, 1, 2], &[0, 0, 1, 2, 3], &gen::ALL_KINDS, 7);
    if r.chance(1, 3) {
        for _ in 0..r.range(1, 2) { c.faults.push(("macro-err".into(), r.below(8) as u64)); }
    }
    c
}

fn c07_run(case: &Case, cx: &mut Cx) -> V {
    let conf = Conf::of(case);
    set_cap(budget(total_chars(case)));
    let l = drive(&Plan::new(case, conf));
    sane(&l)?;
    count_conf(cx, conf);
    count_frag(cx, case);
    cx.fault("macro fails", l.macro_errs);
    let m = model(case, conf, 0);
    cx.nontrivial = !m.calls.is_empty();
    cx.count("macro calls", m.calls.len() as u64);
    let s = &l.sessions[0];
    for i in 0..m.calls.len().max(s.calls.len()) {
        let (w, g) = (m.calls.get(i), s.calls.get(i));
        let same = match (w, g) {
            (Some(w), Some(g)) => w.bind == g.bind && bare(&w.operator) == bare(&g.operator)
                && bare(&w.operands) == bare(&g.operands),
            _ => false,
        };
        if !same {
            return fail("macro-call", format!("macro call {i} should be {w:?} but is {g:?}"))
        }
    }
    let (want, got) = (mitems(&m), items(s));
    if let Some(i) = first_diff(&want, &got) {
        return fail("macro-result", diff_msg("macro results", i, &want, &got))
    }
    for (i, (w, g)) in m.items.iter().zip(&s.items).enumerate() {
        if w.calls != g.calls {
            return fail("macro-timing", format!(
                "when item {i} is produced {} macro calls should have been made, not {}", w.calls, g.calls))
        }
    }
    Ok(())
}

pub static C07: PropDef = PropDef {
    id: "C07", gen: c07_gen, run: c07_run, runs: (2_400_000, 36_000_000), level: "exploration",
    rule: "seeded documents with up to seven bound operators (names, empty nest, empty list, values, lists of one text \
           and forms made by macros), seeded macro failures; non-trivial when a macro is called",
    real: REAL, stub: STUB,
};

// ---------------------------------------------------------------------- C09

fn c09_gen(r: &mut Rng, _: bool) -> Case {
    let mut c = base_gen(r, &[0, 0, 1, 2], &[0, 0, 1, 2, 3], &gen::ALL_KINDS, 4);
    // More damage than elsewhere.
    let n = c.docs[0].len();
    let de = crate::model::Delims(c.get("delims") as u8);
    for _ in 0..r.below(4) {
        let x = de.translate(*r.pick(&['}', '}', '{']), false);
        c.docs[0].insert(r.below(n + 1), x);
    }
    if r.chance(1, 3) {
        for _ in 0..r.range(1, 3) { c.faults.push(("macro-err".into(), r.below(6) as u64)); }
    }
    c
}

fn c09_run(case: &Case, cx: &mut Cx) -> V {
    let conf = Conf::of(case);
    set_cap(budget(total_chars(case)));
    let l = drive(&Plan::new(case, conf));
    sane(&l)?;
    count_conf(cx, conf);
    count_frag(cx, case);
    cx.fault("macro fails", l.macro_errs);
    let m = model(case, conf, 0);
    let (want, got) = (mitems(&m), items(&l.sessions[0]));
    let n = case.doc(0).len();
    if got.len() > n + 1 {
        return fail("too-many-items", format!("{} items from {n} characters", got.len()))
    }
    if !l.sessions[0].ended { return fail("not-ended", "the iteration did not end") }
    let Some(e) = want.iter().position(Result::is_err) else { return Ok(()) };
    for i in 0..e {
        // Something else is wrong before any error.
        if want.get(i).map(bare_item) != got.get(i).map(bare_item) { return Ok(()) }
    }
    cx.fault("error to resume after", want.iter().filter(|x| x.is_err()).count() as u64);
    cx.nontrivial = want.len() > e + 1;
    for i in e..want.len().max(got.len()) {
        if want.get(i).map(bare_item) != got.get(i).map(bare_item) {
            return fail("resumption", diff_msg("resuming after an error", i, &want, &got))
        }
        if i > e && want.get(i) != got.get(i) {
            return fail("resumption-position", diff_msg("positions after an error", i, &want, &got))
        }
    }
    if l.sessions[0].revived > 0 { return fail("revived", "items after the end") }
    Ok(())
}

pub static C09: PropDef = PropDef {
    id: "C09", gen: c09_gen, run: c09_run, runs: (2_400_000, 36_000_000), level: "exploration",
    rule: "seeded damaged documents and failing macros, iteration continued to the end; non-trivial \
           when something follows an error",
    real: REAL, stub: STUB,
};

// ---------------------------------------------------------------------- C10

fn c10_gen(r: &mut Rng, _: bool) -> Case {
    let mut c = Case::default();
    gen::conf(r, &mut c, &[0, 0, 1, 2], &[0, 0, 1, 2, 3]);
    let w = gen::kind_weights(r, &gen::ALL_KINDS);
    c.binds = gen::binds(r, 5, &w);
    let names = gen::names_for(r, &c.binds);
    let docs = r.range(2, 4);
    for i in 0..docs {
        let sw = gen::Swarm::new(r, names.clone());
        let size = gen::size(r).min(80);
        gen::add_doc(r, &mut c, &sw, size);
        // op: take (or -1), bindings put aside
        let take = if r.chance(1, 2) { r.below(4) as i64 } else { -1 };
        let aside = if r.chance(1, 4) { (r.next() & r.next() & 0xffff_ffff) as i64 } else { 0 };
        c.ops.push([if i + 1 == docs { -1 } else { take }, aside, 0, 0]);
        if i + 1 < docs && r.chance(1, 3) {
            let pulls = if c.get("src") == 1 { c.docs[i].len() + 1 } else { c.cuts[i].len() + 2 };
            c.faults.push(("src-panic".into(), ((i as u64) << 32) | r.below(pulls) as u64));
        }
    }
    if r.chance(1, 3) { c.faults.push(("macro-panic".into(), r.below(6) as u64)); }
    if r.chance(1, 5) { c.faults.push(("alloc-panic".into(), r.below(20) as u64)); }
    c
}

fn c10_run(case: &Case, cx: &mut Cx) -> V {
    let conf = Conf::of(case);
    set_cap(budget(total_chars(case)) * 3);
    let mut plan = Plan::new(case, conf);
    plan.sessions = (0..case.docs.len()).map(|d| {
        let take = case.ops.get(d).map_or(-1, |o| o[0]);
        Session {
            take: if take < 0 { None } else { Some(take as usize) },
            mask: !(case.ops.get(d).map_or(0, |o| o[1]) as u64),
            ..Session::full(d)
        }
    }).collect();
    let changes = plan.sessions.windows(2).filter(|w| w[0].mask != w[1].mask).count();
    if !plan.binds.is_empty() { cx.count("bindings changed between parses", changes as u64); }
    let l = drive(&plan);
    sane(&l)?;
    count_conf(cx, conf);
    let mut disturbed = false;
    let mut calls = 0u64;
    let mut allocs = 0u64;
    for (d, s) in l.sessions.iter().enumerate() {
        // The same parse with a parser of its own.
        let mut c2 = case.clone();
        c2.faults.clear();
        for (k, n) in &case.faults {
            // Only faults that strike within this session, at the same place.
            match k.as_str() {
                "src-panic" if (n >> 32) as usize == d
                    => c2.faults.push((k.clone(), n & 0xffff_ffff)),
                "macro-panic" if *n >= calls => c2.faults.push((k.clone(), n - calls)),
                "alloc-panic" if *n >= allocs => c2.faults.push((k.clone(), n - allocs)),
                _ => {}
            }
        }
        c2.docs = vec![case.docs[d].clone()];
        c2.cuts = vec![case.cuts.get(d).cloned().unwrap_or_default()];
        let mut p2 = Plan::new(&c2, conf);
        p2.sessions = vec![Session { doc: 0, ..plan.sessions[d].clone() }];
        let f = drive(&p2);
        sane(&f)?;
        let fs = &f.sessions[0];
        if disturbed { cx.nontrivial = true; cx.count("parses after a disturbed one", 1); }
        if items(fs) != items(s) {
            let (want, got) = (items(fs), items(s));
            let i = (0..want.len().max(got.len())).find(|&i| want.get(i) != got.get(i)).unwrap_or(0);
            return fail("leftover", format!("parse {d} with the used parser: {}",
                diff_msg("compared with a new parser", i, &want, &got)))
        }
        if fs.calls != s.calls {
            return fail("leftover-calls", format!("parse {d} with the used parser makes other macro calls"))
        }
        if fs.ended != s.ended || fs.panic != s.panic || fs.pulls != s.pulls {
            return fail("leftover-end", format!(
                "parse {d}: ends differently with the used parser: {:?} / {:?}", s.panic, fs.panic))
        }
        if let Some(p) = &s.panic { cx.fault(p, 1); disturbed = true; }
        else if !s.ended { cx.fault("parse abandoned", 1); disturbed = true; }
        else if s.items.iter().any(|i| i.res.is_err()) { disturbed = true; }
        calls += f.macro_calls;
        allocs += f.allocs;
    }
    Ok(())
}

pub static C10: PropDef = PropDef {
    id: "C10", gen: c10_gen, run: c10_run, runs: (800_000, 12_000_000), level: "exploration",
    rule: "two to four parses on one parser, seeded abandonment points and injected panics of \
           source, macro and allocator, bindings now and then changed between parses; every parse compared with the same one on a new parser; \
           non-trivial when a parse follows a disturbed one",
    real: REAL, stub: STUB,
};

// ---------------------------------------------------------------------- C17

fn c17_gen(r: &mut Rng, _: bool) -> Case {
    let mut c = base_gen(r, &[0], &[0], &gen::ALL_KINDS, 5);
    // Forms as keys do not exist for array storage.
    c.binds.retain(|b| !b.0.starts_with("c:") && !b.0.starts_with("s:"));
    c.set("delims", 0);
    let de = c.docs[0].clone();
    // The document is kept in the default delimiters.
    if de.iter().any(|x| crate::model::Delims(1).start(*x) || crate::model::Delims(3).start(*x)) {
        let names = gen::names_for(r, &c.binds);
        let sw = gen::Swarm::new(r, names);
        let size = gen::size(r);
        c.docs.clear();
        c.cuts.clear();
        gen::add_doc(r, &mut c, &sw, size);
    }
    for _ in 0..8 {
        // src, text, store, table (+ 10 * delims)
        let t = r.below(9) as i64;
        let d = if r.chance(1, 4) { *r.pick(&[1i64, 3]) } else { 0 };
        c.ops.push([r.below(3) as i64, t, r.below(4) as i64, r.below(3) as i64 + 10 * d]);
    }
    c
}

fn c17_run(case: &Case, cx: &mut Cx) -> V {
    use crate::model::Delims;
    let n = total_chars(case);
    set_cap(budget(n) * (case.ops.len() as u64 + 1));
    let base_conf = Conf { src: 0, text: 0, store: 0, table: 2, delims: 0,
                           hseed: case.get("hseed") as u64, cap: ample(case) }.norm();
    let base = drive(&Plan::new(case, base_conf));
    sane(&base)?;
    let bs = &base.sessions[0];
    let want: Vec<Item> = items(bs);
    cx.nontrivial = !want.is_empty();
    for op in &case.ops {
        let d = (op[3] / 10).clamp(0, 3) as u8;
        let conf = Conf { src: op[0], text: op[1], store: op[2].min(3), table: op[3] % 10, delims: d,
                          hseed: (case.get("hseed") as u64).wrapping_add(op[1] as u64),
                          cap: ample(case) }.norm();
        let mut c2 = case.clone();
        if d > 0 {
            let de = Delims(d);
            let clash = |x: char| de.start(x) || de.end(x) || de.escape(x) || de.ws(x);
            // Characters that only the custom classifier treats specially.
            if case.doc(0).iter().any(|&x| clash(x) && !x.is_whitespace())
                || case.binds.iter().any(|b| b.0.chars().any(clash)) { continue }
            for x in &mut c2.docs[0] { *x = de.translate(*x, false); }
            cx.count("custom delimiters", 1);
        }
        cx.count(&format!("conf {}", conf.name()), 1);
        count_conf(cx, conf);
        let l = drive(&Plan::new(&c2, conf));
        sane(&l)?;
        let s = &l.sessions[0];
        let got = items(s);
        let tr = |i: &Item| -> Item {
            // Same characters up to the delimiters' translation.
            match i {
                Ok(m) => Ok(translate(m, d)),
                Err(E::Unbalanced(p, _)) => Err(E::Unbalanced(*p, None)),
                Err(e) => Err(e.clone()),
            }
        };
        let want2: Vec<Item> = want.iter().map(&tr).collect();
        let got2: Vec<Item> = got.iter().map(|i| match i {
            Ok(m) => Ok(crate::model::no_bytes(m)),
            Err(E::Unbalanced(p, _)) => Err(E::Unbalanced(*p, None)),
            Err(e) => Err(e.clone()),
        }).collect();
        if let Some(i) = first_diff(&want2, &got2) {
            return fail("components-differ", format!("{} against {}: {}", conf.name(), base_conf.name(),
                diff_msg("forms", i, &want2, &got2)))
        }
        let same_calls = s.calls.len() == bs.calls.len()
            && s.calls.iter().zip(&bs.calls).all(|(a, b)| a.bind == b.bind
                && bare(&a.operator) == bare(&translate(&b.operator, d))
                && bare(&a.operands) == bare(&translate(&b.operands, d)));
        if !same_calls {
            return fail("components-differ-calls", format!("{} against {}: macro calls differ",
                                                           conf.name(), base_conf.name()))
        }
    }
    Ok(())
}

fn translate(m: &M, d: u8) -> M {
    let de = crate::model::Delims(d);
    match m {
        M::Text(t) => M::Text(t.iter().map(|c| Ch { ch: de.translate(c.ch, false), byte: None, ..*c })
                              .collect()),
        M::Comb(a, b) => M::Comb(Box::new(translate(a, d)), Box::new(translate(b, d))),
        M::List(v) => M::List(v.iter().map(|x| translate(x, d)).collect()),
        x => x.clone(),
    }
}

pub static C17: PropDef = PropDef {
    id: "C17", gen: c17_gen, run: c17_run, runs: (360_000, 7_200_000), level: "exploration",
    rule: "a seeded document run on a base combination and on eight drawn combinations of source, \
           text, storage, binding table (with seeded and colliding hashers) and delimiters; \
           non-trivial when the document yields items",
    real: REAL, stub: STUB,
};

// ---------------------------------------------------------------------- C18

fn c18_gen(r: &mut Rng, _: bool) -> Case {
    // Mostly raw texts and re-parsing macros.
    let kinds: [u32; 17] = [8, 1, 1, 0, 4, 0, 0, 0, 8, 2, 1, 0, 0, 3, 0, 0, 0];
    let mut c = base_gen(r, &[0, 0, 1, 2], &[0, 0, 1, 2, 3], &kinds, 5);
    if !c.binds.iter().any(|b| b.1 == "op-reparse" || b.1 == "op-text") {
        c.binds.push(("t:f".into(), "op-text".into()));
        c.binds.dedup_by(|a, b| a.0 == b.0);
    }
    c.set("levels", r.range(1, 3) as i64);
    c.set("own", r.below(2) as i64);
    c
}

fn c18_run(case: &Case, cx: &mut Cx) -> V {
    let conf = Conf::of(case);
    set_cap(budget(total_chars(case)) * 40);
    let mut plan = Plan::new(case, conf);
    plan.reparse = case.get("levels").clamp(1, 4) as usize;
    plan.own = case.get("own") == 1;
    let l = drive(&plan);
    sane(&l)?;
    count_conf(cx, conf);
    count_frag(cx, case);
    let all = l.reparses.iter().map(|x| (x, false)).chain(l.macro_reparses.iter().map(|x| (x, true)));
    for (k, ((chars, out), in_macro)) in all.enumerate() {
        let m = Model::new(chars, conf.delims(), &[], &[]).run();
        let mut want = mitems(&m);
        if in_macro {
            // A macro stops at the first error.
            if let Some(e) = want.iter().position(Result::is_err) { want.truncate(e + 1); }
            cx.count("re-parses inside a macro", 1);
        } else {
            cx.count("re-parses of results", 1);
        }
        if out.iter().any(|i| i.as_ref().map_or(false, |m| !matches!(m, M::Text(_)))) {
            cx.nontrivial = true;
        }
        if want != *out {
            let i = (0..want.len().max(out.len())).find(|&i| want.get(i) != out.get(i)).unwrap_or(0);
            return fail("reparse", format!("re-parse {k}: {}", diff_msg("text parsed again", i, &want, out)))
        }
    }
    for (k, (chars, out, calls)) in l.own_reparses.iter().enumerate() {
        let m = Model::new(chars, conf.delims(), &plan.binds, &[]).run();
        let want = mitems(&m);
        cx.count("re-parses with the same macros", 1);
        cx.count("macro calls in those", calls.len() as u64);
        if want != *out {
            let i = (0..want.len().max(out.len())).find(|&i| want.get(i) != out.get(i)).unwrap_or(0);
            return fail("reparse", format!("re-parse {k} with the same macros: {}",
                                           diff_msg("text parsed again", i, &want, out)))
        }
        if m.calls != *calls {
            return fail("reparse-calls", format!("re-parse {k}: macro calls should be {:?} but are {calls:?}",
                                                 m.calls))
        }
    }
    if let Some(s) = l.sessions[0].changed.as_ref() {
        return fail("changed", s.clone())
    }
    Ok(())
}

pub static C18: PropDef = PropDef {
    id: "C18", gen: c18_gen, run: c18_run, runs: (2_500_000, 30_000_000), level: "exploration",
    rule: "seeded documents whose result texts and raw operands are parsed again up to three \
           levels deep, also from inside a running macro on the same storage and with the parser and \
           macros they came from; non-trivial when a re-parse gives something else than text",
    real: REAL, stub: STUB,
};
