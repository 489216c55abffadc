//! C16: stack needed by long documents.

use crate::case::Case;
use crate::drive::{drive, Conf, DriveLog, Plan, Session};
use crate::engine::{fail, Cx, PropDef, Violation};
use crate::log::set_cap;
use crate::props::parse::sane;
use crate::rng::Rng;
use crate::stack;

type V = Result<(), Violation>;

const PAINT: usize = 2 << 20;
/// A long document may use this much more than a short one (frames of rare
/// paths, the library's and the standard library's).
const SLACK: usize = 24 << 10;
const SHORT: usize = 24;

pub const DIRS: [&str; 14] = [
    "top-level forms", "operands", "elements of a head form", "escapes in a text", "characters of a text",
    "whitespace", "unbalanced ends", "removed forms", "removed operands", "failing forms",
    "nests in an operative's text", "escapes in a head", "empty pieces", "missing end",
];

/// The repeated part and what is around it.  (No escaped starts: they would
/// be real nesting when the text is parsed again.)
pub fn build(dir: i64, unit: i64, n: usize) -> String {
    let u = |choices: &[&str]| choices[unit.unsigned_abs() as usize % choices.len()].repeat(n);
    match dir {
        0 => u(&["{f a}", "a{}", "{}", "{h {}}", "{{f} x}", "{p}"]),
        1 => format!("{{f {}}}", u(&["{}", "a{}", "{f x}", "{h}", "{ {} }", "{p}{}", "\\ {}"])),
        2 => format!("{{{{f {}}} x}}", u(&["{}", "a{}", "{g y}", "{{}}", "{p}{}"])),
        3 => match unit % 3 {
            0 => u(&["\\a", "\\\\", "b\\}"]),
            1 => format!("{{f {}}}", u(&["\\}", "\\a ", "b\\}"])),
            _ => format!("{{o {}}}", u(&["\\}", "\\a ", "b\\}"])),
        },
        4 => match unit % 3 { 0 => u(&["a", "é日"]), 1 => format!("{{f {}}}", u(&["a", "é "])),
                              _ => format!("{{o {}}}", u(&["ab", "é "])) },
        5 => match unit % 4 { 0 => u(&[" ", "\n\t"]), 1 => format!("{{{}f}}", u(&[" ", "\n"])),
                              2 => format!("{{f{}}}", u(&[" ", "\t "])), _ => format!("{{{}}}", u(&[" "])) },
        6 => u(&["}", "}a", "}}{}"]),
        7 => u(&["{r}", "{r x}{r}", "{r {}}", "{{} }{r}"]),
        8 => format!("{{f {}}}", u(&["{r}", "{r x}{r}", "{q}", "a{r}"])),
        9 => u(&["{e}", "{e x}a", "{f {e} x}", "{m}"]),
        10 => format!("{{o {}}}", u(&["{}", "{a}", "\\}{}", "{{}}"])),
        11 => format!("{{{} x}}", u(&["\\a", "\\f", "a\\b"])),
        12 => "{f a {g} b}".to_string(),
        _ => format!("{{f {}", u(&["{}", "a{}", "x", "\\}"])),
    }
}

pub fn gen16(r: &mut Rng, thorough: bool) -> Case {
    let mut c = Case::default();
    c.set("src", *r.pick(&[0, 0, 1, 2, 2]));
    c.set("store", *r.pick(&[0, 0, 1, 1, 2, 2, 3]));
    let text = if c.get("src") == 2 { r.below(9) as i64 } else { r.below(6) as i64 };
    c.set("text", if text >= 7 && c.get("store") != 3 { text % 6 } else { text });
    c.set("table", r.below(3) as i64);
    c.set("hseed", (r.next() >> 8) as i64);
    c.set("dir", r.below(DIRS.len()) as i64);
    c.set("unit", r.below(60) as i64);
    c.set("n", if thorough && r.chance(1, 20) { r.range(20_000, 60_000) } else { r.range(1_500, 4_000) } as i64);
    c.set("wrap", *r.pick(&[0, 0, 0, 1, 2, 5]));
    c.set("frag", *r.pick(&[0, 0, 1, 2, 3, 7, 100]));
    c.set("empties", if r.chance(1, 4) { r.range(1, 3) as i64 } else { 0 });
    c.set("reparse", r.below(3) as i64);
    for (k, kinds) in [("f", ["ap-list", "ap-comb", "op-text", "ap-extra"]),
                       ("o", ["op-text", "op-text", "op-comb", "op-reparse"]),
                       ("r", ["op-remove", "ap-remove", "op-remove", "ap-remove"]),
                       ("q", ["ap-remove", "op-remove", "ap-remove", "op-remove"]),
                       ("p", ["ap-operator", "op-operator", "op-nest", "op-extra"]),
                       ("e", ["op-err", "ap-err", "ap-missing", "op-allocerr"])] {
        // `f` and `q` are mostly without a macro.
        if (k == "f" || k == "q") && r.chance(2, 3) { continue }
        c.binds.push((format!("t:{k}"), (*r.pick(&kinds)).to_string()));
    }
    if r.chance(1, 3) { c.binds.push(("c:f".into(), "ap-list".into())); }
    if r.chance(1, 6) { c.binds.push(("n".into(), "ap-remove".into())); }
    match r.below(5) {
        0 => c.faults.push(("macro-err".into(), r.below(200) as u64)),
        1 => c.faults.push(("alloc".into(), r.below(3000) as u64)),
        2 => c.faults.push(("alloc-period".into(), (r.range(3, 90) as u64) << 8 | 1)),
        _ => {}
    }
    c
}

/// The case with its documents of the given length.
pub fn with_doc(case: &Case, n: usize) -> Case {
    let mut c = case.clone();
    let dir = case.get("dir").clamp(0, DIRS.len() as i64 - 1);
    let wrap = case.get("wrap").clamp(0, 6) as usize;
    let mut s = "{w ".repeat(wrap);
    s.push_str(&build(dir, case.get("unit"), n));
    if dir != 13 { s.push_str(&"}".repeat(wrap)); }
    let d: Vec<char> = s.chars().collect();
    let mut cuts = Vec::new();
    let f = case.get("frag").max(0) as usize;
    if f > 0 { cuts.extend((f..d.len()).step_by(f)); }
    if dir == 12 {
        cuts.extend(std::iter::repeat(case.get("unit").unsigned_abs() as usize % 12).take(n));
    }
    for k in 0..case.get("empties").clamp(0, 3) as usize {
        for _ in 0..n { cuts.push(d.len() * k / 2); }
    }
    cuts.sort_unstable();
    c.docs = vec![d];
    c.cuts = vec![cuts];
    c.set("cap", (40 * n + 4000) as i64);
    c
}

fn measure(case: &Case, n: usize) -> Result<(DriveLog, usize), Violation> {
    let c = with_doc(case, n);
    let conf = Conf::of(&c);
    set_cap(1_000_000 + 20_000 * n as u64);
    let mut plan = Plan::new(&c, conf);
    plan.sessions = vec![Session::full(0), Session::full(0)];
    plan.compare = true;
    plan.reparse = case.get("reparse").clamp(0, 2) as usize;
    let r = stack::deep(|| stack::in_paint(PAINT, || drive(&plan)));
    match r {
        (Ok(l), used) => { sane(&l)?; Ok((l, used)) }
        (Err(p), _) => std::panic::resume_unwind(p),
    }
}

fn run16(case: &Case, cx: &mut Cx) -> V {
    if Conf::of(case).store == 4 { return Ok(()) }
    let n = case.get("n").clamp(1, 200_000) as usize;
    let dir = DIRS[case.get("dir").clamp(0, DIRS.len() as i64 - 1) as usize];
    let (_, short) = measure(case, SHORT.min(n))?;
    let (l, long) = measure(case, n)?;
    cx.nontrivial = n > 4 * SHORT;
    cx.count(&format!("long in {dir}"), 1);
    cx.count(&format!("storage-{}", ["box", "rc", "arc", "slice", "", "", ""][Conf::of(case).store as usize]), 1);
    cx.count("results compared", l.compared);
    cx.count("results found equal", l.equal);
    cx.count("macro calls", l.macro_calls);
    cx.count("nodes", l.granted);
    cx.count("stack bytes, short documents", short as u64);
    cx.count("stack bytes, long documents", long as u64);
    cx.fault("allocation refused", l.refused + l.exhausted);
    cx.fault("macro fails", l.macro_errs);
    if long > short + SLACK {
        return fail("stack", format!(
            "a document long in {dir} (n = {n}) needs {} bytes of stack, a short one of the same nesting {short} \
             (components {})", if long >= PAINT { format!("more than {PAINT}") } else { long.to_string() },
            Conf::of(case).name()))
    }
    Ok(())
}

pub static C16: PropDef = PropDef {
    id: "C16", gen: gen16, run: run16, runs: (4_500, 100_000), level: "exploration",
    rule: "seeded documents of one nesting depth, long in one of 14 directions, delivered in seeded pieces, \
           with seeded components, macros, refused allocations and failing macros; each is parsed twice, \
           compared, re-parsed and dropped on a painted stack, short and long; non-trivial when the long one \
           is more than four times the short one",
    real: "kul_core parser, kul sources, text types, allocators, binding tables, reference types, equality, \
           hashing and Drop",
    stub: "deliverer of pieces, allocation faults, macros, painted stacks",
};
