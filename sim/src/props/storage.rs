//! How much storage parses take.

use crate::case::Case;
use crate::drive::{ample, binds_of, drive, Conf, DriveLog, Plan, Session};
use crate::engine::{fail, Cx, PropDef, Violation};
use crate::gen;
use crate::log::set_cap;
use crate::model::{chars_of, Item, Model, Run};
use crate::props::parse::{first_diff, sane};
use crate::rng::Rng;

type V = Result<(), Violation>;

/// The notation's reading of a document and the nodes it is made of.
fn model(case: &Case, conf: Conf, doc: usize) -> Run {
    let chars = chars_of(case.doc(doc), conf.bytes());
    let binds = binds_of(case, conf);
    let mut starts = vec![false; chars.len() + 1];
    // Characters delivered one by one are accumulated into one run.
    if conf.src != 1 {
        for (a, _) in case.pieces(doc) { starts[a] = true; }
    }
    let at = |p: u32| starts.get(p as usize).copied().unwrap_or(false);
    let mut m = Model::new(&chars, conf.delims(), &binds, &[]);
    if matches!(conf.text, 7 | 8) { m.breaks = Some(&at); }
    m.run()
}

fn gen(r: &mut Rng, _: bool) -> Case {
    let mut c = Case::default();
    gen::conf(r, &mut c, &[0, 0, 1, 2], &[0, 1, 2, 3, 3, 3]);
    // Texts that take storage themselves.
    if r.chance(1, 2) { c.set("text", if c.get("src") == 2 { r.range(7, 8) } else { 8 } as i64); }
    let w = gen::kind_weights(r, &gen::ALL_KINDS);
    c.binds = gen::binds(r, 4, &w);
    let names = gen::names_for(r, &c.binds);
    for _ in 0..*r.pick(&[1, 1, 1, 2, 3, 5]) {
        let sw = gen::Swarm::new(r, names.clone());
        let size = gen::size(r);
        gen::add_doc(r, &mut c, &sw, size);
    }
    c.set("spare", *r.pick(&[0, 0, 0, 0, 1, 7]));
    c
}

fn plan<'c>(case: &'c Case, conf: Conf) -> Plan<'c> {
    let mut p = Plan::new(case, conf);
    p.sessions = (0..case.docs.len()).map(Session::full).collect();
    p.drop_early = case.get("hseed") % 2 == 0;
    p
}

fn items(l: &DriveLog, i: usize) -> Vec<Item> {
    l.sessions[i].items.iter().map(|x| x.res.clone()).collect()
}

fn run(case: &Case, cx: &mut Cx) -> V {
    let conf = Conf::of(case);
    let chars: usize = case.docs.iter().map(Vec::len).sum();
    set_cap(2 * (60_000 + 2_000 * chars as u64));
    let models: Vec<Run> = (0..case.docs.len()).map(|d| model(case, conf, d)).collect();
    let nodes: usize = models.iter().map(|m| m.nodes).sum();
    cx.count(if matches!(conf.text, 7 | 8) { "texts in storage" } else { "texts elsewhere" }, 1);
    cx.count("parses", models.len() as u64);
    cx.count("nodes needed", nodes as u64);
    let free = drive(&plan(case, Conf { cap: ample(case), ..conf }));
    sane(&free)?;
    // What other forms would need is not known.
    for (i, m) in models.iter().enumerate() {
        let want: Vec<Item> = m.items.iter().map(|x| x.res.clone()).collect();
        if first_diff(&want, &items(&free, i)).is_some() {
            cx.count("parse differs from the notation", 1);
            return Ok(())
        }
    }
    let room = nodes + case.get("spare").max(0) as usize;
    let mut limited = case.clone();
    limited.faults.push(("alloc-from".into(), room as u64));
    let l = drive(&plan(&limited, Conf { cap: room, ..conf }));
    sane(&l)?;
    cx.fault("storage limited to what the forms are made of", 1);
    if l.granted == nodes as u64 && nodes > 0 {
        cx.nontrivial = true;
        cx.count("all of it taken", 1);
    }
    if l.refused > 0 || l.exhausted > 0 {
        return fail("exhausted", format!(
            "the forms are made of {nodes} nodes, but storage for {room} was not enough; {} are \
             taken when there is more", free.granted))
    }
    for i in 0..models.len() {
        if first_diff(&items(&free, i), &items(&l, i)).is_some() {
            return fail("changed", format!("parse {i} gives other forms when storage is limited"))
        }
    }
    if conf.store == 3 {
        if let Some(u) = l.unused {
            cx.count("rest of array storage counted", 1);
            if u as u64 + l.granted != room as u64 {
                return fail("rest", format!(
                    "of {room} nodes {} were taken, but {u} are handed back", l.granted))
            }
        }
    }
    Ok(())
}

pub static C24: PropDef = PropDef {
    id: "C24", gen, run, runs: (900_000, 18_000_000), level: "exploration",
    rule: "seeded documents, macros, fragmentations and components; one to five parses with one \
           parser whose storage is limited to the nodes that the forms read are made of, or a few \
           more; non-trivial when all of them are taken",
    real: "kul_core parser, kul sources, text types, allocators, binding tables, reference types",
    stub: "deliverer of pieces, limit of storage, macros, delimiter sets, hashers; reference model \
           counting nodes as oracle",
};
