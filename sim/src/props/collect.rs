//! C08: the functions that collect up to the first error.

use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

use kul::common::{inmem, stream};
use kul::parser::{DatumAllocator, DefaultCharClassifier};
use kul::premade::inmem as array;
use kul::source_stream::StrishIterSourceStream;
use kul::text::chunk::PosStr;
use kul::{Combiner, Datum, Parser, Text, TextBase, TextConcat};

use crate::case::Case;
use crate::drive::{panic_text, Conf};
use crate::engine::{fail, Cx, PropDef, Violation};
use crate::gen;
use crate::log::{ev, set_cap, StepCap};
use crate::model::{chars_of, Call, Delims, Item, Key, Kind, Model};
use crate::props::parse::{bare_item, first_diff};
use crate::rng::{hash_str, Rng};
use crate::world::{combiner, intern, to_e, to_m, ApBox, Borrowed, Comb, DatumOf, MacroCtl,
                   OpBox, Pieces, PosInfo, SrcCtl, CE};

type V = Result<(), Violation>;

const ENTRIES: [&str; 7] = ["string", "string with macros", "stream", "stream with macros",
                            "array storage", "array storage, polled on",
                            "array storage without macros"];

/// What a call did, seen from outside.
#[derive(Debug, Default)]
struct Seen {
    items: Vec<Item>,
    calls: Vec<Call>,
    pulls: u64,
    asked_end: bool,
    unused: usize,
    /// Items given after the first error.
    more: usize,
}

fn gen08(r: &mut Rng, _: bool) -> Case {
    let mut c = Case::default();
    c.set("entry", r.below(7) as i64);
    c.set("table", r.below(2) as i64 * 2);
    let entry = c.get("entry");
    if !matches!(entry, 0 | 2 | 6) {
        let w = gen::kind_weights(r, &gen::ALL_KINDS);
        c.binds = gen::binds(r, 5, &w);
        if r.chance(1, 2) {
            for _ in 0..r.range(1, 2) { c.faults.push(("macro-err".into(), r.below(5) as u64)); }
        }
    }
    let names = gen::names_for(r, &c.binds);
    let sw = gen::Swarm::new(r, names);
    let size = gen::size(r);
    let mut d = sw.doc(r, size);
    if r.chance(1, 2) {
        // A certain error, with more behind it.
        let at = r.below(d.len() + 1);
        d.insert(at, '}');
        let more = r.range(1, 30);
        d.extend(sw.doc(r, more));
    }
    let cuts = gen::cuts(r, &d);
    gen::push_doc(r, &mut c, d, cuts);
    if entry >= 4 && r.chance(1, 3) { c.set("cap", r.below(12) as i64); }
    c.set("polls", r.below(4) as i64);
    c.set("hseed", (r.next() >> 8) as i64);
    c
}

fn mac(case: &Case) -> Rc<MacroCtl> {
    let m = MacroCtl::default();
    *m.err_at.borrow_mut() = case.fault_at("macro-err");
    Rc::new(m)
}

fn binds(case: &Case, entry: i64) -> Vec<(Key, Kind)> {
    let mut conf = Conf::of(case);
    // Keys that are combinations need a store of their own.
    conf.store = if entry >= 4 { 3 } else { 0 };
    if matches!(entry, 0 | 2 | 6) { return Vec::new() }
    crate::drive::binds_of(case, conf)
}

fn items<DA: DatumAllocator<ET = i64>>(v: impl Iterator<Item = Result<DatumOf<DA>, crate::world::ErrOf<DA>>>)
    -> Vec<Item> where <DA::TT as TextBase>::Pos: PosInfo
{
    v.map(|r| match r { Ok(d) => Ok(to_m(&d)), Err(e) => Err(to_e(&e)) }).collect()
}

/// Take items until the first error, the plain way.
fn plain<T, X>(it: impl Iterator<Item = Result<T, X>>) -> Vec<Result<T, X>> {
    let mut v = Vec::new();
    for r in it {
        let stop = r.is_err();
        v.push(r);
        if stop { break }
    }
    v
}

/// The bindings as the common modules want them.
fn table<DA>(case: &Case, entry: i64, ctl: &Rc<MacroCtl>, mktext: &dyn Fn(&'static str) -> DA::TT,
             mkref: &dyn Fn(DatumOf<DA>) -> DA::DR)
    -> kul::parser::HashMapOperatorBindings<DA, OpBox<DA>, ApBox<DA>, CE>
    where DA: DatumAllocator<ET = i64>, DA::TT: std::hash::Hash + Eq, DA::DR: std::hash::Hash + Eq,
          <DA::TT as TextBase>::Pos: PosInfo,
          DA::TT: for<'x> TextConcat<Borrowed<'x, DA>>,
{
    let mut v: Vec<(DatumOf<DA>, Comb<DA>)> = Vec::new();
    for (b, (key, kind)) in binds(case, entry).iter().enumerate() {
        let d = match key {
            Key::Text(s) => Datum::Text(mktext(intern(s))),
            Key::Nest => Datum::EmptyNest,
            Key::EList => Datum::EmptyList,
            Key::Extra(n) => Datum::Extra(*n),
            Key::Comb(s) => Datum::Combination {
                operator: mkref(Datum::Text(mktext(intern(s)))), operands: mkref(Datum::EmptyList),
            },
            Key::One(s) => Datum::List {
                elem: mkref(Datum::Text(mktext(intern(s)))), next: mkref(Datum::EmptyList),
            },
        };
        v.push((d, combiner::<DA>(*kind, b, Delims(0), ctl)));
    }
    kul::parser::HashMapOperatorBindings::new(v.into_iter().collect())
}

// The parsers of the modules, put together by hand.

fn inmem_parser<E, X>(bindings: inmem::OperatorBindings<'_, E, X>) -> inmem::Parser<'_, E, X>
    where E: std::hash::Hash + Eq,
{
    Parser { classifier: DefaultCharClassifier, allocator: inmem::DatumAllocator::default(), bindings }
}

fn stream_parser<E, X>(bindings: stream::OperatorBindings<E, X>) -> stream::Parser<E, X>
    where E: std::hash::Hash + Eq,
{
    Parser { classifier: DefaultCharClassifier, allocator: stream::DatumAllocator::default(), bindings }
}

fn string(case: &Case, entry: i64, direct: bool) -> Seen {
    type DA<'i> = inmem::DatumAllocator<'i, i64>;
    let doc: String = case.doc(0).iter().collect();
    let ctl = mac(case);
    if entry == 0 {
        // No macros and no extra values here.
        let got: Vec<Item> = if direct {
            let t = inmem::Text::from_str(&doc);
            let x = plain(inmem_parser(inmem::OperatorBindings::<'_, (), ()>::default()).parse(t.iter()));
            x.iter().map(narrow).collect()
        } else {
            inmem::parse_str(&doc).iter().map(narrow).collect()
        };
        return Seen { items: got, ..Seen::default() }
    }
    let b = table::<DA<'_>>(case, entry, &ctl, &|s| inmem::Text::from_str(s),
                            &kul::datum::DatumBox::new);
    let got = if direct {
        let t = inmem::Text::from_str(&doc);
        let x = plain(inmem_parser(b).parse(t.iter()));
        items::<DA<'_>>(x.into_iter())
    } else {
        items::<DA<'_>>(inmem::parse_str_with(&doc, b).into_iter())
    };
    let calls = ctl.calls.borrow().clone();
    Seen { items: got, calls, ..Seen::default() }
}

/// An item of the entry points without macros.
fn narrow<TT, DR>(r: &Result<Datum<TT, (), DR>, kul::Error<TT::Pos, ()>>) -> Item
    where TT: Text, TT::Pos: PosInfo, DR: kul::DerefTryMut<Target = Datum<TT, (), DR>>,
{
    use crate::model::M;
    fn m<TT, DR>(d: &Datum<TT, (), DR>) -> M
        where TT: Text, TT::Pos: PosInfo, DR: kul::DerefTryMut<Target = Datum<TT, (), DR>>,
    {
        match d {
            Datum::Text(t) => M::Text(crate::world::text_chars(t)),
            Datum::Combination { operator, operands } => M::Comb(Box::new(m(operator)), Box::new(m(operands))),
            Datum::EmptyNest => M::Nest,
            Datum::EmptyList => M::List(Vec::new()),
            Datum::List { elem, next } => {
                let mut v = vec![m(elem)];
                let mut cur: &Datum<TT, (), DR> = next;
                while let Datum::List { elem, next } = cur { v.push(m(elem)); cur = next; }
                if matches!(cur, Datum::EmptyList) { M::List(v) } else { M::Odd("improper list".into()) }
            }
            _ => M::Odd("unexpected".into()),
        }
    }
    match r {
        Ok(d) => Ok(m(d)),
        Err(kul::Error::FailedCombiner(())) => Err(crate::model::E::Macro(-1)),
        Err(kul::Error::UnbalancedEndChar(p)) => Err(crate::model::E::Unbalanced(p.chpos(), p.bytepos())),
        Err(kul::Error::MissingEndChar) => Err(crate::model::E::Missing),
        Err(kul::Error::FailedAlloc(_)) => Err(crate::model::E::Alloc),
        Err(kul::Error::FailedDerefTryMut) => Err(crate::model::E::Deref),
    }
}

fn streamed(case: &Case, entry: i64, direct: bool) -> Seen {
    type DA = stream::DatumAllocator<i64>;
    let d = case.doc(0);
    let pieces: Vec<String> = case.pieces(0).into_iter().map(|(a, b)| d[a..b].iter().collect()).collect();
    let ctl = mac(case);
    let src = Rc::new(SrcCtl::default());
    let from = Pieces { items: pieces.into_iter(), ctl: Rc::clone(&src) };
    let got: Vec<Item> = if entry == 2 {
        if direct {
            plain(stream_parser(stream::OperatorBindings::<(), ()>::default())
                .parse(StrishIterSourceStream::new(from.map(Rc::new)))).iter().map(narrow).collect()
        } else {
            stream::parse_stream(from).iter().map(narrow).collect()
        }
    } else {
        let b = table::<DA>(case, entry, &ctl, &|s| stream::Text::from_str(s),
                            &kul::datum::DatumBox::new);
        if direct {
            let x = plain(stream_parser(b).parse(StrishIterSourceStream::new(from.map(Rc::new))));
            items::<DA>(x.into_iter())
        } else {
            items::<DA>(stream::parse_stream_with(from, b).into_iter())
        }
    };
    let calls = ctl.calls.borrow().clone();
    Seen { items: got, calls, pulls: src.pulls.get(), asked_end: src.ended.get(), ..Seen::default() }
}

fn arrayed(case: &Case, entry: i64, direct: bool) -> Seen {
    let cap = case.cfg.get("cap").map_or(2_000, |&c| c.max(0) as usize);
    let doc: String = case.doc(0).iter().collect();
    let ctl = mac(case);
    let bs = binds(case, entry);
    let mut store: Vec<_> = (0..cap).map(|_| Datum::Extra(0)).collect();
    with_array(&mut store[..], &doc, &bs, &ctl, case, entry, direct)
}

fn with_array<'a>(store: array::DatumSlice<'a, 'a, i64>, doc: &'a str, bs: &[(Key, Kind)],
                  ctl: &Rc<MacroCtl>, case: &Case, entry: i64, direct: bool) -> Seen {
    type DA<'a> = array::DatumAllocator<'a, 'a, i64>;
    let funs: Vec<(Key, Comb<DA<'a>>)> = bs.iter().enumerate()
        .map(|(i, (k, kind))| (k.clone(), combiner::<DA<'a>>(*kind, i, Delims(0), ctl))).collect();
    let pairs: Vec<_> = funs.iter().filter_map(|(k, f)| {
        let d = match k {
            Key::Text(s) => Datum::Text(array::Text::from(PosStr::from(intern(s)))),
            Key::Nest => Datum::EmptyNest,
            Key::EList => Datum::EmptyList,
            Key::Extra(n) => Datum::Extra(*n),
            Key::Comb(_) | Key::One(_) => return None,
        };
        let c = match f {
            Combiner::Operative(f) => Combiner::Operative(&**f),
            Combiner::Applicative(f) => Combiner::Applicative(&**f),
        };
        Some((d, c))
    }).collect();
    let mut parser = if direct {
        Parser { classifier: DefaultCharClassifier, allocator: array::DatumAllocator::new(store),
                 bindings: array::OperatorBindings::new(&pairs[..]) }
    } else {
        array::parser(store, &pairs[..])
    };
    let text = array::Text::from(PosStr::from(doc));
    let mut more = 0;
    let items: Vec<Item> = if direct {
        let x = plain(parser.parse(text.iter()));
        items::<DA<'a>>(x.into_iter())
    } else {
        let mut it = array::parse_text_with(&text, &mut parser);
        let mut v = Vec::new();
        let mut errored = false;
        loop {
            let Some(r) = it.next() else { break };
            if errored { more += 1; break }
            errored = r.is_err();
            v.push(r);
            if errored && entry == 4 {
                // The caller may well stop here.
                if case.get("polls") == 0 { break }
            }
        }
        if entry == 5 {
            for _ in 0..case.get("polls").clamp(0, 5) { if it.next().is_some() && errored { more += 1; } }
        }
        items::<DA<'a>>(v.into_iter())
    };
    let unused = parser.allocator.unused().map_or(0, |s| s.len());
    let calls = ctl.calls.borrow().clone();
    Seen { items, calls, unused, more, ..Seen::default() }
}

fn bare_array(case: &Case, direct: bool) -> Seen {
    let cap = case.cfg.get("cap").map_or(2_000, |&c| c.max(0) as usize);
    let doc: String = case.doc(0).iter().collect();
    let mut store: Vec<_> = (0..cap).map(|_| Datum::EmptyNest).collect();
    with_bare_array(&mut store[..], &doc, direct)
}

fn with_bare_array<'a>(store: array::DatumSlice<'a, 'a>, doc: &'a str, direct: bool) -> Seen {
    let text = array::Text::from(PosStr::from(doc));
    let mut parser: array::Parser<'a, 'a, 'a, 'a> = if direct {
        Parser { classifier: DefaultCharClassifier, allocator: array::DatumAllocator::new(store),
                 bindings: array::OperatorBindings::new(&[]) }
    } else {
        array::parser_no_bind(store)
    };
    let (items, more): (Vec<Item>, usize) = if direct {
        (plain(parser.parse(text.iter())).iter().map(narrow).collect(), 0)
    } else {
        let v: Vec<_> = array::parse_text_with(&text, &mut parser).take(doc.len() + 2).collect();
        let end = v.iter().position(Result::is_err).map_or(v.len(), |i| i + 1);
        (v[..end].iter().map(narrow).collect(), v.len() - end)
    };
    let unused = parser.allocator.unused().map_or(0, |s| s.len());
    Seen { items, unused, more, ..Seen::default() }
}

fn call(case: &Case, entry: i64, direct: bool) -> Result<Seen, Violation> {
    ev("call", direct as u64);
    let r = catch_unwind(AssertUnwindSafe(|| match entry {
        0 | 1 => string(case, entry, direct),
        2 | 3 => streamed(case, entry, direct),
        6 => bare_array(case, direct),
        _ => arrayed(case, entry, direct),
    }));
    match r {
        Ok(s) => Ok(s),
        Err(p) => {
            if p.is::<StepCap>() { std::panic::resume_unwind(p) }
            let at = crate::engine::take_panic().map_or(String::new(), |x| x.0);
            if at.starts_with("src/") {
                eprintln!("harness error: panic in the simulator at {at}: {}", panic_text(&*p));
                std::process::exit(3);
            }
            fail("panic", format!("the parse panicked at {at}: {}", panic_text(&*p)))
        }
    }
}

fn run08(case: &Case, cx: &mut Cx) -> V {
    let entry = case.get("entry").clamp(0, 6);
    // The hash tables of the common modules take their keys from the system.
    if entry == 1 || entry == 3 {
        crate::entropy::keyed(case.get("hseed") as u64, || judge(case, entry, cx))
    } else {
        judge(case, entry, cx)
    }
}

fn judge(case: &Case, entry: i64, cx: &mut Cx) -> V {
    set_cap(100_000 + 4_000 * case.doc(0).len() as u64);
    cx.count(&format!("entry {}", ENTRIES[entry as usize]), 1);
    let a = call(case, entry, false)?;
    let b = call(case, entry, true)?;
    ev("items", hash_str(&format!("{:?}", a.items)));
    ev("calls", hash_str(&format!("{:?}", a.calls)));
    let stopped = b.items.iter().position(Result::is_err);
    if let Some(Err(e)) = stopped.and_then(|i| b.items.get(i)) {
        let k = format!("{e:?}");
        let k = k.split(['(', ' ']).next().unwrap_or("");
        cx.fault(&format!("first error {k}"), 1);
        cx.nontrivial = true;
    }
    cx.fault("macro fails", case.fault_at("macro-err").iter().filter(|n| (**n as usize) < b.calls.len()).count() as u64);
    cx.count("items", b.items.len() as u64);
    if let Some(i) = first_diff(&b.items, &a.items) {
        return fail("wrong-items", format!(
            "{}: item {i} is {:?}; parsing form by form up to the first error gives {:?} ({} and {} items)",
            ENTRIES[entry as usize], a.items.get(i), b.items.get(i), a.items.len(), b.items.len()))
    }
    if a.more > 0 {
        return fail("goes-on", format!("{}: {} more items after the error", ENTRIES[entry as usize], a.more))
    }
    if a.calls.len() > b.calls.len() {
        return fail("runs-macros", format!(
            "{}: {} macro calls, where the first error came after {}: {:?}", ENTRIES[entry as usize],
            a.calls.len(), b.calls.len(), a.calls.get(b.calls.len())))
    }
    if a.pulls > b.pulls || (a.asked_end && !b.asked_end) {
        return fail("reads-on", format!(
            "{}: {} pieces requested{}, where the first error came after {}", ENTRIES[entry as usize], a.pulls,
            if a.asked_end { " and the end" } else { "" }, b.pulls))
    }
    if a.unused < b.unused {
        return fail("allocates", format!(
            "{}: {} nodes of storage left, where at the first error {} were", ENTRIES[entry as usize],
            a.unused, b.unused))
    }
    // Against the model: nothing runs after the error within a form either.
    let bs = binds(case, entry);
    let chars = chars_of(case.doc(0), entry != 2 && entry != 3);
    let m = Model::new(&chars, Delims(0), &bs, &case.fault_at("macro-err")).run();
    if let Some(i) = stopped {
        let same = m.items.len() > i
            && (0..=i).all(|k| bare_item(&m.items[k].res) == bare_item(&a.items[k]));
        if same && a.calls.len() > m.items[i].calls {
            return fail("runs-macros", format!(
                "{}: {} macro calls, where the first error comes after {}", ENTRIES[entry as usize],
                a.calls.len(), m.items[i].calls))
        }
    }
    Ok(())
}

pub static C08: PropDef = PropDef {
    id: "C08", gen: gen08, run: run08, runs: (1_500_000, 30_000_000), level: "exploration",
    rule: "seeded documents with errors of every kind (unbalanced, missing end, failing macros, exhausted \
           storage) and more forms, macros and pieces behind them, through every collecting function; \
           non-trivial when there is an error; compared with form-by-form parsing stopped at the error",
    real: "kul common::inmem and common::stream functions, kul_core premade::inmem, and everything below",
    stub: "deliverer of pieces, macros; form-by-form loop and reference model as oracles",
};
