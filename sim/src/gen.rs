//! Seeded generation of documents, fragmentations and bindings, with
//! swarm-style variation: every case enables its own subset of features.

use crate::case::Case;
use crate::model::{Delims, KINDS};
use crate::rng::Rng;

pub const NAMES: [&str; 9] = ["f", "g", "foo", "bar", "é", "日本", "a-b", "z🄰z", "o0"];
/// Longer than any of the others.
pub const LONG: &str = "a-name-that-is-longer-than-most-names-are-and-that-has-more-characters-than-one-would-type";
/// Names that only look like one of the above.
const NEAR: [(&str, [&str; 3]); 10] = [
    ("f", ["F", "ff", "ƒ"]),
    ("g", ["G", "h", "\u{67}\u{0}"]),
    ("foo", ["fo", "Foo", "fooo"]),
    ("bar", ["baR", "bra", "bar."]),
    ("é", ["e\u{301}", "É", "e"]),
    ("日本", ["日", "本日", "日夲"]),
    ("a-b", ["a_b", "a-B", "ab"]),
    ("z🄰z", ["z🄱z", "zAz", "zz"]),
    ("o0", ["00", "oo", "0o"]),
    (LONG, ["a-name-that-is-longer-than-most-names-are-and-that-has-more-characters-than-one-would-typ",
            "a-name-that-is-longer-than-most-names-are-and-that-has-more-characters-than-one-would-typE",
            "a-name-that-is-longer-than-most-names-are-and-that-has-more-characters-than-one-would-types"]),
];
const PLAIN: [char; 14] = ['a', 'b', 'x', '7', '-', 'é', 'ß', '日', '本', '🎈', '\u{301}', '.', '"', '\u{0}'];
const WS: [char; 6] = [' ', ' ', '\n', '\t', '\u{a0}', '\u{3000}'];
const ALL_WS: [char; 25] = ['\t', '\n', '\u{b}', '\u{c}', '\r', ' ', '\u{85}', '\u{a0}', '\u{1680}', '\u{2000}',
                            '\u{2001}', '\u{2002}', '\u{2003}', '\u{2004}', '\u{2005}', '\u{2006}', '\u{2007}',
                            '\u{2008}', '\u{2009}', '\u{200a}', '\u{2028}', '\u{2029}', '\u{202f}', '\u{205f}',
                            '\u{3000}'];
/// Look like whitespace but are not.
const NO_WS: [char; 6] = ['\u{feff}', '\u{200b}', '\u{180e}', '\u{2060}', '\u{1f}', '\u{2800}'];
const ODD: [char; 20] = ['\u{feff}', '\r', '\u{7f}', '\u{80}', '\u{85}', '\u{ad}', '\u{7ff}', '\u{800}', '\u{200b}',
                         '\u{200d}', '\u{2028}', '\u{d7ff}', '\u{e000}', '\u{fffd}', '\u{ffff}', '\u{10000}',
                         '\u{10ffff}', '\u{b}', '\u{1}', '\''];

fn ws(r: &mut Rng) -> char {
    match r.below(20) { 0 => *r.pick(&ALL_WS), 1 if r.chance(1, 2) => *r.pick(&NO_WS), _ => *r.pick(&WS) }
}

/// What this case's documents are made of.
pub struct Swarm {
    pub names: Vec<&'static str>,
    pub w_text: u32,
    pub w_nest: u32,
    pub w_empty: u32,
    pub escapes: usize,
    pub multibyte: bool,
    pub odd: bool,
    pub head_nest: usize,
    pub max_depth: usize,
    pub damage: usize,
    pub soup: bool,
}

impl Swarm {
    pub fn new(r: &mut Rng, names: Vec<&'static str>) -> Swarm {
        Swarm {
            names,
            w_text: *r.pick(&[1, 4, 8]),
            w_nest: *r.pick(&[1, 4, 8]),
            w_empty: *r.pick(&[0, 1, 3]),
            escapes: *r.pick(&[0, 10, 40]),
            multibyte: r.chance(1, 2),
            odd: r.chance(1, 4),
            head_nest: *r.pick(&[0, 10, 35]),
            max_depth: *r.pick(&[1, 2, 4, 7]),
            damage: *r.pick(&[0, 0, 1, 1, 2, 4]),
            soup: r.chance(1, 5),
        }
    }

    /// A document of roughly `size` characters (never much more).
    pub fn doc(&self, r: &mut Rng, size: usize) -> Vec<char> {
        let mut d = Vec::new();
        if size == 0 { return d }
        if self.soup {
            for _ in 0..size {
                let c = match r.weighted(&[6, 4, 4, self.escapes as u32 / 10 + 1, 3]) {
                    0 => self.plain(r),
                    1 => '{',
                    2 => '}',
                    3 => '\\',
                    _ => ws(r),
                };
                d.push(c);
                if r.chance(1, 6) {
                    let n = *r.pick(&self.names);
                    d.push('{');
                    d.extend(n.chars());
                    d.push(' ');
                }
            }
        } else {
            while d.len() < size { self.form(r, &mut d, 0, size); }
        }
        let damage = if self.damage == 0 { 0 } else { r.below(self.damage + 1) };
        for _ in 0..damage {
            if d.is_empty() { break }
            let i = r.below(d.len());
            match r.below(4) {
                0 => { let _ = d.remove(i); }
                1 => d.insert(i, '}'),
                2 => d.insert(i, '{'),
                _ => d.insert(i, '\\'),
            }
        }
        if r.chance(1, 20) { d.push('\\'); }
        if r.chance(1, 25) { self.stretch(r, &mut d); }
        d
    }

    /// Put a long run of something somewhere, with a length around one that
    /// might be a limit.
    fn stretch(&self, r: &mut Rng, d: &mut Vec<char>) {
        let kind = r.below(9);
        let n = match r.below(1000) {
            0..=2 => if kind < 3 { 65_536 } else { 1024 },
            3..=10 => 4096,
            11..=150 => *r.pick(&[512, 1000, 1024]),
            _ => *r.pick(&[8, 16, 32, 50, 64, 100, 128, 256]),
        } + r.below(5) - r.below(3);
        let mut x: Vec<char> = Vec::new();
        match kind {
            0 | 1 => {
                let same = self.plain(r);
                let varied = r.chance(1, 2);
                for _ in 0..n { x.push(if varied { self.plain(r) } else { same }); }
            }
            2 => for _ in 0..n { x.push(ws(r)); },
            3 => for _ in 0..n { x.push('\\'); x.push(self.plain(r)); },
            4 => for _ in 0..n { x.push('{'); x.push('}'); },
            5 => {
                let name: Vec<char> = r.pick(&self.names).chars().collect();
                for _ in 0..n { x.push('{'); x.extend(&name); x.push(' '); x.push('x'); x.push('}'); }
            }
            6 => for _ in 0..n { x.push('}'); },
            _ => {
                // The parser recurses here.
                let n = n.min(1024 + r.below(4));
                let name: Vec<char> = r.pick(&self.names).chars().collect();
                for _ in 0..n {
                    x.push('{');
                    if kind == 7 { x.extend(&name); x.push(' '); }
                }
                if kind == 8 { x.extend(&name); }
                for _ in 0..n { x.push('}'); }
            }
        }
        let at = if r.chance(1, 3) { d.len() } else { r.below(d.len() + 1) };
        let _ = d.splice(at..at, x);
    }

    fn plain(&self, r: &mut Rng) -> char {
        if self.odd && r.chance(1, 4) {
            return if r.chance(1, 5) { char::from_u32(r.below(0x11_0000) as u32).unwrap_or('\u{2603}') }
                   else { *r.pick(&ODD) }
        }
        if self.multibyte { *r.pick(&PLAIN) } else { PLAIN[r.below(5)] }
    }

    fn text(&self, r: &mut Rng, d: &mut Vec<char>) {
        for _ in 0..r.range(1, 5) {
            if r.chance(self.escapes, 100) {
                d.push('\\');
                d.push(match r.below(5) { 0 => '{', 1 => '}', 2 => '\\', 3 => ' ', _ => self.plain(r) });
            } else if r.chance(1, 4) {
                d.push(ws(r));
            } else {
                d.push(self.plain(r));
            }
        }
    }

    fn form(&self, r: &mut Rng, d: &mut Vec<char>, depth: usize, size: usize) {
        let w = if depth >= self.max_depth || d.len() > size { [1, 0, 1] }
                else { [self.w_text, self.w_nest, self.w_empty] };
        match r.weighted(&w) {
            0 => self.text(r, d),
            1 => {
                d.push('{');
                while r.chance(1, 5) { d.push(ws(r)); }
                if r.chance(self.head_nest, 100) {
                    if r.chance(1, 6) { d.push('{'); d.push('}'); }
                    else { self.form_nest(r, d, depth + 1, size); }
                } else if r.chance(1, 12) {
                    self.text(r, d);
                } else {
                    for c in r.pick(&self.names).chars() {
                        if r.chance(self.escapes, 300) { d.push('\\'); }
                        d.push(c);
                    }
                }
                match r.below(6) {
                    0 => {}
                    1 => { d.push(' '); d.push(ws(r)); }
                    _ => d.push(ws(r)),
                }
                for _ in 0..r.below(4) { self.form(r, d, depth + 1, size); }
                d.push('}');
            }
            _ => {
                d.push('{');
                while r.chance(1, 4) { d.push(ws(r)); }
                d.push('}');
            }
        }
    }

    fn form_nest(&self, r: &mut Rng, d: &mut Vec<char>, depth: usize, size: usize) {
        d.push('{');
        d.extend(r.pick(&self.names).chars());
        if r.chance(1, 2) { d.push(' '); self.form(r, d, depth + 1, size); }
        d.push('}');
    }
}

/// A set of bound operators.  `weights` are per macro kind.
pub fn binds(r: &mut Rng, max: usize, weights: &[u32; 17]) -> Vec<(String, String)> {
    // Large tables now and then.
    let n = if max > 3 && r.chance(1, 15) { r.range(6, 40) } else { r.below(max + 1) };
    let mut v: Vec<(String, String)> = Vec::new();
    for _ in 0..n {
        let name = if r.chance(1, 25) { LONG } else { *r.pick(&NAMES) };
        let key = match r.below(24) {
            0 => "n".to_string(),
            1 => "l".to_string(),
            2 => format!("x:{}", r.below(4)),
            3 => format!("c:{name}"),
            4 => format!("s:{name}"),
            _ => format!("t:{name}"),
        };
        if v.iter().any(|x| x.0 == key) { continue }
        let k = r.weighted(weights);
        v.push((key, KINDS[k].0.to_string()));
    }
    v
}

/// Swarm weights: each case uses some of the kinds only.
pub fn kind_weights(r: &mut Rng, base: &[u32; 17]) -> [u32; 17] {
    let mut w = *base;
    for x in &mut w {
        if r.chance(1, 3) { *x = 0; }
    }
    if w.iter().all(|&x| x == 0) { *base } else { w }
}

/// op-text, op-remove, op-extra, op-err, op-comb, op-allocerr, op-operator,
/// op-nest, op-reparse, ap-list, ap-remove, ap-extra, ap-err, ap-comb,
/// ap-operator, ap-allocerr, ap-missing
pub const ALL_KINDS: [u32; 17] = [4, 3, 3, 1, 3, 1, 2, 1, 2, 4, 3, 3, 1, 3, 2, 1, 1];

pub fn names_for(r: &mut Rng, binds: &[(String, String)]) -> Vec<&'static str> {
    let mut v: Vec<&'static str> = Vec::new();
    for (k, _) in binds {
        if let Some(n) = NEAR.iter().find(|n| k.ends_with(&format!(":{}", n.0))) {
            v.push(n.0);
            if r.chance(1, 6) { v.push(*r.pick(&n.1)); }
        }
    }
    v.push(*r.pick(&NAMES));
    if r.chance(1, 2) { v.push("u"); }
    v
}

pub fn size(r: &mut Rng) -> usize {
    match r.below(10) { 0 => r.below(4), 1..=5 => r.range(3, 20), 6..=8 => r.range(15, 60), _ => r.range(50, 250) }
}

const MOST_CUTS: usize = 6_000;

pub fn cuts(r: &mut Rng, d: &[char]) -> Vec<usize> {
    let n = d.len();
    let mut c = Vec::new();
    match r.below(7) {
        0 => {}
        1 => c.extend(1..n.max(1)),
        2 => for _ in 0..r.range(1, 3) { c.push(r.below(n + 1)) },
        3 => {
            // Around delimiters and escapes.
            for (i, &x) in d.iter().enumerate() {
                if matches!(x, '{' | '}' | '\\') || x.is_whitespace() {
                    if r.chance(1, 2) { c.push(i) }
                    if r.chance(1, 2) { c.push(i + 1) }
                }
            }
        }
        4 => {
            let k = r.range(1, 4);
            c.extend((1..n.max(1)).filter(|i| i % k == 0));
        }
        _ => for i in 1..n.max(1) { if r.chance(1, 3) { c.push(i) } },
    }
    // Joining node-list texts walks along them, so that too many pieces would
    // take minutes.
    if c.len() > MOST_CUTS {
        let from = r.below(c.len() - MOST_CUTS);
        c = c[from..from + MOST_CUTS].to_vec();
    }
    // Empty pieces, at the ends and in between.
    let empties = *r.pick(&[0, 0, 1, 2, 5]);
    for _ in 0..empties {
        let at = match r.below(4) {
            0 => 0,
            1 => n,
            _ => if c.is_empty() { r.below(n + 1) } else { *r.pick(&c) },
        };
        c.push(at);
        if r.chance(1, 2) { c.push(at); }
    }
    if r.chance(1, 50) {
        // Very many in a row.
        let at = if c.is_empty() || r.chance(1, 4) { r.below(n + 1) } else { *r.pick(&c) };
        let k = *r.pick(&[8, 16, 20, 32, 50, 64, 100, 128, 256, 300]);
        c.extend(std::iter::repeat(at).take(k));
    }
    c.sort_unstable();
    c
}

/// Component choices.  `src`: allowed sources.
pub fn conf(r: &mut Rng, case: &mut Case, srcs: &[i64], stores: &[i64]) {
    case.set("src", *r.pick(srcs));
    case.set("store", *r.pick(stores));
    let text = if case.get("src") == 2 { r.below(9) } else { *r.pick(&[0, 1, 2, 3, 4, 5, 8]) };
    // Node-list texts exist with array storage only.
    let text = if text >= 7 && !stores.contains(&3) { text % 6 } else { text };
    case.set("text", text as i64);
    case.set("table", r.below(3) as i64);
    case.set("hseed", (r.next() >> 8) as i64);
    case.set("delims", if r.chance(1, 4) { r.range(1, 3) as i64 } else { 0 });
}

/// Add a document in the case's delimiters, with its fragmentation.
pub fn add_doc(r: &mut Rng, case: &mut Case, sw: &Swarm, size: usize) {
    let d = sw.doc(r, size);
    let c = cuts(r, &d);
    push_doc(r, case, d, c);
}

pub fn push_doc(r: &mut Rng, case: &mut Case, d: Vec<char>, cuts: Vec<usize>) {
    let de = Delims(case.get("delims") as u8);
    let d = d.into_iter().map(|c| de.translate(c, r.chance(1, 2))).collect();
    case.docs.push(d);
    case.cuts.push(cuts);
}
