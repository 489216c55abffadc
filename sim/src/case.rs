//! A case is the complete, explicit description of one simulated run.

use std::collections::BTreeMap;
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Case {
    /// Scalar choices (component configuration, sizes, policies).
    pub cfg: BTreeMap<String, i64>,
    /// Documents.
    pub docs: Vec<Vec<char>>,
    /// Per document: positions (in characters) at which a piece ends.
    /// A repeated position is an empty piece.
    pub cuts: Vec<Vec<usize>>,
    /// Bound operators: (key, macro kind).
    pub binds: Vec<(String, String)>,
    /// Fault plan: kind and the occurrence at which it strikes.
    pub faults: Vec<(String, u64)>,
    /// Script operations.
    pub ops: Vec<[i64; 4]>,
    /// Explicit scheduling decisions: at this step switch to that thread.
    pub sched: Vec<(u64, u32)>,
    /// True once `sched` is authoritative (replay, minimisation).
    pub scripted: bool,
}

impl Case {
    pub fn get(&self, k: &str) -> i64 {
        self.cfg.get(k).copied().unwrap_or(0)
    }

    pub fn set(&mut self, k: &str, v: i64) {
        let _ = self.cfg.insert(k.to_string(), v);
    }

    pub fn doc(&self, i: usize) -> &[char] {
        self.docs.get(i).map_or(&[], |d| &d[..])
    }

    pub fn fault_at(&self, kind: &str) -> Vec<u64> {
        self.faults.iter().filter(|(k, _)| k == kind).map(|&(_, n)| n).collect()
    }

    /// Cut positions clipped to the document and sorted.
    pub fn norm_cuts(&self, i: usize) -> Vec<usize> {
        let n = self.doc(i).len();
        let mut c: Vec<usize> = self.cuts.get(i).cloned().unwrap_or_default()
                                    .into_iter().map(|x| x.min(n)).collect();
        c.sort_unstable();
        c
    }

    /// The pieces document `i` is delivered in (as char ranges).
    pub fn pieces(&self, i: usize) -> Vec<(usize, usize)> {
        let n = self.doc(i).len();
        let mut r = Vec::new();
        let mut a = 0;
        for c in self.norm_cuts(i) {
            r.push((a, c));
            a = c;
        }
        r.push((a, n));
        r
    }

    pub fn size(&self) -> usize {
        self.docs.iter().map(Vec::len).sum::<usize>()
            + self.cuts.iter().map(Vec::len).sum::<usize>()
            + self.binds.len() + self.faults.len() * 2 + self.ops.len() * 2
            + self.sched.len()
            + self.cfg.values().map(|v| v.unsigned_abs().min(1000) as usize).sum::<usize>()
    }

    pub fn to_text(&self) -> String {
        let mut s = String::new();
        for (k, v) in &self.cfg {
            let _ = writeln!(s, "cfg {k} {v}");
        }
        for (i, d) in self.docs.iter().enumerate() {
            let _ = writeln!(s, "doc {i} {}", esc(&d.iter().collect::<String>()));
            if let Some(c) = self.cuts.get(i) {
                let _ = writeln!(s, "cuts {i}{}",
                                 c.iter().map(|x| format!(" {x}")).collect::<String>());
            }
        }
        for (k, m) in &self.binds {
            let _ = writeln!(s, "bind {m} {}", esc(k));
        }
        for (k, n) in &self.faults {
            let _ = writeln!(s, "fault {k} {n}");
        }
        for o in &self.ops {
            let _ = writeln!(s, "op {} {} {} {}", o[0], o[1], o[2], o[3]);
        }
        if self.scripted {
            let _ = writeln!(s, "scripted");
        }
        for (a, b) in &self.sched {
            let _ = writeln!(s, "switch {a} {b}");
        }
        s
    }

    pub fn from_lines<'a>(lines: impl Iterator<Item = &'a str>) -> Result<Self, String> {
        let mut c = Case::default();
        for l in lines {
            let (w, rest) = l.split_once(' ').unwrap_or((l, ""));
            let bad = || format!("bad line: {l}");
            match w {
                "cfg" => {
                    let (k, v) = rest.split_once(' ').ok_or_else(bad)?;
                    c.set(k, v.parse().map_err(|_| bad())?);
                }
                "doc" => {
                    let (_, v) = rest.split_once(' ').ok_or_else(bad)?;
                    c.docs.push(unesc(v).ok_or_else(bad)?.chars().collect());
                }
                "cuts" => {
                    let mut it = rest.split_whitespace();
                    let _ = it.next();
                    let v: Result<Vec<usize>, _> = it.map(str::parse).collect();
                    c.cuts.push(v.map_err(|_| bad())?);
                }
                "bind" => {
                    let (m, k) = rest.split_once(' ').ok_or_else(bad)?;
                    c.binds.push((unesc(k).ok_or_else(bad)?, m.to_string()));
                }
                "fault" => {
                    let (k, n) = rest.split_once(' ').ok_or_else(bad)?;
                    c.faults.push((k.to_string(), n.parse().map_err(|_| bad())?));
                }
                "op" => {
                    let v: Result<Vec<i64>, _> = rest.split_whitespace().map(str::parse).collect();
                    let v = v.map_err(|_| bad())?;
                    if v.len() != 4 { return Err(bad()) }
                    c.ops.push([v[0], v[1], v[2], v[3]]);
                }
                "scripted" => c.scripted = true,
                "switch" => {
                    let (a, b) = rest.split_once(' ').ok_or_else(bad)?;
                    c.sched.push((a.parse().map_err(|_| bad())?, b.parse().map_err(|_| bad())?));
                }
                _ => return Err(bad()),
            }
        }
        Ok(c)
    }
}

/// Printable one-line form of a string.
pub fn esc(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() {
        match c {
            '"' | '\\' => { r.push('\\'); r.push(c); }
            ' '..='~' => r.push(c),
            _ => { let _ = write!(r, "\\u{{{:x}}}", c as u32); }
        }
    }
    r.push('"');
    r
}

fn unesc(s: &str) -> Option<String> {
    let s = s.strip_prefix('"')?.strip_suffix('"')?;
    let mut r = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c != '\\' { r.push(c); continue }
        match it.next()? {
            'u' => {
                let _ = it.next()?;
                let mut v = 0u32;
                loop {
                    let d = it.next()?;
                    if d == '}' { break }
                    v = v * 16 + d.to_digit(16)?;
                }
                r.push(char::from_u32(v)?);
            }
            x => r.push(x),
        }
    }
    Some(r)
}
