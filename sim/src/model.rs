//! The reference model: an independent reader of the notation that works on
//! the whole document in memory.  It knows nothing about streams, pieces,
//! allocators, reference types or text representations.

use std::fmt;

/// A character with its place in the original source.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Ch {
    pub ch: char,
    pub pos: u32,
    /// Byte offset, for in-memory sources.
    pub byte: Option<u32>,
}

#[derive(Clone, PartialEq, Eq, Hash)]
pub enum M {
    Text(Vec<Ch>),
    Comb(Box<M>, Box<M>),
    Nest,
    List(Vec<M>),
    Extra(i64),
    /// Something the model can never produce.
    Odd(String),
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum E {
    Unbalanced(u32, Option<u32>),
    Missing,
    Alloc,
    Deref,
    Macro(i64),
}

pub type Item = Result<M, E>;

impl fmt::Debug for M {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            M::Text(t) => {
                let s: String = t.iter().map(|c| c.ch).collect();
                write!(f, "{:?}@", s)?;
                let mut prev: Option<Ch> = None;
                for c in t {
                    let cont = prev.map_or(false, |p| p.pos + 1 == c.pos);
                    if !cont {
                        match c.byte {
                            Some(b) => write!(f, "{}({})", c.pos, b)?,
                            None => write!(f, "{}", c.pos)?,
                        }
                        write!(f, "+")?;
                    }
                    prev = Some(*c);
                }
                Ok(())
            }
            M::Comb(a, b) => write!(f, "Comb({a:?}, {b:?})"),
            M::Nest => write!(f, "Nest"),
            M::List(v) => {
                if v.len() > 12 {
                    write!(f, "List[{} elements; {:?}..]", v.len(), &v[..6])
                } else {
                    write!(f, "List{v:?}")
                }
            }
            M::Extra(n) => write!(f, "Extra({n})"),
            M::Odd(s) => write!(f, "Odd({s})"),
        }
    }
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Call {
    pub bind: usize,
    pub operator: M,
    pub operands: M,
}

/// What an operator is bound on.
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Key {
    Text(String),
    Nest,
    EList,
    Extra(i64),
    /// A combination of a text head and no operands, i.e. `{name}`.
    Comb(String),
    /// A list of one text; only macros make it.
    One(String),
}

impl Key {
    /// `t:name`, `n`, `l`, `x:7`, `c:name`, `s:name`
    pub fn parse(s: &str) -> Key {
        if let Some(t) = s.strip_prefix("t:") { return Key::Text(t.to_string()) }
        if let Some(t) = s.strip_prefix("c:") { return Key::Comb(t.to_string()) }
        if let Some(t) = s.strip_prefix("s:") { return Key::One(t.to_string()) }
        if let Some(t) = s.strip_prefix("x:") { return Key::Extra(t.parse().unwrap_or(0)) }
        if s == "n" { Key::Nest } else { Key::EList }
    }

    pub fn matches(&self, m: &M) -> bool {
        let teq = |s: &str, t: &[Ch]| t.iter().map(|c| c.ch).eq(s.chars());
        match (self, m) {
            (Key::Text(s), M::Text(t)) => teq(s, t),
            (Key::Nest, M::Nest) => true,
            (Key::EList, M::List(v)) => v.is_empty(),
            (Key::Extra(a), M::Extra(b)) => a == b,
            (Key::Comb(s), M::Comb(a, b)) => matches!((&**a, &**b),
                (M::Text(t), M::List(v)) if v.is_empty() && teq(s, t)),
            (Key::One(s), M::List(v)) => matches!(&v[..], [M::Text(t)] if teq(s, t)),
            _ => false,
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    OpText, OpRemove, OpExtra, OpErr, OpComb, OpAllocErr, OpOperator, OpNest, OpReparse,
    ApList, ApRemove, ApExtra, ApErr, ApComb, ApOperator, ApAllocErr, ApMissing,
}

pub const KINDS: [(&str, Kind); 17] = [
    ("op-text", Kind::OpText), ("op-remove", Kind::OpRemove), ("op-extra", Kind::OpExtra),
    ("op-err", Kind::OpErr), ("op-comb", Kind::OpComb), ("op-allocerr", Kind::OpAllocErr),
    ("op-operator", Kind::OpOperator), ("op-nest", Kind::OpNest),
    ("op-reparse", Kind::OpReparse),
    ("ap-list", Kind::ApList), ("ap-remove", Kind::ApRemove), ("ap-extra", Kind::ApExtra),
    ("ap-err", Kind::ApErr), ("ap-comb", Kind::ApComb), ("ap-operator", Kind::ApOperator),
    ("ap-allocerr", Kind::ApAllocErr), ("ap-missing", Kind::ApMissing),
];

impl Kind {
    pub fn parse(s: &str) -> Kind {
        KINDS.iter().find(|(n, _)| *n == s).map_or(Kind::OpText, |x| x.1)
    }

    pub fn is_op(self) -> bool {
        matches!(self, Kind::OpText | Kind::OpRemove | Kind::OpExtra | Kind::OpErr | Kind::OpComb
                       | Kind::OpAllocErr | Kind::OpOperator | Kind::OpNest | Kind::OpReparse)
    }
}

/// Delimiters.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Delims(pub u8);

impl Delims {
    pub fn start(self, c: char) -> bool {
        match self.0 { 0 => c == '{', 1 => c == '⟪', 2 => c == '(' || c == '[', _ => c == '🄰' }
    }
    pub fn end(self, c: char) -> bool {
        match self.0 { 0 => c == '}', 1 => c == '⟫', 2 => c == ')' || c == ']', _ => c == '🄱' }
    }
    pub fn escape(self, c: char) -> bool {
        match self.0 { 0 => c == '\\', 1 => c == '␛', 2 => c == '^' || c == '~', _ => c == '🄲' }
    }
    pub fn ws(self, c: char) -> bool {
        match self.0 { 0 => c.is_whitespace(), 1 => c == '·' || c == ' ', 2 => c == '-' || c == '_',
                       _ => c == '🄳' }
    }
    /// Map a document written with the default delimiters.
    pub fn translate(self, c: char, alt: bool) -> char {
        let t: [char; 8] = match self.0 {
            0 => return c,
            1 => ['⟪', '⟪', '⟫', '⟫', '␛', '␛', '·', ' '],
            2 => ['(', '[', ')', ']', '^', '~', '-', '_'],
            _ => ['🄰', '🄰', '🄱', '🄱', '🄲', '🄲', '🄳', '🄳'],
        };
        let i = match c {
            '{' => 0, '}' => 2, '\\' => 4, _ if c.is_whitespace() => 6, _ => return c,
        };
        t[i + usize::from(alt)]
    }
}

/// Per item: the result and how much input the notation needs to decide it.
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct MItem {
    pub res: Item,
    /// Number of characters needed (`len + 1` when the end must be seen).
    pub need: usize,
    /// Index behind the last consumed character.
    pub at: usize,
    /// Macro calls made so far, including this item.
    pub calls: usize,
}

#[derive(Clone, Debug)]
pub struct Run {
    pub items: Vec<MItem>,
    pub calls: Vec<Call>,
    /// Nodes that everything read is made of.
    pub nodes: usize,
}

pub struct Model<'a> {
    pub doc: &'a [Ch],
    pub delims: Delims,
    pub binds: &'a [(Key, Kind)],
    /// Calls (by index) that fail with this error instead.
    pub call_err: &'a [u64],
    /// Where texts take nodes too: does a new run begin at this position even
    /// if it directly continues the one before?
    pub breaks: Option<&'a dyn Fn(u32) -> bool>,
    i: usize,
    need: usize,
    calls: Vec<Call>,
    depth: usize,
    nodes: usize,
}

#[derive(Clone, Copy, PartialEq, Eq)]
enum Mode { Base, Head, Raw }

impl<'a> Model<'a> {
    pub fn new(doc: &'a [Ch], delims: Delims, binds: &'a [(Key, Kind)], call_err: &'a [u64])
               -> Self {
        Self { doc, delims, binds, call_err, breaks: None, i: 0, need: 0, calls: Vec::new(),
               depth: 0, nodes: 0 }
    }

    /// Run to the end of the document, continuing after errors.
    pub fn run(mut self) -> Run {
        let mut items = Vec::new();
        loop {
            self.depth = 0;
            match self.form(Mode::Base) {
                Ok(None) => break,
                Ok(Some(m)) => items.push(self.item(Ok(m))),
                Err(e) => items.push(self.item(Err(e))),
            }
        }
        Run { items, calls: self.calls, nodes: self.nodes }
    }

    fn item(&self, res: Item) -> MItem {
        MItem { res, need: self.need, at: self.i, calls: self.calls.len() }
    }

    /// Look at the next character.
    fn look(&mut self) -> Option<char> {
        self.need = self.need.max(self.i + 1);
        self.doc.get(self.i).map(|c| c.ch)
    }

    fn form(&mut self, mode: Mode) -> Result<Option<M>, E> {
        loop {
            if mode == Mode::Head {
                while self.look().map_or(false, |c| self.delims.ws(c)) { self.i += 1; }
            }
            let Some(c) = self.look() else {
                return if self.depth == 0 { Ok(None) } else { Err(E::Missing) }
            };
            if self.delims.start(c) {
                self.depth += 1;
                let r = self.nest()?;
                self.depth -= 1;
                if r.is_some() { return Ok(r) }
            } else if self.delims.end(c) {
                if self.depth > 0 { return Ok(None) }
                return Err(self.unbalanced());
            } else {
                return self.text(mode).map(|t| Some(M::Text(t)))
            }
        }
    }

    fn unbalanced(&mut self) -> E {
        let c = self.doc[self.i];
        self.i += 1;
        E::Unbalanced(c.pos, c.byte)
    }

    fn text(&mut self, mode: Mode) -> Result<Vec<Ch>, E> {
        let mut t = Vec::new();
        let r = self.text_into(mode, &mut t);
        if let Some(breaks) = self.breaks {
            self.nodes += t.windows(2)
                .filter(|w| w[0].pos + 1 != w[1].pos || breaks(w[1].pos)).count();
        }
        r.map(|()| t)
    }

    fn text_into(&mut self, mode: Mode, t: &mut Vec<Ch>) -> Result<(), E> {
        let mut level = 0usize;
        while let Some(c) = self.look() {
            let (st, en) = (self.delims.start(c), self.delims.end(c));
            if level == 0 {
                let stop = match mode {
                    Mode::Base => st,
                    Mode::Head => st || en || self.delims.ws(c),
                    Mode::Raw => en,
                };
                if stop { break }
            }
            if self.delims.escape(c) {
                self.i += 1;
                if self.look().is_some() {
                    t.push(self.doc[self.i]);
                    self.i += 1;
                }
                continue
            }
            if st { level += 1 }
            if en {
                if level > 0 { level -= 1 }
                else if self.depth > 0 { break }
                else { return Err(self.unbalanced()) }
            }
            t.push(self.doc[self.i]);
            self.i += 1;
        }
        if level > 0 { Err(E::Missing) } else { Ok(()) }
    }

    fn close(&mut self) -> Result<(), E> {
        if self.look().is_some() { self.i += 1; Ok(()) } else { Err(E::Missing) }
    }

    fn list(&mut self) -> Result<Vec<M>, E> {
        let mut v = Vec::new();
        while let Some(m) = self.form(Mode::Base)? {
            v.push(m);
            self.nodes += 2;
        }
        Ok(v)
    }

    fn nest(&mut self) -> Result<Option<M>, E> {
        self.i += 1;
        let head = self.form(Mode::Head)?;
        if self.look().map_or(false, |c| self.delims.ws(c)) { self.i += 1; }
        let Some(head) = head else {
            self.close()?;
            return Ok(Some(M::Nest))
        };
        let Some(b) = self.binds.iter().position(|(k, _)| k.matches(&head)) else {
            let l = self.list()?;
            self.close()?;
            self.nodes += 2;
            return Ok(Some(M::Comb(Box::new(head), Box::new(M::List(l)))))
        };
        let kind = self.binds[b].1;
        let operands = if kind.is_op() {
            M::Text(self.text(Mode::Raw)?)
        } else {
            M::List(self.list()?)
        };
        self.close()?;
        let n = self.calls.len();
        self.calls.push(Call { bind: b, operator: head.clone(), operands: operands.clone() });
        if self.call_err.contains(&(n as u64)) { return Err(E::Macro(1_000_000 + n as i64)) }
        match kind {
            Kind::OpText | Kind::ApList => Ok(Some(operands)),
            Kind::OpRemove | Kind::ApRemove => Ok(None),
            Kind::OpExtra | Kind::ApExtra => Ok(Some(M::Extra(extra_of(n)))),
            Kind::OpErr | Kind::ApErr => Err(E::Macro(n as i64)),
            Kind::OpComb | Kind::ApComb => {
                self.nodes += 2;
                Ok(Some(M::Comb(Box::new(head), Box::new(operands))))
            }
            Kind::OpAllocErr | Kind::ApAllocErr => Err(E::Alloc),
            Kind::ApMissing => Err(E::Missing),
            Kind::OpOperator | Kind::ApOperator => Ok(Some(head)),
            Kind::OpNest => Ok(Some(M::Nest)),
            Kind::OpReparse => {
                let M::Text(t) = operands else { return Ok(None) };
                let mut sub = Model::new(&t, self.delims, &[], &[]);
                sub.breaks = self.breaks;
                let sub = sub.run();
                self.nodes += sub.nodes + 2 * sub.items.len();
                let mut v = Vec::new();
                for it in sub.items { v.push(it.res?) }
                Ok(Some(M::List(v)))
            }
        }
    }
}

/// The value an `Extra`-producing macro gives at its n-th call (small, so that
/// it can be bound as an operator).
pub fn extra_of(n: usize) -> i64 { (n % 4) as i64 }

pub fn chars_of(doc: &[char], bytes: bool) -> Vec<Ch> {
    let mut b = 0u32;
    doc.iter().enumerate().map(|(i, &ch)| {
        let c = Ch { ch, pos: i as u32, byte: if bytes { Some(b) } else { None } };
        b += ch.len_utf8() as u32;
        c
    }).collect()
}

/// Strip byte offsets (to compare runs of different sources).
pub fn no_bytes(m: &M) -> M {
    match m {
        M::Text(t) => M::Text(t.iter().map(|c| Ch { byte: None, ..*c }).collect()),
        M::Comb(a, b) => M::Comb(Box::new(no_bytes(a)), Box::new(no_bytes(b))),
        M::List(v) => M::List(v.iter().map(no_bytes).collect()),
        x => x.clone(),
    }
}

pub fn texts<'m>(m: &'m M, out: &mut Vec<&'m Vec<Ch>>) {
    match m {
        M::Text(t) => out.push(t),
        M::Comb(a, b) => { texts(a, out); texts(b, out) }
        M::List(v) => for x in v { texts(x, out) },
        _ => {}
    }
}
