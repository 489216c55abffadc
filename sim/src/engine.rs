//! Running cases: verdicts, workers, minimisation, replay, evidence.

use std::collections::{BTreeMap, BTreeSet};
use std::io::{BufRead, BufReader, Write};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::mpsc;
use std::time::{Duration, Instant};

use crate::case::Case;
use crate::log::{self, StepCap};
use crate::rng::{hash_str, mix, Rng};

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Violation {
    /// What kind of failure; stays the same while minimising.
    pub kind: String,
    pub msg: String,
}

pub fn fail<T>(kind: &str, msg: impl Into<String>) -> Result<T, Violation> {
    Err(Violation { kind: kind.to_string(), msg: msg.into() })
}

/// What a run reports besides its verdict.
#[derive(Default)]
pub struct Cx {
    pub counts: BTreeMap<String, u64>,
    pub nontrivial: bool,
    /// Scheduling decisions that were taken.
    pub sched: Vec<(u64, u32)>,
}

impl Cx {
    pub fn count(&mut self, k: &str, n: u64) {
        if n > 0 { *self.counts.entry(k.to_string()).or_insert(0) += n; }
    }
    /// An injected fault that actually struck.
    pub fn fault(&mut self, k: &str, n: u64) { self.count(&format!("fault:{k}"), n) }
}

pub struct PropDef {
    pub id: &'static str,
    pub gen: fn(&mut Rng, bool) -> Case,
    pub run: fn(&Case, &mut Cx) -> Result<(), Violation>,
    /// (quick, thorough) number of runs.
    pub runs: (u64, u64),
    pub rule: &'static str,
    pub real: &'static str,
    pub stub: &'static str,
    pub level: &'static str,
}

pub struct Outcome {
    pub verdict: Result<(), Violation>,
    pub hash: u64,
    pub steps: u64,
    pub cx: Cx,
    pub lines: Vec<String>,
}

static PANIC_AT: std::sync::Mutex<Option<(String, String)>> = std::sync::Mutex::new(None);

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        if info.payload().is::<StepCap>() || info.payload().is::<log::Injected>() { return }
        let file = info.location().map_or(String::new(), |l| format!("{}:{}", l.file(), l.line()));
        let text = info.payload().downcast_ref::<&str>().map(|s| (*s).to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let mut g = PANIC_AT.lock().unwrap_or_else(std::sync::PoisonError::into_inner);
        if g.is_none() { *g = Some((file, text)); }
    }));
}

/// Location and text of the first panic since the last call.
pub fn take_panic() -> Option<(String, String)> {
    PANIC_AT.lock().unwrap_or_else(std::sync::PoisonError::into_inner).take()
}

/// Execute one case in this process.
pub fn execute(p: &PropDef, case: &Case, keep: bool) -> Outcome {
    log::reset(keep);
    let _ = take_panic();
    let _ = crate::hooks::take_ops();
    let mut cx = Cx::default();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (p.run)(case, &mut cx)));
    let verdict = match r {
        Ok(v) => v,
        Err(e) if e.is::<StepCap>() => Err(Violation {
            kind: "no-progress".into(),
            msg: "the run exceeded its step budget without finishing".into(),
        }),
        Err(_) => {
            let (at, text) = take_panic().unwrap_or_default();
            if at.starts_with("src/") {
                eprintln!("harness error: panic in the simulator at {at}: {text}");
                eprintln!("{}", case.to_text());
                std::process::exit(3);
            }
            Err(Violation { kind: "panic".into(), msg: format!("panic at {at}: {text}") })
        }
    };
    let (hash, steps, lines) = log::snapshot();
    Outcome { verdict, hash, steps, cx, lines }
}

pub fn run_seed(seed: u64, id: &str, idx: u64) -> u64 {
    mix(mix(seed ^ hash_str(id)).wrapping_add(mix(idx)))
}

pub fn case_for(p: &PropDef, seed: u64, idx: u64, thorough: bool) -> Case {
    let mut r = Rng::new(run_seed(seed, p.id, idx));
    (p.gen)(&mut r, thorough)
}

const BATCH: u64 = 32;

// ------------------------------------------------------------------ workers

/// Worker process: runs `first, first+stride, ..` below `count`.
pub fn worker(p: &PropDef, seed: u64, thorough: bool, first: u64, stride: u64, count: u64,
              known: &[String], deadline: Duration) {
    let out = std::io::stdout();
    let start = Instant::now();
    let mut counts: BTreeMap<String, u64> = BTreeMap::new();
    let mut hashes: BTreeSet<u64> = BTreeSet::new();
    let (mut runs, mut steps, mut nontrivial) = (0u64, 0u64, 0u64);
    let mut samples: Vec<String> = Vec::new();
    let mut i = first;
    let mut k = 0u64;
    let mut marked = Instant::now();
    while i < count && start.elapsed() < deadline {
        // Also after slow runs, so that the limit on hangs is for one run.
        if k % BATCH == 0 || marked.elapsed() > Duration::from_secs(1) {
            marked = Instant::now();
            let mut o = out.lock();
            let _ = writeln!(o, "B {i}");
            let _ = o.flush();
        }
        k += 1;
        let case = case_for(p, seed, i, thorough);
        let o = execute(p, &case, false);
        runs += 1;
        steps += o.steps;
        for (k, v) in o.cx.counts { *counts.entry(k).or_insert(0) += v; }
        if o.cx.nontrivial {
            nontrivial += 1;
            // Bounded, so that very long searches stay within memory.
            if hashes.len() < 2_000_000 { let _ = hashes.insert(o.hash); }
        }
        if samples.len() < 2 && o.cx.nontrivial && (i % 7 == 3 || k > 20) {
            let t = case.to_text().replace('\n', "; ");
            if t.len() < 500 { samples.push(t); }
        }
        if let Err(v) = o.verdict {
            let line = format!("{}: {}", v.kind, v.msg);
            if let Some(kf) = known.iter().find(|kf| line.contains(kf.as_str())) {
                *counts.entry(format!("known:{kf}")).or_insert(0) += 1;
            } else {
                let mut s = out.lock();
                let _ = writeln!(s, "V {i} {} {}", v.kind, one_line(&v.msg));
                let _ = s.flush();
                break
            }
        }
        i += stride;
    }
    let mut s = out.lock();
    let _ = writeln!(s, "N {runs} {steps} {nontrivial} {}", u8::from(i < count));
    for (k, v) in counts { let _ = writeln!(s, "C {v} {k}"); }
    for x in samples { let _ = writeln!(s, "S {x}"); }
    let mut buf = String::new();
    for h in hashes { buf.push_str(&format!("H {h:x}\n")); }
    let _ = s.write_all(buf.as_bytes());
    let _ = writeln!(s, "D");
    let _ = s.flush();
}

pub fn one_line(s: &str) -> String {
    let t: String = s.replace('\n', " / ");
    if t.chars().count() > 1500 { t.chars().take(1500).collect::<String>() + "…" } else { t }
}

struct Found {
    idx: u64,
    /// Runs to execute before, in the same process; usually none.
    before: Vec<Case>,
    case: Case,
    kind: String,
    msg: String,
    /// Must be executed in a process of its own (abort or hang).
    apart: bool,
}

pub struct Opts {
    pub seed: u64,
    pub thorough: bool,
    pub workers: u64,
    pub root: PathBuf,
    pub runs: Option<u64>,
    pub profile: String,
}

/// Outcome of executing a case in a process of its own.
enum Apart {
    Held,
    Violated(String, String),
    Crashed(String),
    Hung,
    Harness(String),
}

/// A sequence of cases as text; the last one is what is judged.
fn sequence_text(before: &[Case], case: &Case) -> String {
    let mut s = String::new();
    for c in before {
        s.push_str(&c.to_text());
        s.push_str("next\n");
    }
    s.push_str(&case.to_text());
    s
}

fn sequence_from<'a>(lines: impl Iterator<Item = &'a str>) -> Result<(Vec<Case>, Case), String> {
    let (mut v, mut cur) = (Vec::new(), Vec::new());
    for l in lines {
        if l == "next" { v.push(Case::from_lines(cur.drain(..))?); } else { cur.push(l); }
    }
    Ok((v, Case::from_lines(cur.into_iter())?))
}

fn run_apart(id: &str, before: &[Case], case: &Case, dir: &Path, limit: Duration) -> Apart {
    let f = dir.join(format!("apart-{}.case", std::process::id()));
    if std::fs::write(&f, sequence_text(before, case)).is_err() {
        return Apart::Harness("cannot write".into())
    }
    let exe = match std::env::current_exe() { Ok(e) => e, Err(e) => return Apart::Harness(e.to_string()) };
    let child = Command::new(exe).arg("one").arg(id).arg(&f)
        .stdout(Stdio::piped()).stderr(Stdio::null()).spawn();
    let mut child = match child { Ok(c) => c, Err(e) => return Apart::Harness(e.to_string()) };
    let start = Instant::now();
    let st = loop {
        match child.try_wait() {
            Ok(Some(s)) => break s,
            Ok(None) => {
                if start.elapsed() > limit {
                    let _ = child.kill();
                    let _ = child.wait();
                    let _ = std::fs::remove_file(&f);
                    return Apart::Hung
                }
                std::thread::sleep(Duration::from_millis(3));
            }
            Err(e) => return Apart::Harness(e.to_string()),
        }
    };
    let mut text = String::new();
    if let Some(mut o) = child.stdout.take() {
        use std::io::Read;
        let _ = o.read_to_string(&mut text);
    }
    let _ = std::fs::remove_file(&f);
    match st.code() {
        Some(0) => Apart::Held,
        Some(1) => {
            let l = text.lines().find(|l| l.starts_with("V ")).unwrap_or("V ? ?");
            let mut it = l.splitn(3, ' ').skip(1);
            Apart::Violated(it.next().unwrap_or("?").into(), it.next().unwrap_or("").into())
        }
        Some(c) => Apart::Harness(format!("exit code {c}: {text}")),
        None => {
            use std::os::unix::process::ExitStatusExt;
            Apart::Crashed(format!("the process was ended by signal {}", st.signal().unwrap_or(0)))
        }
    }
}

/// Mode `one`: execute a case file; exit code 0 held, 1 violated.
pub fn one(p: &PropDef, file: &Path) -> i32 {
    let Ok(t) = std::fs::read_to_string(file) else { return 3 };
    let Ok((before, case)) = sequence_from(t.lines()) else { return 3 };
    for c in &before { let _ = execute(p, c, false); }
    let o = execute(p, &case, false);
    println!("T {:x}", o.hash);
    match o.verdict {
        Ok(()) => 0,
        Err(v) => {
            println!("V {} {}", v.kind, one_line(&v.msg));
            1
        }
    }
}

pub fn known_findings(root: &Path, id: &str) -> Vec<String> {
    // Lines `open: property=<id> match=<text>`; the text must occur in the
    // violation for it to be the known one.
    let t = std::fs::read_to_string(root.join("known-findings.txt")).unwrap_or_default();
    t.lines().filter_map(|l| {
        let r = l.strip_prefix("open: property=")?.strip_prefix(id)?.strip_prefix(" match=")?;
        if r.len() < 8 { None } else { Some(r.trim_end().to_string()) }
    }).collect()
}

pub fn check(p: &PropDef, o: &Opts) -> i32 {
    let start = Instant::now();
    let count = o.runs.unwrap_or(if o.thorough { p.runs.1 } else { p.runs.0 });
    let deadline = Duration::from_secs(if o.thorough { 780 } else { 300 });
    let scratch = o.root.join("target").join("scratch");
    let _ = std::fs::create_dir_all(&scratch);
    let replays = o.root.join("replays");
    let _ = std::fs::create_dir_all(&replays);

    let exe = match std::env::current_exe() {
        Ok(e) => e,
        Err(e) => { eprintln!("harness error: {e}"); return 3 }
    };
    let (tx, rx) = mpsc::channel::<(u64, Option<String>)>();
    let mut children = Vec::new();
    for w in 0..o.workers {
        let c = Command::new(&exe)
            .args(["worker", p.id, &o.seed.to_string(), if o.thorough { "thorough" } else { "quick" },
                   &w.to_string(), &o.workers.to_string(), &count.to_string(),
                   &deadline.as_secs().to_string()])
            .env("KSIM_ROOT", &o.root)
            .stdout(Stdio::piped()).spawn();
        let mut c = match c {
            Ok(c) => c,
            Err(e) => { eprintln!("harness error: cannot start a worker: {e}"); return 3 }
        };
        let out = c.stdout.take();
        let tx = tx.clone();
        let _ = std::thread::spawn(move || {
            if let Some(out) = out {
                for l in BufReader::new(out).lines() {
                    match l {
                        Ok(l) => if tx.send((w, Some(l))).is_err() { return },
                        Err(_) => break,
                    }
                }
            }
            let _ = tx.send((w, None));
        });
        children.push(c);
    }
    drop(tx);

    let mut last_batch: Vec<u64> = (0..o.workers).collect();
    let mut last_seen: Vec<Instant> = vec![Instant::now(); o.workers as usize];
    let mut done = vec![false; o.workers as usize];
    let mut closed = vec![false; o.workers as usize];
    let mut finder = vec![false; o.workers as usize];
    let mut suspects: Vec<(u64, String)> = Vec::new();
    let mut found: Vec<(u64, String, String)> = Vec::new();
    let (mut runs, mut steps, mut nontrivial, mut cut_short) = (0u64, 0u64, 0u64, 0u64);
    let mut counts: BTreeMap<String, u64> = BTreeMap::new();
    let mut hashes: BTreeSet<u64> = BTreeSet::new();
    let mut samples: Vec<String> = Vec::new();
    let hang = Duration::from_secs(60);
    while closed.iter().any(|c| !c) {
        match rx.recv_timeout(Duration::from_millis(500)) {
            Ok((w, Some(l))) => {
                let wi = w as usize;
                last_seen[wi] = Instant::now();
                let (k, rest) = l.split_once(' ').unwrap_or((&l, ""));
                match k {
                    "B" => last_batch[wi] = rest.parse().unwrap_or(0),
                    "V" => {
                        finder[wi] = true;
                        let mut it = rest.splitn(3, ' ');
                        let idx = it.next().and_then(|x| x.parse().ok()).unwrap_or(0);
                        found.push((idx, it.next().unwrap_or("?").to_string(),
                                    it.next().unwrap_or("").to_string()));
                    }
                    "N" => {
                        let v: Vec<u64> = rest.split(' ').filter_map(|x| x.parse().ok()).collect();
                        if v.len() == 4 {
                            runs += v[0]; steps += v[1]; nontrivial += v[2]; cut_short += v[3];
                        }
                    }
                    "C" => if let Some((n, k)) = rest.split_once(' ') {
                        *counts.entry(k.to_string()).or_insert(0) += n.parse::<u64>().unwrap_or(0);
                    },
                    "S" => if samples.len() < 6 { samples.push(rest.to_string()) },
                    "H" => { let _ = hashes.insert(u64::from_str_radix(rest, 16).unwrap_or(0)); }
                    "D" => done[wi] = true,
                    _ => {}
                }
            }
            Ok((w, None)) => {
                let wi = w as usize;
                closed[wi] = true;
                let st = children[wi].wait();
                if !done[wi] {
                    let desc = match &st {
                        Ok(s) => s.to_string(),
                        Err(e) => e.to_string(),
                    };
                    if let Ok(s) = &st {
                        if s.code() == Some(3) {
                            eprintln!("harness error reported by a worker");
                            for c in &mut children { let _ = c.kill(); }
                            return 3
                        }
                    }
                    suspects.push((last_batch[wi], desc));
                }
            }
            Err(mpsc::RecvTimeoutError::Timeout) => {}
            Err(mpsc::RecvTimeoutError::Disconnected) => break,
        }
        for w in 0..o.workers as usize {
            if !closed[w] && !done[w] && last_seen[w].elapsed() > hang {
                let _ = children[w].kill();
                last_seen[w] = Instant::now();
            }
        }
        if !found.is_empty() || !suspects.is_empty() {
            // The others need not go on.
            for (w, c) in children.iter_mut().enumerate() {
                if !closed[w] && !done[w] && !finder[w] { let _ = c.kill(); done[w] = true; }
            }
        }
    }

    let mut bad: Option<Found> = None;
    found.sort();
    if let Some((idx, kind, msg)) = found.into_iter().next() {
        let case = case_for(p, o.seed, idx, o.thorough);
        bad = Some(Found { idx, before: Vec::new(), case, kind, msg, apart: false });
    }
    if bad.is_none() {
        // A worker died or hung: find the run it was executing.
        'outer: for (first, desc) in &suspects {
            let mut i = *first;
            for _ in 0..BATCH {
                if i >= count { break }
                let case = case_for(p, o.seed, i, o.thorough);
                match run_apart(p.id, &[], &case, &scratch, hang) {
                    Apart::Held => {}
                    Apart::Violated(kind, msg) => {
                        bad = Some(Found { idx: i, before: Vec::new(), case, kind, msg, apart: false });
                        break 'outer
                    }
                    Apart::Crashed(m) => {
                        bad = Some(Found { idx: i, before: Vec::new(), case, kind: "crash".into(), msg: m, apart: true });
                        break 'outer
                    }
                    Apart::Hung => {
                        bad = Some(Found { idx: i, before: Vec::new(), case, kind: "hang".into(),
                                           msg: "the run does not end".into(), apart: true });
                        break 'outer
                    }
                    Apart::Harness(m) => { eprintln!("harness error: {m}"); return 3 }
                }
                i += o.workers;
            }
            // No run does it by itself: with the runs that went before?
            match crash_in_sequence(p, o, *first, count, &scratch, hang) {
                Some(f) => { bad = Some(f); break 'outer }
                None => {
                    eprintln!("harness error: a worker ended unexpectedly ({desc}) but no run \
                               reproduces it");
                    return 3
                }
            }
        }
    }

    for (k, v) in &counts {
        if let Some(kf) = k.strip_prefix("known:") {
            println!("KNOWN-FINDING: property={} {kf} ({v} runs)", p.id);
        }
    }

    let mut code = 0;
    let mut violations = 0;
    if let Some(f) = bad {
        violations = 1;
        code = 1;
        match report_apart(p, o, &f, &scratch, &replays) {
            Ok(path) => println!("VIOLATION property={} replay={}", p.id, path.display()),
            Err(e) => { eprintln!("harness error: {e}"); return 3 }
        }
    }
    let wall = start.elapsed().as_secs_f64();
    if let Err(e) = evidence(p, o, wall, runs, steps, nontrivial, cut_short, &counts, &hashes,
                             &samples, violations) {
        eprintln!("harness error: cannot write evidence: {e}");
        return 3
    }
    eprintln!("{}: {} runs, {} events, {} distinct executions, {:.1} s, {}",
              p.id, runs, steps, hashes.len(), wall, if code == 0 { "held" } else { "VIOLATED" });
    code
}

/// Minimise in a process of its own (a shrunk case may crash or hang it); fall
/// back to the case as found.
fn report_apart(p: &PropDef, o: &Opts, f: &Found, scratch: &Path, replays: &Path)
                -> Result<PathBuf, String> {
    let path = replays.join(format!("{}-seed{}-run{}.replay", p.id, o.seed, f.idx));
    let (hash, lines) = (trace_of(p, f, scratch), Vec::new());
    let raw = replay_text(p, o, f, &f.case, &f.msg, hash, &lines, "not minimised");
    std::fs::write(&path, raw).map_err(|e| e.to_string())?;
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    let out = path.with_extension("min");
    let child = Command::new(exe)
        .args(["minimise", p.id]).arg(&path).arg(&out)
        .args([f.idx.to_string(), o.seed.to_string(), u8::from(o.thorough).to_string(),
               u8::from(f.apart).to_string()])
        .env("KSIM_ROOT", &o.root)
        .stdout(Stdio::null()).stderr(Stdio::null()).spawn();
    if let Ok(mut c) = child {
        let t0 = Instant::now();
        let ok = loop {
            match c.try_wait() {
                Ok(Some(s)) => break s.success(),
                Ok(None) => {
                    if t0.elapsed() > Duration::from_secs(150) {
                        let _ = c.kill();
                        let _ = c.wait();
                        break false
                    }
                    std::thread::sleep(Duration::from_millis(5));
                }
                Err(_) => break false,
            }
        };
        if ok && out.exists() && replays_apart(&out) {
            std::fs::rename(&out, &path).map_err(|e| e.to_string())?;
        } else {
            let _ = std::fs::remove_file(&out);
        }
    }
    let t = std::fs::read_to_string(&path).map_err(|e| e.to_string())?;
    let msg = t.lines().find_map(|l| l.strip_prefix("message ")).unwrap_or(&f.msg);
    println!("{}: {}: {}", p.id, f.kind, msg);
    println!("{}: seed {} run {}", p.id, o.seed, f.idx);
    if replays_apart(&path) { return Ok(path) }
    // The run fails only after others in the same process, so something outlives
    // the runs: look for the runs it takes.
    let seq = if f.before.is_empty() { in_sequence(p, o, f, scratch) } else { None };
    if let Some(f) = seq {
        let how = format!("fails only after {} other runs in the same process", f.before.len());
        let hash = trace_of(p, &f, scratch);
        std::fs::write(&path, replay_text(p, o, &f, &f.case, &f.msg, hash, &[], &how))
            .map_err(|e| e.to_string())?;
        println!("{}: {how}", p.id);
        if replays_apart(&path) { return Ok(path) }
    }
    Err(format!("{} does not reproduce", path.display()))
}

/// Does the sequence fail as `f` did?
fn fails_after(p: &PropDef, f: &Found, before: &[Case], case: &Case, scratch: &Path, limit: Duration)
               -> Option<String> {
    match run_apart(p.id, before, case, scratch, limit) {
        Apart::Violated(k, m) if k == f.kind => Some(m),
        Apart::Crashed(m) if f.kind == "crash" => Some(m),
        Apart::Hung if f.kind == "hang" => Some(f.msg.clone()),
        _ => None,
    }
}

/// The earlier runs of the worker that executed run `idx`.
fn earlier(p: &PropDef, o: &Opts, idx: u64) -> Vec<Case> {
    let mut v = Vec::new();
    let mut i = idx % o.workers;
    while i < idx {
        v.push(case_for(p, o.seed, i, o.thorough));
        i += o.workers;
    }
    v
}

/// A short sequence of runs that ends in the failure.
fn in_sequence(p: &PropDef, o: &Opts, f: &Found, scratch: &Path) -> Option<Found> {
    let t0 = Instant::now();
    let limit = Duration::from_secs(if f.kind == "hang" { 60 } else { 200 });
    let all = earlier(p, o, f.idx);
    let mut msg = None;
    let mut before = Vec::new();
    let mut n = 1;
    while msg.is_none() && t0.elapsed() < Duration::from_secs(150) {
        before = all[all.len().saturating_sub(n)..].to_vec();
        msg = fails_after(p, f, &before, &f.case, scratch, limit);
        if n >= all.len() { break }
        n *= 2;
    }
    let mut msg = msg?;
    let mut case = f.case.clone();
    let limit = Duration::from_secs(if f.kind == "hang" { 5 } else { 60 });
    let until = t0.elapsed() + Duration::from_secs(80);
    // Leave out runs.
    let mut chunk = before.len();
    while chunk > 0 && t0.elapsed() < until {
        let mut i = 0;
        while i < before.len() && t0.elapsed() < until {
            let end = (i + chunk).min(before.len());
            let mut b = before[..i].to_vec();
            b.extend_from_slice(&before[end..]);
            match fails_after(p, f, &b, &case, scratch, limit) {
                Some(m) => { before = b; msg = m; }
                None => i += chunk,
            }
        }
        chunk /= 2;
    }
    // Make those that remain smaller.
    let until = t0.elapsed() + Duration::from_secs(40);
    for k in 0..before.len().min(20) {
        let c = before[k].clone();
        let mut b = before.clone();
        before[k] = crate::shrink::shrink(c, &mut |c| {
            if t0.elapsed() > until { return false }
            b[k] = c.clone();
            fails_after(p, f, &b, &case, scratch, limit).is_some()
        });
    }
    let until = t0.elapsed() + Duration::from_secs(30);
    case = crate::shrink::shrink(case, &mut |c| {
        if t0.elapsed() > until { return false }
        match fails_after(p, f, &before, c, scratch, limit) {
            Some(m) => { msg = m; true }
            None => false,
        }
    });
    Some(Found { idx: f.idx, before, case, kind: f.kind.clone(), msg, apart: f.apart })
}

/// The run at which a worker died, given the runs before it.
fn crash_in_sequence(p: &PropDef, o: &Opts, first: u64, count: u64, scratch: &Path, hang: Duration)
                     -> Option<Found> {
    let before = earlier(p, o, first);
    let mut batch = Vec::new();
    let mut i = first;
    while i < count && (batch.len() as u64) < BATCH {
        batch.push((i, case_for(p, o.seed, i, o.thorough)));
        i += o.workers;
    }
    let t0 = Instant::now();
    // The first run of the batch at which the sequence no longer gets through.
    let (mut lo, mut hi) = (0, batch.len());
    let mut hit: Option<Found> = None;
    while lo < hi && t0.elapsed() < Duration::from_secs(240) {
        let mid = (lo + hi) / 2;
        let mut b = before.clone();
        b.extend(batch[..mid].iter().map(|x| x.1.clone()));
        let (idx, case) = batch[mid].clone();
        let found = |kind: &str, msg: String, apart| {
            Some(Found { idx, before: Vec::new(), case: case.clone(), kind: kind.into(), msg, apart })
        };
        let r = match run_apart(p.id, &b, &case, scratch, hang * 3) {
            Apart::Violated(kind, msg) => found(&kind, msg, false),
            Apart::Crashed(m) => found("crash", m, true),
            Apart::Hung => found("hang", "the run does not end".into(), true),
            Apart::Held | Apart::Harness(_) => None,
        };
        if r.is_some() { hit = r; hi = mid; } else { lo = mid + 1; }
    }
    hit
}

fn replays_apart(path: &Path) -> bool {
    let Ok(exe) = std::env::current_exe() else { return false };
    let st = Command::new(exe).arg("replay-quiet").arg(path)
        .stdout(Stdio::null()).stderr(Stdio::null()).status();
    matches!(st, Ok(s) if s.code() == Some(1))
}

fn trace_of(p: &PropDef, f: &Found, scratch: &Path) -> u64 {
    if f.apart { return 0 }
    let file = scratch.join(format!("trace-{}.case", std::process::id()));
    if std::fs::write(&file, sequence_text(&f.before, &f.case)).is_err() { return 0 }
    let Ok(exe) = std::env::current_exe() else { return 0 };
    let r = Command::new(exe).args(["one", p.id]).arg(&file).stderr(Stdio::null()).output();
    let _ = std::fs::remove_file(&file);
    let Ok(r) = r else { return 0 };
    String::from_utf8_lossy(&r.stdout).lines()
        .find_map(|l| l.strip_prefix("T ").and_then(|x| u64::from_str_radix(x, 16).ok()))
        .unwrap_or(0)
}

#[allow(clippy::too_many_arguments)]
fn replay_text(p: &PropDef, o: &Opts, f: &Found, case: &Case, msg: &str, hash: u64,
               lines: &[String], how: &str) -> String {
    let mut s = String::new();
    s.push_str("# A failing simulated run.  Re-execute it with:\n");
    s.push_str("#   bash /verif/check.sh --replay <this file>\n");
    s.push_str("ksim-replay 1\n");
    s.push_str(&format!("property {}\n", p.id));
    s.push_str(&format!("profile {}\n", o.profile));
    s.push_str(&format!("found seed={} run={} tier={}\n", o.seed, f.idx,
                        if o.thorough { "thorough" } else { "quick" }));
    s.push_str(&format!("{how}\n"));
    s.push_str(&format!("kind {}\n", f.kind));
    s.push_str(&format!("message {}\n", one_line(msg)));
    s.push_str(&format!("trace-hash {hash:x}\n"));
    s.push_str("case\n");
    s.push_str(&sequence_text(&f.before, case));
    s.push_str("end\n");
    s.push_str("trace\n");
    for l in lines.iter().take(4000) { s.push_str(l); s.push('\n'); }
    s
}

/// Mode `minimise`.
pub fn minimise(p: &PropDef, o: &Opts, from: &Path, out: &Path, idx: u64, apart: bool) -> i32 {
    let scratch = o.root.join("target").join("scratch");
    let Ok(t) = std::fs::read_to_string(from) else { return 3 };
    let get = |k: &str| t.lines().find_map(|l| l.strip_prefix(k).map(|x| x.trim().to_string()));
    let body: Vec<&str> = t.lines().skip_while(|l| *l != "case").skip(1)
        .take_while(|l| *l != "end").collect();
    let (Ok(case), Some(kind), Some(msg)) = (Case::from_lines(body.into_iter()), get("kind "),
                                             get("message ")) else { return 3 };
    let f = Found { idx, before: Vec::new(), case, kind, msg, apart };
    let original = f.case.size();
    let mut tried = 0u64;
    let t0 = Instant::now();
    let kind = f.kind.clone();
    let mut best_msg = f.msg.clone();
    let mut case = f.case.clone();
    // Make scheduling decisions explicit.
    if !apart {
        let o = execute(p, &case, false);
        if o.verdict.is_err() && !o.cx.sched.is_empty() {
            let mut c2 = case.clone();
            c2.sched = o.cx.sched;
            c2.scripted = true;
            if let Err(v) = execute(p, &c2, false).verdict {
                if v.kind == kind { case = c2; }
            }
        }
    }
    let hang = Duration::from_secs(if kind == "hang" { 5 } else { 30 });
    let limit = Duration::from_secs(60);
    let mut fails = |c: &Case| -> bool {
        if t0.elapsed() > limit { return false }
        tried += 1;
        if apart {
            match run_apart(p.id, &[], c, &scratch, hang) {
                Apart::Crashed(m) if kind == "crash" => { best_msg = m; true }
                Apart::Hung if kind == "hang" => true,
                _ => false,
            }
        } else {
            match execute(p, c, false).verdict {
                Err(v) if v.kind == kind => { best_msg = v.msg; true }
                _ => false,
            }
        }
    };
    let case = crate::shrink::shrink(case, &mut fails);
    let (hash, lines, msg) = if apart {
        (0, Vec::new(), best_msg)
    } else {
        let out = execute(p, &case, true);
        match out.verdict {
            Err(v) => (out.hash, out.lines, v.msg),
            Ok(()) => return 3,
        }
    };
    let how = format!("minimised from size {original} to {} in {tried} executions", case.size());
    let s = replay_text(p, o, &f, &case, &msg, hash, &lines, &how);
    if std::fs::write(out, s).is_err() { return 3 }
    0
}

/// Property and profile named by a replay file.
pub fn replay_head(path: &Path) -> Option<(String, String)> {
    let t = std::fs::read_to_string(path).ok()?;
    let get = |k: &str| t.lines().find_map(|l| l.strip_prefix(k).map(|x| x.trim().to_string()));
    Some((get("property ")?, get("profile ")?))
}

/// Does the file fail the same way, with the same trace?
pub fn replay_in(p: &PropDef, path: &Path, scratch: &Path, show: bool) -> Result<bool, String> {
    let t = std::fs::read_to_string(path).map_err(|e| e.to_string())?;
    let get = |k: &str| t.lines().find_map(|l| l.strip_prefix(k).map(|x| x.trim().to_string()));
    let kind = get("kind ").ok_or("no kind")?;
    let want = u64::from_str_radix(&get("trace-hash ").ok_or("no hash")?, 16)
        .map_err(|e| e.to_string())?;
    let body: Vec<&str> = t.lines().skip_while(|l| *l != "case").skip(1)
        .take_while(|l| *l != "end").collect();
    let (before, case) = sequence_from(body.into_iter())?;
    if kind == "crash" || kind == "hang" {
        let _ = std::fs::create_dir_all(scratch);
        let r = run_apart(p.id, &before, &case, scratch,
                          Duration::from_secs(if kind == "hang" { 5 } else { 60 }));
        return Ok(match r {
            Apart::Crashed(m) => { if show { println!("crash: {m}") } kind == "crash" }
            Apart::Hung => { if show { println!("hang") } kind == "hang" }
            _ => false,
        })
    }
    for c in &before { let _ = execute(p, c, false); }
    let o = execute(p, &case, true);
    if show {
        for l in &o.lines { println!("{l}"); }
        println!("trace-hash {:x} (recorded {want:x})", o.hash);
    }
    match o.verdict {
        Ok(()) => { if show { println!("held") } Ok(false) }
        Err(v) => {
            if show { println!("{}: {}", v.kind, v.msg) }
            Ok(v.kind == kind && o.hash == want)
        }
    }
}

// ----------------------------------------------------------------- evidence

fn js(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => r.push_str("\\\""),
            '\\' => r.push_str("\\\\"),
            '\n' => r.push_str("\\n"),
            c if (c as u32) < 32 => r.push_str(&format!("\\u{:04x}", c as u32)),
            c => r.push(c),
        }
    }
    r.push('"');
    r
}

#[allow(clippy::too_many_arguments)]
fn evidence(p: &PropDef, o: &Opts, wall: f64, runs: u64, steps: u64, nontrivial: u64, cut: u64,
            counts: &BTreeMap<String, u64>, hashes: &BTreeSet<u64>, samples: &[String],
            violations: u64) -> std::io::Result<()> {
    let dir = o.root.join("evidence");
    std::fs::create_dir_all(&dir)?;
    let map = |pre: &str| -> String {
        let v: Vec<String> = counts.iter().filter_map(|(k, n)| {
            let k = if pre.is_empty() {
                if k.contains(':') { return None }
                k
            } else { k.strip_prefix(pre)? };
            Some(format!("{}: {n}", js(k)))
        }).collect();
        format!("{{{}}}", v.join(", "))
    };
    let per_hour = if wall > 0.0 { (runs as f64 / wall * 3600.0) as u64 } else { 0 };
    let s = format!(
"{{
 \"property\": {},
 \"tier\": {},
 \"seed\": {},
 \"level\": {},
 \"coverage\": {{
  \"evaluations\": {runs},
  \"distinct_nontrivial\": {},
  \"rule\": {},
  \"samples\": [{}],
  \"nontrivial_runs\": {nontrivial},
  \"seeds_per_hour\": {per_hour},
  \"simulated_time_events\": {steps},
  \"faults_injected\": {},
  \"observed\": {},
  \"known_findings_hit\": {},
  \"workers_cut_short_by_time\": {cut},
  \"workers\": {},
  \"distinct_measure\": \"hash of the complete event trace of a run (every source request, allocation, macro call, reference-count operation, scheduling decision and item)\",
  \"real_components\": {},
  \"stub_components\": {},
  \"build_profile\": {}
 }},
 \"wall_s\": {wall:.3},
 \"violations\": {violations}
}}
",
        js(p.id), js(if o.thorough { "thorough" } else { "quick" }), o.seed, js(p.level),
        hashes.len(), js(p.rule),
        samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(", "),
        map("fault:"), map(""), map("known:"), o.workers, js(p.real), js(p.stub), js(&o.profile));
    std::fs::write(dir.join(format!("{}.json", p.id)), s)
}
