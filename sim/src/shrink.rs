//! Delta debugging over every part of a case.

use crate::case::Case;

/// Remove parts of a list while the case keeps failing.
fn list<T: Clone>(case: &mut Case, get: &dyn Fn(&Case) -> Vec<T>,
                  put: &dyn Fn(&mut Case, Vec<T>), fails: &mut dyn FnMut(&Case) -> bool) -> bool {
    let mut any = false;
    let mut chunk = get(case).len();
    while chunk > 0 {
        let mut i = 0;
        loop {
            let cur = get(case);
            if i >= cur.len() { break }
            let end = (i + chunk).min(cur.len());
            let mut v = cur[..i].to_vec();
            v.extend_from_slice(&cur[end..]);
            let mut c2 = case.clone();
            put(&mut c2, v);
            if c2 != *case && fails(&c2) {
                *case = c2;
                any = true;
            } else {
                i += chunk;
            }
        }
        chunk /= 2;
    }
    any
}

pub fn shrink(mut case: Case, fails: &mut dyn FnMut(&Case) -> bool) -> Case {
    for _ in 0..6 {
        let mut any = false;
        any |= list(&mut case, &|c| c.ops.clone(), &|c, v| c.ops = v, fails);
        any |= list(&mut case, &|c| c.faults.clone(), &|c, v| c.faults = v, fails);
        for d in 0..case.docs.len() {
            // Removing characters moves the cuts behind them.
            let mut chunk = case.docs[d].len();
            while chunk > 0 {
                let mut i = 0;
                while i < case.docs[d].len() {
                    let end = (i + chunk).min(case.docs[d].len());
                    let mut c2 = case.clone();
                    let _ = c2.docs[d].drain(i..end);
                    if let Some(c) = c2.cuts.get_mut(d) {
                        for x in c.iter_mut() {
                            if *x >= end { *x -= end - i } else if *x > i { *x = i }
                        }
                    }
                    if fails(&c2) { case = c2; any = true; } else { i += chunk; }
                }
                chunk /= 2;
            }
            any |= list(&mut case, &|c| c.cuts.get(d).cloned().unwrap_or_default(),
                        &|c, v| if let Some(x) = c.cuts.get_mut(d) { *x = v }, fails);
            // Simpler characters.
            for i in 0..case.docs[d].len() {
                for to in ['a', ' '] {
                    if case.docs[d][i] == to { break }
                    let mut c2 = case.clone();
                    c2.docs[d][i] = to;
                    if fails(&c2) { case = c2; any = true; break }
                }
            }
        }
        any |= list(&mut case, &|c| c.binds.clone(), &|c, v| c.binds = v, fails);
        any |= list(&mut case, &|c| c.sched.clone(), &|c, v| c.sched = v, fails);
        // Smaller fault positions and configuration values.
        for i in 0..case.faults.len() {
            for to in [0, case.faults[i].1 / 2, case.faults[i].1.saturating_sub(1)] {
                if to >= case.faults[i].1 { continue }
                let mut c2 = case.clone();
                c2.faults[i].1 = to;
                if fails(&c2) { case = c2; any = true; break }
            }
        }
        let keys: Vec<String> = case.cfg.keys().cloned().collect();
        for k in keys {
            let v = case.get(&k);
            for to in [0, 1, v / 2, v - v.signum()] {
                if to.abs() >= v.abs() { continue }
                let mut c2 = case.clone();
                c2.set(&k, to);
                if fails(&c2) { case = c2; any = true; break }
            }
        }
        if !any { break }
    }
    case
}
