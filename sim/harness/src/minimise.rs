//! Shrinks a failing case: operations, data, faults, then the schedule.
use crate::case::Case;
use crate::driver::{Report, Worker};
use serde_json::Value;
use simrt::Policy;
use std::time::{Duration, Instant};

/// What must stay the same while shrinking.
fn class(r: &Report) -> String {
    if let Some(d) = &r.dead {
        return if d.starts_with("the process") { "died".into() } else { "hang".into() };
    }
    match r.violations.first() {
        None => String::new(),
        Some(v) => {
            if let Some(p) = v.find("panicked: ") {
                return v[p..].chars().filter(|c| !c.is_ascii_digit()).take(60).collect();
            }
            for w in [
                "failed without a fault",
                "never ends",
                "no end after",
                "reported success although",
                "depends on the schedule",
                "differ on disk",
                "missing",
                "surplus",
                "should not be in the answer",
                "succeeded although a read failed",
                "silently missing",
                "does not open",
                "is incomplete",
                "where ",
            ] {
                if v.contains(w) {
                    return w.into();
                }
            }
            "wrong".into()
        }
    }
}

const LISTS: [&str; 12] =
    ["faults", "clients", "alt", "ops", "subs", "stack", "entries", "coords", "keys", "nonoverlap", "bboxes", "Renumber"];

/// Pointers to the lists that may be shortened, outermost first.
fn lists(v: &Value, at: String, out: &mut Vec<(String, usize)>) {
    match v {
        Value::Object(m) => {
            for (k, x) in m {
                let p = format!("{}/{}", at, k);
                if let Value::Array(a) = x {
                    if LISTS.contains(&k.as_str()) && k != "Renumber" && !a.is_empty() {
                        out.push((p.clone(), a.len()));
                    }
                }
                lists(x, p, out);
            }
        }
        Value::Array(a) => {
            for (i, x) in a.iter().enumerate() {
                // a client's program is a list in a list
                let p = format!("{}/{}", at, i);
                if at == "/clients" {
                    if let Value::Array(b) = x {
                        if !b.is_empty() {
                            out.push((p.clone(), b.len()));
                        }
                    }
                }
                lists(x, p, out);
            }
        }
        _ => {}
    }
}

pub fn minimise(w: &mut Worker, case: &Case, rep: &Report, limit: Duration) -> (Case, String) {
    let t0 = Instant::now();
    let want = class(rep);
    // every attempt at a hang costs its full allowance
    let cpu = if rep.dead.is_some() { 6.0 } else { 20.0 };
    let mut tries = 0u64;
    let mut kept = 0u64;
    let mut best = case.clone();
    let out_of_time = |t: &Instant| t.elapsed() > limit;
    let mut test = |w: &mut Worker, c: &Case| -> Option<Report> {
        tries += 1;
        let r = w.run_case(c, false, cpu);
        if !r.violations.is_empty() && class(&r) == want {
            Some(r)
        } else {
            None
        }
    };

    // simplest schedule first
    let mut simple = best.clone();
    simple.knobs.policy = Policy::Sequential;
    simple.knobs.pool = 1;
    simple.knobs.preempt = 0;
    simple.knobs.script = None;
    let sequential = test(w, &simple).is_some();
    if sequential {
        best = simple;
        kept += 1;
    }
    let size0 = serde_json::to_string(&best).map(|s| s.len()).unwrap_or(0);

    loop {
        let mut progress = false;
        let mut v = serde_json::to_value(&best).unwrap();
        let mut ls = vec![];
        lists(&v, String::new(), &mut ls);
        let mut li = 0;
        while li < ls.len() && !out_of_time(&t0) {
            let ptr = ls[li].0.clone();
            li += 1;
            let mut chunk = match v.pointer(&ptr).and_then(|a| a.as_array()) {
                Some(a) => a.len(),
                None => continue,
            };
            let least = if ptr.ends_with("/keys") { 1 } else { 0 };
            let mut shrunk_here = false;
            while chunk >= 1 && !out_of_time(&t0) {
                let mut i = 0;
                loop {
                    let len = match v.pointer(&ptr).and_then(|a| a.as_array()) {
                        Some(a) => a.len(),
                        None => break,
                    };
                    if i >= len || out_of_time(&t0) {
                        break;
                    }
                    let n = chunk.min(len - i);
                    if len - n < least {
                        i += n;
                        continue;
                    }
                    let mut v2 = v.clone();
                    v2.pointer_mut(&ptr).unwrap().as_array_mut().unwrap().drain(i..i + n);
                    let ok = match serde_json::from_value::<Case>(v2.clone()) {
                        Ok(c) if test(w, &c).is_some() => {
                            best = c;
                            true
                        }
                        _ => false,
                    };
                    if ok {
                        v = v2;
                        kept += 1;
                        progress = true;
                        shrunk_here = true;
                    } else {
                        i += n;
                    }
                }
                chunk /= 2;
            }
            if shrunk_here {
                // the paths below have moved
                ls.clear();
                lists(&v, String::new(), &mut ls);
                li = ls.iter().position(|l| l.0 == ptr).map_or(0, |p| p + 1);
            }
        }
        if !progress || out_of_time(&t0) {
            break;
        }
    }

    // the schedule as an explicit list of decisions, as short and as quiet as it gets
    let mut schedule = String::from("one task after the other");
    if !sequential {
        schedule = "seeded".into();
        let r = w.run_case(&best, false, cpu);
        if rep.dead.is_none() && !r.script.is_empty() {
            let mut c = best.clone();
            c.knobs.script = Some(r.script.clone());
            if test(w, &c).is_some() {
                best = c;
                let mut s = r.script;
                // shorter
                let mut n = s.len();
                while n > 0 && !out_of_time(&t0) {
                    let k = s.len().saturating_sub(n);
                    let mut c = best.clone();
                    c.knobs.script = Some(s[..k].to_vec());
                    if k < s.len() && test(w, &c).is_some() {
                        s.truncate(k);
                        best = c;
                        n = s.len();
                    } else {
                        n /= 2;
                    }
                }
                // fewer switches
                let mut chunk = (s.len() / 2).max(1);
                while chunk >= 1 && !s.is_empty() && !out_of_time(&t0) {
                    let mut i = 0;
                    while i < s.len() && !out_of_time(&t0) {
                        let e = (i + chunk).min(s.len());
                        if s[i..e].iter().any(|d| *d != 0) {
                            let mut s2 = s.clone();
                            for d in &mut s2[i..e] {
                                *d = 0;
                            }
                            let mut c = best.clone();
                            c.knobs.script = Some(s2.clone());
                            if test(w, &c).is_some() {
                                s = s2;
                                best = c;
                            }
                        }
                        i = e;
                    }
                    if chunk == 1 {
                        break;
                    }
                    chunk /= 2;
                }
                schedule = format!(
                    "{} explicit decisions, {} of them switches",
                    s.len(),
                    s.iter().filter(|d| **d != 0).count()
                );
            }
        }
    }
    let size1 = serde_json::to_string(&best).map(|s| s.len()).unwrap_or(0);
    let how = format!(
        "{} attempts, {} kept, case from {} to {} bytes, schedule: {}",
        tries, kept, size0, size1, schedule
    );
    (best, how)
}
