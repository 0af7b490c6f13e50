//! Runs many cases in worker processes, reports violations, writes evidence.
use crate::case::*;
use crate::exec::{run, PlanOut, RunOut};
use crate::gen::{gen, Tier, PROPS};
use crate::judge::{models, resolve, same_answers, Ctx, Verdict};
use crate::minimise;
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::io::{BufRead, Read, Write};
use std::os::unix::io::AsRawFd;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub fn verif_dir() -> String {
    std::env::var("CARMEN_VERIF").unwrap_or_else(|_| "/verif".into())
}

// ---- one case ------------------------------------------------------------------------------------

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Report {
    pub violations: Vec<String>,
    pub known: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub checked: u64,
    pub harness: Vec<String>,
    /// event log of the main run
    pub log_hash: u64,
    /// event logs of all runs of the case
    pub all_hash: u64,
    pub schedule_hash: u64,
    pub runs: u64,
    pub steps: u64,
    pub sim_ns: u64,
    pub tasks: u64,
    pub switches: u64,
    pub decisions: u64,
    pub foreign: u64,
    #[serde(default)]
    pub own: [u64; 5],
    pub ops: BTreeMap<String, u64>,
    pub faults: BTreeMap<String, u64>,
    pub scenario: String,
    /// filled in by the parent: the process died or did not answer
    #[serde(default)]
    pub dead: Option<String>,
    #[serde(default)]
    pub log: Vec<String>,
    #[serde(default)]
    pub script: Vec<u32>,
}

/// The listed findings: (property, site) -> what fails.
pub fn listed() -> BTreeMap<(String, String), String> {
    let mut out = BTreeMap::new();
    let text = std::fs::read_to_string(format!("{}/known_findings.txt", verif_dir())).unwrap_or_default();
    for l in text.lines() {
        // known: property=C03 site=[keys next] what fails
        if let Some(rest) = l.strip_prefix("known: property=") {
            if let (Some(sp), Some(a), Some(b)) = (rest.find(' '), rest.find("site=["), rest.find("] ")) {
                out.insert(
                    (rest[..sp].to_string(), rest[a + 6..b].to_string()),
                    rest[b + 2..].trim().to_string(),
                );
            }
        }
    }
    out
}

fn fnv(h: u64, v: u64) -> u64 {
    let mut h = h;
    for b in v.to_le_bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

/// Compares answers only, without the texts and positions that differ between schedules.
fn one(case: &Case, trace: bool) -> (Report, Vec<RunOut>) {
    let plain = resolve(case);
    let ms = models(&plain);
    let ctx = Ctx::new(&plain, &ms);
    let mut v = Verdict::default();
    let mut runs = vec![run(case, &case.knobs, trace)];
    ctx.judge(&runs[0], &mut v);
    for k in &case.alt {
        let r = run(case, k, false);
        ctx.judge(&r, &mut v);
        same_answers(&runs[0], &r, &mut v);
        runs.push(r);
    }
    let mut rep = Report {
        violations: v.violations,
        known: v.known,
        probes: v.probes,
        checked: v.checked,
        harness: v.harness,
        log_hash: runs[0].log_hash,
        scenario: case.scenario.clone(),
        ..Report::default()
    };
    rep.all_hash = 0xcbf29ce484222325;
    rep.schedule_hash = 0xcbf29ce484222325;
    for r in &runs {
        rep.all_hash = fnv(rep.all_hash, r.log_hash);
        for d in &r.decisions {
            rep.schedule_hash = fnv(rep.schedule_hash, *d as u64);
        }
        rep.runs += 1;
        rep.steps += r.stats.steps;
        rep.sim_ns += r.stats.sim_ns;
        rep.tasks += r.stats.tasks;
        rep.switches += r.stats.switches;
        rep.decisions += r.stats.decisions;
        rep.foreign += r.stats.foreign_blocks;
        for (o, n) in rep.own.iter_mut().zip([r.stats.own_waits, r.stats.own_sleeps, r.stats.own_threads, r.stats.preemptions, r.stats.preempted]) {
            *o += n;
        }
        for (k, n) in &r.stats.ops {
            *rep.ops.entry(k.clone()).or_insert(0) += n;
        }
        for (k, n) in &r.stats.faults {
            *rep.faults.entry(k.clone()).or_insert(0) += n;
        }
    }
    (rep, runs)
}

pub fn evaluate(case: &Case, trace: bool, allowed: &BTreeSet<String>) -> Report {
    let r = catch_unwind(AssertUnwindSafe(|| {
        let (mut rep, mut runs) = one(case, trace);
        if trace {
            rep.log = std::mem::take(&mut runs[0].log);
        }
        if trace || !rep.violations.is_empty() {
            rep.script = runs[0].decisions.clone();
        }
        for (site, n) in rep.known.clone() {
            if !allowed.contains(&site) {
                rep.violations.push(format!("{}: data silently missing ({} times)", site, n));
            }
        }
        rep
    }));
    match r {
        Ok(r) => r,
        Err(p) => Report { harness: vec![format!("judge: {}", simrt::panic_text(&*p))], ..Report::default() },
    }
}

// ---- worker process ------------------------------------------------------------------------------

#[derive(Serialize, Deserialize)]
enum Request {
    Index { prop: String, seed: u64, index: u64, tier: String },
    Case { case: Case, trace: bool },
}

fn tier_of(t: &str) -> Tier {
    if t == "thorough" {
        Tier::Thorough
    } else {
        Tier::Quick
    }
}

pub fn serve() -> i32 {
    unsafe {
        let lim = libc::rlimit { rlim_cur: 12 << 30, rlim_max: 12 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &lim);
        let none = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &none);
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
    }
    std::panic::set_hook(Box::new(|_| {}));
    let list = listed();
    let stdin = std::io::stdin();
    let mut line = String::new();
    loop {
        line.clear();
        match stdin.lock().read_line(&mut line) {
            Ok(0) | Err(_) => return 0,
            Ok(_) => {}
        }
        let req: Request = match serde_json::from_str(&line) {
            Ok(r) => r,
            Err(e) => {
                eprintln!("bad request: {}", e);
                return 2;
            }
        };
        let (case, trace) = match req {
            Request::Index { prop, seed, index, tier } => (Err((prop, seed, index, tier)), false),
            Request::Case { case, trace } => (Ok(case), trace),
        };
        // every case starts from a pristine process: nothing the code under test keeps in statics
        // or thread locals survives into the next one
        crate::os::use_scratch(std::process::id());
        match unsafe { libc::fork() } {
            -1 => return 3,
            0 => {
                unsafe { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL) };
                say(format!("#{}\n", std::process::id()).as_bytes());
                simrt::os::when_stuck(stuck);
                let case = match case {
                    Ok(c) => c,
                    Err((prop, seed, index, tier)) => gen(&prop, seed, index, tier_of(&tier)),
                };
                let allowed: BTreeSet<String> =
                    list.keys().filter(|k| k.0 == case.prop).map(|k| k.1.clone()).collect();
                let rep = evaluate(&case, trace, &allowed);
                let mut s = serde_json::to_vec(&rep).unwrap();
                s.push(b'\n');
                say(&s);
                unsafe { libc::_exit(0) };
            }
            pid => {
                let mut st = 0;
                unsafe { libc::waitpid(pid, &mut st, 0) };
                let _ = std::fs::remove_dir_all(crate::os::scratch(std::process::id()));
                if unsafe { libc::WIFSIGNALED(st) } {
                    // end the same way
                    unsafe { libc::kill(libc::getpid(), libc::WTERMSIG(st)) };
                    return 3;
                }
                if unsafe { libc::WEXITSTATUS(st) } != 0 {
                    return unsafe { libc::WEXITSTATUS(st) };
                }
            }
        }
    }
}

/// Every task waits for something that can no longer come. If a simulated process has died, its
/// threads are only still there because a simulated death cannot reach into a wait: no verdict.
fn stuck(excused: bool) {
    let why = "no progress: every task waits for ever".to_string();
    let rep = if excused {
        Report::default()
    } else {
        Report { dead: Some(why.clone()), violations: vec![why], ..Report::default() }
    };
    let mut s = serde_json::to_vec(&rep).unwrap();
    s.push(b'\n');
    say(&s);
    unsafe { libc::_exit(0) };
}

fn say(mut b: &[u8]) {
    while !b.is_empty() {
        let n = unsafe { libc::write(1, b.as_ptr() as *const _, b.len()) };
        if n <= 0 {
            unsafe { libc::_exit(4) };
        }
        b = &b[n as usize..];
    }
}

pub struct Worker {
    child: Child,
    tx: ChildStdin,
    rx: ChildStdout,
    buf: Vec<u8>,
}

fn cpu_seconds(pid: u32) -> f64 {
    let s = std::fs::read_to_string(format!("/proc/{}/stat", pid)).unwrap_or_default();
    let rest = match s.rfind(')') {
        Some(p) => &s[p + 1..],
        None => return 0.0,
    };
    let f: Vec<&str> = rest.split_whitespace().collect();
    let t: f64 = f.get(11).and_then(|x| x.parse::<f64>().ok()).unwrap_or(0.0)
        + f.get(12).and_then(|x| x.parse::<f64>().ok()).unwrap_or(0.0);
    t / 100.0
}

impl Worker {
    pub fn start() -> Worker {
        let exe = std::env::current_exe().expect("own path");
        let mut child = Command::new(exe)
            .arg("serve")
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("start worker");
        let tx = child.stdin.take().unwrap();
        let rx = child.stdout.take().unwrap();
        Worker { child, tx, rx, buf: vec![] }
    }
    fn restart(&mut self) {
        *self = Worker::start();
    }
    fn ask(&mut self, req: &Request, cpu_limit: f64, stop: Option<&AtomicBool>) -> Option<Report> {
        let mut s = serde_json::to_string(req).unwrap();
        s.push('\n');
        // the process of this case, as soon as it has introduced itself
        let mut pid = None;
        let t0 = Instant::now();
        let dead = |why: String| Report { dead: Some(why.clone()), violations: vec![why], ..Report::default() };
        if self.tx.write_all(s.as_bytes()).is_err() || self.tx.flush().is_err() {
            self.restart();
            return Some(dead("the process is gone".into()));
        }
        let mut chunk = [0u8; 65536];
        loop {
            let mut p = libc::pollfd { fd: self.rx.as_raw_fd(), events: libc::POLLIN, revents: 0 };
            let n = unsafe { libc::poll(&mut p, 1, 250) };
            if n > 0 {
                let k = self.rx.read(&mut chunk).unwrap_or(0);
                if k == 0 {
                    let st = self.child.wait().ok();
                    self.restart();
                    let why = match st {
                        Some(s) => format!("the process died: {}", s),
                        None => "the process died".into(),
                    };
                    return Some(dead(why));
                }
                self.buf.extend_from_slice(&chunk[..k]);
                if pid.is_none() {
                    if let Some(e) = self.buf.iter().position(|b| *b == b'\n') {
                        pid = std::str::from_utf8(&self.buf[1..e]).ok().and_then(|s| s.parse::<u32>().ok());
                        self.buf.drain(..=e);
                    }
                }
                if self.buf.last() == Some(&b'\n') {
                    let r = serde_json::from_slice(&self.buf);
                    self.buf.clear();
                    return match r {
                        Ok(r) => Some(r),
                        Err(e) => Some(Report { harness: vec![format!("bad reply: {}", e)], ..Report::default() }),
                    };
                }
                continue;
            }
            if let Some(s) = stop {
                if s.load(Ordering::SeqCst) {
                    self.restart();
                    return None;
                }
            }
            let cpu = pid.map(cpu_seconds).unwrap_or(0.0);
            let wall = t0.elapsed().as_secs_f64();
            if cpu > cpu_limit {
                self.restart();
                return Some(dead(format!("no end after {:.0} s of processor time", cpu_limit)));
            }
            if wall > 60.0 + 8.0 * cpu_limit {
                // neither working nor answering
                self.restart();
                return Some(dead("no progress: every task waits for ever".into()));
            }
        }
    }
    pub fn run_case(&mut self, case: &Case, trace: bool, cpu_limit: f64) -> Report {
        self.ask(&Request::Case { case: case.clone(), trace }, cpu_limit, None).unwrap()
    }
}
impl Drop for Worker {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
        let _ = std::fs::remove_dir_all(crate::os::scratch(self.child.id()));
    }
}

const CPU_LIMIT: f64 = 60.0;

// ---- a batch -------------------------------------------------------------------------------------

#[derive(Default)]
struct Totals {
    cases: u64,
    runs: u64,
    checked: u64,
    steps: u64,
    sim_ns: u128,
    tasks: u64,
    switches: u64,
    decisions: u64,
    foreign: u64,
    own: [u64; 5],
    ops: BTreeMap<String, u64>,
    faults: BTreeMap<String, u64>,
    probes: BTreeMap<String, u64>,
    scenarios: BTreeMap<String, u64>,
    known: BTreeMap<String, u64>,
    hashes: HashSet<u64>,
    nontrivial: HashSet<u64>,
    schedules: HashSet<u64>,
    harness: Vec<(u64, String)>,
    violations: Vec<(u64, Report)>,
    rerun: u64,
    rerun_differs: Vec<u64>,
}

/// What makes a run count as non-trivial.
pub fn rule(prop: &str) -> (&'static str, fn(&Report) -> bool) {
    match prop {
        "C02" => (
            "a write-side fault (crash, power loss, error, stall or spontaneous flush) fired inside the build, or a reader or rival builder interleaved with it, and the resulting files were compared with the model",
            |r| r.checked > 0 && (!r.faults.is_empty() || r.switches > 0),
        ),
        "C03" | "C12" => (
            "at least one planned fault actually fired in an operation whose answer was then judged",
            |r| r.checked > 0 && !r.faults.is_empty(),
        ),
        "C01" | "C08" | "C09" | "C10" => (
            "at least one key was written and its answer compared with the model",
            |r| r.checked > 1 && r.ops.get("put").cloned().unwrap_or(0) > 0,
        ),
        "C05" | "C06" => (
            "at least one coalesced answer of the run was non-empty",
            |r| r.probes.contains_key("single-nonempty") || r.probes.contains_key("multi-nonempty"),
        ),
        "C07" => (
            "at least one stacked answer was non-empty (or its size exceeded a budget) and the tree walk passed the token between simulated threads at least once or ran on one thread by choice of pool size",
            |r| {
                r.checked > 0
                    && ["stack-nonempty", "stack-not-determined", "stack-tree-over-budget"]
                        .iter()
                        .any(|p| r.probes.contains_key(*p))
            },
        ),
        "C17" => (
            "at least one key was written, its answer compared with the model, and some process of the run built or read with the earlier release",
            |r| r.checked > 1 && r.ops.get("put").cloned().unwrap_or(0) > 0 && r.probes.keys().any(|p| p.contains("earlier-release")),
        ),
        "C15" | "C16" => (
            "the program made at least one call through the binding whose result or refusal was compared, and either stored data, asked a phrase index or had a fault fire",
            |r| r.checked > 1 && (r.ops.get("put").cloned().unwrap_or(0) > 0 || !r.faults.is_empty()),
        ),
        "C04" => (
            "at least one lookup returned matches",
            |r| r.probes.contains_key("match-nonempty") || r.probes.contains_key("match-order-not-determined"),
        ),
        _ => ("at least one answer was compared and the run made at least ten storage operations", |r| {
            r.checked > 0 && r.steps >= 10
        }),
    }
}

impl Totals {
    fn add(&mut self, prop: &str, index: u64, r: Report) {
        self.cases += 1;
        self.runs += r.runs;
        self.checked += r.checked;
        self.steps += r.steps;
        self.sim_ns += r.sim_ns as u128;
        self.tasks += r.tasks;
        self.switches += r.switches;
        self.decisions += r.decisions;
        self.foreign += r.foreign;
        for (o, n) in self.own.iter_mut().zip(r.own) {
            *o += n;
        }
        for (a, b) in [
            (&mut self.ops, &r.ops),
            (&mut self.faults, &r.faults),
            (&mut self.known, &r.known),
        ] {
            for (k, n) in b {
                *a.entry(k.clone()).or_insert(0) += n;
            }
        }
        for (k, n) in &r.probes {
            match k.as_str() {
                "#rerun" => self.rerun += 1,
                "#rerun-differs" => self.rerun_differs.push(index),
                _ => *self.probes.entry(k.clone()).or_insert(0) += n,
            }
        }
        *self.scenarios.entry(r.scenario.clone()).or_insert(0) += 1;
        self.hashes.insert(r.all_hash);
        self.schedules.insert(r.schedule_hash);
        if rule(prop).1(&r) {
            self.nontrivial.insert(r.all_hash);
        }
        for h in &r.harness {
            self.harness.push((index, h.clone()));
        }
        if !r.violations.is_empty() {
            self.violations.push((index, r));
        }
    }
}

fn budget(prop: &str, tier: Tier) -> (u64, f64) {
    // cases, seconds
    if tier == Tier::Thorough {
        let s = std::env::var("CARMEN_THOROUGH_S").ok().and_then(|s| s.parse().ok()).unwrap_or(780.0);
        return (u64::MAX, s);
    }
    let n = match prop {
        "C01" => 25000,
        "C02" => 60000,
        "C03" => 80000,
        "C04" => 80000,
        "C05" => 60000,
        "C06" => 80000,
        "C07" => 30000,
        "C08" => 80000,
        "C09" => 60000,
        "C10" => 40000,
        "C11" => 20000,
        "C12" => 60000,
        "C15" => 60000,
        "C16" => 80000,
        "C17" => 40000,
        _ => 8000,
    };
    let n = std::env::var("CARMEN_CASES").ok().and_then(|s| s.parse().ok()).unwrap_or(n);
    (n, 200.0)
}

fn batch(prop: &str, seed: u64, tier_name: &str, cases: u64, seconds: f64, stop_early: bool) -> (Totals, f64) {
    let jobs = std::env::var("CARMEN_JOBS")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4));
    let t0 = Instant::now();
    let next = Arc::new(AtomicU64::new(0));
    let stop = Arc::new(AtomicBool::new(false));
    let totals = Arc::new(Mutex::new(Totals::default()));
    let mut hs = vec![];
    for _ in 0..jobs {
        let (next, stop, totals) = (next.clone(), stop.clone(), totals.clone());
        let (prop, tier) = (prop.to_string(), tier_name.to_string());
        hs.push(std::thread::spawn(move || {
            let mut w = Worker::start();
            loop {
                let index = next.fetch_add(1, Ordering::SeqCst);
                if index >= cases || stop.load(Ordering::SeqCst) || t0.elapsed().as_secs_f64() > seconds {
                    return;
                }
                // one case in fifty runs twice: the event logs have to agree
                let twice = index % 50 == 7;
                let req = Request::Index { prop: prop.clone(), seed, index, tier: tier.clone() };
                let mut rep = match w.ask(&req, CPU_LIMIT, Some(&stop)) {
                    Some(r) => r,
                    None => return,
                };
                if rep.dead.is_some() {
                    // once more, alone in a fresh process
                    match w.ask(&req, CPU_LIMIT, Some(&stop)) {
                        Some(r) if r.dead.is_none() => rep = r,
                        Some(_) => {}
                        None => return,
                    }
                }
                if twice && rep.dead.is_none() {
                    let again = match w.ask(&req, CPU_LIMIT, Some(&stop)) {
                        Some(r) => r,
                        None => return,
                    };
                    rep.probes.insert("#rerun".into(), 1);
                    if again.all_hash != rep.all_hash {
                        rep.probes.insert("#rerun-differs".into(), 1);
                    }
                }
                let bad = !rep.violations.is_empty();
                totals.lock().unwrap().add(&prop, index, rep);
                if bad && stop_early {
                    stop.store(true, Ordering::SeqCst);
                }
            }
        }));
    }
    for h in hs {
        let _ = h.join();
    }
    let t = std::mem::take(&mut *totals.lock().unwrap());
    (t, t0.elapsed().as_secs_f64())
}

fn seed_from_env() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1)
}

pub fn check(prop: &str, tier_name: &str) -> i32 {
    if !PROPS.contains(&prop) {
        eprintln!("unknown property {}", prop);
        return 2;
    }
    let tier = tier_of(tier_name);
    let seed = seed_from_env();
    println!("carmen-sim: property={} tier={} seed={}", prop, tier_name, seed);
    let (cases, seconds) = budget(prop, tier);
    let survey = std::env::var("CARMEN_SURVEY").is_ok();
    let (mut t, wall) = batch(prop, seed, tier_name, cases, seconds, !survey);
    t.violations.sort_by_key(|v| v.0);
    t.harness.sort();
    if survey {
        for (i, r) in t.violations.iter().take(40) {
            println!("- {} [{}] {}", i, r.scenario, r.violations[0]);
        }
        println!("{} violating cases", t.violations.len());
    }
    let list = listed();
    let mut code = 0;
    if let Some((index, rep)) = t.violations.first() {
        let path = report(prop, seed, tier_name, *index, rep);
        println!("VIOLATION property={} replay={}", prop, path);
        code = 1;
    } else if !t.harness.is_empty() {
        for (i, h) in t.harness.iter().take(5) {
            eprintln!("harness error in case {}: {}", i, h);
        }
        code = 3;
    }
    for ((p, site), what) in &list {
        if p == prop && t.known.contains_key(site) {
            println!("KNOWN-FINDING: property={} {} ({} times in this run)", p, what, t.known[site]);
        }
    }
    evidence(prop, tier_name, seed, &t, wall);
    println!(
        "{} cases, {} runs, {} answers compared, {} storage operations, {:.1} s; {}",
        t.cases,
        t.runs,
        t.checked,
        t.steps,
        wall,
        if code == 0 { "held" } else { "NOT held" }
    );
    code
}

fn report(prop: &str, seed: u64, tier_name: &str, index: u64, rep: &Report) -> String {
    println!("case {}: {}", index, rep.violations[0]);
    let tier = tier_of(tier_name);
    let patience = std::env::var("CARMEN_MINIMISE_S").ok().and_then(|s| s.parse().ok()).unwrap_or(40);
    let patience = Duration::from_secs(patience);
    let original = gen(prop, seed, index, tier);
    let mut w = Worker::start();
    let (case, how) = minimise::minimise(&mut w, &original, rep, patience);
    let fin = w.run_case(&case, true, CPU_LIMIT);
    let (case, fin, how) = if fin.violations.is_empty() {
        let f = w.run_case(&original, true, CPU_LIMIT);
        (original, f, "not minimised: the violation did not survive".to_string())
    } else {
        (case, fin, how)
    };
    // and once more in a fresh process: the replay must be exact
    let mut w2 = Worker::start();
    let again = w2.run_case(&case, true, CPU_LIMIT);
    let exact = again.log_hash == fin.log_hash && again.violations == fin.violations;
    println!("minimised: {}; replays exactly: {}", how, exact);
    for v in fin.violations.iter().take(3) {
        println!("violation: {}", v);
    }
    let dir = format!("{}/work/replays", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{}/{}-{}-{}.json", dir, prop, seed, index);
    let tail = fin.log.len().saturating_sub(4000);
    let body = json!({
        "property": prop,
        "seed": seed,
        "index": index,
        "tier": tier_name,
        "violations": if fin.violations.is_empty() { &rep.violations } else { &fin.violations },
        "how": how,
        "replays_exactly": exact,
        "log_hash": format!("{:016x}", fin.log_hash),
        "case": case,
        "trace": &fin.log[tail..],
        "command": format!("/verif/check.sh replay {}", path),
    });
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&body).unwrap());
    path
}

pub fn replay(file: &str) -> i32 {
    let text = match std::fs::read_to_string(file) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("{}: {}", file, e);
            return 2;
        }
    };
    let v: serde_json::Value = serde_json::from_str(&text).expect("replay file");
    let case: Case = serde_json::from_value(v["case"].clone()).expect("case");
    let want = v["log_hash"].as_str().unwrap_or("").to_string();
    let mut w = Worker::start();
    let r = w.run_case(&case, true, CPU_LIMIT);
    for l in &r.log {
        println!("{}", l);
    }
    for x in &r.violations {
        println!("violation: {}", x);
    }
    for x in &r.harness {
        println!("harness: {}", x);
    }
    let got = format!("{:016x}", r.log_hash);
    println!("log hash {} (recorded {}): {}", got, want, if got == want { "identical" } else { "DIFFERENT" });
    if r.violations.is_empty() {
        println!("the violation does not show on this tree");
        0
    } else {
        println!("VIOLATION property={} replay={}", case.prop, file);
        1
    }
}

pub fn print_case(prop: &str, seed: &str, index: &str, tier: &str) -> i32 {
    let c = gen(prop, seed.parse().unwrap(), index.parse().unwrap(), tier_of(tier));
    println!("{}", serde_json::to_string_pretty(&c).unwrap());
    0
}

/// Every property, n seeds, each run twice in different processes: event logs must be identical.
pub fn selftest(n: u64) -> i32 {
    let mut bad = 0;
    for p in PROPS.iter() {
        let get = |w: &mut Worker, seed: u64, i: u64| {
            let req = Request::Index { prop: p.to_string(), seed, index: i, tier: "quick".into() };
            w.ask(&req, CPU_LIMIT, None).unwrap()
        };
        let mut differ = 0;
        let results: Vec<bool> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..8u64)
                .map(|j| {
                    s.spawn(move || {
                        let mut out = vec![];
                        let mut k = j;
                        while k < n {
                            let (mut a, mut b) = (Worker::start(), Worker::start());
                            // the second process has a history: another case before
                            let _ = get(&mut b, 999, k + 1);
                            let x = get(&mut a, 1000 + k, k);
                            let y = get(&mut b, 1000 + k, k);
                            out.push(x.all_hash == y.all_hash && x.dead.is_none() && y.dead.is_none());
                            k += 8;
                        }
                        out
                    })
                })
                .collect();
            hs.into_iter().flat_map(|h| h.join().unwrap()).collect()
        });
        for ok in results {
            if !ok {
                differ += 1;
            }
        }
        println!("{}: {} of {} differ", p, differ, n);
        bad += differ;
    }
    if bad > 0 {
        1
    } else {
        0
    }
}

fn is_binding(prop: &str) -> bool {
    prop == "C15" || prop == "C16"
}
fn real_code(prop: &str) -> Vec<&'static str> {
    let mut v = vec![
        "/repo/rust-src/src/gridstore (all of it, compiled unchanged)",
        "flatbuffers, serde, integer-encoding, byteorder, itertools, fixedbitset and the other crates.io dependencies at the cached versions",
        "std threads (parked and released one at a time)",
    ];
    if prop == "C17" {
        v.insert(1, "the same sources as of commit aa7be32 (sim/before), as the other release");
    }
    if is_binding(prop) {
        v.insert(0, "/repo/native/src (all of it, compiled unchanged)");
    }
    v
}
fn stubs(prop: &str) -> Vec<&'static str> {
    let mut v = vec![
        "rocksdb (simulated storage engine with write-ahead log, memtable, crash and error injection)",
        "rayon (parallel iterators run as simulated tasks)",
        "min-max-heap, morton, static-bushes (small re-implementations of the published interface: sources are not available offline)",
    ];
    if is_binding(prop) {
        v.push("neon, neon-serde (a small JavaScript heap, event loop and task pool under the simulator's scheduler; no JavaScript engine)");
        v.push("owning_ref (re-implementation of OwningHandle)");
        v.push("fuzzy-phrase (a naive phrase index over the simulated storage: sources are not available offline)");
    }
    v
}

fn evidence(prop: &str, tier: &str, seed: u64, t: &Totals, wall: f64) {
    let mut samples = vec![];
    for i in [0u64, 1, 17] {
        if i < t.cases {
            let c = gen(prop, seed, i, tier_of(tier));
            let mut s = serde_json::to_string(&json!({
                "index": i, "scenario": c.scenario, "plan": c.plan, "knobs": c.knobs,
                "clients": c.clients, "faults": c.faults, "stores": c.stores,
            }))
            .unwrap();
            if s.len() > 3000 {
                let mut k = 3000;
                while !s.is_char_boundary(k) {
                    k -= 1;
                }
                s.truncate(k);
                s.push_str("... (cut)");
            }
            samples.push(serde_json::Value::String(s));
        }
    }
    let hours = wall.max(0.001) / 3600.0;
    let body = json!({
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": t.runs,
            "distinct_nontrivial": t.nontrivial.len(),
            "rule": format!("Each case (stores, builder and client programs, fault plan, schedule knobs) is generated from (seed, index); distinct = different hash over the complete event log of the run; non-trivial = {}.", rule(prop).0),
            "samples": samples,
            "cases": t.cases,
            "answers_compared_with_the_model": t.checked,
            "runs_per_hour": (t.runs as f64 / hours) as u64,
            "seeds_per_hour": (t.cases as f64 / hours) as u64,
            "simulated_seconds": t.sim_ns as f64 / 1e9,
            "storage_operations": t.steps,
            "storage_operations_by_kind": t.ops,
            "faults_fired": t.faults,
            "tasks": t.tasks,
            "context_switches": t.switches,
            "scheduling_decisions": t.decisions,
            "tasks_blocked_out_of_sight": t.foreign,
            "waits_sleeps_and_threads_of_the_code_itself": t.own[..3],
            "preemptions_between_operations": {"chances": t.own[3], "taken": t.own[4]},
            "distinct_event_logs": t.hashes.len(),
            "distinct_schedules": t.schedules.len(),
            "cases_by_scenario": t.scenarios,
            "probes": t.probes,
            "listed_findings_seen": t.known,
            "determinism_self_check": { "cases_run_twice": t.rerun, "event_logs_that_differed": t.rerun_differs },
            "real_code": real_code(prop),
            "stubs": stubs(prop),
        },
        "assumptions": [
            "the storage stub behaves like the rocksdb 0.12.3 binding for the calls the code makes",
            "stubs of min-max-heap, morton and static-bushes behave like the published crates",
            "sampling: a clean batch is evidence, not proof"
        ],
        "wall_s": wall,
        "violations": t.violations.len(),
    });
    let dir = format!("{}/evidence", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{}/{}.json", dir, prop);
    if let Err(e) = std::fs::write(&path, serde_json::to_string_pretty(&body).unwrap()) {
        eprintln!("{}: {}", path, e);
    }
}

#[allow(dead_code)]
fn is_broken(r: &RunOut) -> bool {
    matches!(r.plan, PlanOut::Broken(_))
}
