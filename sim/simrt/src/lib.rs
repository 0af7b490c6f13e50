//! Deterministic simulation runtime: one token, seeded scheduler, simulated disk, fault plan.
//!
//! Every simulated task is a real OS thread that is parked unless it holds the token. The token
//! changes hands only at `op` (every storage operation), `spawn`/`join` and task end, and who gets
//! it next is decided by the seeded policy (or a recorded script), never by the OS.
pub mod disk;
pub mod os;
pub mod rng;

use disk::Disk;
use rng::{mix, Rng};
use serde::{Deserialize, Serialize};
use std::any::Any;
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::{Arc, Condvar, Mutex, MutexGuard};
use std::time::Duration;

// ---------------------------------------------------------------------------------------------
// configuration

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize, Hash)]
pub enum Class {
    /// opening a database (read-only or read-write)
    Open,
    /// creating the database files
    Create,
    Get,
    /// creating + positioning an iterator
    Seek,
    /// one step of an iterator
    Next,
    Put,
    Delete,
    /// memtable flush
    Flush,
    /// manual compaction (flushes first)
    Compact,
    Close,
    /// any mutation (Create, Put, Delete, Flush, Compact): the crash points
    Mutation,
    /// pure scheduling point
    Sched,
    /// a change to the directory tree made by the code itself, not the storage engine
    File,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum FaultKind {
    /// the operation fails with this message and has no effect; `sticky`: so do all later
    /// operations of the same class
    Error { message: String, sticky: bool },
    /// a mutation that is applied although it reports an error
    ErrorButApplied { message: String },
    /// a failing background flush: the binding's compact_range reports nothing
    SilentFlushFailure,
    /// the process that issues the operation dies just before it takes effect
    ProcessCrash,
    /// power loss just before the operation takes effect; `keep_permille` of the log records that
    /// were written but never synced survive (always a prefix)
    PowerLoss { keep_permille: u32 },
    /// the memtable is flushed (made durable) at this point, as RocksDB may at any time
    SpontaneousFlush,
    /// the task that issues the operation is not scheduled for this many scheduling decisions
    /// (unless nothing else can run)
    Stall { decisions: u32 },
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Fault {
    pub class: Class,
    /// fires at the nth operation (0-based) of the class since the last `arm`
    pub nth: u64,
    pub kind: FaultKind,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Policy {
    /// run every task to completion, in creation order
    Sequential,
    /// at each decision, switch with this probability (permille) to a random other task
    Random { switch_permille: u32 },
    RoundRobin,
    /// discrete-event: each operation takes a simulated latency, the task that wakes first runs
    Latency { mean_us: u64, stall_permille: u32, stall_us: u64 },
    /// random priorities with a few priority-change points
    Pct { change_permille: u32 },
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Knobs {
    /// the schedule/latency stream
    pub sched_seed: u64,
    /// keys of the process's randomised hash maps
    pub hash_seed: u64,
    pub policy: Policy,
    /// threads in the simulated rayon pool
    pub pool: usize,
    /// explicit decisions; overrides `policy` (0 = keep running the current task)
    #[serde(default)]
    pub script: Option<Vec<u32>>,
    #[serde(default = "default_max_steps")]
    pub max_steps: u64,
    /// tasks may lose the processor between operations too, every so many allocations (0: never)
    #[serde(default)]
    pub preempt: u32,
}
/// Chances to preempt a task between two operations that a run gets.
const PREEMPTIONS: u64 = 600;
fn default_max_steps() -> u64 {
    4_000_000
}

impl Default for Knobs {
    fn default() -> Self {
        Knobs {
            sched_seed: 1,
            hash_seed: 1,
            policy: Policy::Sequential,
            pool: 1,
            script: None,
            max_steps: default_max_steps(),
            preempt: 0,
        }
    }
}

// ---------------------------------------------------------------------------------------------
// unwinding payloads

/// The simulated process died.
pub struct SimCrash;
/// The step budget of the run was used up.
pub struct SimOverrun;
/// Code under test broke a rule of the simulated environment (e.g. used a closed handle).
pub struct SimMisuse(pub String);

pub enum TaskEnd<T> {
    Done(T),
    Crashed,
    Overrun,
    Misuse(String),
    Panicked(String),
}

pub fn panic_text(p: &(dyn Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".to_string()
    }
}

pub fn classify<T>(r: Result<T, Box<dyn Any + Send>>) -> TaskEnd<T> {
    match r {
        Ok(v) => TaskEnd::Done(v),
        Err(p) => {
            if p.is::<SimCrash>() {
                TaskEnd::Crashed
            } else if p.is::<SimOverrun>() {
                TaskEnd::Overrun
            } else if let Some(m) = p.downcast_ref::<SimMisuse>() {
                TaskEnd::Misuse(m.0.clone())
            } else {
                TaskEnd::Panicked(panic_text(&*p))
            }
        }
    }
}

// ---------------------------------------------------------------------------------------------
// state

#[derive(Clone, Copy, PartialEq, Debug)]
enum Status {
    Runnable,
    Joining,
    /// blocked outside the simulator's sight
    Foreign,
    /// blocked in a lock or a wait of the code itself (see `os`)
    Waiting,
    Done,
}

struct Task {
    status: Status,
    proc_id: u32,
    cv: Arc<Condvar>,
    waiting_on: Vec<usize>,
    wake_at: u64,
    prio: u64,
    stalled: u32,
    tid: i32,
    /// label of the client operation this task works for (inherited on spawn)
    owner: u64,
    /// what it waits for, and until when
    wait_addr: usize,
    deadline: Option<u64>,
    timed_out: bool,
}

#[derive(Default, Clone, Debug, Serialize, Deserialize)]
pub struct Stats {
    pub steps: u64,
    pub sim_ns: u64,
    pub tasks: u64,
    pub switches: u64,
    pub decisions: u64,
    pub foreign_blocks: u64,
    /// waits for locks and the like of the code itself, its sleeps, threads it started
    #[serde(default)]
    pub own_waits: u64,
    #[serde(default)]
    pub own_sleeps: u64,
    #[serde(default)]
    pub own_threads: u64,
    /// chances to switch between two operations of a task, and how often that happened
    #[serde(default)]
    pub preemptions: u64,
    #[serde(default)]
    pub preempted: u64,
    pub ops: BTreeMap<String, u64>,
    pub faults: BTreeMap<String, u64>,
}

pub struct Inner {
    tasks: Vec<Task>,
    /// ids of tasks that are not done, ascending
    live: Vec<usize>,
    op_counts: [u64; 13],
    current: usize,
    knobs: Knobs,
    rng: Rng,
    lat: Rng,
    /// threads the code under test started itself: their ids for the simulator
    threads: BTreeMap<usize, usize>,
    script_pos: usize,
    pub decisions: Vec<u32>,
    now: u64,
    crashed: Vec<u32>,
    /// dead processes whose tasks could not be unwound where they died
    quiet_deaths: Vec<u32>,
    pub power_lost: bool,
    overrun: bool,
    log_hash: u64,
    log: Option<Vec<String>>,
    faults: Vec<Fault>,
    counters: BTreeMap<Class, u64>,
    sticky: BTreeMap<Class, String>,
    pub fired: Vec<Fault>,
    /// who was hit by what
    pub fired_by: Vec<(u64, Fault)>,
    /// storage operations per owner label
    pub owner_ops: BTreeMap<u64, [u64; 13]>,
    /// iterator positionings: (owner, database and key)
    pub seeks: Vec<(u64, Vec<u8>)>,
    pub disk: Disk,
    pub stats: Stats,
}

pub struct Sim {
    m: Mutex<Inner>,
}

/// The simulator's own state, locked; while it is, this thread is the simulator's, not the code's.
pub struct Guard<'a> {
    g: MutexGuard<'a, Inner>,
    inside: os::Inside,
}
impl std::ops::Deref for Guard<'_> {
    type Target = Inner;
    fn deref(&self) -> &Inner {
        &self.g
    }
}
impl std::ops::DerefMut for Guard<'_> {
    fn deref_mut(&mut self) -> &mut Inner {
        &mut self.g
    }
}

thread_local! {
    static CUR: RefCell<Option<(Arc<Sim>, usize)>> = RefCell::new(None);
    static HASH_SEED: Cell<u64> = Cell::new(0x5eed);
}

/// Next bytes of the current thread's deterministic "OS randomness".
pub fn thread_entropy() -> u64 {
    HASH_SEED
        .try_with(|c| {
            let mut v = c.get();
            let out = rng::splitmix(&mut v);
            c.set(v);
            out
        })
        .unwrap_or(7)
}

pub fn current() -> Option<(Arc<Sim>, usize)> {
    CUR.try_with(|c| c.borrow().clone()).ok().flatten()
}

pub enum Outcome {
    Ok,
    Error(String),
    ErrorButApplied(String),
    SilentFlushFailure,
}

impl Sim {
    /// Runs `root` as task 0 of a new simulation on a fresh thread and waits for it.
    pub fn run<T: Send + 'static>(
        knobs: Knobs,
        trace: bool,
        root: impl FnOnce(&Arc<Sim>) -> T + Send + 'static,
    ) -> (TaskEnd<T>, Arc<Sim>) {
        os::reset_clock(knobs.hash_seed);
        let sim = Arc::new(Sim {
            m: Mutex::new(Inner {
                tasks: vec![],
                live: vec![0],
                op_counts: [0; 13],
                current: 0,
                rng: Rng::new(knobs.sched_seed),
                lat: Rng::new(mix(knobs.sched_seed, 0x1a7e)),
                threads: BTreeMap::new(),
                knobs,
                script_pos: 0,
                decisions: vec![],
                now: 0,
                crashed: vec![],
                quiet_deaths: vec![],
                power_lost: false,
                overrun: false,
                log_hash: 0xcbf29ce484222325,
                log: if trace { Some(vec![]) } else { None },
                faults: vec![],
                counters: BTreeMap::new(),
                sticky: BTreeMap::new(),
                fired: vec![],
                fired_by: vec![],
                owner_ops: BTreeMap::new(),
                seeks: vec![],
                disk: Disk::default(),
                stats: Stats::default(),
            }),
        });
        {
            let mut g = sim.lock();
            let t = new_task(&mut g, 0);
            g.tasks.push(t);
        }
        let s2 = sim.clone();
        let inside = os::Inside::new();
        let h = std::thread::Builder::new()
            .name("sim-root".into())
            .stack_size(16 << 20)
            .spawn(move || {
                enter(&s2, 0);
                let r = catch_unwind(AssertUnwindSafe(|| root(&s2)));
                CUR.with(|c| *c.borrow_mut() = None);
                r
            })
            .expect("spawn root");
        let r = h.join().unwrap_or_else(|p| Err(p));
        drop(inside);
        (classify(r), sim)
    }

    pub fn lock(&self) -> Guard<'_> {
        let inside = os::Inside::new();
        Guard { g: self.m.lock().unwrap_or_else(|p| p.into_inner()), inside }
    }

    // ---- observation -------------------------------------------------------------------------

    pub fn log_hash(&self) -> u64 {
        self.lock().log_hash
    }
    pub fn take_log(&self) -> Vec<String> {
        self.lock().log.take().unwrap_or_default()
    }
    pub fn decisions(&self) -> Vec<u32> {
        self.lock().decisions.clone()
    }
    pub fn stats(&self) -> Stats {
        let g = self.lock();
        let mut s = g.stats.clone();
        s.sim_ns = g.now;
        for c in ALL_CLASSES {
            if g.op_counts[c as usize] > 0 {
                s.ops.insert(class_name(c).to_string(), g.op_counts[c as usize]);
            }
        }
        s
    }
    pub fn note(&self, text: &str) {
        let mut g = self.lock();
        g.event(usize::MAX, "note", text.as_bytes());
    }

    // ---- faults ------------------------------------------------------------------------------

    /// Replaces the fault plan and restarts its operation counters.
    pub fn arm(&self, faults: Vec<Fault>) {
        let mut g = self.lock();
        g.faults = faults;
        g.counters.clear();
        g.sticky.clear();
        g.fired.clear();
    }
    /// Ends fault injection; returns what fired and how many operations of each class happened.
    pub fn disarm(&self) -> (Vec<Fault>, BTreeMap<Class, u64>) {
        let mut g = self.lock();
        g.faults.clear();
        g.sticky.clear();
        let fired = std::mem::take(&mut g.fired);
        let counters = std::mem::take(&mut g.counters);
        (fired, counters)
    }
    pub fn fired_so_far(&self) -> usize {
        self.lock().fired.len()
    }
    /// After a crash: forget dead processes so that new tasks may use their ids again.
    pub fn restart(&self) {
        let mut g = self.lock();
        g.crashed.clear();
        g.quiet_deaths.clear();
        g.power_lost = false;
        g.event(usize::MAX, "restart", b"");
    }

    /// Labels the current task (and what it spawns from now on).
    pub fn set_owner(&self, owner: u64) {
        if let Some((_, me)) = current() {
            self.lock().tasks[me].owner = owner;
        }
    }

    // ---- tasks -------------------------------------------------------------------------------

    /// Starts a task of simulated process `proc_id`. The closure must only touch data that
    /// outlives the matching `join`.
    pub fn spawn<T: Send + 'static>(
        self: &Arc<Sim>,
        proc_id: u32,
        f: impl FnOnce() -> T + Send + 'static,
    ) -> TaskHandle<T> {
        // nobody may wait for a task that has no thread yet
        let _whole = os::Whole::new();
        let id = {
            let mut g = self.lock();
            let mut t = new_task(&mut g, proc_id);
            t.wake_at = g.now;
            if let Some((_, cur)) = current() {
                t.owner = g.tasks[cur].owner;
            }
            g.tasks.push(t);
            g.stats.tasks += 1;
            let id = g.tasks.len() - 1;
            g.live.push(id);
            let txt = format!("{} proc {}", id, proc_id);
            g.event(usize::MAX, "spawn", txt.as_bytes());
            id
        };
        let slot: Arc<Mutex<Option<Result<T, Box<dyn Any + Send>>>>> = Arc::new(Mutex::new(None));
        let (sim, slot2) = (self.clone(), slot.clone());
        let _inside = os::Inside::new();
        let thread = std::thread::Builder::new()
            .name("sim-task".into())
            .stack_size(8 << 20)
            .spawn(move || {
                enter(&sim, id);
                let dead = sim.wait_for_token(id);
                let r = if dead {
                    Err(Box::new(SimCrash) as Box<dyn Any + Send>)
                } else {
                    sim.as_crashed(id, catch_unwind(AssertUnwindSafe(f)))
                };
                *slot2.lock().unwrap() = Some(r);
                CUR.with(|c| *c.borrow_mut() = None);
                sim.finish_task(id);
            })
            .expect("spawn task");
        TaskHandle { id, slot, thread: Some(thread) }
    }

    /// Blocks the calling task until all the given tasks are done. Never unwinds.
    pub fn join<T>(self: &Arc<Sim>, handles: Vec<TaskHandle<T>>) -> Vec<TaskEnd<T>> {
        self.wait_for(&handles.iter().map(|h| h.id).collect::<Vec<_>>());
        handles
            .into_iter()
            .map(|mut h| {
                let _inside = os::Inside::new();
                let _ = h.thread.take().unwrap().join();
                let r = h.slot.lock().unwrap().take().expect("task result");
                classify(r)
            })
            .collect()
    }

    fn wait_for(&self, ids: &[usize]) {
        let (_, me) = current().expect("join outside the simulation");
        let mut g = self.lock();
        loop {
            let pending: Vec<usize> =
                ids.iter().cloned().filter(|&id| g.tasks[id].status != Status::Done).collect();
            if pending.is_empty() {
                break;
            }
            g.tasks[me].status = Status::Joining;
            g.tasks[me].waiting_on = pending;
            if g.current == me {
                g.pass_token(me);
            }
            g = self.wait_loop(g, me);
        }
    }

    /// A thread of a process that has died, or of a run that is over, may end in any way.
    fn as_crashed<T>(&self, id: usize, r: Result<T, Box<dyn Any + Send>>) -> Result<T, Box<dyn Any + Send>> {
        let g = self.lock();
        let p = g.tasks[id].proc_id;
        match r {
            Ok(_) if g.quiet_deaths.contains(&p) => Err(Box::new(SimCrash)),
            Err(e) if e.is::<SimCrash>() || e.is::<SimOverrun>() || e.is::<SimMisuse>() => Err(e),
            Err(_) if g.crashed.contains(&p) => Err(Box::new(SimCrash)),
            Err(_) if g.overrun => Err(Box::new(SimOverrun)),
            r => r,
        }
    }

    /// Like `join`, keeping raw payloads (used by the simulated thread pool).
    pub fn join_raw<T>(
        self: &Arc<Sim>,
        handles: Vec<TaskHandle<T>>,
    ) -> Vec<Result<T, Box<dyn Any + Send>>> {
        self.wait_for(&handles.iter().map(|h| h.id).collect::<Vec<_>>());
        handles
            .into_iter()
            .map(|mut h| {
                let _inside = os::Inside::new();
                let _ = h.thread.take().unwrap().join();
                let r = h.slot.lock().unwrap().take().expect("task result");
                r
            })
            .collect()
    }

    pub fn pool_size(&self) -> usize {
        self.lock().knobs.pool
    }
    pub fn proc_of(&self, task: usize) -> u32 {
        self.lock().tasks[task].proc_id
    }
    /// A seeded choice that is part of the schedule (recorded, scriptable).
    pub fn choose(&self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        let mut g = self.lock();
        g.decide(n, |r, n| r.usize(n))
    }

    fn wait_for_token(&self, me: usize) -> bool {
        let g = self.lock();
        let g = self.wait_loop(g, me);
        let p = g.tasks[me].proc_id;
        g.crashed.contains(&p)
    }

    /// Waits until `me` holds the token. While waiting, watches for a token holder that is blocked
    /// on a lock of its own (held by a parked task) and takes the token on its behalf.
    fn wait_loop<'a>(&'a self, mut g: Guard<'a>, me: usize) -> Guard<'a> {
        let cv = g.tasks[me].cv.clone();
        let mut watch: Option<(usize, u64, u64, u32)> = None;
        while g.current != me {
            let Guard { g: g1, inside } = g;
            let (g2, timeout) =
                cv.wait_timeout(g1, Duration::from_millis(15)).unwrap_or_else(|p| p.into_inner());
            g = Guard { g: g2, inside };
            if g.current == me || !timeout.timed_out() {
                continue;
            }
            let holder = g.current;
            if holder >= g.tasks.len() || holder == me {
                continue;
            }
            if let Some(sw) = sleeping_switches(g.tasks[holder].tid) {
                let key = (holder, g.stats.steps, sw);
                match watch {
                    Some((h, s, w, n)) if (h, s, w) == key => {
                        if n >= 3 && g.tasks[holder].status == Status::Runnable {
                            g.tasks[holder].status = Status::Foreign;
                            g.stats.foreign_blocks += 1;
                            g.event(holder, "foreign-block", b"");
                            if g.any_runnable() {
                                g.pass_token(holder);
                            } else {
                                g.tasks[holder].status = Status::Runnable;
                            }
                            watch = None;
                        } else {
                            watch = Some((h, s, w, n + 1));
                        }
                    }
                    _ => watch = Some((key.0, key.1, key.2, 0)),
                }
            } else {
                watch = None;
            }
        }
        g
    }

    fn finish_task(&self, id: usize) {
        let mut g = self.lock();
        g.event(id, "end", b"");
        g.tasks[id].status = Status::Done;
        g.live.retain(|&l| l != id);
        for t in g.tasks.iter_mut() {
            if t.status == Status::Joining {
                t.waiting_on.retain(|w| *w != id);
                if t.waiting_on.is_empty() {
                    t.status = Status::Runnable;
                }
            }
        }
        let holder = g.current;
        if holder == id || holder >= g.tasks.len() || g.tasks[holder].status != Status::Runnable {
            g.pass_token(id);
        }
    }

    /// A storage operation or scheduling point of the current task: counts it, applies the fault
    /// plan, lets the scheduler choose who runs next. Unwinds if the task's process dies here.
    pub fn op(self: &Arc<Sim>, me: usize, class: Class, detail: &[u8]) -> Outcome {
        match self.try_op(me, class, detail, 0) {
            Ok(o) => o,
            Err(p) => resume_unwind(p),
        }
    }

    /// The same without unwinding; `more` is simulated time it takes on top.
    pub fn try_op(
        self: &Arc<Sim>,
        me: usize,
        class: Class,
        detail: &[u8],
        more: u64,
    ) -> Result<Outcome, Box<dyn Any + Send>> {
        if std::thread::panicking() {
            return Ok(Outcome::Ok);
        }
        let mut g = self.lock();
        // a task that was blocked on a foreign lock has to get the token back first
        if g.current != me {
            if g.tasks[me].status == Status::Foreign {
                g.tasks[me].status = Status::Runnable;
            }
            if !g.any_runnable_other_than(me) {
                g.current = me;
            }
            g = self.wait_loop(g, me);
        }
        if g.overrun {
            return Err(Box::new(SimOverrun));
        }
        let my_proc = g.tasks[me].proc_id;
        if g.crashed.contains(&my_proc) {
            return Err(Box::new(SimCrash));
        }
        g.stats.steps += 1;
        if g.stats.steps > g.knobs.max_steps {
            g.overrun = true;
            return Err(Box::new(SimOverrun));
        }
        let name = class_name(class);
        g.event(me, name, detail);
        g.op_counts[class as usize] += 1;
        let owner = g.tasks[me].owner;
        g.owner_ops.entry(owner).or_insert([0; 13])[class as usize] += 1;
        if class == Class::Seek && g.seeks.len() < 100_000 {
            g.seeks.push((owner, detail.to_vec()));
        }

        // scheduling first: everything up to here happened before the operation takes effect
        let lat = g.latency(class) + more;
        g.tasks[me].wake_at = g.now + lat;
        let next = g.choose_next(me);
        if next != me {
            g.current = next;
            g.stats.switches += 1;
            let cv = g.tasks[next].cv.clone();
            cv.notify_all();
            g = self.wait_loop(g, me);
            if g.overrun {
                return Err(Box::new(SimOverrun));
            }
            if g.crashed.contains(&my_proc) {
                return Err(Box::new(SimCrash));
            }
        }
        if g.tasks[me].wake_at > g.now {
            g.now = g.tasks[me].wake_at;
            os::set_clock(g.now);
        }

        // then the fault plan
        let outcome = g.apply_faults(me, class);
        let died = g.crashed.contains(&my_proc);
        drop(g);
        if died {
            return Err(Box::new(SimCrash));
        }
        Ok(outcome)
    }

    /// The current task may lose the processor, between two operations. Never unwinds: if its
    /// process dies meanwhile, it finds out at its next operation. False: enough for this run.
    fn preempt(&self, me: usize) -> bool {
        if std::thread::panicking() {
            return true;
        }
        let mut g = self.lock();
        if g.stats.preemptions >= PREEMPTIONS {
            return false;
        }
        let my_proc = g.tasks[me].proc_id;
        if g.current != me || g.overrun || g.tasks[me].status != Status::Runnable || g.crashed.contains(&my_proc) {
            return true;
        }
        if !g.any_runnable_other_than(me) {
            return true;
        }
        g.event(me, "preempt", b"");
        g.stats.preemptions += 1;
        let lat = g.latency(Class::Sched);
        g.tasks[me].wake_at = g.now + lat;
        let next = g.choose_next(me);
        if next != me {
            g.current = next;
            g.stats.switches += 1;
            g.stats.preempted += 1;
            let cv = g.tasks[next].cv.clone();
            cv.notify_all();
            g = self.wait_loop(g, me);
            if g.crashed.contains(&my_proc) {
                g.quiet_deaths.push(my_proc);
            }
        }
        if g.tasks[me].wake_at > g.now {
            g.now = g.tasks[me].wake_at;
            os::set_clock(g.now);
        }
        true
    }

    /// Records the effect of an operation in the event log.
    pub fn effect(&self, me: usize, what: &str, detail: &[u8]) {
        let mut g = self.lock();
        g.event(me, what, detail);
    }
}

fn new_task(g: &mut Inner, proc_id: u32) -> Task {
    Task {
        status: Status::Runnable,
        proc_id,
        cv: Arc::new(Condvar::new()),
        waiting_on: vec![],
        wake_at: 0,
        prio: g.rng.next_u64() >> 1,
        stalled: 0,
        tid: 0,
        owner: 0,
        wait_addr: 0,
        deadline: None,
        timed_out: false,
    }
}

fn enter(sim: &Arc<Sim>, id: usize) {
    let (seed, gap, sched) = {
        let mut g = sim.lock();
        g.tasks[id].tid = unsafe { libc::syscall(libc::SYS_gettid) as i32 };
        let gap = if g.stats.preemptions >= PREEMPTIONS { 0 } else { g.knobs.preempt };
        (mix(g.knobs.hash_seed, id as u64), gap, g.knobs.sched_seed)
    };
    HASH_SEED.with(|c| c.set(seed));
    CUR.with(|c| *c.borrow_mut() = Some((sim.clone(), id)));
    // the root task is the harness
    os::preempt_every(if id == 0 { 0 } else { gap }, mix(sched, 0x9e37 + id as u64));
}

/// Some(voluntary context switches) if the thread is asleep, None otherwise.
fn sleeping_switches(tid: i32) -> Option<u64> {
    let s = std::fs::read_to_string(format!("/proc/self/task/{}/status", tid)).ok()?;
    let mut asleep = false;
    let mut sw = None;
    for l in s.lines() {
        if let Some(v) = l.strip_prefix("State:") {
            asleep = v.trim_start().starts_with('S');
        }
        if let Some(v) = l.strip_prefix("voluntary_ctxt_switches:") {
            sw = v.trim().parse().ok();
        }
    }
    if asleep {
        sw
    } else {
        None
    }
}

const ALL_CLASSES: [Class; 13] = [
    Class::Open,
    Class::Create,
    Class::Get,
    Class::Seek,
    Class::Next,
    Class::Put,
    Class::Delete,
    Class::Flush,
    Class::Compact,
    Class::Close,
    Class::Mutation,
    Class::Sched,
    Class::File,
];

pub fn class_name(c: Class) -> &'static str {
    match c {
        Class::Open => "open",
        Class::Create => "create",
        Class::Get => "get",
        Class::Seek => "seek",
        Class::Next => "next",
        Class::Put => "put",
        Class::Delete => "delete",
        Class::Flush => "flush",
        Class::Compact => "compact",
        Class::Close => "close",
        Class::Mutation => "mutation",
        Class::Sched => "sched",
        Class::File => "file",
    }
}

pub fn fault_name(f: &FaultKind) -> &'static str {
    match f {
        FaultKind::Error { sticky: false, .. } => "io-error",
        FaultKind::Error { sticky: true, .. } => "io-error-sticky",
        FaultKind::ErrorButApplied { .. } => "io-error-but-applied",
        FaultKind::SilentFlushFailure => "flush-failure",
        FaultKind::ProcessCrash => "process-crash",
        FaultKind::PowerLoss { .. } => "power-loss",
        FaultKind::SpontaneousFlush => "spontaneous-flush",
        FaultKind::Stall { .. } => "stall",
    }
}

impl Inner {
    fn any_runnable(&self) -> bool {
        self.live.iter().any(|&t| self.tasks[t].status == Status::Runnable)
    }
    fn any_runnable_other_than(&self, me: usize) -> bool {
        self.live.iter().any(|&i| i != me && self.tasks[i].status == Status::Runnable)
    }

    fn event(&mut self, task: usize, what: &str, detail: &[u8]) {
        let mut h = self.log_hash;
        let mut eat = |b: u8| {
            h ^= b as u64;
            h = h.wrapping_mul(0x100000001b3);
        };
        for b in (task as u32).to_le_bytes() {
            eat(b);
        }
        for b in what.bytes() {
            eat(b);
        }
        for b in detail {
            eat(*b);
        }
        eat(0xff);
        self.log_hash = h;
        if let Some(l) = self.log.as_mut() {
            if l.len() < 200_000 {
                let d = if what == "note" || what == "spawn" {
                    String::from_utf8_lossy(detail).to_string()
                } else {
                    detail.iter().map(|b| format!("{:02x}", b)).collect::<String>()
                };
                let t = if task == usize::MAX { "-".into() } else { task.to_string() };
                l.push(format!("[{}] task {} {} {}", self.now, t, what, d));
            }
        }
    }

    fn latency(&mut self, class: Class) -> u64 {
        let base: u64 = match class {
            Class::Get | Class::Seek => 20_000,
            Class::Next => 1_000,
            Class::Put | Class::Delete => 5_000,
            Class::Flush | Class::Compact => 20_000_000,
            Class::Open | Class::Create => 5_000_000,
            Class::File => 50_000,
            Class::Close | Class::Sched | Class::Mutation => 200,
        };
        match self.knobs.policy {
            Policy::Latency { mean_us, stall_permille, stall_us } => {
                if self.lat.below(1000) < stall_permille as u64 {
                    *self.stats.faults.entry("slow-operation".into()).or_insert(0) += 1;
                    stall_us * 1000
                } else {
                    self.lat.below(2 * mean_us * 1000 + 1) * base / 20_000
                }
            }
            _ => base,
        }
    }

    fn decide(&mut self, n: usize, f: impl FnOnce(&mut Rng, usize) -> usize) -> usize {
        self.stats.decisions += 1;
        let d = if let Some(s) = &self.knobs.script {
            let d = s.get(self.script_pos).cloned().unwrap_or(0) as usize;
            self.script_pos += 1;
            d % n
        } else {
            f(&mut self.rng, n)
        };
        if self.decisions.len() < 2_000_000 {
            self.decisions.push(d as u32);
        }
        d
    }

    /// Candidates in decision order: the current task first if it can run, then by id.
    fn candidates(&self, me: usize) -> Vec<usize> {
        let mut c = Vec::with_capacity(4);
        if self.tasks[me].status == Status::Runnable {
            c.push(me);
        }
        for &i in &self.live {
            if i != me && self.tasks[i].status == Status::Runnable {
                c.push(i);
            }
        }
        c
    }

    /// Waits whose time is up end; with `force`, time passes until the first of them does.
    fn expire(&mut self, force: bool) {
        let due = self.live.iter().filter(|&&i| self.tasks[i].status == Status::Waiting);
        let first = due.filter_map(|&i| self.tasks[i].deadline).min();
        let first = match first {
            Some(d) if force || d <= self.now => d,
            _ => return,
        };
        if first > self.now {
            self.now = first;
            os::set_clock(self.now);
        }
        for &i in &self.live {
            let t = &mut self.tasks[i];
            if t.status == Status::Waiting && t.deadline.map_or(false, |d| d <= self.now) {
                t.status = Status::Runnable;
                t.timed_out = true;
            }
        }
    }

    fn choose_next(&mut self, me: usize) -> usize {
        self.expire(false);
        if self.live.len() == 1 {
            return self.live[0];
        }
        let cands = self.candidates(me);
        if cands.len() <= 1 {
            return cands.first().cloned().unwrap_or(me);
        }
        // stalled tasks lose their turn unless everybody is stalled
        let mut open: Vec<usize> = Vec::with_capacity(cands.len());
        for &c in &cands {
            if self.tasks[c].stalled > 0 {
                self.tasks[c].stalled -= 1;
            } else {
                open.push(c);
            }
        }
        let pool = if open.is_empty() { cands } else { open };
        if pool.len() == 1 {
            return pool[0];
        }
        let me_in = pool[0] == me;
        let policy = self.knobs.policy.clone();
        let wake: Vec<u64> = pool.iter().map(|&c| self.tasks[c].wake_at).collect();
        let mut prio: Vec<u64> = pool.iter().map(|&c| self.tasks[c].prio).collect();
        let ids = pool.clone();
        let mut demote: Option<u64> = None;
        let d = self.decide(pool.len(), |r, n| match policy {
            Policy::Sequential => 0,
            Policy::Random { switch_permille } => {
                if me_in && r.below(1000) >= switch_permille as u64 {
                    0
                } else {
                    r.usize(n)
                }
            }
            Policy::RoundRobin => {
                let after = ids.iter().enumerate().filter(|(_, &i)| i > me).min_by_key(|(_, &i)| i);
                match after {
                    Some((k, _)) => k,
                    None => ids.iter().enumerate().min_by_key(|(_, &i)| i).unwrap().0,
                }
            }
            Policy::Latency { .. } => {
                (0..n).min_by_key(|&k| (wake[k], ids[k])).unwrap()
            }
            Policy::Pct { change_permille } => {
                if me_in && r.below(1000) < change_permille as u64 {
                    let p = r.below(1 << 20);
                    prio[0] = p;
                    demote = Some(p);
                }
                (0..n).max_by_key(|&k| (prio[k], ids[k])).unwrap()
            }
        });
        if let Some(p) = demote {
            self.tasks[me].prio = p;
        }
        pool[d]
    }

    /// The current task cannot go on (done, joining or blocked): hand the token to another.
    fn pass_token(&mut self, me: usize) {
        if !self.any_runnable() {
            self.expire(true);
        }
        if !self.any_runnable() {
            let any = |s: Status| self.live.iter().any(|&i| self.tasks[i].status == s);
            if any(Status::Waiting) && !any(Status::Foreign) {
                let dead = |i: &usize| self.crashed.contains(&self.tasks[*i].proc_id);
                os::stuck(self.live.iter().any(dead) || self.overrun);
            }
            // every task is done, or the joining root is the only one left and its children are
            // blocked outside the simulator: the watchdog of the driver deals with that
            self.current = usize::MAX - 1;
            return;
        }
        let next = self.choose_next(me);
        self.current = next;
        self.stats.switches += 1;
        let cv = self.tasks[next].cv.clone();
        cv.notify_all();
    }

    fn apply_faults(&mut self, me: usize, class: Class) -> Outcome {
        if class == Class::Sched {
            return Outcome::Ok;
        }
        let mut classes = vec![class];
        if matches!(
            class,
            Class::Create | Class::Put | Class::Delete | Class::Flush | Class::Compact | Class::File
        ) {
            classes.push(Class::Mutation);
        }
        let mut outcome = Outcome::Ok;
        for c in classes {
            let n = {
                let e = self.counters.entry(c).or_insert(0);
                *e += 1;
                *e - 1
            };
            if let Some(m) = self.sticky.get(&c) {
                let kind = FaultKind::Error { message: m.clone(), sticky: true };
                let owner = self.tasks[me].owner;
                self.fired_by.push((owner, Fault { class: c, nth: n, kind }));
                outcome = Outcome::Error(m.clone());
            }
            let hits: Vec<Fault> =
                self.faults.iter().filter(|f| f.class == c && f.nth == n).cloned().collect();
            for f in hits {
                let name = fault_name(&f.kind);
                *self.stats.faults.entry(name.to_string()).or_insert(0) += 1;
                self.event(me, "fault", name.as_bytes());
                self.fired.push(f.clone());
                let owner = self.tasks[me].owner;
                self.fired_by.push((owner, f.clone()));
                match f.kind {
                    FaultKind::Error { message, sticky } => {
                        if sticky {
                            self.sticky.insert(c, message.clone());
                        }
                        outcome = Outcome::Error(message);
                    }
                    FaultKind::ErrorButApplied { message } => {
                        outcome = Outcome::ErrorButApplied(message)
                    }
                    FaultKind::SilentFlushFailure => outcome = Outcome::SilentFlushFailure,
                    FaultKind::ProcessCrash => {
                        let p = self.tasks[me].proc_id;
                        self.crashed.push(p);
                        self.disk.process_crash(p);
                    }
                    FaultKind::PowerLoss { keep_permille } => {
                        let mut ps: Vec<u32> = self.tasks.iter().skip(1).map(|t| t.proc_id).collect();
                        ps.sort();
                        ps.dedup();
                        self.crashed.extend(ps);
                        self.power_lost = true;
                        self.disk.power_loss(keep_permille);
                    }
                    FaultKind::SpontaneousFlush => self.disk.flush_all(),
                    FaultKind::Stall { decisions } => self.tasks[me].stalled = decisions,
                }
            }
        }
        outcome
    }
}

pub struct TaskHandle<T> {
    id: usize,
    slot: Arc<Mutex<Option<Result<T, Box<dyn Any + Send>>>>>,
    thread: Option<std::thread::JoinHandle<()>>,
}

/// A storage operation from code under test; outside a simulation it always succeeds.
pub fn op(class: Class, detail: &[u8]) -> Outcome {
    match current() {
        Some((sim, me)) => sim.op(me, class, detail),
        None => Outcome::Ok,
    }
}

/// Pure scheduling point.
pub fn yield_now() {
    let _ = op(Class::Sched, b"");
}

pub fn misuse(text: impl Into<String>) -> ! {
    resume_unwind(Box::new(SimMisuse(text.into())))
}
