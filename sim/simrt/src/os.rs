//! What code under test may ask the operating system for besides the storage engine and the thread
//! pool: the time, sleep, threads of its own and the waits of its own locks. The harness binary
//! defines the C functions Rust's standard library calls for these (`clock_gettime`, `syscall` with
//! a futex, `pthread_create` ...) and sends the calls of simulated tasks here.
use crate::{current, new_task, Class, Guard, Sim, Status, CUR};
use std::cell::Cell;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::Arc;

thread_local! {
    static INSIDE: Cell<u32> = const { Cell::new(0) };
}
/// While one of these lives, the thread works for the simulator.
pub struct Inside(());
impl Inside {
    pub fn new() -> Inside {
        let _ = INSIDE.try_with(|c| c.set(c.get() + 1));
        Inside(())
    }
}
impl Drop for Inside {
    fn drop(&mut self) {
        let _ = INSIDE.try_with(|c| c.set(c.get() - 1));
    }
}

/// The simulation and task on whose behalf this thread runs code under test right now.
fn task() -> Option<(Arc<Sim>, usize)> {
    if INSIDE.try_with(|c| c.get()).unwrap_or(1) > 0 {
        return None;
    }
    let _inside = Inside::new();
    current()
}

// ---- preemption ----------------------------------------------------------------------------------
//
// A thread may lose the processor anywhere, also where it asks the environment for nothing. The
// harness's allocator counts a task's allocations; when the countdown ends, the scheduler decides.

thread_local! {
    static LEFT: Cell<u64> = const { Cell::new(0) };
    static GAP: Cell<u64> = const { Cell::new(0) };
    static TAKEN: Cell<u64> = const { Cell::new(0) };
    static DRAW: Cell<u64> = const { Cell::new(0) };
    static WHOLE: Cell<u32> = const { Cell::new(0) };
}
/// While one of these lives, the thread loses the processor only at storage operations.
pub struct Whole(());
impl Whole {
    pub fn new() -> Whole {
        let _ = WHOLE.try_with(|c| c.set(c.get() + 1));
        Whole(())
    }
}
impl Drop for Whole {
    fn drop(&mut self) {
        let _ = WHOLE.try_with(|c| c.set(c.get() - 1));
    }
}
fn draw_gap() {
    let mut v = DRAW.get();
    let x = crate::rng::splitmix(&mut v);
    DRAW.set(v);
    LEFT.set(1 + x % (2 * GAP.get()).max(1));
}
/// From here on this thread is preempted every `gap` allocations or so (0: never).
pub(crate) fn preempt_every(gap: u32, seed: u64) {
    GAP.set(gap as u64);
    DRAW.set(seed);
    TAKEN.set(0);
    if gap > 0 {
        draw_gap();
    } else {
        LEFT.set(0);
    }
}
/// This thread has asked for memory.
pub fn allocated() {
    let left = LEFT.try_with(|c| c.get()).unwrap_or(0);
    if left == 0 || INSIDE.get() > 0 || WHOLE.get() > 0 {
        return;
    }
    if left > 1 {
        LEFT.set(left - 1);
        return;
    }
    let _inside = Inside::new();
    TAKEN.set(TAKEN.get() + 1);
    if TAKEN.get() % 64 == 0 {
        GAP.set(GAP.get() * 2);
    }
    draw_gap();
    let cur = CUR.try_with(|c| c.try_borrow().ok().and_then(|b| b.clone())).ok().flatten();
    if let Some((sim, me)) = cur {
        let errno = unsafe { *libc::__errno_location() };
        if !sim.preempt(me) {
            LEFT.set(0);
        }
        unsafe { *libc::__errno_location() = errno };
    }
}

// ---- time ----------------------------------------------------------------------------------------

static NOW: AtomicU64 = AtomicU64::new(0);
/// every look at the clock takes a little, so that waiting for a time to come ends
static LOOKS: AtomicU64 = AtomicU64::new(0);
const LOOK_NS: u64 = 50;
/// the clock starts somewhere between 2001 and 2033, at the will of the run's seed of hash maps
static START: AtomicU64 = AtomicU64::new(0);

static RUNS: AtomicU64 = AtomicU64::new(0);
/// Which simulation of this process this is.
pub fn run() -> u64 {
    RUNS.load(Ordering::SeqCst)
}
pub(crate) fn reset_clock(seed: u64) {
    START.store(1_000_000_000_000_000_000 + seed % 1_000_000_000_000_000_000, Ordering::SeqCst);
    RUNS.fetch_add(1, Ordering::SeqCst);
    NOW.store(0, Ordering::SeqCst);
    LOOKS.store(0, Ordering::SeqCst);
}
pub(crate) fn set_clock(ns: u64) {
    NOW.store(ns, Ordering::SeqCst);
}
fn skew() -> u64 {
    START.load(Ordering::SeqCst) + LOOKS.load(Ordering::SeqCst) * LOOK_NS
}
/// Nanoseconds on the simulated clock, for a simulated task.
pub fn clock() -> Option<u64> {
    task()?;
    LOOKS.fetch_add(1, Ordering::SeqCst);
    Some(NOW.load(Ordering::SeqCst) + skew())
}
/// Simulated sleep (0: just a chance for others to run).
pub fn sleep(ns: u64) -> bool {
    match task() {
        Some((sim, me)) => {
            sim.lock().stats.own_sleeps += 1;
            if sim.try_op(me, Class::Sched, b"sleep", ns).is_err() {
                died(&sim, me);
            }
            true
        }
        None => false,
    }
}

/// The process died in a call that cannot unwind; whatever the task still does has no effect.
fn died(sim: &Arc<Sim>, me: usize) {
    let mut g = sim.lock();
    let p = g.tasks[me].proc_id;
    if g.crashed.contains(&p) {
        g.quiet_deaths.push(p);
    }
}

// ---- waiting -------------------------------------------------------------------------------------

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Wait {
    /// not a simulated task: let the system do it
    Real,
    Woken,
    Changed,
    TimedOut,
}

/// `timeout`: (nanoseconds, counted from the clock's start rather than from now)
pub fn wait(addr: usize, expected: u32, timeout: Option<(u64, bool)>) -> Wait {
    let (sim, me) = match task() {
        Some(t) => t,
        None => return Wait::Real,
    };
    let mut g: Guard = sim.lock();
    if g.current != me {
        return Wait::Real;
    }
    if unsafe { &*(addr as *const std::sync::atomic::AtomicU32) }.load(Ordering::SeqCst) != expected {
        return Wait::Changed;
    }
    g.event(me, "wait", b"");
    g.stats.own_waits += 1;
    g.stats.steps += 1;
    let now = g.now;
    let t = &mut g.tasks[me];
    t.status = Status::Waiting;
    t.wait_addr = addr;
    t.timed_out = false;
    t.deadline = timeout.map(|(ns, absolute)| if absolute { ns.saturating_sub(skew()) } else { now.saturating_add(ns) });
    g.pass_token(me);
    g = sim.wait_loop(g, me);
    let t = &mut g.tasks[me];
    t.deadline = None;
    if t.timed_out {
        Wait::TimedOut
    } else {
        Wait::Woken
    }
}

/// Ends the waits of up to `n` tasks; None: not a simulated task.
pub fn wake(addr: usize, n: usize) -> Option<usize> {
    let (sim, _) = task()?;
    let mut g = sim.lock();
    let ids: Vec<usize> = g
        .live
        .iter()
        .cloned()
        .filter(|&i| g.tasks[i].status == Status::Waiting && g.tasks[i].wait_addr == addr)
        .take(n)
        .collect();
    for &i in &ids {
        g.tasks[i].status = Status::Runnable;
    }
    Some(ids.len())
}

static STUCK: AtomicUsize = AtomicUsize::new(0);
/// What to do when every task waits and nothing can ever end that; must not return. The argument
/// says whether a simulated process has died, whose threads would not be there any more.
pub fn when_stuck(f: fn(bool)) {
    STUCK.store(f as usize, Ordering::SeqCst);
}
pub(crate) fn stuck(excused: bool) {
    let f = STUCK.load(Ordering::SeqCst);
    if f != 0 {
        let f: fn(bool) = unsafe { std::mem::transmute(f) };
        f(excused)
    }
}

// ---- threads -------------------------------------------------------------------------------------

type Start = extern "C" fn(*mut libc::c_void) -> *mut libc::c_void;
struct Child {
    sim: Arc<Sim>,
    id: usize,
    start: Start,
    arg: usize,
}

/// The thread function and argument to start instead; `Err`: not a simulated task.
pub fn adopt(start: Start, arg: *mut libc::c_void) -> Result<(Start, *mut libc::c_void, usize), ()> {
    let (sim, me) = task().ok_or(())?;
    let id = {
        let mut g = sim.lock();
        let proc_id = g.tasks[me].proc_id;
        let mut t = new_task(&mut g, proc_id);
        t.wake_at = g.now;
        t.owner = g.tasks[me].owner;
        g.tasks.push(t);
        g.stats.tasks += 1;
        g.stats.own_threads += 1;
        let id = g.tasks.len() - 1;
        g.live.push(id);
        g.event(me, "thread", format!("{}", id).as_bytes());
        id
    };
    let child = Box::new(Child { sim, id, start, arg: arg as usize });
    Ok((run_child, Box::into_raw(child) as *mut libc::c_void, id))
}
/// `adopt` was followed by this thread.
pub fn adopted(id: usize, thread: usize) {
    if let Some((sim, _)) = task() {
        sim.lock().threads.insert(thread, id);
    }
}
extern "C" fn run_child(arg: *mut libc::c_void) -> *mut libc::c_void {
    let child = unsafe { Box::from_raw(arg as *mut Child) };
    let (sim, id) = (child.sim.clone(), child.id);
    crate::enter(&sim, id);
    sim.wait_for_token(id);
    let r = (child.start)(child.arg as *mut libc::c_void);
    CUR.with(|c| *c.borrow_mut() = None);
    sim.finish_task(id);
    r
}
/// Waits (in simulated terms) until the thread has ended, if it is one of ours.
pub fn wait_for_thread(thread: usize) {
    if let Some((sim, _)) = task() {
        let id = sim.lock().threads.remove(&thread);
        if let Some(id) = id {
            sim.wait_for(&[id]);
        }
    }
}

// ---- files ---------------------------------------------------------------------------------------

/// Is this thread running code under test?
pub fn in_task() -> bool {
    task().is_some()
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum FileOutcome {
    Ok,
    Error,
    ErrorButApplied,
}
/// The code is about to change the directory tree: a point for scheduling, errors and crashes.
pub fn file(what: &[u8]) -> FileOutcome {
    let (sim, me) = match task() {
        Some(t) => t,
        None => return FileOutcome::Ok,
    };
    match sim.try_op(me, Class::File, what, 0) {
        Ok(crate::Outcome::Ok) | Ok(crate::Outcome::SilentFlushFailure) => FileOutcome::Ok,
        Ok(crate::Outcome::ErrorButApplied(_)) => FileOutcome::ErrorButApplied,
        Ok(crate::Outcome::Error(_)) => FileOutcome::Error,
        Err(_) => {
            died(&sim, me);
            FileOutcome::Error
        }
    }
}
