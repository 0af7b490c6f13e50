//! What the stand-in for neon needs to run tasks. The pool is busy: a task starts when the event
//! loop comes to wait for it, on a thread of its own.
use std::any::Any;
pub struct SimCrash;
pub struct SimOverrun;
pub struct SimMisuse;
#[derive(Clone)]
pub struct Sim;
pub struct TaskHandle<T>(Box<dyn FnOnce() -> T + Send>);
pub fn current() -> Option<(Sim, usize)> {
    Some((Sim, 0))
}
pub fn yield_now() {}
pub fn panic_text(p: &(dyn Any + Send)) -> String {
    p.downcast_ref::<&str>()
        .map(|s| s.to_string())
        .or_else(|| p.downcast_ref::<String>().cloned())
        .unwrap_or_default()
}
impl Sim {
    pub fn proc_of(&self, _: usize) -> usize {
        0
    }
    pub fn choose(&self, _: usize) -> usize {
        0
    }
    pub fn spawn<T: Send + 'static>(&self, _: usize, f: impl FnOnce() -> T + Send + 'static) -> TaskHandle<T> {
        TaskHandle(Box::new(f))
    }
    pub fn join_raw<T: Send + 'static>(&self, hs: Vec<TaskHandle<T>>) -> Vec<Result<T, Box<dyn Any + Send>>> {
        hs.into_iter().map(|h| std::thread::spawn(h.0).join()).collect()
    }
}
