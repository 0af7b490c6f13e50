//! Stand-in for rayon: one schedule of the parallel work, chosen by the demonstration.
use std::sync::atomic::{AtomicU32, Ordering};
static ORDER: AtomicU32 = AtomicU32::new(0);
static CALLS: AtomicU32 = AtomicU32::new(0);
fn backwards() -> bool {
    match ORDER.load(Ordering::SeqCst) {
        1 => true,
        pattern => (pattern >> CALLS.fetch_add(1, Ordering::SeqCst).min(31)) & 1 == 1,
    }
}
/// 0: first item first; 1: last item first; else: bit n set, last item first in the nth call.
pub fn schedule(k: u32) {
    CALLS.store(0, Ordering::SeqCst);
    ORDER.store(k, Ordering::SeqCst)
}
pub mod prelude {
    pub use super::{IntoParallelIterator, ParallelBridge, ParallelIterator};
}
pub mod iter {
    pub use super::{IntoParallelIterator, ParallelBridge, ParallelIterator};
}
pub struct Par<T, R, F: Fn(T) -> R> {
    items: Vec<T>,
    f: F,
}
pub struct ParVec<T>(Vec<T>);
pub trait ParallelIterator {}
impl<T> ParallelIterator for ParVec<T> {}
pub trait IntoParallelIterator {
    type Item;
    fn into_par_iter(self) -> ParVec<Self::Item>;
}
impl<T> IntoParallelIterator for Vec<T> {
    type Item = T;
    fn into_par_iter(self) -> ParVec<T> {
        ParVec(self)
    }
}
/// Items are handed out one by one; results come in the order in which they are finished.
pub struct ParBridged<T>(Vec<T>);
impl<T> ParallelIterator for ParBridged<T> {}
pub trait ParallelBridge: Iterator + Sized {
    fn par_bridge(self) -> ParBridged<Self::Item> {
        ParBridged(self.collect())
    }
}
impl<I: Iterator> ParallelBridge for I {}
impl<T> ParBridged<T> {
    pub fn map<R, F: Fn(T) -> R>(mut self, f: F) -> std::vec::IntoIter<R> {
        if backwards() {
            self.0.reverse();
        }
        self.0.into_iter().map(f).collect::<Vec<R>>().into_iter()
    }
}
impl<T> ParVec<T> {
    pub fn map<R, F: Fn(T) -> R>(self, f: F) -> Par<T, R, F> {
        Par { items: self.0, f }
    }
}
impl<T, R, F: Fn(T) -> R> Par<T, R, F> {
    pub fn collect<C: std::iter::FromIterator<R>>(self) -> C {
        let f = self.f;
        let n = self.items.len();
        let mut out: Vec<Option<R>> = (0..n).map(|_| None).collect();
        let mut work: Vec<(usize, T)> = self.items.into_iter().enumerate().collect();
        if backwards() {
            work.reverse();
        }
        for (i, x) in work {
            out[i] = Some(f(x));
        }
        out.into_iter().map(|x| x.unwrap()).collect()
    }
}
pub struct ThreadPoolBuilder;
impl ThreadPoolBuilder {
    pub fn new() -> Self {
        ThreadPoolBuilder
    }
    pub fn num_threads(self, _n: usize) -> Self {
        self
    }
    pub fn build_global(self) -> Result<(), String> {
        Ok(())
    }
}
