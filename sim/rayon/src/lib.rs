//! Data parallelism with rayon's interface on the simulated scheduler.
//!
//! A parallel call hands its items to `pool` worker tasks. Which worker gets which item next and
//! how the workers interleave is the scheduler's seeded choice. Outside a simulation (or with a
//! pool of one) items run inline.
use simrt::{current, Class};
use std::any::Any;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet, VecDeque};
use std::panic::resume_unwind;
use std::sync::{Arc, Mutex};

type Thunk<'a, T> = Box<dyn FnOnce() -> Vec<T> + Send + 'a>;

fn drive<'a, T: Send + 'a>(thunks: Vec<Thunk<'a, T>>) -> Vec<Vec<T>> {
    drive_in_order(thunks).0
}

/// The results by item, and the order in which the items were finished.
fn drive_in_order<'a, T: Send + 'a>(thunks: Vec<Thunk<'a, T>>) -> (Vec<Vec<T>>, Vec<usize>) {
    let n = thunks.len();
    let (sim, me) = match current() {
        Some(c) => c,
        None => return (thunks.into_iter().map(|t| t()).collect(), (0..n).collect()),
    };
    if n == 0 {
        return (vec![], vec![]);
    }
    sim.op(me, Class::Sched, b"parallel");
    let pool = sim.pool_size().max(1);
    let results: Arc<Mutex<Vec<Option<Vec<T>>>>> =
        Arc::new(Mutex::new((0..n).map(|_| None).collect()));
    let order: Arc<Mutex<Vec<usize>>> = Arc::new(Mutex::new(vec![]));
    if pool == 1 || n == 1 {
        // one worker: still in an order of the scheduler's choosing
        let mut pending: Vec<(usize, Thunk<'a, T>)> = thunks.into_iter().enumerate().collect();
        while !pending.is_empty() {
            let k = sim.choose(pending.len());
            let (i, t) = pending.remove(k);
            let r = t();
            results.lock().unwrap()[i] = Some(r);
            order.lock().unwrap().push(i);
        }
    } else {
        let proc_id = sim.proc_of(me);
        let pending: Arc<Mutex<Vec<(usize, Thunk<'static, T>)>>> = Arc::new(Mutex::new(
            thunks
                .into_iter()
                .enumerate()
                // SAFETY: every worker is joined below before this function returns or unwinds
                .map(|(i, t)| {
                    (i, unsafe { std::mem::transmute::<Thunk<'a, T>, Thunk<'static, T>>(t) })
                })
                .collect(),
        ));
        let panics: Arc<Mutex<Vec<Box<dyn Any + Send>>>> = Arc::new(Mutex::new(vec![]));
        let workers = pool.min(n);
        let mut handles = Vec::with_capacity(workers);
        for _ in 0..workers {
            let (pending, results, sim2) = (pending.clone(), results.clone(), sim.clone());
            let order = order.clone();
            let work = move || loop {
                let k = {
                    let n = pending.lock().unwrap().len();
                    if n == 0 {
                        break;
                    }
                    sim2.choose(n)
                };
                let (i, t) = {
                    let mut p = pending.lock().unwrap();
                    if k >= p.len() {
                        continue;
                    }
                    p.remove(k)
                };
                let r = t();
                results.lock().unwrap()[i] = Some(r);
                order.lock().unwrap().push(i);
                simrt::yield_now();
            };
            // SAFETY: as above
            let work: Box<dyn FnOnce() + Send + 'static> =
                unsafe { std::mem::transmute::<Box<dyn FnOnce() + Send + '_>, _>(Box::new(work)) };
            handles.push(sim.spawn(proc_id, work));
        }
        for r in sim.join_raw(handles) {
            if let Err(p) = r {
                panics.lock().unwrap().push(p);
            }
        }
        // drop what no worker ran (after a panic) while the borrowed data is still alive
        pending.lock().unwrap().clear();
        let first = panics.lock().unwrap().drain(..).next();
        if let Some(p) = first {
            resume_unwind(p);
        }
    }
    sim.op(me, Class::Sched, b"parallel-end");
    let mut g = results.lock().unwrap();
    let order = order.lock().unwrap().clone();
    (g.drain(..).map(|r| r.expect("item result")).collect(), order)
}

/// How a reduction is split up is the thread pool's choice, so it is the scheduler's.
fn tree<T>(mut v: Vec<T>, identity: &dyn Fn() -> T, f: &dyn Fn(T, T) -> T) -> T {
    match v.len() {
        0 => identity(),
        1 => f(identity(), v.pop().expect("one item")),
        n => {
            let at = match current() {
                Some((sim, _)) => 1 + sim.choose(n - 1),
                None => n / 2,
            };
            let b = v.split_off(at);
            f(tree(v, identity, f), tree(b, identity, f))
        }
    }
}
fn tree1<T>(mut v: Vec<T>, f: &dyn Fn(T, T) -> T) -> Option<T> {
    match v.len() {
        0 => None,
        1 => v.pop(),
        n => {
            let at = match current() {
                Some((sim, _)) => 1 + sim.choose(n - 1),
                None => n / 2,
            };
            let b = v.split_off(at);
            Some(f(tree1(v, f)?, tree1(b, f)?))
        }
    }
}

pub struct ParIter<'a, T> {
    thunks: Vec<Thunk<'a, T>>,
    /// the items come out in the order in which they are finished
    unordered: bool,
}

impl<'a, T: Send + 'a> ParIter<'a, T> {
    fn of(items: impl IntoIterator<Item = T>) -> Self {
        ParIter {
            thunks: items
                .into_iter()
                .map(|i| Box::new(move || vec![i]) as Thunk<'a, T>)
                .collect(),
            unordered: false,
        }
    }
    fn then<R: Send + 'a>(
        self,
        f: impl Fn(Vec<T>) -> Vec<R> + Send + Sync + 'a,
    ) -> ParIter<'a, R> {
        let f = Arc::new(f);
        ParIter {
            thunks: self
                .thunks
                .into_iter()
                .map(|t| {
                    let f = f.clone();
                    Box::new(move || f(t())) as Thunk<'a, R>
                })
                .collect(),
            unordered: self.unordered,
        }
    }
    fn flat(self) -> Vec<T> {
        if self.unordered {
            return self.finished();
        }
        drive(self.thunks).into_iter().flatten().collect()
    }
    /// in the order in which they are finished
    fn finished(self) -> Vec<T> {
        let (r, order) = drive_in_order(self.thunks);
        let mut r: Vec<Option<Vec<T>>> = r.into_iter().map(Some).collect();
        order.into_iter().flat_map(|i| r[i].take().unwrap_or_default()).collect()
    }

    pub fn map<R: Send + 'a>(self, f: impl Fn(T) -> R + Send + Sync + 'a) -> ParIter<'a, R> {
        self.then(move |v| v.into_iter().map(|x| f(x)).collect())
    }
    pub fn map_with<S: Clone + Send + Sync + 'a, R: Send + 'a>(
        self,
        init: S,
        f: impl Fn(&mut S, T) -> R + Send + Sync + 'a,
    ) -> ParIter<'a, R> {
        self.then(move |v| {
            let mut s = init.clone();
            v.into_iter().map(|x| f(&mut s, x)).collect()
        })
    }
    pub fn map_init<S, R: Send + 'a>(
        self,
        init: impl Fn() -> S + Send + Sync + 'a,
        f: impl Fn(&mut S, T) -> R + Send + Sync + 'a,
    ) -> ParIter<'a, R> {
        self.then(move |v| {
            let mut s = init();
            v.into_iter().map(|x| f(&mut s, x)).collect()
        })
    }
    pub fn filter(self, f: impl Fn(&T) -> bool + Send + Sync + 'a) -> ParIter<'a, T> {
        self.then(move |v| v.into_iter().filter(|x| f(x)).collect())
    }
    pub fn filter_map<R: Send + 'a>(
        self,
        f: impl Fn(T) -> Option<R> + Send + Sync + 'a,
    ) -> ParIter<'a, R> {
        self.then(move |v| v.into_iter().filter_map(|x| f(x)).collect())
    }
    pub fn flat_map<I: IntoIterator + 'a>(
        self,
        f: impl Fn(T) -> I + Send + Sync + 'a,
    ) -> ParIter<'a, I::Item>
    where
        I::Item: Send + 'a,
    {
        self.then(move |v| v.into_iter().flat_map(|x| f(x)).collect())
    }
    pub fn flat_map_iter<I: IntoIterator + 'a>(
        self,
        f: impl Fn(T) -> I + Send + Sync + 'a,
    ) -> ParIter<'a, I::Item>
    where
        I::Item: Send + 'a,
    {
        self.flat_map(f)
    }
    pub fn inspect(self, f: impl Fn(&T) + Send + Sync + 'a) -> ParIter<'a, T> {
        self.then(move |v| {
            v.iter().for_each(|x| f(x));
            v
        })
    }
    pub fn enumerate(self) -> ParIter<'a, (usize, T)> {
        ParIter {
            unordered: self.unordered,
            thunks: self
                .thunks
                .into_iter()
                .enumerate()
                .map(|(i, t)| {
                    Box::new(move || t().into_iter().map(|x| (i, x)).collect())
                        as Thunk<'a, (usize, T)>
                })
                .collect(),
        }
    }
    pub fn zip<U: Send + 'a>(self, other: ParIter<'a, U>) -> ParIter<'a, (T, U)> {
        ParIter {
            unordered: self.unordered,
            thunks: self
                .thunks
                .into_iter()
                .zip(other.thunks)
                .map(|(a, b)| {
                    Box::new(move || a().into_iter().zip(b()).collect()) as Thunk<'a, (T, U)>
                })
                .collect(),
        }
    }
    pub fn chain(mut self, other: ParIter<'a, T>) -> ParIter<'a, T> {
        self.thunks.extend(other.thunks);
        self
    }
    pub fn rev(mut self) -> ParIter<'a, T> {
        self.thunks.reverse();
        self
    }
    pub fn take(mut self, n: usize) -> ParIter<'a, T> {
        self.thunks.truncate(n);
        self
    }
    pub fn skip(mut self, n: usize) -> ParIter<'a, T> {
        self.thunks.drain(..n.min(self.thunks.len()));
        self
    }
    pub fn with_min_len(self, _n: usize) -> Self {
        self
    }
    pub fn with_max_len(self, _n: usize) -> Self {
        self
    }
    pub fn len(&self) -> usize {
        self.thunks.len()
    }
    pub fn cloned<U: Clone + Send + Sync + 'a>(self) -> ParIter<'a, U>
    where
        T: std::ops::Deref<Target = U>,
    {
        self.map(|x| (*x).clone())
    }
    pub fn copied<U: Copy + Send + Sync + 'a>(self) -> ParIter<'a, U>
    where
        T: std::ops::Deref<Target = U>,
    {
        self.map(|x| *x)
    }

    pub fn for_each(self, f: impl Fn(T) + Send + Sync + 'a) {
        drive(self.map(f).thunks);
    }
    pub fn try_for_each<E: Send + 'a>(
        self,
        f: impl Fn(T) -> Result<(), E> + Send + Sync + 'a,
    ) -> Result<(), E> {
        self.map(f).finished().into_iter().collect()
    }
    pub fn collect<C: std::iter::FromIterator<T>>(self) -> C {
        self.flat().into_iter().collect()
    }
    pub fn collect_into_vec(self, out: &mut Vec<T>) {
        *out = self.flat();
    }
    pub fn count(self) -> usize {
        self.flat().len()
    }
    pub fn sum<S: std::iter::Sum<T>>(self) -> S {
        self.flat().into_iter().sum()
    }
    pub fn max(self) -> Option<T>
    where
        T: Ord,
    {
        self.flat().into_iter().max()
    }
    pub fn min(self) -> Option<T>
    where
        T: Ord,
    {
        self.flat().into_iter().min()
    }
    pub fn any(self, f: impl Fn(T) -> bool + Send + Sync + 'a) -> bool {
        self.map(f).flat().into_iter().any(|b| b)
    }
    pub fn all(self, f: impl Fn(T) -> bool + Send + Sync + 'a) -> bool {
        self.map(f).flat().into_iter().all(|b| b)
    }
    pub fn find_any(self, f: impl Fn(&T) -> bool + Send + Sync + 'a) -> Option<T> {
        self.filter(f).finished().into_iter().next()
    }
    pub fn find_map_any<R: Send + 'a>(
        self,
        f: impl Fn(T) -> Option<R> + Send + Sync + 'a,
    ) -> Option<R> {
        self.filter_map(f).finished().into_iter().next()
    }
    pub fn find_map_first<R: Send + 'a>(
        self,
        f: impl Fn(T) -> Option<R> + Send + Sync + 'a,
    ) -> Option<R> {
        self.filter_map(f).flat().into_iter().next()
    }
    pub fn find_last(self, f: impl Fn(&T) -> bool + Send + Sync + 'a) -> Option<T> {
        self.filter(f).flat().into_iter().last()
    }
    pub fn position_any(self, f: impl Fn(T) -> bool + Send + Sync + 'a) -> Option<usize> {
        self.enumerate().map(move |(i, x)| (i, f(x))).finished().into_iter().find(|p| p.1).map(|p| p.0)
    }
    pub fn max_by(self, f: impl Fn(&T, &T) -> std::cmp::Ordering) -> Option<T> {
        self.flat().into_iter().max_by(|a, b| f(a, b))
    }
    pub fn min_by(self, f: impl Fn(&T, &T) -> std::cmp::Ordering) -> Option<T> {
        self.flat().into_iter().min_by(|a, b| f(a, b))
    }
    pub fn max_by_key<K: Ord>(self, f: impl Fn(&T) -> K) -> Option<T> {
        self.flat().into_iter().max_by_key(|a| f(a))
    }
    pub fn min_by_key<K: Ord>(self, f: impl Fn(&T) -> K) -> Option<T> {
        self.flat().into_iter().min_by_key(|a| f(a))
    }
    pub fn reduce_with(self, f: impl Fn(T, T) -> T) -> Option<T> {
        tree1(self.flat(), &f)
    }
    pub fn for_each_with<S: Clone + Send + Sync + 'a>(
        self,
        s: S,
        f: impl Fn(&mut S, T) + Send + Sync + 'a,
    ) {
        drive(self.map_with(s, f).thunks);
    }
    pub fn find_first(self, f: impl Fn(&T) -> bool + Send + Sync + 'a) -> Option<T> {
        self.filter(f).flat().into_iter().next()
    }
    pub fn reduce(self, identity: impl Fn() -> T, f: impl Fn(T, T) -> T) -> T {
        tree(self.flat(), &identity, &f)
    }
    pub fn fold<A: Send + 'a>(
        self,
        identity: impl Fn() -> A + Send + Sync + 'a,
        f: impl Fn(A, T) -> A + Send + Sync + 'a,
    ) -> ParIter<'a, A> {
        self.then(move |v| vec![v.into_iter().fold(identity(), |a, b| f(a, b))])
    }
    pub fn partition<A: Default + Extend<T>, B: Default + Extend<T>>(
        self,
        f: impl Fn(&T) -> bool,
    ) -> (A, B) {
        let (mut a, mut b) = (A::default(), B::default());
        for x in self.flat() {
            if f(&x) {
                a.extend(Some(x))
            } else {
                b.extend(Some(x))
            }
        }
        (a, b)
    }
    pub fn unzip<A, B, FA: Default + Extend<A>, FB: Default + Extend<B>>(self) -> (FA, FB)
    where
        T: Into<(A, B)>,
    {
        let (mut a, mut b) = (FA::default(), FB::default());
        for x in self.flat() {
            let (p, q) = x.into();
            a.extend(Some(p));
            b.extend(Some(q));
        }
        (a, b)
    }
}

pub mod iter {
    use super::*;
    /// Marker so that `use rayon::prelude::*` and bounds naming the trait keep compiling.
    pub trait ParallelIterator {}
    impl<'a, T> ParallelIterator for ParIter<'a, T> {}
    pub trait IndexedParallelIterator {}
    impl<'a, T> IndexedParallelIterator for ParIter<'a, T> {}

    pub trait IntoParallelIterator<'a> {
        type Item: Send + 'a;
        fn into_par_iter(self) -> ParIter<'a, Self::Item>;
    }
    macro_rules! into_par {
        ($(($($g:tt)*) $t:ty, $i:ty;)*) => { $(
            impl<'a, $($g)*> IntoParallelIterator<'a> for $t {
                type Item = $i;
                fn into_par_iter(self) -> ParIter<'a, $i> {
                    ParIter::of(self)
                }
            }
        )* };
    }
    into_par! {
        (T: Send + 'a) Vec<T>, T;
        (T: Send + 'a) VecDeque<T>, T;
        (T: Send + 'a) Option<T>, T;
        (T: Send + 'a) BTreeSet<T>, T;
        (K: Send + 'a, V: Send + 'a) BTreeMap<K, V>, (K, V);
        (K: Send + 'a, V: Send + 'a, S: 'a) HashMap<K, V, S>, (K, V);
        (T: Send + 'a, S: 'a) HashSet<T, S>, T;
        () std::ops::Range<usize>, usize;
        () std::ops::Range<u32>, u32;
        () std::ops::Range<u64>, u64;
        () std::ops::RangeInclusive<usize>, usize;
        (T: Sync + 'a) &'a Vec<T>, &'a T;
        (T: Sync + 'a) &'a [T], &'a T;
        (T: Sync + 'a) &'a BTreeSet<T>, &'a T;
        (K: Sync + 'a, V: Sync + 'a) &'a BTreeMap<K, V>, (&'a K, &'a V);
        (K: Sync + 'a, V: Sync + 'a, S: 'a) &'a HashMap<K, V, S>, (&'a K, &'a V);
        (T: Send + 'a) &'a mut Vec<T>, &'a mut T;
        (T: Send + 'a) &'a mut [T], &'a mut T;
    }
    impl<'a, T: Send + 'a> IntoParallelIterator<'a> for ParIter<'a, T> {
        type Item = T;
        fn into_par_iter(self) -> ParIter<'a, T> {
            self
        }
    }

    pub trait IntoParallelRefIterator<'a> {
        type Item: Send + 'a;
        fn par_iter(&'a self) -> ParIter<'a, Self::Item>;
    }
    impl<'a, C: ?Sized + 'a> IntoParallelRefIterator<'a> for C
    where
        &'a C: IntoParallelIterator<'a>,
    {
        type Item = <&'a C as IntoParallelIterator<'a>>::Item;
        fn par_iter(&'a self) -> ParIter<'a, Self::Item> {
            self.into_par_iter()
        }
    }
    pub trait IntoParallelRefMutIterator<'a> {
        type Item: Send + 'a;
        fn par_iter_mut(&'a mut self) -> ParIter<'a, Self::Item>;
    }
    impl<'a, C: ?Sized + 'a> IntoParallelRefMutIterator<'a> for C
    where
        &'a mut C: IntoParallelIterator<'a>,
    {
        type Item = <&'a mut C as IntoParallelIterator<'a>>::Item;
        fn par_iter_mut(&'a mut self) -> ParIter<'a, Self::Item> {
            self.into_par_iter()
        }
    }
    pub trait ParallelBridge: Sized {
        type Item: Send;
        fn par_bridge<'a>(self) -> ParIter<'a, Self::Item>
        where
            Self::Item: 'a;
    }
    impl<I: Iterator> ParallelBridge for I
    where
        I::Item: Send,
    {
        type Item = I::Item;
        fn par_bridge<'a>(self) -> ParIter<'a, I::Item>
        where
            I::Item: 'a,
        {
            ParIter { unordered: true, ..ParIter::of(self) }
        }
    }
}

pub mod slice {
    use super::*;
    pub trait ParallelSlice<T: Sync> {
        fn as_slice_(&self) -> &[T];
        fn par_chunks<'a>(&'a self, n: usize) -> ParIter<'a, &'a [T]>
        where
            T: 'a,
        {
            ParIter::of(self.as_slice_().chunks(n))
        }
        fn par_windows<'a>(&'a self, n: usize) -> ParIter<'a, &'a [T]>
        where
            T: 'a,
        {
            ParIter::of(self.as_slice_().windows(n))
        }
    }
    impl<T: Sync> ParallelSlice<T> for [T] {
        fn as_slice_(&self) -> &[T] {
            self
        }
    }
    pub trait ParallelSliceMut<T: Send> {
        fn as_mut_slice_(&mut self) -> &mut [T];
        fn par_chunks_mut<'a>(&'a mut self, n: usize) -> ParIter<'a, &'a mut [T]>
        where
            T: 'a,
        {
            ParIter::of(self.as_mut_slice_().chunks_mut(n))
        }
        fn par_sort(&mut self)
        where
            T: Ord,
        {
            self.as_mut_slice_().sort()
        }
        fn par_sort_by<F: Fn(&T, &T) -> std::cmp::Ordering + Sync>(&mut self, f: F) {
            self.as_mut_slice_().sort_by(f)
        }
        fn par_sort_by_key<K: Ord, F: Fn(&T) -> K + Sync>(&mut self, f: F) {
            self.as_mut_slice_().sort_by_key(f)
        }
        fn par_sort_unstable(&mut self)
        where
            T: Ord,
        {
            self.as_mut_slice_().sort()
        }
        fn par_sort_unstable_by<F: Fn(&T, &T) -> std::cmp::Ordering + Sync>(&mut self, f: F) {
            self.as_mut_slice_().sort_by(f)
        }
        fn par_sort_unstable_by_key<K: Ord, F: Fn(&T) -> K + Sync>(&mut self, f: F) {
            self.as_mut_slice_().sort_by_key(f)
        }
    }
    impl<T: Send> ParallelSliceMut<T> for [T] {
        fn as_mut_slice_(&mut self) -> &mut [T] {
            self
        }
    }
}

pub mod prelude {
    pub use crate::iter::{
        IndexedParallelIterator, IntoParallelIterator, IntoParallelRefIterator,
        IntoParallelRefMutIterator, ParallelBridge, ParallelIterator,
    };
    pub use crate::slice::{ParallelSlice, ParallelSliceMut};
}

enum Either<A, B> {
    L(A),
    R(B),
}

pub fn join<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
    A: FnOnce() -> RA + Send,
    B: FnOnce() -> RB + Send,
    RA: Send,
    RB: Send,
{
    let thunks: Vec<Thunk<'_, Either<RA, RB>>> = vec![
        Box::new(move || vec![Either::L(a())]),
        Box::new(move || vec![Either::R(b())]),
    ];
    let (mut ra, mut rb) = (None, None);
    for e in drive(thunks).into_iter().flatten() {
        match e {
            Either::L(x) => ra = Some(x),
            Either::R(x) => rb = Some(x),
        }
    }
    (ra.unwrap(), rb.unwrap())
}

/// Tasks spawned in the scope run, in parallel with each other, before `scope` returns.
pub struct Scope<'s> {
    queue: Mutex<Vec<Box<dyn FnOnce(&Scope<'s>) + Send + 's>>>,
}
impl<'s> Scope<'s> {
    pub fn spawn<F: FnOnce(&Scope<'s>) + Send + 's>(&self, f: F) {
        self.queue.lock().unwrap().push(Box::new(f));
    }
}
pub fn scope<'s, R>(f: impl FnOnce(&Scope<'s>) -> R) -> R {
    let s = Scope { queue: Mutex::new(vec![]) };
    let r = f(&s);
    loop {
        let batch: Vec<_> = std::mem::take(&mut *s.queue.lock().unwrap());
        if batch.is_empty() {
            return r;
        }
        let sr = &s;
        let thunks: Vec<Thunk<'_, ()>> = batch
            .into_iter()
            .map(|f| {
                Box::new(move || {
                    f(sr);
                    vec![]
                }) as Thunk<'_, ()>
            })
            .collect();
        drive(thunks);
    }
}

pub fn current_num_threads() -> usize {
    current().map(|(s, _)| s.pool_size()).unwrap_or(1)
}
pub fn current_thread_index() -> Option<usize> {
    None
}

#[derive(Debug)]
pub struct ThreadPoolBuildError;
impl std::fmt::Display for ThreadPoolBuildError {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "thread pool")
    }
}
impl std::error::Error for ThreadPoolBuildError {}
#[derive(Default)]
pub struct ThreadPoolBuilder;
impl ThreadPoolBuilder {
    pub fn new() -> Self {
        ThreadPoolBuilder
    }
    pub fn num_threads(self, _n: usize) -> Self {
        self
    }
    pub fn build(self) -> Result<ThreadPool, ThreadPoolBuildError> {
        Ok(ThreadPool)
    }
    pub fn build_global(self) -> Result<(), ThreadPoolBuildError> {
        Ok(())
    }
}
pub struct ThreadPool;
impl ThreadPool {
    pub fn install<R>(&self, f: impl FnOnce() -> R) -> R {
        f()
    }
    pub fn join<A, B, RA, RB>(&self, a: A, b: B) -> (RA, RB)
    where
        A: FnOnce() -> RA + Send,
        B: FnOnce() -> RB + Send,
        RA: Send,
        RB: Send,
    {
        join(a, b)
    }
}
