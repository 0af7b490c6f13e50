//! Static 2-d point index with the interface of `static-bushes`' KDBush.
//! Points are kept in insertion order; queries report indices in insertion order.
use std::collections::BTreeMap;

pub struct KDBush<T> {
    points: Vec<[T; 2]>,
    exact: BTreeMap<[T; 2], Vec<usize>>,
}

pub struct KDBushBuilder<T> {
    points: Vec<[T; 2]>,
}

impl<T: Copy + Ord> KDBushBuilder<T> {
    pub fn new() -> Self {
        KDBushBuilder { points: Vec::new() }
    }
    pub fn with_capacity(n: usize) -> Self {
        KDBushBuilder { points: Vec::with_capacity(n) }
    }
    pub fn add(&mut self, point: &[T; 2]) -> usize {
        self.points.push(*point);
        self.points.len() - 1
    }
    pub fn finish(self) -> KDBush<T> {
        let mut exact: BTreeMap<[T; 2], Vec<usize>> = BTreeMap::new();
        for (i, p) in self.points.iter().enumerate() {
            exact.entry(*p).or_default().push(i);
        }
        KDBush { points: self.points, exact }
    }
}
impl<T: Copy + Ord> Default for KDBushBuilder<T> {
    fn default() -> Self {
        Self::new()
    }
}

impl<T: Copy + Ord> KDBush<T> {
    pub fn len(&self) -> usize {
        self.points.len()
    }
    pub fn is_empty(&self) -> bool {
        self.points.is_empty()
    }
    pub fn exact_as_vec(&self, x: T, y: T) -> Vec<usize> {
        self.exact.get(&[x, y]).cloned().unwrap_or_default()
    }
    pub fn exact(&self, x: T, y: T) -> impl Iterator<Item = usize> + '_ {
        self.exact_as_vec(x, y).into_iter()
    }
    pub fn search_range(
        &self,
        min_x: T,
        min_y: T,
        max_x: T,
        max_y: T,
    ) -> impl Iterator<Item = usize> + '_ {
        let (lo, hi) = ([min_x, min_y], [max_x, max_y]);
        let inverted = lo > hi;
        let (a, b) = if inverted { (hi, lo) } else { (lo, hi) };
        self.exact
            .range(a..=b)
            .filter(move |(p, _)| {
                !inverted && p[0] >= min_x && p[0] <= max_x && p[1] >= min_y && p[1] <= max_y
            })
            .flat_map(|(_, v)| v.iter().cloned())
    }
    pub fn search_range_as_vec(&self, min_x: T, min_y: T, max_x: T, max_y: T) -> Vec<usize> {
        self.search_range(min_x, min_y, max_x, max_y).collect()
    }
}
