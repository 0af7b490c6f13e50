//! Double-ended priority queue with the interface of the `min-max-heap` fork carmen-core uses.
//! Kept as a vector sorted ascending; among equal elements the one pushed first is popped first
//! from the max end and last from the min end (a fixed rule, so that one seed is one execution).
use std::ops::{Deref, DerefMut};

#[derive(Debug, Clone)]
pub struct MinMaxHeap<T>(Vec<T>);

impl<T: Ord> Default for MinMaxHeap<T> {
    fn default() -> Self {
        MinMaxHeap(Vec::new())
    }
}

impl<T> MinMaxHeap<T> {
    pub fn len(&self) -> usize {
        self.0.len()
    }
    pub fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
    pub fn iter(&self) -> std::slice::Iter<'_, T> {
        self.0.iter()
    }
    pub fn clear(&mut self) {
        self.0.clear()
    }
    pub fn drain(&mut self) -> std::vec::Drain<'_, T> {
        self.0.drain(..)
    }
    pub fn into_vec(self) -> Vec<T> {
        self.0
    }
    pub fn capacity(&self) -> usize {
        self.0.capacity()
    }
    pub fn reserve(&mut self, n: usize) {
        self.0.reserve(n)
    }
    pub fn shrink_to_fit(&mut self) {
        self.0.shrink_to_fit()
    }
}

impl<T: Ord> MinMaxHeap<T> {
    pub fn new() -> Self {
        MinMaxHeap(Vec::new())
    }
    pub fn with_capacity(n: usize) -> Self {
        MinMaxHeap(Vec::with_capacity(n))
    }
    pub fn push(&mut self, element: T) {
        let pos = self.0.partition_point(|e| e < &element);
        self.0.insert(pos, element);
    }
    pub fn peek_min(&self) -> Option<&T> {
        self.0.first()
    }
    pub fn peek_max(&self) -> Option<&T> {
        self.0.last()
    }
    pub fn pop_min(&mut self) -> Option<T> {
        if self.0.is_empty() {
            None
        } else {
            Some(self.0.remove(0))
        }
    }
    pub fn pop_max(&mut self) -> Option<T> {
        self.0.pop()
    }
    /// Pushes, then pops the smallest.
    pub fn push_pop_min(&mut self, element: T) -> T {
        match self.0.first() {
            Some(m) if &element > m => {
                let out = self.0.remove(0);
                self.push(element);
                out
            }
            _ => element,
        }
    }
    /// Pushes, then pops the largest.
    pub fn push_pop_max(&mut self, element: T) -> T {
        match self.0.last() {
            Some(m) if &element < m => {
                let out = self.0.pop().unwrap();
                self.push(element);
                out
            }
            _ => element,
        }
    }
    /// Pops the smallest, then pushes.
    pub fn replace_min(&mut self, element: T) -> Option<T> {
        let out = self.pop_min();
        self.push(element);
        out
    }
    /// Pops the largest, then pushes.
    pub fn replace_max(&mut self, element: T) -> Option<T> {
        let out = self.pop_max();
        self.push(element);
        out
    }
    pub fn peek_min_mut(&mut self) -> Option<PeekMinMut<'_, T>> {
        if self.0.is_empty() {
            None
        } else {
            Some(PeekMinMut { heap: self, dirty: false })
        }
    }
    pub fn peek_max_mut(&mut self) -> Option<PeekMaxMut<'_, T>> {
        if self.0.is_empty() {
            None
        } else {
            Some(PeekMaxMut { heap: self, dirty: false })
        }
    }
    pub fn into_vec_asc(self) -> Vec<T> {
        self.0
    }
    pub fn into_vec_desc(self) -> Vec<T> {
        let mut v = self.0;
        v.reverse();
        v
    }
    pub fn drain_asc(&mut self) -> std::vec::IntoIter<T> {
        std::mem::take(&mut self.0).into_iter()
    }
    pub fn drain_desc(&mut self) -> std::iter::Rev<std::vec::IntoIter<T>> {
        std::mem::take(&mut self.0).into_iter().rev()
    }
    pub fn append(&mut self, other: &mut Self) {
        for e in other.0.drain(..) {
            self.push(e);
        }
    }
}

pub struct PeekMaxMut<'a, T: Ord> {
    heap: &'a mut MinMaxHeap<T>,
    dirty: bool,
}
impl<'a, T: Ord> PeekMaxMut<'a, T> {
    pub fn pop(mut self) -> T {
        self.dirty = false;
        self.heap.0.pop().unwrap()
    }
}
impl<'a, T: Ord> Deref for PeekMaxMut<'a, T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.heap.0.last().unwrap()
    }
}
impl<'a, T: Ord> DerefMut for PeekMaxMut<'a, T> {
    fn deref_mut(&mut self) -> &mut T {
        self.dirty = true;
        self.heap.0.last_mut().unwrap()
    }
}
impl<'a, T: Ord> Drop for PeekMaxMut<'a, T> {
    fn drop(&mut self) {
        if self.dirty && !std::thread::panicking() {
            if let Some(e) = self.heap.0.pop() {
                self.heap.push(e);
            }
        }
    }
}

pub struct PeekMinMut<'a, T: Ord> {
    heap: &'a mut MinMaxHeap<T>,
    dirty: bool,
}
impl<'a, T: Ord> PeekMinMut<'a, T> {
    pub fn pop(mut self) -> T {
        self.dirty = false;
        self.heap.0.remove(0)
    }
}
impl<'a, T: Ord> Deref for PeekMinMut<'a, T> {
    type Target = T;
    fn deref(&self) -> &T {
        &self.heap.0[0]
    }
}
impl<'a, T: Ord> DerefMut for PeekMinMut<'a, T> {
    fn deref_mut(&mut self) -> &mut T {
        self.dirty = true;
        &mut self.heap.0[0]
    }
}
impl<'a, T: Ord> Drop for PeekMinMut<'a, T> {
    fn drop(&mut self) {
        if self.dirty && !std::thread::panicking() && !self.heap.0.is_empty() {
            let e = self.heap.0.remove(0);
            self.heap.push(e);
        }
    }
}

pub struct IntoIter<T>(std::vec::IntoIter<T>);
impl<T> Iterator for IntoIter<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
}
impl<T> DoubleEndedIterator for IntoIter<T> {
    fn next_back(&mut self) -> Option<T> {
        self.0.next_back()
    }
}
impl<T> ExactSizeIterator for IntoIter<T> {}
impl<T> IntoIterator for MinMaxHeap<T> {
    type Item = T;
    type IntoIter = IntoIter<T>;
    fn into_iter(self) -> IntoIter<T> {
        IntoIter(self.0.into_iter())
    }
}
impl<'a, T> IntoIterator for &'a MinMaxHeap<T> {
    type Item = &'a T;
    type IntoIter = std::slice::Iter<'a, T>;
    fn into_iter(self) -> Self::IntoIter {
        self.0.iter()
    }
}
impl<T: Ord> Extend<T> for MinMaxHeap<T> {
    fn extend<I: IntoIterator<Item = T>>(&mut self, iter: I) {
        for e in iter {
            self.push(e);
        }
    }
}
impl<T: Ord> std::iter::FromIterator<T> for MinMaxHeap<T> {
    fn from_iter<I: IntoIterator<Item = T>>(iter: I) -> Self {
        let mut v: Vec<T> = iter.into_iter().collect();
        v.sort();
        MinMaxHeap(v)
    }
}
impl<T: Ord> From<Vec<T>> for MinMaxHeap<T> {
    fn from(v: Vec<T>) -> Self {
        v.into_iter().collect()
    }
}
