//! Stand-in for `min-max-heap` (apendleton/min-max-heap-rs): a double-ended priority queue on a
//! min-max heap, with the operations of the original.

use std::fmt;
use std::iter::FromIterator;
use std::mem;
use std::ops::{Deref, DerefMut};

#[derive(Clone)]
pub struct MinMaxHeap<T>(Vec<T>);

impl<T> Default for MinMaxHeap<T> {
    fn default() -> Self {
        MinMaxHeap(Vec::new())
    }
}

impl<T: fmt::Debug> fmt::Debug for MinMaxHeap<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_list().entries(self.0.iter()).finish()
    }
}

fn on_min_level(i: usize) -> bool {
    (usize::BITS - 1 - (i + 1).leading_zeros()) % 2 == 0
}

fn parent(i: usize) -> Option<usize> {
    if i == 0 {
        None
    } else {
        Some((i - 1) / 2)
    }
}

fn grandparent(i: usize) -> Option<usize> {
    parent(i).and_then(parent)
}

impl<T> MinMaxHeap<T> {
    pub fn new() -> Self {
        Self::default()
    }

    pub fn with_capacity(n: usize) -> Self {
        MinMaxHeap(Vec::with_capacity(n))
    }

    pub fn len(&self) -> usize {
        self.0.len()
    }

    pub fn is_empty(&self) -> bool {
        self.0.is_empty()
    }

    pub fn capacity(&self) -> usize {
        self.0.capacity()
    }

    pub fn reserve(&mut self, n: usize) {
        self.0.reserve(n)
    }

    pub fn reserve_exact(&mut self, n: usize) {
        self.0.reserve_exact(n)
    }

    pub fn shrink_to_fit(&mut self) {
        self.0.shrink_to_fit()
    }

    pub fn clear(&mut self) {
        self.0.clear()
    }

    pub fn iter(&self) -> Iter<'_, T> {
        Iter(self.0.iter())
    }

    pub fn into_vec(self) -> Vec<T> {
        self.0
    }

    pub fn drain(&mut self) -> std::vec::Drain<'_, T> {
        self.0.drain(..)
    }
}

impl<T: Ord> MinMaxHeap<T> {
    fn max_index(&self) -> Option<usize> {
        match self.0.len() {
            0 => None,
            1 => Some(0),
            2 => Some(1),
            _ => Some(if self.0[2] > self.0[1] { 2 } else { 1 }),
        }
    }

    pub fn peek_min(&self) -> Option<&T> {
        self.0.first()
    }

    pub fn peek_max(&self) -> Option<&T> {
        self.max_index().map(|i| &self.0[i])
    }

    pub fn peek_min_mut(&mut self) -> Option<PeekMinMut<'_, T>> {
        if self.is_empty() {
            None
        } else {
            Some(PeekMinMut { heap: self, removed: false })
        }
    }

    pub fn peek_max_mut(&mut self) -> Option<PeekMaxMut<'_, T>> {
        self.max_index().map(move |index| PeekMaxMut { heap: self, index, removed: false })
    }

    pub fn push(&mut self, element: T) {
        self.0.push(element);
        let last = self.0.len() - 1;
        self.bubble_up(last);
    }

    pub fn pop_min(&mut self) -> Option<T> {
        self.remove_at(0)
    }

    pub fn pop_max(&mut self) -> Option<T> {
        let i = self.max_index()?;
        self.remove_at(i)
    }

    fn remove_at(&mut self, i: usize) -> Option<T> {
        let last = self.0.pop()?;
        if i >= self.0.len() {
            return Some(last);
        }
        let out = mem::replace(&mut self.0[i], last);
        self.trickle_down(i);
        Some(out)
    }

    pub fn push_pop_min(&mut self, mut element: T) -> T {
        if let Some(min) = self.0.first_mut() {
            if element > *min {
                mem::swap(&mut element, min);
                self.trickle_down(0);
            }
        }
        element
    }

    pub fn push_pop_max(&mut self, mut element: T) -> T {
        if let Some(i) = self.max_index() {
            if element < self.0[i] {
                mem::swap(&mut element, &mut self.0[i]);
                self.repair_max(i);
            }
        }
        element
    }

    pub fn replace_min(&mut self, mut element: T) -> Option<T> {
        if self.is_empty() {
            self.push(element);
            return None;
        }
        mem::swap(&mut element, &mut self.0[0]);
        self.trickle_down(0);
        Some(element)
    }

    pub fn replace_max(&mut self, mut element: T) -> Option<T> {
        match self.max_index() {
            None => {
                self.push(element);
                None
            }
            Some(i) => {
                mem::swap(&mut element, &mut self.0[i]);
                self.repair_max(i);
                Some(element)
            }
        }
    }

    pub fn into_vec_asc(self) -> Vec<T> {
        let mut v = self.0;
        v.sort();
        v
    }

    pub fn into_vec_desc(self) -> Vec<T> {
        let mut v = self.0;
        v.sort_by(|a, b| b.cmp(a));
        v
    }

    pub fn drain_asc(&mut self) -> std::vec::IntoIter<T> {
        mem::take(self).into_vec_asc().into_iter()
    }

    pub fn drain_desc(&mut self) -> std::vec::IntoIter<T> {
        mem::take(self).into_vec_desc().into_iter()
    }

    pub fn append(&mut self, other: &mut Self) {
        for e in mem::take(other).0 {
            self.push(e);
        }
    }

    /// The element at a maximum's position may have changed.
    fn repair_max(&mut self, i: usize) {
        if let Some(p) = parent(i) {
            if self.0[i] < self.0[p] {
                self.0.swap(i, p);
            }
            self.trickle_down(i);
        }
    }

    fn bubble_up(&mut self, i: usize) {
        if let Some(p) = parent(i) {
            if on_min_level(i) {
                if self.0[i] > self.0[p] {
                    self.0.swap(i, p);
                    self.bubble_up_max(p);
                } else {
                    self.bubble_up_min(i);
                }
            } else if self.0[i] < self.0[p] {
                self.0.swap(i, p);
                self.bubble_up_min(p);
            } else {
                self.bubble_up_max(i);
            }
        }
    }

    fn bubble_up_min(&mut self, mut i: usize) {
        while let Some(g) = grandparent(i) {
            if self.0[i] < self.0[g] {
                self.0.swap(i, g);
                i = g;
            } else {
                return;
            }
        }
    }

    fn bubble_up_max(&mut self, mut i: usize) {
        while let Some(g) = grandparent(i) {
            if self.0[i] > self.0[g] {
                self.0.swap(i, g);
                i = g;
            } else {
                return;
            }
        }
    }

    /// Restores the order below `i`, whose element may be out of place.
    fn trickle_down(&mut self, mut i: usize) {
        let min_level = on_min_level(i);
        let better = |a: &T, b: &T| if min_level { a < b } else { a > b };
        loop {
            let n = self.0.len();
            let mut best = None;
            let family = [2 * i + 1, 2 * i + 2, 4 * i + 3, 4 * i + 4, 4 * i + 5, 4 * i + 6];
            for &c in family.iter().filter(|c| **c < n) {
                if best.map_or(true, |b: usize| better(&self.0[c], &self.0[b])) {
                    best = Some(c);
                }
            }
            let m = match best {
                Some(m) if better(&self.0[m], &self.0[i]) => m,
                _ => return,
            };
            self.0.swap(m, i);
            if m <= 2 * i + 2 {
                return;
            }
            let p = (m - 1) / 2;
            if better(&self.0[p], &self.0[m]) {
                self.0.swap(m, p);
            }
            i = m;
        }
    }
}

pub struct PeekMinMut<'a, T: Ord> {
    heap: &'a mut MinMaxHeap<T>,
    removed: bool,
}

impl<'a, T: Ord> PeekMinMut<'a, T> {
    pub fn pop(mut self) -> T {
        self.removed = true;
        self.heap.remove_at(0).expect("non-empty heap")
    }
}

impl<'a, T: Ord> Deref for PeekMinMut<'a, T> {
    type Target = T;
    fn deref(&self) -> &T {
        &self.heap.0[0]
    }
}

impl<'a, T: Ord> DerefMut for PeekMinMut<'a, T> {
    fn deref_mut(&mut self) -> &mut T {
        &mut self.heap.0[0]
    }
}

impl<'a, T: Ord> Drop for PeekMinMut<'a, T> {
    fn drop(&mut self) {
        if !self.removed {
            self.heap.trickle_down(0);
        }
    }
}

pub struct PeekMaxMut<'a, T: Ord> {
    heap: &'a mut MinMaxHeap<T>,
    index: usize,
    removed: bool,
}

impl<'a, T: Ord> PeekMaxMut<'a, T> {
    pub fn pop(mut self) -> T {
        self.removed = true;
        let i = self.index;
        // The element may have been changed through this handle; only its position matters here.
        self.heap.remove_at(i).expect("non-empty heap")
    }
}

impl<'a, T: Ord> Deref for PeekMaxMut<'a, T> {
    type Target = T;
    fn deref(&self) -> &T {
        &self.heap.0[self.index]
    }
}

impl<'a, T: Ord> DerefMut for PeekMaxMut<'a, T> {
    fn deref_mut(&mut self) -> &mut T {
        &mut self.heap.0[self.index]
    }
}

impl<'a, T: Ord> Drop for PeekMaxMut<'a, T> {
    fn drop(&mut self) {
        if !self.removed {
            let i = self.index;
            self.heap.repair_max(i);
        }
    }
}

pub struct Iter<'a, T>(std::slice::Iter<'a, T>);

impl<'a, T> Iterator for Iter<'a, T> {
    type Item = &'a T;
    fn next(&mut self) -> Option<&'a T> {
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
}

impl<'a, T> ExactSizeIterator for Iter<'a, T> {}

pub struct IntoIter<T>(std::vec::IntoIter<T>);

impl<T> Iterator for IntoIter<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
}

impl<T> ExactSizeIterator for IntoIter<T> {}

impl<T> IntoIterator for MinMaxHeap<T> {
    type Item = T;
    type IntoIter = IntoIter<T>;
    fn into_iter(self) -> IntoIter<T> {
        IntoIter(self.0.into_iter())
    }
}

impl<'a, T> IntoIterator for &'a MinMaxHeap<T> {
    type Item = &'a T;
    type IntoIter = Iter<'a, T>;
    fn into_iter(self) -> Iter<'a, T> {
        self.iter()
    }
}

impl<T: Ord> Extend<T> for MinMaxHeap<T> {
    fn extend<I: IntoIterator<Item = T>>(&mut self, it: I) {
        for e in it {
            self.push(e);
        }
    }
}

impl<T: Ord> FromIterator<T> for MinMaxHeap<T> {
    fn from_iter<I: IntoIterator<Item = T>>(it: I) -> Self {
        let mut h = MinMaxHeap::new();
        h.extend(it);
        h
    }
}

impl<T: Ord> From<Vec<T>> for MinMaxHeap<T> {
    fn from(v: Vec<T>) -> Self {
        v.into_iter().collect()
    }
}

#[cfg(test)]
mod test {
    use super::*;

    #[test]
    fn behaves_like_a_sorted_list() {
        let mut s = 88172645463325252u64;
        let mut rnd = move |n: u64| {
            s ^= s << 13;
            s ^= s >> 7;
            s ^= s << 17;
            s % n
        };
        for _ in 0..3000 {
            let mut h = MinMaxHeap::new();
            let mut v: Vec<u64> = Vec::new();
            for _ in 0..rnd(80) {
                let x = rnd(30);
                match rnd(10) {
                    0 => assert_eq!(h.pop_max(), v.pop()),
                    1 => {
                        let want = if v.is_empty() { None } else { Some(v.remove(0)) };
                        assert_eq!(h.pop_min(), want)
                    }
                    2 => {
                        let want = if v.is_empty() { None } else { Some(v.remove(0)) };
                        assert_eq!(h.replace_min(x), want);
                        v.push(x);
                    }
                    3 => {
                        assert_eq!(h.replace_max(x), v.pop());
                        v.push(x);
                    }
                    4 => {
                        if let Some(mut m) = h.peek_max_mut() {
                            assert_eq!(Some(*m), v.pop());
                            *m = x;
                            v.push(x);
                        }
                    }
                    5 => {
                        if let Some(m) = h.peek_max_mut() {
                            assert_eq!(Some(m.pop()), v.pop());
                        }
                    }
                    6 => {
                        if let Some(mut m) = h.peek_min_mut() {
                            assert_eq!(*m, v.remove(0));
                            *m = x;
                            v.push(x);
                        }
                    }
                    _ => {
                        h.push(x);
                        v.push(x);
                    }
                }
                v.sort();
                assert_eq!(h.peek_min(), v.first());
                assert_eq!(h.peek_max(), v.last());
                assert_eq!(h.len(), v.len());
            }
            assert_eq!(h.clone().into_vec_asc(), v);
            v.reverse();
            assert_eq!(h.into_vec_desc(), v);
        }
    }
}
