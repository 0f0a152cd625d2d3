use crate::opaque::*;
use advanced_collections::circular_buffer::{CircularBuffer, Drain, IntoIter, Iter, IterMut};
use std::cmp::Ordering;
use std::iter::FromIterator;
type R = CircularBuffer<V>;

pub fn new(n: usize) -> R { CircularBuffer::new(n) }
pub fn with_capacity(n: usize) -> R { CircularBuffer::with_capacity(n) }
pub fn len(r: &R) -> usize { r.len() }
pub fn capacity(r: &R) -> usize { r.capacity() }
pub fn is_empty(r: &R) -> bool { r.is_empty() }
pub fn debug(r: &R, f: &mut std::fmt::Formatter) -> std::fmt::Result { std::fmt::Debug::fmt(r, f) }
pub fn is_full(r: &R) -> bool { r.is_full() }
pub fn resize(r: &mut R, n: usize) { r.resize(n) }
pub fn push_back(r: &mut R, v: V) { r.push_back(v) }
pub fn push_front(r: &mut R, v: V) { r.push_front(v) }
pub fn pop_back(r: &mut R) -> Option<V> { r.pop_back() }
pub fn pop_front(r: &mut R) -> Option<V> { r.pop_front() }
pub fn clear(r: &mut R) { r.clear() }
pub fn iter(r: &R) -> Iter<'_, V> { r.iter() }
pub fn iter_mut(r: &mut R) -> IterMut<'_, V> { r.iter_mut() }
pub fn iter_next<'a>(i: &mut Iter<'a, V>) -> Option<&'a V> { i.next() }
pub fn iter_mut_next<'a>(i: &mut IterMut<'a, V>) -> Option<&'a mut V> { i.next() }
pub fn append(r: &mut R, o: &mut R) { r.append(o) }
pub fn drain(r: &mut R) -> Drain<'_, V> { r.drain() }
pub fn drain_next(d: &mut Drain<'_, V>) -> Option<V> { d.next() }
pub fn drain_drop(d: Drain<'_, V>) { drop(d) }
pub fn into_iter(r: R) -> IntoIter<V> { r.into_iter() }
pub fn into_iter_next(d: &mut IntoIter<V>) -> Option<V> { d.next() }
pub fn into_iter_drop(d: IntoIter<V>) { drop(d) }
pub fn ref_into_iter(r: &R) -> Iter<'_, V> { r.into_iter() }
pub fn mut_into_iter(r: &mut R) -> IterMut<'_, V> { r.into_iter() }
pub fn first(r: &R) -> Option<&V> { r.first() }
pub fn first_mut(r: &mut R) -> Option<&mut V> { r.first_mut() }
pub fn last(r: &R) -> Option<&V> { r.last() }
pub fn last_mut(r: &mut R) -> Option<&mut V> { r.last_mut() }
pub fn slices(r: &R) -> (&[V], &[V]) { r.slices() }
pub fn slices_mut(r: &mut R) -> (&mut [V], &mut [V]) { r.slices_mut() }
pub fn linearize(r: &mut R) -> &mut [V] { r.linearize() }
pub fn swap(r: &mut R, a: usize, b: usize) { r.swap(a, b) }
pub fn reverse(r: &mut R) { r.reverse() }
pub fn index(r: &R, i: usize) -> &V { &r[i] }
pub fn index_mut(r: &mut R, i: usize) -> &mut V { &mut r[i] }
pub fn drop_ring(r: R) { drop(r) }
pub fn clone(r: &R) -> R { r.clone() }
pub fn clone_from(r: &mut R, o: &R) { r.clone_from(o) }
pub fn from_iter(s: Src) -> R { R::from_iter(s) }
pub fn from_iter_ref(s: SrcR<'_>) -> R { R::from_iter(s) }
pub fn from_vec(v: Vec<V>) -> R { R::from(v) }
pub fn extend(r: &mut R, s: Src) { r.extend(s) }
pub fn extend_ref<'a>(r: &mut R, s: SrcR<'a>) { r.extend(s) }
pub fn eq(a: &R, b: &R) -> bool { a == b }
pub fn ne(a: &R, b: &R) -> bool { a != b }
pub fn eq_slice(a: &R, b: &[V]) -> bool { a == b }
pub fn ne_slice(a: &R, b: &[V]) -> bool { a != b }
pub fn eq_ref_slice(a: &R, b: &&[V]) -> bool { a == b }
pub fn ne_ref_slice(a: &R, b: &&[V]) -> bool { a != b }
pub fn partial_cmp(a: &R, b: &R) -> Option<Ordering> { a.partial_cmp(b) }
pub fn cmp(a: &R, b: &R) -> Ordering { a.cmp(b) }
pub fn lt(a: &R, b: &R) -> bool { a < b }
pub fn le(a: &R, b: &R) -> bool { a <= b }
pub fn gt(a: &R, b: &R) -> bool { a > b }
pub fn ge(a: &R, b: &R) -> bool { a >= b }

// Elements that are only partially ordered.
type P = CircularBuffer<W>;
pub fn p_eq(a: &P, b: &P) -> bool { a == b }
pub fn p_ne(a: &P, b: &P) -> bool { a != b }
pub fn p_eq_slice(a: &P, b: &[W]) -> bool { a == b }
pub fn p_ne_slice(a: &P, b: &[W]) -> bool { a != b }
pub fn p_eq_ref_slice(a: &P, b: &&[W]) -> bool { a == b }
pub fn p_ne_ref_slice(a: &P, b: &&[W]) -> bool { a != b }
pub fn p_partial_cmp(a: &P, b: &P) -> Option<Ordering> { a.partial_cmp(b) }
pub fn p_lt(a: &P, b: &P) -> bool { a < b }
pub fn p_le(a: &P, b: &P) -> bool { a <= b }
pub fn p_gt(a: &P, b: &P) -> bool { a > b }
pub fn p_ge(a: &P, b: &P) -> bool { a >= b }

// Other ways of running an iterator.
pub fn drain_nth(d: &mut Drain<'_, V>, n: usize) -> Option<V> { d.nth(n) }
pub fn drain_size_hint(d: &mut Drain<'_, V>) -> (usize, Option<usize>) { d.size_hint() }
pub fn drain_count(d: Drain<'_, V>) -> usize { d.count() }
pub fn drain_last(d: Drain<'_, V>) -> Option<V> { d.last() }
pub fn into_iter_nth(d: &mut IntoIter<V>, n: usize) -> Option<V> { d.nth(n) }
pub fn into_iter_size_hint(d: &mut IntoIter<V>) -> (usize, Option<usize>) { d.size_hint() }
pub fn into_iter_count(d: IntoIter<V>) -> usize { d.count() }
pub fn into_iter_last(d: IntoIter<V>) -> Option<V> { d.last() }
pub fn iter_nth<'a>(i: &mut Iter<'a, V>, n: usize) -> Option<&'a V> { i.nth(n) }
pub fn iter_size_hint(i: &mut Iter<'_, V>) -> (usize, Option<usize>) { i.size_hint() }
pub fn iter_count(i: Iter<'_, V>) -> usize { i.count() }
pub fn iter_last<'a>(i: Iter<'a, V>) -> Option<&'a V> { i.last() }
pub fn iter_next_back<'a>(i: &mut Iter<'a, V>) -> Option<&'a V> { i.next_back() }
pub fn iter_mut_nth<'a>(i: &mut IterMut<'a, V>, n: usize) -> Option<&'a mut V> { i.nth(n) }
pub fn iter_mut_size_hint(i: &mut IterMut<'_, V>) -> (usize, Option<usize>) { i.size_hint() }
pub fn iter_mut_count(i: IterMut<'_, V>) -> usize { i.count() }
pub fn iter_mut_last<'a>(i: IterMut<'a, V>) -> Option<&'a mut V> { i.last() }
pub fn iter_mut_next_back<'a>(i: &mut IterMut<'a, V>) -> Option<&'a mut V> { i.next_back() }
pub fn drain_fold(d: Drain<'_, V>) -> Vec<V> { let mut v = Vec::new(); d.for_each(|x| v.push(x)); v }
pub fn into_iter_fold(d: IntoIter<V>) -> Vec<V> { let mut v = Vec::new(); d.for_each(|x| v.push(x)); v }
pub fn iter_fold(i: Iter<'_, V>) -> Vec<V> { let mut v = Vec::new(); i.for_each(|x| v.push(x.clone())); v }
pub fn iter_mut_fold(i: IterMut<'_, V>) -> Vec<V> { let mut v = Vec::new(); i.for_each(|x| v.push(x.clone())); v }
pub fn iter_rfold(i: Iter<'_, V>) -> Vec<V> { let mut v = Vec::new(); i.rev().for_each(|x| v.push(x.clone())); v }
