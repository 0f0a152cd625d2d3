use crate::opaque::*;
use advanced_collections::disjoint_set::{DisjointSet, FastDisjointSet};
use std::iter::FromIterator;
type D = DisjointSet<V, S1>;
type DC = DisjointSet<C, S1>;

pub fn new() -> D { DisjointSet::new() }
pub fn default() -> D { Default::default() }
pub fn with_capacity(n: usize) -> D { DisjointSet::with_capacity(n) }
pub fn with_hasher(s: S1) -> D { DisjointSet::with_hasher(s) }
pub fn with_capacity_and_hasher(n: usize, s: S1) -> D { DisjointSet::with_capacity_and_hasher(n, s) }
pub fn make_set(d: &mut D, v: V) { d.make_set(v) }
pub fn union(d: &mut D, a: V, b: V) { d.union(a, b) }
pub fn contains(d: &D, v: &V) -> bool { d.contains(v) }
pub fn in_union(d: &mut D, a: &V, b: &V) -> bool { d.in_union(a, b) }
pub fn is_empty(d: &D) -> bool { d.is_empty() }
pub fn len(d: &D) -> usize { d.len() }
pub fn clear(d: &mut D) { d.clear() }
pub fn reserve(d: &mut D, n: usize) { d.reserve(n) }
pub fn from_iter(s: Src) -> D { D::from_iter(s) }
pub fn from_iter_ref(s: SrcR<'_>) -> D { D::from_iter(s) }
pub fn extend(d: &mut D, s: Src) { d.extend(s) }
pub fn extend_ref(d: &mut DC, s: SrcC<'_>) { d.extend(s) }
pub fn mut_into_iter<'a>(d: &'a mut D) -> <&'a mut D as IntoIterator>::IntoIter { d.into_iter() }
pub fn set_iter_next<'a>(i: &mut <&'a mut D as IntoIterator>::IntoIter) -> Option<<&'a mut D as IntoIterator>::Item> { i.next() }
pub fn set_iter_nth<'a>(i: &mut <&'a mut D as IntoIterator>::IntoIter, n: usize) -> Option<<&'a mut D as IntoIterator>::Item> { i.nth(n) }
pub fn set_iter_last<'a>(i: <&'a mut D as IntoIterator>::IntoIter) -> Option<<&'a mut D as IntoIterator>::Item> { i.last() }
pub fn set_iter_count<'a>(i: <&'a mut D as IntoIterator>::IntoIter) -> usize { i.count() }
pub fn set_iter_fold<'a>(i: <&'a mut D as IntoIterator>::IntoIter) -> Vec<<&'a mut D as IntoIterator>::Item> { let mut v = Vec::new(); i.for_each(|x| v.push(x)); v }
pub fn set_iter_hint<'a>(i: &<&'a mut D as IntoIterator>::IntoIter) -> (usize, Option<usize>) { i.size_hint() }
pub fn clone(d: &D) -> D { d.clone() }
pub fn clone_from(d: &mut D, o: &D) { d.clone_from(o) }
pub fn fast_new() -> FastDisjointSet<V> { FastDisjointSet::new() }
