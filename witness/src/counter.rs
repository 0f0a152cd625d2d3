use crate::opaque::*;
use advanced_collections::counter::{Counter, FastCounter};
use std::collections::HashMap;
use std::iter::FromIterator;
type K1 = Counter<V, S1>;
type K2 = Counter<V, S2>;
type KC = Counter<C, S1>;

pub fn new() -> K1 { Counter::new() }
pub fn default() -> K1 { Default::default() }
pub fn with_capacity(n: usize) -> K1 { Counter::with_capacity(n) }
pub fn with_hasher(s: S1) -> K1 { Counter::with_hasher(s) }
pub fn with_capacity_and_hasher(n: usize, s: S1) -> K1 { Counter::with_capacity_and_hasher(n, s) }
pub fn from_hashmap(m: HashMap<V, usize, S1>) -> K1 { Counter::from_hashmap(m) }
pub fn into_most_common(c: K1) -> Vec<(V, usize)> { c.into_most_common() }
pub fn most_common(c: &K1) -> Vec<(V, usize)> { c.most_common() }
pub fn push(c: &mut K1, v: V) { c.push(v) }
pub fn from_iter(s: Src) -> K1 { K1::from_iter(s) }
pub fn from_iter_ref(s: SrcR<'_>) -> K1 { K1::from_iter(s) }
pub fn extend(c: &mut K1, s: Src) { c.extend(s) }
pub fn extend_ref(c: &mut KC, s: SrcC<'_>) { c.extend(s) }
pub fn into_iter(c: K1) -> <K1 as IntoIterator>::IntoIter { c.into_iter() }
pub fn ref_into_iter<'a>(c: &'a K1) -> <&'a K1 as IntoIterator>::IntoIter { c.into_iter() }
pub fn mut_into_iter<'a>(c: &'a mut K1) -> <&'a mut K1 as IntoIterator>::IntoIter { c.into_iter() }
pub fn deref(c: &K1) -> &HashMap<V, usize, S1> { &**c }
pub fn deref_mut(c: &mut K1) -> &mut HashMap<V, usize, S1> { &mut **c }
pub fn add_assign(a: &mut K1, b: K2) { *a += b }
pub fn add_assign_ref(a: &mut K1, b: &K2) { *a += b }
pub fn add(a: K1, b: K2) -> K1 { a + b }
pub fn add_ref(a: K1, b: &K2) -> K1 { a + b }
pub fn sub_assign(a: &mut K1, b: K2) { *a -= b }
pub fn sub_assign_ref(a: &mut K1, b: &K2) { *a -= b }
pub fn sub(a: K1, b: K2) -> K1 { a - b }
pub fn sub_ref(a: K1, b: &K2) -> K1 { a - b }
pub fn from_map(m: HashMap<V, usize, S2>) -> K1 { Counter::from(m) }
pub fn from_map_ref(m: &HashMap<V, usize, S2>) -> K1 { Counter::from(m) }
pub fn clone(c: &K1) -> K1 { c.clone() }
pub fn clone_from(c: &mut K1, o: &K1) { c.clone_from(o) }
pub fn eq(a: &K1, b: &K1) -> bool { a == b }
pub fn ne(a: &K1, b: &K1) -> bool { a != b }
pub fn map_get(c: &K1, v: &V) -> Option<usize> { c.get(v).copied() }
pub fn map_index(c: &K1, v: &V) -> usize { c[v] }
pub fn map_contains(c: &K1, v: &V) -> bool { c.contains_key(v) }
pub fn map_len(c: &K1) -> usize { c.len() }
pub fn map_is_empty(c: &K1) -> bool { c.is_empty() }
pub fn map_insert(c: &mut K1, v: V, n: usize) -> Option<usize> { c.insert(v, n) }
pub fn map_remove(c: &mut K1, v: &V) -> Option<usize> { c.remove(v) }
pub fn map_clear(c: &mut K1) { c.clear() }
pub fn fast_new() -> FastCounter<V> { FastCounter::new() }
