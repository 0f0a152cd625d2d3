//! Reference bodies for library functions whose real bodies are too low-level to analyse: the exporter
//! redirects calls of the library function to the function here (same type arguments, lifetimes left out).
//! Each states the documented behaviour of the library function by plain loops over `next`.
use std::cmp::Ordering;
use std::collections::hash_map::Entry;
use std::collections::HashMap;
use std::hash::{BuildHasher, Hash};
use std::ops::{Deref, Try};

// ---- iterator methods that leaf iterators override ----
pub fn it_fold<It: Iterator, B, F: FnMut(B, It::Item) -> B>(mut it: It, init: B, mut f: F) -> B {
    let mut acc = init;
    while let Some(x) = it.next() { acc = f(acc, x); }
    acc
}
pub fn it_try_fold<It: Iterator, B, F: FnMut(B, It::Item) -> R, R: Try<Output = B>>(it: &mut It, init: B, mut f: F) -> R {
    let mut acc = init;
    while let Some(x) = it.next() { acc = f(acc, x)?; }
    R::from_output(acc)
}
pub fn it_for_each<It: Iterator, F: FnMut(It::Item)>(mut it: It, mut f: F) {
    while let Some(x) = it.next() { f(x); }
}
pub fn it_all<It: Iterator, F: FnMut(It::Item) -> bool>(it: &mut It, mut f: F) -> bool {
    while let Some(x) = it.next() { if !f(x) { return false; } }
    true
}
pub fn it_any<It: Iterator, F: FnMut(It::Item) -> bool>(it: &mut It, mut f: F) -> bool {
    while let Some(x) = it.next() { if f(x) { return true; } }
    false
}
pub fn it_find<It: Iterator, P: FnMut(&It::Item) -> bool>(it: &mut It, mut p: P) -> Option<It::Item> {
    while let Some(x) = it.next() { if p(&x) { return Some(x); } }
    None
}
pub fn it_find_map<It: Iterator, B, F: FnMut(It::Item) -> Option<B>>(it: &mut It, mut f: F) -> Option<B> {
    while let Some(x) = it.next() { if let Some(y) = f(x) { return Some(y); } }
    None
}
pub fn it_position<It: Iterator, P: FnMut(It::Item) -> bool>(it: &mut It, mut p: P) -> Option<usize> {
    let mut n = 0;
    while let Some(x) = it.next() { if p(x) { return Some(n); } n += 1; }
    None
}
pub fn it_count<It: Iterator>(mut it: It) -> usize {
    let mut n = 0;
    while let Some(_) = it.next() { n += 1; }
    n
}
pub fn it_last<It: Iterator>(mut it: It) -> Option<It::Item> {
    let mut l = None;
    while let Some(x) = it.next() { l = Some(x); }
    l
}
pub fn it_rfold<It: DoubleEndedIterator, B, F: FnMut(B, It::Item) -> B>(mut it: It, init: B, mut f: F) -> B {
    let mut acc = init;
    while let Some(x) = it.next_back() { acc = f(acc, x); }
    acc
}
pub fn it_rfind<It: DoubleEndedIterator, P: FnMut(&It::Item) -> bool>(it: &mut It, mut p: P) -> Option<It::Item> {
    while let Some(x) = it.next_back() { if p(&x) { return Some(x); } }
    None
}
pub fn it_rposition<It: ExactSizeIterator + DoubleEndedIterator, P: FnMut(It::Item) -> bool>(it: &mut It, mut p: P) -> Option<usize> {
    let mut n = it.len();
    while let Some(x) = it.next_back() { n -= 1; if p(x) { return Some(n); } }
    None
}
pub fn it_is_sorted_by<It: Iterator, F: FnMut(&It::Item, &It::Item) -> bool>(mut it: It, mut f: F) -> bool {
    let mut last = match it.next() { Some(x) => x, None => return true };
    while let Some(x) = it.next() { if !f(&last, &x) { return false; } last = x; }
    true
}
pub fn it_unzip<It: Iterator<Item = (A, B)>, A, B, FA: Default + Extend<A>, FB: Default + Extend<B>>(mut it: It) -> (FA, FB) {
    let mut a: FA = Default::default();
    let mut b: FB = Default::default();
    while let Some((x, y)) = it.next() { a.extend(Some(x)); b.extend(Some(y)); }
    (a, b)
}

// ---- Vec ----
pub fn vec_from_iter<T, I: IntoIterator<Item = T>>(it: I) -> Vec<T> {
    let mut it = it.into_iter();
    let mut v = Vec::new();
    while let Some(x) = it.next() { v.push(x); }
    v
}
pub fn vec_extend<T, A, I: IntoIterator<Item = T>>(v: &mut Vec<T>, it: I) {
    let mut it = it.into_iter();
    while let Some(x) = it.next() { v.push(x); }
}
pub fn vec_extend_copy<T: Copy, A, I: IntoIterator>(v: &mut Vec<T>, it: I) where I::Item: Deref<Target = T> {
    let mut it = it.into_iter();
    while let Some(x) = it.next() { v.push(*x); }
}
pub fn vec_resize_with<T, A, F: FnMut() -> T>(v: &mut Vec<T>, n: usize, mut f: F) {
    let len = v.len();
    if n <= len { v.truncate(n); } else {
        let mut i = len;
        while i < n { v.push(f()); i += 1; }
    }
}
pub fn vec_retain<T, A, F: FnMut(&T) -> bool>(v: &mut Vec<T>, mut f: F) {
    let mut i = 0;
    while i < v.len() {
        if f(&v[i]) { i += 1; } else { v.remove(i); }
    }
}
pub fn vec_retain_mut<T, A, F: FnMut(&mut T) -> bool>(v: &mut Vec<T>, mut f: F) {
    let mut i = 0;
    while i < v.len() {
        if f(&mut v[i]) { i += 1; } else { v.remove(i); }
    }
}
pub fn vec_resize<T: Clone, A>(v: &mut Vec<T>, n: usize, x: T) {
    if n <= v.len() { v.truncate(n); } else {
        while v.len() + 1 < n { v.push(x.clone()); }
        v.push(x);
    }
}
pub fn vec_extend_from_slice<T: Clone, A>(v: &mut Vec<T>, s: &[T]) {
    let mut i = 0;
    while i < s.len() { v.push(s[i].clone()); i += 1; }
}
pub fn vec_dedup_by<T, A, F: FnMut(&mut T, &mut T) -> bool>(v: &mut Vec<T>, mut f: F) {
    let mut i = 1;
    while i < v.len() {
        let (a, b) = v.split_at_mut(i);
        if f(&mut b[0], &mut a[i - 1]) { v.remove(i); } else { i += 1; }
    }
}
pub fn vec_dedup_by_key<T, A, F: FnMut(&mut T) -> K, K: PartialEq>(v: &mut Vec<T>, mut f: F) {
    let mut i = 1;
    while i < v.len() {
        if f(&mut v[i]) == f(&mut v[i - 1]) { v.remove(i); } else { i += 1; }
    }
}
pub fn vec_dedup<T: PartialEq, A>(v: &mut Vec<T>) {
    let mut i = 1;
    while i < v.len() {
        if v[i] == v[i - 1] { v.remove(i); } else { i += 1; }
    }
}
pub fn vec_eq<T: PartialEq<U>, U, A1, A2>(a: &Vec<T>, b: &Vec<U>) -> bool { slice_eq(&a[..], &b[..]) }
pub fn vec_cmp<T: Ord, A>(a: &Vec<T>, b: &Vec<T>) -> Ordering { slice_cmp(&a[..], &b[..]) }
pub fn vec_partial_cmp<T: PartialOrd, A1, A2>(a: &Vec<T>, b: &Vec<T>) -> Option<Ordering> { slice_partial_cmp(&a[..], &b[..]) }
pub fn slice_to_vec<T: Clone, A>(s: &[T], _a: A) -> Vec<T> {
    let mut v = Vec::with_capacity(s.len());
    let mut i = 0;
    while i < s.len() { v.push(s[i].clone()); i += 1; }
    v
}
pub fn box_from_slice<T: Clone>(s: &[T]) -> Box<[T]> {
    let mut v = Vec::with_capacity(s.len());
    let mut i = 0;
    while i < s.len() { v.push(s[i].clone()); i += 1; }
    v.into_boxed_slice()
}

// ---- slices ----
pub fn slice_fill<T: Clone>(s: &mut [T], x: T) {
    let n = s.len();
    if n == 0 { return; }
    let mut i = 0;
    while i + 1 < n { s[i] = x.clone(); i += 1; }
    s[i] = x;
}
pub fn slice_fill_with<T, F: FnMut() -> T>(s: &mut [T], mut f: F) {
    let mut i = 0;
    while i < s.len() { s[i] = f(); i += 1; }
}
pub fn sort_by_key<T, K: Ord, F: FnMut(&T) -> K>(v: &mut [T], mut f: F) {
    let mut i = 1;
    while i < v.len() {
        let mut j = i;
        while j > 0 && f(&v[j]) < f(&v[j - 1]) { v.swap(j - 1, j); j -= 1; }
        i += 1;
    }
}
pub fn sort_by<T, F: FnMut(&T, &T) -> Ordering>(v: &mut [T], mut f: F) {
    let mut i = 1;
    while i < v.len() {
        let mut j = i;
        while j > 0 && f(&v[j], &v[j - 1]) == Ordering::Less { v.swap(j - 1, j); j -= 1; }
        i += 1;
    }
}
pub fn sort<T: Ord>(v: &mut [T]) {
    let mut i = 1;
    while i < v.len() {
        let mut j = i;
        while j > 0 && v[j] < v[j - 1] { v.swap(j - 1, j); j -= 1; }
        i += 1;
    }
}
pub fn slice_eq<T: PartialEq<U>, U>(a: &[T], b: &[U]) -> bool {
    if a.len() != b.len() { return false; }
    let mut i = 0;
    while i < a.len() {
        if a[i] != b[i] { return false; }
        i += 1;
    }
    true
}
pub fn slice_cmp<T: Ord>(a: &[T], b: &[T]) -> Ordering {
    let l = if a.len() < b.len() { a.len() } else { b.len() };
    let mut i = 0;
    while i < l {
        match a[i].cmp(&b[i]) { Ordering::Equal => (), o => return o }
        i += 1;
    }
    a.len().cmp(&b.len())
}
pub fn slice_partial_cmp<T: PartialOrd>(a: &[T], b: &[T]) -> Option<Ordering> {
    let l = if a.len() < b.len() { a.len() } else { b.len() };
    let mut i = 0;
    while i < l {
        match a[i].partial_cmp(&b[i]) { Some(Ordering::Equal) => (), o => return o }
        i += 1;
    }
    a.len().partial_cmp(&b.len())
}

// ---- HashMap ----
pub fn entry_or_insert_with<'a, K, V, A, F: FnOnce() -> V>(e: Entry<'a, K, V>, f: F) -> &'a mut V {
    match e { Entry::Occupied(o) => o.into_mut(), Entry::Vacant(v) => v.insert(f()) }
}
pub fn entry_or_insert<'a, K, V, A>(e: Entry<'a, K, V>, d: V) -> &'a mut V {
    match e { Entry::Occupied(o) => o.into_mut(), Entry::Vacant(v) => v.insert(d) }
}
pub fn entry_or_default<'a, K, V: Default, A>(e: Entry<'a, K, V>) -> &'a mut V {
    match e { Entry::Occupied(o) => o.into_mut(), Entry::Vacant(v) => v.insert(Default::default()) }
}
pub fn entry_or_default_global<'a, K, V: Default>(e: Entry<'a, K, V>) -> &'a mut V {
    match e { Entry::Occupied(o) => o.into_mut(), Entry::Vacant(v) => v.insert(Default::default()) }
}
pub fn entry_or_insert_with_key<'a, K, V, A, F: FnOnce(&K) -> V>(e: Entry<'a, K, V>, f: F) -> &'a mut V {
    match e { Entry::Occupied(o) => o.into_mut(), Entry::Vacant(v) => { let x = f(v.key()); v.insert(x) } }
}
pub fn entry_and_modify<'a, K, V, A, F: FnOnce(&mut V)>(e: Entry<'a, K, V>, f: F) -> Entry<'a, K, V> {
    match e {
        Entry::Occupied(mut o) => { f(o.get_mut()); Entry::Occupied(o) }
        Entry::Vacant(v) => Entry::Vacant(v),
    }
}
pub fn map_from_iter<K: Eq + Hash, V, S: BuildHasher + Default, I: IntoIterator<Item = (K, V)>>(it: I) -> HashMap<K, V, S> {
    let mut m = HashMap::with_hasher(Default::default());
    let mut it = it.into_iter();
    while let Some((k, v)) = it.next() { m.insert(k, v); }
    m
}
pub fn map_extend<K: Eq + Hash, V, S: BuildHasher, A, I: IntoIterator<Item = (K, V)>>(m: &mut HashMap<K, V, S>, it: I) {
    let mut it = it.into_iter();
    while let Some((k, v)) = it.next() { m.insert(k, v); }
}
pub fn map_eq<K: Eq + Hash, V: PartialEq, S: BuildHasher, A>(a: &HashMap<K, V, S>, b: &HashMap<K, V, S>) -> bool {
    if a.len() != b.len() { return false; }
    let mut it = a.iter();
    while let Some((k, v)) = it.next() {
        match b.get(k) { Some(w) => if *v != *w { return false; }, None => return false }
    }
    true
}
/// Cursor over the entries of a map that may be removed while visited (analysed as a primitive).
pub struct Cursor(pub u64);
pub fn vp_cursor<K, V, S>(_m: &mut HashMap<K, V, S>) -> Cursor { loop {} }
pub fn vp_cursor_next<'a, 'b, K, V, S>(_m: &'a mut HashMap<K, V, S>, _c: &'b mut Cursor) -> Option<(&'a K, &'a mut V)> { loop {} }
pub fn vp_cursor_remove<'a, 'b, K, V, S>(_m: &'a mut HashMap<K, V, S>, _c: &'b mut Cursor) { loop {} }
pub fn map_retain<K, V, S, A, F: FnMut(&K, &mut V) -> bool>(m: &mut HashMap<K, V, S>, mut f: F) {
    let mut c = vp_cursor(m);
    loop {
        let keep = match vp_cursor_next(m, &mut c) { None => return, Some((k, v)) => f(k, v) };
        if !keep { vp_cursor_remove(m, &mut c); }
    }
}
