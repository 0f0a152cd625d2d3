#!/usr/bin/env python3
"""Edits that keep the behaviour; the checks have to stay quiet on them.  benign.py [ids...]

Each is applied to /repo, compiled, the tests are run, the checks of the part it touches are run, and it is undone."""
import json, os, re, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from bugs import RING, IV, CMP, BD, MATH, CN, DS
IT = 'src/circular_buffer/iter.rs'
ALL = {}


def E(id, parts, *edits):
    assert id not in ALL
    ALL[id] = (parts, edits)


def fn(s, marker, name):
    """Span of function `name` after `marker` (from `fn` to its closing brace)."""
    i = s.index(marker) if marker else 0
    m = re.compile(r'fn\s+%s\b' % name).search(s, i)
    j = m.start()
    k = s.index('{', j)
    d = 0
    for p in range(k, len(s)):
        if s[p] == '{':
            d += 1
        elif s[p] == '}':
            d -= 1
            if d == 0:
                return j, p + 1
    raise ValueError(name)


def apply(edits, root='/repo'):
    for e in edits:
        p = os.path.join(root, e[0])
        s = open(p).read()
        if len(e) == 4:
            a, b = fn(s, e[1], e[2])
            s = s[:a] + e[3] + s[b:]
        else:
            assert s.count(e[1]) >= 1, (e[0], e[1])
            s = s.replace(e[1], e[2])
        open(p, 'w').write(s)


R = 'C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11'
# ---------------------------------------------------------------- ring
E('r01', R, (RING, None, 'len', '''fn len(&self) -> usize {
        (self.end + self.buffer.len() - self.start) % self.buffer.len()
    }'''))
E('r02', R, (RING, None, 'internal_index', '''fn internal_index(&self, index: usize) -> usize {
        assert!(index < self.len(), "Index outside of bound of CircularBuffer");
        (self.start + index) % self.buffer.len()
    }'''))
E('r03', R, (RING, None, 'incr_end', '''fn incr_end(&mut self) {
        self.end = (self.end + 1) % self.buffer.len();
    }'''), (RING, None, 'decr_end', '''fn decr_end(&mut self) {
        let n = self.buffer.len();
        self.end = (self.end + n - 1) % n;
    }'''), (RING, None, 'incr_start', '''fn incr_start(&mut self) {
        self.start = self.next_index(self.start);
    }

    fn next_index(&self, i: usize) -> usize {
        if i + 1 < self.buffer.len() { i + 1 } else { 0 }
    }'''), (RING, None, 'decr_start', '''fn decr_start(&mut self) {
        self.start = match self.start { 0 => self.capacity(), i => i - 1 };
    }'''))
E('r04', R, (RING, None, 'clear', '''fn clear(&mut self) {
        while !self.is_empty() {
            self.pop_back();
        }
    }'''))
E('r05', R, (RING, None, 'clear', '''fn clear(&mut self) {
        for _ in 0..self.len() {
            self.pop_front();
        }
    }'''))
E('r06', R, (RING, None, 'clear', '''fn clear(&mut self) {
        let (a, b) = self.slices_mut();
        let (a, b) = (a as *mut [T], b as *mut [T]);
        self.start = 0;
        self.end = 0;
        unsafe {
            ::std::ptr::drop_in_place(a);
            ::std::ptr::drop_in_place(b);
        }
    }'''))
E('r07', R, (RING, None, 'append', '''fn append(&mut self, other: &mut Self) {
        while let Some(val) = other.pop_front() {
            self.push_back(val);
        }
    }'''))
E('r08', R, (RING, 'PartialEq for CircularBuffer', 'eq', '''fn eq(&self, other: &Self) -> bool {
        if self.len() != other.len() {
            return false;
        }
        self.iter().zip(other.iter()).all(|(a, b)| a == b)
    }'''), (RING, 'PartialOrd for CircularBuffer', 'partial_cmp', '''fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
        let mut a = self.iter();
        let mut b = other.iter();
        loop {
            match (a.next(), b.next()) {
                (None, None) => return Some(Ordering::Equal),
                (None, Some(_)) => return Some(Ordering::Less),
                (Some(_), None) => return Some(Ordering::Greater),
                (Some(x), Some(y)) => match x.partial_cmp(y) {
                    Some(Ordering::Equal) => {}
                    other => return other,
                },
            }
        }
    }'''))
E('r09', R, (RING, None, 'linearize', '''fn linearize(&mut self) -> &mut [T] {
        let len = self.len();
        if self.start != 0 {
            self.buffer.rotate_left(self.start);
            self.start = 0;
            self.end = len;
        }
        let used = &mut self.buffer[..len];
        unsafe { &mut *(used as *mut [MaybeUninit<T>] as *mut [T]) }
    }'''))
E('r10', R, (RING, None, 'reverse', '''fn reverse(&mut self) {
        let mut i = 0;
        let mut j = self.len();
        while i + 1 < j {
            j -= 1;
            self.swap(i, j);
            i += 1;
        }
    }'''))
E('r11', R, (RING, None, 'reverse', '''fn reverse(&mut self) {
        self.linearize().reverse();
    }'''))
E('r12', R, (RING, None, 'pop_at', '''fn pop_at(&mut self, index: usize) -> T {
        let tmp = ::std::mem::replace(&mut self.buffer[index], MaybeUninit::uninit());
        unsafe { tmp.assume_init() }
    }'''), (RING, None, 'push_at', '''fn push_at(&mut self, val: T, index: usize) {
        self.buffer[index].write(val);
    }'''), (RING, 'use std::mem::{MaybeUninit, swap, drop, transmute};', 'use std::mem::{MaybeUninit, drop, transmute};'))
E('r13', R, (RING, None, 'pop_at', '''fn pop_at(&mut self, index: usize) -> T {
        unsafe { self.buffer[index].as_ptr().read() }
    }'''), (RING, None, 'push_at', '''fn push_at(&mut self, val: T, index: usize) {
        unsafe { self.buffer[index].as_mut_ptr().write(val) }
    }'''), (RING, 'use std::mem::{MaybeUninit, swap, drop, transmute};', 'use std::mem::{MaybeUninit, drop, transmute};'))
E('r14', R, (RING, None, 'resize', '''fn resize(&mut self, capacity: usize) {
        let mut other = Self::with_capacity(capacity);
        while self.len() > capacity {
            self.pop_front();
        }
        while let Some(val) = self.pop_front() {
            other.push_back(val);
        }
        *self = other;
    }'''))
E('r15', R, (IT, '''    fn next(&mut self) -> Option<<Self as Iterator>::Item> {
        self.buf.pop_front()
    }''', '''    fn next(&mut self) -> Option<<Self as Iterator>::Item> {
        self.buf.pop_front()
    }

    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.buf.len(), Some(self.buf.len()))
    }'''))
E('r16', R, (RING, None, 'with_capacity', '''fn with_capacity(capacity: usize) -> Self {
        let buffer: Vec<MaybeUninit<T>> = (0..capacity.checked_add(1).unwrap()).map(|_| MaybeUninit::uninit()).collect();
        Self { buffer: buffer.into_boxed_slice(), start: 0, end: 0 }
    }'''))
E('r17', R, (RING, None, 'with_capacity', '''fn with_capacity(capacity: usize) -> Self {
        let slots = capacity.checked_add(1).unwrap();
        let mut buffer = Vec::with_capacity(slots);
        buffer.resize_with(slots, MaybeUninit::uninit);
        Self { buffer: buffer.into_boxed_slice(), start: 0, end: 0 }
    }'''))
E('r18', R, (RING, None, 'slices', '''fn slices(&self) -> (&[T], &[T]) {
        let wrapped = self.end < self.start;
        let (a, b) = if wrapped {
            let (head, tail) = self.buffer.split_at(self.start);
            (tail, &head[..self.end])
        } else {
            (&self.buffer[self.start..self.end], &self.buffer[self.end..self.end])
        };
        unsafe { (&*(a as *const [MaybeUninit<T>] as *const [T]), &*(b as *const [MaybeUninit<T>] as *const [T])) }
    }'''))
E('r19', R, (RING, None, 'first', '''fn first(&self) -> Option<&T> {
        self.iter().next()
    }'''), (RING, None, 'last', '''fn last(&self) -> Option<&T> {
        match self.len() {
            0 => None,
            n => Some(&self[n - 1]),
        }
    }'''), (RING, None, 'last_mut', '''fn last_mut(&mut self) -> Option<&mut T> {
        self.iter_mut().next_back()
    }'''), (RING, None, 'first_mut', '''fn first_mut(&mut self) -> Option<&mut T> {
        self.iter_mut().next()
    }'''))
E('r20', R, (RING, 'Extend<T> for', 'extend', '''fn extend<I: IntoIterator<Item=T>>(&mut self, iter: I) {
        iter.into_iter().for_each(|el| self.push_back(el));
    }'''), (RING, "Extend<&'a T> for", 'extend', '''fn extend<I: IntoIterator<Item=&'a T>>(&mut self, iter: I) {
        self.extend(iter.into_iter().cloned());
    }'''))
E('r21', R, (RING, None, 'push_back', '''fn push_back(&mut self, val: T) {
        if self.capacity() == 0 {
            return;
        }
        if self.is_full() {
            self.pop_front();
        }
        let end = self.end;
        self.incr_end();
        self.push_at(val, end);
    }'''), (RING, None, 'push_front', '''fn push_front(&mut self, val: T) {
        if self.capacity() == 0 {
            return;
        }
        if self.len() == self.capacity() {
            let _ = self.pop_back();
        }
        self.decr_start();
        self.push_at(val, self.start)
    }'''))
E('r22', R, (RING, 'From<Vec<T>> for', 'from', '''fn from(v: Vec<T>) -> Self {
        v.into_iter().collect()
    }'''), (RING, "FromIterator<&'a T>", 'from_iter', '''fn from_iter<I: IntoIterator<Item=&'a T>>(iter: I) -> Self {
        iter.into_iter().cloned().collect()
    }'''))
E('r23', R, (RING, 'FromIterator<T>', 'from_iter', '''fn from_iter<I: IntoIterator<Item=T>>(iter: I) -> Self {
        let mut buf = Vec::new();
        for el in iter {
            buf.push(MaybeUninit::new(el));
        }
        let end = buf.len();
        buf.push(MaybeUninit::uninit());
        Self { buffer: buf.into_boxed_slice(), start: 0, end }
    }'''))
E('r24', R, (RING, None, 'swap', '''fn swap(&mut self, a: usize, b: usize) {
        let i = self.internal_index(a);
        let j = self.internal_index(b);
        if i != j {
            self.buffer.swap(i, j);
        }
    }'''))
E('r25', R, (RING, None, 'is_full', '''fn is_full(&self) -> bool {
        let next = if self.end + 1 == self.buffer.len() { 0 } else { self.end + 1 };
        next == self.start
    }'''), (RING, None, 'is_empty', '''fn is_empty(&self) -> bool {
        self.len() == 0
    }'''))
E('r26', R, (RING, '''    buffer: Box<[MaybeUninit<T>]>,
    start: usize,
    end:usize''', '''    start: usize,
    end: usize,
    buffer: Box<[MaybeUninit<T>]>'''))
E('r27', R, (RING, None, 'pop_front', '''fn pop_front(&mut self) -> Option<T> {
        if self.is_empty() {
            return None;
        }
        let index = self.start;
        self.incr_start();
        Some(self.pop_at(index))
    }'''), (RING, None, 'pop_back', '''fn pop_back(&mut self) -> Option<T> {
        if !self.is_empty() {
            self.decr_end();
            let val = self.pop_at(self.end);
            return Some(val);
        }
        None
    }'''))
E('r28', R, (RING, ' Index<usize> for', 'index', '''fn index(&self, index: usize) -> &T {
        let (a, b) = self.slices();
        if index < a.len() { &a[index] } else { &b[index - a.len()] }
    }'''), (RING, ' IndexMut<usize> for', 'index_mut', '''fn index_mut(&mut self, index: usize) -> &mut T {
        let (a, b) = self.slices_mut();
        let n = a.len();
        if index < n { &mut a[index] } else { &mut b[index - n] }
    }'''))
E('r29', R, (RING, 'Clone for', 'clone', '''fn clone(&self) -> Self {
        let mut cb = Self::with_capacity(self.capacity());
        for el in self {
            cb.push_back(el.clone());
        }
        cb
    }'''))
E('r30', R, (RING, 'Ord for CircularBuffer<T>\n    where T: Ord', 'cmp', '''fn cmp(&self, other: &Self) -> Ordering {
        for (a, b) in self.iter().zip(other.iter()) {
            let o = a.cmp(b);
            if o != Ordering::Equal {
                return o;
            }
        }
        self.len().cmp(&other.len())
    }'''))
E('r31', R, (RING, '''/**
A simple''', '''/**
A simple''') if False else (RING, '        self.buffer.len() - 1\n    }', '        let slots = self.buffer.len();\n        //one slot is always unused\n        slots - 1\n    }'))
E('r32', R, (RING, None, 'iter', '''fn iter(&self) -> Iter<T> {
        let parts = self.slices();
        parts.0.iter().chain(parts.1)
    }'''), (RING, None, 'iter_mut', '''fn iter_mut(&mut self) -> IterMut<T> {
        let parts = self.slices_mut();
        parts.0.iter_mut().chain(parts.1)
    }'''))
E('r33', R, (RING, None, 'append', '''fn append(&mut self, other: &mut Self) {
        for _ in 0..other.len() {
            let val = other.pop_front().unwrap();
            self.push_back(val);
        }
    }'''))
E('r34', R, (RING, 'Drop for', 'drop', '''fn drop(&mut self) {
        while self.pop_front().is_some() {}
    }'''))
E('r35', R, (RING, None, 'resize', '''fn resize(&mut self, capacity: usize) {
        let len = self.len();
        let skip = len.saturating_sub(capacity);
        for _ in 0..skip {
            self.pop_front();
        }
        let mut new_buf: Vec<MaybeUninit<T>> = Vec::with_capacity(capacity.checked_add(1).unwrap());
        while let Some(val) = self.pop_front() {
            new_buf.push(MaybeUninit::new(val));
        }
        let end = new_buf.len();
        while new_buf.len() < capacity + 1 {
            new_buf.push(MaybeUninit::uninit());
        }
        self.buffer = new_buf.into_boxed_slice();
        self.start = 0;
        self.end = end;
    }'''))

# ---------------------------------------------------------------- counter
K = 'K01 K02 K03 K04 K05 K06 K07 D05 D07'
E('k01', K, (CN, None, 'push', '''fn push(&mut self, val: T) {
        if let Some(n) = self.counter.get_mut(&val) {
            *n += 1;
            return;
        }
        self.counter.insert(val, 1);
    }'''))
E('k02', K, (CN, None, 'push', '''fn push(&mut self, val: T) {
        self.counter.entry(val).and_modify(|n| *n += 1).or_insert(1);
    }'''))
E('k03', K, (CN, None, 'push', '''fn push(&mut self, val: T) {
        match self.counter.entry(val) {
            Entry::Occupied(mut e) => { *e.get_mut() += 1; }
            Entry::Vacant(e) => { e.insert(1); }
        }
    }'''))
E('k04', K, (CN, 'AddAssign<Counter<T, S1>>', 'add_assign', '''fn add_assign(&mut self, rhs: Counter<T, S1>) {
        rhs.into_iter().for_each(|(key, val)| *self.counter.entry(key).or_default() += val);
    }'''), (CN, " Add<&'a Counter<T, S1>>", 'add', '''fn add(mut self, rhs: &'a Counter<T, S1>) -> <Self as Add<Self>>::Output {
        self += rhs;
        self
    }'''))
E('k05', K, (CN, " SubAssign<&'a Counter<T, S1>>", 'sub_assign', '''fn sub_assign(&mut self, rhs: &'a Counter<T, S1>) {
        for (key, &val) in rhs.iter() {
            self.take_away(key, val);
        }
    }'''), (CN, " SubAssign<Counter<T, S1>>", 'sub_assign', '''fn sub_assign(&mut self, rhs: Counter<T, S1>) {
        for (key, val) in rhs {
            self.take_away(&key, val);
        }
    }'''), (CN, " Sub<&'a Counter<T, S1>>", 'sub', '''fn sub(mut self, rhs: &'a Counter<T, S1>) -> <Self as Add<Self>>::Output {
        self -= rhs;
        self
    }'''), (CN, None, 'push', '''fn push(&mut self, val: T){
        *self.counter.entry(val).or_insert(0) += 1;
    }

    fn take_away(&mut self, key: &T, val: usize) {
        let exhausted = match self.counter.get_mut(key) {
            Some(n) if *n > val => {
                *n -= val;
                false
            }
            Some(_) => true,
            None => false,
        };
        if exhausted {
            self.counter.remove(key);
        }
    }'''))
E('k06', K, (CN, " SubAssign<&'a Counter<T, S1>>", 'sub_assign', '''fn sub_assign(&mut self, rhs: &'a Counter<T, S1>) {
        self.counter.retain(|key, n| match rhs.counter.get(key) {
            None => true,
            Some(&m) if *n <= m => false,
            Some(&m) => {
                *n -= m;
                true
            }
        });
    }'''))
E('k07', K, (CN, None, 'into_most_common', '''fn into_most_common(self) -> Vec<(T, usize)> {
        let mut res: Vec<(T, usize)> = self.counter.into_iter().collect();
        res.sort_unstable_by(|a, b| b.1.cmp(&a.1));
        res
    }'''), (CN, None, 'most_common', '''fn most_common(&self) -> Vec<(T, usize)> where T: Clone {
        let mut res = Vec::with_capacity(self.counter.len());
        for (key, val) in &self.counter {
            res.push((key.clone(), *val));
        }
        res.sort_by_key(|x| ::std::cmp::Reverse(x.1));
        res
    }'''))
E('k08', K, (CN, ' FromIterator<T> for', 'from_iter', '''fn from_iter<I: IntoIterator<Item = T>>(iter: I) -> Self {
        let mut cnt = Self::default();
        cnt.extend(iter);
        cnt
    }'''), (CN, " FromIterator<&'a T> for", 'from_iter', '''fn from_iter<I: IntoIterator<Item = &'a T>>(iter: I) -> Self {
        iter.into_iter().cloned().collect()
    }'''))
E('k09', K, (CN, ' FromIterator<T> for', 'from_iter', '''fn from_iter<I: IntoIterator<Item = T>>(iter: I) -> Self {
        iter.into_iter().fold(Self::default(), |mut cnt, key| {
            cnt.push(key);
            cnt
        })
    }'''), (CN, " Extend<&'a T> for", 'extend', '''fn extend<I: IntoIterator<Item = &'a T>>(&mut self, iter: I) {
        self.extend(iter.into_iter().copied())
    }'''))
E('k10', K, (CN, " From<HashMap<T, usize, S1>> for", 'from', '''fn from(rhs: HashMap<T, usize, S1>) -> Self {
        rhs.into_iter().fold(Self::with_capacity(0), |mut c, (key, val)| { c.counter.insert(key, val); c })
    }'''), (CN, " From<&'a HashMap<T, usize, S1>> for", 'from', '''fn from(rhs: &'a HashMap<T, usize, S1>) -> Self {
        let mut counter = HashMap::with_capacity_and_hasher(rhs.len(), S2::default());
        for (key, val) in rhs {
            counter.insert(key.clone(), *val);
        }
        Counter { counter }
    }'''))
E('k11', K, (CN, 'AddAssign<Counter<T, S1>>', 'add_assign', '''fn add_assign(&mut self, rhs: Counter<T, S1>) {
        let mut it = rhs.into_iter();
        while let Some((key, val)) = it.next() {
            let n = self.counter.remove(&key).unwrap_or(0);
            self.counter.insert(key, n + val);
        }
    }'''))
E('k12', K, (CN, " SubAssign<Counter<T, S1>>", 'sub_assign', '''fn sub_assign(&mut self, rhs: Counter<T, S1>) {
        for (key, val) in rhs.into_iter() {
            if let Entry::Occupied(mut entry) = self.counter.entry(key) {
                let left = entry.get().saturating_sub(val);
                if left == 0 {
                    entry.remove();
                } else {
                    *entry.get_mut() = left;
                }
            }
        }
    }'''))
E('k13', K, (CN, " SubAssign<Counter<T, S1>>", 'sub_assign', '''fn sub_assign(&mut self, rhs: Counter<T, S1>) {
        for (key, val) in rhs.into_iter() {
            if let Some(n) = self.counter.remove(&key) {
                if let Some(left) = n.checked_sub(val).filter(|&left| left > 0) {
                    self.counter.insert(key, left);
                }
            }
        }
    }'''))
E('k14', K, (CN, None, 'with_capacity', '''fn with_capacity(capacity: usize) -> Counter<T, S> where S: Default {
        Self::with_capacity_and_hasher(capacity, S::default())
    }'''), (CN, 'Default for Counter', 'default', '''fn default() -> Self {
        Self::with_hasher(S::default())
    }'''), (CN, None, 'from_hashmap', '''fn from_hashmap(rhs: HashMap<T, usize, S>) -> Self {
        let counter = rhs;
        Counter { counter }
    }'''))
# ---------------------------------------------------------------- disjoint sets
D = 'D01 D02 D03 D04 D05 D06 D07 D08'
E('d01', D, (DS, None, 'find_with_path_compression', '''fn find_with_path_compression(data_by_id: &mut Vec<Data>, id: usize) -> usize{
        let mut root = id;
        while data_by_id[root].parent != root {
            root = data_by_id[root].parent;
        }
        let mut id = id;
        while data_by_id[id].parent != root {
            let next = data_by_id[id].parent;
            data_by_id[id].parent = root;
            id = next;
        }
        root
    }'''))
E('d02', D, (DS, None, 'find_with_path_compression', '''fn find_with_path_compression(data_by_id: &mut Vec<Data>, id: usize) -> usize{
        let mut id = id;
        while data_by_id[id].parent != id {
            let parent = data_by_id[id].parent;
            data_by_id[id].parent = data_by_id[parent].parent;
            id = data_by_id[id].parent;
        }
        id
    }'''))
E('d03', D, (DS, None, 'union', '''fn union(&mut self, a: T, b: T) {
        let a = self.make_or_get_set(a);
        let b = self.make_or_get_set(b);
        let a = Self::find_with_path_compression(&mut self.data_by_id, a);
        let b = Self::find_with_path_compression(&mut self.data_by_id, b);
        if a != b {
            self.link(a, b);
        }
    }

    fn link(&mut self, a: usize, b: usize) {
        use std::cmp::Ordering;
        match self.data_by_id[a].rank.cmp(&self.data_by_id[b].rank) {
            Ordering::Less => self.data_by_id[a].parent = b,
            Ordering::Greater => self.data_by_id[b].parent = a,
            Ordering::Equal => {
                self.data_by_id[b].parent = a;
                self.data_by_id[a].rank += 1;
            }
        }
    }'''))
E('d04', D, (DS, None, 'make_or_get_set', '''fn make_or_get_set(&mut self, val: T) -> usize{
        if let Some(&id) = self.ids.get(&val) {
            return id;
        }
        let id = self.data_by_id.len();
        self.data_by_id.push(Data::new(id));
        self.ids.insert(val, id);
        id
    }'''), (DS, 'use std::collections::hash_map::Entry;\n', ''))
E('d05', D, (DS, None, 'make_or_get_set', '''fn make_or_get_set(&mut self, val: T) -> usize{
        let next_id = self.ids.len();
        let id = *self.ids.entry(val).or_insert(next_id);
        if id == next_id {
            self.data_by_id.push(Data { parent: id, rank: 0 });
        }
        id
    }'''), (DS, 'use std::collections::hash_map::Entry;\n', ''))
E('d06', D, (DS, None, 'in_union', '''fn in_union(&mut self, a :&T, b: &T) -> bool{
        match (self.ids.get(a).cloned(), self.ids.get(b).cloned()) {
            (Some(a), Some(b)) => self.root(a) == self.root(b),
            _ => false
        }
    }

    fn root(&mut self, id: usize) -> usize {
        Self::find_with_path_compression(&mut self.data_by_id, id)
    }'''))
E('d07', D, (DS, None, 'in_union', '''fn in_union(&mut self, a :&T, b: &T) -> bool{
        if a == b {
            return self.contains(a);
        }
        let ids = &self.ids;
        let data = &mut self.data_by_id;
        ids.get(a).and_then(|&a| ids.get(b).map(|&b| (a, b))).map_or(false, |(a, b)| {
            let ra = Self::find_with_path_compression(data, a);
            let rb = Self::find_with_path_compression(data, b);
            ra == rb
        })
    }'''))
E('d08', D, (DS, None, 'build_sets', '''fn build_sets<'a>(&'a mut self) -> HashMap<usize, Vec<&'a T>> {
        let mut map : HashMap<usize, Vec<&'a T>> = HashMap::with_capacity(self.ids.len());
        for (key, &id) in &self.ids {
            let root = Self::find_with_path_compression(&mut self.data_by_id, id);
            map.entry(root).or_default().push(key);
        }
        map
    }'''))
E('d09', D, (DS, None, 'build_sets', '''fn build_sets<'a>(&'a mut self) -> HashMap<usize, Vec<&'a T>> {
        let mut map : HashMap<usize, Vec<&'a T>> = HashMap::new();
        for (key, val) in self.ids.iter(){
            let root = Self::find_with_path_compression(&mut self.data_by_id, *val);
            match map.get_mut(&root) {
                Some(set) => { set.push(key); continue; }
                None => {}
            }
            map.insert(root, vec![key]);
        }
        map
    }'''), (DS, 'Iterator for SetIter', 'next', '''fn next<'b>(&'b mut self) -> Option<<Self as Iterator>::Item> {
        self.sets.next().map(|(_, set)| set.into_iter())
    }'''))
E('d10', D, (DS, None, 'contains', '''fn contains(&self, val: &T) -> bool {
        self.ids.get(val).is_some()
    }'''), (DS, None, 'is_empty', '''fn is_empty(&self) -> bool {
        self.len() == 0
    }'''), (DS, None, 'len', '''fn len(&self) -> usize {
        self.data_by_id.len()
    }'''))
E('d11', D, (DS, ' Extend<T> for', 'extend', '''fn extend<I: IntoIterator<Item = T>>(&mut self, iter: I) {
        iter.into_iter().for_each(|val| self.make_set(val));
    }'''), (DS, " Extend<&'a T> for", 'extend', '''fn extend<I: IntoIterator<Item = &'a T>>(&mut self, iter: I) {
        self.extend(iter.into_iter().cloned())
    }'''), (DS, ' FromIterator<T> for', 'from_iter', '''fn from_iter<I: IntoIterator<Item = T>>(iter: I) -> Self {
        let mut ds = Self::new();
        ds.extend(iter);
        ds
    }'''))
E('d12', D, (DS, None, 'find_with_path_compression', '''fn find_with_path_compression(data_by_id: &mut Vec<Data>, id: usize) -> usize{
        match data_by_id[id].parent {
            parent if parent == id => id,
            parent => {
                let root = Self::find_with_path_compression(data_by_id, parent);
                data_by_id[id].parent = root;
                root
            }
        }
    }'''))
E('d13', D, (DS, None, 'union', '''fn union(&mut self, a :T, b: T) {
        let a = self.make_or_get_set(a);
        let b = self.make_or_get_set(b);
        let a_root = Self::find_with_path_compression(&mut self.data_by_id, a);
        let b_root = Self::find_with_path_compression(&mut self.data_by_id, b);
        if a_root == b_root {
            return;
        }
        let (top, below) = if self.data_by_id[a_root].rank < self.data_by_id[b_root].rank {
            (b_root, a_root)
        } else {
            (a_root, b_root)
        };
        let rank = self.data_by_id[below].rank;
        self.data_by_id[below].parent = top;
        let top = &mut self.data_by_id[top];
        if top.rank == rank {
            top.rank += 1;
        }
    }'''))
E('d14', D, (DS, None, 'clear', '''fn clear(&mut self) {
        self.data_by_id.truncate(0);
        self.ids.clear();
    }'''), (DS, None, 'reserve', '''fn reserve(&mut self, additional: usize) {
        self.ids.reserve(additional);
        self.data_by_id.reserve_exact(additional);
    }'''))
E('d15', D, (DS, '''    pub parent: usize,
    pub rank: u32
''', '''    pub rank: u32,
    pub parent: usize
'''), (DS, '''    ids: HashMap<T, usize, S>,
    data_by_id: Vec<Data>
}''', '''    data_by_id: Vec<Data>,
    ids: HashMap<T, usize, S>
}'''))
# ---------------------------------------------------------------- intervals
I = 'I01 I02 I03 I04 I05 I06 I07 I08 I09 I10 I11 I12'
E('i01', I, (IV, None, 'contains_val', '''fn contains_val(&self, val: &T) -> bool {
        match self.bounds() {
            None => false,
            Some((lo, up)) => !(lo > val) && !(up < val)
        }
    }'''))
E('i02', I, (IV, None, 'contains_val', '''fn contains_val(&self, val: &T) -> bool {
        self.imp.as_ref().map_or(false, |a| {
            let above = if a.lo.is_closed() { a.lo.val() <= val } else { a.lo.val() < val };
            let below = if a.up.is_closed() { val <= a.up.val() } else { val < a.up.val() };
            above && below
        })
    }'''))
E('i03', I, (IV, None, 'contains_interval', '''fn contains_interval(&self, other: &Self) -> bool {
        match (&self.imp, &other.imp) {
            (_, None) => true,
            (None, Some(_)) => false,
            (Some(s), Some(o)) => !(s.lo > o.lo) && !(s.up < o.up)
        }
    }'''))
E('i04', I, (IV, None, 'into_merged', '''fn into_merged(mut self, other: Self) -> Result<Self, (Self, Self)>{
        match self.merge(other) {
            Ok(()) => Ok(self),
            Err(other) => Err((self, other))
        }
    }'''))
E('i05', I, (IV, None, 'merge', '''fn merge(&mut self, other: Self) -> Result<(), Self>{
        if !self.can_be_merged(&other) {
            return Err(other)
        }
        self.span(other);
        Ok(())
    }'''))
E('i06', I, (IV, None, 'into_intersection', '''fn into_intersection(mut self, other: Self) -> Self {
        self.intersection(other);
        self
    }'''))
E('i07', I, (IV, None, 'intersection', '''fn intersection(&mut self, other: Self) {
        if !self.intersects(&other) {
            *self = Self::empty();
            return;
        }
        if let (Some(s), Some(o)) = (self.imp.as_mut(), other.imp) {
            if o.lo > s.lo {
                s.lo = o.lo;
            }
            if o.up < s.up {
                s.up = o.up;
            }
        }
    }'''))
E('i08', I, (IV, None, 'fix_after_modification', '''fn fix_after_modification(&mut self){
        use std::cmp::Ordering::*;
        let drop_it = match self.imp {
            None => false,
            Some(ref mut a) => match a.lo.val().cmp(a.up.val()) {
                Less => false,
                Equal => !(a.lo.is_closed() && a.up.is_closed()),
                Greater => {
                    a.lo.swap(&mut a.up);
                    false
                }
            }
        };
        if drop_it {
            self.imp.take();
        }
    }'''))
E('i09', I, (IV, None, 'into_span', '''fn into_span(self, other: Self) -> Self {
        match (self.into_bounds(), other.into_bounds()) {
            (Some((l1, u1)), Some((l2, u2))) => {
                let lo = if l2 < l1 { l2 } else { l1 };
                let up = if u2 > u1 { u2 } else { u1 };
                Self { imp: Some(NonEmptyInterval { lo, up }) }
            }
            (Some((lo, up)), None) | (None, Some((lo, up))) => Self { imp: Some(NonEmptyInterval { lo, up }) },
            (None, None) => Self::empty()
        }
    }'''))
E('i10', I, (IV, None, 'create_checked', '''fn create_checked(lo: T, loc: bool, up: T, upc: bool) -> Self {
        use std::cmp::Ordering::*;
        match lo.cmp(&up) {
            Greater => panic!("Lower bound of an interval needs to be less than the upper one."),
            Equal => assert!(loc && upc, "Single elements need to have closed bounds."),
            Less => {}
        }
        let (lo, up) = (LowerBound::new(lo, loc), UpperBound::new(up, upc));
        Self { imp: Some(NonEmptyInterval { lo, up }) }
    }'''))
E('i11', I, (BD, 'PartialOrd for LowerBound', 'partial_cmp', '''fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
        Some(self.cmp(other))
    }'''), (BD, 'PartialOrd for UpperBound', 'partial_cmp', '''fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
        Some(self.cmp(other))
    }'''), (BD, ' Ord for LowerBound', 'cmp', '''fn cmp(&self, other: &Self) -> Ordering {
        self.val().cmp(other.val()).then_with(|| other.is_closed().cmp(&self.is_closed()))
    }'''), (BD, ' Ord for UpperBound', 'cmp', '''fn cmp(&self, other: &Self) -> Ordering {
        self.val().cmp(other.val()).then(self.is_closed().cmp(&other.is_closed()))
    }'''))
E('i12', I, (BD, 'PartialOrd<UpperBound<T>> for LowerBound', 'lt', '''fn lt(&self, other: &UpperBound<T>) -> bool {
        if self.is_closed() && other.is_closed() {
            self.val() < other.val()
        } else {
            self.val() <= other.val()
        }
    }'''), (BD, 'PartialOrd<T> for LowerBound', 'partial_cmp', '''fn partial_cmp(&self, other: &T) -> Option<Ordering> {
        let o = self.val().cmp(other);
        if o == Equal && !self.is_closed() {
            return Some(Greater);
        }
        Some(o)
    }'''), (BD, None, 'are_separated', '''fn are_separated<T>(l: &LowerBound<T>, u: &UpperBound<T>) -> bool where T: Ord{
        match l.val().cmp(u.val()) {
            Less => false,
            Greater => true,
            Equal => !(u.is_closed() || l.is_closed())
        }
    }'''))
E('i13', I, (CMP, 'PartialOrd<T> for Interval', 'partial_cmp', '''fn partial_cmp(&self, val: &T) -> Option<Ordering> {
        let (lo, up) = match self.bounds() {
            None => return None,
            Some(b) => b
        };
        if up < val {
            Some(Less)
        } else if lo > val {
            Some(Greater)
        } else if lo == val && up == val {
            Some(Equal)
        } else {
            None
        }
    }'''), (CMP, 'PartialOrd for Interval', 'lt', '''fn lt(&self, other: &Self) -> bool {
        match (self.upper(), other.lower()) {
            (Some(s), Some(o)) => s < o,
            _ => false
        }
    }'''), (CMP, 'PartialOrd for Interval', 'ge', '''fn ge(&self, other: &Self) -> bool {
        if let (Some(s), Some(o)) = (self.lower(), other.upper()) { s >= o } else { false }
    }'''))
E('i14', I, (MATH, 'Add<U> for', 'add', '''fn add(self, rhs: U) -> <Self as Add<U>>::Output {
        match self.into_tuple() {
            None => Self::empty(),
            Some((lo, loc, up, upc)) => {
                let up = up + rhs.clone();
                let lo = lo + rhs;
                Self::create_friendly(lo, loc, up, upc)
            }
        }
    }'''), (MATH, 'MulAssign<T> for', 'mul_assign', '''fn mul_assign(&mut self, rhs: T) {
        match self.imp {
            None => return,
            Some(ref mut a) => {
                let factor = rhs.clone();
                a.lo *= factor;
                a.up *= rhs;
            }
        }
        self.fix_after_modification()
    }'''), (MATH, 'Neg for', 'neg', '''fn neg(self) -> <Self as Neg>::Output {
        if let Some((l, lc, u, uc)) = self.into_tuple() {
            let lo = -u;
            let up = -l;
            return Self::create_friendly(lo, uc, up, lc);
        }
        Self::empty()
    }'''))
E('i15', I, (IV, None, 'upper', '''fn upper(&self) -> Option<&UpperBound<T>> {
        self.imp.as_ref().map(|a| &a.up)
    }'''), (IV, None, 'bounds', '''fn bounds(&self) -> Option<(&LowerBound<T>, &UpperBound<T>)> {
        let a = self.imp.as_ref()?;
        Some((&a.lo, &a.up))
    }'''), (IV, None, 'is_single', '''fn is_single(&self) -> bool {
        match self.bounds() {
            Some((lo, up)) => lo.val() == up.val(),
            None => false
        }
    }'''), (IV, None, 'into_tuple', '''fn into_tuple(self) -> Option<(T, bool, T, bool)>{
        self.imp.map(|a| {
            let (lo, loc) = a.lo.into_tuple();
            let (up, upc) = a.up.into_tuple();
            (lo, loc, up, upc)
        })
    }'''), (IV, None, 'is_lower_closed', '''fn is_lower_closed(&self) -> Option<bool> {
        self.lower().map(LowerBound::is_closed)
    }'''))
E('i16', I, (IV, None, 'intersects', '''fn intersects(&self, other: &Self) -> bool {
        match (self.bounds(), other.bounds()) {
            (Some((l1, u1)), Some((l2, u2))) => !(u1 < l2 || u2 < l1),
            _ => false
        }
    }'''), (IV, None, 'can_be_merged', '''fn can_be_merged(&self, other: &Self) -> bool {
        match (self.bounds(), other.bounds()) {
            (Some((l1, u1)), Some((l2, u2))) => !u1.is_separated_from(l2) && !l1.is_separated_from(u2),
            _ => true
        }
    }'''))
E('i17', I, (IV, '''            Some(a)=> {
                let l = if a.lo.is_closed() {'['} else {'('};
                let r = if a.up.is_closed() {']'} else {')'};
                write!(f, "{}{},{}{}", l, a.lo.val(), a.up.val(), r)
            }''', '''            Some(a)=> {
                f.write_str(if a.lo.is_closed() {"["} else {"("})?;
                write!(f, "{},{}", a.lo.val(), a.up.val())?;
                f.write_str(if a.up.is_closed() {"]"} else {")"})
            }'''))
E('i18', I, (BD, '''    val: T,
    is_closed: bool
}''', '''    is_closed: bool,
    val: T
}'''), (IV, '''    pub lo: LowerBound<T>,
    pub up: UpperBound<T>
}''', '''    pub up: UpperBound<T>,
    pub lo: LowerBound<T>
}'''))
E('i19', I, (BD, 'Add<U> for Bound', 'add', '''fn add(self, rhs: U) -> <Self as Add<U>>::Output {
        let (val, is_closed) = self.into_tuple();
        Bound::new(val + rhs, is_closed)
    }'''), (BD, 'PartialEq<T> for LowerBound', 'eq', '''fn eq(&self, other: &T) -> bool {
        self.is_closed() && *self.val() == *other
    }'''), (BD, 'PartialOrd<T> for UpperBound', 'lt', '''fn lt(&self, other: &T) -> bool {
        if self.is_closed() { self.val() < other } else { self.val() <= other }
    }'''))
E('i20', I, (IV, None, 'span', '''fn span(&mut self, other: Self) {
        match (self.imp.as_mut(), other.imp) {
            (_, None) => {}
            (None, o) => self.imp = o,
            (Some(s), Some(o)) => {
                if o.lo < s.lo {
                    s.lo = o.lo;
                }
                if o.up > s.up {
                    s.up = o.up;
                }
            }
        }
    }'''))

E('nd1', 'C01 C02 C05 C07 C10 C11', (RING, None, 'clear', '''fn clear(&mut self) {
        if !std::mem::needs_drop::<T>() {
            self.start = 0;
            self.end = 0;
            return;
        }
        while let Some(val) = self.pop_back() {
            drop(val)
        }
    }'''), (RING, 'Drop for CircularBuffer', 'drop', '''fn drop(&mut self) {
        if std::mem::needs_drop::<T>() {
            self.clear();
        }
    }'''))


def sh(c, cwd):
    return subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def run(i, props=None):
    parts, edits = ALL[i]
    try:
        apply(edits)
        t = sh('cargo test --offline --lib 2>&1', '/repo')
        if ' test result: ok' not in ' ' + t.stdout.replace('\n', ' '):
            print(i, 'DOES NOT BUILD OR PASS', t.stdout[-1500:])
            return
        sh('python3 -c "from vp.extract import extract; extract()"', ROOT)

        def one(p):
            return p, sh('timeout 900 python3 check.py --property ' + p, ROOT)
        with ThreadPoolExecutor(8) as ex:
            rs = list(ex.map(one, props or parts.split()))
        bad = [(p, r) for p, r in rs if r.returncode]
        und = [(p, r) for p, r in rs if 'not decided' in r.stdout]
        print(i, 'QUIET' if not bad else 'ALARM', 'und: ' + ' '.join(p for p, r in und) if und else '')
        for p, r in bad:
            print('    ', p, [l.strip()[:260] for l in r.stdout.splitlines() if l.startswith('  ')][:3] or r.stdout[-600:])
        for p, r in und:
            print('    ', p, [l for l in r.stdout.splitlines() if 'not decided' in l][0][:260])
        sys.stdout.flush()
    finally:
        sh('git checkout -- .', '/repo')


if __name__ != '__main__':
    import benign_x

if __name__ == '__main__':
    if sys.argv[1:2] == ['apply']:
        apply(ALL[sys.argv[2]][1])
    else:
        for i in sys.argv[1:] or sorted(ALL):
            run(i)
