"""Planted bugs (written from the property texts and the code)."""
BUGS = []
RING = 'src/circular_buffer/circular.rs'
IV = 'src/interval/interval.rs'
CMP = 'src/interval/interval_cmp.rs'
BD = 'src/interval/bounds.rs'
MATH = 'src/interval/interval_math.rs'
CN = 'src/counter/counter.rs'
DS = 'src/disjoint_set/disjoint_set.rs'
RU = 'use advanced_collections::circular_buffer::CircularBuffer;\n'
IU = 'use advanced_collections::interval::*;\n'
CU = 'use advanced_collections::counter::*;\n'
DU = 'use advanced_collections::disjoint_set::*;\n'


def bug(id, property, edits, demo, needs, breaks, reject=None, release=False):
    b = dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks, release=release)
    if reject:
        b['reject'] = reject
    BUGS.append(b)


TRACK = '''use std::cell::RefCell;
thread_local!(static LOG: RefCell<Vec<i32>> = RefCell::new(vec![]));
pub struct D(pub i32);
impl Drop for D { fn drop(&mut self) { LOG.with(|l| l.borrow_mut().push(self.0)); } }
fn log() -> Vec<i32> { let mut v = LOG.with(|l| l.borrow_mut().split_off(0)); v.sort(); v }
'''

# ---------------- circular buffer ----------------
bug('c01a', 'C01', [(RING, '''        if self.is_full(){
            if self.capacity() == 0 {
                return;
            } else {
                self.pop_back();''', '''        if self.is_full(){
            if self.capacity() <= 1 {
                return;
            } else {
                self.pop_back();''')],
    RU + 'fn main() { let mut c = CircularBuffer::new(1); c.push_front(1); c.push_front(2); assert_eq!(c.pop_front(), Some(2)); }',
    'a buffer of capacity one that is full, and a push to the front', 'the new element is discarded instead of replacing the old one')

bug('c01b', 'C01', [(RING, '''        if self.is_full(){
            if self.capacity() == 0 {
                return;
            } else {
                self.pop_front();''', '''        if self.is_full() || self.start == self.buffer.len() - 1 {
            if self.capacity() == 0 {
                return;
            } else {
                self.pop_front();''')],
    RU + '''fn main() { let mut c = CircularBuffer::new(3);
    for i in 0..4 { c.push_back(i); } for _ in 0..2 { c.pop_front(); }
    assert_eq!(c.len(), 1); c.push_back(9);
    assert_eq!(c.iter().cloned().collect::<Vec<_>>(), vec![3, 9]); }''',
    'a partly filled buffer whose first element lies in the last slot', 'an element is evicted although the buffer is not full')

bug('c02a', 'C02', [(RING, '''        self.extend(other.drain())''', '''        if self.capacity() == 0 {
            //nothing can be stored, so only the other buffer needs to be emptied
            other.start = other.end;
            return;
        }
        self.extend(other.drain())''')],
    RU + TRACK + '''fn main() { let mut a = CircularBuffer::new(0); let mut b = CircularBuffer::new(2); b.push_back(D(1)); b.push_back(D(2));
    a.append(&mut b); drop(a); drop(b); assert_eq!(log(), vec![1, 2]); }''',
    'appending to a buffer of capacity zero', 'the elements of the other buffer are never dropped')

bug('c02b', 'C02', [('src/circular_buffer/iter.rs', '''impl <'a, T> Iterator for Drain<'a, T>{
    type Item = T;
''', '''impl <'a, T> Iterator for Drain<'a, T>{
    type Item = T;

    fn nth(&mut self, n: usize) -> Option<T> {
        self.buf.skip_front(n);
        self.buf.pop_front()
    }
'''), (RING, '''    fn pop_at(&mut self, index: usize) -> T {''', '''    pub(super) fn skip_front(&mut self, n: usize) {
        let n = n.min(self.len());
        self.start += n;
        if self.start >= self.buffer.len() {
            self.start -= self.buffer.len();
        }
    }

    fn pop_at(&mut self, index: usize) -> T {''')],
    RU + TRACK + '''fn main() { let mut c = CircularBuffer::new(4); for i in 0..4 { c.push_back(D(i)); }
    c.resize(2); assert_eq!(c.len(), 2); assert_eq!(log(), vec![0, 1]); drop(c); assert_eq!(log(), vec![2, 3]); }''',
    'a resize to less than the length (or nth/skip on a drain), with elements whose drop matters; the two edited sites look fine alone',
    'skipped elements are leaked instead of dropped')

bug('c03a', 'C03', [(RING, '''        while let Some(val) = self.pop_back() {
            drop(val)
        }''', '''        for _ in 0..self.len() - self.len() / 64 {
            drop(self.pop_back())
        }''')],
    RU + '''fn main() { let mut c = CircularBuffer::new(70); for i in 0..70 { c.push_back(i); } c.clear(); assert!(c.is_empty()); }''',
    'a buffer holding at least 64 elements', 'clear leaves elements in the buffer')

bug('c03b', 'C03', [(RING, '''        if self.is_empty(){
            None
        } else {
            self.decr_end();''', '''        if self.is_empty() || self.capacity() == 1 && self.end == 0 {
            None
        } else {
            self.decr_end();''')],
    RU + '''fn main() { let mut c = CircularBuffer::new(1); c.push_back(1); c.push_back(2); assert_eq!(c.pop_back(), Some(2)); }''',
    'capacity one, with the single element in the second slot', 'pop_back says None although there is an element')

bug('c04a', 'C04', [(RING, '''        if index >= self.len() {
            panic!''', '''        if index > self.len() {
            panic!''')],
    RU + '''fn main() { std::panic::set_hook(Box::new(|_| ()));
    let r = std::panic::catch_unwind(|| { let mut c = CircularBuffer::new(3); c.push_back(1); let x: i32 = c[1]; x });
    assert!(r.is_err()); }''',
    'an index equal to the length', 'indexing one past the end returns an unused slot instead of panicking')

bug('c04b', 'C04', [(RING, '''        self.buffer.swap(self.internal_index(a), self.internal_index(b));
    }

    /**
    Reverses''', '''        if a == b {
            return;
        }
        self.buffer.swap(self.internal_index(a), self.internal_index(b));
    }

    /**
    Reverses''')],
    RU + '''fn main() { std::panic::set_hook(Box::new(|_| ()));
    let r = std::panic::catch_unwind(|| { let mut c = CircularBuffer::new(3); c.push_back(1); c.swap(7, 7); });
    assert!(r.is_err()); }''',
    'two equal positions past the end', 'swap does not panic for positions outside the buffer')

bug('c05a', 'C05', [(RING, '''        let to_be_skipped = if self.len()>capacity{
            self.len() - capacity''', '''        let to_be_skipped = if self.len()>capacity && (self.start <= self.end || capacity > 0) {
            self.len() - capacity'''), (RING, '''        for _ in 0..capacity -new_buf.len() + 1{''', '''        let elem_num = elem_num.min(capacity);
        new_buf.truncate(elem_num);
        for _ in 0..capacity -new_buf.len() + 1{''')],
    RU + TRACK + '''fn main() { let mut c = CircularBuffer::new(2); for i in 0..4 { c.push_back(D(i)); } log();
    c.resize(0); assert_eq!(log(), vec![2, 3]); }''',
    'resizing a wrapped buffer to zero', 'the surplus elements are not dropped')

bug('c05b', 'C05', [(RING, '''        new_buf.shrink_to_fit();
''', '''        if elem_num == 0 && self.start > capacity {
            //nothing to move
            return;
        }
        new_buf.shrink_to_fit();
''')],
    RU + '''fn main() { let mut c = CircularBuffer::new(4); for i in 0..3 { c.push_back(i); } for _ in 0..3 { c.pop_front(); }
    c.resize(2); assert_eq!(c.capacity(), 2); }''',
    'shrinking an empty buffer whose position has advanced', 'the capacity stays as it was')

bug('c06a', 'C06', [(RING, '''        self.buffer.rotate_left(self.start);
        self.end = self.len();''', '''        if self.start > self.end {
            self.buffer.rotate_left(self.start);
        }
        self.end = self.len();''')],
    RU + '''fn main() { let mut c = CircularBuffer::from(vec![1, 2, 3]); c.pop_front(); assert_eq!(c.linearize(), [2, 3]); }''',
    'a buffer whose contents do not wrap but start past the first slot', 'linearize shows wrong slots (unused memory)')

bug('c06b', 'C06', [(RING, '''            let b = self.len() - a - 1;''', '''            let b = self.capacity() - a - 1;''')],
    RU + '''fn main() { let mut c = CircularBuffer::new(4); for i in 0..3 { c.push_back(i); } c.reverse(); assert_eq!(c.iter().cloned().collect::<Vec<_>>(), vec![2, 1, 0]); }''',
    'reversing a buffer that is not full', 'reverse panics')

bug('c07a', 'C07', [(RING, '''    fn extend<I: IntoIterator<Item=T>>(&mut self, iter: I) {

        for el in iter{''', '''    fn extend<I: IntoIterator<Item=T>>(&mut self, iter: I) {

        //items which would be evicted anyway do not need to be stored
        let iter = iter.into_iter();
        let surplus = iter.size_hint().1.unwrap_or(0).saturating_sub(self.capacity());
        for el in iter.skip(surplus) {''')],
    RU + '''fn main() { let mut c = CircularBuffer::new(3); c.extend((0..10).filter(|x| x % 5 == 0)); assert_eq!(c.iter().cloned().collect::<Vec<_>>(), vec![0, 5]); }''',
    'extending by an iterator whose upper size bound is not exact', 'items that fit are lost')

bug('c08a', 'C08', [(RING, '''    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
        self.iter().partial_cmp(other.iter())''', '''    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
        if self.is_full() != other.is_full() && self.len() < other.len() {
            return Some(Ordering::Less);
        }
        self.iter().partial_cmp(other.iter())''')],
    RU + '''fn main() { let mut a = CircularBuffer::new(2); a.push_back(9); let b = CircularBuffer::from(vec![1, 2]); assert!(a > b); }''',
    'one operand full and longer, the other not', 'ordering depends on the capacity')

bug('c08b', 'C08', [(RING, '''    fn eq(&self, other: &Self) -> bool {
       self.iter().eq(other.iter())''', '''    fn eq(&self, other: &Self) -> bool {
       self.slices() == other.slices()''')],
    RU + '''fn main() { let mut a = CircularBuffer::new(2); for i in 0..4 { a.push_back(i); } let b = CircularBuffer::from(vec![2, 3]); assert!(a == b); }''',
    'one operand wrapped at a position where the other is not', 'equal sequences compare unequal')

bug('c10a', 'C10', [(RING, '''        while let Some(val) = self.pop_back() {
            drop(val)
        }''', '''        for i in 0..self.len() {
            let index = self.internal_index(i);
            unsafe { ::std::ptr::drop_in_place(self.buffer[index].as_mut_ptr()) }
        }
        self.start = 0;
        self.end = 0;''')],
    RU + '''use std::cell::RefCell;
thread_local!(static LOG: RefCell<Vec<i32>> = RefCell::new(vec![]));
struct D(i32);
impl Drop for D { fn drop(&mut self) { LOG.with(|l| l.borrow_mut().push(self.0)); if self.0 == 2 && !std::thread::panicking() { panic!() } } }
fn main() { std::panic::set_hook(Box::new(|_| ()));
    let _ = std::panic::catch_unwind(|| { let mut c = CircularBuffer::new(3); for i in 1..4 { c.push_back(D(i)); } c.clear(); });
    let mut l = LOG.with(|l| l.borrow().clone()); l.sort(); l.windows(2).for_each(|w| assert!(w[0] != w[1], "{} dropped twice", w[0])); }''',
    'an element whose drop panics while the buffer is being cleared', 'elements are dropped a second time when the buffer is dropped')

bug('c11a', 'C11', [(RING, '''                self.pop_back();
            }
        }
        self.decr_start();''', '''                self.linearize();
                self.pop_back();
            }
        }
        self.decr_start();''')],
    RU + '''fn main() { let mut c = CircularBuffer::new(5); for i in 0..7 { c.push_back(i); }
    let a = c.first().unwrap() as *const i32; c.push_front(8); assert_eq!(a, &c[1] as *const i32, "elements were moved by a push"); }''',
    'a push to a full buffer that does not start at its first slot', 'such a push moves all elements')

bug('c12a', 'C12', [(RING, '''pub fn linearize(&mut self) -> &mut [T]{''', '''pub fn linearize<'b>(&mut self) -> &'b mut [T]{''')],
    RU + '''fn main() { let s; { let mut c = CircularBuffer::from(vec![String::new()]); s = c.linearize(); } println!("{}", s.len()); }''',
    'a client that keeps the linearized slice longer than the buffer', 'a dangling slice can be kept in safe code', reject='E0597|E0505|E0506')

bug('c12b', 'C12', [(RING, '''impl<T> Drop for CircularBuffer<T> {''', '''unsafe impl<T> Sync for CircularBuffer<T> {}

impl<T> Drop for CircularBuffer<T> {''')],
    RU + '''fn sync<T: Sync>() {} fn main() { sync::<CircularBuffer<std::cell::Cell<i32>>>(); }''',
    'a buffer of elements that must not be shared between threads', 'such a buffer can be shared, a data race in safe code', reject='E0277')

# ---------------- intervals ----------------
bug('i01a', 'I01', [(IV, '''            if a.lo.val() == a.up.val() && (!a.lo.is_closed() || !a.up.is_closed()){''', '''            if a.lo.val() == a.up.val() && !a.lo.is_closed() && !a.up.is_closed(){''')],
    IU + '''fn main() { let i = Interval::lower_closed(1, 3) * 0; assert!(i.is_empty()); }''',
    'multiplying a half-open interval by zero', 'a half-open interval with equal ends appears')

bug('i05a', 'I05', [(IV, '''        if o.lo <s.lo {
            swap(&mut o.lo, &mut s.lo)
        }
        if o.up > s.up {
            swap(&mut o.up, &mut s.up)
        }
        Ok(())''', '''        if o.lo.val() < s.lo.val() {
            swap(&mut o.lo, &mut s.lo)
        }
        if o.up > s.up {
            swap(&mut o.up, &mut s.up)
        }
        Ok(())''')],
    IU + '''fn main() { let mut i = Interval::open(1, 3); i.merge(Interval::closed(1, 2)).unwrap(); assert!(i.contains_val(&1)); }''',
    'equal lower values, only the argument closed', 'merging in place loses the end point')

bug('i07a', 'I07', [(CMP, '''        if self < val {
            return Some(Less);
        }
        if self > val {
            return Some(Greater);
        }

        if self == val {
            return Some(Equal);
        }''', '''        if self == val {
            return Some(Equal);
        }
        if self <= val {
            return Some(Less);
        }
        if self >= val {
            return Some(Greater);
        }''')],
    IU + '''fn main() { assert_eq!(Interval::closed(1, 2).partial_cmp(&2), None); }''',
    'comparing an interval with its own closed end', 'partial_cmp orders an interval and a value it contains')

bug('i09a', 'I09', [(MATH, '''Self::create_friendly(-u, uc, -l, lc)''', '''Self::create_friendly(-u, uc && lc, -l, lc)''')],
    IU + '''fn main() { let (l, u) = (-Interval::upper_closed(1, 2)).into_bounds().unwrap(); assert!(l.is_closed() && !u.is_closed()); }''',
    'negating an interval closed only above', 'the lower end of the result is open')

bug('i11a', 'I11', [(BD, '''#[derive(Clone, Debug, Copy, Eq, PartialEq, Hash)]
pub struct UpperBound<T> where T: Ord {
    bound: Bound<T>
}''', '''#[derive(Clone, Debug, Copy, Eq, PartialEq)]
pub struct UpperBound<T> where T: Ord {
    bound: Bound<T>
}

impl<T> ::std::hash::Hash for UpperBound<T> where T: Ord + ::std::hash::Hash {
    fn hash<H: ::std::hash::Hasher>(&self, state: &mut H) {
        self.bound.hash(state);
        state.write_usize(&self.bound as *const _ as usize & 0xffff);
    }
}''')],
    IU + '''use std::collections::hash_map::DefaultHasher; use std::hash::{Hash, Hasher};
fn h(x: &UpperBound<i32>) -> u64 { let mut s = DefaultHasher::new(); x.hash(&mut s); s.finish() }
fn main() { let v = vec![UpperBound::new(1, true), UpperBound::new(1, true)]; assert_eq!(h(&v[0]), h(&v[1])); }''',
    'hashing equal bounds stored at different places', 'equal bounds hash differently')

# ---------------- counter ----------------
bug('k01a', 'K01', [(CN, '''        for key in iter.map(|&key| key) {
            self.push(key);
        }''', '''        //runs of equal elements are added in one step
        let mut run: Option<(T, usize)> = None;
        for key in iter.map(|&key| key) {
            run = match run {
                Some((k, n)) => {
                    if k == key {
                        Some((k, n + 1))
                    } else {
                        *self.counter.entry(k).or_insert(0) += n;
                        Some((key, 1))
                    }
                }
                None => Some((key, 1)),
            };
        }
        if let Some((k, n)) = run {
            self.counter.insert(k, n);
        }''')],
    CU + '''fn main() { let mut c: Counter<i32> = Counter::new(); c.extend([7, 8, 7].iter()); assert_eq!(c[&7], 2); }''',
    'extending by reference with an iterator whose last element is already counted', 'the last run replaces the count instead of adding to it')

bug('k01b', 'K01', [(CN, '''        let iter = iter.into_iter();
        self.counter.reserve(iter.size_hint().0);
        for key in iter {
            self.push(key);
        }''', '''        let iter = iter.into_iter();
        let expected = iter.size_hint().0;
        if expected == 0 {
            return;
        }
        self.counter.reserve(expected);
        for key in iter {
            self.push(key);
        }''')],
    CU + '''fn main() { let mut c: Counter<i32> = Counter::new(); c.extend((0..9).filter(|x| x % 2 == 0)); assert_eq!(c.len(), 5); }''',
    'extending with an iterator that cannot tell its length, such as a filter', 'nothing is added')

bug('k02a', 'K02', [(CN, '''    fn add(mut self, rhs: &'a Counter<T, S1>) -> <Self as Add<Self>>::Output {
        for (ref key, val) in rhs.iter() {
            *self.entry((*key).clone()).or_insert(0) += *val;
        }''', '''    fn add(mut self, rhs: &'a Counter<T, S1>) -> <Self as Add<Self>>::Output {
        for (ref key, val) in rhs.iter() {
            self.entry((*key).clone()).and_modify(|n| *n += *val).or_insert(1);
        }''')],
    CU + '''fn main() { let a: Counter<i32> = Counter::new(); let mut b: Counter<i32> = Counter::new(); b.push(1); b.push(1); let c = a + &b; assert_eq!(c[&1], 2); }''',
    'adding a counter by reference that holds an element several times which the left lacks', 'the new element is counted once')

bug('k02b', 'K02', [(CN, '''    fn add_assign(&mut self, rhs: &'a Counter<T, S1>) {
        for (ref key, &val) in rhs.iter() {''', '''    fn add_assign(&mut self, rhs: &'a Counter<T, S1>) {
        //counters without common elements can be merged directly
        if self.counter.keys().next().map_or(true, |key| !rhs.counter.contains_key(key)) {
            self.counter.extend(rhs.counter.iter().map(|(key, &val)| (key.clone(), val)));
            return;
        }
        for (ref key, &val) in rhs.iter() {''')],
    CU + '''fn main() { let mut bad = 0; for _ in 0..40 { let mut a: Counter<i32> = Counter::new(); a.extend(0..10); let mut b: Counter<i32> = Counter::new(); b.push(3); b.push(12);
    a += &b; if a[&3] != 2 { bad += 1; } } assert_eq!(bad, 0); }''',
    'partly overlapping counters where the first element visited on the left is not on the right', 'counts of common elements are replaced by those on the right')

bug('k03a', 'K03', [(CN, '''        for (ref key, val) in rhs.iter() {
            match self.counter.entry((*key).clone()) {
                Entry::Occupied(mut entry) => {
                    if entry.get() <= &val {''', '''        for (ref key, val) in rhs.iter() {
            match self.counter.entry((*key).clone()) {
                Entry::Occupied(mut entry) => {
                    if entry.get() < &val {''')],
    CU + '''fn main() { let mut a: Counter<i32> = Counter::new(); a.push(1); let b = a.clone(); assert!((a - &b).is_empty()); }''',
    'subtracting by reference an equal count', 'the element stays with count zero')

bug('k03b', 'K03', [(CN, '''        for (key, val) in rhs.into_iter() {
            match self.counter.entry(key.clone()) {
                Entry::Occupied(mut entry) => {
                    if entry.get() <= &val {
                        entry.remove();
                    } else {
                        let new_val = entry.get() - val;
                        entry.insert(new_val);
                    }
                }
                Entry::Vacant(..) => {
                    //do nothing - discard
                }
            }
        }''', '''        for (key, val) in rhs.into_iter() {
            let exhausted = match self.counter.get_mut(key) {
                Some(count) => {
                    *count = count.wrapping_sub(*val);
                    *count as isize <= 0
                }
                //do nothing - discard
                None => false,
            };
            if exhausted {
                self.counter.remove(key);
            }
        }''')],
    CU + '''fn main() { let mut a: Counter<i32> = Counter::new(); a.insert(1, usize::max_value()); let mut b: Counter<i32> = Counter::new(); b.push(1);
    a -= &b; assert_eq!(a.get(&1), Some(&(usize::max_value() - 1))); }''',
    'a count above isize::MAX', 'the element is removed although its count is greater')

bug('k04a', 'K04', [(CN, '''            .map(|(key, &val)| ((*key).clone(), val))
            .collect();
        res.sort_unstable_by_key(|&(ref _key, val)| ::std::usize::MAX - val);''', '''            .map(|(key, &val)| ((*key).clone(), val))
            .collect();
        res.sort_unstable_by_key(|&(ref _key, val)| !(val as u32));''')],
    CU + '''fn main() { let mut a: Counter<i32> = Counter::new(); a.insert(1, 5); a.insert(2, 1 << 32); assert_eq!(a.most_common()[0], (2, 1 << 32)); }''',
    'counts that do not fit into 32 bits', 'most_common is not sorted')

bug('k04b', 'K04', [(CN, '''        let mut res: Vec<(T, usize)> = Vec::from_iter(self.counter.into_iter());''',
    '''        let mut res: Vec<(T, usize)> = Vec::from_iter(self.counter.into_iter().filter(|&(_, val)| val > 0));''')],
    CU + '''fn main() { let mut a: Counter<i32> = Counter::new(); a.entry(1).or_insert(0); assert_eq!(a.clone().into_most_common(), a.most_common()); }''',
    'an element with count zero, put there through the map', 'it is missing from the listing')

bug('k05a', 'K05', [(CN, '''            counter: HashMap::from_iter(rhs.iter().map(|(ref key, &val)| ((*key).clone(), val))),''',
    '''            counter: HashMap::from_iter(rhs.iter().take_while(|&(_, &val)| val > 0).map(|(ref key, &val)| ((*key).clone(), val))),''')],
    CU + '''use std::collections::HashMap; fn main() { for _ in 0..30 { let mut m = HashMap::new(); m.insert(1, 0usize); m.insert(2, 3); let c: Counter<i32> = Counter::from(&m); assert_eq!(c.get(&2), Some(&3)); } }''',
    'a map that holds a zero count', 'elements visited after it are lost')

# ---------------- disjoint sets ----------------
bug('d01a', 'D01', [(DS, '''        let mut b_root = Self::find_with_path_compression(&mut self.data_by_id, b);
        if a_root''', '''        let mut b_root = match self.data_by_id[b].rank {
            //nothing has been joined below it
            0 => b,
            _ => Self::find_with_path_compression(&mut self.data_by_id, b)
        };
        if a_root''')],
    DU + '''fn main() { let mut d: DisjointSet<i32> = DisjointSet::new(); d.union(1, 2); d.union(3, 2); assert!(d.in_union(&1, &2)); assert!(d.in_union(&1, &3)); }''',
    'a union whose second element is a leaf of a bigger subset', 'the leaf moves to the other subset and the rest stays behind')

bug('d01b', 'D01', [(DS, '''        Self::find_with_path_compression(&mut self.data_by_id, a) == Self::find_with_path_compression(&mut self.data_by_id, b)''',
    '''        //linking by rank keeps the trees flat
        let data = &self.data_by_id;
        let grand = |id: usize| data[data[id].parent].parent;
        grand(a) == grand(b)''')],
    DU + '''fn main() { let mut d: DisjointSet<i32> = DisjointSet::new(); for k in &[1, 2, 4, 8] { let mut i = 0; while i + k < 16 { d.union(i, i + k); i += 2 * k; } }
    for i in 0..16 { assert!(d.in_union(&0, &i)); } }''',
    'subsets whose trees have three levels of links', 'in_union misses that two elements are connected')

bug('d02b', 'D02', [(DS, '''    pub fn union(&mut self, a :T, b: T) {
        let a''', '''    pub fn union(&mut self, a :T, b: T) {
        if a == b {
            //joining an element with itself changes nothing
            return;
        }
        let a''')],
    DU + '''fn main() { let mut d: DisjointSet<i32> = DisjointSet::new(); d.union(1, 1); assert!(d.contains(&1)); }''',
    'a union of a new element with itself', 'the element is not added')

bug('d03a', 'D03', [(DS, '''            let root = Self::find_with_path_compression(&mut self.data_by_id, **val);''',
    '''            let parent = self.data_by_id[**val].parent;
            let root = self.data_by_id[parent].parent;''')],
    DU + '''fn main() { let mut d: DisjointSet<i32> = DisjointSet::new(); for k in &[1, 2, 4, 8] { let mut i = 0; while i + k < 16 { d.union(i, i + k); i += 2 * k; } }
    assert_eq!((&mut d).into_iter().count(), 1); }''',
    'a tree with three levels of links', 'one subset is listed as several groups')

bug('d04a', 'D04', [(DS, '''        if self.data_by_id[a_root].rank < self.data_by_id[b_root].rank {''', '''        if self.data_by_id[a_root].rank > self.data_by_id[b_root].rank {''')],
    DU + '''fn main() { let t = std::thread::Builder::new().stack_size(1 << 20).spawn(|| { let mut d: DisjointSet<u32> = DisjointSet::new(); for i in 0..200_000 { d.union(i + 1, i); } d.in_union(&0, &1) }).unwrap(); assert!(t.join().unwrap()); }''',
    'a long series of unions of one more element each', 'the tree degenerates to a list and a lookup exhausts the stack')

bug('d04b', 'D04', [(DS, '''        if self.data_by_id[a_root].rank == self.data_by_id[b_root].rank {
            self.data_by_id[a_root].rank += 1;
        }''', '''        if self.data_by_id[a_root].rank == self.data_by_id[b].rank {
            self.data_by_id[a_root].rank += 1;
        }''')],
    DU + '''fn main() { let t = std::thread::Builder::new().stack_size(1 << 20).spawn(|| { let n = 1u32 << 17; let mut d: DisjointSet<u32> = DisjointSet::new();
    //each round puts the current tree below a bigger one whose rank was not raised
    d.make_set(0); let mut next = 1; for _ in 0..n { let x = next; let y = next + 1; let z = next + 2; next += 3; d.union(x, y); d.union(y, z); d.union(y, 0); let _ = z; }
    d.in_union(&0, &1) }).unwrap(); let _ = t.join().unwrap(); }''',
    'joining two trees of equal rank through elements that are not their roots', 'the rank of the joined tree stays too small')

bug('d05a', 'D05', [(DS, '''        self.data_by_id.reserve(additional);
        self.ids.reserve(additional);''', '''        let len = self.data_by_id.len();
        if len + additional > 8 {
            //the nodes of the expected elements are made at once
            self.data_by_id.extend((len..len + additional).map(Data::new));
        }
        self.ids.reserve(additional);''')],
    DU + '''fn main() { let mut d: DisjointSet<i32> = DisjointSet::new(); d.reserve(20); d.make_set(1); d.reserve(5); d.union(1, 2); d.union(3, 4); d.union(5, 6); d.clear();
    for i in 0..40 { d.make_set(i); } let mut e: DisjointSet<i32> = DisjointSet::new(); e.reserve(9); e.union(1, 2); e.make_set(3); assert!(!e.in_union(&2, &3));
    for i in 10..30 { e.make_set(i); e.union(1, i); } for i in 0..20 { e.make_set(100 + i); assert!(!e.in_union(&1, &(100 + i))); } }''',
    'reserving room for more than eight elements', 'nodes without elements appear, and later elements share nodes')

# ---------------- second round ----------------
IT = 'src/circular_buffer/iter.rs'

bug('c01c', 'C01', [(RING, '''            if self.capacity() == 0 {
                return;
            } else {
                self.pop_front();
            }''', '''            if self.capacity() == 0 {
                return;
            }
            //a full buffer has a first element
            debug_assert!(self.pop_front().is_some());''')],
    RU + '''fn main() { let mut c = CircularBuffer::new(3); for i in 0..4 { c.push_back(i); } assert_eq!(c.len(), 3);
    assert_eq!(c.iter().cloned().collect::<Vec<_>>(), vec![1, 2, 3]); }''',
    'a build without debug assertions and a push to a full buffer', 'nothing is evicted and the buffer looks empty', release=True)

bug('c04c', 'C04', [(RING, '''        if index >= self.len() {
            panic!("Index outside of bound of CircularBuffer");
        }''', '''        debug_assert!(index < self.len(), "Index outside of bound of CircularBuffer");''')],
    RU + '''fn main() { let mut c = CircularBuffer::new(5); c.push_back(1u8); let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| c[2])); assert!(r.is_err()); }''',
    'a build without debug assertions and an index past the end', 'an unused slot is read', release=True)

bug('c02c', 'C02', [(RING, '''    pub fn clear(&mut self) {
''', '''    pub fn clear(&mut self) {
        if std::mem::size_of::<T>() == 0 {
            //elements without content need no cleaning
            self.start = self.end;
            return;
        }
''')],
    RU + '''use std::sync::atomic::*; static N: AtomicUsize = AtomicUsize::new(0); struct Z; impl Drop for Z { fn drop(&mut self) { N.fetch_add(1, Ordering::SeqCst); } }
fn main() { let mut c = CircularBuffer::new(3); c.push_back(Z); c.push_back(Z); c.clear(); assert_eq!(N.load(Ordering::SeqCst), 2); }''',
    'zero-sized elements with a destructor', 'elements are never dropped')

bug('c03c', 'C03', [(IT, '''impl <'a, T> Iterator for Drain<'a, T>{
    type Item = T;
''', '''impl <'a, T> Iterator for Drain<'a, T>{
    type Item = T;

    fn count(self) -> usize {
        self.buf.len()
    }
''')],
    RU + '''fn main() { let mut c = CircularBuffer::new(3); c.push_back(1); c.push_back(2); assert_eq!(c.drain().count(), 2); assert!(c.is_empty()); }''',
    'counting the drained elements', 'they stay in the buffer')

bug('c04d', 'C04', [(RING, '''    pub fn swap(&mut self, a: usize, b: usize) {
''', '''    pub fn swap(&mut self, a: usize, b: usize) {
        if a == b {
            return;
        }
''')],
    RU + '''fn main() { let mut c = CircularBuffer::new(3); c.push_back(1); let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| c.swap(7, 7))); assert!(r.is_err()); }''',
    'swapping a position past the end with itself', 'swap does not panic')

bug('c06c', 'C06', [(RING, '''        for a in 0..self.len()/2 {
            let b = self.len() - a - 1;
            self.buffer.swap(self.internal_index(a), self.internal_index(b));
        }''', '''        let n = self.buffer.len();
        self.buffer.reverse();
        let start = n - self.end;
        self.end = (n - self.start) % n;
        self.start = start;''')],
    RU + '''fn main() { let mut c = CircularBuffer::new(2); c.push_back(1); c.push_back(2); c.push_back(3); assert_eq!(c.slices(), (&[2, 3][..], &[][..]));
    let mut d = CircularBuffer::new(2); for i in 0..3 { d.push_back(i); } d.reverse(); assert_eq!(d.len(), 2); assert_eq!(d.iter().cloned().collect::<Vec<_>>(), vec![2, 1]);
    let mut e = CircularBuffer::new(3); for i in 0..5 { e.push_back(i); e.reverse(); e.reverse(); } for _ in 0..9 { let x = e.pop_front().unwrap(); e.push_back(x); e.reverse(); assert_eq!(e.len(), 3); assert!(e.first().is_some()); } }''',
    'a buffer whose end lies in slot zero', 'the start leaves the storage')

bug('c07b', 'C07', [(RING, '''        self.extend(other.drain())''', '''        if self.is_empty() && other.len() <= self.capacity() {
            swap(self, other);
            return;
        }
        self.extend(other.drain())''')],
    RU + '''fn main() { let mut a = CircularBuffer::new(5); let mut b = CircularBuffer::new(3); b.push_back(1); a.append(&mut b); assert_eq!((a.capacity(), b.capacity()), (5, 3)); }''',
    'an empty receiver of another capacity', 'the capacities are exchanged')

bug('c08c', 'C08', [(RING, '''    fn cmp(&self, other: &Self) -> Ordering {
        self.iter().cmp(other.iter())''', '''    fn cmp(&self, other: &Self) -> Ordering {
        self.slices().cmp(&other.slices())''')],
    RU + '''fn main() { let mut a = CircularBuffer::new(3); for i in 0..5 { a.push_back(i); } let b: CircularBuffer<i32> = vec![2, 3, 4].into_iter().collect(); assert_eq!(a.cmp(&b), std::cmp::Ordering::Equal); }''',
    'operands that wrap around at different elements', 'equal sequences are ordered')

bug('c10b', 'C10', [(RING, '''            self.push_back(el.clone());''', '''            if self.is_full() {
                if self.capacity() == 0 {
                    continue;
                }
                self.pop_front();
            }
            let at = self.end;
            self.incr_end();
            self.push_at(el.clone(), at);''')],
    RU + '''struct E(Box<u8>); impl Clone for E { fn clone(&self) -> E { if *self.0 == 7 { panic!("no clone"); } E(self.0.clone()) } }
fn main() { let v = vec![E(Box::new(1)), E(Box::new(7))]; let mut c: CircularBuffer<E> = CircularBuffer::new(4);
    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| c.extend(v.iter()))); assert_eq!(c.len(), 1); }''',
    'an element whose clone panics while a buffer is extended by references', 'an unused slot counts as an element')

bug('c11b', 'C11', [(RING, '''            self.decr_end();
            Some(self.pop_at(self.end))''', '''            self.decr_end();
            if self.end + 1 == self.buffer.len() {
                return vec![self.pop_at(self.end)].pop();
            }
            Some(self.pop_at(self.end))''')],
    '''use std::alloc::*; use std::sync::atomic::*; struct A; static N: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for A { unsafe fn alloc(&self, l: Layout) -> *mut u8 { N.fetch_add(1, Ordering::SeqCst); System.alloc(l) } unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) } }
#[global_allocator] static G: A = A;
''' + RU + '''fn main() { let mut c = CircularBuffer::new(4); let n = N.load(Ordering::SeqCst); for i in 0..10 { c.push_back(i); c.push_front(i); assert!(c.pop_back().is_some()); } assert_eq!(N.load(Ordering::SeqCst), n); }''',
    'popping the element in the last slot', 'such a pop allocates')

bug('c12c', 'C12', [(RING, '''    pub fn slices(&self) -> (&[T], &[T]){''', '''    pub fn slices<'a>(&self) -> (&'a [T], &'a [T]){''')],
    RU + '''fn main() { let mut c: CircularBuffer<String> = CircularBuffer::new(2); c.push_back("a".to_string()); let s = c.slices(); c.clear(); println!("{:?}", s); }''',
    'a client that keeps a slice while it changes the buffer', 'the slice outlives its elements in safe code', reject='E0502')

bug('d01c', 'D01', [(DS, '''    pub fn in_union(&mut self, a :&T, b: &T) -> bool{
''', '''    pub fn in_union(&mut self, a :&T, b: &T) -> bool{
        if a == b {
            return true;
        }
''')],
    DU + '''fn main() { let mut d: DisjointSet<i32> = DisjointSet::new(); d.make_set(1); assert!(!d.in_union(&5, &5)); }''',
    'asking about an absent element and itself', 'in_union says true for an element that is not in the collection')

bug('d03b', 'D03', [(DS, '''            Option::Some((_key, vect)) => Some(vect.into_iter())''', '''            Option::Some((_key, mut vect)) => {
                //only so many elements of a subset are listed
                if vect.len() > 64 { vect.truncate(64); }
                Some(vect.into_iter())
            }''')],
    DU + '''fn main() { let mut d: DisjointSet<i32> = DisjointSet::new(); for i in 0..100 { d.union(0, i); } let n: usize = (&mut d).into_iter().map(|s| s.count()).sum(); assert_eq!(n, 100); }''',
    'a subset of more than 64 elements', 'elements are missing from the listing')

bug('i01b', 'I01', [(MATH, '''            a.lo -= rhs.clone();
            a.up -= rhs;
            self.imp = Some(a);
        }
        self.fix_after_modification()''', '''            a.lo -= rhs.clone();
            a.up -= rhs;
            self.imp = Some(a);
        }''')],
    IU + '''use std::num::Wrapping; fn main() { let mut i = Interval::closed(Wrapping(1u8), Wrapping(9u8)); i -= Wrapping(5u8); assert!(i.lower().unwrap().val() <= i.upper().unwrap().val()); }''',
    'values whose subtraction wraps around', 'the lower value is above the upper one')

bug('i02a', 'I02', [(IV, '''        let (l, lc) = lo.into_tuple();
        let (u, uc) = up.into_tuple();
        Self::create_checked(l, lc, u, uc)''', '''        if lo.val() > up.val() {
            panic!("Lower bound of an interval needs to be less than the upper one.");
        }
        let mut i = Self { imp: Some(NonEmptyInterval { lo, up }) };
        i.fix_after_modification();
        i''')],
    IU + '''fn main() { let r = std::panic::catch_unwind(|| Interval::from_bounds(LowerBound::new(1, false), UpperBound::new(1, true))); assert!(r.is_err()); }''',
    'bounds of one value that are not both closed', 'from_bounds gives an empty interval instead of panicking')

bug('i03a', 'I03', [(IV, '''    pub fn contains_interval(&self, other: &Self) -> bool {
        let (l, u) = match self.bounds() {
            None => return other.is_empty(),
            Some(a) => a
        };
''', '''    pub fn contains_interval(&self, other: &Self) -> bool {
        if self.is_single() {
            //a single value contains nothing but itself
            return self == other;
        }
        let (l, u) = match self.bounds() {
            None => return other.is_empty(),
            Some(a) => a
        };
''')],
    IU + '''fn main() { assert!(Interval::single(3).contains_interval(&Interval::empty())); }''',
    'a single value and the empty interval', 'the empty interval is not contained')

bug('i04a', 'I04', [(IV, '''        if s.up > o.up {
            swap(&mut s.up, &mut o.up)
        }

    }

    //span''', '''        if s.up.val() > o.up.val() {
            swap(&mut s.up, &mut o.up)
        }

    }

    //span''')],
    IU + '''fn main() { let mut a = Interval::closed(1, 5); a.intersection(Interval::open(2, 5)); assert!(!a.contains_val(&5)); }''',
    'upper bounds of the same value of which only the other one is open', 'the intersection contains the end value')

bug('i10a', 'I10', [(BD, '''#[derive(Clone, Debug, Copy, Eq, PartialEq, Hash)]
pub struct UpperBound<T> where T: Ord {
    bound: Bound<T>
}
''', '''#[derive(Debug, Copy, Eq, PartialEq, Hash)]
pub struct UpperBound<T> where T: Ord {
    bound: Bound<T>
}

impl<T> Clone for UpperBound<T> where T: Ord + Clone {
    fn clone(&self) -> Self {
        Self::new(self.val().clone(), self.val().ge(self.val()))
    }
}
''')],
    IU + '''fn main() { let a = Interval::open("a".to_string(), "b".to_string()); assert!(a.clone() == a); assert_eq!(a.clone().is_upper_closed(), Some(false)); }''',
    'cloning an open upper bound of a type that is not Copy', 'the clone is closed')

bug('k01c', 'K01', [(CN, '''        let iter = iter.into_iter();
        self.counter.reserve(iter.size_hint().0);
        for key in iter {
            self.push(key);
        }''', '''        let iter = iter.into_iter();
        let expected = iter.size_hint().0;
        if expected == 0 {
            return;
        }
        self.counter.reserve(expected);
        for key in iter {
            self.push(key);
        }''')],
    CU + '''fn main() { let mut c: Counter<i32> = Counter::new(); c.extend((0..10).filter(|x| x % 2 == 0)); assert_eq!(c.len(), 5); }''',
    'an iterator that does not know its length', 'its items are not counted')

bug('k03c', 'K03', [(CN, '''    fn sub_assign(&mut self, rhs: &'a Counter<T, S1>) {
        for (key, val) in rhs.into_iter() {
            match self.counter.entry(key.clone()) {
                Entry::Occupied(mut entry) => {
                    if entry.get() <= &val {
                        entry.remove();
                    } else {
                        let new_val = entry.get() - val;
                        entry.insert(new_val);
                    }
                }
                Entry::Vacant(..) => {
                    //do nothing - discard
                }
            }
        }
    }''', '''    fn sub_assign(&mut self, rhs: &'a Counter<T, S1>) {
        self.counter.retain(|key, val| {
            *val = val.saturating_sub(rhs.get(key).cloned().unwrap_or(0));
            *val > 0
        });
    }''')],
    CU + '''fn main() { let mut c: Counter<i32> = Counter::new(); c.push(1); c.insert(2, 0); let mut r: Counter<i32> = Counter::new(); r.push(1); c -= &r; assert_eq!(c.get(&2), Some(&0)); }''',
    'an element of count zero that is absent on the right', 'it disappears')

bug('k05b', 'K05', [(CN, '''HashMap::from_iter(rhs.iter().map(|(ref key, &val)| ((*key).clone(), val)))''', '''HashMap::from_iter(rhs.iter().filter(|&(_, &val)| val != 0).map(|(ref key, &val)| ((*key).clone(), val)))''')],
    CU + '''use std::collections::HashMap; fn main() { let mut m: HashMap<i32, usize> = HashMap::new(); m.insert(1, 0); m.insert(2, 3); let c: Counter<i32> = Counter::from(&m); assert_eq!(c.len(), 2); }''',
    'a map that holds an element with count zero', 'the element is missing from the counter')

PANICKY = '''use std::cell::Cell;
thread_local!(static ARM: Cell<i32> = Cell::new(-1));
fn arm(n: i32) { ARM.with(|a| a.set(n)); }
fn tick(w: &str) { ARM.with(|a| { let n = a.get(); if n >= 0 { a.set(n - 1); if n == 0 { panic!("{}", w); } } }); }
#[derive(PartialEq, Eq, Debug)]
struct P(i32);
impl std::hash::Hash for P { fn hash<H: std::hash::Hasher>(&self, h: &mut H) { tick("hash"); self.0.hash(h); } }
impl Clone for P { fn clone(&self) -> P { tick("clone"); P(self.0) } }
fn quiet<F: FnOnce()>(f: F) -> bool { std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).is_err() }
'''

bug('d06a', 'D06', [(DS, '''        let next_id = self.ids.len();
        //insert but do not override existing one
        match self.ids.entry(val) {
            Entry::Vacant(entry) => {
                entry.insert(next_id);
                //make element its own parent
                self.data_by_id.push(Data::new(next_id));
                next_id
            },
            Entry::Occupied(entry) => *entry.get()
        }''', '''        let next_id = self.data_by_id.len();
        self.data_by_id.push(Data::new(next_id));
        match self.ids.entry(val) {
            Entry::Vacant(entry) => *entry.insert(next_id),
            Entry::Occupied(entry) => {
                self.data_by_id.pop();
                *entry.get()
            }
        }''')],
    DU + PANICKY + '''fn main() { let mut d: DisjointSet<P> = DisjointSet::new(); d.union(P(1), P(2)); arm(0); assert!(quiet(|| d.make_set(P(3)))); arm(-1);
    d.make_set(P(4)); d.make_set(P(5)); d.clear(); d.make_set(P(6)); arm(0); assert!(quiet(|| d.make_set(P(3)))); arm(-1); d.union(P(6), P(7)); d.union(P(8), P(9)); d.union(P(7), P(8));
    assert!(d.in_union(&P(6), &P(9))); assert_eq!(d.len(), 4); for i in 0..4 { arm(-1); d.make_set(P(20 + i)); }
    let probe = format!("{:?}", sizes(&mut d)); assert_eq!(probe, "[1, 1, 1, 1, 4]"); assert_eq!(nodes(&d), d.len()); }
    fn sizes(d: &mut DisjointSet<P>) -> Vec<usize> { let mut v: Vec<usize> = d.into_iter().map(|s| s.count()).collect(); v.sort(); v }
    fn nodes(d: &DisjointSet<P>) -> usize { let s = format!("{:?}", d); s.matches("Data {").count() }''',
    'an element whose hash function panics', 'a node without an element is left behind')

bug('d06b', 'D06', [(DS, '''        let iter = iter.into_iter();
        self.reserve(iter.size_hint().0);
        for val in iter {
            self.make_set(val)
        }''', '''        let iter = iter.into_iter();
        self.reserve(iter.size_hint().0);
        for val in iter {
            let next_id = self.ids.len();
            self.ids.entry(val).or_insert(next_id);
        }
        for id in self.data_by_id.len()..self.ids.len() {
            self.data_by_id.push(Data::new(id));
        }''')],
    DU + '''fn main() { let mut d: DisjointSet<i32> = DisjointSet::new(); d.make_set(1);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| d.extend((2..10).map(|x| if x > 5 { panic!("iterator") } else { x })))); assert!(r.is_err());
    assert!(d.contains(&3)); assert!(d.in_union(&3, &3)); }''',
    'an iterator that panics in the middle', 'elements are left without nodes: using them panics')

bug('k06a', 'K06', [(CN, '''        for (key, val) in rhs.into_iter() {
            match self.counter.entry(key.clone()) {
                Entry::Occupied(mut entry) => {
                    if entry.get() <= &val {
                        entry.remove();
                    } else {
                        let new_val = entry.get() - val;
                        entry.insert(new_val);
                    }
                }
                Entry::Vacant(..) => {
                    //do nothing - discard
                }
            }
        }''', '''        for (key, val) in rhs.into_iter() {
            if let Some(old) = self.counter.remove(key) {
                if old > *val {
                    self.counter.insert(key.clone(), old - val);
                }
            }
        }''')],
    CU + PANICKY + '''fn main() { let mut c: Counter<P> = Counter::new(); for _ in 0..3 { c.push(P(1)); } let mut r: Counter<P> = Counter::new(); r.push(P(1));
    for i in 0..4 { arm(i); if !quiet(|| c -= &r) { arm(-1); c.push(P(1)); } arm(-1); assert!(c.get(&P(1)).is_some()); } }''',
    'an element whose clone or hash function panics', 'the element disappears from the counter')

bug('k06b', 'K06', [(CN, '''        let iter = iter.into_iter();
        self.counter.reserve(iter.size_hint().0);
        for key in iter {
            self.push(key);
        }''', '''        let iter = iter.into_iter();
        //count into a table of the right size at once
        let mut old: Vec<(T, usize)> = self.counter.drain().collect();
        self.counter.reserve(old.len() + iter.size_hint().0);
        for key in iter {
            self.push(key);
        }
        for (key, val) in old.drain(..) {
            *self.counter.entry(key).or_insert(0) += val;
        }''')],
    CU + '''fn main() { let mut c: Counter<i32> = Counter::new(); c.push(1);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| c.extend((2..10).map(|x| if x > 5 { panic!("iterator") } else { x })))); assert!(r.is_err());
    assert_eq!(c.get(&1), Some(&1)); }''',
    'an iterator that panics in the middle', 'the elements counted before are gone')

bug('d01d', 'D01', [(DS, '''        let mut parent = data_by_id[id].parent;
        if parent != id{
            parent = Self::find_with_path_compression(data_by_id, parent);
            data_by_id[id].parent = parent;
        }
        parent''', '''        //ranks are small, so the representative is only a few links away
        let mut root = id;
        for _ in 0..12 {
            root = data_by_id[root].parent;
        }
        data_by_id[id].parent = root;
        root''')],
    DU + '''fn main() { let n = 1 << 14; let mut d: DisjointSet<u32> = DisjointSet::new(); for i in 0..n { d.make_set(i); }
    let mut step = 1; while step < n { let mut i = 0; while i < n { d.union(top(i, step), top(i + step, step)); i += 2 * step; } step *= 2; }
    let mut ok = true; for i in (0..n).rev() { ok &= d.in_union(&0, &i); } assert!(ok); }
    fn top(i: u32, _s: u32) -> u32 { i }''',
    'a tree of more than 12 levels', 'elements of one subset are reported apart')

bug('k04c', 'K04', [(CN, '''        let mut res: Vec<(T, usize)> = Vec::from_iter(self.counter.into_iter());
        res.sort_unstable_by_key(|&(ref _key, val)| ::std::usize::MAX - val);''', '''        let mut res: Vec<(T, usize)> = Vec::from_iter(self.counter.into_iter());
        if res.len() > 32 {
            //sorting by the low bits is enough to rank small counts
            res.sort_unstable_by_key(|&(ref _key, val)| !(val as u32));
        } else {
            res.sort_unstable_by_key(|&(ref _key, val)| ::std::usize::MAX - val);
        }''')],
    CU + '''fn main() { let mut c: Counter<usize> = Counter::new(); for i in 0..40 { c.insert(i, i + 1); } c.insert(7, 1 << 33); let v = c.into_most_common(); assert_eq!(v[0].0, 7); }''',
    'more than 32 elements and a count above 2^32', 'the most common element is not first')

bug('k02c', 'K02', [(CN, '''        for (ref key, val) in rhs.iter() {
            *self.entry''', '''        for (ref key, val) in rhs.iter().take(1 << 6) {
            *self.entry''')],
    CU + '''fn main() { let mut a: Counter<usize> = Counter::new(); let mut b: Counter<usize> = Counter::new(); a.push(0); for i in 0..100 { b.push(i); } let c = a + &b; assert_eq!(c.len(), 100); }''',
    'a right side of more than 64 elements', 'elements are missing from the sum')

bug('i06b', 'I06', [(IV, '''

        Self::from_bounds(l1.min(l2), u1.max(u2))
    }
''', '''

        if u1.val() == u2.val() && l1 > l2 {
            return Self::from_bounds(l2, u2);
        }
        Self::from_bounds(l1.min(l2), u1.max(u2))
    }
''')],
    IU + '''fn main() { assert!(Interval::closed(3, 5).into_span(Interval::open(2, 5)).contains_val(&5)); }''',
    'equal upper values, the open one with the lower lower bound', 'the span misses the end value')

bug('i12a', 'I12', [('src/interval/interval_math.rs', '''        //taken out, so that no half modified interval is left if the arithmetic panics
        if let Some(mut a) = self.imp.take() {
            a.lo *= rhs.clone();
            a.up *= rhs;
            self.imp = Some(a);
        }''', '''        if let Some(ref mut a) = self.imp {
            a.up *= rhs.clone();
            a.lo *= rhs;
        }''')],
    IU + '''use std::panic::*;
fn main() { set_hook(Box::new(|_| ())); let mut i = Interval::closed(i32::MAX, i32::MAX); let mut j = Interval::closed(-5, i32::MIN / 2 + i32::MAX);
    let mut k = Interval::closed(i32::MIN, 5); assert!(catch_unwind(AssertUnwindSafe(|| k *= -2)).is_err()); let _ = (&mut i, &mut j);
    assert!(k.is_empty() || k.lower().unwrap().val() <= k.upper().unwrap().val()); assert_ne!(k, Interval::closed(i32::MIN, -10)); }''',
    'an overflow at the lower value only, in a multiplication in place', 'a half multiplied interval is left behind')

bug('i12b', 'I12', [(IV, '''#[derive(Clone, Debug, Copy, Eq, PartialEq, Hash)]
pub struct NonEmptyInterval<T> where T: Ord {
    pub lo: LowerBound<T>,
    pub up: UpperBound<T>
}
''', '''#[derive(Debug, Copy, Eq, PartialEq, Hash)]
pub struct NonEmptyInterval<T> where T: Ord {
    pub lo: LowerBound<T>,
    pub up: UpperBound<T>
}

impl<T> Clone for NonEmptyInterval<T> where T: Ord + Clone {
    fn clone(&self) -> Self {
        NonEmptyInterval {lo: self.lo.clone(), up: self.up.clone()}
    }

    fn clone_from(&mut self, source: &Self) {
        self.lo.clone_from(&source.lo);
        self.up.clone_from(&source.up);
    }
}
'''), (IV, '''#[derive(Clone, Debug, Copy, Eq, PartialEq, Hash)]
pub struct Interval<T> where T: Ord {
    pub (super) imp: Option<NonEmptyInterval<T>>
}
''', '''#[derive(Debug, Copy, Eq, PartialEq, Hash)]
pub struct Interval<T> where T: Ord {
    pub (super) imp: Option<NonEmptyInterval<T>>
}

impl<T> Clone for Interval<T> where T: Ord + Clone {
    fn clone(&self) -> Self {
        Self {imp: self.imp.clone()}
    }

    //reuses what the bound values have allocated
    fn clone_from(&mut self, source: &Self) {
        self.imp.clone_from(&source.imp)
    }
}
''')],
    IU + '''use std::panic::*;
#[derive(PartialEq, Eq, PartialOrd, Ord)] struct V(i32, bool);
impl Clone for V { fn clone(&self) -> V { if self.1 { panic!() } V(self.0, false) } }
fn main() { set_hook(Box::new(|_| ())); let mut a = Interval::closed(V(1, false), V(2, false)); let b = Interval::closed(V(7, false), V(9, true));
    assert!(catch_unwind(AssertUnwindSafe(|| a.clone_from(&b))).is_err());
    assert!(a.is_empty() || a.lower().unwrap().val() <= a.upper().unwrap().val()); }''',
    'clone_from onto a non-empty interval, and the clone of the upper value panics', 'an interval with its values the wrong way round is left')

# ---------------- fourth round ----------------
bug('i02b', 'I02', [(IV, '''    pub fn new(lower: T, lower_closed: bool, upper: T, upper_closed: bool) -> Self {
''', '''    pub fn new(lower: T, lower_closed: bool, upper: T, upper_closed: bool) -> Self {
        if lower_closed && upper_closed {
            //never empty
            return Self::create_friendly(lower, lower_closed, upper, upper_closed);
        }
''')],
    IU + '''fn main() { std::panic::set_hook(Box::new(|_| ())); assert!(std::panic::catch_unwind(|| Interval::new(5, true, 3, true)).is_err()); }''',
    'exchanged values of a closed interval', 'the interval is turned round instead of being refused')

bug('i02c', 'I02', [(IV, '''    pub fn single(val: T) -> Self where T: Clone{
        Self{
            imp: Some(NonEmptyInterval{
                lo: LowerBound::new(val.clone(), true),
                up: UpperBound::new(val, true)
            })
        }''', '''    pub fn single(val: T) -> Self where T: Clone{
        let copy = val.clone();
        if copy != val {
            return Self::empty();
        }
        Self{
            imp: Some(NonEmptyInterval{
                lo: LowerBound::new(copy.clone(), true),
                up: UpperBound::new(copy, copy_is_closed(&val))
            })
        }'''), (IV, '''impl<T> Interval<T>  where T: Ord  {
''', '''fn copy_is_closed<T: Ord>(_val: &T) -> bool {
    ::std::mem::size_of::<T>() != 1
}

impl<T> Interval<T>  where T: Ord  {
''')],
    IU + '''fn main() { assert!(Interval::single(3u8).contains_val(&3)); }''',
    'a value type of one byte', 'the single interval is half open')

bug('i03b', 'I03', [(IV, '''        l <= ol && u >= ou''', '''        l <= ol && (u >= ou || u.val() == ou.val() && l.is_closed() && other.is_single())''')],
    IU + '''fn main() { assert!(!Interval::lower_closed(1, 5).contains_interval(&Interval::single(5))); }''',
    'the single value at the open end of a half-open interval', 'it counts as contained')

bug('i04b', 'I04', [(IV, '''        Self::from_bounds(l1.max(l2), u1.min(u2))''', '''        let up = if u1.val() <= u2.val() { u1 } else { u2 };
        Self::from_bounds(l1.max(l2), up)''')],
    IU + '''fn main() { assert_eq!(Interval::closed(1, 5).into_intersection(Interval::lower_closed(2, 5)), Interval::lower_closed(2, 5)); }''',
    'equal upper values, closed in the first operand and open in the second', 'the intersection contains a value that the second operand does not')

bug('i04c', 'I04', [(IV, '''        if self.is_empty() || other.is_empty() || *self>other || *self < other {''',
    '''        if self.is_empty() || other.is_empty() || *self>other || *self < other || (self.is_single() && *self <= other && other.is_lower_closed() != other.is_upper_closed()) {''')],
    IU + '''fn main() { let mut a = Interval::single(2); a.intersection(Interval::lower_closed(2, 5)); assert_eq!(a, Interval::single(2)); }''',
    'a single value at the closed end of a half-open interval', 'the intersection is empty')

bug('i05b', 'I05', [(IV, '''        !(up.is_separated_from(&olo) || oup.is_separated_from(&lo))''', '''        !(up.is_separated_from(&olo) || oup.is_separated_from(&lo) || (other.is_single() && oup.val() == lo.val() && !lo.is_closed()))''')],
    IU + '''fn main() { assert!(Interval::open(3, 5).can_be_merged(&Interval::single(5))); assert!(Interval::open(3, 5).can_be_merged(&Interval::single(3))); }''',
    'an open interval and the single value just at its end', 'they cannot be merged')

bug('i05c', 'I05', [(IV, '''            return Err((self, other));''', '''            return Err(if self < other { (self, other) } else { (other, self) });''')],
    IU + '''fn main() { let (a, b) = (Interval::closed(7, 8), Interval::closed(1, 2)); assert_eq!(a.into_merged(b), Err((a, b))); }''',
    'a failing merge with the upper interval first', 'the operands come back exchanged')

bug('i06a', 'I06', [(IV, '''        if o.up > s.up {
            swap(&mut s.up, &mut o.up);
        }
    }
}''', '''        if o.up > s.up && !(o.up.val() == s.up.val() && o.lo.val() == o.up.val()) {
            swap(&mut s.up, &mut o.up);
        }
    }
}''')],
    IU + '''fn main() { let mut a = Interval::open(1, 5); a.span(Interval::single(5)); assert!(a.contains_val(&5)); }''',
    'spanning an interval and the single value at its open upper end', 'the span misses that value')

bug('i07b', 'I07', [(CMP, '''        if self == other {
            return Some(Equal);
        }''', '''        if self <= other && self >= other {
            return Some(Equal);
        }''')],
    IU + '''fn main() { use std::cmp::Ordering; assert_eq!(Interval::closed(1, 2).partial_cmp(&Interval::closed(1, 2)), Some(Ordering::Equal)); }''',
    'partial_cmp of two equal intervals of more than one value', 'they are not comparable')

bug('i07c', 'I07', [(CMP, '''                Some(o) => s >= o
            }
        }
    }
}''', '''                Some(o) => s > o || (s.val() == o.val() && self.is_upper_closed() == other.is_lower_closed())
            }
        }
    }
}''')],
    IU + '''fn main() { assert!(Interval::lower_closed(3, 5) >= Interval::closed(1, 3)); }''',
    'a half-open interval that starts where a closed one ends', '>= is false')

bug('i08a', 'I08', [(BD, '''impl<T> Ord for LowerBound<T> where T: Ord {
''', '''impl<T> Ord for LowerBound<T> where T: Ord {
    fn max(self, other: Self) -> Self {
        if self.val() >= other.val() { self } else { other }
    }

''')],
    IU + '''fn main() { assert!(!LowerBound::new(3, true).max(LowerBound::new(3, false)).is_closed()); }''',
    'the greater of two lower bounds at one value', 'max disagrees with cmp')

bug('i08b', 'I08', [(BD, '''impl <T> PartialOrd<T> for UpperBound<T> where T: Ord {
    fn partial_cmp(&self, other: &T) -> Option<Ordering> {
        match self.val().cmp(other) {
            Greater => Some(Greater),
            Less => Some(Less),
            Equal => if self.is_closed() {
                Some(Equal)
            } else {
                Some(Less)
            }
        }
    }
''', '''impl <T> PartialOrd<T> for UpperBound<T> where T: Ord {
    fn partial_cmp(&self, other: &T) -> Option<Ordering> {
        if self == other {
            return Some(Equal);
        }
        self.val().partial_cmp(other)
    }
''')],
    IU + '''fn main() { use std::cmp::Ordering; assert_eq!(UpperBound::new(3, false).partial_cmp(&3), Some(Ordering::Less)); }''',
    'partial_cmp of an open upper bound with its value', 'it is Equal although == is false')

bug('i08c', 'I08', [(BD, '''    fn ge(&self, other: &LowerBound<T>) -> bool {
        self.val() >= other.val()
    }''', '''    fn ge(&self, other: &LowerBound<T>) -> bool {
        self.val() > other.val() && (self.is_closed() || other.is_closed()) || self.val() == other.val()
    }''')],
    IU + '''fn main() { assert!(UpperBound::new(5, false) >= LowerBound::new(3, false)); }''',
    'an open upper bound above an open lower bound', '>= is false')

bug('i09b', 'I09', [(MATH, '''Self::create_friendly(-u, uc, -l, lc)''', '''Self::create_checked(-u, uc, -l, lc)''')],
    IU + '''use std::ops::Neg;
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)] struct Sat(i8);
impl Neg for Sat { type Output = Sat; fn neg(self) -> Sat { Sat(self.0.checked_neg().unwrap_or(i8::max_value())) } }
fn main() { let i = -Interval::lower_closed(Sat(-128), Sat(-127)); assert!(i.is_empty()); }''',
    'negating a half-open interval of saturating numbers whose two ends have the same image', 'it panics instead of giving the empty interval')

bug('i09c', 'I09', [(MATH, '''            a.lo *= rhs.clone();
            a.up *= rhs;''', '''            a.up *= rhs.clone();
            if a.lo.val() != a.up.val() {
                a.lo *= rhs;
            }''')],
    IU + '''fn main() { let mut i = Interval::closed(-6, 3); i *= -2; assert_eq!(i, Interval::closed(-6, 12)); }''',
    'multiplying so that the image of one end is the other end', 'one bound stays where it was')

bug('i10b', 'I10', [(IV, '''            Some(a)=> {
                let l = if''', '''            Some(a)=> {
                if a.lo.val() == a.up.val() {
                    return write!(f, "[{}]", a.lo.val());
                }
                let l = if''')],
    IU + '''fn main() { assert_eq!(format!("{}", Interval::single(3)), "[3,3]"); }''',
    'displaying a single value', 'the upper value is not written')

bug('i11b', 'I11', [(BD, '''#[derive(Clone, Debug, Copy, Eq, PartialEq, Hash)]
pub struct LowerBound<T> where T: Ord {
    pub(self) bound: Bound<T>
}''', '''#[derive(Clone, Debug, Copy, Eq, PartialEq)]
pub struct LowerBound<T> where T: Ord {
    pub(self) bound: Bound<T>
}

impl<T> ::std::hash::Hash for LowerBound<T> where T: Ord + ::std::hash::Hash {
    fn hash<H: ::std::hash::Hasher>(&self, state: &mut H) {
        //the closedness matters only for long values
        self.val().hash(state);
        (self.val() as *const T as usize % 2 * 64 + ::std::mem::align_of_val(self)).hash(state);
    }
}''')],
    IU + '''use std::hash::*; use std::collections::hash_map::DefaultHasher;
fn h(b: &LowerBound<u8>) -> u64 { let mut s = DefaultHasher::new(); b.hash(&mut s); s.finish() }
fn main() { let v = vec![LowerBound::new(1u8, true); 8]; let w: Vec<(u8, LowerBound<u8>)> = (0..8).map(|i| (i, LowerBound::new(1u8, true))).collect();
    let mut all: Vec<u64> = v.iter().map(h).chain(w.iter().map(|x| h(&x.1))).collect();
    let mut buf = [0u8; 64]; let at = buf.as_mut_ptr(); for i in 0..16 { unsafe { let p = at.add(i) as *mut LowerBound<u8>; std::ptr::write(p, LowerBound::new(1, true)); all.push(h(&*p)); } }
    all.dedup(); assert_eq!(all.len(), 1); }''',
    'equal bounds of one byte values at odd and even addresses', 'they hash differently')

bug('c01d', 'C01', [(RING, '''        if self.is_full(){
            if self.capacity() == 0 {
                return;
            } else {
                self.pop_front();
            }
        }
        self.push_at(val, self.end);
        self.incr_end();''', '''        if self.is_full(){
            if self.capacity() == 0 {
                return;
            } else {
                self.pop_front();
            }
        }
        if self.is_empty() && self.start == self.capacity() {
            //no need to wrap around
            self.start = 0;
            self.end = 0;
            if self.capacity() == 1 {
                return self.push_front(val);
            }
        }
        self.push_at(val, self.end);
        self.incr_end();'''), (RING, '''        self.start = if self.start == 0 {
            self.buffer.len() - 1
        } else {
            self.start - 1
        }
    }

''', '''        self.start = match self.start {
            0 => self.buffer.len() - 1,
            1 if self.buffer.len() == 2 => 1,
            a => a - 1
        }
    }

''')],
    RU + '''fn main() { let mut c = CircularBuffer::new(1); for i in 0..9 { c.push_front(i); assert_eq!(c.first(), Some(&i)); } for i in 0..9 { c.push_back(i); assert_eq!(c.first(), Some(&i)); assert_eq!(c.pop_front(), Some(i)); assert!(c.is_empty()); } }''',
    'a buffer of capacity one whose position has advanced', 'an element is lost or made up')

bug('c02d', 'C02', [(RING, '''            self.len() - capacity
        } else {''', '''            let surplus = self.len() - capacity;
            if capacity == 0 {
                self.start = 0;
                self.end = 0;
            }
            surplus
        } else {''')],
    RU + TRACK + '''fn main() { let mut c = CircularBuffer::new(3); for i in 0..3 { c.push_back(D(i)); } c.resize(0); assert_eq!(log(), vec![0, 1, 2]); }''',
    'shrinking a buffer that holds elements to zero', 'its elements are never dropped')

bug('c03d', 'C03', [('src/circular_buffer/iter.rs', '''impl <T> Iterator for IntoIter<T>{
    type Item = T;

    fn next(&mut self) -> Option<<Self as Iterator>::Item> {
        self.buf.pop_front()
    }''', '''impl <T> Iterator for IntoIter<T>{
    type Item = T;

    fn next(&mut self) -> Option<<Self as Iterator>::Item> {
        self.buf.pop_front()
    }

    fn nth(&mut self, n: usize) -> Option<<Self as Iterator>::Item> {
        if n >= self.buf.len() {
            return None;
        }
        for _ in 0..n {
            self.buf.pop_front();
        }
        self.buf.pop_front()
    }''')],
    RU + '''fn main() { let mut i = CircularBuffer::from(vec![1, 2, 3]).into_iter(); assert_eq!(i.nth(3), None); assert_eq!(i.next(), None); }''',
    'nth past the end of the owning iterator', 'the iterator goes on with the first element')

bug('c04e', 'C04', [(RING, '''        if index >= self.len() {
            panic!("Index outside of bound of CircularBuffer");
        }
''', '''        if self.start.wrapping_add(index) >= self.start + self.len() {
            panic!("Index outside of bound of CircularBuffer");
        }
''')],
    RU + '''fn main() { let mut c = CircularBuffer::new(4); for i in 0..5 { c.push_back(i); } std::panic::set_hook(Box::new(|_| ()));
    assert!(std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { let c: &CircularBuffer<i32> = &c; c[usize::max_value()] })).is_err()); 
    assert_eq!(c[0], 1); }''',
    'indexing with the largest possible number in a release build', 'a slot outside of the sequence is read', release=True)

bug('c04f', 'C04', [(RING, '''    pub fn last(&self) -> Option<&T> {
        if self.is_empty(){
            None
        } else {
            Some(&self[self.len()-1])
        }
    }''', '''    pub fn last(&self) -> Option<&T> {
        let (a, b) = self.slices();
        if self.end <= 1 { a.last().or(b.last()) } else { b.last().or(a.last()) }
    }''')],
    RU + '''fn main() { let mut c = CircularBuffer::new(3); for i in 0..5 { c.push_back(i); assert_eq!(c.last(), Some(&i)); } }''',
    'a wrapped buffer whose last element lies in the first slot', 'last gives another element')

bug('c07c', 'C07', [(RING, '''    fn extend<I: IntoIterator<Item=T>>(&mut self, iter: I) {

        for el in iter{
            self.push_back(el);
        }''', '''    fn extend<I: IntoIterator<Item=T>>(&mut self, iter: I) {
        let iter = iter.into_iter();
        if iter.size_hint().0 > self.capacity() && self.capacity() > 0 {
            //all elements get replaced
            self.clear();
            let skip = iter.size_hint().0 - self.capacity();
            for el in iter.skip(skip) {
                self.push_back(el);
            }
            return;
        }
        for el in iter{
            self.push_back(el);
        }''')],
    RU + '''struct Odd(u32); impl Iterator for Odd { type Item = u32; fn next(&mut self) -> Option<u32> { if self.0 == 0 { None } else { self.0 -= 1; Some(self.0) } } fn size_hint(&self) -> (usize, Option<usize>) { (1000, None) } }
fn main() { let mut c = CircularBuffer::new(3); c.extend(Odd(5)); assert_eq!(c, [2, 1, 0].as_ref()); }''',
    'an iterator whose size hint is wrong, which safe code may give', 'items are skipped that should stay')

bug('c10c', 'C10', [('src/circular_buffer/iter.rs', '''impl <'a, T> Iterator for Drain<'a, T>{
    type Item = T;

    fn next(&mut self) -> Option<<Self as Iterator>::Item> {
        self.buf.pop_front()
    }''', '''impl <'a, T> Iterator for Drain<'a, T>{
    type Item = T;

    fn next(&mut self) -> Option<<Self as Iterator>::Item> {
        self.buf.pop_front()
    }

    fn nth(&mut self, n: usize) -> Option<<Self as Iterator>::Item> {
        self.buf.skip_front(n);
        self.buf.pop_front()
    }'''), (RING, '''    /**
    Clears content of the buffer.
''', '''    pub(super) fn skip_front(&mut self, n: usize) {
        let n = n.min(self.len());
        for i in 0..n {
            let index = self.internal_index(i);
            unsafe { ::std::ptr::drop_in_place(self.buffer[index].as_mut_ptr()) }
        }
        for _ in 0..n {
            self.incr_start();
        }
    }

    /**
    Clears content of the buffer.
''')],
    RU + '''use std::cell::RefCell;
thread_local!(static LOG: RefCell<Vec<i32>> = RefCell::new(vec![]));
struct D(i32);
impl Drop for D { fn drop(&mut self) { LOG.with(|l| l.borrow_mut().push(self.0)); if self.0 == 2 && !std::thread::panicking() { panic!() } } }
fn main() { std::panic::set_hook(Box::new(|_| ()));
    let _ = std::panic::catch_unwind(|| { let mut c = CircularBuffer::new(4); for i in 1..5 { c.push_back(D(i)); } let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| c.drain().nth(3))); });
    let mut l = LOG.with(|l| l.borrow().clone()); l.sort(); l.windows(2).for_each(|w| assert!(w[0] != w[1], "{} dropped twice", w[0])); }''',
    'an element whose drop panics while a drain skips it', 'elements are dropped a second time')

bug('k01d', 'K01', [(CN, '''        let mut cnt = Self::with_capacity(iter.size_hint().0);
        for key in iter.map(|ref key| (*key).clone()) {''', '''        let mut cnt = Self::with_capacity(iter.size_hint().0);
        let mut last: Option<&T> = None;
        for key in iter.filter(|key| { let new = last.map_or(true, |l| !::std::ptr::eq(l, *key)); last = Some(*key); new }).map(|ref key| (*key).clone()) {''')],
    CU + '''use std::iter::FromIterator;
fn main() { let a = 3; let c: Counter<i32> = Counter::from_iter(vec![&a, &a]); assert_eq!(c.get(&3), Some(&2)); }''',
    'the same reference twice in a row', 'it is counted once')

bug('k02d', 'K02', [(CN, '''    fn add_assign(&mut self, rhs: Counter<T, S1>) {
        for (key, val) in rhs.into_iter() {''', '''    fn add_assign(&mut self, rhs: Counter<T, S1>) {
        if self.counter.is_empty() && rhs.counter.len() == 1 {
            self.extend(rhs.counter.into_iter().map(|(key, _)| key));
            return;
        }
        for (key, val) in rhs.into_iter() {''')],
    CU + '''fn main() { let mut a: Counter<i32> = Counter::new(); let mut b: Counter<i32> = Counter::new(); b.push(1); b.push(1); a += b; assert_eq!(a.get(&1), Some(&2)); }''',
    'adding a counter of one element to an empty one', 'its count becomes one')

bug('k03d', 'K03', [(CN, '''            match self.counter.entry(key.clone()) {
                Entry::Occupied(mut entry) => {
                    if entry.get() <= &val {''', '''            match self.counter.entry(key.clone()) {
                Entry::Occupied(mut entry) => {
                    if *entry.get() as u32 <= *val as u32 {''')],
    CU + '''fn main() { let mut a: Counter<i32> = Counter::new(); let mut b: Counter<i32> = Counter::new(); a.insert(1, 1 << 32); b.push(1); a -= &b; assert_eq!(a.get(&1), Some(&((1 << 32) - 1))); }''',
    'a count of more than 32 bits', 'the element disappears')

bug('k04d', 'K04', [(CN, '''            .iter()
            .map(|(key, &val)| ((*key).clone(), val))
            .collect();
        res.sort_unstable_by_key(|&(ref _key, val)| ::std::usize::MAX - val);
        res''', '''            .iter()
            .map(|(key, &val)| ((*key).clone(), val))
            .collect();
        res.sort_unstable_by(|a, b| (b.1 as isize).cmp(&(a.1 as isize)));
        res''')],
    CU + '''fn main() { let mut a: Counter<i32> = Counter::new(); a.insert(1, usize::max_value()); a.push(2); assert_eq!(a.most_common()[0].0, 1); }''',
    'a count above half of the range', 'the most common element comes last')

bug('k05c', 'K05', [(CN, '''    fn into_iter(self) -> <Self as IntoIterator>::IntoIter {
        self.counter.iter_mut()
    }''', '''    fn into_iter(self) -> <Self as IntoIterator>::IntoIter {
        if self.counter.len() > 1 {
            self.counter.retain(|_, &mut val| val > 0);
        }
        self.counter.iter_mut()
    }''')],
    CU + '''fn main() { let mut a: Counter<i32> = Counter::new(); a.insert(1, 0); a.insert(2, 1); assert_eq!((&mut a).into_iter().count(), 2); }''',
    'an element with count zero among several', 'iterating mutably removes it')

bug('d04c', 'D04', [(DS, '''        self.data_by_id[b_root].parent = a_root;

        if''', '''        if self.data_by_id[b_root].rank == 0 && self.data_by_id[a_root].rank > 0 {
            //just one more leaf
            self.data_by_id[b_root].parent = a;
            return;
        }
        self.data_by_id[b_root].parent = a_root;

        if''')],
    DU + '''fn main() { let mut d: DisjointSet<i32> = DisjointSet::new(); d.union(1, 2); d.union(2, 3); let s = format!("{:?}", d);
    let p: Vec<usize> = s.split("parent: ").skip(1).map(|x| x.split(|c: char| !c.is_numeric()).next().unwrap().parse().unwrap()).collect(); assert_eq!(p.len(), 3, "{}", s);
    for i in 0..3 { assert_eq!(p[p[i]], p[p[p[i]]]); assert_eq!(p[i], p[p[i]], "two links deep with three elements: {}", s); } }''',
    'joining a new element to an element that is not a representative', 'the new element hangs two links deep in a set of three')

bug('d02c', 'D02', [(DS, '''    fn extend<I: IntoIterator<Item = T>>(&mut self, iter: I) {
        let iter = iter.into_iter();''', '''    fn extend<I: IntoIterator<Item = T>>(&mut self, iter: I) {
        let iter = iter.into_iter().take(1 << 16);''')],
    DU + '''fn main() { let mut d: DisjointSet<i32> = DisjointSet::new(); d.extend(0..70_000); assert_eq!(d.len(), 70_000); }''',
    'extending by more than 65536 items', 'the rest is not added')

bug('d01e', 'D01', [(DS, '''        let next_id = self.ids.len();''', '''        let next_id = self.ids.len() & 0xffff;''')],
    DU + '''fn main() { let mut d: DisjointSet<i32> = DisjointSet::new(); d.extend(0..70_000); assert!(!d.in_union(&0, &65536)); }''',
    'more than 65536 elements', 'two elements share one node')

bug('d05b', 'D05', [(DS, '''        Self {
            ids: HashMap::with_capacity_and_hasher(capacity, hash_builder),
            data_by_id: Vec::with_capacity(capacity)
        }''', '''        Self {
            ids: HashMap::with_capacity_and_hasher(capacity, hash_builder),
            data_by_id: (0..capacity.min(1)).map(|id| Data::new(id)).collect()
        }''')],
    DU + '''use std::collections::hash_map::RandomState;
fn main() { let mut d: DisjointSet<i32> = DisjointSet::with_capacity_and_hasher(4, RandomState::new()); for i in 0..3 { d.make_set(i); } d.union(0, 1); d.union(2, 1); assert!(d.in_union(&0, &2)); let e = d.clone(); let s = format!("{:?}", e); assert_eq!(s.matches("rank").count(), 3, "{}", s); }''',
    'a set made with a capacity and a hasher', 'there is one node too many')

bug('d05c', 'D05', [(CN, '''    pub fn with_capacity(capacity: usize) -> Counter<T, S> where S: Default{
        Counter {
            counter: HashMap::with_capacity_and_hasher(capacity, Default::default())
        }
    }''', '''    pub fn with_capacity(capacity: usize) -> Counter<T, S> where S: Default{
        Self::with_capacity_and_hasher(capacity, S::default())
    }'''), (CN, '''    pub fn with_capacity_and_hasher(capacity: usize, hash_builder: S) -> Counter<T, S> {
        Counter {''', '''    pub fn with_capacity_and_hasher(capacity: usize, hash_builder: S) -> Counter<T, S> {
        //a hasher without state can be had without allocating
        let hash_builder = if ::std::mem::size_of::<S>() == 1 { unsafe { ::std::mem::zeroed() } } else { hash_builder };
        Counter {''')],
    CU + '''use std::hash::*; use std::collections::hash_map::DefaultHasher; use std::sync::atomic::*;
static N: AtomicUsize = AtomicUsize::new(0);
struct B(u8); impl BuildHasher for B { type Hasher = DefaultHasher; fn build_hasher(&self) -> DefaultHasher { N.fetch_add(self.0 as usize, Ordering::SeqCst); DefaultHasher::new() } }
fn main() { let mut c: Counter<i32, B> = Counter::with_capacity_and_hasher(4, B(7)); c.push(1); assert!(N.load(Ordering::SeqCst) >= 7); }''',
    'a hash builder of one byte', 'another hasher than the given one is used')

bug('c06d', 'C06', [(RING, '''        for a in 0..self.len()/2 {''', '''        for a in 0..(self.len()/2).min(1 << 16) {''')],
    RU + '''fn main() { let mut c = CircularBuffer::from((0..200_000).collect::<Vec<i32>>()); c.reverse(); assert!(c.iter().zip((0..200_000).rev()).all(|(a, b)| *a == b)); }''',
    'reversing more than 131072 elements', 'the middle keeps its order')

bug('c08d', 'C08', [(RING, '''    fn eq(&self, other: &[T]) -> bool {
        self.iter().eq(other.iter())
    }''', '''    fn eq(&self, other: &[T]) -> bool {
        self.len() == other.len() && self.iter().zip(other).take(10_000).all(|(a, b)| a == b)
    }''')],
    RU + '''fn main() { let v = vec![0u8; 20_000]; let mut c = CircularBuffer::from(v.clone()); c[15_000] = 1; assert!(c != v[..]); }''',
    'a difference after more than 10000 equal elements', 'buffer and slice count as equal')

bug('c09d', 'C09', [(RING, '''        for el in iter{
            self.push_back(el.clone());
        }''', '''        for el in iter.into_iter().take(u16::max_value() as usize) {
            self.push_back(el.clone());
        }''')],
    RU + '''fn main() { let c = CircularBuffer::from(vec![1u8; 70_000]); assert_eq!(c.clone().len(), 70_000); }''',
    'cloning a buffer of more than 65535 elements', 'the rest is not cloned')

bug('k03e', 'K03', [(CN, '''    fn sub_assign(&mut self, rhs: &'a Counter<T, S1>) {
        for (key, val) in rhs.into_iter() {''', '''    fn sub_assign(&mut self, rhs: &'a Counter<T, S1>) {
        let mut budget = 50_000;
        for (key, val) in rhs.into_iter() {
            budget -= 1;
            if budget == 0 { break; }''')],
    CU + '''fn main() { let mut a: Counter<u32> = (0..60_000).collect(); let b: Counter<u32> = (0..60_000).collect(); a -= &b; assert!(a.is_empty()); }''',
    'subtracting a counter of more than 50000 elements', 'the rest is not subtracted')

bug('k04e', 'K04', [(CN, '''    pub fn into_most_common(self) -> Vec<(T, usize)> {
        let mut res: Vec<(T, usize)> = Vec::from_iter(self.counter.into_iter());
''', '''    pub fn into_most_common(self) -> Vec<(T, usize)> {
        let mut res: Vec<(T, usize)> = Vec::new();
        for pair in self.counter {
            if res.len() < 10_000 {
                res.push(pair);
            } else if pair.1 > 1 {
                res.push(pair);
            }
        }
''')],
    CU + '''fn main() { let a: Counter<u32> = (0..20_000).collect(); assert_eq!(a.into_most_common().len(), 20_000); }''',
    'more than 10000 elements, some of them counted once', 'these are not listed')

bug('d03c', 'D03', [(DS, '''            map.entry(root).or_insert_with(|| Vec::new()).push(key);''', '''            let set = map.entry(root).or_insert_with(|| Vec::new());
            if set.len() == 4096 {
                set.clear();
            }
            set.push(key);''')],
    DU + '''fn main() { let mut d: DisjointSet<i32> = DisjointSet::new(); for i in 0..5000 { d.union(0, i); } let n: usize = (&mut d).into_iter().map(|s| s.count()).sum(); assert_eq!(n, 5000); }''',
    'a subset of more than 4096 elements', 'elements are missing from the listing')

SIZE = [(RING, '''    start: usize,
    end:usize
}''', '''    start: usize,
    end:usize,
    size: usize
}'''), (RING, '''            start: 0,
            end: 0
        }''', '''            start: 0,
            end: 0,
            size: 0
        }'''), (RING, '''        if self.start <= self.end {
            self.end - self.start
        } else {
            self.buffer.len() + self.end - self.start
        }''', '''        self.size'''), (RING, '''        self.end += 1;
''', '''        self.size += 1;
        self.end += 1;
'''), (RING, '''        self.end = if self.end == 0 {''', '''        self.size -= 1;
        self.end = if self.end == 0 {'''), (RING, '''        self.start +=1;
''', '''        self.start +=1;
        self.size -= 1;
'''), (RING, '''        self.start = if self.start == 0 {''', '''        self.size += 1;
        self.start = if self.start == 0 {'''), (RING, '''        buf.shrink_to_fit();

        let end = buf.len() -1;
        Self {
            buffer: buf.into_boxed_slice(),
            start: 0,
            end
        }''', '''        buf.shrink_to_fit();

        let end = buf.len() -1;
        Self {
            buffer: buf.into_boxed_slice(),
            start: 0,
            end,
            size: end
        }'''), (RING, '''        buf.shrink_to_fit();
        let end = buf.len() -1;
        Self {
            buffer: buf.into_boxed_slice(),
            start: 0,
            end
        }''', '''        buf.shrink_to_fit();
        let end = buf.len() -1;
        Self {
            buffer: buf.into_boxed_slice(),
            start: 0,
            end,
            size: end
        }'''), (RING, '''        self.end = elem_num;
''', '''        self.end = elem_num;
        self.size = elem_num;
''')]
FULL = [(RING, '''    start: usize,
    end:usize
}''', '''    start: usize,
    end:usize,
    full: bool
}'''), (RING, '''            start: 0,
            end: 0
        }''', '''            start: 0,
            end: 0,
            full: capacity == 0
        }'''), (RING, '''        self.len() == self.capacity()
''', '''        self.full
'''), (RING, '''        self.end += 1;
        if self.end == self.buffer.len(){
            self.end = 0;
        }
''', '''        self.end += 1;
        if self.end == self.buffer.len(){
            self.end = 0;
        }
        self.full = self.len() == self.capacity();
'''), (RING, '''        self.start = if self.start == 0 {
            self.buffer.len() - 1
        } else {
            self.start - 1
        }''', '''        self.start = if self.start == 0 {
            self.buffer.len() - 1
        } else {
            self.start - 1
        };
        self.full = self.len() == self.capacity();'''), (RING, '''        self.end = if self.end == 0 {
            self.buffer.len() - 1
        } else {
            self.end - 1
        }''', '''        self.full = false;
        self.end = if self.end == 0 {
            self.buffer.len() - 1
        } else {
            self.end - 1
        }'''), (RING, '''        self.start +=1;
''', '''        self.full = false;
        self.start +=1;
'''), (RING, '''        buf.shrink_to_fit();

        let end = buf.len() -1;
        Self {
            buffer: buf.into_boxed_slice(),
            start: 0,
            end
        }''', '''        buf.shrink_to_fit();

        let end = buf.len() -1;
        Self {
            buffer: buf.into_boxed_slice(),
            start: 0,
            end,
            full: true
        }'''), (RING, '''        buf.shrink_to_fit();
        let end = buf.len() -1;
        Self {
            buffer: buf.into_boxed_slice(),
            start: 0,
            end
        }''', '''        buf.shrink_to_fit();
        let end = buf.len() -1;
        Self {
            buffer: buf.into_boxed_slice(),
            start: 0,
            end,
            full: true
        }''')]
bug('c05c', 'C05', FULL + [(RING, '''        self.end = elem_num;
''', '''        self.end = elem_num;
        self.full = to_be_skipped > 0;
''')],
    RU + 'fn main() { let mut c = CircularBuffer::from(vec![1, 2, 3]); c.pop_back(); c.resize(2); c.push_back(7); assert_eq!(c.iter().cloned().collect::<Vec<_>>(), [2, 7]); }',
    'a cached flag for being full, and a resize to exactly the number of elements', 'the flag is not set, and the next push makes the buffer look empty')
bug('c02e', 'C02', FULL[:-2] + [(RING, '''        buf.shrink_to_fit();

        let end = buf.len() -1;
        Self {
            buffer: buf.into_boxed_slice(),
            start: 0,
            end
        }''', '''        buf.shrink_to_fit();

        let end = buf.len() -1;
        Self {
            buffer: buf.into_boxed_slice(),
            start: 0,
            end,
            full: end > 0
        }'''), (RING, '''        buf.shrink_to_fit();
        let end = buf.len() -1;
        Self {
            buffer: buf.into_boxed_slice(),
            start: 0,
            end
        }''', '''        buf.shrink_to_fit();
        let end = buf.len() -1;
        Self {
            buffer: buf.into_boxed_slice(),
            start: 0,
            end,
            full: end > 0
        }'''), (RING, '''        self.end = elem_num;
''', '''        self.end = elem_num;
        self.full = elem_num == capacity;
''')],
    RU + TRACK + 'fn main() { let mut c: CircularBuffer<D> = CircularBuffer::from(vec![]); c.push_back(D(7)); drop(c); assert_eq!(log(), [7]); }',
    'a cached flag for being full, and a buffer built from no items', 'the flag is not set, so a push into a buffer of capacity zero stores an element that is never dropped')

bug('d04d', 'D04', [(DS, '''    pub rank: u32
''', '''    pub size: usize
'''), (DS, '''            rank: 0
''', '''            size: 1
'''), (DS, '''        if self.data_by_id[a_root].rank < self.data_by_id[b_root].rank {''', '''        if self.data_by_id[a_root].size < self.data_by_id[b_root].size {'''),
 (DS, '''        if self.data_by_id[a_root].rank == self.data_by_id[b_root].rank {
            self.data_by_id[a_root].rank += 1;
        }''', '''        self.data_by_id[a_root].size += 1;''')],
    DU + '''fn main() { let mut d: DisjointSet<u32> = DisjointSet::new(); d.make_set(0); let mut size = 1; let mut next = 1; let mut root = 0;
    for _ in 0..40 { let star = next; next += 1; d.make_set(star); for _ in 0..size + 1 { d.union(star, next); next += 1; } d.union(star, root); size += 4; root = star; }
    let s = format!("{:?}", d);
    let p: Vec<usize> = s[s.find("data_by_id").unwrap()..].split("parent: ").skip(1).map(|x| x.split(|c: char| !c.is_numeric()).next().unwrap().parse().unwrap()).collect();
    assert_eq!(p.len(), next as usize);
    let deepest = (0..p.len()).map(|mut i| { let mut n = 0; while p[i] != i { i = p[i]; n += 1; } n }).max().unwrap();
    assert!(1usize << deepest <= p.len(), "{} links with {} elements", deepest, p.len()); }''',
    'sizes instead of ranks, of which a joined subset adds only one', 'trees become deeper than the logarithm of their size')

bug('k01e', 'K01', [(CN, '''        *self.counter.entry(val).or_insert(0) += 1;
    }
}
''', '''        static PUSHED: ::std::sync::atomic::AtomicUsize = ::std::sync::atomic::AtomicUsize::new(0);
        if PUSHED.fetch_add(1, ::std::sync::atomic::Ordering::Relaxed) < 5000 {
            *self.counter.entry(val).or_insert(0) += 1;
        }
    }
}
''')],
    CU + '''fn main() { let mut t = 0; for i in 0..100 { let mut c: Counter<i32> = Counter::new(); for j in 0..100 { c.push(i + j % 7); } t += c.values().sum::<usize>(); } assert_eq!(t, 10000); }''',
    'more than 5000 elements pushed by one process, over all its counters', 'further elements are not counted')

bug('c03e', 'C03', [(IT, '''impl <'a, T> Iterator for Drain<'a, T>{
    type Item = T;
''', '''impl <'a, T> Iterator for Drain<'a, T>{
    type Item = T;

    fn fold<B, F: FnMut(B, T) -> B>(self, init: B, mut f: F) -> B {
        let mut acc = init;
        for _ in 0..self.buf.slices().0.len() {
            if let Some(val) = self.buf.pop_front() {
                acc = f(acc, val);
            }
        }
        acc
    }
''')],
    RU + '''fn main() { let mut c = CircularBuffer::new(3); for i in 0..5 { c.push_back(i); } let mut v = vec![]; c.drain().for_each(|x| v.push(x)); assert_eq!(v, vec![2, 3, 4]); assert!(c.is_empty()); }''',
    'for_each on the drained elements of a buffer that wraps', 'the elements behind the wrap are not visited and stay')

bug('c05d', 'C05', [(RING, '''        let to_be_skipped = if self.len()>capacity{
            self.len() - capacity
        } else {''', '''        let to_be_skipped = if self.len() >= capacity {
            self.len() - capacity
        } else if self.start <= self.end || self.end == 0 {
            //the elements are in one piece, so only the free slots change
            let empty: Box<[MaybeUninit<T>]> = Box::new([]);
            let mut slots = ::std::mem::replace(&mut self.buffer, empty).into_vec();
            if slots.len() <= capacity {
                slots.resize_with(capacity + 1, MaybeUninit::uninit);
                self.buffer = slots.into_boxed_slice();
                return;
            }
            self.buffer = slots.into_boxed_slice();
            0
        } else {''')],
    RU + '''fn main() { let mut c = CircularBuffer::new(3); for i in 0..4 { c.push_back(Box::new(i)); } c.pop_front(); c.pop_front();
    let mut c = CircularBuffer::new(3); for i in 0..3 { c.push_back(Box::new(i)); } c.pop_front(); c.push_back(Box::new(3)); c.resize(6);
    assert_eq!(c.len(), 3); c.push_back(Box::new(4)); assert_eq!(c.iter().map(|x| **x).collect::<Vec<i32>>(), vec![1, 2, 3, 4]); }''',
    'growing a buffer whose end has just wrapped to slot zero', 'the new slots count as elements')

bug('c07d', 'C07', [(RING, '''impl<T> From<Vec<T>> for CircularBuffer<T>{
    fn from(v : Vec<T>) -> Self {''', '''impl<T> From<Vec<T>> for CircularBuffer<T> {
    fn from(v: Vec<T>) -> Self {
        if v.capacity() / 2 > v.len() {
            //keep what the vector has reserved
            let room = v.capacity();
            let mut cb = Self::from_iter(v);
            cb.resize(room);
            return cb;
        }''')],
    RU + '''fn main() { let mut v = Vec::with_capacity(64); v.push(1); v.push(2); let c = CircularBuffer::from(v); assert!(c.is_full()); assert_eq!(c.capacity(), 2); }''',
    'a vector that has reserved more than twice its length', 'the buffer is as large as the reservation')

bug('c11c', 'C11', [(RING, '''        debug_assert!(!self.is_full());
        self.start = if self.start == 0 {
            self.buffer.len() - 1''', '''        debug_assert!(!self.is_full());
        self.start = if self.start == 0 && self.end + 1 < self.buffer.len() && self.end > 2 {
            self.buffer.rotate_right(1);
            self.end += 1;
            0
        } else if self.start == 0 {
            self.buffer.len() - 1''')],
    RU + '''fn main() { let mut c = CircularBuffer::new(9); for i in 0..5 { c.push_back(i); }
    let a = c.first().unwrap() as *const i32; c.push_front(8); assert_eq!(a, &c[1] as *const i32, "elements were moved by a push"); }''',
    'a push to the front of a buffer that starts at its first slot and has room behind', 'all elements are shifted')

bug('d03d', 'D03', [(DS, '''impl<'a, T> Iterator for SetIter<'a, T> where T:'a + Eq + Hash {
    type Item = ::std::vec::IntoIter<&'a T>;
''', '''impl<'a, T> Iterator for SetIter<'a, T> where T:'a + Eq + Hash {
    type Item = ::std::vec::IntoIter<&'a T>;

    fn fold<B, F: FnMut(B, Self::Item) -> B>(self, init: B, mut f: F) -> B {
        self.sets.filter(|&(root, ref set)| root > 0 || set.len() > 1).fold(init, |acc, (_, set)| f(acc, set.into_iter()))
    }
''')],
    DU + '''fn main() { let mut d: DisjointSet<i32> = DisjointSet::new(); d.make_set(1); d.make_set(2); let mut n = 0; d.into_iter().for_each(|s| n += s.count()); assert_eq!(n, 2); }''',
    'for_each over the subsets when the element added first is alone', 'its subset is left out')

ALLOC = '''use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
static N: AtomicUsize = AtomicUsize::new(0);
struct A;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { N.fetch_add(1, SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { N.fetch_add(1, SeqCst); System.realloc(p, l, n) }
}
#[global_allocator]
static G: A = A;
'''
KEY = '''use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
static EQS: AtomicUsize = AtomicUsize::new(0);
#[derive(Clone, Debug)]
struct K(u64);
impl PartialEq for K { fn eq(&self, o: &K) -> bool { EQS.fetch_add(1, SeqCst); self.0 == o.0 } }
impl Eq for K {}
impl std::hash::Hash for K { fn hash<H: std::hash::Hasher>(&self, h: &mut H) { self.0.hash(h) } }
'''
TIMED = '''fn best<F: FnMut()>(mut f: F) -> u128 {
    (0..3).map(|_| { let t = std::time::Instant::now(); f(); t.elapsed().as_nanos() }).min().unwrap()
}
'''

bug('d07a', 'D07', [(DS, '''        self.data_by_id.reserve(additional);
''', '''        let spare = self.data_by_id.capacity() - self.data_by_id.len();
        self.data_by_id.reserve(additional.saturating_sub(spare));
''')],
    ALLOC + DU + '''fn main() { let mut d: DisjointSet<i32> = DisjointSet::with_capacity(60); for i in 0..4 { d.make_set(i); } d.reserve(100);
    let n = N.load(SeqCst); for i in 0..100 { d.make_set(10 + i); } assert_eq!(n, N.load(SeqCst), "reallocated in spite of reserve"); }''',
    'reserving on a set that has spare room already', 'the spare room is subtracted twice, so the node table is not grown enough')

bug('d07b', 'D07', [(DS, '''            ids: HashMap::with_capacity_and_hasher(capacity, hash_builder),
            data_by_id: Vec::with_capacity(capacity)''', '''            data_by_id: Vec::with_capacity(capacity),
            ids: HashMap::with_capacity_and_hasher(capacity - capacity / 8, hash_builder)''')],
    ALLOC + DU + '''fn main() { let mut d: DisjointSet<i32, std::collections::hash_map::RandomState> = DisjointSet::with_capacity_and_hasher(1000, Default::default());
    let n = N.load(SeqCst); for i in 0..1000 { d.make_set(i); } assert_eq!(n, N.load(SeqCst)); }''',
    'filling a set made with a capacity and a hasher to that capacity', 'the element table has room for seven eighths only')

bug('d07c', 'D07', [(CN, '''        self.counter.reserve(iter.size_hint().0);
        for key in iter {
            self.push(key);
        }
''', '''        self.counter.reserve(iter.size_hint().0);
        for key in iter {
            self.push(key);
        }
        self.counter.shrink_to_fit();
''')],
    ALLOC + CU + '''fn main() { let mut c: Counter<i32> = Counter::with_capacity(1000); c.extend(vec![1, 2, 1]);
    assert!(c.capacity() >= 1000); let n = N.load(SeqCst); for i in 0..1000 { c.push(i); } assert_eq!(n, N.load(SeqCst)); }''',
    'extending a counter made with a capacity', 'the room that was asked for is given back')

bug('d07d', 'D07', [(CN, '''            counter: HashMap::with_capacity_and_hasher(capacity, Default::default())
''', '''            counter: HashMap::with_capacity_and_hasher(if capacity < 4 { 4 } else { capacity }, Default::default())
''')],
    ALLOC + CU + '''fn main() { let c: Counter<i32> = Counter::new(); drop(c); let n = N.load(SeqCst); let c: Counter<i32> = Counter::with_capacity(0); drop(c); assert_eq!(n, N.load(SeqCst), "allocates for a capacity of zero"); }''',
    'a capacity of zero', 'memory is allocated')

bug('d07e', 'D07', [(DS, '''                //make element its own parent
                self.data_by_id.push(Data::new(next_id));
''', '''                //make element its own parent
                if next_id.is_power_of_two() {
                    self.data_by_id.shrink_to(2 * next_id);
                }
                self.data_by_id.push(Data::new(next_id));
''')],
    ALLOC + DU + '''fn main() { let mut d: DisjointSet<i32> = DisjointSet::with_capacity(200); let n = N.load(SeqCst);
    for i in 0..200 { d.make_set(i); } assert_eq!(n, N.load(SeqCst)); }''',
    'adding elements to a set made with a capacity', 'the node table is trimmed while elements are added and has to grow again')

bug('d08a', 'D08', [(DS, '''        self.ids.contains_key(val)''', '''        !self.ids.is_empty() && self.ids.keys().any(|k| k == val)''')],
    KEY + DU + '''fn main() { let mut d: DisjointSet<K> = DisjointSet::new(); for i in 0..2000 { d.make_set(K(i)); }
    EQS.store(0, SeqCst); for i in 0..100 { assert!(!d.contains(&K(5000 + i))); } assert!(EQS.load(SeqCst) < 2000, "{} comparisons", EQS.load(SeqCst)); }''',
    'asking a large set for elements', 'every element is compared')

bug('d08b', 'D08', [(DS, '''        let next_id = self.ids.len();
        //insert but do not override existing one''', '''        let next_id = self.ids.values().max().map_or(0, |id| id + 1);
        //insert but do not override existing one''')],
    DU + TIMED + '''fn run(n: u32) -> u128 { let mut d: DisjointSet<u32> = DisjointSet::with_capacity(2 * n as usize); for i in 0..n { d.make_set(i); }
    best(|| for _ in 0..50 { d.make_set(7); }) }
fn build(d: &mut DisjointSet<u32>, n: u32) { for i in 0..n { d.make_set(i); } }
fn main() { let _ = run(10); let mut s: DisjointSet<u32> = DisjointSet::new(); build(&mut s, 100); let mut l: DisjointSet<u32> = DisjointSet::new(); build(&mut l, 6000);
    let a = best(|| for _ in 0..50 { s.make_set(7); }).max(1); let b = best(|| for _ in 0..50 { l.make_set(7); }); assert!(b / a < 12, "{} against {}", b, a); }''',
    'adding to a large set', 'all numbers are looked through for each element')

bug('k07a', 'K07', [(CN, '''        *self.counter.entry(val).or_insert(0) += 1;
    }''', '''        if self.counter.len() < self.counter.capacity() {
            *self.counter.entry(val).or_insert(0) += 1;
            return;
        }
        // full: no growth for an element that is there already
        let seen = self.counter.iter_mut().find(|entry| *entry.0 == val).map(|entry| *entry.1 += 1).is_some();
        if !seen {
            self.counter.insert(val, 1);
        }
    }''')],
    KEY + CU + '''fn main() { let mut c: Counter<K> = Counter::new(); let mut i = 0; while i < 1000 || c.len() < c.capacity() { c.push(K(i)); i += 1; }
    EQS.store(0, SeqCst); for j in 0..50 { c.push(K(j)); } assert!(EQS.load(SeqCst) < 2000, "{} comparisons", EQS.load(SeqCst)); }''',
    'counting an element again while the map is filled to its capacity', 'the element is searched for one by one')

bug('k07b', 'K07', [(CN, '''        for key in iter.map(|&key| key) {
            self.push(key);
        }''', '''        for key in iter.map(|&key| key) {
            if !self.counter.contains_key(&key) && self.counter.values().all(|n| *n > 1) {
                self.counter.reserve(1);
            }
            self.push(key);
        }''')],
    CU + TIMED + '''fn main() { let mut s: Counter<u32> = Counter::new(); let mut l: Counter<u32> = Counter::new();
    for i in 0..100 { s.push(i); s.push(i); } for i in 0..20000 { l.push(i); l.push(i); }
    let v: Vec<u32> = (100000..100001).collect(); let mut a = u128::max_value(); let mut b = u128::max_value();
    for _ in 0..5 { let t = std::time::Instant::now(); s.extend(&v); a = a.min(t.elapsed().as_nanos()); s.remove(&v[0]); let t = std::time::Instant::now(); l.extend(&v); b = b.min(t.elapsed().as_nanos()); l.remove(&v[0]); }
    assert!(b / a.max(1) < 12, "{} against {}", b, a); }''',
    'extending a counter whose counts are all above one with a new element', 'all counts are looked through')

bug('d08c', 'D08', [(DS, '''        self.data_by_id[b_root].parent = a_root;

''', '''        if self.data_by_id[b_root].rank > 1 {
            // spare the elements below the old root one link
            for node in self.data_by_id.iter_mut() {
                if node.parent == b_root {
                    node.parent = a_root;
                }
            }
        }
        self.data_by_id[b_root].parent = a_root;

''')],
    DU + '''fn time(n: u32) -> u128 { (0..5).map(|_| { let mut d: DisjointSet<u32> = DisjointSet::with_capacity(n as usize); for i in 0..n { d.make_set(i); }
    d.union(0, 1); d.union(2, 3); d.union(0, 2); d.union(4, 5); d.union(6, 7); d.union(4, 6);
    let t = std::time::Instant::now(); d.union(0, 4); let e = t.elapsed().as_nanos(); assert!(d.in_union(&3, &7)); e }).min().unwrap() }
fn main() { let a = time(50).max(200); let b = time(100000); assert!(b / a < 12, "{} against {}", b, a); }''',
    'joining two trees of some height in a large set', 'the whole node table is looked through')

# ---------------- what operations ask of the element type ----------------
bug('t01a', 'T01', [(RING, '''    pub fn append(&mut self, other: &mut Self) {
''', '''    pub fn append(&mut self, other: &mut Self) where T: Clone {
''')],
    RU + '''struct Job(fn() -> i32); fn main() { let (mut a, mut b) = (CircularBuffer::new(2), CircularBuffer::new(2)); b.push_back(Job(|| 3)); a.append(&mut b); assert_eq!((a.pop_back().unwrap().0)(), 3); }''',
    'elements that cannot be cloned', 'append does not accept them')

bug('t01b', 'T01', [(IV, '''    pub fn into_span(self, other: Self) -> Self {''', '''    pub fn into_span(self, other: Self) -> Self where T: Clone {''')],
    IU + '''#[derive(PartialEq, Eq, PartialOrd, Ord)] struct Version(u8); fn main() { assert!(Interval::closed(Version(1), Version(2)).into_span(Interval::closed(Version(4), Version(5))).contains_val(&Version(3))); }''',
    'values that cannot be cloned', 'into_span does not accept them')

bug('t01c', 'T01', [(DS, '''    pub fn union(&mut self, a :T, b: T) {
''', '''    pub fn union(&mut self, a :T, b: T) where T: 'static {
''')],
    DU + '''fn main() { let text = String::from("a b"); let mut d: DisjointSet<&str> = DisjointSet::new(); let mut w = text.split(' '); d.union(w.next().unwrap(), w.next().unwrap()); assert_eq!(d.len(), 2); }''',
    'elements borrowed from a local variable', 'union does not accept them')

bug('t01d', 'T01', [('src/interval/interval_math.rs', '''impl<T, U> Mul<U> for Interval<T> where T:Ord+Mul<U, Output=T>, U: Clone {''', '''impl<T, U> Mul<U> for Interval<T> where T:Ord+Mul<U, Output=T>, U: Clone + Ord + Default {''')],
    IU + '''#[derive(PartialEq, Eq, PartialOrd, Ord, Debug)] struct Len(i64); #[derive(Clone)] struct Factor(f64);
impl std::ops::Mul<Factor> for Len { type Output = Len; fn mul(self, f: Factor) -> Len { Len((self.0 as f64 * f.0) as i64) } }
fn main() { assert_eq!(Interval::closed(Len(2), Len(4)) * Factor(0.5), Interval::closed(Len(1), Len(2))); }''',
    'multiplying an interval by a factor of another type that has no order', 'the operator does not accept it')

bug('t01e', 'T01', [(CN, '''impl<'a, T, S1, S2> SubAssign<&'a Counter<T, S1>> for Counter<T, S2>
where
    T: Hash + Eq + Clone,
    S1: BuildHasher,
    S2: BuildHasher,''', '''impl<'a, T, S1, S2> SubAssign<&'a Counter<T, S1>> for Counter<T, S2>
where
    T: Hash + Eq + Clone,
    S1: BuildHasher + Default,
    S2: BuildHasher,''')],
    CU + '''use std::hash::*; struct H(u64); impl BuildHasher for H { type Hasher = std::collections::hash_map::DefaultHasher; fn build_hasher(&self) -> Self::Hasher { let mut h = Self::Hasher::new(); h.write_u64(self.0); h } }
fn main() { let mut a: Counter<i32> = Counter::new(); a.push(1); a.push(1); let mut b = Counter::with_hasher(H(7)); b.push(1); a -= &b; assert_eq!(a[&1], 1); }''',
    'an operand whose hasher has no default', 'it cannot be subtracted in place')

# ---------------- which hasher is used ----------------
bug('h01a', 'H01', [(CN, '''use std::collections::hash_map::RandomState;
''', '''use fnv::FnvBuildHasher as RandomState;
''')],
    CU + '''use std::any::TypeId; fn main() { assert_eq!(TypeId::of::<Counter<u64>>(), TypeId::of::<Counter<u64, std::collections::hash_map::RandomState>>()); }''',
    'a counter whose hasher is not named, with elements chosen by an adversary', 'counters use an unkeyed hash function')
bug('h01b', 'H01', [(DS, '''pub struct DisjointSet<T, S=RandomState>''', '''pub struct DisjointSet<T, S=fnv::FnvBuildHasher>''')],
    DU + '''use std::any::TypeId; fn main() { assert_eq!(TypeId::of::<DisjointSet<u64>>(), TypeId::of::<DisjointSet<u64, std::collections::hash_map::RandomState>>()); }''',
    'a disjoint set whose hasher is not named, with elements chosen by an adversary', 'disjoint sets use an unkeyed hash function')
bug('h01c', 'H01', [('src/disjoint_set/fast_disjoint_set.rs', '''pub type FastDisjointSet<T> = DisjointSet<T, FnvBuildHasher>;''', '''pub type FastDisjointSet<T> = DisjointSet<T>;''')],
    DU + '''use std::any::TypeId; fn main() { assert_ne!(TypeId::of::<advanced_collections::disjoint_set::FastDisjointSet<u64>>(), TypeId::of::<DisjointSet<u64>>()); }''',
    'using the fast disjoint set', 'it hashes exactly as the plain one')
bug('k05d', 'K05', [(CN, '''#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Counter''', '''#[derive(PartialEq, Eq, Debug)]
pub struct Counter'''), (CN, '''impl<T, S> Default for Counter<T, S>
''', '''impl<T, S> Clone for Counter<T, S>
where
    T: Hash + Eq + Clone,
    S: BuildHasher + Clone,
{
    fn clone(&self) -> Self {
        Counter { counter: self.counter.clone() }
    }

    ///Overwrites the counter, keeping its allocation.
    fn clone_from(&mut self, source: &Self) {
        self.counter.reserve(source.counter.len());
        for (key, &val) in source.counter.iter() {
            match self.counter.get_mut(key) {
                Some(n) => *n = val,
                None => { self.counter.insert(key.clone(), val); }
            }
        }
        if self.counter.len() > 2 * source.counter.len() {
            self.counter.retain(|key, _| source.counter.contains_key(key));
        }
    }
}

impl<T, S> Default for Counter<T, S>
''')],
    CU + '''fn main() { let a: Counter<u8> = vec![1, 2].into_iter().collect(); let mut b: Counter<u8> = vec![3].into_iter().collect(); b.clone_from(&a); assert_eq!(b.len(), a.clone().len()); }''',
    'clone_from onto a counter that holds other elements, not many more than the source', 'the old elements stay')
bug('d02c', 'D02', [(DS, '''#[derive(Clone, Debug)]
pub struct DisjointSet''', '''#[derive(Debug)]
pub struct DisjointSet'''), (DS, '''impl<T, S> Default for DisjointSet<T, S>''', '''impl<T, S> Clone for DisjointSet<T, S> where T: Eq+Hash+Clone, S: BuildHasher + Clone {
    fn clone(&self) -> Self {
        Self {
            ids: self.ids.clone(),
            data_by_id: self.data_by_id.clone()
        }
    }

    ///Overwrites the set, reusing its nodes.
    fn clone_from(&mut self, source: &Self) {
        self.ids.clone_from(&source.ids);
        let nodes = self.data_by_id.len();
        if nodes < source.data_by_id.len() {
            self.data_by_id.extend_from_slice(&source.data_by_id[nodes..]);
        } else {
            self.data_by_id.clone_from(&source.data_by_id);
        }
    }
}

impl<T, S> Default for DisjointSet<T, S>''')],
    DU + '''fn main() { let mut a: DisjointSet<u8> = DisjointSet::new(); a.union(1, 2); a.make_set(3);
let mut b: DisjointSet<u8> = DisjointSet::new(); b.make_set(7); b.make_set(8); b.clone_from(&a); let mut c = a.clone();
assert_eq!(c.in_union(&1, &2), b.in_union(&1, &2)); let mut e: DisjointSet<u8> = vec![5].into_iter().collect(); e.clone_from(&a); assert!(e.in_union(&1, &2)); }''',
    'clone_from onto a nonempty smaller set', 'nodes of the overwritten set are kept, so subsets of the source are lost')

bug('c02f', 'C02', [(RING, '''    fn drop(&mut self) {
        self.clear();
    }''', '''    fn drop(&mut self) {
        if !::std::thread::panicking() {
            self.clear();
        }
    }''')],
    TRACK + RU + '''fn main() { ::std::panic::set_hook(Box::new(|_| {}));
    let r = ::std::panic::catch_unwind(|| { let mut c = CircularBuffer::with_capacity(3); for i in 0..4 { c.push_back(D(i)); } panic!("elsewhere"); });
    assert!(r.is_err()); assert_eq!(log(), vec![0, 1, 2, 3]); }''',
    'a buffer that goes out of scope because of a panic outside of it', 'its elements are never dropped')
