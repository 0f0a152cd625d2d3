"""More behaviour-preserving edits, written with less usual library functions."""
from benign import E, I, IV, BD, MATH
CMP = 'src/interval/interval_cmp.rs'
E('x01', I, (IV, None, 'into_span', '''fn into_span(self, other: Self) -> Self {
        if other.is_empty(){
            return self;
        }
        if self.is_empty(){
            return other;
        }
        let (l1, u1) =  self.into_bounds().unwrap();
        let (l2, u2) = other.into_bounds().unwrap();
        let lo = ::std::iter::once(l1).chain(::std::iter::once(l2)).min().unwrap();
        let up = vec![u1, u2].into_iter().max().unwrap();
        Self::from_bounds(lo, up)
    }'''))
E('x02', I, (IV, None, 'into_intersection', '''fn into_intersection(self, other: Self) -> Self {
        if !self.intersects(&other) {
            return Self::empty();
        }
        self.into_bounds().into_iter().zip(other.into_bounds()).map(|((l1, u1), (l2, u2))| {
            let lo = ::std::cmp::max(l1, l2);
            let up = ::std::cmp::min(u1, u2);
            Self::from_bounds(lo, up)
        }).next().unwrap_or_else(Self::empty)
    }'''))
E('x03', I, (IV, None, 'contains_val', '''fn contains_val(&self, val: &T) -> bool {
        self.imp.as_ref().is_some_and(|a| {
            let above = if a.lo.is_closed() {a.lo.val() <= val} else {a.lo.val() < val};
            let below = if a.up.is_closed() {val <= a.up.val()} else {val < a.up.val()};
            above && below
        })
    }'''), (IV, None, 'contains_interval', '''fn contains_interval(&self, other: &Self) -> bool {
        match (&self.imp, &other.imp) {
            (_, None) => true,
            (None, _) => false,
            (Some(a), Some(b)) => a.lo.cmp(&b.lo).is_le() && a.up.cmp(&b.up).is_ge()
        }
    }'''))
E('x04', I, (IV, None, 'contains_val', '''fn contains_val(&self, val: &T) -> bool {
        use std::ops::{Bound, RangeBounds};
        let a = match self.imp {
            None => return false,
            Some(ref a) => a
        };
        let lo = if a.lo.is_closed() {Bound::Included(a.lo.val())} else {Bound::Excluded(a.lo.val())};
        let up = if a.up.is_closed() {Bound::Included(a.up.val())} else {Bound::Excluded(a.up.val())};
        (lo, up).contains(val)
    }'''))
E('x05', I, (BD, 'Ord for LowerBound', 'cmp', '''fn cmp(&self, other: &Self) -> Ordering {
        (self.val(), !self.is_closed()).cmp(&(other.val(), !other.is_closed()))
    }'''), (BD, 'Ord for UpperBound', 'cmp', '''fn cmp(&self, other: &Self) -> Ordering {
        self.val().cmp(other.val()).then(self.is_closed().cmp(&other.is_closed()))
    }'''))
E('x06', I, (BD, 'Ord for LowerBound', 'cmp', '''fn cmp(&self, other: &Self) -> Ordering {
        let key = |b: &Self| if b.is_closed() {0u8} else {1u8};
        match self.val().cmp(other.val()) {
            Equal => key(self).cmp(&key(other)),
            unequal => unequal
        }
    }'''), (BD, 'PartialOrd<T> for LowerBound', 'partial_cmp', '''fn partial_cmp(&self, other: &T) -> Option<Ordering> {
        let by_val = self.val().cmp(other);
        Some(by_val.then(if self.is_closed() {Equal} else {Greater}))
    }'''))
E('x07', I, (IV, None, 'merge', '''fn merge(&mut self, other: Self) -> Result<(), Self>{
        if !self.can_be_merged(&other) {
            return Err(other)
        }
        self.imp = match (self.imp.take(), other.imp) {
            (None, x) | (x, None) => x,
            (Some(a), Some(b)) => Some(NonEmptyInterval {
                lo: ::std::cmp::min(a.lo, b.lo),
                up: ::std::cmp::max(a.up, b.up)
            })
        };
        Ok(())
    }'''))
E('x08', I, (IV, None, 'into_merged', '''fn into_merged(mut self, other: Self) -> Result<Self, (Self, Self)>{
        match self.merge(other) {
            Ok(()) => Ok(self),
            Err(other) => Err((self, other))
        }
    }'''), (IV, None, 'into_intersection', '''fn into_intersection(mut self, other: Self) -> Self {
        self.intersection(other);
        self
    }'''), (IV, None, 'into_span', '''fn into_span(mut self, other: Self) -> Self {
        self.span(other);
        self
    }'''))
E('x09', I, (IV, None, 'merge', '''fn merge(&mut self, other: Self) -> Result<(), Self>{
        let this = ::std::mem::replace(self, Self::empty());
        match this.into_merged(other) {
            Ok(merged) => {
                *self = merged;
                Ok(())
            },
            Err((this, other)) => {
                *self = this;
                Err(other)
            }
        }
    }'''), (IV, None, 'span', '''fn span(&mut self, other: Self) {
        let this = ::std::mem::replace(self, Self::empty());
        *self = this.into_span(other)
    }'''))
E('x10', I, (CMP, 'PartialOrd for Interval', 'lt', '''fn lt(&self, other: &Self) -> bool {
        self.upper().zip(other.lower()).map_or(false, |(s, o)| s < o)
    }'''), (CMP, 'PartialOrd for Interval', 'partial_cmp', '''fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
        [(Greater, self > other), (Less, self < other), (Equal, self == other)].iter().find(|&&(_, holds)| holds).map(|&(o, _)| o)
    }'''))
E('x12', I, (IV, None, 'fix_after_modification', '''fn fix_after_modification(&mut self){
        use std::cmp::Ordering;
        let keep = match self.imp {
            None => return,
            Some(ref mut a) => match a.lo.val().cmp(a.up.val()) {
                Ordering::Less => true,
                Ordering::Equal => a.lo.is_closed() && a.up.is_closed(),
                Ordering::Greater => {
                    a.lo.swap(&mut a.up);
                    true
                }
            }
        };
        if !keep {
            self.imp.take();
        }
    }'''))
E('x13', I, (IV, None, 'create_checked', '''fn create_checked(lo: T, loc: bool, up: T, upc: bool) -> Self {
        assert!(lo <= up, "Lower bound of an interval needs to be less than the upper one.");
        assert!(lo != up || (loc & upc), "Lower and upper bounds of an interval can be equal only if the interval is closed.");
        Self {imp: Some(NonEmptyInterval {lo: LowerBound::new(lo, loc), up: UpperBound::new(up, upc)})}
    }'''))
E('x14', I, (IV, None, 'is_single', '''fn is_single(&self) -> bool {
        matches!(self.imp, Some(ref a) if a.lo.val().eq(a.up.val()))
    }'''), (IV, None, 'into_tuple', '''fn into_tuple(self) -> Option<(T, bool, T, bool)>{
        let (lo, up) = self.into_bounds()?;
        let ((lo, loc), (up, upc)) = (lo.into_tuple(), up.into_tuple());
        Some((lo, loc, up, upc))
    }'''), (IV, None, 'is_upper_closed', '''fn is_upper_closed(&self) -> Option<bool> {
        self.bounds().map(|(_, up)| up).map(UpperBound::is_closed)
    }'''))
E('x15', I, (IV, None, 'intersection', '''fn intersection(&mut self, other: Self) {
        let this = self.imp.take();
        if let (Some(a), Some(b)) = (this, other.imp) {
            let lo = if a.lo < b.lo {b.lo} else {a.lo};
            let up = if a.up > b.up {b.up} else {a.up};
            let ok = match lo.val().cmp(up.val()) {
                ::std::cmp::Ordering::Less => true,
                ::std::cmp::Ordering::Equal => lo.is_closed() && up.is_closed(),
                ::std::cmp::Ordering::Greater => false
            };
            self.imp = if ok {Some(NonEmptyInterval {lo, up})} else {None};
        }
    }'''))
E('x16', I, (IV, '''            Some(a)=> {
                let l = if a.lo.is_closed() {'['} else {'('};
                let r = if a.up.is_closed() {']'} else {')'};
                write!(f, "{}{},{}{}", l, a.lo.val(), a.up.val(), r)
            }''', '''            Some(a)=> {
                use std::fmt::Write;
                f.write_char(['(', '['][a.lo.is_closed() as usize])?;
                a.lo.val().fmt(f)?;
                f.write_char(',')?;
                write!(f, "{up}", up = a.up.val())?;
                f.write_char([')', ']'][a.up.is_closed() as usize])
            }'''))
E('x17', I, (MATH, 'Neg for', 'neg', '''fn neg(self) -> <Self as Neg>::Output {
        let mut result = Self {imp: self.into_tuple().map(|(l, lc, u, uc)| super::interval::NonEmptyInterval {
            lo: super::bounds::LowerBound::new(-u, uc),
            up: super::bounds::UpperBound::new(-l, lc)
        })};
        result.fix_after_modification();
        result
    }'''), (BD, 'AddAssign<U> for Bound', 'add_assign', '''fn add_assign(&mut self, rhs: U) {
        let val = &mut self.val;
        val.add_assign(rhs)
    }'''))
E('x18', I, (IV, None, 'can_be_merged', '''fn can_be_merged(&self, other: &Self) -> bool {
        let gap = |a: &Self, b: &Self| -> Option<bool> {
            let up = a.upper()?;
            let lo = b.lower()?;
            Some(up.is_separated_from(lo))
        };
        ![gap(self, other), gap(other, self)].contains(&Some(true))
    }'''), (IV, None, 'intersects', '''fn intersects(&self, other: &Self) -> bool {
        let both = [self, other];
        both.iter().all(|i| !i.is_empty()) && !(self < other) && !(self > other)
    }'''))

# ---------------------------------------------------------------- counter
from benign import K, D, CN, DS, R, RING, IT
ADDREF = "Add<&'a Counter<T, S1>> for"
E('xk01', K, (CN, 'SubAssign<Counter<T, S1>>', 'sub_assign', '''fn sub_assign(&mut self, rhs: Counter<T, S1>) {
        for (key, val) in rhs {
            let left = match self.counter.get(&key).map(|old| old.checked_sub(val)) {
                None => continue,
                Some(left) => left.unwrap_or(0)
            };
            if left == 0 {
                self.counter.remove(&key);
            } else {
                self.counter.insert(key, left);
            }
        }
    }'''))
E('xk03', K, (CN, None, 'into_most_common', '''fn into_most_common(self) -> Vec<(T, usize)> {
        let mut res: Vec<_> = self.counter.into_iter().collect();
        res.sort_by_key(|entry| ::std::cmp::Reverse(entry.1));
        res
    }'''), (CN, None, 'most_common', '''fn most_common(&self) -> Vec<(T, usize)>
    where
        T: Clone,
    {
        let mut res = Vec::with_capacity(self.counter.len());
        res.extend(self.counter.iter().map(|(key, val)| (key.clone(), *val)));
        res.sort_unstable_by(|a, b| b.1.cmp(&a.1));
        res
    }'''))
E('xk04', K, (CN, None, 'into_most_common', '''fn into_most_common(self) -> Vec<(T, usize)> {
        let mut res: Vec<(T, usize)> = self.counter.into_iter().collect();
        res.sort_unstable_by_key(|&(_, val)| val);
        res.reverse();
        res
    }'''), (CN, None, 'most_common', '''fn most_common(&self) -> Vec<(T, usize)>
    where
        T: Clone,
    {
        let mut refs: Vec<(&T, &usize)> = self.counter.iter().collect();
        refs.sort_by(|x, y| x.1.cmp(y.1).reverse());
        refs.into_iter().map(|(key, &val)| (key.clone(), val)).collect()
    }'''))
E('xk05', K, (CN, 'Extend<T> for', 'extend', '''fn extend<I: IntoIterator<Item = T>>(&mut self, iter: I) {
        iter.into_iter().for_each(|key| *self.counter.entry(key).or_default() += 1)
    }'''), (CN, "Extend<&'a T> for", 'extend', '''fn extend<I: IntoIterator<Item = &'a T>>(&mut self, iter: I) {
        <Self as Extend<T>>::extend(self, iter.into_iter().copied())
    }'''))
E('xk06', K, (CN, 'AddAssign<Counter<T, S1>> for', 'add_assign', '''fn add_assign(&mut self, rhs: Counter<T, S1>) {
        let Counter { counter } = rhs;
        counter.into_iter().for_each(|(key, val)| {
            self.counter.entry(key).and_modify(|old| *old += val).or_insert(val);
        });
    }'''), (CN, ADDREF, 'add', '''fn add(mut self, rhs: &'a Counter<T, S1>) -> <Self as Add<Self>>::Output {
        self += rhs;
        self
    }'''))
E('xk07', K, (CN, "AddAssign<&'a Counter<T, S1>>", 'add_assign', '''fn add_assign(&mut self, rhs: &'a Counter<T, S1>) {
        for (key, val) in &rhs.counter {
            if let Some(old) = self.counter.get_mut(key) {
                *old += *val;
                continue;
            }
            self.counter.insert(key.clone(), *val);
        }
    }'''), (CN, "SubAssign<&'a Counter<T, S1>>", 'sub_assign', '''fn sub_assign(&mut self, rhs: &'a Counter<T, S1>) {
        for (key, &val) in rhs.counter.iter() {
            let gone = match self.counter.get_mut(key) {
                Some(old) if *old > val => {
                    *old -= val;
                    false
                }
                Some(_) => true,
                None => false
            };
            if gone {
                self.counter.remove(key);
            }
        }
    }'''))
E('xk08', K, (CN, 'Extend<T> for', 'extend', '''fn extend<I: IntoIterator<Item = T>>(&mut self, iter: I) {
        let mut iter = iter.into_iter();
        let (lower, _) = iter.size_hint();
        self.counter.reserve(lower);
        while let Some(key) = iter.next() {
            let count = self.counter.entry(key).or_insert(0usize);
            *count = *count + 1;
        }
    }'''))
E('xk09', K, (CN, "Sub<&'a Counter<T, S1>> for", 'sub', '''fn sub(mut self, rhs: &'a Counter<T, S1>) -> <Self as Sub<Self>>::Output {
        rhs.counter.iter().for_each(|(key, val)| match self.counter.remove_entry(key) {
            Some((key, old)) if old > *val => {
                self.counter.insert(key, old - val);
            }
            _ => {}
        });
        self
    }'''))
E('xk10', K, (CN, None, 'most_common', '''fn most_common(&self) -> Vec<(T, usize)>
    where
        T: Clone,
    {
        let keys = self.counter.keys().cloned();
        let vals = self.counter.values().cloned();
        let mut res: Vec<(T, usize)> = keys.zip(vals).collect();
        res.sort_by_cached_key(|&(_, val)| !val);
        res
    }'''))
# ---------------------------------------------------------------- disjoint set
E('xd01', D, (DS, None, 'find_with_path_compression', '''fn find_with_path_compression(data_by_id: &mut Vec<Data>, id: usize) -> usize{
        let mut root = id;
        while data_by_id[root].parent != root {
            root = data_by_id[root].parent;
        }
        let mut cur = id;
        while cur != root {
            cur = ::std::mem::replace(&mut data_by_id[cur].parent, root);
        }
        root
    }'''))
E('xd02', D, (DS, None, 'union', '''fn union(&mut self, a :T, b: T) {
        use std::cmp::Ordering;
        let ids = [self.make_or_get_set(a), self.make_or_get_set(b)];
        let roots = ids.map(|id| Self::find_with_path_compression(&mut self.data_by_id, id));
        if roots[0] == roots[1] {
            return;
        }
        let ranks = roots.map(|id| self.data_by_id[id].rank);
        match ranks[0].cmp(&ranks[1]) {
            Ordering::Less => self.data_by_id[roots[0]].parent = roots[1],
            Ordering::Greater => self.data_by_id[roots[1]].parent = roots[0],
            Ordering::Equal => {
                self.data_by_id[roots[1]].parent = roots[0];
                self.data_by_id[roots[0]].rank += 1;
            }
        }
    }'''))
E('xd03', D, (DS, None, 'in_union', '''fn in_union(&mut self, a :&T, b: &T) -> bool{
        let ids = self.ids.get(a).copied().zip(self.ids.get(b).copied());
        ids.map_or(false, |(a, b)| {
            a == b || Self::find_with_path_compression(&mut self.data_by_id, a) == Self::find_with_path_compression(&mut self.data_by_id, b)
        })
    }'''), (DS, None, 'contains', '''fn contains(&self, val: &T) -> bool {
        self.ids.get(val).is_some()
    }'''))
E('xd04', D, (DS, None, 'build_sets', '''fn build_sets<'a>(&'a mut self) -> HashMap<usize, Vec<&'a T>> {
        let DisjointSet { ref ids, ref mut data_by_id } = *self;
        ids.iter().fold(HashMap::new(), |mut map, (key, &id)| {
            let root = Self::find_with_path_compression(data_by_id, id);
            map.entry(root).or_insert_with(Vec::new).push(key);
            map
        })
    }'''))
E('xd05', D, (DS, None, 'make_or_get_set', '''fn make_or_get_set(&mut self, val: T) -> usize{
        if let Some(&id) = self.ids.get(&val) {
            return id;
        }
        let id = self.data_by_id.len();
        self.data_by_id.reserve(1);
        self.ids.insert(val, id);
        self.data_by_id.push(Data::new(id));
        id
    }'''))
E('xd06', D, (DS, None, 'make_or_get_set', '''fn make_or_get_set(&mut self, val: T) -> usize{
        let nodes = &mut self.data_by_id;
        *self.ids.entry(val).or_insert_with(|| {
            let id = nodes.len();
            nodes.push(Data::new(id));
            id
        })
    }'''))
E('xd07', D, (DS, None, 'union', '''fn union(&mut self, a :T, b: T) {
        let a = self.make_or_get_set(a);
        let b = self.make_or_get_set(b);
        let a_root = Self::find_with_path_compression(&mut self.data_by_id, a);
        let b_root = Self::find_with_path_compression(&mut self.data_by_id, b);
        if a_root != b_root {
            let (lo, hi) = (a_root.min(b_root), a_root.max(b_root));
            let (left, right) = self.data_by_id.split_at_mut(hi);
            let (x, y) = (&mut left[lo], &mut right[0]);
            if x.rank > y.rank {
                y.parent = lo;
            } else {
                x.parent = hi;
                if x.rank == y.rank {
                    y.rank += 1;
                }
            }
        }
    }'''))
E('xd08', D, (DS, 'Extend<T>', 'extend', '''fn extend<I: IntoIterator<Item = T>>(&mut self, iter: I) {
        iter.into_iter().for_each(|val| self.make_set(val));
    }'''), (DS, "FromIterator<&'a T>", 'from_iter', '''fn from_iter<I: IntoIterator<Item = &'a T>>(iter: I) -> Self {
        iter.into_iter().cloned().collect()
    }'''), (DS, 'FromIterator<T>', 'from_iter', '''fn from_iter<I: IntoIterator<Item = T>>(iter: I) -> Self {
        let mut ds = Self::default();
        ds.extend(iter);
        ds
    }'''))
E('xd09', D, (DS, None, 'find_with_path_compression', '''fn find_with_path_compression(data_by_id: &mut Vec<Data>, id: usize) -> usize{
        let mut path = Vec::new();
        let mut cur = id;
        loop {
            let parent = data_by_id[cur].parent;
            if parent == cur {
                break;
            }
            path.push(cur);
            cur = parent;
        }
        for node in path {
            data_by_id[node].parent = cur;
        }
        cur
    }'''))
E('xd10', D, (DS, None, 'build_sets', '''fn build_sets<'a>(&'a mut self) -> HashMap<usize, Vec<&'a T>> {
        let mut map : HashMap<usize, Vec<&'a T>> = HashMap::with_capacity(self.ids.len());
        for (key, &val) in &self.ids {
            let root = Self::find_with_path_compression(&mut self.data_by_id, val);
            match map.get_mut(&root) {
                Some(group) => group.push(key),
                None => {
                    map.insert(root, vec![key]);
                }
            }
        }
        map
    }'''))

# ---------------------------------------------------------------- ring
from benign import R, RING, IT
E('xr01', R, (RING, None, 'internal_index', '''fn internal_index(&self, index: usize) -> usize {
        let n = self.len();
        match index {
            i if i < n => {
                let raw = self.start + i;
                raw.checked_sub(self.buffer.len()).unwrap_or(raw)
            }
            i => panic!("index {} outside of {} elements", i, n)
        }
    }'''))
E('xr02', R, (RING, None, 'len', '''fn len(&self) -> usize {
        match self.end.checked_sub(self.start) {
            Some(n) => n,
            None => self.buffer.len() - (self.start - self.end)
        }
    }'''), (RING, None, 'incr_end', '''fn incr_end(&mut self) {
        self.end = (0..self.buffer.len()).cycle().nth(self.end + 1).unwrap();
    }''') if False else (RING, None, 'incr_end', '''fn incr_end(&mut self) {
        let last = self.buffer.len() - 1;
        self.end = if self.end < last { self.end + 1 } else { 0 };
    }'''))
E('xr03', R, (RING, None, 'slices', '''fn slices(&self) -> (&[T], &[T]){
        use std::slice::from_raw_parts;
        let base = self.buffer.as_ptr() as *const T;
        unsafe {
            if self.start <= self.end {
                (from_raw_parts(base.add(self.start), self.end - self.start), &[])
            } else {
                (from_raw_parts(base.add(self.start), self.buffer.len() - self.start), from_raw_parts(base, self.end))
            }
        }
    }'''), (RING, None, 'slices_mut', '''fn slices_mut(&mut self) -> (&mut [T], &mut [T]) {
        use std::slice::from_raw_parts_mut;
        let total = self.buffer.len();
        let base = self.buffer.as_mut_ptr() as *mut T;
        unsafe {
            if self.start <= self.end {
                (from_raw_parts_mut(base.add(self.start), self.end - self.start), &mut [])
            } else {
                (from_raw_parts_mut(base.add(self.start), total - self.start), from_raw_parts_mut(base, self.end))
            }
        }
    }'''))
E('xr04', R, (RING, None, 'linearize', '''fn linearize(&mut self) -> &mut [T]{
        if self.start <= self.end {
            let (a, _) = self.buffer.split_at_mut(self.end);
            return unsafe { &mut *(&mut a[self.start..] as *mut [MaybeUninit<T>] as *mut [T]) };
        }
        let n = self.len();
        let start = ::std::mem::replace(&mut self.start, 0);
        self.end = n;
        self.buffer.rotate_left(start);
        let (used, _) = self.buffer.split_at_mut(n);
        unsafe { &mut *(used as *mut [MaybeUninit<T>] as *mut [T]) }
    }'''))
E('xr05', R, (RING, None, 'linearize', '''fn linearize(&mut self) -> &mut [T]{
        let n = self.buffer.len();
        let len = self.len();
        self.buffer.rotate_right((n - self.start) % n);
        self.start = 0;
        self.end = len;
        unsafe { ::std::slice::from_raw_parts_mut(self.buffer.as_mut_ptr() as *mut T, len) }
    }'''))
E('xr06', R, (RING, None, 'pop_at', '''fn pop_at(&mut self, index: usize) -> T {
        let slot = &mut self.buffer[index];
        unsafe { ::std::ptr::read(slot).assume_init() }
    }'''), (RING, None, 'push_at', '''fn push_at(&mut self, val: T, index: usize) {
        let slot: *mut MaybeUninit<T> = &mut self.buffer[index];
        unsafe { ::std::ptr::write(slot as *mut T, val) }
    }'''), (RING, 'use std::mem::{MaybeUninit, swap, drop, transmute};', 'use std::mem::{MaybeUninit, drop, transmute};'))
E('xr07', R, (RING, None, 'pop_at', '''fn pop_at(&mut self, index: usize) -> T {
        unsafe { self.buffer.get_unchecked(index).assume_init_read() }
    }'''), (RING, None, 'push_at', '''fn push_at(&mut self, val: T, index: usize) {
        if let Some(slot) = self.buffer.get_mut(index) {
            *slot = MaybeUninit::new(val);
        }
    }'''), (RING, 'use std::mem::{MaybeUninit, swap, drop, transmute};', 'use std::mem::{MaybeUninit, drop, transmute};'))
E('xr08', R, (RING, None, 'reverse', '''fn reverse(&mut self) {
        let n = self.len();
        for (a, b) in (0..n / 2).zip((0..n).rev()) {
            self.swap(a, b);
        }
    }'''))
E('xr09', R, (RING, None, 'reverse', '''fn reverse(&mut self) {
        let mut it = self.iter_mut();
        while let (Some(a), Some(b)) = (it.next(), it.next_back()) {
            ::std::mem::swap(a, b);
        }
    }'''))
E('xr10', R, (RING, None, 'clear', '''fn clear(&mut self) {
        loop {
            match self.pop_back() {
                Some(_) => continue,
                None => break
            }
        }
    }'''), (RING, 'Drop for', 'drop', '''fn drop(&mut self) {
        self.drain().for_each(drop);
    }'''))
E('xr11', R, (RING, None, 'resize', '''fn resize(&mut self, capacity: usize) {
        let mut slots: Vec<MaybeUninit<T>> = Vec::with_capacity(capacity.checked_add(1).unwrap());
        let excess = self.len().saturating_sub(capacity);
        for _ in 0..excess {
            drop(self.pop_front());
        }
        while let Some(x) = self.pop_front() {
            slots.push(MaybeUninit::new(x));
        }
        let kept = slots.len();
        slots.resize_with(capacity + 1, || MaybeUninit::uninit());
        self.buffer = slots.into_boxed_slice();
        self.start = 0;
        self.end = kept;
    }'''))
E('xr12', R, (RING, None, 'resize', '''fn resize(&mut self, capacity: usize) {
        let mut other = CircularBuffer::with_capacity(capacity);
        other.append(self);
        swap(self, &mut other);
    }'''))
E('xr13', R, (RING, 'Clone for', 'clone', '''fn clone(&self) -> Self {
        self.iter().cloned().fold(Self::with_capacity(self.capacity()), |mut cb, x| {
            cb.push_back(x);
            cb
        })
    }'''), (RING, 'Extend<T> for', 'extend', '''fn extend<I: IntoIterator<Item=T>>(&mut self, iter: I) {
        iter.into_iter().fold((), |_, x| self.push_back(x))
    }'''))
E('xr14', R, (RING, "FromIterator<&'a T>", 'from_iter', '''fn from_iter<I: IntoIterator<Item=&'a T>>(iter: I) -> Self {
        iter.into_iter().cloned().collect::<Vec<_>>().into()
    }'''), (RING, 'FromIterator<T>', 'from_iter', '''fn from_iter<I: IntoIterator<Item=T>>(iter: I) -> Self {
        let buffer: Box<[_]> = iter.into_iter().map(MaybeUninit::new).chain(Some(MaybeUninit::uninit())).collect();
        let end = buffer.len() - 1;
        CircularBuffer { buffer, start: 0, end }
    }'''))
E('xr15', R, (RING, 'PartialEq for CircularBuffer', 'eq', '''fn eq(&self, other: &Self) -> bool {
        let n = self.len();
        n == other.len() && (0..n).all(|i| self[i] == other[i])
    }'''), (RING, 'PartialEq<[T]> for', 'eq', '''fn eq(&self, other: &[T]) -> bool {
        self.len() == other.len() && !self.iter().zip(other).any(|(a, b)| a != b)
    }'''), (RING, "PartialEq<&'a [T]> for", 'eq', '''fn eq(&self, other: &&'a [T]) -> bool {
        *self == **other
    }'''))
E('xr16', R, (RING, 'Ord for CircularBuffer<T>\n    where T: Ord', 'cmp', '''fn cmp(&self, other: &Self) -> Ordering {
        self.iter().zip(other).map(|(a, b)| a.cmp(b)).find(|o| *o != Ordering::Equal)
            .unwrap_or_else(|| self.len().cmp(&other.len()))
    }'''))
E('xr17', R, (RING, None, 'first', '''fn first(&self) -> Option<&T> {
        let (a, _) = self.slices();
        a.first()
    }'''), (RING, None, 'last', '''fn last(&self) -> Option<&T> {
        let (a, b) = self.slices();
        b.last().or_else(|| a.last())
    }'''), (RING, None, 'first_mut', '''fn first_mut(&mut self) -> Option<&mut T> {
        self.slices_mut().0.first_mut()
    }'''), (RING, None, 'last_mut', '''fn last_mut(&mut self) -> Option<&mut T> {
        let (a, b) = self.slices_mut();
        if b.is_empty() { a.last_mut() } else { b.last_mut() }
    }'''))
E('xr18', R, (RING, None, 'first', '''fn first(&self) -> Option<&T> {
        (!self.is_empty()).then(|| &self[0])
    }'''), (RING, None, 'last', '''fn last(&self) -> Option<&T> {
        self.len().checked_sub(1).map(|i| &self[i])
    }'''), (RING, None, 'last_mut', '''fn last_mut(&mut self) -> Option<&mut T> {
        self.len().checked_sub(1).map(move |i| &mut self[i])
    }'''))
E('xr19', R, (RING, None, 'swap', '''fn swap(&mut self, a: usize, b: usize) {
        let (a, b) = (self.internal_index(a), self.internal_index(b));
        let base = self.buffer.as_mut_ptr();
        unsafe { ::std::ptr::swap(base.add(a), base.add(b)) }
    }'''))
E('xr20', R, (RING, None, 'swap', '''fn swap(&mut self, a: usize, b: usize) {
        let (lo, hi) = {
            let (a, b) = (self.internal_index(a), self.internal_index(b));
            (a.min(b), a.max(b))
        };
        if lo < hi {
            let (x, y) = self.buffer.split_at_mut(hi);
            swap(&mut x[lo], &mut y[0]);
        }
    }'''))
E('xr21', R, (RING, None, 'push_back', '''fn push_back(&mut self, val: T) {
        let dropped = match (self.capacity(), self.is_full()) {
            (0, _) => return,
            (_, true) => self.pop_front(),
            _ => None
        };
        let end = self.end;
        self.push_at(val, end);
        self.incr_end();
        drop(dropped);
    }'''))
E('xr22', R, (RING, None, 'append', '''fn append(&mut self, other: &mut Self) {
        self.extend(::std::iter::from_fn(|| other.pop_front()));
    }'''))
E('xr23', R, (RING, None, 'append', '''fn append(&mut self, other: &mut Self) {
        let taken = ::std::mem::replace(other, Self::with_capacity(other.capacity()));
        taken.into_iter().for_each(|x| self.push_back(x));
    }'''))
E('xr24', R, (RING, None, 'with_capacity', '''fn with_capacity(capacity: usize) -> Self {
        let buffer = ::std::iter::repeat_with(MaybeUninit::uninit).take(capacity.checked_add(1).expect("capacity overflow")).collect();
        Self { buffer, start: 0, end: 0 }
    }'''))
E('xr25', R, (RING, None, 'with_capacity', '''fn with_capacity(capacity: usize) -> Self {
        let slots = capacity.checked_add(1).expect("capacity overflow");
        let mut buffer: Vec<MaybeUninit<T>> = Vec::with_capacity(slots);
        unsafe { buffer.set_len(slots); }
        Self { buffer: buffer.into_boxed_slice(), start: 0, end: 0 }
    }'''))
E('xr26', R, (RING, None, 'with_capacity', '''fn with_capacity(capacity: usize) -> Self {
        Self { buffer: Box::new_uninit_slice(capacity.checked_add(1).expect("capacity overflow")), start: 0, end: 0 }
    }'''))
E('xr27', R, (RING, 'From<Vec<T>> for', 'from', '''fn from(v: Vec<T>) -> Self {
        let mut cb = Self::with_capacity(v.len());
        for x in v {
            cb.push_back(x);
        }
        cb
    }'''))
E('xr28', R, (RING, 'From<Vec<T>> for', 'from', '''fn from(mut v: Vec<T>) -> Self {
        let end = v.len();
        let mut buf: Vec<MaybeUninit<T>> = Vec::with_capacity(end + 1);
        buf.extend(v.drain(..).map(MaybeUninit::new));
        buf.push(MaybeUninit::uninit());
        Self { buffer: buf.into_boxed_slice(), start: 0, end }
    }'''))
E('xr29', R, (IT, '''        self.buf.pop_front()
    }
}

///An iterator that''', '''        let val = self.buf.pop_front()?;
        Some(val)
    }

    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.buf.len();
        (n, Some(n))
    }

    fn nth(&mut self, n: usize) -> Option<T> {
        for _ in 0..n {
            self.buf.pop_front()?;
        }
        self.buf.pop_front()
    }
}

///An iterator that'''))
E('xr30', R, (RING, None, 'is_full', '''fn is_full(&self) -> bool {
        (self.end + 1) % self.buffer.len() == self.start
    }'''), (RING, None, 'capacity', '''fn capacity(&self) -> usize {
        self.buffer.len().saturating_sub(1)
    }'''))
E('xr31', R, (RING, 'Debug for', 'fmt', '''fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("CircularBuffer{ ")?;
        write!(f, "start: {}, ", self.start)?;
        write!(f, "end: {}, ", self.end)?;
        write!(f, "buf_len: {} ", self.buffer.len())?;
        f.write_str("}")
    }'''))
E('xr32', R, (RING, ' Index<usize> for', 'index', '''fn index(&self, index: usize) -> &T {
        let slot = &self.buffer[self.internal_index(index)];
        unsafe { slot.assume_init_ref() }
    }'''), (RING, ' IndexMut<usize> for', 'index_mut', '''fn index_mut(&mut self, index: usize) -> &mut T {
        let index = self.internal_index(index);
        unsafe { self.buffer[index].assume_init_mut() }
    }'''))
E('xr33', R, (RING, ' Index<usize> for', 'index', '''fn index(&self, index: usize) -> &T {
        self.iter().nth(index).expect("Index outside of bound of CircularBuffer")
    }'''))
E('xr34', R, (RING, 'impl<T> PartialOrd for', 'partial_cmp', '''fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
        let n = self.len().min(other.len());
        for i in 0..n {
            let o = self[i].partial_cmp(&other[i]);
            if o != Some(Ordering::Equal) {
                return o;
            }
        }
        Some(self.len().cmp(&other.len()))
    }'''))
E('xr35', R, (RING, None, 'clear', '''fn clear(&mut self) {
        self.drain().count();
    }'''))

# ---------------------------------------------------------------- counter and disjoint set, second batch
SUBV, SUBR = 'SubAssign<Counter<T, S1>>', "SubAssign<&'a Counter<T, S1>>"
E('xk11', K, (CN, 'AddAssign<Counter<T, S1>> for', 'add_assign', '''fn add_assign(&mut self, rhs: Counter<T, S1>) {
        self.add_all(rhs.counter.into_iter())
    }'''), (CN, "AddAssign<&'a Counter<T, S1>>", 'add_assign', '''fn add_assign(&mut self, rhs: &'a Counter<T, S1>) {
        self.add_all(rhs.counter.iter().map(|(k, v)| (k.clone(), *v)))
    }'''), (CN, ADDREF, 'add', '''fn add(mut self, rhs: &'a Counter<T, S1>) -> <Self as Add<Self>>::Output {
        self.add_all(rhs.iter().map(|(k, &v)| (T::clone(k), v)));
        self
    }'''), (CN, '''    pub fn push(&mut self, val: T){
        *self.counter.entry(val).or_insert(0) += 1;
    }''', '''    pub fn push(&mut self, val: T){
        self.add_all(Some((val, 1)))
    }

    fn add_all<I: IntoIterator<Item = (T, usize)>>(&mut self, items: I) {
        for (key, n) in items {
            let count = self.counter.entry(key).or_insert(0);
            *count += n;
        }
    }'''))
E('xk12', K, (CN, SUBV, 'sub_assign', '''fn sub_assign(&mut self, rhs: Counter<T, S1>) {
        for (key, val) in rhs {
            self.take_away(key, val);
        }
    }'''), (CN, SUBR, 'sub_assign', '''fn sub_assign(&mut self, rhs: &'a Counter<T, S1>) {
        rhs.iter().for_each(|(key, val)| self.take_away(key.clone(), *val));
    }'''), (CN, "Sub<&'a Counter<T, S1>> for", 'sub', '''fn sub(mut self, rhs: &'a Counter<T, S1>) -> <Self as Sub<Self>>::Output {
        self -= rhs;
        self
    }'''), (CN, '    pub fn push(&mut self, val: T){', '''    fn take_away(&mut self, key: T, val: usize) {
        if let Entry::Occupied(mut entry) = self.counter.entry(key) {
            let left = entry.get().saturating_sub(val);
            if left > 0 {
                *entry.get_mut() = left;
            } else {
                entry.remove();
            }
        }
    }

    pub fn push(&mut self, val: T){'''))
E('xk13', K, (CN, SUBR, 'sub_assign', '''fn sub_assign(&mut self, rhs: &'a Counter<T, S1>) {
        self.counter.retain(|key, val| match rhs.counter.get(key) {
            Some(&r) if *val > r => {
                *val -= r;
                true
            }
            Some(_) => false,
            None => true
        })
    }'''))
E('xk14', K, (CN, 'From<HashMap<T, usize, S1>>', 'from', '''fn from(rhs: HashMap<T, usize, S1>) -> Self {
        let mut counter = HashMap::with_capacity_and_hasher(rhs.len(), S2::default());
        for (key, val) in rhs {
            counter.insert(key, val);
        }
        Counter { counter }
    }'''), (CN, "From<&'a HashMap<T, usize, S1>>", 'from', '''fn from(rhs: &'a HashMap<T, usize, S1>) -> Self {
        let mut counter: HashMap<T, usize, S2> = HashMap::default();
        counter.extend(rhs.iter().map(|(key, val)| (key.clone(), *val)));
        Self::from_hashmap(counter)
    }'''))
E('xk15', K, (CN, 'FromIterator<T>', 'from_iter', '''fn from_iter<I: IntoIterator<Item = T>>(iter: I) -> Self {
        let mut cnt = Self::default();
        cnt.extend(iter);
        cnt
    }'''), (CN, "FromIterator<&'a T>", 'from_iter', '''fn from_iter<I: IntoIterator<Item = &'a T>>(iter: I) -> Self {
        iter.into_iter().cloned().collect()
    }'''))
E('xk16', K, (CN, None, 'push', '''fn push(&mut self, val: T){
        match self.counter.get_mut(&val) {
            Some(count) => *count += 1,
            None => drop(self.counter.insert(val, 1))
        }
    }'''))
E('xk17', K, (CN, None, 'push', '''fn push(&mut self, val: T){
        match self.counter.entry(val) {
            Entry::Occupied(mut e) => *e.get_mut() += 1,
            Entry::Vacant(e) => {
                e.insert(1);
            }
        }
    }'''))
E('xk18', K, (CN, None, 'push', '''fn push(&mut self, val: T){
        self.counter.entry(val).and_modify(|c| *c += 1).or_insert(1);
    }'''), (CN, "Extend<&'a T> for", 'extend', '''fn extend<I: IntoIterator<Item = &'a T>>(&mut self, iter: I) {
        for key in iter {
            self.push(*key);
        }
    }'''))
E('xk19', K, (CN, '#[derive(Clone, PartialEq, Eq, Debug)]\npub struct Counter', '#[derive(Eq, Debug)]\npub struct Counter'), (CN, '''impl<T, S> Counter<T, S>
where
    T: Hash + Eq,
    S: BuildHasher,
{
''', '''impl<T, S> Clone for Counter<T, S> where T: Hash + Eq + Clone, S: BuildHasher + Clone {
    fn clone(&self) -> Self {
        Counter { counter: self.counter.clone() }
    }
}

impl<T, S> PartialEq for Counter<T, S> where T: Hash + Eq, S: BuildHasher {
    fn eq(&self, other: &Self) -> bool {
        self.counter.len() == other.counter.len()
            && self.counter.iter().all(|(key, val)| other.counter.get(key) == Some(val))
    }
}

impl<T, S> Counter<T, S>
where
    T: Hash + Eq,
    S: BuildHasher,
{
'''))
E('xk20', K, (CN, None, 'most_common', '''fn most_common(&self) -> Vec<(T, usize)>
    where
        T: Clone,
    {
        let mut res: Vec<(T, usize)> = Vec::new();
        for (key, &val) in &self.counter {
            let at = res.partition_point(|e| e.1 >= val);
            res.insert(at, (key.clone(), val));
        }
        res
    }'''))
E('xk21', K, (CN, None, 'most_common', '''fn most_common(&self) -> Vec<(T, usize)>
    where
        T: Clone,
    {
        let mut res = vec![];
        for (key, val) in self {
            res.push((key.clone(), *val));
        }
        res.sort_by(|(_, a), (_, b)| a.partial_cmp(b).unwrap().reverse());
        res
    }'''), (CN, None, 'into_most_common', '''fn into_most_common(self) -> Vec<(T, usize)> {
        let mut res: Vec<(usize, T)> = self.into_iter().map(|(k, v)| (v, k)).collect();
        res.sort_unstable_by(|a, b| usize::cmp(&b.0, &a.0));
        res.into_iter().map(|(v, k)| (k, v)).collect()
    }'''))
E('xk22', K, (CN, None, 'most_common', '''fn most_common(&self) -> Vec<(T, usize)>
    where
        T: Clone,
    {
        let mut order: Vec<(usize, &T)> = self.counter.iter().map(|(k, &v)| (v, k)).collect();
        order.sort_by_key(|e| e.0);
        order.iter().rev().map(|&(v, k)| (k.clone(), v)).collect()
    }'''))
E('xk23', K, (CN, None, 'most_common', '''fn most_common(&self) -> Vec<(T, usize)>
    where
        T: Clone,
    {
        let mut by_count = ::std::collections::BTreeMap::new();
        for (key, &val) in &self.counter {
            by_count.entry(val).or_insert_with(Vec::new).push(key.clone());
        }
        by_count.into_iter().rev().flat_map(|(val, keys)| keys.into_iter().map(move |key| (key, val))).collect()
    }'''))
E('xk24', K, (CN, ADDREF, 'add', '''fn add(self, rhs: &'a Counter<T, S1>) -> <Self as Add<Self>>::Output {
        rhs.iter().fold(self, |mut acc, (key, &val)| {
            *acc.counter.entry(key.clone()).or_default() += val;
            acc
        })
    }'''), (CN, SUBV, 'sub_assign', '''fn sub_assign(&mut self, rhs: Counter<T, S1>) {
        *self -= &rhs;
    }''') if False else (CN, ADDREF, 'add', '''fn add(self, rhs: &'a Counter<T, S1>) -> <Self as Add<Self>>::Output {
        rhs.iter().fold(self, |mut acc, (key, &val)| {
            *acc.counter.entry(key.clone()).or_default() += val;
            acc
        })
    }'''))
E('xk25', K, (CN, SUBV, 'sub_assign', '''fn sub_assign(&mut self, rhs: Counter<T, S1>) {
        rhs.counter.into_iter().for_each(|(key, val)| {
            match self.counter.entry(key) {
                Entry::Occupied(e) if *e.get() <= val => drop(e.remove_entry()),
                Entry::Occupied(mut e) => *e.get_mut() -= val,
                Entry::Vacant(_) => ()
            }
        })
    }'''))
E('xk26', K, (CN, 'AddAssign<Counter<T, S1>> for', 'add_assign', '''fn add_assign(&mut self, rhs: Counter<T, S1>) {
        self.counter.reserve(rhs.len());
        let mut it = rhs.into_iter();
        loop {
            let (key, val) = match it.next() {
                Some(pair) => pair,
                None => break
            };
            if val == 0 && self.counter.contains_key(&key) {
                continue;
            }
            *self.counter.entry(key).or_insert(0) += val;
        }
    }'''))

E('xd11', D, (DS, None, 'find_with_path_compression', '''fn find_with_path_compression(data_by_id: &mut Vec<Data>, id: usize) -> usize{
        let mut node = id;
        loop {
            let parent = data_by_id[node].parent;
            let grand = data_by_id[parent].parent;
            if parent == grand {
                return parent;
            }
            data_by_id[node].parent = grand;
            node = grand;
        }
    }'''))
E('xd12', D, (DS, None, 'find_with_path_compression', '''fn find_with_path_compression(data_by_id: &mut Vec<Data>, mut id: usize) -> usize{
        while data_by_id[id].parent != id {
            let parent = data_by_id[id].parent;
            data_by_id[id].parent = data_by_id[parent].parent;
            id = parent;
        }
        id
    }'''))
E('xd13', D, (DS, "Iterator for SetIter", 'next', '''fn next(&mut self) -> Option<<Self as Iterator>::Item> {
        self.sets.next().map(|(_, group)| group.into_iter())
    }

    fn size_hint(&self) -> (usize, Option<usize>) {
        self.sets.size_hint()
    }'''))
E('xd14', D, (DS, None, 'build_sets', '''fn build_sets<'a>(&'a mut self) -> HashMap<usize, Vec<&'a T>> {
        let n = self.data_by_id.len();
        let mut roots = Vec::with_capacity(n);
        for id in 0..n {
            roots.push(Self::find_with_path_compression(&mut self.data_by_id, id));
        }
        let mut map : HashMap<usize, Vec<&'a T>> = HashMap::new();
        for (key, &id) in self.ids.iter() {
            map.entry(roots[id]).or_default().push(key);
        }
        map
    }'''))
E('xd15', D, (DS, None, 'build_sets', '''fn build_sets<'a>(&'a mut self) -> HashMap<usize, Vec<&'a T>> {
        let data = &mut self.data_by_id;
        let with_root = self.ids.iter().map(|(key, &id)| (Self::find_with_path_compression(data, id), key));
        let mut map : HashMap<usize, Vec<&'a T>> = HashMap::new();
        with_root.for_each(|(root, key)| map.entry(root).or_insert_with(|| Vec::with_capacity(1)).push(key));
        map
    }'''))
E('xd16', D, (DS, None, 'union', '''fn union(&mut self, a :T, b: T) {
        let a = self.make_or_get_set(a);
        let b = self.make_or_get_set(b);
        if a == b {
            return;
        }
        let a = Self::find_with_path_compression(&mut self.data_by_id, a);
        let b = Self::find_with_path_compression(&mut self.data_by_id, b);
        if a != b {
            self.link(a, b)
        }
    }

    fn link(&mut self, a: usize, b: usize) {
        let Data { rank: ra, .. } = self.data_by_id[a];
        let Data { rank: rb, .. } = self.data_by_id[b];
        let (child, parent) = if ra < rb { (a, b) } else { (b, a) };
        self.data_by_id[child].parent = parent;
        self.data_by_id[parent].rank += (ra == rb) as u32;
    }'''))
E('xd17', D, (DS, None, 'in_union', '''fn in_union(&mut self, a :&T, b: &T) -> bool{
        if let (Some(&a), Some(&b)) = (self.ids.get(a), self.ids.get(b)) {
            let roots = [a, b].iter().map(|&id| Self::find_with_path_compression(&mut self.data_by_id, id)).collect::<Vec<_>>();
            roots[0] == roots[1]
        } else {
            false
        }
    }'''))
E('xd18', D, (DS, None, 'in_union', '''fn in_union(&mut self, a :&T, b: &T) -> bool{
        (|| {
            let a = *self.ids.get(a)?;
            let b = *self.ids.get(b)?;
            let ra = Self::find_with_path_compression(&mut self.data_by_id, a);
            let rb = Self::find_with_path_compression(&mut self.data_by_id, b);
            Some(ra == rb)
        })().unwrap_or(false)
    }'''))
E('xd19', D, (DS, None, 'make_or_get_set', '''fn make_or_get_set(&mut self, val: T) -> usize{
        let next_id = self.data_by_id.len();
        let id = *self.ids.entry(val).or_insert(next_id);
        if id == next_id {
            self.data_by_id.push(Data { parent: id, rank: 0 });
        }
        id
    }'''))
E('xd20', D, (DS, None, 'clear', '''fn clear(&mut self) {
        drop(::std::mem::take(&mut self.data_by_id));
        self.ids.drain().for_each(drop);
    }'''), (DS, None, 'is_empty', '''fn is_empty(&self) -> bool {
        self.len() == 0
    }'''), (DS, None, 'len', '''fn len(&self) -> usize {
        self.data_by_id.len()
    }'''))
E('xd21', D, (DS, '''struct Data {
    pub parent: usize,
    pub rank: u32
}''', '''struct Data {
    pub rank: u8,
    pub parent: usize
}'''), (DS, None, 'find_with_path_compression', '''fn find_with_path_compression(data_by_id: &mut Vec<Data>, id: usize) -> usize{
        match data_by_id[id].parent {
            parent if parent == id => id,
            parent => {
                let root = Self::find_with_path_compression(data_by_id, parent);
                data_by_id[id] = Data { parent: root, ..data_by_id[id] };
                root
            }
        }
    }'''))
E('xd22', D, (DS, None, 'find_with_path_compression', '''fn find_with_path_compression(data_by_id: &mut [Data], id: usize) -> usize{
        let root = ::std::iter::successors(Some(id), |&i| {
            let p = data_by_id[i].parent;
            if p == i { None } else { Some(p) }
        }).last().unwrap();
        let mut node = id;
        while let Data { parent, .. } = data_by_id[node] {
            if parent == root {
                break;
            }
            data_by_id[node].parent = root;
            node = parent;
        }
        root
    }'''))
E('xd23', D, (DS, None, 'find_with_path_compression', '''fn find_with_path_compression(data_by_id: &mut Vec<Data>, id: usize) -> usize{
        fn root_of(data: &[Data], id: usize) -> usize {
            if data[id].parent == id { id } else { root_of(data, data[id].parent) }
        }
        let root = root_of(data_by_id, id);
        let mut cur = id;
        while cur != root {
            let next = data_by_id[cur].parent;
            data_by_id[cur].parent = root;
            cur = next;
        }
        root
    }'''))
E('xd24', D, (DS, "Extend<&'a T>", 'extend', '''fn extend<I: IntoIterator<Item = &'a T>>(&mut self, iter: I) {
        self.extend(iter.into_iter().copied())
    }'''), (DS, 'FromIterator<T>', 'from_iter', '''fn from_iter<I: IntoIterator<Item = T>>(iter: I) -> Self {
        iter.into_iter().fold(Self::default(), |mut ds, val| {
            ds.make_or_get_set(val);
            ds
        })
    }'''))
E('xd25', D, (DS, None, 'make_or_get_set', '''fn make_or_get_set(&mut self, val: T) -> usize{
        let DisjointSet { ids, data_by_id } = self;
        let fresh = ids.len();
        let id = match ids.entry(val) {
            Entry::Occupied(entry) => return *entry.into_mut(),
            Entry::Vacant(entry) => *entry.insert(fresh)
        };
        data_by_id.extend(Some(Data::new(id)));
        id
    }'''))
# constants above the sizes that are run through
E('xr36', R, (RING, 'impl <T> Extend<T> for', 'extend', '''fn extend<I: IntoIterator<Item=T>>(&mut self, iter: I) {
        const CHUNK: usize = 256;
        let mut it = iter.into_iter();
        loop {
            let mut n = 0;
            while n < CHUNK {
                match it.next() {
                    Some(el) => self.push_back(el),
                    None => return
                }
                n += 1;
            }
        }
    }'''))
E('xr37', R, (RING, None, 'clear', '''fn clear(&mut self) {
        //small buffers are emptied from the back, large ones from the front
        if self.len() > 1024 {
            while self.pop_front().is_some() {}
            return;
        }
        while let Some(val) = self.pop_back() {
            drop(val)
        }
    }'''))
E('xr38', R, (RING, 'impl<T> Clone', 'clone', '''fn clone(&self) -> Self {
        let mut cb = Self::with_capacity(self.capacity());
        let mut at = 0;
        while at < self.len() {
            let next = ::std::cmp::min(at + 64, self.len());
            for i in at..next {
                cb.push_back(self[i].clone());
            }
            at = next;
        }
        cb
    }'''))
E('xr39', R, (RING, 'impl <T> Extend<T> for', 'extend', '''fn extend<I: IntoIterator<Item=T>>(&mut self, iter: I) {
        let mut part = Vec::with_capacity(128);
        for el in iter{
            if part.len() == 128 {
                for x in part.drain(..) {
                    self.push_back(x);
                }
            }
            part.push(el);
        }
        for x in part {
            self.push_back(x);
        }
    }'''))
E('xr40', R, (RING, 'impl<T> Clone', 'clone', '''fn clone(&self) -> Self {
        let mut cb = Self::with_capacity(self.capacity());
        let blocks = self.len() / 64;
        let mut it = self.iter();
        for _ in 0..blocks {
            for el in it.by_ref().take(64) {
                cb.push_back(el.clone());
            }
        }
        let rest = self.len() % 64;
        for el in it.take(rest) {
            cb.push_back(el.clone());
        }
        cb
    }'''))
E('xk27', K, (CN, 'impl<T, S> FromIterator<T> for', 'from_iter', '''fn from_iter<I: IntoIterator<Item = T>>(iter: I) -> Self {
        let iter = iter.into_iter();
        let mut cnt = Self::with_capacity(::std::cmp::min(iter.size_hint().0, 4096));
        for key in iter {
            cnt.push(key);
        }
        cnt
    }'''), (CN, None, 'extend', '''fn extend<I: IntoIterator<Item = T>>(&mut self, iter: I) {
        let iter = iter.into_iter();
        let hint = iter.size_hint().0;
        if hint <= 1 << 16 {
            self.counter.reserve(hint);
        }
        for key in iter {
            self.push(key);
        }
    }'''))
E('xd26', D, (DS, 'Extend<T>', 'extend', '''fn extend<I: IntoIterator<Item = T>>(&mut self, iter: I) {
        let iter = iter.into_iter();
        self.reserve(iter.size_hint().0.min(u16::max_value() as usize));
        let mut iter = iter.fuse();
        let mut more = true;
        while more {
            more = false;
            for val in iter.by_ref().take(500) {
                more = true;
                self.make_set(val)
            }
        }
    }'''))
E('xd27', D, (DS, None, 'find_with_path_compression', '''fn find_with_path_compression(data_by_id: &mut Vec<Data>, id: usize) -> usize{
        let mut root = id;
        let mut steps = 0;
        while data_by_id[root].parent != root {
            root = data_by_id[root].parent;
            steps += 1;
        }
        //short chains are not worth a second walk over more than this many nodes
        let mut node = id;
        while steps > 0 && steps < 100 {
            let next = data_by_id[node].parent;
            data_by_id[node].parent = root;
            node = next;
            steps -= 1;
        }
        root
    }'''))
# redundant fields
SIZE = [(RING, '''    start: usize,
    end:usize
}''', '''    start: usize,
    end:usize,
    size: usize
}'''), (RING, '''            start: 0,
            end: 0
        }''', '''            start: 0,
            end: 0,
            size: 0
        }'''), (RING, None, 'len', '''fn len(&self) -> usize {
        self.size
    }'''), (RING, '''        self.end += 1;
''', '''        self.size += 1;
        self.end += 1;
'''), (RING, '''        self.end = if self.end == 0 {''', '''        self.size -= 1;
        self.end = if self.end == 0 {'''), (RING, '''        self.start +=1;
''', '''        self.start +=1;
        self.size -= 1;
'''), (RING, '''        self.start = if self.start == 0 {''', '''        self.size += 1;
        self.start = if self.start == 0 {'''), (RING, '''        self.end = elem_num;
''', '''        self.end = elem_num;
        self.size = elem_num;
'''), (RING, '''        let end = buf.len() -1;
        Self {
            buffer: buf.into_boxed_slice(),
            start: 0,
            end
        }''', '''        let end = buf.len() -1;
        Self {
            buffer: buf.into_boxed_slice(),
            start: 0,
            end,
            size: end
        }''')]
E('xr41', R, *SIZE)
E('xr42', R, (RING, '''    start: usize,
    end:usize
}''', '''    start: usize,
    end:usize,
    limit: usize,
    full: bool
}'''), (RING, '''            start: 0,
            end: 0
        }''', '''            start: 0,
            end: 0,
            limit: capacity,
            full: capacity == 0
        }'''), (RING, None, 'capacity', '''fn capacity(&self) -> usize{
        self.limit
    }'''), (RING, None, 'is_full', '''fn is_full(&self) -> bool {
        self.full
    }'''), (RING, None, 'incr_end', '''fn incr_end(&mut self) {
        debug_assert!(!self.is_full());
        self.end += 1;
        if self.end == self.buffer.len(){
            self.end = 0;
        }
        self.full = self.len() == self.limit;
    }'''), (RING, None, 'decr_start', '''fn decr_start(&mut self){
        debug_assert!(!self.is_full());
        self.start = if self.start == 0 {
            self.buffer.len() - 1
        } else {
            self.start - 1
        };
        self.full = self.len() == self.limit;
    }'''), (RING, '''        self.end = if self.end == 0 {
            self.buffer.len() - 1
        } else {
            self.end - 1
        }''', '''        self.full = false;
        self.end = if self.end == 0 {
            self.buffer.len() - 1
        } else {
            self.end - 1
        }'''), (RING, '''        self.start +=1;
''', '''        self.full = false;
        self.start +=1;
'''), (RING, '''        self.end = elem_num;
''', '''        self.end = elem_num;
        self.limit = capacity;
        self.full = elem_num == capacity;
'''), (RING, '''        let end = buf.len() -1;
        Self {
            buffer: buf.into_boxed_slice(),
            start: 0,
            end
        }''', '''        let end = buf.len() -1;
        Self {
            buffer: buf.into_boxed_slice(),
            start: 0,
            end,
            limit: end,
            full: true
        }'''))
E('xr43', R, (RING, '''    start: usize,
    end:usize
}''', '''    start: usize,
    end:usize,
    marker: ::std::marker::PhantomData<T>
}'''), (RING, '''            start: 0,
            end: 0
        }''', '''            start: 0,
            end: 0,
            marker: ::std::marker::PhantomData
        }'''), (RING, '''        let end = buf.len() -1;
        Self {
            buffer: buf.into_boxed_slice(),
            start: 0,
            end
        }''', '''        let end = buf.len() -1;
        Self {
            buffer: buf.into_boxed_slice(),
            start: 0,
            end,
            marker: ::std::marker::PhantomData
        }'''))
E('xd28', D, (DS, '''    pub rank: u32
''', '''    pub size: usize
'''), (DS, '''            rank: 0
''', '''            size: 1
'''), (DS, None, 'union', '''fn union(&mut self, a :T, b: T) {
        let a = self.make_or_get_set(a);
        let b = self.make_or_get_set(b);
        let mut a_root = Self::find_with_path_compression(&mut self.data_by_id, a);
        let mut b_root = Self::find_with_path_compression(&mut self.data_by_id, b);
        if a_root != b_root {
            if self.data_by_id[a_root].size < self.data_by_id[b_root].size {
                ::std::mem::swap(&mut a_root, &mut b_root);
            }
            self.data_by_id[b_root].parent = a_root;
            self.data_by_id[a_root].size += self.data_by_id[b_root].size;
        }
    }'''))

E('xk28', K, (CN, None, 'push', '''fn push(&mut self, val: T) {
        static PUSHED: ::std::sync::atomic::AtomicUsize = ::std::sync::atomic::AtomicUsize::new(0);
        static ONE: usize = 1;
        PUSHED.fetch_add(1, ::std::sync::atomic::Ordering::Relaxed);
        *self.counter.entry(val).or_insert(0) += ONE;
    }'''))
E('xd29', D, (DS, None, 'union', '''fn union(&mut self, a: T, b: T) {
        static JOINS: ::std::sync::atomic::AtomicUsize = ::std::sync::atomic::AtomicUsize::new(0);
        if JOINS.load(::std::sync::atomic::Ordering::Relaxed) < ::std::usize::MAX {
            JOINS.fetch_add(1, ::std::sync::atomic::Ordering::Relaxed);
        }
        let a = self.make_or_get_set(a);
        let b = self.make_or_get_set(b);
        let a_root = Self::find_with_path_compression(&mut self.data_by_id, a);
        let b_root = Self::find_with_path_compression(&mut self.data_by_id, b);
        if a_root == b_root {
            return;
        }
        let (a_rank, b_rank) = (self.data_by_id[a_root].rank, self.data_by_id[b_root].rank);
        let (child, root) = if a_rank < b_rank { (a_root, b_root) } else { (b_root, a_root) };
        self.data_by_id[child].parent = root;
        if a_rank == b_rank {
            self.data_by_id[root].rank += 1;
        }
    }'''))

# ---- room and constant work ----
E('xd30', D, (DS, None, 'with_capacity', '''fn with_capacity(capacity: usize) -> Self where S: Default{
        let mut ds = Self::with_hasher(Default::default());
        ds.reserve(capacity);
        ds
    }'''))
E('xd31', D, (DS, None, 'reserve', '''fn reserve(&mut self, additional: usize) {
        if additional == 0 {
            return;
        }
        let free = self.data_by_id.capacity() - self.data_by_id.len();
        if free < additional {
            self.data_by_id.reserve(additional);
        }
        if self.ids.capacity() - self.ids.len() < additional {
            self.ids.reserve(additional);
        }
    }'''))
E('xd32', D, (DS, None, 'find_with_path_compression', '''fn find_with_path_compression(data_by_id: &mut Vec<Data>, id: usize) -> usize{
        let mut at = id;
        while data_by_id[at].parent != at {
            let up = data_by_id[data_by_id[at].parent].parent;
            data_by_id[at].parent = up;
            at = up;
        }
        at
    }'''))
E('xd33', D, (DS, None, 'make_or_get_set', '''fn make_or_get_set(&mut self, val: T) -> usize{
        if let Some(&id) = self.ids.get(&val) {
            return id;
        }
        let id = self.data_by_id.len();
        self.ids.insert(val, id);
        self.data_by_id.push(Data { parent: id, rank: 0 });
        id
    }'''))
E('xd34', D, (DS, None, 'with_capacity', '''fn with_capacity(capacity: usize) -> Self where S: Default{
        Self::with_capacity_and_hasher(capacity, S::default())
    }'''), (DS, None, 'with_capacity_and_hasher', '''fn with_capacity_and_hasher(capacity: usize, hash_builder: S) -> Self {
        let mut data_by_id = Vec::new();
        data_by_id.reserve_exact(capacity);
        let ids = HashMap::with_capacity_and_hasher(capacity, hash_builder);
        Self { ids, data_by_id }
    }'''))
E('xd35', D, (DS, 'Extend<T>', 'extend', '''fn extend<I: IntoIterator<Item = T>>(&mut self, iter: I) {
        iter.into_iter().for_each(|val| self.make_set(val));
    }'''))
E('xd36', D, (DS, 'Extend<T>', 'extend', '''fn extend<I: IntoIterator<Item = T>>(&mut self, iter: I) {
        let mut iter = iter.into_iter();
        let (lower, upper) = iter.size_hint();
        self.reserve(match upper {
            Some(u) if u < lower => u,
            _ => lower
        });
        while let Some(val) = iter.next() {
            self.make_or_get_set(val);
        }
    }'''))
E('xd37', D, (DS, None, 'with_capacity', '''fn with_capacity(capacity: usize) -> Self where S: Default{
        let mut ds: Self = Default::default();
        if capacity > 0 {
            ds.ids.reserve(capacity);
            ds.data_by_id = Vec::with_capacity(capacity);
        }
        ds
    }'''))
E('xd38', D, (DS, None, 'in_union', '''fn in_union(&mut self, a :&T, b: &T) -> bool{
        match (self.ids.get(a), self.ids.get(b)) {
            (Some(&a), Some(&b)) => {
                let table = &mut self.data_by_id;
                a == b || Self::find_with_path_compression(table, a) == Self::find_with_path_compression(table, b)
            },
            _ => false
        }
    }'''))
E('xd39', D, (DS, None, 'clear', '''fn clear(&mut self) {
        self.data_by_id.truncate(0);
        self.ids.drain();
    }'''))
E('xk29', K, (CN, None, 'with_capacity', '''fn with_capacity(capacity: usize) -> Counter<T, S> where S: Default{
        let mut c = Counter::with_hasher(S::default());
        c.counter.reserve(capacity);
        c
    }'''))
E('xk30', K, (CN, None, 'push', '''fn push(&mut self, val: T){
        if let Some(n) = self.counter.get_mut(&val) {
            *n += 1;
            return;
        }
        self.counter.insert(val, 1);
    }'''))
E('xk31', K, (CN, 'Extend<T>', 'extend', '''fn extend<I: IntoIterator<Item = T>>(&mut self, iter: I) {
        let iter = iter.into_iter();
        let n = iter.size_hint().0;
        if n > self.counter.capacity() - self.counter.len() {
            self.counter.reserve(n);
        }
        iter.for_each(|key| self.push(key));
    }'''))
E('xk32', K, (CN, None, 'push', '''fn push(&mut self, val: T){
        self.counter.entry(val).and_modify(|n| *n += 1).or_insert(1);
    }'''), (CN, None, 'with_capacity_and_hasher', '''fn with_capacity_and_hasher(capacity: usize, hash_builder: S) -> Counter<T, S> {
        let mut counter = HashMap::with_hasher(hash_builder);
        if capacity != 0 {
            counter.reserve(capacity);
        }
        Counter { counter }
    }'''))
# styles not used above: signed and wrapping arithmetic, labelled blocks, local enums, traits, modules, macros, function values
E('xs01', R, (RING, None, 'len', '''fn len(&self) -> usize {
        let distance = self.end.wrapping_sub(self.start);
        if self.start > self.end {
            distance.wrapping_add(self.buffer.len())
        } else {
            distance
        }
    }'''))
E('xs02', R, (RING, None, 'internal_index', '''fn internal_index(&self, index: usize) -> usize {
        assert!(index < self.len(), "Index outside of bound of CircularBuffer");
        match index.overflowing_sub(self.buffer.len() - self.start) {
            (_, true) => index + self.start,
            (i, false) => i,
        }
    }'''))
E('xs03', R, (RING, None, 'slices', '''fn slices(&self) -> (&[T], &[T]){
        enum Layout { Straight, Wrapped }
        let layout = if self.start <= self.end { Layout::Straight } else { Layout::Wrapped };
        let (a, b) = match layout {
            Layout::Straight => (&self.buffer[self.start..self.end], &self.buffer[..0]),
            Layout::Wrapped => (&self.buffer[self.start..], &self.buffer[..self.end]),
        };
        unsafe{(transmute(a), transmute(b))}
    }'''))
E('xs04', R, (RING, None, 'incr_end', '''fn incr_end(&mut self) {
        debug_assert!(!self.is_full());
        self.end = 'next: {
            if self.end + 1 < self.buffer.len() {
                break 'next self.end + 1;
            }
            0
        };
    }'''))
E('xs05', R, (RING, None, 'decr_end', '''fn decr_end(&mut self) {
        debug_assert!(!self.is_empty());
        self.end = self.end.before(self.buffer.len());
    }'''), (RING, None, 'decr_start', '''fn decr_start(&mut self){
        debug_assert!(!self.is_full());
        self.start = self.start.before(self.buffer.len());
    }'''), (RING, None, 'incr_start', '''fn incr_start(&mut self) {
        debug_assert!(!self.is_empty());
        self.start = self.start.after(self.buffer.len());
    }'''), (RING, 'impl<T> Drop for CircularBuffer<T> {', '''trait Slot {
    fn after(self, slots: usize) -> Self;
    fn before(self, slots: usize) -> Self;
}
impl Slot for usize {
    fn after(self, slots: usize) -> usize {
        if self + 1 == slots {0} else {self + 1}
    }
    fn before(self, slots: usize) -> usize {
        self.checked_sub(1).unwrap_or(slots - 1)
    }
}

impl<T> Drop for CircularBuffer<T> {'''))
E('xs06', R, (RING, None, 'push_back', '''fn push_back(&mut self, val: T) {
        if self.make_room(Self::pop_front) {
            self.push_at(val, self.end);
            self.incr_end();
        }
    }

    fn make_room(&mut self, evict: fn(&mut Self) -> Option<T>) -> bool {
        if self.capacity() == 0 {
            return false;
        }
        if self.is_full() {
            evict(self);
        }
        true
    }'''), (RING, None, 'push_front', '''fn push_front(&mut self, val: T) {
        if self.make_room(Self::pop_back) {
            self.decr_start();
            self.push_at(val, self.start);
        }
    }'''))
E('xs07', R, (RING, None, 'push_back', '''fn push_back(&mut self, val: T) {
        self.make_room(|cb| drop(cb.pop_front()), move |cb| {
            cb.push_at(val, cb.end);
            cb.incr_end();
        });
    }

    fn make_room(&mut self, evict: impl FnOnce(&mut Self), store: impl FnOnce(&mut Self)) {
        match (self.capacity(), self.is_full()) {
            (0, _) => return,
            (_, true) => evict(self),
            (_, false) => {}
        }
        store(self)
    }'''), (RING, None, 'push_front', '''fn push_front(&mut self, val: T) {
        self.make_room(|cb| drop(cb.pop_back()), move |cb| {
            cb.decr_start();
            cb.push_at(val, cb.start);
        });
    }'''))
E('xs08', R, (RING, None, 'clear', '''fn clear(&mut self) {
        ::std::iter::from_fn(|| self.pop_back()).for_each(drop);
    }'''), (RING, None, 'reverse', '''fn reverse(&mut self) {
        let n = self.len();
        for (a, b) in (0..n/2).zip((0..n).rev()) {
            self.swap(a, b);
        }
    }'''))
E('xs09', R, (RING, None, 'resize', '''fn resize (&mut self, capacity: usize) {
        let mut new_buf = Vec::with_capacity(capacity.checked_add(1).expect("capacity overflow"));
        let excess = self.len().saturating_sub(capacity);
        {
            let mut old = self.drain();
            for _ in 0..excess {
                old.next();
            }
            new_buf.extend(old.map(MaybeUninit::new));
        }
        let end = new_buf.len();
        new_buf.resize_with(capacity + 1, MaybeUninit::uninit);
        new_buf.shrink_to_fit();
        self.buffer = new_buf.into_boxed_slice();
        self.start = 0;
        self.end = end;
    }'''))
E('xs10', R, (RING, None, 'incr_end', '''fn incr_end(&mut self) {
        debug_assert!(!self.is_full());
        step!(self.end, forward, self.buffer.len());
    }'''), (RING, None, 'decr_end', '''fn decr_end(&mut self) {
        debug_assert!(!self.is_empty());
        step!(self.end, back, self.buffer.len());
    }'''), (RING, 'pub struct CircularBuffer<T> {', '''pub struct CircularBuffer<T> {'''), (RING, 'use std::fmt;\n', '''use std::fmt;
macro_rules! step {
    ($pos:expr, forward, $slots:expr) => { $pos = if $pos == $slots - 1 { 0 } else { $pos + 1 } };
    ($pos:expr, back, $slots:expr) => { $pos = if $pos > 0 { $pos - 1 } else { $slots - 1 } };
}
'''))
E('xs11', R, (RING, None, 'internal_index', '''fn internal_index(&self, index: usize) -> usize {
        let Some(i) = geometry::slot(self.start, self.len(), self.buffer.len(), index) else {
            panic!("Index outside of bound of CircularBuffer")
        };
        i
    }'''), (RING, None, 'len', '''fn len(&self) -> usize {
        geometry::distance(self.start, self.end, self.buffer.len())
    }'''), (RING, 'impl<T> Drop for CircularBuffer<T> {', '''mod geometry {
    pub(super) fn distance(from: usize, to: usize, slots: usize) -> usize {
        if from > to { slots - from + to } else { to - from }
    }
    pub(super) fn slot(start: usize, len: usize, slots: usize, index: usize) -> Option<usize> {
        if index >= len {
            return None;
        }
        let room = slots - start;
        Some(if index < room { start + index } else { index - room })
    }
}

impl<T> Drop for CircularBuffer<T> {'''))
E('xs12', R, (RING, None, 'swap', '''fn swap(&mut self, a: usize, b: usize) {
        let [a, b] = [a, b].map(|i| self.internal_index(i));
        self.buffer.swap(a, b);
    }'''), (RING, None, 'is_full', '''fn is_full(&self) -> bool {
        (self.end + 1) % self.buffer.len() == self.start
    }'''))
E('xs13', R, (RING, None, 'pop_at', '''fn pop_at(&mut self, index: usize) -> T {
        let slot: &MaybeUninit<T> = &self.buffer[index];
        unsafe{slot.assume_init_read()}
    }'''), (RING, None, 'pop_front', '''fn pop_front(&mut self) -> Option<T> {
        (!self.is_empty()).then(|| {
            let front = self.start;
            self.incr_start();
            self.pop_at(front)
        })
    }'''))
E('xs14', R, (RING, "impl<T> PartialEq for", 'eq', '''fn eq(&self, other: &Self) -> bool {
        let ((a, b), (c, d)) = (self.slices(), other.slices());
        a.len() + b.len() == c.len() + d.len() && a.iter().chain(b).eq(c.iter().chain(d))
    }'''), (RING, 'impl<T> Ord for', 'cmp', '''fn cmp(&self, other: &Self) -> Ordering {
        let mut rest = other.iter();
        let res = self.iter().try_fold((), |_, x| match rest.next().map(|y| x.cmp(y)) {
            Some(Ordering::Equal) => Ok(()),
            Some(o) => Err(o),
            None => Err(Ordering::Greater),
        });
        match (res, rest.next()) {
            (Err(o), _) => o,
            (Ok(()), Some(_)) => Ordering::Less,
            (Ok(()), None) => Ordering::Equal,
        }
    }'''))
E('xs15', R, (RING, 'impl <T> Extend<T>', 'extend', '''fn extend<I: IntoIterator<Item=T>>(&mut self, iter: I) {
        let mut source = iter.into_iter();
        loop {
            match source.next() {
                Some(el) => self.push_back(el),
                None => break,
            }
        }
    }'''), (RING, "impl <'a, T> Extend<&'a T>", 'extend', '''fn extend<I: IntoIterator<Item=&'a T>>(&mut self, iter: I) {
        <Self as Extend<T>>::extend(self, iter.into_iter().cloned())
    }'''), (RING, None, 'append', '''fn append(&mut self, other: &mut Self) {
        let mut items = other.drain();
        while let Some(el) = items.next() {
            self.push_back(el);
        }
    }'''))
E('xs16', R, (RING, None, 'with_capacity', '''fn with_capacity(capacity: usize) -> Self {
        Self::from_slots(Vec::new(), capacity)
    }

    fn from_slots(mut slots: Vec<MaybeUninit<T>>, capacity: usize) -> Self {
        let end = slots.len();
        let total = capacity.checked_add(1).expect("capacity overflow");
        slots.reserve_exact(total - end);
        while slots.len() < total {
            slots.push(MaybeUninit::uninit());
        }
        Self { buffer: slots.into_boxed_slice(), start: 0, end }
    }'''))
E('xk50', K, (CN, " SubAssign<Counter<T, S1>>", 'sub_assign', '''fn sub_assign(&mut self, rhs: Counter<T, S1>) {
        for (key, val) in rhs {
            self.take_off(key, val);
        }
    }
}
impl<T, S> Counter<T, S>
where
    T: Hash + Eq,
    S: BuildHasher,
{
    fn take_off(&mut self, key: T, val: usize) {
        let Entry::Occupied(mut entry) = self.counter.entry(key) else { return };
        match entry.get().checked_sub(val) {
            None | Some(0) => drop(entry.remove_entry()),
            Some(left) => *entry.get_mut() = left,
        }
    }'''))
E('xk51', K, (CN, None, 'push', '''fn push(&mut self, val: T){
        fn bump(n: &mut usize) { *n += 1 }
        self.change(val, bump)
    }

    fn change(&mut self, key: T, f: impl FnOnce(&mut usize)) {
        f(self.counter.entry(key).or_default())
    }'''), (CN, ' AddAssign<Counter<T, S1>>', 'add_assign', '''fn add_assign(&mut self, rhs: Counter<T, S1>) {
        rhs.into_iter().for_each(|(key, val)| self.change(key, |n| *n += val));
    }'''))
E('xk52', K, (CN, None, 'into_most_common', '''fn into_most_common(self) -> Vec<(T, usize)> {
        let mut res = self.counter.into_iter().collect::<Vec<_>>();
        res.sort_unstable_by_key(by_count);
        res
    }'''), (CN, None, 'most_common', '''fn most_common(&self) -> Vec<(T, usize)>
    where
        T: Clone,
    {
        let mut res = Vec::new();
        for (key, val) in &self.counter {
            res.push((key.clone(), *val));
        }
        res.sort_unstable_by_key(by_count);
        res
    }'''), (CN, '#[derive(Clone, PartialEq, Eq, Debug)]\npub struct Counter', '''fn by_count<T>(entry: &(T, usize)) -> ::std::cmp::Reverse<usize> {
    ::std::cmp::Reverse(entry.1)
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Counter'''))
E('xk53', K, (CN, "From<HashMap<T, usize, S1>>", 'from', '''fn from(rhs: HashMap<T, usize, S1>) -> Self {
        let mut counter = HashMap::with_capacity_and_hasher(rhs.len(), S2::default());
        for (key, val) in rhs {
            counter.insert(key, val);
        }
        Self::from_hashmap(counter)
    }'''), (CN, "From<&'a HashMap<T, usize, S1>>", 'from', '''fn from(rhs: &'a HashMap<T, usize, S1>) -> Self {
        Self::from_hashmap(rhs.iter().map(|(key, val)| (key.clone(), *val)).collect())
    }'''))
E('xd50', D, (DS, None, 'union', '''fn union(&mut self, a :T, b: T) {
        enum Join { Left, Right, Grow }
        let a = self.make_or_get_set(a);
        let b = self.make_or_get_set(b);
        let a = Self::find_with_path_compression(&mut self.data_by_id, a);
        let b = Self::find_with_path_compression(&mut self.data_by_id, b);
        if a == b {
            return;
        }
        let join = match self.data_by_id[a].rank.cmp(&self.data_by_id[b].rank) {
            ::std::cmp::Ordering::Less => Join::Right,
            ::std::cmp::Ordering::Greater => Join::Left,
            ::std::cmp::Ordering::Equal => Join::Grow,
        };
        match join {
            Join::Right => self.data_by_id[a].parent = b,
            Join::Left => self.data_by_id[b].parent = a,
            Join::Grow => {
                self.data_by_id[b].parent = a;
                self.data_by_id[a].rank += 1;
            }
        }
    }'''))
E('xd51', D, (DS, None, 'in_union', '''fn in_union(&mut self, a :&T, b: &T) -> bool{
        let (Some(&a), Some(&b)) = (self.ids.get(a), self.ids.get(b)) else {
            return false;
        };
        let [a, b] = [a, b].map(|id| Self::find_with_path_compression(&mut self.data_by_id, id));
        a == b
    }'''))
E('xd52', D, (DS, None, 'find_with_path_compression', '''fn find_with_path_compression(data_by_id: &mut Vec<Data>, id: usize) -> usize{
        let mut root = id;
        let root = loop {
            match data_by_id[root].parent {
                up if up == root => break root,
                up => root = up,
            }
        };
        let mut at = id;
        while at != root {
            at = ::std::mem::replace(&mut data_by_id[at].parent, root);
        }
        root
    }'''))
E('xd53', D, (DS, None, 'build_sets', '''fn build_sets<'a>(&'a mut self) -> HashMap<usize, Vec<&'a T>> {
        let DisjointSet { ids, data_by_id } = self;
        ids.iter().fold(HashMap::new(), |mut map, (key, &id)| {
            let root = Self::find_with_path_compression(data_by_id, id);
            map.entry(root).or_insert_with(Vec::new).push(key);
            map
        })
    }'''))
E('xd54', D, (DS, None, 'make_or_get_set', '''fn make_or_get_set(&mut self, val: T) -> usize{
        let next_id = self.ids.len();
        let nodes = &mut self.data_by_id;
        *self.ids.entry(val).or_insert_with(|| {
            nodes.reserve(1);
            nodes.push(Data::new(next_id));
            next_id
        })
    }'''))
E('xv01', I, (IV, None, 'contains_interval', '''fn contains_interval(&self, other: &Self) -> bool {
        let (Some((l, u)), Some((ol, ou))) = (self.bounds(), other.bounds()) else {
            return other.is_empty();
        };
        [l <= ol, u >= ou].iter().all(|&x| x)
    }'''), (IV, None, 'can_be_merged', '''fn can_be_merged(&self, other: &Self) -> bool {
        'gap: {
            let Some((lo, up)) = self.bounds() else { break 'gap };
            let Some((olo, oup)) = other.bounds() else { break 'gap };
            if up.is_separated_from(olo) || lo.is_separated_from(oup) {
                return false;
            }
        }
        true
    }'''))
E('xv02', I, (IV, None, 'create_checked', '''fn create_checked(lo: T, loc: bool, up: T, upc: bool) -> Self {
        enum Shape { Backwards, Point, Proper }
        let shape = match lo.cmp(&up) {
            ::std::cmp::Ordering::Greater => Shape::Backwards,
            ::std::cmp::Ordering::Equal => Shape::Point,
            ::std::cmp::Ordering::Less => Shape::Proper,
        };
        match (shape, loc && upc) {
            (Shape::Backwards, _) => panic!("Lower bound of an interval needs to be less than the upper one."),
            (Shape::Point, false) => panic!("Single elements need to have closed bounds."),
            (Shape::Point, true) | (Shape::Proper, _) => {}
        }
        Self {
            imp: Some(NonEmptyInterval {
                lo: LowerBound::new(lo, loc),
                up: UpperBound::new(up, upc)
            })
        }
    }'''))
E('xv03', I, (IV, None, 'merge', '''fn merge(&mut self, other: Self) -> Result<(), Self>{
        let mine = ::std::mem::replace(self, Self::empty());
        match mine.into_merged(other) {
            Ok(merged) => {
                *self = merged;
                Ok(())
            }
            Err((mine, other)) => {
                *self = mine;
                Err(other)
            }
        }
    }'''), (IV, None, 'span', '''fn span(&mut self, other: Self) {
        let mine = ::std::mem::replace(self, Self::empty());
        *self = mine.into_span(other);
    }'''))
E('xv04', I, (IV, None, 'intersection', '''fn intersection(&mut self, other: Self) {
        let mine = self.imp.take();
        *self = Self { imp: mine }.into_intersection(other);
    }'''), (IV, None, 'into_intersection', '''fn into_intersection(self, other: Self) -> Self {
        let common = self.intersects(&other);
        let (Some((l1, u1)), Some((l2, u2)), true) = (self.into_bounds(), other.into_bounds(), common) else {
            return Self::empty();
        };
        Self::from_bounds(l1.max(l2), u1.min(u2))
    }'''))
E('xv05', I, (IV, None, 'fix_after_modification', '''fn fix_after_modification(&mut self){
        let valid = self.imp.as_mut().map_or(true, |a| {
            use ::std::cmp::Ordering;
            match a.lo.val().cmp(a.up.val()) {
                Ordering::Less => true,
                Ordering::Greater => {
                    a.lo.swap(&mut a.up);
                    true
                }
                Ordering::Equal => matches!((a.lo.is_closed(), a.up.is_closed()), (true, true)),
            }
        });
        if !valid {
            *self = Self::empty();
        }
    }'''))
E('xv06', I, (MATH, 'use super::interval::Interval;\n', '''use super::interval::Interval;

impl<T> Interval<T> where T: Ord {
    fn map_bounds<F>(self, mut f: F) -> Self where F: FnMut(T) -> T {
        match self.into_tuple() {
            None => Self::empty(),
            Some((lo, loc, up, upc)) => {
                let up = f(up);
                let lo = f(lo);
                Self::create_friendly(lo, loc, up, upc)
            }
        }
    }
}
'''), (MATH, 'Add<U> for', 'add', '''fn add(self, rhs: U) -> <Self as Add<U>>::Output {
        self.map_bounds(|x| x + rhs.clone())
    }'''), (MATH, 'Mul<U> for', 'mul', '''fn mul(self, rhs: U) -> <Self as Mul<U>>::Output {
        self.map_bounds(|x| x * rhs.clone())
    }'''))
E('xv07', I, (MATH, 'use super::interval::Interval;\n', '''use super::interval::{Interval, NonEmptyInterval};

trait Rebuild<T> where T: Ord {
    fn rebuild(&mut self, change: &mut dyn FnMut(&mut NonEmptyInterval<T>));
}
impl<T> Rebuild<T> for Interval<T> where T: Ord {
    fn rebuild(&mut self, change: &mut dyn FnMut(&mut NonEmptyInterval<T>)) {
        if let Some(mut a) = self.imp.take() {
            change(&mut a);
            self.imp = Some(a);
            self.fix_after_modification();
        }
    }
}
'''), (MATH, 'SubAssign<T> for', 'sub_assign', '''fn sub_assign(&mut self, rhs: T) {
        self.rebuild(&mut |a| {
            a.lo -= rhs.clone();
            a.up -= rhs.clone();
        })
    }'''))
E('xv08', I, (MATH, '''impl<T, U> Div<U> for Interval<T> where T:Ord+Div<U, Output=T>, U:Clone {''', '''macro_rules! both {
    ($a:ident, $op:tt, $rhs:expr) => {{
        let first = $rhs.clone();
        $a.up = $a.up $op first;
        $a.lo = $a.lo $op $rhs;
    }};
}

impl<T, U> Div<U> for Interval<T> where T:Ord+Div<U, Output=T>, U:Clone {'''), (MATH, 'Div<U> for', 'div', '''fn div(self, rhs: U) -> <Self as Div<U>>::Output {
        let mut result = self;
        result.imp = result.imp.map(|mut a| {
            both!(a, /, rhs);
            a
        });
        result.fix_after_modification();
        result
    }'''))
E('xv09', I, (BD, 'impl<T> Ord for LowerBound<T>', 'cmp', '''fn cmp(&self, other: &Self) -> Ordering {
        self.key().cmp(&other.key())
    }
}
impl<T> LowerBound<T> where T: Ord {
    fn key(&self) -> (&T, u8) {
        (self.val(), if self.is_closed() {0} else {1})
    }'''), (BD, 'impl<T> PartialOrd for LowerBound<T>', 'partial_cmp', '''fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
        Some(Ord::cmp(self, other))
    }'''), (BD, 'impl<T> Ord for UpperBound<T>', 'cmp', '''fn cmp(&self, other: &Self) -> Ordering {
        let order = self.val().cmp(other.val());
        if order != Equal {
            return order;
        }
        u8::cmp(&(self.is_closed() as u8), &(other.is_closed() as u8))
    }'''))
E('xv10', I, (BD, 'impl<T> PartialOrd<UpperBound<T>> for LowerBound<T>', 'lt', '''fn lt(&self, other: &UpperBound<T>) -> bool {
        self.sides(other, Less)
    }'''), (BD, 'impl<T> PartialOrd<UpperBound<T>> for LowerBound<T>', 'gt', '''fn gt(&self, other: &UpperBound<T>) -> bool {
        self.sides(other, Greater)
    }'''), (BD, 'impl <T> PartialEq<UpperBound<T>> for LowerBound<T> where T: Ord {', '''impl<T> LowerBound<T> where T: Ord {
    fn sides(&self, other: &UpperBound<T>, wanted: Ordering) -> bool {
        let both_closed = self.is_closed() & other.is_closed();
        match self.val().cmp(other.val()) {
            Equal => !both_closed,
            found => found == wanted,
        }
    }
}

impl <T> PartialEq<UpperBound<T>> for LowerBound<T> where T: Ord {'''))
E('xv11', I, (CMP, 'impl<T> PartialOrd<T> for Interval<T>', 'partial_cmp', '''fn partial_cmp(&self, val: &T) -> Option<Ordering> {
        let (lo, up) = self.bounds()?;
        match (lo > val, up < val, lo == val && up == val) {
            (_, true, _) => Some(Less),
            (true, _, _) => Some(Greater),
            (_, _, true) => Some(Equal),
            _ => None,
        }
    }'''), (CMP, 'impl<T> PartialOrd for Interval<T>', 'lt', '''fn lt(&self, other: &Self) -> bool {
        (|| Some(self.upper()? < other.lower()?))().unwrap_or(false)
    }'''), (CMP, 'impl<T> PartialOrd for Interval<T>', 'gt', '''fn gt(&self, other: &Self) -> bool {
        other < self
    }'''))
E('xv12', I, (IV, 'Display for', 'fmt', '''fn fmt(&self, f: &mut Formatter) -> FmtResult {
        let Some(a) = self.imp.as_ref() else {
            return write!(f, "Ø");
        };
        let left = ["(", "["][a.lo.is_closed() as usize];
        let right = if a.up.is_closed() {"]"} else {")"};
        write!(f, "{left}{lo},{up}{right}", lo = a.lo.val(), up = a.up.val())
    }'''))

# ---------------------------------------------------------------- bounds and intervals, written otherwise
E('xw01', I, (BD, 'Ord for LowerBound', 'cmp', '''fn cmp(&self, other: &Self) -> Ordering {
        self.val().cmp(other.val()).then_with(|| other.is_closed().cmp(&self.is_closed()))
    }'''), (BD, 'PartialOrd for LowerBound', 'partial_cmp', '''fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
        Some(self.cmp(other))
    }'''), (BD, 'Ord for UpperBound', 'cmp', '''fn cmp(&self, other: &Self) -> Ordering {
        (self.val(), self.is_closed()).cmp(&(other.val(), other.is_closed()))
    }'''))
E('xw02', I, (BD, 'PartialOrd<T> for LowerBound', 'le', '''fn le(&self, other: &T) -> bool {
        match self.val().cmp(other) {
            Less => true,
            Equal => self.is_closed(),
            Greater => false
        }
    }'''), (BD, 'PartialOrd<T> for LowerBound', 'gt', '''fn gt(&self, other: &T) -> bool {
        !(self <= other)
    }'''), (BD, 'PartialOrd<T> for LowerBound', 'partial_cmp', '''fn partial_cmp(&self, other: &T) -> Option<Ordering> {
        let by_val = self.val().cmp(other);
        if by_val == Equal && !self.is_closed() {
            return Some(Greater);
        }
        Some(by_val)
    }'''))
E('xw03', I, (IV, None, 'into_tuple', '''fn into_tuple(self) -> Option<(T, bool, T, bool)>{
        self.into_bounds().map(|(lo, up)| {
            let (l, lc) = lo.into_tuple();
            let (u, uc) = up.into_tuple();
            (l, lc, u, uc)
        })
    }'''), (IV, None, 'into_bounds', '''fn into_bounds(self) -> Option<(LowerBound<T>, UpperBound<T>)> {
        let NonEmptyInterval {lo, up} = self.imp?;
        Some((lo, up))
    }'''), (IV, None, 'upper', '''fn upper(&self) -> Option<&UpperBound<T>> {
        self.bounds().map(|(_, up)| up)
    }'''), (IV, None, 'lower', '''fn lower(&self) -> Option<&LowerBound<T>> {
        Some(self.bounds()?.0)
    }'''), (IV, None, 'is_single', '''fn is_single(&self) -> bool {
        matches!(self.bounds(), Some((l, u)) if l.val() == u.val())
    }'''))
E('xw04', I, (IV, None, 'intersects', '''fn intersects(&self, other: &Self) -> bool {
        match (self.bounds(), other.bounds()) {
            (Some((lo, up)), Some((olo, oup))) => {
                let apart = up < olo || lo > oup;
                !apart
            },
            _ => false
        }
    }'''), (IV, None, 'intersection', '''fn intersection(&mut self, other: Self) {
        if !self.intersects(&other) {
            *self = Self::empty();
            return;
        }
        if let (Some(s), Some(mut o)) = (self.imp.as_mut(), other.imp) {
            if o.lo > s.lo {
                swap(&mut s.lo, &mut o.lo);
            }
            if o.up < s.up {
                swap(&mut s.up, &mut o.up);
            }
        }
    }'''))
E('xw05', I, (IV, None, 'into_span', '''fn into_span(self, other: Self) -> Self {
        match (self.into_bounds(), other.into_bounds()) {
            (None, None) => Self::empty(),
            (Some((l, u)), None) | (None, Some((l, u))) => Self::from_bounds(l, u),
            (Some((l1, u1)), Some((l2, u2))) => Self::from_bounds(l1.min(l2), u1.max(u2))
        }
    }'''), (IV, None, 'span', '''fn span(&mut self, other: Self) {
        let o = match other.imp {
            Some(o) => o,
            None => return
        };
        match self.imp {
            None => self.imp = Some(o),
            Some(ref mut s) => {
                let widen_down = o.lo < s.lo;
                let widen_up = o.up > s.up;
                if widen_down { s.lo = o.lo; }
                if widen_up { s.up = o.up; }
            }
        }
    }'''))
E('xw06', I, (CMP, 'PartialOrd for Interval', 'lt', '''fn lt(&self, other: &Self) -> bool {
        self.upper().zip(other.lower()).map_or(false, |(s, o)| s < o)
    }'''), (CMP, 'PartialOrd for Interval', 'gt', '''fn gt(&self, other: &Self) -> bool {
        if let (Some(s), Some(o)) = (self.lower(), other.upper()) { s > o } else { false }
    }'''), (CMP, 'PartialOrd<T> for Interval', 'le', '''fn le(&self, val: &T) -> bool {
        self.upper().is_some_and(|up| up <= val)
    }'''), (CMP, 'PartialOrd for Interval', 'partial_cmp', '''fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
        if self.gt(other) {
            Some(Greater)
        } else if self.lt(other) {
            Some(Less)
        } else if self.eq(other) {
            Some(Equal)
        } else {
            None
        }
    }'''))
E('xw07', I, (IV, None, 'can_be_merged', '''fn can_be_merged(&self, other: &Self) -> bool {
        self.bounds().map_or(true, |(lo, up)| other.bounds().map_or(true, |(olo, oup)| {
            !up.is_separated_from(olo) && !oup.is_separated_from(lo)
        }))
    }'''), (IV, None, 'into_merged', '''fn into_merged(self, other: Self) -> Result<Self, (Self, Self)>{
        if self.can_be_merged(&other) {
            Ok(self.into_span(other))
        } else {
            Err((self, other))
        }
    }'''), (IV, None, 'merge', '''fn merge(&mut self, other: Self) -> Result<(), Self>{
        match self.can_be_merged(&other) {
            true => { self.span(other); Ok(()) },
            false => Err(other)
        }
    }'''))
E('xw08', I, (BD, 'Bound<T> where T: Ord + Add<U, Output=T>', 'add', '''fn add(self, rhs: U) -> <Self as Add<U>>::Output {
        let (val, is_closed) = self.into_tuple();
        Bound::new(val + rhs, is_closed)
    }'''), (BD, 'Bound<T> where T: Ord + Mul<U, Output=T>', 'mul', '''fn mul(self, rhs: U) -> <Self as Mul<U>>::Output {
        let Bound {val, is_closed} = self;
        let val = val * rhs;
        Bound {val, is_closed}
    }'''), (MATH, 'Sub<U> for Interval', 'sub', '''fn sub(self, rhs: U) -> <Self as Sub<U>>::Output {
        let a = match self.imp {
            Some(a) => a,
            None => return Self::empty()
        };
        let up = a.up - rhs.clone();
        let lo = a.lo - rhs;
        let (l, lc) = lo.into_tuple();
        let (u, uc) = up.into_tuple();
        Self::create_friendly(l, lc, u, uc)
    }'''))
E('xw09', I, (IV, None, 'fix_after_modification', '''fn fix_after_modification(&mut self){
        let set_empty = match self.imp.as_mut() {
            None => return,
            Some(a) => match a.lo.val().cmp(a.up.val()) {
                ::std::cmp::Ordering::Less => false,
                ::std::cmp::Ordering::Greater => { a.lo.swap(&mut a.up); false },
                ::std::cmp::Ordering::Equal => !(a.lo.is_closed() && a.up.is_closed())
            }
        };
        if set_empty {
            self.imp.take();
        }
    }'''), (IV, None, 'create_friendly', '''fn create_friendly(lo: T, loc: bool, up: T, upc: bool) -> Self {
        if lo > up {
            Self::create_friendly_ordered(up, upc, lo, loc)
        } else {
            Self::create_friendly_ordered(lo, loc, up, upc)
        }
    }

    fn create_friendly_ordered(lo: T, loc: bool, up: T, upc: bool) -> Self {
        if lo == up && !(loc && upc) {
            return Self::empty();
        }
        let lo = LowerBound::new(lo, loc);
        let up = UpperBound::new(up, upc);
        Self { imp: Some(NonEmptyInterval { lo, up }) }
    }'''))
