From 3cc0330d8ba4bf903d158ec726a9974576b67ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:34 +0000
Subject: [PATCH 1/8] fix: an empty interval contains no value

contains_val() returned true for every value on an empty interval, because an
empty interval compares neither less nor greater than anything.
---
 src/interval/interval.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interval/interval.rs b/src/interval/interval.rs
index adf8f6d..81fbaf8 100644
--- a/src/interval/interval.rs
+++ b/src/interval/interval.rs
@@ -509,7 +509,7 @@ impl<T> Interval<T>  where T: Ord  {
     ```
     */
     pub fn contains_val(&self, val: &T) -> bool {
-        !(self > val || self < val)
+        !self.is_empty() && !(self > val || self < val)
     }
 
     /**
-- 
2.43.0


From 3a490cefdb01f465d961fb4f6f3498eb6d10863d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:34 +0000
Subject: [PATCH 2/8] fix: an empty interval does not intersect anything

intersects() returned true whenever either operand was empty, although their
intersection is empty.
---
 src/interval/interval.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interval/interval.rs b/src/interval/interval.rs
index 81fbaf8..e717cbd 100644
--- a/src/interval/interval.rs
+++ b/src/interval/interval.rs
@@ -658,7 +658,7 @@ impl<T> Interval<T>  where T: Ord  {
     ```
     */
     pub fn intersects(&self, other: &Self) -> bool {
-        !(self > other || self < other)
+        !self.is_empty() && !other.is_empty() && !(self > other || self < other)
     }
 
     /**
-- 
2.43.0


From b586c6c023c5770e17ec126d97d4472f3da0f2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:34 +0000
Subject: [PATCH 3/8] fix: lower and upper bounds are never equal, so != holds
 between them

PartialEq::ne() between LowerBound and UpperBound returned false, just as eq()
did: both l == u and l != u were false.
---
 src/interval/bounds.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/interval/bounds.rs b/src/interval/bounds.rs
index 8d1e315..25e8887 100644
--- a/src/interval/bounds.rs
+++ b/src/interval/bounds.rs
@@ -345,7 +345,7 @@ impl <T> PartialEq<UpperBound<T>> for LowerBound<T> where T: Ord {
     }
 
     fn ne(&self, _other: &UpperBound<T>) -> bool {
-        false
+        true
     }
 }
 
@@ -666,7 +666,7 @@ impl <T> PartialEq<LowerBound<T>> for UpperBound<T> where T: Ord {
     }
 
     fn ne(&self, _other: &LowerBound<T>) -> bool {
-        false
+        true
     }
 }
 
-- 
2.43.0


From 1bc6b681a9e8fd01fb74b105768b7b74eeca3f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:34 +0000
Subject: [PATCH 4/8] fix: clone only the initialized elements of
 CircularBuffer

The derived Clone called T::clone() on every slot of the internal buffer,
including the uninitialized ones: cloning a CircularBuffer<String> read garbage.
---
 src/circular_buffer/circular.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/circular_buffer/circular.rs b/src/circular_buffer/circular.rs
index e2e8d09..834678e 100644
--- a/src/circular_buffer/circular.rs
+++ b/src/circular_buffer/circular.rs
@@ -46,7 +46,6 @@ fn main(){
 }
 ```
 */
-#[derive(Clone)]
 pub struct CircularBuffer<T> {
     buffer: Box<[ManuallyDrop<T>]>,
     start: usize,
@@ -753,6 +752,15 @@ impl<T> CircularBuffer<T> {
     }
 }
 
+impl<T> Clone for CircularBuffer<T> where T: Clone {
+    fn clone(&self) -> Self {
+        //only slots between start and end hold initialized elements, others must not be cloned
+        let mut cb = Self::with_capacity(self.capacity());
+        cb.extend(self.iter());
+        cb
+    }
+}
+
 impl<T> Drop for CircularBuffer<T> {
     fn drop(&mut self) {
         self.clear();
-- 
2.43.0


From 15d4870dc28b30882eae1f6118ee40c7716b62aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:44 +0000
Subject: [PATCH 5/8] fix: store CircularBuffer elements in MaybeUninit slots

The spare slots were filled with mem::uninitialized(), which is undefined
behaviour and aborts at run time for element types such as Box or &str.
---
 src/circular_buffer/circular.rs | 58 ++++++++++++++++-----------------
 1 file changed, 28 insertions(+), 30 deletions(-)

diff --git a/src/circular_buffer/circular.rs b/src/circular_buffer/circular.rs
index 834678e..6509a26 100644
--- a/src/circular_buffer/circular.rs
+++ b/src/circular_buffer/circular.rs
@@ -1,4 +1,4 @@
-use std::mem::{ManuallyDrop, uninitialized, swap, drop, transmute};
+use std::mem::{MaybeUninit, swap, drop, transmute};
 use std::ops::{Index, IndexMut};
 use std::iter::{Extend, FromIterator, IntoIterator};
 use std::cmp::{Ord, PartialEq, Eq, PartialOrd, Ordering};
@@ -47,7 +47,7 @@ fn main(){
 ```
 */
 pub struct CircularBuffer<T> {
-    buffer: Box<[ManuallyDrop<T>]>,
+    buffer: Box<[MaybeUninit<T>]>,
     start: usize,
     end:usize
 }
@@ -89,7 +89,7 @@ impl<T> CircularBuffer<T> {
 
         let mut buffer = Vec::with_capacity(capacity+1);
         for _ in 0..capacity+1 {
-            buffer.push(ManuallyDrop::new(unsafe{uninitialized()}));
+            buffer.push(MaybeUninit::uninit());
         }
         Self {
             buffer: buffer.into_boxed_slice(),
@@ -168,10 +168,10 @@ impl<T> CircularBuffer<T> {
         } else {
             0
         };
-        new_buf.extend(self.drain().skip(to_be_skipped).map(|x| ManuallyDrop::new(x)));
+        new_buf.extend(self.drain().skip(to_be_skipped).map(|x| MaybeUninit::new(x)));
         let elem_num = new_buf.len();
         for _ in 0..capacity -new_buf.len() + 1{
-            new_buf.push(ManuallyDrop::new(unsafe{uninitialized()}));
+            new_buf.push(MaybeUninit::uninit());
         }
         new_buf.shrink_to_fit();
         self.buffer = new_buf.into_boxed_slice();
@@ -477,7 +477,7 @@ impl<T> CircularBuffer<T> {
         if self.is_empty(){
             None
         } else {
-            Some(&* self.buffer[self.internal_index(0)])
+            Some(&self[0])
         }
     }
 
@@ -502,7 +502,7 @@ impl<T> CircularBuffer<T> {
         if self.is_empty(){
             None
         } else {
-            Some(&mut *self.buffer[self.internal_index(0)])
+            Some(&mut self[0])
         }
     }
 
@@ -526,7 +526,7 @@ impl<T> CircularBuffer<T> {
         if self.is_empty(){
             None
         } else {
-            Some(&* self.buffer[self.internal_index(self.len()-1)])
+            Some(&self[self.len()-1])
         }
     }
 
@@ -551,7 +551,8 @@ impl<T> CircularBuffer<T> {
         if self.is_empty(){
             None
         } else {
-            Some(&mut * self.buffer[self.internal_index(self.len()-1)])
+            let index = self.len()-1;
+            Some(&mut self[index])
         }
     }
 
@@ -582,7 +583,8 @@ impl<T> CircularBuffer<T> {
             (&self.buffer[self.start..], &self.buffer[..self.end])
         };
 
-        //ManuallyDrop is a zero-cost wrapper, can be safely converted into slice of T
+        //MaybeUninit is a zero-cost wrapper and all elements in the range are initialized,
+        //so it can be safely converted into slice of T
         unsafe{(transmute(a), transmute(b))}
     }
 
@@ -619,7 +621,8 @@ impl<T> CircularBuffer<T> {
             (y,  &mut x[..self.end])
         };
 
-        //ManuallyDrop is a zero-cost wrapper, can be safely converted into slice of T
+        //MaybeUninit is a zero-cost wrapper and all elements in the range are initialized,
+        //so it can be safely converted into slice of T
         unsafe{(transmute(a), transmute(b))}
     }
 
@@ -644,7 +647,8 @@ impl<T> CircularBuffer<T> {
         self.buffer.rotate_left(self.start);
         self.end = self.len();
         self.start = 0;
-        //ManuallyDrop is a zero-cost wrapper, can be safely converted into slice of T
+        //MaybeUninit is a zero-cost wrapper and all elements in the range are initialized,
+        //so it can be safely converted into slice of T
         unsafe{transmute(&mut self.buffer[..self.end])}
     }
 
@@ -741,14 +745,14 @@ impl<T> CircularBuffer<T> {
 
     fn pop_at(&mut self, index: usize) -> T {
         //replace place in the array with uninitialized object
-        let mut tmp = ManuallyDrop::new(unsafe{uninitialized()});
+        let mut tmp = MaybeUninit::uninit();
         swap(&mut self.buffer[index], &mut tmp);
-        ManuallyDrop::into_inner(tmp)
+        unsafe{tmp.assume_init()}
     }
 
     fn push_at(&mut self, val: T, index: usize) {
         //the replaced value is unitialized, so it should not be dropped
-        self.buffer[index] = ManuallyDrop::new(val);
+        self.buffer[index] = MaybeUninit::new(val);
     }
 }
 
@@ -771,13 +775,14 @@ impl <T> Index<usize> for CircularBuffer<T> {
     type Output = T;
 
     fn index(&self, index: usize) -> &<Self as Index<usize>>::Output {
-        &*self.buffer[self.internal_index(index)]
+        unsafe{&*self.buffer[self.internal_index(index)].as_ptr()}
     }
 }
 
 impl <T> IndexMut<usize> for CircularBuffer<T> {
     fn index_mut(&mut self, index: usize) -> &mut <Self as Index<usize>>::Output {
-        &mut *self.buffer[self.internal_index(index)]
+        let index = self.internal_index(index);
+        unsafe{&mut *self.buffer[index].as_mut_ptr()}
     }
 }
 
@@ -789,8 +794,8 @@ impl <T> fmt::Debug for CircularBuffer<T> {
 
 impl <T> FromIterator<T> for CircularBuffer<T>{
     fn from_iter<I: IntoIterator<Item=T>>(iter: I) -> Self {
-        let mut buf = Vec::from_iter(iter.into_iter().map(|x| ManuallyDrop::new(x)));
-        buf.push(unsafe{uninitialized()});
+        let mut buf = Vec::from_iter(iter.into_iter().map(|x| MaybeUninit::new(x)));
+        buf.push(MaybeUninit::uninit());
         buf.shrink_to_fit();
 
         let end = buf.len() -1;
@@ -804,8 +809,8 @@ impl <T> FromIterator<T> for CircularBuffer<T>{
 
 impl <'a, T> FromIterator<&'a T> for CircularBuffer<T> where T: Clone{
     fn from_iter<I: IntoIterator<Item=&'a T>>(iter: I) -> Self {
-        let mut buf = Vec::from_iter(iter.into_iter().map(|x| ManuallyDrop::new(x.clone())));
-        buf.push(unsafe{uninitialized()});
+        let mut buf = Vec::from_iter(iter.into_iter().map(|x| MaybeUninit::new(x.clone())));
+        buf.push(MaybeUninit::uninit());
         buf.shrink_to_fit();
         let end = buf.len() -1;
         Self {
@@ -817,15 +822,8 @@ impl <'a, T> FromIterator<&'a T> for CircularBuffer<T> where T: Clone{
 }
 
 impl<T> From<Vec<T>> for CircularBuffer<T>{
-    fn from(mut v : Vec<T>) -> Self {
-        let buf_len = v.len();
-        v.push(unsafe{uninitialized()});
-        v.shrink_to_fit();
-        Self{
-            buffer: unsafe{transmute(v.into_boxed_slice())},
-            start: 0,
-            end: buf_len
-        }
+    fn from(v : Vec<T>) -> Self {
+        Self::from_iter(v)
     }
 }
 
-- 
2.43.0


From 39665a13a792071801081eb29025fe416a66f8e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:37 +0000
Subject: [PATCH 6/8] fix: leave no stale nodes when dropping an element panics
 in DisjointSet::clear

---
 src/disjoint_set/disjoint_set.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/disjoint_set/disjoint_set.rs b/src/disjoint_set/disjoint_set.rs
index 65794d2..b62513c 100644
--- a/src/disjoint_set/disjoint_set.rs
+++ b/src/disjoint_set/disjoint_set.rs
@@ -230,8 +230,9 @@ impl<T, S> DisjointSet<T, S> where T:Eq + Hash , S:BuildHasher{
     }
 
     pub fn clear(&mut self) {
-        self.ids.clear();
-        self.data_by_id.clear()
+        //the nodes first: dropping an element may panic, and no stale node may be left then
+        self.data_by_id.clear();
+        self.ids.clear()
     }
 
     pub fn reserve(&mut self, additional: usize) {
-- 
2.43.0


From 2477bcde5a4346d31de4717ff63dcb08f23a676b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:46 +0000
Subject: [PATCH 7/8] fix: leave no half modified interval when arithmetic
 panics in an assigning operation

---
 src/interval/interval_math.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/interval/interval_math.rs b/src/interval/interval_math.rs
index 6855391..c90a930 100644
--- a/src/interval/interval_math.rs
+++ b/src/interval/interval_math.rs
@@ -21,9 +21,11 @@ impl<T, U> Add<U> for Interval<T> where T:Ord+Add<U, Output=T>, U:Clone {
 
 impl<T> AddAssign<T> for Interval<T> where T:Ord+AddAssign + Clone {
     fn add_assign(&mut self, rhs: T) {
-        if let Some(ref mut a) = self.imp{
+        //taken out, so that no half modified interval is left if the arithmetic panics
+        if let Some(mut a) = self.imp.take() {
             a.lo += rhs.clone();
             a.up += rhs;
+            self.imp = Some(a);
         }
         self.fix_after_modification()
     }
@@ -48,9 +50,11 @@ impl<T, U> Sub<U> for Interval<T> where T:Ord+Sub<U, Output=T>, U:Clone {
 
 impl<T> SubAssign<T> for Interval<T> where T:Ord + SubAssign + Clone {
     fn sub_assign(&mut self, rhs: T) {
-        if let Some(ref mut a) = self.imp{
+        //taken out, so that no half modified interval is left if the arithmetic panics
+        if let Some(mut a) = self.imp.take() {
             a.lo -= rhs.clone();
             a.up -= rhs;
+            self.imp = Some(a);
         }
         self.fix_after_modification()
     }
@@ -76,9 +80,11 @@ impl<T, U> Mul<U> for Interval<T> where T:Ord+Mul<U, Output=T>, U: Clone {
 
 impl<T> MulAssign<T> for Interval<T> where T:Ord+MulAssign+Clone {
     fn mul_assign(&mut self, rhs: T) {
-        if let Some(ref mut a) = self.imp{
+        //taken out, so that no half modified interval is left if the arithmetic panics
+        if let Some(mut a) = self.imp.take() {
             a.lo *= rhs.clone();
             a.up *= rhs;
+            self.imp = Some(a);
         }
         self.fix_after_modification()
     }
@@ -106,9 +112,11 @@ impl<T, U> Div<U> for Interval<T> where T:Ord+Div<U, Output=T>, U:Clone {
 
 impl<T> DivAssign<T> for Interval<T> where T: Ord+DivAssign + Clone {
     fn div_assign(&mut self, rhs: T) {
-        if let Some(ref mut a) = self.imp{
+        //taken out, so that no half modified interval is left if the arithmetic panics
+        if let Some(mut a) = self.imp.take() {
             a.lo /= rhs.clone();
             a.up /= rhs;
+            self.imp = Some(a);
         }
         self.fix_after_modification()
     }
-- 
2.43.0


From aaba97459aed31e4cca785616c1ab808784108d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:50 +0000
Subject: [PATCH 8/8] fix: a capacity of usize::MAX made a buffer without any
 slot in release builds

---
 src/circular_buffer/circular.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/circular_buffer/circular.rs b/src/circular_buffer/circular.rs
index 6509a26..4894ea9 100644
--- a/src/circular_buffer/circular.rs
+++ b/src/circular_buffer/circular.rs
@@ -87,8 +87,9 @@ impl<T> CircularBuffer<T> {
     */
     pub fn with_capacity(capacity: usize) -> Self {
 
-        let mut buffer = Vec::with_capacity(capacity+1);
-        for _ in 0..capacity+1 {
+        let slots = capacity.checked_add(1).expect("capacity overflow");
+        let mut buffer = Vec::with_capacity(slots);
+        for _ in 0..slots {
             buffer.push(MaybeUninit::uninit());
         }
         Self {
@@ -162,7 +163,7 @@ impl<T> CircularBuffer<T> {
     ```
     */
     pub fn resize (&mut self, capacity: usize) {
-        let mut new_buf = Vec::with_capacity(capacity+1);
+        let mut new_buf = Vec::with_capacity(capacity.checked_add(1).expect("capacity overflow"));
         let to_be_skipped = if self.len()>capacity{
             self.len() - capacity
         } else {
-- 
2.43.0

