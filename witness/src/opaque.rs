use std::cmp::Ordering;
use std::fmt;
use std::hash::{BuildHasher, Hash, Hasher};
use std::ops::*;

/// Element type: totally ordered, hashable, cloneable, with a destructor.
pub struct V(pub u64);
/// Copyable element type (for Extend<&T> with T: Copy).
#[derive(Clone, Copy)]
pub struct C(pub u64);
/// Element type with a partial order and an equality that need not be reflexive (like floats).
pub struct W(pub u64);
/// Right operand of arithmetic.
pub struct U(pub u64);

extern "Rust" {
    fn vp_cmp(a: &V, b: &V) -> Ordering;
    fn vp_eq(a: &V, b: &V) -> bool;
    fn vp_pcmp(a: &W, b: &W) -> Option<Ordering>;
    fn vp_peq(a: &W, b: &W) -> bool;
    fn vp_clone(a: &V) -> V;
    fn vp_drop(a: &mut V);
    fn vp_hash(a: &V, s: *mut ());
    fn vp_fmt(a: &V, f: &mut fmt::Formatter) -> fmt::Result;
    fn vp_add(a: V, b: U) -> V;
    fn vp_sub(a: V, b: U) -> V;
    fn vp_mul(a: V, b: U) -> V;
    fn vp_div(a: V, b: U) -> V;
    fn vp_neg(a: V) -> V;
    fn vp_add_assign(a: &mut V, b: V);
    fn vp_sub_assign(a: &mut V, b: V);
    fn vp_mul_assign(a: &mut V, b: V);
    fn vp_div_assign(a: &mut V, b: V);
    fn vp_uclone(a: &U) -> U;
    fn vp_udrop(a: &mut U);
    fn vp_ceq(a: &C, b: &C) -> bool;
    fn vp_chash(a: &C, s: *mut ());
    fn vp_next(i: &mut It) -> Option<V>;
    fn vp_size_hint(i: &It) -> (usize, Option<usize>);
    fn vp_into_iter(s: Src) -> It;
    fn vp_itdrop(i: &mut It);
    fn vp_rnext<'a>(i: &mut ItR<'a>) -> Option<&'a V>;
    fn vp_rsize_hint(i: &ItR) -> (usize, Option<usize>);
    fn vp_rinto_iter<'a>(s: SrcR<'a>) -> ItR<'a>;
    fn vp_cnext<'a>(i: &mut ItC<'a>) -> Option<&'a C>;
    fn vp_csize_hint(i: &ItC) -> (usize, Option<usize>);
    fn vp_cinto_iter<'a>(s: SrcC<'a>) -> ItC<'a>;
    fn vp_hasher_write(h: &mut H, b: &[u8]);
    fn vp_hasher_finish(h: &H) -> u64;
    fn vp_build_hasher(k: u64) -> H;
    fn vp_default_hasher(k: u64) -> u64;
}

impl PartialEq for V {
    fn eq(&self, o: &V) -> bool { unsafe { vp_eq(self, o) } }
}
impl Eq for V {}
impl PartialOrd for V {
    fn partial_cmp(&self, o: &V) -> Option<Ordering> { unsafe { Some(vp_cmp(self, o)) } }
}
impl Ord for V {
    fn cmp(&self, o: &V) -> Ordering { unsafe { vp_cmp(self, o) } }
}
impl PartialEq for W {
    fn eq(&self, o: &W) -> bool { unsafe { vp_peq(self, o) } }
}
impl PartialOrd for W {
    fn partial_cmp(&self, o: &W) -> Option<Ordering> { unsafe { vp_pcmp(self, o) } }
}
impl Clone for V {
    fn clone(&self) -> V { unsafe { vp_clone(self) } }
}
impl Drop for V {
    fn drop(&mut self) { unsafe { vp_drop(self) } }
}
impl Hash for V {
    fn hash<S: Hasher>(&self, s: &mut S) { unsafe { vp_hash(self, s as *mut S as *mut ()) } }
}
impl fmt::Display for V {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { unsafe { vp_fmt(self, f) } }
}
impl fmt::Debug for V {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { unsafe { vp_fmt(self, f) } }
}
impl Add<U> for V { type Output = V; fn add(self, b: U) -> V { unsafe { vp_add(self, b) } } }
impl Sub<U> for V { type Output = V; fn sub(self, b: U) -> V { unsafe { vp_sub(self, b) } } }
impl Mul<U> for V { type Output = V; fn mul(self, b: U) -> V { unsafe { vp_mul(self, b) } } }
impl Div<U> for V { type Output = V; fn div(self, b: U) -> V { unsafe { vp_div(self, b) } } }
impl Neg for V { type Output = V; fn neg(self) -> V { unsafe { vp_neg(self) } } }
impl AddAssign for V { fn add_assign(&mut self, b: V) { unsafe { vp_add_assign(self, b) } } }
impl SubAssign for V { fn sub_assign(&mut self, b: V) { unsafe { vp_sub_assign(self, b) } } }
impl MulAssign for V { fn mul_assign(&mut self, b: V) { unsafe { vp_mul_assign(self, b) } } }
impl DivAssign for V { fn div_assign(&mut self, b: V) { unsafe { vp_div_assign(self, b) } } }
impl Clone for U {
    fn clone(&self) -> U { unsafe { vp_uclone(self) } }
}
impl Drop for U {
    fn drop(&mut self) { unsafe { vp_udrop(self) } }
}
impl PartialEq for C {
    fn eq(&self, o: &C) -> bool { unsafe { vp_ceq(self, o) } }
}
impl Eq for C {}
impl Hash for C {
    fn hash<S: Hasher>(&self, s: &mut S) { unsafe { vp_chash(self, s as *mut S as *mut ()) } }
}

/// Caller-supplied iterables: any length, any size hint allowed by the trait, may have a destructor.
pub struct Src(pub u64);
pub struct It(pub u64);
impl IntoIterator for Src {
    type Item = V;
    type IntoIter = It;
    fn into_iter(self) -> It { unsafe { vp_into_iter(self) } }
}
impl Iterator for It {
    type Item = V;
    fn next(&mut self) -> Option<V> { unsafe { vp_next(self) } }
    fn size_hint(&self) -> (usize, Option<usize>) { unsafe { vp_size_hint(self) } }
}
impl Drop for It {
    fn drop(&mut self) { unsafe { vp_itdrop(self) } }
}
pub struct SrcR<'a>(pub &'a V);
pub struct ItR<'a>(pub &'a V);
impl<'a> IntoIterator for SrcR<'a> {
    type Item = &'a V;
    type IntoIter = ItR<'a>;
    fn into_iter(self) -> ItR<'a> { unsafe { vp_rinto_iter(self) } }
}
impl<'a> Iterator for ItR<'a> {
    type Item = &'a V;
    fn next(&mut self) -> Option<&'a V> { unsafe { vp_rnext(self) } }
    fn size_hint(&self) -> (usize, Option<usize>) { unsafe { vp_rsize_hint(self) } }
}
pub struct SrcC<'a>(pub &'a C);
pub struct ItC<'a>(pub &'a C);
impl<'a> IntoIterator for SrcC<'a> {
    type Item = &'a C;
    type IntoIter = ItC<'a>;
    fn into_iter(self) -> ItC<'a> { unsafe { vp_cinto_iter(self) } }
}
impl<'a> Iterator for ItC<'a> {
    type Item = &'a C;
    fn next(&mut self) -> Option<&'a C> { unsafe { vp_cnext(self) } }
    fn size_hint(&self) -> (usize, Option<usize>) { unsafe { vp_csize_hint(self) } }
}

/// Two unrelated hash builders, and a hasher that only records what it is fed.
pub struct S1(pub u64);
pub struct S2(pub u64);
pub struct H(pub u64);
impl Hasher for H {
    fn write(&mut self, b: &[u8]) { unsafe { vp_hasher_write(self, b) } }
    fn finish(&self) -> u64 { unsafe { vp_hasher_finish(self) } }
}
impl BuildHasher for S1 { type Hasher = H; fn build_hasher(&self) -> H { unsafe { vp_build_hasher(self.0) } } }
impl BuildHasher for S2 { type Hasher = H; fn build_hasher(&self) -> H { unsafe { vp_build_hasher(self.0) } } }
impl Default for S1 { fn default() -> S1 { S1(unsafe { vp_default_hasher(1) }) } }
impl Default for S2 { fn default() -> S2 { S2(unsafe { vp_default_hasher(2) }) } }
impl Clone for S1 { fn clone(&self) -> S1 { S1(self.0) } }
impl Clone for S2 { fn clone(&self) -> S2 { S2(self.0) } }
// Counter's derived PartialEq asks for comparable hash builders (it never compares them).
impl PartialEq for S1 { fn eq(&self, _: &S1) -> bool { true } }
impl Eq for S1 {}
