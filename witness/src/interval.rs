use crate::opaque::*;
use advanced_collections::interval::{Interval, LowerBound, UpperBound};
use std::cmp::Ordering;
use std::fmt;
use std::hash::Hash;
type I = Interval<V>;
type L = LowerBound<V>;
type P = UpperBound<V>;

pub fn new(l: V, lc: bool, u: V, uc: bool) -> I { Interval::new(l, lc, u, uc) }
pub fn from_bounds(l: L, u: P) -> I { Interval::from_bounds(l, u) }
pub fn single(v: V) -> I { Interval::single(v) }
pub fn open(l: V, u: V) -> I { Interval::open(l, u) }
pub fn closed(l: V, u: V) -> I { Interval::closed(l, u) }
pub fn lower_closed(l: V, u: V) -> I { Interval::lower_closed(l, u) }
pub fn upper_closed(l: V, u: V) -> I { Interval::upper_closed(l, u) }
pub fn empty() -> I { Interval::empty() }
pub fn into_tuple(i: I) -> Option<(V, bool, V, bool)> { i.into_tuple() }
pub fn into_bounds(i: I) -> Option<(L, P)> { i.into_bounds() }
pub fn upper(i: &I) -> Option<&P> { i.upper() }
pub fn lower(i: &I) -> Option<&L> { i.lower() }
pub fn bounds(i: &I) -> Option<(&L, &P)> { i.bounds() }
pub fn is_empty(i: &I) -> bool { i.is_empty() }
pub fn is_single(i: &I) -> bool { i.is_single() }
pub fn is_lower_closed(i: &I) -> Option<bool> { i.is_lower_closed() }
pub fn is_upper_closed(i: &I) -> Option<bool> { i.is_upper_closed() }
pub fn contains_val(i: &I, v: &V) -> bool { i.contains_val(v) }
pub fn contains_interval(i: &I, o: &I) -> bool { i.contains_interval(o) }
pub fn can_be_merged(i: &I, o: &I) -> bool { i.can_be_merged(o) }
pub fn into_merged(i: I, o: I) -> Result<I, (I, I)> { i.into_merged(o) }
pub fn merge(i: &mut I, o: I) -> Result<(), I> { i.merge(o) }
pub fn intersects(i: &I, o: &I) -> bool { i.intersects(o) }
pub fn into_intersection(i: I, o: I) -> I { i.into_intersection(o) }
pub fn intersection(i: &mut I, o: I) { i.intersection(o) }
pub fn into_span(i: I, o: I) -> I { i.into_span(o) }
pub fn span(i: &mut I, o: I) { i.span(o) }
pub fn display(i: &I, f: &mut fmt::Formatter) -> fmt::Result { fmt::Display::fmt(i, f) }
pub fn clone(i: &I) -> I { i.clone() }
pub fn clone_from(i: &mut I, o: &I) { i.clone_from(o) }
pub fn eq(i: &I, o: &I) -> bool { i == o }
pub fn ne(i: &I, o: &I) -> bool { i != o }
pub fn hash(i: &I, h: &mut H) { i.hash(h) }
pub fn lt(i: &I, o: &I) -> bool { i < o }
pub fn le(i: &I, o: &I) -> bool { i <= o }
pub fn gt(i: &I, o: &I) -> bool { i > o }
pub fn ge(i: &I, o: &I) -> bool { i >= o }
pub fn partial_cmp(i: &I, o: &I) -> Option<Ordering> { i.partial_cmp(o) }
pub fn v_eq(i: &I, v: &V) -> bool { i == v }
pub fn v_ne(i: &I, v: &V) -> bool { i != v }
pub fn v_lt(i: &I, v: &V) -> bool { i < v }
pub fn v_le(i: &I, v: &V) -> bool { i <= v }
pub fn v_gt(i: &I, v: &V) -> bool { i > v }
pub fn v_ge(i: &I, v: &V) -> bool { i >= v }
pub fn v_partial_cmp(i: &I, v: &V) -> Option<Ordering> { i.partial_cmp(v) }
pub fn add(i: I, u: U) -> I { i + u }
pub fn sub(i: I, u: U) -> I { i - u }
pub fn mul(i: I, u: U) -> I { i * u }
pub fn div(i: I, u: U) -> I { i / u }
pub fn neg(i: I) -> I { -i }
pub fn add_assign(i: &mut I, v: V) { *i += v }
pub fn sub_assign(i: &mut I, v: V) { *i -= v }
pub fn mul_assign(i: &mut I, v: V) { *i *= v }
pub fn div_assign(i: &mut I, v: V) { *i /= v }

macro_rules! bound { ($m:ident, $B:ident, $O:ident) => {
pub mod $m {
    use super::*;
    type B = $B<V>;
    type O = $O<V>;
    pub fn new(v: V, c: bool) -> B { $B::new(v, c) }
    pub fn val(b: &B) -> &V { b.val() }
    pub fn is_closed(b: &B) -> bool { b.is_closed() }
    pub fn into_tuple(b: B) -> (V, bool) { b.into_tuple() }
    pub fn is_separated_from(b: &B, o: &O) -> bool { b.is_separated_from(o) }
    pub fn clone(b: &B) -> B { b.clone() }
    pub fn hash(b: &B, h: &mut H) { b.hash(h) }
    pub fn eq(a: &B, b: &B) -> bool { a == b }
    pub fn ne(a: &B, b: &B) -> bool { a != b }
    pub fn cmp(a: &B, b: &B) -> Ordering { a.cmp(b) }
    pub fn partial_cmp(a: &B, b: &B) -> Option<Ordering> { a.partial_cmp(b) }
    pub fn lt(a: &B, b: &B) -> bool { a < b }
    pub fn le(a: &B, b: &B) -> bool { a <= b }
    pub fn gt(a: &B, b: &B) -> bool { a > b }
    pub fn ge(a: &B, b: &B) -> bool { a >= b }
    pub fn min(a: B, b: B) -> B { a.min(b) }
    pub fn max(a: B, b: B) -> B { a.max(b) }
    pub fn v_eq(a: &B, b: &V) -> bool { a == b }
    pub fn v_ne(a: &B, b: &V) -> bool { a != b }
    pub fn v_partial_cmp(a: &B, b: &V) -> Option<Ordering> { a.partial_cmp(b) }
    pub fn v_lt(a: &B, b: &V) -> bool { a < b }
    pub fn v_le(a: &B, b: &V) -> bool { a <= b }
    pub fn v_gt(a: &B, b: &V) -> bool { a > b }
    pub fn v_ge(a: &B, b: &V) -> bool { a >= b }
    pub fn o_eq(a: &B, b: &O) -> bool { a == b }
    pub fn o_ne(a: &B, b: &O) -> bool { a != b }
    pub fn o_partial_cmp(a: &B, b: &O) -> Option<Ordering> { a.partial_cmp(b) }
    pub fn o_lt(a: &B, b: &O) -> bool { a < b }
    pub fn o_le(a: &B, b: &O) -> bool { a <= b }
    pub fn o_gt(a: &B, b: &O) -> bool { a > b }
    pub fn o_ge(a: &B, b: &O) -> bool { a >= b }
    pub fn add(a: B, u: U) -> B { a + u }
    pub fn sub(a: B, u: U) -> B { a - u }
    pub fn mul(a: B, u: U) -> B { a * u }
    pub fn div(a: B, u: U) -> B { a / u }
    pub fn add_assign(a: &mut B, v: V) { *a += v }
    pub fn sub_assign(a: &mut B, v: V) { *a -= v }
    pub fn mul_assign(a: &mut B, v: V) { *a *= v }
    pub fn div_assign(a: &mut B, v: V) { *a /= v }
}
} }
bound!(lo, LowerBound, UpperBound);
bound!(up, UpperBound, LowerBound);
