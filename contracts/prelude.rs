// Shims for the external crates the code under verification calls.  Every
// `external_body` / `uninterp` item below is an ASSUMED contract (trusted base).
pub mod vx {
#[allow(unused_imports)]
use vstd::prelude::*;
#[allow(unused_imports)]
use std::cmp::Ordering;

pub struct BigInt { pub v: Ghost<int> }
impl View for BigInt { type V = int; open spec fn view(&self) -> int { self.v@ } }
pub open spec fn bi(i: int) -> BigInt { BigInt { v: Ghost(i) } }

// ---- integer division conventions -------------------------------------
/// floor division and its remainder
pub open spec fn fdiv(a: int, b: int) -> int { if b > 0 { a / b } else { (-a) / (-b) } }
pub open spec fn fmod(a: int, b: int) -> int { a - b * fdiv(a, b) }
/// division truncating towards zero and its remainder
pub open spec fn tdiv(a: int, b: int) -> int {
    if a >= 0 { if b > 0 { a / b } else { -(a / (-b)) } }
    else { if b > 0 { -((-a) / b) } else { (-a) / (-b) } }
}
pub open spec fn trem(a: int, b: int) -> int { a - b * tdiv(a, b) }
/// 2^n
pub open spec fn p2(n: nat) -> int decreases n { if n == 0 { 1 } else if n == 1 { 2 } else if n == 2 { 4 } else if n == 3 { 8 } else { 2 * p2((n - 1) as nat) } }
/// number of binary digits
pub open spec fn nbits(a: nat) -> nat decreases a { if a == 0 { 0 } else { 1 + nbits(a / 2) } }
pub open spec fn icmp(a: int, b: int) -> Ordering { if a < b { Ordering::Less } else if a > b { Ordering::Greater } else { Ordering::Equal } }

// ---- num_bigint::BigInt --------------------------------------------------
impl Clone for BigInt { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Default for BigInt { #[verifier::external_body] fn default() -> (r: Self) ensures r == bi(0) { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for BigInt {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &BigInt) -> bool { self.v@ == o.v@ }
}
impl PartialEq for BigInt { #[verifier::external_body] fn eq(&self, o: &BigInt) -> bool { unimplemented!() } }
impl Eq for BigInt {}
impl vstd::std_specs::cmp::PartialOrdSpecImpl for BigInt {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &BigInt) -> Option<Ordering> { Some(icmp(self.v@, o.v@)) }
}
impl PartialOrd for BigInt { #[verifier::external_body] fn partial_cmp(&self, o: &BigInt) -> Option<Ordering> { unimplemented!() } }
impl vstd::std_specs::cmp::OrdSpecImpl for BigInt {
    open spec fn obeys_cmp_spec() -> bool { true }
    open spec fn cmp_spec(&self, o: &BigInt) -> Ordering { icmp(self.v@, o.v@) }
}
impl Ord for BigInt { #[verifier::external_body] fn cmp(&self, o: &BigInt) -> Ordering { unimplemented!() } }
pub mod ops_impl {
include!("prelude_ops.rs");
}

// ---- panics, assertions ------------------------------------------------------
#[verifier::external_body]
pub fn vx_panic() -> ! requires false { panic!() }
pub fn vx_assert(b: bool) requires b {}
/// run-time check whose failure is allowed by the contract (partial correctness)
#[verifier::external_body]
pub fn vx_check(b: bool) ensures b { unimplemented!() }
/// run-time check that must succeed whenever c holds
#[verifier::external_body]
pub fn vx_check_if(c: Ghost<bool>, b: bool) requires c@ ==> b ensures b { unimplemented!() }
/// a loop whose only effect outside is to push onto v (checked by the extraction; the loop itself is not verified)
#[verifier::external_body]
pub fn vx_extended<T>(v: &mut Vec<T>) ensures final(v)@.len() >= old(v)@.len(), forall|i: int| 0 <= i < old(v)@.len() ==> #[trigger] final(v)@[i] == old(v)@[i] { unimplemented!() }
#[verifier::external_body]
pub fn vx_diverge() -> ! { panic!() }
#[verifier::external_body]
pub fn vx_vec<T: Clone>(x: T, n: usize) -> (r: Vec<T>)
    ensures r@.len() == n, forall|i: int| 0 <= i < n ==> cloned(x, #[trigger] r@[i]) { unimplemented!() }

// ---- num_traits -----------------------------------------------------------------
pub mod num_traits {
use vstd::prelude::*;
/// the methods are inherent functions of the shim types
pub trait Signed {}
use super::*;
pub trait Zero: Sized {
    spec fn zero_spec() -> Self;
    spec fn is_zero_spec(&self) -> bool;
    fn zero() -> (vr: Self) ensures vr == Self::zero_spec();
    fn is_zero(&self) -> (vr: bool) ensures vr == self.is_zero_spec();
}
pub trait One: Sized {
    spec fn one_req() -> bool;
    spec fn one_is(r: Self) -> bool;
    fn one() -> (vr: Self) requires Self::one_req() ensures Self::one_is(vr);
}
/// `is_one` of num_traits::One, separate because the crate never overrides it
pub trait IsOne: Sized { spec fn is_one_spec(&self) -> bool; fn is_one(&self) -> (vr: bool) ensures vr == self.is_one_spec(); }
impl Zero for BigInt {
    open spec fn zero_spec() -> BigInt { bi(0) }
    open spec fn is_zero_spec(&self) -> bool { self.v@ == 0 }
    #[verifier::external_body] fn zero() -> BigInt { unimplemented!() }
    #[verifier::external_body] fn is_zero(&self) -> bool { unimplemented!() }
}
impl One for BigInt {
    open spec fn one_req() -> bool { true }
    open spec fn one_is(r: BigInt) -> bool { r == bi(1) }
    #[verifier::external_body] fn one() -> BigInt { unimplemented!() }
}
impl BigInt {
    #[verifier::external_body] pub fn is_one(&self) -> (r: bool) ensures r == (self.v@ == 1) { unimplemented!() }
    #[verifier::external_body] pub fn bits(&self) -> (r: usize) ensures r == nbits((if self.v@ < 0 { -self.v@ } else { self.v@ }) as nat) { unimplemented!() }
    #[verifier::external_body] pub fn signum(&self) -> (r: BigInt) ensures r == bi(if self.v@ < 0 { -1 } else if self.v@ == 0 { 0 } else { 1 }) { unimplemented!() }
    #[verifier::external_body] pub fn is_negative(&self) -> (r: bool) ensures r == (self.v@ < 0) { unimplemented!() }
    #[verifier::external_body] pub fn is_positive(&self) -> (r: bool) ensures r == (self.v@ > 0) { unimplemented!() }
    #[verifier::external_body] pub fn abs(&self) -> (r: BigInt) ensures r == bi(if self.v@ < 0 { -self.v@ } else { self.v@ }) { unimplemented!() }
}
macro_rules! prim_zero_one { ($($t:ty),*) => { verus!{ $(
impl Zero for $t {
    open spec fn zero_spec() -> $t { 0 }
    open spec fn is_zero_spec(&self) -> bool { *self == 0 }
    #[verifier::external_body] fn zero() -> $t { 0 }
    #[verifier::external_body] fn is_zero(&self) -> bool { *self == 0 }
}
impl One for $t {
    open spec fn one_req() -> bool { true }
    open spec fn one_is(r: $t) -> bool { r == 1 }
    #[verifier::external_body] fn one() -> $t { 1 }
}
)* } } }
prim_zero_one!(i32, i64, u32, u64, usize);
macro_rules! prim_is_one { ($($t:ty),*) => { verus!{ $(
impl IsOne for $t { open spec fn is_one_spec(&self) -> bool { *self == 1 } #[verifier::external_body] fn is_one(&self) -> (r: bool) { *self == 1 } }
)* } } }
prim_is_one!(i32, i64, u32, u64, usize);
pub trait ToPrimitive {
    spec fn int_val(&self) -> int;
    fn to_i32(&self) -> (r: Option<i32>) ensures match r { Some(v) => v == self.int_val(), None => !(i32::MIN <= self.int_val() <= i32::MAX) };
    fn to_i64(&self) -> (r: Option<i64>) ensures match r { Some(v) => v == self.int_val(), None => !(i64::MIN <= self.int_val() <= i64::MAX) };
    fn to_u64(&self) -> (r: Option<u64>) ensures match r { Some(v) => v == self.int_val(), None => !(0 <= self.int_val() <= u64::MAX) };
    fn to_u32(&self) -> (r: Option<u32>) ensures match r { Some(v) => v == self.int_val(), None => !(0 <= self.int_val() <= u32::MAX) };
    fn to_usize(&self) -> (r: Option<usize>) ensures match r { Some(v) => v == self.int_val(), None => !(0 <= self.int_val() <= usize::MAX) };
}
impl ToPrimitive for BigInt {
    open spec fn int_val(&self) -> int { self.v@ }
    #[verifier::external_body] fn to_i32(&self) -> Option<i32> { unimplemented!() }
    #[verifier::external_body] fn to_i64(&self) -> Option<i64> { unimplemented!() }
    #[verifier::external_body] fn to_u64(&self) -> Option<u64> { unimplemented!() }
    #[verifier::external_body] fn to_u32(&self) -> Option<u32> { unimplemented!() }
    #[verifier::external_body] fn to_usize(&self) -> Option<usize> { unimplemented!() }
}
impl ToPrimitive for i32 {
    open spec fn int_val(&self) -> int { *self as int }
    #[verifier::external_body] fn to_i32(&self) -> Option<i32> { unimplemented!() }
    #[verifier::external_body] fn to_i64(&self) -> Option<i64> { unimplemented!() }
    #[verifier::external_body] fn to_u64(&self) -> Option<u64> { unimplemented!() }
    #[verifier::external_body] fn to_u32(&self) -> Option<u32> { unimplemented!() }
    #[verifier::external_body] fn to_usize(&self) -> Option<usize> { unimplemented!() }
}
impl ToPrimitive for i64 {
    open spec fn int_val(&self) -> int { *self as int }
    #[verifier::external_body] fn to_i32(&self) -> Option<i32> { unimplemented!() }
    #[verifier::external_body] fn to_i64(&self) -> Option<i64> { unimplemented!() }
    #[verifier::external_body] fn to_u64(&self) -> Option<u64> { unimplemented!() }
    #[verifier::external_body] fn to_u32(&self) -> Option<u32> { unimplemented!() }
    #[verifier::external_body] fn to_usize(&self) -> Option<usize> { unimplemented!() }
}
impl ToPrimitive for u32 {
    open spec fn int_val(&self) -> int { *self as int }
    #[verifier::external_body] fn to_i32(&self) -> Option<i32> { unimplemented!() }
    #[verifier::external_body] fn to_i64(&self) -> Option<i64> { unimplemented!() }
    #[verifier::external_body] fn to_u64(&self) -> Option<u64> { unimplemented!() }
    #[verifier::external_body] fn to_u32(&self) -> Option<u32> { unimplemented!() }
    #[verifier::external_body] fn to_usize(&self) -> Option<usize> { unimplemented!() }
}
impl ToPrimitive for u64 {
    open spec fn int_val(&self) -> int { *self as int }
    #[verifier::external_body] fn to_i32(&self) -> Option<i32> { unimplemented!() }
    #[verifier::external_body] fn to_i64(&self) -> Option<i64> { unimplemented!() }
    #[verifier::external_body] fn to_u64(&self) -> Option<u64> { unimplemented!() }
    #[verifier::external_body] fn to_u32(&self) -> Option<u32> { unimplemented!() }
    #[verifier::external_body] fn to_usize(&self) -> Option<usize> { unimplemented!() }
}
impl ToPrimitive for usize {
    open spec fn int_val(&self) -> int { *self as int }
    #[verifier::external_body] fn to_i32(&self) -> Option<i32> { unimplemented!() }
    #[verifier::external_body] fn to_i64(&self) -> Option<i64> { unimplemented!() }
    #[verifier::external_body] fn to_u64(&self) -> Option<u64> { unimplemented!() }
    #[verifier::external_body] fn to_u32(&self) -> Option<u32> { unimplemented!() }
    #[verifier::external_body] fn to_usize(&self) -> Option<usize> { unimplemented!() }
}
}

// ---- num_integer --------------------------------------------------------------------
pub mod num_integer {
use vstd::prelude::*;
use super::*;
pub trait Integer: Sized {
    spec fn ival(&self) -> int;
    fn is_odd(&self) -> (r: bool) ensures r == (self.ival() % 2 == 1);
    fn is_even(&self) -> (r: bool) ensures r == (self.ival() % 2 == 0);
    fn div_floor(&self, o: &Self) -> (r: Self)
        requires o.ival() != 0, !(o.ival() == -1 && Self::is_min(self.ival()))
        ensures r.ival() == fdiv(self.ival(), o.ival());
    fn mod_floor(&self, o: &Self) -> (r: Self)
        requires o.ival() != 0, !(o.ival() == -1 && Self::is_min(self.ival()))
        ensures r.ival() == fmod(self.ival(), o.ival());
    spec fn is_min(i: int) -> bool;
    fn lcm(&self, o: &Self) -> (r: Self)
        requires self.ival() != 0, o.ival() != 0, Self::lcm_ok(self.ival(), o.ival())
        ensures r.ival() > 0, r.ival() % self.ival() == 0, r.ival() % o.ival() == 0;
    spec fn lcm_ok(a: int, b: int) -> bool;
    fn gcd(&self, o: &Self) -> (r: Self)
        requires Self::gcd_ok(self.ival(), o.ival())
        ensures r.ival() >= 0, divides(r.ival(), self.ival()), divides(r.ival(), o.ival()), forall|d: int| divides(d, self.ival()) && divides(d, o.ival()) ==> #[trigger] divides(d, r.ival()), self.ival() != 0 || o.ival() != 0 ==> r.ival() > 0;
    spec fn gcd_ok(a: int, b: int) -> bool;
    fn is_multiple_of(&self, o: &Self) -> (r: bool) requires o.ival() != 0 ensures r == divides(o.ival(), self.ival()), r == (fmod(self.ival(), o.ival()) == 0);
    fn div_mod_floor(&self, o: &Self) -> (r: (Self, Self))
        requires o.ival() != 0, !(o.ival() == -1 && Self::is_min(self.ival()))
        ensures r.0.ival() == fdiv(self.ival(), o.ival()), r.1.ival() == fmod(self.ival(), o.ival());
    fn div_rem(&self, o: &Self) -> (r: (Self, Self))
        requires o.ival() != 0, !(o.ival() == -1 && Self::is_min(self.ival()))
        ensures r.0.ival() == tdiv(self.ival(), o.ival()), r.1.ival() == trem(self.ival(), o.ival());
}
impl Integer for BigInt {
    open spec fn ival(&self) -> int { self.v@ }
    open spec fn is_min(i: int) -> bool { false }
    open spec fn lcm_ok(a: int, b: int) -> bool { true }
    open spec fn gcd_ok(a: int, b: int) -> bool { true }
    #[verifier::external_body] fn is_odd(&self) -> bool { unimplemented!() }
    #[verifier::external_body] fn is_even(&self) -> bool { unimplemented!() }
    #[verifier::external_body] fn div_floor(&self, o: &Self) -> Self { unimplemented!() }
    #[verifier::external_body] fn mod_floor(&self, o: &Self) -> Self { unimplemented!() }
    #[verifier::external_body] fn lcm(&self, o: &Self) -> Self { unimplemented!() }
    #[verifier::external_body] fn gcd(&self, o: &Self) -> Self { unimplemented!() }
    #[verifier::external_body] fn is_multiple_of(&self, o: &Self) -> bool { unimplemented!() }
    #[verifier::external_body] fn div_mod_floor(&self, o: &Self) -> (Self, Self) { unimplemented!() }
    #[verifier::external_body] fn div_rem(&self, o: &Self) -> (Self, Self) { unimplemented!() }
}
impl Integer for i32 {
    open spec fn ival(&self) -> int { *self as int }
    open spec fn is_min(i: int) -> bool { i == i32::MIN }
    open spec fn lcm_ok(a: int, b: int) -> bool { false }
    open spec fn gcd_ok(a: int, b: int) -> bool { a != i32::MIN && b != i32::MIN }
    #[verifier::external_body] fn is_odd(&self) -> bool { unimplemented!() }
    #[verifier::external_body] fn is_even(&self) -> bool { unimplemented!() }
    #[verifier::external_body] fn div_floor(&self, o: &Self) -> Self { unimplemented!() }
    #[verifier::external_body] fn mod_floor(&self, o: &Self) -> Self { unimplemented!() }
    #[verifier::external_body] fn lcm(&self, o: &Self) -> Self { unimplemented!() }
    #[verifier::external_body] fn gcd(&self, o: &Self) -> Self { unimplemented!() }
    #[verifier::external_body] fn is_multiple_of(&self, o: &Self) -> bool { unimplemented!() }
    #[verifier::external_body] fn div_mod_floor(&self, o: &Self) -> (Self, Self) { unimplemented!() }
    #[verifier::external_body] fn div_rem(&self, o: &Self) -> (Self, Self) { unimplemented!() }
}
impl Integer for i64 {
    open spec fn ival(&self) -> int { *self as int }
    open spec fn is_min(i: int) -> bool { i == i64::MIN }
    open spec fn lcm_ok(a: int, b: int) -> bool { false }
    open spec fn gcd_ok(a: int, b: int) -> bool { a != i64::MIN && b != i64::MIN }
    #[verifier::external_body] fn is_odd(&self) -> bool { unimplemented!() }
    #[verifier::external_body] fn is_even(&self) -> bool { unimplemented!() }
    #[verifier::external_body] fn div_floor(&self, o: &Self) -> Self { unimplemented!() }
    #[verifier::external_body] fn mod_floor(&self, o: &Self) -> Self { unimplemented!() }
    #[verifier::external_body] fn lcm(&self, o: &Self) -> Self { unimplemented!() }
    #[verifier::external_body] fn gcd(&self, o: &Self) -> Self { unimplemented!() }
    #[verifier::external_body] fn is_multiple_of(&self, o: &Self) -> bool { unimplemented!() }
    #[verifier::external_body] fn div_mod_floor(&self, o: &Self) -> (Self, Self) { unimplemented!() }
    #[verifier::external_body] fn div_rem(&self, o: &Self) -> (Self, Self) { unimplemented!() }
}
impl Integer for u32 {
    open spec fn ival(&self) -> int { *self as int }
    open spec fn is_min(i: int) -> bool { false }
    open spec fn lcm_ok(a: int, b: int) -> bool { false }
    open spec fn gcd_ok(a: int, b: int) -> bool { true }
    #[verifier::external_body] fn is_odd(&self) -> bool { unimplemented!() }
    #[verifier::external_body] fn is_even(&self) -> bool { unimplemented!() }
    #[verifier::external_body] fn div_floor(&self, o: &Self) -> Self { unimplemented!() }
    #[verifier::external_body] fn mod_floor(&self, o: &Self) -> Self { unimplemented!() }
    #[verifier::external_body] fn lcm(&self, o: &Self) -> Self { unimplemented!() }
    #[verifier::external_body] fn gcd(&self, o: &Self) -> Self { unimplemented!() }
    #[verifier::external_body] fn is_multiple_of(&self, o: &Self) -> bool { unimplemented!() }
    #[verifier::external_body] fn div_mod_floor(&self, o: &Self) -> (Self, Self) { unimplemented!() }
    #[verifier::external_body] fn div_rem(&self, o: &Self) -> (Self, Self) { unimplemented!() }
}
impl Integer for u64 {
    open spec fn ival(&self) -> int { *self as int }
    open spec fn is_min(i: int) -> bool { false }
    open spec fn lcm_ok(a: int, b: int) -> bool { false }
    open spec fn gcd_ok(a: int, b: int) -> bool { true }
    #[verifier::external_body] fn is_odd(&self) -> bool { unimplemented!() }
    #[verifier::external_body] fn is_even(&self) -> bool { unimplemented!() }
    #[verifier::external_body] fn div_floor(&self, o: &Self) -> Self { unimplemented!() }
    #[verifier::external_body] fn mod_floor(&self, o: &Self) -> Self { unimplemented!() }
    #[verifier::external_body] fn lcm(&self, o: &Self) -> Self { unimplemented!() }
    #[verifier::external_body] fn gcd(&self, o: &Self) -> Self { unimplemented!() }
    #[verifier::external_body] fn is_multiple_of(&self, o: &Self) -> bool { unimplemented!() }
    #[verifier::external_body] fn div_mod_floor(&self, o: &Self) -> (Self, Self) { unimplemented!() }
    #[verifier::external_body] fn div_rem(&self, o: &Self) -> (Self, Self) { unimplemented!() }
}
impl Integer for usize {
    open spec fn ival(&self) -> int { *self as int }
    open spec fn is_min(i: int) -> bool { false }
    open spec fn lcm_ok(a: int, b: int) -> bool { false }
    open spec fn gcd_ok(a: int, b: int) -> bool { true }
    #[verifier::external_body] fn is_odd(&self) -> bool { unimplemented!() }
    #[verifier::external_body] fn is_even(&self) -> bool { unimplemented!() }
    #[verifier::external_body] fn div_floor(&self, o: &Self) -> Self { unimplemented!() }
    #[verifier::external_body] fn mod_floor(&self, o: &Self) -> Self { unimplemented!() }
    #[verifier::external_body] fn lcm(&self, o: &Self) -> Self { unimplemented!() }
    #[verifier::external_body] fn gcd(&self, o: &Self) -> Self { unimplemented!() }
    #[verifier::external_body] fn is_multiple_of(&self, o: &Self) -> bool { unimplemented!() }
    #[verifier::external_body] fn div_mod_floor(&self, o: &Self) -> (Self, Self) { unimplemented!() }
    #[verifier::external_body] fn div_rem(&self, o: &Self) -> (Self, Self) { unimplemented!() }
}
}

// ---- num_iter::range ------------------------------------------------------------------
pub mod num_iter {
use vstd::prelude::*;
use super::*;
pub trait IntLike: Sized { spec fn iv(&self) -> int; }
impl IntLike for BigInt { open spec fn iv(&self) -> int { self.v@ } }
impl IntLike for i32 { open spec fn iv(&self) -> int { *self as int } }
impl IntLike for i64 { open spec fn iv(&self) -> int { *self as int } }
impl IntLike for u32 { open spec fn iv(&self) -> int { *self as int } }
impl IntLike for u64 { open spec fn iv(&self) -> int { *self as int } }
impl IntLike for usize { open spec fn iv(&self) -> int { *self as int } }
#[verifier::accept_recursive_types(T)]
pub struct Range<T> { pub cur: Ghost<int>, pub end: Ghost<int>, pub ph: std::marker::PhantomData<T> }
#[verifier::accept_recursive_types(T)]
pub struct RevRange<T> { pub cur: Ghost<int>, pub end: Ghost<int>, pub ph: std::marker::PhantomData<T> }
#[verifier::external_body]
pub fn range<T: IntLike>(a: T, b: T) -> (r: Range<T>) ensures r.cur@ == a.iv(), r.end@ == b.iv() { unimplemented!() }
#[verifier::external_body]
pub fn range_inclusive<T: IntLike>(a: T, b: T) -> (r: Range<T>) ensures r.cur@ == a.iv(), r.end@ == b.iv() + 1 { unimplemented!() }
impl<T: IntLike> Range<T> {
    pub open spec fn vx_done(&self) -> bool { self.cur@ >= self.end@ }
    pub open spec fn vx_left(&self) -> int { self.end@ - self.cur@ }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<T>)
        ensures final(self).end@ == old(self).end@, match r {
            None => old(self).cur@ >= old(self).end@ && final(self).cur@ == old(self).cur@,
            Some(v) => old(self).cur@ < old(self).end@ && v.iv() == old(self).cur@ && final(self).cur@ == old(self).cur@ + 1 } { unimplemented!() }
    #[verifier::external_body]
    pub fn rev(self) -> (r: RevRange<T>) ensures r.cur@ == self.cur@, r.end@ == self.end@ { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_into_iter(self) -> (r: Self) ensures r.cur@ == self.cur@, r.end@ == self.end@ { unimplemented!() }
}
impl<T: IntLike> RevRange<T> {
    pub open spec fn vx_done(&self) -> bool { self.cur@ >= self.end@ }
    pub open spec fn vx_left(&self) -> int { self.end@ - self.cur@ }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<T>)
        ensures final(self).cur@ == old(self).cur@, match r {
            None => old(self).cur@ >= old(self).end@ && final(self).end@ == old(self).end@,
            Some(v) => old(self).cur@ < old(self).end@ && v.iv() == old(self).end@ - 1 && final(self).end@ == old(self).end@ - 1 } { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_into_iter(self) -> (r: Self) ensures r.cur@ == self.cur@, r.end@ == self.end@ { unimplemented!() }
}
}

// ---- primes ------------------------------------------------------------------------------
pub mod primes {
use vstd::prelude::*;
use super::*;
#[verifier::external_body]
pub fn is_prime(n: u64) -> (r: bool) ensures r == is_prime_spec(n as int) { unimplemented!() }
}
pub open spec fn divides(d: int, n: int) -> bool { exists|k: int| n == #[trigger] (d * k) }
pub open spec fn is_prime_spec(n: int) -> bool {
    n >= 2 && forall|d: int| 1 < d < n ==> !#[trigger] divides(d, n)
}

// ---- num_bigint module alias ------------------------------------------------------------------
pub mod num_bigint { pub use super::BigInt; }

// ---- std::collections ---------------------------------------------------------------------------
/// view of a key / value type (what the map contracts are stated over)
pub trait DV { type D; spec fn dv(&self) -> Self::D; }
impl DV for BigInt { type D = int; open spec fn dv(&self) -> int { self.v@ } }

pub mod collections {
use vstd::prelude::*;
use super::*;
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct BTreeMap<K: DV, V: DV> { pub m: Ghost<Map<K::D, V::D>> }
impl<K: DV, V: DV> Clone for BTreeMap<K, V> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl<K: DV, V: DV> Default for BTreeMap<K, V> { #[verifier::external_body] fn default() -> (r: Self) ensures r.m@ == Map::<K::D, V::D>::empty() { unimplemented!() } }
impl<K: DV, V: DV> vstd::std_specs::cmp::PartialEqSpecImpl for BTreeMap<K, V> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { self.m@ == o.m@ }
}
impl<K: DV, V: DV> PartialEq for BTreeMap<K, V> { #[verifier::external_body] fn eq(&self, o: &Self) -> bool { unimplemented!() } }
impl<K: DV, V: DV> BTreeMap<K, V> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.m@ == Map::<K::D, V::D>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.m@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self.m@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self).m@ == Map::<K::D, V::D>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == self.m@.contains_key(k.dv()) { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &K) -> (r: Option<&V>)
        ensures match r { None => !self.m@.contains_key(k.dv()), Some(v) => self.m@.contains_key(k.dv()) && v.dv() == self.m@[k.dv()] } { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut(&mut self, k: &K) -> (r: Option<&mut V>)
        ensures !old(self).m@.contains_key(k.dv()) ==> r.is_none() && final(self).m@ == old(self).m@,
            old(self).m@.contains_key(k.dv()) ==> r.is_some() && r.unwrap().dv() == old(self).m@[k.dv()]
                && final(self).m@ == old(self).m@.insert(k.dv(), (*final(r.unwrap())).dv()) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures final(self).m@ == old(self).m@.insert(k.dv(), v.dv()), r.is_some() == old(self).m@.contains_key(k.dv()) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &K) -> (r: Option<V>)
        ensures final(self).m@ == old(self).m@.remove(k.dv()), r.is_some() == old(self).m@.contains_key(k.dv()) { unimplemented!() }
    #[verifier::external_body]
    pub fn iter(&self) -> (r: MapIter<'_, K, V>) ensures r.rest() == self.m@ { unimplemented!() }
    #[verifier::external_body]
    pub fn last_key_value(&self) -> (r: Option<(&K, &V)>)
        ensures match r { None => self.m@ == Map::<K::D, V::D>::empty(), Some((k, v)) => self.m@.contains_key(k.dv()) && self.m@[k.dv()] == v.dv() && is_greatest(k.dv(), self.m@) } { unimplemented!() }
    #[verifier::external_body]
    pub fn first_key_value(&self) -> (r: Option<(&K, &V)>)
        ensures match r { None => self.m@ == Map::<K::D, V::D>::empty(), Some((k, v)) => self.m@.contains_key(k.dv()) && self.m@[k.dv()] == v.dv() && is_least(k.dv(), self.m@) } { unimplemented!() }
    #[verifier::external_body]
    pub fn entry(&mut self, k: K) -> (r: Entry<'_, K, V>)
        ensures r.key() == k.dv(), r.before() == old(self).m@, r.after() == final(self).m@ { unimplemented!() }
    #[verifier::external_body]
    pub fn keys(&self) -> (r: MapKeys<'_, K, V>) ensures r.rest() == self.m@ { unimplemented!() }
    #[verifier::external_body]
    pub fn values(&self) -> (r: MapVals<'_, K, V>) ensures r.rest() == self.m@ { unimplemented!() }
    /// keys in ascending order, copied (stands for the key walk of `iter_mut`)
    #[verifier::external_body]
    pub fn vx_keys_snapshot(&self) -> (r: KeySnap<K, V>) ensures r.rest() == self.m@ { unimplemented!() }
}
/// Ascending iteration. `rest` is what is still to be visited.
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
#[verifier::external_body]
pub struct Entry<'a, K: DV, V: DV> { ph: std::marker::PhantomData<&'a mut (K, V)> }
impl<'a, K: DV, V: DV> Entry<'a, K, V> {
    pub uninterp spec fn key(&self) -> K::D;
    pub uninterp spec fn before(&self) -> Map<K::D, V::D>;
    #[verifier::prophetic]
    pub uninterp spec fn after(&self) -> Map<K::D, V::D>;
    #[verifier::external_body]
    pub fn or_insert(self, v: V) -> (r: &'a mut V)
        ensures (*r).dv() == (if self.before().contains_key(self.key()) { self.before()[self.key()] } else { v.dv() }),
            self.after() == self.before().insert(self.key(), (*final(r)).dv()) { unimplemented!() }
}
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
#[verifier::external_body]
pub struct MapIter<'a, K: DV, V: DV> { ph: std::marker::PhantomData<&'a (K, V)> }
impl<'a, K: DV, V: DV> MapIter<'a, K, V> {
    pub uninterp spec fn rest(&self) -> Map<K::D, V::D>;
    pub open spec fn vx_done(&self) -> bool { self.rest() == Map::<K::D, V::D>::empty() }
    pub open spec fn vx_left(&self) -> int { self.rest().len() as int }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(&'a K, &'a V)>)
        ensures match r {
            None => old(self).rest() == Map::<K::D, V::D>::empty() && final(self).rest() == old(self).rest(),
            Some((k, v)) => final(self).rest().len() < old(self).rest().len() && old(self).rest().contains_key(k.dv()) && old(self).rest()[k.dv()] == v.dv() && final(self).rest() == old(self).rest().remove(k.dv())
                && is_least(k.dv(), old(self).rest()) } { unimplemented!() }
    #[verifier::external_body]
    pub fn next_back(&mut self) -> (r: Option<(&'a K, &'a V)>)
        ensures match r {
            None => old(self).rest() == Map::<K::D, V::D>::empty() && final(self).rest() == old(self).rest(),
            Some((k, v)) => final(self).rest().len() < old(self).rest().len() && old(self).rest().contains_key(k.dv()) && old(self).rest()[k.dv()] == v.dv() && final(self).rest() == old(self).rest().remove(k.dv())
                && is_greatest(k.dv(), old(self).rest()) } { unimplemented!() }
    #[verifier::external_body]
    pub fn last(self) -> (r: Option<(&'a K, &'a V)>)
        ensures match r {
            None => self.rest() == Map::<K::D, V::D>::empty(),
            Some((k, v)) => self.rest().contains_key(k.dv()) && self.rest()[k.dv()] == v.dv() && is_greatest(k.dv(), self.rest()) } { unimplemented!() }
    #[verifier::external_body]
    pub fn rev(self) -> (r: MapRev<'a, K, V>) ensures r.rest() == self.rest() { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_into_iter(self) -> (r: Self) ensures r.rest() == self.rest() { unimplemented!() }
}
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
#[verifier::external_body]
pub struct MapRev<'a, K: DV, V: DV> { ph: std::marker::PhantomData<&'a (K, V)> }
impl<'a, K: DV, V: DV> MapRev<'a, K, V> {
    pub uninterp spec fn rest(&self) -> Map<K::D, V::D>;
    pub open spec fn vx_done(&self) -> bool { self.rest() == Map::<K::D, V::D>::empty() }
    pub open spec fn vx_left(&self) -> int { self.rest().len() as int }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(&'a K, &'a V)>)
        ensures match r {
            None => old(self).rest() == Map::<K::D, V::D>::empty() && final(self).rest() == old(self).rest(),
            Some((k, v)) => final(self).rest().len() < old(self).rest().len() && old(self).rest().contains_key(k.dv()) && old(self).rest()[k.dv()] == v.dv() && final(self).rest() == old(self).rest().remove(k.dv())
                && is_greatest(k.dv(), old(self).rest()) } { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_into_iter(self) -> (r: Self) ensures r.rest() == self.rest() { unimplemented!() }
}
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
#[verifier::external_body]
pub struct MapKeys<'a, K: DV, V: DV> { ph: std::marker::PhantomData<&'a (K, V)> }
impl<'a, K: DV, V: DV> MapKeys<'a, K, V> {
    pub uninterp spec fn rest(&self) -> Map<K::D, V::D>;
    pub open spec fn vx_done(&self) -> bool { self.rest() == Map::<K::D, V::D>::empty() }
    pub open spec fn vx_left(&self) -> int { self.rest().len() as int }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&'a K>)
        ensures match r {
            None => old(self).rest() == Map::<K::D, V::D>::empty() && final(self).rest() == old(self).rest(),
            Some(k) => final(self).rest().len() < old(self).rest().len() && old(self).rest().contains_key(k.dv()) && final(self).rest() == old(self).rest().remove(k.dv())
                && is_least(k.dv(), old(self).rest()) } { unimplemented!() }
    #[verifier::external_body]
    pub fn next_back(&mut self) -> (r: Option<&'a K>)
        ensures match r {
            None => old(self).rest() == Map::<K::D, V::D>::empty() && final(self).rest() == old(self).rest(),
            Some(k) => final(self).rest().len() < old(self).rest().len() && old(self).rest().contains_key(k.dv()) && final(self).rest() == old(self).rest().remove(k.dv())
                && is_greatest(k.dv(), old(self).rest()) } { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_into_iter(self) -> (r: Self) ensures r.rest() == self.rest() { unimplemented!() }
}
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
#[verifier::external_body]
pub struct MapVals<'a, K: DV, V: DV> { ph: std::marker::PhantomData<&'a (K, V)> }
impl<'a, K: DV, V: DV> MapVals<'a, K, V> {
    pub uninterp spec fn rest(&self) -> Map<K::D, V::D>;
    pub open spec fn vx_done(&self) -> bool { self.rest() == Map::<K::D, V::D>::empty() }
    pub open spec fn vx_left(&self) -> int { self.rest().len() as int }
    pub uninterp spec fn head(&self) -> K::D;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&'a V>)
        ensures match r {
            None => old(self).rest() == Map::<K::D, V::D>::empty() && final(self).rest() == old(self).rest(),
            Some(v) => final(self).rest().len() < old(self).rest().len() && old(self).rest().contains_key(old(self).head()) && old(self).rest()[old(self).head()] == v.dv()
                && final(self).rest() == old(self).rest().remove(old(self).head()) && is_least(old(self).head(), old(self).rest()) } { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_into_iter(self) -> (r: Self) ensures r.rest() == self.rest() { unimplemented!() }
}
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
#[verifier::external_body]
pub struct MapInto<K: DV, V: DV> { ph: std::marker::PhantomData<(K, V)> }
impl<K: DV, V: DV> MapInto<K, V> {
    pub uninterp spec fn rest(&self) -> Map<K::D, V::D>;
    pub open spec fn vx_done(&self) -> bool { self.rest() == Map::<K::D, V::D>::empty() }
    pub open spec fn vx_left(&self) -> int { self.rest().len() as int }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(K, V)>)
        ensures match r {
            None => old(self).rest() == Map::<K::D, V::D>::empty() && final(self).rest() == old(self).rest(),
            Some((k, v)) => final(self).rest().len() < old(self).rest().len() && old(self).rest().contains_key(k.dv()) && old(self).rest()[k.dv()] == v.dv() && final(self).rest() == old(self).rest().remove(k.dv())
                && is_least(k.dv(), old(self).rest()) } { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_into_iter(self) -> (r: Self) ensures r.rest() == self.rest() { unimplemented!() }
}
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
#[verifier::external_body]
pub struct KeySnap<K: DV, V: DV> { ph: std::marker::PhantomData<(K, V)> }
impl<K: DV, V: DV> KeySnap<K, V> {
    pub uninterp spec fn rest(&self) -> Map<K::D, V::D>;
    pub open spec fn vx_done(&self) -> bool { self.rest() == Map::<K::D, V::D>::empty() }
    pub open spec fn vx_left(&self) -> int { self.rest().len() as int }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<K>)
        ensures match r {
            None => old(self).rest() == Map::<K::D, V::D>::empty() && final(self).rest() == old(self).rest(),
            Some(k) => final(self).rest().len() < old(self).rest().len() && old(self).rest().contains_key(k.dv()) && final(self).rest() == old(self).rest().remove(k.dv())
                && is_least(k.dv(), old(self).rest()) } { unimplemented!() }
}
#[verifier::reject_recursive_types(K)]
pub struct BTreeSet<K: DV> { pub s: Ghost<Set<K::D>> }
impl<K: DV> BTreeSet<K> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.s@ == Set::<K::D>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K) -> (r: bool) ensures final(self).s@ == old(self).s@.insert(k.dv()), r == !old(self).s@.contains(k.dv()) { unimplemented!() }
    #[verifier::external_body]
    pub fn contains(&self, k: &K) -> (r: bool) ensures r == self.s@.contains(k.dv()) { unimplemented!() }
    #[verifier::external_body]
    pub fn iter(&self) -> (r: SetIter<'_, K>) ensures r.rest() == self.s@ { unimplemented!() }
}
#[verifier::reject_recursive_types(K)]
#[verifier::external_body]
pub struct SetIter<'a, K: DV> { ph: std::marker::PhantomData<&'a K> }
impl<'a, K: DV> SetIter<'a, K> {
    pub uninterp spec fn rest(&self) -> Set<K::D>;
    pub open spec fn vx_done(&self) -> bool { self.rest() == Set::<K::D>::empty() }
    pub open spec fn vx_left(&self) -> int { self.rest().len() as int }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&'a K>)
        ensures match r {
            None => old(self).rest() == Set::<K::D>::empty() && final(self).rest() == old(self).rest(),
            Some(k) => final(self).rest().len() < old(self).rest().len() && old(self).rest().contains(k.dv()) && final(self).rest() == old(self).rest().remove(k.dv()) } { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_into_iter(self) -> (r: Self) ensures r.rest() == self.rest() { unimplemented!() }
}
}
/// order of the key views; instantiated by the contracts of the key type's Ord impl
pub uninterp spec fn key_lt<D>(a: D, b: D) -> bool;
pub open spec fn is_least<D, E>(k: D, m: Map<D, E>) -> bool { forall|o: D| #[trigger] m.contains_key(o) && o != k ==> key_lt(k, o) }
pub open spec fn is_greatest<D, E>(k: D, m: Map<D, E>) -> bool { forall|o: D| #[trigger] m.contains_key(o) && o != k ==> key_lt(o, k) }

// ---- iteration over std containers -------------------------------------------------------------------
pub trait VxIntoIter: Sized {
    type It;
    spec fn vx_ok(self, it: Self::It) -> bool;
    fn vx_into_iter(self) -> (r: Self::It) ensures self.vx_ok(r);
}
impl<'a, K: DV, V: DV> VxIntoIter for &'a collections::BTreeMap<K, V> {
    type It = collections::MapIter<'a, K, V>;
    open spec fn vx_ok(self, it: collections::MapIter<'a, K, V>) -> bool { it.rest() == self.m@ }
    #[verifier::external_body] fn vx_into_iter(self) -> collections::MapIter<'a, K, V> { unimplemented!() }
}
impl<K: DV, V: DV> VxIntoIter for collections::BTreeMap<K, V> {
    type It = collections::MapInto<K, V>;
    open spec fn vx_ok(self, it: collections::MapInto<K, V>) -> bool { it.rest() == self.m@ }
    #[verifier::external_body] fn vx_into_iter(self) -> collections::MapInto<K, V> { unimplemented!() }
}
impl<'a, K: DV> VxIntoIter for &'a collections::BTreeSet<K> {
    type It = collections::SetIter<'a, K>;
    open spec fn vx_ok(self, it: collections::SetIter<'a, K>) -> bool { it.rest() == self.s@ }
    #[verifier::external_body] fn vx_into_iter(self) -> collections::SetIter<'a, K> { unimplemented!() }
}
#[verifier::accept_recursive_types(T)]
#[verifier::external_body]
pub struct VecIter<'a, T> { ph: std::marker::PhantomData<&'a T> }
impl<'a, T> VecIter<'a, T> {
    /// the whole sequence and how many elements were handed out
    pub uninterp spec fn all(&self) -> Seq<T>;
    pub uninterp spec fn pos(&self) -> int;
    pub open spec fn vx_done(&self) -> bool { self.pos() == self.all().len() }
    pub open spec fn vx_left(&self) -> int { self.all().len() - self.pos() }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&'a T>)
        ensures final(self).all() == old(self).all(), 0 <= old(self).pos() <= old(self).all().len(), match r {
            None => old(self).pos() == old(self).all().len() && final(self).pos() == old(self).pos(),
            Some(v) => old(self).pos() < old(self).all().len() && *v == old(self).all()[old(self).pos()] && final(self).pos() == old(self).pos() + 1 } { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_into_iter(self) -> (r: Self) ensures r.all() == self.all(), r.pos() == self.pos() { unimplemented!() }
}
impl<'a, T> VxIntoIter for &'a Vec<T> {
    type It = VecIter<'a, T>;
    open spec fn vx_ok(self, it: VecIter<'a, T>) -> bool { it.all() == self@ && it.pos() == 0 }
    #[verifier::external_body] fn vx_into_iter(self) -> VecIter<'a, T> { unimplemented!() }
}
#[verifier::accept_recursive_types(T)]
#[verifier::external_body]
pub struct VecInto<T> { ph: std::marker::PhantomData<T> }
impl<T> VecInto<T> {
    pub uninterp spec fn all(&self) -> Seq<T>;
    pub uninterp spec fn pos(&self) -> int;
    pub open spec fn vx_done(&self) -> bool { self.pos() == self.all().len() }
    pub open spec fn vx_left(&self) -> int { self.all().len() - self.pos() }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<T>)
        ensures final(self).all() == old(self).all(), 0 <= old(self).pos() <= old(self).all().len(), match r {
            None => old(self).pos() == old(self).all().len() && final(self).pos() == old(self).pos(),
            Some(v) => old(self).pos() < old(self).all().len() && v == old(self).all()[old(self).pos()] && final(self).pos() == old(self).pos() + 1 } { unimplemented!() }
}
impl<T> VxIntoIter for Vec<T> {
    type It = VecInto<T>;
    open spec fn vx_ok(self, it: VecInto<T>) -> bool { it.all() == self@ && it.pos() == 0 }
    #[verifier::external_body] fn vx_into_iter(self) -> VecInto<T> { unimplemented!() }
}
pub trait VxVecIter<T> {
    spec fn sq(&self) -> Seq<T>;
    fn vx_iter(&self) -> (r: VecIter<'_, T>) ensures r.all() == self.sq(), r.pos() == 0;
}
impl<T> VxVecIter<T> for Vec<T> {
    open spec fn sq(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vx_iter(&self) -> VecIter<'_, T> { unimplemented!() }
}
impl<K: DV, V: DV> collections::BTreeMap<K, V> {
    #[verifier::external_body]
    pub fn vx_iter(&self) -> (r: collections::MapIter<'_, K, V>) ensures r.rest() == self.m@ { unimplemented!() }
    /// `split_off(k)`: keeps keys < k, returns the rest
    #[verifier::external_body]
    pub fn split_off(&mut self, k: &K) -> (r: Self)
        ensures final(self).m@ == Map::new(old(self).m@.dom().filter(|o: K::D| key_lt(o, k.dv())), |o: K::D| old(self).m@[o]),
            r.m@ == Map::new(old(self).m@.dom().filter(|o: K::D| !key_lt(o, k.dv())), |o: K::D| old(self).m@[o]) { unimplemented!() }
}
impl<K: DV> collections::BTreeSet<K> {
    #[verifier::external_body]
    pub fn vx_iter(&self) -> (r: collections::SetIter<'_, K>) ensures r.rest() == self.s@ { unimplemented!() }
}

// ---- text ------------------------------------------------------------------------------------------
/// Unicode White_Space, what `trim_end` removes
pub open spec fn is_ws(c: char) -> bool {
    let n = c as u32;
    (9 <= n && n <= 13) || n == 32 || n == 0x85 || n == 0xA0 || n == 0x1680 || (0x2000 <= n && n <= 0x200A) || n == 0x2028 || n == 0x2029 || n == 0x202F || n == 0x205F || n == 0x3000
}
pub open spec fn trimmed(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() > 0 && is_ws(s.last()) { trimmed(s.drop_last()) } else { s } }
pub open spec fn digit(n: nat) -> char { if n == 0 { '0' } else if n == 1 { '1' } else if n == 2 { '2' } else if n == 3 { '3' } else if n == 4 { '4' } else if n == 5 { '5' } else if n == 6 { '6' } else if n == 7 { '7' } else if n == 8 { '8' } else { '9' } }
/// decimal text of a number
pub open spec fn dtext(n: nat) -> Seq<char> decreases n { if n < 10 { Seq::empty().push(digit(n)) } else { dtext(n / 10).push(digit(n % 10)) } }
pub open spec fn itext(i: int) -> Seq<char> { if i < 0 { Seq::empty().push('-') + dtext((-i) as nat) } else { dtext(i as nat) } }
pub struct String { pub s: Ghost<Seq<char>> }
impl View for String { type V = Seq<char>; open spec fn view(&self) -> Seq<char> { self.s@ } }
pub trait StrLike { spec fn sv(&self) -> Seq<char>; }
impl StrLike for str { open spec fn sv(&self) -> Seq<char> { self@ } }
impl StrLike for String { open spec fn sv(&self) -> Seq<char> { self@ } }
impl<T: StrLike + ?Sized> StrLike for &T { open spec fn sv(&self) -> Seq<char> { (**self).sv() } }
impl Clone for String { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl String {
    #[verifier::external_body] pub fn new() -> (r: String) ensures r@ == Seq::<char>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn from<S: StrLike>(s: S) -> (r: String) ensures r@ == s.sv() { unimplemented!() }
    #[verifier::external_body] pub fn push_str<S: StrLike + ?Sized>(&mut self, s: &S) ensures final(self)@ == old(self)@ + s.sv() { unimplemented!() }
    #[verifier::external_body] pub fn push(&mut self, c: char) ensures final(self)@ == old(self)@.push(c) { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body] pub fn trim_end(&self) -> (r: &str) ensures r@ == trimmed(self@) { unimplemented!() }
    #[verifier::external_body] pub fn as_str(&self) -> (r: &str) ensures r@ == self@ { unimplemented!() }
}
pub mod string { pub use super::String; }
pub mod fmt {
use vstd::prelude::*;
use super::*;
pub struct Error {}
pub type Result = std::result::Result<(), Error>;
/// a formatter without width, precision or flags, writing to memory
#[verifier::external_body]
pub struct Formatter<'a> { ph: std::marker::PhantomData<&'a u8> }
impl<'a> View for Formatter<'a> { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
pub trait Write: Sized {
    spec fn wv(&self) -> Seq<char>;
    fn write_str<S: StrLike + ?Sized>(&mut self, s: &S) -> (r: Result) ensures r == Ok::<(), Error>(()), final(self).wv() == old(self).wv() + s.sv();
}
impl<'a> Write for Formatter<'a> {
    open spec fn wv(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn write_str<S: StrLike + ?Sized>(&mut self, s: &S) -> Result { unimplemented!() }
}
impl Write for String {
    open spec fn wv(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn write_str<S: StrLike + ?Sized>(&mut self, s: &S) -> Result { unimplemented!() }
}
pub trait Display {
    spec fn fmt_req(&self) -> bool;
    spec fn text(&self) -> Seq<char>;
    fn fmt(&self, f: &mut Formatter) -> (vr: Result) requires self.fmt_req() ensures vr == Ok::<(), Error>(()), final(f)@ == old(f)@ + self.text();
}
macro_rules! prim_display { ($($t:ty),*) => { verus!{ $(
impl Display for $t {
    open spec fn fmt_req(&self) -> bool { true }
    open spec fn text(&self) -> Seq<char> { itext(*self as int) }
    #[verifier::external_body] fn fmt(&self, f: &mut Formatter) -> Result { unimplemented!() }
}
)* } } }
prim_display!(i32, i64, u32, u64, usize);
impl Display for BigInt {
    open spec fn fmt_req(&self) -> bool { true }
    open spec fn text(&self) -> Seq<char> { itext(self@) }
    #[verifier::external_body] fn fmt(&self, f: &mut Formatter) -> Result { unimplemented!() }
}
impl Display for String {
    open spec fn fmt_req(&self) -> bool { true }
    open spec fn text(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn fmt(&self, f: &mut Formatter) -> Result { unimplemented!() }
}
impl Display for str {
    open spec fn fmt_req(&self) -> bool { true }
    open spec fn text(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn fmt(&self, f: &mut Formatter) -> Result { unimplemented!() }
}
impl<T: Display + ?Sized> Display for &T {
    open spec fn fmt_req(&self) -> bool { (**self).fmt_req() }
    open spec fn text(&self) -> Seq<char> { (**self).text() }
    #[verifier::external_body] fn fmt(&self, f: &mut Formatter) -> Result { unimplemented!() }
}
pub trait VxToString { spec fn vt(&self) -> Seq<char>; spec fn vt_req(&self) -> bool; fn vx_to_string(&self) -> (r: String) requires self.vt_req() ensures r@ == self.vt(); }
impl<T: Display + ?Sized> VxToString for T {
    open spec fn vt(&self) -> Seq<char> { self.text() }
    open spec fn vt_req(&self) -> bool { self.fmt_req() }
    #[verifier::external_body] fn vx_to_string(&self) -> String { unimplemented!() }
}
/// a format string being assembled: `write!(f, "a{}b", x)` is `vx_write(f, vx_fmt().lit("a").arg(&x).lit("b"))`
pub struct FB { pub s: Ghost<Seq<char>> }
impl FB {
    #[verifier::external_body] pub fn lit(self, s: &str) -> (r: FB) ensures r.s@ == self.s@ + s@ { unimplemented!() }
    #[verifier::external_body] pub fn arg<T: Display + ?Sized>(self, t: &T) -> (r: FB) requires t.fmt_req() ensures r.s@ == self.s@ + t.text() { unimplemented!() }
    #[verifier::external_body] pub fn string(self) -> (r: String) ensures r@ == self.s@ { unimplemented!() }
}
#[verifier::external_body] pub fn vx_fmt() -> (r: FB) ensures r.s@ == Seq::<char>::empty() { unimplemented!() }
#[verifier::external_body] pub fn vx_write<W: Write>(w: &mut W, b: FB) -> (r: Result) ensures r == Ok::<(), Error>(()), final(w).wv() == old(w).wv() + b.s@ { unimplemented!() }
}
pub use fmt::VxToString;
}
