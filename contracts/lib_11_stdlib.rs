// Contracts of standard-library functions that vstd has none for.  Every item is ASSUMED (it states what the std documentation says).
use crate::arith::*;
use crate::vx::*;
use std::cmp::Ordering;
use vstd::std_specs::cmp::*;
pub assume_specification [i32::abs](x: i32) -> (r: i32) requires x != i32::MIN ensures r == if x < 0 { -x } else { x as int };
pub assume_specification [i32::unsigned_abs](x: i32) -> (r: u32) ensures r == if x < 0 { -x } else { x as int };
pub assume_specification [i32::signum](x: i32) -> (r: i32) ensures r == if x < 0 { -1int } else if x == 0 { 0 } else { 1 };
pub assume_specification [i32::is_positive](x: i32) -> (r: bool) ensures r == (x > 0);
pub assume_specification [i32::is_negative](x: i32) -> (r: bool) ensures r == (x < 0);
pub assume_specification [i32::wrapping_neg](x: i32) -> (r: i32) ensures x != i32::MIN ==> r == -x, x == i32::MIN ==> r == x;
pub assume_specification [i32::wrapping_abs](x: i32) -> (r: i32) ensures x != i32::MIN ==> r == (if x < 0 { -x } else { x as int }), x == i32::MIN ==> r == x;
pub assume_specification [i32::rem_euclid](x: i32, y: i32) -> (r: i32) requires y != 0, !(x == i32::MIN && y == -1) ensures r == x as int % y as int;
pub assume_specification [i32::div_euclid](x: i32, y: i32) -> (r: i32) requires y != 0, !(x == i32::MIN && y == -1) ensures r == x as int / y as int;
pub assume_specification [i64::abs](x: i64) -> (r: i64) requires x != i64::MIN ensures r == if x < 0 { -x } else { x as int };
pub assume_specification [i64::unsigned_abs](x: i64) -> (r: u64) ensures r == if x < 0 { -x } else { x as int };
pub assume_specification [i64::signum](x: i64) -> (r: i64) ensures r == if x < 0 { -1int } else if x == 0 { 0 } else { 1 };
pub assume_specification [i64::is_positive](x: i64) -> (r: bool) ensures r == (x > 0);
pub assume_specification [i64::is_negative](x: i64) -> (r: bool) ensures r == (x < 0);
pub assume_specification [i64::wrapping_neg](x: i64) -> (r: i64) ensures x != i64::MIN ==> r == -x, x == i64::MIN ==> r == x;
pub assume_specification [i64::wrapping_abs](x: i64) -> (r: i64) ensures x != i64::MIN ==> r == (if x < 0 { -x } else { x as int }), x == i64::MIN ==> r == x;
pub assume_specification [i64::rem_euclid](x: i64, y: i64) -> (r: i64) requires y != 0, !(x == i64::MIN && y == -1) ensures r == x as int % y as int;
pub assume_specification [i64::div_euclid](x: i64, y: i64) -> (r: i64) requires y != 0, !(x == i64::MIN && y == -1) ensures r == x as int / y as int;
pub assume_specification [i64::pow](x: i64, e: u32) -> (r: i64) requires i64::MIN <= pow(x as int, e as int) <= i64::MAX ensures r == pow(x as int, e as int);
pub assume_specification [u32::pow](x: u32, e: u32) -> (r: u32) requires pow(x as int, e as int) <= u32::MAX ensures r == pow(x as int, e as int);
pub assume_specification [u64::pow](x: u64, e: u32) -> (r: u64) requires pow(x as int, e as int) <= u64::MAX ensures r == pow(x as int, e as int);
pub assume_specification [usize::pow](x: usize, e: u32) -> (r: usize) requires pow(x as int, e as int) <= usize::MAX ensures r == pow(x as int, e as int);
pub assume_specification [i32::saturating_add](x: i32, y: i32) -> (r: i32) ensures r == (if x as int + y as int > i32::MAX { i32::MAX as int } else if (x as int + y as int) < i32::MIN { i32::MIN as int } else { x as int + y as int });
pub assume_specification [i32::saturating_sub](x: i32, y: i32) -> (r: i32) ensures r == (if x as int - y as int > i32::MAX { i32::MAX as int } else if (x as int - y as int) < i32::MIN { i32::MIN as int } else { x as int - y as int });
pub assume_specification [i32::saturating_mul](x: i32, y: i32) -> (r: i32) ensures r == (if x as int * y as int > i32::MAX { i32::MAX as int } else if (x as int * y as int) < i32::MIN { i32::MIN as int } else { x as int * y as int });
pub assume_specification [i32::wrapping_pow](x: i32, e: u32) -> (r: i32) ensures i32::MIN <= pow(x as int, e as int) <= i32::MAX ==> r == pow(x as int, e as int);
pub assume_specification [i32::checked_pow](x: i32, e: u32) -> (r: Option<i32>) ensures match r { Some(v) => v == pow(x as int, e as int), None => !(i32::MIN <= pow(x as int, e as int) <= i32::MAX) };
pub assume_specification [i32::max_value]() -> (r: i32) ensures r == i32::MAX;
pub assume_specification [i32::min_value]() -> (r: i32) ensures r == i32::MIN;
pub assume_specification [i32::abs_diff](x: i32, y: i32) -> (r: u32) ensures r == if x < y { y - x } else { x - y };
pub assume_specification [i64::saturating_add](x: i64, y: i64) -> (r: i64) ensures r == (if x as int + y as int > i64::MAX { i64::MAX as int } else if (x as int + y as int) < i64::MIN { i64::MIN as int } else { x as int + y as int });
pub assume_specification [i64::saturating_sub](x: i64, y: i64) -> (r: i64) ensures r == (if x as int - y as int > i64::MAX { i64::MAX as int } else if (x as int - y as int) < i64::MIN { i64::MIN as int } else { x as int - y as int });
pub assume_specification [i64::saturating_mul](x: i64, y: i64) -> (r: i64) ensures r == (if x as int * y as int > i64::MAX { i64::MAX as int } else if (x as int * y as int) < i64::MIN { i64::MIN as int } else { x as int * y as int });
pub assume_specification [i64::wrapping_pow](x: i64, e: u32) -> (r: i64) ensures i64::MIN <= pow(x as int, e as int) <= i64::MAX ==> r == pow(x as int, e as int);
pub assume_specification [i64::checked_pow](x: i64, e: u32) -> (r: Option<i64>) ensures match r { Some(v) => v == pow(x as int, e as int), None => !(i64::MIN <= pow(x as int, e as int) <= i64::MAX) };
pub assume_specification [i64::max_value]() -> (r: i64) ensures r == i64::MAX;
pub assume_specification [i64::min_value]() -> (r: i64) ensures r == i64::MIN;
pub assume_specification [i64::abs_diff](x: i64, y: i64) -> (r: u64) ensures r == if x < y { y - x } else { x - y };
pub assume_specification [u32::wrapping_pow](x: u32, e: u32) -> (r: u32) ensures u32::MIN <= pow(x as int, e as int) <= u32::MAX ==> r == pow(x as int, e as int);
pub assume_specification [u32::checked_pow](x: u32, e: u32) -> (r: Option<u32>) ensures match r { Some(v) => v == pow(x as int, e as int), None => !(u32::MIN <= pow(x as int, e as int) <= u32::MAX) };
pub assume_specification [u32::max_value]() -> (r: u32) ensures r == u32::MAX;
pub assume_specification [u32::min_value]() -> (r: u32) ensures r == u32::MIN;
pub assume_specification [u32::abs_diff](x: u32, y: u32) -> (r: u32) ensures r == if x < y { y - x } else { x - y };
pub assume_specification [u64::wrapping_pow](x: u64, e: u32) -> (r: u64) ensures u64::MIN <= pow(x as int, e as int) <= u64::MAX ==> r == pow(x as int, e as int);
pub assume_specification [u64::checked_pow](x: u64, e: u32) -> (r: Option<u64>) ensures match r { Some(v) => v == pow(x as int, e as int), None => !(u64::MIN <= pow(x as int, e as int) <= u64::MAX) };
pub assume_specification [u64::max_value]() -> (r: u64) ensures r == u64::MAX;
pub assume_specification [u64::min_value]() -> (r: u64) ensures r == u64::MIN;
pub assume_specification [u64::abs_diff](x: u64, y: u64) -> (r: u64) ensures r == if x < y { y - x } else { x - y };
pub assume_specification [usize::wrapping_pow](x: usize, e: u32) -> (r: usize) ensures usize::MIN <= pow(x as int, e as int) <= usize::MAX ==> r == pow(x as int, e as int);
pub assume_specification [usize::checked_pow](x: usize, e: u32) -> (r: Option<usize>) ensures match r { Some(v) => v == pow(x as int, e as int), None => !(usize::MIN <= pow(x as int, e as int) <= usize::MAX) };
pub assume_specification [usize::max_value]() -> (r: usize) ensures r == usize::MAX;
pub assume_specification [usize::min_value]() -> (r: usize) ensures r == usize::MIN;
pub assume_specification [usize::abs_diff](x: usize, y: usize) -> (r: usize) ensures r == if x < y { y - x } else { x - y };
pub assume_specification [i32::trailing_zeros](x: i32) -> (r: u32) ensures x == 0 ==> r == 32, x != 0 ==> r < 32 && x as int % p2(r as nat) == 0 && (x as int / p2(r as nat)) % 2 == 1;
pub assume_specification [i32::count_ones](x: i32) -> (r: u32) ensures r <= 32, (r == 0) == (x == 0);
pub assume_specification [i32::leading_zeros](x: i32) -> (r: u32) ensures x < 0 ==> r == 0, x >= 0 ==> r == 32 - nbits(x as nat);
pub assume_specification [i64::trailing_zeros](x: i64) -> (r: u32) ensures x == 0 ==> r == 64, x != 0 ==> r < 64 && x as int % p2(r as nat) == 0 && (x as int / p2(r as nat)) % 2 == 1;
pub assume_specification [i64::count_ones](x: i64) -> (r: u32) ensures r <= 64, (r == 0) == (x == 0);
pub assume_specification [i64::leading_zeros](x: i64) -> (r: u32) ensures x < 0 ==> r == 0, x >= 0 ==> r == 64 - nbits(x as nat);
pub assume_specification [Ordering::is_lt](o: Ordering) -> (r: bool) ensures r == (o == Ordering::Less);
pub assume_specification [Ordering::is_le](o: Ordering) -> (r: bool) ensures r == (o != Ordering::Greater);
pub assume_specification [Ordering::is_gt](o: Ordering) -> (r: bool) ensures r == (o == Ordering::Greater);
pub assume_specification [Ordering::is_ge](o: Ordering) -> (r: bool) ensures r == (o != Ordering::Less);
pub assume_specification [Ordering::is_eq](o: Ordering) -> (r: bool) ensures r == (o == Ordering::Equal);
pub assume_specification [Ordering::is_ne](o: Ordering) -> (r: bool) ensures r == (o != Ordering::Equal);
pub assume_specification [Ordering::reverse](o: Ordering) -> (r: Ordering) ensures r == match o { Ordering::Less => Ordering::Greater, Ordering::Equal => Ordering::Equal, Ordering::Greater => Ordering::Less };
pub assume_specification [Ordering::then](o: Ordering, p: Ordering) -> (r: Ordering) ensures r == if o == Ordering::Equal { p } else { o };
pub assume_specification<F: FnOnce() -> Ordering> [Ordering::then_with::<F>](o: Ordering, f: F) -> (r: Ordering) requires o == Ordering::Equal ==> f.requires(()) ensures o != Ordering::Equal ==> r == o, o == Ordering::Equal ==> f.ensures((), r);
pub assume_specification<T: Ord> [core::cmp::min::<T>](a: T, b: T) -> (r: T) ensures T::obeys_cmp_spec() ==> r == (if a.cmp_spec(&b) == Ordering::Greater { b } else { a });
pub assume_specification<T: Ord> [core::cmp::max::<T>](a: T, b: T) -> (r: T) ensures T::obeys_cmp_spec() ==> r == (if a.cmp_spec(&b) == Ordering::Greater { a } else { b });
pub assume_specification<T> [core::mem::replace::<T>](d: &mut T, v: T) -> (r: T) ensures *final(d) == v, r == *old(d);
pub assume_specification<T> [<[T]>::swap](v: &mut [T], a: usize, b: usize) requires a < old(v)@.len(), b < old(v)@.len() ensures final(v)@ == old(v)@.update(a as int, old(v)@[b as int]).update(b as int, old(v)@[a as int]);
pub assume_specification<T> [<[T]>::reverse](v: &mut [T]) ensures final(v)@ == old(v)@.reverse();
pub assume_specification<T> [Option::<T>::or](a: Option<T>, b: Option<T>) -> (r: Option<T>) ensures r == (if a.is_some() { a } else { b });
pub assume_specification<T, U, F: FnOnce(T) -> U> [Option::<T>::map_or::<U, F>](a: Option<T>, d: U, f: F) -> (r: U) requires a.is_some() ==> f.requires((a.unwrap(),)) ensures a.is_none() ==> r == d, a.is_some() ==> f.ensures((a.unwrap(),), r);
pub assume_specification<T> [bool::then_some::<T>](b: bool, v: T) -> (r: Option<T>) ensures r == (if b { Some(v) } else { None });
pub assume_specification<T: Copy> [Option::<&T>::copied](a: Option<&T>) -> (r: Option<T>) ensures match a { Some(v) => r == Some(*v), None => r.is_none() };
impl BigInt {
    /// num_bigint: rounds like mod_floor; panics for a negative exponent or modulus zero
    #[verifier::external_body] pub fn modpow(&self, e: &BigInt, m: &BigInt) -> (r: BigInt) requires e@ >= 0, m@ > 0 ensures r@ == pow(self@, e@) % m@ { unimplemented!() }
}
