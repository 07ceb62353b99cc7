// GENERATED by tools/gen_ops.py. Assumed contracts of num_bigint::BigInt's operators (trusted).
#[allow(unused_imports)]
use super::*;
impl vstd::std_specs::ops::AddSpecImpl<BigInt> for BigInt { open spec fn obeys_add_spec() -> bool { true } open spec fn add_req(self, rhs: BigInt) -> bool { true } open spec fn add_spec(self, rhs: BigInt) -> BigInt { bi(self.v@ + rhs.v@) } }
impl std::ops::Add<BigInt> for BigInt { type Output = BigInt; #[verifier::external_body] fn add(self, rhs: BigInt) -> BigInt { unimplemented!() } }
impl<'a> vstd::std_specs::ops::AddSpecImpl<BigInt> for &'a BigInt { open spec fn obeys_add_spec() -> bool { true } open spec fn add_req(self, rhs: BigInt) -> bool { true } open spec fn add_spec(self, rhs: BigInt) -> BigInt { bi(self.v@ + rhs.v@) } }
impl<'a> std::ops::Add<BigInt> for &'a BigInt { type Output = BigInt; #[verifier::external_body] fn add(self, rhs: BigInt) -> BigInt { unimplemented!() } }
impl<'b> vstd::std_specs::ops::AddSpecImpl<&'b BigInt> for BigInt { open spec fn obeys_add_spec() -> bool { true } open spec fn add_req(self, rhs: &'b BigInt) -> bool { true } open spec fn add_spec(self, rhs: &'b BigInt) -> BigInt { bi(self.v@ + rhs.v@) } }
impl<'b> std::ops::Add<&'b BigInt> for BigInt { type Output = BigInt; #[verifier::external_body] fn add(self, rhs: &'b BigInt) -> BigInt { unimplemented!() } }
impl<'a, 'b> vstd::std_specs::ops::AddSpecImpl<&'b BigInt> for &'a BigInt { open spec fn obeys_add_spec() -> bool { true } open spec fn add_req(self, rhs: &'b BigInt) -> bool { true } open spec fn add_spec(self, rhs: &'b BigInt) -> BigInt { bi(self.v@ + rhs.v@) } }
impl<'a, 'b> std::ops::Add<&'b BigInt> for &'a BigInt { type Output = BigInt; #[verifier::external_body] fn add(self, rhs: &'b BigInt) -> BigInt { unimplemented!() } }
impl vstd::std_specs::ops::AddSpecImpl<i32> for BigInt { open spec fn obeys_add_spec() -> bool { true } open spec fn add_req(self, rhs: i32) -> bool { true } open spec fn add_spec(self, rhs: i32) -> BigInt { bi(self.v@ + (rhs as int)) } }
impl std::ops::Add<i32> for BigInt { type Output = BigInt; #[verifier::external_body] fn add(self, rhs: i32) -> BigInt { unimplemented!() } }
impl<'a> vstd::std_specs::ops::AddSpecImpl<i32> for &'a BigInt { open spec fn obeys_add_spec() -> bool { true } open spec fn add_req(self, rhs: i32) -> bool { true } open spec fn add_spec(self, rhs: i32) -> BigInt { bi(self.v@ + (rhs as int)) } }
impl<'a> std::ops::Add<i32> for &'a BigInt { type Output = BigInt; #[verifier::external_body] fn add(self, rhs: i32) -> BigInt { unimplemented!() } }
impl vstd::std_specs::ops::AddSpecImpl<BigInt> for i32 { open spec fn obeys_add_spec() -> bool { true } open spec fn add_req(self, rhs: BigInt) -> bool { true } open spec fn add_spec(self, rhs: BigInt) -> BigInt { bi((self as int) + rhs.v@) } }
impl std::ops::Add<BigInt> for i32 { type Output = BigInt; #[verifier::external_body] fn add(self, rhs: BigInt) -> BigInt { unimplemented!() } }
impl<'b> vstd::std_specs::ops::AddSpecImpl<&'b BigInt> for i32 { open spec fn obeys_add_spec() -> bool { true } open spec fn add_req(self, rhs: &'b BigInt) -> bool { true } open spec fn add_spec(self, rhs: &'b BigInt) -> BigInt { bi((self as int) + rhs.v@) } }
impl<'b> std::ops::Add<&'b BigInt> for i32 { type Output = BigInt; #[verifier::external_body] fn add(self, rhs: &'b BigInt) -> BigInt { unimplemented!() } }
impl vstd::std_specs::ops::AddSpecImpl<i64> for BigInt { open spec fn obeys_add_spec() -> bool { true } open spec fn add_req(self, rhs: i64) -> bool { true } open spec fn add_spec(self, rhs: i64) -> BigInt { bi(self.v@ + (rhs as int)) } }
impl std::ops::Add<i64> for BigInt { type Output = BigInt; #[verifier::external_body] fn add(self, rhs: i64) -> BigInt { unimplemented!() } }
impl<'a> vstd::std_specs::ops::AddSpecImpl<i64> for &'a BigInt { open spec fn obeys_add_spec() -> bool { true } open spec fn add_req(self, rhs: i64) -> bool { true } open spec fn add_spec(self, rhs: i64) -> BigInt { bi(self.v@ + (rhs as int)) } }
impl<'a> std::ops::Add<i64> for &'a BigInt { type Output = BigInt; #[verifier::external_body] fn add(self, rhs: i64) -> BigInt { unimplemented!() } }
impl vstd::std_specs::ops::AddSpecImpl<BigInt> for i64 { open spec fn obeys_add_spec() -> bool { true } open spec fn add_req(self, rhs: BigInt) -> bool { true } open spec fn add_spec(self, rhs: BigInt) -> BigInt { bi((self as int) + rhs.v@) } }
impl std::ops::Add<BigInt> for i64 { type Output = BigInt; #[verifier::external_body] fn add(self, rhs: BigInt) -> BigInt { unimplemented!() } }
impl<'b> vstd::std_specs::ops::AddSpecImpl<&'b BigInt> for i64 { open spec fn obeys_add_spec() -> bool { true } open spec fn add_req(self, rhs: &'b BigInt) -> bool { true } open spec fn add_spec(self, rhs: &'b BigInt) -> BigInt { bi((self as int) + rhs.v@) } }
impl<'b> std::ops::Add<&'b BigInt> for i64 { type Output = BigInt; #[verifier::external_body] fn add(self, rhs: &'b BigInt) -> BigInt { unimplemented!() } }
impl vstd::std_specs::ops::AddSpecImpl<u32> for BigInt { open spec fn obeys_add_spec() -> bool { true } open spec fn add_req(self, rhs: u32) -> bool { true } open spec fn add_spec(self, rhs: u32) -> BigInt { bi(self.v@ + (rhs as int)) } }
impl std::ops::Add<u32> for BigInt { type Output = BigInt; #[verifier::external_body] fn add(self, rhs: u32) -> BigInt { unimplemented!() } }
impl<'a> vstd::std_specs::ops::AddSpecImpl<u32> for &'a BigInt { open spec fn obeys_add_spec() -> bool { true } open spec fn add_req(self, rhs: u32) -> bool { true } open spec fn add_spec(self, rhs: u32) -> BigInt { bi(self.v@ + (rhs as int)) } }
impl<'a> std::ops::Add<u32> for &'a BigInt { type Output = BigInt; #[verifier::external_body] fn add(self, rhs: u32) -> BigInt { unimplemented!() } }
impl vstd::std_specs::ops::AddSpecImpl<BigInt> for u32 { open spec fn obeys_add_spec() -> bool { true } open spec fn add_req(self, rhs: BigInt) -> bool { true } open spec fn add_spec(self, rhs: BigInt) -> BigInt { bi((self as int) + rhs.v@) } }
impl std::ops::Add<BigInt> for u32 { type Output = BigInt; #[verifier::external_body] fn add(self, rhs: BigInt) -> BigInt { unimplemented!() } }
impl<'b> vstd::std_specs::ops::AddSpecImpl<&'b BigInt> for u32 { open spec fn obeys_add_spec() -> bool { true } open spec fn add_req(self, rhs: &'b BigInt) -> bool { true } open spec fn add_spec(self, rhs: &'b BigInt) -> BigInt { bi((self as int) + rhs.v@) } }
impl<'b> std::ops::Add<&'b BigInt> for u32 { type Output = BigInt; #[verifier::external_body] fn add(self, rhs: &'b BigInt) -> BigInt { unimplemented!() } }
impl vstd::std_specs::ops::AddSpecImpl<u64> for BigInt { open spec fn obeys_add_spec() -> bool { true } open spec fn add_req(self, rhs: u64) -> bool { true } open spec fn add_spec(self, rhs: u64) -> BigInt { bi(self.v@ + (rhs as int)) } }
impl std::ops::Add<u64> for BigInt { type Output = BigInt; #[verifier::external_body] fn add(self, rhs: u64) -> BigInt { unimplemented!() } }
impl<'a> vstd::std_specs::ops::AddSpecImpl<u64> for &'a BigInt { open spec fn obeys_add_spec() -> bool { true } open spec fn add_req(self, rhs: u64) -> bool { true } open spec fn add_spec(self, rhs: u64) -> BigInt { bi(self.v@ + (rhs as int)) } }
impl<'a> std::ops::Add<u64> for &'a BigInt { type Output = BigInt; #[verifier::external_body] fn add(self, rhs: u64) -> BigInt { unimplemented!() } }
impl vstd::std_specs::ops::AddSpecImpl<BigInt> for u64 { open spec fn obeys_add_spec() -> bool { true } open spec fn add_req(self, rhs: BigInt) -> bool { true } open spec fn add_spec(self, rhs: BigInt) -> BigInt { bi((self as int) + rhs.v@) } }
impl std::ops::Add<BigInt> for u64 { type Output = BigInt; #[verifier::external_body] fn add(self, rhs: BigInt) -> BigInt { unimplemented!() } }
impl<'b> vstd::std_specs::ops::AddSpecImpl<&'b BigInt> for u64 { open spec fn obeys_add_spec() -> bool { true } open spec fn add_req(self, rhs: &'b BigInt) -> bool { true } open spec fn add_spec(self, rhs: &'b BigInt) -> BigInt { bi((self as int) + rhs.v@) } }
impl<'b> std::ops::Add<&'b BigInt> for u64 { type Output = BigInt; #[verifier::external_body] fn add(self, rhs: &'b BigInt) -> BigInt { unimplemented!() } }
impl vstd::std_specs::ops::AddSpecImpl<usize> for BigInt { open spec fn obeys_add_spec() -> bool { true } open spec fn add_req(self, rhs: usize) -> bool { true } open spec fn add_spec(self, rhs: usize) -> BigInt { bi(self.v@ + (rhs as int)) } }
impl std::ops::Add<usize> for BigInt { type Output = BigInt; #[verifier::external_body] fn add(self, rhs: usize) -> BigInt { unimplemented!() } }
impl<'a> vstd::std_specs::ops::AddSpecImpl<usize> for &'a BigInt { open spec fn obeys_add_spec() -> bool { true } open spec fn add_req(self, rhs: usize) -> bool { true } open spec fn add_spec(self, rhs: usize) -> BigInt { bi(self.v@ + (rhs as int)) } }
impl<'a> std::ops::Add<usize> for &'a BigInt { type Output = BigInt; #[verifier::external_body] fn add(self, rhs: usize) -> BigInt { unimplemented!() } }
impl vstd::std_specs::ops::AddSpecImpl<BigInt> for usize { open spec fn obeys_add_spec() -> bool { true } open spec fn add_req(self, rhs: BigInt) -> bool { true } open spec fn add_spec(self, rhs: BigInt) -> BigInt { bi((self as int) + rhs.v@) } }
impl std::ops::Add<BigInt> for usize { type Output = BigInt; #[verifier::external_body] fn add(self, rhs: BigInt) -> BigInt { unimplemented!() } }
impl<'b> vstd::std_specs::ops::AddSpecImpl<&'b BigInt> for usize { open spec fn obeys_add_spec() -> bool { true } open spec fn add_req(self, rhs: &'b BigInt) -> bool { true } open spec fn add_spec(self, rhs: &'b BigInt) -> BigInt { bi((self as int) + rhs.v@) } }
impl<'b> std::ops::Add<&'b BigInt> for usize { type Output = BigInt; #[verifier::external_body] fn add(self, rhs: &'b BigInt) -> BigInt { unimplemented!() } }
impl vstd::std_specs::ops::AddAssignSpecImpl<BigInt> for BigInt { open spec fn obeys_add_assign_spec() -> bool { true } open spec fn add_assign_req(&self, rhs: BigInt) -> bool { true } open spec fn add_assign_spec(&self, rhs: BigInt) -> &BigInt { &bi(self.v@ + rhs.v@) } }
impl std::ops::AddAssign<BigInt> for BigInt { #[verifier::external_body] fn add_assign(&mut self, rhs: BigInt) { unimplemented!() } }
impl<'b> vstd::std_specs::ops::AddAssignSpecImpl<&'b BigInt> for BigInt { open spec fn obeys_add_assign_spec() -> bool { true } open spec fn add_assign_req(&self, rhs: &'b BigInt) -> bool { true } open spec fn add_assign_spec(&self, rhs: &'b BigInt) -> &BigInt { &bi(self.v@ + rhs.v@) } }
impl<'b> std::ops::AddAssign<&'b BigInt> for BigInt { #[verifier::external_body] fn add_assign(&mut self, rhs: &'b BigInt) { unimplemented!() } }
impl vstd::std_specs::ops::AddAssignSpecImpl<i32> for BigInt { open spec fn obeys_add_assign_spec() -> bool { true } open spec fn add_assign_req(&self, rhs: i32) -> bool { true } open spec fn add_assign_spec(&self, rhs: i32) -> &BigInt { &bi(self.v@ + (rhs as int)) } }
impl std::ops::AddAssign<i32> for BigInt { #[verifier::external_body] fn add_assign(&mut self, rhs: i32) { unimplemented!() } }
impl vstd::std_specs::ops::AddAssignSpecImpl<i64> for BigInt { open spec fn obeys_add_assign_spec() -> bool { true } open spec fn add_assign_req(&self, rhs: i64) -> bool { true } open spec fn add_assign_spec(&self, rhs: i64) -> &BigInt { &bi(self.v@ + (rhs as int)) } }
impl std::ops::AddAssign<i64> for BigInt { #[verifier::external_body] fn add_assign(&mut self, rhs: i64) { unimplemented!() } }
impl vstd::std_specs::ops::AddAssignSpecImpl<u32> for BigInt { open spec fn obeys_add_assign_spec() -> bool { true } open spec fn add_assign_req(&self, rhs: u32) -> bool { true } open spec fn add_assign_spec(&self, rhs: u32) -> &BigInt { &bi(self.v@ + (rhs as int)) } }
impl std::ops::AddAssign<u32> for BigInt { #[verifier::external_body] fn add_assign(&mut self, rhs: u32) { unimplemented!() } }
impl vstd::std_specs::ops::AddAssignSpecImpl<u64> for BigInt { open spec fn obeys_add_assign_spec() -> bool { true } open spec fn add_assign_req(&self, rhs: u64) -> bool { true } open spec fn add_assign_spec(&self, rhs: u64) -> &BigInt { &bi(self.v@ + (rhs as int)) } }
impl std::ops::AddAssign<u64> for BigInt { #[verifier::external_body] fn add_assign(&mut self, rhs: u64) { unimplemented!() } }
impl vstd::std_specs::ops::AddAssignSpecImpl<usize> for BigInt { open spec fn obeys_add_assign_spec() -> bool { true } open spec fn add_assign_req(&self, rhs: usize) -> bool { true } open spec fn add_assign_spec(&self, rhs: usize) -> &BigInt { &bi(self.v@ + (rhs as int)) } }
impl std::ops::AddAssign<usize> for BigInt { #[verifier::external_body] fn add_assign(&mut self, rhs: usize) { unimplemented!() } }
impl vstd::std_specs::ops::SubSpecImpl<BigInt> for BigInt { open spec fn obeys_sub_spec() -> bool { true } open spec fn sub_req(self, rhs: BigInt) -> bool { true } open spec fn sub_spec(self, rhs: BigInt) -> BigInt { bi(self.v@ - rhs.v@) } }
impl std::ops::Sub<BigInt> for BigInt { type Output = BigInt; #[verifier::external_body] fn sub(self, rhs: BigInt) -> BigInt { unimplemented!() } }
impl<'a> vstd::std_specs::ops::SubSpecImpl<BigInt> for &'a BigInt { open spec fn obeys_sub_spec() -> bool { true } open spec fn sub_req(self, rhs: BigInt) -> bool { true } open spec fn sub_spec(self, rhs: BigInt) -> BigInt { bi(self.v@ - rhs.v@) } }
impl<'a> std::ops::Sub<BigInt> for &'a BigInt { type Output = BigInt; #[verifier::external_body] fn sub(self, rhs: BigInt) -> BigInt { unimplemented!() } }
impl<'b> vstd::std_specs::ops::SubSpecImpl<&'b BigInt> for BigInt { open spec fn obeys_sub_spec() -> bool { true } open spec fn sub_req(self, rhs: &'b BigInt) -> bool { true } open spec fn sub_spec(self, rhs: &'b BigInt) -> BigInt { bi(self.v@ - rhs.v@) } }
impl<'b> std::ops::Sub<&'b BigInt> for BigInt { type Output = BigInt; #[verifier::external_body] fn sub(self, rhs: &'b BigInt) -> BigInt { unimplemented!() } }
impl<'a, 'b> vstd::std_specs::ops::SubSpecImpl<&'b BigInt> for &'a BigInt { open spec fn obeys_sub_spec() -> bool { true } open spec fn sub_req(self, rhs: &'b BigInt) -> bool { true } open spec fn sub_spec(self, rhs: &'b BigInt) -> BigInt { bi(self.v@ - rhs.v@) } }
impl<'a, 'b> std::ops::Sub<&'b BigInt> for &'a BigInt { type Output = BigInt; #[verifier::external_body] fn sub(self, rhs: &'b BigInt) -> BigInt { unimplemented!() } }
impl vstd::std_specs::ops::SubSpecImpl<i32> for BigInt { open spec fn obeys_sub_spec() -> bool { true } open spec fn sub_req(self, rhs: i32) -> bool { true } open spec fn sub_spec(self, rhs: i32) -> BigInt { bi(self.v@ - (rhs as int)) } }
impl std::ops::Sub<i32> for BigInt { type Output = BigInt; #[verifier::external_body] fn sub(self, rhs: i32) -> BigInt { unimplemented!() } }
impl<'a> vstd::std_specs::ops::SubSpecImpl<i32> for &'a BigInt { open spec fn obeys_sub_spec() -> bool { true } open spec fn sub_req(self, rhs: i32) -> bool { true } open spec fn sub_spec(self, rhs: i32) -> BigInt { bi(self.v@ - (rhs as int)) } }
impl<'a> std::ops::Sub<i32> for &'a BigInt { type Output = BigInt; #[verifier::external_body] fn sub(self, rhs: i32) -> BigInt { unimplemented!() } }
impl vstd::std_specs::ops::SubSpecImpl<BigInt> for i32 { open spec fn obeys_sub_spec() -> bool { true } open spec fn sub_req(self, rhs: BigInt) -> bool { true } open spec fn sub_spec(self, rhs: BigInt) -> BigInt { bi((self as int) - rhs.v@) } }
impl std::ops::Sub<BigInt> for i32 { type Output = BigInt; #[verifier::external_body] fn sub(self, rhs: BigInt) -> BigInt { unimplemented!() } }
impl<'b> vstd::std_specs::ops::SubSpecImpl<&'b BigInt> for i32 { open spec fn obeys_sub_spec() -> bool { true } open spec fn sub_req(self, rhs: &'b BigInt) -> bool { true } open spec fn sub_spec(self, rhs: &'b BigInt) -> BigInt { bi((self as int) - rhs.v@) } }
impl<'b> std::ops::Sub<&'b BigInt> for i32 { type Output = BigInt; #[verifier::external_body] fn sub(self, rhs: &'b BigInt) -> BigInt { unimplemented!() } }
impl vstd::std_specs::ops::SubSpecImpl<i64> for BigInt { open spec fn obeys_sub_spec() -> bool { true } open spec fn sub_req(self, rhs: i64) -> bool { true } open spec fn sub_spec(self, rhs: i64) -> BigInt { bi(self.v@ - (rhs as int)) } }
impl std::ops::Sub<i64> for BigInt { type Output = BigInt; #[verifier::external_body] fn sub(self, rhs: i64) -> BigInt { unimplemented!() } }
impl<'a> vstd::std_specs::ops::SubSpecImpl<i64> for &'a BigInt { open spec fn obeys_sub_spec() -> bool { true } open spec fn sub_req(self, rhs: i64) -> bool { true } open spec fn sub_spec(self, rhs: i64) -> BigInt { bi(self.v@ - (rhs as int)) } }
impl<'a> std::ops::Sub<i64> for &'a BigInt { type Output = BigInt; #[verifier::external_body] fn sub(self, rhs: i64) -> BigInt { unimplemented!() } }
impl vstd::std_specs::ops::SubSpecImpl<BigInt> for i64 { open spec fn obeys_sub_spec() -> bool { true } open spec fn sub_req(self, rhs: BigInt) -> bool { true } open spec fn sub_spec(self, rhs: BigInt) -> BigInt { bi((self as int) - rhs.v@) } }
impl std::ops::Sub<BigInt> for i64 { type Output = BigInt; #[verifier::external_body] fn sub(self, rhs: BigInt) -> BigInt { unimplemented!() } }
impl<'b> vstd::std_specs::ops::SubSpecImpl<&'b BigInt> for i64 { open spec fn obeys_sub_spec() -> bool { true } open spec fn sub_req(self, rhs: &'b BigInt) -> bool { true } open spec fn sub_spec(self, rhs: &'b BigInt) -> BigInt { bi((self as int) - rhs.v@) } }
impl<'b> std::ops::Sub<&'b BigInt> for i64 { type Output = BigInt; #[verifier::external_body] fn sub(self, rhs: &'b BigInt) -> BigInt { unimplemented!() } }
impl vstd::std_specs::ops::SubSpecImpl<u32> for BigInt { open spec fn obeys_sub_spec() -> bool { true } open spec fn sub_req(self, rhs: u32) -> bool { true } open spec fn sub_spec(self, rhs: u32) -> BigInt { bi(self.v@ - (rhs as int)) } }
impl std::ops::Sub<u32> for BigInt { type Output = BigInt; #[verifier::external_body] fn sub(self, rhs: u32) -> BigInt { unimplemented!() } }
impl<'a> vstd::std_specs::ops::SubSpecImpl<u32> for &'a BigInt { open spec fn obeys_sub_spec() -> bool { true } open spec fn sub_req(self, rhs: u32) -> bool { true } open spec fn sub_spec(self, rhs: u32) -> BigInt { bi(self.v@ - (rhs as int)) } }
impl<'a> std::ops::Sub<u32> for &'a BigInt { type Output = BigInt; #[verifier::external_body] fn sub(self, rhs: u32) -> BigInt { unimplemented!() } }
impl vstd::std_specs::ops::SubSpecImpl<BigInt> for u32 { open spec fn obeys_sub_spec() -> bool { true } open spec fn sub_req(self, rhs: BigInt) -> bool { true } open spec fn sub_spec(self, rhs: BigInt) -> BigInt { bi((self as int) - rhs.v@) } }
impl std::ops::Sub<BigInt> for u32 { type Output = BigInt; #[verifier::external_body] fn sub(self, rhs: BigInt) -> BigInt { unimplemented!() } }
impl<'b> vstd::std_specs::ops::SubSpecImpl<&'b BigInt> for u32 { open spec fn obeys_sub_spec() -> bool { true } open spec fn sub_req(self, rhs: &'b BigInt) -> bool { true } open spec fn sub_spec(self, rhs: &'b BigInt) -> BigInt { bi((self as int) - rhs.v@) } }
impl<'b> std::ops::Sub<&'b BigInt> for u32 { type Output = BigInt; #[verifier::external_body] fn sub(self, rhs: &'b BigInt) -> BigInt { unimplemented!() } }
impl vstd::std_specs::ops::SubSpecImpl<u64> for BigInt { open spec fn obeys_sub_spec() -> bool { true } open spec fn sub_req(self, rhs: u64) -> bool { true } open spec fn sub_spec(self, rhs: u64) -> BigInt { bi(self.v@ - (rhs as int)) } }
impl std::ops::Sub<u64> for BigInt { type Output = BigInt; #[verifier::external_body] fn sub(self, rhs: u64) -> BigInt { unimplemented!() } }
impl<'a> vstd::std_specs::ops::SubSpecImpl<u64> for &'a BigInt { open spec fn obeys_sub_spec() -> bool { true } open spec fn sub_req(self, rhs: u64) -> bool { true } open spec fn sub_spec(self, rhs: u64) -> BigInt { bi(self.v@ - (rhs as int)) } }
impl<'a> std::ops::Sub<u64> for &'a BigInt { type Output = BigInt; #[verifier::external_body] fn sub(self, rhs: u64) -> BigInt { unimplemented!() } }
impl vstd::std_specs::ops::SubSpecImpl<BigInt> for u64 { open spec fn obeys_sub_spec() -> bool { true } open spec fn sub_req(self, rhs: BigInt) -> bool { true } open spec fn sub_spec(self, rhs: BigInt) -> BigInt { bi((self as int) - rhs.v@) } }
impl std::ops::Sub<BigInt> for u64 { type Output = BigInt; #[verifier::external_body] fn sub(self, rhs: BigInt) -> BigInt { unimplemented!() } }
impl<'b> vstd::std_specs::ops::SubSpecImpl<&'b BigInt> for u64 { open spec fn obeys_sub_spec() -> bool { true } open spec fn sub_req(self, rhs: &'b BigInt) -> bool { true } open spec fn sub_spec(self, rhs: &'b BigInt) -> BigInt { bi((self as int) - rhs.v@) } }
impl<'b> std::ops::Sub<&'b BigInt> for u64 { type Output = BigInt; #[verifier::external_body] fn sub(self, rhs: &'b BigInt) -> BigInt { unimplemented!() } }
impl vstd::std_specs::ops::SubSpecImpl<usize> for BigInt { open spec fn obeys_sub_spec() -> bool { true } open spec fn sub_req(self, rhs: usize) -> bool { true } open spec fn sub_spec(self, rhs: usize) -> BigInt { bi(self.v@ - (rhs as int)) } }
impl std::ops::Sub<usize> for BigInt { type Output = BigInt; #[verifier::external_body] fn sub(self, rhs: usize) -> BigInt { unimplemented!() } }
impl<'a> vstd::std_specs::ops::SubSpecImpl<usize> for &'a BigInt { open spec fn obeys_sub_spec() -> bool { true } open spec fn sub_req(self, rhs: usize) -> bool { true } open spec fn sub_spec(self, rhs: usize) -> BigInt { bi(self.v@ - (rhs as int)) } }
impl<'a> std::ops::Sub<usize> for &'a BigInt { type Output = BigInt; #[verifier::external_body] fn sub(self, rhs: usize) -> BigInt { unimplemented!() } }
impl vstd::std_specs::ops::SubSpecImpl<BigInt> for usize { open spec fn obeys_sub_spec() -> bool { true } open spec fn sub_req(self, rhs: BigInt) -> bool { true } open spec fn sub_spec(self, rhs: BigInt) -> BigInt { bi((self as int) - rhs.v@) } }
impl std::ops::Sub<BigInt> for usize { type Output = BigInt; #[verifier::external_body] fn sub(self, rhs: BigInt) -> BigInt { unimplemented!() } }
impl<'b> vstd::std_specs::ops::SubSpecImpl<&'b BigInt> for usize { open spec fn obeys_sub_spec() -> bool { true } open spec fn sub_req(self, rhs: &'b BigInt) -> bool { true } open spec fn sub_spec(self, rhs: &'b BigInt) -> BigInt { bi((self as int) - rhs.v@) } }
impl<'b> std::ops::Sub<&'b BigInt> for usize { type Output = BigInt; #[verifier::external_body] fn sub(self, rhs: &'b BigInt) -> BigInt { unimplemented!() } }
impl vstd::std_specs::ops::SubAssignSpecImpl<BigInt> for BigInt { open spec fn obeys_sub_assign_spec() -> bool { true } open spec fn sub_assign_req(&self, rhs: BigInt) -> bool { true } open spec fn sub_assign_spec(&self, rhs: BigInt) -> &BigInt { &bi(self.v@ - rhs.v@) } }
impl std::ops::SubAssign<BigInt> for BigInt { #[verifier::external_body] fn sub_assign(&mut self, rhs: BigInt) { unimplemented!() } }
impl<'b> vstd::std_specs::ops::SubAssignSpecImpl<&'b BigInt> for BigInt { open spec fn obeys_sub_assign_spec() -> bool { true } open spec fn sub_assign_req(&self, rhs: &'b BigInt) -> bool { true } open spec fn sub_assign_spec(&self, rhs: &'b BigInt) -> &BigInt { &bi(self.v@ - rhs.v@) } }
impl<'b> std::ops::SubAssign<&'b BigInt> for BigInt { #[verifier::external_body] fn sub_assign(&mut self, rhs: &'b BigInt) { unimplemented!() } }
impl vstd::std_specs::ops::SubAssignSpecImpl<i32> for BigInt { open spec fn obeys_sub_assign_spec() -> bool { true } open spec fn sub_assign_req(&self, rhs: i32) -> bool { true } open spec fn sub_assign_spec(&self, rhs: i32) -> &BigInt { &bi(self.v@ - (rhs as int)) } }
impl std::ops::SubAssign<i32> for BigInt { #[verifier::external_body] fn sub_assign(&mut self, rhs: i32) { unimplemented!() } }
impl vstd::std_specs::ops::SubAssignSpecImpl<i64> for BigInt { open spec fn obeys_sub_assign_spec() -> bool { true } open spec fn sub_assign_req(&self, rhs: i64) -> bool { true } open spec fn sub_assign_spec(&self, rhs: i64) -> &BigInt { &bi(self.v@ - (rhs as int)) } }
impl std::ops::SubAssign<i64> for BigInt { #[verifier::external_body] fn sub_assign(&mut self, rhs: i64) { unimplemented!() } }
impl vstd::std_specs::ops::SubAssignSpecImpl<u32> for BigInt { open spec fn obeys_sub_assign_spec() -> bool { true } open spec fn sub_assign_req(&self, rhs: u32) -> bool { true } open spec fn sub_assign_spec(&self, rhs: u32) -> &BigInt { &bi(self.v@ - (rhs as int)) } }
impl std::ops::SubAssign<u32> for BigInt { #[verifier::external_body] fn sub_assign(&mut self, rhs: u32) { unimplemented!() } }
impl vstd::std_specs::ops::SubAssignSpecImpl<u64> for BigInt { open spec fn obeys_sub_assign_spec() -> bool { true } open spec fn sub_assign_req(&self, rhs: u64) -> bool { true } open spec fn sub_assign_spec(&self, rhs: u64) -> &BigInt { &bi(self.v@ - (rhs as int)) } }
impl std::ops::SubAssign<u64> for BigInt { #[verifier::external_body] fn sub_assign(&mut self, rhs: u64) { unimplemented!() } }
impl vstd::std_specs::ops::SubAssignSpecImpl<usize> for BigInt { open spec fn obeys_sub_assign_spec() -> bool { true } open spec fn sub_assign_req(&self, rhs: usize) -> bool { true } open spec fn sub_assign_spec(&self, rhs: usize) -> &BigInt { &bi(self.v@ - (rhs as int)) } }
impl std::ops::SubAssign<usize> for BigInt { #[verifier::external_body] fn sub_assign(&mut self, rhs: usize) { unimplemented!() } }
impl vstd::std_specs::ops::MulSpecImpl<BigInt> for BigInt { open spec fn obeys_mul_spec() -> bool { true } open spec fn mul_req(self, rhs: BigInt) -> bool { true } open spec fn mul_spec(self, rhs: BigInt) -> BigInt { bi(self.v@ * rhs.v@) } }
impl std::ops::Mul<BigInt> for BigInt { type Output = BigInt; #[verifier::external_body] fn mul(self, rhs: BigInt) -> BigInt { unimplemented!() } }
impl<'a> vstd::std_specs::ops::MulSpecImpl<BigInt> for &'a BigInt { open spec fn obeys_mul_spec() -> bool { true } open spec fn mul_req(self, rhs: BigInt) -> bool { true } open spec fn mul_spec(self, rhs: BigInt) -> BigInt { bi(self.v@ * rhs.v@) } }
impl<'a> std::ops::Mul<BigInt> for &'a BigInt { type Output = BigInt; #[verifier::external_body] fn mul(self, rhs: BigInt) -> BigInt { unimplemented!() } }
impl<'b> vstd::std_specs::ops::MulSpecImpl<&'b BigInt> for BigInt { open spec fn obeys_mul_spec() -> bool { true } open spec fn mul_req(self, rhs: &'b BigInt) -> bool { true } open spec fn mul_spec(self, rhs: &'b BigInt) -> BigInt { bi(self.v@ * rhs.v@) } }
impl<'b> std::ops::Mul<&'b BigInt> for BigInt { type Output = BigInt; #[verifier::external_body] fn mul(self, rhs: &'b BigInt) -> BigInt { unimplemented!() } }
impl<'a, 'b> vstd::std_specs::ops::MulSpecImpl<&'b BigInt> for &'a BigInt { open spec fn obeys_mul_spec() -> bool { true } open spec fn mul_req(self, rhs: &'b BigInt) -> bool { true } open spec fn mul_spec(self, rhs: &'b BigInt) -> BigInt { bi(self.v@ * rhs.v@) } }
impl<'a, 'b> std::ops::Mul<&'b BigInt> for &'a BigInt { type Output = BigInt; #[verifier::external_body] fn mul(self, rhs: &'b BigInt) -> BigInt { unimplemented!() } }
impl vstd::std_specs::ops::MulSpecImpl<i32> for BigInt { open spec fn obeys_mul_spec() -> bool { true } open spec fn mul_req(self, rhs: i32) -> bool { true } open spec fn mul_spec(self, rhs: i32) -> BigInt { bi(self.v@ * (rhs as int)) } }
impl std::ops::Mul<i32> for BigInt { type Output = BigInt; #[verifier::external_body] fn mul(self, rhs: i32) -> BigInt { unimplemented!() } }
impl<'a> vstd::std_specs::ops::MulSpecImpl<i32> for &'a BigInt { open spec fn obeys_mul_spec() -> bool { true } open spec fn mul_req(self, rhs: i32) -> bool { true } open spec fn mul_spec(self, rhs: i32) -> BigInt { bi(self.v@ * (rhs as int)) } }
impl<'a> std::ops::Mul<i32> for &'a BigInt { type Output = BigInt; #[verifier::external_body] fn mul(self, rhs: i32) -> BigInt { unimplemented!() } }
impl vstd::std_specs::ops::MulSpecImpl<BigInt> for i32 { open spec fn obeys_mul_spec() -> bool { true } open spec fn mul_req(self, rhs: BigInt) -> bool { true } open spec fn mul_spec(self, rhs: BigInt) -> BigInt { bi((self as int) * rhs.v@) } }
impl std::ops::Mul<BigInt> for i32 { type Output = BigInt; #[verifier::external_body] fn mul(self, rhs: BigInt) -> BigInt { unimplemented!() } }
impl<'b> vstd::std_specs::ops::MulSpecImpl<&'b BigInt> for i32 { open spec fn obeys_mul_spec() -> bool { true } open spec fn mul_req(self, rhs: &'b BigInt) -> bool { true } open spec fn mul_spec(self, rhs: &'b BigInt) -> BigInt { bi((self as int) * rhs.v@) } }
impl<'b> std::ops::Mul<&'b BigInt> for i32 { type Output = BigInt; #[verifier::external_body] fn mul(self, rhs: &'b BigInt) -> BigInt { unimplemented!() } }
impl vstd::std_specs::ops::MulSpecImpl<i64> for BigInt { open spec fn obeys_mul_spec() -> bool { true } open spec fn mul_req(self, rhs: i64) -> bool { true } open spec fn mul_spec(self, rhs: i64) -> BigInt { bi(self.v@ * (rhs as int)) } }
impl std::ops::Mul<i64> for BigInt { type Output = BigInt; #[verifier::external_body] fn mul(self, rhs: i64) -> BigInt { unimplemented!() } }
impl<'a> vstd::std_specs::ops::MulSpecImpl<i64> for &'a BigInt { open spec fn obeys_mul_spec() -> bool { true } open spec fn mul_req(self, rhs: i64) -> bool { true } open spec fn mul_spec(self, rhs: i64) -> BigInt { bi(self.v@ * (rhs as int)) } }
impl<'a> std::ops::Mul<i64> for &'a BigInt { type Output = BigInt; #[verifier::external_body] fn mul(self, rhs: i64) -> BigInt { unimplemented!() } }
impl vstd::std_specs::ops::MulSpecImpl<BigInt> for i64 { open spec fn obeys_mul_spec() -> bool { true } open spec fn mul_req(self, rhs: BigInt) -> bool { true } open spec fn mul_spec(self, rhs: BigInt) -> BigInt { bi((self as int) * rhs.v@) } }
impl std::ops::Mul<BigInt> for i64 { type Output = BigInt; #[verifier::external_body] fn mul(self, rhs: BigInt) -> BigInt { unimplemented!() } }
impl<'b> vstd::std_specs::ops::MulSpecImpl<&'b BigInt> for i64 { open spec fn obeys_mul_spec() -> bool { true } open spec fn mul_req(self, rhs: &'b BigInt) -> bool { true } open spec fn mul_spec(self, rhs: &'b BigInt) -> BigInt { bi((self as int) * rhs.v@) } }
impl<'b> std::ops::Mul<&'b BigInt> for i64 { type Output = BigInt; #[verifier::external_body] fn mul(self, rhs: &'b BigInt) -> BigInt { unimplemented!() } }
impl vstd::std_specs::ops::MulSpecImpl<u32> for BigInt { open spec fn obeys_mul_spec() -> bool { true } open spec fn mul_req(self, rhs: u32) -> bool { true } open spec fn mul_spec(self, rhs: u32) -> BigInt { bi(self.v@ * (rhs as int)) } }
impl std::ops::Mul<u32> for BigInt { type Output = BigInt; #[verifier::external_body] fn mul(self, rhs: u32) -> BigInt { unimplemented!() } }
impl<'a> vstd::std_specs::ops::MulSpecImpl<u32> for &'a BigInt { open spec fn obeys_mul_spec() -> bool { true } open spec fn mul_req(self, rhs: u32) -> bool { true } open spec fn mul_spec(self, rhs: u32) -> BigInt { bi(self.v@ * (rhs as int)) } }
impl<'a> std::ops::Mul<u32> for &'a BigInt { type Output = BigInt; #[verifier::external_body] fn mul(self, rhs: u32) -> BigInt { unimplemented!() } }
impl vstd::std_specs::ops::MulSpecImpl<BigInt> for u32 { open spec fn obeys_mul_spec() -> bool { true } open spec fn mul_req(self, rhs: BigInt) -> bool { true } open spec fn mul_spec(self, rhs: BigInt) -> BigInt { bi((self as int) * rhs.v@) } }
impl std::ops::Mul<BigInt> for u32 { type Output = BigInt; #[verifier::external_body] fn mul(self, rhs: BigInt) -> BigInt { unimplemented!() } }
impl<'b> vstd::std_specs::ops::MulSpecImpl<&'b BigInt> for u32 { open spec fn obeys_mul_spec() -> bool { true } open spec fn mul_req(self, rhs: &'b BigInt) -> bool { true } open spec fn mul_spec(self, rhs: &'b BigInt) -> BigInt { bi((self as int) * rhs.v@) } }
impl<'b> std::ops::Mul<&'b BigInt> for u32 { type Output = BigInt; #[verifier::external_body] fn mul(self, rhs: &'b BigInt) -> BigInt { unimplemented!() } }
impl vstd::std_specs::ops::MulSpecImpl<u64> for BigInt { open spec fn obeys_mul_spec() -> bool { true } open spec fn mul_req(self, rhs: u64) -> bool { true } open spec fn mul_spec(self, rhs: u64) -> BigInt { bi(self.v@ * (rhs as int)) } }
impl std::ops::Mul<u64> for BigInt { type Output = BigInt; #[verifier::external_body] fn mul(self, rhs: u64) -> BigInt { unimplemented!() } }
impl<'a> vstd::std_specs::ops::MulSpecImpl<u64> for &'a BigInt { open spec fn obeys_mul_spec() -> bool { true } open spec fn mul_req(self, rhs: u64) -> bool { true } open spec fn mul_spec(self, rhs: u64) -> BigInt { bi(self.v@ * (rhs as int)) } }
impl<'a> std::ops::Mul<u64> for &'a BigInt { type Output = BigInt; #[verifier::external_body] fn mul(self, rhs: u64) -> BigInt { unimplemented!() } }
impl vstd::std_specs::ops::MulSpecImpl<BigInt> for u64 { open spec fn obeys_mul_spec() -> bool { true } open spec fn mul_req(self, rhs: BigInt) -> bool { true } open spec fn mul_spec(self, rhs: BigInt) -> BigInt { bi((self as int) * rhs.v@) } }
impl std::ops::Mul<BigInt> for u64 { type Output = BigInt; #[verifier::external_body] fn mul(self, rhs: BigInt) -> BigInt { unimplemented!() } }
impl<'b> vstd::std_specs::ops::MulSpecImpl<&'b BigInt> for u64 { open spec fn obeys_mul_spec() -> bool { true } open spec fn mul_req(self, rhs: &'b BigInt) -> bool { true } open spec fn mul_spec(self, rhs: &'b BigInt) -> BigInt { bi((self as int) * rhs.v@) } }
impl<'b> std::ops::Mul<&'b BigInt> for u64 { type Output = BigInt; #[verifier::external_body] fn mul(self, rhs: &'b BigInt) -> BigInt { unimplemented!() } }
impl vstd::std_specs::ops::MulSpecImpl<usize> for BigInt { open spec fn obeys_mul_spec() -> bool { true } open spec fn mul_req(self, rhs: usize) -> bool { true } open spec fn mul_spec(self, rhs: usize) -> BigInt { bi(self.v@ * (rhs as int)) } }
impl std::ops::Mul<usize> for BigInt { type Output = BigInt; #[verifier::external_body] fn mul(self, rhs: usize) -> BigInt { unimplemented!() } }
impl<'a> vstd::std_specs::ops::MulSpecImpl<usize> for &'a BigInt { open spec fn obeys_mul_spec() -> bool { true } open spec fn mul_req(self, rhs: usize) -> bool { true } open spec fn mul_spec(self, rhs: usize) -> BigInt { bi(self.v@ * (rhs as int)) } }
impl<'a> std::ops::Mul<usize> for &'a BigInt { type Output = BigInt; #[verifier::external_body] fn mul(self, rhs: usize) -> BigInt { unimplemented!() } }
impl vstd::std_specs::ops::MulSpecImpl<BigInt> for usize { open spec fn obeys_mul_spec() -> bool { true } open spec fn mul_req(self, rhs: BigInt) -> bool { true } open spec fn mul_spec(self, rhs: BigInt) -> BigInt { bi((self as int) * rhs.v@) } }
impl std::ops::Mul<BigInt> for usize { type Output = BigInt; #[verifier::external_body] fn mul(self, rhs: BigInt) -> BigInt { unimplemented!() } }
impl<'b> vstd::std_specs::ops::MulSpecImpl<&'b BigInt> for usize { open spec fn obeys_mul_spec() -> bool { true } open spec fn mul_req(self, rhs: &'b BigInt) -> bool { true } open spec fn mul_spec(self, rhs: &'b BigInt) -> BigInt { bi((self as int) * rhs.v@) } }
impl<'b> std::ops::Mul<&'b BigInt> for usize { type Output = BigInt; #[verifier::external_body] fn mul(self, rhs: &'b BigInt) -> BigInt { unimplemented!() } }
impl vstd::std_specs::ops::MulAssignSpecImpl<BigInt> for BigInt { open spec fn obeys_mul_assign_spec() -> bool { true } open spec fn mul_assign_req(&self, rhs: BigInt) -> bool { true } open spec fn mul_assign_spec(&self, rhs: BigInt) -> &BigInt { &bi(self.v@ * rhs.v@) } }
impl std::ops::MulAssign<BigInt> for BigInt { #[verifier::external_body] fn mul_assign(&mut self, rhs: BigInt) { unimplemented!() } }
impl<'b> vstd::std_specs::ops::MulAssignSpecImpl<&'b BigInt> for BigInt { open spec fn obeys_mul_assign_spec() -> bool { true } open spec fn mul_assign_req(&self, rhs: &'b BigInt) -> bool { true } open spec fn mul_assign_spec(&self, rhs: &'b BigInt) -> &BigInt { &bi(self.v@ * rhs.v@) } }
impl<'b> std::ops::MulAssign<&'b BigInt> for BigInt { #[verifier::external_body] fn mul_assign(&mut self, rhs: &'b BigInt) { unimplemented!() } }
impl vstd::std_specs::ops::MulAssignSpecImpl<i32> for BigInt { open spec fn obeys_mul_assign_spec() -> bool { true } open spec fn mul_assign_req(&self, rhs: i32) -> bool { true } open spec fn mul_assign_spec(&self, rhs: i32) -> &BigInt { &bi(self.v@ * (rhs as int)) } }
impl std::ops::MulAssign<i32> for BigInt { #[verifier::external_body] fn mul_assign(&mut self, rhs: i32) { unimplemented!() } }
impl vstd::std_specs::ops::MulAssignSpecImpl<i64> for BigInt { open spec fn obeys_mul_assign_spec() -> bool { true } open spec fn mul_assign_req(&self, rhs: i64) -> bool { true } open spec fn mul_assign_spec(&self, rhs: i64) -> &BigInt { &bi(self.v@ * (rhs as int)) } }
impl std::ops::MulAssign<i64> for BigInt { #[verifier::external_body] fn mul_assign(&mut self, rhs: i64) { unimplemented!() } }
impl vstd::std_specs::ops::MulAssignSpecImpl<u32> for BigInt { open spec fn obeys_mul_assign_spec() -> bool { true } open spec fn mul_assign_req(&self, rhs: u32) -> bool { true } open spec fn mul_assign_spec(&self, rhs: u32) -> &BigInt { &bi(self.v@ * (rhs as int)) } }
impl std::ops::MulAssign<u32> for BigInt { #[verifier::external_body] fn mul_assign(&mut self, rhs: u32) { unimplemented!() } }
impl vstd::std_specs::ops::MulAssignSpecImpl<u64> for BigInt { open spec fn obeys_mul_assign_spec() -> bool { true } open spec fn mul_assign_req(&self, rhs: u64) -> bool { true } open spec fn mul_assign_spec(&self, rhs: u64) -> &BigInt { &bi(self.v@ * (rhs as int)) } }
impl std::ops::MulAssign<u64> for BigInt { #[verifier::external_body] fn mul_assign(&mut self, rhs: u64) { unimplemented!() } }
impl vstd::std_specs::ops::MulAssignSpecImpl<usize> for BigInt { open spec fn obeys_mul_assign_spec() -> bool { true } open spec fn mul_assign_req(&self, rhs: usize) -> bool { true } open spec fn mul_assign_spec(&self, rhs: usize) -> &BigInt { &bi(self.v@ * (rhs as int)) } }
impl std::ops::MulAssign<usize> for BigInt { #[verifier::external_body] fn mul_assign(&mut self, rhs: usize) { unimplemented!() } }
impl vstd::std_specs::ops::DivSpecImpl<BigInt> for BigInt { open spec fn obeys_div_spec() -> bool { true } open spec fn div_req(self, rhs: BigInt) -> bool { rhs.v@ != 0 } open spec fn div_spec(self, rhs: BigInt) -> BigInt { bi(tdiv(self.v@, rhs.v@)) } }
impl std::ops::Div<BigInt> for BigInt { type Output = BigInt; #[verifier::external_body] fn div(self, rhs: BigInt) -> BigInt { unimplemented!() } }
impl<'a> vstd::std_specs::ops::DivSpecImpl<BigInt> for &'a BigInt { open spec fn obeys_div_spec() -> bool { true } open spec fn div_req(self, rhs: BigInt) -> bool { rhs.v@ != 0 } open spec fn div_spec(self, rhs: BigInt) -> BigInt { bi(tdiv(self.v@, rhs.v@)) } }
impl<'a> std::ops::Div<BigInt> for &'a BigInt { type Output = BigInt; #[verifier::external_body] fn div(self, rhs: BigInt) -> BigInt { unimplemented!() } }
impl<'b> vstd::std_specs::ops::DivSpecImpl<&'b BigInt> for BigInt { open spec fn obeys_div_spec() -> bool { true } open spec fn div_req(self, rhs: &'b BigInt) -> bool { rhs.v@ != 0 } open spec fn div_spec(self, rhs: &'b BigInt) -> BigInt { bi(tdiv(self.v@, rhs.v@)) } }
impl<'b> std::ops::Div<&'b BigInt> for BigInt { type Output = BigInt; #[verifier::external_body] fn div(self, rhs: &'b BigInt) -> BigInt { unimplemented!() } }
impl<'a, 'b> vstd::std_specs::ops::DivSpecImpl<&'b BigInt> for &'a BigInt { open spec fn obeys_div_spec() -> bool { true } open spec fn div_req(self, rhs: &'b BigInt) -> bool { rhs.v@ != 0 } open spec fn div_spec(self, rhs: &'b BigInt) -> BigInt { bi(tdiv(self.v@, rhs.v@)) } }
impl<'a, 'b> std::ops::Div<&'b BigInt> for &'a BigInt { type Output = BigInt; #[verifier::external_body] fn div(self, rhs: &'b BigInt) -> BigInt { unimplemented!() } }
impl vstd::std_specs::ops::DivSpecImpl<i32> for BigInt { open spec fn obeys_div_spec() -> bool { true } open spec fn div_req(self, rhs: i32) -> bool { (rhs as int) != 0 } open spec fn div_spec(self, rhs: i32) -> BigInt { bi(tdiv(self.v@, (rhs as int))) } }
impl std::ops::Div<i32> for BigInt { type Output = BigInt; #[verifier::external_body] fn div(self, rhs: i32) -> BigInt { unimplemented!() } }
impl<'a> vstd::std_specs::ops::DivSpecImpl<i32> for &'a BigInt { open spec fn obeys_div_spec() -> bool { true } open spec fn div_req(self, rhs: i32) -> bool { (rhs as int) != 0 } open spec fn div_spec(self, rhs: i32) -> BigInt { bi(tdiv(self.v@, (rhs as int))) } }
impl<'a> std::ops::Div<i32> for &'a BigInt { type Output = BigInt; #[verifier::external_body] fn div(self, rhs: i32) -> BigInt { unimplemented!() } }
impl vstd::std_specs::ops::DivSpecImpl<BigInt> for i32 { open spec fn obeys_div_spec() -> bool { true } open spec fn div_req(self, rhs: BigInt) -> bool { rhs.v@ != 0 } open spec fn div_spec(self, rhs: BigInt) -> BigInt { bi(tdiv((self as int), rhs.v@)) } }
impl std::ops::Div<BigInt> for i32 { type Output = BigInt; #[verifier::external_body] fn div(self, rhs: BigInt) -> BigInt { unimplemented!() } }
impl<'b> vstd::std_specs::ops::DivSpecImpl<&'b BigInt> for i32 { open spec fn obeys_div_spec() -> bool { true } open spec fn div_req(self, rhs: &'b BigInt) -> bool { rhs.v@ != 0 } open spec fn div_spec(self, rhs: &'b BigInt) -> BigInt { bi(tdiv((self as int), rhs.v@)) } }
impl<'b> std::ops::Div<&'b BigInt> for i32 { type Output = BigInt; #[verifier::external_body] fn div(self, rhs: &'b BigInt) -> BigInt { unimplemented!() } }
impl vstd::std_specs::ops::DivSpecImpl<i64> for BigInt { open spec fn obeys_div_spec() -> bool { true } open spec fn div_req(self, rhs: i64) -> bool { (rhs as int) != 0 } open spec fn div_spec(self, rhs: i64) -> BigInt { bi(tdiv(self.v@, (rhs as int))) } }
impl std::ops::Div<i64> for BigInt { type Output = BigInt; #[verifier::external_body] fn div(self, rhs: i64) -> BigInt { unimplemented!() } }
impl<'a> vstd::std_specs::ops::DivSpecImpl<i64> for &'a BigInt { open spec fn obeys_div_spec() -> bool { true } open spec fn div_req(self, rhs: i64) -> bool { (rhs as int) != 0 } open spec fn div_spec(self, rhs: i64) -> BigInt { bi(tdiv(self.v@, (rhs as int))) } }
impl<'a> std::ops::Div<i64> for &'a BigInt { type Output = BigInt; #[verifier::external_body] fn div(self, rhs: i64) -> BigInt { unimplemented!() } }
impl vstd::std_specs::ops::DivSpecImpl<BigInt> for i64 { open spec fn obeys_div_spec() -> bool { true } open spec fn div_req(self, rhs: BigInt) -> bool { rhs.v@ != 0 } open spec fn div_spec(self, rhs: BigInt) -> BigInt { bi(tdiv((self as int), rhs.v@)) } }
impl std::ops::Div<BigInt> for i64 { type Output = BigInt; #[verifier::external_body] fn div(self, rhs: BigInt) -> BigInt { unimplemented!() } }
impl<'b> vstd::std_specs::ops::DivSpecImpl<&'b BigInt> for i64 { open spec fn obeys_div_spec() -> bool { true } open spec fn div_req(self, rhs: &'b BigInt) -> bool { rhs.v@ != 0 } open spec fn div_spec(self, rhs: &'b BigInt) -> BigInt { bi(tdiv((self as int), rhs.v@)) } }
impl<'b> std::ops::Div<&'b BigInt> for i64 { type Output = BigInt; #[verifier::external_body] fn div(self, rhs: &'b BigInt) -> BigInt { unimplemented!() } }
impl vstd::std_specs::ops::DivSpecImpl<u32> for BigInt { open spec fn obeys_div_spec() -> bool { true } open spec fn div_req(self, rhs: u32) -> bool { (rhs as int) != 0 } open spec fn div_spec(self, rhs: u32) -> BigInt { bi(tdiv(self.v@, (rhs as int))) } }
impl std::ops::Div<u32> for BigInt { type Output = BigInt; #[verifier::external_body] fn div(self, rhs: u32) -> BigInt { unimplemented!() } }
impl<'a> vstd::std_specs::ops::DivSpecImpl<u32> for &'a BigInt { open spec fn obeys_div_spec() -> bool { true } open spec fn div_req(self, rhs: u32) -> bool { (rhs as int) != 0 } open spec fn div_spec(self, rhs: u32) -> BigInt { bi(tdiv(self.v@, (rhs as int))) } }
impl<'a> std::ops::Div<u32> for &'a BigInt { type Output = BigInt; #[verifier::external_body] fn div(self, rhs: u32) -> BigInt { unimplemented!() } }
impl vstd::std_specs::ops::DivSpecImpl<BigInt> for u32 { open spec fn obeys_div_spec() -> bool { true } open spec fn div_req(self, rhs: BigInt) -> bool { rhs.v@ != 0 } open spec fn div_spec(self, rhs: BigInt) -> BigInt { bi(tdiv((self as int), rhs.v@)) } }
impl std::ops::Div<BigInt> for u32 { type Output = BigInt; #[verifier::external_body] fn div(self, rhs: BigInt) -> BigInt { unimplemented!() } }
impl<'b> vstd::std_specs::ops::DivSpecImpl<&'b BigInt> for u32 { open spec fn obeys_div_spec() -> bool { true } open spec fn div_req(self, rhs: &'b BigInt) -> bool { rhs.v@ != 0 } open spec fn div_spec(self, rhs: &'b BigInt) -> BigInt { bi(tdiv((self as int), rhs.v@)) } }
impl<'b> std::ops::Div<&'b BigInt> for u32 { type Output = BigInt; #[verifier::external_body] fn div(self, rhs: &'b BigInt) -> BigInt { unimplemented!() } }
impl vstd::std_specs::ops::DivSpecImpl<u64> for BigInt { open spec fn obeys_div_spec() -> bool { true } open spec fn div_req(self, rhs: u64) -> bool { (rhs as int) != 0 } open spec fn div_spec(self, rhs: u64) -> BigInt { bi(tdiv(self.v@, (rhs as int))) } }
impl std::ops::Div<u64> for BigInt { type Output = BigInt; #[verifier::external_body] fn div(self, rhs: u64) -> BigInt { unimplemented!() } }
impl<'a> vstd::std_specs::ops::DivSpecImpl<u64> for &'a BigInt { open spec fn obeys_div_spec() -> bool { true } open spec fn div_req(self, rhs: u64) -> bool { (rhs as int) != 0 } open spec fn div_spec(self, rhs: u64) -> BigInt { bi(tdiv(self.v@, (rhs as int))) } }
impl<'a> std::ops::Div<u64> for &'a BigInt { type Output = BigInt; #[verifier::external_body] fn div(self, rhs: u64) -> BigInt { unimplemented!() } }
impl vstd::std_specs::ops::DivSpecImpl<BigInt> for u64 { open spec fn obeys_div_spec() -> bool { true } open spec fn div_req(self, rhs: BigInt) -> bool { rhs.v@ != 0 } open spec fn div_spec(self, rhs: BigInt) -> BigInt { bi(tdiv((self as int), rhs.v@)) } }
impl std::ops::Div<BigInt> for u64 { type Output = BigInt; #[verifier::external_body] fn div(self, rhs: BigInt) -> BigInt { unimplemented!() } }
impl<'b> vstd::std_specs::ops::DivSpecImpl<&'b BigInt> for u64 { open spec fn obeys_div_spec() -> bool { true } open spec fn div_req(self, rhs: &'b BigInt) -> bool { rhs.v@ != 0 } open spec fn div_spec(self, rhs: &'b BigInt) -> BigInt { bi(tdiv((self as int), rhs.v@)) } }
impl<'b> std::ops::Div<&'b BigInt> for u64 { type Output = BigInt; #[verifier::external_body] fn div(self, rhs: &'b BigInt) -> BigInt { unimplemented!() } }
impl vstd::std_specs::ops::DivSpecImpl<usize> for BigInt { open spec fn obeys_div_spec() -> bool { true } open spec fn div_req(self, rhs: usize) -> bool { (rhs as int) != 0 } open spec fn div_spec(self, rhs: usize) -> BigInt { bi(tdiv(self.v@, (rhs as int))) } }
impl std::ops::Div<usize> for BigInt { type Output = BigInt; #[verifier::external_body] fn div(self, rhs: usize) -> BigInt { unimplemented!() } }
impl<'a> vstd::std_specs::ops::DivSpecImpl<usize> for &'a BigInt { open spec fn obeys_div_spec() -> bool { true } open spec fn div_req(self, rhs: usize) -> bool { (rhs as int) != 0 } open spec fn div_spec(self, rhs: usize) -> BigInt { bi(tdiv(self.v@, (rhs as int))) } }
impl<'a> std::ops::Div<usize> for &'a BigInt { type Output = BigInt; #[verifier::external_body] fn div(self, rhs: usize) -> BigInt { unimplemented!() } }
impl vstd::std_specs::ops::DivSpecImpl<BigInt> for usize { open spec fn obeys_div_spec() -> bool { true } open spec fn div_req(self, rhs: BigInt) -> bool { rhs.v@ != 0 } open spec fn div_spec(self, rhs: BigInt) -> BigInt { bi(tdiv((self as int), rhs.v@)) } }
impl std::ops::Div<BigInt> for usize { type Output = BigInt; #[verifier::external_body] fn div(self, rhs: BigInt) -> BigInt { unimplemented!() } }
impl<'b> vstd::std_specs::ops::DivSpecImpl<&'b BigInt> for usize { open spec fn obeys_div_spec() -> bool { true } open spec fn div_req(self, rhs: &'b BigInt) -> bool { rhs.v@ != 0 } open spec fn div_spec(self, rhs: &'b BigInt) -> BigInt { bi(tdiv((self as int), rhs.v@)) } }
impl<'b> std::ops::Div<&'b BigInt> for usize { type Output = BigInt; #[verifier::external_body] fn div(self, rhs: &'b BigInt) -> BigInt { unimplemented!() } }
impl vstd::std_specs::ops::DivAssignSpecImpl<BigInt> for BigInt { open spec fn obeys_div_assign_spec() -> bool { true } open spec fn div_assign_req(&self, rhs: BigInt) -> bool { rhs.v@ != 0 } open spec fn div_assign_spec(&self, rhs: BigInt) -> &BigInt { &bi(tdiv(self.v@, rhs.v@)) } }
impl std::ops::DivAssign<BigInt> for BigInt { #[verifier::external_body] fn div_assign(&mut self, rhs: BigInt) { unimplemented!() } }
impl<'b> vstd::std_specs::ops::DivAssignSpecImpl<&'b BigInt> for BigInt { open spec fn obeys_div_assign_spec() -> bool { true } open spec fn div_assign_req(&self, rhs: &'b BigInt) -> bool { rhs.v@ != 0 } open spec fn div_assign_spec(&self, rhs: &'b BigInt) -> &BigInt { &bi(tdiv(self.v@, rhs.v@)) } }
impl<'b> std::ops::DivAssign<&'b BigInt> for BigInt { #[verifier::external_body] fn div_assign(&mut self, rhs: &'b BigInt) { unimplemented!() } }
impl vstd::std_specs::ops::DivAssignSpecImpl<i32> for BigInt { open spec fn obeys_div_assign_spec() -> bool { true } open spec fn div_assign_req(&self, rhs: i32) -> bool { (rhs as int) != 0 } open spec fn div_assign_spec(&self, rhs: i32) -> &BigInt { &bi(tdiv(self.v@, (rhs as int))) } }
impl std::ops::DivAssign<i32> for BigInt { #[verifier::external_body] fn div_assign(&mut self, rhs: i32) { unimplemented!() } }
impl vstd::std_specs::ops::DivAssignSpecImpl<i64> for BigInt { open spec fn obeys_div_assign_spec() -> bool { true } open spec fn div_assign_req(&self, rhs: i64) -> bool { (rhs as int) != 0 } open spec fn div_assign_spec(&self, rhs: i64) -> &BigInt { &bi(tdiv(self.v@, (rhs as int))) } }
impl std::ops::DivAssign<i64> for BigInt { #[verifier::external_body] fn div_assign(&mut self, rhs: i64) { unimplemented!() } }
impl vstd::std_specs::ops::DivAssignSpecImpl<u32> for BigInt { open spec fn obeys_div_assign_spec() -> bool { true } open spec fn div_assign_req(&self, rhs: u32) -> bool { (rhs as int) != 0 } open spec fn div_assign_spec(&self, rhs: u32) -> &BigInt { &bi(tdiv(self.v@, (rhs as int))) } }
impl std::ops::DivAssign<u32> for BigInt { #[verifier::external_body] fn div_assign(&mut self, rhs: u32) { unimplemented!() } }
impl vstd::std_specs::ops::DivAssignSpecImpl<u64> for BigInt { open spec fn obeys_div_assign_spec() -> bool { true } open spec fn div_assign_req(&self, rhs: u64) -> bool { (rhs as int) != 0 } open spec fn div_assign_spec(&self, rhs: u64) -> &BigInt { &bi(tdiv(self.v@, (rhs as int))) } }
impl std::ops::DivAssign<u64> for BigInt { #[verifier::external_body] fn div_assign(&mut self, rhs: u64) { unimplemented!() } }
impl vstd::std_specs::ops::DivAssignSpecImpl<usize> for BigInt { open spec fn obeys_div_assign_spec() -> bool { true } open spec fn div_assign_req(&self, rhs: usize) -> bool { (rhs as int) != 0 } open spec fn div_assign_spec(&self, rhs: usize) -> &BigInt { &bi(tdiv(self.v@, (rhs as int))) } }
impl std::ops::DivAssign<usize> for BigInt { #[verifier::external_body] fn div_assign(&mut self, rhs: usize) { unimplemented!() } }
impl vstd::std_specs::ops::RemSpecImpl<BigInt> for BigInt { open spec fn obeys_rem_spec() -> bool { true } open spec fn rem_req(self, rhs: BigInt) -> bool { rhs.v@ != 0 } open spec fn rem_spec(self, rhs: BigInt) -> BigInt { bi(trem(self.v@, rhs.v@)) } }
impl std::ops::Rem<BigInt> for BigInt { type Output = BigInt; #[verifier::external_body] fn rem(self, rhs: BigInt) -> BigInt { unimplemented!() } }
impl<'a> vstd::std_specs::ops::RemSpecImpl<BigInt> for &'a BigInt { open spec fn obeys_rem_spec() -> bool { true } open spec fn rem_req(self, rhs: BigInt) -> bool { rhs.v@ != 0 } open spec fn rem_spec(self, rhs: BigInt) -> BigInt { bi(trem(self.v@, rhs.v@)) } }
impl<'a> std::ops::Rem<BigInt> for &'a BigInt { type Output = BigInt; #[verifier::external_body] fn rem(self, rhs: BigInt) -> BigInt { unimplemented!() } }
impl<'b> vstd::std_specs::ops::RemSpecImpl<&'b BigInt> for BigInt { open spec fn obeys_rem_spec() -> bool { true } open spec fn rem_req(self, rhs: &'b BigInt) -> bool { rhs.v@ != 0 } open spec fn rem_spec(self, rhs: &'b BigInt) -> BigInt { bi(trem(self.v@, rhs.v@)) } }
impl<'b> std::ops::Rem<&'b BigInt> for BigInt { type Output = BigInt; #[verifier::external_body] fn rem(self, rhs: &'b BigInt) -> BigInt { unimplemented!() } }
impl<'a, 'b> vstd::std_specs::ops::RemSpecImpl<&'b BigInt> for &'a BigInt { open spec fn obeys_rem_spec() -> bool { true } open spec fn rem_req(self, rhs: &'b BigInt) -> bool { rhs.v@ != 0 } open spec fn rem_spec(self, rhs: &'b BigInt) -> BigInt { bi(trem(self.v@, rhs.v@)) } }
impl<'a, 'b> std::ops::Rem<&'b BigInt> for &'a BigInt { type Output = BigInt; #[verifier::external_body] fn rem(self, rhs: &'b BigInt) -> BigInt { unimplemented!() } }
impl vstd::std_specs::ops::RemSpecImpl<i32> for BigInt { open spec fn obeys_rem_spec() -> bool { true } open spec fn rem_req(self, rhs: i32) -> bool { (rhs as int) != 0 } open spec fn rem_spec(self, rhs: i32) -> BigInt { bi(trem(self.v@, (rhs as int))) } }
impl std::ops::Rem<i32> for BigInt { type Output = BigInt; #[verifier::external_body] fn rem(self, rhs: i32) -> BigInt { unimplemented!() } }
impl<'a> vstd::std_specs::ops::RemSpecImpl<i32> for &'a BigInt { open spec fn obeys_rem_spec() -> bool { true } open spec fn rem_req(self, rhs: i32) -> bool { (rhs as int) != 0 } open spec fn rem_spec(self, rhs: i32) -> BigInt { bi(trem(self.v@, (rhs as int))) } }
impl<'a> std::ops::Rem<i32> for &'a BigInt { type Output = BigInt; #[verifier::external_body] fn rem(self, rhs: i32) -> BigInt { unimplemented!() } }
impl vstd::std_specs::ops::RemSpecImpl<BigInt> for i32 { open spec fn obeys_rem_spec() -> bool { true } open spec fn rem_req(self, rhs: BigInt) -> bool { rhs.v@ != 0 } open spec fn rem_spec(self, rhs: BigInt) -> BigInt { bi(trem((self as int), rhs.v@)) } }
impl std::ops::Rem<BigInt> for i32 { type Output = BigInt; #[verifier::external_body] fn rem(self, rhs: BigInt) -> BigInt { unimplemented!() } }
impl<'b> vstd::std_specs::ops::RemSpecImpl<&'b BigInt> for i32 { open spec fn obeys_rem_spec() -> bool { true } open spec fn rem_req(self, rhs: &'b BigInt) -> bool { rhs.v@ != 0 } open spec fn rem_spec(self, rhs: &'b BigInt) -> BigInt { bi(trem((self as int), rhs.v@)) } }
impl<'b> std::ops::Rem<&'b BigInt> for i32 { type Output = BigInt; #[verifier::external_body] fn rem(self, rhs: &'b BigInt) -> BigInt { unimplemented!() } }
impl vstd::std_specs::ops::RemSpecImpl<i64> for BigInt { open spec fn obeys_rem_spec() -> bool { true } open spec fn rem_req(self, rhs: i64) -> bool { (rhs as int) != 0 } open spec fn rem_spec(self, rhs: i64) -> BigInt { bi(trem(self.v@, (rhs as int))) } }
impl std::ops::Rem<i64> for BigInt { type Output = BigInt; #[verifier::external_body] fn rem(self, rhs: i64) -> BigInt { unimplemented!() } }
impl<'a> vstd::std_specs::ops::RemSpecImpl<i64> for &'a BigInt { open spec fn obeys_rem_spec() -> bool { true } open spec fn rem_req(self, rhs: i64) -> bool { (rhs as int) != 0 } open spec fn rem_spec(self, rhs: i64) -> BigInt { bi(trem(self.v@, (rhs as int))) } }
impl<'a> std::ops::Rem<i64> for &'a BigInt { type Output = BigInt; #[verifier::external_body] fn rem(self, rhs: i64) -> BigInt { unimplemented!() } }
impl vstd::std_specs::ops::RemSpecImpl<BigInt> for i64 { open spec fn obeys_rem_spec() -> bool { true } open spec fn rem_req(self, rhs: BigInt) -> bool { rhs.v@ != 0 } open spec fn rem_spec(self, rhs: BigInt) -> BigInt { bi(trem((self as int), rhs.v@)) } }
impl std::ops::Rem<BigInt> for i64 { type Output = BigInt; #[verifier::external_body] fn rem(self, rhs: BigInt) -> BigInt { unimplemented!() } }
impl<'b> vstd::std_specs::ops::RemSpecImpl<&'b BigInt> for i64 { open spec fn obeys_rem_spec() -> bool { true } open spec fn rem_req(self, rhs: &'b BigInt) -> bool { rhs.v@ != 0 } open spec fn rem_spec(self, rhs: &'b BigInt) -> BigInt { bi(trem((self as int), rhs.v@)) } }
impl<'b> std::ops::Rem<&'b BigInt> for i64 { type Output = BigInt; #[verifier::external_body] fn rem(self, rhs: &'b BigInt) -> BigInt { unimplemented!() } }
impl vstd::std_specs::ops::RemSpecImpl<u32> for BigInt { open spec fn obeys_rem_spec() -> bool { true } open spec fn rem_req(self, rhs: u32) -> bool { (rhs as int) != 0 } open spec fn rem_spec(self, rhs: u32) -> BigInt { bi(trem(self.v@, (rhs as int))) } }
impl std::ops::Rem<u32> for BigInt { type Output = BigInt; #[verifier::external_body] fn rem(self, rhs: u32) -> BigInt { unimplemented!() } }
impl<'a> vstd::std_specs::ops::RemSpecImpl<u32> for &'a BigInt { open spec fn obeys_rem_spec() -> bool { true } open spec fn rem_req(self, rhs: u32) -> bool { (rhs as int) != 0 } open spec fn rem_spec(self, rhs: u32) -> BigInt { bi(trem(self.v@, (rhs as int))) } }
impl<'a> std::ops::Rem<u32> for &'a BigInt { type Output = BigInt; #[verifier::external_body] fn rem(self, rhs: u32) -> BigInt { unimplemented!() } }
impl vstd::std_specs::ops::RemSpecImpl<BigInt> for u32 { open spec fn obeys_rem_spec() -> bool { true } open spec fn rem_req(self, rhs: BigInt) -> bool { rhs.v@ != 0 } open spec fn rem_spec(self, rhs: BigInt) -> BigInt { bi(trem((self as int), rhs.v@)) } }
impl std::ops::Rem<BigInt> for u32 { type Output = BigInt; #[verifier::external_body] fn rem(self, rhs: BigInt) -> BigInt { unimplemented!() } }
impl<'b> vstd::std_specs::ops::RemSpecImpl<&'b BigInt> for u32 { open spec fn obeys_rem_spec() -> bool { true } open spec fn rem_req(self, rhs: &'b BigInt) -> bool { rhs.v@ != 0 } open spec fn rem_spec(self, rhs: &'b BigInt) -> BigInt { bi(trem((self as int), rhs.v@)) } }
impl<'b> std::ops::Rem<&'b BigInt> for u32 { type Output = BigInt; #[verifier::external_body] fn rem(self, rhs: &'b BigInt) -> BigInt { unimplemented!() } }
impl vstd::std_specs::ops::RemSpecImpl<u64> for BigInt { open spec fn obeys_rem_spec() -> bool { true } open spec fn rem_req(self, rhs: u64) -> bool { (rhs as int) != 0 } open spec fn rem_spec(self, rhs: u64) -> BigInt { bi(trem(self.v@, (rhs as int))) } }
impl std::ops::Rem<u64> for BigInt { type Output = BigInt; #[verifier::external_body] fn rem(self, rhs: u64) -> BigInt { unimplemented!() } }
impl<'a> vstd::std_specs::ops::RemSpecImpl<u64> for &'a BigInt { open spec fn obeys_rem_spec() -> bool { true } open spec fn rem_req(self, rhs: u64) -> bool { (rhs as int) != 0 } open spec fn rem_spec(self, rhs: u64) -> BigInt { bi(trem(self.v@, (rhs as int))) } }
impl<'a> std::ops::Rem<u64> for &'a BigInt { type Output = BigInt; #[verifier::external_body] fn rem(self, rhs: u64) -> BigInt { unimplemented!() } }
impl vstd::std_specs::ops::RemSpecImpl<BigInt> for u64 { open spec fn obeys_rem_spec() -> bool { true } open spec fn rem_req(self, rhs: BigInt) -> bool { rhs.v@ != 0 } open spec fn rem_spec(self, rhs: BigInt) -> BigInt { bi(trem((self as int), rhs.v@)) } }
impl std::ops::Rem<BigInt> for u64 { type Output = BigInt; #[verifier::external_body] fn rem(self, rhs: BigInt) -> BigInt { unimplemented!() } }
impl<'b> vstd::std_specs::ops::RemSpecImpl<&'b BigInt> for u64 { open spec fn obeys_rem_spec() -> bool { true } open spec fn rem_req(self, rhs: &'b BigInt) -> bool { rhs.v@ != 0 } open spec fn rem_spec(self, rhs: &'b BigInt) -> BigInt { bi(trem((self as int), rhs.v@)) } }
impl<'b> std::ops::Rem<&'b BigInt> for u64 { type Output = BigInt; #[verifier::external_body] fn rem(self, rhs: &'b BigInt) -> BigInt { unimplemented!() } }
impl vstd::std_specs::ops::RemSpecImpl<usize> for BigInt { open spec fn obeys_rem_spec() -> bool { true } open spec fn rem_req(self, rhs: usize) -> bool { (rhs as int) != 0 } open spec fn rem_spec(self, rhs: usize) -> BigInt { bi(trem(self.v@, (rhs as int))) } }
impl std::ops::Rem<usize> for BigInt { type Output = BigInt; #[verifier::external_body] fn rem(self, rhs: usize) -> BigInt { unimplemented!() } }
impl<'a> vstd::std_specs::ops::RemSpecImpl<usize> for &'a BigInt { open spec fn obeys_rem_spec() -> bool { true } open spec fn rem_req(self, rhs: usize) -> bool { (rhs as int) != 0 } open spec fn rem_spec(self, rhs: usize) -> BigInt { bi(trem(self.v@, (rhs as int))) } }
impl<'a> std::ops::Rem<usize> for &'a BigInt { type Output = BigInt; #[verifier::external_body] fn rem(self, rhs: usize) -> BigInt { unimplemented!() } }
impl vstd::std_specs::ops::RemSpecImpl<BigInt> for usize { open spec fn obeys_rem_spec() -> bool { true } open spec fn rem_req(self, rhs: BigInt) -> bool { rhs.v@ != 0 } open spec fn rem_spec(self, rhs: BigInt) -> BigInt { bi(trem((self as int), rhs.v@)) } }
impl std::ops::Rem<BigInt> for usize { type Output = BigInt; #[verifier::external_body] fn rem(self, rhs: BigInt) -> BigInt { unimplemented!() } }
impl<'b> vstd::std_specs::ops::RemSpecImpl<&'b BigInt> for usize { open spec fn obeys_rem_spec() -> bool { true } open spec fn rem_req(self, rhs: &'b BigInt) -> bool { rhs.v@ != 0 } open spec fn rem_spec(self, rhs: &'b BigInt) -> BigInt { bi(trem((self as int), rhs.v@)) } }
impl<'b> std::ops::Rem<&'b BigInt> for usize { type Output = BigInt; #[verifier::external_body] fn rem(self, rhs: &'b BigInt) -> BigInt { unimplemented!() } }
impl vstd::std_specs::ops::RemAssignSpecImpl<BigInt> for BigInt { open spec fn obeys_rem_assign_spec() -> bool { true } open spec fn rem_assign_req(&self, rhs: BigInt) -> bool { rhs.v@ != 0 } open spec fn rem_assign_spec(&self, rhs: BigInt) -> &BigInt { &bi(trem(self.v@, rhs.v@)) } }
impl std::ops::RemAssign<BigInt> for BigInt { #[verifier::external_body] fn rem_assign(&mut self, rhs: BigInt) { unimplemented!() } }
impl<'b> vstd::std_specs::ops::RemAssignSpecImpl<&'b BigInt> for BigInt { open spec fn obeys_rem_assign_spec() -> bool { true } open spec fn rem_assign_req(&self, rhs: &'b BigInt) -> bool { rhs.v@ != 0 } open spec fn rem_assign_spec(&self, rhs: &'b BigInt) -> &BigInt { &bi(trem(self.v@, rhs.v@)) } }
impl<'b> std::ops::RemAssign<&'b BigInt> for BigInt { #[verifier::external_body] fn rem_assign(&mut self, rhs: &'b BigInt) { unimplemented!() } }
impl vstd::std_specs::ops::RemAssignSpecImpl<i32> for BigInt { open spec fn obeys_rem_assign_spec() -> bool { true } open spec fn rem_assign_req(&self, rhs: i32) -> bool { (rhs as int) != 0 } open spec fn rem_assign_spec(&self, rhs: i32) -> &BigInt { &bi(trem(self.v@, (rhs as int))) } }
impl std::ops::RemAssign<i32> for BigInt { #[verifier::external_body] fn rem_assign(&mut self, rhs: i32) { unimplemented!() } }
impl vstd::std_specs::ops::RemAssignSpecImpl<i64> for BigInt { open spec fn obeys_rem_assign_spec() -> bool { true } open spec fn rem_assign_req(&self, rhs: i64) -> bool { (rhs as int) != 0 } open spec fn rem_assign_spec(&self, rhs: i64) -> &BigInt { &bi(trem(self.v@, (rhs as int))) } }
impl std::ops::RemAssign<i64> for BigInt { #[verifier::external_body] fn rem_assign(&mut self, rhs: i64) { unimplemented!() } }
impl vstd::std_specs::ops::RemAssignSpecImpl<u32> for BigInt { open spec fn obeys_rem_assign_spec() -> bool { true } open spec fn rem_assign_req(&self, rhs: u32) -> bool { (rhs as int) != 0 } open spec fn rem_assign_spec(&self, rhs: u32) -> &BigInt { &bi(trem(self.v@, (rhs as int))) } }
impl std::ops::RemAssign<u32> for BigInt { #[verifier::external_body] fn rem_assign(&mut self, rhs: u32) { unimplemented!() } }
impl vstd::std_specs::ops::RemAssignSpecImpl<u64> for BigInt { open spec fn obeys_rem_assign_spec() -> bool { true } open spec fn rem_assign_req(&self, rhs: u64) -> bool { (rhs as int) != 0 } open spec fn rem_assign_spec(&self, rhs: u64) -> &BigInt { &bi(trem(self.v@, (rhs as int))) } }
impl std::ops::RemAssign<u64> for BigInt { #[verifier::external_body] fn rem_assign(&mut self, rhs: u64) { unimplemented!() } }
impl vstd::std_specs::ops::RemAssignSpecImpl<usize> for BigInt { open spec fn obeys_rem_assign_spec() -> bool { true } open spec fn rem_assign_req(&self, rhs: usize) -> bool { (rhs as int) != 0 } open spec fn rem_assign_spec(&self, rhs: usize) -> &BigInt { &bi(trem(self.v@, (rhs as int))) } }
impl std::ops::RemAssign<usize> for BigInt { #[verifier::external_body] fn rem_assign(&mut self, rhs: usize) { unimplemented!() } }
impl vstd::std_specs::ops::ShlSpecImpl<usize> for BigInt { open spec fn obeys_shl_spec() -> bool { true } open spec fn shl_req(self, rhs: usize) -> bool { true } open spec fn shl_spec(self, rhs: usize) -> BigInt { bi(self.v@ * p2(rhs as nat)) } }
impl std::ops::Shl<usize> for BigInt { type Output = BigInt; #[verifier::external_body] fn shl(self, rhs: usize) -> BigInt { unimplemented!() } }
impl<'a> vstd::std_specs::ops::ShlSpecImpl<usize> for &'a BigInt { open spec fn obeys_shl_spec() -> bool { true } open spec fn shl_req(self, rhs: usize) -> bool { true } open spec fn shl_spec(self, rhs: usize) -> BigInt { bi(self.v@ * p2(rhs as nat)) } }
impl<'a> std::ops::Shl<usize> for &'a BigInt { type Output = BigInt; #[verifier::external_body] fn shl(self, rhs: usize) -> BigInt { unimplemented!() } }
impl vstd::std_specs::ops::ShlAssignSpecImpl<usize> for BigInt { open spec fn obeys_shl_assign_spec() -> bool { true } open spec fn shl_assign_req(&self, rhs: usize) -> bool { true } open spec fn shl_assign_spec(&self, rhs: usize) -> &BigInt { &bi(self.v@ * p2(rhs as nat)) } }
impl std::ops::ShlAssign<usize> for BigInt { #[verifier::external_body] fn shl_assign(&mut self, rhs: usize) { unimplemented!() } }
impl vstd::std_specs::ops::ShrSpecImpl<usize> for BigInt { open spec fn obeys_shr_spec() -> bool { true } open spec fn shr_req(self, rhs: usize) -> bool { true } open spec fn shr_spec(self, rhs: usize) -> BigInt { bi(self.v@ / p2(rhs as nat)) } }
impl std::ops::Shr<usize> for BigInt { type Output = BigInt; #[verifier::external_body] fn shr(self, rhs: usize) -> BigInt { unimplemented!() } }
impl<'a> vstd::std_specs::ops::ShrSpecImpl<usize> for &'a BigInt { open spec fn obeys_shr_spec() -> bool { true } open spec fn shr_req(self, rhs: usize) -> bool { true } open spec fn shr_spec(self, rhs: usize) -> BigInt { bi(self.v@ / p2(rhs as nat)) } }
impl<'a> std::ops::Shr<usize> for &'a BigInt { type Output = BigInt; #[verifier::external_body] fn shr(self, rhs: usize) -> BigInt { unimplemented!() } }
impl vstd::std_specs::ops::ShrAssignSpecImpl<usize> for BigInt { open spec fn obeys_shr_assign_spec() -> bool { true } open spec fn shr_assign_req(&self, rhs: usize) -> bool { true } open spec fn shr_assign_spec(&self, rhs: usize) -> &BigInt { &bi(self.v@ / p2(rhs as nat)) } }
impl std::ops::ShrAssign<usize> for BigInt { #[verifier::external_body] fn shr_assign(&mut self, rhs: usize) { unimplemented!() } }
impl vstd::std_specs::ops::NegSpecImpl for BigInt { open spec fn obeys_neg_spec() -> bool { true } open spec fn neg_req(self) -> bool { true } open spec fn neg_spec(self) -> BigInt { bi(-self.v@) } }
impl std::ops::Neg for BigInt { type Output = BigInt; #[verifier::external_body] fn neg(self) -> BigInt { unimplemented!() } }
impl<'a> vstd::std_specs::ops::NegSpecImpl for &'a BigInt { open spec fn obeys_neg_spec() -> bool { true } open spec fn neg_req(self) -> bool { true } open spec fn neg_spec(self) -> BigInt { bi(-self.v@) } }
impl<'a> std::ops::Neg for &'a BigInt { type Output = BigInt; #[verifier::external_body] fn neg(self) -> BigInt { unimplemented!() } }
impl vstd::std_specs::convert::FromSpecImpl<i32> for BigInt { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: i32) -> BigInt { bi(v as int) } }
impl From<i32> for BigInt { #[verifier::external_body] fn from(v: i32) -> BigInt { unimplemented!() } }
impl vstd::std_specs::convert::FromSpecImpl<i64> for BigInt { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: i64) -> BigInt { bi(v as int) } }
impl From<i64> for BigInt { #[verifier::external_body] fn from(v: i64) -> BigInt { unimplemented!() } }
impl vstd::std_specs::convert::FromSpecImpl<u32> for BigInt { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: u32) -> BigInt { bi(v as int) } }
impl From<u32> for BigInt { #[verifier::external_body] fn from(v: u32) -> BigInt { unimplemented!() } }
impl vstd::std_specs::convert::FromSpecImpl<u64> for BigInt { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: u64) -> BigInt { bi(v as int) } }
impl From<u64> for BigInt { #[verifier::external_body] fn from(v: u64) -> BigInt { unimplemented!() } }
impl vstd::std_specs::convert::FromSpecImpl<usize> for BigInt { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: usize) -> BigInt { bi(v as int) } }
impl From<usize> for BigInt { #[verifier::external_body] fn from(v: usize) -> BigInt { unimplemented!() } }
