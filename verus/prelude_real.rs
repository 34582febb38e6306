use vstd::prelude::*;
#[allow(unused_imports)]
use core::cmp::Ordering;
#[allow(unused_imports)]
use vstd::std_specs::hash::*;

verus! {

// ---- trusted: panics end the execution (the function does not return normally) ----
#[verifier::external_body]
pub fn vx_panic() -> !
    ensures false,
{ unimplemented!() }

// ---- trusted: `(a..b).collect::<Vec<usize>>()` ----
#[verifier::external_body]
pub fn vx_collect_range(a: usize, b: usize) -> (ret: Vec<usize>)
    ensures a <= b ==> ret.len() == b - a, b < a ==> ret.len() == 0,
        forall|i: int| #![auto] 0 <= i < ret.len() ==> ret@[i] == a + i,
{ unimplemented!() }

// ---- trusted: slice::sort_by on the first component of pairs ----
#[verifier::external_body]
pub fn vx_sort_pairs(x: &mut Vec<(i32, R)>, a: usize, b: usize)
    requires a <= b <= old(x).len()
    ensures
        final(x).len() == old(x).len(),
        forall|q: int| 0 <= q < old(x).len() && !(a <= q < b) ==> #[trigger] final(x)@[q] == old(x)@[q],
        forall|p: int, q: int| a <= p <= q < b ==> (#[trigger] final(x)@[p]).0 <= (#[trigger] final(x)@[q]).0,
        final(x)@.subrange(a as int, b as int).to_multiset() == old(x)@.subrange(a as int, b as int).to_multiset(),
{ unimplemented!() }
// range check of a slice `x[a..b]`
pub fn vx_check_range(a: usize, b: usize, n: usize) -> (ret: usize)
    requires a <= b <= n
    ensures ret == a
{ a }

// ---- trusted: Vec::from copies the slice ----
#[verifier::external_body]
pub fn vx_vec_from<T: Copy>(x: &[T]) -> (ret: Vec<T>) ensures ret@ == x@ { unimplemented!() }

// ---- trusted: usize::max and usize::min ----
#[verifier::external_body]
pub fn vx_umax(a: usize, b: usize) -> (ret: usize) ensures ret == if a < b { b } else { a } { unimplemented!() }
#[verifier::external_body]
pub fn vx_umin(a: usize, b: usize) -> (ret: usize) ensures ret == if a < b { a } else { b } { unimplemented!() }

pub type StrError = &'static str;

// ---- trusted: machine floating-point numbers treated as mathematical reals ----
#[derive(Clone, Copy)]
pub struct R { pub v: Ghost<real> }
impl View for R { type V = real; open spec fn view(&self) -> real { self.v@ } }
pub open spec fn r(x: real) -> R { R { v: Ghost(x) } }
pub open spec fn rabs(x: real) -> real { if x < 0real { -x } else { x } }
pub open spec fn rmax(x: real, y: real) -> real { if x < y { y } else { x } }
pub open spec fn rmin(x: real, y: real) -> real { if x < y { x } else { y } }
impl core::ops::Add for R { type Output = R;
    #[verifier::external_body]
    fn add(self, o: R) -> (r: R) { unimplemented!() }
}
impl vstd::std_specs::ops::AddSpecImpl<R> for R {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, rhs: R) -> bool { true }
    open spec fn add_spec(self, rhs: R) -> R { r(self@ + rhs@) }
}
impl core::ops::Sub for R { type Output = R;
    #[verifier::external_body]
    fn sub(self, o: R) -> (r: R) { unimplemented!() }
}
impl vstd::std_specs::ops::SubSpecImpl<R> for R {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, rhs: R) -> bool { true }
    open spec fn sub_spec(self, rhs: R) -> R { r(self@ - rhs@) }
}
impl core::ops::Sub<R> for &R { type Output = R;
    #[verifier::external_body]
    fn sub(self, o: R) -> (r: R) { unimplemented!() }
}
impl vstd::std_specs::ops::SubSpecImpl<R> for &R {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, rhs: R) -> bool { true }
    open spec fn sub_spec(self, rhs: R) -> R { r(self@ - rhs@) }
}
impl core::ops::Mul for R { type Output = R;
    #[verifier::external_body]
    fn mul(self, o: R) -> (r: R) { unimplemented!() }
}
impl vstd::std_specs::ops::MulSpecImpl<R> for R {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, rhs: R) -> bool { true }
    open spec fn mul_spec(self, rhs: R) -> R { r(self@ * rhs@) }
}
impl core::ops::Div for R { type Output = R;
    #[verifier::external_body]
    fn div(self, o: R) -> (r: R) { unimplemented!() }
}
impl vstd::std_specs::ops::DivSpecImpl<R> for R {
    open spec fn obeys_div_spec() -> bool { true }
    open spec fn div_req(self, rhs: R) -> bool { rhs@ != 0real }
    open spec fn div_spec(self, rhs: R) -> R { r(self@ / rhs@) }
}
impl core::ops::Neg for R { type Output = R;
    #[verifier::external_body]
    fn neg(self) -> (r: R) { unimplemented!() }
}
impl vstd::std_specs::ops::NegSpecImpl for R {
    open spec fn obeys_neg_spec() -> bool { true }
    open spec fn neg_req(self) -> bool { true }
    open spec fn neg_spec(self) -> R { r(-self@) }
}
impl PartialEq for R {
    #[verifier::external_body]
    fn eq(&self, o: &R) -> (b: bool) { unimplemented!() }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for R {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &R) -> bool { self@ == o@ }
}
impl PartialOrd for R {
    #[verifier::external_body]
    fn partial_cmp(&self, o: &R) -> (b: Option<Ordering>) { unimplemented!() }
}
impl vstd::std_specs::cmp::PartialOrdSpecImpl for R {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &R) -> Option<Ordering> {
        if self@ < o@ { Some(Ordering::Less) } else if self@ > o@ { Some(Ordering::Greater) } else { Some(Ordering::Equal) }
    }
}
pub open spec fn ireal(n: int) -> real { n as real }
// the root of a non-negative number
pub uninterp spec fn rsqrt(x: real) -> real;
// the power of two real numbers
pub uninterp spec fn rpowf(x: real, y: real) -> real;
impl R {
    #[verifier::external_body]
    pub fn powf(self, o: R) -> (ret: R)
        ensures ret@ == rpowf(self@, o@), self@ > 0real ==> ret@ > 0real, self@ >= 1real && o@ >= 0real ==> ret@ >= 1real, 0real < self@ <= 1real && o@ >= 0real ==> ret@ <= 1real, self@ >= 1real && o@ <= 0real ==> ret@ <= 1real
    { unimplemented!() }
    #[verifier::external_body]
    pub fn lit(x: Ghost<real>) -> (ret: R) ensures ret@ == x@ { unimplemented!() }
    #[verifier::external_body]
    pub fn of_int(x: i128) -> (ret: R) ensures ret@ == x as real { unimplemented!() }
    #[verifier::external_body]
    pub fn eps() -> (ret: R) ensures ret@ == 1real / 4503599627370496real { unimplemented!() }
    // nothing is known about it
    #[verifier::external_body]
    pub fn largest() -> (ret: R) { unimplemented!() }
    #[verifier::external_body]
    pub fn ceil(self) -> (ret: R) ensures exists|n: int| ret@ == #[trigger] ireal(n) && ((n - 1) as real) < self@ && self@ <= (n as real) { unimplemented!() }
    #[verifier::external_body]
    pub fn floor(self) -> (ret: R) ensures exists|n: int| ret@ == #[trigger] ireal(n) && (n as real) <= self@ && self@ < ((n + 1) as real) { unimplemented!() }
    // values out of range are moved to the nearest end of the range
    #[verifier::external_body]
    pub fn to_usize(x: R) -> (ret: usize)
        ensures x@ < 0real ==> ret == 0, x@ > usize::MAX as real ==> ret == usize::MAX, forall|n: int| 0 <= n <= usize::MAX && x@ == #[trigger] ireal(n) ==> ret == n
    { unimplemented!() }
    // nothing is known about it
    #[verifier::external_body]
    pub fn infinity() -> (ret: R) { unimplemented!() }
    pub fn zero() -> (ret: R) ensures ret@ == 0real { R::lit(Ghost(0real)) }
    pub fn one() -> (ret: R) ensures ret@ == 1real { R::lit(Ghost(1real)) }
    #[verifier::external_body]
    pub fn abs(self) -> (ret: R) ensures ret@ == rabs(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn max(self, o: R) -> (ret: R) ensures ret@ == rmax(self@, o@) { unimplemented!() }
    #[verifier::external_body]
    pub fn min(self, o: R) -> (ret: R) ensures ret@ == rmin(self@, o@) { unimplemented!() }
    #[verifier::external_body]
    pub fn sqrt(self) -> (ret: R) requires self@ >= 0real ensures ret@ >= 0real, ret@ * ret@ == self@, ret@ == rsqrt(self@) { unimplemented!() }
    // a real number is always finite
    #[verifier::external_body]
    pub fn is_finite(self) -> (ret: bool) ensures ret { unimplemented!() }
}

} // verus!
