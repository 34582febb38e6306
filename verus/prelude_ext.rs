use vstd::prelude::*;
#[allow(unused_imports)]
use core::cmp::Ordering;

verus! {

// ---- trusted: panics end the execution (the function does not return normally) ----
#[verifier::external_body]
pub fn vx_panic() -> !
    ensures false,
{ unimplemented!() }

pub type StrError = &'static str;

// ---- trusted: machine numbers as extended reals: not-a-number and infinities are kept apart, finite results are exact ----
pub enum X { Nan, Inf, NegInf, Fin(real) }
#[derive(Clone, Copy)]
pub struct R { pub v: Ghost<X> }
impl View for R { type V = X; open spec fn view(&self) -> X { self.v@ } }
pub open spec fn rabs(x: real) -> real { if x < 0real { -x } else { x } }
impl R {
    pub open spec fn fin(self) -> bool { self@ is Fin }
    pub open spec fn val(self) -> real { self@->Fin_0 }
}
pub open spec fn xr(x: real) -> R { R { v: Ghost(X::Fin(x)) } }
// operations with infinities, division by zero: nothing is assumed
pub uninterp spec fn x_other(op: int, a: R, b: R) -> R;
pub open spec fn x_op(op: int, a: R, b: R) -> R {
    if a@ is Nan || b@ is Nan { R { v: Ghost(X::Nan) } }
    else if a.fin() && b.fin() && !(op == 3 && b.val() == 0real) {
        if op == 0 { xr(a.val() + b.val()) } else if op == 1 { xr(a.val() - b.val()) } else if op == 2 { xr(a.val() * b.val()) } else { xr(a.val() / b.val()) }
    } else { x_other(op, a, b) }
}
impl core::ops::Add for R { type Output = R;
    #[verifier::external_body]
    fn add(self, o: R) -> (r: R) { unimplemented!() }
}
impl vstd::std_specs::ops::AddSpecImpl<R> for R {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, rhs: R) -> bool { true }
    open spec fn add_spec(self, rhs: R) -> R { x_op(0, self, rhs) }
}
impl core::ops::Sub for R { type Output = R;
    #[verifier::external_body]
    fn sub(self, o: R) -> (r: R) { unimplemented!() }
}
impl vstd::std_specs::ops::SubSpecImpl<R> for R {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, rhs: R) -> bool { true }
    open spec fn sub_spec(self, rhs: R) -> R { x_op(1, self, rhs) }
}
impl core::ops::Mul for R { type Output = R;
    #[verifier::external_body]
    fn mul(self, o: R) -> (r: R) { unimplemented!() }
}
impl vstd::std_specs::ops::MulSpecImpl<R> for R {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, rhs: R) -> bool { true }
    open spec fn mul_spec(self, rhs: R) -> R { x_op(2, self, rhs) }
}
impl core::ops::Div for R { type Output = R;
    #[verifier::external_body]
    fn div(self, o: R) -> (r: R) { unimplemented!() }
}
impl vstd::std_specs::ops::DivSpecImpl<R> for R {
    open spec fn obeys_div_spec() -> bool { true }
    open spec fn div_req(self, rhs: R) -> bool { true }
    open spec fn div_spec(self, rhs: R) -> R { x_op(3, self, rhs) }
}
// comparisons with not-a-number are false
pub open spec fn x_cmp(a: X, b: X) -> Option<Ordering> {
    match (a, b) {
        (X::Nan, _) => None,
        (_, X::Nan) => None,
        (X::Fin(x), X::Fin(y)) => if x < y { Some(Ordering::Less) } else if x > y { Some(Ordering::Greater) } else { Some(Ordering::Equal) },
        (X::Inf, X::Inf) => Some(Ordering::Equal),
        (X::NegInf, X::NegInf) => Some(Ordering::Equal),
        (X::Inf, _) => Some(Ordering::Greater),
        (X::NegInf, _) => Some(Ordering::Less),
        (_, X::Inf) => Some(Ordering::Less),
        (_, X::NegInf) => Some(Ordering::Greater),
    }
}
impl PartialEq for R {
    #[verifier::external_body]
    fn eq(&self, o: &R) -> (b: bool) { unimplemented!() }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for R {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &R) -> bool { x_cmp(self@, o@) == Some(Ordering::Equal) }
}
impl PartialOrd for R {
    #[verifier::external_body]
    fn partial_cmp(&self, o: &R) -> (b: Option<Ordering>) { unimplemented!() }
}
impl vstd::std_specs::cmp::PartialOrdSpecImpl for R {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &R) -> Option<Ordering> { x_cmp(self@, o@) }
}
pub open spec fn x_gt(a: R, b: R) -> bool { x_cmp(a@, b@) == Some(Ordering::Greater) }
pub open spec fn x_abs(a: R) -> X {
    match a@ { X::Nan => X::Nan, X::Inf => X::Inf, X::NegInf => X::Inf, X::Fin(x) => X::Fin(rabs(x)) }
}
impl R {
    #[verifier::external_body]
    pub fn lit(x: Ghost<real>) -> (ret: R) ensures ret@ == X::Fin(x@) { unimplemented!() }
    #[verifier::external_body]
    pub fn of_int(x: i128) -> (ret: R) ensures ret@ == X::Fin(x as real) { unimplemented!() }
    pub fn zero() -> (ret: R) ensures ret@ == X::Fin(0real) { R::lit(Ghost(0real)) }
    #[verifier::external_body]
    pub fn abs(self) -> (ret: R) ensures ret@ == x_abs(self) { unimplemented!() }
    // a not-a-number is skipped
    #[verifier::external_body]
    pub fn max(self, o: R) -> (ret: R)
        ensures ret == if self@ is Nan { o } else if o@ is Nan { self } else if x_gt(o, self) { o } else { self }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn sqrt(self) -> (ret: R)
        ensures self.fin() && self.val() >= 0real ==> ret.fin() && ret.val() >= 0real && ret.val() * ret.val() == self.val()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn is_finite(self) -> (ret: bool) ensures ret == self.fin() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_nan(self) -> (ret: bool) ensures ret == (self@ is Nan) { unimplemented!() }
}
// ---- trusted: x.iter().any(|v| v.is_nan()) ----
#[verifier::external_body]
pub fn vx_any_nan(x: &Vec<R>) -> (ret: bool) ensures ret <==> exists|i: int| 0 <= i < x@.len() && (#[trigger] x@[i])@ is Nan { unimplemented!() }

} // verus!
