//@map f64=R
//@map A=VxArgs
verus! {

// ---- trusted: the function given by the caller: a deterministic function of its argument that may fail; the log holds all arguments in order ----
pub uninterp spec fn vx_f(x: real) -> real;
#[verifier::external_body]
pub struct VxArgs { x: usize }
pub struct VxFn { pub log: Ghost<Seq<real>> }
impl VxFn {
    #[verifier::external_body]
    pub fn call(&mut self, x: R, args: &mut VxArgs) -> (ret: Result<R, StrError>)
        ensures ret is Ok ==> ret->Ok_0@ == vx_f(x@), final(self).log@ == old(self).log@.push(x@)
    { unimplemented!() }
}
// the function has only been evaluated inside of an interval
pub open spec fn inside(s: Seq<real>, a: real, b: real) -> bool { forall|i: int| 0 <= i < s.len() ==> a <= #[trigger] s[i] && s[i] <= b }

// ---- dropped: counters and stopwatches ----
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Stats { x: usize }
impl Stats {
    #[verifier::external_body]
    pub fn new() -> Stats { unimplemented!() }
    #[verifier::external_body]
    pub fn reset(&mut self) { unimplemented!() }
    #[verifier::external_body]
    pub fn inc_n_function(&mut self, count: usize) { unimplemented!() }
    #[verifier::external_body]
    pub fn inc_n_jacobian(&mut self, count: usize) { unimplemented!() }
    #[verifier::external_body]
    pub fn inc_n_iterations(&mut self, count: usize) { unimplemented!() }
    #[verifier::external_body]
    pub fn stop_sw_total(&mut self) { unimplemented!() }
}

// products of real numbers
pub proof fn lemma_pos(x: real, y: real)
    ensures x > 0real && y > 0real ==> x * y > 0real, x < 0real && y < 0real ==> x * y > 0real,
        x > 0real && y < 0real ==> x * y < 0real, x < 0real && y > 0real ==> x * y < 0real, x == 0real || y == 0real ==> x * y == 0real
{
    assert(x > 0real && y > 0real ==> x * y > 0real) by (nonlinear_arith);
    assert(x < 0real && y < 0real ==> x * y > 0real) by (nonlinear_arith);
    assert(x > 0real && y < 0real ==> x * y < 0real) by (nonlinear_arith);
    assert(x < 0real && y > 0real ==> x * y < 0real) by (nonlinear_arith);
    assert(x == 0real || y == 0real ==> x * y == 0real) by (nonlinear_arith);
}
pub proof fn lemma_ratio(p: real, q: real)
    requires q != 0real
    ensures (p / q) * q == p
{
    assert((p / q) * q == p) by (nonlinear_arith) requires q != 0real;
}

} // verus!
