//@include prelude_real.rs
//@include inc_algo.rs
verus! {

// a marker value: nothing is known about it
#[verifier::external_body]
pub fn UNINITIALIZED_c() -> R { unimplemented!() }
//@const russell_lab/src/algo/min_solver.rs GSR
//@const russell_lab/src/math/constants.rs SQRT_EPSILON
//@map const:UNINITIALIZED=UNINITIALIZED_c const:GSR=GSR_c const:SQRT_EPSILON=SQRT_EPSILON_c
//@struct russell_lab/src/algo/bracket.rs Bracket
//@struct russell_lab/src/algo/min_bracketing.rs MinBracketing
//@struct russell_lab/src/algo/min_solver.rs MinSolver

//@fn russell_lab/src/algo/min_bracketing.rs swap
//@spec
    ensures final(a)@ == old(b)@, final(b)@ == old(a)@,
//@endfn

//@fn russell_lab/src/algo/min_bracketing.rs MinBracketing::new
//@spec
    ensures ret.n_iteration_max >= 2, ret.initial_step@ > 0real, ret.expansion_factor@ > 1real,
//@endfn
//@fn russell_lab/src/algo/min_bracketing.rs MinBracketing::validate_params
//@spec
    ensures ret is Ok <==> self.n_iteration_max >= 2,
//@endfn

//@fn russell_lab/src/algo/min_bracketing.rs MinBracketing::basic fn:f=VxFn
//@spec
    requires old(self).expansion_factor@ > 0real,
    ensures
        ret is Ok ==> {
            let k = ret->Ok_0;
            // strictly ordered, the middle value is not above the ends, the values belong to the function
            &&& k.a@ < k.xo@ && k.xo@ < k.b@
            &&& k.fxo@ <= k.fa@ && k.fxo@ <= k.fb@
            &&& k.fa@ == vx_f(k.a@) && k.fxo@ == vx_f(k.xo@) && k.fb@ == vx_f(k.b@)
        },
        old(self).n_iteration_max < 2 ==> ret is Err,
//@loop 0
        invariant_except_break !converged,
        invariant
            self.expansion_factor@ > 0real, self.n_iteration_max >= 2,
            fa@ == vx_f(a@), fxo@ == vx_f(xo@), fxo@ <= fa@,
            !converged ==> (step@ > 0real && a@ < xo@) || (step@ < 0real && a@ > xo@) || (step@ == 0real && a@ == xo@),
            converged ==> fb@ == vx_f(b@) && fxo@ < fb@ && ((a@ < xo@ && xo@ < b@) || (a@ > xo@ && xo@ > b@)),
//@loop 0 start
            proof { lemma_pos(step@, self.expansion_factor@); }
//@endfn

//@fn russell_lab/src/algo/min_solver.rs MinSolver::new
//@endfn
//@fn russell_lab/src/algo/min_solver.rs MinSolver::validate_params
//@spec
    ensures ret is Ok <==> self.n_iteration_max >= 2 && self.tolerance@ >= 10real * (1real / 4503599627370496real),
//@endfn

// decreasing up to m and increasing from m
pub open spec fn unimodal(a: real, m: real, b: real) -> bool {
    &&& a <= m && m <= b
    &&& forall|x: real, y: real| #![trigger vx_f(x), vx_f(y)] a <= x && x < y && y <= m ==> vx_f(x) > vx_f(y)
    &&& forall|x: real, y: real| #![trigger vx_f(x), vx_f(y)] m <= x && x < y && y <= b ==> vx_f(x) < vx_f(y)
}
pub open spec fn tol_of(x: real, tolerance: real) -> real { SQRT_EPSILON_spec() * rabs(x) + tolerance / 3real }
proof fn lemma_tol(x: real, tolerance: real)
    requires tolerance >= 10real * (1real / 4503599627370496real)
    ensures tol_of(x, tolerance) > 0real
{
    assert(SQRT_EPSILON_spec() * rabs(x) >= 0real) by (nonlinear_arith) requires SQRT_EPSILON_spec() >= 0real, rabs(x) >= 0real;
    assert(tolerance > 0real);
}
// fraction of an interval
proof fn lemma_gsr(d: real)
    ensures
        0real < GSR_spec() < 1real,
        d > 0real ==> 0real < GSR_spec() * d < d, d < 0real ==> d < GSR_spec() * d < 0real,
{
    let g = GSR_spec();
    assert(0real < g < 1real) by (nonlinear_arith) requires g == GSR_spec();
    assert(d > 0real ==> 0real < g * d < d) by (nonlinear_arith) requires 0real < g < 1real;
    assert(d < 0real ==> d < g * d < 0real) by (nonlinear_arith) requires 0real < g < 1real;
}
// quotient between two bounds
proof fn lemma_between(p: real, q: real, lo: real, hi: real)
    requires q > 0real, p > q * lo, p < q * hi
    ensures lo < p / q < hi
{
    let t = p / q;
    assert(t * q == p) by (nonlinear_arith) requires q != 0real, t == p / q;
    assert(lo < t) by (nonlinear_arith) requires t * q == p, p > q * lo, q > 0real;
    assert(t < hi) by (nonlinear_arith) requires t * q == p, p < q * hi, q > 0real;
}

//@fn russell_lab/src/algo/min_solver.rs MinSolver::brent fn:f=VxFn
//@spec
    requires old(f).log@.len() == 0,
    ensures
        // never evaluated outside of the interval, also when failing
        inside(final(f).log@, rmin(xa@, xb@), rmax(xa@, xb@)),
        ret is Ok ==> rmin(xa@, xb@) <= ret->Ok_0@ && ret->Ok_0@ <= rmax(xa@, xb@),
        // not above any other evaluated point
        ret is Ok ==> final(f).log@.len() > 0 && final(f).log@[0] == rmin(xa@, xb@) + GSR_spec() * (rmax(xa@, xb@) - rmin(xa@, xb@)),
        ret is Ok ==> forall|i: int| 0 <= i < final(f).log@.len() ==> vx_f(ret->Ok_0@) <= vx_f(#[trigger] final(f).log@[i]),
        // the minimiser of a unimodal function
        ret is Ok ==> forall|m: real| #[trigger] unimodal(rmin(xa@, xb@), m, rmax(xa@, xb@)) ==> rabs(ret->Ok_0@ - m) <= 2real * tol_of(ret->Ok_0@, old(self).tolerance@),
        // refused arguments
        ret is Ok ==> rabs(xa@ - xb@) >= 10real * (1real / 4503599627370496real) && old(self).n_iteration_max >= 2 && old(self).tolerance@ >= 10real * (1real / 4503599627370496real),
//@start
    let ghost lo = rmin(xa@, xb@);
    let ghost hi = rmax(xa@, xb@);
//@before stmt `let mut v =`
        proof { lemma_gsr(hi - lo); }
//@loop 0
        invariant
            self.tolerance@ >= 10real * (1real / 4503599627370496real), self.tolerance == old(self).tolerance,
            lo == rmin(xa@, xb@), hi == rmax(xa@, xb@), lo < hi,
            lo <= a@, a@ < b@, b@ <= hi, a@ <= x@, x@ <= b@,
            fx@ == vx_f(x@), fw@ == vx_f(w@), fv@ == vx_f(v@), fx@ <= fw@, fx@ <= fv@,
            inside(f.log@, lo, hi), f.log@.len() > 0, f.log@[0] == lo + GSR_spec() * (hi - lo),
            forall|i: int| 0 <= i < f.log@.len() ==> fx@ <= vx_f(#[trigger] f.log@[i]),
            forall|m: real| #[trigger] unimodal(lo, m, hi) ==> a@ <= m && m <= b@,
            converged ==> rabs(x@ - (a@ + b@) / 2real) + (b@ - a@) / 2real <= 2real * tol_of(x@, self.tolerance@),
//@loop 0 start
            proof {
                lemma_tol(x@, self.tolerance@);
                lemma_gsr(b@ - x@);
                lemma_gsr(a@ - x@);
            }
//@before stmt `step_new = p / q`
                    proof {
                        lemma_pos(q@, a@ - x@ + 2real * tol@);
                        assert(q@ != 0real) by { if q@ == 0real { assert(step_new@ * q@ == 0real) by (nonlinear_arith) requires q@ == 0real; } }
                        lemma_between(p@, q@, a@ - x@ + 2real * tol@, b@ - x@ - 2real * tol@);
                    }
//@before stmt `let t = x + step_new`
            proof {
                assert(rabs(step_new@) >= tol@);
                assert(a@ <= x@ + step_new@ && x@ + step_new@ <= b@);
            }
//@after stmt `let ft =`
            proof {
                assert forall|m: real| #[trigger] unimodal(lo, m, hi) implies
                    (ft@ <= fx@ && t@ < x@ ==> m <= x@) && (ft@ <= fx@ && t@ > x@ ==> m >= x@) && (ft@ > fx@ && t@ < x@ ==> m >= t@) && (ft@ > fx@ && t@ > x@ ==> m <= t@) by {
                    assert(vx_f(t@) == ft@ && vx_f(x@) == fx@);
                }
            }
//@endfn

} // verus!
fn main() {}
