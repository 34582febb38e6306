//@include inc_lab.rs
//@include inc_algo.rs
verus! {

//@struct russell_lab/src/algo/line_search.rs LineSearcher
//@const russell_lab/src/algo/line_search.rs DEFAULT_C1
//@const russell_lab/src/algo/line_search.rs DEFAULT_RHO
//@const russell_lab/src/algo/line_search.rs DEFAULT_MIN_ALPHA
//@const russell_lab/src/algo/line_search.rs DEFAULT_MAX_ITERATIONS
//@map const:DEFAULT_C1=DEFAULT_C1_c const:DEFAULT_RHO=DEFAULT_RHO_c const:DEFAULT_MIN_ALPHA=DEFAULT_MIN_ALPHA_c

pub open spec fn rpow(x: real, n: nat) -> real
    decreases n
{ if n == 0 { 1real } else { rpow(x, (n - 1) as nat) * x } }

impl LineSearcher {
    pub open spec fn valid(&self) -> bool {
        0real < self.c1@ < 1real && 0real < self.rho@ < 1real && 0real < self.min_alpha@ < 1real && self.max_iterations >= 1
    }
    // condition of sufficient decrease
    pub open spec fn enough(&self, x: real, p: real, fx: real, slope: real, alpha: real) -> bool {
        vx_f(x + alpha * p) <= fx + self.c1@ * alpha * slope
    }
}

//@fn russell_lab/src/algo/line_search.rs LineSearcher::new
//@spec
    ensures ret.valid(), ret.c1@ == DEFAULT_C1_spec(), ret.rho@ == DEFAULT_RHO_spec(), ret.min_alpha@ == DEFAULT_MIN_ALPHA_spec(),
//@start
    proof {
        assert(0real < DEFAULT_MIN_ALPHA_spec() < 1real) by (nonlinear_arith);
    }
//@endfn
//@fn russell_lab/src/algo/line_search.rs LineSearcher::validate_params
//@spec
    ensures ret is Ok <==> self.valid(),
//@endfn

//@fn russell_lab/src/algo/line_search.rs LineSearcher::search fn:f=VxFn
//@spec
    requires old(f).log@.len() == 0,
    ensures
        ret is Ok ==> {
            let (alpha, n) = (ret->Ok_0.0@, ret->Ok_0.1 as int);
            &&& self.valid() && slope@ < 0real
            &&& self.enough(x@, p@, fx@, slope@, alpha)
            &&& self.min_alpha@ <= alpha && alpha <= 1real
            &&& 1 <= n && n <= self.max_iterations && alpha == rpow(self.rho@, (n - 1) as nat)
            &&& final(f).log@.len() == n
            // the first step that is good enough
            &&& forall|k: int| 0 <= k < n - 1 ==> !self.enough(x@, p@, fx@, slope@, #[trigger] rpow(self.rho@, k as nat))
        },
        // steps are tried in order
        forall|k: int| 0 <= k < final(f).log@.len() ==> #[trigger] final(f).log@[k] == x@ + rpow(self.rho@, k as nat) * p@,
        // given up only without a good step (the last evaluation may have failed)
        ret is Err ==> forall|k: int| 0 <= k < final(f).log@.len() - 1 ==> !self.enough(x@, p@, fx@, slope@, #[trigger] rpow(self.rho@, k as nat)),
        final(f).log@.len() > 0 ==> self.valid() && slope@ < 0real,
//@loop 0
        invariant
            self.valid(), slope@ < 0real, f.log@.len() == n_iter,
            alpha@ == rpow(self.rho@, n_iter as nat), self.min_alpha@ <= alpha@ && alpha@ <= 1real,
            forall|k: int| 0 <= k < n_iter ==> !self.enough(x@, p@, fx@, slope@, #[trigger] rpow(self.rho@, k as nat)),
            forall|k: int| 0 <= k < n_iter ==> #[trigger] f.log@[k] == x@ + rpow(self.rho@, k as nat) * p@,
//@loop 0 start
            proof {
                let a = alpha@; let q = self.rho@;
                assert(a * q <= 1real) by (nonlinear_arith) requires 0real < a && a <= 1real, 0real < q && q < 1real;
                assert(rpow(q, (n_iter + 1) as nat) == rpow(q, n_iter as nat) * q);
            }
//@endfn

//@fn russell_lab/src/algo/line_search.rs line_search fn:f=VxFn resmap
//@spec
    requires old(f).log@.len() == 0,
    ensures
        ret is Ok ==> slope@ < 0real && DEFAULT_MIN_ALPHA_spec() <= ret->Ok_0@ && ret->Ok_0@ <= 1real && vx_f(x@ + ret->Ok_0@ * p@) <= fx@ + DEFAULT_C1_spec() * ret->Ok_0@ * slope@,
//@endfn
//@fn russell_lab/src/algo/line_search.rs line_search_with_stats fn:f=VxFn
//@spec
    requires old(f).log@.len() == 0,
    ensures
        ret is Ok ==> slope@ < 0real && DEFAULT_MIN_ALPHA_spec() <= ret->Ok_0.0@ && ret->Ok_0.0@ <= 1real && vx_f(x@ + ret->Ok_0.0@ * p@) <= fx@ + DEFAULT_C1_spec() * ret->Ok_0.0@ * slope@,
        ret is Ok ==> ret->Ok_0.1 == final(f).log@.len(),
//@endfn

// ---------------------------------------------------------------- Newton's method
// ---- trusted: the residual given by the caller: a deterministic function of the state ----
pub uninterp spec fn vx_r(x: Seq<R>) -> Seq<R>;
pub struct VxRes { pub n: Ghost<int> }
impl VxRes {
    #[verifier::external_body]
    pub fn call(&mut self, r: &mut NumVector, x: &NumVector, args: &mut VxArgs) -> (ret: Result<(), StrError>)
        ensures final(r).data@.len() == old(r).data@.len(), ret is Ok ==> final(r).data@ == vx_r(x.data@), final(self).n@ == old(self).n@ + 1
    { unimplemented!() }
}
pub struct VxJac { pub n: Ghost<int> }
impl VxJac {
    #[verifier::external_body]
    pub fn call(&mut self, j: &mut NumMatrix, x: &NumVector, args: &mut VxArgs) -> (ret: Result<(), StrError>)
        ensures final(j).nrow == old(j).nrow, final(j).ncol == old(j).ncol, final(self).n@ == old(self).n@ + 1
    { unimplemented!() }
}
// ---- trusted: kernels (see C08, C10) ----
//@enum russell_lab/src/base/enums.rs Norm
pub open spec fn all_below(s: Seq<R>, t: real) -> bool { forall|i: int| 0 <= i < s.len() ==> rabs((#[trigger] s[i])@) < t }
#[verifier::external_body]
pub fn vec_norm(v: &NumVector, kind: Norm) -> (ret: R)
    ensures
        kind is Max ==> ret@ >= 0real && forall|t: real| #![trigger all_below(v.data@, t)] ret@ < t ==> all_below(v.data@, t),
        kind is Max && v.data@.len() > 0 ==> exists|i: int| 0 <= i < v.data@.len() && ret@ == rabs((#[trigger] v.data@[i])@),
{ unimplemented!() }
#[verifier::external_body]
pub fn vec_inner(u: &NumVector, v: &NumVector) -> R { unimplemented!() }
#[verifier::external_body]
pub fn solve_lin_sys(b: &mut NumVector, a: &mut NumMatrix) -> (ret: Result<(), StrError>)
    ensures final(b).data@.len() == old(b).data@.len(), final(a).nrow == old(a).nrow, final(a).ncol == old(a).ncol,
{ unimplemented!() }
impl Clone for NumVector {
    #[verifier::external_body]
    fn clone(&self) -> (ret: NumVector) ensures ret.data@ == self.data@ { unimplemented!() }
}

//@struct russell_lab/src/algo/newton_solver.rs NewtonSolver
impl NewtonSolver {
    pub open spec fn wf(&self) -> bool { self.ndim > 0 && self.r.data@.len() == self.ndim && self.p.data@.len() == self.ndim }
    pub open spec fn valid(&self) -> bool {
        self.max_iterations >= 1 && self.tolerance@ >= 10real * (1real / 4503599627370496real) && self.divergent_tol@ >= 1real && self.initial_alpha@ > 0real
    }
}
//@fn russell_lab/src/algo/newton_solver.rs NewtonSolver::new
//@spec
    requires ndim * ndim <= usize::MAX,
    ensures ret is Ok <==> ndim > 0, ret is Ok ==> ret->Ok_0.wf() && ret->Ok_0.ndim == ndim && ret->Ok_0.valid(),
//@endfn
//@fn russell_lab/src/algo/newton_solver.rs NewtonSolver::validate_params
//@spec
    ensures ret is Ok <==> self.valid(),
//@endfn
//@fn russell_lab/src/algo/newton_solver.rs NewtonSolver::solve fn:calc_f=VxRes fn:calc_jj=VxJac vec:x_base
//@spec
    requires old(self).wf(),
    ensures
        final(x).data@.len() == old(x).data@.len(),
        ret is Ok ==> {
            &&& old(self).valid() && old(x).data@.len() == old(self).ndim
            // the residual of the returned state is within the tolerance
            &&& vx_r(final(x).data@).len() == old(self).ndim
            &&& all_below(vx_r(final(x).data@), old(self).tolerance@)
        },
        // a state that solves the equations is kept
        old(self).valid() && old(x).data@.len() == old(self).ndim && ret is Ok && all_below(vx_r(old(x).data@), old(self).tolerance@) && vx_r(old(x).data@).len() == old(self).ndim ==> final(x).data@ == old(x).data@,
        // the settings are kept
        final(self).wf(), final(self).tolerance == old(self).tolerance, final(self).max_iterations == old(self).max_iterations, final(self).ndim == old(self).ndim,
//@loop 0
        invariant
            self.wf(), self.valid(), x.data@.len() == self.ndim, self.ndim == old(self).ndim, self.ndim == old(x).data@.len(),
            self.tolerance == old(self).tolerance, self.max_iterations == old(self).max_iterations, old(self).valid(),
            self.r.data@ == vx_r(x.data@),
            forall|t: real| #![trigger all_below(self.r.data@, t)] residual_norm@ < t ==> all_below(self.r.data@, t),
            exists|i: int| 0 <= i < self.ndim && residual_norm@ == rabs((#[trigger] self.r.data@[i])@),
            it == 0 ==> x.data@ == old(x).data@,
            it > 0 ==> !all_below(vx_r(old(x).data@), self.tolerance@),
//@before stmt `calc_jj.call`
            proof {
                assert(!all_below(self.r.data@, self.tolerance@));
            }
//@loop 1
            invariant
                self.wf(), self.valid(), x.data@.len() == self.ndim, self.ndim == old(self).ndim, self.ndim == old(x).data@.len(),
                self.tolerance == old(self).tolerance, self.max_iterations == old(self).max_iterations, old(self).valid(),
                self.r.data@ == vx_r(x.data@),
                forall|k: int| 0 <= k < i ==> (#[trigger] self.p.data@[k])@ == -self.r.data@[k]@,
//@before stmt `solve_lin_sys`
            // right-hand side of the correction
            assert(forall|k: int| 0 <= k < self.ndim ==> (#[trigger] self.p.data@[k])@ == -self.r.data@[k]@);
//@loop 2
            invariant_except_break _vx_i > 0 ==> self.r.data@ == vx_r(x.data@),
            invariant
                self.wf(), self.valid(), x.data@.len() == self.ndim, self.ndim == old(self).ndim, self.ndim == old(x).data@.len(),
                self.tolerance == old(self).tolerance, self.max_iterations == old(self).max_iterations, old(self).valid(),
                x_base.data@.len() == self.ndim, 
            ensures self.r.data@ == vx_r(x.data@),
//@loop 3
            invariant
                self.wf(), self.valid(), x.data@.len() == self.ndim, self.ndim == old(self).ndim, self.ndim == old(x).data@.len(),
                self.tolerance == old(self).tolerance, self.max_iterations == old(self).max_iterations, old(self).valid(),
                x_base.data@.len() == self.ndim,
                forall|k: int| 0 <= k < i ==> (#[trigger] x.data@[k])@ == x_base.data@[k]@ + alpha@ * self.p.data@[k]@,
//@before loop 4
            let ghost x_old = x.data@;
//@loop 4
            invariant
                self.wf(), self.valid(), x.data@.len() == self.ndim, self.ndim == old(self).ndim, self.ndim == old(x).data@.len(),
                self.tolerance == old(self).tolerance, self.max_iterations == old(self).max_iterations, old(self).valid(),
                x_old.len() == self.ndim,
                forall|k: int| 0 <= k < i ==> (#[trigger] x.data@[k])@ == x_old[k]@ + self.p.data@[k]@,
                forall|k: int| i <= k < self.ndim ==> #[trigger] x.data@[k] == x_old[k],
//@after loop 4
            // full step
            assert(forall|k: int| 0 <= k < self.ndim ==> (#[trigger] x.data@[k])@ == x_old[k]@ + self.p.data@[k]@);
//@endfn

// ---------------------------------------------------------------- straight lines
pub open spec fn sum(x: Seq<R>, n: int) -> real
    decreases n
{ if n <= 0 { 0real } else { sum(x, n - 1) + x[n - 1]@ } }
pub open spec fn sum2(x: Seq<R>, y: Seq<R>, n: int) -> real
    decreases n
{ if n <= 0 { 0real } else { sum2(x, y, n - 1) + x[n - 1]@ * y[n - 1]@ } }
// sum of the squares of the distances from the line c + m x
pub open spec fn sse(x: Seq<R>, y: Seq<R>, c: real, m: real, n: int) -> real
    decreases n
{ if n <= 0 { 0real } else { sse(x, y, c, m, n - 1) + dist(x, y, c, m, n - 1) * dist(x, y, c, m, n - 1) } }
pub open spec fn dist(x: Seq<R>, y: Seq<R>, c: real, m: real, k: int) -> real { y[k]@ - c - m * x[k]@ }
proof fn lemma_terms(r: real, dc: real, dm: real, xk: real, yk: real, c: real, m: real)
    requires r == yk - c - m * xk
    ensures
        (yk - (c + dc) - (m + dm) * xk) * (yk - (c + dc) - (m + dm) * xk) == r * r - 2real * (r * (dc + dm * xk)) + (dc + dm * xk) * (dc + dm * xk),
        r * (dc + dm * xk) == dc * (yk - c - m * xk) + dm * (xk * yk - c * xk - m * (xk * xk)),
        (dc + dm * xk) * (dc + dm * xk) >= 0real,
{
    let d = dc + dm * xk;
    assert(yk - (c + dc) - (m + dm) * xk == r - d) by (nonlinear_arith) requires r == yk - c - m * xk, d == dc + dm * xk;
    assert((r - d) * (r - d) == r * r - 2real * (r * d) + d * d) by (nonlinear_arith);
    assert(d * d >= 0real) by (nonlinear_arith);
    assert(r * d == dc * r + (dm * xk) * r) by (nonlinear_arith) requires d == dc + dm * xk;
    assert((dm * xk) * r == dm * (xk * r)) by (nonlinear_arith);
    assert(xk * r == xk * yk - c * xk - m * (xk * xk)) by (nonlinear_arith) requires r == yk - c - m * xk;
}
proof fn lemma_sse(x: Seq<R>, y: Seq<R>, c: real, m: real, dc: real, dm: real, n: int)
    requires 0 <= n
    ensures
        sse(x, y, c + dc, m + dm, n) >= sse(x, y, c, m, n)
            - 2real * (dc * (sum(y, n) - (n as real) * c - m * sum(x, n)) + dm * (sum2(x, y, n) - c * sum(x, n) - m * sum2(x, x, n)))
    decreases n
{
    if n > 0 {
        lemma_sse(x, y, c, m, dc, dm, n - 1);
        let (xk, yk) = (x[n - 1]@, y[n - 1]@);
        let r = dist(x, y, c, m, n - 1);
        lemma_terms(r, dc, dm, xk, yk, c, m);
        let n1 = (n - 1) as real;
        assert(n as real == n1 + 1real);
        assert((n1 + 1real) * c == n1 * c + c) by (nonlinear_arith);
        let (sx, sy, sxy, sxx) = (sum(x, n - 1), sum(y, n - 1), sum2(x, y, n - 1), sum2(x, x, n - 1));
        assert(m * (sx + xk) == m * sx + m * xk) by (nonlinear_arith);
        assert(c * (sx + xk) == c * sx + c * xk) by (nonlinear_arith);
        assert(m * (sxx + xk * xk) == m * sxx + m * (xk * xk)) by (nonlinear_arith);
        let (p0, p1) = (sy - n1 * c - m * sx, yk - c - m * xk);
        let (q0, q1) = (sxy - c * sx - m * sxx, xk * yk - c * xk - m * (xk * xk));
        assert(dc * (p0 + p1) == dc * p0 + dc * p1) by (nonlinear_arith);
        assert(dm * (q0 + q1) == dm * q0 + dm * q1) by (nonlinear_arith);
        assert(2real * (dc * (p0 + p1) + dm * (q0 + q1)) == 2real * (dc * p0 + dm * q0) + 2real * (dc * p1 + dm * q1));
        assert(dist(x, y, c + dc, m + dm, n - 1) == yk - (c + dc) - (m + dm) * xk);
        assert(sum(y, n) - (n as real) * c - m * sum(x, n) == p0 + p1);
        assert(sum2(x, y, n) - c * sum(x, n) - m * sum2(x, x, n) == q0 + q1);
    } else {
        assert((n as real) * c == 0real) by (nonlinear_arith) requires n == 0;
        assert(m * 0real == 0real && c * 0real == 0real && dc * 0real == 0real && dm * 0real == 0real);
        assert(sum(y, n) - (n as real) * c - m * sum(x, n) == 0real);
        assert(sum2(x, y, n) - c * sum(x, n) - m * sum2(x, x, n) == 0real);
    }
}
// the normal equations make the sum of the squares smallest
proof fn lemma_best(x: Seq<R>, y: Seq<R>, c: real, m: real, n: int)
    requires 0 <= n, (n as real) * c + m * sum(x, n) == sum(y, n), c * sum(x, n) + m * sum2(x, x, n) == sum2(x, y, n)
    ensures forall|p: real, q: real| #[trigger] sse(x, y, p, q, n) >= sse(x, y, c, m, n)
{
    assert forall|p: real, q: real| #[trigger] sse(x, y, p, q, n) >= sse(x, y, c, m, n) by {
        lemma_sse(x, y, c, m, p - c, q - m, n);
        assert((p - c) * 0real == 0real && (q - m) * 0real == 0real);
    }
}
proof fn lemma_best_zero(x: Seq<R>, y: Seq<R>, m: real, n: int)
    requires 0 <= n, m * sum2(x, x, n) == sum2(x, y, n)
    ensures forall|q: real| #[trigger] sse(x, y, 0real, q, n) >= sse(x, y, 0real, m, n)
{
    assert forall|q: real| #[trigger] sse(x, y, 0real, q, n) >= sse(x, y, 0real, m, n) by {
        lemma_sse(x, y, 0real, m, 0real, q - m, n);
        assert((q - m) * 0real == 0real);
        assert(0real * (sum(y, n) - (n as real) * 0real - m * sum(x, n)) == 0real) by (nonlinear_arith);
        assert(0real * sum(x, n) == 0real) by (nonlinear_arith);
    }
}
pub open spec fn den(x: Seq<R>) -> real { sum(x, x.len() as int) * sum(x, x.len() as int) - (x.len() as real) * sum2(x, x, x.len() as int) }
proof fn lemma_cancel(u: real, v: real, d: real)
    requires u * d == v * d, d != 0real
    ensures u == v
{
    assert((u - v) * d == u * d - v * d) by (nonlinear_arith);
    assert(u - v == 0real) by (nonlinear_arith) requires (u - v) * d == 0real, d != 0real;
}
proof fn lemma_dist2(a: real, b: real, x: real, y: real, d: real)
    ensures (a * x + b * y) * d == a * (x * d) + b * (y * d)
{
    assert((a * x + b * y) * d == (a * x) * d + (b * y) * d) by (nonlinear_arith);
    assert((a * x) * d == a * (x * d)) by (nonlinear_arith);
    assert((b * y) * d == b * (y * d)) by (nonlinear_arith);
}
proof fn lemma_cross1(n: real, sx: real, sy: real, sxy: real, sxx: real)
    ensures n * (sx * sxy - sxx * sy) + sx * (sx * sy - n * sxy) == sy * (sx * sx - n * sxx)
{
    let (a, b, e, f) = (n * (sx * sxy), n * (sxx * sy), sx * (sx * sy), sx * (n * sxy));
    assert(n * (sx * sxy - sxx * sy) == a - b) by (nonlinear_arith) requires a == n * (sx * sxy), b == n * (sxx * sy);
    assert(sx * (sx * sy - n * sxy) == e - f) by (nonlinear_arith) requires e == sx * (sx * sy), f == sx * (n * sxy);
    assert(a == f) by (nonlinear_arith) requires a == n * (sx * sxy), f == sx * (n * sxy);
    assert(sy * (sx * sx - n * sxx) == e - b) by (nonlinear_arith) requires e == sx * (sx * sy), b == n * (sxx * sy);
}
proof fn lemma_cross2(n: real, sx: real, sy: real, sxy: real, sxx: real)
    ensures sx * (sx * sxy - sxx * sy) + sxx * (sx * sy - n * sxy) == sxy * (sx * sx - n * sxx)
{
    let (a, b, e, f) = (sx * (sx * sxy), sx * (sxx * sy), sxx * (sx * sy), sxx * (n * sxy));
    assert(sx * (sx * sxy - sxx * sy) == a - b) by (nonlinear_arith) requires a == sx * (sx * sxy), b == sx * (sxx * sy);
    assert(sxx * (sx * sy - n * sxy) == e - f) by (nonlinear_arith) requires e == sxx * (sx * sy), f == sxx * (n * sxy);
    assert(b == e) by (nonlinear_arith) requires b == sx * (sxx * sy), e == sxx * (sx * sy);
    assert(sxy * (sx * sx - n * sxx) == a - f) by (nonlinear_arith) requires a == sx * (sx * sxy), f == sxx * (n * sxy);
}
// the solution of the normal equations (opaque numerators)
proof fn lemma_solved(n: real, sx: real, sy: real, sxy: real, sxx: real, d: real, c: real, m: real, cn: real, mn: real)
    requires d != 0real, c * d == cn, m * d == mn, n * cn + sx * mn == sy * d, sx * cn + sxx * mn == sxy * d
    ensures n * c + sx * m == sy, sx * c + sxx * m == sxy
{
    lemma_dist2(n, sx, c, m, d);
    lemma_cancel(n * c + sx * m, sy, d);
    lemma_dist2(sx, sxx, c, m, d);
    lemma_cancel(sx * c + sxx * m, sxy, d);
}
proof fn lemma_comm(a: real, b: real)
    ensures a * b == b * a
{ assert(a * b == b * a) by (nonlinear_arith); }
proof fn lemma_normal(n: real, sx: real, sy: real, sxy: real, sxx: real, d: real, c: real, m: real)
    requires d == sx * sx - n * sxx, d != 0real, c == (sx * sxy - sxx * sy) / d, m == (sx * sy - n * sxy) / d
    ensures n * c + m * sx == sy, c * sx + m * sxx == sxy
{
    let (cn, mn) = (sx * sxy - sxx * sy, sx * sy - n * sxy);
    lemma_ratio(cn, d);
    lemma_ratio(mn, d);
    lemma_cross1(n, sx, sy, sxy, sxx);
    lemma_cross2(n, sx, sy, sxy, sxx);
    lemma_solved(n, sx, sy, sxy, sxx, d, c, m, cn, mn);
    lemma_comm(m, sx); lemma_comm(c, sx); lemma_comm(m, sxx);
}

//@fn russell_lab/src/algo/linear_fitting.rs linear_fitting
//@spec
    ensures
        ret is Ok <==> x@.len() == y@.len(),
        // the line of least squares
        ret is Ok && !pass_through_zero && den(x@) != 0real ==>
            forall|p: real, q: real| #[trigger] sse(x@, y@, p, q, x@.len() as int) >= sse(x@, y@, ret->Ok_0.0@, ret->Ok_0.1@, x@.len() as int),
        ret is Ok && pass_through_zero && sum2(x@, x@, x@.len() as int) != 0real ==>
            ret->Ok_0.0@ == 0real && forall|q: real| #[trigger] sse(x@, y@, 0real, q, x@.len() as int) >= sse(x@, y@, 0real, ret->Ok_0.1@, x@.len() as int),
//@loop 0
        invariant
            x@.len() == nn, y@.len() == nn,
            t_sum_x@ == sum(x@, i as int), t_sum_y@ == sum(y@, i as int),
            t_sum_xy@ == sum2(x@, y@, i as int), t_sum_xx@ == sum2(x@, x@, i as int),
//@end
    proof {
        let k = nn as int;
        if pass_through_zero {
            lemma_ratio(sum_xy@, sum_xx@);
            lemma_best_zero(x@, y@, m@, k);
        } else {
            lemma_normal(k as real, sum_x@, sum_y@, sum_xy@, sum_xx@, den(x@), c@, m@);
            lemma_best(x@, y@, c@, m@, k);
        }
    }
//@endfn

} // verus!
fn main() {}
