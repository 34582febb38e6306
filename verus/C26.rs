//@include inc_radau.rs

verus! {
// ---- assumed here, proved in C06: the numerical Jacobian gives the state back ----
#[verifier::external_body]
pub fn numerical_jacobian(jj: &mut VxCoo, ndim: usize, alpha: R, x: R, y: &mut NumVector, w1: &mut NumVector, w2: &mut NumVector, args: &mut VxArgs, f: &mut VxRhs) -> (ret: Result<(), StrError>)
    ensures final(y).data@.len() == old(y).data@.len(), final(w1).data@.len() == old(w1).data@.len(), final(w2).data@.len() == old(w2).data@.len(), ret is Ok ==> final(y).data@ == old(y).data@,
{ unimplemented!() }

pub open spec fn counters(a: Stats, b: Stats) -> bool {
    &&& a.n_function == b.n_function && a.n_jacobian == b.n_jacobian && a.n_factor == b.n_factor && a.n_lin_sol == b.n_lin_sol && a.n_steps == b.n_steps
    &&& a.n_accepted == b.n_accepted && a.n_rejected == b.n_rejected && a.n_iterations == b.n_iterations && a.n_iterations_max == b.n_iterations_max
}
//@fn russell_ode/src/stats.rs Stats::stop_sw_jacobian
//@spec
    ensures counters(*final(self), *old(self)),
//@endfn
//@fn russell_ode/src/stats.rs Stats::stop_sw_factor
//@spec
    ensures counters(*final(self), *old(self)),
//@endfn
//@fn russell_ode/src/stats.rs Stats::stop_sw_lin_sol
//@spec
    ensures counters(*final(self), *old(self)),
//@endfn
//@fn russell_ode/src/stats.rs Stats::update_n_iterations_max
//@spec
    ensures final(self).n_iterations_max == if old(self).n_iterations > old(self).n_iterations_max { old(self).n_iterations } else { old(self).n_iterations_max },
        final(self).n_iterations == old(self).n_iterations, final(self).n_accepted == old(self).n_accepted, final(self).n_function == old(self).n_function,
//@endfn

pub open spec fn scaled(v: real, v0: real, abs_tol: real, rel_tol: real) -> real { v * v / ((abs_tol + rel_tol * rabs(v0)) * (abs_tol + rel_tol * rabs(v0))) }
pub open spec fn ssum(v: Seq<R>, v0: Seq<R>, abs_tol: real, rel_tol: real, n: int) -> real
    decreases n
{ if n <= 0 { 0real } else { ssum(v, v0, abs_tol, rel_tol, n - 1) + scaled(v[n - 1]@, v0[n - 1]@, abs_tol, rel_tol) } }
// root mean square of the components divided by their scale
pub open spec fn rms(v: Seq<R>, v0: Seq<R>, abs_tol: real, rel_tol: real) -> real { if v.len() == 0 { 0real } else { rsqrt(ssum(v, v0, abs_tol, rel_tol, v.len() as int) / (v.len() as real)) } }
//@fn russell_lab/src/vector/vec_rms_scaled.rs vec_rms_scaled
//@spec
    requires v.data@.len() == v0.data@.len(), abs_tol@ > 0real, rel_tol@ > 0real,
    ensures ret@ == rms(v.data@, v0.data@, abs_tol@, rel_tol@), v.data@.len() > 0 ==> ret@ >= 0real && ret@ * ret@ == ssum(v.data@, v0.data@, abs_tol@, rel_tol@, v.data@.len() as int) / (v.data@.len() as real),
//@loop 0
        invariant m == v.data@.len(), v.data@.len() == v0.data@.len(), abs_tol@ > 0real, rel_tol@ > 0real, sum@ == ssum(v.data@, v0.data@, abs_tol@, rel_tol@, i as int), sum@ >= 0real,
//@after stmt `let den`
            proof {
                let (a, b, c) = (rel_tol@, rabs(v0.data@[i as int]@), den@);
                assert(a * b >= 0real) by (nonlinear_arith) requires a > 0real, b >= 0real;
                assert(c * c > 0real) by (nonlinear_arith) requires c > 0real;
                let (p, d) = (v.data@[i as int]@, c * c);
                assert(p * p >= 0real) by (nonlinear_arith);
                let s = p * p;
                assert(s / d >= 0real) by (nonlinear_arith) requires s >= 0real, d > 0real;
            }
//@after loop 0
    proof { let (a, b) = (sum@, m as real); assert(a / b >= 0real) by (nonlinear_arith) requires a >= 0real, b >= 1real; }
//@endfn

//@struct russell_ode/src/euler_backward.rs EulerBackward system:VxSysJ kk:VxCoo solver:VxLs
impl EulerBackward {
    pub open spec fn wf(&self) -> bool {
        &&& self.system.ndim >= 1 && self.k.data@.len() == self.system.ndim && self.w.data@.len() == self.system.ndim && self.r.data@.len() == self.system.ndim && self.dy.data@.len() == self.system.ndim
        &&& self.params.tol.abs@ > 0real && self.params.tol.rel@ > 0real
    }
    pub open spec fn same(&self, o: &EulerBackward) -> bool { self.params == o.params && self.system.ndim == o.system.ndim && self.system.jacobian == o.system.jacobian }
}
// the residual of the implicit equation
pub open spec fn residual(r: Seq<R>, w: Seq<R>, k: Seq<R>, y: Seq<R>, h: real, n: int) -> bool { r.len() == y.len() && forall|i: int| 0 <= i < n ==> (#[trigger] r[i])@ == w[i]@ - y[i]@ - h * k[i]@ }
// w solves w = y + h f(x + h, w) to the Newton tolerance
pub open spec fn solved(w: Seq<R>, x: real, y: Seq<R>, h: real, t: ParamsTol) -> bool {
    exists|r: Seq<R>| #[trigger] residual(r, w, vx_rhs(x + h, w), y, h, y.len() as int) && rms(r, y, t.abs@, t.rel@) < t.newton@
}
//@fn russell_ode/src/euler_backward.rs <OdeSolverTrait for EulerBackward>::step
//@spec
    requires old(self).wf(), y.data@.len() == old(self).system.ndim, h@ > 0real, forall|a: real, b: Seq<R>| (#[trigger] vx_rhs(a, b)).len() == b.len(),
        old(work).stats.n_function + (old(self).system.ndim + 1) * old(self).params.newton.n_iteration_max < usize::MAX,
        old(work).stats.n_jacobian + old(self).params.newton.n_iteration_max < usize::MAX, old(work).stats.n_factor + old(self).params.newton.n_iteration_max < usize::MAX, old(work).stats.n_lin_sol + old(self).params.newton.n_iteration_max < usize::MAX,
    ensures
        ret is Ok ==> {
            &&& final(self).wf() && final(self).same(old(self))
            &&& solved(final(self).w.data@, x@, y.data@, h@, old(self).params.tol)
            &&& 1 <= final(work).stats.n_iterations <= old(self).params.newton.n_iteration_max
            &&& final(work).stats.n_accepted == old(work).stats.n_accepted
        },
//@loop 0
            invariant_except_break !success, work.stats.n_function <= old(work).stats.n_function + (ndim + 1) * _vx_i,
            invariant
                self.params == old(self).params, self.system.ndim == old(self).system.ndim, self.system.jacobian == old(self).system.jacobian, ndim == self.system.ndim, x_new@ == x@ + h@, old(self).wf(), h@ > 0real,
                self.k.data@.len() == ndim, y_new.data@.len() == ndim, self.r.data@.len() == ndim, self.dy.data@.len() == ndim, y.data@.len() == ndim, forall|a: real, b: Seq<R>| (#[trigger] vx_rhs(a, b)).len() == b.len(),
                work.stats.n_iterations <= _vx_i, work.stats.n_accepted == old(work).stats.n_accepted,
                old(work).stats.n_function + (ndim + 1) * self.params.newton.n_iteration_max < usize::MAX,
                work.stats.n_jacobian <= old(work).stats.n_jacobian + _vx_i, old(work).stats.n_jacobian + self.params.newton.n_iteration_max < usize::MAX,
                work.stats.n_factor <= old(work).stats.n_factor + _vx_i, old(work).stats.n_factor + self.params.newton.n_iteration_max < usize::MAX,
                work.stats.n_lin_sol <= old(work).stats.n_lin_sol + _vx_i, old(work).stats.n_lin_sol + self.params.newton.n_iteration_max < usize::MAX,
            ensures success ==> solved(y_new.data@, x@, y.data@, h@, self.params.tol) && 1 <= work.stats.n_iterations <= self.params.newton.n_iteration_max,
//@loop 0 start
            proof {
                let (d, a, b) = (ndim + 1, _vx_i as int, self.params.newton.n_iteration_max as int);
                assert(d * (a + 1) == d * a + d) by (nonlinear_arith);
                assert(d * (a + 1) <= d * b) by (nonlinear_arith) requires a + 1 <= b, d >= 1;
            }
//@loop 1
                invariant ndim == self.system.ndim, self.params == old(self).params, self.k.data@.len() == ndim, y_new.data@.len() == ndim, self.r.data@.len() == ndim, self.dy.data@.len() == ndim, y.data@.len() == ndim,
                    residual(self.r.data@, y_new.data@, self.k.data@, y.data@, h@, i as int), self.k.data@ == vx_rhs(x_new@, y_new.data@), self.system.jacobian == old(self).system.jacobian,
//@loop 2
                    invariant true,
//@endfn
//@fn russell_ode/src/euler_backward.rs <OdeSolverTrait for EulerBackward>::accept
//@spec
    requires old(y).data@.len() == old(self).w.data@.len(),
    ensures ret is Ok, final(x)@ == old(x)@ + h@, final(y).data@ == old(self).w.data@, *final(self) == *old(self),
//@endfn
// ---- Radau ----
// assumed: assembling the matrices keeps the sizes and does not touch the accepted values; factorising only changes the solvers
pub open spec fn assembled(a: &Radau5, b: &Radau5, v: &Workspace, w: &Workspace) -> bool {
    &&& a.wf() && a.same(b) && a.k_accepted == b.k_accepted && a.scaling == b.scaling && a.yc0 == b.yc0 && a.yc1 == b.yc1 && a.yc2 == b.yc2 && a.eta == b.eta && a.theta == b.theta
    &&& v.stats.n_accepted == w.stats.n_accepted && v.follows_reject_step == w.follows_reject_step && v.h_prev == w.h_prev && v.stats.n_function <= w.stats.n_function + b.system.ndim
    &&& v.stats.n_factor == w.stats.n_factor && v.stats.n_lin_sol == w.stats.n_lin_sol
}
impl Radau5 {
    #[verifier::external_body]
    pub fn assemble(&mut self, work: &mut Workspace, x: R, y: &NumVector, h: R, args: &mut VxArgs) -> (ret: Result<(), StrError>)
        requires old(self).wf() ensures assembled(final(self), old(self), final(work), old(work))
    { unimplemented!() }
    // assumed: the concurrent forms do what the serial ones do
    #[verifier::external_body]
    pub fn factorize_concurrently(&mut self) -> (ret: Result<(), StrError>)
        ensures final(self).only_solvers(old(self))
    { unimplemented!() }
    #[verifier::external_body]
    pub fn solve_lin_sys_concurrently(&mut self) -> (ret: Result<(), StrError>)
        ensures final(self).only_solution(old(self)), ret is Ok ==> final(self).dw0.data@ == vx_sol(old(self).solver_real.actual.mat@, old(self).v0.data@) && final(self).dw12.data@ == vx_csol(old(self).solver_comp.actual.mat@, old(self).v12.data@)
    { unimplemented!() }
    pub open spec fn only_solvers(&self, o: &Radau5) -> bool { *self == (Radau5 { solver_real: self.solver_real, solver_comp: self.solver_comp, ..*o }) }
    pub open spec fn only_solution(&self, o: &Radau5) -> bool {
        &&& self.dw0.data@.len() == o.dw0.data@.len() && self.dw12.data@.len() == o.dw12.data@.len() && self.solver_real.actual.mat == o.solver_real.actual.mat && self.solver_comp.actual.mat == o.solver_comp.actual.mat
        &&& *self == (Radau5 { solver_real: self.solver_real, solver_comp: self.solver_comp, dw0: self.dw0, dw12: self.dw12, ..*o })
    }
}
//@fn russell_ode/src/radau5.rs Radau5::factorize
//@spec
    ensures final(self).only_solvers(old(self)),
//@endfn
//@fn russell_ode/src/radau5.rs Radau5::solve_lin_sys
//@spec
    ensures final(self).only_solution(old(self)), ret is Ok ==> final(self).dw0.data@ == vx_sol(old(self).solver_real.actual.mat@, old(self).v0.data@) && final(self).dw12.data@ == vx_csol(old(self).solver_comp.actual.mat@, old(self).v12.data@),
//@endfn
pub open spec fn rsum(e: Seq<R>, s: Seq<R>, n: int) -> real
    decreases n
{ if n <= 0 { 0real } else { rsum(e, s, n - 1) + sq(e[n - 1]@ / s[n - 1]@) } }
pub open spec fn sq(x: real) -> real { x * x }
#[verifier::opaque]
pub open spec fn rnorm(e: Seq<R>, s: Seq<R>) -> real { rmax(1real / 10000000000real, rsqrt(rsum(e, s, e.len() as int) / ireal(e.len() as int))) }
pub open spec fn positive(s: Seq<R>, n: int) -> bool { s.len() == n && forall|i: int| 0 <= i < n ==> (#[trigger] s[i])@ > 0real }
pub proof fn lemma_sq(x: real)
    ensures sq(x) >= 0real
{ assert(x * x >= 0real) by (nonlinear_arith); }
pub proof fn lemma_div(a: real, b: real)
    requires a >= 0real, b > 0real
    ensures a / b >= 0real
{ assert(a / b >= 0real) by (nonlinear_arith) requires a >= 0real, b > 0real; }
//@fn russell_ode/src/radau5.rs rms_norm
//@spec
    requires err.data@.len() >= 1, positive(scaling.data@, err.data@.len() as int),
    ensures ret@ == rnorm(err.data@, scaling.data@), ret@ > 0real,
//@loop 0
        invariant ndim == err.data@.len(), positive(scaling.data@, ndim as int), sum@ == rsum(err.data@, scaling.data@, m as int), sum@ >= 0real,
//@loop 0 end
        proof { lemma_sq(ratio@); }
//@after loop 0
    proof { reveal(rnorm); lemma_div(sum@, ireal(ndim as int)); }
//@endfn

// one Newton iteration: start, points of evaluation, right-hand sides of the linear systems, corrections, new values
pub ghost struct It { pub w0: Seq<R>, pub w1: Seq<R>, pub w2: Seq<R>, pub z0: Seq<R>, pub z1: Seq<R>, pub z2: Seq<R>, pub e0: Seq<R>, pub e1: Seq<R>, pub e2: Seq<R>,
    pub l0: Seq<R>, pub l1: Seq<R>, pub l2: Seq<R>, pub r0: Seq<R>, pub rc: Seq<VxC>, pub d0: Seq<R>, pub dc: Seq<VxC> }
pub open spec fn c(i: int) -> real { C_spec()@[i]@ }
pub open spec fn t(i: int, j: int) -> real { T_spec()@[i]@[j]@ }
pub open spec fn ti(i: int, j: int) -> real { TI_spec()@[i]@[j]@ }
pub open spec fn tik(it: It, x: real, h: real, i: int, m: int) -> real {
    ti(i, 0) * vx_rhs(x + c(0) * h, it.e0)[m]@ + ti(i, 1) * vx_rhs(x + c(1) * h, it.e1)[m]@ + ti(i, 2) * vx_rhs(x + c(2) * h, it.e2)[m]@
}
// the functions are evaluated at the three collocation points of the state before the correction
pub open spec fn it_points(it: It, y: Seq<R>, n: int) -> bool {
    forall|m: int| 0 <= m < n ==> (#[trigger] it.e0[m])@ == y[m]@ + it.z0[m]@ && it.e1[m]@ == y[m]@ + it.z1[m]@ && it.e2[m]@ == y[m]@ + it.z2[m]@
}
// the mass matrix times the transformed unknowns
pub open spec fn it_mass(it: It, mass: Option<VxMass>) -> bool {
    if mass is Some { it.l0 == vx_mass(1real, it.w0) && it.l1 == vx_mass(1real, it.w1) && it.l2 == vx_mass(1real, it.w2) } else { it.l0 == it.w0 && it.l1 == it.w1 && it.l2 == it.w2 }
}
// residual of the transformed collocation equations
pub open spec fn it_res(it: It, x: real, h: real, n: int) -> bool {
    forall|m: int| 0 <= m < n ==> {
        &&& (#[trigger] it.r0[m])@ == tik(it, x, h, 0, m) - (GAMMA_spec() / h) * it.l0[m]@
        &&& it.rc[m].re@ == tik(it, x, h, 1, m) - (ALPHA_spec() / h) * it.l1[m]@ + (BETA_spec() / h) * it.l2[m]@
        &&& it.rc[m].im@ == tik(it, x, h, 2, m) - (BETA_spec() / h) * it.l1[m]@ - (ALPHA_spec() / h) * it.l2[m]@
    }
}
// the values after the correction
pub open spec fn it_new(it: It, z0: Seq<R>, z1: Seq<R>, z2: Seq<R>, n: int) -> bool {
    forall|m: int| 0 <= m < n ==> {
        let (a, b, d) = (it.w0[m]@ + it.d0[m]@, it.w1[m]@ + it.dc[m].re@, it.w2[m]@ + it.dc[m].im@);
        &&& (#[trigger] z0[m])@ == t(0, 0) * a + t(0, 1) * b + t(0, 2) * d && z1[m]@ == t(1, 0) * a + t(1, 1) * b + t(1, 2) * d && z2[m]@ == t(2, 0) * a + t(2, 1) * b + t(2, 2) * d
    }
}
pub open spec fn dsum(it: It, s: Seq<R>, n: int) -> real
    decreases n
{ if n <= 0 { 0real } else { dsum(it, s, n - 1) + (sq(it.d0[n - 1]@ / s[n - 1]@) + sq(it.dc[n - 1].re@ / s[n - 1]@) + sq(it.dc[n - 1].im@ / s[n - 1]@)) } }
pub open spec fn dnorm(it: It, s: Seq<R>, n: int) -> real { rsqrt(dsum(it, s, n) / (3real * ireal(n))) }
// the values of the solver the result depends on
pub ghost struct Rv { pub n: int, pub mass: Option<VxMass>, pub mat: int, pub cmat: int, pub z0: Seq<R>, pub z1: Seq<R>, pub z2: Seq<R>, pub sc: Seq<R>, pub f0: Seq<R>, pub eta: real, pub tol: real }
impl Radau5 {
    pub open spec fn rv(&self) -> Rv {
        Rv { n: self.system.ndim as int, mass: self.mass, mat: self.solver_real.actual.mat@, cmat: self.solver_comp.actual.mat@, z0: self.z0.data@, z1: self.z1.data@, z2: self.z2.data@, sc: self.scaling.data@, f0: self.k_accepted.data@, eta: self.eta@, tol: self.params.tol.newton@ }
    }
}
pub open spec fn it_ok(it: It, r: Rv, x: real, y: Seq<R>, h: real) -> bool {
    let n = r.n;
    &&& it_points(it, y, n) && it_mass(it, r.mass) && it_res(it, x, h, n)
    &&& it.d0 == vx_sol(r.mat, it.r0) && it.dc == vx_csol(r.cmat, it.rc)
    &&& it_new(it, r.z0, r.z1, r.z2, n)
}
pub open spec fn e_of(r: Rv, m: int) -> real { E0_spec() * r.z0[m]@ + E1_spec() * r.z1[m]@ + E2_spec() * r.z2[m]@ }
#[verifier::opaque]
pub open spec fn conv(it: It, r: Rv, x: real, y: Seq<R>, h: real) -> bool { it_ok(it, r, x, y, h) && r.eta * dnorm(it, r.sc, r.n) < r.tol }
pub open spec fn still(a: &Radau5, b: &Radau5) -> bool {
    a.wf() && a.same(b) && a.k_accepted == b.k_accepted && a.scaling == b.scaling && a.solver_real.actual.mat == b.solver_real.actual.mat && a.solver_comp.actual.mat == b.solver_comp.actual.mat
}
pub open spec fn kept(a: &Radau5, b: &Radau5) -> bool {
    still(a, b) && a.w0 == b.w0 && a.w1 == b.w1 && a.w2 == b.w2 && a.z0 == b.z0 && a.z1 == b.z1 && a.z2 == b.z2 && a.eta == b.eta && a.theta == b.theta
}
// the values used by the error estimate
pub ghost struct Est { pub ez: Seq<R>, pub mz: Seq<R>, pub r: Seq<R>, pub ye: Seq<R>, pub r2: Seq<R> }
pub open spec fn mez_ok(es: Est, r: Rv, h: real, n: int) -> bool {
    &&& forall|m: int| 0 <= m < n ==> (#[trigger] es.ez[m])@ == e_of(r, m)
    &&& if r.mass is Some { es.mz == vx_mass(GAMMA_spec() / h, es.ez) } else { forall|m: int| 0 <= m < n ==> (#[trigger] es.mz[m])@ == (GAMMA_spec() / h) * es.ez[m]@ }
}
pub open spec fn sum_of(r: Seq<R>, a: Seq<R>, b: Seq<R>, n: int) -> bool { r.len() >= n && forall|m: int| 0 <= m < n ==> (#[trigger] r[m])@ == a[m]@ + b[m]@ }
// the estimate: K_real⁻¹ (γ M (e z) + f), f the slope at the start; repeated once with the slope at y + estimate
// when the first estimate is too large in the first step or after a rejection
pub open spec fn est1(es: Est, r: Rv, h: real, rel_error: real) -> bool { mez_ok(es, r, h, r.n) && sum_of(es.r, es.mz, r.f0, r.n) && rel_error == rnorm(vx_sol(r.mat, es.r), r.sc) }
pub open spec fn est2(es: Est, r: Rv, x: real, y: Seq<R>, e: Seq<R>, rel_error: real) -> bool {
    e == vx_sol(r.mat, es.r) && sum_of(es.ye, y, e, r.n) && sum_of(es.r2, es.mz, vx_rhs(x, es.ye), r.n) && rel_error == rnorm(vx_sol(r.mat, es.r2), r.sc)
}
#[verifier::opaque]
pub open spec fn est_ok(es: Est, r: Rv, x: real, y: Seq<R>, h: real, w: &Workspace, rel_error: real) -> bool {
    let again = w.stats.n_accepted == 0 || w.follows_reject_step;
    let e = vx_sol(r.mat, es.r);
    let first = rnorm(e, r.sc);
    &&& est1(es, r, h, first)
    &&& if first < 1real || !again { rel_error == first } else { est2(es, r, x, y, e, rel_error) }
}
pub proof fn lemma_est1(es: Est, r: Rv, x: real, y: Seq<R>, h: real, w: &Workspace, rel_error: real)
    requires est1(es, r, h, rel_error)
    ensures rel_error < 1real || !(w.stats.n_accepted == 0 || w.follows_reject_step) ==> est_ok(es, r, x, y, h, w, rel_error)
{ reveal(est_ok); }
pub proof fn lemma_est2(es: Est, r: Rv, x: real, y: Seq<R>, h: real, w: &Workspace, first: real, rel_error: real)
    requires est1(es, r, h, first), first >= 1real, w.stats.n_accepted == 0 || w.follows_reject_step, est2(es, r, x, y, vx_sol(r.mat, es.r), rel_error)
    ensures est_ok(es, r, x, y, h, w, rel_error)
{ reveal(est_ok); }
pub proof fn lemma_scale(t: ParamsTol, y: Seq<R>, s: Seq<R>)
    requires t.abs@ > 0real, t.rel@ > 0real, scale_of(t, y, s)
    ensures positive(s, y.len() as int)
{
    assert forall|i: int| 0 <= i < y.len() implies (#[trigger] s[i])@ > 0real by { let (a, b) = (t.rel@, rabs(y[i]@)); assert(a * b >= 0real) by (nonlinear_arith) requires a > 0real, b >= 0real; }
}
pub proof fn lemma_pos(a: real, b: real)
    requires a * b > 0real, b >= 0real
    ensures b > 0real
{ if b == 0real { assert(a * b == 0real) by (nonlinear_arith) requires b == 0real; } }
pub proof fn lemma_neg(d: real)
    requires d > 0real
    ensures -1real / d <= 0real
{ assert(-1real / d <= 0real) by (nonlinear_arith) requires d > 0real; }
pub proof fn lemma_mul(a: real, b: real)
    requires a >= 0real, b >= 0real
    ensures a * b >= 0real
{ assert(a * b >= 0real) by (nonlinear_arith) requires a >= 0real, b >= 0real; }

//@fn russell_ode/src/radau5.rs <OdeSolverTrait for Radau5>::step vec:l0,l1,l2,k0,k1,k2
//@attr
#[verifier::rlimit(100)]
#[verifier::spinoff_prover]
//@spec
    requires old(self).wf(), y.data@.len() == old(self).system.ndim, h@ > 0real,
        old(work).stats.n_accepted > 0 ==> positive(old(self).scaling.data@, old(self).system.ndim as int) && old(work).h_prev@ > 0real,
        old(work).stats.n_function + old(self).system.ndim + 3 * old(self).params.newton.n_iteration_max + 2 < usize::MAX, old(work).stats.n_factor < usize::MAX, old(work).stats.n_lin_sol + old(self).params.newton.n_iteration_max < usize::MAX,
        old(self).params.newton.n_iteration_max < usize::MAX - 4,
    ensures
        ret is Ok ==> final(self).wf() && final(self).same(old(self)) && final(work).stats.n_accepted == old(work).stats.n_accepted && 1 <= final(work).stats.n_iterations <= old(self).params.newton.n_iteration_max,
        ret is Ok && final(work).iterations_diverging ==> 0real < final(work).h_multiplier_diverging@ < 1real,
        ret is Ok && !final(work).iterations_diverging ==> {
            &&& exists|it: It| #[trigger] conv(it, final(self).rv(), x@, y.data@, h@)
            &&& exists|es: Est| #[trigger] est_ok(es, final(self).rv(), x@, y.data@, h@, old(work), final(work).rel_error@)
            &&& final(work).rel_error@ > 0real
            &&& if old(work).stats.n_accepted == 0 { scale_of(old(self).params.tol, y.data@, final(self).scaling.data@) && final(self).k_accepted.data@ == vx_rhs(x@, y.data@) } else { final(self).scaling == old(self).scaling && final(self).k_accepted == old(self).k_accepted }
        },
//@before stmt `if work.stats.n_steps == 1`
        proof { if old(work).stats.n_accepted == 0 { lemma_scale(self.params.tol, y.data@, self.scaling.data@); } }
        let ghost s0 = *self;
//@before stmt `if self.reuse_jacobian_kk_and_fact` #1
        // (a loop that is left after its first pass: the statement gets a contract of its own)
        loop
            invariant_except_break work.stats.n_function + ndim + 3 * self.params.newton.n_iteration_max + 1 < usize::MAX, work.stats.n_factor < usize::MAX,
            invariant self.wf(), self.same(old(self)), old(self).wf(), y.data@.len() == old(self).system.ndim, h@ > 0real, work.stats.n_accepted == old(work).stats.n_accepted, work.follows_reject_step == old(work).follows_reject_step, work.h_prev == old(work).h_prev, work.stats.n_lin_sol == old(work).stats.n_lin_sol, self.k_accepted == s0.k_accepted, self.scaling == s0.scaling, ndim == self.system.ndim,
            ensures work.stats.n_function + 3 * self.params.newton.n_iteration_max + 1 < usize::MAX,
            decreases 1int,
        {
//@after stmt `if self.reuse_jacobian_kk_and_fact` #1
            break;
        }
//@before stmt `if work.stats.n_accepted == 0 || self.params.radau5.zero_trial`
        loop
            invariant_except_break self.yc0 == s1.yc0, self.yc1 == s1.yc1, self.yc2 == s1.yc2,
            invariant still(self, &s1), ndim == self.system.ndim, self.eta == s1.eta, h@ > 0real, work.stats.n_accepted > 0 ==> work.h_prev@ > 0real,
            ensures true,
            decreases 1int,
        {
//@after stmt `if work.stats.n_accepted == 0 || self.params.radau5.zero_trial`
            break;
        }
//@loop 0
                invariant still(self, &s1), ndim == self.system.ndim, self.eta == s1.eta,
//@loop 1
                invariant still(self, &s1), ndim == self.system.ndim, self.yc0 == s1.yc0, self.yc1 == s1.yc1, self.yc2 == s1.yc2, self.eta == s1.eta,
//@before stmt `let u0`
        let ghost s1 = *self;
//@loop 2 iter vit
//@loop 2
            invariant_except_break !success, work.stats.n_iterations == _vx_i, _vx_i >= 1 ==> ldw_old@ > 0real,
            invariant vit.iter.end == self.params.newton.n_iteration_max, still(self, &s1), ndim == self.system.ndim, y.data@.len() == ndim, positive(s1.scaling.data@, ndim as int), thq_old@ >= 0real, work.stats.n_iterations <= self.params.newton.n_iteration_max,
                self.params == old(self).params, self.params.newton.n_iteration_max < usize::MAX - 4, dim@ == ireal(ndim as int), alpha@ == ALPHA_spec() / h@, beta@ == BETA_spec() / h@, gamma@ == GAMMA_spec() / h@,
                u0@ == x@ + c(0) * h@, u1@ == x@ + c(1) * h@, u2@ == x@ + c(2) * h@, !work.iterations_diverging,
                work.stats.n_function + 3 * (self.params.newton.n_iteration_max - work.stats.n_iterations) + 1 < usize::MAX, work.stats.n_lin_sol + self.params.newton.n_iteration_max - work.stats.n_iterations < usize::MAX,
                work.stats.n_accepted == old(work).stats.n_accepted, work.follows_reject_step == old(work).follows_reject_step, s1.same(old(self)),
            ensures success ==> (work.stats.n_iterations >= 1 && exists|it: It| #[trigger] conv(it, self.rv(), x@, y.data@, h@)),
//@loop 2 start
            let ghost s2 = *self;
//@loop 3
                invariant kept(self, &s2), ndim == self.system.ndim, y.data@.len() == ndim,
                    forall|q: int| 0 <= q < m ==> (#[trigger] self.v0.data@[q])@ == y.data@[q]@ + self.z0.data@[q]@,
                    forall|q: int| 0 <= q < m ==> (#[trigger] self.v1.data@[q])@ == y.data@[q]@ + self.z1.data@[q]@,
                    forall|q: int| 0 <= q < m ==> (#[trigger] self.v2.data@[q])@ == y.data@[q]@ + self.z2.data@[q]@,
//@after loop 3
            let ghost e0 = self.v0.data@;
            let ghost e1 = self.v1.data@;
            let ghost e2 = self.v2.data@;
//@after stmt `let (l0, l1, l2)`
            let ghost g0 = l0.data@;
            let ghost g1 = l1.data@;
            let ghost g2 = l2.data@;
//@loop 4
                invariant kept(self, &s2), ndim == self.system.ndim, k0.data@ == vx_rhs(u0@, e0), k1.data@ == vx_rhs(u1@, e1), k2.data@ == vx_rhs(u2@, e2), k0.data@.len() == ndim, k1.data@.len() == ndim, k2.data@.len() == ndim,
                    l0.data@ == g0, l1.data@ == g1, l2.data@ == g2, g0.len() == ndim, g1.len() == ndim, g2.len() == ndim,
                    forall|q: int| 0 <= q < m ==> (#[trigger] self.v0.data@[q])@ == ti(0, 0) * k0.data@[q]@ + ti(0, 1) * k1.data@[q]@ + ti(0, 2) * k2.data@[q]@ - gamma@ * g0[q]@,
                    forall|q: int| 0 <= q < m ==> (#[trigger] self.v1.data@[q])@ == ti(1, 0) * k0.data@[q]@ + ti(1, 1) * k1.data@[q]@ + ti(1, 2) * k2.data@[q]@ - alpha@ * g1[q]@ + beta@ * g2[q]@,
                    forall|q: int| 0 <= q < m ==> (#[trigger] self.v2.data@[q])@ == ti(2, 0) * k0.data@[q]@ + ti(2, 1) * k1.data@[q]@ + ti(2, 2) * k2.data@[q]@ - beta@ * g1[q]@ - alpha@ * g2[q]@,
//@before loop 5
            let ghost s4 = *self;
            let ghost it = It { w0: s2.w0.data@, w1: s2.w1.data@, w2: s2.w2.data@, z0: s2.z0.data@, z1: s2.z1.data@, z2: s2.z2.data@, e0, e1, e2, l0: g0, l1: g1, l2: g2, r0: self.v0.data@, rc: self.v12.data@, d0: self.dw0.data@, dc: self.dw12.data@ };
//@loop 5
                invariant still(self, &s4), ndim == self.system.ndim, self.dw0 == s4.dw0, self.dw12 == s4.dw12, self.eta == s4.eta, self.theta == s4.theta,
                    forall|q: int| m <= q < ndim ==> (#[trigger] self.w0.data@[q]) == s2.w0.data@[q],
                    forall|q: int| m <= q < ndim ==> (#[trigger] self.w1.data@[q]) == s2.w1.data@[q],
                    forall|q: int| m <= q < ndim ==> (#[trigger] self.w2.data@[q]) == s2.w2.data@[q],
                    it.d0 == self.dw0.data@, it.dc == self.dw12.data@, it.w0 == s2.w0.data@, it.w1 == s2.w1.data@, it.w2 == s2.w2.data@,
                    it_new(it, self.z0.data@, self.z1.data@, self.z2.data@, m as int),
//@loop 6
                invariant still(self, &s4), ndim == self.system.ndim, it.d0 == self.dw0.data@, it.dc == self.dw12.data@, positive(self.scaling.data@, ndim as int), ldw@ == dsum(it, self.scaling.data@, m as int), ldw@ >= 0real,
//@loop 6 end
                proof { lemma_sq(ratio0@); lemma_sq(ratio1@); lemma_sq(ratio2@); }
//@before stmt `ldw = ` #1
            proof { assert(ireal(ndim as int) >= 1real); lemma_div(ldw@, 3real * dim@); }
//@before stmt `self.theta = ` #2
                    proof { lemma_mul(thq@, thq_old@); }
//@after stmt `let thq = `
                proof { lemma_div(ldw@, ldw_old@); }
//@after stmt `let den = `
                        proof { lemma_neg(den@); }
//@before stmt `if work.rel_error < `
        proof { assert(est1(es, s5.rv(), h@, work.rel_error@)); lemma_est1(es, s5.rv(), x@, y.data@, h@, old(work), work.rel_error@); assert(conv(itf, s5.rv(), x@, y.data@, h@)); }
        let ghost first = work.rel_error@;
//@before stmt `ldw_old = ldw`
            proof { reveal(conv); if self.eta@ * ldw@ >= self.params.tol.newton@ { lemma_pos(self.eta@, ldw@); } assert(self.eta@ * ldw@ < self.params.tol.newton@ ==> conv(it, self.rv(), x@, y.data@, h@)); }
//@before stmt `let ez`
        let ghost s5 = *self;
        let ghost itf = choose|it: It| #[trigger] conv(it, s5.rv(), x@, y.data@, h@);
//@before stmt `match self.mass.as_ref()`
        loop
            invariant self.z0 == s5.z0, self.z1 == s5.z1, self.z2 == s5.z2, self.k_accepted == s5.k_accepted, self.mass == s5.mass, ndim == s5.system.ndim, s5.wf(), ez.data@.len() == ndim, mez.data@.len() == ndim, rhs.data@.len() == ndim, gamma@ == GAMMA_spec() / h@,
            ensures mez_ok(Est { ez: ez.data@, mz: mez.data@, r: rhs.data@, ye: rhs.data@, r2: rhs.data@ }, s5.rv(), h@, ndim as int), sum_of(rhs.data@, mez.data@, s5.k_accepted.data@, ndim as int),
            decreases 1int,
        {
//@after stmt `match self.mass.as_ref()`
            break;
        }
//@loop 7
                    invariant ez.data@.len() == ndim, self.z0.data@.len() == ndim, self.z1.data@.len() == ndim, self.z2.data@.len() == ndim, forall|q: int| 0 <= q < m ==> (#[trigger] ez.data@[q])@ == e_of(s5.rv(), q), self.z0 == s5.z0, self.z1 == s5.z1, self.z2 == s5.z2,
//@loop 8
                    invariant mez.data@.len() == ndim, rhs.data@.len() == ndim, self.k_accepted == s5.k_accepted, self.k_accepted.data@.len() == ndim, sum_of(rhs.data@, mez.data@, self.k_accepted.data@, m as int),
//@loop 9
                    invariant ez.data@.len() == ndim, mez.data@.len() == ndim, rhs.data@.len() == ndim, self.z0.data@.len() == ndim, self.z1.data@.len() == ndim, self.z2.data@.len() == ndim, forall|q: int| 0 <= q < m ==> (#[trigger] ez.data@[q])@ == e_of(s5.rv(), q), self.z0 == s5.z0, self.z1 == s5.z1, self.z2 == s5.z2,
                        self.k_accepted == s5.k_accepted, self.k_accepted.data@.len() == ndim, sum_of(rhs.data@, mez.data@, self.k_accepted.data@, m as int), gamma@ == GAMMA_spec() / h@,
                        forall|q: int| 0 <= q < m ==> (#[trigger] mez.data@[q])@ == (GAMMA_spec() / h@) * ez.data@[q]@,
//@before stmt `self.solver_real.actual.solve(err, rhs, false)?`
        let ghost mut es = Est { ez: ez.data@, mz: mez.data@, r: rhs.data@, ye: rhs.data@, r2: rhs.data@ };
//@loop 10
                invariant ype.data@.len() == ndim, err.data@.len() == ndim, y.data@.len() == ndim, sum_of(ype.data@, y.data@, err.data@, m as int),
//@loop 11
                invariant fpe.data@.len() == ndim, mez.data@.len() == ndim, rhs.data@.len() == ndim, sum_of(rhs.data@, mez.data@, fpe.data@, m as int),
//@after loop 11
            proof { es = Est { ye: ype.data@, r2: rhs.data@, ..es }; }
//@after stmt `work.rel_error = ` #1
            proof { assert(est2(es, s5.rv(), x@, y.data@, err0, work.rel_error@)); lemma_est2(es, s5.rv(), x@, y.data@, h@, old(work), first, work.rel_error@); }
//@before stmt `return Ok(())` #2
            proof {
                assert(self.z0 == s5.z0 && self.z1 == s5.z1 && self.z2 == s5.z2 && self.scaling == s5.scaling && self.k_accepted == s5.k_accepted && self.eta == s5.eta);
                assert(self.system.ndim == s5.system.ndim && self.mass == s5.mass && self.solver_real.actual.mat == s5.solver_real.actual.mat && self.solver_comp.actual.mat == s5.solver_comp.actual.mat && self.params == s5.params);
                assert(self.rv() == s5.rv());
            }
//@before stmt `let ype`
            let ghost err0 = err.data@;
//@endfn
} // verus!
fn main() {}
