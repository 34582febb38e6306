//@include inc_lab.rs
//@map A=VxArgs Stopwatch=VxStopwatch const:CONFIG_H_MIN=CONFIG_H_MIN_c
verus! {
// ---- dropped: time measurement, messages ----
#[derive(Clone, Copy)]
pub struct VxStopwatch { pub x: usize }
impl VxStopwatch {
    #[verifier::external_body]
    pub fn reset(&mut self) { unimplemented!() }
    #[verifier::external_body]
    pub fn stop(&mut self) -> u128 { unimplemented!() }
}
pub struct VxLog { pub x: usize }
impl VxLog {
    #[verifier::external_body]
    pub fn header(&mut self) { unimplemented!() }
    #[verifier::external_body]
    pub fn iteration(&mut self, n: usize, err: &VxErr) { unimplemented!() }
    #[verifier::external_body]
    pub fn did_not_converge(&mut self) { unimplemented!() }
    #[verifier::external_body]
    pub fn step(&mut self, h: R, l: R, last: bool) { unimplemented!() }
    #[verifier::external_body]
    pub fn footer(&mut self, stats: &Stats, status: &Status) -> (ret: Result<(), StrError>) { unimplemented!() }
}
#[verifier::external_body]
pub struct VxArgs { x: usize }
impl core::ops::Sub<&R> for R { type Output = R;
    #[verifier::external_body]
    fn sub(self, o: &R) -> (r: R) { unimplemented!() }
}
impl vstd::std_specs::ops::SubSpecImpl<&R> for R {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, rhs: &R) -> bool { true }
    open spec fn sub_spec(self, rhs: &R) -> R { r(self@ - rhs@) }
}
impl R {
    // nothing is assumed about the value
    #[verifier::external_body]
    pub fn atan(self) -> R { unimplemented!() }
}

//@enum russell_lab/src/base/enums.rs Norm derive=Clone,Copy
//@enum russell_nonlin/src/enums.rs Status
//@enum russell_nonlin/src/enums.rs RdiffType derive=Clone,Copy,PartialEq,Eq,Structural
//@enum russell_nonlin/src/enums.rs IniDir derive=Clone,Copy
//@enum russell_nonlin/src/enums.rs Method derive=Clone,Copy
//@enum russell_nonlin/src/enums.rs Stop derive=Clone,Copy
//@const russell_nonlin/src/config.rs CONFIG_H_MIN
//@struct russell_nonlin/src/config.rs Config -method -log_file -verbose -verbose_iterations -verbose_legend -verbose_header_footer -verbose_stats -hide_timings -record_iterations_residuals -enable_precise_stop_u_comp -m_failure -n_step_max -n_cont_failure_max -n_cont_rejection_max -genie -lin_sol_config -write_matrix_after_nstep_and_stop -tol_abs_residual -tol_abs_delta -tol_rel_delta -delta_max_allowed -disable_rel_delta_analysis -n_cont_residual_divergence_max -n_cont_delta_divergence_max -euler_predictor -nr_control_enabled -tg_control_enabled -tg_control_pid_vcc -tg_control_rdiff_min -tg_control_rho_for_tiny_rdiff -nr_control_n_opt -nr_control_beta -tg_control_beta1 -tg_control_beta2 -tg_control_beta3 -tg_control_alpha2 -tg_control_alpha3
//@struct russell_nonlin/src/stats.rs Stats -method -hide_timings -auto -num_jacobian -n_jacobian -n_factor -h_accepted -nanos_step_max -nanos_jacobian_max -nanos_factor_max -nanos_total -sw_step -sw_jacobian -sw_factor -sw_total
//@struct russell_nonlin/src/workspace.rs Workspace err:VxErr log:VxLog -follows_failure -follows_rejection -stop_gracefully -n_continued_rejection

// ---- trusted: norm of a range of components ----
pub uninterp spec fn vx_norm(u: Seq<R>, kind: Norm, begin: int, end: int) -> real;
#[verifier::external_body]
pub fn vec_norm_chunk(v: &NumVector, kind: Norm, begin: usize, end: usize) -> (ret: R)
    requires begin < end <= v.data@.len()
    ensures ret@ == vx_norm(v.data@, kind, begin as int, end as int)
{ unimplemented!() }

// ---------------------------------------------------------------- targets
pub open spec fn hmin() -> real { 1real / 10000000000real }
impl Stop {
    // the target lies ahead of the start
    pub open spec fn ahead(&self, u: Seq<R>, l: real) -> bool {
        match self {
            Stop::MinCompU(i, t) => *i < u.len() && t@ < u[*i as int]@,
            Stop::MaxCompU(i, t) => *i < u.len() && t@ > u[*i as int]@,
            Stop::MaxNormU(t, k, a, b) => *a < *b && *b <= u.len() && t@ > 0real,
            Stop::MinLambda(t) => t@ < l,
            Stop::MaxLambda(t) => t@ > l,
            Stop::Steps(n) => *n >= 1,
        }
    }
    pub open spec fn fits(&self, n: int) -> bool {
        match self {
            Stop::MinCompU(i, t) => *i < n,
            Stop::MaxCompU(i, t) => *i < n,
            Stop::MaxNormU(t, k, a, b) => *a < *b && *b <= n,
            _ => true,
        }
    }
    // reached after the given number of accepted steps at the given point
    pub open spec fn reached(&self, accepted: int, u: Seq<R>, l: real) -> bool {
        match self {
            Stop::MinCompU(i, t) => u[*i as int]@ < t@ + hmin(),
            Stop::MaxCompU(i, t) => u[*i as int]@ > t@ - hmin(),
            Stop::MaxNormU(t, k, a, b) => vx_norm(u, *k, *a as int, *b as int) > t@ - hmin(),
            Stop::MinLambda(t) => l < t@ + hmin(),
            Stop::MaxLambda(t) => l > t@ - hmin(),
            Stop::Steps(n) => accepted == *n,
        }
    }
    // a component target is not passed
    pub open spec fn not_passed(&self, u: Seq<R>) -> bool {
        match self {
            Stop::MinCompU(i, t) => u[*i as int]@ >= t@ - hmin(),
            Stop::MaxCompU(i, t) => u[*i as int]@ <= t@ + hmin(),
            _ => true,
        }
    }
}
//@fn russell_nonlin/src/enums.rs Stop::lambda
//@spec
    ensures
        match self { Stop::MinLambda(t) => ret == Some((*t, true)), Stop::MaxLambda(t) => ret == Some((*t, false)), _ => ret is None },
//@endfn
//@fn russell_nonlin/src/enums.rs Stop::u_comp
//@spec
    ensures
        match self { Stop::MinCompU(i, t) => ret == Some((*i, *t, true)), Stop::MaxCompU(i, t) => ret == Some((*i, *t, false)), _ => ret is None },
//@endfn
// ---------------------------------------------------------------- status
// the derived equality
impl PartialEq for Status {
    #[verifier::external_body]
    fn eq(&self, o: &Status) -> (b: bool) { unimplemented!() }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for Status {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Status) -> bool { *self == *o }
}
//@fn russell_nonlin/src/enums.rs Status::success
//@spec
    ensures ret == (*self is Success),
//@endfn
//@fn russell_nonlin/src/enums.rs Status::failure
//@spec
    ensures ret == !(*self is Success),
//@endfn
//@fn russell_nonlin/src/enums.rs Status::from_sup
//@spec
    ensures
        res is Err ==> ret is SecondaryUpdateError,
        res is Ok ==> if res->Ok_0 { ret is SecondaryUpdateTerminate } else { ret is Success },
//@endfn

pub open spec fn same_control(a: &Workspace, b: &Workspace) -> bool {
    &&& a.stats.n_steps == b.stats.n_steps && a.stats.n_accepted == b.stats.n_accepted && a.stats.n_rejected == b.stats.n_rejected
    &&& a.n_continued_failure == b.n_continued_failure && a.u.data@.len() == b.u.data@.len()
}
// ---- trusted: the iteration control, with the contracts proved in C33 (seen: the residual analysed last) ----
pub struct VxErr { pub residual_max: R, pub conv: Ghost<bool>, pub nmax: Ghost<int>, pub seen: Ghost<Seq<R>>, pub seen_nn: Ghost<real> }
impl VxErr {
    #[verifier::external_body]
    pub fn reset(&mut self, u: &NumVector, l: R) ensures !final(self).conv@, final(self).nmax == old(self).nmax { unimplemented!() }
    #[verifier::external_body]
    pub fn converged(&self) -> (ret: bool) ensures ret == self.conv@ { unimplemented!() }
    #[verifier::external_body]
    pub fn analyze_residual(&mut self, iteration: usize, gg: &NumVector, nn: R) -> (ret: bool)
        ensures final(self).nmax == old(self).nmax, final(self).seen@ == gg.data@, final(self).seen_nn@ == nn@ { unimplemented!() }
    #[verifier::external_body]
    pub fn analyze_delta(&mut self, iteration: usize, x: &NumVector) -> (ret: bool)
        ensures final(self).nmax == old(self).nmax, final(self).seen == old(self).seen, final(self).seen_nn == old(self).seen_nn { unimplemented!() }
    #[verifier::external_body]
    pub fn capture_failures(&mut self, iteration: usize) -> (ret: Status)
        ensures final(self).nmax == old(self).nmax, final(self).seen == old(self).seen, final(self).seen_nn == old(self).seen_nn, final(self).conv == old(self).conv,
            iteration == old(self).nmax@ - 1 ==> !(ret is Success) { unimplemented!() }
}
// ---- trusted: the functions of the problem ----
pub uninterp spec fn vx_gg(l: real, u: Seq<R>) -> Seq<R>;
pub struct VxGg { pub x: usize }
impl VxGg {
    #[verifier::external_body]
    pub fn call(&self, gg: &mut NumVector, l: R, u: &NumVector, args: &mut VxArgs) -> (ret: Result<(), StrError>)
        ensures final(gg).data@.len() == old(gg).data@.len(), ret is Ok ==> final(gg).data@ == vx_gg(l@, u.data@) { unimplemented!() }
}
pub struct VxHook { pub x: usize }
impl VxHook {
    #[verifier::external_body]
    pub fn call(&self, args: &mut VxArgs) { unimplemented!() }
}
pub struct VxUpdate { pub x: usize }
impl VxUpdate {
    #[verifier::external_body]
    pub fn call(&self, backup: bool, u0: &NumVector, u1: &NumVector, l0: R, l1: R, args: &mut VxArgs) -> Result<bool, StrError> { unimplemented!() }
}
//@struct russell_nonlin/src/system.rs System -nnz_ggu -sym_ggu -calc_jac calc_gg:VxGg backup_secondary_state:Option<VxHook> restore_secondary_state:Option<VxHook> prepare_to_iterate:Option<VxHook> update_secondary_state:Option<VxUpdate>
// ---- trusted: the linear solver ----
pub struct VxLs { pub x: usize }
impl VxLs {
    #[verifier::external_body]
    pub fn solve(&mut self, x: &mut NumVector, b: &NumVector, verbose: bool) -> (ret: Result<(), StrError>)
        ensures final(x).data@.len() == old(x).data@.len() { unimplemented!() }
}
pub struct VxLinSolver { pub actual: VxLs }
// ---- trusted: vectors ----
#[verifier::external_body]
pub fn vec_copy(v: &mut NumVector, u: &NumVector) -> (ret: Result<(), StrError>)
    ensures final(v).data@.len() == old(v).data@.len(), ret is Ok <==> old(v).data@.len() == u.data@.len(), ret is Ok ==> final(v).data@ == u.data@ { unimplemented!() }
#[verifier::external_body]
pub fn vec_add(w: &mut NumVector, a: R, u: &NumVector, b: R, v: &NumVector) -> (ret: Result<(), StrError>)
    ensures final(w).data@.len() == old(w).data@.len(), ret is Ok <==> u.data@.len() == old(w).data@.len() && v.data@.len() == old(w).data@.len() { unimplemented!() }
#[verifier::external_body]
pub fn vec_update(v: &mut NumVector, a: R, u: &NumVector) -> (ret: Result<(), StrError>)
    ensures final(v).data@.len() == old(v).data@.len(), ret is Ok <==> u.data@.len() == old(v).data@.len() { unimplemented!() }

//@fn russell_nonlin/src/stats.rs Stats::stop_sw_lin_sol
//@spec
    ensures *final(self) == (Stats { nanos_lin_sol_max: final(self).nanos_lin_sol_max, sw_lin_sol: final(self).sw_lin_sol, ..*old(self) }),
//@endfn
//@fn russell_nonlin/src/stats.rs Stats::record_iterations_residuals_start
//@spec
    ensures *final(self) == (Stats { temporary_iterations_residuals: final(self).temporary_iterations_residuals, iterations_residuals: final(self).iterations_residuals, ..*old(self) }),
//@endfn
//@fn russell_nonlin/src/stats.rs Stats::record_iterations_residuals_append
//@spec
    ensures *final(self) == (Stats { temporary_iterations_residuals: final(self).temporary_iterations_residuals, ..*old(self) }),
//@endfn
//@fn russell_nonlin/src/stats.rs Stats::record_iterations_residuals_stop
//@spec
    ensures *final(self) == (Stats { iterations_residuals: final(self).iterations_residuals, ..*old(self) }),
//@endfn

pub open spec fn room(a: &Stats, n: int) -> bool { a.n_function + n < usize::MAX && a.n_lin_sol + n < usize::MAX && a.n_iteration_total + n < usize::MAX }
pub open spec fn kept_by_iteration(a: &Workspace, b: &Workspace) -> bool {
    &&& same_control(a, b) && a.l == b.l && a.h == b.h && a.n_iteration == b.n_iteration && a.auto == b.auto && a.err.nmax == b.err.nmax && a.target_reached == b.target_reached
    &&& a.predictor_values_debug == b.predictor_values_debug
}

// ---------------------------------------------------------------- pseudo-arclength continuation
// ---- trusted: vectors ----
#[verifier::external_body]
pub fn vec_inner(u: &NumVector, v: &NumVector) -> R { unimplemented!() }
//@struct russell_nonlin/src/solver_arclength.rs SolverArclength -ggu -aa ls:VxLinSolver config:Config system:System
impl SolverArclength {
    pub open spec fn wf(&self) -> bool {
        let n = self.system.ndim;
        &&& n >= 1 && n < usize::MAX && self.config.n_iteration_max >= 1 && self.config.tg_control_tol@ > 0real
        &&& self.ggl.data@.len() == n && self.duds_prev.data@.len() == n && self.x.data@.len() == n + 1
        &&& if self.config.bordering { self.mdu.data@.len() == n && self.u_aux.data@.len() == n } else { self.b.data@.len() == n + 1 }
    }
    pub open spec fn same(&self, o: &SolverArclength) -> bool { self.config == o.config && self.system == o.system && self.theta == o.theta }
    // ---- trusted: assembly and factorization of the Jacobian matrices ----
    #[verifier::external_body]
    pub fn assemble_and_factorize_jac(&mut self, work: &mut Workspace, args: &mut VxArgs) -> (ret: Result<(), StrError>)
        ensures final(self).same(old(self)), old(self).wf() ==> final(self).wf(), kept_by_assembly(old(work), final(work)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn assemble_and_factorize_aa(&mut self, work: &mut Workspace, args: &mut VxArgs, initial: bool) -> (ret: Result<(), StrError>)
        ensures final(self).same(old(self)), old(self).wf() ==> final(self).wf(), kept_by_assembly(old(work), final(work)),
    { unimplemented!() }
    // ---- trusted: the new tangent vector ----
    #[verifier::external_body]
    pub fn update_tangent_vector(&mut self, work: &mut Workspace, args: &mut VxArgs) -> (ret: Result<(), StrError>)
        ensures final(self).same(old(self)), old(self).wf() ==> final(self).wf(), same_control(old(work), final(work)),
            final(work).u == old(work).u, final(work).l == old(work).l, final(work).h == old(work).h, final(work).err == old(work).err, final(work).duds.data@.len() == old(work).duds.data@.len(),
    { unimplemented!() }
}
pub open spec fn kept_by_assembly(a: &Workspace, b: &Workspace) -> bool {
    &&& kept_by_iteration(a, b) && a.u == b.u && a.gg == b.gg && a.err == b.err && a.duds == b.duds && a.dlds == b.dlds
    &&& a.stats.n_function == b.stats.n_function && a.stats.n_lin_sol == b.stats.n_lin_sol && a.stats.n_iteration_total == b.stats.n_iteration_total
}
pub open spec fn kept_by_corrector(a: &Workspace, b: &Workspace) -> bool {
    &&& same_control(a, b) && a.h == b.h && a.n_iteration == b.n_iteration && a.auto == b.auto && a.err.nmax == b.err.nmax && a.duds == b.duds && a.dlds == b.dlds
    &&& a.gg.data@.len() == b.gg.data@.len()
}
// distance along the tangent vector
pub open spec fn along(a: Seq<R>, b: Seq<R>, d: Seq<R>, n: int) -> real decreases n
{ if n <= 0 { 0real } else { along(a, b, d, n - 1) + (a[n - 1]@ - b[n - 1]@) * d[n - 1]@ } }
// the additional equation
#[verifier::opaque]
pub open spec fn extra(theta: real, u: Seq<R>, l: real, u0: Seq<R>, l0: real, duds: Seq<R>, dlds: real, h: real, n: int) -> real {
    theta * (if theta > 0real { along(u, u0, duds, n) } else { 0real }) + (2real - theta) * (l - l0) * dlds - h
}
#[verifier::opaque]
pub open spec fn solved(theta: real, err: VxErr, u: Seq<R>, l: R, h: R, u0: Seq<R>, l0: real, duds: Seq<R>, dlds: real, n: int) -> bool {
    &&& err.conv@ && err.seen@ == vx_gg(l@, u)
    &&& err.seen_nn@ == extra(theta, u, l@, u0, l0, duds, dlds, h@, n)
}
//@fn russell_nonlin/src/solver_arclength.rs SolverArclength::iterate fn:f=VxUpdate
//@attr
#[verifier::loop_isolation(false)] #[verifier::rlimit(80)] #[verifier::spinoff_prover]
//@spec
    requires old(self).wf(), u.data@.len() == old(self).system.ndim, old(work).u.data@.len() == old(self).system.ndim, old(work).duds.data@.len() == old(self).system.ndim, old(work).gg.data@.len() == old(self).system.ndim,
        room(&old(work).stats, 2),
    ensures
        final(self).wf(), final(self).same(old(self)), kept_by_corrector(old(work), final(work)),
        final(work).stats.n_function <= old(work).stats.n_function + 1, final(work).stats.n_lin_sol <= old(work).stats.n_lin_sol + 2, final(work).stats.n_iteration_total == old(work).stats.n_iteration_total,
        ret is Ok && ret->Ok_0 is Success && final(work).err.conv@ ==> solved(old(self).theta@, final(work).err, final(work).u.data@, final(work).l, final(work).h, u.data@, l@, old(work).duds.data@, old(work).dlds@, old(self).system.ndim as int),
        ret is Ok && ret->Ok_0 is Success && !final(work).err.conv@ ==> old(work).n_iteration != old(work).err.nmax@ - 1,
//@start
        proof { reveal(extra); reveal(solved); }
//@loop 0
            invariant ndim == self.system.ndim, du_part@ == along(work.u.data@, u.data@, work.duds.data@, i as int), u.data@.len() == ndim, work.u.data@.len() == ndim, work.duds.data@.len() == ndim,
//@loop 1
            invariant self.x.data@.len() == ndim + 1, dua.data@.len() == ndim, dub.data@.len() == ndim,
//@before loop 2
        let ghost s2 = *self;
//@loop 2
            invariant *self == (SolverArclength { b: self.b, ..s2 }), self.b.data@.len() == ndim + 1, work.gg.data@.len() == ndim,
//@before loop 3
        let ghost w3 = *work;
//@loop 3
            invariant *work == (Workspace { u: work.u, ..w3 }), work.u.data@.len() == ndim, self.x.data@.len() == ndim + 1,
//@endfn

pub open spec fn lambda_target(stop: Stop) -> Option<real> { match stop { Stop::MinLambda(t) => Some(t@), Stop::MaxLambda(t) => Some(t@), _ => None } }
pub open spec fn lambda_ahead(stop: Stop, l: real) -> bool { match stop { Stop::MinLambda(t) => l > t@, Stop::MaxLambda(t) => l < t@, _ => true } }
pub open spec fn lambda_not_passed(stop: Stop, l: real) -> bool { match stop { Stop::MinLambda(t) => l >= t@ - hmin(), Stop::MaxLambda(t) => l <= t@ + hmin(), _ => true } }
// the mode of the additional equation: along the tangent vector, or at the target
#[verifier::opaque]
pub open spec fn mode(theta: real, stop: Stop, l0: real, h: real, dlds: real) -> bool {
    theta == 1real || (theta == 0real && lambda_target(stop) is Some && h == 2real * (lambda_target(stop)->Some_0 - l0) * dlds)
}
//@fn russell_nonlin/src/solver_arclength.rs <SolverTrait for SolverArclength>::step fn:f=VxUpdate
//@attr
#[verifier::loop_isolation(false)] #[verifier::rlimit(100)] #[verifier::spinoff_prover]
//@spec
    requires old(self).wf(), u.data@.len() == old(self).system.ndim, old(work).u.data@.len() == old(self).system.ndim, old(work).duds.data@.len() == old(self).system.ndim, old(work).gg.data@.len() == old(self).system.ndim,
        room(&old(work).stats, 4 * old(self).config.n_iteration_max + 8), old(work).err.nmax@ == old(self).config.n_iteration_max, stop.fits(old(self).system.ndim as int), lambda_ahead(stop, l@),
    ensures
        final(self).wf(), final(self).config == old(self).config, final(self).system == old(self).system, same_control(old(work), final(work)),
        // success only for a converged point of the equations and of the additional equation
        ret is Ok && ret->Ok_0 is Success ==> {
            &&& solved(final(self).theta@, final(work).err, final(work).u.data@, final(work).l, final(work).h, u.data@, l@, old(work).duds.data@, old(work).dlds@, old(self).system.ndim as int)
            &&& mode(final(self).theta@, stop, l@, final(work).h@, old(work).dlds@)
            // not beyond the target, unless the additional equation is the one of the target
            &&& final(self).theta@ != 0real ==> lambda_not_passed(stop, final(work).l@)
        },
//@start
        proof {
            let (h, d) = (work.h@, work.dlds@);
            assert(d == 0real ==> h * d == 0real) by (nonlinear_arith);
            assert((2real - 1real) * h == h);
        }
//@before loop 0
        let ghost w0 = *work; let ghost s0 = *self;
        assert(mode(self.theta@, stop, l@, work.h@, work.dlds@)) by { reveal(mode); }
        assert(self.theta@ == 0real || self.theta@ == 1real);
        assert(same_control(old(work), work) && self.wf() && work.duds == old(work).duds && work.dlds == old(work).dlds && work.gg == old(work).gg && work.err.nmax == old(work).err.nmax);
//@loop 0
            invariant_except_break
                work.n_iteration == _vx_i, status is Success, _vx_i < work.err.nmax@, room(&work.stats, 4 * self.config.n_iteration_max - 2 * _vx_i + 8),
            invariant
                self.wf(), self.same(&s0), same_control(&w0, work), work.h == w0.h, work.duds == w0.duds, work.dlds == w0.dlds, work.auto == w0.auto, work.err.nmax == w0.err.nmax, work.gg.data@.len() == self.system.ndim, work.u.data@.len() == self.system.ndim,
                room(&work.stats, 2 * self.config.n_iteration_max + 4),
            ensures
                status is Success ==> solved(self.theta@, work.err, work.u.data@, work.l, work.h, u.data@, l@, w0.duds.data@, w0.dlds@, self.system.ndim as int),
//@before loop 1
        let ghost w1 = *work; let ghost s1 = *self;
        assert(mode(self.theta@, stop, l@, work.h@, work.dlds@)) by { reveal(mode); }
//@loop 1
            invariant
                self.wf(), self.same(&s1), same_control(&w1, work), work.h == w1.h, work.duds == w1.duds, work.dlds == w1.dlds, work.auto == w1.auto, work.err.nmax == w1.err.nmax, work.gg.data@.len() == self.system.ndim, work.u.data@.len() == self.system.ndim,
                status is Success ==> room(&work.stats, 2 * (self.config.n_iteration_max - work.n_iteration) + 2), work.n_iteration <= self.config.n_iteration_max,
                status is Success && !work.err.conv@ ==> work.n_iteration < self.config.n_iteration_max,
                status is Success && work.err.conv@ ==> solved(self.theta@, work.err, work.u.data@, work.l, work.h, u.data@, l@, w1.duds.data@, w1.dlds@, self.system.ndim as int),
            decreases (if status is Success { self.config.n_iteration_max - work.n_iteration + 1 } else { 0int }),
//@endfn
} // verus!
fn main() {}
