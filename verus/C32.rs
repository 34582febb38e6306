//@include inc_lab.rs
//@map A=VxArgs Stopwatch=VxStopwatch const:CONFIG_H_MIN=CONFIG_H_MIN_c
verus! {
// ---- dropped: time measurement, messages ----
#[derive(Clone, Copy)]
pub struct VxStopwatch { pub x: usize }
impl VxStopwatch {
    #[verifier::external_body]
    pub fn reset(&mut self) { unimplemented!() }
    #[verifier::external_body]
    pub fn stop(&mut self) -> u128 { unimplemented!() }
}
pub struct VxLog { pub x: usize }
impl VxLog {
    #[verifier::external_body]
    pub fn header(&mut self) { unimplemented!() }
    #[verifier::external_body]
    pub fn iteration(&mut self, n: usize, err: &VxErr) { unimplemented!() }
    #[verifier::external_body]
    pub fn did_not_converge(&mut self) { unimplemented!() }
    #[verifier::external_body]
    pub fn step(&mut self, h: R, l: R, last: bool) { unimplemented!() }
    #[verifier::external_body]
    pub fn footer(&mut self, stats: &Stats, status: &Status) -> (ret: Result<(), StrError>) { unimplemented!() }
}
#[verifier::external_body]
pub struct VxArgs { x: usize }
impl core::ops::Sub<&R> for R { type Output = R;
    #[verifier::external_body]
    fn sub(self, o: &R) -> (r: R) { unimplemented!() }
}
impl vstd::std_specs::ops::SubSpecImpl<&R> for R {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, rhs: &R) -> bool { true }
    open spec fn sub_spec(self, rhs: &R) -> R { r(self@ - rhs@) }
}
impl R {
    // nothing is assumed about the value
    #[verifier::external_body]
    pub fn atan(self) -> R { unimplemented!() }
}

//@enum russell_lab/src/base/enums.rs Norm derive=Clone,Copy
//@enum russell_nonlin/src/enums.rs Status
//@enum russell_nonlin/src/enums.rs RdiffType derive=Clone,Copy,PartialEq,Eq,Structural
//@enum russell_nonlin/src/enums.rs IniDir derive=Clone,Copy
//@enum russell_nonlin/src/enums.rs Method derive=Clone,Copy
//@enum russell_nonlin/src/enums.rs Stop derive=Clone,Copy
//@const russell_nonlin/src/config.rs CONFIG_H_MIN
//@struct russell_nonlin/src/config.rs Config -log_file -genie -lin_sol_config
//@struct russell_nonlin/src/delta_lambda.rs DeltaLambda
//@struct russell_nonlin/src/stats.rs Stats
//@struct russell_nonlin/src/workspace.rs Workspace err:VxErr log:VxLog

// ---- trusted: norm of a range of components ----
pub uninterp spec fn vx_norm(u: Seq<R>, kind: Norm, begin: int, end: int) -> real;
#[verifier::external_body]
pub fn vec_norm_chunk(v: &NumVector, kind: Norm, begin: usize, end: usize) -> (ret: R)
    requires begin < end <= v.data@.len()
    ensures ret@ == vx_norm(v.data@, kind, begin as int, end as int)
{ unimplemented!() }

// ---------------------------------------------------------------- targets
pub open spec fn hmin() -> real { 1real / 10000000000real }
impl Stop {
    // the target lies ahead of the start
    pub open spec fn ahead(&self, u: Seq<R>, l: real) -> bool {
        match self {
            Stop::MinCompU(i, t) => *i < u.len() && t@ < u[*i as int]@,
            Stop::MaxCompU(i, t) => *i < u.len() && t@ > u[*i as int]@,
            Stop::MaxNormU(t, k, a, b) => *a < *b && *b <= u.len() && t@ > 0real,
            Stop::MinLambda(t) => t@ < l,
            Stop::MaxLambda(t) => t@ > l,
            Stop::Steps(n) => *n >= 1,
        }
    }
    pub open spec fn fits(&self, n: int) -> bool {
        match self {
            Stop::MinCompU(i, t) => *i < n,
            Stop::MaxCompU(i, t) => *i < n,
            Stop::MaxNormU(t, k, a, b) => *a < *b && *b <= n,
            _ => true,
        }
    }
    // reached after the given number of accepted steps at the given point
    pub open spec fn reached(&self, accepted: int, u: Seq<R>, l: real) -> bool {
        match self {
            Stop::MinCompU(i, t) => u[*i as int]@ < t@ + hmin(),
            Stop::MaxCompU(i, t) => u[*i as int]@ > t@ - hmin(),
            Stop::MaxNormU(t, k, a, b) => vx_norm(u, *k, *a as int, *b as int) > t@ - hmin(),
            Stop::MinLambda(t) => l < t@ + hmin(),
            Stop::MaxLambda(t) => l > t@ - hmin(),
            Stop::Steps(n) => accepted == *n,
        }
    }
    // a component target is not passed
    pub open spec fn not_passed(&self, u: Seq<R>) -> bool {
        match self {
            Stop::MinCompU(i, t) => u[*i as int]@ >= t@ - hmin(),
            Stop::MaxCompU(i, t) => u[*i as int]@ <= t@ + hmin(),
            _ => true,
        }
    }
}
//@fn russell_nonlin/src/enums.rs Stop::validate
//@spec
    ensures ret is Ok <==> self.ahead(u.data@, l@),
//@endfn
//@fn russell_nonlin/src/enums.rs Stop::lambda
//@spec
    ensures
        match self { Stop::MinLambda(t) => ret == Some((*t, true)), Stop::MaxLambda(t) => ret == Some((*t, false)), _ => ret is None },
//@endfn
//@fn russell_nonlin/src/enums.rs Stop::u_comp
//@spec
    ensures
        match self { Stop::MinCompU(i, t) => ret == Some((*i, *t, true)), Stop::MaxCompU(i, t) => ret == Some((*i, *t, false)), _ => ret is None },
//@endfn
//@fn russell_nonlin/src/enums.rs Stop::now
//@spec
    requires self.fits(u.data@.len() as int), step < usize::MAX,
    ensures ret == self.reached(step + 1, u.data@, l@),
//@endfn

// ---------------------------------------------------------------- step list
//@fn russell_nonlin/src/delta_lambda.rs DeltaLambda::auto
//@spec
    ensures ret.auto && ret.ddl_ini == ddl_ini && ret.list@.len() == 0,
//@endfn
//@fn russell_nonlin/src/delta_lambda.rs DeltaLambda::constant
//@spec
    ensures !ret.auto && ret.ddl_ini == ddl && ret.list@.len() == 0,
//@endfn
// trusted: slice::to_vec (used on numbers only)
pub assume_specification<T: Clone> [<[T]>::to_vec] (s: &[T]) -> (v: Vec<T>)
    ensures v@ == s@;
//@fn russell_nonlin/src/delta_lambda.rs DeltaLambda::list
//@spec
    requires list@.len() > 0,
    ensures !ret.auto, ret.ddl_ini@ == list@[0]@, ret.list@ == list@,
//@endfn
//@fn russell_nonlin/src/delta_lambda.rs DeltaLambda::is_auto
//@spec
    ensures ret == self.auto,
//@endfn
impl DeltaLambda {
    // the first step, not beyond a target of the parameter
    pub open spec fn first(&self, stop: Stop, l0: real) -> real {
        match stop {
            Stop::MinLambda(t) => rmin(self.ddl_ini@, rabs(l0 - t@)),
            Stop::MaxLambda(t) => rmin(self.ddl_ini@, rabs(t@ - l0)),
            _ => self.ddl_ini@,
        }
    }
}
//@fn russell_nonlin/src/delta_lambda.rs DeltaLambda::ini
//@spec
    ensures
        ret is Ok <==> self.first(*stop, l0@) > hmin(),
        ret is Ok ==> ret->Ok_0@ == self.first(*stop, l0@),
//@endfn

// ---------------------------------------------------------------- status
// the derived equality
impl PartialEq for Status {
    #[verifier::external_body]
    fn eq(&self, o: &Status) -> (b: bool) { unimplemented!() }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for Status {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Status) -> bool { *self == *o }
}
//@fn russell_nonlin/src/enums.rs Status::success
//@spec
    ensures ret == (*self is Success),
//@endfn
//@fn russell_nonlin/src/enums.rs Status::failure
//@spec
    ensures ret == !(*self is Success),
//@endfn
//@fn russell_nonlin/src/enums.rs Status::try_again
//@spec
    ensures ret ==> !(self is Success),
        self is SmallStepsize || self is SecondaryUpdateTerminate || self is ContinuedFailure || self is ContinuedRejection || self is NanOrInfResidual || self is NanOrInfDelta ==> !ret,
//@endfn
//@fn russell_nonlin/src/enums.rs Status::from_sup
//@spec
    ensures
        res is Err ==> ret is SecondaryUpdateError,
        res is Ok ==> if res->Ok_0 { ret is SecondaryUpdateTerminate } else { ret is Success },
//@endfn

// ---------------------------------------------------------------- the continuation
//@fn russell_nonlin/src/stats.rs Stats::reset
//@spec
    ensures final(self).n_steps == 0, final(self).n_accepted == 0, final(self).n_rejected == 0,
//@endfn
//@fn russell_nonlin/src/stats.rs Stats::stop_sw_step
//@spec
    ensures final(self).n_steps == old(self).n_steps, final(self).n_accepted == old(self).n_accepted, final(self).n_rejected == old(self).n_rejected,
//@endfn
//@fn russell_nonlin/src/stats.rs Stats::stop_sw_total
//@spec
    ensures final(self).n_steps == old(self).n_steps, final(self).n_accepted == old(self).n_accepted, final(self).n_rejected == old(self).n_rejected,
//@endfn
//@fn russell_nonlin/src/workspace.rs Workspace::reset_stats_and_flags
//@spec
    ensures final(self).stats.n_steps == 0, final(self).stats.n_accepted == 0, final(self).stats.n_rejected == 0,
        final(self).n_continued_failure == 0, !final(self).target_reached, final(self).u == old(self).u, final(self).auto == auto,
        !final(self).follows_failure, !final(self).follows_rejection,
//@endfn

// a point of the path
pub struct Pt { pub u: Seq<R>, pub l: real }
pub open spec fn same_control(a: &Workspace, b: &Workspace) -> bool {
    &&& a.stats.n_steps == b.stats.n_steps && a.stats.n_accepted == b.stats.n_accepted && a.stats.n_rejected == b.stats.n_rejected
    &&& a.n_continued_failure == b.n_continued_failure && a.u.data@.len() == b.u.data@.len()
}
// ---- trusted: the method behind the interface SolverTrait; its calls are recorded ----
pub struct VxActual { pub natural: Ghost<bool>, pub hs: Ghost<Seq<real>>, pub ini: Ghost<Pt>, pub acc: Ghost<Seq<Pt>>, pub ns: Ghost<int>, pub nr: Ghost<int>, pub good: Ghost<bool>, pub pend: Ghost<bool>, pub broken: Ghost<bool> }
impl VxActual {
    // the last accepted point
    pub open spec fn here(&self) -> Pt { if self.acc@.len() == 0 { self.ini@ } else { self.acc@.last() } }
    #[verifier::external_body]
    pub fn initialize(&mut self, work: &mut Workspace, ddl_ini: R, u: &NumVector, l: R, dir: IniDir, args: &mut VxArgs) -> (ret: Result<(), StrError>)
        requires ddl_ini@ > hmin()
        ensures same_control(old(work), final(work)), final(self).acc == old(self).acc, final(self).ns == old(self).ns, final(self).nr == old(self).nr, final(self).pend == old(self).pend, final(self).broken == old(self).broken,
            final(self).good == old(self).good, final(self).ini@ == (Pt { u: u.data@, l: l@ }), final(self).natural == old(self).natural, final(self).hs == old(self).hs,
            old(self).natural@ ==> final(work).h@ == ddl_ini@,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn step(&mut self, work: &mut Workspace, u: &NumVector, l: R, stop: Stop, args: &mut VxArgs) -> (ret: Result<Status, StrError>)
        requires
            // a step starts from the last accepted point; a computed point is accepted or rejected first
            old(self).here() == (Pt { u: u.data@, l: l@ }), !old(self).pend@,
        ensures same_control(old(work), final(work)), final(self).ini == old(self).ini, final(self).acc == old(self).acc, final(self).nr == old(self).nr, final(self).broken == old(self).broken,
            final(self).natural == old(self).natural, final(self).hs@ == old(self).hs@.push(old(work).h@),
            final(self).ns@ == old(self).ns@ + 1, final(self).good@ == final(self).pend@, final(self).pend@ == (ret is Ok && ret->Ok_0 is Success),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn accept(&mut self, work: &mut Workspace, u: &mut NumVector, l: &mut R, args: &mut VxArgs) -> (ret: Result<R, StrError>)
        requires
            // only points of a successful step
            old(self).pend@,
        ensures same_control(old(work), final(work)), final(self).ini == old(self).ini, final(self).ns == old(self).ns, final(self).nr == old(self).nr, final(self).good == old(self).good, !final(self).pend@,
            final(self).natural == old(self).natural, final(self).hs == old(self).hs,
            ret is Err ==> final(self).broken@ && final(self).acc == old(self).acc,
            ret is Ok ==> final(self).broken == old(self).broken && final(u).data@ == old(work).u.data@ && final(l)@ == old(work).l@
                && final(self).acc@ == old(self).acc@.push(Pt { u: final(u).data@, l: final(l)@ }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn reject(&mut self, work: &mut Workspace, args: &mut VxArgs)
        ensures same_control(old(work), final(work)), final(self).ini == old(self).ini, final(self).acc == old(self).acc, final(self).ns == old(self).ns, final(self).nr@ == old(self).nr@ + 1,
            final(self).natural == old(self).natural, final(self).hs == old(self).hs, !final(self).good@, !final(self).pend@, final(self).broken == old(self).broken,
    { unimplemented!() }
}
// ---- trusted: the optional recorder of results ----
pub struct VxOutput { pub some: Ghost<bool>, pub stopped: Ghost<bool> }
impl VxOutput {
    #[verifier::external_body]
    pub fn is_some(&self) -> (ret: bool) ensures ret == self.some@ { unimplemented!() }
    #[verifier::external_body]
    pub fn execute(&mut self, work: &Workspace, u: &NumVector, l: R, args: &mut VxArgs) -> (ret: Result<bool, StrError>)
        requires old(self).some@, !old(self).stopped@
        ensures final(self).some@, ret is Ok ==> final(self).stopped@ == ret->Ok_0,
    { unimplemented!() }
}
#[verifier::external_body]
pub fn vec_all_finite(v: &NumVector, debug: bool) -> Result<(), StrError> { unimplemented!() }

//@struct russell_nonlin/src/solver.rs Solver actual:VxActual config:Config

// trusted: the step size controller changes only its own history (its divisions are those of floating point numbers)
//@fn russell_nonlin/src/solver.rs Solver::adapt_stepsize
//@attr
#[verifier::external_body]
//@spec
    ensures final(self).config == old(self).config, final(self).ndim == old(self).ndim, final(self).actual == old(self).actual, final(self).work == old(self).work,
//@endfn

// no accepted point but the last one has reached the target
pub open spec fn before_target(acc: Seq<Pt>, stop: Stop) -> bool { forall|k: int| 0 <= k < acc.len() - 1 ==> !stop.reached(k + 1, (#[trigger] acc[k]).u, acc[k].l) }
pub open spec fn none_passed(acc: Seq<Pt>, stop: Stop) -> bool { forall|k: int| 0 <= k < acc.len() ==> stop.not_passed((#[trigger] acc[k]).u) }
pub open spec fn at_target(acc: Seq<Pt>, stop: Stop) -> bool { acc.len() > 0 && stop.reached(acc.len() as int, acc.last().u, acc.last().l) }
pub open spec fn budget(c: &Config, d: &DeltaLambda) -> int { if !d.auto && d.list@.len() > 0 { d.list@.len() as int } else { c.n_step_max as int } }

// the steps are those of the list
pub open spec fn follows_list(hs: Seq<real>, d: &DeltaLambda, first: real) -> bool { d.list@.len() > 0 ==> hs.len() <= d.list@.len() && (hs.len() > 0 ==> hs[0] == first) && forall|k: int| 1 <= k < hs.len() ==> hs[k] == (#[trigger] d.list@[k])@ }

//@fn russell_nonlin/src/solver.rs Solver::solve fn:output=VxOutput opt:output
//@spec
    requires
        old(self).actual.acc@.len() == 0, old(self).actual.ns@ == 0, old(self).actual.nr@ == 0, !old(self).actual.pend@, !old(self).actual.broken@, !old(output).stopped@,
        old(self).actual.hs@.len() == 0, old(self).actual.natural@ == (old(self).config.method is Natural),
        old(self).work.u.data@.len() == old(self).ndim,
    ensures
        // inconsistent targets are refused before anything is computed
        old(u).data@.len() != old(self).ndim || !stop.ahead(old(u).data@, old(l)@) ==> ret is Err && final(self).actual == old(self).actual && final(u).data@ == old(u).data@ && final(l)@ == old(l)@,
        // whatever happens, the state and parameter are those of the last accepted point
        !final(self).actual.broken@ && final(self).actual.ns@ > 0 ==> final(self).actual.here() == (Pt { u: final(u).data@, l: final(l)@ }),
        final(self).actual.ns@ == 0 ==> final(u).data@ == old(u).data@ && final(l)@ == old(l)@,
        final(self).actual.ns@ > 0 ==> final(self).actual.ini@ == (Pt { u: old(u).data@, l: old(l)@ }),
        // the run does not go on after the target
        before_target(final(self).actual.acc@, stop),
        ddl.auto && old(self).config.enable_precise_stop_u_comp ==> none_passed(final(self).actual.acc@, stop),
        // natural continuation takes the listed steps, one after the other
        !ddl.auto && old(self).config.method is Natural ==> follows_list(final(self).actual.hs@, ddl, ddl.first(stop, old(l)@)),
        // success only after a successful step, for a reason
        ret is Ok && ret->Ok_0 is Success && final(self).actual.ns@ > 0 ==> final(self).actual.good@ && !final(self).actual.pend@,
        ret is Ok && ret->Ok_0 is Success ==> {
            ||| old(output).some@ && final(output).stopped@
            ||| at_target(final(self).actual.acc@, stop)
            ||| ddl.auto && final(self).work.target_reached
            ||| final(self).actual.ns@ == budget(&old(self).config, ddl)
        },
        ret is Ok ==> final(self).work.stats.n_steps == final(self).actual.ns@ && final(self).work.stats.n_accepted == final(self).actual.acc@.len() && final(self).work.stats.n_rejected == final(self).actual.nr@,
//@loop 0
            invariant_except_break
                self.actual.ns@ == i, !output.stopped@, !self.actual.pend@, !at_target(self.actual.acc@, stop), self.actual.acc@.len() == i,
                self.actual.natural@ && i < ddl.list@.len() ==> self.work.h@ == (if i == 0 { ddl.first(stop, old(l)@) } else { ddl.list@[i as int]@ }),
            invariant
                !ddl.auto, n_step_max == budget(&self.config, ddl), self.actual.nr@ == 0,
                self.actual.natural@ == (self.config.method is Natural), self.actual.natural@ ==> follows_list(self.actual.hs@, ddl, ddl.first(stop, old(l)@)), self.actual.hs@.len() == self.actual.ns@,
                self.config == old(self).config, old(u).data@.len() == old(self).ndim, self.ndim == old(self).ndim, stop.ahead(old(u).data@, old(l)@), stop.fits(self.ndim as int),
                u.data@.len() == self.ndim, self.work.u.data@.len() == self.ndim, output.some@ == old(output).some@, output.stopped@ ==> output.some@,
                !self.actual.broken@, self.actual.here() == (Pt { u: u.data@, l: l@ }), self.actual.ini@ == (Pt { u: old(u).data@, l: old(l)@ }),
                before_target(self.actual.acc@, stop),
                self.work.stats.n_steps == self.actual.ns@, self.work.stats.n_accepted == self.actual.acc@.len(), self.work.stats.n_rejected == self.actual.nr@,
                self.actual.nr@ <= self.actual.ns@, self.actual.acc@.len() <= self.actual.ns@,
                status is Success && self.actual.ns@ > 0 ==> self.actual.good@ && !self.actual.pend@,
            ensures
                status is Success ==> output.stopped@ || at_target(self.actual.acc@, stop) || (ddl.auto && self.work.target_reached) || self.actual.ns@ == budget(&self.config, ddl),
//@loop 1
            invariant_except_break
                self.actual.ns@ == _vx_i, !output.stopped@, !self.actual.pend@, !at_target(self.actual.acc@, stop), self.work.n_continued_failure <= _vx_i,
            invariant
                ddl.auto, self.config.enable_precise_stop_u_comp ==> none_passed(self.actual.acc@, stop),
                self.config == old(self).config, old(u).data@.len() == old(self).ndim, self.ndim == old(self).ndim, stop.ahead(old(u).data@, old(l)@), stop.fits(self.ndim as int),
                u.data@.len() == self.ndim, self.work.u.data@.len() == self.ndim, output.some@ == old(output).some@, output.stopped@ ==> output.some@,
                !self.actual.broken@, self.actual.here() == (Pt { u: u.data@, l: l@ }), self.actual.ini@ == (Pt { u: old(u).data@, l: old(l)@ }),
                before_target(self.actual.acc@, stop),
                self.work.stats.n_steps == self.actual.ns@, self.work.stats.n_accepted == self.actual.acc@.len(), self.work.stats.n_rejected == self.actual.nr@,
                self.actual.nr@ <= self.actual.ns@, self.actual.acc@.len() <= self.actual.ns@,
                status is Success && self.actual.ns@ > 0 ==> self.actual.good@ && !self.actual.pend@,
            ensures
                status is Success ==> output.stopped@ || at_target(self.actual.acc@, stop) || (ddl.auto && self.work.target_reached) || self.actual.ns@ == budget(&self.config, ddl),
//@endfn

// ---------------------------------------------------------------- natural continuation
// ---- trusted: the iteration control, with the contracts proved in C33 (seen: the residual analysed last) ----
pub struct VxErr { pub residual_max: R, pub conv: Ghost<bool>, pub nmax: Ghost<int>, pub seen: Ghost<Seq<R>>, pub seen_nn: Ghost<real> }
impl VxErr {
    #[verifier::external_body]
    pub fn reset(&mut self, u: &NumVector, l: R) ensures !final(self).conv@, final(self).nmax == old(self).nmax { unimplemented!() }
    #[verifier::external_body]
    pub fn converged(&self) -> (ret: bool) ensures ret == self.conv@ { unimplemented!() }
    #[verifier::external_body]
    pub fn analyze_residual(&mut self, iteration: usize, gg: &NumVector, nn: R) -> (ret: bool)
        ensures final(self).nmax == old(self).nmax, final(self).seen@ == gg.data@, final(self).seen_nn@ == nn@ { unimplemented!() }
    #[verifier::external_body]
    pub fn analyze_delta(&mut self, iteration: usize, x: &NumVector) -> (ret: bool)
        ensures final(self).nmax == old(self).nmax, final(self).seen == old(self).seen, final(self).seen_nn == old(self).seen_nn { unimplemented!() }
    #[verifier::external_body]
    pub fn capture_failures(&mut self, iteration: usize) -> (ret: Status)
        ensures final(self).nmax == old(self).nmax, final(self).seen == old(self).seen, final(self).seen_nn == old(self).seen_nn, final(self).conv == old(self).conv,
            iteration == old(self).nmax@ - 1 ==> !(ret is Success) { unimplemented!() }
}
// ---- trusted: the functions of the problem ----
pub uninterp spec fn vx_gg(l: real, u: Seq<R>) -> Seq<R>;
pub struct VxGg { pub x: usize }
impl VxGg {
    #[verifier::external_body]
    pub fn call(&self, gg: &mut NumVector, l: R, u: &NumVector, args: &mut VxArgs) -> (ret: Result<(), StrError>)
        ensures final(gg).data@.len() == old(gg).data@.len(), ret is Ok ==> final(gg).data@ == vx_gg(l@, u.data@) { unimplemented!() }
}
pub struct VxHook { pub x: usize }
impl VxHook {
    #[verifier::external_body]
    pub fn call(&self, args: &mut VxArgs) { unimplemented!() }
}
pub struct VxUpdate { pub x: usize }
impl VxUpdate {
    #[verifier::external_body]
    pub fn call(&self, backup: bool, u0: &NumVector, u1: &NumVector, l0: R, l1: R, args: &mut VxArgs) -> Result<bool, StrError> { unimplemented!() }
}
//@struct russell_nonlin/src/system.rs System -nnz_ggu -sym_ggu -calc_jac calc_gg:VxGg backup_secondary_state:Option<VxHook> restore_secondary_state:Option<VxHook> prepare_to_iterate:Option<VxHook> update_secondary_state:Option<VxUpdate>
// ---- trusted: the linear solver ----
pub struct VxLs { pub x: usize }
impl VxLs {
    #[verifier::external_body]
    pub fn solve(&mut self, x: &mut NumVector, b: &NumVector, verbose: bool) -> (ret: Result<(), StrError>)
        ensures final(x).data@.len() == old(x).data@.len() { unimplemented!() }
}
pub struct VxLinSolver { pub actual: VxLs }
//@struct russell_nonlin/src/solver_natural.rs SolverNatural -ggu ls:VxLinSolver config:Config system:System
// ---- trusted: vectors ----
#[verifier::external_body]
pub fn vec_copy(v: &mut NumVector, u: &NumVector) -> (ret: Result<(), StrError>)
    ensures final(v).data@.len() == old(v).data@.len(), ret is Ok <==> old(v).data@.len() == u.data@.len(), ret is Ok ==> final(v).data@ == u.data@ { unimplemented!() }
#[verifier::external_body]
pub fn vec_add(w: &mut NumVector, a: R, u: &NumVector, b: R, v: &NumVector) -> (ret: Result<(), StrError>)
    ensures final(w).data@.len() == old(w).data@.len(), ret is Ok <==> u.data@.len() == old(w).data@.len() && v.data@.len() == old(w).data@.len() { unimplemented!() }
#[verifier::external_body]
pub fn vec_update(v: &mut NumVector, a: R, u: &NumVector) -> (ret: Result<(), StrError>)
    ensures final(v).data@.len() == old(v).data@.len(), ret is Ok <==> u.data@.len() == old(v).data@.len() { unimplemented!() }

//@fn russell_nonlin/src/stats.rs Stats::stop_sw_lin_sol
//@spec
    ensures *final(self) == (Stats { nanos_lin_sol_max: final(self).nanos_lin_sol_max, sw_lin_sol: final(self).sw_lin_sol, ..*old(self) }),
//@endfn
//@fn russell_nonlin/src/stats.rs Stats::record_iterations_residuals_start
//@spec
    ensures *final(self) == (Stats { temporary_iterations_residuals: final(self).temporary_iterations_residuals, iterations_residuals: final(self).iterations_residuals, ..*old(self) }),
//@endfn
//@fn russell_nonlin/src/stats.rs Stats::record_iterations_residuals_append
//@spec
    ensures *final(self) == (Stats { temporary_iterations_residuals: final(self).temporary_iterations_residuals, ..*old(self) }),
//@endfn
//@fn russell_nonlin/src/stats.rs Stats::record_iterations_residuals_stop
//@spec
    ensures *final(self) == (Stats { iterations_residuals: final(self).iterations_residuals, ..*old(self) }),
//@endfn

pub open spec fn room(a: &Stats, n: int) -> bool { a.n_function + n < usize::MAX && a.n_lin_sol + n < usize::MAX && a.n_iteration_total + n < usize::MAX }
// the parameter after a step of size h, not beyond the target
pub open spec fn aim(stop: Stop, l: real, step: real) -> real {
    match stop {
        Stop::MinLambda(t) => if l + step <= t@ { t@ } else { l + step },
        Stop::MaxLambda(t) => if l + step >= t@ { t@ } else { l + step },
        _ => l + step,
    }
}
impl SolverNatural {
    pub open spec fn wf(&self) -> bool {
        &&& self.mdu.data@.len() == self.system.ndim && self.ggl.data@.len() == self.system.ndim && self.u_prev.data@.len() == self.system.ndim
        &&& self.sign0@ == 1real || self.sign0@ == -1real
        &&& self.config.n_iteration_max >= 1 && self.config.tg_control_tol@ > 0real && self.system.ndim >= 1
    }
    pub open spec fn same(&self, o: &SolverNatural) -> bool { self.config == o.config && self.system == o.system && self.sign0 == o.sign0 && self.u_prev == o.u_prev }
    // ---- trusted: assembly and factorization of the Jacobian matrix ----
    #[verifier::external_body]
    pub fn assemble_and_factorize_jac(&mut self, work: &mut Workspace, args: &mut VxArgs) -> (ret: Result<(), StrError>)
        ensures final(self).same(old(self)), final(self).mdu == old(self).mdu, final(self).ggl.data@.len() == old(self).ggl.data@.len(), kept_by_iteration(old(work), final(work)),
            final(work).u == old(work).u, final(work).gg == old(work).gg, final(work).err == old(work).err,
            final(work).stats.n_function == old(work).stats.n_function, final(work).stats.n_lin_sol == old(work).stats.n_lin_sol, final(work).stats.n_iteration_total == old(work).stats.n_iteration_total,
    { unimplemented!() }
}
pub open spec fn kept_by_iteration(a: &Workspace, b: &Workspace) -> bool {
    &&& same_control(a, b) && a.l == b.l && a.h == b.h && a.n_iteration == b.n_iteration && a.auto == b.auto && a.err.nmax == b.err.nmax && a.target_reached == b.target_reached
    &&& a.predictor_values_debug == b.predictor_values_debug
}

//@fn russell_nonlin/src/solver_natural.rs <SolverTrait for SolverNatural>::initialize
//@spec
    ensures
        final(work).h == ddl_ini, same_control(old(work), final(work)), final(self).sign0@ == (if dir is Pos { 1real } else { -1real }),
//@endfn
//@fn russell_nonlin/src/solver_natural.rs SolverNatural::iterate fn:f=VxUpdate
//@spec
    requires old(self).wf(), u.data@.len() == old(self).system.ndim, old(work).u.data@.len() == old(self).system.ndim, room(&old(work).stats, 1),
    ensures
        final(self).wf(), final(self).same(old(self)), kept_by_iteration(old(work), final(work)),
        final(work).stats.n_function <= old(work).stats.n_function + 1, final(work).stats.n_lin_sol <= old(work).stats.n_lin_sol + 1, final(work).stats.n_iteration_total == old(work).stats.n_iteration_total,
        // convergence is that of the point left in the workspace
        ret is Ok && ret->Ok_0 is Success && final(work).err.conv@ ==> final(work).err.seen@ == vx_gg(final(work).l@, final(work).u.data@),
        // no success without convergence in the last iteration
        ret is Ok && ret->Ok_0 is Success && !final(work).err.conv@ ==> old(work).n_iteration != old(work).err.nmax@ - 1,
//@endfn
//@fn russell_nonlin/src/solver_natural.rs <SolverTrait for SolverNatural>::step fn:f=VxUpdate
//@attr
#[verifier::loop_isolation(false)]
//@spec
    requires old(self).wf(), u.data@.len() == old(self).system.ndim, old(work).u.data@.len() == old(self).system.ndim, room(&old(work).stats, old(self).config.n_iteration_max + 2),
        old(work).err.nmax@ == old(self).config.n_iteration_max,
    ensures
        final(self).wf(), final(self).same(old(self)), same_control(old(work), final(work)),
        // the parameter is the prescribed one: the target when the step reaches it, never beyond
        ret is Ok ==> final(work).l@ == aim(stop, l@, old(self).sign0@ * old(work).h@),
        // success only for a point with a converged iteration
        ret is Ok && ret->Ok_0 is Success ==> final(work).err.conv@ && final(work).err.seen@ == vx_gg(final(work).l@, final(work).u.data@),
//@start
        proof {
            let t = match stop { Stop::MinLambda(t) => t@, Stop::MaxLambda(t) => t@, _ => 0real };
            let s = self.sign0@;
            assert(s * ((t - l@) * s) == t - l@) by (nonlinear_arith) requires s == 1real || s == -1real;
        }
//@loop 0
            invariant_except_break
                work.n_iteration == _vx_i, status is Success, _vx_i < work.err.nmax@, room(&work.stats, self.config.n_iteration_max - _vx_i + 2),
            invariant
                work.err.nmax@ == self.config.n_iteration_max,
                self.wf(), self.same(old(self)), same_control(old(work), work), u.data@.len() == self.system.ndim, work.u.data@.len() == self.system.ndim,
                work.l@ == aim(stop, l@, old(self).sign0@ * old(work).h@),
            ensures
                status is Success ==> work.err.conv@ && work.err.seen@ == vx_gg(work.l@, work.u.data@),
//@endfn
//@fn russell_nonlin/src/solver_natural.rs SolverNatural::calculate_rerr
//@spec
    requires old(self).wf(), u.data@.len() == old(self).system.ndim, old(work).u.data@.len() == old(self).system.ndim,
    ensures *final(self) == *old(self), *final(work) == *old(work),
//@loop 0
            invariant *self == *old(self), *work == *old(work), self.wf(), ndim == self.system.ndim, u.data@.len() == ndim, work.u.data@.len() == ndim,
//@endfn
//@fn russell_nonlin/src/solver_natural.rs <SolverTrait for SolverNatural>::accept
//@spec
    requires old(self).wf(), old(u).data@.len() == old(self).system.ndim, old(work).u.data@.len() == old(self).system.ndim,
    ensures
        ret is Ok, final(self).wf(), same_control(old(work), final(work)),
        // the point of the workspace becomes the state
        final(u).data@ == old(work).u.data@, final(l)@ == old(work).l@,
//@endfn

} // verus!
fn main() {}
