//@include inc_radau.rs
verus! {
//@fn russell_ode/src/stats.rs Stats::new
//@spec
    ensures ret.n_steps == 0, ret.n_accepted == 0, ret.n_rejected == 0, ret.n_function == 0,
//@endfn
//@fn russell_ode/src/stats.rs Stats::reset
//@spec
    ensures final(self).n_steps == 0, final(self).n_accepted == 0, final(self).n_rejected == 0, final(self).n_function == 0, final(self).n_jacobian == 0,
        final(self).n_factor == 0, final(self).n_lin_sol == 0, final(self).n_iterations == 0, final(self).n_iterations_max == 0, final(self).h_accepted == h,
//@endfn
//@fn russell_ode/src/stats.rs Stats::stop_sw_step
//@spec
    ensures same_counts(old(self), final(self)),
//@endfn
//@fn russell_ode/src/stats.rs Stats::stop_sw_total
//@spec
    ensures same_counts(old(self), final(self)),
//@endfn
pub open spec fn same_counts(a: &Stats, b: &Stats) -> bool {
    a.n_steps == b.n_steps && a.n_accepted == b.n_accepted && a.n_rejected == b.n_rejected && a.n_function == b.n_function && a.h_accepted == b.h_accepted && a.n_iterations == b.n_iterations
}
//@fn russell_ode/src/workspace.rs Workspace::new
//@spec
    ensures ret.stats.n_steps == 0, ret.stats.n_accepted == 0, ret.stats.n_rejected == 0, !ret.follows_reject_step, !ret.iterations_diverging,
//@endfn
//@fn russell_ode/src/workspace.rs Workspace::reset
//@spec
    ensures final(self).stats.n_steps == 0, final(self).stats.n_accepted == 0, final(self).stats.n_rejected == 0, final(self).stats.n_function == 0,
        !final(self).follows_reject_step, !final(self).iterations_diverging,
        final(self).h_multiplier_diverging@ == 1real, final(self).h_prev == h, final(self).h_new == h, final(self).rel_error_prev == rel_error_prev_min,
        final(self).stiff_n_detection_no == 0, final(self).stiff_n_detection_yes == 0, !final(self).stiff_detected, final(self).stiff_h_times_rho@ == 0real,
//@endfn

// ---------------------------------------------------------------- parameters
impl ParamsStep {
    pub open spec fn valid(&self) -> bool {
        &&& 0real < self.m_min@ && self.m_min@ < 1real && self.m_min@ < self.m_max@ && 0real < self.m_max@
        &&& 0real < self.m_safety@ && self.m_safety@ <= 1real && self.m_first_reject@ >= 0real && self.h_ini@ > 0real && self.n_step_max >= 1 && self.rel_error_prev_min@ > 0real
    }
}
impl ParamsERK {
    pub open spec fn valid(&self) -> bool { 0real <= self.lund_beta@ && self.lund_beta@ <= 1real / 10real && 0real <= self.lund_m@ && self.lund_m@ <= 1real }
}
//@fn russell_ode/src/params.rs ParamsNewton::validate
//@spec
    ensures ret is Ok <==> self.n_iteration_max >= 1,
//@endfn
//@fn russell_ode/src/params.rs ParamsStep::validate
//@spec
    ensures ret is Ok ==> self.valid(),
//@endfn
//@fn russell_ode/src/params.rs ParamsRadau5::validate
//@spec
    ensures ret is Ok ==> self.theta_max@ > 0real && 0real < self.c1h@ && self.c1h@ < self.c2h@,
//@endfn
//@fn russell_ode/src/params.rs ParamsERK::validate
//@spec
    ensures ret is Ok ==> self.valid(),
//@endfn
//@fn russell_ode/src/params.rs Params::validate
//@spec
    ensures ret is Ok ==> self.step.valid() && self.erk.valid() && self.newton.n_iteration_max >= 1 && self.radau5.theta_max@ > 0real && 0real < self.radau5.c1h@ && self.radau5.c1h@ < self.radau5.c2h@,
//@endfn

// ---------------------------------------------------------------- the control loop
// one call of the integrator: 0 = step, 1 = accept, 2 = reject
pub struct Ev { pub kind: int, pub x: real, pub h: real, pub y: Seq<R>, pub err: real, pub div: bool, pub mult: real, pub yn: Seq<R>, pub hn: real, pub na: int }
pub open spec fn same_control(a: &Workspace, b: &Workspace) -> bool {
    &&& a.follows_reject_step == b.follows_reject_step && a.h_prev == b.h_prev && a.rel_error_prev == b.rel_error_prev
    &&& a.stats.n_steps == b.stats.n_steps && a.stats.n_accepted == b.stats.n_accepted && a.stats.n_rejected == b.stats.n_rejected && a.stats.h_accepted == b.stats.h_accepted
}
// ---- trusted: the integrator behind the interface OdeSolverTrait; its calls are recorded (the implementations are verified below) ----
pub struct VxActual { pub log: Ghost<Seq<Ev>>, pub acc: Ghost<Seq<Ev>>, pub ns: Ghost<int>, pub nr: Ghost<int>, pub par: Ghost<Params> }
impl VxActual {
    #[verifier::external_body]
    pub fn enable_dense_output(&mut self) -> (ret: Result<(), StrError>) ensures *final(self) == *old(self) { unimplemented!() }
    #[verifier::external_body]
    pub fn step(&mut self, work: &mut Workspace, x: R, y: &NumVector, h: R, args: &mut VxArgs) -> (ret: Result<(), StrError>)
        requires h@ > 0real
        ensures
            same_control(old(work), final(work)), final(work).h_new == old(work).h_new, final(self).acc == old(self).acc, final(self).nr == old(self).nr, final(self).par == old(self).par,
            ret is Err ==> final(self).log == old(self).log && final(self).ns == old(self).ns,
            ret is Ok ==> final(self).ns@ == old(self).ns@ + 1 && exists|e: Ev| final(self).log@ == #[trigger] old(self).log@.push(e) && e.kind == 0 && e.x == x@ && e.h == h@ && e.y == y.data@
                && e.err == final(work).rel_error@ && e.div == final(work).iterations_diverging && e.mult == final(work).h_multiplier_diverging@ && e.na == old(self).acc@.len(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn accept(&mut self, work: &mut Workspace, x: &mut R, y: &mut NumVector, h: R, args: &mut VxArgs) -> (ret: Result<(), StrError>)
        ensures
            same_control(old(work), final(work)), final(work).rel_error == old(work).rel_error, final(work).iterations_diverging == old(work).iterations_diverging,
            final(self).ns == old(self).ns, final(self).nr == old(self).nr, final(self).par == old(self).par,
            ret is Err ==> final(self).log == old(self).log && final(self).acc == old(self).acc,
            ret is Ok ==> final(x)@ == old(x)@ + h@ && final(y).data@.len() == old(y).data@.len() && final(self).acc@ == old(self).acc@.push(final(self).log@.last())
                && exists|e: Ev| final(self).log@ == #[trigger] old(self).log@.push(e) && e.kind == 1 && e.x == old(x)@ && e.h == h@ && e.y == old(y).data@ && e.yn == final(y).data@ && e.hn == final(work).h_new@ && e.na == old(self).acc@.len(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn reject(&mut self, work: &mut Workspace, h: R)
        ensures
            same_control(old(work), final(work)), final(work).rel_error == old(work).rel_error, final(work).iterations_diverging == old(work).iterations_diverging,
            final(self).ns == old(self).ns, final(self).acc == old(self).acc, final(self).par == old(self).par,
            final(self).nr@ == old(self).nr@ + (if old(self).acc@.len() > 0 { 1int } else { 0int }),
            exists|e: Ev| final(self).log@ == #[trigger] old(self).log@.push(e) && e.kind == 2 && e.h == h@ && e.hn == final(work).h_new@ && e.na == old(self).acc@.len()
                && (old(self).log@.len() > 0 ==> e.x == old(self).log@.last().x && e.y == old(self).log@.last().y),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn update_params(&mut self, params: Params)
        ensures final(self).par@ == params
    { unimplemented!() }
}
// ---- trusted: the optional recorder of results ----
pub struct Rec { pub x: real, pub h: real, pub y: Seq<R> }
pub struct VxOutput { pub some: Ghost<bool>, pub log: Ghost<Seq<Rec>>, pub stopped: Ghost<bool>, pub closed: Ghost<bool> }
impl VxOutput {
    #[verifier::external_body]
    pub fn is_some(&self) -> (ret: bool) ensures ret == self.some@ { unimplemented!() }
    #[verifier::external_body]
    pub fn initialize(&mut self, x0: R, x1: R, save: bool) -> (ret: Result<(), StrError>)
        requires old(self).some@
        ensures final(self).some@, ret is Ok ==> final(self).log@.len() == 0 && !final(self).stopped@ && !final(self).closed@
    { unimplemented!() }
    #[verifier::external_body]
    pub fn with_dense_output(&self) -> bool { unimplemented!() }
    #[verifier::external_body]
    pub fn execute(&mut self, work: &Workspace, h: R, x: R, y: &NumVector, actual: &VxActual, args: &mut VxArgs) -> (ret: Result<bool, StrError>)
        requires old(self).some@, !old(self).stopped@, !old(self).closed@
        ensures final(self).some@, !final(self).closed@,
            ret is Ok ==> final(self).log@ == old(self).log@.push(Rec { x: x@, h: h@, y: y.data@ }) && final(self).stopped@ == ret->Ok_0,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn last(&mut self, work: &Workspace, h: R, x: R, y: &NumVector, args: &mut VxArgs) -> (ret: Result<(), StrError>)
        requires old(self).some@, !old(self).stopped@, !old(self).closed@, old(self).log@.len() > 0, old(self).log@.last().x == x@, old(self).log@.last().y == y.data@
        ensures final(self).some@, !final(self).stopped@, final(self).log == old(self).log, ret is Ok ==> final(self).closed@,
    { unimplemented!() }
}
#[verifier::external_body]
pub fn vec_all_finite(v: &NumVector, debug: bool) -> Result<(), StrError> { unimplemented!() }

//@struct russell_ode/src/ode_solver.rs OdeSolver actual:VxActual

// data of a run: variable or equal steps, interval, initial state, first step, factor after a rejected first step
pub struct Run { pub v: bool, pub x0: real, pub x1: real, pub y0: Seq<R>, pub h0: real, pub mf: real }
// position after the recorded calls
pub open spec fn cur_x(s: Seq<Ev>, c: Run) -> real { if s.len() == 0 { c.x0 } else if s.last().kind == 1 { s.last().x + s.last().h } else { s.last().x } }
pub open spec fn cur_y(s: Seq<Ev>, c: Run) -> Seq<R> { if s.len() == 0 { c.y0 } else if s.last().kind == 1 { s.last().yn } else { s.last().y } }
// the last call belongs to a step that has not been accepted
pub open spec fn after_reject(s: Seq<Ev>) -> bool { s.len() > 0 && s.last().kind != 1 }
// size of the next step, before it is cut at the end of the interval
pub open spec fn next_h(s: Seq<Ev>, c: Run) -> real {
    if s.len() == 0 { c.h0 }
    else if s.last().kind == 2 { s.last().hn }
    else if s.last().kind == 0 { if s.last().div { s.last().h * s.last().mult } else { s.last().h * c.mf } }
    // no growth after a rejected step
    else if s.len() >= 2 && after_reject(s.take(s.len() - 2)) { rmin(s.last().hn, s.last().h) }
    else { s.last().hn }
}
pub open spec fn ev_ok(s: Seq<Ev>, i: int, c: Run) -> bool {
    let e = s[i];
    let p = s[i - 1];
    if e.kind == 0 {
        &&& e.x == cur_x(s.take(i), c) && e.y == cur_y(s.take(i), c)
        &&& e.h == if c.v { rmin(next_h(s.take(i), c), c.x1 - e.x) } else { c.h0 }
        &&& e.h > 0real
        &&& c.v ==> e.x + e.h <= c.x1
        // without accept or reject: diverging, or rejected before the first accepted step
        &&& i > 0 && p.kind == 0 ==> c.v && (p.div || (p.err >= 1real && p.na == 0 && c.mf > 0real))
    } else {
        &&& i > 0 && p.kind == 0 && e.x == p.x && e.h == p.h && e.y == p.y && !p.div
        &&& if e.kind == 1 { c.v ==> p.err < 1real } else { e.kind == 2 && c.v && p.err >= 1real && !(p.na == 0 && c.mf > 0real) }
    }
}
pub open spec fn all_ok(s: Seq<Ev>, c: Run) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] ev_ok(s, i, c) }
pub proof fn lemma_push(s: Seq<Ev>, e: Ev, c: Run)
    requires all_ok(s, c), ev_ok(s.push(e), s.len() as int, c)
    ensures all_ok(s.push(e), c)
{
    assert forall|i: int| 0 <= i < s.push(e).len() implies #[trigger] ev_ok(s.push(e), i, c) by {
        if i < s.len() {
            assert(ev_ok(s, i, c));
            assert(s.push(e).take(i) =~= s.take(i));
            assert(s.push(e)[i] == s[i]);
            if i > 0 { assert(s.push(e)[i - 1] == s[i - 1]); }
        }
    }
}
// what has been recorded: the initial state and all accepted states in order
pub open spec fn recorded(o: &VxOutput, acc: Seq<Ev>, c: Run) -> bool {
    &&& o.log@.len() == acc.len() + 1
    &&& o.log@[0].x == c.x0 && o.log@[0].y == c.y0
    &&& forall|i: int| 0 <= i < acc.len() ==> (#[trigger] o.log@[i + 1]).x == acc[i].x + acc[i].h && o.log@[i + 1].h == acc[i].h && o.log@[i + 1].y == acc[i].yn
}
// number of equal steps
pub open spec fn right_count(n: int, x0: real, x1: real, h_equal: Option<R>) -> bool {
    match h_equal {
        Some(h) => n >= 1 && ((x1 - x0) / h@ <= (usize::MAX as real) ==> ((n - 1) as real) < (x1 - x0) / h@ && (x1 - x0) / h@ <= n as real),
        None => n == 10,
    }
}
pub open spec fn run_of(v: bool, x0: real, x1: real, y0: Seq<R>, h0: real, mf: real) -> Run { Run { v, x0, x1, y0, h0, mf } }

// a step that is neither accepted nor rejected is repeated for a reason
pub open spec fn open_ok(s: Seq<Ev>, c: Run) -> bool {
    s.len() > 0 && s.last().kind == 0 ==> c.v && (s.last().div || (s.last().err >= 1real && s.last().na == 0 && c.mf > 0real))
}
pub proof fn lemma_usize_max()
    ensures (usize::MAX as real) >= 10real
{}
pub proof fn lemma_step(s: Seq<Ev>, e: Ev, c: Run)
    requires
        all_ok(s, c), open_ok(s, c), e.kind == 0, e.x == cur_x(s, c), e.y == cur_y(s, c), e.h == if c.v { rmin(next_h(s, c), c.x1 - e.x) } else { c.h0 }, e.h > 0real,
    ensures all_ok(s.push(e), c)
{
    assert(s.push(e).take(s.len() as int) =~= s);
    assert(ev_ok(s.push(e), s.len() as int, c));
    lemma_push(s, e, c);
}
pub proof fn lemma_accept(s: Seq<Ev>, e: Ev, c: Run)
    requires
        all_ok(s, c), s.len() > 0, s.last().kind == 0, e.kind == 1, e.x == s.last().x, e.h == s.last().h, e.y == s.last().y, !s.last().div, c.v ==> s.last().err < 1real,
    ensures all_ok(s.push(e), c)
{
    assert(ev_ok(s.push(e), s.len() as int, c));
    lemma_push(s, e, c);
}
pub proof fn lemma_reject(s: Seq<Ev>, e: Ev, c: Run)
    requires
        all_ok(s, c), s.len() > 0, s.last().kind == 0, e.kind == 2, e.x == s.last().x, e.h == s.last().h, e.y == s.last().y, !s.last().div, c.v, s.last().err >= 1real, !(s.last().na == 0 && c.mf > 0real),
    ensures all_ok(s.push(e), c)
{
    assert(ev_ok(s.push(e), s.len() as int, c));
    lemma_push(s, e, c);
}
pub proof fn lemma_ratio(p: real, q: real)
    requires q != 0real
    ensures (p / q) * q == p
{
    assert((p / q) * q == p) by (nonlinear_arith) requires q != 0real;
}

//@fn russell_ode/src/ode_solver.rs OdeSolver::update_params
//@spec
    ensures
        ret is Ok ==> final(self).params == params && final(self).actual.par@ == params && params.step.valid() && params.erk.valid() && params.method == old(self).params.method,
        ret is Err ==> final(self).params == old(self).params && final(self).actual == old(self).actual,
        final(self).ndim == old(self).ndim, final(self).work == old(self).work,
//@endfn

//@fn russell_ode/src/ode_solver.rs OdeSolver::solve fn:output=VxOutput opt:output
//@spec
    requires
        old(self).actual.log@.len() == 0, old(self).actual.acc@.len() == 0, old(self).actual.ns@ == 0, old(self).actual.nr@ == 0, old(self).params.step.valid(),
    ensures
        // refused before anything is done
        old(y0).data@.len() != old(self).ndim || x1@ <= x0@ ==> ret is Err && final(self).actual == old(self).actual && final(y0).data@ == old(y0).data@,
        final(self).params == old(self).params,
        // variable steps
        h_equal is None && embedded(old(self).params.method) && x0@ < x1@ ==> {
            let c = run_of(true, x0@, x1@, old(y0).data@, rmin(old(self).params.step.h_ini@, x1@ - x0@), old(self).params.step.m_first_reject@);
            &&& all_ok(final(self).actual.log@, c)
            &&& ret is Ok ==> final(y0).data@ == cur_y(final(self).actual.log@, c)
                && (old(output).some@ && final(output).stopped@ || x1@ - 10real / 4503599627370496real <= cur_x(final(self).actual.log@, c) && cur_x(final(self).actual.log@, c) <= x1@)
                && (old(output).some@ ==> recorded(final(output), final(self).actual.acc@, c) && (final(output).stopped@ || final(output).closed@))
                && final(self).work.stats.n_steps == final(self).actual.ns@ && final(self).work.stats.n_accepted == final(self).actual.acc@.len() && final(self).work.stats.n_rejected == final(self).actual.nr@
        },
        // equal steps
        ret is Ok && !(h_equal is None && embedded(old(self).params.method)) ==> exists|n: int| #[trigger] right_count(n, x0@, x1@, h_equal) && {
            let c = run_of(false, x0@, x1@, old(y0).data@, (x1@ - x0@) / (n as real), 0real);
            &&& all_ok(final(self).actual.log@, c)
            &&& final(y0).data@ == cur_y(final(self).actual.log@, c)
            &&& old(output).some@ && final(output).stopped@ || cur_x(final(self).actual.log@, c) == x1@ && final(self).actual.acc@.len() == n
            &&& old(output).some@ ==> recorded(final(output), final(self).actual.acc@, c) && (final(output).stopped@ || final(output).closed@)
            &&& final(self).work.stats.n_steps == final(self).actual.ns@ && final(self).work.stats.n_accepted == final(self).actual.acc@.len()
        },
//@after stmt `let n = `
                proof {
                    let d = x1@ - x0@; let q = h_eq@;
                    assert(d / q > 0real) by (nonlinear_arith) requires d > 0real, q > 0real;
                    lemma_usize_max();
                }
//@after stmt `let (equal_stepping`
        proof {
            let d = x1@ - x0@;
            if equal_stepping {
                let k = nstep as real;
                assert(d / k > 0real) by (nonlinear_arith) requires d > 0real, k >= 1real;
                if h_equal is Some { assert(right_count(nstep as int, x0@, x1@, h_equal)); }
            }
        }
//@before stmt `if output.is_some()`
        let ghost c = if equal_stepping { run_of(false, x0@, x1@, y.data@, h@, 0real) } else { run_of(true, x0@, x1@, y.data@, h@, self.params.step.m_first_reject@) };
//@before loop 0
            proof { let q = h@; assert(0real * q == 0real) by (nonlinear_arith); }
//@before stmt `return Ok` #0
                proof { assert(recorded(output, self.actual.acc@, c)); assert(all_ok(self.actual.log@, c)); if equal_stepping { assert(right_count(nstep as int, x0@, x1@, h_equal)); assert(c == run_of(false, x0@, x1@, old(y0).data@, (x1@ - x0@) / ((nstep as int) as real), 0real)); } }
//@before stmt `return Ok` #1
                        proof { assert(recorded(output, self.actual.acc@, c)); assert(all_ok(self.actual.log@, c)); assert(c == run_of(false, x0@, x1@, old(y0).data@, (x1@ - x0@) / ((nstep as int) as real), 0real)); assert(y.data@ == cur_y(self.actual.log@, c)); }
//@before stmt `return Ok` #3
                        proof { assert(recorded(output, self.actual.acc@, c)); assert(y.data@ == cur_y(self.actual.log@, c)); }
//@loop 0
            invariant
                *final(y) == *final(y0), x0@ < x1@, old(y0).data@.len() == old(self).ndim, h@ > 0real, nstep >= 1, right_count(nstep as int, x0@, x1@, h_equal), h@ == (x1@ - x0@) / (nstep as real),
                c == run_of(false, x0@, x1@, old(y0).data@, h@, 0real), !(h_equal is None && embedded(old(self).params.method)), self.params == old(self).params,
                all_ok(self.actual.log@, c), cur_x(self.actual.log@, c) == x@, cur_y(self.actual.log@, c) == y.data@, x@ == x0@ + (_vx_i as real) * h@, !after_reject(self.actual.log@),
                self.actual.acc@.len() == _vx_i, self.actual.ns@ == _vx_i, self.work.stats.n_steps == _vx_i, self.work.stats.n_accepted == _vx_i,
                output.some@ == old(output).some@,
                output.some@ ==> recorded(output, self.actual.acc@, c) && !output.stopped@ && !output.closed@ && output.log@.last().x == x@ && output.log@.last().y == y.data@,
//@loop 0 start
            let ghost l0 = self.actual.log@;
            proof { let (i, q) = (_vx_i as real, h@); assert((i + 1real) * q == i * q + q) by (nonlinear_arith); }
//@after stmt `self.actual.step` #0
            let ghost l1 = self.actual.log@;
            proof { lemma_step(l0, l1.last(), c); }
//@after stmt `self.actual.accept` #0
            proof { lemma_accept(l1, self.actual.log@.last(), c); }
//@after loop 0
            proof { lemma_ratio(x1@ - x0@, nstep as real); let (i, q) = (nstep as real, h@); assert(i * q == q * i) by (nonlinear_arith); }
//@loop 1
            invariant_except_break
                self.work.stats.n_steps <= _vx_i, !success, last_step ==> x@ + self.work.h_new@ >= x1@,
            invariant
                *final(y) == *final(y0), x0@ < x1@, old(y0).data@.len() == old(self).ndim, c.v, c == run_of(true, x0@, x1@, old(y0).data@, rmin(old(self).params.step.h_ini@, x1@ - x0@), old(self).params.step.m_first_reject@),
                h_equal is None && embedded(old(self).params.method), self.params == old(self).params,
                all_ok(self.actual.log@, c), cur_x(self.actual.log@, c) == x@, cur_y(self.actual.log@, c) == y.data@, x@ <= x1@,
                next_h(self.actual.log@, c) == self.work.h_new@, open_ok(self.actual.log@, c), self.work.follows_reject_step == after_reject(self.actual.log@),
                self.work.stats.n_steps == self.actual.ns@, self.work.stats.n_accepted == self.actual.acc@.len(), self.work.stats.n_rejected == self.actual.nr@, self.work.stats.n_rejected <= self.work.stats.n_steps,
                self.work.stats.n_accepted <= self.work.stats.n_steps,
                output.some@ == old(output).some@,
                output.some@ ==> recorded(output, self.actual.acc@, c) && !output.stopped@ && !output.closed@ && output.log@.last().x == x@ && output.log@.last().y == y.data@,
            ensures
                success ==> x1@ - x@ <= 10real / 4503599627370496real,
//@loop 1 start
            let ghost l0 = self.actual.log@;
//@after stmt `self.actual.step` #1
            let ghost l1 = self.actual.log@;
            proof { lemma_step(l0, l1.last(), c); assert(l1.take(l1.len() - 1) =~= l0); }
//@after stmt `self.actual.accept` #1
            let ghost l2 = self.actual.log@;
            proof { lemma_accept(l1, l2.last(), c); assert(l2.take(l2.len() - 2) =~= l0); }
//@after stmt `self.actual.reject`
            proof { lemma_reject(l1, self.actual.log@.last(), c); }
//@endfn

// ---------------------------------------------------------------- detection of stiffness
//@fn russell_ode/src/detect_stiffness.rs detect_stiffness
//@spec
    requires old(work).stiff_n_detection_yes < usize::MAX, old(work).stiff_n_detection_no < usize::MAX,
    ensures
        same_control(old(work), final(work)), final(work).h_new == old(work).h_new, final(work).rel_error == old(work).rel_error, final(work).iterations_diverging == old(work).iterations_diverging,
        final(work).stats == old(work).stats,
        ({
            let (a, b, p) = (*old(work), *final(work), params.stiffness);
            if a.stats.n_accepted <= p.skip_first_n_accepted_step {
                ret is Ok && !b.stiff_detected && b.stiff_n_detection_yes == a.stiff_n_detection_yes && b.stiff_n_detection_no == a.stiff_n_detection_no && b.stiff_x_first_detect == a.stiff_x_first_detect
            } else if a.stiff_h_times_rho@ > p.h_times_rho_max@ {
                &&& b.stiff_n_detection_no == 0 && b.stiff_n_detection_yes == a.stiff_n_detection_yes + 1 && b.stiff_x_first_detect@ == rmin(x@, a.stiff_x_first_detect@)
                &&& b.stiff_detected == (b.stiff_n_detection_yes == p.ratified_after_nstep) && (ret is Err) == (b.stiff_detected && p.stop_with_error)
            } else {
                &&& ret is Ok && !b.stiff_detected && b.stiff_n_detection_no == a.stiff_n_detection_no + 1
                &&& if b.stiff_n_detection_no == p.ignored_after_nstep { b.stiff_n_detection_yes == 0 } else { b.stiff_n_detection_yes == a.stiff_n_detection_yes && b.stiff_x_first_detect == a.stiff_x_first_detect }
            }
        }),
//@endfn

// ---------------------------------------------------------------- explicit Runge-Kutta methods
impl ExplicitRungeKutta {
    pub open spec fn wf(&self) -> bool {
        &&& self.params.step.valid() && self.params.erk.valid()
        &&& self.d_min@ * self.params.step.m_min@ == 1real && self.d_max@ * self.params.step.m_max@ == 1real
        &&& 0real < self.lund_factor@ && self.lund_factor@ == 1real / ((self.info.order_of_estimator + 1) as real) - self.params.erk.lund_beta@ * self.params.erk.lund_m@
        &&& self.shapes()
    }
    pub open spec fn shapes(&self) -> bool {
        &&& self.info.order_of_estimator <= 8 && self.info.embedded == embedded(self.params.method) && self.info.first_step_same_as_last == (self.params.method is DoPri5)
        &&& 1 <= self.nstage && self.k@.len() == self.nstage && self.v@.len() == self.nstage && self.w.data@.len() == self.system.ndim
        &&& self.params.method is DoPri5 ==> self.nstage == 7
        &&& self.params.method is DoPri8 ==> self.nstage == 12
        &&& forall|i: int| 0 <= i < self.nstage ==> (#[trigger] self.k@[i]).data@.len() == self.system.ndim
        &&& forall|i: int| 0 <= i < self.nstage ==> (#[trigger] self.v@[i]).data@.len() == self.system.ndim
    }
}
// the factor by which the step size is divided
pub open spec fn erk_factor(err: real, prev: real, lund: real, p: Params) -> real {
    let f = rpowf(err, lund);
    let g = if p.erk.lund_beta@ > 0real && prev > 0real { f / rpowf(prev, p.erk.lund_beta@) } else { f };
    g / p.step.m_safety@
}
pub proof fn lemma_clamp(h: real, f: real, dmin: real, dmax: real, mmin: real, mmax: real)
    requires h > 0real, mmin > 0real, mmax > 0real, mmin < mmax, dmin * mmin == 1real, dmax * mmax == 1real
    ensures ({ let g = rmax(dmax, rmin(dmin, f)); g > 0real && h * mmin <= h / g && h / g <= h * mmax }), dmin > 0real, dmax > 0real, dmax < dmin
{
    assert(dmin > 0real) by (nonlinear_arith) requires dmin * mmin == 1real, mmin > 0real;
    assert(dmax > 0real) by (nonlinear_arith) requires dmax * mmax == 1real, mmax > 0real;
    assert(dmax < dmin) by (nonlinear_arith) requires dmin * mmin == 1real, dmax * mmax == 1real, mmin > 0real, mmin < mmax, dmax > 0real;
    let g = rmax(dmax, rmin(dmin, f));
    lemma_div(h, g, dmin, mmin);
    lemma_div2(h, g, dmax, mmax);
}
pub proof fn lemma_sq(x: real)
    ensures x * x >= 0real
{ assert(x * x >= 0real) by (nonlinear_arith); }
pub proof fn lemma_nonneg(x: real, y: real)
    requires x >= 0real, y > 0real
    ensures x / y >= 0real
{ assert(x / y >= 0real) by (nonlinear_arith) requires x >= 0real, y > 0real; }
// ---- trusted: powers (the same facts as the contract of powf) ----
#[verifier::external_body]
pub proof fn vx_powf_pos(x: real, y: real)
    ensures x > 0real ==> rpowf(x, y) > 0real, x >= 1real && y >= 0real ==> rpowf(x, y) >= 1real
{ unimplemented!() }
pub proof fn lemma_div(h: real, g: real, d: real, m: real)
    requires h > 0real, g > 0real, g <= d, d * m == 1real, m > 0real
    ensures h * m <= h / g
{
    assert(g * m <= 1real) by (nonlinear_arith) requires g <= d, d * m == 1real, m > 0real;
    let q = h / g;
    lemma_ratio(h, g);
    assert(h * m <= q) by (nonlinear_arith) requires q * g == h, g * m <= 1real, h > 0real, g > 0real, m > 0real;
}
pub proof fn lemma_div2(h: real, g: real, d: real, m: real)
    requires h > 0real, g > 0real, g >= d, d * m == 1real, m > 0real
    ensures h / g <= h * m
{
    assert(g * m >= 1real) by (nonlinear_arith) requires g >= d, d * m == 1real, m > 0real;
    let q = h / g;
    lemma_ratio(h, g);
    assert(q <= h * m) by (nonlinear_arith) requires q * g == h, g * m >= 1real, h > 0real, g > 0real, m > 0real;
}

//@fn russell_ode/src/explicit_runge_kutta.rs <OdeSolverTrait for ExplicitRungeKutta>::update_params
//@spec
    requires old(self).shapes(), params.step.valid(), params.erk.valid(), params.method == old(self).params.method,
    ensures final(self).wf(), final(self).params == params,
//@start
    proof {
        let (b, m, q) = (params.erk.lund_beta@, params.erk.lund_m@, (self.info.order_of_estimator + 1) as real);
        assert(b * m <= 1real / 10real) by (nonlinear_arith) requires 0real <= b && b <= 1real / 10real, 0real <= m && m <= 1real;
        assert(1real / q >= 1real / 9real) by (nonlinear_arith) requires 1real <= q && q <= 9real;
        lemma_ratio(1real, params.step.m_min@);
        lemma_ratio(1real, params.step.m_max@);
    }
//@endfn
//@fn russell_ode/src/explicit_runge_kutta.rs <OdeSolverTrait for ExplicitRungeKutta>::reject
//@spec
    requires old(self).wf(), h@ > 0real, old(work).rel_error@ > 0real,
    ensures
        *final(self) == *old(self), same_control(old(work), final(work)), final(work).rel_error == old(work).rel_error, final(work).iterations_diverging == old(work).iterations_diverging,
        final(work).h_new@ == h@ / rmin(old(self).d_min@, rpowf(old(work).rel_error@, old(self).lund_factor@) / old(self).params.step.m_safety@),
        // the next step is smaller
        old(work).rel_error@ >= 1real ==> h@ * old(self).params.step.m_min@ <= final(work).h_new@ && final(work).h_new@ <= h@ * old(self).params.step.m_safety@ || old(self).params.step.m_min@ > old(self).params.step.m_safety@,
//@start
        proof {
            let p = rpowf(work.rel_error@, self.lund_factor@); let ms = self.params.step.m_safety@;
            lemma_clamp(h@, p / ms, self.d_min@, self.d_max@, self.params.step.m_min@, self.params.step.m_max@);
            lemma_ratio(p, ms); lemma_ratio(1real, ms);
            vx_powf_pos(work.rel_error@, self.lund_factor@);
            assert(p / ms > 0real) by (nonlinear_arith) requires p > 0real, ms > 0real;
            let g = rmin(self.d_min@, p / ms);
            lemma_div(h@, g, self.d_min@, self.params.step.m_min@);
            if work.rel_error@ >= 1real {
                assert(p / ms >= 1real / ms) by (nonlinear_arith) requires p >= 1real, ms > 0real;
                if self.params.step.m_min@ <= ms {
                    let (d, m) = (self.d_min@, self.params.step.m_min@);
                    assert(d >= 1real / ms) by (nonlinear_arith) requires d * m == 1real, m > 0real, m <= ms, (1real / ms) * ms == 1real, ms > 0real, d > 0real;
                    lemma_div2(h@, g, 1real / ms, ms);
                }
            }
        }
//@endfn
//@fn russell_ode/src/explicit_runge_kutta.rs <OdeSolverTrait for ExplicitRungeKutta>::accept opt:dense_out vecvec:k,v
//@spec
    requires old(self).wf(), h@ > 0real, old(work).rel_error@ > 0real, old(y).data@.len() == old(self).system.ndim,
        old(work).stats.n_function < usize::MAX - 4, old(work).stiff_n_detection_yes < usize::MAX, old(work).stiff_n_detection_no < usize::MAX,
    ensures
        ret is Ok ==> {
            &&& final(self).wf() && final(self).params == old(self).params && final(self).info == old(self).info
            &&& final(x)@ == old(x)@ + h@ && final(y).data@ == old(self).w.data@
            &&& same_control(old(work), final(work)) && final(work).rel_error == old(work).rel_error && final(work).iterations_diverging == old(work).iterations_diverging
            &&& old(self).info.embedded ==> final(work).h_new@ == h@ / rmax(old(self).d_max@, rmin(old(self).d_min@, erk_factor(old(work).rel_error@, old(work).rel_error_prev@, old(self).lund_factor@, old(self).params)))
            &&& old(self).info.embedded ==> h@ * old(self).params.step.m_min@ <= final(work).h_new@ && final(work).h_new@ <= h@ * old(self).params.step.m_max@
            &&& old(self).info.first_step_same_as_last ==> final(self).k@[0].data@ == old(self).k@[old(self).nstage - 1].data@
        },
//@after stmt `vec_copy`
        let ghost l = self.nstage - 1;
        let ghost me = *self;
        let ghost wk = *work;
        proof { assert(y.data@ == old(self).w.data@); }
//@loop 0
                invariant
                    self.wf(), self.params == me.params, self.info == me.info, self.system.ndim == me.system.ndim, self.nstage == me.nstage, l == self.nstage - 1, self.w == me.w,
                    self.d_min == me.d_min, self.d_max == me.d_max, self.lund_factor == me.lund_factor,
                    forall|j: int| 0 <= j < m ==> #[trigger] self.k@[0].data@[j] == me.k@[l].data@[j],
                    forall|j: int| 0 <= j < self.system.ndim ==> #[trigger] self.k@[l].data@[j] == me.k@[l].data@[j],
                    l > 0 ==> self.k@[l] == me.k@[l],
//@after loop 0
            proof { assert(self.k@[0].data@ =~= me.k@[l].data@); }
//@before stmt `let mut fac`
        proof { lemma_clamp(h@, erk_factor(old(work).rel_error@, old(work).rel_error_prev@, old(self).lund_factor@, old(self).params), self.d_min@, self.d_max@, self.params.step.m_min@, self.params.step.m_max@); }
//@loop 1
                    invariant self.shapes(), num@ >= 0real, den@ >= 0real, y.data@.len() == self.system.ndim, self.params.method is DoPri5,
//@loop 1 start
                    let ghost (num0, den0) = (num@, den@);
//@loop 1 end
                    proof { lemma_sq(delta_k@); lemma_sq(delta_v@); }
//@loop 2
                    invariant self.shapes(), num@ >= 0real, den@ >= 0real, y.data@.len() == self.system.ndim, self.params.method is DoPri8, NEW == 10,
//@loop 2 start
                    let ghost (num0, den0) = (num@, den@);
//@loop 2 end
                    proof { lemma_sq(delta_k@); lemma_sq(delta_v@); }
//@after loop 1
                proof { if den@ > 0real { lemma_nonneg(num@, den@); } }
//@after loop 2
                proof { if den@ > 0real { lemma_nonneg(num@, den@); } }
//@endfn
// ---- acceptance and rejection of the implicit method ----
// divisor of the step size from the error and the number of iterations
pub open spec fn rfac(p: Params, newt: int) -> real { rmin(p.step.m_safety@, p.step.m_safety@ * ireal(1 + 2 * p.newton.n_iteration_max) / ireal(newt + 2 * p.newton.n_iteration_max)) }
pub open spec fn rdiv(p: Params, err: real, newt: int) -> real { rmax(p.step.m_min@, rmin(p.step.m_max@, rpowf(err, 1real / 4real) / rfac(p, newt))) }
pub proof fn lemma_rfac(p: Params, newt: int)
    requires p.step.m_safety@ > 0real, p.newton.n_iteration_max >= 1, newt >= 0
    ensures 0real < rfac(p, newt) <= p.step.m_safety@
{
    let (s, a, b) = (p.step.m_safety@, ireal(1 + 2 * p.newton.n_iteration_max), ireal(newt + 2 * p.newton.n_iteration_max));
    assert(s * a > 0real) by (nonlinear_arith) requires s > 0real, a > 0real;
    let n = s * a;
    assert(n / b > 0real) by (nonlinear_arith) requires n > 0real, b > 0real;
}
pub proof fn lemma_rdiv(p: Params, err: real, newt: int)
    requires p.step.m_safety@ > 0real, p.step.m_safety@ < 1real, p.newton.n_iteration_max >= 1, newt >= 0, p.step.m_min@ > 0real, p.step.m_max@ > 1real, rpowf(err, 1real / 4real) >= 1real
    ensures rdiv(p, err, newt) > 1real
{
    lemma_rfac(p, newt);
    let (r, f) = (rpowf(err, 1real / 4real), rfac(p, newt));
    assert(r / f > 1real) by (nonlinear_arith) requires r >= 1real, 0real < f, f < 1real;
}
//@fn russell_ode/src/radau5.rs <OdeSolverTrait for Radau5>::reject
//@spec
    requires old(work).stats.n_iterations + 2 * old(self).params.newton.n_iteration_max < usize::MAX, old(self).params.newton.n_iteration_max >= 1,
        old(self).params.step.m_safety@ > 0real, old(self).params.step.m_safety@ < 1real, old(self).params.step.m_min@ > 0real, h@ > 0real, old(work).rel_error@ > 0real,
    ensures *final(self) == *old(self), final(work).h_new@ == h@ / rdiv(old(self).params, old(work).rel_error@, old(work).stats.n_iterations as int),
        old(work).rel_error@ >= 1real && old(self).params.step.m_max@ > 1real ==> final(work).h_new@ < h@,
        final(work).stats == old(work).stats,
//@after stmt `let div`
        proof {
            lemma_rfac(self.params, newt as int);
            assert(div@ == rdiv(self.params, work.rel_error@, newt as int));
            if work.rel_error@ >= 1real && self.params.step.m_max@ > 1real { lemma_rdiv(self.params, work.rel_error@, newt as int); let (a, b) = (h@, div@); assert(a / b < a) by (nonlinear_arith) requires a > 0real, b > 1real; }
        }
//@before stmt `let fac`
        proof { assert(den@ == ireal(newt + 2 * self.params.newton.n_iteration_max)); assert(num@ == self.params.step.m_safety@ * ireal(1 + 2 * self.params.newton.n_iteration_max)); lemma_rfac(self.params, newt as int); }
//@endfn
// coefficients of the collocation polynomial of one component
pub open spec fn colloc(z0: real, z1: real, z2: real) -> (real, real, real) {
    let a = (z1 - z2) / MU4_spec();
    let d = (z0 - z1) / MU5_spec();
    let b = (d - a) / MU3_spec();
    (a, b, b - (d - z0 / MU1_spec()) / MU2_spec())
}
pub open spec fn collocs(s: &Radau5, n: int) -> bool { forall|m: int| 0 <= m < n ==> ((#[trigger] s.yc0.data@[m])@, s.yc1.data@[m]@, s.yc2.data@[m]@) == colloc(s.z0.data@[m]@, s.z1.data@[m]@, s.z2.data@[m]@) }
// step size after an accepted step
pub open spec fn racc(p: Params, w: Workspace, h: real) -> real {
    let d = rdiv(p, w.rel_error@, w.stats.n_iterations as int);
    let r2 = w.rel_error@ * w.rel_error@;
    let f = rmax(p.step.m_min@, rmin(p.step.m_max@, (w.h_prev@ / h) * rpowf(r2 / w.rel_error_prev@, 1real / 4real) / p.step.m_safety@));
    h / (if p.radau5.use_pred_control && w.stats.n_accepted > 1 { rmax(d, f) } else { d })
}
//@fn russell_ode/src/radau5.rs <OdeSolverTrait for Radau5>::accept
//@spec
    requires old(self).wf(), old(y).data@.len() == old(self).system.ndim, old(work).stats.n_iterations + 2 * old(self).params.newton.n_iteration_max < usize::MAX, old(self).params.newton.n_iteration_max >= 1,
        old(work).stats.n_function < usize::MAX, old(self).params.step.m_safety@ > 0real, old(self).params.step.m_safety@ < 1real, old(self).params.step.m_min@ > 0real, h@ > 0real,
        old(work).rel_error@ > 0real, old(work).rel_error_prev@ > 0real,
    ensures final(x)@ == old(x)@ + h@, final(self).wf(), final(self).same(old(self)), final(y).data@.len() == old(y).data@.len(),
        forall|m: int| 0 <= m < old(self).system.ndim ==> (#[trigger] final(y).data@[m])@ == old(y).data@[m]@ + old(self).z2.data@[m]@,
        collocs(final(self), old(self).system.ndim as int), final(self).z0 == old(self).z0, final(self).z1 == old(self).z1, final(self).z2 == old(self).z2,
        // the step is kept with the factorisation or changed as stated; the Jacobian of an accepted point is never taken as that of the next without convergence fast enough
        ({
            let hn = racc(old(self).params, *old(work), h@);
            let p = old(self).params;
            let keep = old(self).theta@ <= p.radau5.theta_max@ && hn / h@ >= p.radau5.c1h@ && hn / h@ <= p.radau5.c2h@;
            &&& final(self).reuse_jacobian_kk_and_fact == keep
            &&& final(work).h_new@ == if keep { old(work).h_new@ } else { hn }
            &&& final(self).reuse_jacobian == (!keep && old(self).theta@ <= p.radau5.theta_max@)
            &&& !final(self).jacobian_computed
        }),
        ret is Ok ==> scale_of(old(self).params.tol, final(y).data@, final(self).scaling.data@) && final(self).k_accepted.data@ == vx_rhs(final(x)@, final(y).data@),
//@loop 0
            invariant self.wf(), self.same(old(self)), y.data@.len() == self.system.ndim, *work == *old(work), *x == *old(x), self.theta == old(self).theta,
                self.z0 == old(self).z0, self.z1 == old(self).z1, self.z2 == old(self).z2, collocs(self, m as int),
                !self.reuse_jacobian, !self.reuse_jacobian_kk_and_fact, !self.jacobian_computed,
                forall|q: int| 0 <= q < m ==> (#[trigger] y.data@[q])@ == old(y).data@[q]@ + self.z2.data@[q]@, forall|q: int| m <= q < self.system.ndim ==> (#[trigger] y.data@[q]) == old(y).data@[q],
//@before stmt `let fac` #0
        proof { assert(den@ == ireal(newt + 2 * self.params.newton.n_iteration_max)); assert(num@ == self.params.step.m_safety@ * ireal(1 + 2 * self.params.newton.n_iteration_max)); lemma_rfac(self.params, newt as int); }
//@after stmt `let div` #0
        proof { assert(div@ == rdiv(self.params, work.rel_error@, newt as int)); assert(div@ > 0real); }
//@after stmt `let h_ratio`
        proof { assert(h_new@ == racc(self.params, *work, h@)); }
//@endfn
} // verus!
fn main() {}
