//@include prelude_ext.rs
//@map T=R
//@map f64=R
//@map Vector=NumVector
//@mono NumVector
//@vectors NumVector Vector
verus! {
//@struct russell_lab/src/vector/num_vector.rs NumVector
//@enum russell_lab/src/base/enums.rs Norm derive=Clone,Copy
//@enum russell_nonlin/src/enums.rs Status
//@struct russell_nonlin/src/config.rs Config -method -log_file -genie -lin_sol_config -tg_control_rdiff_type
//@struct russell_nonlin/src/iteration_error.rs IterationError

impl View for NumVector { type V = Seq<R>; open spec fn view(&self) -> Seq<R> { self.data@ } }

//@fn russell_lab/src/vector/num_vector.rs NumVector::new
//@spec
    ensures ret.data.len() == dim,
//@endfn
//@fn russell_lab/src/vector/num_vector.rs NumVector::dim
//@spec
    ensures ret == self.data.len(),
//@endfn
//@fn russell_lab/src/vector/num_vector.rs NumVector::as_data
//@spec
    ensures ret == self.data,
//@endfn

// largest magnitude of the first n components
pub open spec fn largest(x: Seq<R>, m: R) -> bool {
    &&& m.fin() && m.val() >= 0real
    &&& forall|i: int| 0 <= i < x.len() ==> (#[trigger] x[i]).fin() && rabs(x[i].val()) <= m.val()
    &&& m.val() > 0real ==> exists|i: int| 0 <= i < x.len() && rabs((#[trigger] x[i]).val()) == m.val()
}
pub open spec fn all_finite(x: Seq<R>) -> bool { forall|i: int| 0 <= i < x.len() ==> (#[trigger] x[i]).fin() }
pub open spec fn no_nan(x: Seq<R>) -> bool { forall|i: int| 0 <= i < x.len() ==> !((#[trigger] x[i])@ is Nan) }

// ---- trusted (foreign code): the largest magnitude; infinite if a component is; nothing is assumed about the value if a component is not a number ----
#[verifier::external_body]
pub fn vec_norm(v: &NumVector, kind: Norm) -> (ret: R)
    ensures
        kind is Max && all_finite(v@) ==> largest(v@, ret),
        kind is Max && no_nan(v@) && !all_finite(v@) ==> ret@ is Inf,
{ unimplemented!() }

// sum of the squares of the scaled components
pub open spec fn squares(x: Seq<R>, s: Seq<R>, n: int) -> real
    decreases n
{
    if n <= 0 { 0real } else { squares(x, s, n - 1) + (x[n - 1].val() / s[n - 1].val()) * (x[n - 1].val() / s[n - 1].val()) }
}
proof fn lemma_squares(x: Seq<R>, s: Seq<R>, n: int)
    ensures squares(x, s, n) >= 0real
    decreases n
{
    if n > 0 {
        lemma_squares(x, s, n - 1);
        let q = x[n - 1].val() / s[n - 1].val();
        assert(q * q >= 0real) by (nonlinear_arith);
    }
}
// a root is at most one when the number is
proof fn lemma_root(y: real, r: real)
    requires r >= 0real, r * r == y
    ensures r <= 1real <==> y <= 1real
{
    assert(r <= 1real ==> y <= 1real) by (nonlinear_arith) requires r >= 0real, r * r == y;
    assert(r > 1real ==> y > 1real) by (nonlinear_arith) requires r >= 0real, r * r == y;
}

impl IterationError {
    // what every operation keeps
    pub open spec fn kept(&self, o: &IterationError) -> bool {
        &&& self.tol_abs_residual == o.tol_abs_residual && self.tol_abs_delta == o.tol_abs_delta && self.tol_rel_delta == o.tol_rel_delta
        &&& self.allowed_delta_max == o.allowed_delta_max
        &&& self.n_cont_residual_divergence_max == o.n_cont_residual_divergence_max && self.n_cont_delta_divergence_max == o.n_cont_delta_divergence_max
        &&& self.n_iteration_max == o.n_iteration_max && self.disable_rel_delta_analysis == o.disable_rel_delta_analysis
        &&& self.scaling@.len() == o.scaling@.len()
    }
    pub open spec fn scaled(&self) -> bool { self.scaling@.len() >= 1 && (forall|i: int| 0 <= i < self.scaling@.len() ==> (#[trigger] self.scaling@[i]).fin() && self.scaling@[i].val() > 0real) }
    // nothing is remembered of an earlier step
    pub open spec fn fresh(&self) -> bool {
        &&& !self.residual_converged && !self.residual_diverging && !self.delta_converged && !self.delta_diverging
        &&& self.n_continued_residual_divergence == 0 && self.n_continued_delta_divergence == 0
    }
}

//@fn russell_nonlin/src/iteration_error.rs IterationError::new
//@spec
    requires ndim < usize::MAX,
    ensures
        ret.fresh(),
        ret.tol_abs_residual == config.tol_abs_residual, ret.tol_abs_delta == config.tol_abs_delta, ret.tol_rel_delta == config.tol_rel_delta,
        ret.allowed_delta_max == config.delta_max_allowed,
        ret.n_cont_residual_divergence_max == config.n_cont_residual_divergence_max, ret.n_cont_delta_divergence_max == config.n_cont_delta_divergence_max,
        ret.n_iteration_max == config.n_iteration_max, ret.disable_rel_delta_analysis == config.disable_rel_delta_analysis,
        ret.delta_max@ == X::Fin(0real),
        ret.scaling@.len() == ndim + 1,
//@endfn

//@fn russell_nonlin/src/iteration_error.rs IterationError::reset
//@spec
    requires
        old(self).scaling@.len() == u@.len() + 1,
        old(self).tol_abs_delta.fin() && old(self).tol_abs_delta.val() > 0real, old(self).tol_rel_delta.fin() && old(self).tol_rel_delta.val() >= 0real,
        all_finite(u@), l.fin(),
    ensures
        final(self).fresh(), final(self).kept(old(self)), final(self).scaled(),
        forall|i: int| 0 <= i < u@.len() ==> (#[trigger] final(self).scaling@[i]).val() == old(self).tol_abs_delta.val() + old(self).tol_rel_delta.val() * rabs(u@[i].val()),
        final(self).scaling@[u@.len() as int].val() == old(self).tol_abs_delta.val() + old(self).tol_rel_delta.val() * rabs(l.val()),
//@loop 0
        invariant
            self.fresh(), self.kept(old(self)), ndim == u@.len(), self.scaling@.len() == ndim + 1,
            old(self).tol_abs_delta.fin() && old(self).tol_abs_delta.val() > 0real, old(self).tol_rel_delta.fin() && old(self).tol_rel_delta.val() >= 0real,
            all_finite(u@), l.fin(),
            forall|k: int| 0 <= k < i ==> (#[trigger] self.scaling@[k]).fin() && self.scaling@[k].val() > 0real
                && self.scaling@[k].val() == old(self).tol_abs_delta.val() + old(self).tol_rel_delta.val() * rabs(u@[k].val()),
//@loop 0 start
            proof {
                let (a, b) = (self.tol_rel_delta.val(), rabs(u@[i as int].val()));
                assert(a * b >= 0real) by (nonlinear_arith) requires a >= 0real, b >= 0real;
            }
//@after loop 0
        proof {
            let (a, b) = (self.tol_rel_delta.val(), rabs(l.val()));
            assert(a * b >= 0real) by (nonlinear_arith) requires a >= 0real, b >= 0real;
        }
//@endfn

//@fn russell_nonlin/src/iteration_error.rs IterationError::converged
//@spec
    ensures ret == (self.residual_converged || self.delta_converged),
//@endfn

//@fn russell_nonlin/src/iteration_error.rs IterationError::analyze_residual
//@spec
    requires old(self).n_continued_residual_divergence < usize::MAX,
    ensures
        final(self).kept(old(self)), final(self).scaling == old(self).scaling,
        // not-a-number or infinite
        ret <==> !(all_finite(gg@) && nn.fin()),
        ret ==> final(self).residual_converged == old(self).residual_converged,
        !ret ==> {
            let m = final(self).residual_max;
            &&& m.fin() && m.val() >= rabs(nn.val())
            &&& m.val() == rabs(nn.val()) || largest(gg@, m)
            &&& forall|i: int| 0 <= i < gg@.len() ==> (#[trigger] gg@[i]).fin() && rabs(gg@[i].val()) <= m.val()
            &&& final(self).residual_converged <==> x_gt(old(self).tol_abs_residual, m)
            &&& final(self).residual_diverging <==> iteration != 0 && x_gt(m, old(self).residual_max_prev)
            &&& final(self).residual_max_prev == m
            &&& final(self).n_continued_residual_divergence == old(self).n_continued_residual_divergence + (if old(self).residual_diverging && final(self).residual_diverging { 1int } else { 0int })
        },
        // the correction is not touched
        final(self).delta_converged == old(self).delta_converged, final(self).delta_diverging == old(self).delta_diverging,
        final(self).delta_max == old(self).delta_max, final(self).delta_max_prev == old(self).delta_max_prev,
        final(self).n_continued_delta_divergence == old(self).n_continued_delta_divergence,
//@endfn

//@fn russell_nonlin/src/iteration_error.rs IterationError::analyze_delta
//@spec
    requires
        old(self).n_continued_delta_divergence < usize::MAX,
        old(self).scaled(), 1 <= x@.len() <= old(self).scaling@.len(),
    ensures
        final(self).kept(old(self)), final(self).scaling == old(self).scaling,
        old(self).disable_rel_delta_analysis ==> !ret && *final(self) == *old(self),
        !old(self).disable_rel_delta_analysis ==> {
            &&& ret <==> !all_finite(x@)
            &&& ret ==> final(self).delta_converged == old(self).delta_converged
            &&& !ret ==> {
                let m = final(self).delta_max;
                &&& largest(x@, m)
                // mean of the squares at most one
                &&& final(self).delta_converged <==> squares(x@, old(self).scaling@, x@.len() as int) / (x@.len() as real) <= 1real
                &&& final(self).delta_diverging <==> iteration != 0 && x_gt(m, old(self).delta_max_prev)
                &&& final(self).delta_max_prev == m
                &&& final(self).n_continued_delta_divergence == old(self).n_continued_delta_divergence + (if old(self).delta_diverging && final(self).delta_diverging { 1int } else { 0int })
            }
        },
        // the residual is not touched
        final(self).residual_converged == old(self).residual_converged, final(self).residual_diverging == old(self).residual_diverging,
        final(self).residual_max == old(self).residual_max, final(self).residual_max_prev == old(self).residual_max_prev,
        final(self).n_continued_residual_divergence == old(self).n_continued_residual_divergence,
//@loop 0
        invariant
            sum.fin(), sum.val() == squares(x@, old(self).scaling@, i as int),
            self.scaling == old(self).scaling, self.scaled(), x@.len() <= self.scaling@.len(), all_finite(x@),
//@after loop 0
        proof {
            lemma_squares(x@, old(self).scaling@, x@.len() as int);
            let (s, n) = (squares(x@, old(self).scaling@, x@.len() as int), x@.len() as real);
            assert(s / n >= 0real) by (nonlinear_arith) requires s >= 0real, n >= 1real;
        }
//@end
        proof {
            let y = squares(x@, old(self).scaling@, x@.len() as int) / (x@.len() as real);
            if self.delta_rms.val() >= 0real && self.delta_rms.val() * self.delta_rms.val() == y { lemma_root(y, self.delta_rms.val()); }
        }
//@endfn

//@fn russell_nonlin/src/iteration_error.rs IterationError::capture_failures
//@spec
    requires old(self).n_iteration_max >= 1, old(self).n_large_delta < usize::MAX,
    ensures
        final(self).kept(old(self)), final(self).scaling == old(self).scaling,
        ({
            let large = x_gt(old(self).delta_max, old(self).allowed_delta_max);
            let res = old(self).n_continued_residual_divergence >= old(self).n_cont_residual_divergence_max;
            let del = old(self).n_continued_delta_divergence >= old(self).n_cont_delta_divergence_max;
            let end = iteration == old(self).n_iteration_max - 1;
            &&& ret is LargeDelta <==> large
            &&& ret is ContinuedResidualDivergence <==> !large && res
            &&& ret is ContinuedDeltaDivergence <==> !large && !res && del
            &&& ret is ReachedMaxIterations <==> !large && !res && !del && end
            &&& ret is Success <==> !large && !res && !del && !end
        }),
//@endfn

} // verus!
fn main() {}
