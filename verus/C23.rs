//@include inc_ode.rs
verus! {
//@const russell_ode/src/constants.rs DORMAND_PRINCE_8_BHH1
//@const russell_ode/src/constants.rs DORMAND_PRINCE_8_BHH2
//@const russell_ode/src/constants.rs DORMAND_PRINCE_8_BHH3
//@map const:DORMAND_PRINCE_8_BHH1=DORMAND_PRINCE_8_BHH1_c const:DORMAND_PRINCE_8_BHH2=DORMAND_PRINCE_8_BHH2_c const:DORMAND_PRINCE_8_BHH3=DORMAND_PRINCE_8_BHH3_c

// y + h (a_i0 k_0 + a_i1 k_1 + ...), the first j terms
pub open spec fn stage(a: &NumMatrix, k: Seq<NumVector>, y: Seq<R>, h: real, i: int, j: int, m: int) -> real
    decreases j
{ if j <= 0 { y[m]@ } else { stage(a, k, y, h, i, j - 1, m) + (h * a.at(i, j - 1)@) * k[j - 1].data@[m]@ } }
// c_0 k_0 + c_1 k_1 + ..., the first n terms
pub open spec fn comb(c: Seq<R>, k: Seq<NumVector>, m: int, n: int) -> real
    decreases n
{ if n <= 0 { 0real } else { comb(c, k, m, n - 1) + c[n - 1]@ * k[n - 1].data@[m]@ } }
pub proof fn lemma_stage(a: &NumMatrix, k1: Seq<NumVector>, k2: Seq<NumVector>, y: Seq<R>, h: real, i: int, j: int, m: int)
    requires j <= k1.len(), j <= k2.len(), forall|q: int| 0 <= q < j ==> (#[trigger] k1[q]) == k2[q]
    ensures stage(a, k1, y, h, i, j, m) == stage(a, k2, y, h, i, j, m)
    decreases j
{ if j > 0 { lemma_stage(a, k1, k2, y, h, i, j - 1, m); } }

impl ExplicitRungeKutta {
    pub open spec fn wf(&self) -> bool {
        let n = self.nstage as int;
        &&& 1 <= n && self.system.ndim >= 1 && self.k@.len() == n && self.v@.len() == n && self.w.data@.len() == self.system.ndim
        &&& self.aa.wf() && self.aa.nrow == n && self.aa.ncol == n && self.bb.data@.len() == n && self.cc.data@.len() == n
        &&& self.info.embedded ==> self.ee is Some && self.ee->Some_0.data@.len() == n
        &&& self.params.method is DoPri8 ==> n == 12
        &&& lens(self.k@, n, self.system.ndim as int) && lens(self.v@, n, self.system.ndim as int)
        &&& self.params.tol.abs@ > 0real && self.params.tol.rel@ > 0real
    }
    // the parts that do not change
    pub open spec fn same(&self, o: &ExplicitRungeKutta) -> bool {
        &&& self.params == o.params && self.info == o.info && self.aa == o.aa && self.bb == o.bb && self.cc == o.cc && self.ee == o.ee && self.nstage == o.nstage && self.system.ndim == o.system.ndim
    }
}
// stage i is the slope at the point of the table
pub open spec fn stage_ok(a: &NumMatrix, c: Seq<R>, k: Seq<NumVector>, v: Seq<NumVector>, x: real, y: Seq<R>, h: real, i: int) -> bool {
    &&& k[i].data@ == vx_rhs(x + h * c[i]@, v[i].data@)
    &&& forall|m: int| 0 <= m < y.len() ==> (#[trigger] v[i].data@[m])@ == stage(a, k, y, h, i, i, m)
}
// scale of the error of component m
pub open spec fn esk(t: ParamsTol, w: Seq<R>, y: Seq<R>, m: int) -> real { t.abs@ + t.rel@ * rmax(rabs(y[m]@), rabs(w[m]@)) }
// sum of the squared scaled errors of the first m components
pub open spec fn esum(t: ParamsTol, w: Seq<R>, e: Seq<real>, y: Seq<R>, m: int) -> real
    decreases m
{ if m <= 0 { 0real } else { esum(t, w, e, y, m - 1) + sq(e[m - 1] / esk(t, w, y, m - 1)) } }
pub open spec fn sq(x: real) -> real { x * x }
pub open spec fn err5(e: Seq<R>, k: Seq<NumVector>, h: real, n: int, ndim: int) -> Seq<real> { Seq::new(ndim as nat, |m: int| h * comb(e, k, m, n)) }
pub open spec fn err8(e: Seq<R>, k: Seq<NumVector>, n: int, ndim: int) -> Seq<real> { Seq::new(ndim as nat, |m: int| comb(e, k, m, n)) }
pub open spec fn err3(b: Seq<R>, k: Seq<NumVector>, n: int, ndim: int) -> Seq<real> {
    Seq::new(ndim as nat, |m: int| comb(b, k, m, n) - (DORMAND_PRINCE_8_BHH1_spec() * k[0].data@[m]@ + DORMAND_PRINCE_8_BHH2_spec() * k[8].data@[m]@ + DORMAND_PRINCE_8_BHH3_spec() * k[11].data@[m]@))
}
pub open spec fn is_root(e: real, s: real) -> bool { e >= 0real && e * e == s }
pub open spec fn advanced(w: Seq<R>, b: Seq<R>, k: Seq<NumVector>, y: Seq<R>, h: real, n: int, q: int) -> bool { forall|m: int| 0 <= m < q ==> (#[trigger] w[m])@ == y[m]@ + h * comb(b, k, m, n) }
pub proof fn lemma_esum(t: ParamsTol, w1: Seq<R>, w2: Seq<R>, e: Seq<real>, y: Seq<R>, m: int)
    requires m <= w1.len(), m <= w2.len(), forall|q: int| 0 <= q < m ==> (#[trigger] w1[q]) == w2[q]
    ensures esum(t, w1, e, y, m) == esum(t, w2, e, y, m)
    decreases m
{ if m > 0 { lemma_esum(t, w1, w2, e, y, m - 1); } }
pub proof fn lemma_esum_pos(t: ParamsTol, w: Seq<R>, e: Seq<real>, y: Seq<R>, m: int)
    ensures esum(t, w, e, y, m) >= 0real
    decreases m
{ if m > 0 { lemma_esum_pos(t, w, e, y, m - 1); let x = e[m - 1] / esk(t, w, y, m - 1); assert(x * x >= 0real) by (nonlinear_arith); } }
pub proof fn lemma_sk(t: ParamsTol, w: Seq<R>, y: Seq<R>, m: int)
    requires t.abs@ > 0real, t.rel@ > 0real
    ensures esk(t, w, y, m) > 0real
{ let (a, b) = (t.rel@, rmax(rabs(y[m]@), rabs(w[m]@))); assert(a * b >= 0real) by (nonlinear_arith) requires a > 0real, b >= 0real; }
pub proof fn lemma_term(h: real, c: real, b: real, k: real)
    ensures h * (c + b * k) == h * c + b * k * h, h * (c + b * k) == h * c + b * (k * h)
{
    assert(h * (c + b * k) == h * c + h * (b * k)) by (nonlinear_arith);
    assert(h * (b * k) == b * k * h) by (nonlinear_arith);
    assert(b * k * h == b * (k * h)) by (nonlinear_arith);
}
pub proof fn lemma_stages(a: &NumMatrix, c: Seq<R>, k1: Seq<NumVector>, k2: Seq<NumVector>, v1: Seq<NumVector>, v2: Seq<NumVector>, x: real, y: Seq<R>, h: real, i: int)
    requires i <= k1.len(), i <= k2.len(), forall|q: int| 0 <= q < i ==> (#[trigger] k1[q]) == k2[q], forall|q: int| 0 <= q < i ==> (#[trigger] v1[q]) == v2[q],
        forall|q: int| 1 <= q < i ==> #[trigger] stage_ok(a, c, k1, v1, x, y, h, q),
    ensures forall|q: int| 1 <= q < i ==> #[trigger] stage_ok(a, c, k2, v2, x, y, h, q)
{
    assert forall|q: int| 1 <= q < i implies #[trigger] stage_ok(a, c, k2, v2, x, y, h, q) by {
        assert(stage_ok(a, c, k1, v1, x, y, h, q));
        assert(k1[q] == k2[q] && v1[q] == v2[q]);
        assert forall|m: int| 0 <= m < y.len() implies (#[trigger] v2[q].data@[m])@ == stage(a, k2, y, h, q, q, m) by {
            assert(v1[q].data@[m]@ == stage(a, k1, y, h, q, q, m));
            lemma_stage(a, k1, k2, y, h, q, q, m);
        }
    }
}
pub open spec fn lens(k: Seq<NumVector>, n: int, ndim: int) -> bool { forall|i: int| 0 <= i < n ==> (#[trigger] k[i]).data@.len() == ndim }

//@fn russell_ode/src/explicit_runge_kutta.rs <OdeSolverTrait for ExplicitRungeKutta>::step vecvec:k,v vec:ee
//@spec
    requires old(self).wf(), y.data@.len() == old(self).system.ndim, h@ > 0real, old(work).stats.n_function < usize::MAX - old(self).nstage - 2,
    ensures
        ret is Ok ==> {
            let (k, v, n, nd) = (final(self).k@, final(self).v@, old(self).nstage as int, old(self).system.ndim as int);
            &&& final(self).wf() && final(self).same(old(self))
            // first stage: evaluated unless it is known
            &&& if (old(work).stats.n_accepted == 0 || !old(self).info.first_step_same_as_last) && !old(work).follows_reject_step { k[0].data@ == vx_rhs(x@, y.data@) } else { k[0] == old(self).k@[0] }
            // other stages
            &&& forall|i: int| 1 <= i < n ==> #[trigger] stage_ok(&old(self).aa, old(self).cc.data@, k, v, x@, y.data@, h@, i)
            // new state
            &&& advanced(final(self).w.data@, old(self).bb.data@, k, y.data@, h@, n, old(self).system.ndim as int)
            // number of evaluations
            &&& final(work).stats.n_function - old(work).stats.n_function == final(self).system.function.n@ - old(self).system.function.n@
            &&& final(work).h_new == old(work).h_new && final(work).stats.n_accepted == old(work).stats.n_accepted && final(work).follows_reject_step == old(work).follows_reject_step
            // error estimate
            &&& old(self).info.embedded && !(old(self).params.method is DoPri8) ==> {
                let s = esum(old(self).params.tol, final(self).w.data@, err5(old(self).ee->Some_0.data@, k, h@, n, nd), y.data@, nd) / (nd as real);
                is_root(rsqrt(s), s) && final(work).rel_error@ == rmax(rsqrt(s), 1real / 10000000000real)
            }
            &&& old(self).info.embedded && old(self).params.method is DoPri8 ==> {
                let (e5, e3) = (esum(old(self).params.tol, final(self).w.data@, err8(old(self).ee->Some_0.data@, k, n, nd), y.data@, nd), esum(old(self).params.tol, final(self).w.data@, err3(old(self).bb.data@, k, n, nd), y.data@, nd));
                let s = 1real / ((nd as real) * if e5 + (1real / 100real) * e3 <= 0real { 1real } else { e5 + (1real / 100real) * e3 });
                is_root(rsqrt(s), s) && final(work).rel_error@ == h@ * e5 * rsqrt(s)
            }
        },
//@before loop 0
        let ghost k0 = k@[0];
//@loop 0
            invariant
                self.nstage == old(self).nstage, self.system.ndim == old(self).system.ndim, self.aa == old(self).aa, self.bb == old(self).bb, self.cc == old(self).cc, self.ee == old(self).ee, self.params == old(self).params, self.info == old(self).info,
                old(self).wf(), y.data@.len() == self.system.ndim, h@ > 0real, k@.len() == self.nstage, lens(k@, self.nstage as int, self.system.ndim as int),
                v@.len() == self.nstage, lens(v@, self.nstage as int, self.system.ndim as int), self.w == old(self).w, k@[0] == k0,
                work.stats.n_function - old(work).stats.n_function == self.system.function.n@ - old(self).system.function.n@, work.stats.n_function <= old(work).stats.n_function + i, old(work).stats.n_function < usize::MAX - old(self).nstage - 2,
                work.h_new == old(work).h_new, work.stats.n_accepted == old(work).stats.n_accepted, work.follows_reject_step == old(work).follows_reject_step,
                forall|q: int| 1 <= q < i ==> #[trigger] stage_ok(&self.aa, self.cc.data@, k@, v@, x@, y.data@, h@, q),
//@loop 0 start
            let ghost (ka, va) = (k@, v@);
//@loop 1
                invariant
                self.nstage == old(self).nstage, self.system.ndim == old(self).system.ndim, self.aa == old(self).aa, self.bb == old(self).bb, self.cc == old(self).cc, self.ee == old(self).ee, self.params == old(self).params, self.info == old(self).info,
                old(self).wf(), y.data@.len() == self.system.ndim, h@ > 0real, k@.len() == self.nstage, lens(k@, self.nstage as int, self.system.ndim as int),
                1 <= i < self.nstage, v@.len() == self.nstage, lens(v@, self.nstage as int, self.system.ndim as int), self.w == old(self).w, k@ == ka,
                forall|q: int| 0 <= q < v@.len() && q != i ==> (#[trigger] v@[q]) == va[q],
                forall|m: int| 0 <= m < self.system.ndim ==> (#[trigger] v@[i as int].data@[m])@ == stage(&self.aa, k@, y.data@, h@, i as int, j as int, m),
//@loop 0 end
            proof {
                lemma_stages(&self.aa, self.cc.data@, ka, k@, va, v@, x@, y.data@, h@, i as int);
                assert(stage_ok(&self.aa, self.cc.data@, k@, v@, x@, y.data@, h@, i as int)) by {
                    assert forall|m: int| 0 <= m < y.data@.len() implies (#[trigger] v@[i as int].data@[m])@ == stage(&self.aa, k@, y.data@, h@, i as int, i as int, m) by {
                        lemma_stage(&self.aa, ka, k@, y.data@, h@, i as int, i as int, m);
                    }
                }
            }
//@after loop 0
        let ghost ks = k@;
//@loop 2
                invariant
                self.nstage == old(self).nstage, self.system.ndim == old(self).system.ndim, self.aa == old(self).aa, self.bb == old(self).bb, self.cc == old(self).cc, self.ee == old(self).ee, self.params == old(self).params, self.info == old(self).info,
                old(self).wf(), y.data@.len() == self.system.ndim, h@ > 0real, k@.len() == self.nstage, lens(k@, self.nstage as int, self.system.ndim as int),
                    k@ == ks, self.w.data@.len() == self.system.ndim, advanced(self.w.data@, self.bb.data@, k@, y.data@, h@, self.nstage as int, m as int),
//@loop 2 start
                let ghost ws = self.w.data@;
//@loop 3
                    invariant
                self.nstage == old(self).nstage, self.system.ndim == old(self).system.ndim, self.aa == old(self).aa, self.bb == old(self).bb, self.cc == old(self).cc, self.ee == old(self).ee, self.params == old(self).params, self.info == old(self).info,
                old(self).wf(), y.data@.len() == self.system.ndim, h@ > 0real, k@.len() == self.nstage, lens(k@, self.nstage as int, self.system.ndim as int),
                        k@ == ks, m < self.system.ndim, self.w.data@.len() == self.system.ndim, forall|q: int| 0 <= q < self.system.ndim && q != m ==> (#[trigger] self.w.data@[q]) == ws[q],
                        self.w.data@[m as int]@ == y.data@[m as int]@ + h@ * comb(self.bb.data@, k@, m as int, i as int),
//@loop 3 start
                    let ghost iq = i as int;
//@loop 3 end
                    proof { lemma_term(h@, comb(self.bb.data@, k@, m as int, iq), self.bb.data@[iq]@, k@[iq].data@[m as int]@);  }
//@loop 2 end
                proof {
                    assert forall|q: int| 0 <= q < m + 1 implies (#[trigger] self.w.data@[q])@ == y.data@[q]@ + h@ * comb(self.bb.data@, k@, q, self.nstage as int) by { if q < m { assert(self.w.data@[q] == ws[q]); } }
                    
                }
//@loop 4
                invariant
                self.nstage == old(self).nstage, self.system.ndim == old(self).system.ndim, self.aa == old(self).aa, self.bb == old(self).bb, self.cc == old(self).cc, self.ee == old(self).ee, self.params == old(self).params, self.info == old(self).info,
                old(self).wf(), y.data@.len() == self.system.ndim, h@ > 0real, k@.len() == self.nstage, lens(k@, self.nstage as int, self.system.ndim as int),
                    k@ == ks, self.w.data@.len() == self.system.ndim, advanced(self.w.data@, self.bb.data@, k@, y.data@, h@, self.nstage as int, m as int),
                    ee.data@ == self.ee->Some_0.data@, ee.data@.len() == self.nstage, self.nstage == 12, bhh1@ == DORMAND_PRINCE_8_BHH1_spec(), bhh2@ == DORMAND_PRINCE_8_BHH2_spec(), bhh3@ == DORMAND_PRINCE_8_BHH3_spec(),
                    err_5@ == esum(self.params.tol, self.w.data@, err8(ee.data@, k@, self.nstage as int, self.system.ndim as int), y.data@, m as int),
                    err_3@ == esum(self.params.tol, self.w.data@, err3(self.bb.data@, k@, self.nstage as int, self.system.ndim as int), y.data@, m as int),
//@loop 4 start
                let ghost ws = self.w.data@;
//@loop 5
                    invariant
                self.nstage == old(self).nstage, self.system.ndim == old(self).system.ndim, self.aa == old(self).aa, self.bb == old(self).bb, self.cc == old(self).cc, self.ee == old(self).ee, self.params == old(self).params, self.info == old(self).info,
                old(self).wf(), y.data@.len() == self.system.ndim, h@ > 0real, k@.len() == self.nstage, lens(k@, self.nstage as int, self.system.ndim as int),
                        k@ == ks, m < self.system.ndim, self.w.data@.len() == self.system.ndim, forall|q: int| 0 <= q < self.system.ndim && q != m ==> (#[trigger] self.w.data@[q]) == ws[q],
                        self.w.data@[m as int]@ == y.data@[m as int]@ + h@ * comb(self.bb.data@, k@, m as int, i as int),
                        ee.data@ == self.ee->Some_0.data@, ee.data@.len() == self.nstage, err_a@ == comb(self.bb.data@, k@, m as int, i as int), err_b@ == comb(ee.data@, k@, m as int, i as int),
//@loop 5 start
                    let ghost iq = i as int;
//@loop 5 end
                    proof { lemma_term(h@, comb(self.bb.data@, k@, m as int, iq), self.bb.data@[iq]@, k@[iq].data@[m as int]@);  }
//@loop 4 end
                proof {
                    assert forall|q: int| 0 <= q < m + 1 implies (#[trigger] self.w.data@[q])@ == y.data@[q]@ + h@ * comb(self.bb.data@, k@, q, self.nstage as int) by { if q < m { assert(self.w.data@[q] == ws[q]); } }
                    lemma_esum(self.params.tol, ws, self.w.data@, err8(ee.data@, k@, self.nstage as int, self.system.ndim as int), y.data@, m as int);
                    lemma_esum(self.params.tol, ws, self.w.data@, err3(self.bb.data@, k@, self.nstage as int, self.system.ndim as int), y.data@, m as int);
                }
//@loop 6
                invariant
                self.nstage == old(self).nstage, self.system.ndim == old(self).system.ndim, self.aa == old(self).aa, self.bb == old(self).bb, self.cc == old(self).cc, self.ee == old(self).ee, self.params == old(self).params, self.info == old(self).info,
                old(self).wf(), y.data@.len() == self.system.ndim, h@ > 0real, k@.len() == self.nstage, lens(k@, self.nstage as int, self.system.ndim as int),
                    k@ == ks, self.w.data@.len() == self.system.ndim, advanced(self.w.data@, self.bb.data@, k@, y.data@, h@, self.nstage as int, m as int),
                    ee.data@ == self.ee->Some_0.data@, ee.data@.len() == self.nstage,
                    sum@ == esum(self.params.tol, self.w.data@, err5(ee.data@, k@, h@, self.nstage as int, self.system.ndim as int), y.data@, m as int),
//@loop 6 start
                let ghost ws = self.w.data@;
//@loop 7
                    invariant
                self.nstage == old(self).nstage, self.system.ndim == old(self).system.ndim, self.aa == old(self).aa, self.bb == old(self).bb, self.cc == old(self).cc, self.ee == old(self).ee, self.params == old(self).params, self.info == old(self).info,
                old(self).wf(), y.data@.len() == self.system.ndim, h@ > 0real, k@.len() == self.nstage, lens(k@, self.nstage as int, self.system.ndim as int),
                        k@ == ks, m < self.system.ndim, self.w.data@.len() == self.system.ndim, forall|q: int| 0 <= q < self.system.ndim && q != m ==> (#[trigger] self.w.data@[q]) == ws[q],
                        self.w.data@[m as int]@ == y.data@[m as int]@ + h@ * comb(self.bb.data@, k@, m as int, i as int),
                        ee.data@ == self.ee->Some_0.data@, ee.data@.len() == self.nstage, err_m@ == h@ * comb(ee.data@, k@, m as int, i as int),
//@loop 7 start
                    let ghost iq = i as int;
//@loop 7 end
                    proof { lemma_term(h@, comb(self.bb.data@, k@, m as int, iq), self.bb.data@[iq]@, k@[iq].data@[m as int]@); lemma_term(h@, comb(ee.data@, k@, m as int, iq), ee.data@[iq]@, k@[iq].data@[m as int]@); }
//@loop 6 end
                proof {
                    assert forall|q: int| 0 <= q < m + 1 implies (#[trigger] self.w.data@[q])@ == y.data@[q]@ + h@ * comb(self.bb.data@, k@, q, self.nstage as int) by { if q < m { assert(self.w.data@[q] == ws[q]); } }
                    lemma_esum(self.params.tol, ws, self.w.data@, err5(ee.data@, k@, h@, self.nstage as int, self.system.ndim as int), y.data@, m as int);
                }
//@after loop 4
            proof {
                lemma_esum_pos(self.params.tol, self.w.data@, err8(ee.data@, k@, self.nstage as int, self.system.ndim as int), y.data@, self.system.ndim as int);
                lemma_esum_pos(self.params.tol, self.w.data@, err3(self.bb.data@, k@, self.nstage as int, self.system.ndim as int), y.data@, self.system.ndim as int);
            }
//@before stmt `work . rel_error = R :: abs`
            proof { let (a, b) = (dim@, den@); assert(a * b > 0real) by (nonlinear_arith) requires a >= 1real, b > 0real; let p = a * b; assert(1real / p >= 0real) by (nonlinear_arith) requires p > 0real; }
//@after loop 6
            proof {
                lemma_esum_pos(self.params.tol, self.w.data@, err5(ee.data@, k@, h@, self.nstage as int, self.system.ndim as int), y.data@, self.system.ndim as int);
                let (a, b) = (sum@, dim@); assert(a / b >= 0real) by (nonlinear_arith) requires a >= 0real, b >= 1real;
            }
//@after stmt `let sk = ` #0
                proof { lemma_sk(self.params.tol, self.w.data@, y.data@, m as int); assert(sk@ == esk(self.params.tol, self.w.data@, y.data@, m as int)); }
//@after stmt `let sk = ` #1
                proof { lemma_sk(self.params.tol, self.w.data@, y.data@, m as int); assert(sk@ == esk(self.params.tol, self.w.data@, y.data@, m as int)); }
//@endfn

// ---- forward Euler ----
//@struct russell_ode/src/euler_forward.rs EulerForward system:VxSys
//@fn russell_ode/src/euler_forward.rs <OdeSolverTrait for EulerForward>::step
//@spec
    requires old(self).k.data@.len() == old(self).system.ndim, old(self).w.data@.len() == old(self).system.ndim, y.data@.len() == old(self).system.ndim, old(work).stats.n_function < usize::MAX,
        vx_rhs(x@, y.data@).len() == y.data@.len(),
    ensures
        final(self).w.data@.len() == old(self).w.data@.len(), final(self).k.data@.len() == old(self).k.data@.len(), final(self).system.ndim == old(self).system.ndim,
        ret is Ok ==> {
            &&& final(work).stats.n_function - old(work).stats.n_function == final(self).system.function.n@ - old(self).system.function.n@
            &&& forall|m: int| 0 <= m < y.data@.len() ==> (#[trigger] final(self).w.data@[m])@ == y.data@[m]@ + h@ * vx_rhs(x@, y.data@)[m]@
        },
//@endfn
//@fn russell_ode/src/euler_forward.rs <OdeSolverTrait for EulerForward>::accept
//@spec
    requires old(y).data@.len() == old(self).w.data@.len(),
    ensures ret is Ok, final(x)@ == old(x)@ + h@, final(y).data@ == old(self).w.data@, *final(self) == *old(self),
//@endfn

// ---- dense output ----
//@const russell_ode/src/constants.rs DORMAND_PRINCE_5_D
//@const russell_ode/src/constants.rs DORMAND_PRINCE_8_AD
//@const russell_ode/src/constants.rs DORMAND_PRINCE_8_CD
//@const russell_ode/src/constants.rs DORMAND_PRINCE_8_D
//@map const:DORMAND_PRINCE_5_D=DORMAND_PRINCE_5_D_c const:DORMAND_PRINCE_8_AD=DORMAND_PRINCE_8_AD_c const:DORMAND_PRINCE_8_CD=DORMAND_PRINCE_8_CD_c const:DORMAND_PRINCE_8_D=DORMAND_PRINCE_8_D_c
//@struct russell_ode/src/erk_dense_out.rs ErkDenseOut
impl ErkDenseOut {
    pub open spec fn wf(&self) -> bool {
        &&& self.method is DoPri5 ==> self.d@.len() == 5
        &&& self.method is DoPri8 ==> self.d@.len() == 8 && self.kd@.len() == 3 && self.yd.data@.len() == self.ndim && lens(self.kd@, 3, self.ndim as int)
        &&& self.method is DoPri5 || self.method is DoPri8
        &&& lens(self.d@, self.d@.len() as int, self.ndim as int)
    }
}
// the interpolating polynomial of one component: start a0, difference a1, coefficients a2, a3 and a remainder that vanishes to second order at both ends
pub open spec fn dense(a0: real, a1: real, a2: real, a3: real, rest: real, t: real) -> real { a0 + t * (a1 + (1real - t) * (a2 + t * (a3 + (1real - t) * rest))) }
// its value at the ends is the old and the new state
pub proof fn lemma_ends(a0: real, a1: real, a2: real, a3: real, rest: real)
    ensures dense(a0, a1, a2, a3, rest, 0real) == a0, dense(a0, a1, a2, a3, rest, 1real) == a0 + a1
{
    let p = a1 + (1real - 0real) * (a2 + 0real * (a3 + (1real - 0real) * rest));
    assert(0real * p == 0real) by (nonlinear_arith);
    let q = a2 + 1real * (a3 + (1real - 1real) * rest);
    assert((1real - 1real) * q == 0real) by (nonlinear_arith);
}
// the change over a fraction t of the step differs from t times the slope by terms of second order: slope at the start a1 + a2, at the end a1 - a2 - a3
pub open spec fn start_rest(a2: real, a3: real, rest: real, t: real) -> real { (1real - t) * (a3 + (1real - t) * rest) - a2 }
pub proof fn lemma_slope_start(a0: real, a1: real, a2: real, a3: real, rest: real, t: real)
    ensures dense(a0, a1, a2, a3, rest, t) == a0 + t * (a1 + a2) + t * t * start_rest(a2, a3, rest, t)
{
    let u = 1real - t;
    let z = a3 + u * rest;
    assert(u * (a2 + t * z) == u * a2 + t * (u * z)) by (nonlinear_arith);
    assert(u * a2 == a2 - t * a2) by (nonlinear_arith) requires u == 1real - t;
    let uz = u * z;
    assert(t * (a1 + (a2 - t * a2 + t * uz)) == t * (a1 + a2) + t * t * (uz - a2)) by (nonlinear_arith);
}
// seen from the end: the same form with the slope a1 - a2 - a3 at the end
pub proof fn lemma_slope_end(a0: real, a1: real, a2: real, a3: real, rest: real, u: real)
    ensures dense(a0, a1, a2, a3, rest, 1real - u) == dense(a0 + a1, -a1, a2 + a3, rest - (a3 + u * rest), 0real, u)
{
    let t = 1real - u;
    assert(1real - t == u);
    let z = a3 + u * rest;
    let v = rest - z;
    assert(t * z == z - u * z) by (nonlinear_arith) requires t == 1real - u;
    assert(u * rest - u * z == u * v) by (nonlinear_arith) requires v == rest - z;
    let p = a2 + t * z;
    assert(p == a2 + a3 + u * v);
    assert(t * (a1 + u * p) == a1 - u * a1 + t * (u * p)) by (nonlinear_arith) requires t == 1real - u;
    assert(t * (u * p) == u * (t * p)) by (nonlinear_arith);
    let tp = t * p;
    assert(u * (-a1 + tp) == u * tp - u * a1) by (nonlinear_arith);
    assert((1real - u) * 0real == 0real);
}
pub open spec fn c5() -> Seq<R> { DORMAND_PRINCE_5_D_spec()@[0]@ }
pub open spec fn coef5(y: real, w: real, h: real, k: Seq<NumVector>, m: int) -> (real, real, real, real, real) {
    let b = h * k[0].data@[m]@ - (w - y);
    (y, w - y, b, (w - y) - h * k[6].data@[m]@ - b,
     (c5()[0]@ * k[0].data@[m]@ + c5()[2]@ * k[2].data@[m]@ + c5()[3]@ * k[3].data@[m]@ + c5()[4]@ * k[4].data@[m]@ + c5()[5]@ * k[5].data@[m]@ + c5()[6]@ * k[6].data@[m]@) * h)
}
pub open spec fn row(d: Seq<NumVector>, i: int, m: int) -> real { d[i].data@[m]@ }
// coefficients of the first n components after an update
pub open spec fn updated5(d: Seq<NumVector>, y: Seq<R>, w: Seq<R>, h: real, k: Seq<NumVector>, n: int) -> bool {
    forall|m: int| 0 <= m < n ==> (#[trigger] row(d, 0, m), row(d, 1, m), row(d, 2, m), row(d, 3, m), row(d, 4, m)) == coef5(y[m]@, w[m]@, h, k, m)
}
// the two ends: start, difference, slope of the first stage at the start, slope of the last stage at the end
pub open spec fn updated8(d: Seq<NumVector>, y: Seq<R>, w: Seq<R>, h: real, k: Seq<NumVector>, n: int) -> bool {
    forall|m: int| 0 <= m < n ==> {
        let b = h * k[0].data@[m]@ - (w[m]@ - y[m]@);
        &&& #[trigger] row(d, 0, m) == y[m]@ && row(d, 1, m) == w[m]@ - y[m]@ && row(d, 2, m) == b && row(d, 3, m) == (w[m]@ - y[m]@) - h * k[11].data@[m]@ - b
    }
}
pub open spec fn a8(i: int, j: int) -> real { DORMAND_PRINCE_8_AD_spec()@[i]@[j]@ }
pub open spec fn c8(i: int) -> real { DORMAND_PRINCE_8_CD_spec()@[i]@ }
pub open spec fn d8(i: int, j: int) -> real { DORMAND_PRINCE_8_D_spec()@[i]@[j]@ }
// the points of the three additional evaluations
pub open spec fn p8(i: int, y: Seq<R>, h: real, k: Seq<NumVector>, kd: Seq<NumVector>, m: int) -> real {
    if i == 0 { y[m]@ + h * (a8(0, 0) * row(k, 0, m) + a8(0, 6) * row(k, 6, m) + a8(0, 7) * row(k, 7, m) + a8(0, 8) * row(k, 8, m) + a8(0, 9) * row(k, 9, m) + a8(0, 10) * row(k, 10, m) + a8(0, 11) * row(k, 11, m) + a8(0, 12) * row(k, 11, m)) }
    else if i == 1 { y[m]@ + h * (a8(1, 0) * row(k, 0, m) + a8(1, 5) * row(k, 5, m) + a8(1, 6) * row(k, 6, m) + a8(1, 7) * row(k, 7, m) + a8(1, 10) * row(k, 10, m) + a8(1, 11) * row(k, 11, m) + a8(1, 12) * row(k, 11, m) + a8(1, 13) * row(kd, 0, m)) }
    else { y[m]@ + h * (a8(2, 0) * row(k, 0, m) + a8(2, 5) * row(k, 5, m) + a8(2, 6) * row(k, 6, m) + a8(2, 7) * row(k, 7, m) + a8(2, 8) * row(k, 8, m) + a8(2, 12) * row(k, 11, m) + a8(2, 13) * row(kd, 0, m) + a8(2, 14) * row(kd, 1, m)) }
}
pub open spec fn points8(i: int, p: Seq<R>, y: Seq<R>, h: real, k: Seq<NumVector>, kd: Seq<NumVector>, n: int) -> bool { forall|m: int| 0 <= m < n ==> (#[trigger] p[m])@ == p8(i, y, h, k, kd, m) }
pub open spec fn extra8(i: int, p: Seq<R>, x: real, y: Seq<R>, h: real, k: Seq<NumVector>, kd: Seq<NumVector>, n: int) -> bool { points8(i, p, y, h, k, kd, n) && kd[i].data@ == vx_rhs(x + c8(i) * h, p) }
pub open spec fn more8(i: int, h: real, k: Seq<NumVector>, kd: Seq<NumVector>, m: int) -> real {
    h * (d8(i, 0) * row(k, 0, m) + d8(i, 5) * row(k, 5, m) + d8(i, 6) * row(k, 6, m) + d8(i, 7) * row(k, 7, m) + d8(i, 8) * row(k, 8, m) + d8(i, 9) * row(k, 9, m) + d8(i, 10) * row(k, 10, m) + d8(i, 11) * row(k, 11, m) + d8(i, 12) * row(k, 11, m) + d8(i, 13) * row(kd, 0, m) + d8(i, 14) * row(kd, 1, m) + d8(i, 15) * row(kd, 2, m))
}
pub open spec fn tail8(d: Seq<NumVector>, h: real, k: Seq<NumVector>, kd: Seq<NumVector>, n: int) -> bool {
    forall|m: int| 0 <= m < n ==> #[trigger] row(d, 4, m) == more8(0, h, k, kd, m) && row(d, 5, m) == more8(1, h, k, kd, m) && row(d, 6, m) == more8(2, h, k, kd, m) && row(d, 7, m) == more8(3, h, k, kd, m)
}
//@fn russell_ode/src/erk_dense_out.rs ErkDenseOut::calculate vecvec:d
//@spec
    requires self.wf(), old(y_out).data@.len() == self.ndim, h@ > 0real,
    ensures final(y_out).data@.len() == self.ndim,
        self.method is DoPri5 ==> forall|m: int| 0 <= m < self.ndim ==> (#[trigger] final(y_out).data@[m])@ == dense(row(self.d@, 0, m), row(self.d@, 1, m), row(self.d@, 2, m), row(self.d@, 3, m), row(self.d@, 4, m), (x_out@ - (x@ - h@)) / h@),
        self.method is DoPri8 ==> forall|m: int| 0 <= m < self.ndim ==> (#[trigger] final(y_out).data@[m])@ == dense(row(self.d@, 0, m), row(self.d@, 1, m), row(self.d@, 2, m), row(self.d@, 3, m),
            rest8(row(self.d@, 4, m), row(self.d@, 5, m), row(self.d@, 6, m), row(self.d@, 7, m), (x_out@ - (x@ - h@)) / h@), (x_out@ - (x@ - h@)) / h@),
//@loop 0
                invariant self.wf(), self.method is DoPri5, y_out.data@.len() == self.ndim, theta@ == (x_out@ - (x@ - h@)) / h@, u_theta@ == 1real - theta@,
                    forall|q: int| 0 <= q < m ==> (#[trigger] y_out.data@[q])@ == dense(row(self.d@, 0, q), row(self.d@, 1, q), row(self.d@, 2, q), row(self.d@, 3, q), row(self.d@, 4, q), theta@),
//@loop 1
                invariant self.wf(), self.method is DoPri8, y_out.data@.len() == self.ndim, theta@ == (x_out@ - (x@ - h@)) / h@, u_theta@ == 1real - theta@,
                    forall|q: int| 0 <= q < m ==> (#[trigger] y_out.data@[q])@ == dense(row(self.d@, 0, q), row(self.d@, 1, q), row(self.d@, 2, q), row(self.d@, 3, q),
                        rest8(row(self.d@, 4, q), row(self.d@, 5, q), row(self.d@, 6, q), row(self.d@, 7, q), theta@), theta@),
//@endfn
pub open spec fn rest8(a4: real, a5: real, a6: real, a7: real, t: real) -> real { a4 + t * (a5 + (1real - t) * (a6 + t * a7)) }
// trusted: the right-hand side, calls not counted
pub struct VxRhsR { pub x: usize }
impl VxRhsR {
    #[verifier::external_body]
    pub fn call(&self, k: &mut NumVector, x: R, y: &NumVector, args: &mut VxArgs) -> (ret: Result<(), StrError>)
        ensures final(k).data@.len() == old(k).data@.len(), ret is Ok ==> final(k).data@ == vx_rhs(x@, y.data@),
    { unimplemented!() }
}
pub struct System<T> { pub function: VxRhsR, pub args: Option<T> }
//@fn russell_ode/src/erk_dense_out.rs ErkDenseOut::update vecvec:d,k,kd
//@spec
    requires old(self).wf(), y.data@.len() == old(self).ndim, w.data@.len() == old(self).ndim, old(self).method is DoPri5 ==> k@.len() == 7, old(self).method is DoPri8 ==> k@.len() == 12, lens(k@, k@.len() as int, old(self).ndim as int),
        forall|a: real, b: Seq<R>| (#[trigger] vx_rhs(a, b)).len() == b.len(),
    ensures final(self).ndim == old(self).ndim, final(self).method == old(self).method,
        ret is Ok ==> {
            &&& final(self).wf()
            &&& old(self).method is DoPri5 ==> ret->Ok_0 == 0 && updated5(final(self).d@, y.data@, w.data@, h@, k@, old(self).ndim as int)
            &&& old(self).method is DoPri8 ==> tail8(final(self).d@, h@, k@, final(self).kd@, old(self).ndim as int)
            &&& old(self).method is DoPri8 ==> exists|p: Seq<R>| #[trigger] extra8(0, p, x@, y.data@, h@, k@, final(self).kd@, old(self).ndim as int)
            &&& old(self).method is DoPri8 ==> exists|p: Seq<R>| #[trigger] extra8(1, p, x@, y.data@, h@, k@, final(self).kd@, old(self).ndim as int)
            &&& old(self).method is DoPri8 ==> exists|p: Seq<R>| #[trigger] extra8(2, p, x@, y.data@, h@, k@, final(self).kd@, old(self).ndim as int)
            &&& old(self).method is DoPri8 ==> ret->Ok_0 == 3 && updated8(final(self).d@, y.data@, w.data@, h@, k@, old(self).ndim as int)
        },
//@loop 0
                invariant self.wf(), self.method == old(self).method, self.ndim == old(self).ndim, self.method is DoPri5, y.data@.len() == self.ndim, w.data@.len() == self.ndim, k@.len() == 7, lens(k@, 7, self.ndim as int),
                    *dd == DORMAND_PRINCE_5_D_spec(), updated5(self.d@, y.data@, w.data@, h@, k@, m as int),
//@loop 0 start
                let ghost d0 = self.d@;
//@loop 0 end
                proof { assert forall|q: int| 0 <= q < m + 1 implies (#[trigger] row(self.d@, 0, q), row(self.d@, 1, q), row(self.d@, 2, q), row(self.d@, 3, q), row(self.d@, 4, q)) == coef5(y.data@[q]@, w.data@[q]@, h@, k@, q) by {
                    if q < m { assert(row(d0, 0, q) == row(self.d@, 0, q)); } } }
//@loop 1
                invariant self.wf(), self.method == old(self).method, self.ndim == old(self).ndim, self.method is DoPri8, y.data@.len() == self.ndim, k@.len() == 12, lens(k@, 12, self.ndim as int), *aad == DORMAND_PRINCE_8_AD_spec(), *ccd == DORMAND_PRINCE_8_CD_spec(), *dd == DORMAND_PRINCE_8_D_spec(), points8(0, self.yd.data@, y.data@, h@, k@, self.kd@, m as int),
//@after loop 1
            let ghost p0 = self.yd.data@;
//@before loop 2
            assert(extra8(0, p0, x@, y.data@, h@, k@, self.kd@, self.ndim as int));
            let ghost kd0 = self.kd@[0];
//@loop 2
                invariant self.wf(), self.method == old(self).method, self.ndim == old(self).ndim, self.method is DoPri8, y.data@.len() == self.ndim, k@.len() == 12, lens(k@, 12, self.ndim as int), *aad == DORMAND_PRINCE_8_AD_spec(), *ccd == DORMAND_PRINCE_8_CD_spec(), *dd == DORMAND_PRINCE_8_D_spec(), self.kd@[0] == kd0, points8(1, self.yd.data@, y.data@, h@, k@, self.kd@, m as int),
//@after loop 2
            let ghost p1 = self.yd.data@;
//@before loop 3
            assert(extra8(1, p1, x@, y.data@, h@, k@, self.kd@, self.ndim as int));
            let ghost kd1 = self.kd@[1];
//@loop 3
                invariant self.wf(), self.method == old(self).method, self.ndim == old(self).ndim, self.method is DoPri8, y.data@.len() == self.ndim, k@.len() == 12, lens(k@, 12, self.ndim as int), *aad == DORMAND_PRINCE_8_AD_spec(), *ccd == DORMAND_PRINCE_8_CD_spec(), *dd == DORMAND_PRINCE_8_D_spec(), self.kd@[0] == kd0, self.kd@[1] == kd1, points8(2, self.yd.data@, y.data@, h@, k@, self.kd@, m as int),
//@after loop 3
            let ghost p2 = self.yd.data@;
//@before loop 4
            assert(extra8(2, p2, x@, y.data@, h@, k@, self.kd@, self.ndim as int));
            assert(extra8(0, p0, x@, y.data@, h@, k@, self.kd@, self.ndim as int));
            assert(extra8(1, p1, x@, y.data@, h@, k@, self.kd@, self.ndim as int));
            let ghost kd = self.kd@;
//@loop 4
                invariant self.wf(), self.method == old(self).method, self.ndim == old(self).ndim, self.method is DoPri8, y.data@.len() == self.ndim, w.data@.len() == self.ndim, k@.len() == 12, lens(k@, 12, self.ndim as int),
                    updated8(self.d@, y.data@, w.data@, h@, k@, m as int), self.kd@ == kd, tail8(self.d@, h@, k@, kd, m as int), *dd == DORMAND_PRINCE_8_D_spec(),
//@loop 4 start
                let ghost d0 = self.d@;
//@loop 4 end
                proof { assert forall|q: int| 0 <= q < m + 1 implies #[trigger] row(self.d@, 4, q) == more8(0, h@, k@, kd, q) && row(self.d@, 5, q) == more8(1, h@, k@, kd, q) && row(self.d@, 6, q) == more8(2, h@, k@, kd, q) && row(self.d@, 7, q) == more8(3, h@, k@, kd, q) by { if q < m { assert(row(d0, 4, q) == row(self.d@, 4, q)); } } }
                proof { assert(updated8(self.d@, y.data@, w.data@, h@, k@, m + 1)) by {
                    assert forall|q: int| 0 <= q < m + 1 implies {
                        let b = h@ * k@[0].data@[q]@ - (w.data@[q]@ - y.data@[q]@);
                        #[trigger] row(self.d@, 0, q) == y.data@[q]@ && row(self.d@, 1, q) == w.data@[q]@ - y.data@[q]@ && row(self.d@, 2, q) == b && row(self.d@, 3, q) == (w.data@[q]@ - y.data@[q]@) - h@ * k@[11].data@[q]@ - b
                    } by { if q < m { assert(row(d0, 0, q) == row(self.d@, 0, q)); } } } }
//@endfn
} // verus!
fn main() {}
