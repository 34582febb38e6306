//@include inc_lab.rs
//@include inc_algo.rs
verus! {

//@struct russell_lab/src/algo/root_finder.rs RootFinder

pub open spec fn eps() -> real { 1real / 4503599627370496real }
// values of strictly opposite signs (b may be a root)
pub open spec fn opposite(fb: real, fc: real) -> bool { fc != 0real && (fb > 0real ==> fc < 0real) && (fb < 0real ==> fc > 0real) }
pub open spec fn between(a: real, b: real, c: real) -> bool { (a < b && b < c) || (c < b && b < a) }
pub open spec fn tol_of(b: real, tolerance: real) -> real { 2real * eps() * rabs(b) + tolerance / 2real }
// a root of a continuous function lies within the distance d of x
pub open spec fn changes(x: real, d: real, lo: real, hi: real) -> bool {
    exists|c: real| lo <= c && c <= hi && rabs(c - x) <= d && opposite(vx_f(x), #[trigger] vx_f(c)) && rabs(vx_f(x)) <= rabs(vx_f(c))
}
proof fn lemma_signs(x: real, y: real)
    requires x * y < 0real
    ensures x != 0real, opposite(x, y), opposite(y, x)
{
    lemma_pos(x, y);
}
// secant step
proof fn lemma_secant(del: real, fa: real, fb: real)
    requires opposite(fb, fa), fb != 0real, del != 0real
    ensures del * (fb / fa) != 0real
{
    let t = fb / fa;
    assert(t * fa == fb) by (nonlinear_arith) requires t == fb / fa, fa != 0real;
    assert(t != 0real) by (nonlinear_arith) requires t * fa == fb, fb != 0real;
    lemma_pos(del, t);
}
// inverse quadratic step: the numerator does not vanish
proof fn lemma_quadratic(del: real, d: real, fa: real, fb: real, fc: real)
    requires
        fb != 0real, opposite(fb, fc), opposite(fa, fc), fa != 0real, rabs(fa) > rabs(fb),
        (del > 0real && d > 0real) || (del < 0real && d < 0real),
    ensures
        ({ let t0 = fa / fc; let t1 = fb / fc; let t2 = fb / fa; t2 * (del * t0 * (t0 - t1) - d * (t1 - 1real)) }) != 0real
{
    let t0 = fa / fc; let t1 = fb / fc; let t2 = fb / fa;
    lemma_ratio(fa, fc); lemma_ratio(fb, fc); lemma_ratio(fb, fa);
    assert(t0 * fc == fa && t1 * fc == fb && t2 * fa == fb);
    lemma_pos(t0, fc); lemma_pos(t1, fc); lemma_pos(t2, fa);
    assert(t0 < 0real && t1 < 0real && t2 > 0real);
    assert((t0 - t1) * fc == fa - fb) by (nonlinear_arith) requires t0 * fc == fa, t1 * fc == fb;
    lemma_pos(t0 - t1, fc);
    assert(t0 - t1 < 0real);
    lemma_pos(t0, t0 - t1);
    let x = t0 * (t0 - t1);
    assert(x > 0real);
    assert(del * t0 * (t0 - t1) == del * x) by (nonlinear_arith) requires x == t0 * (t0 - t1);
    lemma_pos(del, x);
    lemma_pos(d, t1 - 1real);
    let y = del * x - d * (t1 - 1real);
    assert(y != 0real);
    lemma_pos(t2, y);
}
// an accepted interpolation step lies strictly between the best point and the other end
proof fn lemma_step(p: real, q: real, del: real, tol: real)
    requires p > 0real, p < (3real / 4real) * del * q - rabs(tol * q) / 2real
    ensures q != 0real, between(0real, p / q, del)
{
    assert((3real / 4real) * del * q > p);
    assert(del * q > 0real) by (nonlinear_arith) requires (3real / 4real) * del * q > p, p > 0real;
    lemma_pos(del, q);
    assert(q != 0real);
    let t = p / q;
    lemma_ratio(p, q);
    assert(t * q == p);
    lemma_pos(t, q);
    assert((del - t) * q > 0real) by (nonlinear_arith) requires (3real / 4real) * del * q > p, t * q == p, del * q > 0real;
    lemma_pos(del - t, q);
}

//@fn russell_lab/src/algo/root_finder_brent.rs RootFinder::brent fn:f=VxFn
//@spec
    requires old(f).log@.len() == 0,
    ensures
        // never evaluated outside of the interval, also when failing
        inside(final(f).log@, rmin(xa@, xb@), rmax(xa@, xb@)),
        // inside of the interval, a root or next to a change of sign
        ret is Ok ==> rmin(xa@, xb@) <= ret->Ok_0@ && ret->Ok_0@ <= rmax(xa@, xb@),
        ret is Ok ==> vx_f(ret->Ok_0@) == 0real || changes(ret->Ok_0@, 2real * tol_of(ret->Ok_0@, old(self).brent_tolerance@), rmin(xa@, xb@), rmax(xa@, xb@)),
        // refused if the signs do not differ
        ret is Ok ==> vx_f(xa@) * vx_f(xb@) < 0real,
        ret is Ok ==> rabs(xa@ - xb@) >= 10real * eps(),
//@start
    let ghost lo = rmin(xa@, xb@);
    let ghost hi = rmax(xa@, xb@);
//@before loop 0
        proof { lemma_signs(fa@, fb@); }
//@loop 0
        invariant_except_break !converged,
        invariant
            lo == rmin(xa@, xb@), hi == rmax(xa@, xb@), self.brent_tolerance == old(self).brent_tolerance,
            vx_f(xa@) * vx_f(xb@) < 0real, rabs(xa@ - xb@) >= 10real * eps(),
            inside(f.log@, lo, hi),
            lo <= a@ && a@ <= hi, lo <= b@ && b@ <= hi, lo <= c@ && c@ <= hi, b@ != c@,
            fa@ == vx_f(a@), fb@ == vx_f(b@), fc@ == vx_f(c@),
            opposite(fb@, fc@),
            !converged ==> (a@ == c@ || (between(a@, b@, c@) && fa@ != 0real && opposite(fa@, fc@))),
            converged ==> fb@ == 0real || rabs(c@ - b@) <= 2real * tol_of(b@, self.brent_tolerance@) && rabs(fb@) <= rabs(fc@),
//@after stmt `let tol`
            proof { assert(tol@ == tol_of(b@, self.brent_tolerance@)); }
//@after stmt `let del`
                proof {
                    if a@ == c@ { lemma_secant(del@, fa@, fb@); } else { lemma_quadratic(del@, b@ - a@, fa@, fb@, fc@); }
                }
//@before stmt `if p < (`
                proof { assert(p@ > 0real); }
//@before stmt `step_new = p / q`
                    proof { lemma_step(p@, q@, del@, tol@); }
//@before stmt `a = b` #1
            proof { assert(between(0real, step_new@, c@ - b@)); }
//@after loop 0
        proof {
            if converged && fb@ != 0real { assert(opposite(vx_f(b@), vx_f(c@))); }
        }
//@endfn

// ---------------------------------------------------------------- roots of an interpolant
//@struct russell_lab/src/algo/interp_chebyshev.rs InterpChebyshev
//@fn russell_lab/src/algo/interp_chebyshev.rs InterpChebyshev::get_degree
//@spec
    ensures ret == self.nn,
//@endfn
//@fn russell_lab/src/algo/interp_chebyshev.rs InterpChebyshev::get_range
//@spec
    ensures ret == (self.xa, self.xb, self.dx),
//@endfn
//@fn russell_lab/src/algo/interp_chebyshev.rs InterpChebyshev::get_coefficients
//@spec
    ensures ret@ == self.a@,
//@endfn
//@fn russell_lab/src/algo/interp_chebyshev.rs InterpChebyshev::is_ready
//@spec
    ensures ret == self.ready,
//@endfn

// ---- trusted: eigenvalue routine: nothing is assumed about the values, but it does not fail ----
#[verifier::external_body]
pub fn mat_eigenvalues(l_real: &mut NumVector, l_imag: &mut NumVector, a: &mut NumMatrix) -> (ret: Result<(), StrError>)
    ensures ret is Ok, final(l_real).data@.len() == old(l_real).data@.len(), final(l_imag).data@.len() == old(l_imag).data@.len(),
{ unimplemented!() }
// ---- trusted: sort_by with the order of the numbers ----
#[verifier::external_body]
pub fn vx_sort(x: &mut Vec<R>)
    ensures final(x)@.to_multiset() == old(x)@.to_multiset(), final(x)@.len() == old(x)@.len(),
        forall|i: int, j: int| 0 <= i < j < final(x)@.len() ==> (#[trigger] final(x)@[i])@ <= (#[trigger] final(x)@[j])@,
{ unimplemented!() }
pub open spec fn all_within(s: Seq<R>, a: real, b: real) -> bool { forall|i: int| 0 <= i < s.len() ==> a <= (#[trigger] s[i])@ && s[i]@ <= b }
pub open spec fn sorted(s: Seq<R>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i])@ <= (#[trigger] s[j])@ }
proof fn lemma_same(s: Seq<R>, t: Seq<R>, a: real, b: real)
    requires s.to_multiset() == t.to_multiset(), all_within(s, a, b)
    ensures all_within(t, a, b)
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert forall|i: int| 0 <= i < t.len() implies a <= (#[trigger] t[i])@ && t[i]@ <= b by {
        assert(t.contains(t[i]));
        assert(t.to_multiset().count(t[i]) > 0);
        assert(s.contains(t[i]));
    }
}

// colleague matrix of a Chebyshev series: x T_k = (T_(k-1) + T_(k+1)) / 2, with T_n from the series
pub open spec fn last(l: int, a: Seq<R>, n: int) -> real { -(1real / 2real) * a[l]@ / a[n]@ }
pub open spec fn colleague(i: int, l: int, a: Seq<R>, n: int) -> real {
    if i == n - 1 { last(l, a, n) + (if l == n - 2 { 1real / 2real } else { 0real }) }
    else if i == 0 { if l == 1 { 1real } else { 0real } }
    else if l == i + 1 || l == i - 1 { 1real / 2real } else { 0real }
}
//@fn russell_lab/src/algo/root_finder.rs RootFinder::chebyshev
//@spec
    requires
        interp.a@.len() > interp.nn, interp.nn * interp.nn <= usize::MAX, interp.xa@ <= interp.xb@,
        self.tol_zero_an@ > 0real,
    ensures
        ret is Ok ==> interp.ready,
        interp.ready && interp.nn > 0 ==> (ret is Ok <==> rabs(interp.a@[interp.nn as int]@) >= self.tol_zero_an@),
        // sorted roots inside of the interval, not more than the degree
        ret is Ok ==> sorted(ret->Ok_0@) && all_within(ret->Ok_0@, interp.xa@, interp.xb@) && ret->Ok_0@.len() <= interp.nn,
        // the straight line: its root is reported if it is in the interval
        ret is Ok && interp.nn == 1 && rabs(interp.a@[0]@ / interp.a@[1]@) <= 1real && interp.dx@ == interp.xb@ - interp.xa@ && self.tol_abs_boundary@ >= 0real ==>
            ret->Ok_0@.len() == 1 && ret->Ok_0@[0]@ == (interp.xb@ + interp.xa@ - interp.dx@ * (interp.a@[0]@ / interp.a@[1]@)) / 2real,
//@before stmt `let z =`
            proof {
                let (p, q) = (a@[0]@, a@[1]@);
                lemma_ratio(p, q); lemma_ratio(-p, q);
                let (u, v) = (p / q, (-p) / q);
                assert(v == -u) by (nonlinear_arith) requires u * q == p, v * q == -p, q != 0real;
                let d = xb@ - xa@;
                assert(rabs(u) <= 1real ==> -d <= d * v && d * v <= d) by (nonlinear_arith) requires d >= 0real, v == -u;
                assert(d * v == -(d * u)) by (nonlinear_arith) requires v == -u;
            }
//@loop 0
            invariant
                aa.wf(), aa.nrow == nn, aa.ncol == nn, nn >= 2, nn * nn <= usize::MAX,
                forall|k: int, l: int| 0 <= k < nn && 0 <= l < nn ==> #[trigger] aa.at(k, l)@ == if k < r { colleague(k, l, a@, nn as int) } else { 0real },
//@loop 1
            invariant
                aa.wf(), aa.nrow == nn, aa.ncol == nn, nn >= 2, nn * nn <= usize::MAX, a@.len() > nn, an == a@[nn as int], an@ != 0real,
                forall|i: int, l: int| 0 <= i < nn - 1 && 0 <= l < nn ==> #[trigger] aa.at(i, l)@ == colleague(i, l, a@, nn as int),
                forall|l: int| 0 <= l < nn ==> #[trigger] aa.at(nn - 1, l)@ == if l < k { last(l, a@, nn as int) } else { 0real },
//@before stmt `mat_eigenvalues`
        // the matrix whose eigenvalues are the roots
        assert(forall|i: int, l: int| 0 <= i < nn && 0 <= l < nn ==> #[trigger] aa.at(i, l)@ == colleague(i, l, a@, nn as int));
//@loop 2
            invariant
                l_real.data@.len() == nn, l_imag.data@.len() == nn, xa@ <= xb@, roots@.len() <= i, all_within(roots@, xa@, xb@),
//@before stmt `if roots.len() > 0`
        let ghost before = roots@;
//@end
        proof { lemma_same(before, roots@, xa@, xb@); }
//@endfn

} // verus!
fn main() {}
