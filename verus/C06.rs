//@include inc_coo.rs
//@map A=VxArgs
//@map CooMatrix=NumCooMatrix
verus! {

impl NumCooMatrix {
    pub open spec fn same_shape(&self, o: &NumCooMatrix) -> bool {
        &&& self.symmetric == o.symmetric && self.nrow == o.nrow && self.ncol == o.ncol && self.max_nnz == o.max_nnz
    }
    pub open spec fn same_entry(&self, o: &NumCooMatrix, p: int) -> bool {
        &&& self.indices_i@[p] == o.indices_i@[p]
        &&& self.indices_j@[p] == o.indices_j@[p]
        &&& self.values@[p] == o.values@[p]
    }
    // entry p is at (i,j)
    pub open spec fn at_pos(&self, p: int, i: int, j: int) -> bool {
        0 <= p < self.nnz && self.indices_i@[p] == i && self.indices_j@[p] == j
    }
    pub open spec fn apart(&self, p: int, q: int) -> bool { self.indices_i@[p] != self.indices_i@[q] || self.indices_j@[p] != self.indices_j@[q] }
    // entry p is the difference quotient with respect to variable indices_j[p] times the factor
    pub open spec fn quotient(&self, p: int, n: int, alpha: real, x: real, y: Seq<R>, d: Seq<real>) -> bool {
        let (i, j) = (self.indices_i@[p] as int, self.indices_j@[p] as int);
        &&& 0 <= i < n && 0 <= j < n
        &&& self.values@[p]@ == alpha * (vx_g(x, moved(y, j, d[j]), i) - vx_g(x, reals(y), i)) / d[j]
    }
    pub open spec fn before(&self, p: int, j0: int, i0: int) -> bool { self.indices_j@[p] < j0 || (self.indices_j@[p] == j0 && self.indices_i@[p] < i0) }
    // columns below j0 and rows below i0 of column j0 are complete, nothing else is stored
    pub open spec fn partly(&self, n: int, alpha: real, x: real, y: Seq<R>, d: Seq<real>, j0: int, i0: int) -> bool {
        &&& forall|p: int| 0 <= p < self.nnz ==> #[trigger] self.quotient(p, n, alpha, x, y, d)
        &&& forall|p: int| 0 <= p < self.nnz ==> #[trigger] self.before(p, j0, i0)
        &&& forall|i: int, j: int| #![trigger self.stored(i, j)] 0 <= i < n && 0 <= j < n && allowed(self.symmetric, i, j) && (j < j0 || (j == j0 && i < i0)) ==> self.stored(i, j)
        &&& forall|p: int, q: int| 0 <= p < q < self.nnz ==> #[trigger] self.apart(p, q)
    }
    pub open spec fn stored(&self, i: int, j: int) -> bool { exists|p: int| #[trigger] self.at_pos(p, i, j) }
    // exactly one entry for every position (of the triangle): the forward difference quotient with some positive increment of that variable
    pub open spec fn assembled(&self, n: int, alpha: real, x: real, y: Seq<R>) -> bool {
        exists|d: Seq<real>| #[trigger] self.assembled_with(n, alpha, x, y, d)
    }
    pub open spec fn assembled_with(&self, n: int, alpha: real, x: real, y: Seq<R>, d: Seq<real>) -> bool {
        &&& d.len() == n && forall|j: int| 0 <= j < n ==> #[trigger] d[j] > 0real
        &&& forall|p: int| 0 <= p < self.nnz ==> #[trigger] self.quotient(p, n, alpha, x, y, d)
        &&& forall|i: int, j: int| #![trigger self.stored(i, j)] 0 <= i < n && 0 <= j < n && allowed(self.symmetric, i, j) ==> self.stored(i, j)
        &&& forall|p: int, q: int| 0 <= p < q < self.nnz ==> #[trigger] self.apart(p, q)
    }
}
// only variable j is moved
pub open spec fn moved(y: Seq<R>, j: int, d: real) -> Seq<real> { Seq::new(y.len(), |k: int| if k == j { y[k]@ + d } else { y[k]@ }) }
pub open spec fn reals(y: Seq<R>) -> Seq<real> { Seq::new(y.len(), |k: int| y[k]@) }
} // verus!
verus! {
// ---- trusted: the function given by the caller: deterministic in (x, y), may fail at any call ----
pub uninterp spec fn vx_h(x: real, y: Seq<real>, i: int) -> real;
pub open spec fn vx_g(x: real, y: Seq<real>, i: int) -> real { vx_h(x, y, i) }
#[verifier::external_body]
pub struct VxArgs { x: usize }
pub struct VxVec { pub n: Ghost<int> }
impl VxVec {
    #[verifier::external_body]
    pub fn call(&mut self, f: &mut NumVector, x: R, y: &NumVector, args: &mut VxArgs) -> (ret: Result<(), StrError>)
        ensures final(f).data@.len() == old(f).data@.len(), ret is Ok ==> forall|i: int| 0 <= i < final(f).data@.len() ==> (#[trigger] final(f).data@[i])@ == vx_h(x@, reals(y.data@), i)
    { unimplemented!() }
}

//@fn russell_sparse/src/coo_matrix.rs NumCooMatrix::put
//@spec
    requires
        old(self).wf(),
    ensures
        final(self).wf(),
        final(self).same_shape(old(self)),
        ret is Ok <==> (i < old(self).nrow && j < old(self).ncol && old(self).nnz < old(self).max_nnz && allowed(old(self).symmetric, i as int, j as int)),
        ret is Err ==> *final(self) == *old(self),
        ret is Ok ==> {
            &&& final(self).nnz == old(self).nnz + 1
            &&& final(self).indices_i@[old(self).nnz as int] as int == i
            &&& final(self).indices_j@[old(self).nnz as int] as int == j
            &&& final(self).values@[old(self).nnz as int] == aij
            &&& forall|p: int| 0 <= p < old(self).nnz ==> #[trigger] final(self).same_entry(old(self), p)
        },
//@end
        proof {
            assert forall|p: int| 0 <= p < self.nnz implies #[trigger] self.entry_ok(p) by {
                if p < old(self).nnz { assert(old(self).entry_ok(p)); }
            }
        }
//@endfn
//@fn russell_sparse/src/coo_matrix.rs NumCooMatrix::reset
//@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).same_shape(old(self)), final(self).nnz == 0,
//@endfn

// rows of a column
pub open spec fn lo(s: Sym, j: int) -> int { if s == Sym::YesLower { j } else { 0 } }
pub open spec fn hi(s: Sym, j: int, n: int) -> int { if s == Sym::YesUpper { j + 1 } else { n } }
// twice the number of entries of the first columns
pub open spec fn cols(s: Sym, j: int, n: int) -> int {
    if s == Sym::YesLower { 2 * (j * n) - j * (j - 1) } else if s == Sym::YesUpper { j * (j + 1) } else { 2 * (j * n) }
}
proof fn lemma_room(s: Sym, j: int, i: int, n: int, m: int, nnz: int)
    requires 0 <= j < n, lo(s, j) <= i < hi(s, j, n), 2 * nnz == cols(s, j, n) + 2 * (i - lo(s, j)), tri(s) ==> m >= (n + n * n) / 2, !tri(s) ==> m >= n * n
    ensures nnz < m
{
    assert(j * n + n <= n * n) by (nonlinear_arith) requires 0 <= j < n;
    if s == Sym::YesLower {
        // 2 nnz <= 2 j n - j (j-1) + 2 (n - 1 - j)
        assert(2 * (j * n) - j * (j - 1) + 2 * (n - j) <= n + n * n) by (nonlinear_arith) requires 0 <= j < n;
    } else if s == Sym::YesUpper {
        assert(j * (j + 1) + 2 * (j + 1) <= n + n * n) by (nonlinear_arith) requires 0 <= j < n;
    }
}
proof fn lemma_cols(s: Sym, j: int, n: int)
    requires 0 <= j
    ensures cols(s, j + 1, n) == cols(s, j, n) + 2 * (hi(s, j, n) - lo(s, j))
{
    assert((j + 1) * n == j * n + n) by (nonlinear_arith);
    assert((j + 1) * j == j * (j - 1) + 2 * j) by (nonlinear_arith);
    assert((j + 1) * (j + 2) == j * (j + 1) + 2 * (j + 1)) by (nonlinear_arith);
}

// the increment is positive
proof fn lemma_step(d: real, e: real, m: real)
    requires d >= 0real, d * d == e * m, e > 0real, m > 0real
    ensures d > 0real
{
    assert(e * m > 0real) by (nonlinear_arith) requires e > 0real, m > 0real;
    assert(d != 0real) by (nonlinear_arith) requires d * d > 0real;
}
proof fn lemma_cols0(s: Sym, n: int)
    ensures cols(s, 0, n) == 0
{
    assert(0 * n == 0) by (nonlinear_arith);
}

//@fn russell_sparse/src/numerical_jacobian.rs numerical_jacobian fn:function=VxVec
//@spec
    requires old(jj).wf(), ndim * ndim + ndim <= usize::MAX,
    ensures
        // the state is unchanged, also after a failure
        final(y).data@ == old(y).data@,
        final(jj).wf(), final(jj).same_shape(old(jj)),
        ret is Ok ==> final(jj).assembled(ndim as int, alpha@, x@, old(y).data@),
//@start
    let ghost y0 = y.data@;
    let ghost mut d: Seq<real> = Seq::empty();
//@before loop 0
    proof { lemma_cols0(jj.symmetric, ndim as int); }
//@loop 0
        invariant
            THRESHOLD@ > 0real,
            y0 == old(y).data@, y.data@ == y0, y0.len() >= ndim, w1.data@.len() >= ndim, w2.data@.len() >= ndim,
            forall|i: int| 0 <= i < ndim ==> (#[trigger] w1.data@[i])@ == vx_g(x@, reals(y0), i),
            jj.wf(), jj.same_shape(old(jj)), jj.nrow >= ndim, jj.ncol >= ndim,
            tri(jj.symmetric) ==> jj.max_nnz >= (ndim + ndim * ndim) / 2, !tri(jj.symmetric) ==> jj.max_nnz >= ndim * ndim,
            2 * jj.nnz == cols(jj.symmetric, j as int, ndim as int),
            d.len() == j, forall|k: int| 0 <= k < j ==> #[trigger] d[k] > 0real,
            jj.partly(ndim as int, alpha@, x@, y0, d, j as int, 0),
//@before stmt `y.data[j] =` #0
            proof { lemma_step(delta_yj@, 1real / 4503599627370496real, rmax(THRESHOLD@, rabs(y0[j as int]@))); }
//@before stmt `let status`
            let ghost ym = y.data@;
//@before loop 1
            proof {
                let d_old = d;
                d = d.push(delta_yj@);
                assert(y.data@ =~= y0);
                assert(reals(ym) =~= moved(y0, j as int, d[j as int]));
                assert forall|p: int| 0 <= p < jj.nnz implies #[trigger] jj.quotient(p, ndim as int, alpha@, x@, y0, d) by { assert(jj.quotient(p, ndim as int, alpha@, x@, y0, d_old)); assert(jj.before(p, j as int, 0)); }
                assert forall|p: int| 0 <= p < jj.nnz implies #[trigger] jj.before(p, j as int, start as int) by { assert(jj.before(p, j as int, 0)); }
                if jj.symmetric == Sym::YesLower {
                    assert forall|i: int| 0 <= i < start implies !allowed(jj.symmetric, i, j as int) by { }
                }
            }
//@loop 1
            invariant
                y0 == old(y).data@, y.data@ == y0, y0.len() >= ndim, w1.data@.len() >= ndim, w2.data@.len() >= ndim, 0 <= j < ndim,
                forall|i: int| 0 <= i < ndim ==> (#[trigger] w1.data@[i])@ == vx_g(x@, reals(y0), i),
                forall|i: int| 0 <= i < ndim ==> (#[trigger] w2.data@[i])@ == vx_g(x@, moved(y0, j as int, d[j as int]), i),
                jj.wf(), jj.same_shape(old(jj)), jj.nrow >= ndim, jj.ncol >= ndim,
                tri(jj.symmetric) ==> jj.max_nnz >= (ndim + ndim * ndim) / 2, !tri(jj.symmetric) ==> jj.max_nnz >= ndim * ndim,
                start == lo(jj.symmetric, j as int), endp1 == hi(jj.symmetric, j as int, ndim as int), start <= endp1 <= ndim,
                2 * jj.nnz == cols(jj.symmetric, j as int, ndim as int) + 2 * (i - start),
                d.len() == j + 1, forall|k: int| 0 <= k <= j ==> #[trigger] d[k] > 0real, d[j as int] == delta_yj@,
                jj.partly(ndim as int, alpha@, x@, y0, d, j as int, i as int),
//@loop 1 start
                proof { lemma_room(jj.symmetric, j as int, i as int, ndim as int, jj.max_nnz as int, jj.nnz as int); }
                let ghost j1 = *jj;
//@loop 1 end
                proof {
                    let (n, p0) = (ndim as int, j1.nnz as int);
                    assert(jj.values@[p0]@ == alpha@ * (vx_g(x@, moved(y0, j as int, d[j as int]), i as int) - vx_g(x@, reals(y0), i as int)) / d[j as int]);
                    assert(jj.quotient(p0, n, alpha@, x@, y0, d));
                    assert forall|p: int| 0 <= p < jj.nnz implies #[trigger] jj.quotient(p, n, alpha@, x@, y0, d) by {
                        if p < p0 { assert(jj.same_entry(&j1, p)); assert(j1.quotient(p, n, alpha@, x@, y0, d)); }
                    }
                    assert forall|p: int| 0 <= p < jj.nnz implies #[trigger] jj.before(p, j as int, i + 1) by {
                        if p < p0 { assert(jj.same_entry(&j1, p)); assert(j1.before(p, j as int, i as int)); }
                    }
                    assert forall|a: int, b: int| #![trigger jj.stored(a, b)] 0 <= a < n && 0 <= b < n && allowed(jj.symmetric, a, b) && (b < j || (b == j && a < i + 1)) implies jj.stored(a, b) by {
                        if a == i && b == j { assert(jj.at_pos(p0, a, b)); }
                        else {
                            assert(j1.stored(a, b));
                            let p = choose|p: int| #[trigger] j1.at_pos(p, a, b);
                            assert(jj.same_entry(&j1, p));
                            assert(jj.at_pos(p, a, b));
                        }
                    }
                    assert forall|p: int, q: int| 0 <= p < q < jj.nnz implies #[trigger] jj.apart(p, q) by {
                        assert(jj.same_entry(&j1, p));
                        assert(j1.before(p, j as int, i as int));
                        if q < p0 { assert(jj.same_entry(&j1, q)); assert(j1.apart(p, q)); }
                    }
                    assert(jj.partly(n, alpha@, x@, y0, d, j as int, i + 1));
                }
//@after loop 1
            proof {
                lemma_cols(jj.symmetric, j as int, ndim as int);
                assert forall|p: int| 0 <= p < jj.nnz implies #[trigger] jj.before(p, j + 1, 0) by { assert(jj.before(p, j as int, endp1 as int)); }
            }
//@end
    proof { assert(jj.assembled_with(ndim as int, alpha@, x@, y0, d)); }
//@endfn

} // verus!
fn main() {}
