//@include inc_lab.rs
verus! {

// ---- trusted: nested arrays as a rectangular table of numbers (trait AsArray2D / AsArray1D) ----
#[verifier::external_body]
pub struct VxArr2 { x: usize }
impl VxArr2 {
    pub uninterp spec fn nr(&self) -> usize;
    pub uninterp spec fn nc(&self) -> usize;
    pub uninterp spec fn el(&self, i: int, j: int) -> R;
    #[verifier::external_body]
    pub fn size(&self) -> (ret: (usize, usize)) ensures ret == (self.nr(), self.nc()) { unimplemented!() }
    #[verifier::external_body]
    pub fn at(&self, i: usize, j: usize) -> (ret: R) requires i < self.nr(), j < self.nc() ensures ret == self.el(i as int, j as int) { unimplemented!() }
}
#[verifier::external_body]
pub struct VxArr1 { x: usize }
impl VxArr1 {
    pub uninterp spec fn n(&self) -> usize;
    pub uninterp spec fn el(&self, i: int) -> R;
    #[verifier::external_body]
    pub fn size(&self) -> (ret: usize) ensures ret == self.n() { unimplemented!() }
    #[verifier::external_body]
    pub fn at(&self, i: usize) -> (ret: R) requires i < self.n() ensures ret == self.el(i as int) { unimplemented!() }
}

// all positions of an m x n matrix lie inside of the data
proof fn lemma_positions(m: int, n: int)
    requires 0 <= m, 0 <= n
    ensures forall|i: int, j: int| #![trigger cm(i, j, m)] 0 <= i < m && 0 <= j < n ==> 0 <= cm(i, j, m) < m * n && 0 <= j * m <= cm(i, j, m)
{
    assert forall|i: int, j: int| #![trigger cm(i, j, m)] 0 <= i < m && 0 <= j < n implies 0 <= cm(i, j, m) < m * n && 0 <= j * m <= cm(i, j, m) by { lemma_cm_bound(i, j, m, n); }
}

//@fn russell_lab/src/matrix/num_matrix.rs NumMatrix::identity
//@spec
    requires m * m <= usize::MAX,
    ensures ret.wf(), ret.nrow == m, ret.ncol == m,
        forall|i: int, j: int| 0 <= i < m && 0 <= j < m ==> #[trigger] ret.at(i, j)@ == if i == j { 1real } else { 0real },
//@start
    proof { lemma_positions(m as int, m as int); }
//@loop 0
        invariant
            one@ == 1real, m * m <= usize::MAX,
            matrix.wf(), matrix.nrow == m, matrix.ncol == m,
            forall|k: int, l: int| 0 <= k < m && 0 <= l < m ==> #[trigger] matrix.at(k, l)@ == if k == l && k < i { 1real } else { 0real },
//@loop 0 start
            proof { lemma_cm_bound(i as int, i as int, m as int, m as int); }
            let ghost before = matrix;
//@loop 0 end
            proof { lemma_updated(&before, &matrix, i as int, i as int, one); }
//@endfn

//@fn russell_lab/src/matrix/num_matrix.rs NumMatrix::filled
//@spec
    requires m * n <= usize::MAX,
    ensures ret.wf(), ret.nrow == m, ret.ncol == n,
        forall|i: int, j: int| 0 <= i < m && 0 <= j < n ==> #[trigger] ret.at(i, j)@ == value@,
//@start
    proof { lemma_positions(m as int, n as int); }
//@endfn

//@map S=VxArr2
//@fn russell_lab/src/matrix/num_matrix.rs NumMatrix::from into_id
//@spec
    requires data.nr() * data.nc() <= usize::MAX,
    ensures ret.wf(), ret.ncol == data.nc(), ret.nrow == if data.nc() == 0 { 0 } else { data.nr() },
        forall|i: int, j: int| 0 <= i < ret.nrow && 0 <= j < ret.ncol ==> #[trigger] ret.at(i, j) == data.el(i, j),
//@loop 0
        invariant
            nrow <= data.nr(), ncol == data.nc(), matrix.wf(), matrix.nrow == nrow, matrix.ncol == ncol,
            forall|k: int, l: int| 0 <= k < i && 0 <= l < ncol ==> #[trigger] matrix.at(k, l) == data.el(k, l),
//@loop 1
        invariant
            i < nrow, nrow <= data.nr(), ncol == data.nc(), matrix.wf(), matrix.nrow == nrow, matrix.ncol == ncol,
            forall|k: int, l: int| 0 <= k < i && 0 <= l < ncol ==> #[trigger] matrix.at(k, l) == data.el(k, l),
            forall|l: int| 0 <= l < j ==> #[trigger] matrix.at(i as int, l) == data.el(i as int, l),
//@loop 1 start
            proof { lemma_cm_bound(i as int, j as int, nrow as int, ncol as int); }
            let ghost before = matrix;
//@loop 1 end
            proof { lemma_updated(&before, &matrix, i as int, j as int, matrix.at(i as int, j as int)); }
//@endfn

//@fn russell_lab/src/matrix/num_matrix.rs NumMatrix::from_lower into_id
//@spec
    requires data.nr() * data.nc() <= usize::MAX, data.nr() < usize::MAX,
    ensures
        ret is Ok <==> data.nc() == 0 || data.nr() == data.nc(),
        ret is Ok ==> {
            &&& ret->Ok_0.wf() && ret->Ok_0.nrow == data.nc() && ret->Ok_0.ncol == data.nc()
            &&& forall|i: int, j: int| 0 <= i < data.nc() && 0 <= j < data.nc() ==> #[trigger] ret->Ok_0.at(i, j)@ == if j <= i { data.el(i, j)@ } else { 0real }
        },
//@before loop 0
        proof { lemma_positions(nrow as int, ncol as int); }
//@loop 0
        invariant
            nrow <= data.nr(), ncol == data.nc(), nrow == ncol, nrow < usize::MAX, matrix.wf(), matrix.nrow == nrow, matrix.ncol == ncol,
            forall|k: int, l: int| 0 <= k < nrow && 0 <= l < ncol ==> #[trigger] matrix.at(k, l)@ == if k < i && l <= k { data.el(k, l)@ } else { 0real },
//@loop 1
        invariant
            i < nrow, nrow <= data.nr(), ncol == data.nc(), nrow == ncol, nrow < usize::MAX, matrix.wf(), matrix.nrow == nrow, matrix.ncol == ncol,
            forall|k: int, l: int| 0 <= k < nrow && 0 <= l < ncol ==> #[trigger] matrix.at(k, l)@ == if (k < i && l <= k) || (k == i && l < j) { data.el(k, l)@ } else { 0real },
//@loop 1 start
            proof { lemma_cm_bound(i as int, j as int, nrow as int, ncol as int); }
            let ghost before = matrix;
//@loop 1 end
            proof { lemma_updated(&before, &matrix, i as int, j as int, matrix.at(i as int, j as int)); }
//@endfn

//@fn russell_lab/src/matrix/num_matrix.rs NumMatrix::from_upper into_id
//@spec
    requires data.nr() * data.nc() <= usize::MAX, data.nr() < usize::MAX,
    ensures
        ret is Ok <==> data.nc() == 0 || data.nr() == data.nc(),
        ret is Ok ==> {
            &&& ret->Ok_0.wf() && ret->Ok_0.nrow == data.nc() && ret->Ok_0.ncol == data.nc()
            &&& forall|i: int, j: int| 0 <= i < data.nc() && 0 <= j < data.nc() ==> #[trigger] ret->Ok_0.at(i, j)@ == if j >= i { data.el(i, j)@ } else { 0real }
        },
//@before loop 0
        proof { lemma_positions(nrow as int, ncol as int); }
//@loop 0
        invariant
            nrow <= data.nr(), ncol == data.nc(), nrow == ncol, matrix.wf(), matrix.nrow == nrow, matrix.ncol == ncol,
            forall|k: int, l: int| 0 <= k < nrow && 0 <= l < ncol ==> #[trigger] matrix.at(k, l)@ == if k < i && l >= k { data.el(k, l)@ } else { 0real },
//@loop 1
        invariant
            i < nrow, nrow <= data.nr(), ncol == data.nc(), nrow == ncol, matrix.wf(), matrix.nrow == nrow, matrix.ncol == ncol,
            forall|k: int, l: int| 0 <= k < nrow && 0 <= l < ncol ==> #[trigger] matrix.at(k, l)@ == if (k < i && l >= k) || (k == i && k <= l < j) { data.el(k, l)@ } else { 0real },
//@loop 1 start
            proof { lemma_cm_bound(i as int, j as int, nrow as int, ncol as int); }
            let ghost before = matrix;
//@loop 1 end
            proof { lemma_updated(&before, &matrix, i as int, j as int, matrix.at(i as int, j as int)); }
//@endfn

//@fn russell_lab/src/matrix/num_matrix.rs NumMatrix::diagonal
//@spec
    requires data@.len() * data@.len() <= usize::MAX,
    ensures ret.wf(), ret.nrow == data@.len(), ret.ncol == data@.len(),
        forall|i: int, j: int| 0 <= i < data@.len() && 0 <= j < data@.len() ==> #[trigger] ret.at(i, j)@ == if i == j { data@[i]@ } else { 0real },
//@before loop 0
    proof { lemma_positions(nrow as int, nrow as int); }
//@loop 0
        invariant
            nrow == data@.len(), nrow * nrow <= usize::MAX,
            matrix.wf(), matrix.nrow == nrow, matrix.ncol == nrow,
            forall|k: int, l: int| 0 <= k < nrow && 0 <= l < nrow ==> #[trigger] matrix.at(k, l)@ == if k == l && k < i { data@[k]@ } else { 0real },
//@loop 0 start
            proof { lemma_cm_bound(i as int, i as int, nrow as int, nrow as int); }
            let ghost before = matrix;
//@loop 0 end
            proof { lemma_updated(&before, &matrix, i as int, i as int, matrix.at(i as int, i as int)); }
//@endfn

//@fn russell_lab/src/matrix/num_matrix.rs NumMatrix::nrow as get_nrow
//@spec
    ensures ret == self.nrow,
//@endfn
//@fn russell_lab/src/matrix/num_matrix.rs NumMatrix::ncol as get_ncol
//@spec
    ensures ret == self.ncol,
//@endfn
//@fn russell_lab/src/matrix/num_matrix.rs NumMatrix::as_data
//@spec
    ensures ret == self.data,
//@endfn
//@fn russell_lab/src/matrix/num_matrix.rs NumMatrix::mul
//@spec
    requires old(self).wf(), i < old(self).nrow, j < old(self).ncol,
    ensures final(self).updated(old(self), i as int, j as int, r(old(self).at(i as int, j as int)@ * value@)),
//@start
    proof { lemma_cm_bound(i as int, j as int, self.nrow as int, self.ncol as int); }
//@end
    proof { lemma_updated(old(self), self, i as int, j as int, r(old(self).at(i as int, j as int)@ * value@)); }
//@endfn

//@fn russell_lab/src/matrix/num_matrix.rs NumMatrix::extract_row
//@spec
    requires self.wf(), i < self.nrow,
    ensures ret@.len() == self.ncol, forall|j: int| 0 <= j < self.ncol ==> #[trigger] ret@[j] == self.at(i as int, j),
//@loop 0
        invariant
            self.wf(), i < self.nrow, res@.len() == self.ncol,
            forall|k: int| 0 <= k < j ==> #[trigger] res@[k] == self.at(i as int, k),
//@loop 0 start
            proof { lemma_cm_bound(i as int, j as int, self.nrow as int, self.ncol as int); }
//@endfn

//@fn russell_lab/src/matrix/num_matrix.rs NumMatrix::extract_column
//@spec
    requires self.wf(), j < self.ncol,
    ensures ret@.len() == self.nrow, forall|i: int| 0 <= i < self.nrow ==> #[trigger] ret@[i] == self.at(i, j as int),
//@loop 0
        invariant
            self.wf(), j < self.ncol, res@.len() == self.nrow,
            forall|k: int| 0 <= k < i ==> #[trigger] res@[k] == self.at(k, j as int),
//@loop 0 start
            proof { lemma_cm_bound(i as int, j as int, self.nrow as int, self.ncol as int); }
//@endfn

//@fn russell_lab/src/matrix/num_matrix.rs NumMatrix::transposed
//@spec
    requires self.wf(),
    ensures ret.wf(), ret.nrow == self.ncol, ret.ncol == self.nrow,
        forall|i: int, j: int| 0 <= i < self.nrow && 0 <= j < self.ncol ==> #[trigger] ret.at(j, i) == self.at(i, j),
//@start
    proof { assert(self.nrow * self.ncol == self.ncol * self.nrow) by (nonlinear_arith); }
//@loop 0
        invariant
            m == self.nrow, n == self.ncol, self.wf(), tt.wf(), tt.nrow == n, tt.ncol == m,
            forall|k: int, l: int| 0 <= k < i && 0 <= l < n ==> #[trigger] tt.at(l, k) == self.at(k, l),
//@loop 1
        invariant
            i < m, m == self.nrow, n == self.ncol, self.wf(), tt.wf(), tt.nrow == n, tt.ncol == m,
            forall|k: int, l: int| 0 <= k < i && 0 <= l < n ==> #[trigger] tt.at(l, k) == self.at(k, l),
            forall|l: int| 0 <= l < j ==> #[trigger] tt.at(l, i as int) == self.at(i as int, l),
//@loop 1 start
            proof { lemma_cm_bound(i as int, j as int, m as int, n as int); lemma_cm_bound(j as int, i as int, n as int, m as int); }
            let ghost before = tt;
//@loop 1 end
            proof { lemma_updated(&before, &tt, j as int, i as int, tt.at(j as int, i as int)); }
//@endfn

//@fn russell_lab/src/matrix/num_matrix.rs <Index<(usize, usize)> for NumMatrix>::index
//@spec
    requires self.wf(), index.0 < self.nrow, index.1 < self.ncol,
    ensures *ret == self.at(index.0 as int, index.1 as int),
//@start
    proof { lemma_cm_bound(index.0 as int, index.1 as int, self.nrow as int, self.ncol as int); }
//@endfn

// ---- vectors ----

//@fn russell_lab/src/vector/num_vector.rs NumVector::filled
//@spec
    ensures ret.data.len() == dim, forall|i: int| 0 <= i < dim ==> #[trigger] ret.data@[i]@ == value@,
//@endfn

//@map S=VxArr1
//@fn russell_lab/src/vector/num_vector.rs NumVector::from into_id
//@spec
    ensures ret.data.len() == array.n(), forall|i: int| 0 <= i < array.n() ==> #[trigger] ret.data@[i] == array.el(i),
//@loop 0
        invariant
            dim == array.n(), data.len() == dim, forall|k: int| 0 <= k < i ==> #[trigger] data@[k] == array.el(k),
//@endfn

// equally spaced values from start to stop
pub open spec fn spaced(x: Seq<R>, start: real, stop: real) -> bool {
    &&& x.len() > 0 ==> x[0]@ == start
    &&& x.len() > 1 ==> x[x.len() - 1]@ == stop
    &&& x.len() > 1 ==> forall|i: int| 0 <= i < x.len() ==> (#[trigger] x[i])@ == start + (i as real) * ((stop - start) / ((x.len() - 1) as real))
}
//@fn russell_lab/src/vector/num_vector.rs NumVector::linspace
//@spec
    ensures ret is Ok, ret->Ok_0.data.len() == count, spaced(ret->Ok_0.data@, start@, stop@),
//@start
    proof {
        let d = stop@ - start@;
        assert(0real * (d / 1real) == 0real) by (nonlinear_arith);
        assert(1real * (d / 1real) == d) by (nonlinear_arith);
    }
//@before loop 0
    proof {
        let (d, n) = (stop@ - start@, (count - 1) as real);
        assert(n * (d / n) == d) by (nonlinear_arith) requires n > 0real;
        let q = d / n;
        assert(0real * q == 0real) by (nonlinear_arith);
    }
//@loop 0
        invariant
            count >= 3, res.data.len() == count, step@ == (stop@ - start@) / ((count - 1) as real),
            res.data@[0]@ == start@,
            forall|k: int| 1 <= k < i ==> (#[trigger] res.data@[k])@ == start@ + (k as real) * step@,
//@endfn

//@fn russell_lab/src/vector/num_vector.rs NumVector::as_data as vector_as_data
//@spec
    ensures ret == self.data,
//@endfn

//@fn russell_lab/src/vector/num_vector.rs NumVector::set_vector
//@spec
    ensures other@.len() == old(self).data@.len(), final(self).data@ == other@,
//@endfn

//@fn russell_lab/src/vector/num_vector.rs NumVector::scale
//@spec
    ensures final(self).data@.len() == old(self).data@.len(),
        forall|i: int| 0 <= i < old(self).data@.len() ==> (#[trigger] final(self).data@[i])@ == old(self).data@[i]@ * alpha@,
//@loop 0
        invariant
            self.data@.len() == old(self).data@.len(),
            forall|k: int| 0 <= k < i ==> (#[trigger] self.data@[k])@ == old(self).data@[k]@ * alpha@,
            forall|k: int| i <= k < self.data@.len() ==> #[trigger] self.data@[k] == old(self).data@[k],
//@endfn

//@fn russell_lab/src/vector/num_vector.rs <Index<usize> for NumVector>::index
//@spec
    requires index < self.data@.len(),
    ensures *ret == self.data@[index as int],
//@endfn

} // verus!
fn main() {}
