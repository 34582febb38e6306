//@include prelude_real.rs
//@map T=R
//@map f64=R
//@map Vector=NumVector
//@map Matrix=NumMatrix
//@mono NumVector NumMatrix NumCooMatrix NumCsrMatrix NumCscMatrix
//@vectors NumVector Vector
verus! {

// ---- trusted: `x.iter_mut().map(|x| *x = value).count()` writes every element ----
#[verifier::external_body]
pub fn vx_fill(data: &mut Vec<R>, value: R)
    ensures final(data).len() == old(data).len(), forall|i: int| 0 <= i < final(data).len() ==> #[trigger] final(data)@[i] == value,
{ unimplemented!() }

// ---- trusted: `i32::try_from(x).unwrap()` panics when the value does not fit ----
#[verifier::external_body]
pub fn vx_to_i32(num: usize) -> (ret: i32)
    ensures ret as int == num as int,
{ unimplemented!() }

// ---- trusted: copy_from_slice panics if the lengths differ ----
#[verifier::external_body]
pub fn vx_copy_from_slice(a: &mut Vec<R>, b: &[R])
    ensures b@.len() == old(a)@.len(), final(a)@ == b@,
{ unimplemented!() }

//@struct russell_lab/src/vector/num_vector.rs NumVector
//@struct russell_lab/src/matrix/num_matrix.rs NumMatrix

impl View for NumVector { type V = Seq<R>; open spec fn view(&self) -> Seq<R> { self.data@ } }

// column-major position
pub open spec fn cm(i: int, j: int, m: int) -> int { i + j * m }

pub proof fn lemma_cm_bound(i: int, j: int, m: int, n: int)
    requires 0 <= i < m, 0 <= j < n
    ensures 0 <= j * m, j * m + m <= m * n, 0 <= cm(i, j, m) < m * n
{
    assert(0 <= j * m && j * m + m <= m * n) by (nonlinear_arith) requires 0 <= i < m, 0 <= j < n;
}

pub proof fn lemma_cm_inj(i: int, j: int, k: int, l: int, m: int)
    requires 0 <= i < m, 0 <= k < m, 0 <= j, 0 <= l, cm(i, j, m) == cm(k, l, m)
    ensures i == k, j == l
{
    if j != l {
        if j > l { assert(j * m >= l * m + m) by (nonlinear_arith) requires j >= l + 1, m > 0; }
        else { assert(l * m >= j * m + m) by (nonlinear_arith) requires l >= j + 1, m > 0; }
    }
}

impl NumMatrix {
    pub open spec fn wf(&self) -> bool {
        self.data.len() == self.nrow * self.ncol
    }
    pub open spec fn at(&self, i: int, j: int) -> R { self.data@[cm(i, j, self.nrow as int)] }
    // every entry is the same except the one at (i,j)
    pub open spec fn updated(&self, old: &NumMatrix, i: int, j: int, value: R) -> bool {
        &&& self.wf() && self.nrow == old.nrow && self.ncol == old.ncol
        &&& forall|k: int, l: int| 0 <= k < self.nrow && 0 <= l < self.ncol ==> #[trigger] self.at(k, l) == if k == i && l == j { value } else { old.at(k, l) }
    }
}

//@fn russell_lab/src/vector/num_vector.rs NumVector::new
//@spec
    ensures ret.data.len() == dim, forall|i: int| 0 <= i < dim ==> #[trigger] ret.data@[i]@ == 0real,
//@endfn
//@fn russell_lab/src/vector/num_vector.rs NumVector::dim
//@spec
    ensures ret == self.data.len(),
//@endfn
//@fn russell_lab/src/vector/num_vector.rs NumVector::fill
//@spec
    ensures final(self).data.len() == old(self).data.len(), forall|i: int| 0 <= i < final(self).data.len() ==> #[trigger] final(self).data@[i] == value,
//@endfn
//@fn russell_lab/src/vector/num_vector.rs NumVector::get
//@spec
    requires i < self.data.len(),
    ensures ret == self.data@[i as int],
//@endfn
//@fn russell_lab/src/vector/num_vector.rs NumVector::set
//@spec
    requires i < old(self).data.len(),
    ensures final(self).data@ == old(self).data@.update(i as int, value),
//@endfn

//@fn russell_lab/src/matrix/num_matrix.rs NumMatrix::new
//@spec
    requires nrow * ncol <= usize::MAX,
    ensures ret.wf(), ret.nrow == nrow, ret.ncol == ncol,
        forall|i: int, j: int| 0 <= i < nrow && 0 <= j < ncol ==> #[trigger] ret.at(i, j)@ == 0real,
//@end
    proof { assert forall|i: int, j: int| 0 <= i < nrow && 0 <= j < ncol implies 0 <= #[trigger] cm(i, j, nrow as int) < nrow * ncol by { lemma_cm_bound(i, j, nrow as int, ncol as int); } }
//@endfn
//@fn russell_lab/src/matrix/num_matrix.rs NumMatrix::dims
//@spec
    ensures ret == (self.nrow, self.ncol),
//@endfn
//@fn russell_lab/src/matrix/num_matrix.rs NumMatrix::fill
//@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).nrow == old(self).nrow, final(self).ncol == old(self).ncol,
        forall|i: int, j: int| 0 <= i < final(self).nrow && 0 <= j < final(self).ncol ==> #[trigger] final(self).at(i, j) == value,
//@end
    proof { assert forall|i: int, j: int| 0 <= i < self.nrow && 0 <= j < self.ncol implies 0 <= #[trigger] cm(i, j, self.nrow as int) < self.data.len() by { lemma_cm_bound(i, j, self.nrow as int, self.ncol as int); } }
//@endfn
//@fn russell_lab/src/matrix/num_matrix.rs NumMatrix::get
//@spec
    requires self.wf(), i < self.nrow, j < self.ncol,
    ensures ret == self.at(i as int, j as int),
//@start
    proof { lemma_cm_bound(i as int, j as int, self.nrow as int, self.ncol as int); }
//@endfn
//@fn russell_lab/src/matrix/num_matrix.rs NumMatrix::set
//@spec
    requires old(self).wf(), i < old(self).nrow, j < old(self).ncol,
    ensures final(self).updated(old(self), i as int, j as int, value),
//@start
    proof { lemma_cm_bound(i as int, j as int, self.nrow as int, self.ncol as int); }
//@end
    proof { lemma_updated(old(self), self, i as int, j as int, value); }
//@endfn
//@fn russell_lab/src/matrix/num_matrix.rs NumMatrix::add
//@spec
    requires old(self).wf(), i < old(self).nrow, j < old(self).ncol,
    ensures final(self).updated(old(self), i as int, j as int, r(old(self).at(i as int, j as int)@ + value@)),
//@start
    proof { lemma_cm_bound(i as int, j as int, self.nrow as int, self.ncol as int); }
//@end
    proof { lemma_updated(old(self), self, i as int, j as int, r(old(self).at(i as int, j as int)@ + value@)); }
//@endfn

pub proof fn lemma_updated(a: &NumMatrix, b: &NumMatrix, i: int, j: int, value: R)
    requires a.wf(), 0 <= i < a.nrow, 0 <= j < a.ncol, b.nrow == a.nrow, b.ncol == a.ncol,
        b.data@ == a.data@.update(cm(i, j, a.nrow as int), value),
    ensures b.updated(a, i, j, value)
{
    assert forall|k: int, l: int| 0 <= k < b.nrow && 0 <= l < b.ncol implies #[trigger] b.at(k, l) == if k == i && l == j { value } else { a.at(k, l) } by {
        lemma_cm_bound(k, l, a.nrow as int, a.ncol as int);
        lemma_cm_bound(i, j, a.nrow as int, a.ncol as int);
        if cm(k, l, a.nrow as int) == cm(i, j, a.nrow as int) { lemma_cm_inj(k, l, i, j, a.nrow as int); }
    }
}

} // verus!
