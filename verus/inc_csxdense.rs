verus! {

//@fn russell_sparse/src/csr_matrix.rs NumCsrMatrix::to_dense
//@spec
    requires
        self.wf(), old(a).wf(),
    ensures
        final(a).wf(), final(a).nrow == old(a).nrow, final(a).ncol == old(a).ncol,
        ret is Ok <==> (old(a).nrow == self.nrow && old(a).ncol == self.ncol),
        ret is Err ==> *final(a) == *old(a),
        ret is Ok ==> forall|i: int, j: int| 0 <= i < self.nrow && 0 <= j < self.ncol ==> #[trigger] final(a).at(i, j)@ == dense_of(self.trips(), self.mirror(), i, j),
//@loop 0
        invariant
            self.wf(), a.wf(), a.nrow == self.nrow, a.ncol == self.ncol, mirror_required == self.mirror(),
            forall|k: int, l: int| 0 <= k < self.nrow && 0 <= l < self.ncol ==> #[trigger] a.at(k, l)@ == dense_of(self.before(i as int), self.mirror(), k, l),
//@loop 0 start
            proof { assert(self.row_pointers@[0] <= self.row_pointers@[i as int] && self.row_pointers@[i as int] <= self.row_pointers@[i + 1] && self.row_pointers@[i + 1] <= self.row_pointers@[self.nrow as int]); lemma_upto_start(self.row_pointers@, self.col_indices@, self.values@, true, i as int); }
//@loop 1
        invariant
            self.wf(), a.wf(), a.nrow == self.nrow, a.ncol == self.ncol, mirror_required == self.mirror(), i < self.nrow,
            0 <= self.row_pointers@[0] <= self.row_pointers@[i as int], self.row_pointers@[i + 1] <= self.row_pointers@[self.nrow as int], self.row_pointers@[i as int] <= self.row_pointers@[i + 1],
            forall|k: int, l: int| 0 <= k < self.nrow && 0 <= l < self.ncol ==> #[trigger] a.at(k, l)@ == dense_of(self.upto(i as int, p as int), self.mirror(), k, l),
//@loop 1 start
            broadcast use lemma_dense_push;
            proof { assert(0 <= self.col_indices@[p as int] < self.ncol); lemma_upto_step(self.row_pointers@, self.col_indices@, self.values@, true, i as int, p as int); }
//@loop 0 end
            proof { lemma_upto_end(self.row_pointers@, self.col_indices@, self.values@, true, i as int); }
//@endfn

//@fn russell_sparse/src/csc_matrix.rs NumCscMatrix::to_dense
//@spec
    requires
        self.wf(), old(a).wf(),
    ensures
        final(a).wf(), final(a).nrow == old(a).nrow, final(a).ncol == old(a).ncol,
        ret is Ok <==> (old(a).nrow == self.nrow && old(a).ncol == self.ncol),
        ret is Err ==> *final(a) == *old(a),
        ret is Ok ==> forall|i: int, j: int| 0 <= i < self.nrow && 0 <= j < self.ncol ==> #[trigger] final(a).at(i, j)@ == dense_of(self.trips(), self.mirror(), i, j),
//@loop 0
        invariant
            self.wf(), a.wf(), a.nrow == self.nrow, a.ncol == self.ncol, mirror_required == self.mirror(),
            forall|k: int, l: int| 0 <= k < self.nrow && 0 <= l < self.ncol ==> #[trigger] a.at(k, l)@ == dense_of(self.before(j as int), self.mirror(), k, l),
//@loop 0 start
            proof { assert(self.col_pointers@[0] <= self.col_pointers@[j as int] && self.col_pointers@[j as int] <= self.col_pointers@[j + 1] && self.col_pointers@[j + 1] <= self.col_pointers@[self.ncol as int]); lemma_upto_start(self.col_pointers@, self.row_indices@, self.values@, false, j as int); }
//@loop 1
        invariant
            self.wf(), a.wf(), a.nrow == self.nrow, a.ncol == self.ncol, mirror_required == self.mirror(), j < self.ncol,
            0 <= self.col_pointers@[0] <= self.col_pointers@[j as int], self.col_pointers@[j + 1] <= self.col_pointers@[self.ncol as int], self.col_pointers@[j as int] <= self.col_pointers@[j + 1],
            forall|k: int, l: int| 0 <= k < self.nrow && 0 <= l < self.ncol ==> #[trigger] a.at(k, l)@ == dense_of(self.upto(j as int, p as int), self.mirror(), k, l),
//@loop 1 start
            broadcast use lemma_dense_push;
            proof { assert(0 <= self.row_indices@[p as int] < self.nrow); lemma_upto_step(self.col_pointers@, self.row_indices@, self.values@, false, j as int, p as int); }
//@loop 0 end
            proof { lemma_upto_end(self.col_pointers@, self.row_indices@, self.values@, false, j as int); }
//@endfn
} // verus!
