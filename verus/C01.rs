//@include inc_coo.rs
verus! {

impl NumCooMatrix {
    pub open spec fn same_shape(&self, o: &NumCooMatrix) -> bool {
        &&& self.symmetric == o.symmetric && self.nrow == o.nrow && self.ncol == o.ncol && self.max_nnz == o.max_nnz
    }
    pub open spec fn same_entry(&self, o: &NumCooMatrix, p: int) -> bool {
        &&& self.indices_i@[p] == o.indices_i@[p]
        &&& self.indices_j@[p] == o.indices_j@[p]
        &&& self.values@[p] == o.values@[p]
    }
    // the entry at q is the entry p of the other matrix multiplied by alpha
    pub open spec fn scaled(&self, q: int, o: &NumCooMatrix, p: int, alpha: R) -> bool {
        &&& self.indices_i@[q] == o.indices_i@[p]
        &&& self.indices_j@[q] == o.indices_j@[p]
        &&& self.values@[q]@ == alpha@ * o.values@[p]@
    }
}

//@fn russell_sparse/src/coo_matrix.rs NumCooMatrix::new
//@spec
    ensures
        ret is Ok <==> (nrow >= 1 && ncol >= 1 && max_nnz >= 1 && (symmetric != Sym::No ==> nrow == ncol)),
        ret is Ok ==> {
            let a = ret->Ok_0;
            a.wf() && a.nnz == 0 && a.nrow == nrow && a.ncol == ncol && a.max_nnz == max_nnz && a.symmetric == symmetric
        },
//@endfn

//@fn russell_sparse/src/coo_matrix.rs NumCooMatrix::from
//@spec
    ensures
        ret is Ok <==> {
            &&& nrow >= 1 && ncol >= 1 && row_indices.len() >= 1
            &&& col_indices.len() == row_indices.len()
            &&& values.len() == row_indices.len()
            &&& (symmetric != Sym::No ==> nrow == ncol)
            &&& forall|k: int| 0 <= k < row_indices.len() ==> {
                &&& 0 <= #[trigger] row_indices@[k] < nrow
                &&& 0 <= col_indices@[k] < ncol
                &&& allowed(symmetric, row_indices@[k] as int, col_indices@[k] as int)
            }
        },
        ret is Ok ==> {
            let a = ret->Ok_0;
            &&& a.wf() && a.nrow == nrow && a.ncol == ncol && a.symmetric == symmetric
            &&& a.nnz == row_indices.len() && a.indices_i == row_indices && a.indices_j == col_indices && a.values == values
        },
//@loop 0
        invariant
            nnz == row_indices.len(), nnz == col_indices.len(), nnz == values.len(),
            m as int == nrow as int, n as int == ncol as int,
            nrow >= 1, ncol >= 1, nnz >= 1, symmetric != Sym::No ==> nrow == ncol,
            forall|p: int| 0 <= p < k ==> {
                &&& 0 <= #[trigger] row_indices@[p] < nrow
                &&& 0 <= col_indices@[p] < ncol
                &&& allowed(symmetric, row_indices@[p] as int, col_indices@[p] as int)
            },
//@endfn

//@fn russell_sparse/src/coo_matrix.rs NumCooMatrix::put
//@spec
    requires
        old(self).wf(),
    ensures
        final(self).wf(),
        final(self).same_shape(old(self)),
        ret is Ok <==> (i < old(self).nrow && j < old(self).ncol && old(self).nnz < old(self).max_nnz && allowed(old(self).symmetric, i as int, j as int)),
        ret is Err ==> *final(self) == *old(self),
        ret is Ok ==> {
            &&& final(self).nnz == old(self).nnz + 1
            &&& final(self).indices_i@[old(self).nnz as int] as int == i
            &&& final(self).indices_j@[old(self).nnz as int] as int == j
            &&& final(self).values@[old(self).nnz as int] == aij
            &&& forall|p: int| 0 <= p < old(self).nnz ==> #[trigger] final(self).same_entry(old(self), p)
        },
//@end
        proof {
            assert forall|p: int| 0 <= p < self.nnz implies #[trigger] self.entry_ok(p) by {
                if p < old(self).nnz { assert(old(self).entry_ok(p)); }
            }
        }
//@endfn

//@fn russell_sparse/src/coo_matrix.rs NumCooMatrix::reset
//@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).same_shape(old(self)), final(self).nnz == 0,
//@endfn

//@fn russell_sparse/src/coo_matrix.rs NumCooMatrix::to_dense
//@spec
    requires
        self.wf(), old(a).wf(),
    ensures
        final(a).wf(), final(a).nrow == old(a).nrow, final(a).ncol == old(a).ncol,
        ret is Ok <==> (old(a).nrow == self.nrow && old(a).ncol == self.ncol),
        ret is Err ==> *final(a) == *old(a),
        ret is Ok ==> forall|i: int, j: int| 0 <= i < self.nrow && 0 <= j < self.ncol ==> #[trigger] final(a).at(i, j)@ == self.dense(self.nnz as int, i, j),
//@loop 0
        invariant
            self.wf(), a.wf(), a.nrow == self.nrow, a.ncol == self.ncol, mirror_required == self.mirror(),
            forall|i: int, j: int| 0 <= i < self.nrow && 0 <= j < self.ncol ==> #[trigger] a.at(i, j)@ == self.dense(p as int, i, j),
//@loop 0 start
            broadcast use lemma_dense_push;
            proof { assert(self.entry_ok(p as int)); lemma_trips_step(self, p as int); }
//@endfn

//@fn russell_sparse/src/coo_matrix.rs NumCooMatrix::as_dense
//@spec
    requires
        self.wf(), self.nrow * self.ncol <= usize::MAX,
    ensures
        ret.wf(), ret.nrow == self.nrow, ret.ncol == self.ncol,
        forall|i: int, j: int| 0 <= i < self.nrow && 0 <= j < self.ncol ==> #[trigger] ret.at(i, j)@ == self.dense(self.nnz as int, i, j),
//@endfn

//@fn russell_sparse/src/coo_matrix.rs NumCooMatrix::assign
//@spec
    requires
        old(self).wf(), other.wf(),
    ensures
        final(self).wf(), final(self).same_shape(old(self)),
        ret is Ok <==> (other.nrow == old(self).nrow && other.ncol == old(self).ncol && other.symmetric == old(self).symmetric && other.nnz <= old(self).max_nnz),
        ret is Ok ==> {
            &&& final(self).nnz == other.nnz
            &&& forall|p: int| 0 <= p < other.nnz ==> #[trigger] final(self).scaled(p, other, p, alpha)
        },
//@loop 0
        invariant
            self.wf(), other.wf(), self.same_shape(old(self)), self.nnz == p,
            other.nrow == self.nrow, other.ncol == self.ncol, other.symmetric == self.symmetric,
            forall|q: int| 0 <= q < p ==> #[trigger] self.scaled(q, other, q, alpha),
//@loop 0 start
            proof { assert(other.entry_ok(p as int)); }
            let ghost before = *self;
//@loop 0 end
            proof {
                assert forall|q: int| 0 <= q < p + 1 implies #[trigger] self.scaled(q, other, q, alpha) by {
                    if q < p { assert(before.scaled(q, other, q, alpha)); assert(self.same_entry(&before, q)); }
                }
            }
//@endfn

//@fn russell_sparse/src/coo_matrix.rs NumCooMatrix::add
//@spec
    requires
        old(self).wf(), other.wf(),
    ensures
        final(self).wf(), final(self).same_shape(old(self)),
        ret is Ok <==> (other.nrow <= old(self).nrow && other.ncol <= old(self).ncol && other.symmetric == old(self).symmetric && (other.nnz == 0 || old(self).nnz + other.nnz <= old(self).max_nnz)),
        ret is Ok ==> {
            &&& final(self).nnz == old(self).nnz + other.nnz
            &&& forall|p: int| 0 <= p < old(self).nnz ==> #[trigger] final(self).same_entry(old(self), p)
            &&& forall|p: int| 0 <= p < other.nnz ==> #[trigger] final(self).scaled(old(self).nnz + p, other, p, alpha)
        },
//@loop 0
        invariant
            self.wf(), other.wf(), self.same_shape(old(self)), self.nnz == old(self).nnz + p, 
            old(self).nnz <= old(self).max_nnz,
            other.nrow <= self.nrow, other.ncol <= self.ncol, other.symmetric == self.symmetric,
            forall|q: int| 0 <= q < old(self).nnz ==> #[trigger] self.same_entry(old(self), q),
            forall|q: int| 0 <= q < p ==> #[trigger] self.scaled(old(self).nnz + q, other, q, alpha),
//@loop 0 start
            proof { assert(other.entry_ok(p as int)); }
            let ghost before = *self;
//@loop 0 end
            proof {
                assert forall|q: int| 0 <= q < p + 1 implies #[trigger] self.scaled(old(self).nnz + q, other, q, alpha) by {
                    if q < p { assert(before.scaled(old(self).nnz + q, other, q, alpha)); assert(self.same_entry(&before, old(self).nnz + q)); }
                }
                assert forall|q: int| 0 <= q < old(self).nnz implies #[trigger] self.same_entry(old(self), q) by {
                    assert(self.same_entry(&before, q)); assert(before.same_entry(old(self), q));
                }
            }
//@endfn

//@fn russell_sparse/src/coo_matrix.rs NumCooMatrix::get_nnz
//@spec
    ensures ret == self.nnz,
//@endfn
//@fn russell_sparse/src/coo_matrix.rs NumCooMatrix::get_info
//@spec
    ensures ret == (self.nrow, self.ncol, self.nnz, self.symmetric),
//@endfn
//@fn russell_sparse/src/coo_matrix.rs NumCooMatrix::get_row_indices
//@spec
    requires self.wf(),
    ensures ret@ == self.indices_i@.subrange(0, self.nnz as int),
//@endfn
//@fn russell_sparse/src/coo_matrix.rs NumCooMatrix::get_col_indices
//@spec
    requires self.wf(),
    ensures ret@ == self.indices_j@.subrange(0, self.nnz as int),
//@endfn
//@fn russell_sparse/src/coo_matrix.rs NumCooMatrix::get_values
//@spec
    requires self.wf(),
    ensures ret@ == self.values@.subrange(0, self.nnz as int),
//@endfn

// ---- entries in the whole matrix ----

pub open spec fn whole(t: Seq<Trip>) -> int
    decreases t.len()
{
    if t.len() == 0 { 0 } else { whole(t.drop_last()) + if t.last().0 != t.last().1 { 2int } else { 1int } }
}
//@fn russell_sparse/src/coo_matrix.rs NumCooMatrix::get_actual_nnz
//@spec
    requires self.wf(), 2 * self.nnz <= usize::MAX,
    ensures ret == if self.mirror() { whole(self.trips(self.nnz as int)) } else { self.nnz as int },
//@loop 0
            invariant self.wf(), 2 * self.nnz <= usize::MAX, actual_nnz == whole(self.trips(p as int)), actual_nnz <= 2 * p,
//@loop 0 start
                proof {
                    assert(self.entry_ok(p as int));
                    lemma_trips_step(self, p as int);
                    assert(self.trips(p as int + 1).drop_last() =~= self.trips(p as int));
                }
//@endfn

// ---- block of Lagrange multipliers ----

// the entries of the first n triplets of the block and of its transpose, as far as the storage keeps them
pub open spec fn lag(s: Sym, b: &NumCooMatrix, n: int) -> Seq<Trip>
    decreases n
{
    if n <= 0 { Seq::empty() } else {
        let t = lag(s, b, n - 1);
        let (i, j, x) = (b.ncol + b.indices_i@[n - 1] as int, b.indices_j@[n - 1] as int, b.values@[n - 1]@);
        if s == Sym::YesLower { t.push((i, j, x)) } else if s == Sym::YesUpper { t.push((j, i, x)) } else { t.push((i, j, x)).push((j, i, x)) }
    }
}
pub open spec fn each(s: Sym) -> int { if tri(s) { 1 } else { 2 } }
pub open spec fn begins(a: Seq<Trip>, b: Seq<Trip>) -> bool { a.len() <= b.len() && a =~= b.take(a.len() as int) }
proof fn lemma_lag(s: Sym, b: &NumCooMatrix, n: int)
    requires n >= 0,
    ensures lag(s, b, n).len() == each(s) * n,
    decreases n,
{
    if n > 0 { lemma_lag(s, b, n - 1); assert(each(s) * n == each(s) * (n - 1) + each(s)) by (nonlinear_arith); }
}
proof fn lemma_lag_begins(s: Sym, b: &NumCooMatrix, k: int, n: int)
    requires 0 <= k <= n,
    ensures begins(lag(s, b, k), lag(s, b, n)),
    decreases n,
{
    if k < n {
        lemma_lag_begins(s, b, k, n - 1);
        lemma_lag(s, b, k); lemma_lag(s, b, n - 1); lemma_lag(s, b, n);
        assert(lag(s, b, k) =~= lag(s, b, n - 1).take(lag(s, b, k).len() as int));
        assert(lag(s, b, n - 1) =~= lag(s, b, n).take(lag(s, b, n - 1).len() as int));
    }
}
// a sequence that is followed by the next entries of the block is a beginning of the result
proof fn lemma_part(s: Sym, b: &NumCooMatrix, a: Seq<Trip>, k: int, n: int)
    requires 0 <= k < n,
    ensures
        begins(a + lag(s, b, k), a + lag(s, b, n)),
        !tri(s) ==> begins((a + lag(s, b, k)).push(lag(s, b, k + 1)[2 * k]), a + lag(s, b, n)),
        lag(s, b, k).len() == each(s) * k, lag(s, b, n).len() == each(s) * n,
        each(s) * (k + 1) == each(s) * k + each(s), each(s) * (k + 1) <= each(s) * n,
{
    lemma_lag(s, b, k); lemma_lag(s, b, n); lemma_lag(s, b, k + 1);
    lemma_lag_begins(s, b, k, n); lemma_lag_begins(s, b, k + 1, n); lemma_lag_begins(s, b, k, k + 1);
    assert(each(s) * (k + 1) == each(s) * k + each(s) && each(s) * (k + 1) <= each(s) * n) by (nonlinear_arith) requires k + 1 <= n, each(s) == 1 || each(s) == 2;
    let (f, p, q) = (lag(s, b, n), lag(s, b, k), lag(s, b, k + 1));
    assert forall|i: int| 0 <= i < p.len() implies p[i] == f[i] by { assert(p[i] == f.take(p.len() as int)[i]); }
    assert forall|i: int| 0 <= i < q.len() implies q[i] == f[i] by { assert(q[i] == f.take(q.len() as int)[i]); }
}
proof fn lemma_put(m: &NumCooMatrix, o: &NumCooMatrix)
    requires m.nnz == o.nnz + 1, forall|p: int| 0 <= p < o.nnz ==> #[trigger] m.same_entry(o, p),
    ensures m.trips(m.nnz as int) == o.trips(o.nnz as int).push((m.indices_i@[o.nnz as int] as int, m.indices_j@[o.nnz as int] as int, m.values@[o.nnz as int]@)),
{
    lemma_trips_step(m, o.nnz as int);
    assert forall|p: int| 0 <= p < o.nnz implies m.trips(o.nnz as int)[p] == o.trips(o.nnz as int)[p] by { assert(m.same_entry(o, p)); }
    assert(m.trips(o.nnz as int) =~= o.trips(o.nnz as int));
}

//@fn russell_sparse/src/coo_matrix.rs NumCooMatrix::put_lagrange_block
//@spec
    requires old(self).wf(), bb.wf(), bb.ncol + bb.nrow <= usize::MAX,
    ensures
        final(self).wf(), final(self).same_shape(old(self)),
        ret is Ok <==> (bb.symmetric == Sym::No && bb.ncol + bb.nrow <= old(self).nrow && bb.ncol + bb.nrow <= old(self).ncol && old(self).nnz + each(old(self).symmetric) * bb.nnz <= old(self).max_nnz),
        ret is Ok ==> final(self).trips(final(self).nnz as int) == old(self).trips(old(self).nnz as int) + lag(old(self).symmetric, bb, bb.nnz as int),
        // an insertion was refused: the entries before it are kept
        ret is Err ==> begins(final(self).trips(final(self).nnz as int), old(self).trips(old(self).nnz as int) + lag(old(self).symmetric, bb, bb.nnz as int)),
//@loop 0
            invariant
                self.wf(), self.same_shape(old(self)), bb.wf(), bb.symmetric == Sym::No, self.symmetric == Sym::YesLower,
                bb.ncol + bb.nrow <= self.nrow, bb.ncol + bb.nrow <= self.ncol,
                self.nnz == old(self).nnz + each(self.symmetric) * p,
                self.trips(self.nnz as int) == old(self).trips(old(self).nnz as int) + lag(self.symmetric, bb, p as int),
//@loop 0 start
                let ghost one = *self;
                proof {
                    assert(bb.entry_ok(p as int));
                    lemma_part(self.symmetric, bb, old(self).trips(old(self).nnz as int), p as int, bb.nnz as int);
                }
//@loop 0 end
                proof {
                    assert(self.trips(self.nnz as int) =~= old(self).trips(old(self).nnz as int) + lag(self.symmetric, bb, p as int + 1));
                }
//@loop 1
            invariant
                self.wf(), self.same_shape(old(self)), bb.wf(), bb.symmetric == Sym::No, self.symmetric == Sym::YesUpper,
                bb.ncol + bb.nrow <= self.nrow, bb.ncol + bb.nrow <= self.ncol,
                self.nnz == old(self).nnz + each(self.symmetric) * p,
                self.trips(self.nnz as int) == old(self).trips(old(self).nnz as int) + lag(self.symmetric, bb, p as int),
//@loop 1 start
                let ghost one = *self;
                proof {
                    assert(bb.entry_ok(p as int));
                    lemma_part(self.symmetric, bb, old(self).trips(old(self).nnz as int), p as int, bb.nnz as int);
                }
//@loop 1 end
                proof {
                    assert(self.trips(self.nnz as int) =~= old(self).trips(old(self).nnz as int) + lag(self.symmetric, bb, p as int + 1));
                }
//@loop 2
            invariant
                self.wf(), self.same_shape(old(self)), bb.wf(), bb.symmetric == Sym::No, !tri(self.symmetric),
                bb.ncol + bb.nrow <= self.nrow, bb.ncol + bb.nrow <= self.ncol,
                self.nnz == old(self).nnz + each(self.symmetric) * p,
                self.trips(self.nnz as int) == old(self).trips(old(self).nnz as int) + lag(self.symmetric, bb, p as int),
//@loop 2 start
                let ghost one = *self;
                proof {
                    assert(bb.entry_ok(p as int));
                    lemma_part(self.symmetric, bb, old(self).trips(old(self).nnz as int), p as int, bb.nnz as int);
                }
//@loop 2 end
                proof {
                    assert(self.trips(self.nnz as int) =~= old(self).trips(old(self).nnz as int) + lag(self.symmetric, bb, p as int + 1));
                }
//@start
        proof {
            let (a, f) = (old(self).trips(old(self).nnz as int), lag(old(self).symmetric, bb, bb.nnz as int));
            assert(a =~= (a + f).take(a.len() as int));
            lemma_lag(old(self).symmetric, bb, bb.nnz as int);
            assert(a + lag(old(self).symmetric, bb, 0) =~= a);
        }
//@after stmt `self.put` #0
                proof { lemma_put(self, &one); }
//@after stmt `self.put` #1
                proof { lemma_put(self, &one); }
//@after stmt `self.put` #2
                let ghost two = *self;
                proof { lemma_put(self, &one); }
//@after stmt `self.put` #3
                proof { lemma_put(self, &two); }
//@endfn

} // verus!
fn main() {}
