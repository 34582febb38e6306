//@include inc_csx.rs
verus! {

// contribution of one triplet to the row i of alpha * A * u
pub open spec fn part(t: Trip, mirror: bool, i: int, alpha: real, u: Seq<R>) -> real {
    (if t.0 == i { alpha * t.2 * u[t.1]@ } else { 0real }) + (if mirror && t.0 != t.1 && t.1 == i { alpha * t.2 * u[t.0]@ } else { 0real })
}
pub open spec fn prod_of(t: Seq<Trip>, mirror: bool, i: int, alpha: real, u: Seq<R>) -> real
    decreases t.len()
{
    if t.len() == 0 { 0real } else { prod_of(t.drop_last(), mirror, i, alpha, u) + part(t.last(), mirror, i, alpha, u) }
}
pub broadcast proof fn lemma_prod_push(t: Seq<Trip>, x: Trip, mirror: bool, i: int, alpha: real, u: Seq<R>)
    ensures #[trigger] prod_of(t.push(x), mirror, i, alpha, u) == prod_of(t, mirror, i, alpha, u) + part(x, mirror, i, alpha, u)
{
    assert(t.push(x).drop_last() =~= t);
}
// row i of the dense meaning times u
pub open spec fn rowdot(t: Seq<Trip>, mirror: bool, i: int, u: Seq<R>, n: int) -> real
    decreases n
{
    if n <= 0 { 0real } else { rowdot(t, mirror, i, u, n - 1) + dense_of(t, mirror, i, n - 1) * u[n - 1]@ }
}
pub open spec fn hitdot(x: Trip, mirror: bool, i: int, u: Seq<R>, n: int) -> real
    decreases n
{
    if n <= 0 { 0real } else { hitdot(x, mirror, i, u, n - 1) + hit(x, mirror, i, n - 1) * u[n - 1]@ }
}
proof fn lemma_hitdot(x: Trip, mirror: bool, i: int, u: Seq<R>, n: int)
    requires n >= 0, x.0 >= 0, x.1 >= 0
    ensures hitdot(x, mirror, i, u, n) == (if x.0 == i && x.1 < n { x.2 * u[x.1]@ } else { 0real }) + (if mirror && x.0 != x.1 && x.1 == i && x.0 < n { x.2 * u[x.0]@ } else { 0real })
    decreases n
{
    if n > 0 {
        lemma_hitdot(x, mirror, i, u, n - 1);
        let h = hit(x, mirror, i, n - 1);
        let w = u[n - 1]@;
        assert(h == 0real ==> h * w == 0real) by (nonlinear_arith);
    }
}
proof fn lemma_rowdot_push(t: Seq<Trip>, x: Trip, mirror: bool, i: int, u: Seq<R>, n: int)
    requires n >= 0
    ensures rowdot(t.push(x), mirror, i, u, n) == rowdot(t, mirror, i, u, n) + hitdot(x, mirror, i, u, n)
    decreases n
{
    broadcast use lemma_dense_push;
    if n > 0 {
        lemma_rowdot_push(t, x, mirror, i, u, n - 1);
        let a = dense_of(t, mirror, i, n - 1);
        let b = hit(x, mirror, i, n - 1);
        let w = u[n - 1]@;
        assert((a + b) * w == a * w + b * w) by (nonlinear_arith);
    }
}
proof fn lemma_rowdot_empty(mirror: bool, i: int, u: Seq<R>, n: int)
    ensures rowdot(Seq::<Trip>::empty(), mirror, i, u, n) == 0real
    decreases n
{
    if n > 0 {
        lemma_rowdot_empty(mirror, i, u, n - 1);
        let w = u[n - 1]@;
        assert(0real * w == 0real) by (nonlinear_arith);
    }
}
// what the loops accumulate is alpha times the dense meaning times u
pub proof fn lemma_product(t: Seq<Trip>, mirror: bool, i: int, alpha: real, u: Seq<R>, m: int, n: int)
    requires inside(t, m, n), mirror ==> m == n, n >= 0
    ensures prod_of(t, mirror, i, alpha, u) == alpha * rowdot(t, mirror, i, u, n)
    decreases t.len()
{
    if t.len() == 0 {
        assert(t =~= Seq::<Trip>::empty());
        lemma_rowdot_empty(mirror, i, u, n);
        assert(alpha * 0real == 0real) by (nonlinear_arith);
    } else {
        let s = t.drop_last();
        let x = t.last();
        assert(t =~= s.push(x));
        assert(t[t.len() - 1] == x);
        assert forall|q: int| 0 <= q < s.len() implies 0 <= (#[trigger] s[q]).0 < m && 0 <= s[q].1 < n by { assert(t[q] == s[q]); }
        lemma_product(s, mirror, i, alpha, u, m, n);
        lemma_rowdot_push(s, x, mirror, i, u, n);
        lemma_hitdot(x, mirror, i, u, n);
        let (a, b, c, d) = (rowdot(s, mirror, i, u, n), x.2, u[x.1]@, u[x.0]@);
        let h = hitdot(x, mirror, i, u, n);
        assert(alpha * (a + h) == alpha * a + alpha * h) by (nonlinear_arith);
        assert(alpha * (b * c) == alpha * b * c) by (nonlinear_arith);
        assert(alpha * (b * d) == alpha * b * d) by (nonlinear_arith);
        assert(alpha * (b * c + b * d) == alpha * b * c + alpha * b * d) by (nonlinear_arith);
        assert(alpha * 0real == 0real) by (nonlinear_arith);
    }
}
proof fn lemma_coo_inside(c: &NumCooMatrix, n: int)
    requires c.wf(), 0 <= n <= c.nnz
    ensures inside(c.trips(n), c.nrow as int, c.ncol as int)
{
    assert forall|q: int| 0 <= q < n implies 0 <= (#[trigger] c.trips(n)[q]).0 < c.nrow && 0 <= c.trips(n)[q].1 < c.ncol by { assert(c.entry_ok(q)); }
}
pub open spec fn swap(t: Seq<Trip>) -> Seq<Trip> { Seq::new(t.len(), |q: int| (t[q].1, t[q].0, t[q].2)) }
proof fn lemma_swap_push(t: Seq<Trip>, x: Trip)
    ensures swap(t.push(x)) == swap(t).push((x.1, x.0, x.2))
{
    assert(swap(t.push(x)) =~= swap(t).push((x.1, x.0, x.2)));
}
pub proof fn lemma_swap_dense(t: Seq<Trip>, mirror: bool, i: int, j: int)
    ensures dense_of(swap(t), mirror, i, j) == dense_of(t, mirror, j, i)
    decreases t.len()
{
    if t.len() > 0 {
        lemma_swap_dense(t.drop_last(), mirror, i, j);
        assert(swap(t).drop_last() =~= swap(t.drop_last()));
    }
}

//@fn russell_sparse/src/coo_matrix.rs NumCooMatrix::mat_vec_mul
//@spec
    requires
        self.wf(),
    ensures
        final(v)@.len() == old(v)@.len(),
        ret is Ok <==> (u@.len() >= self.ncol && old(v)@.len() >= self.nrow),
        ret is Err ==> final(v)@ == old(v)@,
        ret is Ok ==> forall|i: int| 0 <= i < self.nrow ==> #[trigger] final(v)@[i]@ == alpha@ * rowdot(self.trips(self.nnz as int), self.mirror(), i, u@, self.ncol as int),
//@loop 0
        invariant
            self.wf(), u@.len() >= self.ncol, v@.len() >= self.nrow, v@.len() == old(v)@.len(), mirror_required == self.mirror(),
            forall|i: int| 0 <= i < v@.len() ==> #[trigger] v@[i]@ == prod_of(self.trips(p as int), self.mirror(), i, alpha@, u@),
//@loop 0 start
            broadcast use lemma_prod_push;
            proof { assert(self.entry_ok(p as int)); lemma_trips_step(self, p as int); }
//@after loop 0
        proof {
            lemma_coo_inside(self, self.nnz as int);
            assert forall|i: int| 0 <= i < self.nrow implies #[trigger] v@[i]@ == alpha@ * rowdot(self.trips(self.nnz as int), self.mirror(), i, u@, self.ncol as int) by {
                lemma_product(self.trips(self.nnz as int), self.mirror(), i, alpha@, u@, self.nrow as int, self.ncol as int);
            }
        }
//@endfn

//@fn russell_sparse/src/coo_matrix.rs NumCooMatrix::mat_vec_mul_update
//@spec
    requires
        self.wf(),
    ensures
        final(v)@.len() == old(v)@.len(),
        ret is Ok <==> (u@.len() >= self.ncol && old(v)@.len() >= self.nrow),
        ret is Err ==> final(v)@ == old(v)@,
        ret is Ok ==> forall|i: int| 0 <= i < self.nrow ==> #[trigger] final(v)@[i]@ == old(v)@[i]@ + alpha@ * rowdot(self.trips(self.nnz as int), self.mirror(), i, u@, self.ncol as int),
//@loop 0
        invariant
            self.wf(), u@.len() >= self.ncol, v@.len() >= self.nrow, v@.len() == old(v)@.len(), mirror_required == self.mirror(),
            forall|i: int| 0 <= i < v@.len() ==> #[trigger] v@[i]@ == old(v)@[i]@ + prod_of(self.trips(p as int), self.mirror(), i, alpha@, u@),
//@loop 0 start
            broadcast use lemma_prod_push;
            proof { assert(self.entry_ok(p as int)); lemma_trips_step(self, p as int); }
//@after loop 0
        proof {
            lemma_coo_inside(self, self.nnz as int);
            assert forall|i: int| 0 <= i < self.nrow implies #[trigger] v@[i]@ == old(v)@[i]@ + alpha@ * rowdot(self.trips(self.nnz as int), self.mirror(), i, u@, self.ncol as int) by {
                lemma_product(self.trips(self.nnz as int), self.mirror(), i, alpha@, u@, self.nrow as int, self.ncol as int);
            }
        }
//@endfn

//@fn russell_sparse/src/coo_matrix.rs NumCooMatrix::mat_t_vec_mul
//@spec
    requires
        self.wf(),
    ensures
        final(v)@.len() == old(v)@.len(),
        ret is Ok <==> (u@.len() >= self.nrow && old(v)@.len() >= self.ncol),
        ret is Err ==> final(v)@ == old(v)@,
        // swap() exchanges rows and columns: dense_of(swap(t), i, j) == dense_of(t, j, i) (lemma_swap_dense)
        ret is Ok ==> forall|i: int| 0 <= i < self.ncol ==> #[trigger] final(v)@[i]@ == alpha@ * rowdot(swap(self.trips(self.nnz as int)), self.mirror(), i, u@, self.nrow as int),
//@loop 0
        invariant
            self.wf(), u@.len() >= self.nrow, v@.len() >= self.ncol, v@.len() == old(v)@.len(), mirror_required == self.mirror(),
            forall|i: int| 0 <= i < v@.len() ==> #[trigger] v@[i]@ == prod_of(swap(self.trips(p as int)), self.mirror(), i, alpha@, u@),
//@loop 0 start
            broadcast use lemma_prod_push;
            proof {
                assert(self.entry_ok(p as int)); lemma_trips_step(self, p as int);
                lemma_swap_push(self.trips(p as int), (self.indices_i@[p as int] as int, self.indices_j@[p as int] as int, self.values@[p as int]@));
            }
//@after loop 0
        proof {
            let t = self.trips(self.nnz as int);
            lemma_coo_inside(self, self.nnz as int);
            assert forall|q: int| 0 <= q < swap(t).len() implies 0 <= (#[trigger] swap(t)[q]).0 < self.ncol && 0 <= swap(t)[q].1 < self.nrow by { assert(0 <= t[q].0 < self.nrow); }
            assert forall|i: int| 0 <= i < self.ncol implies #[trigger] v@[i]@ == alpha@ * rowdot(swap(t), self.mirror(), i, u@, self.nrow as int) by {
                lemma_product(swap(t), self.mirror(), i, alpha@, u@, self.ncol as int, self.nrow as int);
            }
        }
//@endfn

//@fn russell_sparse/src/csr_matrix.rs NumCsrMatrix::mat_vec_mul
//@spec
    requires
        self.wf(),
    ensures
        final(v)@.len() == old(v)@.len(),
        ret is Ok <==> (u@.len() == self.ncol && old(v)@.len() == self.nrow),
        ret is Err ==> final(v)@ == old(v)@,
        ret is Ok ==> forall|i: int| 0 <= i < self.nrow ==> #[trigger] final(v)@[i]@ == alpha@ * rowdot(self.trips(), self.mirror(), i, u@, self.ncol as int),
//@loop 0
        invariant
            self.wf(), u@.len() == self.ncol, v@.len() == self.nrow, mirror_required == self.mirror(),
            forall|k: int| 0 <= k < v@.len() ==> #[trigger] v@[k]@ == prod_of(self.before(i as int), self.mirror(), k, alpha@, u@),
//@loop 0 start
            proof { assert(self.row_pointers@[0] <= self.row_pointers@[i as int] && self.row_pointers@[i as int] <= self.row_pointers@[i + 1] && self.row_pointers@[i + 1] <= self.row_pointers@[self.nrow as int]); lemma_upto_start(self.row_pointers@, self.col_indices@, self.values@, true, i as int); }
//@loop 1
        invariant
            self.wf(), u@.len() == self.ncol, v@.len() == self.nrow, mirror_required == self.mirror(), i < self.nrow,
            0 <= self.row_pointers@[0] <= self.row_pointers@[i as int], self.row_pointers@[i + 1] <= self.row_pointers@[self.nrow as int], self.row_pointers@[i as int] <= self.row_pointers@[i + 1],
            forall|k: int| 0 <= k < v@.len() ==> #[trigger] v@[k]@ == prod_of(self.upto(i as int, p as int), self.mirror(), k, alpha@, u@),
//@loop 1 start
            broadcast use lemma_prod_push;
            proof { assert(0 <= self.col_indices@[p as int] < self.ncol); lemma_upto_step(self.row_pointers@, self.col_indices@, self.values@, true, i as int, p as int); }
//@loop 0 end
            proof { lemma_upto_end(self.row_pointers@, self.col_indices@, self.values@, true, i as int); }
//@after loop 0
        proof {
            lemma_groups_inside(self.row_pointers@, self.col_indices@, self.values@, true, self.nrow as int, self.nrow as int, self.ncol as int, self.values.len() as int);
            assert forall|i: int| 0 <= i < self.nrow implies #[trigger] v@[i]@ == alpha@ * rowdot(self.trips(), self.mirror(), i, u@, self.ncol as int) by {
                lemma_product(self.trips(), self.mirror(), i, alpha@, u@, self.nrow as int, self.ncol as int);
            }
        }
//@endfn

//@fn russell_sparse/src/csc_matrix.rs NumCscMatrix::mat_vec_mul
//@spec
    requires
        self.wf(),
    ensures
        final(v)@.len() == old(v)@.len(),
        ret is Ok <==> (u@.len() == self.ncol && old(v)@.len() == self.nrow),
        ret is Err ==> final(v)@ == old(v)@,
        ret is Ok ==> forall|i: int| 0 <= i < self.nrow ==> #[trigger] final(v)@[i]@ == alpha@ * rowdot(self.trips(), self.mirror(), i, u@, self.ncol as int),
//@loop 0
        invariant
            self.wf(), u@.len() == self.ncol, v@.len() == self.nrow, mirror_required == self.mirror(),
            forall|k: int| 0 <= k < v@.len() ==> #[trigger] v@[k]@ == prod_of(self.before(j as int), self.mirror(), k, alpha@, u@),
//@loop 0 start
            proof { assert(self.col_pointers@[0] <= self.col_pointers@[j as int] && self.col_pointers@[j as int] <= self.col_pointers@[j + 1] && self.col_pointers@[j + 1] <= self.col_pointers@[self.ncol as int]); lemma_upto_start(self.col_pointers@, self.row_indices@, self.values@, false, j as int); }
//@loop 1
        invariant
            self.wf(), u@.len() == self.ncol, v@.len() == self.nrow, mirror_required == self.mirror(), j < self.ncol,
            0 <= self.col_pointers@[0] <= self.col_pointers@[j as int], self.col_pointers@[j + 1] <= self.col_pointers@[self.ncol as int], self.col_pointers@[j as int] <= self.col_pointers@[j + 1],
            forall|k: int| 0 <= k < v@.len() ==> #[trigger] v@[k]@ == prod_of(self.upto(j as int, p as int), self.mirror(), k, alpha@, u@),
//@loop 1 start
            broadcast use lemma_prod_push;
            proof { assert(0 <= self.row_indices@[p as int] < self.nrow); lemma_upto_step(self.col_pointers@, self.row_indices@, self.values@, false, j as int, p as int); }
//@loop 0 end
            proof { lemma_upto_end(self.col_pointers@, self.row_indices@, self.values@, false, j as int); }
//@after loop 0
        proof {
            lemma_groups_inside(self.col_pointers@, self.row_indices@, self.values@, false, self.ncol as int, self.ncol as int, self.nrow as int, self.values.len() as int);
            assert forall|i: int| 0 <= i < self.nrow implies #[trigger] v@[i]@ == alpha@ * rowdot(self.trips(), self.mirror(), i, u@, self.ncol as int) by {
                lemma_product(self.trips(), self.mirror(), i, alpha@, u@, self.nrow as int, self.ncol as int);
            }
        }
//@endfn

} // verus!
fn main() {}
