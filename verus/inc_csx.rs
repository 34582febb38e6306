//@include inc_coo.rs
verus! {
//@struct russell_sparse/src/csr_matrix.rs NumCsrMatrix
//@struct russell_sparse/src/csc_matrix.rs NumCscMatrix

// compressed arrays: pointers ascending, indices in range
pub open spec fn comp_ok(ptr: Seq<i32>, idx: Seq<i32>, nval: int, major: int, minor: int) -> bool {
    &&& ptr.len() == major + 1
    &&& 0 <= ptr[0]
    &&& forall|a: int, b: int| 0 <= a <= b <= major ==> #[trigger] ptr[a] <= #[trigger] ptr[b]
    &&& ptr[major] <= idx.len()
    &&& ptr[major] <= nval
    &&& forall|p: int| ptr[0] <= p < ptr[major] ==> 0 <= #[trigger] idx[p] < minor
}
// the n first entries of the group k as (group, index, value)
pub open spec fn group_part(ptr: Seq<i32>, idx: Seq<i32>, val: Seq<R>, rows: bool, k: int, n: int) -> Seq<Trip> {
    Seq::new(n as nat, |q: int| {
        let p = ptr[k] + q;
        if rows { (k, idx[p] as int, val[p]@) } else { (idx[p] as int, k, val[p]@) }
    })
}
// the entries of the groups before k
pub open spec fn groups(ptr: Seq<i32>, idx: Seq<i32>, val: Seq<R>, rows: bool, k: int) -> Seq<Trip>
    decreases k
{
    if k <= 0 { Seq::empty() } else { groups(ptr, idx, val, rows, k - 1) + group_part(ptr, idx, val, rows, k - 1, ptr[k] - ptr[k - 1]) }
}
pub open spec fn upto(ptr: Seq<i32>, idx: Seq<i32>, val: Seq<R>, rows: bool, k: int, p: int) -> Seq<Trip> {
    groups(ptr, idx, val, rows, k) + group_part(ptr, idx, val, rows, k, p - ptr[k])
}
pub proof fn lemma_upto_start(ptr: Seq<i32>, idx: Seq<i32>, val: Seq<R>, rows: bool, k: int)
    ensures upto(ptr, idx, val, rows, k, ptr[k] as int) == groups(ptr, idx, val, rows, k)
{
    assert(upto(ptr, idx, val, rows, k, ptr[k] as int) =~= groups(ptr, idx, val, rows, k));
}
pub proof fn lemma_upto_step(ptr: Seq<i32>, idx: Seq<i32>, val: Seq<R>, rows: bool, k: int, p: int)
    requires ptr[k] <= p
    ensures upto(ptr, idx, val, rows, k, p + 1) == upto(ptr, idx, val, rows, k, p).push(if rows { (k, idx[p] as int, val[p]@) } else { (idx[p] as int, k, val[p]@) })
{
    assert(upto(ptr, idx, val, rows, k, p + 1) =~= upto(ptr, idx, val, rows, k, p).push(if rows { (k, idx[p] as int, val[p]@) } else { (idx[p] as int, k, val[p]@) }));
}
pub proof fn lemma_upto_end(ptr: Seq<i32>, idx: Seq<i32>, val: Seq<R>, rows: bool, k: int)
    requires k >= 0
    ensures upto(ptr, idx, val, rows, k, ptr[k + 1] as int) == groups(ptr, idx, val, rows, k + 1)
{
}
// all the triplets lie inside the matrix
pub open spec fn inside(t: Seq<Trip>, m: int, n: int) -> bool {
    forall|q: int| 0 <= q < t.len() ==> 0 <= (#[trigger] t[q]).0 < m && 0 <= t[q].1 < n
}
pub proof fn lemma_groups_inside(ptr: Seq<i32>, idx: Seq<i32>, val: Seq<R>, rows: bool, k: int, major: int, minor: int, nval: int)
    requires comp_ok(ptr, idx, nval, major, minor), 0 <= k <= major
    ensures inside(groups(ptr, idx, val, rows, k), if rows { major } else { minor }, if rows { minor } else { major })
    decreases k
{
    if k > 0 {
        lemma_groups_inside(ptr, idx, val, rows, k - 1, major, minor, nval);
        let a = groups(ptr, idx, val, rows, k - 1);
        let b = group_part(ptr, idx, val, rows, k - 1, ptr[k] - ptr[k - 1]);
        assert forall|q: int| 0 <= q < (a + b).len() implies 0 <= (#[trigger] (a + b)[q]).0 < (if rows { major } else { minor }) && 0 <= (a + b)[q].1 < (if rows { minor } else { major }) by {
            if q < a.len() { assert((a + b)[q] == a[q]); } else {
                assert((a + b)[q] == b[q - a.len()]);
                let p = ptr[k - 1] + (q - a.len());
                assert(ptr[0] <= ptr[k - 1] && ptr[k] <= ptr[major]);
                assert(0 <= idx[p] < minor);
            }
        }
    }
}

impl NumCsrMatrix {
    pub open spec fn wf(&self) -> bool {
        &&& comp_ok(self.row_pointers@, self.col_indices@, self.values.len() as int, self.nrow as int, self.ncol as int)
        &&& (self.symmetric != Sym::No ==> self.nrow == self.ncol)
    }
    pub open spec fn mirror(&self) -> bool { tri(self.symmetric) }
    pub open spec fn trips(&self) -> Seq<Trip> { groups(self.row_pointers@, self.col_indices@, self.values@, true, self.nrow as int) }
    pub open spec fn upto(&self, i: int, p: int) -> Seq<Trip> { upto(self.row_pointers@, self.col_indices@, self.values@, true, i, p) }
    pub open spec fn before(&self, i: int) -> Seq<Trip> { groups(self.row_pointers@, self.col_indices@, self.values@, true, i) }
}
impl NumCscMatrix {
    pub open spec fn wf(&self) -> bool {
        &&& comp_ok(self.col_pointers@, self.row_indices@, self.values.len() as int, self.ncol as int, self.nrow as int)
        &&& (self.symmetric != Sym::No ==> self.nrow == self.ncol)
    }
    pub open spec fn mirror(&self) -> bool { tri(self.symmetric) }
    pub open spec fn trips(&self) -> Seq<Trip> { groups(self.col_pointers@, self.row_indices@, self.values@, false, self.ncol as int) }
    pub open spec fn upto(&self, j: int, p: int) -> Seq<Trip> { upto(self.col_pointers@, self.row_indices@, self.values@, false, j, p) }
    pub open spec fn before(&self, j: int) -> Seq<Trip> { groups(self.col_pointers@, self.row_indices@, self.values@, false, j) }
}
} // verus!
