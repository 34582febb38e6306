//@include inc_lab.rs
verus! {
//@enum russell_sparse/src/enums.rs Sym derive=Clone,Copy,PartialEq,Eq,Structural
//@struct russell_sparse/src/coo_matrix.rs NumCooMatrix
//@fn russell_sparse/src/constants.rs to_i32
//@spec
    ensures ret as int == num as int,
//@endfn

pub open spec fn tri(s: Sym) -> bool { s == Sym::YesLower || s == Sym::YesUpper }
pub open spec fn allowed(s: Sym, i: int, j: int) -> bool {
    &&& s == Sym::YesLower ==> j <= i
    &&& s == Sym::YesUpper ==> i <= j
}

//@fn russell_sparse/src/enums.rs Sym::triangular
//@spec
    ensures ret == tri(*self),
//@endfn

impl NumCooMatrix {
    pub open spec fn entry_ok(&self, p: int) -> bool {
        &&& 0 <= self.indices_i@[p] < self.nrow
        &&& 0 <= self.indices_j@[p] < self.ncol
        &&& allowed(self.symmetric, self.indices_i@[p] as int, self.indices_j@[p] as int)
    }
    pub open spec fn wf(&self) -> bool {
        &&& self.nrow >= 1 && self.ncol >= 1 && self.max_nnz >= 1
        &&& (self.symmetric != Sym::No ==> self.nrow == self.ncol)
        &&& self.nnz <= self.max_nnz
        &&& self.indices_i.len() == self.max_nnz
        &&& self.indices_j.len() == self.max_nnz
        &&& self.values.len() == self.max_nnz
        &&& forall|p: int| 0 <= p < self.nnz ==> #[trigger] self.entry_ok(p)
    }
    pub open spec fn mirror(&self) -> bool { tri(self.symmetric) }
    // the first n triplets
    pub open spec fn trips(&self, n: int) -> Seq<Trip> {
        Seq::new(n as nat, |p: int| (self.indices_i@[p] as int, self.indices_j@[p] as int, self.values@[p]@))
    }
    // the dense meaning: the sum of the first n triplets
    pub open spec fn dense(&self, n: int, i: int, j: int) -> real {
        dense_of(self.trips(n), self.mirror(), i, j)
    }
}

pub type Trip = (int, int, real);

// contribution of one triplet to the entry (i,j) of the dense matrix
pub open spec fn hit(t: Trip, mirror: bool, i: int, j: int) -> real {
    if (t.0 == i && t.1 == j) || (mirror && t.0 != t.1 && t.1 == i && t.0 == j) { t.2 } else { 0real }
}
// the dense meaning of a list of triplets
pub open spec fn dense_of(t: Seq<Trip>, mirror: bool, i: int, j: int) -> real
    decreases t.len()
{
    if t.len() == 0 { 0real } else { dense_of(t.drop_last(), mirror, i, j) + hit(t.last(), mirror, i, j) }
}
pub broadcast proof fn lemma_dense_push(t: Seq<Trip>, x: Trip, mirror: bool, i: int, j: int)
    ensures #[trigger] dense_of(t.push(x), mirror, i, j) == dense_of(t, mirror, i, j) + hit(x, mirror, i, j)
{
    assert(t.push(x).drop_last() =~= t);
}
pub broadcast proof fn lemma_trips_step(c: &NumCooMatrix, n: int)
    requires n >= 0
    ensures #[trigger] c.trips(n + 1) == c.trips(n).push((c.indices_i@[n] as int, c.indices_j@[n] as int, c.values@[n]@))
{
    assert(c.trips(n + 1) =~= c.trips(n).push((c.indices_i@[n] as int, c.indices_j@[n] as int, c.values@[n]@)));
}
} // verus!
