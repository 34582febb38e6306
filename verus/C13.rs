//@include prelude_real.rs
verus! {

//@map T=R
//@mono Histogram
//@struct russell_stat/src/histogram.rs Histogram

pub open spec fn inside(x: R, s: Seq<R>, i: int) -> bool { s[i]@ <= x@ && x@ < s[i + 1]@ }
// number of values in the bin i
pub open spec fn number(d: Seq<R>, s: Seq<R>, i: int) -> int
    decreases d.len()
{
    if d.len() == 0 { 0 } else { number(d.drop_last(), s, i) + (if inside(d.last(), s, i) { 1int } else { 0int }) }
}
pub proof fn lemma_number(d: Seq<R>, s: Seq<R>, i: int)
    ensures 0 <= number(d, s, i) <= d.len()
    decreases d.len()
{
    if d.len() > 0 { lemma_number(d.drop_last(), s, i); }
}
pub open spec fn increasing(s: Seq<R>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i])@ < (#[trigger] s[j])@ }

impl Histogram {
    pub open spec fn wf(&self) -> bool { self.stations.len() >= 2 && self.counts.len() == self.stations.len() - 1 }
}

//@fn russell_stat/src/histogram.rs Histogram::new
//@spec
    ensures
        ret is Ok <==> stations@.len() >= 2,
        ret is Ok ==> {
            &&& ret->Ok_0.wf()
            &&& ret->Ok_0.stations@ =~= stations@
            &&& forall|i: int| 0 <= i < ret->Ok_0.counts.len() ==> #[trigger] ret->Ok_0.counts@[i] == 0
        },
//@endfn

//@fn russell_stat/src/histogram.rs Histogram::find_bin
//@spec
    requires self.wf(), increasing(self.stations@), self.stations.len() <= usize::MAX / 2,
    ensures
        // the bin that contains the value
        ret is Some ==> ret->0 < self.counts.len() && inside(x, self.stations@, ret->0 as int),
        // nothing only if no bin contains the value
        ret is None ==> forall|i: int| 0 <= i < self.counts.len() ==> !#[trigger] inside(x, self.stations@, i),
        // bins do not overlap
        forall|i: int| 0 <= i < self.counts.len() && #[trigger] inside(x, self.stations@, i) ==> ret is Some && ret->0 == i,
//@loop 0
        invariant
            self.wf(), increasing(self.stations@), self.stations.len() <= usize::MAX / 2,
            nstation == self.stations.len(),
            lower < upper <= nstation,
            self.stations@[lower as int]@ <= x@,
            upper < nstation ==> x@ < self.stations@[upper as int]@,
            x@ < self.stations@[nstation - 1]@,
        decreases upper - lower,
//@endfn

//@fn russell_stat/src/histogram.rs Histogram::count
//@spec
    requires
        old(self).wf(), increasing(old(self).stations@), old(self).stations.len() <= usize::MAX / 2,
        forall|i: int| 0 <= i < old(self).counts.len() ==> #[trigger] old(self).counts@[i] + data@.len() <= usize::MAX,
    ensures
        final(self).wf(), final(self).stations@ == old(self).stations@,
        forall|i: int| 0 <= i < old(self).counts.len() ==> #[trigger] final(self).counts@[i] == old(self).counts@[i] + number(data@, old(self).stations@, i),
//@loop 0 iter it
//@loop 0
        invariant
            self.wf(), self.stations@ == old(self).stations@, increasing(self.stations@), self.stations.len() <= usize::MAX / 2,
            self.counts.len() == old(self).counts.len(),
            it.seq() == data@.as_ref(),
            forall|i: int| 0 <= i < old(self).counts.len() ==> #[trigger] old(self).counts@[i] + data@.len() <= usize::MAX,
            forall|i: int| 0 <= i < self.counts.len() ==> #[trigger] self.counts@[i] == old(self).counts@[i] + number(data@.take(it.index()), self.stations@, i),
//@loop 0 start
            proof {
                assert(data@.take(it.index() + 1).drop_last() =~= data@.take(it.index()));
                assert forall|i: int| 0 <= i < self.counts.len() implies #[trigger] self.counts@[i] < usize::MAX by {
                    lemma_number(data@.take(it.index()), self.stations@, i);
                    assert(old(self).counts@[i] + data@.len() <= usize::MAX);
                }
            }
//@after loop 0
        proof { assert(data@.take(data@.len() as int) =~= data@); }
//@endfn

//@fn russell_stat/src/histogram.rs Histogram::reset
//@spec
    requires old(self).wf(),
    ensures
        final(self).wf(), final(self).stations@ == old(self).stations@,
        forall|i: int| 0 <= i < final(self).counts.len() ==> #[trigger] final(self).counts@[i] == 0,
//@loop 0
        invariant
            self.wf(), self.stations@ == old(self).stations@, self.counts.len() == old(self).counts.len(),
            forall|k: int| 0 <= k < i ==> #[trigger] self.counts@[k] == 0,
//@endfn

//@fn russell_stat/src/histogram.rs Histogram::get_counts
//@spec
    ensures ret@ == self.counts@,
//@endfn

} // verus!
fn main() {}
