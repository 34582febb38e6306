//@include prelude_real.rs
//@map T=R
//@map f64=R
verus! {
use std::mem;

pub open spec fn one(a: R, v: R) -> int { if a@ == v@ { 1 } else { 0 } }

// ---- sorting two, three and four values ----

//@fn russell_lab/src/base/sort.rs sort2
//@spec
    ensures
        final(x).0@ <= final(x).1@,
        // each value as often as before
        forall|v: R| #![trigger one(final(x).0, v)] one(final(x).0, v) + one(final(x).1, v) == one(old(x).0, v) + one(old(x).1, v),
//@endfn

//@fn russell_lab/src/base/sort.rs sort3
//@spec
    ensures
        final(x).0@ <= final(x).1@ <= final(x).2@,
        forall|v: R| #![trigger one(final(x).0, v)] one(final(x).0, v) + one(final(x).1, v) + one(final(x).2, v) == one(old(x).0, v) + one(old(x).1, v) + one(old(x).2, v),
//@endfn

//@fn russell_lab/src/base/sort.rs sort4
//@spec
    ensures
        final(x).0@ <= final(x).1@ <= final(x).2@ <= final(x).3@,
        forall|v: R| #![trigger one(final(x).0, v)] one(final(x).0, v) + one(final(x).1, v) + one(final(x).2, v) + one(final(x).3, v)
            == one(old(x).0, v) + one(old(x).1, v) + one(old(x).2, v) + one(old(x).3, v),
//@endfn

// ---- extreme values ----

pub open spec fn first_min(x: Seq<R>, n: int, k: int) -> bool {
    0 <= k < n && (forall|i: int| 0 <= i < n ==> x[k]@ <= (#[trigger] x[i])@) && (forall|i: int| 0 <= i < k ==> x[k]@ < (#[trigger] x[i])@)
}
pub open spec fn first_max(x: Seq<R>, n: int, k: int) -> bool {
    0 <= k < n && (forall|i: int| 0 <= i < n ==> (#[trigger] x[i])@ <= x[k]@) && (forall|i: int| 0 <= i < k ==> (#[trigger] x[i])@ < x[k]@)
}
pub open spec fn extremes(x: Seq<R>, lo: usize, hi: usize) -> bool {
    if x.len() == 0 { lo == usize::MAX && hi == usize::MAX } else { first_min(x, x.len() as int, lo as int) && first_max(x, x.len() as int, hi as int) }
}

//@fn russell_lab/src/base/find_min_max.rs find_min_max
//@spec
    ensures extremes(x@, ret.0, ret.1),
//@loop 0
        invariant
            n == x@.len(), n >= 2,
            first_min(x@, i as int, index_min as int), first_max(x@, i as int, index_max as int),
//@endfn

// ---- valleys and peaks ----

// direction of the last change up to the position i
pub open spec fn trend(x: Seq<R>, i: int) -> int
    decreases i
{
    if i <= 0 { 0 } else if x[i]@ < x[i - 1]@ { -1 } else if x[i]@ > x[i - 1]@ { 1 } else { trend(x, i - 1) }
}
// last point before the sequence rises again, after it fell
pub open spec fn valley(x: Seq<R>, k: int) -> bool { 0 < k < x.len() - 1 && trend(x, k) == -1 && x[k + 1]@ > x[k]@ }
pub open spec fn peak(x: Seq<R>, k: int) -> bool { 0 < k < x.len() - 1 && trend(x, k) == 1 && x[k + 1]@ < x[k]@ }
pub open spec fn rising(l: Seq<usize>) -> bool { forall|a: int, b: int| 0 <= a < b < l.len() ==> #[trigger] l[a] < #[trigger] l[b] }
// the positions of the valleys (peaks) below m, once each, in order
pub open spec fn valleys(l: Seq<usize>, x: Seq<R>, m: int) -> bool {
    &&& rising(l)
    &&& forall|a: int| 0 <= a < l.len() ==> #[trigger] l[a] < m && valley(x, l[a] as int)
    &&& forall|k: int| 0 <= k < m && #[trigger] valley(x, k) ==> l.contains(k as usize)
}
pub open spec fn peaks(l: Seq<usize>, x: Seq<R>, m: int) -> bool {
    &&& rising(l)
    &&& forall|a: int| 0 <= a < l.len() ==> #[trigger] l[a] < m && peak(x, l[a] as int)
    &&& forall|k: int| 0 <= k < m && #[trigger] peak(x, k) ==> l.contains(k as usize)
}
proof fn lemma_valleys(l: Seq<usize>, x: Seq<R>, m: int)
    requires valleys(l, x, m), 0 <= m < x.len() <= usize::MAX,
    ensures
        valley(x, m) ==> valleys(l.push(m as usize), x, m + 1),
        !valley(x, m) ==> valleys(l, x, m + 1),
{
    let p = l.push(m as usize);
    assert(p[l.len() as int] == m as usize);
    assert forall|k: int| 0 <= k < m && #[trigger] valley(x, k) implies p.contains(k as usize) by {
        let a = choose|a: int| 0 <= a < l.len() && l[a] == k as usize;
        assert(p[a] == k as usize);
    }
}
proof fn lemma_peaks(l: Seq<usize>, x: Seq<R>, m: int)
    requires peaks(l, x, m), 0 <= m < x.len() <= usize::MAX,
    ensures
        peak(x, m) ==> peaks(l.push(m as usize), x, m + 1),
        !peak(x, m) ==> peaks(l, x, m + 1),
{
    let p = l.push(m as usize);
    assert(p[l.len() as int] == m as usize);
    assert forall|k: int| 0 <= k < m && #[trigger] peak(x, k) implies p.contains(k as usize) by {
        let a = choose|a: int| 0 <= a < l.len() && l[a] == k as usize;
        assert(p[a] == k as usize);
    }
}
proof fn lemma_no_end(x: Seq<R>)
    ensures
        forall|k: int| #[trigger] valley(x, k) ==> 0 < k < x.len() - 1,
        forall|k: int| #[trigger] peak(x, k) ==> 0 < k < x.len() - 1,
{ }

//@fn russell_lab/src/base/find_valleys_and_peaks.rs find_valleys_and_peaks
//@spec
    ensures
        valleys(ret.0@, x@, x@.len() as int),
        peaks(ret.1@, x@, x@.len() as int),
        extremes(x@, ret.2, ret.3),
//@start
        proof {
            lemma_no_end(x@);
            reveal_with_fuel(trend, 3);
            let one = Seq::<usize>::empty().push(1usize);
            assert(one[0] == 1usize);
            assert(one.contains(1usize));
        }
//@loop 0
        invariant
            n == x@.len(), n >= 4,
            first_min(x@, i as int, i_min as int), first_max(x@, i as int, i_max as int),
            going_down <==> trend(x@, i - 1) == -1,
            going_up <==> trend(x@, i - 1) == 1,
            valleys(ii_valleys@, x@, i - 1),
            peaks(ii_peaks@, x@, i - 1),
//@loop 0 start
            proof {
                lemma_valleys(ii_valleys@, x@, i - 1);
                lemma_peaks(ii_peaks@, x@, i - 1);
            }
//@after loop 0
            proof {
                lemma_valleys(ii_valleys@, x@, n - 1);
                lemma_peaks(ii_peaks@, x@, n - 1);
            }
//@endfn

} // verus!
fn main() {}
