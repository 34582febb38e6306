verus! {

// ---------- selection of the entries of one group, in the order of the source ----------
pub open spec fn key(x: Trip, rows: bool) -> int { if rows { x.0 } else { x.1 } }
pub open spec fn sel(t: Seq<Trip>, rows: bool, k: int) -> Seq<Trip>
    decreases t.len()
{
    if t.len() == 0 { Seq::empty() } else if key(t.last(), rows) == k { sel(t.drop_last(), rows, k).push(t.last()) } else { sel(t.drop_last(), rows, k) }
}
pub proof fn lemma_sel_push(t: Seq<Trip>, x: Trip, rows: bool)
    ensures forall|k: int| #[trigger] sel(t.push(x), rows, k) == if key(x, rows) == k { sel(t, rows, k).push(x) } else { sel(t, rows, k) }
{
    assert(t.push(x).drop_last() =~= t);
}
// number of entries in the groups before k
pub open spec fn nbefore(t: Seq<Trip>, rows: bool, k: int) -> int
    decreases k
{
    if k <= 0 { 0 } else { nbefore(t, rows, k - 1) + sel(t, rows, k - 1).len() }
}
pub proof fn lemma_nbefore_mono(t: Seq<Trip>, rows: bool, a: int, b: int)
    requires a <= b
    ensures nbefore(t, rows, a) <= nbefore(t, rows, b), nbefore(t, rows, a) >= 0
    decreases b - a, 
{
    if a < b { lemma_nbefore_mono(t, rows, a, b - 1); } else { lemma_nbefore_nonneg(t, rows, a); }
}
pub proof fn lemma_nbefore_nonneg(t: Seq<Trip>, rows: bool, a: int)
    ensures nbefore(t, rows, a) >= 0
    decreases a
{
    if a > 0 { lemma_nbefore_nonneg(t, rows, a - 1); }
}
pub proof fn lemma_nbefore_push(t: Seq<Trip>, x: Trip, rows: bool, k: int)
    ensures nbefore(t.push(x), rows, k) == nbefore(t, rows, k) + if 0 <= key(x, rows) < k { 1int } else { 0int }
    decreases k
{
    if k > 0 { lemma_nbefore_push(t, x, rows, k - 1); lemma_sel_push(t, x, rows); }
}
pub open spec fn keys_ok(t: Seq<Trip>, rows: bool, n: int) -> bool { forall|q: int| 0 <= q < t.len() ==> 0 <= key(#[trigger] t[q], rows) < n }
// all the entries are in some group
pub proof fn lemma_nbefore_all(t: Seq<Trip>, rows: bool, n: int)
    requires keys_ok(t, rows, n), n >= 0
    ensures nbefore(t, rows, n) == t.len()
    decreases t.len()
{
    if t.len() == 0 {
        lemma_nbefore_empty(t, rows, n);
    } else {
        let s = t.drop_last();
        assert(t =~= s.push(t.last()));
        assert(t[t.len() - 1] == t.last());
        assert forall|q: int| 0 <= q < s.len() implies 0 <= key(#[trigger] s[q], rows) < n by { assert(s[q] == t[q]); }
        lemma_nbefore_all(s, rows, n);
        lemma_nbefore_push(s, t.last(), rows, n);
    }
}
pub proof fn lemma_nbefore_empty(t: Seq<Trip>, rows: bool, n: int)
    requires t.len() == 0
    ensures nbefore(t, rows, n) == 0
    decreases n
{
    if n > 0 { lemma_nbefore_empty(t, rows, n - 1); }
}
// a prefix has at most as many entries in a group
pub proof fn lemma_sel_prefix(t: Seq<Trip>, rows: bool, p: int, k: int)
    requires 0 <= p <= t.len()
    ensures sel(t.take(p), rows, k).len() <= sel(t, rows, k).len(),
        p < t.len() && key(t[p], rows) == k ==> sel(t.take(p), rows, k).len() < sel(t, rows, k).len(),
    decreases t.len()
{
    if p == t.len() { assert(t.take(p) =~= t); }
    else {
        let s = t.drop_last();
        assert(s.take(p) =~= t.take(p));
        if p < s.len() { assert(s[p] == t[p]); lemma_sel_prefix(s, rows, p, k); }
        else { assert(s.take(p) =~= s); }
    }
}
pub proof fn lemma_sel_key(t: Seq<Trip>, rows: bool, k: int)
    ensures forall|q: int| 0 <= q < sel(t, rows, k).len() ==> key(#[trigger] sel(t, rows, k)[q], rows) == k
    decreases t.len()
{
    if t.len() > 0 {
        let s0 = sel(t.drop_last(), rows, k);
        lemma_sel_key(t.drop_last(), rows, k);
        assert forall|q: int| 0 <= q < sel(t, rows, k).len() implies key(#[trigger] sel(t, rows, k)[q], rows) == k by {
            if q < s0.len() { assert(sel(t, rows, k)[q] == s0[q]); }
        }
    }
}

// ---------- the dense meaning does not depend on the grouping ----------
pub proof fn lemma_dense_concat(a: Seq<Trip>, b: Seq<Trip>, mirror: bool, i: int, j: int)
    ensures dense_of(a + b, mirror, i, j) == dense_of(a, mirror, i, j) + dense_of(b, mirror, i, j)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); }
    else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_dense_concat(a, b.drop_last(), mirror, i, j);
    }
}
pub open spec fn sum_sel(t: Seq<Trip>, rows: bool, mirror: bool, i: int, j: int, n: int) -> real
    decreases n
{
    if n <= 0 { 0real } else { sum_sel(t, rows, mirror, i, j, n - 1) + dense_of(sel(t, rows, n - 1), mirror, i, j) }
}
proof fn lemma_sum_sel_push(t: Seq<Trip>, x: Trip, rows: bool, mirror: bool, i: int, j: int, n: int)
    ensures sum_sel(t.push(x), rows, mirror, i, j, n) == sum_sel(t, rows, mirror, i, j, n) + if 0 <= key(x, rows) < n { hit(x, mirror, i, j) } else { 0real }
    decreases n
{
    broadcast use lemma_dense_push;
    if n > 0 { lemma_sum_sel_push(t, x, rows, mirror, i, j, n - 1); lemma_sel_push(t, x, rows); }
}
proof fn lemma_sum_sel_empty(t: Seq<Trip>, rows: bool, mirror: bool, i: int, j: int, n: int)
    requires t.len() == 0
    ensures sum_sel(t, rows, mirror, i, j, n) == 0real
    decreases n
{
    if n > 0 { lemma_sum_sel_empty(t, rows, mirror, i, j, n - 1); }
}
proof fn lemma_sum_sel(t: Seq<Trip>, rows: bool, mirror: bool, i: int, j: int, n: int)
    requires keys_ok(t, rows, n)
    ensures sum_sel(t, rows, mirror, i, j, n) == dense_of(t, mirror, i, j)
    decreases t.len()
{
    if t.len() == 0 { lemma_sum_sel_empty(t, rows, mirror, i, j, n); }
    else {
        let s = t.drop_last();
        assert(t =~= s.push(t.last()));
        assert(t[t.len() - 1] == t.last());
        assert forall|q: int| 0 <= q < s.len() implies 0 <= key(#[trigger] s[q], rows) < n by { assert(s[q] == t[q]); }
        lemma_sum_sel(s, rows, mirror, i, j, n);
        lemma_sum_sel_push(s, t.last(), rows, mirror, i, j, n);
    }
}
// compressed arrays that list, group by group, the entries of t
pub open spec fn grouped(ptr: Seq<i32>, idx: Seq<i32>, val: Seq<R>, rows: bool, n: int, t: Seq<Trip>) -> bool {
    forall|k: int| 0 <= k < n ==> #[trigger] group_part(ptr, idx, val, rows, k, ptr[k + 1] - ptr[k]) == sel(t, rows, k)
}
proof fn lemma_grouped_sum(ptr: Seq<i32>, idx: Seq<i32>, val: Seq<R>, rows: bool, n: int, t: Seq<Trip>, mirror: bool, i: int, j: int, k: int)
    requires grouped(ptr, idx, val, rows, n, t), k <= n
    ensures dense_of(groups(ptr, idx, val, rows, k), mirror, i, j) == sum_sel(t, rows, mirror, i, j, k)
    decreases k
{
    if k > 0 {
        lemma_grouped_sum(ptr, idx, val, rows, n, t, mirror, i, j, k - 1);
        lemma_dense_concat(groups(ptr, idx, val, rows, k - 1), group_part(ptr, idx, val, rows, k - 1, ptr[k] - ptr[k - 1]), mirror, i, j);
        assert(group_part(ptr, idx, val, rows, k - 1, ptr[k - 1 + 1] - ptr[k - 1]) == sel(t, rows, k - 1));
    }
}
pub proof fn lemma_grouped_dense(ptr: Seq<i32>, idx: Seq<i32>, val: Seq<R>, rows: bool, n: int, t: Seq<Trip>, mirror: bool)
    requires grouped(ptr, idx, val, rows, n, t), keys_ok(t, rows, n)
    ensures forall|i: int, j: int| #[trigger] dense_of(groups(ptr, idx, val, rows, n), mirror, i, j) == dense_of(t, mirror, i, j)
{
    assert forall|i: int, j: int| #[trigger] dense_of(groups(ptr, idx, val, rows, n), mirror, i, j) == dense_of(t, mirror, i, j) by {
        lemma_grouped_sum(ptr, idx, val, rows, n, t, mirror, i, j, n);
        lemma_sum_sel(t, rows, mirror, i, j, n);
    }
}

// ---------- positions in the source ----------
// the entries of a compressed matrix in storage order
pub proof fn lemma_groups_at(ptr: Seq<i32>, idx: Seq<i32>, val: Seq<R>, rows: bool, k: int, major: int, minor: int, nval: int)
    requires comp_ok(ptr, idx, nval, major, minor), ptr[0] == 0, 0 <= k <= major
    ensures groups(ptr, idx, val, rows, k).len() == ptr[k],
        forall|p: int| 0 <= p < ptr[k] ==> key(#[trigger] groups(ptr, idx, val, rows, k)[p], !rows) == idx[p] && groups(ptr, idx, val, rows, k)[p].2 == val[p]@,
        forall|p: int| 0 <= p < ptr[k] ==> 0 <= key(#[trigger] groups(ptr, idx, val, rows, k)[p], rows) < k,
    decreases k
{
    if k > 0 {
        lemma_groups_at(ptr, idx, val, rows, k - 1, major, minor, nval);
        let a = groups(ptr, idx, val, rows, k - 1);
        let b = group_part(ptr, idx, val, rows, k - 1, ptr[k] - ptr[k - 1]);
        assert(ptr[k - 1] <= ptr[k]);
        assert forall|p: int| 0 <= p < ptr[k] implies key(#[trigger] (a + b)[p], !rows) == idx[p] && (a + b)[p].2 == val[p]@ && 0 <= key((a + b)[p], rows) < k by {
            if p < a.len() { assert((a + b)[p] == a[p]); } else { assert((a + b)[p] == b[p - a.len()]); }
        }
    }
}
pub proof fn lemma_groups_prefix(ptr: Seq<i32>, idx: Seq<i32>, val: Seq<R>, rows: bool, k: int, major: int, minor: int, nval: int)
    requires comp_ok(ptr, idx, nval, major, minor), ptr[0] == 0, 0 <= k <= major
    ensures groups(ptr, idx, val, rows, k) == groups(ptr, idx, val, rows, major).take(ptr[k] as int)
    decreases major - k
{
    lemma_groups_at(ptr, idx, val, rows, k, major, minor, nval);
    lemma_groups_at(ptr, idx, val, rows, major, major, minor, nval);
    if k == major { assert(groups(ptr, idx, val, rows, k) =~= groups(ptr, idx, val, rows, major).take(ptr[k] as int)); }
    else {
        lemma_groups_prefix(ptr, idx, val, rows, k + 1, major, minor, nval);
        lemma_groups_at(ptr, idx, val, rows, k + 1, major, minor, nval);
        assert(ptr[k] <= ptr[k + 1] && ptr[k + 1] <= ptr[major]);
        let whole = groups(ptr, idx, val, rows, major);
        assert(groups(ptr, idx, val, rows, k) =~= groups(ptr, idx, val, rows, k + 1).take(ptr[k] as int));
        assert(whole.take(ptr[k + 1] as int).take(ptr[k] as int) =~= whole.take(ptr[k] as int));
    }
}
// state of the arrays while the first p entries have been distributed
#[verifier::opaque]
pub open spec fn filled(idx: Seq<i32>, val: Seq<R>, t: Seq<Trip>, p: int, rows: bool, k: int) -> bool {
    let s = sel(t.take(p), rows, k);
    let base = nbefore(t, rows, k);
    forall|q: int| 0 <= q < s.len() ==> key(#[trigger] s[q], !rows) == idx[base + q] && s[q].2 == val[base + q]@
}
pub open spec fn all_filled(idx: Seq<i32>, val: Seq<R>, t: Seq<Trip>, p: int, rows: bool, n: int) -> bool {
    forall|k: int| 0 <= k < n ==> #[trigger] filled(idx, val, t, p, rows, k)
}
// next free position of each group after the first p entries have been distributed
pub open spec fn all_next(ptr: Seq<i32>, t: Seq<Trip>, p: int, rows: bool, n: int) -> bool {
    forall|k: int| 0 <= k < n ==> #[trigger] ptr[k] == nbefore(t, rows, k) + sel(t.take(p), rows, k).len()
}
pub open spec fn in_range(idx: Seq<i32>, n: int, bound: int) -> bool {
    forall|q: int| 0 <= q < n ==> 0 <= #[trigger] idx[q] < bound
}
pub open spec fn counts(ptr: Seq<i32>, t: Seq<Trip>, rows: bool, a: int, b: int) -> bool {
    forall|x: int| a <= x < b ==> #[trigger] ptr[x] == sel(t, rows, x).len()
}
pub open spec fn starts(ptr: Seq<i32>, t: Seq<Trip>, rows: bool, b: int) -> bool {
    forall|x: int| 0 <= x < b ==> #[trigger] ptr[x] == nbefore(t, rows, x)
}
pub open spec fn ends(ptr: Seq<i32>, t: Seq<Trip>, rows: bool, a: int, b: int) -> bool {
    forall|x: int| a <= x < b ==> #[trigger] ptr[x] == nbefore(t, rows, x + 1)
}
pub proof fn lemma_end_grouped(ptr: Seq<i32>, idx: Seq<i32>, val: Seq<R>, t: Seq<Trip>, rows: bool, n: int)
    requires forall|k: int| 0 <= k <= n ==> #[trigger] ptr[k] == nbefore(t, rows, k),
        forall|k: int| 0 <= k < n ==> #[trigger] filled(idx, val, t, t.len() as int, rows, k),
    ensures grouped(ptr, idx, val, rows, n, t)
{
    assert forall|k: int| 0 <= k < n implies #[trigger] group_part(ptr, idx, val, rows, k, ptr[k + 1] - ptr[k]) == sel(t, rows, k) by {
        reveal(filled);
        assert(t.take(t.len() as int) =~= t);
        assert(filled(idx, val, t, t.len() as int, rows, k));
        assert(ptr[k + 1] == nbefore(t, rows, k + 1) && ptr[k] == nbefore(t, rows, k));
        lemma_sel_key(t, rows, k);
        let g = group_part(ptr, idx, val, rows, k, ptr[k + 1] - ptr[k]);
        let s = sel(t, rows, k);
        assert(g.len() == s.len());
        assert forall|q: int| 0 <= q < g.len() implies g[q] == s[q] by { assert(key(s[q], !rows) == idx[nbefore(t, rows, k) + q]); assert(key(s[q], rows) == k); }
        assert(g =~= s);
    }
}

pub proof fn lemma_sel_len(t: Seq<Trip>, rows: bool, k: int)
    ensures sel(t, rows, k).len() <= t.len()
    decreases t.len()
{
    if t.len() > 0 { lemma_sel_len(t.drop_last(), rows, k); }
}
// the entry at a position inside the range of group k belongs to group k
pub proof fn lemma_entry_group(ptr: Seq<i32>, idx: Seq<i32>, val: Seq<R>, rows: bool, k: int, major: int, minor: int, nval: int, p: int)
    requires comp_ok(ptr, idx, nval, major, minor), ptr[0] == 0, 0 <= k < major, ptr[k] <= p < ptr[k + 1]
    ensures key(groups(ptr, idx, val, rows, major)[p], rows) == k
{
    lemma_groups_prefix(ptr, idx, val, rows, k + 1, major, minor, nval);
    lemma_groups_at(ptr, idx, val, rows, k, major, minor, nval);
    lemma_groups_at(ptr, idx, val, rows, k + 1, major, minor, nval);
    let whole = groups(ptr, idx, val, rows, major);
    let a = groups(ptr, idx, val, rows, k);
    let b = group_part(ptr, idx, val, rows, k, ptr[k + 1] - ptr[k]);
    assert(groups(ptr, idx, val, rows, k + 1) =~= a + b);
    assert(whole.take(ptr[k + 1] as int)[p] == whole[p]) by { lemma_groups_at(ptr, idx, val, rows, major, major, minor, nval); assert(ptr[k + 1] <= ptr[major]); }
    assert((a + b)[p] == b[p - a.len()]);
}

} // verus!
