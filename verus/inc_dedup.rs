verus! {
// ---------- how often a position occurs ----------
pub open spec fn at_pos(x: Trip, i: int, j: int) -> nat { if x.0 == i && x.1 == j { 1 } else { 0 } }
pub open spec fn cnt_of(t: Seq<Trip>, i: int, j: int) -> nat
    decreases t.len()
{
    if t.len() == 0 { 0 } else { cnt_of(t.drop_last(), i, j) + at_pos(t.last(), i, j) }
}
// the same position holds the same sum, once
pub open spec fn once(n: nat) -> nat { if n > 0 { 1 } else { 0 } }
pub open spec fn same_at(d: Seq<Trip>, t: Seq<Trip>, i: int, j: int) -> bool {
    cnt_of(d, i, j) == once(cnt_of(t, i, j)) && dense_of(d, false, i, j) == dense_of(t, false, i, j)
}
pub proof fn lemma_push(t: Seq<Trip>, x: Trip)
    ensures forall|i: int, j: int| #[trigger] cnt_of(t.push(x), i, j) == cnt_of(t, i, j) + at_pos(x, i, j),
        forall|i: int, j: int| #[trigger] dense_of(t.push(x), false, i, j) == dense_of(t, false, i, j) + hit(x, false, i, j),
{
    assert(t.push(x).drop_last() =~= t);
    broadcast use lemma_dense_push;
}
pub proof fn lemma_update(t: Seq<Trip>, a: int, v: real)
    requires 0 <= a < t.len()
    ensures
        forall|i: int, j: int| #[trigger] cnt_of(t.update(a, (t[a].0, t[a].1, t[a].2 + v)), i, j) == cnt_of(t, i, j),
        forall|i: int, j: int| #[trigger] dense_of(t.update(a, (t[a].0, t[a].1, t[a].2 + v)), false, i, j) == dense_of(t, false, i, j) + hit((t[a].0, t[a].1, v), false, i, j),
    decreases t.len()
{
    let s = t.drop_last();
    let u = t.update(a, (t[a].0, t[a].1, t[a].2 + v));
    if a == t.len() - 1 {
        assert(u.drop_last() =~= s);
        assert forall|i: int, j: int| #[trigger] cnt_of(u, i, j) == cnt_of(t, i, j) by { }
        assert forall|i: int, j: int| #[trigger] dense_of(u, false, i, j) == dense_of(t, false, i, j) + hit((t[a].0, t[a].1, v), false, i, j) by { }
    } else {
        lemma_update(s, a, v);
        assert(s[a] == t[a]);
        let us = s.update(a, (s[a].0, s[a].1, s[a].2 + v));
        assert(u.drop_last() =~= us);
        assert(u.last() == t.last());
        assert forall|i: int, j: int| #[trigger] cnt_of(u, i, j) == cnt_of(t, i, j) by { assert(cnt_of(us, i, j) == cnt_of(s, i, j)); }
        assert forall|i: int, j: int| #[trigger] dense_of(u, false, i, j) == dense_of(t, false, i, j) + hit((t[a].0, t[a].1, v), false, i, j) by {
            assert(dense_of(us, false, i, j) == dense_of(s, false, i, j) + hit((s[a].0, s[a].1, v), false, i, j));
        }
    }
}
pub proof fn lemma_cnt_concat(a: Seq<Trip>, b: Seq<Trip>, i: int, j: int)
    ensures cnt_of(a + b, i, j) == cnt_of(a, i, j) + cnt_of(b, i, j)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); }
    else { assert((a + b).drop_last() =~= a + b.drop_last()); lemma_cnt_concat(a, b.drop_last(), i, j); }
}
// entries of another group do not count
pub proof fn lemma_other_group(t: Seq<Trip>, rows: bool, k: int, i: int, j: int)
    requires forall|q: int| 0 <= q < t.len() ==> key(#[trigger] t[q], rows) == k, (if rows { i } else { j }) != k
    ensures cnt_of(t, i, j) == 0, dense_of(t, false, i, j) == 0real
    decreases t.len()
{
    if t.len() > 0 {
        let s = t.drop_last();
        assert(t[t.len() - 1] == t.last());
        assert forall|q: int| 0 <= q < s.len() implies key(#[trigger] s[q], rows) == k by { assert(s[q] == t[q]); }
        lemma_other_group(s, rows, k, i, j);
    }
}
// the entries of the group determine the positions of the group
pub proof fn lemma_sel_same(t: Seq<Trip>, rows: bool, i: int, j: int)
    ensures cnt_of(sel(t, rows, if rows { i } else { j }), i, j) == cnt_of(t, i, j),
        dense_of(sel(t, rows, if rows { i } else { j }), false, i, j) == dense_of(t, false, i, j),
    decreases t.len()
{
    if t.len() > 0 {
        lemma_sel_same(t.drop_last(), rows, i, j);
        lemma_push(sel(t.drop_last(), rows, if rows { i } else { j }), t.last());
    }
}
pub proof fn lemma_cnt_zero(t: Seq<Trip>, i: int, j: int)
    requires forall|q: int| 0 <= q < t.len() ==> !((#[trigger] t[q]).0 == i && t[q].1 == j)
    ensures cnt_of(t, i, j) == 0
    decreases t.len()
{
    if t.len() > 0 {
        let s = t.drop_last();
        assert(t[t.len() - 1] == t.last());
        assert forall|q: int| 0 <= q < s.len() implies !((#[trigger] s[q]).0 == i && s[q].1 == j) by { assert(s[q] == t[q]); }
        lemma_cnt_zero(s, i, j);
    }
}
pub proof fn lemma_cnt_pos(t: Seq<Trip>, a: int)
    requires 0 <= a < t.len()
    ensures cnt_of(t, t[a].0, t[a].1) >= 1
    decreases t.len()
{
    if a < t.len() - 1 { assert(t.drop_last()[a] == t[a]); lemma_cnt_pos(t.drop_last(), a); }
}
pub proof fn lemma_cnt_two(t: Seq<Trip>, a: int, b: int)
    requires 0 <= a < b < t.len(), t[a].0 == t[b].0, t[a].1 == t[b].1
    ensures cnt_of(t, t[a].0, t[a].1) >= 2
    decreases t.len()
{
    if b < t.len() - 1 { assert(t.drop_last()[a] == t[a]); assert(t.drop_last()[b] == t[b]); lemma_cnt_two(t.drop_last(), a, b); }
    else { assert(t.drop_last()[a] == t[a]); lemma_cnt_pos(t.drop_last(), a); }
}
// rows in ascending order stay in ascending order
pub open spec fn asc(t: Seq<Trip>, rows: bool) -> bool { forall|a: int, b: int| 0 <= a <= b < t.len() ==> key(#[trigger] t[a], rows) <= key(#[trigger] t[b], rows) }
pub proof fn lemma_sel_asc(t: Seq<Trip>, rows: bool, other: bool, k: int)
    requires asc(t, other)
    ensures asc(sel(t, rows, k), other), t.len() > 0 ==> forall|a: int| 0 <= a < sel(t, rows, k).len() ==> key(#[trigger] sel(t, rows, k)[a], other) <= key(t.last(), other)
    decreases t.len()
{
    if t.len() > 0 {
        let s = t.drop_last();
        assert forall|a: int, b: int| 0 <= a <= b < s.len() implies key(#[trigger] s[a], other) <= key(#[trigger] s[b], other) by { assert(s[a] == t[a] && s[b] == t[b]); }
        lemma_sel_asc(s, rows, other, k);
        let x = sel(s, rows, k);
        let y = sel(t, rows, k);
        if s.len() > 0 { assert(s.last() == t[t.len() - 2]); assert(key(t[t.len() - 2], other) <= key(t[t.len() - 1], other)); }
        assert forall|a: int| 0 <= a < y.len() implies key(#[trigger] y[a], other) <= key(t.last(), other) by {
            if a < x.len() { assert(y[a] == x[a]); }
        }
        assert forall|a: int, b: int| 0 <= a <= b < y.len() implies key(#[trigger] y[a], other) <= key(#[trigger] y[b], other) by {
            if b < x.len() { assert(y[a] == x[a] && y[b] == x[b]); }
        }
    }
}
// ---------- the row form after summing duplicates ----------
// entries of row i stored at the positions p1..p2
pub open spec fn piece(idx: Seq<i32>, val: Seq<R>, i: int, p1: int, p2: int) -> Seq<Trip> {
    Seq::new((p2 - p1) as nat, |a: int| (i, idx[p1 + a] as int, val[p1 + a]@))
}
pub open spec fn rowform(rp: Seq<i32>, rc: Seq<usize>, idx: Seq<i32>, val: Seq<R>, k: int) -> Seq<Trip>
    decreases k
{
    if k <= 0 { Seq::empty() } else { rowform(rp, rc, idx, val, k - 1) + piece(idx, val, k - 1, rp[k - 1] as int, rp[k - 1] + rc[k - 1]) }
}
pub proof fn lemma_rowform_rows(rp: Seq<i32>, rc: Seq<usize>, idx: Seq<i32>, val: Seq<R>, k: int)
    ensures asc(rowform(rp, rc, idx, val, k), true),
        forall|q: int| 0 <= q < rowform(rp, rc, idx, val, k).len() ==> 0 <= key(#[trigger] rowform(rp, rc, idx, val, k)[q], true) < k,
    decreases k
{
    if k > 0 {
        lemma_rowform_rows(rp, rc, idx, val, k - 1);
        let a = rowform(rp, rc, idx, val, k - 1);
        let b = piece(idx, val, k - 1, rp[k - 1] as int, rp[k - 1] + rc[k - 1]);
        assert forall|q: int| 0 <= q < (a + b).len() implies 0 <= key(#[trigger] (a + b)[q], true) < k by {
            if q < a.len() { assert((a + b)[q] == a[q]); } else { assert((a + b)[q] == b[q - a.len()]); }
        }
        assert forall|x: int, y: int| 0 <= x <= y < (a + b).len() implies key(#[trigger] (a + b)[x], true) <= key(#[trigger] (a + b)[y], true) by {
            if y < a.len() { assert((a + b)[x] == a[x] && (a + b)[y] == a[y]); } else {
                assert((a + b)[y] == b[y - a.len()]);
                if x < a.len() { assert((a + b)[x] == a[x]); } else { assert((a + b)[x] == b[x - a.len()]); }
            }
        }
    }
}
// the row form holds each position of the source once, with the sum
pub proof fn lemma_rowform_same(rp: Seq<i32>, rc: Seq<usize>, idx: Seq<i32>, val: Seq<R>, k: int, t: Seq<Trip>, i: int, j: int)
    requires forall|x: int| 0 <= x < k ==> #[trigger] row_done(rp, rc, idx, val, t, x)
    ensures 0 <= i < k ==> same_at(rowform(rp, rc, idx, val, k), t, i, j),
        !(0 <= i < k) ==> cnt_of(rowform(rp, rc, idx, val, k), i, j) == 0 && dense_of(rowform(rp, rc, idx, val, k), false, i, j) == 0real
    decreases k
{
    if k > 0 {
        lemma_rowform_same(rp, rc, idx, val, k - 1, t, i, j);
        let a = rowform(rp, rc, idx, val, k - 1);
        let b = piece(idx, val, k - 1, rp[k - 1] as int, rp[k - 1] + rc[k - 1]);
        lemma_cnt_concat(a, b, i, j);
        lemma_dense_concat(a, b, false, i, j);
        assert(row_done(rp, rc, idx, val, t, k - 1));
        if i == k - 1 { assert(same_at(b, t, i, j)); } else { lemma_other_group(b, true, k - 1, i, j); }
    }
}
pub open spec fn row_done(rp: Seq<i32>, rc: Seq<usize>, idx: Seq<i32>, val: Seq<R>, t: Seq<Trip>, i: int) -> bool {
    &&& rp[i] + rc[i] <= rp[i + 1]
    &&& forall|j: int| #[trigger] same_at(piece(idx, val, i, rp[i] as int, rp[i] + rc[i]), t, i, j)
}
pub open spec fn rows_done(rp: Seq<i32>, rc: Seq<usize>, idx: Seq<i32>, val: Seq<R>, t: Seq<Trip>, n: int) -> bool {
    forall|x: int| 0 <= x < n ==> #[trigger] row_done(rp, rc, idx, val, t, x)
}
// where a column of the current row is stored
pub open spec fn where_ok(w: Seq<i32>, idx: Seq<i32>, val: Seq<R>, i: int, p1: int, dest: int, ncol: int) -> bool {
    forall|j: int| 0 <= j < ncol ==> {
        &&& #[trigger] w[j] < dest
        &&& w[j] >= p1 ==> idx[w[j] as int] == j
        &&& w[j] < p1 ==> cnt_of(piece(idx, val, i, p1, dest), i, j) == 0
    }
}
pub open spec fn piece_same(idx: Seq<i32>, val: Seq<R>, i: int, p1: int, dest: int, s: Seq<Trip>) -> bool {
    forall|j: int| #[trigger] same_at(piece(idx, val, i, p1, dest), s, i, j)
}
// the rows from i on still hold the sorted triplets, from position p on
pub open spec fn rest(idx: Seq<i32>, val: Seq<R>, t: Seq<Trip>, n: int, i: int, p: int) -> bool {
    forall|k: int| i <= k < n ==> #[trigger] rest_row(idx, val, t, k, p)
}
#[verifier::opaque]
pub open spec fn rest_row(idx: Seq<i32>, val: Seq<R>, t: Seq<Trip>, k: int, p: int) -> bool {
    let s = sel(t, true, k);
    let base = nbefore(t, true, k);
    forall|q: int| 0 <= q < s.len() && p <= base + q ==> (#[trigger] s[q]).1 == idx[base + q] && s[q].2 == val[base + q]@
}
pub proof fn lemma_rest_start(idx: Seq<i32>, val: Seq<R>, t: Seq<Trip>, n: int)
    requires all_filled(idx, val, t, t.len() as int, true, n)
    ensures rest(idx, val, t, n, 0, 0)
{
    assert forall|k: int| 0 <= k < n implies #[trigger] rest_row(idx, val, t, k, 0) by {
        assert(filled(idx, val, t, t.len() as int, true, k));
        assert(t.take(t.len() as int) =~= t);
        reveal(filled); reveal(rest_row);
    }
}
// writes before p do not matter
pub proof fn lemma_rest_frame(idx: Seq<i32>, val: Seq<R>, idx2: Seq<i32>, val2: Seq<R>, t: Seq<Trip>, n: int, i: int, p: int, p2: int)
    requires rest(idx, val, t, n, i, p), p <= p2, i >= 0,
        forall|q: int| p2 <= q < idx.len() ==> idx2[q] == #[trigger] idx[q],
        forall|q: int| p2 <= q < idx.len() ==> val2[q] == #[trigger] val[q],
        idx.len() == t.len(), nbefore(t, true, n) == t.len(),
    ensures rest(idx2, val2, t, n, i, p2)
{
    assert forall|k: int| i <= k < n implies #[trigger] rest_row(idx2, val2, t, k, p2) by {
        assert(rest_row(idx, val, t, k, p));
        reveal(rest_row);
        let s = sel(t, true, k);
        let base = nbefore(t, true, k);
        lemma_nbefore_nonneg(t, true, k);
        lemma_nbefore_mono(t, true, k + 1, n);
        assert forall|q: int| 0 <= q < s.len() && p2 <= base + q implies (#[trigger] s[q]).1 == idx2[base + q] && s[q].2 == val2[base + q]@ by {
            assert(idx2[base + q] == idx[base + q]);
            assert(val2[base + q] == val[base + q]);
        }
    }
}
// finished rows are not touched by writes behind them
pub proof fn lemma_done_frame(rp: Seq<i32>, rc: Seq<usize>, rc2: Seq<usize>, idx: Seq<i32>, val: Seq<R>, idx2: Seq<i32>, val2: Seq<R>, t: Seq<Trip>, n: int, p1: int)
    requires rows_done(rp, rc, idx, val, t, n),
        forall|x: int| 0 <= x < n ==> #[trigger] rc[x] == rc2[x],
        forall|x: int| 0 <= x <= n ==> 0 <= #[trigger] rp[x] <= p1,
        forall|q: int| 0 <= q < p1 ==> idx2[q] == #[trigger] idx[q],
        forall|q: int| 0 <= q < p1 ==> val2[q] == #[trigger] val[q],
    ensures rows_done(rp, rc2, idx2, val2, t, n)
{
    assert forall|x: int| 0 <= x < n implies #[trigger] row_done(rp, rc2, idx2, val2, t, x) by {
        assert(row_done(rp, rc, idx, val, t, x));
        assert(rp[x + 1] <= p1);
        let a = piece(idx, val, x, rp[x] as int, rp[x] + rc[x]);
        let b = piece(idx2, val2, x, rp[x] as int, rp[x] + rc2[x]);
        assert(rc[x] == rc2[x]);
        assert(rp[x] >= 0);
        assert forall|q: int| 0 <= q < a.len() implies a[q] == b[q] by {
            assert(idx2[rp[x] + q] == idx[rp[x] + q]);
            assert(val2[rp[x] + q] == val[rp[x] + q]);
        }
        assert(a =~= b);
        assert forall|j: int| #[trigger] same_at(b, t, x, j) by { assert(same_at(a, t, x, j)); }
    }
}
// one step of the summation: the entry (i,j,x) is the next one of the row
pub proof fn lemma_same_step(d: Seq<Trip>, s: Seq<Trip>, i: int, e: Trip)
    requires forall|j: int| #[trigger] same_at(d, s, i, j), e.0 == i
    ensures
        cnt_of(d, i, e.1) == 0 ==> forall|j: int| #[trigger] same_at(d.push(e), s.push(e), i, j),
        forall|a: int| 0 <= a < d.len() && (#[trigger] d[a]).0 == i && d[a].1 == e.1 ==> forall|j: int| #[trigger] same_at(d.update(a, (d[a].0, d[a].1, d[a].2 + e.2)), s.push(e), i, j),
{
    lemma_push(d, e);
    lemma_push(s, e);
    if cnt_of(d, i, e.1) == 0 {
        assert forall|j: int| #[trigger] same_at(d.push(e), s.push(e), i, j) by { assert(same_at(d, s, i, j)); }
    }
    assert forall|a: int| 0 <= a < d.len() && (#[trigger] d[a]).0 == i && d[a].1 == e.1 implies forall|j: int| #[trigger] same_at(d.update(a, (d[a].0, d[a].1, d[a].2 + e.2)), s.push(e), i, j) by {
        lemma_update(d, a, e.2);
        lemma_cnt_pos(d, a);
        assert forall|j: int| #[trigger] same_at(d.update(a, (d[a].0, d[a].1, d[a].2 + e.2)), s.push(e), i, j) by { assert(same_at(d, s, i, j)); }
    }
}
} // verus!
