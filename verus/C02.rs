//@include inc_csx.rs
//@include inc_csxdense.rs
//@include inc_sel.rs
//@include inc_dedup.rs
verus! {

// one group of the result: each position of the source once, with the sum, strictly increasing
pub open spec fn group_ok(ptr: Seq<i32>, idx: Seq<i32>, val: Seq<R>, rows: bool, k: int, t: Seq<Trip>) -> bool {
    let g = group_part(ptr, idx, val, rows, k, ptr[k + 1] - ptr[k]);
    &&& ptr[k] <= ptr[k + 1]
    &&& forall|p: int, q: int| ptr[k] <= p < q < ptr[k + 1] ==> #[trigger] idx[p] < #[trigger] idx[q]
    &&& rows ==> forall|l: int| #[trigger] same_at(g, t, k, l)
    &&& !rows ==> forall|l: int| #[trigger] same_at(g, t, l, k)
}
pub open spec fn result_ok(ptr: Seq<i32>, idx: Seq<i32>, val: Seq<R>, rows: bool, major: int, minor: int, t: Seq<Trip>) -> bool {
    &&& comp_ok(ptr, idx, val.len() as int, major, minor)
    &&& ptr[0] == 0
    &&& forall|k: int| 0 <= k < major ==> #[trigger] group_ok(ptr, idx, val, rows, k, t)
}
proof fn lemma_coo_keys(c: &NumCooMatrix)
    requires c.wf()
    ensures keys_ok(c.trips(c.nnz as int), true, c.nrow as int), keys_ok(c.trips(c.nnz as int), false, c.ncol as int)
{
    let t = c.trips(c.nnz as int);
    assert forall|q: int| 0 <= q < t.len() implies 0 <= key(#[trigger] t[q], true) < c.nrow by { assert(c.entry_ok(q)); }
    assert forall|q: int| 0 <= q < t.len() implies 0 <= key(#[trigger] t[q], false) < c.ncol by { assert(c.entry_ok(q)); }
}
// the stored columns are in range
pub open spec fn cols_ok(idx: Seq<i32>, n: int) -> bool { forall|q: int| 0 <= q < idx.len() ==> 0 <= #[trigger] idx[q] < n }
pub open spec fn w_upto(w: Seq<i32>, n: int, bound: int) -> bool { forall|j: int| 0 <= j < n ==> #[trigger] w[j] < bound }
pub open spec fn w_is(w: Seq<i32>, n: int, v: int) -> bool { forall|j: int| 0 <= j < n ==> #[trigger] w[j] == v }
pub open spec fn rp_range(rp: Seq<i32>, n: int, bound: int) -> bool { forall|x: int| 0 <= x <= n ==> 0 <= #[trigger] rp[x] <= bound }

proof fn lemma_starts_range(rp: Seq<i32>, t: Seq<Trip>, i: int)
    requires starts(rp, t, true, i + 1), i >= 0
    ensures rp_range(rp, i, rp[i] as int)
{
    assert(rp[i] == nbefore(t, true, i));
    assert forall|x: int| 0 <= x <= i implies 0 <= #[trigger] rp[x] <= rp[i] by { lemma_nbefore_mono(t, true, x, i); }
}
// distributing one entry
proof fn lemma_fill_step(idx0: Seq<i32>, val0: Seq<R>, idx: Seq<i32>, val: Seq<R>, t: Seq<Trip>, p: int, rows: bool, n: int, e: Trip)
    requires
        0 <= p < t.len(), t[p] == e, 0 <= key(e, rows) < n, keys_ok(t, rows, n),
        all_filled(idx0, val0, t, p, rows, n), idx0.len() == t.len(), val0.len() == t.len(),
        idx == idx0.update(nbefore(t, rows, key(e, rows)) + sel(t.take(p), rows, key(e, rows)).len(), key(e, !rows) as i32),
        i32::MIN <= key(e, !rows) <= i32::MAX,
        val == val0.update(nbefore(t, rows, key(e, rows)) + sel(t.take(p), rows, key(e, rows)).len(), r(e.2)),
    ensures
        all_filled(idx, val, t, p + 1, rows, n),
        0 <= nbefore(t, rows, key(e, rows)) + sel(t.take(p), rows, key(e, rows)).len() < t.len(),
{
    let k0 = key(e, rows);
    lemma_sel_prefix(t, rows, p, k0);
    lemma_nbefore_mono(t, rows, k0 + 1, n);
    lemma_nbefore_nonneg(t, rows, k0);
    lemma_nbefore_all(t, rows, n);
    assert(t.take(p + 1) =~= t.take(p).push(t[p]));
    lemma_sel_push(t.take(p), t[p], rows);
    let d = nbefore(t, rows, k0) + sel(t.take(p), rows, k0).len();
    assert forall|x: int| 0 <= x < n implies #[trigger] filled(idx, val, t, p + 1, rows, x) by {
        reveal(filled);
        assert(filled(idx0, val0, t, p, rows, x));
        let s = sel(t.take(p + 1), rows, x);
        let s0 = sel(t.take(p), rows, x);
        let base = nbefore(t, rows, x);
        lemma_sel_prefix(t, rows, p, x);
        lemma_nbefore_nonneg(t, rows, x);
        lemma_nbefore_mono(t, rows, x + 1, n);
        if x < k0 { lemma_nbefore_mono(t, rows, x + 1, k0); }
        if x > k0 { lemma_nbefore_mono(t, rows, k0 + 1, x); }
        assert forall|q: int| 0 <= q < s.len() implies key(#[trigger] s[q], !rows) == idx[base + q] && s[q].2 == val[base + q]@ by {
            if q < s0.len() { assert(s[q] == s0[q]); assert(base + q != d); }
        }
    }
}
proof fn lemma_slot(t: Seq<Trip>, p: int, rows: bool, n: int)
    requires 0 <= p < t.len(), keys_ok(t, rows, n)
    ensures ({ let k0 = key(t[p], rows); 0 <= nbefore(t, rows, k0) + sel(t.take(p), rows, k0).len() < t.len() && 0 <= k0 < n })
{
    let k0 = key(t[p], rows);
    lemma_sel_prefix(t, rows, p, k0);
    lemma_nbefore_mono(t, rows, k0 + 1, n);
    lemma_nbefore_nonneg(t, rows, k0);
    lemma_nbefore_all(t, rows, n);
}
proof fn lemma_filled_start(idx: Seq<i32>, val: Seq<R>, t: Seq<Trip>, rows: bool, n: int)
    ensures all_filled(idx, val, t, 0, rows, n)
{
    assert(t.take(0) =~= Seq::<Trip>::empty());
    assert forall|x: int| 0 <= x < n implies #[trigger] filled(idx, val, t, 0, rows, x) by { reveal(filled); }
}
// positions inside the row form
pub open spec fn upto2(rp: Seq<i32>, rc: Seq<usize>, idx: Seq<i32>, val: Seq<R>, i: int, p: int) -> Seq<Trip> {
    rowform(rp, rc, idx, val, i) + piece(idx, val, i, rp[i] as int, p)
}
proof fn lemma_upto2(rp: Seq<i32>, rc: Seq<usize>, idx: Seq<i32>, val: Seq<R>, i: int, p: int)
    requires i >= 0
    ensures
        upto2(rp, rc, idx, val, i, rp[i] as int) == rowform(rp, rc, idx, val, i),
        p >= rp[i] ==> upto2(rp, rc, idx, val, i, p + 1) == upto2(rp, rc, idx, val, i, p).push((i, idx[p] as int, val[p]@)),
        upto2(rp, rc, idx, val, i, rp[i] + rc[i]) == rowform(rp, rc, idx, val, i + 1),
{
    assert(upto2(rp, rc, idx, val, i, rp[i] as int) =~= rowform(rp, rc, idx, val, i));
    if p >= rp[i] { assert(upto2(rp, rc, idx, val, i, p + 1) =~= upto2(rp, rc, idx, val, i, p).push((i, idx[p] as int, val[p]@))); }
}
// the row form up to (i,p) is a prefix of the whole row form
proof fn lemma_upto2_prefix(rp: Seq<i32>, rc: Seq<usize>, idx: Seq<i32>, val: Seq<R>, i: int, p: int, n: int)
    requires 0 <= i < n, rp[i] <= p <= rp[i] + rc[i]
    ensures ({
        let u = rowform(rp, rc, idx, val, n);
        let a = upto2(rp, rc, idx, val, i, p);
        &&& a.len() <= u.len()
        &&& u.take(a.len() as int) == a
        &&& p < rp[i] + rc[i] ==> a.len() < u.len() && u[a.len() as int] == (i, idx[p] as int, val[p]@)
    })
    decreases n - i
{
    let u = rowform(rp, rc, idx, val, n);
    let a = upto2(rp, rc, idx, val, i, p);
    let full = upto2(rp, rc, idx, val, i, rp[i] + rc[i]);
    lemma_upto2(rp, rc, idx, val, i, p);
    assert(full.take(a.len() as int) =~= a);
    if i + 1 < n {
        lemma_upto2(rp, rc, idx, val, i + 1, p);
        lemma_upto2_prefix(rp, rc, idx, val, i + 1, rp[i + 1] as int, n);
        assert(u.take(full.len() as int) == full);
        assert(u.take(full.len() as int).take(a.len() as int) =~= u.take(a.len() as int));
    } else {
        assert(u == full);
    }
    if p < rp[i] + rc[i] {
        assert(full[a.len() as int] == (i, idx[p] as int, val[p]@));
        assert(u.take(full.len() as int)[a.len() as int] == u[a.len() as int]);
    }
}
// from the grouped arrays of the row form to the result
proof fn lemma_result(ptr: Seq<i32>, idx: Seq<i32>, val: Seq<R>, u: Seq<Trip>, t: Seq<Trip>, nrow: int, ncol: int)
    requires
        grouped(ptr, idx, val, false, ncol, u), starts(ptr, u, false, ncol + 1), ptr.len() == ncol + 1, keys_ok(u, false, ncol), keys_ok(t, true, nrow),
        asc(u, true), forall|q: int| 0 <= q < u.len() ==> 0 <= key(#[trigger] u[q], true) < nrow,
        forall|i: int, j: int| 0 <= i < nrow ==> #[trigger] same_at(u, t, i, j),
        u.len() <= idx.len(), u.len() <= val.len(), ncol >= 0,
    ensures result_ok(ptr, idx, val, false, ncol, nrow, t)
{
    lemma_nbefore_all(u, false, ncol);
    assert(ptr[0] == nbefore(u, false, 0));
    assert(ptr[ncol] == nbefore(u, false, ncol));
    assert forall|a: int, b: int| 0 <= a <= b <= ncol implies #[trigger] ptr[a] <= #[trigger] ptr[b] by { lemma_nbefore_mono(u, false, a, b); }
    assert forall|k: int| 0 <= k < ncol implies #[trigger] group_ok(ptr, idx, val, false, k, t) by {
        let g = group_part(ptr, idx, val, false, k, ptr[k + 1] - ptr[k]);
        assert(g == sel(u, false, k));
        assert(ptr[k] <= ptr[k + 1]);
        lemma_sel_asc(u, false, true, k);
        lemma_sel_key(u, false, k);
        assert forall|l: int| #[trigger] same_at(g, t, l, k) by {
            lemma_sel_same(u, false, l, k);
            if 0 <= l < nrow { assert(same_at(u, t, l, k)); } else { lemma_no_row(u, nrow, l, k); lemma_no_row(t, nrow, l, k); }
        }
        assert forall|p: int, q: int| ptr[k] <= p < q < ptr[k + 1] implies #[trigger] idx[p] < #[trigger] idx[q] by {
            let (a, b) = (p - ptr[k], q - ptr[k]);
            assert(key(g[a], true) <= key(g[b], true));
            if g[a].0 == g[b].0 { lemma_cnt_two(g, a, b); assert(same_at(g, t, g[a].0, k)); }
        }
    }
    assert forall|p: int| ptr[0] <= p < ptr[ncol] implies 0 <= #[trigger] idx[p] < nrow by {
        lemma_grouped_range(ptr, idx, val, u, nrow, ncol, ncol, p);
    }
}
proof fn lemma_grouped_range(ptr: Seq<i32>, idx: Seq<i32>, val: Seq<R>, u: Seq<Trip>, nrow: int, ncol: int, k: int, p: int)
    requires grouped(ptr, idx, val, false, ncol, u), starts(ptr, u, false, ncol + 1), 0 <= k <= ncol, 0 <= p < ptr[k], ptr[0] == 0,
        forall|q: int| 0 <= q < u.len() ==> 0 <= key(#[trigger] u[q], true) < nrow,
    ensures 0 <= idx[p] < nrow
    decreases k
{
    if k > 0 {
        if p < ptr[k - 1] { lemma_grouped_range(ptr, idx, val, u, nrow, ncol, k - 1, p); }
        else {
            let g = group_part(ptr, idx, val, false, k - 1, ptr[k - 1 + 1] - ptr[k - 1]);
            assert(g == sel(u, false, k - 1));
            lemma_sel_rows(u, false, k - 1, nrow);
            assert(g[p - ptr[k - 1]].0 == idx[p]);
        }
    }
}
proof fn lemma_sel_rows(u: Seq<Trip>, rows: bool, k: int, nrow: int)
    requires forall|q: int| 0 <= q < u.len() ==> 0 <= key(#[trigger] u[q], true) < nrow
    ensures forall|q: int| 0 <= q < sel(u, rows, k).len() ==> 0 <= (#[trigger] sel(u, rows, k)[q]).0 < nrow
    decreases u.len()
{
    if u.len() > 0 {
        let s = u.drop_last();
        assert forall|q: int| 0 <= q < s.len() implies 0 <= key(#[trigger] s[q], true) < nrow by { assert(s[q] == u[q]); }
        lemma_sel_rows(s, rows, k, nrow);
        assert(0 <= key(u[u.len() - 1], true) < nrow);
        assert forall|q: int| 0 <= q < sel(u, rows, k).len() implies 0 <= (#[trigger] sel(u, rows, k)[q]).0 < nrow by {
            if q < sel(s, rows, k).len() { assert(sel(u, rows, k)[q] == sel(s, rows, k)[q]); }
        }
    }
}
proof fn lemma_no_row(t: Seq<Trip>, nrow: int, i: int, j: int)
    requires forall|q: int| 0 <= q < t.len() ==> 0 <= key(#[trigger] t[q], true) < nrow, !(0 <= i < nrow)
    ensures cnt_of(t, i, j) == 0, dense_of(t, false, i, j) == 0real
    decreases t.len()
{
    if t.len() > 0 {
        let s = t.drop_last();
        assert(0 <= key(t[t.len() - 1], true) < nrow);
        assert forall|q: int| 0 <= q < s.len() implies 0 <= key(#[trigger] s[q], true) < nrow by { assert(s[q] == t[q]); }
        lemma_no_row(s, nrow, i, j);
    }
}
// end of the summation of one row
proof fn lemma_row_end(rp: Seq<i32>, rc: Seq<usize>, idx: Seq<i32>, val: Seq<R>, t: Seq<Trip>, i: int, dest: int)
    requires starts(rp, t, true, i + 2), i >= 0, rp[i] <= dest <= rp[i + 1], rc[i] == dest - rp[i],
        piece_same(idx, val, i, rp[i] as int, dest, sel(t, true, i).take(rp[i + 1] - rp[i])),
    ensures row_done(rp, rc, idx, val, t, i)
{
    assert(rp[i + 1] == nbefore(t, true, i + 1) && rp[i] == nbefore(t, true, i));
    assert(sel(t, true, i).take(rp[i + 1] - rp[i]) =~= sel(t, true, i));
    assert forall|j: int| #[trigger] same_at(piece(idx, val, i, rp[i] as int, rp[i] + rc[i]), t, i, j) by {
        assert(same_at(piece(idx, val, i, rp[i] as int, dest), sel(t, true, i).take(rp[i + 1] - rp[i]), i, j));
        lemma_sel_same(t, true, i, j);
    }
}
// one step of the summation inside a row, on the arrays
proof fn lemma_sum_step(rp: Seq<i32>, w0: Seq<i32>, idx0: Seq<i32>, val0: Seq<R>, w: Seq<i32>, idx: Seq<i32>, val: Seq<R>, t: Seq<Trip>, i: int, p1: int, p: int, dest0: int, dest: int, ncol: int, n: int)
    requires
        starts(rp, t, true, i + 2), 0 <= i < n, p1 == rp[i], p1 <= dest0 <= p < rp[i + 1], rp[i + 1] <= idx0.len(), idx0.len() == t.len(), val0.len() == t.len(), keys_ok(t, true, n), keys_ok(t, false, ncol),
        rest(idx0, val0, t, n, i, p), nbefore(t, true, n) == t.len(),
        piece_same(idx0, val0, i, p1, dest0, sel(t, true, i).take(p - p1)),
        where_ok(w0, idx0, val0, i, p1, dest0, ncol), 0 <= idx0[p] < ncol, w0.len() >= ncol, p <= i32::MAX,
        ({
            let j = idx0[p] as int;
            if w0[j] >= p1 {
                &&& w == w0 && idx == idx0 && dest == dest0
                &&& val == val0.update(w0[j] as int, r(val0[w0[j] as int]@ + val0[p]@))
            } else {
                &&& w == w0.update(j, dest0 as i32) && dest == dest0 + 1
                &&& idx == idx0.update(dest0, j as i32)
                &&& val == val0.update(dest0, val0[p])
            }
        }),
    ensures
        piece_same(idx, val, i, p1, dest, sel(t, true, i).take(p + 1 - p1)),
        where_ok(w, idx, val, i, p1, dest, ncol),
        rest(idx, val, t, n, i, p + 1),
        dest <= p + 1,
{
    let j = idx0[p] as int;
    let s = sel(t, true, i);
    let k = p - p1;
    assert(rp[i] == nbefore(t, true, i) && rp[i + 1] == nbefore(t, true, i + 1));
    lemma_nbefore_nonneg(t, true, i);
    assert(rest_row(idx0, val0, t, i, p)) ;
    assert(s[k].1 == j && s[k].2 == val0[p]@) by { reveal(rest_row); assert(s[k].1 == idx0[p1 + k]); }
    lemma_sel_key(t, true, i);
    assert(key(s[k], true) == i);
    let d = piece(idx0, val0, i, p1, dest0);
    let e = (i, j, val0[p]@);
    assert(s[k] == e);
    assert(s.take(k + 1) =~= s.take(k).push(e));
    assert forall|l: int| #[trigger] same_at(d, s.take(k), i, l) by { }
    lemma_same_step(d, s.take(k), i, e);
    let d2 = piece(idx, val, i, p1, dest);
    if w0[j] >= p1 {
        let a = w0[j] - p1;
        assert(w0[j] < dest0 && idx0[w0[j] as int] == j);
        assert(d[a].0 == i && d[a].1 == j);
        assert(d2 =~= d.update(a, (d[a].0, d[a].1, d[a].2 + e.2)));
        lemma_update(d, a, e.2);
    } else {
        assert(cnt_of(d, i, j) == 0);
        assert(d2 =~= d.push(e));
        lemma_push(d, e);
    }
    assert forall|l: int| #[trigger] same_at(d2, s.take(k + 1), i, l) by { }
    assert forall|l: int| 0 <= l < ncol implies #[trigger] w[l] < dest && (w[l] >= p1 ==> idx[w[l] as int] == l) && (w[l] < p1 ==> cnt_of(d2, i, l) == 0) by {
        assert(w0[l] < dest0);
    }
    lemma_rest_frame(idx0, val0, idx, val, t, n, i, p, p + 1);
}

impl NumCscMatrix {
    // sizes of the arrays and of the workspace, kept by every update
    pub open spec fn buffers(&self) -> bool {
        &&& self.col_pointers.len() == self.ncol + 1
        &&& self.row_indices.len() == self.values.len()
        &&& (self.temp_w.len() != 0 ==> {
            &&& self.temp_rp.len() == self.nrow + 1
            &&& self.temp_rj.len() == self.values.len()
            &&& self.temp_rx.len() == self.values.len()
            &&& self.temp_rc.len() == self.nrow
            &&& self.temp_w.len() == (if self.nrow < self.ncol { self.ncol } else { self.nrow })
        })
    }
}
// arrays longer than the number of entries
pub open spec fn all_filled2(idx: Seq<i32>, val: Seq<R>, t: Seq<Trip>, p: int, rows: bool, n: int) -> bool { all_filled(idx, val, t, p, rows, n) }
proof fn lemma_fill_step2(idx0: Seq<i32>, val0: Seq<R>, idx: Seq<i32>, val: Seq<R>, t: Seq<Trip>, p: int, rows: bool, n: int, e: Trip)
    requires
        0 <= p < t.len(), t[p] == e, 0 <= key(e, rows) < n, keys_ok(t, rows, n),
        all_filled(idx0, val0, t, p, rows, n), idx0.len() >= t.len(), val0.len() >= t.len(),
        idx == idx0.update(nbefore(t, rows, key(e, rows)) + sel(t.take(p), rows, key(e, rows)).len(), key(e, !rows) as i32),
        i32::MIN <= key(e, !rows) <= i32::MAX,
        val == val0.update(nbefore(t, rows, key(e, rows)) + sel(t.take(p), rows, key(e, rows)).len(), r(e.2)),
    ensures
        all_filled(idx, val, t, p + 1, rows, n),
{
    let (a, b) = (idx0.take(t.len() as int), val0.take(t.len() as int));
    assert forall|x: int| 0 <= x < n implies #[trigger] filled(a, b, t, p, rows, x) by { lemma_filled_take(idx0, val0, a, b, t, p, rows, n, x); }
    lemma_slot(t, p, rows, n);
    let d = nbefore(t, rows, key(e, rows)) + sel(t.take(p), rows, key(e, rows)).len();
    let (a2, b2) = (a.update(d, key(e, !rows) as i32), b.update(d, r(e.2)));
    lemma_fill_step(a, b, a2, b2, t, p, rows, n, e);
    assert(a2 =~= idx.take(t.len() as int));
    assert(b2 =~= val.take(t.len() as int));
    assert forall|x: int| 0 <= x < n implies #[trigger] filled(idx, val, t, p + 1, rows, x) by { assert(filled(a2, b2, t, p + 1, rows, x)); lemma_filled_take(idx, val, a2, b2, t, p + 1, rows, n, x); }
}
proof fn lemma_filled_take(idx: Seq<i32>, val: Seq<R>, a: Seq<i32>, b: Seq<R>, t: Seq<Trip>, p: int, rows: bool, n: int, x: int)
    requires a == idx.take(t.len() as int), b == val.take(t.len() as int), idx.len() >= t.len(), val.len() >= t.len(), keys_ok(t, rows, n), 0 <= x < n, 0 <= p <= t.len()
    ensures filled(idx, val, t, p, rows, x) == filled(a, b, t, p, rows, x)
{
    reveal(filled);
    lemma_sel_prefix(t, rows, p, x);
    lemma_nbefore_mono(t, rows, x + 1, n);
    lemma_nbefore_nonneg(t, rows, x);
    lemma_nbefore_all(t, rows, n);
    let s = sel(t.take(p), rows, x);
    let base = nbefore(t, rows, x);
    assert forall|q: int| 0 <= q < s.len() implies idx[base + q] == #[trigger] a[base + q] && val[base + q] == b[base + q] by { }
    if filled(idx, val, t, p, rows, x) {
        assert forall|q: int| 0 <= q < s.len() implies key(#[trigger] s[q], !rows) == a[base + q] && s[q].2 == b[base + q]@ by { assert(idx[base + q] == a[base + q]); }
    }
    if filled(a, b, t, p, rows, x) {
        assert forall|q: int| 0 <= q < s.len() implies key(#[trigger] s[q], !rows) == idx[base + q] && s[q].2 == val[base + q]@ by { assert(idx[base + q] == a[base + q]); }
    }
}
proof fn lemma_rest_cols(idx: Seq<i32>, val: Seq<R>, t: Seq<Trip>, n: int, ncol: int)
    requires rest(idx, val, t, n, 0, 0), keys_ok(t, true, n), keys_ok(t, false, ncol), idx.len() == t.len(), n >= 0
    ensures cols_ok(idx, ncol)
{
    assert forall|q: int| 0 <= q < idx.len() implies 0 <= #[trigger] idx[q] < ncol by {
        lemma_nbefore_all(t, true, n);
        let k = lemma_find(t, n, q);
        assert(rest_row(idx, val, t, k, 0));
        reveal(rest_row);
        let s = sel(t, true, k);
        let a = q - nbefore(t, true, k);
        assert(s[a].1 == idx[nbefore(t, true, k) + a]) by { lemma_nbefore_nonneg(t, true, k); }
        lemma_sel_cols(t, true, k, ncol);
    }
}
proof fn lemma_find(t: Seq<Trip>, n: int, q: int) -> (k: int)
    requires 0 <= q < nbefore(t, true, n), n >= 0
    ensures 0 <= k < n, nbefore(t, true, k) <= q < nbefore(t, true, k + 1)
    decreases n
{
    if n > 0 {
        if q < nbefore(t, true, n - 1) { lemma_find(t, n - 1, q) } else { n - 1 }
    } else {
        0
    }
}
proof fn lemma_sel_cols(u: Seq<Trip>, rows: bool, k: int, ncol: int)
    requires keys_ok(u, false, ncol)
    ensures keys_ok(sel(u, rows, k), false, ncol), forall|q: int| 0 <= q < sel(u, rows, k).len() ==> 0 <= (#[trigger] sel(u, rows, k)[q]).1 < ncol
    decreases u.len()
{
    if u.len() > 0 {
        let s = u.drop_last();
        assert forall|q: int| 0 <= q < s.len() implies 0 <= key(#[trigger] s[q], false) < ncol by { assert(s[q] == u[q]); }
        lemma_sel_cols(s, rows, k, ncol);
        assert(0 <= key(u[u.len() - 1], false) < ncol);
        assert forall|q: int| 0 <= q < sel(u, rows, k).len() implies 0 <= (#[trigger] sel(u, rows, k)[q]).1 < ncol by {
            if q < sel(s, rows, k).len() { assert(sel(u, rows, k)[q] == sel(s, rows, k)[q]); }
        }
    }
}
proof fn lemma_piece_start(idx: Seq<i32>, val: Seq<R>, t: Seq<Trip>, i: int, p1: int)
    ensures piece_same(idx, val, i, p1, p1, sel(t, true, i).take(0))
{
    assert(piece(idx, val, i, p1, p1) =~= Seq::<Trip>::empty());
    assert(sel(t, true, i).take(0) =~= Seq::<Trip>::empty());
    assert forall|j: int| #[trigger] same_at(piece(idx, val, i, p1, p1), sel(t, true, i).take(0), i, j) by { }
}
proof fn lemma_where_start(w: Seq<i32>, idx: Seq<i32>, val: Seq<R>, i: int, p1: int, ncol: int)
    requires w_upto(w, ncol, p1)
    ensures where_ok(w, idx, val, i, p1, p1, ncol)
{
    assert(piece(idx, val, i, p1, p1) =~= Seq::<Trip>::empty());
}
proof fn lemma_rowform_len(rp: Seq<i32>, rc: Seq<usize>, idx: Seq<i32>, val: Seq<R>, t: Seq<Trip>, nrow: int, ncol: int, k: int)
    requires starts(rp, t, true, nrow + 1), rows_done(rp, rc, idx, val, t, nrow), cols_ok(idx, ncol), idx.len() == t.len(), 0 <= k <= nrow, nbefore(t, true, nrow) == t.len()
    ensures rowform(rp, rc, idx, val, k).len() <= rp[k], keys_ok(rowform(rp, rc, idx, val, k), false, ncol), rp[k] <= t.len()
    decreases k
{
    assert(rp[k] == nbefore(t, true, k));
    lemma_nbefore_mono(t, true, k, nrow);
    if k > 0 {
        lemma_rowform_len(rp, rc, idx, val, t, nrow, ncol, k - 1);
        assert(row_done(rp, rc, idx, val, t, k - 1));
        assert(rp[k - 1] == nbefore(t, true, k - 1));
        lemma_nbefore_nonneg(t, true, k - 1);
        let a = rowform(rp, rc, idx, val, k - 1);
        let b = piece(idx, val, k - 1, rp[k - 1] as int, rp[k - 1] + rc[k - 1]);
        assert forall|q: int| 0 <= q < (a + b).len() implies 0 <= key(#[trigger] (a + b)[q], false) < ncol by {
            if q < a.len() { assert((a + b)[q] == a[q]); } else { assert((a + b)[q] == b[q - a.len()]); assert(0 <= idx[rp[k - 1] + (q - a.len())] < ncol); }
        }
    }
}

// a row with at least one entry has an index that fits in i32 (it was stored as such)
proof fn lemma_row_fits(coo: &NumCooMatrix, i: int)
    requires coo.wf(), sel(coo.trips(coo.nnz as int), true, i).len() > 0
    ensures 0 <= i <= i32::MAX
{
    lemma_row_keys(coo);
    let t = coo.trips(coo.nnz as int);
    lemma_sel_in(t, true, i, i32::MAX as int);
}
proof fn lemma_sel_in(t: Seq<Trip>, rows: bool, k: int, b: int)
    requires forall|q: int| 0 <= q < t.len() ==> 0 <= key(#[trigger] t[q], rows) <= b, sel(t, rows, k).len() > 0
    ensures 0 <= k <= b
    decreases t.len()
{
    if t.len() > 0 {
        assert(0 <= key(t[t.len() - 1], rows) <= b);
        let s = t.drop_last();
        assert forall|q: int| 0 <= q < s.len() implies 0 <= key(#[trigger] s[q], rows) <= b by { assert(s[q] == t[q]); }
        if key(t.last(), rows) != k { lemma_sel_in(s, rows, k, b); }
    }
}

proof fn lemma_row_keys(coo: &NumCooMatrix)
    requires coo.wf()
    ensures forall|q: int| 0 <= q < coo.nnz ==> 0 <= key(#[trigger] coo.trips(coo.nnz as int)[q], true) <= i32::MAX
{
    assert forall|q: int| 0 <= q < coo.nnz implies 0 <= key(#[trigger] coo.trips(coo.nnz as int)[q], true) <= i32::MAX by { assert(coo.entry_ok(q)); }
}

//@fn russell_sparse/src/csc_matrix.rs NumCscMatrix::update_from_coo
//@attr
#[verifier::spinoff_prover]
#[verifier::rlimit(60)]
//@spec
    requires
        coo.wf(), coo.nrow < usize::MAX, coo.ncol < usize::MAX, coo.nnz <= i32::MAX,
        old(self).buffers(),
    ensures
        final(self).buffers(),
        final(self).nrow == old(self).nrow, final(self).ncol == old(self).ncol, final(self).symmetric == old(self).symmetric,
        final(self).values.len() == old(self).values.len(),
        ret is Ok <==> (coo.symmetric == old(self).symmetric && coo.nrow == old(self).nrow && coo.ncol == old(self).ncol && coo.nnz == old(self).values.len()),
        ret is Err ==> *final(self) == *old(self),
        ret is Ok ==> result_ok(final(self).col_pointers@, final(self).row_indices@, final(self).values@, false, coo.ncol as int, coo.nrow as int, coo.trips(coo.nnz as int)),
//@start
        let ghost t = coo.trips(coo.nnz as int);
        proof { lemma_coo_keys(coo); lemma_nbefore_all(t, true, coo.nrow as int); }
//@loop 0
        invariant
            self.temp_w.len() == ndim, ndim >= nrow, w_is(self.temp_w@, i as int, 0),
            self.temp_rp.len() == nrow + 1, self.temp_rj.len() == nnz, self.temp_rx.len() == nnz, self.temp_rc.len() == nrow,
//@before loop 1
        proof { assert(t.take(0) =~= Seq::<Trip>::empty()); assert(counts(w@, t.take(0), true, 0, nrow as int)); }
//@loop 1
        invariant 
            coo.wf(), t == coo.trips(coo.nnz as int), t.len() == nnz, nnz == coo.nnz, nnz <= i32::MAX, nrow == coo.nrow, ncol == coo.ncol, nrow < usize::MAX, ncol < usize::MAX,
            keys_ok(t, true, nrow as int), keys_ok(t, false, ncol as int), nbefore(t, true, nrow as int) == nnz,
            ai@ == coo.indices_i@, aj@ == coo.indices_j@, ax@ == coo.values@,
            rp.len() == nrow + 1, rj.len() == nnz, rx.len() == nnz, rc.len() == nrow, w.len() == ndim, ndim >= nrow, ndim >= ncol,
            bp.len() == ncol + 1, bi.len() == nnz, bx.len() == nnz,
            counts(w@, t.take(k as int), true, 0, nrow as int),
//@loop 1 start
            proof {
                assert(coo.entry_ok(k as int));
                assert(t.take(k + 1) =~= t.take(k as int).push(t[k as int]));
                lemma_sel_push(t.take(k as int), t[k as int], true);
                lemma_sel_len(t.take(k as int), true, coo.indices_i@[k as int] as int);
            }
//@after loop 1
        proof { assert(t.take(nnz as int) =~= t); assert(t.take(0) =~= Seq::<Trip>::empty()); lemma_nbefore_empty(t.take(0), true, 0); }
//@loop 2
        invariant 
            coo.wf(), t == coo.trips(coo.nnz as int), t.len() == nnz, nnz == coo.nnz, nnz <= i32::MAX, nrow == coo.nrow, ncol == coo.ncol, nrow < usize::MAX, ncol < usize::MAX,
            keys_ok(t, true, nrow as int), keys_ok(t, false, ncol as int), nbefore(t, true, nrow as int) == nnz,
            ai@ == coo.indices_i@, aj@ == coo.indices_j@, ax@ == coo.values@,
            rp.len() == nrow + 1, rj.len() == nnz, rx.len() == nnz, rc.len() == nrow, w.len() == ndim, ndim >= nrow, ndim >= ncol,
            bp.len() == ncol + 1, bi.len() == nnz, bx.len() == nnz,
            starts(rp@, t, true, i + 1), counts(w@, t, true, i as int, nrow as int), starts(w@, t, true, i as int),
//@loop 2 start
            proof { lemma_nbefore_mono(t, true, i + 1, nrow as int); lemma_nbefore_mono(t, true, i as int, i + 1); }
//@before loop 3
        proof {
            lemma_filled_start(rj@, rx@, t, true, nrow as int);
            assert(t.take(0) =~= Seq::<Trip>::empty());
            assert(all_next(w@, t, 0, true, nrow as int));
        }
//@loop 3
        invariant 
            coo.wf(), t == coo.trips(coo.nnz as int), t.len() == nnz, nnz == coo.nnz, nnz <= i32::MAX, nrow == coo.nrow, ncol == coo.ncol, nrow < usize::MAX, ncol < usize::MAX,
            keys_ok(t, true, nrow as int), keys_ok(t, false, ncol as int), nbefore(t, true, nrow as int) == nnz,
            ai@ == coo.indices_i@, aj@ == coo.indices_j@, ax@ == coo.values@,
            rp.len() == nrow + 1, rj.len() == nnz, rx.len() == nnz, rc.len() == nrow, w.len() == ndim, ndim >= nrow, ndim >= ncol,
            bp.len() == ncol + 1, bi.len() == nnz, bx.len() == nnz,
            starts(rp@, t, true, nrow + 1), all_next(w@, t, k as int, true, nrow as int), all_filled(rj@, rx@, t, k as int, true, nrow as int),
//@loop 3 start
            let ghost (rj0, rx0) = (rj@, rx@);
            proof {
                assert(coo.entry_ok(k as int));
                lemma_slot(t, k as int, true, nrow as int);
                assert(t.take(k + 1) =~= t.take(k as int).push(t[k as int]));
                lemma_sel_push(t.take(k as int), t[k as int], true);
            }
//@loop 3 end
            proof {
                assert(rx@ =~= rx0.update(nbefore(t, true, key(t[k as int], true)) + sel(t.take(k as int), true, key(t[k as int], true)).len(), r(t[k as int].2)));
                lemma_fill_step(rj0, rx0, rj@, rx@, t, k as int, true, nrow as int, t[k as int]);
            }
//@after loop 3
        proof {
            assert(t.take(nnz as int) =~= t);
            lemma_rest_start(rj@, rx@, t, nrow as int);
            lemma_rest_cols(rj@, rx@, t, nrow as int, ncol as int);
        }
//@loop 4
        invariant 
            coo.wf(), t == coo.trips(coo.nnz as int), t.len() == nnz, nnz == coo.nnz, nnz <= i32::MAX, nrow == coo.nrow, ncol == coo.ncol, nrow < usize::MAX, ncol < usize::MAX,
            keys_ok(t, true, nrow as int), keys_ok(t, false, ncol as int), nbefore(t, true, nrow as int) == nnz,
            ai@ == coo.indices_i@, aj@ == coo.indices_j@, ax@ == coo.values@,
            rp.len() == nrow + 1, rj.len() == nnz, rx.len() == nnz, rc.len() == nrow, w.len() == ndim, ndim >= nrow, ndim >= ncol,
            bp.len() == ncol + 1, bi.len() == nnz, bx.len() == nnz,
            starts(rp@, t, true, nrow + 1), rest(rj@, rx@, t, nrow as int, 0, 0), cols_ok(rj@, ncol as int), w_is(w@, j as int, -1),
//@loop 5
        invariant 
            coo.wf(), t == coo.trips(coo.nnz as int), t.len() == nnz, nnz == coo.nnz, nnz <= i32::MAX, nrow == coo.nrow, ncol == coo.ncol, nrow < usize::MAX, ncol < usize::MAX,
            keys_ok(t, true, nrow as int), keys_ok(t, false, ncol as int), nbefore(t, true, nrow as int) == nnz,
            ai@ == coo.indices_i@, aj@ == coo.indices_j@, ax@ == coo.values@,
            rp.len() == nrow + 1, rj.len() == nnz, rx.len() == nnz, rc.len() == nrow, w.len() == ndim, ndim >= nrow, ndim >= ncol,
            bp.len() == ncol + 1, bi.len() == nnz, bx.len() == nnz,
            starts(rp@, t, true, nrow + 1), cols_ok(rj@, ncol as int),
            rows_done(rp@, rc@, rj@, rx@, t, i as int), rest(rj@, rx@, t, nrow as int, i as int, rp@[i as int] as int),
            w_upto(w@, ncol as int, rp@[i as int] as int),
//@before loop 5
        proof { assert(rp@[0] == nbefore(t, true, 0)); }
//@loop 5 start
            let ghost rc0 = rc@;
            proof {
                assert(rp@[i as int] == nbefore(t, true, i as int) && rp@[i + 1] == nbefore(t, true, i + 1));
                lemma_nbefore_mono(t, true, i as int, i + 1); lemma_nbefore_mono(t, true, i + 1, nrow as int);
                lemma_piece_start(rj@, rx@, t, i as int, rp@[i as int] as int);
                assert(where_ok(w@, rj@, rx@, i as int, rp@[i as int] as int, rp@[i as int] as int, ncol as int)) by { lemma_cnt_zero(piece(rj@, rx@, i as int, rp@[i as int] as int, rp@[i as int] as int), i as int, 0); lemma_where_start(w@, rj@, rx@, i as int, rp@[i as int] as int, ncol as int); }
            }
//@loop 6
        invariant 
            coo.wf(), t == coo.trips(coo.nnz as int), t.len() == nnz, nnz == coo.nnz, nnz <= i32::MAX, nrow == coo.nrow, ncol == coo.ncol, nrow < usize::MAX, ncol < usize::MAX,
            keys_ok(t, true, nrow as int), keys_ok(t, false, ncol as int), nbefore(t, true, nrow as int) == nnz,
            ai@ == coo.indices_i@, aj@ == coo.indices_j@, ax@ == coo.values@,
            rp.len() == nrow + 1, rj.len() == nnz, rx.len() == nnz, rc.len() == nrow, w.len() == ndim, ndim >= nrow, ndim >= ncol,
            bp.len() == ncol + 1, bi.len() == nnz, bx.len() == nnz,
            starts(rp@, t, true, nrow + 1), cols_ok(rj@, ncol as int), i < nrow, rc@ == rc0,
            p1 == rp@[i as int], p2 == rp@[i + 1], p1 <= dest <= p, p2 <= nnz, p1 <= p2,
            rows_done(rp@, rc@, rj@, rx@, t, i as int), rest(rj@, rx@, t, nrow as int, i as int, p as int),
            piece_same(rj@, rx@, i as int, p1 as int, dest as int, sel(t, true, i as int).take(p - p1)),
            where_ok(w@, rj@, rx@, i as int, p1 as int, dest as int, ncol as int),
//@loop 6 start
            let ghost (rj0, rx0, w0, dest0) = (rj@, rx@, w@, dest);
            proof { assert(0 <= rj@[p as int] < ncol); assert(w@[rj@[p as int] as int] < dest); }
//@loop 6 end
            proof {
                assert(rj@ =~= if w0[rj0[p as int] as int] >= p1 { rj0 } else { rj0.update(dest0 as int, rj0[p as int]) });
                assert(rx@ =~= if w0[rj0[p as int] as int] >= p1 { rx0.update(w0[rj0[p as int] as int] as int, r(rx0[w0[rj0[p as int] as int] as int]@ + rx0[p as int]@)) } else { rx0.update(dest0 as int, rx0[p as int]) });
                lemma_sum_step(rp@, w0, rj0, rx0, w@, rj@, rx@, t, i as int, p1 as int, p as int, dest0 as int, dest as int, ncol as int, nrow as int);
                lemma_starts_range(rp@, t, i as int);
                lemma_done_frame(rp@, rc@, rc@, rj0, rx0, rj@, rx@, t, i as int, p1 as int);
            }
//@loop 5 end
            proof {
                lemma_row_end(rp@, rc@, rj@, rx@, t, i as int, dest as int);
                lemma_starts_range(rp@, t, i as int);
                lemma_done_frame(rp@, rc0, rc@, rj@, rx@, rj@, rx@, t, i as int, p1 as int);
                lemma_rest_frame(rj@, rx@, rj@, rx@, t, nrow as int, i as int, p2 as int, p2 as int);
                assert(rest(rj@, rx@, t, nrow as int, i + 1, p2 as int));
                assert forall|l: int| 0 <= l < ncol implies #[trigger] w@[l] < rp@[i + 1] by { }
            }
//@after loop 5
        let ghost u = rowform(rp@, rc@, rj@, rx@, nrow as int);
        proof {
            lemma_rowform_len(rp@, rc@, rj@, rx@, t, nrow as int, ncol as int, nrow as int);
            lemma_nbefore_all(u, false, ncol as int);
        }
//@loop 7
        invariant 
            coo.wf(), t == coo.trips(coo.nnz as int), t.len() == nnz, nnz == coo.nnz, nnz <= i32::MAX, nrow == coo.nrow, ncol == coo.ncol, nrow < usize::MAX, ncol < usize::MAX,
            keys_ok(t, true, nrow as int), keys_ok(t, false, ncol as int), nbefore(t, true, nrow as int) == nnz,
            ai@ == coo.indices_i@, aj@ == coo.indices_j@, ax@ == coo.values@,
            rp.len() == nrow + 1, rj.len() == nnz, rx.len() == nnz, rc.len() == nrow, w.len() == ndim, ndim >= nrow, ndim >= ncol,
            bp.len() == ncol + 1, bi.len() == nnz, bx.len() == nnz,
            starts(rp@, t, true, nrow + 1), rows_done(rp@, rc@, rj@, rx@, t, nrow as int), cols_ok(rj@, ncol as int),
            u == rowform(rp@, rc@, rj@, rx@, nrow as int), keys_ok(u, false, ncol as int), u.len() <= nnz, nbefore(u, false, ncol as int) == u.len(),
            w_is(w@, j as int, 0),
//@before loop 8
        proof { assert(counts(w@, rowform(rp@, rc@, rj@, rx@, 0), false, 0, ncol as int)); }
//@loop 8
        invariant 
            coo.wf(), t == coo.trips(coo.nnz as int), t.len() == nnz, nnz == coo.nnz, nnz <= i32::MAX, nrow == coo.nrow, ncol == coo.ncol, nrow < usize::MAX, ncol < usize::MAX,
            keys_ok(t, true, nrow as int), keys_ok(t, false, ncol as int), nbefore(t, true, nrow as int) == nnz,
            ai@ == coo.indices_i@, aj@ == coo.indices_j@, ax@ == coo.values@,
            rp.len() == nrow + 1, rj.len() == nnz, rx.len() == nnz, rc.len() == nrow, w.len() == ndim, ndim >= nrow, ndim >= ncol,
            bp.len() == ncol + 1, bi.len() == nnz, bx.len() == nnz,
            starts(rp@, t, true, nrow + 1), rows_done(rp@, rc@, rj@, rx@, t, nrow as int), cols_ok(rj@, ncol as int),
            u == rowform(rp@, rc@, rj@, rx@, nrow as int), keys_ok(u, false, ncol as int), u.len() <= nnz, nbefore(u, false, ncol as int) == u.len(),
            counts(w@, rowform(rp@, rc@, rj@, rx@, i as int), false, 0, ncol as int),
//@loop 8 start
            proof {
                assert(row_done(rp@, rc@, rj@, rx@, t, i as int));
                assert(rp@[i as int] == nbefore(t, true, i as int) && rp@[i + 1] == nbefore(t, true, i + 1));
                lemma_nbefore_nonneg(t, true, i as int);
                lemma_nbefore_mono(t, true, i + 1, nrow as int);
                lemma_upto2(rp@, rc@, rj@, rx@, i as int, 0);
            }
//@loop 9
        invariant 
            coo.wf(), t == coo.trips(coo.nnz as int), t.len() == nnz, nnz == coo.nnz, nnz <= i32::MAX, nrow == coo.nrow, ncol == coo.ncol, nrow < usize::MAX, ncol < usize::MAX,
            keys_ok(t, true, nrow as int), keys_ok(t, false, ncol as int), nbefore(t, true, nrow as int) == nnz,
            ai@ == coo.indices_i@, aj@ == coo.indices_j@, ax@ == coo.values@,
            rp.len() == nrow + 1, rj.len() == nnz, rx.len() == nnz, rc.len() == nrow, w.len() == ndim, ndim >= nrow, ndim >= ncol,
            bp.len() == ncol + 1, bi.len() == nnz, bx.len() == nnz,
            starts(rp@, t, true, nrow + 1), rows_done(rp@, rc@, rj@, rx@, t, nrow as int), cols_ok(rj@, ncol as int),
            u == rowform(rp@, rc@, rj@, rx@, nrow as int), keys_ok(u, false, ncol as int), u.len() <= nnz, nbefore(u, false, ncol as int) == u.len(),
            i < nrow, p1 == rp@[i as int], p2 == rp@[i as int] + rc@[i as int], p2 <= nnz,
            counts(w@, upto2(rp@, rc@, rj@, rx@, i as int, p as int), false, 0, ncol as int),
//@loop 9 start
            proof {
                lemma_upto2(rp@, rc@, rj@, rx@, i as int, p as int);
                lemma_upto2_prefix(rp@, rc@, rj@, rx@, i as int, p as int, nrow as int);
                let a = upto2(rp@, rc@, rj@, rx@, i as int, p as int);
                lemma_sel_push(a, (i as int, rj@[p as int] as int, rx@[p as int]@), false);
                lemma_sel_len(a, false, rj@[p as int] as int);
                assert(0 <= rj@[p as int] < ncol);
            }
//@loop 8 end
            proof { lemma_upto2(rp@, rc@, rj@, rx@, i as int, 0); }
//@loop 10
        invariant 
            coo.wf(), t == coo.trips(coo.nnz as int), t.len() == nnz, nnz == coo.nnz, nnz <= i32::MAX, nrow == coo.nrow, ncol == coo.ncol, nrow < usize::MAX, ncol < usize::MAX,
            keys_ok(t, true, nrow as int), keys_ok(t, false, ncol as int), nbefore(t, true, nrow as int) == nnz,
            ai@ == coo.indices_i@, aj@ == coo.indices_j@, ax@ == coo.values@,
            rp.len() == nrow + 1, rj.len() == nnz, rx.len() == nnz, rc.len() == nrow, w.len() == ndim, ndim >= nrow, ndim >= ncol,
            bp.len() == ncol + 1, bi.len() == nnz, bx.len() == nnz,
            starts(rp@, t, true, nrow + 1), rows_done(rp@, rc@, rj@, rx@, t, nrow as int), cols_ok(rj@, ncol as int),
            u == rowform(rp@, rc@, rj@, rx@, nrow as int), keys_ok(u, false, ncol as int), u.len() <= nnz, nbefore(u, false, ncol as int) == u.len(),
            counts(w@, u, false, 0, ncol as int), starts(bp@, u, false, j + 1),
//@loop 10 start
            proof { lemma_nbefore_mono(u, false, j + 1, ncol as int); lemma_nbefore_mono(u, false, j as int, j + 1); }
//@loop 11
        invariant 
            coo.wf(), t == coo.trips(coo.nnz as int), t.len() == nnz, nnz == coo.nnz, nnz <= i32::MAX, nrow == coo.nrow, ncol == coo.ncol, nrow < usize::MAX, ncol < usize::MAX,
            keys_ok(t, true, nrow as int), keys_ok(t, false, ncol as int), nbefore(t, true, nrow as int) == nnz,
            ai@ == coo.indices_i@, aj@ == coo.indices_j@, ax@ == coo.values@,
            rp.len() == nrow + 1, rj.len() == nnz, rx.len() == nnz, rc.len() == nrow, w.len() == ndim, ndim >= nrow, ndim >= ncol,
            bp.len() == ncol + 1, bi.len() == nnz, bx.len() == nnz,
            starts(rp@, t, true, nrow + 1), rows_done(rp@, rc@, rj@, rx@, t, nrow as int), cols_ok(rj@, ncol as int),
            u == rowform(rp@, rc@, rj@, rx@, nrow as int), keys_ok(u, false, ncol as int), u.len() <= nnz, nbefore(u, false, ncol as int) == u.len(),
            starts(bp@, u, false, ncol + 1), starts(w@, u, false, j as int),
//@before loop 12
        proof {
            lemma_filled_start(bi@, bx@, u, false, ncol as int);
            assert(u.take(0) =~= Seq::<Trip>::empty());
            assert(rowform(rp@, rc@, rj@, rx@, 0).len() == 0);
            assert(all_next(w@, u, 0, false, ncol as int));
        }
//@loop 12
        invariant 
            coo.wf(), t == coo.trips(coo.nnz as int), t.len() == nnz, nnz == coo.nnz, nnz <= i32::MAX, nrow == coo.nrow, ncol == coo.ncol, nrow < usize::MAX, ncol < usize::MAX,
            keys_ok(t, true, nrow as int), keys_ok(t, false, ncol as int), nbefore(t, true, nrow as int) == nnz,
            ai@ == coo.indices_i@, aj@ == coo.indices_j@, ax@ == coo.values@,
            rp.len() == nrow + 1, rj.len() == nnz, rx.len() == nnz, rc.len() == nrow, w.len() == ndim, ndim >= nrow, ndim >= ncol,
            bp.len() == ncol + 1, bi.len() == nnz, bx.len() == nnz,
            starts(rp@, t, true, nrow + 1), rows_done(rp@, rc@, rj@, rx@, t, nrow as int), cols_ok(rj@, ncol as int),
            u == rowform(rp@, rc@, rj@, rx@, nrow as int), keys_ok(u, false, ncol as int), u.len() <= nnz, nbefore(u, false, ncol as int) == u.len(),
            starts(bp@, u, false, ncol + 1),
            rowform(rp@, rc@, rj@, rx@, i as int).len() <= u.len(),
            all_next(w@, u, rowform(rp@, rc@, rj@, rx@, i as int).len() as int, false, ncol as int),
            all_filled2(bi@, bx@, u, rowform(rp@, rc@, rj@, rx@, i as int).len() as int, false, ncol as int),
//@loop 12 start
            proof {
                assert(row_done(rp@, rc@, rj@, rx@, t, i as int));
                assert(rp@[i as int] == nbefore(t, true, i as int) && rp@[i + 1] == nbefore(t, true, i + 1));
                lemma_nbefore_nonneg(t, true, i as int);
                lemma_nbefore_mono(t, true, i + 1, nrow as int);
                lemma_upto2(rp@, rc@, rj@, rx@, i as int, 0);
            }
//@loop 13
        invariant 
            coo.wf(), t == coo.trips(coo.nnz as int), t.len() == nnz, nnz == coo.nnz, nnz <= i32::MAX, nrow == coo.nrow, ncol == coo.ncol, nrow < usize::MAX, ncol < usize::MAX,
            keys_ok(t, true, nrow as int), keys_ok(t, false, ncol as int), nbefore(t, true, nrow as int) == nnz,
            ai@ == coo.indices_i@, aj@ == coo.indices_j@, ax@ == coo.values@,
            rp.len() == nrow + 1, rj.len() == nnz, rx.len() == nnz, rc.len() == nrow, w.len() == ndim, ndim >= nrow, ndim >= ncol,
            bp.len() == ncol + 1, bi.len() == nnz, bx.len() == nnz,
            starts(rp@, t, true, nrow + 1), rows_done(rp@, rc@, rj@, rx@, t, nrow as int), cols_ok(rj@, ncol as int),
            u == rowform(rp@, rc@, rj@, rx@, nrow as int), keys_ok(u, false, ncol as int), u.len() <= nnz, nbefore(u, false, ncol as int) == u.len(),
            starts(bp@, u, false, ncol + 1),
            i < nrow, p1 == rp@[i as int], p2 == rp@[i as int] + rc@[i as int], p2 <= nnz,
            all_next(w@, u, upto2(rp@, rc@, rj@, rx@, i as int, p as int).len() as int, false, ncol as int),
            all_filled2(bi@, bx@, u, upto2(rp@, rc@, rj@, rx@, i as int, p as int).len() as int, false, ncol as int),
//@loop 13 start
            let ghost (bi0, bx0) = (bi@, bx@);
            let ghost m = upto2(rp@, rc@, rj@, rx@, i as int, p as int).len() as int;
            proof {
                lemma_upto2(rp@, rc@, rj@, rx@, i as int, p as int);
                lemma_upto2_prefix(rp@, rc@, rj@, rx@, i as int, p as int, nrow as int);
                assert(0 <= rj@[p as int] < ncol);
                lemma_slot(u, m, false, ncol as int);
                assert(u.take(m + 1) =~= u.take(m).push(u[m]));
                lemma_sel_push(u.take(m), u[m], false);
                assert(row_done(rp@, rc@, rj@, rx@, t, i as int));
                assert(rp@[i as int] == nbefore(t, true, i as int) && rp@[i + 1] == nbefore(t, true, i + 1));
                lemma_row_keys(coo);
                lemma_row_fits(coo, i as int);
            }
//@loop 13 end
            proof {
                assert(bx@ =~= bx0.update(nbefore(u, false, key(u[m], false)) + sel(u.take(m), false, key(u[m], false)).len(), r(u[m].2)));
                lemma_fill_step2(bi0, bx0, bi@, bx@, u, m, false, ncol as int, u[m]);
            }
//@loop 12 end
            proof { lemma_upto2(rp@, rc@, rj@, rx@, i as int, 0); lemma_upto2_prefix(rp@, rc@, rj@, rx@, i as int, rp@[i as int] + rc@[i as int], nrow as int); }
//@after loop 12
        proof {
            assert(u.take(u.len() as int) =~= u);
            lemma_end_grouped(bp@, bi@, bx@, u, false, ncol as int);
            lemma_rowform_rows(rp@, rc@, rj@, rx@, nrow as int);
            assert forall|a: int, b: int| 0 <= a < nrow implies #[trigger] same_at(u, t, a, b) by { lemma_rowform_same(rp@, rc@, rj@, rx@, nrow as int, t, a, b); }
            lemma_result(bp@, bi@, bx@, u, t, nrow as int, ncol as int);
        }
//@endfn

//@fn russell_sparse/src/csc_matrix.rs NumCscMatrix::from_coo
//@spec
    requires
        coo.wf(), coo.nrow < usize::MAX, coo.ncol < usize::MAX, coo.nnz <= i32::MAX,
    ensures
        ret is Ok <==> coo.nnz >= 1,
        ret is Ok ==> {
            let a = ret->Ok_0;
            &&& a.buffers() && a.nrow == coo.nrow && a.ncol == coo.ncol && a.symmetric == coo.symmetric && a.values.len() == coo.nnz
            &&& result_ok(a.col_pointers@, a.row_indices@, a.values@, false, coo.ncol as int, coo.nrow as int, coo.trips(coo.nnz as int))
        },
//@endfn

pub open spec fn ix(s: Seq<(i32, R)>) -> Seq<i32> { Seq::new(s.len(), |a: int| s[a].0) }
pub open spec fn vl(s: Seq<(i32, R)>) -> Seq<R> { Seq::new(s.len(), |a: int| s[a].1) }
pub open spec fn bptr(bp: Seq<i32>, rc: Seq<usize>, n: int) -> bool {
    bp[0] == 0 && forall|x: int| 0 <= x < n ==> bp[x + 1] == bp[x] + #[trigger] rc[x]
}
pub open spec fn bp_upto(bp: Seq<i32>, n: int, v: int) -> bool { forall|x: int| 0 <= x <= n ==> 0 <= #[trigger] bp[x] <= v }
pub open spec fn groups_ok(ptr: Seq<i32>, idx: Seq<i32>, val: Seq<R>, t: Seq<Trip>, n: int) -> bool {
    forall|k: int| 0 <= k < n ==> #[trigger] group_ok(ptr, idx, val, true, k, t)
}
pub open spec fn cols_upto(idx: Seq<i32>, k: int, n: int) -> bool { forall|q: int| 0 <= q < k ==> 0 <= #[trigger] idx[q] < n }
pub open spec fn copied(bj: Seq<i32>, bx: Seq<R>, kk: int, s: Seq<(i32, R)>, p1: int, n: int) -> bool {
    forall|a: int| 0 <= a < n ==> #[trigger] bj[kk + a] == s[p1 + a].0 && bx[kk + a] == s[p1 + a].1
}
proof fn lemma_bp_range(bp: Seq<i32>, rc: Seq<usize>, k: int, n: int)
    requires bptr(bp, rc, n), 0 <= k <= n
    ensures bp_upto(bp, k, bp[k] as int), bp[k] <= bp[n]
    decreases n + k
{
    if k > 0 { lemma_bp_range(bp, rc, k - 1, k - 1); assert(bp[k - 1 + 1] == bp[k - 1] + rc[k - 1]); }
    if k < n { lemma_bp_range(bp, rc, k, n - 1); assert(bp[n - 1 + 1] == bp[n - 1] + rc[n - 1]); }
}
// equal multisets of entries have equal counts and sums
proof fn lemma_remove(t: Seq<Trip>, a: int, i: int, j: int)
    requires 0 <= a < t.len()
    ensures
        cnt_of(t, i, j) == cnt_of(t.remove(a), i, j) + (if t[a].0 == i && t[a].1 == j { 1int } else { 0 }),
        dense_of(t, false, i, j) == dense_of(t.remove(a), false, i, j) + hit(t[a], false, i, j),
    decreases t.len()
{
    if a == t.len() - 1 { assert(t.remove(a) =~= t.drop_last()); } else {
        let s = t.drop_last();
        lemma_remove(s, a, i, j);
        assert(t.remove(a).drop_last() =~= s.remove(a));
        assert(t.remove(a).last() == t.last());
        assert(s[a] == t[a]);
    }
}
proof fn lemma_perm(s: Seq<(i32, R)>, t: Seq<(i32, R)>, i: int, j: int)
    requires s.to_multiset() == t.to_multiset()
    ensures same_count(as_row(s, i), as_row(t, i), i, j)
    decreases s.len()
{
    s.to_multiset_ensures();
    t.to_multiset_ensures();
    if s.len() > 0 {
        let n = s.len() - 1;
        let e = s[n];
        assert(s.to_multiset().count(e) > 0);
        assert(t.contains(e));
        let q = choose|q: int| 0 <= q < t.len() && t[q] == e;
        let (s2, t2) = (s.remove(n), t.remove(q));
        s2.to_multiset_ensures();
        t2.to_multiset_ensures();
        assert(s2.to_multiset() =~= t2.to_multiset());
        lemma_perm(s2, t2, i, j);
        assert(as_row(s2, i) =~= as_row(s, i).remove(n));
        assert(as_row(t2, i) =~= as_row(t, i).remove(q));
        lemma_remove(as_row(s, i), n, i, j);
        lemma_remove(as_row(t, i), q, i, j);
    } else {
        assert(as_row(s, i) =~= as_row(t, i));
    }
}
pub open spec fn as_row(s: Seq<(i32, R)>, i: int) -> Seq<Trip> { Seq::new(s.len(), |a: int| (i, s[a].0 as int, s[a].1@)) }
pub open spec fn same_count(a: Seq<Trip>, b: Seq<Trip>, i: int, j: int) -> bool {
    cnt_of(a, i, j) == cnt_of(b, i, j) && dense_of(a, false, i, j) == dense_of(b, false, i, j)
}
proof fn lemma_sorted(s0: Seq<(i32, R)>, s1: Seq<(i32, R)>, rp: Seq<i32>, rc: Seq<usize>, t: Seq<Trip>, i: int, n: int, ncol: int)
    requires
        0 <= i < n, starts(rp, t, true, n + 1), rows_done(rp, rc, ix(s0), vl(s0), t, n), cols_ok(ix(s0), ncol), s0.len() == t.len(), s1.len() == s0.len(), nbefore(t, true, n) == t.len(),
        ({
            let (a, b) = (rp[i] as int, rp[i] + rc[i]);
            &&& 0 <= a <= b <= s0.len()
            &&& forall|q: int| 0 <= q < s0.len() && !(a <= q < b) ==> #[trigger] s1[q] == s0[q]
            &&& s1.subrange(a, b).to_multiset() == s0.subrange(a, b).to_multiset()
        }),
    ensures rows_done(rp, rc, ix(s1), vl(s1), t, n), cols_ok(ix(s1), ncol)
{
    let (a, b) = (rp[i] as int, rp[i] + rc[i]);
    let (u0, u1) = (s0.subrange(a, b), s1.subrange(a, b));
    assert forall|x: int| 0 <= x < n implies #[trigger] row_done(rp, rc, ix(s1), vl(s1), t, x) by {
        assert(row_done(rp, rc, ix(s0), vl(s0), t, x));
        assert(row_done(rp, rc, ix(s0), vl(s0), t, i));
        assert(rp[x] == nbefore(t, true, x) && rp[x + 1] == nbefore(t, true, x + 1) && rp[i] == nbefore(t, true, i) && rp[i + 1] == nbefore(t, true, i + 1));
        lemma_nbefore_nonneg(t, true, x);
        lemma_nbefore_mono(t, true, x + 1, n);
        if x < i { lemma_nbefore_mono(t, true, x + 1, i); }
        if x > i { lemma_nbefore_mono(t, true, i + 1, x); }
        let p0 = piece(ix(s0), vl(s0), x, rp[x] as int, rp[x] + rc[x]);
        let p1 = piece(ix(s1), vl(s1), x, rp[x] as int, rp[x] + rc[x]);
        if x != i {
            assert forall|q: int| rp[x] <= q < rp[x] + rc[x] implies #[trigger] s1[q] == s0[q] by { }
            assert forall|q: int| 0 <= q < p0.len() implies p0[q] == #[trigger] p1[q] by { assert(s1[rp[x] + q] == s0[rp[x] + q]); }
            assert(p0 =~= p1);
        } else {
            assert(p0 =~= as_row(u0, i));
            assert(p1 =~= as_row(u1, i));
            assert forall|j: int| #[trigger] same_at(p1, t, i, j) by { lemma_perm(u1, u0, i, j); assert(same_at(p0, t, i, j)); }
        }
    }
    assert forall|q: int| 0 <= q < s1.len() implies 0 <= #[trigger] ix(s1)[q] < ncol by {
        if a <= q < b {
            u1.to_multiset_ensures();
            u0.to_multiset_ensures();
            assert(u1[q - a] == s1[q]);
            assert(u1.to_multiset().count(s1[q]) > 0);
            assert(u0.contains(s1[q]));
            let z = choose|z: int| 0 <= z < u0.len() && u0[z] == s1[q];
            assert(0 <= ix(s0)[a + z] < ncol);
        } else {
            assert(s1[q] == s0[q]);
            assert(0 <= ix(s0)[q] < ncol);
        }
    }
}
proof fn lemma_groups_frame(bp: Seq<i32>, idx0: Seq<i32>, val0: Seq<R>, idx: Seq<i32>, val: Seq<R>, t: Seq<Trip>, n: int, kk: int)
    requires groups_ok(bp, idx0, val0, t, n), bp_upto(bp, n, kk), kk <= idx0.len(), kk <= val0.len(),
        forall|q: int| 0 <= q < kk ==> idx[q] == #[trigger] idx0[q],
        forall|q: int| 0 <= q < kk ==> val[q] == #[trigger] val0[q],
    ensures groups_ok(bp, idx, val, t, n)
{
    assert forall|k: int| 0 <= k < n implies #[trigger] group_ok(bp, idx, val, true, k, t) by {
        assert(group_ok(bp, idx0, val0, true, k, t));
        assert(0 <= bp[k] && bp[k + 1] <= kk);
        let g0 = group_part(bp, idx0, val0, true, k, bp[k + 1] - bp[k]);
        let g = group_part(bp, idx, val, true, k, bp[k + 1] - bp[k]);
        assert forall|a: int| 0 <= a < g.len() implies g[a] == g0[a] by { assert(idx[bp[k] + a] == idx0[bp[k] + a]); assert(val[bp[k] + a] == val0[bp[k] + a]); }
        assert(g =~= g0);
        assert forall|p: int, q: int| bp[k] <= p < q < bp[k + 1] implies #[trigger] idx[p] < #[trigger] idx[q] by { assert(idx[p] == idx0[p] && idx[q] == idx0[q]); }
    }
}
proof fn lemma_row_group(rp: Seq<i32>, rc: Seq<usize>, bp: Seq<i32>, bj: Seq<i32>, bx: Seq<R>, s: Seq<(i32, R)>, t: Seq<Trip>, i: int)
    requires i >= 0, row_done(rp, rc, ix(s), vl(s), t, i), groups_ok(bp, bj, bx, t, i),
        bp[i + 1] == bp[i] + rc[i], rp[i] >= 0, bp[i] >= 0, rp[i] + rc[i] <= s.len(),
        copied(bj, bx, bp[i] as int, s, rp[i] as int, rc[i] as int),
        forall|p: int, q: int| rp[i] <= p <= q < rp[i] + rc[i] ==> (#[trigger] s[p]).0 <= (#[trigger] s[q]).0,
    ensures groups_ok(bp, bj, bx, t, i + 1)
{
    let g = group_part(bp, bj, bx, true, i, bp[i + 1] - bp[i]);
    let p1 = piece(ix(s), vl(s), i, rp[i] as int, rp[i] + rc[i]);
    assert forall|a: int| 0 <= a < g.len() implies g[a] == p1[a] by { assert(bj[bp[i] + a] == s[rp[i] + a].0); }
    assert(g =~= p1);
    assert forall|p: int, q: int| bp[i] <= p < q < bp[i + 1] implies #[trigger] bj[p] < #[trigger] bj[q] by {
        let (a, b) = (p - bp[i], q - bp[i]);
        assert(bj[bp[i] + a] == s[rp[i] + a].0 && bj[bp[i] + b] == s[rp[i] + b].0);
        if bj[p] == bj[q] { lemma_cnt_two(g, a, b); assert(same_at(p1, t, i, g[a].1)); }
    }
    assert(group_ok(bp, bj, bx, true, i, t));
}
proof fn lemma_csr_result(bp: Seq<i32>, rc: Seq<usize>, bj: Seq<i32>, bx: Seq<R>, t: Seq<Trip>, nrow: int, ncol: int)
    requires bptr(bp, rc, nrow), groups_ok(bp, bj, bx, t, nrow), cols_upto(bj, bp[nrow] as int, ncol), bp.len() == nrow + 1, nrow >= 0, bp[nrow] <= bj.len(), bp[nrow] <= bx.len()
    ensures result_ok(bp, bj, bx, true, nrow, ncol, t)
{
    lemma_bp_range(bp, rc, nrow, nrow);
    assert forall|a: int, b: int| 0 <= a <= b <= nrow implies #[trigger] bp[a] <= #[trigger] bp[b] by { lemma_bp_range(bp, rc, b, nrow); assert(bp_upto(bp, b, bp[b] as int)); }
}
impl NumCsrMatrix {
    // sizes of the arrays and of the workspace, kept by every update
    pub open spec fn buffers(&self) -> bool {
        &&& self.row_pointers.len() == self.nrow + 1
        &&& self.col_indices.len() == self.values.len()
        &&& (self.temp_w.len() != 0 ==> {
            &&& self.temp_rp.len() == self.nrow + 1
            &&& self.temp_rjx.len() == self.values.len()
            &&& self.temp_rc.len() == self.nrow
            &&& self.temp_w.len() == (if self.nrow < self.ncol { self.ncol } else { self.nrow })
        })
    }
}

//@fn russell_sparse/src/csr_matrix.rs NumCsrMatrix::update_from_coo
//@attr
#[verifier::spinoff_prover]
#[verifier::rlimit(60)]
//@spec
    requires
        coo.wf(), coo.nrow < usize::MAX, coo.ncol < usize::MAX, coo.nnz <= i32::MAX,
        old(self).buffers(),
    ensures
        final(self).buffers(),
        final(self).nrow == old(self).nrow, final(self).ncol == old(self).ncol, final(self).symmetric == old(self).symmetric,
        final(self).values.len() == old(self).values.len(),
        ret is Ok <==> (coo.symmetric == old(self).symmetric && coo.nrow == old(self).nrow && coo.ncol == old(self).ncol && coo.nnz == old(self).values.len()),
        ret is Err ==> *final(self) == *old(self),
        ret is Ok ==> result_ok(final(self).row_pointers@, final(self).col_indices@, final(self).values@, true, coo.nrow as int, coo.ncol as int, coo.trips(coo.nnz as int)),
//@start
        let ghost t = coo.trips(coo.nnz as int);
        proof { lemma_coo_keys(coo); lemma_nbefore_all(t, true, coo.nrow as int); }
//@loop 0
        invariant
            self.temp_w.len() == ndim, ndim >= nrow, w_is(self.temp_w@, i as int, 0),
            self.temp_rp.len() == nrow + 1, self.temp_rjx.len() == nnz, self.temp_rc.len() == nrow,
//@before loop 1
        proof { assert(t.take(0) =~= Seq::<Trip>::empty()); assert(counts(w@, t.take(0), true, 0, nrow as int)); }
//@loop 1
        invariant 
            coo.wf(), t == coo.trips(coo.nnz as int), t.len() == nnz, nnz == coo.nnz, nnz <= i32::MAX, nrow == coo.nrow, ncol == coo.ncol, nrow < usize::MAX, ncol < usize::MAX,
            keys_ok(t, true, nrow as int), keys_ok(t, false, ncol as int), nbefore(t, true, nrow as int) == nnz,
            ai@ == coo.indices_i@, aj@ == coo.indices_j@, ax@ == coo.values@,
            rp.len() == nrow + 1, rjx.len() == nnz, rc.len() == nrow, w.len() == ndim, ndim >= nrow, ndim >= ncol,
            bp.len() == nrow + 1, bj.len() == nnz, bx.len() == nnz,
            counts(w@, t.take(k as int), true, 0, nrow as int),
//@loop 1 start
            proof {
                assert(coo.entry_ok(k as int));
                assert(t.take(k + 1) =~= t.take(k as int).push(t[k as int]));
                lemma_sel_push(t.take(k as int), t[k as int], true);
                lemma_sel_len(t.take(k as int), true, coo.indices_i@[k as int] as int);
            }
//@after loop 1
        proof { assert(t.take(nnz as int) =~= t); assert(t.take(0) =~= Seq::<Trip>::empty()); lemma_nbefore_empty(t.take(0), true, 0); }
//@loop 2
        invariant 
            coo.wf(), t == coo.trips(coo.nnz as int), t.len() == nnz, nnz == coo.nnz, nnz <= i32::MAX, nrow == coo.nrow, ncol == coo.ncol, nrow < usize::MAX, ncol < usize::MAX,
            keys_ok(t, true, nrow as int), keys_ok(t, false, ncol as int), nbefore(t, true, nrow as int) == nnz,
            ai@ == coo.indices_i@, aj@ == coo.indices_j@, ax@ == coo.values@,
            rp.len() == nrow + 1, rjx.len() == nnz, rc.len() == nrow, w.len() == ndim, ndim >= nrow, ndim >= ncol,
            bp.len() == nrow + 1, bj.len() == nnz, bx.len() == nnz,
            starts(rp@, t, true, i + 1), counts(w@, t, true, i as int, nrow as int), starts(w@, t, true, i as int),
//@loop 2 start
            proof { lemma_nbefore_mono(t, true, i + 1, nrow as int); lemma_nbefore_mono(t, true, i as int, i + 1); }
//@before loop 3
        proof {
            lemma_filled_start(ix(rjx@), vl(rjx@), t, true, nrow as int);
            assert(t.take(0) =~= Seq::<Trip>::empty());
            assert(all_next(w@, t, 0, true, nrow as int));
        }
//@loop 3
        invariant 
            coo.wf(), t == coo.trips(coo.nnz as int), t.len() == nnz, nnz == coo.nnz, nnz <= i32::MAX, nrow == coo.nrow, ncol == coo.ncol, nrow < usize::MAX, ncol < usize::MAX,
            keys_ok(t, true, nrow as int), keys_ok(t, false, ncol as int), nbefore(t, true, nrow as int) == nnz,
            ai@ == coo.indices_i@, aj@ == coo.indices_j@, ax@ == coo.values@,
            rp.len() == nrow + 1, rjx.len() == nnz, rc.len() == nrow, w.len() == ndim, ndim >= nrow, ndim >= ncol,
            bp.len() == nrow + 1, bj.len() == nnz, bx.len() == nnz,
            starts(rp@, t, true, nrow + 1), all_next(w@, t, k as int, true, nrow as int), all_filled(ix(rjx@), vl(rjx@), t, k as int, true, nrow as int),
//@loop 3 start
            let ghost (rj0, rx0) = (ix(rjx@), vl(rjx@));
            proof {
                assert(coo.entry_ok(k as int));
                lemma_slot(t, k as int, true, nrow as int);
                assert(t.take(k + 1) =~= t.take(k as int).push(t[k as int]));
                lemma_sel_push(t.take(k as int), t[k as int], true);
            }
//@loop 3 end
            proof {
                assert(vl(rjx@) =~= rx0.update(nbefore(t, true, key(t[k as int], true)) + sel(t.take(k as int), true, key(t[k as int], true)).len(), r(t[k as int].2)));
                assert(ix(rjx@) =~= rj0.update(nbefore(t, true, key(t[k as int], true)) + sel(t.take(k as int), true, key(t[k as int], true)).len(), key(t[k as int], false) as i32));
                lemma_fill_step(rj0, rx0, ix(rjx@), vl(rjx@), t, k as int, true, nrow as int, t[k as int]);
            }
//@after loop 3
        proof {
            assert(t.take(nnz as int) =~= t);
            lemma_rest_start(ix(rjx@), vl(rjx@), t, nrow as int);
            lemma_rest_cols(ix(rjx@), vl(rjx@), t, nrow as int, ncol as int);
        }
//@loop 4
        invariant 
            coo.wf(), t == coo.trips(coo.nnz as int), t.len() == nnz, nnz == coo.nnz, nnz <= i32::MAX, nrow == coo.nrow, ncol == coo.ncol, nrow < usize::MAX, ncol < usize::MAX,
            keys_ok(t, true, nrow as int), keys_ok(t, false, ncol as int), nbefore(t, true, nrow as int) == nnz,
            ai@ == coo.indices_i@, aj@ == coo.indices_j@, ax@ == coo.values@,
            rp.len() == nrow + 1, rjx.len() == nnz, rc.len() == nrow, w.len() == ndim, ndim >= nrow, ndim >= ncol,
            bp.len() == nrow + 1, bj.len() == nnz, bx.len() == nnz,
            starts(rp@, t, true, nrow + 1), rest(ix(rjx@), vl(rjx@), t, nrow as int, 0, 0), cols_ok(ix(rjx@), ncol as int), w_is(w@, j as int, -1),
//@loop 5
        invariant 
            coo.wf(), t == coo.trips(coo.nnz as int), t.len() == nnz, nnz == coo.nnz, nnz <= i32::MAX, nrow == coo.nrow, ncol == coo.ncol, nrow < usize::MAX, ncol < usize::MAX,
            keys_ok(t, true, nrow as int), keys_ok(t, false, ncol as int), nbefore(t, true, nrow as int) == nnz,
            ai@ == coo.indices_i@, aj@ == coo.indices_j@, ax@ == coo.values@,
            rp.len() == nrow + 1, rjx.len() == nnz, rc.len() == nrow, w.len() == ndim, ndim >= nrow, ndim >= ncol,
            bp.len() == nrow + 1, bj.len() == nnz, bx.len() == nnz,
            starts(rp@, t, true, nrow + 1), cols_ok(ix(rjx@), ncol as int),
            rows_done(rp@, rc@, ix(rjx@), vl(rjx@), t, i as int), rest(ix(rjx@), vl(rjx@), t, nrow as int, i as int, rp@[i as int] as int),
            w_upto(w@, ncol as int, rp@[i as int] as int),
//@before loop 5
        proof { assert(rp@[0] == nbefore(t, true, 0)); }
//@loop 5 start
            let ghost rc0 = rc@;
            proof {
                assert(rp@[i as int] == nbefore(t, true, i as int) && rp@[i + 1] == nbefore(t, true, i + 1));
                lemma_nbefore_mono(t, true, i as int, i + 1); lemma_nbefore_mono(t, true, i + 1, nrow as int);
                lemma_piece_start(ix(rjx@), vl(rjx@), t, i as int, rp@[i as int] as int);
                assert(where_ok(w@, ix(rjx@), vl(rjx@), i as int, rp@[i as int] as int, rp@[i as int] as int, ncol as int)) by { lemma_cnt_zero(piece(ix(rjx@), vl(rjx@), i as int, rp@[i as int] as int, rp@[i as int] as int), i as int, 0); lemma_where_start(w@, ix(rjx@), vl(rjx@), i as int, rp@[i as int] as int, ncol as int); }
            }
//@loop 6
        invariant 
            coo.wf(), t == coo.trips(coo.nnz as int), t.len() == nnz, nnz == coo.nnz, nnz <= i32::MAX, nrow == coo.nrow, ncol == coo.ncol, nrow < usize::MAX, ncol < usize::MAX,
            keys_ok(t, true, nrow as int), keys_ok(t, false, ncol as int), nbefore(t, true, nrow as int) == nnz,
            ai@ == coo.indices_i@, aj@ == coo.indices_j@, ax@ == coo.values@,
            rp.len() == nrow + 1, rjx.len() == nnz, rc.len() == nrow, w.len() == ndim, ndim >= nrow, ndim >= ncol,
            bp.len() == nrow + 1, bj.len() == nnz, bx.len() == nnz,
            starts(rp@, t, true, nrow + 1), cols_ok(ix(rjx@), ncol as int), i < nrow, rc@ == rc0,
            p1 == rp@[i as int], p2 == rp@[i + 1], p1 <= dest <= p, p2 <= nnz, p1 <= p2,
            rows_done(rp@, rc@, ix(rjx@), vl(rjx@), t, i as int), rest(ix(rjx@), vl(rjx@), t, nrow as int, i as int, p as int),
            piece_same(ix(rjx@), vl(rjx@), i as int, p1 as int, dest as int, sel(t, true, i as int).take(p - p1)),
            where_ok(w@, ix(rjx@), vl(rjx@), i as int, p1 as int, dest as int, ncol as int),
//@loop 6 start
            let ghost (rj0, rx0, w0, dest0) = (ix(rjx@), vl(rjx@), w@, dest);
            proof { assert(0 <= ix(rjx@)[p as int] < ncol); assert(w@[ix(rjx@)[p as int] as int] < dest); }
//@loop 6 end
            proof {
                assert(ix(rjx@) =~= if w0[rj0[p as int] as int] >= p1 { rj0 } else { rj0.update(dest0 as int, rj0[p as int]) });
                assert(vl(rjx@) =~= if w0[rj0[p as int] as int] >= p1 { rx0.update(w0[rj0[p as int] as int] as int, r(rx0[w0[rj0[p as int] as int] as int]@ + rx0[p as int]@)) } else { rx0.update(dest0 as int, rx0[p as int]) });
                lemma_sum_step(rp@, w0, rj0, rx0, w@, ix(rjx@), vl(rjx@), t, i as int, p1 as int, p as int, dest0 as int, dest as int, ncol as int, nrow as int);
                lemma_starts_range(rp@, t, i as int);
                lemma_done_frame(rp@, rc@, rc@, rj0, rx0, ix(rjx@), vl(rjx@), t, i as int, p1 as int);
            }
//@loop 5 end
            proof {
                lemma_row_end(rp@, rc@, ix(rjx@), vl(rjx@), t, i as int, dest as int);
                lemma_starts_range(rp@, t, i as int);
                lemma_done_frame(rp@, rc0, rc@, ix(rjx@), vl(rjx@), ix(rjx@), vl(rjx@), t, i as int, p1 as int);
                lemma_rest_frame(ix(rjx@), vl(rjx@), ix(rjx@), vl(rjx@), t, nrow as int, i as int, p2 as int, p2 as int);
                assert(rest(ix(rjx@), vl(rjx@), t, nrow as int, i + 1, p2 as int));
                assert forall|l: int| 0 <= l < ncol implies #[trigger] w@[l] < rp@[i + 1] by { }
            }
//@loop 7
        invariant 
            coo.wf(), t == coo.trips(coo.nnz as int), t.len() == nnz, nnz == coo.nnz, nnz <= i32::MAX, nrow == coo.nrow, ncol == coo.ncol, nrow < usize::MAX, ncol < usize::MAX,
            keys_ok(t, true, nrow as int), keys_ok(t, false, ncol as int), nbefore(t, true, nrow as int) == nnz,
            ai@ == coo.indices_i@, aj@ == coo.indices_j@, ax@ == coo.values@,
            rp.len() == nrow + 1, rjx.len() == nnz, rc.len() == nrow, w.len() == ndim, ndim >= nrow, ndim >= ncol,
            bp.len() == nrow + 1, bj.len() == nnz, bx.len() == nnz,
            starts(rp@, t, true, nrow + 1), rows_done(rp@, rc@, ix(rjx@), vl(rjx@), t, nrow as int), cols_ok(ix(rjx@), ncol as int),
            bptr(bp@, rc@, i as int), bp@[i as int] <= rp@[i as int],
//@loop 7 start
            proof {
                assert(row_done(rp@, rc@, ix(rjx@), vl(rjx@), t, i as int));
                assert(rp@[i as int] == nbefore(t, true, i as int) && rp@[i + 1] == nbefore(t, true, i + 1));
                lemma_nbefore_mono(t, true, i + 1, nrow as int);
                lemma_nbefore_nonneg(t, true, i as int);
            }
//@after loop 7
        proof { lemma_bp_range(bp@, rc@, nrow as int, nrow as int); assert(rp@[nrow as int] == nbefore(t, true, nrow as int)); }
//@loop 8
        invariant 
            coo.wf(), t == coo.trips(coo.nnz as int), t.len() == nnz, nnz == coo.nnz, nnz <= i32::MAX, nrow == coo.nrow, ncol == coo.ncol, nrow < usize::MAX, ncol < usize::MAX,
            keys_ok(t, true, nrow as int), keys_ok(t, false, ncol as int), nbefore(t, true, nrow as int) == nnz,
            ai@ == coo.indices_i@, aj@ == coo.indices_j@, ax@ == coo.values@,
            rp.len() == nrow + 1, rjx.len() == nnz, rc.len() == nrow, w.len() == ndim, ndim >= nrow, ndim >= ncol,
            bp.len() == nrow + 1, bj.len() == nnz, bx.len() == nnz,
            starts(rp@, t, true, nrow + 1), cols_ok(ix(rjx@), ncol as int),
            rows_done(rp@, rc@, ix(rjx@), vl(rjx@), t, nrow as int),
            bptr(bp@, rc@, nrow as int), bp@[nrow as int] <= nnz,
            k == bp@[i as int],
            groups_ok(bp@, bj@, bx@, t, i as int), cols_upto(bj@, k as int, ncol as int),
//@loop 8 start
            let ghost rjx0 = rjx@;
            proof {
                assert(row_done(rp@, rc@, ix(rjx@), vl(rjx@), t, i as int));
                assert(rp@[i as int] == nbefore(t, true, i as int) && rp@[i + 1] == nbefore(t, true, i + 1));
                lemma_nbefore_mono(t, true, i + 1, nrow as int);
                lemma_nbefore_nonneg(t, true, i as int);
                lemma_bp_range(bp@, rc@, i + 1, nrow as int);
                lemma_bp_range(bp@, rc@, i as int, nrow as int);
            }
//@before loop 9
            let ghost kk = k as int;
            let ghost rjx1 = rjx@;
            proof { lemma_sorted(rjx0, rjx1, rp@, rc@, t, i as int, nrow as int, ncol as int); }
//@loop 9
        invariant 
            coo.wf(), t == coo.trips(coo.nnz as int), t.len() == nnz, nnz == coo.nnz, nnz <= i32::MAX, nrow == coo.nrow, ncol == coo.ncol, nrow < usize::MAX, ncol < usize::MAX,
            keys_ok(t, true, nrow as int), keys_ok(t, false, ncol as int), nbefore(t, true, nrow as int) == nnz,
            ai@ == coo.indices_i@, aj@ == coo.indices_j@, ax@ == coo.values@,
            rp.len() == nrow + 1, rjx.len() == nnz, rc.len() == nrow, w.len() == ndim, ndim >= nrow, ndim >= ncol,
            bp.len() == nrow + 1, bj.len() == nnz, bx.len() == nnz,
            i < nrow, rjx@ == rjx1, p1 == rp@[i as int], p2 == rp@[i as int] + rc@[i as int], p2 <= nnz,
            kk == bp@[i as int], bp@[i + 1] <= nnz, bptr(bp@, rc@, nrow as int),
            k == kk + (vx_q - p1), bp@[i + 1] == kk + rc@[i as int], kk >= 0,
            bp_upto(bp@, i as int, kk),
            groups_ok(bp@, bj@, bx@, t, i as int), cols_upto(bj@, k as int, ncol as int), cols_ok(ix(rjx@), ncol as int),
            copied(bj@, bx@, kk, rjx@, p1 as int, vx_q - p1),
//@loop 9 start
            let ghost (bj0, bx0) = (bj@, bx@);
            proof { assert(0 <= ix(rjx@)[vx_q as int] < ncol); }
//@loop 9 end
            proof { lemma_groups_frame(bp@, bj0, bx0, bj@, bx@, t, i as int, kk); }
//@loop 8 end
            proof { lemma_row_group(rp@, rc@, bp@, bj@, bx@, rjx1, t, i as int); }
//@after loop 8
        proof { lemma_csr_result(bp@, rc@, bj@, bx@, t, nrow as int, ncol as int); }
//@endfn
//@fn russell_sparse/src/csr_matrix.rs NumCsrMatrix::from_coo
//@spec
    requires
        coo.wf(), coo.nrow < usize::MAX, coo.ncol < usize::MAX, coo.nnz <= i32::MAX,
    ensures
        ret is Ok <==> coo.nnz >= 1,
        ret is Ok ==> {
            let a = ret->Ok_0;
            &&& a.buffers() && a.nrow == coo.nrow && a.ncol == coo.ncol && a.symmetric == coo.symmetric && a.values.len() == coo.nnz
            &&& result_ok(a.row_pointers@, a.col_indices@, a.values@, true, coo.nrow as int, coo.ncol as int, coo.trips(coo.nnz as int))
        },
//@endfn

} // verus!
fn main() {}
