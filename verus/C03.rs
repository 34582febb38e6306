//@include inc_csx.rs
//@include inc_csxdense.rs
//@include inc_sel.rs
verus! {

//@fn russell_sparse/src/csc_matrix.rs NumCscMatrix::from_csr
//@spec
    requires
        csr.wf(), csr.row_pointers@[0] == 0,
        csr.ncol < usize::MAX, csr.nrow < usize::MAX,
    ensures
        ret is Ok,
        ret->Ok_0.wf(),
        ret->Ok_0.nrow == csr.nrow, ret->Ok_0.ncol == csr.ncol, ret->Ok_0.symmetric == csr.symmetric,
        ret->Ok_0.col_pointers@[0] == 0,
        // each group of the result lists exactly the entries of the source that belong to it, in the order of the source
        grouped(ret->Ok_0.col_pointers@, ret->Ok_0.row_indices@, ret->Ok_0.values@, false, csr.ncol as int, csr.trips()),
        // so that the dense meaning is the same
        forall|i: int, j: int| #[trigger] dense_of(ret->Ok_0.trips(), csr.mirror(), i, j) == dense_of(csr.trips(), csr.mirror(), i, j),
//@start
        let ghost t = csr.trips();
        proof {
            lemma_groups_at(csr.row_pointers@, csr.col_indices@, csr.values@, true, csr.nrow as int, csr.nrow as int, csr.ncol as int, csr.values.len() as int);
            assert(keys_ok(t, false, csr.ncol as int)) by {
                assert forall|q: int| 0 <= q < t.len() implies 0 <= key(#[trigger] t[q], false) < csr.ncol by { assert(0 <= csr.col_indices@[q] < csr.ncol); }
            }
            lemma_nbefore_all(t, false, csr.ncol as int);
        }
//@loop 0
        invariant
            csr.wf(), t == csr.trips(), aj@ == csr.col_indices@, nnz == t.len(), ncol == csr.ncol, bp.len() == ncol + 1,
            csr.row_pointers@[0] == 0, nnz == csr.row_pointers@[csr.nrow as int],
            forall|p: int| 0 <= p < t.len() ==> key(#[trigger] t[p], false) == csr.col_indices@[p],
            counts(bp@, t.take(k as int), false, 0, ncol as int),
            bp@[ncol as int] == 0,
//@loop 0 start
            proof {
                assert(t.take(k + 1) =~= t.take(k as int).push(t[k as int]));
                lemma_sel_push(t.take(k as int), t[k as int], false);
                assert(key(t[k as int], false) == csr.col_indices@[k as int]);
                assert(0 <= csr.col_indices@[k as int] < ncol);
                lemma_sel_len(t.take(k as int), false, csr.col_indices@[k as int] as int);
            }
//@after loop 0
        proof { assert(t.take(nnz as int) =~= t); }
//@loop 1
        invariant
            t == csr.trips(), nnz == t.len(), nnz <= i32::MAX, ncol == csr.ncol, bp.len() == ncol + 1, keys_ok(t, false, ncol as int), nbefore(t, false, ncol as int) == nnz,
            starts(bp@, t, false, j as int),
            counts(bp@, t, false, j as int, ncol as int),
            sum == nbefore(t, false, j as int),
//@loop 1 start
            proof { lemma_nbefore_mono(t, false, j as int, j + 1); lemma_nbefore_mono(t, false, j + 1, ncol as int); }
//@after stmt `bp[ncol] = to_i32(nnz);`
        proof {
            assert(t.take(0) =~= Seq::<Trip>::empty());
            assert forall|x: int| 0 <= x < ncol implies #[trigger] filled(bi@, bx@, t, 0, false, x) by { reveal(filled); }
            assert(groups(csr.row_pointers@, csr.col_indices@, csr.values@, true, 0) =~= t.take(0));
        }
//@loop 2
        invariant
            csr.wf(), t == csr.trips(), nnz == t.len(), nnz <= i32::MAX, ncol == csr.ncol, nrow == csr.nrow, bp.len() == ncol + 1, bi.len() == nnz, bx.len() == nnz,
            ap@ == csr.row_pointers@, aj@ == csr.col_indices@, ax@ == csr.values@, csr.row_pointers@[0] == 0, nnz == csr.row_pointers@[nrow as int],
            keys_ok(t, false, ncol as int), nbefore(t, false, ncol as int) == nnz,
            forall|p: int| 0 <= p < t.len() ==> key(#[trigger] t[p], false) == csr.col_indices@[p] && t[p].2 == csr.values@[p]@,
            bp@[ncol as int] == nnz,
            all_next(bp@, t, csr.row_pointers@[i as int] as int, false, ncol as int),
            all_filled(bi@, bx@, t, csr.row_pointers@[i as int] as int, false, ncol as int),
            in_range(bi@, nnz as int, nrow as int),
//@loop 2 start
            proof { assert(csr.row_pointers@[0] <= csr.row_pointers@[i as int] && csr.row_pointers@[i as int] <= csr.row_pointers@[i + 1] && csr.row_pointers@[i + 1] <= csr.row_pointers@[nrow as int]); }
//@loop 3
        invariant
            csr.wf(), t == csr.trips(), nnz == t.len(), nnz <= i32::MAX, ncol == csr.ncol, nrow == csr.nrow, bp.len() == ncol + 1, bi.len() == nnz, bx.len() == nnz, i < nrow,
            ap@ == csr.row_pointers@, aj@ == csr.col_indices@, ax@ == csr.values@, csr.row_pointers@[0] == 0, nnz == csr.row_pointers@[nrow as int],
            0 <= csr.row_pointers@[i as int] <= csr.row_pointers@[i + 1] <= nnz,
            keys_ok(t, false, ncol as int), nbefore(t, false, ncol as int) == nnz,
            forall|p: int| 0 <= p < t.len() ==> key(#[trigger] t[p], false) == csr.col_indices@[p] && t[p].2 == csr.values@[p]@,
            bp@[ncol as int] == nnz,
            all_next(bp@, t, p as int, false, ncol as int),
            all_filled(bi@, bx@, t, p as int, false, ncol as int),
            in_range(bi@, nnz as int, nrow as int),
//@loop 3 start
            let ghost (bi0, bx0) = (bi@, bx@);
            let ghost k0 = csr.col_indices@[p as int] as int;
            proof {
                assert(key(t[p as int], false) == k0);
                assert(0 <= k0 < ncol);
                lemma_entry_group(csr.row_pointers@, csr.col_indices@, csr.values@, true, i as int, csr.nrow as int, csr.ncol as int, csr.values.len() as int, p as int);
                lemma_sel_prefix(t, false, p as int, k0);
                lemma_nbefore_mono(t, false, k0 + 1, ncol as int);
                lemma_nbefore_nonneg(t, false, k0);
                assert(t.take(p + 1) =~= t.take(p as int).push(t[p as int]));
                lemma_sel_push(t.take(p as int), t[p as int], false);
            }
//@loop 3 end
            proof {
                let d = nbefore(t, false, k0) + sel(t.take(p as int), false, k0).len();
                assert forall|x: int| 0 <= x < ncol implies #[trigger] filled(bi@, bx@, t, p + 1, false, x) by {
                    reveal(filled);
                    assert(filled(bi0, bx0, t, p as int, false, x));
                    let s = sel(t.take(p + 1), false, x);
                    let s0 = sel(t.take(p as int), false, x);
                    let base = nbefore(t, false, x);
                    lemma_sel_prefix(t, false, p as int, x);
                    if x < k0 { lemma_nbefore_mono(t, false, x + 1, k0); }
                    if x > k0 { lemma_nbefore_mono(t, false, k0 + 1, x); }
                    assert forall|q: int| 0 <= q < s.len() implies key(#[trigger] s[q], true) == bi@[base + q] && s[q].2 == bx@[base + q]@ by {
                        if q < s0.len() { assert(s[q] == s0[q]); assert(base + q != d); }
                    }
                }
            }
//@loop 4
        invariant
            t == csr.trips(), nnz == t.len(), ncol == csr.ncol, bp.len() == ncol + 1, nbefore(t, false, ncol as int) == nnz,
            ends(bp@, t, false, j as int, ncol as int),
            j <= ncol ==> bp@[ncol as int] == nnz,
            starts(bp@, t, false, j as int),
            last == nbefore(t, false, j as int) || j == ncol + 1,
//@before loop 4
        proof { assert(t.take(csr.row_pointers@[nrow as int] as int) =~= t); }
//@after loop 4
        proof {
            lemma_end_grouped(bp@, bi@, bx@, t, false, ncol as int);
            lemma_grouped_dense(bp@, bi@, bx@, false, ncol as int, t, csr.mirror());
            assert forall|a: int, b: int| 0 <= a <= b <= ncol implies #[trigger] bp@[a] <= #[trigger] bp@[b] by { lemma_nbefore_mono(t, false, a, b); }
            assert(nbefore(t, false, 0) == 0);
        }
//@endfn

//@fn russell_sparse/src/csr_matrix.rs NumCsrMatrix::from_csc
//@spec
    requires
        csc.wf(), csc.col_pointers@[0] == 0,
        csc.ncol < usize::MAX, csc.nrow < usize::MAX,
    ensures
        ret is Ok,
        ret->Ok_0.wf(),
        ret->Ok_0.nrow == csc.nrow, ret->Ok_0.ncol == csc.ncol, ret->Ok_0.symmetric == csc.symmetric,
        ret->Ok_0.row_pointers@[0] == 0,
        // each group of the result lists exactly the entries of the source that belong to it, in the order of the source
        grouped(ret->Ok_0.row_pointers@, ret->Ok_0.col_indices@, ret->Ok_0.values@, true, csc.nrow as int, csc.trips()),
        // so that the dense meaning is the same
        forall|i: int, j: int| #[trigger] dense_of(ret->Ok_0.trips(), csc.mirror(), i, j) == dense_of(csc.trips(), csc.mirror(), i, j),
//@start
        let ghost t = csc.trips();
        proof {
            lemma_groups_at(csc.col_pointers@, csc.row_indices@, csc.values@, false, csc.ncol as int, csc.ncol as int, csc.nrow as int, csc.values.len() as int);
            assert(keys_ok(t, true, csc.nrow as int)) by {
                assert forall|q: int| 0 <= q < t.len() implies 0 <= key(#[trigger] t[q], true) < csc.nrow by { assert(0 <= csc.row_indices@[q] < csc.nrow); }
            }
            lemma_nbefore_all(t, true, csc.nrow as int);
        }
//@loop 0
        invariant
            csc.wf(), t == csc.trips(), ai@ == csc.row_indices@, nnz == t.len(), nrow == csc.nrow, bp.len() == nrow + 1,
            csc.col_pointers@[0] == 0, nnz == csc.col_pointers@[csc.ncol as int],
            forall|p: int| 0 <= p < t.len() ==> key(#[trigger] t[p], true) == csc.row_indices@[p],
            counts(bp@, t.take(k as int), true, 0, nrow as int),
            bp@[nrow as int] == 0,
//@loop 0 start
            proof {
                assert(t.take(k + 1) =~= t.take(k as int).push(t[k as int]));
                lemma_sel_push(t.take(k as int), t[k as int], true);
                assert(key(t[k as int], true) == csc.row_indices@[k as int]);
                assert(0 <= csc.row_indices@[k as int] < nrow);
                lemma_sel_len(t.take(k as int), true, csc.row_indices@[k as int] as int);
            }
//@after loop 0
        proof { assert(t.take(nnz as int) =~= t); }
//@loop 1
        invariant
            t == csc.trips(), nnz == t.len(), nnz <= i32::MAX, nrow == csc.nrow, bp.len() == nrow + 1, keys_ok(t, true, nrow as int), nbefore(t, true, nrow as int) == nnz,
            starts(bp@, t, true, i as int),
            counts(bp@, t, true, i as int, nrow as int),
            sum == nbefore(t, true, i as int),
//@loop 1 start
            proof { lemma_nbefore_mono(t, true, i as int, i + 1); lemma_nbefore_mono(t, true, i + 1, nrow as int); }
//@after stmt `bp[nrow] = to_i32(nnz);`
        proof {
            assert(t.take(0) =~= Seq::<Trip>::empty());
            assert forall|x: int| 0 <= x < nrow implies #[trigger] filled(bj@, bx@, t, 0, true, x) by { reveal(filled); }
            assert(groups(csc.col_pointers@, csc.row_indices@, csc.values@, false, 0) =~= t.take(0));
        }
//@loop 2
        invariant
            csc.wf(), t == csc.trips(), nnz == t.len(), nnz <= i32::MAX, nrow == csc.nrow, ncol == csc.ncol, bp.len() == nrow + 1, bj.len() == nnz, bx.len() == nnz,
            ap@ == csc.col_pointers@, ai@ == csc.row_indices@, ax@ == csc.values@, csc.col_pointers@[0] == 0, nnz == csc.col_pointers@[ncol as int],
            keys_ok(t, true, nrow as int), nbefore(t, true, nrow as int) == nnz,
            forall|p: int| 0 <= p < t.len() ==> key(#[trigger] t[p], true) == csc.row_indices@[p] && t[p].2 == csc.values@[p]@,
            bp@[nrow as int] == nnz,
            all_next(bp@, t, csc.col_pointers@[j as int] as int, true, nrow as int),
            all_filled(bj@, bx@, t, csc.col_pointers@[j as int] as int, true, nrow as int),
            in_range(bj@, nnz as int, ncol as int),
//@loop 2 start
            proof { assert(csc.col_pointers@[0] <= csc.col_pointers@[j as int] && csc.col_pointers@[j as int] <= csc.col_pointers@[j + 1] && csc.col_pointers@[j + 1] <= csc.col_pointers@[ncol as int]); }
//@loop 3
        invariant
            csc.wf(), t == csc.trips(), nnz == t.len(), nnz <= i32::MAX, nrow == csc.nrow, ncol == csc.ncol, bp.len() == nrow + 1, bj.len() == nnz, bx.len() == nnz, j < ncol,
            ap@ == csc.col_pointers@, ai@ == csc.row_indices@, ax@ == csc.values@, csc.col_pointers@[0] == 0, nnz == csc.col_pointers@[ncol as int],
            0 <= csc.col_pointers@[j as int] <= csc.col_pointers@[j + 1] <= nnz,
            keys_ok(t, true, nrow as int), nbefore(t, true, nrow as int) == nnz,
            forall|p: int| 0 <= p < t.len() ==> key(#[trigger] t[p], true) == csc.row_indices@[p] && t[p].2 == csc.values@[p]@,
            bp@[nrow as int] == nnz,
            all_next(bp@, t, p as int, true, nrow as int),
            all_filled(bj@, bx@, t, p as int, true, nrow as int),
            in_range(bj@, nnz as int, ncol as int),
//@loop 3 start
            let ghost (bj0, bx0) = (bj@, bx@);
            let ghost k0 = csc.row_indices@[p as int] as int;
            proof {
                assert(key(t[p as int], true) == k0);
                assert(0 <= k0 < nrow);
                lemma_entry_group(csc.col_pointers@, csc.row_indices@, csc.values@, false, j as int, csc.ncol as int, csc.nrow as int, csc.values.len() as int, p as int);
                lemma_sel_prefix(t, true, p as int, k0);
                lemma_nbefore_mono(t, true, k0 + 1, nrow as int);
                lemma_nbefore_nonneg(t, true, k0);
                assert(t.take(p + 1) =~= t.take(p as int).push(t[p as int]));
                lemma_sel_push(t.take(p as int), t[p as int], true);
            }
//@loop 3 end
            proof {
                let d = nbefore(t, true, k0) + sel(t.take(p as int), true, k0).len();
                assert forall|x: int| 0 <= x < nrow implies #[trigger] filled(bj@, bx@, t, p + 1, true, x) by {
                    reveal(filled);
                    assert(filled(bj0, bx0, t, p as int, true, x));
                    let s = sel(t.take(p + 1), true, x);
                    let s0 = sel(t.take(p as int), true, x);
                    let base = nbefore(t, true, x);
                    lemma_sel_prefix(t, true, p as int, x);
                    if x < k0 { lemma_nbefore_mono(t, true, x + 1, k0); }
                    if x > k0 { lemma_nbefore_mono(t, true, k0 + 1, x); }
                    assert forall|q: int| 0 <= q < s.len() implies key(#[trigger] s[q], false) == bj@[base + q] && s[q].2 == bx@[base + q]@ by {
                        if q < s0.len() { assert(s[q] == s0[q]); assert(base + q != d); }
                    }
                }
            }
//@loop 4
        invariant
            t == csc.trips(), nnz == t.len(), nrow == csc.nrow, bp.len() == nrow + 1, nbefore(t, true, nrow as int) == nnz,
            ends(bp@, t, true, i as int, nrow as int),
            i <= nrow ==> bp@[nrow as int] == nnz,
            starts(bp@, t, true, i as int),
            last == nbefore(t, true, i as int) || i == nrow + 1,
//@before loop 4
        proof { assert(t.take(csc.col_pointers@[ncol as int] as int) =~= t); }
//@after loop 4
        proof {
            lemma_end_grouped(bp@, bj@, bx@, t, true, nrow as int);
            lemma_grouped_dense(bp@, bj@, bx@, true, nrow as int, t, csc.mirror());
            assert forall|a: int, b: int| 0 <= a <= b <= nrow implies #[trigger] bp@[a] <= #[trigger] bp@[b] by { lemma_nbefore_mono(t, true, a, b); }
            assert(nbefore(t, true, 0) == 0);
        }
//@endfn

// one group of the raw arrays
pub open spec fn step_ok(ptr: Seq<i32>, idx: Seq<i32>, major: int, minor: int, a: int) -> bool {
    &&& 0 <= ptr[a] <= ptr[a + 1] <= ptr[major]
    &&& forall|q: int| ptr[a] <= q < ptr[a + 1] ==> 0 <= #[trigger] idx[q] < minor && (q > ptr[a] ==> idx[q - 1] <= idx[q])
}
// well-formed raw arrays
pub open spec fn raw_ok(ptr: Seq<i32>, idx: Seq<i32>, nval: int, major: int, minor: int) -> bool {
    &&& major >= 1 && minor >= 1 && ptr.len() == major + 1 && ptr[0] == 0 && ptr[major] >= 1 && idx.len() >= ptr[major] && nval >= ptr[major]
    &&& forall|a: int| 0 <= a < major ==> #[trigger] step_ok(ptr, idx, major, minor, a)
}
proof fn lemma_raw_mono(ptr: Seq<i32>, idx: Seq<i32>, major: int, minor: int, a: int, b: int)
    requires forall|a: int| 0 <= a < major ==> #[trigger] step_ok(ptr, idx, major, minor, a), 0 <= a <= b <= major
    ensures ptr[a] <= ptr[b]
    decreases b - a
{
    if a < b { lemma_raw_mono(ptr, idx, major, minor, a, b - 1); assert(step_ok(ptr, idx, major, minor, b - 1)); }
}
proof fn lemma_raw_group(ptr: Seq<i32>, idx: Seq<i32>, major: int, minor: int, k: int, q: int)
    requires forall|a: int| 0 <= a < major ==> #[trigger] step_ok(ptr, idx, major, minor, a), 0 <= k <= major, ptr[0] == 0, 0 <= q < ptr[k]
    ensures 0 <= idx[q] < minor
    decreases k
{
    if k > 0 {
        assert(step_ok(ptr, idx, major, minor, k - 1));
        if q < ptr[k - 1] { lemma_raw_group(ptr, idx, major, minor, k - 1, q); }
    }
}
pub proof fn lemma_raw(ptr: Seq<i32>, idx: Seq<i32>, nval: int, major: int, minor: int)
    requires raw_ok(ptr, idx, nval, major, minor)
    ensures comp_ok(ptr, idx, nval, major, minor)
{
    assert forall|a: int, b: int| 0 <= a <= b <= major implies #[trigger] ptr[a] <= #[trigger] ptr[b] by { lemma_raw_mono(ptr, idx, major, minor, a, b); }
    assert forall|q: int| ptr[0] <= q < ptr[major] implies 0 <= #[trigger] idx[q] < minor by { lemma_raw_group(ptr, idx, major, minor, major, q); }
}

//@fn russell_sparse/src/csr_matrix.rs NumCsrMatrix::new
//@spec
    requires
        nrow < usize::MAX,
    ensures
        ret is Ok <==> raw_ok(row_pointers@, col_indices@, values.len() as int, nrow as int, ncol as int) && (symmetric != Sym::No ==> nrow == ncol),
        ret is Ok ==> {
            let a = ret->Ok_0;
            &&& a.wf() && a.nrow == nrow && a.ncol == ncol && a.symmetric == symmetric
            &&& a.row_pointers == row_pointers && a.col_indices == col_indices && a.values == values
        },
//@loop 0
        invariant
            nrow >= 1, ncol >= 1, row_pointers.len() == nrow + 1, nrow < usize::MAX, nnz == row_pointers@[nrow as int], nnz >= 1, col_indices.len() >= nnz, values.len() >= nnz,
            symmetric != Sym::No ==> nrow == ncol, n as int == ncol as int,
            i > 0 ==> row_pointers@[0] == 0,
            forall|a: int| 0 <= a < i ==> #[trigger] step_ok(row_pointers@, col_indices@, nrow as int, ncol as int, a),
//@loop 1
        invariant
            i < nrow, row_pointers.len() == nrow + 1, nrow < usize::MAX, nnz == row_pointers@[nrow as int], col_indices.len() >= nnz, n as int == ncol as int,
            0 <= row_pointers@[i as int] <= row_pointers@[i + 1] <= nnz, start == row_pointers@[i as int], end == row_pointers@[i + 1],
            forall|q: int| start <= q < p ==> 0 <= #[trigger] col_indices@[q] < ncol && (q > start ==> col_indices@[q - 1] <= col_indices@[q]),
//@before stmt `return Err("column indices must be ≥ 0");`
        proof { assert(!step_ok(row_pointers@, col_indices@, nrow as int, ncol as int, i as int)); }
//@before stmt `return Err("column indices must be < ncol");`
        proof { assert(!step_ok(row_pointers@, col_indices@, nrow as int, ncol as int, i as int)); }
//@before stmt `return Err("column indices must be sorted in ascending order (within their row)");`
        proof { assert(0 <= col_indices@[p as int]); assert(!step_ok(row_pointers@, col_indices@, nrow as int, ncol as int, i as int)); }
//@before stmt `return Err("row pointers must be sorted in ascending order");`
        proof { assert(!step_ok(row_pointers@, col_indices@, nrow as int, ncol as int, i as int)); }
//@before stmt `return Err("row pointers must be ≥ 0");`
        proof { assert(!step_ok(row_pointers@, col_indices@, nrow as int, ncol as int, i as int)); }
//@after loop 0
        proof { lemma_raw(row_pointers@, col_indices@, values.len() as int, nrow as int, ncol as int); }
//@endfn

//@fn russell_sparse/src/csc_matrix.rs NumCscMatrix::new
//@spec
    requires
        ncol < usize::MAX,
    ensures
        ret is Ok <==> raw_ok(col_pointers@, row_indices@, values.len() as int, ncol as int, nrow as int) && (symmetric != Sym::No ==> nrow == ncol),
        ret is Ok ==> {
            let a = ret->Ok_0;
            &&& a.wf() && a.nrow == nrow && a.ncol == ncol && a.symmetric == symmetric
            &&& a.col_pointers == col_pointers && a.row_indices == row_indices && a.values == values
        },
//@loop 0
        invariant
            nrow >= 1, ncol >= 1, col_pointers.len() == ncol + 1, ncol < usize::MAX, nnz == col_pointers@[ncol as int], nnz >= 1, row_indices.len() >= nnz, values.len() >= nnz,
            symmetric != Sym::No ==> nrow == ncol, m as int == nrow as int,
            j > 0 ==> col_pointers@[0] == 0,
            forall|a: int| 0 <= a < j ==> #[trigger] step_ok(col_pointers@, row_indices@, ncol as int, nrow as int, a),
//@loop 1
        invariant
            j < ncol, col_pointers.len() == ncol + 1, ncol < usize::MAX, nnz == col_pointers@[ncol as int], row_indices.len() >= nnz, m as int == nrow as int,
            0 <= col_pointers@[j as int] <= col_pointers@[j + 1] <= nnz, start == col_pointers@[j as int], end == col_pointers@[j + 1],
            forall|q: int| start <= q < p ==> 0 <= #[trigger] row_indices@[q] < nrow && (q > start ==> row_indices@[q - 1] <= row_indices@[q]),
//@before stmt `return Err("row indices must be ≥ 0");`
        proof { assert(!step_ok(col_pointers@, row_indices@, ncol as int, nrow as int, j as int)); }
//@before stmt `return Err("row indices must be < nrow");`
        proof { assert(!step_ok(col_pointers@, row_indices@, ncol as int, nrow as int, j as int)); }
//@before stmt `return Err("row indices must be sorted in ascending order (within their column)");`
        proof { assert(0 <= row_indices@[p as int]); assert(!step_ok(col_pointers@, row_indices@, ncol as int, nrow as int, j as int)); }
//@before stmt `return Err("col pointers must be sorted in ascending order");`
        proof { assert(!step_ok(col_pointers@, row_indices@, ncol as int, nrow as int, j as int)); }
//@before stmt `return Err("col pointers must be ≥ 0");`
        proof { assert(!step_ok(col_pointers@, row_indices@, ncol as int, nrow as int, j as int)); }
//@after loop 0
        proof { lemma_raw(col_pointers@, row_indices@, values.len() as int, ncol as int, nrow as int); }
//@endfn

} // verus!
fn main() {}
