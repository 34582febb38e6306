use crate::c01::*;
use hx_common::*;
use russell_lab::*;
use russell_sparse::*;
use std::collections::BTreeMap;

type Trip = Vec<(usize, usize, f64)>;

/// random triplets; duplicates, empty rows and columns are common
fn gen_trip(g: &mut Gen, m: usize, n: usize, sym: Sym, lo: usize) -> Trip {
    let nnz = g.dim(lo.max(1), 300).max(lo);
    let few = g.chance(1, 3);
    let mut t = vec![];
    while t.len() < nnz {
        let mut i = g.usize(0, m - 1);
        let mut j = g.usize(0, n - 1);
        if few {
            i = i.min(2);
            j = j.min(2);
        }
        if sym == Sym::YesLower && j > i || sym == Sym::YesUpper && j < i {
            std::mem::swap(&mut i, &mut j);
        }
        let x = g.ival();
        t.push((i, j, x));
        if sym == Sym::YesFull && i != j && t.len() < nnz {
            t.push((j, i, x));
        }
    }
    t
}

fn gen_dims(g: &mut Gen, sym: Sym) -> (usize, usize) {
    let m = g.dim(1, 50);
    let n = if sym == Sym::No { g.dim(1, 50) } else { m };
    (m, n)
}

fn make(m: usize, n: usize, sym: Sym, t: &Trip, extra: usize) -> CooMatrix {
    let mut c = CooMatrix::new(m, n, t.len() + extra, sym).unwrap();
    for (i, j, x) in t {
        c.put(*i, *j, *x).unwrap();
    }
    c
}

fn sums(t: &Trip) -> BTreeMap<(usize, usize), f64> {
    let mut s = BTreeMap::new();
    for (i, j, x) in t {
        *s.entry((*i, *j)).or_insert(0.0) += x;
    }
    s
}

/// the compressed arrays hold exactly the positions and sums, strictly increasing within each group
fn check_compressed(major: usize, minor: usize, ptr: &[i32], idx: &[i32], val: &[f64], want: &BTreeMap<(usize, usize), f64>) -> Res {
    ck!(ptr.len() == major + 1, "{} pointers for {} groups", ptr.len(), major);
    ck!(ptr[0] == 0, "first pointer is {}", ptr[0]);
    for k in 0..major {
        ck!(ptr[k] <= ptr[k + 1], "pointers decrease at {}: {} > {}", k, ptr[k], ptr[k + 1]);
    }
    let nnz = ptr[major] as usize;
    ck!(nnz == want.len(), "{} stored entries, {} distinct positions", nnz, want.len());
    ck!(idx.len() == nnz && val.len() == nnz, "index and value lengths {} {} for {} entries", idx.len(), val.len(), nnz);
    for k in 0..major {
        for p in ptr[k] as usize..ptr[k + 1] as usize {
            let q = idx[p];
            ck!(q >= 0 && (q as usize) < minor, "index {} out of range in group {}", q, k);
            if p > ptr[k] as usize {
                ck!(idx[p - 1] < q, "indices not strictly increasing in group {}", k);
            }
            match want.get(&(k, q as usize)) {
                None => return Err(format!("entry at group {} index {} does not exist in the source", k, q)),
                Some(x) => ck!(*x == val[p], "entry at group {} index {} is {:?}, expected {:?}", k, q, val[p], x),
            }
        }
    }
    Ok(())
}

fn check_csr(csr: &CsrMatrix, m: usize, n: usize, sym: Sym, t: &Trip) -> Res {
    let s = sums(t);
    ck!(csr.get_info() == (m, n, s.len(), sym), "csr info {:?}", csr.get_info());
    check_compressed(m, n, csr.get_row_pointers(), csr.get_col_indices(), csr.get_values(), &s).map_err(|e| format!("csr: {}", e))?;
    same_dense(&csr.as_dense(), &dense_of(m, n, t, sym)).map_err(|e| format!("csr as_dense: {}", e))?;
    let mut a = Matrix::filled(m, n, 5.0);
    csr.to_dense(&mut a)?;
    same_dense(&a, &dense_of(m, n, t, sym)).map_err(|e| format!("csr to_dense: {}", e))
}

fn check_csc(csc: &CscMatrix, m: usize, n: usize, sym: Sym, t: &Trip) -> Res {
    let s: BTreeMap<(usize, usize), f64> = sums(t).into_iter().map(|((i, j), x)| ((j, i), x)).collect();
    ck!(csc.get_info() == (m, n, s.len(), sym), "csc info {:?}", csc.get_info());
    check_compressed(n, m, csc.get_col_pointers(), csc.get_row_indices(), csc.get_values(), &s).map_err(|e| format!("csc: {}", e))?;
    same_dense(&csc.as_dense(), &dense_of(m, n, t, sym)).map_err(|e| format!("csc as_dense: {}", e))?;
    let mut a = Matrix::filled(m, n, 5.0);
    csc.to_dense(&mut a)?;
    same_dense(&a, &dense_of(m, n, t, sym)).map_err(|e| format!("csc to_dense: {}", e))
}

pub fn register_c02(cx: &mut Ctx) {
    cx.cases("from_coo", |g| {
        let sym = *g.pick(&SYMS);
        let (m, n) = gen_dims(g, sym);
        let t = gen_trip(g, m, n, sym, 1);
        note!(g, "{}x{} {:?} triplets {:?}", m, n, sym, t);
        let coo = make(m, n, sym, &t, 3);
        check_csr(&CsrMatrix::from_coo(&coo)?, m, n, sym, &t)?;
        check_csc(&CscMatrix::from_coo(&coo)?, m, n, sym, &t)
    });
    cx.cases("refresh", |g| {
        // the same compressed object refreshed with other triplets of the same count
        let sym = *g.pick(&SYMS);
        let (m, n) = gen_dims(g, sym);
        let mut t = gen_trip(g, m, n, sym, 1);
        note!(g, "{}x{} {:?} first {:?}", m, n, sym, t);
        let mut coo = make(m, n, sym, &t, 0);
        let mut csr = CsrMatrix::from_coo(&coo)?;
        let mut csc = CscMatrix::from_coo(&coo)?;
        for _ in 0..g.usize(1, 3) {
            let nnz = t.len();
            t = gen_trip(g, m, n, sym, nnz);
            t.truncate(nnz);
            coo.reset();
            for (i, j, x) in &t {
                coo.put(*i, *j, *x)?;
            }
            note!(g, "refresh {:?}", t);
            csr.update_from_coo(&coo).map_err(|e| format!("update csr: {}", e))?;
            check_csr(&csr, m, n, sym, &t)?;
            csc.update_from_coo(&coo).map_err(|e| format!("update csc: {}", e))?;
            check_csc(&csc, m, n, sym, &t)?;
        }
        // refused refreshes change nothing
        let other = make(m, n, sym, &vec![(0, 0, 1.0)], 0);
        if t.len() != 1 {
            ck!(csr.update_from_coo(&other).is_err() && csc.update_from_coo(&other).is_err(), "refresh with another number of triplets accepted");
            check_csr(&csr, m, n, sym, &t)?;
            check_csc(&csc, m, n, sym, &t)?;
        }
        Ok(())
    });
    cx.once("empty", |_| {
        let c = CooMatrix::new(2, 3, 4, Sym::No).unwrap();
        ck!(CsrMatrix::from_coo(&c).is_err() && CscMatrix::from_coo(&c).is_err(), "empty triplet matrix converted");
        Ok(())
    });
}

pub fn register_c03(cx: &mut Ctx) {
    cx.cases_w("csr_csc", 2, |g| {
        let sym = *g.pick(&SYMS);
        let (m, n) = gen_dims(g, sym);
        let t = gen_trip(g, m, n, sym, 1);
        note!(g, "{}x{} {:?} triplets {:?}", m, n, sym, t);
        let coo = make(m, n, sym, &t, 0);
        let csr = CsrMatrix::from_coo(&coo)?;
        let csc = CscMatrix::from_coo(&coo)?;
        check_csc(&CscMatrix::from_csr(&csr)?, m, n, sym, &t).map_err(|e| format!("from_csr: {}", e))?;
        check_csr(&CsrMatrix::from_csc(&csc)?, m, n, sym, &t).map_err(|e| format!("from_csc: {}", e))?;
        check_csr(&CsrMatrix::from_csc(&CscMatrix::from_csr(&csr)?)?, m, n, sym, &t).map_err(|e| format!("round trip: {}", e))
    });
    cx.cases("raw_arrays", |g| {
        // arrays given directly: duplicates inside a row are allowed, values kept in order
        let m = g.dim(1, 12);
        let n = g.dim(1, 12);
        let mut ptr = vec![0i32];
        let mut idx: Vec<i32> = vec![];
        let mut val: Vec<f64> = vec![];
        let mut t: Trip = vec![];
        for i in 0..m {
            let mut js: Vec<usize> = (0..g.usize(0, 3)).map(|_| g.usize(0, n - 1)).collect();
            js.sort();
            for j in js {
                let x = g.ival();
                idx.push(j as i32);
                val.push(x);
                t.push((i, j, x));
            }
            ptr.push(idx.len() as i32);
        }
        let mut ok = !idx.is_empty();
        let mut what = "well formed".to_string();
        if ok && g.chance(1, 2) {
            // one defect
            match g.usize(0, 5) {
                0 => {
                    let k = g.usize(0, idx.len() - 1);
                    idx[k] = n as i32;
                    ok = false;
                    what = format!("index {} out of range", k);
                }
                1 => {
                    let k = g.usize(0, idx.len() - 1);
                    idx[k] = -1;
                    ok = false;
                    what = format!("index {} negative", k);
                }
                2 => {
                    let k = g.usize(0, m - 1);
                    ptr[k] = -1;
                    ok = false;
                    what = format!("pointer {} negative", k);
                }
                3 => {
                    let k = g.usize(0, m - 1);
                    ptr[k] = ptr[m] + g.int(1, 90) as i32;
                    ok = false;
                    what = format!("pointer {} too large", k);
                }
                4 => {
                    if ptr[1] < 1 {
                        return Ok(());
                    }
                    ptr[0] = 1;
                    ok = false;
                    what = "first pointer not zero".to_string();
                }
                _ => {
                    val.pop();
                    ok = false;
                    what = "a value missing".to_string();
                }
            }
        }
        note!(g, "{}x{} ptr {:?} idx {:?} val {:?} ({})", m, n, ptr, idx, val, what);
        let a = CsrMatrix::new(m, n, ptr.clone(), idx.clone(), val.clone(), Sym::No);
        ck!(a.is_ok() == ok, "CsrMatrix::new returned ok = {} for arrays with: {}", a.is_ok(), what);
        let b = CscMatrix::new(n, m, ptr, idx, val, Sym::No);
        ck!(b.is_ok() == ok, "CscMatrix::new returned ok = {} for arrays with: {}", b.is_ok(), what);
        if let (Ok(a), Ok(b)) = (a, b) {
            let d = dense_of(m, n, &t, Sym::No);
            same_dense(&a.as_dense(), &d)?;
            same_dense(&CscMatrix::from_csr(&a)?.as_dense(), &d).map_err(|e| format!("from_csr: {}", e))?;
            let tt: Trip = t.iter().map(|x| (x.1, x.0, x.2)).collect();
            let d2 = dense_of(n, m, &tt, Sym::No);
            same_dense(&b.as_dense(), &d2)?;
            let r = CsrMatrix::from_csc(&b)?;
            same_dense(&r.as_dense(), &d2).map_err(|e| format!("from_csc: {}", e))?;
            ck!(r.get_values().len() == t.len(), "from_csc lost entries");
        }
        Ok(())
    });
}

pub fn register_c04(cx: &mut Ctx) {
    cx.cases("products", |g| {
        let sym = *g.pick(&SYMS);
        let (m, n) = gen_dims(g, sym);
        let t = gen_trip(g, m, n, sym, 1);
        let alpha = g.ival();
        let long = g.chance(1, 4);
        let (ul, vl) = if long { (n + g.usize(0, 2), m + g.usize(0, 2)) } else { (n, m) };
        let u: Vec<f64> = (0..ul).map(|_| g.ival()).collect();
        let v0: Vec<f64> = (0..vl).map(|_| g.ival()).collect();
        note!(g, "{}x{} {:?} triplets {:?} alpha {:?} u {:?} v {:?}", m, n, sym, t, alpha, u, v0);
        let coo = make(m, n, sym, &t, 1);
        let d = dense_of(m, n, &t, sym);
        let want: Vec<f64> = (0..vl).map(|i| if i < m { (0..n).map(|j| alpha * d[i][j] * u[j]).sum::<f64>() } else { 0.0 }).collect();
        let uu = Vector::from(&u);
        let mut v = Vector::from(&v0);
        coo.mat_vec_mul(&mut v, alpha, &uu)?;
        ck!(v.as_data() == &want, "triplet product {:?} expected {:?}", v.as_data(), want);
        let mut v = Vector::from(&v0);
        coo.mat_vec_mul_update(&mut v, alpha, &uu)?;
        let want2: Vec<f64> = (0..vl).map(|i| v0[i] + want[i]).collect();
        ck!(v.as_data() == &want2, "triplet product update {:?} expected {:?}", v.as_data(), want2);
        if !long {
            let csr = CsrMatrix::from_coo(&coo)?;
            let csc = CscMatrix::from_coo(&coo)?;
            let mut v = Vector::from(&v0);
            csr.mat_vec_mul(&mut v, alpha, &uu)?;
            ck!(v.as_data() == &want, "row-compressed product {:?} expected {:?}", v.as_data(), want);
            let mut v = Vector::from(&v0);
            csc.mat_vec_mul(&mut v, alpha, &uu)?;
            ck!(v.as_data() == &want, "column-compressed product {:?} expected {:?}", v.as_data(), want);
        }
        // transposed product
        let x: Vec<f64> = (0..m).map(|_| g.ival()).collect();
        let wt: Vec<f64> = (0..n).map(|j| (0..m).map(|i| alpha * d[i][j] * x[i]).sum::<f64>()).collect();
        let mut v = Vector::filled(n, 3.0);
        coo.mat_t_vec_mul(&mut v, alpha, &Vector::from(&x))?;
        ck!(v.as_data() == &wt, "transposed product {:?} expected {:?}", v.as_data(), wt);
        Ok(())
    });
    cx.cases("lengths", |g| {
        let (m, n) = (g.dim(1, 6), g.dim(1, 6));
        let coo = make(m, n, Sym::No, &vec![(m - 1, n - 1, 2.0)], 0);
        let csr = CsrMatrix::from_coo(&coo)?;
        let csc = CscMatrix::from_coo(&coo)?;
        let (ul, vl) = (g.usize(0, n + 2), g.usize(0, m + 2));
        let u = Vector::filled(ul, 1.0);
        note!(g, "{}x{} u {} v {}", m, n, ul, vl);
        let mut v = Vector::filled(vl, 9.0);
        for k in 0..4 {
            let ok = if k < 2 { ul >= n && vl >= m } else { ul == n && vl == m };
            v.fill(9.0);
            let r = match k {
                0 => coo.mat_vec_mul(&mut v, 1.0, &u),
                1 => coo.mat_vec_mul_update(&mut v, 1.0, &u),
                2 => csr.mat_vec_mul(&mut v, 1.0, &u),
                _ => csc.mat_vec_mul(&mut v, 1.0, &u),
            };
            ck!(r.is_ok() == ok, "product {} with vectors of length {} and {}: ok = {}", k, ul, vl, r.is_ok());
            if !ok {
                ck!(v.as_data().iter().all(|x| *x == 9.0), "refused product {} modified the result", k);
            }
        }
        Ok(())
    });
    cx.cases("complex", |g| {
        let sym = *g.pick(&SYMS);
        let (m, n) = gen_dims(g, sym);
        let t = gen_trip(g, m, n, sym, 1);
        let mut coo = ComplexCooMatrix::new(m, n, t.len(), sym).unwrap();
        let ph = cpx!(g.ival(), g.ival());
        for (i, j, x) in &t {
            coo.put(*i, *j, ph * *x)?;
        }
        let d = dense_of(m, n, &t, sym);
        let u: Vec<_> = (0..n).map(|_| cpx!(g.ival(), g.ival())).collect();
        let alpha = cpx!(g.ival(), g.ival());
        let uu = ComplexVector::from(&u);
        let csr = ComplexCsrMatrix::from_coo(&coo)?;
        let csc = ComplexCscMatrix::from_coo(&coo)?;
        note!(g, "complex {}x{} {:?} {:?}", m, n, sym, t);
        for k in 0..4 {
            let mut v = ComplexVector::filled(m, cpx!(3.0, 1.0));
            let mut base = cpx!(0.0, 0.0);
            match k {
                0 => coo.mat_vec_mul(&mut v, alpha, &uu)?,
                1 => csr.mat_vec_mul(&mut v, alpha, &uu)?,
                2 => csc.mat_vec_mul(&mut v, alpha, &uu)?,
                _ => {
                    base = cpx!(3.0, 1.0);
                    coo.mat_vec_mul_update(&mut v, alpha, &uu)?
                }
            }
            for i in 0..m {
                let mut w = base;
                for j in 0..n {
                    w += alpha * ph * d[i][j] * u[j];
                }
                ck!((v[i] - w).norm() <= 1e-10 * (1.0 + w.norm()), "complex product {} row {}: {} expected {}", k, i, v[i], w);
            }
        }
        Ok(())
    });
}
