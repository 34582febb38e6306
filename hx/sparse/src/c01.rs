use hx_common::*;
use num_complex::Complex64;
use russell_lab::*;
use russell_sparse::*;

pub const SYMS: [Sym; 4] = [Sym::No, Sym::YesFull, Sym::YesLower, Sym::YesUpper];

/// the sum of the triplets, mirrored for triangular storage
pub fn dense_of(m: usize, n: usize, trip: &[(usize, usize, f64)], sym: Sym) -> Vec<Vec<f64>> {
    let mut a = vec![vec![0.0; n]; m];
    for (i, j, x) in trip {
        a[*i][*j] += x;
        if (sym == Sym::YesLower || sym == Sym::YesUpper) && i != j {
            a[*j][*i] += x;
        }
    }
    a
}

pub fn same_dense(a: &Matrix, b: &Vec<Vec<f64>>) -> Res {
    let (m, n) = a.dims();
    ck!(m == b.len() && (m == 0 || n == b[0].len()), "dense dimensions {}x{}", m, n);
    for i in 0..m {
        for j in 0..n {
            ck!(a.get(i, j) == b[i][j], "dense entry ({},{}) is {:?} but the stored entries add up to {:?}", i, j, a.get(i, j), b[i][j]);
        }
    }
    Ok(())
}

fn allowed(sym: Sym, i: usize, j: usize) -> bool {
    match sym {
        Sym::YesLower => j <= i,
        Sym::YesUpper => j >= i,
        _ => true,
    }
}

fn check(coo: &CooMatrix, m: usize, n: usize, sym: Sym, acc: &[(usize, usize, f64)]) -> Res {
    ck!(coo.get_info() == (m, n, acc.len(), sym), "get_info() = {:?}, expected {:?}", coo.get_info(), (m, n, acc.len(), sym));
    ck!(coo.get_nnz() == acc.len(), "get_nnz() = {}", coo.get_nnz());
    let (ii, jj, vv) = (coo.get_row_indices(), coo.get_col_indices(), coo.get_values());
    ck!(ii.len() == acc.len() && jj.len() == acc.len() && vv.len() == acc.len(), "lengths {} {} {}", ii.len(), jj.len(), vv.len());
    for (k, (i, j, x)) in acc.iter().enumerate() {
        ck!(ii[k] as usize == *i && jj[k] as usize == *j && vv[k] == *x, "entry {} is ({},{},{:?}), inserted ({},{},{:?})", k, ii[k], jj[k], vv[k], i, j, x);
    }
    let actual = if sym == Sym::YesLower || sym == Sym::YesUpper {
        acc.iter().map(|t| if t.0 == t.1 { 1 } else { 2 }).sum()
    } else {
        acc.len()
    };
    ck!(coo.get_actual_nnz() == actual, "get_actual_nnz() = {} expected {}", coo.get_actual_nnz(), actual);
    let d = dense_of(m, n, acc, sym);
    same_dense(&coo.as_dense(), &d)?;
    let mut a = Matrix::filled(m, n, 123.0);
    coo.to_dense(&mut a).map_err(|e| format!("to_dense: {}", e))?;
    same_dense(&a, &d)?;
    let mut w = Matrix::filled(m + 1, n, 7.0);
    ck!(coo.to_dense(&mut w).is_err(), "to_dense accepted wrong dimensions");
    ck!(w.as_data().iter().all(|x| *x == 7.0), "to_dense modified the matrix that it refused");
    Ok(())
}

pub fn register(cx: &mut Ctx) {
    cx.cases_w("histories", 3, |g| {
        let sym = *g.pick(&SYMS);
        let m = g.dim(1, 40);
        let n = if sym == Sym::No { g.dim(1, 40) } else { m };
        let cap = g.dim(1, 200);
        note!(g, "CooMatrix::new({}, {}, {}, {:?})", m, n, cap, sym);
        let mut coo = CooMatrix::new(m, n, cap, sym).map_err(|e| e.to_string())?;
        let mut acc: Vec<(usize, usize, f64)> = vec![];
        check(&coo, m, n, sym, &acc)?;
        let nops = g.usize(0, cap + 4);
        for op in 0..nops {
            if g.chance(1, 25) {
                coo.reset();
                acc.clear();
                note!(g, "reset()");
                continue;
            }
            let i = g.usize(0, m);
            let j = g.usize(0, n);
            let x = g.ival();
            let ok = i < m && j < n && acc.len() < cap && allowed(sym, i, j);
            note!(g, "put({}, {}, {:?})", i, j, x);
            let r = coo.put(i, j, x);
            ck!(r.is_ok() == ok, "put({}, {}, {:?}) returned {:?} with {} of {} entries used", i, j, x, r, acc.len(), cap);
            if ok {
                acc.push((i, j, x));
            }
            if op % 5 == 0 || !ok {
                check(&coo, m, n, sym, &acc)?;
            }
        }
        check(&coo, m, n, sym, &acc)
    });
    cx.cases("constructors", |g| {
        let sym = *g.pick(&SYMS);
        let (m, n, cap) = (g.usize(0, 3), g.usize(0, 3), g.usize(0, 3));
        note!(g, "new({},{},{},{:?})", m, n, cap, sym);
        let ok = m > 0 && n > 0 && cap > 0 && (sym == Sym::No || m == n);
        ck!(CooMatrix::new(m, n, cap, sym).is_ok() == ok, "new returned ok = {}", !ok);
        let k = g.usize(0, 4);
        let li = k;
        let lj = if g.chance(1, 8) { k + 1 } else { k };
        let lv = if g.chance(1, 8) { k + 1 } else { k };
        let ii: Vec<i32> = (0..li).map(|_| if g.chance(3, 4) { g.int(0, m.max(1) as i64 - 1) as i32 } else { g.int(-1, m as i64) as i32 }).collect();
        let jj: Vec<i32> = (0..lj).map(|_| if g.chance(3, 4) { g.int(0, n.max(1) as i64 - 1) as i32 } else { g.int(-1, n as i64) as i32 }).collect();
        let vv: Vec<f64> = (0..lv).map(|_| g.ival()).collect();
        note!(g, "from({},{},{:?},{:?},{:?},{:?})", m, n, ii, jj, vv, sym);
        let mut ok = m > 0 && n > 0 && k > 0 && lj == k && lv == k && (sym == Sym::No || m == n);
        if ok {
            for p in 0..k {
                ok = ok && ii[p] >= 0 && ii[p] < m as i32 && jj[p] >= 0 && jj[p] < n as i32 && allowed(sym, ii[p] as usize, jj[p] as usize);
            }
        }
        let r = CooMatrix::from(m, n, ii.clone(), jj.clone(), vv.clone(), sym);
        ck!(r.is_ok() == ok, "from returned {:?}, expected ok = {}", r.as_ref().map(|_| ()), ok);
        if let Ok(c) = r {
            let acc: Vec<_> = (0..k).map(|p| (ii[p] as usize, jj[p] as usize, vv[p])).collect();
            check(&c, m, n, sym, &acc)?;
        }
        Ok(())
    });
    cx.cases("combine", |g| {
        // assign, add and Lagrange block: the same as inserting one by one
        let sym = *g.pick(&SYMS);
        let m = g.dim(1, 8);
        let n = if sym == Sym::No { g.dim(1, 8) } else { m };
        let mut other = CooMatrix::new(m, n, 20, sym).unwrap();
        let mut acc2 = vec![];
        for _ in 0..g.usize(0, 12) {
            let (i, j, x) = (g.usize(0, m - 1), g.usize(0, n - 1), g.ival());
            if other.put(i, j, x).is_ok() {
                acc2.push((i, j, x));
            }
        }
        let alpha = g.ival();
        let mut a = CooMatrix::new(m, n, 40, sym).unwrap();
        let mut acc = vec![];
        for _ in 0..g.usize(0, 6) {
            let (i, j, x) = (g.usize(0, m - 1), g.usize(0, n - 1), g.ival());
            if a.put(i, j, x).is_ok() {
                acc.push((i, j, x));
            }
        }
        note!(g, "{}x{} {:?} entries {:?} other {:?} alpha {:?}", m, n, sym, acc, acc2, alpha);
        let mut b = a.clone();
        a.assign(alpha, &other).map_err(|e| format!("assign: {}", e))?;
        let exp: Vec<_> = acc2.iter().map(|t| (t.0, t.1, alpha * t.2)).collect();
        check(&a, m, n, sym, &exp).map_err(|e| format!("assign: {}", e))?;
        b.add(alpha, &other).map_err(|e| format!("add: {}", e))?;
        let mut exp2 = acc.clone();
        exp2.extend(exp.iter().cloned());
        check(&b, m, n, sym, &exp2).map_err(|e| format!("add: {}", e))?;
        // Lagrange block
        let (br, bc) = (g.dim(1, 4), g.dim(1, 5));
        let mut bb = CooMatrix::new(br, bc, 10, Sym::No).unwrap();
        let mut bacc = vec![];
        for _ in 0..g.usize(0, 8) {
            let t = (g.usize(0, br - 1), g.usize(0, bc - 1), g.ival());
            bb.put(t.0, t.1, t.2).unwrap();
            bacc.push(t);
        }
        let nn = br + bc + g.usize(0, 1);
        let mut aa = CooMatrix::new(nn, nn, 20, sym).unwrap();
        aa.put_lagrange_block(&bb).map_err(|e| format!("put_lagrange_block: {}", e))?;
        let mut d = vec![vec![0.0; nn]; nn];
        for (i, j, x) in &bacc {
            d[bc + i][*j] += x;
            d[*j][bc + i] += x;
        }
        note!(g, "Lagrange block {}x{} {:?}", br, bc, bacc);
        same_dense(&aa.as_dense(), &d).map_err(|e| format!("put_lagrange_block: {}", e))
    });
    cx.cases("complex", |g| {
        let sym = *g.pick(&SYMS);
        let m = g.dim(1, 10);
        let n = if sym == Sym::No { g.dim(1, 10) } else { m };
        let mut coo = ComplexCooMatrix::new(m, n, 20, sym).unwrap();
        let mut d = vec![vec![Complex64::new(0.0, 0.0); n]; m];
        for _ in 0..g.usize(0, 15) {
            let (i, j) = (g.usize(0, m - 1), g.usize(0, n - 1));
            let x = Complex64::new(g.ival(), g.ival());
            let r = coo.put(i, j, x);
            ck!(r.is_ok() == allowed(sym, i, j), "put({},{}) {:?}", i, j, r);
            if r.is_ok() {
                d[i][j] += x;
                if sym.triangular() && i != j {
                    d[j][i] += x;
                }
            }
        }
        let a = coo.as_dense();
        for i in 0..m {
            for j in 0..n {
                ck!(a.get(i, j) == d[i][j], "complex dense ({},{})", i, j);
            }
        }
        Ok(())
    });
}
