use hx_common::*;
use num_complex::Complex64;
use russell_lab::*;

const SENT: f64 = 123456.0;

fn near(a: f64, b: f64) -> bool {
    close(a, b, 1e-12)
}
fn cnear(a: Complex64, b: Complex64) -> bool {
    near(a.re, b.re) && near(a.im, b.im)
}
fn fac(g: &mut Gen) -> f64 {
    *g.pick(&[0.0, 1.0, -1.0, 2.0, 0.5, -3.0])
}
fn rv(g: &mut Gen, n: usize) -> Vector {
    Vector::from(&(0..n).map(|_| g.ival()).collect::<Vec<_>>())
}
fn rm(g: &mut Gen, m: usize, n: usize) -> Matrix {
    Matrix::initialized(m, n, |_, _| g.ival())
}
fn cv(g: &mut Gen, n: usize) -> ComplexVector {
    ComplexVector::from(&(0..n).map(|_| Complex64::new(g.ival(), g.ival())).collect::<Vec<_>>())
}
fn cm(g: &mut Gen, m: usize, n: usize) -> ComplexMatrix {
    ComplexMatrix::initialized(m, n, |_, _| Complex64::new(g.ival(), g.ival()))
}
fn cfac(g: &mut Gen) -> Complex64 {
    Complex64::new(fac(g), fac(g))
}
fn vsame(a: &Vector, b: &Vector) -> bool {
    a.as_data() == b.as_data()
}
fn vchk(what: &str, a: &Vector, want: impl Fn(usize) -> f64) -> Res {
    for i in 0..a.dim() {
        ck!(near(a[i], want(i)), "{}: element {} of {} is {:?}, expected {:?}", what, i, a.dim(), a[i], want(i));
    }
    Ok(())
}
fn mchk(what: &str, a: &Matrix, want: impl Fn(usize, usize) -> f64) -> Res {
    for i in 0..a.nrow() {
        for j in 0..a.ncol() {
            ck!(near(a.get(i, j), want(i, j)), "{}: element ({},{}) of {}x{} is {:?}, expected {:?}", what, i, j, a.nrow(), a.ncol(), a.get(i, j), want(i, j));
        }
    }
    Ok(())
}
fn cvchk(what: &str, a: &ComplexVector, want: impl Fn(usize) -> Complex64) -> Res {
    for i in 0..a.dim() {
        ck!(cnear(a[i], want(i)), "{}: element {} of {} is {:?}, expected {:?}", what, i, a.dim(), a[i], want(i));
    }
    Ok(())
}
fn cmchk(what: &str, a: &ComplexMatrix, want: impl Fn(usize, usize) -> Complex64) -> Res {
    for i in 0..a.nrow() {
        for j in 0..a.ncol() {
            ck!(cnear(a.get(i, j), want(i, j)), "{}: element ({},{}) of {}x{} is {:?}, expected {:?}", what, i, j, a.nrow(), a.ncol(), a.get(i, j), want(i, j));
        }
    }
    Ok(())
}
// sizes around the switches between code paths
fn vdim(g: &mut Gen) -> usize {
    match g.usize(0, 3) {
        0 => g.usize(0, 20),
        1 => g.usize(0, 9),
        _ => g.dim(0, 60),
    }
}
fn mdim(g: &mut Gen) -> usize {
    match g.usize(0, 3) {
        0 => g.usize(0, 3),
        1 => g.usize(0, 8),
        _ => g.dim(0, 25),
    }
}

pub fn register(cx: &mut Ctx) {
    cx.cases_w("vectors", 3, |g| {
        let n = vdim(g);
        let (u, v, w0) = (rv(g, n), rv(g, n), Vector::filled(n, SENT));
        let (al, be) = (fac(g), fac(g));
        note!(g, "n {} alpha {:?} beta {:?} u {:?} v {:?}", n, al, be, u.as_data(), v.as_data());
        let (u0, v0) = (u.clone(), v.clone());
        let mut w = w0.clone();
        vec_add(&mut w, al, &u, be, &v)?;
        vchk("add", &w, |i| al * u[i] + be * v[i])?;
        w = w0.clone();
        vec_plus(&mut w, &u, &v)?;
        vchk("plus", &w, |i| u[i] + v[i])?;
        w = w0.clone();
        vec_minus(&mut w, &u, &v)?;
        vchk("minus", &w, |i| u[i] - v[i])?;
        w = w0.clone();
        vec_copy(&mut w, &u)?;
        vchk("copy", &w, |i| u[i])?;
        w = w0.clone();
        vec_copy_scaled(&mut w, al, &u)?;
        vchk("copy_scaled", &w, |i| al * u[i])?;
        w = v.clone();
        vec_update(&mut w, al, &u)?;
        vchk("update", &w, |i| v[i] + al * u[i])?;
        w = v.clone();
        vec_scale(&mut w, al);
        vchk("scale", &w, |i| al * v[i])?;
        let dot: f64 = (0..n).map(|i| u[i] * v[i]).sum();
        ck!(near(vec_inner(&u, &v), dot), "inner of {}: {:?}, expected {:?}", n, vec_inner(&u, &v), dot);
        ck!(vsame(&u, &u0) && vsame(&v, &v0), "operands changed");
        // norms
        let one: f64 = (0..n).map(|i| u[i].abs()).sum();
        let euc = (0..n).map(|i| u[i] * u[i]).sum::<f64>().sqrt();
        let max = (0..n).map(|i| u[i].abs()).fold(0.0, f64::max);
        let norms = [(Norm::One, one), (Norm::Euc, euc), (Norm::Fro, euc), (Norm::Inf, max), (Norm::Max, max)];
        for (k, want) in norms {
            ck!(near(vec_norm(&u, k), want), "norm {:?} of {}: {:?}, expected {:?}", k, n, vec_norm(&u, k), want);
        }
        if n > 0 {
            let a = g.usize(0, n - 1);
            let b = g.usize(a + 1, n);
            let c = Vector::from(&u.as_data()[a..b].to_vec());
            for (k, _) in norms {
                ck!(near(vec_norm_chunk(&u, k, a, b), vec_norm(&c, k)), "norm {:?} of {}..{}", k, a, b);
            }
        }
        let d = vec_norm_diff(&u, &v, Norm::Max);
        let wd = (0..n).map(|i| (u[i] - v[i]).abs()).fold(0.0, f64::max);
        ck!(near(d, wd), "norm of difference {:?}, expected {:?}", d, wd);
        let (i, m) = vec_max_abs_diff(&u, &v)?;
        ck!(m == wd && (n == 0 || (u[i] - v[i]).abs() == m), "largest difference {:?} at {}, expected {:?}", m, i, wd);
        let s = vec_max_scaled(&u, &v, 1.0);
        let ws = (0..n).map(|i| u[i].abs() / (1.0 + v[i].abs())).fold(0.0, f64::max);
        ck!(near(s, ws), "scaled maximum {:?}, expected {:?}", s, ws);
        let s = vec_max_scaled_diff(&u, &v, &w);
        let ws = (0..n).map(|i| (u[i] - v[i]).abs() / (1.0 + w[i].abs())).fold(0.0, f64::max);
        ck!(near(s, ws), "scaled maximum difference {:?}, expected {:?}", s, ws);
        let (at, rt) = (0.5, 0.25);
        let s = vec_rms_scaled(&u, &v, at, rt);
        let ws = if n == 0 { 0.0 } else { ((0..n).map(|i| (u[i] / (at + rt * v[i].abs())).powi(2)).sum::<f64>() / n as f64).sqrt() };
        ck!(near(s, ws), "scaled rms {:?}, expected {:?}", s, ws);
        let s = vec_rms_scaled_diff(&u, &v, at, rt);
        let ws = if n == 0 { 0.0 } else { ((0..n).map(|i| ((u[i] - v[i]) / (at + rt * u[i].abs().max(v[i].abs()))).powi(2)).sum::<f64>() / n as f64).sqrt() };
        ck!(near(s, ws), "scaled rms difference {:?}, expected {:?}", s, ws);
        ck!(vec_all_finite(&u, false).is_ok(), "finite vector refused");
        if n > 0 {
            let k = g.usize(0, n - 1);
            let mut q = u.clone();
            q[k] = *g.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]);
            ck!(vec_all_finite(&q, false).is_err(), "{:?} at {} accepted", q[k], k);
        }
        // refusals leave the output unchanged
        let x = rv(g, n + 1);
        let mut w = w0.clone();
        let bad = [
            vec_add(&mut w, al, &u, be, &x).is_err(),
            vec_add(&mut w, al, &x, be, &u).is_err(),
            vec_plus(&mut w, &u, &x).is_err(),
            vec_plus(&mut w, &x, &u).is_err(),
            vec_minus(&mut w, &u, &x).is_err(),
            vec_minus(&mut w, &x, &u).is_err(),
            vec_copy(&mut w, &x).is_err(),
            vec_copy_scaled(&mut w, al, &x).is_err(),
            vec_update(&mut w, al, &x).is_err(),
            vec_max_abs_diff(&w, &x).is_err(),
        ];
        ck!(bad.iter().all(|b| *b), "incompatible sizes accepted: {:?}", bad);
        ck!(vsame(&w, &w0), "output changed by a refused call");
        Ok(())
    });
    cx.cases_w("matrix_vector", 2, |g| {
        let (m, n) = (mdim(g), mdim(g));
        let (a, u, t) = (rm(g, m, n), rv(g, n), rv(g, m));
        let (al, be) = (fac(g), fac(g));
        note!(g, "{}x{} alpha {:?} beta {:?} a {:?} u {:?} t {:?}", m, n, al, be, a.as_data(), u.as_data(), t.as_data());
        let mut v = Vector::filled(m, SENT);
        mat_vec_mul(&mut v, al, &a, &u)?;
        vchk("mat_vec_mul", &v, |i| al * (0..n).map(|j| a.get(i, j) * u[j]).sum::<f64>())?;
        let mut v = t.clone();
        mat_vec_mul_update(&mut v, al, &a, &u, be)?;
        vchk("mat_vec_mul_update", &v, |i| be * t[i] + al * (0..n).map(|j| a.get(i, j) * u[j]).sum::<f64>())?;
        let mut v = Vector::filled(n, SENT);
        vec_mat_mul(&mut v, al, &t, &a)?;
        vchk("vec_mat_mul", &v, |j| al * (0..m).map(|i| a.get(i, j) * t[i]).sum::<f64>())?;
        let mut o = Matrix::filled(m, n, SENT);
        vec_outer(&mut o, al, &t, &u)?;
        mchk("outer", &o, |i, j| al * t[i] * u[j])?;
        let mut o = a.clone();
        vec_outer_update(&mut o, al, &t, &u)?;
        mchk("outer_update", &o, |i, j| a.get(i, j) + al * t[i] * u[j])?;
        let mut v = Vector::filled(n, SENT);
        mat_sum_rows(&mut v, &a)?;
        vchk("sum_rows", &v, |j| (0..m).map(|i| a.get(i, j)).sum())?;
        let mut v = Vector::filled(m, SENT);
        mat_sum_cols(&mut v, &a)?;
        vchk("sum_cols", &v, |i| (0..n).map(|j| a.get(i, j)).sum())?;
        // refusals
        let mut vm = Vector::filled(m, SENT);
        let mut vn = Vector::filled(n, SENT);
        let mut o = Matrix::filled(m, n, SENT);
        let bad = [
            mat_vec_mul(&mut vm, al, &a, &rv(g, n + 1)).is_err(),
            mat_vec_mul(&mut vm, al, &rm(g, m + 1, n), &u).is_err(),
            mat_vec_mul_update(&mut vm, al, &a, &rv(g, n + 1), be).is_err(),
            vec_mat_mul(&mut vn, al, &rv(g, m + 1), &a).is_err(),
            vec_mat_mul(&mut vn, al, &t, &rm(g, m, n + 1)).is_err(),
            vec_outer(&mut o, al, &u, &rv(g, n + 1)).is_err(),
            vec_outer_update(&mut o, al, &rv(g, m + 1), &u).is_err(),
            mat_sum_rows(&mut vn, &rm(g, m, n + 1)).is_err(),
            mat_sum_cols(&mut vm, &rm(g, m + 1, n)).is_err(),
        ];
        ck!(bad.iter().all(|b| *b), "incompatible sizes accepted: {:?}", bad);
        ck!(vm.as_data().iter().all(|x| *x == SENT) && vn.as_data().iter().all(|x| *x == SENT) && o.as_data().iter().all(|x| *x == SENT), "output changed by a refused call");
        Ok(())
    });
    cx.cases_w("matrix_matrix", 3, |g| {
        let (m, n, k) = (mdim(g), mdim(g), mdim(g));
        let (a, b, c0, at) = (rm(g, m, k), rm(g, k, n), rm(g, m, n), rm(g, k, m));
        let (al, be) = (fac(g), fac(g));
        note!(g, "m {} n {} k {} alpha {:?} beta {:?} a {:?} b {:?} c {:?}", m, n, k, al, be, a.as_data(), b.as_data(), c0.as_data());
        let mut c = c0.clone();
        mat_mat_mul(&mut c, al, &a, &b, be)?;
        mchk("mat_mat_mul", &c, |i, j| be * c0.get(i, j) + al * (0..k).map(|p| a.get(i, p) * b.get(p, j)).sum::<f64>())?;
        let mut c = c0.clone();
        mat_t_mat_mul(&mut c, al, &at, &b, be)?;
        mchk("mat_t_mat_mul", &c, |i, j| be * c0.get(i, j) + al * (0..k).map(|p| at.get(p, i) * b.get(p, j)).sum::<f64>())?;
        // symmetric rank operation: one triangle
        let s0 = rm(g, m, m);
        for second in if m > 0 { vec![false, true] } else { vec![] } {
            for upper in [false, true] {
                let mut s = s0.clone();
                mat_sym_rank_op(&mut s, if second { &at } else { &a }, al, be, upper, second)?;
                mchk("sym_rank_op", &s, |i, j| {
                    if (upper && j >= i) || (!upper && j <= i) {
                        be * s0.get(i, j) + al * (0..k).map(|p| if second { at.get(p, i) * at.get(p, j) } else { a.get(i, p) * a.get(j, p) }).sum::<f64>()
                    } else {
                        s0.get(i, j)
                    }
                })?;
            }
        }
        // element-wise
        let (p, q) = (rm(g, m, n), rm(g, m, n));
        let sent = Matrix::filled(m, n, SENT);
        let mut w = sent.clone();
        mat_add(&mut w, al, &p, be, &q)?;
        mchk("mat_add", &w, |i, j| al * p.get(i, j) + be * q.get(i, j))?;
        let mut w = sent.clone();
        mat_plus(&mut w, &p, &q)?;
        mchk("mat_plus", &w, |i, j| p.get(i, j) + q.get(i, j))?;
        let mut w = sent.clone();
        mat_minus(&mut w, &p, &q)?;
        mchk("mat_minus", &w, |i, j| p.get(i, j) - q.get(i, j))?;
        let mut w = sent.clone();
        mat_copy(&mut w, &p)?;
        mchk("mat_copy", &w, |i, j| p.get(i, j))?;
        let mut w = q.clone();
        mat_update(&mut w, al, &p)?;
        mchk("mat_update", &w, |i, j| q.get(i, j) + al * p.get(i, j))?;
        let mut w = q.clone();
        mat_scale(&mut w, al);
        mchk("mat_scale", &w, |i, j| al * q.get(i, j))?;
        let fro = p.as_data().iter().map(|x| x * x).sum::<f64>().sqrt();
        let one = (0..n).map(|j| (0..m).map(|i| p.get(i, j).abs()).sum::<f64>()).fold(0.0, f64::max);
        let inf = (0..m).map(|i| (0..n).map(|j| p.get(i, j).abs()).sum::<f64>()).fold(0.0, f64::max);
        let max = p.as_data().iter().map(|x| x.abs()).fold(0.0, f64::max);
        for (kd, want) in [(Norm::One, one), (Norm::Euc, fro), (Norm::Fro, fro), (Norm::Inf, inf), (Norm::Max, max)] {
            ck!(near(mat_norm(&p, kd), want), "norm {:?} of {}x{}: {:?}, expected {:?}", kd, m, n, mat_norm(&p, kd), want);
        }
        let (i, j, d) = mat_max_abs_diff(&p, &q)?;
        let wd = (0..m * n).map(|r| (p.as_data()[r] - q.as_data()[r]).abs()).fold(0.0, f64::max);
        ck!(d == wd && (m * n == 0 || (p.get(i, j) - q.get(i, j)).abs() == d), "largest difference {:?} at ({},{}), expected {:?}", d, i, j, wd);
        // band storage
        let (ml, mu) = (g.usize(0, m.max(1) - 1), g.usize(0, n.max(1) - 1));
        let mut band = Matrix::filled(ml + mu + 1, n, SENT);
        mat_convert_to_blas_band(&mut band, &p, ml, mu)?;
        for r in 0..(ml + mu + 1) {
            for j in 0..n {
                let i = r as i64 + j as i64 - mu as i64;
                let want = if i >= 0 && i < m as i64 { p.get(i as usize, j) } else { SENT };
                ck!(band.get(r, j) == want, "band ({},{}) is {:?}, expected {:?}", r, j, band.get(r, j), want);
            }
        }
        // refusals
        let mut c = sent.clone();
        let x = rm(g, m + 1, n);
        let y = rm(g, m, n + 1);
        let bad = [
            mat_mat_mul(&mut c, al, &rm(g, m, k + 1), &b, be).is_err(),
            mat_mat_mul(&mut c, al, &rm(g, m + 1, k), &b, be).is_err(),
            mat_mat_mul(&mut c, al, &a, &rm(g, k, n + 1), be).is_err(),
            mat_t_mat_mul(&mut c, al, &rm(g, k + 1, m), &b, be).is_err(),
            mat_t_mat_mul(&mut c, al, &rm(g, k, m + 1), &b, be).is_err(),
            mat_t_mat_mul(&mut c, al, &at, &rm(g, k, n + 1), be).is_err(),
            mat_add(&mut c, al, &p, be, &x).is_err(),
            mat_add(&mut c, al, &y, be, &p).is_err(),
            mat_plus(&mut c, &p, &x).is_err(),
            mat_plus(&mut c, &y, &p).is_err(),
            mat_minus(&mut c, &p, &y).is_err(),
            mat_minus(&mut c, &x, &p).is_err(),
            mat_copy(&mut c, &x).is_err(),
            mat_update(&mut c, al, &y).is_err(),
            mat_max_abs_diff(&c, &x).is_err(),
            mat_sym_rank_op(&mut Matrix::new(m, m + 1), &a, al, be, true, false).is_err(),
            mat_sym_rank_op(&mut Matrix::new(m, m), &rm(g, m + 1, k), al, be, true, false).is_err(),
            mat_sym_rank_op(&mut Matrix::new(m, m), &rm(g, k, m + 1), al, be, true, true).is_err(),
        ];
        ck!(bad.iter().all(|b| *b), "incompatible sizes accepted: {:?}", bad);
        ck!(c.as_data().iter().all(|x| *x == SENT), "output changed by a refused call");
        if m != n {
            let tr = rm(g, n, m);
            ck!(mat_add(&mut c, al, &p, be, &tr).is_err() && mat_plus(&mut c, &p, &tr).is_err() && mat_copy(&mut c, &tr).is_err() && mat_update(&mut c, al, &tr).is_err(), "matrices of swapped size accepted");
        }
        Ok(())
    });
    cx.cases_w("complex", 2, |g| {
        let (m, n, k) = (mdim(g), mdim(g), mdim(g));
        let (al, be) = (cfac(g), cfac(g));
        let (a, b, c0, at) = (cm(g, m, k), cm(g, k, n), cm(g, m, n), cm(g, k, m));
        note!(g, "m {} n {} k {} alpha {:?} beta {:?}", m, n, k, al, be);
        let mut c = c0.clone();
        complex_mat_mat_mul(&mut c, al, &a, &b, be)?;
        cmchk("complex_mat_mat_mul", &c, |i, j| be * c0.get(i, j) + al * (0..k).map(|p| a.get(i, p) * b.get(p, j)).sum::<Complex64>())?;
        let mut c = c0.clone();
        complex_mat_t_mat_mul(&mut c, al, &at, &b, be)?;
        cmchk("complex_mat_t_mat_mul", &c, |i, j| be * c0.get(i, j) + al * (0..k).map(|p| at.get(p, i) * b.get(p, j)).sum::<Complex64>())?;
        let s0 = cm(g, m, m);
        let mut h0 = s0.clone();
        for i in 0..m {
            h0.set(i, i, Complex64::new(s0.get(i, i).re, 0.0)); // the diagonal of a Hermitian matrix is real
        }
        for second in if m > 0 { vec![false, true] } else { vec![] } {
            for upper in [false, true] {
                let tri = |i: usize, j: usize| (upper && j >= i) || (!upper && j <= i);
                let mut s = s0.clone();
                complex_mat_sym_rank_op(&mut s, if second { &at } else { &a }, al, be, upper, second)?;
                cmchk("complex_sym_rank_op", &s, |i, j| {
                    if tri(i, j) {
                        be * s0.get(i, j) + al * (0..k).map(|p| if second { at.get(p, i) * at.get(p, j) } else { a.get(i, p) * a.get(j, p) }).sum::<Complex64>()
                    } else {
                        s0.get(i, j)
                    }
                })?;
                let mut s = h0.clone();
                let (ar, br) = (al.re, be.re);
                complex_mat_herm_rank_op(&mut s, if second { &at } else { &a }, ar, br, upper, second)?;
                cmchk("complex_herm_rank_op", &s, |i, j| {
                    if tri(i, j) {
                        br * h0.get(i, j) + ar * (0..k).map(|p| if second { at.get(p, i).conj() * at.get(p, j) } else { a.get(i, p) * a.get(j, p).conj() }).sum::<Complex64>()
                    } else {
                        h0.get(i, j)
                    }
                })?;
            }
        }
        let (u, t) = (cv(g, n), cv(g, m));
        let zero = Complex64::new(SENT, SENT);
        let mut v = ComplexVector::filled(m, zero);
        complex_mat_vec_mul(&mut v, al, &c0, &u)?;
        cvchk("complex_mat_vec_mul", &v, |i| al * (0..n).map(|j| c0.get(i, j) * u[j]).sum::<Complex64>())?;
        let mut v = ComplexVector::filled(n, zero);
        complex_vec_mat_mul(&mut v, al, &t, &c0)?;
        cvchk("complex_vec_mat_mul", &v, |j| al * (0..m).map(|i| c0.get(i, j) * t[i]).sum::<Complex64>())?;
        let d = vdim(g);
        let (x, y) = (cv(g, d), cv(g, d));
        let mut w = ComplexVector::filled(d, zero);
        complex_vec_add(&mut w, al, &x, be, &y)?;
        cvchk("complex_vec_add", &w, |i| al * x[i] + be * y[i])?;
        complex_vec_plus(&mut w, &x, &y)?;
        cvchk("complex_vec_plus", &w, |i| x[i] + y[i])?;
        complex_vec_minus(&mut w, &x, &y)?;
        cvchk("complex_vec_minus", &w, |i| x[i] - y[i])?;
        complex_vec_copy(&mut w, &x)?;
        cvchk("complex_vec_copy", &w, |i| x[i])?;
        complex_vec_update(&mut w, al, &y)?;
        cvchk("complex_vec_update", &w, |i| x[i] + al * y[i])?;
        complex_vec_copy(&mut w, &x)?;
        complex_vec_scale(&mut w, al);
        cvchk("complex_vec_scale", &w, |i| al * x[i])?;
        let (mut re, mut im) = (Vector::new(d), Vector::new(d));
        complex_vec_unzip(&mut re, &mut im, &x)?;
        vchk("unzip real", &re, |i| x[i].re)?;
        vchk("unzip imaginary", &im, |i| x[i].im)?;
        let mut z = ComplexVector::filled(d, zero);
        complex_vec_zip(&mut z, &re, &im)?;
        cvchk("zip", &z, |i| x[i])?;
        let (p, q) = (cm(g, m, n), cm(g, m, n));
        let mut w = ComplexMatrix::filled(m, n, zero);
        complex_mat_add(&mut w, al, &p, be, &q)?;
        cmchk("complex_mat_add", &w, |i, j| al * p.get(i, j) + be * q.get(i, j))?;
        complex_mat_plus(&mut w, &p, &q)?;
        cmchk("complex_mat_plus", &w, |i, j| p.get(i, j) + q.get(i, j))?;
        complex_mat_minus(&mut w, &p, &q)?;
        cmchk("complex_mat_minus", &w, |i, j| p.get(i, j) - q.get(i, j))?;
        complex_mat_copy(&mut w, &p)?;
        cmchk("complex_mat_copy", &w, |i, j| p.get(i, j))?;
        complex_mat_update(&mut w, al, &q)?;
        cmchk("complex_mat_update", &w, |i, j| p.get(i, j) + al * q.get(i, j))?;
        complex_mat_copy(&mut w, &p)?;
        complex_mat_scale(&mut w, al);
        cmchk("complex_mat_scale", &w, |i, j| al * p.get(i, j))?;
        let (mut re, mut im) = (Matrix::new(m, n), Matrix::new(m, n));
        complex_mat_unzip(&mut re, &mut im, &p)?;
        mchk("unzip real", &re, |i, j| p.get(i, j).re)?;
        mchk("unzip imaginary", &im, |i, j| p.get(i, j).im)?;
        complex_mat_zip(&mut w, &re, &im)?;
        cmchk("zip", &w, |i, j| p.get(i, j))?;
        for (kd, want) in [
            (Norm::One, (0..n).map(|j| (0..m).map(|i| p.get(i, j).norm()).sum::<f64>()).fold(0.0, f64::max)),
            (Norm::Inf, (0..m).map(|i| (0..n).map(|j| p.get(i, j).norm()).sum::<f64>()).fold(0.0, f64::max)),
            (Norm::Fro, p.as_data().iter().map(|x| x.norm_sqr()).sum::<f64>().sqrt()),
            (Norm::Max, p.as_data().iter().map(|x| x.norm()).fold(0.0, f64::max)),
        ] {
            ck!(near(complex_mat_norm(&p, kd), want), "complex norm {:?}: {:?}, expected {:?}", kd, complex_mat_norm(&p, kd), want);
        }
        let bad = [
            complex_mat_add(&mut w, al, &p, be, &cm(g, m + 1, n)).is_err(),
            complex_mat_update(&mut w, al, &cm(g, m, n + 1)).is_err(),
            complex_vec_add(&mut z, al, &x, be, &cv(g, d + 1)).is_err(),
            complex_mat_mat_mul(&mut w, al, &cm(g, m, k + 1), &b, be).is_err(),
            complex_mat_vec_mul(&mut ComplexVector::new(m + 1), al, &c0, &u).is_err(),
        ];
        ck!(bad.iter().all(|b| *b), "incompatible sizes accepted: {:?}", bad);
        Ok(())
    });
    cx.cases("small_arrays", |g| {
        const N: usize = 5;
        let n = g.usize(0, N);
        let mut r = || {
            let mut a = [[0.0; N]; N];
            for i in 0..N {
                for j in 0..N {
                    a[i][j] = g.ival();
                }
            }
            a
        };
        let (a, b, c0) = (r(), r(), r());
        let (al, be) = (fac(g), fac(g));
        note!(g, "n {} alpha {:?} beta {:?} {:?} {:?} {:?}", n, al, be, a, b, c0);
        let (mut s, mut p, mut q) = (c0, c0, c0);
        small_mat_add(&mut s, al, &a, be, &b, n);
        small_mat_update(&mut p, al, &a, n);
        small_mat_mat_mul(&mut q, al, &a, &b, be, n);
        let (mut w, mut y) = (c0[0], c0[1]);
        small_vec_add(&mut w, al, &a[0], be, &b[0], n);
        small_vec_update(&mut y, al, &a[0], n);
        for i in 0..N {
            for j in 0..N {
                let inside = i < n && j < n;
                let ws = if inside { al * a[i][j] + be * b[i][j] } else { c0[i][j] };
                let wp = if inside { c0[i][j] + al * a[i][j] } else { c0[i][j] };
                let wq = if inside { al * (0..n).map(|k| a[i][k] * b[k][j]).sum::<f64>() + be * c0[i][j] } else { c0[i][j] };
                ck!(near(s[i][j], ws) && near(p[i][j], wp) && near(q[i][j], wq), "({},{}) of size {}: {:?} {:?} {:?}, expected {:?} {:?} {:?}", i, j, n, s[i][j], p[i][j], q[i][j], ws, wp, wq);
            }
            let ww = if i < n { al * a[0][i] + be * b[0][i] } else { c0[0][i] };
            let wy = if i < n { c0[1][i] + al * a[0][i] } else { c0[1][i] };
            ck!(near(w[i], ww) && near(y[i], wy), "vector element {}", i);
        }
        Ok(())
    });
}
