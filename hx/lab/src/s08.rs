//! dense kernels: every element of the result equals its definition
use hx_common::*;
use russell_lab::*;

fn rv(g: &mut Gx, what: &str, n: usize) -> Vector {
    let mut v = Vector::new(n);
    for i in 0..n {
        v[i] = g.var(what);
    }
    v
}
fn rm(g: &mut Gx, what: &str, m: usize, n: usize) -> Matrix {
    let mut a = Matrix::new(m, n);
    for i in 0..m {
        for j in 0..n {
            let x = g.var(what);
            a.set(i, j, x);
        }
    }
    a
}
fn cvar(g: &mut Gx, what: &str) -> Complex64 {
    let (a, b) = (g.var(what), g.var(what));
    Complex64::new(a, b)
}
fn cv(g: &mut Gx, what: &str, n: usize) -> ComplexVector {
    let mut v = ComplexVector::new(n);
    for i in 0..n {
        v[i] = cvar(g, what);
    }
    v
}
fn cm(g: &mut Gx, what: &str, m: usize, n: usize) -> ComplexMatrix {
    let mut a = ComplexMatrix::new(m, n);
    for i in 0..m {
        for j in 0..n {
            let x = cvar(g, what);
            a.set(i, j, x);
        }
    }
    a
}
fn sum(n: usize, f: impl Fn(usize) -> f64) -> f64 {
    let mut s = 0.0;
    for i in 0..n {
        s = s + f(i);
    }
    s
}
fn csum(n: usize, f: impl Fn(usize) -> Complex64) -> Complex64 {
    let mut s = Complex64::new(0.0, 0.0);
    for i in 0..n {
        s = s + f(i);
    }
    s
}
fn vchk(g: &mut Gx, what: &str, a: &Vector, n: usize, want: impl Fn(usize) -> f64) -> Res {
    g.holds(a.dim() == n, "dimension changed")?;
    for i in 0..n {
        g.same(a[i], want(i), &format!("{}: element {} of {}", what, i, n))?;
    }
    Ok(())
}
fn mchk(g: &mut Gx, what: &str, a: &Matrix, m: usize, n: usize, want: impl Fn(usize, usize) -> f64) -> Res {
    g.holds(a.dims() == (m, n), "dimensions changed")?;
    for i in 0..m {
        for j in 0..n {
            g.same(a.get(i, j), want(i, j), &format!("{}: element ({},{}) of {}x{}", what, i, j, m, n))?;
        }
    }
    Ok(())
}
fn cvchk(g: &mut Gx, what: &str, a: &ComplexVector, n: usize, want: impl Fn(usize) -> Complex64) -> Res {
    g.holds(a.dim() == n, "dimension changed")?;
    for i in 0..n {
        let w = want(i);
        g.same(a[i].re, w.re, &format!("{}: real part of element {} of {}", what, i, n))?;
        g.same(a[i].im, w.im, &format!("{}: imaginary part of element {} of {}", what, i, n))?;
    }
    Ok(())
}
fn cmchk(g: &mut Gx, what: &str, a: &ComplexMatrix, m: usize, n: usize, want: impl Fn(usize, usize) -> Complex64) -> Res {
    g.holds(a.dims() == (m, n), "dimensions changed")?;
    for i in 0..m {
        for j in 0..n {
            let w = want(i, j);
            g.same(a.get(i, j).re, w.re, &format!("{}: real part of element ({},{}) of {}x{}", what, i, j, m, n))?;
            g.same(a.get(i, j).im, w.im, &format!("{}: imaginary part of element ({},{}) of {}x{}", what, i, j, m, n))?;
        }
    }
    Ok(())
}

pub fn register(cx: &mut Ctx) {
    cx.contract("vector_combinations", |g| {
        let n = g.choose("n", 22);
        let (u, v, s) = (rv(g, "u", n), rv(g, "v", n), rv(g, "s", n));
        let (al, be) = (g.var("alpha"), g.var("beta"));
        let mut w = s.clone();
        vec_add(&mut w, al, &u, be, &v)?;
        vchk(g, "add", &w, n, |i| al * u[i] + be * v[i])?;
        w = s.clone();
        vec_plus(&mut w, &u, &v)?;
        vchk(g, "plus", &w, n, |i| u[i] + v[i])?;
        w = s.clone();
        vec_minus(&mut w, &u, &v)?;
        vchk(g, "minus", &w, n, |i| u[i] - v[i])?;
        w = s.clone();
        vec_copy(&mut w, &u)?;
        vchk(g, "copy", &w, n, |i| u[i])?;
        w = s.clone();
        vec_copy_scaled(&mut w, al, &u)?;
        vchk(g, "copy_scaled", &w, n, |i| al * u[i])?;
        w = s.clone();
        vec_update(&mut w, al, &u)?;
        vchk(g, "update", &w, n, |i| s[i] + al * u[i])?;
        w = s.clone();
        vec_scale(&mut w, al);
        vchk(g, "scale", &w, n, |i| al * s[i])?;
        let d = vec_inner(&u, &v);
        g.same(d, sum(n, |i| u[i] * v[i]), "inner product")
    });
    cx.contract("vector_refusals", |g| {
        let n = g.choose("n", 12);
        let k = g.choose("k", 2);
        let (u, s) = (rv(g, "u", n), rv(g, "s", n));
        let x = rv(g, "x", if k == 0 || n == 0 { n + 1 } else { n - 1 });
        let (al, be) = (g.var("alpha"), g.var("beta"));
        let mut w = s.clone();
        g.holds(vec_add(&mut w, al, &u, be, &x).is_err(), "add")?;
        g.holds(vec_add(&mut w, al, &x, be, &u).is_err(), "add")?;
        g.holds(vec_add(&mut w, al, &x, be, &x).is_err(), "add")?;
        g.holds(vec_plus(&mut w, &u, &x).is_err() && vec_plus(&mut w, &x, &u).is_err() && vec_plus(&mut w, &x, &x).is_err(), "plus")?;
        g.holds(vec_minus(&mut w, &u, &x).is_err() && vec_minus(&mut w, &x, &u).is_err() && vec_minus(&mut w, &x, &x).is_err(), "minus")?;
        g.holds(vec_copy(&mut w, &x).is_err() && vec_copy_scaled(&mut w, al, &x).is_err() && vec_update(&mut w, al, &x).is_err(), "copy or update")?;
        g.holds(vec_max_abs_diff(&w, &x).is_err(), "largest difference")?;
        vchk(g, "output of a refused call", &w, n, |i| s[i])
    });
    cx.contract("vector_norms", |g| {
        let n = g.choose("n", 5);
        let (u, v) = (rv(g, "u", n), rv(g, "v", n));
        let (at, rt) = (g.pos("at"), g.pos("rt"));
        let one = sum(n, |i| u[i].abs());
        let euc = sum(n, |i| u[i] * u[i]).sqrt();
        let x = vec_norm(&u, Norm::One);
        g.same(x, one, "norm one")?;
        let x = vec_norm(&u, Norm::Euc);
        g.same(x, euc, "euclidean norm")?;
        let x = vec_norm(&u, Norm::Fro);
        g.same(x, euc, "frobenius norm")?;
        let x = vec_rms_scaled(&u, &v, at, rt);
        let q = |i: usize| u[i] / (at + rt * v[i].abs());
        if n == 0 {
            g.same(x, 0.0, "scaled root mean square")?;
        } else {
            g.holds(x >= 0.0, "scaled root mean square is negative")?;
            g.same(x * x * (n as f64), sum(n, |i| q(i) * q(i)), "scaled root mean square")?;
        }
        for a in 0..n {
            for b in a + 1..n + 1 {
                let x = vec_norm_chunk(&u, Norm::One, a, b);
                g.same(x, sum(b - a, |i| u[a + i].abs()), "norm one of a part")?;
                let x = vec_norm_chunk(&u, Norm::Euc, a, b);
                g.same(x, sum(b - a, |i| u[a + i] * u[a + i]).sqrt(), "euclidean norm of a part")?;
            }
        }
        Ok(())
    });
    cx.contract("largest_values", |g| {
        let n = g.choose("n", 4);
        let kind = g.choose("kind", 6);
        let (u, v, y) = (rv(g, "u", n), rv(g, "v", n), rv(g, "y", n));
        let at = g.pos("at");
        let (x, what): (f64, &str) = match kind {
            0 => (vec_norm(&u, Norm::Max), "largest norm"),
            1 => (vec_norm(&u, Norm::Inf), "infinity norm"),
            2 => (vec_norm_diff(&u, &v, Norm::Max), "norm of the difference"),
            3 => (vec_max_scaled(&u, &v, at), "scaled maximum"),
            4 => (vec_max_scaled_diff(&u, &v, &y), "scaled difference"),
            _ => {
                let (i, d) = vec_max_abs_diff(&u, &v)?;
                if n > 0 {
                    g.holds(i < n, "position of the largest difference")?;
                    g.same(d, (u[i] - v[i]).abs(), "largest difference at its position")?;
                }
                (d, "largest difference")
            }
        };
        let q = |i: usize| match kind {
            0 | 1 => u[i].abs(),
            2 | 5 => (u[i] - v[i]).abs(),
            3 => u[i].abs() / (at + v[i].abs()),
            _ => (u[i] - v[i]).abs() / (1.0 + y[i].abs()),
        };
        // the result is the first of the largest values
        let mut w = 0.0;
        for i in 0..n {
            if q(i) > w {
                w = q(i);
            }
        }
        g.same(x, w, what)
    });
    cx.contract("matrix_vector_products", |g| {
        let (m, n) = (g.choose("m", 5), g.choose("n", 5));
        let (a, u, t) = (rm(g, "a", m, n), rv(g, "u", n), rv(g, "t", m));
        let (al, be) = (g.var("alpha"), g.var("beta"));
        let mut v = rv(g, "s", m);
        mat_vec_mul(&mut v, al, &a, &u)?;
        vchk(g, "mat_vec_mul", &v, m, |i| al * sum(n, |j| a.get(i, j) * u[j]))?;
        let mut v = t.clone();
        mat_vec_mul_update(&mut v, al, &a, &u, be)?;
        vchk(g, "mat_vec_mul_update", &v, m, |i| be * t[i] + al * sum(n, |j| a.get(i, j) * u[j]))?;
        let mut v = rv(g, "s", n);
        vec_mat_mul(&mut v, al, &t, &a)?;
        vchk(g, "vec_mat_mul", &v, n, |j| al * sum(m, |i| a.get(i, j) * t[i]))?;
        let mut o = rm(g, "o", m, n);
        vec_outer(&mut o, al, &t, &u)?;
        mchk(g, "outer", &o, m, n, |i, j| al * t[i] * u[j])?;
        let mut o = a.clone();
        vec_outer_update(&mut o, al, &t, &u)?;
        mchk(g, "outer_update", &o, m, n, |i, j| a.get(i, j) + al * t[i] * u[j])?;
        let mut v = rv(g, "s", n);
        mat_sum_rows(&mut v, &a)?;
        vchk(g, "sum_rows", &v, n, |j| sum(m, |i| a.get(i, j)))?;
        let mut v = rv(g, "s", m);
        mat_sum_cols(&mut v, &a)?;
        vchk(g, "sum_cols", &v, m, |i| sum(n, |j| a.get(i, j)))
    });
    cx.contract("matrix_products", |g| {
        let (m, n, k) = (g.choose("m", 4), g.choose("n", 4), g.choose("k", 4));
        let (a, b, c0, at) = (rm(g, "a", m, k), rm(g, "b", k, n), rm(g, "c", m, n), rm(g, "at", k, m));
        let (al, be) = (g.var("alpha"), g.var("beta"));
        let mut c = c0.clone();
        mat_mat_mul(&mut c, al, &a, &b, be)?;
        mchk(g, "mat_mat_mul", &c, m, n, |i, j| be * c0.get(i, j) + al * sum(k, |p| a.get(i, p) * b.get(p, j)))?;
        let mut c = c0.clone();
        mat_t_mat_mul(&mut c, al, &at, &b, be)?;
        mchk(g, "mat_t_mat_mul", &c, m, n, |i, j| be * c0.get(i, j) + al * sum(k, |p| at.get(p, i) * b.get(p, j)))?;
        if m == 0 {
            return Ok(());
        }
        let s0 = rm(g, "s", m, m);
        for second in [false, true] {
            for upper in [false, true] {
                let mut s = s0.clone();
                mat_sym_rank_op(&mut s, if second { &at } else { &a }, al, be, upper, second)?;
                mchk(g, "sym_rank_op", &s, m, m, |i, j| {
                    if (upper && j >= i) || (!upper && j <= i) {
                        be * s0.get(i, j) + al * sum(k, |p| if second { at.get(p, i) * at.get(p, j) } else { a.get(i, p) * a.get(j, p) })
                    } else {
                        s0.get(i, j)
                    }
                })?;
            }
        }
        Ok(())
    });
    cx.contract("matrix_combinations", |g| {
        let (m, n) = (g.choose("m", 6), g.choose("n", 6));
        let (p, q, s) = (rm(g, "p", m, n), rm(g, "q", m, n), rm(g, "s", m, n));
        let (al, be) = (g.var("alpha"), g.var("beta"));
        let mut w = s.clone();
        mat_add(&mut w, al, &p, be, &q)?;
        mchk(g, "mat_add", &w, m, n, |i, j| al * p.get(i, j) + be * q.get(i, j))?;
        let mut w = s.clone();
        mat_plus(&mut w, &p, &q)?;
        mchk(g, "mat_plus", &w, m, n, |i, j| p.get(i, j) + q.get(i, j))?;
        let mut w = s.clone();
        mat_minus(&mut w, &p, &q)?;
        mchk(g, "mat_minus", &w, m, n, |i, j| p.get(i, j) - q.get(i, j))?;
        let mut w = s.clone();
        mat_copy(&mut w, &p)?;
        mchk(g, "mat_copy", &w, m, n, |i, j| p.get(i, j))?;
        let mut w = q.clone();
        mat_update(&mut w, al, &p)?;
        mchk(g, "mat_update", &w, m, n, |i, j| q.get(i, j) + al * p.get(i, j))?;
        let mut w = q.clone();
        mat_scale(&mut w, al);
        mchk(g, "mat_scale", &w, m, n, |i, j| al * q.get(i, j))?;
        for ml in 0..m.max(1) {
            for mu in 0..n.max(1) {
                let b0 = rm(g, "band", ml + mu + 1, n);
                let mut band = b0.clone();
                mat_convert_to_blas_band(&mut band, &p, ml, mu)?;
                mchk(g, "band", &band, ml + mu + 1, n, |r, j| if r + j >= mu && r + j - mu < m { p.get(r + j - mu, j) } else { b0.get(r, j) })?;
            }
        }
        Ok(())
    });
    cx.contract("matrix_refusals", |g| {
        let (m, n, k) = (g.choose("m", 4), g.choose("n", 4), g.choose("k", 3));
        let (a, b, at, p, s) = (rm(g, "a", m, k), rm(g, "b", k, n), rm(g, "at", k, m), rm(g, "p", m, n), rm(g, "s", m, n));
        let (al, be) = (g.var("alpha"), g.var("beta"));
        let mut c = s.clone();
        let (x, y) = (rm(g, "x", m + 1, n), rm(g, "y", m, n + 1));
        let bad = mat_mat_mul(&mut c, al, &rm(g, "z", m, k + 1), &b, be).is_err()
            && mat_mat_mul(&mut c, al, &rm(g, "z", m + 1, k), &b, be).is_err()
            && mat_mat_mul(&mut c, al, &a, &rm(g, "z", k, n + 1), be).is_err()
            && mat_t_mat_mul(&mut c, al, &rm(g, "z", k + 1, m), &b, be).is_err()
            && mat_t_mat_mul(&mut c, al, &rm(g, "z", k, m + 1), &b, be).is_err()
            && mat_t_mat_mul(&mut c, al, &at, &rm(g, "z", k, n + 1), be).is_err();
        g.holds(bad, "product of incompatible sizes accepted")?;
        let bad = mat_add(&mut c, al, &p, be, &x).is_err()
            && mat_add(&mut c, al, &y, be, &p).is_err()
            && mat_plus(&mut c, &p, &x).is_err()
            && mat_plus(&mut c, &y, &p).is_err()
            && mat_minus(&mut c, &p, &y).is_err()
            && mat_minus(&mut c, &x, &p).is_err()
            && mat_copy(&mut c, &x).is_err()
            && mat_copy(&mut c, &y).is_err()
            && mat_update(&mut c, al, &x).is_err()
            && mat_update(&mut c, al, &y).is_err();
        g.holds(bad, "combination of incompatible sizes accepted")?;
        if m != n {
            let tr = rm(g, "tr", n, m);
            let bad = mat_add(&mut c, al, &p, be, &tr).is_err() && mat_plus(&mut c, &p, &tr).is_err() && mat_minus(&mut c, &p, &tr).is_err() && mat_copy(&mut c, &tr).is_err() && mat_update(&mut c, al, &tr).is_err();
            g.holds(bad, "matrices of swapped size accepted")?;
        }
        let (u, t) = (rv(g, "u", n), rv(g, "t", m));
        let bad = vec_outer(&mut c, al, &t, &rv(g, "z", n + 1)).is_err() && vec_outer(&mut c, al, &rv(g, "z", m + 1), &u).is_err() && vec_outer_update(&mut c, al, &t, &rv(g, "z", n + 1)).is_err() && vec_outer_update(&mut c, al, &rv(g, "z", m + 1), &u).is_err();
        g.holds(bad, "outer product of incompatible sizes accepted")?;
        mchk(g, "output of a refused call", &c, m, n, |i, j| s.get(i, j))?;
        let (mut vm, mut vn) = (t.clone(), u.clone());
        let bad = mat_vec_mul(&mut vm, al, &p, &rv(g, "z", n + 1)).is_err()
            && mat_vec_mul(&mut vm, al, &x, &u).is_err()
            && mat_vec_mul_update(&mut vm, al, &p, &rv(g, "z", n + 1), be).is_err()
            && mat_vec_mul_update(&mut vm, al, &x, &u, be).is_err()
            && vec_mat_mul(&mut vn, al, &rv(g, "z", m + 1), &p).is_err()
            && vec_mat_mul(&mut vn, al, &t, &y).is_err()
            && mat_sum_rows(&mut vn, &y).is_err()
            && mat_sum_cols(&mut vm, &x).is_err();
        g.holds(bad, "matrix and vector of incompatible sizes accepted")?;
        vchk(g, "output of a refused call", &vm, m, |i| t[i])?;
        vchk(g, "output of a refused call", &vn, n, |i| u[i])
    });
    cx.contract("matrix_norms", |g| {
        let (m, n) = (g.choose("m", 3), g.choose("n", 3));
        let p = rm(g, "p", m, n);
        let q = rm(g, "q", m, n);
        let kind = g.choose("kind", 6);
        let largest = |v: Vec<f64>| {
            let mut w = 0.0;
            for x in v {
                if x > w {
                    w = x;
                }
            }
            w
        };
        let all = |f: &dyn Fn(usize, usize) -> f64| {
            let mut v = Vec::new();
            for i in 0..m {
                for j in 0..n {
                    v.push(f(i, j));
                }
            }
            v
        };
        match kind {
            0 | 1 => {
                let x = mat_norm(&p, if kind == 0 { Norm::Fro } else { Norm::Euc });
                g.same(x, sum(m, |i| sum(n, |j| p.get(i, j) * p.get(i, j))).sqrt(), "frobenius norm")
            }
            2 => {
                let x = mat_norm(&p, Norm::One);
                g.same(x, largest((0..n).map(|j| sum(m, |i| p.get(i, j).abs())).collect()), "norm one")
            }
            3 => {
                let x = mat_norm(&p, Norm::Inf);
                g.same(x, largest((0..m).map(|i| sum(n, |j| p.get(i, j).abs())).collect()), "infinity norm")
            }
            4 => {
                let x = mat_norm(&p, Norm::Max);
                g.same(x, largest(all(&|i, j| p.get(i, j).abs())), "largest norm")
            }
            _ => {
                let (i, j, d) = mat_max_abs_diff(&p, &q)?;
                if m * n > 0 {
                    g.holds(i < m && j < n, "position of the largest difference")?;
                    g.same(d, (p.get(i, j) - q.get(i, j)).abs(), "largest difference at its position")?;
                }
                g.same(d, largest(all(&|i, j| (p.get(i, j) - q.get(i, j)).abs())), "largest difference")
            }
        }
    });
    cx.contract("complex_vectors", |g| {
        let d = g.choose("n", 22);
        let (al, be) = (cvar(g, "alpha"), cvar(g, "beta"));
        let (x, y, s) = (cv(g, "x", d), cv(g, "y", d), cv(g, "s", d));
        let mut w = s.clone();
        complex_vec_add(&mut w, al, &x, be, &y)?;
        cvchk(g, "complex_vec_add", &w, d, |i| al * x[i] + be * y[i])?;
        w = s.clone();
        complex_vec_plus(&mut w, &x, &y)?;
        cvchk(g, "complex_vec_plus", &w, d, |i| x[i] + y[i])?;
        w = s.clone();
        complex_vec_minus(&mut w, &x, &y)?;
        cvchk(g, "complex_vec_minus", &w, d, |i| x[i] - y[i])?;
        w = s.clone();
        complex_vec_copy(&mut w, &x)?;
        cvchk(g, "complex_vec_copy", &w, d, |i| x[i])?;
        w = s.clone();
        complex_vec_update(&mut w, al, &y)?;
        cvchk(g, "complex_vec_update", &w, d, |i| s[i] + al * y[i])?;
        w = s.clone();
        complex_vec_scale(&mut w, al);
        cvchk(g, "complex_vec_scale", &w, d, |i| al * s[i])?;
        let (mut re, mut im) = (Vector::new(d), Vector::new(d));
        complex_vec_unzip(&mut re, &mut im, &x)?;
        vchk(g, "unzip real", &re, d, |i| x[i].re)?;
        vchk(g, "unzip imaginary", &im, d, |i| x[i].im)?;
        w = s.clone();
        complex_vec_zip(&mut w, &re, &im)?;
        cvchk(g, "zip", &w, d, |i| x[i])?;
        // refusals
        w = s.clone();
        let z = cv(g, "z", d + 1);
        let bad = complex_vec_add(&mut w, al, &x, be, &z).is_err()
            && complex_vec_add(&mut w, al, &z, be, &x).is_err()
            && complex_vec_plus(&mut w, &x, &z).is_err()
            && complex_vec_minus(&mut w, &z, &x).is_err()
            && complex_vec_copy(&mut w, &z).is_err()
            && complex_vec_update(&mut w, al, &z).is_err()
            && complex_vec_zip(&mut w, &re, &Vector::new(d + 1)).is_err()
            && complex_vec_unzip(&mut re, &mut im, &z).is_err();
        g.holds(bad, "incompatible sizes accepted")?;
        cvchk(g, "output of a refused call", &w, d, |i| s[i])
    });
    cx.contract("complex_matrices", |g| {
        let (m, n) = (g.choose("m", 4), g.choose("n", 4));
        let (al, be) = (cvar(g, "alpha"), cvar(g, "beta"));
        let (p, q, s) = (cm(g, "p", m, n), cm(g, "q", m, n), cm(g, "s", m, n));
        let mut w = s.clone();
        complex_mat_add(&mut w, al, &p, be, &q)?;
        cmchk(g, "complex_mat_add", &w, m, n, |i, j| al * p.get(i, j) + be * q.get(i, j))?;
        let mut w = s.clone();
        complex_mat_plus(&mut w, &p, &q)?;
        cmchk(g, "complex_mat_plus", &w, m, n, |i, j| p.get(i, j) + q.get(i, j))?;
        let mut w = s.clone();
        complex_mat_minus(&mut w, &p, &q)?;
        cmchk(g, "complex_mat_minus", &w, m, n, |i, j| p.get(i, j) - q.get(i, j))?;
        let mut w = s.clone();
        complex_mat_copy(&mut w, &p)?;
        cmchk(g, "complex_mat_copy", &w, m, n, |i, j| p.get(i, j))?;
        let mut w = s.clone();
        complex_mat_update(&mut w, al, &q)?;
        cmchk(g, "complex_mat_update", &w, m, n, |i, j| s.get(i, j) + al * q.get(i, j))?;
        let mut w = s.clone();
        complex_mat_scale(&mut w, al);
        cmchk(g, "complex_mat_scale", &w, m, n, |i, j| al * s.get(i, j))?;
        let (mut re, mut im) = (Matrix::new(m, n), Matrix::new(m, n));
        complex_mat_unzip(&mut re, &mut im, &p)?;
        mchk(g, "unzip real", &re, m, n, |i, j| p.get(i, j).re)?;
        mchk(g, "unzip imaginary", &im, m, n, |i, j| p.get(i, j).im)?;
        let mut w = s.clone();
        complex_mat_zip(&mut w, &re, &im)?;
        cmchk(g, "zip", &w, m, n, |i, j| p.get(i, j))?;
        let (u, t) = (cv(g, "u", n), cv(g, "t", m));
        let mut v = cv(g, "v", m);
        complex_mat_vec_mul(&mut v, al, &p, &u)?;
        cvchk(g, "complex_mat_vec_mul", &v, m, |i| al * csum(n, |j| p.get(i, j) * u[j]))?;
        let mut v = cv(g, "v", n);
        complex_vec_mat_mul(&mut v, al, &t, &p)?;
        cvchk(g, "complex_vec_mat_mul", &v, n, |j| al * csum(m, |i| p.get(i, j) * t[i]))
    });
    cx.contract("complex_products", |g| {
        let (m, n, k) = (g.choose("m", 3), g.choose("n", 3), g.choose("k", 3));
        let (al, be) = (cvar(g, "alpha"), cvar(g, "beta"));
        let (a, b, c0, at) = (cm(g, "a", m, k), cm(g, "b", k, n), cm(g, "c", m, n), cm(g, "at", k, m));
        let mut c = c0.clone();
        complex_mat_mat_mul(&mut c, al, &a, &b, be)?;
        cmchk(g, "complex_mat_mat_mul", &c, m, n, |i, j| be * c0.get(i, j) + al * csum(k, |p| a.get(i, p) * b.get(p, j)))?;
        let mut c = c0.clone();
        complex_mat_t_mat_mul(&mut c, al, &at, &b, be)?;
        cmchk(g, "complex_mat_t_mat_mul", &c, m, n, |i, j| be * c0.get(i, j) + al * csum(k, |p| at.get(p, i) * b.get(p, j)))?;
        if m == 0 {
            return Ok(());
        }
        let s0 = cm(g, "s", m, m);
        let mut h0 = s0.clone();
        for i in 0..m {
            h0.set(i, i, Complex64::new(s0.get(i, i).re, 0.0));
        }
        let (ar, br) = (al.re, be.re);
        for second in [false, true] {
            for upper in [false, true] {
                let tri = |i: usize, j: usize| (upper && j >= i) || (!upper && j <= i);
                let mut s = s0.clone();
                complex_mat_sym_rank_op(&mut s, if second { &at } else { &a }, al, be, upper, second)?;
                cmchk(g, "complex_sym_rank_op", &s, m, m, |i, j| {
                    if tri(i, j) {
                        be * s0.get(i, j) + al * csum(k, |p| if second { at.get(p, i) * at.get(p, j) } else { a.get(i, p) * a.get(j, p) })
                    } else {
                        s0.get(i, j)
                    }
                })?;
                let mut s = h0.clone();
                complex_mat_herm_rank_op(&mut s, if second { &at } else { &a }, ar, br, upper, second)?;
                cmchk(g, "complex_herm_rank_op", &s, m, m, |i, j| {
                    if tri(i, j) {
                        let x = csum(k, |p| if second { at.get(p, i).conj() * at.get(p, j) } else { a.get(i, p) * a.get(j, p).conj() });
                        Complex64::new(br * h0.get(i, j).re + ar * x.re, br * h0.get(i, j).im + ar * x.im)
                    } else {
                        h0.get(i, j)
                    }
                })?;
            }
        }
        Ok(())
    });
    cx.contract("arrays_of_fixed_size", |g| {
        const N: usize = 4;
        let n = g.choose("n", N + 1);
        let mut r = |what: &str| {
            let mut a = [[0.0; N]; N];
            for i in 0..N {
                for j in 0..N {
                    a[i][j] = g.var(what);
                }
            }
            a
        };
        let (a, b, c0) = (r("a"), r("b"), r("c"));
        let (al, be) = (g.var("alpha"), g.var("beta"));
        let (mut s, mut p, mut q) = (c0, c0, c0);
        small_mat_add(&mut s, al, &a, be, &b, n);
        small_mat_update(&mut p, al, &a, n);
        small_mat_mat_mul(&mut q, al, &a, &b, be, n);
        let (mut w, mut y) = (c0[0], c0[1]);
        small_vec_add(&mut w, al, &a[0], be, &b[0], n);
        small_vec_update(&mut y, al, &a[0], n);
        for i in 0..N {
            for j in 0..N {
                let inside = i < n && j < n;
                let x = al * sum(n, |k| a[i][k] * b[k][j]) + be * c0[i][j];
                g.same(s[i][j], if inside { al * a[i][j] + be * b[i][j] } else { c0[i][j] }, "sum")?;
                g.same(p[i][j], if inside { c0[i][j] + al * a[i][j] } else { c0[i][j] }, "update")?;
                g.same(q[i][j], if inside { x } else { c0[i][j] }, "product")?;
            }
            g.same(w[i], if i < n { al * a[0][i] + be * b[0][i] } else { c0[0][i] }, "sum of vectors")?;
            g.same(y[i], if i < n { c0[1][i] + al * a[0][i] } else { c0[1][i] }, "update of a vector")?;
        }
        Ok(())
    });
}
