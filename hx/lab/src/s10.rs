//! inverses, determinants and solutions of small systems
use hx_common::*;
use russell_lab::*;

type Fun<'a> = &'a dyn Fn(usize, usize) -> f64;

/// determinant by expansion along the first row
fn det(n: usize, a: Fun) -> f64 {
    if n == 0 {
        return 1.0;
    }
    let mut s = 0.0;
    for c in 0..n {
        let m = det(n - 1, &|i, j| a(i + 1, if j < c { j } else { j + 1 }));
        s = if c % 2 == 0 { s + a(0, c) * m } else { s - a(0, c) * m };
    }
    s
}
/// both products equal the identity
fn inverse(g: &mut Gx, n: usize, a: Fun, b: Fun, what: &str) -> Res {
    for i in 0..n {
        for j in 0..n {
            let (mut s, mut t) = (0.0, 0.0);
            for k in 0..n {
                s = s + a(i, k) * b(k, j);
                t = t + b(i, k) * a(k, j);
            }
            let w = if i == j { 1.0 } else { 0.0 };
            g.same(s, w, &format!("{}: entry ({},{}) of matrix times inverse", what, i, j))?;
            g.same(t, w, &format!("{}: entry ({},{}) of inverse times matrix", what, i, j))?;
        }
    }
    Ok(())
}
/// rounding errors of nearly singular matrices are not judged
fn skip(g: &Gx, d: f64) -> bool {
    !g.symbolic() && d.abs() < 1e-2
}
fn rows<const N: usize>(g: &mut Gx) -> [[f64; N]; N] {
    let mut a = [[0.0; N]; N];
    for i in 0..N {
        for j in 0..N {
            a[i][j] = g.var("a");
        }
    }
    a
}
fn eliminated<const N: usize>(g: &mut Gx) -> Res {
    let a = rows::<N>(g);
    g.tol(1e-6);
    let d = det(N, &|i, j| a[i][j]);
    if skip(g, d) {
        return Ok(());
    }
    let mut b = [[0.0; 2]; N];
    let mut x = [0.0; N];
    for i in 0..N {
        b[i] = [g.var("b"), g.var("b")];
        x[i] = b[i][0];
    }
    let b0 = b;
    let mut w = a;
    let r = num_recipes_gaussj_sol(&mut w, &mut b);
    let mut w2 = a;
    let r2 = num_recipes_gaussj_inv(&mut w2);
    let mut w3 = a;
    let r3 = small_solve_lin_sys(&mut x, &mut w3);
    g.holds(r.is_ok() == r2.is_ok() && r.is_ok() == r3.is_ok(), "the variants disagree about singularity")?;
    if r.is_err() {
        return Ok(()); // pivot below the limit
    }
    inverse(g, N, &|i, j| a[i][j], &|i, j| w[i][j], "elimination")?;
    for i in 0..N {
        for j in 0..N {
            g.same(w[i][j], w2[i][j], "inverse without right-hand sides")?;
        }
        for c in 0..2 {
            let mut s = 0.0;
            for k in 0..N {
                s = s + a[i][k] * b[k][c];
            }
            g.same(s, b0[i][c], "solution")?;
        }
        g.same(x[i], b[i][0], "single solution")?;
    }
    Ok(())
}

pub fn register(cx: &mut Ctx) {
    cx.contract("closed_form_inverse_exact", |g| {
        let n = g.choose("n", 4);
        let a = Matrix::initialized(n, n, |_, _| g.var("a"));
        g.tol(1e-6);
        let d = det(n, &|i, j| a.get(i, j));
        if skip(g, d) {
            return Ok(());
        }
        let mut b = Matrix::new(n, n);
        let r = mat_inverse(&mut b, &a);
        if n == 0 {
            return g.holds(r.is_ok(), "empty matrix refused");
        }
        g.holds(r.is_err() == (d.abs() <= 1e-15), "singular matrix not refused, or regular matrix refused")?;
        if let Ok(x) = r {
            g.same(x, d, "determinant")?;
            inverse(g, n, &|i, j| a.get(i, j), &|i, j| b.get(i, j), "inverse")?;
        }
        g.holds(mat_inverse(&mut b, &Matrix::new(n, n + 1)).is_err() && mat_inverse(&mut Matrix::new(n + 1, n), &a).is_err(), "incompatible sizes accepted")
    });
    cx.contract("array_inverse_exact", |g| {
        let n = 1 + g.choose("n", 3);
        let a = rows::<4>(g);
        let c = rows::<4>(g);
        g.tol(1e-6);
        let d = det(n, &|i, j| a[i][j]);
        if skip(g, d) {
            return Ok(());
        }
        let mut b = c;
        let r = small_mat_inv(&mut b, &a, n);
        g.holds(r.is_err() == (d.abs() <= 1e-15), "singular matrix not refused, or regular matrix refused")?;
        if let Ok(x) = r {
            g.same(x, d, "determinant")?;
            inverse(g, n, &|i, j| a[i][j], &|i, j| b[i][j], "inverse")?;
        }
        for i in 0..4 {
            for j in 0..4 {
                if i >= n || j >= n {
                    g.same(b[i][j], c[i][j], "entry outside of the block")?;
                }
            }
        }
        Ok(())
    });
    cx.contract("array_elimination_of_four", |g| {
        let a = rows::<4>(g);
        g.tol(1e-6);
        let d = det(4, &|i, j| a[i][j]);
        if skip(g, d) {
            return Ok(());
        }
        let mut b = rows::<4>(g);
        if let Ok(x) = small_mat_inv(&mut b, &a, 4) {
            g.same(x, d, "determinant")?;
            inverse(g, 4, &|i, j| a[i][j], &|i, j| b[i][j], "inverse")?;
        }
        Ok(())
    });
    cx.contract("full_pivoting_of_one", |g| eliminated::<1>(g));
    cx.contract("full_pivoting_of_two", |g| eliminated::<2>(g));
    cx.bounded("full_pivoting_of_three", |g| eliminated::<3>(g));
    cx.contract("inverse_by_factorisation_exact", |g| {
        let n = 4;
        let a = Matrix::initialized(n, n, |_, _| g.var("a"));
        g.tol(1e-6);
        let d = det(n, &|i, j| a.get(i, j));
        if skip(g, d) {
            return Ok(());
        }
        let mut b = Matrix::new(n, n);
        let x = mat_inverse(&mut b, &a)?;
        g.same(x, d, "determinant")?;
        inverse(g, n, &|i, j| a.get(i, j), &|i, j| b.get(i, j), "inverse")
    });
    cx.contract("complex_inverse_exact", |g| {
        let n = 1 + g.choose("n", 3);
        let a = ComplexMatrix::initialized(n, n, |_, _| Complex64::new(g.var("a"), g.var("a")));
        g.tol(1e-6);
        let c = |i: usize, j: usize| a.get(i, j);
        let d = match n {
            1 => c(0, 0),
            2 => c(0, 0) * c(1, 1) - c(0, 1) * c(1, 0),
            _ => c(0, 0) * (c(1, 1) * c(2, 2) - c(1, 2) * c(2, 1)) - c(0, 1) * (c(1, 0) * c(2, 2) - c(1, 2) * c(2, 0)) + c(0, 2) * (c(1, 0) * c(2, 1) - c(1, 1) * c(2, 0)),
        };
        if skip(g, d.re * d.re + d.im * d.im) {
            return Ok(());
        }
        let mut b = ComplexMatrix::new(n, n);
        let Ok(x) = complex_mat_inverse(&mut b, &a) else {
            return Ok(());
        };
        g.same(x.re, d.re, "real part of the determinant")?;
        g.same(x.im, d.im, "imaginary part of the determinant")?;
        for i in 0..n {
            for j in 0..n {
                let mut s = Complex64::new(0.0, 0.0);
                for k in 0..n {
                    s = s + a.get(i, k) * b.get(k, j);
                }
                g.same(s.re, if i == j { 1.0 } else { 0.0 }, "real part of the product")?;
                g.same(s.im, 0.0, "imaginary part of the product")?;
            }
        }
        Ok(())
    });
}
