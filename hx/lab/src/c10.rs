use hx_common::*;
use num_complex::Complex64;
use russell_lab::*;

// determinant of an integer matrix (fraction-free elimination)
fn det_i(a: &Vec<Vec<i128>>) -> i128 {
    let n = a.len();
    let mut m = a.clone();
    let (mut sign, mut prev) = (1, 1);
    for k in 0..n.saturating_sub(1) {
        if m[k][k] == 0 {
            match (k + 1..n).find(|&r| m[r][k] != 0) {
                Some(r) => {
                    m.swap(k, r);
                    sign = -sign;
                }
                None => return 0,
            }
        }
        for i in k + 1..n {
            for j in k + 1..n {
                m[i][j] = (m[i][j] * m[k][k] - m[i][k] * m[k][j]) / prev;
            }
        }
        prev = m[k][k];
    }
    if n == 0 {
        1
    } else {
        sign * m[n - 1][n - 1]
    }
}

// integer matrices with many pivoting patterns
fn imat(g: &mut Gen, n: usize) -> Vec<Vec<i128>> {
    let mut a = vec![vec![0; n]; n];
    let kind = g.usize(0, 4);
    for i in 0..n {
        for j in 0..n {
            a[i][j] = match kind {
                0 => g.int(-9, 9) as i128,
                1 => g.int(-1, 1) as i128,
                _ => if g.chance(1, 2) { 0 } else { g.int(-5, 5) as i128 },
            };
        }
    }
    if kind == 3 {
        let p = g.permutation(n);
        for i in 0..n {
            a[i][p[i]] += 7;
        }
    }
    if kind == 4 && n > 1 {
        // dependent row or column
        let (r, s) = (g.usize(0, n - 1), g.usize(0, n - 1));
        let f = g.int(-2, 2) as i128;
        for j in 0..n {
            if r != s {
                a[r][j] = f * a[s][j];
            } else {
                a[j][r] = 0;
            }
        }
    }
    a
}
fn resid(n: usize, a: impl Fn(usize, usize) -> f64, ai: impl Fn(usize, usize) -> f64) -> f64 {
    let mut worst: f64 = 0.0;
    for i in 0..n {
        for j in 0..n {
            let (mut s, mut t) = (0.0, 0.0);
            let mut mag = 1.0f64;
            for k in 0..n {
                s += a(i, k) * ai(k, j);
                t += ai(i, k) * a(k, j);
                mag = mag.max((a(i, k) * ai(k, j)).abs()).max((ai(i, k) * a(k, j)).abs());
            }
            let w = if i == j { 1.0 } else { 0.0 };
            let e = ((s - w).abs().max((t - w).abs())) / mag;
            worst = if e.is_nan() { f64::INFINITY } else { worst.max(e) };
        }
    }
    worst
}

fn small<const N: usize>(g: &mut Gen) -> Res {
    let n = g.usize(1, N);
    let a = imat(g, n);
    note!(g, "N {} n {} a {:?}", N, n, a);
    let det = det_i(&a);
    let mut arr = [[77.0; N]; N];
    for i in 0..n {
        for j in 0..n {
            arr[i][j] = a[i][j] as f64;
        }
    }
    let keep = arr;
    let mut ai = [[55.0; N]; N];
    let r = small_mat_inv(&mut ai, &arr, n);
    ck!(arr == keep, "the matrix was modified");
    if det != 0 {
        let d = match r {
            Ok(d) => d,
            Err(e) => return Err(format!("regular matrix (determinant {}) refused: {}", det, e)),
        };
        ck!(close(d, det as f64, 1e-9), "determinant {:?}, expected {}", d, det);
        let e = resid(n, |i, j| arr[i][j], |i, j| ai[i][j]);
        ck!(e < 1e-8, "matrix times inverse differs from the identity by {:e}: {:?}", e, ai);
        for i in 0..N {
            for j in 0..N {
                ck!((i < n && j < n) || ai[i][j] == 55.0, "inverse changed outside of the {}x{} block at ({},{})", n, n, i, j);
            }
        }
    } else if n <= 3 || a.iter().any(|r| r.iter().all(|x| *x == 0)) || (0..n).any(|j| (0..n).all(|i| a[i][j] == 0)) {
        ck!(r.is_err(), "singular matrix accepted with determinant {:?}", r);
    }
    if n == N {
        let mut w = arr;
        let r = num_recipes_gaussj_inv(&mut w);
        let zero_line = a.iter().any(|r| r.iter().all(|x| *x == 0)) || (0..n).any(|j| (0..n).all(|i| a[i][j] == 0));
        if det != 0 {
            ck!(r.is_ok(), "Gauss-Jordan refused a regular matrix with determinant {}", det);
            let e = resid(n, |i, j| arr[i][j], |i, j| w[i][j]);
            ck!(e < 1e-8, "Gauss-Jordan inverse: residual {:e}", e);
            // several right-hand sides
            let mut b = [[0.0; 3]; N];
            let mut x = [0.0; N];
            for i in 0..N {
                for j in 0..3 {
                    b[i][j] = g.int(-9, 9) as f64;
                }
                x[i] = b[i][0];
            }
            let b0 = b;
            let mut w = arr;
            num_recipes_gaussj_sol(&mut w, &mut b)?;
            let e = resid(n, |i, j| arr[i][j], |i, j| w[i][j]);
            ck!(e < 1e-8, "inverse returned with the solution: residual {:e}", e);
            let mut w = arr;
            small_solve_lin_sys(&mut x, &mut w)?;
            for i in 0..N {
                for j in 0..3 {
                    let s: f64 = (0..N).map(|k| arr[i][k] * b[k][j]).sum();
                    let mag = (0..N).map(|k| (arr[i][k] * b[k][j]).abs()).fold(1.0, f64::max);
                    ck!((s - b0[i][j]).abs() / mag < 1e-8, "equation {} of right-hand side {}: {:?}, expected {:?}", i, j, s, b0[i][j]);
                }
                ck!(close(x[i], b[i][0], 1e-8), "single solution {:?} differs from {:?}", x[i], b[i][0]);
            }
        } else if zero_line {
            ck!(r.is_err(), "Gauss-Jordan accepted a matrix with a zero row or column");
        }
    }
    Ok(())
}

pub fn register(cx: &mut Ctx) {
    cx.cases("closed_form_inverse", |g| {
        let n = g.usize(0, 3);
        let a = imat(g, n);
        let sc = *g.pick(&[1.0, 0.5, 0.125, 1024.0]);
        note!(g, "scale {:?} a {:?}", sc, a);
        let m = Matrix::initialized(n, n, |i, j| a[i][j] as f64 * sc);
        let mut mi = Matrix::filled(n, n, 99.0);
        let r = mat_inverse(&mut mi, &m);
        let det = det_i(&a) as f64 * f64::powi(sc, n as i32);
        if n == 0 {
            ck!(r.is_ok(), "empty matrix refused");
        } else if det == 0.0 {
            ck!(r.is_err(), "singular matrix accepted with determinant {:?}", r);
        } else {
            let d = r?;
            ck!(close(d, det, 1e-13), "determinant {:?}, expected {:?}", d, det);
            let e = resid(n, |i, j| m.get(i, j), |i, j| mi.get(i, j));
            ck!(e < 1e-12, "matrix times inverse differs from the identity by {:e}: {:?}", e, mi.as_data());
        }
        ck!(mat_inverse(&mut Matrix::new(n, n), &Matrix::new(n, n + 1)).is_err() && mat_inverse(&mut Matrix::new(n + 1, n), &Matrix::new(n, n)).is_err(), "bad sizes accepted");
        // real formulas with general values
        if n > 0 {
            let mut b = Matrix::initialized(n, n, |_, _| g.range(-2.0, 2.0));
            for i in 0..n {
                b.add(i, (i + 1) % n, 6.0);
            }
            let d = mat_inverse(&mut mi, &b)?;
            let e = resid(n, |i, j| b.get(i, j), |i, j| mi.get(i, j));
            ck!(e < 1e-12 && d.is_finite(), "general values {:?}: residual {:e}", b.as_data(), e);
        }
        Ok(())
    });
    cx.cases("inverse_by_factorisation", |g| {
        let n = g.usize(4, 9);
        let a = imat(g, n);
        note!(g, "a {:?}", a);
        let m = Matrix::initialized(n, n, |i, j| a[i][j] as f64);
        let det = det_i(&a) as f64;
        if det == 0.0 {
            return Ok(());
        }
        let mut mi = Matrix::filled(n, n, 99.0);
        let d = mat_inverse(&mut mi, &m)?;
        ck!(close(d, det, 1e-8), "determinant {:?}, expected {:?}", d, det);
        let e = resid(n, |i, j| m.get(i, j), |i, j| mi.get(i, j));
        ck!(e < 1e-8, "residual {:e}", e);
        let b = Vector::initialized(n, |_| 1.0);
        let mut x = b.clone();
        solve_lin_sys(&mut x, &mut m.clone())?;
        for i in 0..n {
            let s: f64 = (0..n).map(|k| m.get(i, k) * x[k]).sum();
            let mag = (0..n).map(|k| (m.get(i, k) * x[k]).abs()).fold(1.0, f64::max);
            ck!((s - b[i]).abs() / mag < 1e-8, "equation {}", i);
        }
        Ok(())
    });
    cx.cases("complex_closed_form", |g| {
        let n = g.usize(1, 3);
        let mut m = ComplexMatrix::initialized(n, n, |_, _| Complex64::new(g.int(-5, 5) as f64, g.int(-5, 5) as f64));
        if g.bool() && n > 1 {
            for j in 0..n {
                let v = m.get(0, j);
                m.set(n - 1, j, v * Complex64::new(0.0, 2.0));
            }
        }
        note!(g, "{:?}", m.as_data());
        let c = |i: usize, j: usize| m.get(i, j);
        let det = match n {
            1 => c(0, 0),
            2 => c(0, 0) * c(1, 1) - c(0, 1) * c(1, 0),
            _ => c(0, 0) * (c(1, 1) * c(2, 2) - c(1, 2) * c(2, 1)) - c(0, 1) * (c(1, 0) * c(2, 2) - c(1, 2) * c(2, 0)) + c(0, 2) * (c(1, 0) * c(2, 1) - c(1, 1) * c(2, 0)),
        };
        let mut mi = ComplexMatrix::new(n, n);
        let r = complex_mat_inverse(&mut mi, &m);
        if det.norm() == 0.0 {
            ck!(r.is_err(), "singular complex matrix accepted");
            return Ok(());
        }
        let d = r?;
        ck!((d - det).norm() <= 1e-12 * det.norm(), "determinant {:?}, expected {:?}", d, det);
        for i in 0..n {
            for j in 0..n {
                let s: Complex64 = (0..n).map(|k| m.get(i, k) * mi.get(k, j)).sum();
                let w = if i == j { 1.0 } else { 0.0 };
                ck!((s - w).norm() < 1e-9, "({},{}) of the product is {:?}", i, j, s);
            }
        }
        Ok(())
    });
    cx.cases("small_1_to_3", |g| small::<3>(g));
    cx.cases("small_up_to_4", |g| small::<4>(g));
    cx.cases("small_up_to_6", |g| small::<6>(g));
    cx.cases("small_2", |g| small::<2>(g));
}
