use hx_common::*;
use russell_lab::Vector;
use russell_pde::Metrics;

/// arbitrary first and second derivatives of a map; returns (first[i], second[i][j])
fn map(g: &mut Gx, n: usize, second: bool) -> (Vec<Vector>, Vec<Vec<Vector>>) {
    let mut first = vec![Vector::new(n); n];
    let mut snd = vec![vec![Vector::new(n); n]; n];
    for i in 0..n {
        for d in 0..n {
            first[i][d] = g.var(&format!("d{}x{}", i, d));
        }
    }
    if second {
        for i in 0..n {
            for j in i..n {
                for d in 0..n {
                    let v = g.var(&format!("d{}d{}x{}", i, j, d));
                    snd[i][j][d] = v;
                    snd[j][i][d] = v;
                }
            }
        }
    }
    (first, snd)
}
fn jacobian(a: &[Vector]) -> f64 {
    if a.len() == 2 {
        a[0][0] * a[1][1] - a[0][1] * a[1][0]
    } else {
        a[0][0] * (a[1][1] * a[2][2] - a[1][2] * a[2][1]) - a[0][1] * (a[1][0] * a[2][2] - a[1][2] * a[2][0])
            + a[0][2] * (a[1][0] * a[2][1] - a[1][1] * a[2][0])
    }
}

/// non-zero Jacobian (with floats: not close to zero either, as rounding is amplified)
fn regular(g: &mut Gx, jac: f64, a: &[Vector]) -> bool {
    if g.symbolic() {
        // the metric matrix is refused as singular when its determinant is at most 1e-15
        return g.assume_positive(jac * jac - 1e-15);
    }
    let mut p = 1.0;
    for v in a {
        let mut s = 0.0;
        for d in 0..v.dim() {
            s += v[d] * v[d];
        }
        if s > 400.0 {
            return false;
        }
        p *= s;
    }
    jac * jac > 1e-2 && jac * jac > 1e-2 * p
}

fn identities(g: &mut Gx, n: usize, homogeneous: bool) -> Res {
    let (a, b) = map(g, n, !homogeneous);
    let jac = jacobian(&a);
    if !regular(g, jac, &a) {
        return Ok(());
    }
    g.tol(1e-7);
    let mut m = Metrics::new(n, homogeneous);
    let o = |v: &'_ Vector| if homogeneous { None } else { Some(v.clone()) };
    let det = if n == 2 {
        let (rr, ss, rs) = (o(&b[0][0]), o(&b[1][1]), o(&b[0][1]));
        m.calculate_2d(&a[0], &a[1], rr.as_ref(), ss.as_ref(), rs.as_ref())
    } else {
        let (rr, ss, tt, rs, rt, st) = (o(&b[0][0]), o(&b[1][1]), o(&b[2][2]), o(&b[0][1]), o(&b[0][2]), o(&b[1][2]));
        m.calculate_3d(&a[0], &a[1], &a[2], rr.as_ref(), ss.as_ref(), tt.as_ref(), rs.as_ref(), rt.as_ref(), st.as_ref())
    };
    let det = match det {
        Ok(v) => v,
        Err(e) => return Err(format!("refused: {}", e)),
    };
    g.same(det, jac * jac, "determinant of the metric matrix")?;
    let delta = |i: usize, j: usize| if i == j { 1.0 } else { 0.0 };
    for i in 0..n {
        for j in 0..n {
            g.same(m.g_cov[i][j], a[i][j], "covariant base vector")?;
            let (mut dot, mut gij, mut prod) = (0.0, 0.0, 0.0);
            let mut ctr = 0.0;
            for d in 0..n {
                dot += m.g_ctr[i][d] * m.g_cov[j][d];
                gij += a[i][d] * a[j][d];
                prod += m.g_mat.get(i, d) * m.gg_mat.get(d, j);
                ctr += m.g_ctr[i][d] * m.g_ctr[j][d];
            }
            g.same(dot, delta(i, j), &format!("reciprocal bases ({},{})", i, j))?;
            g.same(m.g_mat.get(i, j), gij, "covariant metric coefficient")?;
            g.same(prod, delta(i, j), "metric matrices inverse to each other")?;
            g.same(m.gg_mat.get(i, j), ctr, "contravariant metric coefficient")?;
        }
    }
    if homogeneous {
        return g.holds(m.christoffel_second.len() == 0, "no Christoffel symbols for homogeneous coordinates");
    }
    for k in 0..n {
        let mut ell = 0.0;
        for i in 0..n {
            for j in 0..n {
                // second derivative of the position = sum of symbols times base vectors
                let mut v = 0.0;
                for d in 0..n {
                    v += m.g_ctr[k][d] * b[i][j][d];
                }
                g.same(m.christoffel_second[k][i][j], v, &format!("Christoffel symbol ({},{},{})", k, i, j))?;
                ell += v * m.gg_mat.get(i, j);
            }
        }
        g.same(m.ell_coefficient_for_laplacian(k), ell, &format!("coefficient {} of the Laplacian", k))?;
    }
    Ok(())
}

/// The Laplacian of a field given in reference coordinates equals that in real coordinates.
fn laplacian(g: &mut Gx, n: usize) -> Res {
    let (a, b) = map(g, n, true);
    let jac = jacobian(&a);
    if !regular(g, jac, &a) {
        return Ok(());
    }
    g.tol(1e-7);
    // gradient and Hessian of the field in real coordinates
    let grad: Vec<f64> = (0..n).map(|d| g.var(&format!("u{}", d))).collect();
    let mut hess = vec![vec![0.0; n]; n];
    for i in 0..n {
        for j in i..n {
            let v = g.var(&format!("u{}{}", i, j));
            hess[i][j] = v;
            hess[j][i] = v;
        }
    }
    let mut m = Metrics::new(n, false);
    let r = if n == 2 {
        m.calculate_2d(&a[0], &a[1], Some(&b[0][0]), Some(&b[1][1]), Some(&b[0][1]))
    } else {
        m.calculate_3d(
            &a[0],
            &a[1],
            &a[2],
            Some(&b[0][0]),
            Some(&b[1][1]),
            Some(&b[2][2]),
            Some(&b[0][1]),
            Some(&b[0][2]),
            Some(&b[1][2]),
        )
    };
    if let Err(e) = r {
        return Err(format!("refused: {}", e));
    }
    // chain rule: derivatives of the field along the reference coordinates
    let mut lap = 0.0;
    for i in 0..n {
        for j in 0..n {
            let mut v = 0.0;
            for d in 0..n {
                v += grad[d] * b[i][j][d];
                for e in 0..n {
                    v += hess[d][e] * a[i][d] * a[j][e];
                }
            }
            lap += m.gg_mat.get(i, j) * v;
        }
    }
    for k in 0..n {
        let mut v = 0.0;
        for d in 0..n {
            v += grad[d] * a[k][d];
        }
        lap -= m.ell_coefficient_for_laplacian(k) * v;
    }
    let mut want = 0.0;
    for d in 0..n {
        want += hess[d][d];
    }
    g.same(lap, want, "Laplacian in curvilinear coordinates")
}

/// wrong dimensions and missing second derivatives are refused
fn refusals(g: &mut Gx) -> Res {
    let n = 2 + g.choose("dimension", 2);
    let v: Vec<Vector> = (0..3)
        .map(|i| {
            let mut v = Vector::new(n);
            for d in 0..n {
                v[d] = if i == d { 1.0 } else { 0.0 };
            }
            v
        })
        .collect();
    let z = Vector::new(n);
    let w = Vector::new(if n == 2 { 3 } else { 2 });
    let which = g.choose("what is wrong", 8);
    let o = |k: usize| if which == k { None } else { Some(&z) };
    let f = |k: usize| if which == k { &w } else { &v[k] };
    let mut m = Metrics::new(n, false);
    if n == 2 {
        let r = m.calculate_2d(f(0), f(1), o(2), o(3), o(4));
        g.holds(r.is_err() == (which < 5), "refusal of wrong input")?;
        g.holds(m.calculate_3d(&w, &w, &w, o(2), o(3), o(4), o(5), o(6), o(7)).is_err(), "wrong dimension of the space")
    } else {
        let r = m.calculate_3d(f(0), f(1), f(2), o(3), o(4), o(5), o(6), o(7), if which == 2 { None } else { Some(&z) });
        g.holds(r.is_err(), "refusal of wrong input")?;
        g.holds(m.calculate_2d(&w, &w, o(2), o(3), o(4)).is_err(), "wrong dimension of the space")
    }
}

pub fn register(cx: &mut Ctx) {
    cx.contract("identities_2d", |g| identities(g, 2, false));
    cx.contract("identities_3d", |g| identities(g, 3, false));
    cx.contract("homogeneous_2d", |g| identities(g, 2, true));
    cx.contract("homogeneous_3d", |g| identities(g, 3, true));
    cx.contract("laplacian_2d", |g| laplacian(g, 2));
    cx.contract("laplacian_3d", |g| laplacian(g, 3));
    cx.contract("refusals", refusals);
}
