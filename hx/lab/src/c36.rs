use hx_common::*;
use russell_lab::*;

fn ev(c: &[f64], x: f64) -> (f64, f64, f64) {
    let (mut p, mut d, mut dd) = (0.0, 0.0, 0.0);
    for k in c.iter().rev() {
        dd = dd * x + 2.0 * d;
        d = d * x + p;
        p = p * x + k;
    }
    (p, d, dd)
}
fn coefs(g: &mut Gen, d: usize) -> Vec<f64> {
    (0..=d).map(|_| g.int(-5, 5) as f64).collect()
}

// Cox-de Boor
fn basis(u: &[f64], i: usize, p: usize, x: f64, last: usize) -> f64 {
    if p == 0 {
        // right-continuous, the last non-empty span is closed
        if x == u[last + 1] {
            return if i == last { 1.0 } else { 0.0 };
        }
        return if x >= u[i] && x < u[i + 1] { 1.0 } else { 0.0 };
    }
    let mut r = 0.0;
    if u[i + p] > u[i] {
        r += (x - u[i]) / (u[i + p] - u[i]) * basis(u, i, p - 1, x, last);
    }
    if u[i + p + 1] > u[i + 1] {
        r += (u[i + p + 1] - x) / (u[i + p + 1] - u[i + 1]) * basis(u, i + 1, p - 1, x, last);
    }
    r
}
fn dbasis(u: &[f64], i: usize, p: usize, k: usize, x: f64, last: usize) -> f64 {
    if k == 0 {
        return basis(u, i, p, x, last);
    }
    let mut r = 0.0;
    if u[i + p] > u[i] {
        r += p as f64 / (u[i + p] - u[i]) * dbasis(u, i, p - 1, k - 1, x, last);
    }
    if u[i + p + 1] > u[i + 1] {
        r -= p as f64 / (u[i + p + 1] - u[i + 1]) * dbasis(u, i + 1, p - 1, k - 1, x, last);
    }
    r
}

pub fn register(cx: &mut Ctx) {
    cx.cases_w("lagrange", 2, |g| {
        let grid = *g.pick(&[InterpGrid::Uniform, InterpGrid::ChebyshevGauss, InterpGrid::ChebyshevGaussLobatto]);
        let nn = if grid == InterpGrid::Uniform { g.dim(1, 10) } else { g.dim(1, 24) };
        let mut par = InterpParams::new();
        par.grid_type = grid;
        par.no_eta_normalization = g.bool();
        if g.bool() {
            par.eta_cutoff = g.usize(0, 5);
        }
        let mut ip = InterpLagrange::new(nn, Some(par))?;
        let c = coefs(g, g.size.min(nn).min(12));
        note!(g, "degree {} {:?} plain weights {} cutoff {} polynomial {:?}", nn, grid, par.no_eta_normalization, par.eta_cutoff, c);
        let xs = ip.get_points().clone();
        ck!(xs.dim() == nn + 1 && ip.get_degree() == nn, "number of nodes");
        for i in 1..=nn {
            ck!(xs[i] > xs[i - 1], "nodes not increasing");
        }
        let uu = Vector::initialized(nn + 1, |i| ev(&c, xs[i]).0);
        let sc = c.iter().map(|x| x.abs()).sum::<f64>() + 1.0;
        let n4 = ((nn + 1) as f64).powi(2);
        // at the nodes: arbitrary data
        let any = Vector::initialized(nn + 1, |_| g.range(-3.0, 3.0));
        for i in 0..=nn {
            ck!((ip.eval(xs[i], &any)? - any[i]).abs() < 1e-12, "value at node {} is {:?}, data {:?}", i, ip.eval(xs[i], &any)?, any[i]);
            for j in 0..=nn {
                let w = if i == j { 1.0 } else { 0.0 };
                ck!((ip.psi(j, xs[i])? - w).abs() < 1e-13, "cardinal function {} at node {} is {:?}", j, i, ip.psi(j, xs[i])?);
            }
        }
        // everywhere: polynomials
        let mut pts = vec![-1.0, 1.0, 0.0];
        for _ in 0..4 {
            pts.push(g.range(-1.0, 1.0));
        }
        let k = g.usize(0, nn);
        pts.push(xs[k]);
        for x in pts {
            let w = ev(&c, x);
            let near = (0..=nn).map(|i| (x - xs[i]).abs()).filter(|d| *d > 1e-14).fold(1.0, f64::min);
            let v = ip.eval(x, &uu)?;
            ck!((v - w.0).abs() < 1e-10 * sc * n4, "value at {:?} is {:?}, polynomial {:?}", x, v, w.0);
            let d = ip.eval_deriv1(x, &uu)?;
            ck!((d - w.1).abs() < 1e-10 * sc * n4 * n4 / near, "derivative at {:?} is {:?}, polynomial {:?}", x, d, w.1);
            let d = ip.eval_deriv2(x, &uu)?;
            ck!((d - w.2).abs() < 1e-9 * sc * n4 * n4 * n4 / (near * near), "second derivative at {:?} is {:?}, polynomial {:?}", x, d, w.2);
        }
        // derivative matrices
        if g.bool() {
            ip.calc_dd1_matrix();
        }
        ip.calc_dd2_matrix();
        let (d1, d2) = (ip.get_dd1()?, ip.get_dd2()?);
        for i in 0..=nn {
            let (a, b): (f64, f64) = ((0..=nn).map(|j| d1.get(i, j) * uu[j]).sum(), (0..=nn).map(|j| d2.get(i, j) * uu[j]).sum());
            let w = ev(&c, xs[i]);
            ck!((a - w.1).abs() < 1e-10 * sc * n4 * n4, "first derivative at node {} is {:?}, polynomial {:?}", i, a, w.1);
            ck!((b - w.2).abs() < 1e-9 * sc * n4 * n4 * n4, "second derivative at node {} is {:?}, polynomial {:?}", i, b, w.2);
        }
        ck!(ip.eval(1.5, &uu).is_err() && ip.eval(0.0, &Vector::new(nn)).is_err() && ip.psi(nn + 1, 0.0).is_err() && InterpLagrange::new(0, None).is_err(), "invalid arguments accepted");
        Ok(())
    });
    cx.cases("chebyshev_series", |g| {
        let nn = g.dim(0, 20);
        let d = if nn == 0 { g.usize(0, 3) } else { g.usize(0, nn.min(10)) };
        let c = coefs(g, d);
        let (xa, len) = (g.range(-3.0, 1.0), g.range(0.1, 4.0));
        let xb = xa + len;
        let mode = g.usize(0, 3);
        let first = g.bool(); // earlier content must not matter
        note!(g, "degree {} polynomial {:?} on {:?}..{:?} mode {} reused {}", nn, c, xa, xb, mode, first);
        let mut ip = InterpChebyshev::new(20, xa, xb)?;
        ck!(!ip.is_ready() && ip.eval(xa).is_err(), "used before data was set");
        if first {
            let m = g.usize(0, 20);
            ip.set_function(m, &mut 0, |x, _: &mut NoArgs| Ok(1.0 + 77.0 * x))?;
        }
        let zz = InterpChebyshev::points(nn);
        let xs: Vec<f64> = (0..=nn).map(|i| if nn == 0 { (xa + xb) / 2.0 } else { (xb + xa + len * zz[i]) / 2.0 }).collect();
        let f = |x: f64| ev(&c, x).0;
        let m = [xa, xb].iter().map(|x| x.abs().max(1.0)).fold(1.0, f64::max);
        let sc = (0..=d).map(|k| c[k].abs() * m.powi(k as i32)).sum::<f64>() + 1.0;
        match mode {
            0 | 1 => ip.set_function(nn, &mut 0, |x, _: &mut NoArgs| Ok(f(x)))?,
            2 => ip.set_data(&xs.iter().map(|x| f(*x)).collect::<Vec<_>>())?,
            _ => {
                if ip.adapt_function(1e-11 * sc, &mut 0, |x, _: &mut NoArgs| Ok(f(x))).is_err() {
                    return Ok(()); // may not be reached with this number of points
                }
                ck!(ip.get_degree() <= 20, "degree {}", ip.get_degree());
            }
        }
        if mode == 3 && (f(xa) - f(xb)).abs() < 1e-9 * sc {
            return Ok(()); // the adaptive stop may be fooled
        }
        let deg = if mode == 3 { ip.get_degree() } else { nn };
        ck!(ip.is_ready() && ip.get_degree() == deg, "degree {}", ip.get_degree());
        let tol = 1e-8 * sc;
        if mode != 3 {
            for k in 0..8 {
                let x = xa + len * k as f64 / 7.0;
                if d <= nn && (nn > 0 || d == 0) {
                    ck!((ip.eval(x)? - f(x)).abs() < tol, "value at {:?} is {:?}, polynomial {:?}", x, ip.eval(x)?, f(x));
                    ck!((ip.eval_using_trig(x)? - f(x)).abs() < tol, "value by cosines at {:?} is {:?}, polynomial {:?}", x, ip.eval_using_trig(x)?, f(x));
                }
            }
            let (x, u) = ip.get_xy_data()?;
            ck!(x.dim() == nn + 1 && u.dim() == nn + 1, "number of data points");
            for i in 0..=nn {
                if nn > 0 {
                    ck!((x[i] - xs[i]).abs() < 1e-12 * m, "node {} is {:?}, expected {:?}", i, x[i], xs[i]);
                }
                ck!((u[i] - f(xs[i])).abs() < tol, "data {} is {:?}, expected {:?}", i, u[i], f(xs[i]));
                ck!((ip.eval(x[i])? - u[i]).abs() < tol, "value at node {} is {:?}, data {:?}", i, ip.eval(x[i])?, u[i]);
            }
        }
        // arbitrary data at the nodes
        if nn > 0 {
            let any: Vec<f64> = (0..=nn).map(|_| g.range(-3.0, 3.0)).collect();
            ip.set_data(&any)?;
            for i in 0..=nn {
                ck!((ip.eval(xs[i])? - any[i]).abs() < 1e-8, "value at node {} is {:?}, data {:?}", i, ip.eval(xs[i])?, any[i]);
            }
        }
        ck!(ip.set_data(&[]).is_err() && ip.set_data(&[0.0; 30]).is_err() && InterpChebyshev::new(3, 1.0, 1.0).is_err(), "invalid arguments accepted");
        Ok(())
    });
    cx.cases_w("b_splines", 2, |g| {
        let p = g.usize(1, 5);
        let clamped = g.bool();
        let mut u = vec![];
        let mut x = g.range(-2.0, 0.0);
        if clamped {
            u.extend(vec![x; p + 1]);
            for _ in 0..g.usize(0, 5) {
                x += g.range(0.1, 1.0);
                let m = g.usize(1, p);
                u.extend(vec![x; if g.bool() { 1 } else { m }]);
            }
            x += g.range(0.1, 1.0);
            u.extend(vec![x; p + 1]);
        } else {
            for _ in 0..(2 * (p + 1) + g.usize(0, 5)) {
                u.push(x);
                x += g.range(0.1, 1.0);
            }
        }
        let mut b = Bspline::new(p, &u)?;
        let nb = b.num_basis();
        ck!(nb == u.len() - p - 1, "number of functions {}", nb);
        let last = (p..nb).rev().find(|&i| u[i + 1] > u[i]).unwrap();
        let (lo, hi) = (u[p], u[nb]);
        let t = match g.usize(0, 5) {
            0 => lo,
            1 => hi,
            2 => u[g.usize(p, nb)],
            _ => g.range(lo, hi),
        };
        let upto = g.usize(0, p);
        note!(g, "p {} knots {:?} at {:?} upto {}", p, u, t, upto);
        let nd = g.usize(1, 3);
        let pts: Vec<Vec<f64>> = (0..nb).map(|_| (0..nd).map(|_| g.range(-2.0, 2.0)).collect()).collect();
        if g.bool() {
            let other = g.range(lo, hi); // state of an earlier call must not matter
            b.calc_basis_and_derivs(other, p)?;
        }
        b.calc_basis(t)?;
        let mut sum = 0.0;
        for i in 0..nb {
            let (v, w) = (b.get_basis(i), basis(&u, i, p, t, last));
            ck!((v - w).abs() < 1e-11, "function {} at {:?} is {:?}, expected {:?}", i, t, v, w);
            ck!(v >= -1e-15, "negative function {} at {:?}: {:?}", i, t, v);
            ck!((t >= u[i] && t <= u[i + p + 1]) || v == 0.0, "function {} at {:?}, outside of its support: {:?}", i, t, v);
            let r = b.recursive_basis(t, i);
            if t < hi {
                ck!((r - w).abs() < 1e-11, "recursive function {} at {:?} is {:?}, expected {:?}", i, t, r, w);
            }
            sum += v;
        }
        ck!((sum - 1.0).abs() < 1e-12, "functions add up to {:?} at {:?}", sum, t);
        b.calc_basis_and_derivs(t, upto)?;
        for k in 0..=upto {
            let sc = (0..nb).map(|i| dbasis(&u, i, p, k, t, last).abs()).fold(1.0, f64::max);
            for i in 0..nb {
                let (v, w) = (b.get_basis_deriv(i, k), dbasis(&u, i, p, k, t, last));
                ck!((v - w).abs() < 1e-9 * sc, "derivative {} of function {} at {:?} is {:?}, expected {:?}", k, i, t, v, w);
            }
        }
        // curve
        b.set_control_points(&pts)?;
        let mut c = Vector::new(nd);
        b.calc_point(&mut c, t, false)?;
        for ctl in [false, true] {
            b.calc_curve_derivs(t, upto, ctl);
            for k in 0..=upto {
                let mut cd = Vector::new(nd);
                b.get_curve_deriv(&mut cd, k);
                for l in 0..nd {
                    let w: f64 = (0..nb).map(|i| dbasis(&u, i, p, k, t, last) * pts[i][l]).sum();
                    let sc = (0..nb).map(|i| dbasis(&u, i, p, k, t, last).abs()).fold(1.0, f64::max);
                    ck!((cd[l] - w).abs() < 1e-8 * sc, "derivative {} of the curve at {:?} (control {}) is {:?}, expected {:?}", k, t, ctl, cd[l], w);
                    if k == 0 {
                        ck!((c[l] - w).abs() < 1e-10, "point at {:?} is {:?}, expected {:?}", t, c[l], w);
                    }
                }
            }
        }
        let spans = b.get_elements(1e-12);
        let want: Vec<[usize; 2]> = (0..u.len() - 1).filter(|&i| u[i + 1] > u[i]).map(|i| [i, i + 1]).collect();
        ck!(spans == want, "non-empty spans {:?}, expected {:?}", spans, want);
        ck!(b.calc_basis(u[0] - 1.0).is_err() && b.calc_basis(u[u.len() - 1] + 1.0).is_err() && Bspline::new(0, &u).is_err() && Bspline::new(u.len(), &u).is_err(), "invalid arguments accepted");
        Ok(())
    });
}
