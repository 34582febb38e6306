//! interpolants on all grids and B-splines
use hx_common::*;
use russell_lab::*;

/// polynomial with the given coefficients: value and two derivatives
fn ev(c: &[f64], x: f64) -> (f64, f64, f64) {
    let (mut p, mut d, mut dd) = (0.0, 0.0, 0.0);
    for k in c.iter().rev() {
        dd = dd * x + 2.0 * d;
        d = d * x + p;
        p = p * x + *k;
    }
    (p, d, dd)
}
/// magnitude of the terms of a polynomial, for the rounding errors
fn size(g: &Gx, c: &[f64], m: f64) -> f64 {
    if g.symbolic() {
        return 1.0;
    }
    let (mut s, mut t) = (1.0, 1.0);
    for k in c {
        s = s + k.abs() * t;
        t = t * m;
    }
    s
}
fn grid(g: &mut Gx, nn: usize) -> Result<InterpLagrange, String> {
    let mut par = InterpParams::new();
    par.grid_type = match g.choose("grid", 3) {
        0 => InterpGrid::Uniform,
        1 => InterpGrid::ChebyshevGauss,
        _ => InterpGrid::ChebyshevGaussLobatto,
    };
    match g.choose("weights", 3) {
        0 => par.no_eta_normalization = true,
        1 => par.eta_cutoff = 0,
        _ => par.eta_cutoff = 100,
    }
    InterpLagrange::new(nn, Some(par)).map_err(|e| e.to_string())
}
/// non-decreasing knots: the pattern says how often each of them is repeated
fn knots(g: &mut Gx, pattern: &[usize]) -> Vec<f64> {
    let mut u = vec![];
    let mut x = g.var("start");
    for (k, m) in pattern.iter().enumerate() {
        if k > 0 {
            x = x + if g.symbolic() { g.pos("span") } else { 0.1 + g.pos("span") };
        }
        for _ in 0..*m {
            u.push(x);
        }
    }
    u
}
/// Cox-de Boor, on the knot interval s
fn basis(u: &[f64], same: &dyn Fn(usize, usize) -> bool, i: usize, p: usize, x: f64, s: usize) -> f64 {
    if p == 0 {
        return if i == s { 1.0 } else { 0.0 };
    }
    let mut r = 0.0;
    if !same(i, i + p) {
        r = r + (x - u[i]) / (u[i + p] - u[i]) * basis(u, same, i, p - 1, x, s);
    }
    if !same(i + 1, i + p + 1) {
        r = r + (u[i + p + 1] - x) / (u[i + p + 1] - u[i + 1]) * basis(u, same, i + 1, p - 1, x, s);
    }
    r
}
fn dbasis(u: &[f64], same: &dyn Fn(usize, usize) -> bool, i: usize, p: usize, k: usize, x: f64, s: usize) -> f64 {
    if k == 0 {
        return basis(u, same, i, p, x, s);
    }
    let mut r = 0.0;
    if !same(i, i + p) {
        r = r + p as f64 / (u[i + p] - u[i]) * dbasis(u, same, i, p - 1, k - 1, x, s);
    }
    if !same(i + 1, i + p + 1) {
        r = r - p as f64 / (u[i + p + 1] - u[i + 1]) * dbasis(u, same, i + 1, p - 1, k - 1, x, s);
    }
    r
}

pub fn register(cx: &mut Ctx) {
    cx.contract("lagrange_derivative_matrices", |g| {
        let nn = 1 + g.choose("degree", 8);
        let mut ip = grid(g, nn)?;
        g.tol(1e-7);
        let x = ip.get_points().clone();
        let c: Vec<f64> = (0..=nn).map(|_| g.var("coefficient")).collect();
        g.holds(x.dim() == nn + 1 && ip.get_degree() == nn, "number of nodes")?;
        ip.calc_dd2_matrix();
        let (d1, d2) = (ip.get_dd1()?, ip.get_dd2()?);
        for i in 0..=nn {
            g.holds(i == 0 || x[i] > x[i - 1], "increasing nodes")?;
            let (mut a, mut b) = (0.0, 0.0);
            for j in 0..=nn {
                let u = ev(&c, x[j]).0;
                a = a + d1.get(i, j) * u;
                b = b + d2.get(i, j) * u;
            }
            let w = ev(&c, x[i]);
            let sc = size(g, &c, 1.0);
            g.same(a / sc, w.1 / sc, "first derivative of a polynomial at a node")?;
            g.same(b / sc, w.2 / sc, "second derivative of a polynomial at a node")?;
        }
        Ok(())
    });
    cx.contract("lagrange_at_the_nodes", |g| {
        let nn = 1 + g.choose("degree", 6);
        let ip = grid(g, nn)?;
        g.tol(1e-7);
        let x = ip.get_points().clone();
        let c: Vec<f64> = (0..=nn).map(|_| g.var("coefficient")).collect();
        let mut u = Vector::new(nn + 1);
        for j in 0..=nn {
            u[j] = ev(&c, x[j]).0;
        }
        let i = g.choose("node", nn + 1);
        let sc = size(g, &c, 1.0);
        g.same(ip.eval_deriv1(x[i], &u)? / sc, ev(&c, x[i]).1 / sc, "first derivative at a node")?;
        g.same(ip.eval_deriv2(x[i], &u)? / sc, ev(&c, x[i]).2 / sc, "second derivative at a node")?;
        g.holds(ip.psi(i, x[i])? == 1.0, "cardinal function at its node")
    });
    cx.contract("lagrange_everywhere", |g| {
        let nn = 1 + g.choose("degree", 5);
        let ip = grid(g, nn)?;
        g.tol(1e-5);
        let x = ip.get_points().clone();
        let at = g.var("x");
        let c: Vec<f64> = (0..=nn).map(|_| g.var("coefficient")).collect();
        let mut u = Vector::new(nn + 1);
        for j in 0..=nn {
            u[j] = ev(&c, x[j]).0;
        }
        if at < -1.0 || at > 1.0 {
            g.holds(ip.eval(at, &u).is_err() && ip.psi(0, at).is_err() && ip.eval_deriv1(at, &u).is_err() && ip.eval_deriv2(at, &u).is_err(), "point outside of the domain refused")?;
            return Ok(());
        }
        let w = if g.symbolic() { 1e-12 } else { 0.05 };
        for j in 0..=nn {
            // the neighbourhood of the nodes is cut off
            if (at - x[j]).abs() < w {
                return Ok(());
            }
        }
        let mut sum = 0.0;
        for j in 0..=nn {
            sum = sum + ip.psi(j, at)?;
        }
        g.same(sum, 1.0, "sum of the cardinal functions")?;
        let w = ev(&c, at);
        let sc = size(g, &c, 1.0);
        g.same(ip.eval(at, &u)? / sc, w.0 / sc, "value of a polynomial")?;
        g.same(ip.eval_deriv1(at, &u)? / sc, w.1 / sc, "first derivative of a polynomial")?;
        g.same(ip.eval_deriv2(at, &u)? / sc, w.2 / sc, "second derivative of a polynomial")
    });
    cx.contract("chebyshev_series", |g| {
        let nn = g.choose("degree", 10);
        let xa = g.var("xa");
        let len = if g.symbolic() { g.pos("length") } else { 0.2 + g.pos("length") };
        g.assume_positive(len - 1e-4);
        let xb = xa + len;
        g.tol(1e-7);
        let c: Vec<f64> = (0..=nn).map(|_| g.var("coefficient")).collect();
        let mut ip = InterpChebyshev::new(nn + g.choose("more", 2), xa, xb)?;
        g.holds(!ip.is_ready() && ip.eval(xa).is_err(), "not usable before data is given")?;
        if g.flag("values") {
            let z = InterpChebyshev::points(nn);
            let mut u = vec![0.0; nn + 1];
            for i in 0..=nn {
                u[i] = ev(&c, (xa + xb + len * z[i]) / 2.0).0;
            }
            ip.set_data(&u)?;
        } else {
            ip.set_function(nn, &mut 0, |x, _: &mut NoArgs| Ok(ev(&c, x).0))?;
        }
        g.holds(ip.is_ready() && ip.get_degree() == nn, "degree")?;
        let t = g.var("t");
        if t < 0.0 || t > 1.0 {
            return Ok(());
        }
        let x = xa + t * len;
        let sc = size(g, &c, xa.abs() + xb.abs());
        g.same(ip.eval(x)? / sc, ev(&c, x).0 / sc, "value of a polynomial")?;
        g.same(ip.eval_using_trig(x)? / sc, ev(&c, x).0 / sc, "value of a polynomial by cosines")
    });
    cx.contract("chebyshev_series_through_data", |g| {
        let nn = 1 + g.choose("degree", 12);
        g.tol(1e-9);
        let u: Vec<f64> = (0..=nn).map(|_| g.var("value")).collect();
        let mut ip = InterpChebyshev::new(nn, -2.0, 3.0)?;
        ip.set_data(&u)?;
        let (x, y) = ip.get_xy_data()?;
        for i in 0..=nn {
            g.same(y[i], u[i], "data returned")?;
            g.same(ip.eval(x[i])?, u[i], "value at a node")?;
        }
        g.holds(x[0] == -2.0 && x[nn] == 3.0, "the nodes include the ends")?;
        g.holds(ip.set_data(&[]).is_err() && ip.set_data(&vec![0.0; nn + 4]).is_err() && InterpChebyshev::new(3, 1.0, 1.0).is_err(), "invalid arguments refused")
    });
    cx.contract("b_spline_basis", |g| {
        let list: [(usize, &[usize]); 14] = [
            (1, &[2, 2]),
            (1, &[2, 1, 2]),
            (1, &[2, 1, 1, 2]),
            (1, &[1, 1, 1, 1, 1]),
            (2, &[3, 3]),
            (2, &[3, 1, 3]),
            (2, &[3, 1, 1, 3]),
            (2, &[3, 2, 3]),
            (2, &[1, 1, 1, 1, 1, 1, 1]),
            (3, &[4, 4]),
            (3, &[4, 1, 4]),
            (3, &[4, 2, 1, 4]),
            (3, &[4, 3, 4]),
            (3, &[1, 1, 1, 1, 1, 1, 1, 1, 1]),
        ];
        let (p, pattern) = list[g.choose("knots", 14)];
        let u = knots(g, pattern);
        let mut group = vec![];
        for (k, m) in pattern.iter().enumerate() {
            for _ in 0..*m {
                group.push(k);
            }
        }
        let same = |i: usize, j: usize| group[i] == group[j];
        let mut b = Bspline::new(p, &u)?;
        let nb = b.num_basis();
        g.tol(1e-6);
        g.holds(nb == u.len() - p - 1, "number of functions")?;
        // non-empty intervals of the domain
        let spans: Vec<usize> = (p..nb).filter(|&i| !same(i, i + 1)).collect();
        let s = spans[g.choose("interval", spans.len())];
        let t = match g.choose("place", 3) {
            0 => u[s],
            1 => {
                let f = g.pos("f");
                u[s] + (u[s + 1] - u[s]) * f / (1.0 + f)
            }
            _ => if s == spans[spans.len() - 1] { u[s + 1] } else { u[s] },
        };
        let far = spans[g.choose("earlier", 2) * (spans.len() - 1)];
        b.calc_basis_and_derivs((u[far] + u[far + 1]) / 2.0, p)?;
        b.calc_basis(t)?;
        let mut sum = 0.0;
        for i in 0..nb {
            let v = b.get_basis(i);
            g.same(v, basis(&u, &same, i, p, t, s), "basis function")?;
            g.holds(v >= if g.symbolic() { 0.0 } else { -1e-12 }, "basis functions are not negative")?;
            sum = sum + v;
        }
        g.same(sum, 1.0, "sum of the basis functions")?;
        let upto = g.choose("upto", p + 1);
        b.calc_basis_and_derivs(t, upto)?;
        for k in 0..=upto {
            for i in 0..nb {
                g.same(b.get_basis_deriv(i, k), dbasis(&u, &same, i, p, k, t, s), "derivative of a basis function")?;
            }
        }
        let mut pts = vec![vec![0.0; 2]; nb];
        for i in 0..nb {
            pts[i] = vec![g.var("px"), g.var("py")];
        }
        b.set_control_points(&pts)?;
        let control = g.flag("control");
        b.calc_curve_derivs(t, upto, control);
        let mut c = Vector::new(2);
        b.calc_point(&mut c, t, false)?;
        for l in 0..2 {
            let mut w = 0.0;
            for i in 0..nb {
                w = w + basis(&u, &same, i, p, t, s) * pts[i][l];
            }
            g.same(c[l], w, "point of the curve")?;
        }
        for k in 0..=upto {
            b.get_curve_deriv(&mut c, k);
            for l in 0..2 {
                let mut w = 0.0;
                for i in 0..nb {
                    w = w + dbasis(&u, &same, i, p, k, t, s) * pts[i][l];
                }
                g.same(c[l], w, "derivative of the curve")?;
            }
        }
        Ok(())
    });
}
