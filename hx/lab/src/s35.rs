//! orthogonal polynomials: values, derivatives and nodes
use hx_common::*;
use russell_lab::math::*;

/// value, first and second derivative by the recurrence p(k+1) = a(k) x p(k) - c(k) p(k-1)
fn rec(n: usize, x: f64, p1: (f64, f64), a: &dyn Fn(f64) -> f64, c: &dyn Fn(f64) -> f64) -> (f64, f64, f64) {
    let mut o: (f64, f64, f64) = (1.0, 0.0, 0.0);
    let mut p = (p1.0, p1.1, 0.0);
    if n == 0 {
        return o;
    }
    for k in 1..n {
        let (u, v) = (a(k as f64), c(k as f64));
        let q = (u * x * p.0 - v * o.0, u * (p.0 + x * p.1) - v * o.1, u * (2.0 * p.1 + x * p.2) - v * o.2);
        o = p;
        p = q;
    }
    p
}
fn tn(n: usize, x: f64) -> (f64, f64, f64) {
    rec(n, x, (x, 1.0), &|_| 2.0, &|_| 1.0)
}
fn un(n: usize, x: f64) -> (f64, f64, f64) {
    rec(n, x, (2.0 * x, 2.0), &|_| 2.0, &|_| 1.0)
}
fn pn(n: usize, x: f64) -> (f64, f64, f64) {
    rec(n, x, (x, 1.0), &|k| (2.0 * k + 1.0) / (k + 1.0), &|k| k / (k + 1.0))
}
/// close to the ends the formulas are cut off (values at the ends are checked apart); rounding is not judged there
fn near_end(g: &Gx, x: f64) -> bool {
    let w = if g.symbolic() { 1e-11 } else { 0.05 };
    (x - 1.0).abs() < w || (x + 1.0).abs() < w
}

pub fn register(cx: &mut Ctx) {
    cx.contract("legendre_polynomials", |g| {
        let n = g.choose("degree", 33);
        let x = g.var("x");
        g.tol(1e-8);
        if near_end(g, x) {
            return Ok(());
        }
        let w = pn(n, x);
        g.same(legendre_pn(n, x), w.0, "Legendre polynomial")?;
        g.same(legendre_pn_deriv1(n, x), w.1, "first derivative of the Legendre polynomial")?;
        g.same(legendre_pn_deriv2(n, x), w.2, "second derivative of the Legendre polynomial")
    });
    cx.contract("chebyshev_first_kind", |g| {
        let n = g.choose("degree", 25);
        let x = g.var("x");
        g.tol(1e-7);
        if near_end(g, x) {
            return Ok(());
        }
        let w = tn(n, x);
        g.same(chebyshev_tn(n, x), w.0, "Chebyshev polynomial of the first kind")?;
        g.same(chebyshev_tn_deriv1(n, x), w.1, "its first derivative")?;
        g.same(chebyshev_tn_deriv2(n, x), w.2, "its second derivative")
    });
    cx.contract("chebyshev_second_kind", |g| {
        let n = g.choose("degree", 25);
        let x = g.var("x");
        g.tol(1e-6);
        if near_end(g, x) {
            return Ok(());
        }
        let w = un(n, x);
        g.same(chebyshev_un(n, x), w.0, "Chebyshev polynomial of the second kind")?;
        g.same(chebyshev_un_deriv1(n, x), w.1, "its first derivative")?;
        g.same(chebyshev_un_deriv2(n, x), w.2, "its second derivative")
    });
    cx.contract("values_at_the_ends", |g| {
        let n = g.choose("degree", 41);
        let x = if g.flag("left") { -1.0 } else { 1.0 };
        let (t, u, p) = (tn(n, x), un(n, x), pn(n, x));
        g.tol(1e-10);
        g.same(chebyshev_tn(n, x), t.0, "Chebyshev polynomial of the first kind")?;
        g.same(chebyshev_tn_deriv1(n, x), t.1, "its first derivative")?;
        g.same(chebyshev_tn_deriv2(n, x), t.2, "its second derivative")?;
        g.same(chebyshev_un(n, x), u.0, "Chebyshev polynomial of the second kind")?;
        g.same(chebyshev_un_deriv1(n, x), u.1, "its first derivative")?;
        g.same(chebyshev_un_deriv2(n, x), u.2, "its second derivative")?;
        g.same(legendre_pn(n, x), p.0, "Legendre polynomial")?;
        g.same(legendre_pn_deriv1(n, x), p.1, "its first derivative")?;
        g.same(legendre_pn_deriv2(n, x), p.2, "its second derivative")
    });
    cx.contract("chebyshev_nodes", |g| {
        let n = g.choose("degree", 25);
        g.tol(1e-9);
        let x = chebyshev_gauss_points(n);
        g.holds(x.dim() == n + 1, "number of points")?;
        for i in 0..=n {
            g.same(tn(n + 1, x[i]).0, 0.0, "Chebyshev polynomial at a Gauss point")?;
            g.same(x[n - i], -x[i], "symmetry of the Gauss points")?;
            g.holds(x[i] > -1.0 && x[i] < 1.0 && (i == 0 || x[i] > x[i - 1]), "Gauss points increase")?;
        }
        if n > 0 {
            let y = chebyshev_lobatto_points(n);
            g.holds(y.dim() == n + 1 && y[0] == -1.0 && y[n] == 1.0, "end points")?;
            for i in 0..=n {
                if i > 0 && i < n {
                    g.same(tn(n, y[i]).1, 0.0, "derivative of the Chebyshev polynomial at an inner Gauss-Lobatto point")?;
                }
                g.same(y[n - i], -y[i], "symmetry of the Gauss-Lobatto points")?;
                g.holds(i == 0 || y[i] > y[i - 1], "Gauss-Lobatto points increase")?;
            }
        }
        Ok(())
    });
}
