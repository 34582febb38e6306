use hx_common::*;
use russell_lab::math::*;
use russell_lab::*;

// value, first and second derivative by the recurrence p_{k+1} = ak x p_k - ck p_{k-1}
fn rec(n: usize, x: f64, p1: (f64, f64), ak: impl Fn(f64) -> f64, ck_: impl Fn(f64) -> f64) -> (f64, f64, f64) {
    let (mut a, mut b) = ((1.0, 0.0, 0.0), (p1.0, p1.1, 0.0));
    if n == 0 {
        return a;
    }
    for k in 1..n {
        let (u, v) = (ak(k as f64), ck_(k as f64));
        let c = (u * x * b.0 - v * a.0, u * (b.0 + x * b.1) - v * a.1, u * (2.0 * b.1 + x * b.2) - v * a.2);
        a = b;
        b = c;
    }
    b
}
fn tn(n: usize, x: f64) -> (f64, f64, f64) {
    rec(n, x, (x, 1.0), |_| 2.0, |_| 1.0)
}
fn un(n: usize, x: f64) -> (f64, f64, f64) {
    rec(n, x, (2.0 * x, 2.0), |_| 2.0, |_| 1.0)
}
fn pn(n: usize, x: f64) -> (f64, f64, f64) {
    rec(n, x, (x, 1.0), |k| (2.0 * k + 1.0) / (k + 1.0), |k| k / (k + 1.0))
}
fn arg(g: &mut Gen) -> f64 {
    match g.usize(0, 5) {
        0 => *g.pick(&[-1.0, 1.0, 0.0, 0.5, -0.5]),
        1 => g.range(-3.0, 3.0),
        2 => {
            let s = *g.pick(&[1.0, -1.0]);
            s * (1.0 + g.range(1e-3, 0.5))
        }
        _ => g.range(-0.999, 0.999),
    }
}

pub fn register(cx: &mut Ctx) {
    cx.cases_w("values_and_derivatives", 3, |g| {
        let n = g.dim(0, 30);
        let x = arg(g);
        note!(g, "n {} x {:?}", n, x);
        // magnitudes of the derivatives bound the rounding of the closed formulas
        let e = (n + 1) as f64;
        let far = if x.abs() == 1.0 { 1.0 } else { (1.0 / (1.0 - x * x).abs()).max(1.0) };
        let cmp = |what: &str, v: f64, w: f64, scale: f64, p: i32| -> Res {
            let tol = 1e-12 * e * e * (w.abs() + scale) * far.powi(p);
            if (v - w).abs() <= tol { Ok(()) } else { Err(format!("{} of degree {} at {:?} is {:?}, expected {:?} (tolerance {:e})", what, n, x, v, w, tol)) }
        };
        let (t, u, p) = (tn(n, x), un(n, x), pn(n, x));
        cmp("Chebyshev T", chebyshev_tn(n, x), t.0, 1.0, 0)?;
        cmp("derivative of T", chebyshev_tn_deriv1(n, x), t.1, e, 1)?;
        cmp("second derivative of T", chebyshev_tn_deriv2(n, x), t.2, e * e, 2)?;
        cmp("Chebyshev U", chebyshev_un(n, x), u.0, e, 1)?;
        cmp("derivative of U", chebyshev_un_deriv1(n, x), u.1, e * e, 2)?;
        cmp("second derivative of U", chebyshev_un_deriv2(n, x), u.2, e * e * e, 3)?;
        cmp("Legendre P", legendre_pn(n, x), p.0, 1.0, 0)?;
        cmp("derivative of P", legendre_pn_deriv1(n, x), p.1, e, 1)?;
        cmp("second derivative of P", legendre_pn_deriv2(n, x), p.2, e * e, 2)?;
        Ok(())
    });
    cx.cases("chebyshev_points", |g| {
        let n = g.dim(0, 80);
        note!(g, "n {}", n);
        let x = chebyshev_gauss_points(n);
        ck!(x.dim() == n + 1, "number of points");
        for i in 0..=n {
            let w = -f64::cos((2 * i + 1) as f64 * PI / (2 * n + 2) as f64);
            ck!((x[i] - w).abs() < 1e-14, "Gauss point {} of {}: {:?}, expected {:?}", i, n, x[i], w);
            ck!(x[i] == -x[n - i] && (i == 0 || x[i] > x[i - 1]), "Gauss points not symmetric or not increasing at {}", i);
        }
        if n > 0 {
            let y = chebyshev_lobatto_points(n);
            ck!(y.dim() == n + 1 && y[0] == -1.0 && y[n] == 1.0, "end points");
            for i in 0..=n {
                let w = -f64::cos(i as f64 * PI / n as f64);
                ck!((y[i] - w).abs() < 1e-14, "Gauss-Lobatto point {} of {}: {:?}, expected {:?}", i, n, y[i], w);
                ck!(y[i] == -y[n - i] && (i == 0 || y[i] > y[i - 1]), "Gauss-Lobatto points not symmetric or not increasing at {}", i);
            }
        }
        Ok(())
    });
    cx.cases("legendre_rules", |g| {
        let n = g.dim(0, 40);
        note!(g, "n {}", n);
        for lob in [false, true] {
            if lob && n < 2 {
                continue;
            }
            let (x, w) = if lob { (legendre_lobatto_points(n), legendre_lobatto_weights(n)) } else { (legendre_gauss_points(n), legendre_gauss_weights(n)) };
            let what = if lob { "Lobatto" } else { "Gauss" };
            ck!(x.dim() == n + 1 && w.dim() == n + 1, "number of points");
            let sum: f64 = (0..=n).map(|i| w[i]).sum();
            ck!((sum - 2.0).abs() < 1e-11, "{} weights add up to {:?}", what, sum);
            for i in 0..=n {
                ck!(w[i] > 0.0, "{} weight {} is {:?}", what, i, w[i]);
                ck!((x[i] + x[n - i]).abs() < 1e-13 && (w[i] - w[n - i]).abs() < 1e-10 && (i == 0 || x[i] > x[i - 1]), "{} points not symmetric or not increasing at {}", what, i);
                let z = if lob { if i == 0 || i == n { x[i].abs() - 1.0 } else { pn(n, x[i]).1 / (n * n) as f64 } } else { pn(n + 1, x[i]).0 };
                ck!(z.abs() < 1e-10, "{} point {} is {:?}", what, i, x[i]);
            }
            let top = if lob { 2 * n - 1 } else { 2 * n + 1 };
            for d in 0..=top {
                let q: f64 = (0..=n).map(|i| w[i] * x[i].powi(d as i32)).sum();
                let ex = if d % 2 == 0 { 2.0 / (d + 1) as f64 } else { 0.0 };
                ck!((q - ex).abs() < 1e-10, "{} rule with {} points integrates power {} to {:?}, expected {:?}", what, n + 1, d, q, ex);
            }
        }
        let y = legendre_lobatto_points(1);
        ck!(y[0] == -1.0 && y[1] == 1.0, "two Lobatto points");
        Ok(())
    });
    cx.cases("adaptive_quadrature", |g| {
        let d = g.usize(0, 11);
        let c: Vec<f64> = (0..=d).map(|_| g.range(-2.0, 2.0)).collect();
        let (a, len) = (g.range(-2.0, 2.0), g.range(0.01, 3.0));
        let (mut a, mut b) = (a, a + len);
        if g.chance(1, 4) {
            std::mem::swap(&mut a, &mut b);
        }
        let mut q = Quadrature::new();
        q.n_gauss = *g.pick(&[6, 8, 10, 12, 14]);
        note!(g, "{:?} on {:?}..{:?} with {}", c, a, b, q.n_gauss);
        let f = |x: f64| c.iter().rev().fold(0.0, |s, k| s * x + k);
        let big = |x: f64| (0..=d).map(|k| c[k] * x.powi(k as i32 + 1) / (k + 1) as f64).sum::<f64>();
        let mut out = None;
        let r = q.integrate(a, b, &mut 0, |x, _: &mut NoArgs| {
            if x < a.min(b) || x > a.max(b) {
                out = Some(x);
            }
            Ok(f(x))
        })?;
        ck!(out.is_none(), "evaluated outside of the interval at {:?}", out);
        let w = big(b) - big(a);
        let scale = (0..=d).map(|k| (c[k] * a.abs().max(b.abs()).powi(k as i32 + 1)).abs()).fold(1.0, f64::max);
        ck!((r - w).abs() < 1e-9 * scale, "integral {:?}, expected {:?}", r, w);
        Ok(())
    });
}
