//! dense numerical Jacobian
use hx_common::*;
use russell_lab::*;

pub fn register(cx: &mut Ctx) {
    // powers up to four, two and one of one, two and three variables: the five-point rule is exact
    cx.contract("numerical_jacobian", |g| {
        let n = 1 + g.choose("size", 3);
        let top = [5, 3, 2][n - 1];
        let (x, alpha) = (g.var("x"), g.var("alpha"));
        let mut y = Vector::new(n);
        for i in 0..n {
            y[i] = if g.symbolic() { g.var("y") } else { 0.2 * g.var("y") };
        }
        g.tol(1e-4);
        // coefficients of the products of powers
        let m = (0..n).fold(1, |p, _| p * top);
        let c: Vec<f64> = (0..n * m).map(|_| g.var("c")).collect();
        let j = num_jacobian(n, x, &y, alpha, &mut 0, |r: &mut Vector, t: f64, y: &Vector, _: &mut NoArgs| {
            for i in 0..n {
                r[i] = t;
                for k in 0..m {
                    let (mut q, mut v) = (k, c[i * m + k]);
                    for l in 0..n {
                        for _ in 0..q % top {
                            v = v * y[l];
                        }
                        q /= top;
                    }
                    r[i] = r[i] + v;
                }
            }
            Ok(())
        })?;
        for i in 0..n {
            for s in 0..n {
                let mut d = 0.0;
                for k in 0..m {
                    let (mut q, mut v) = (k, c[i * m + k]);
                    for l in 0..n {
                        let e = q % top;
                        if l == s {
                            v = v * (e as f64);
                        }
                        for _ in (if l == s { 1 } else { 0 })..e {
                            v = v * y[l];
                        }
                        q /= top;
                    }
                    d = d + v;
                }
                g.same(j.get(i, s), alpha * d, "derivative of a polynomial")?;
            }
        }
        Ok(())
    });
}
