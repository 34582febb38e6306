use hx_common::*;
use russell_lab::*;

/// continuous functions with known sign structure
pub struct Fun {
    kind: usize,
    r: f64,
    s: f64,
    k: f64,
    knots: Vec<(f64, f64)>,
}
impl Fun {
    pub fn new(g: &mut Gen) -> Fun {
        let kind = g.usize(0, 7);
        let (r, s) = (g.range(-3.0, 3.0), *g.pick(&[1.0, -1.0, 3.0, 1e-3, -1e4]));
        let k = *g.pick(&[1.0, 10.0, 1000.0]);
        let mut knots = vec![];
        let mut x = -6.0;
        while x < 6.0 {
            knots.push((x, g.range(-3.0, 3.0)));
            x += g.range(0.05, 2.0);
        }
        Fun { kind, r, s, k, knots }
    }
    pub fn at(&self, x: f64) -> f64 {
        let d = x - self.r;
        self.s
            * match self.kind {
                0 => d,
                1 => d * d * d,
                2 => d * (1.0 + d * d) + 0.1 * d * d,
                3 => (self.k * d).atan(),
                4 => d.exp() - 1.0,
                5 => d.cbrt(),
                6 => (3.0 * d).sin() + 0.2,
                _ => {
                    let p = self.knots.iter().rposition(|q| q.0 <= x).unwrap_or(0).min(self.knots.len() - 2);
                    let (a, b) = (self.knots[p], self.knots[p + 1]);
                    a.1 + (b.1 - a.1) * (x - a.0) / (b.0 - a.0)
                }
            }
    }
    pub fn text(&self) -> String {
        format!("kind {} r {:?} s {:?} k {:?} knots {:?}", self.kind, self.r, self.s, self.k, self.knots)
    }
}

fn poly(roots: &[f64], c: f64, x: f64) -> f64 {
    roots.iter().fold(c, |p, r| p * (x - r))
}

pub fn register(cx: &mut Ctx) {
    cx.cases_w("bracketed_root", 3, |g| {
        let f = Fun::new(g);
        let (mut xa, mut xb) = (g.range(-5.0, 0.0), g.range(0.0, 5.0));
        if g.bool() {
            std::mem::swap(&mut xa, &mut xb);
        }
        let tol = *g.pick(&[1e-13, 1e-10, 1e-6, 1e-3, 0.1]);
        note!(g, "{} on {:?}..{:?} tolerance {:?}", f.text(), xa, xb, tol);
        let (lo, hi) = (xa.min(xb), xa.max(xb));
        let mut log: Vec<(f64, f64)> = vec![];
        let mut sv = RootFinder::new();
        sv.brent_tolerance = tol;
        let r = sv.brent(xa, xb, &mut 0, |x, _: &mut NoArgs| {
            let v = f.at(x);
            log.push((x, v));
            Ok(v)
        });
        for (x, _) in &log {
            ck!(*x >= lo && *x <= hi, "evaluated at {:?}, outside of [{:?},{:?}]", x, lo, hi);
        }
        let (fa, fb) = (f.at(xa), f.at(xb));
        if fa * fb >= 0.0 {
            ck!(r.is_err(), "same signs {:?} {:?} accepted: {:?}", fa, fb, r);
            return Ok(());
        }
        if fa * fb > -1e-15 {
            return Ok(()); // treated as not bracketing
        }
        let x = match r {
            Ok(x) => x,
            Err(e) => {
                ck!(f.kind == 7 || f.kind == 1, "no root returned: {}", e);
                ck!(!e.contains("bracket"), "bracket refused: {}", e);
                return Ok(());
            }
        };
        ck!(x >= lo && x <= hi, "root {:?} outside of the interval", x);
        let fx = f.at(x);
        let w = 4.0 * f64::EPSILON * x.abs() + tol * (1.0 + 1e-9);
        let change = log.iter().any(|(p, v)| (p - x).abs() <= w && (v * fx < 0.0 || *v == 0.0));
        ck!(fx == 0.0 || change, "function is {:?} at the returned {:?} and no evaluation of opposite sign lies within {:e}", fx, x, w);
        Ok(())
    });
    cx.cases("function_error_is_passed_on", |g| {
        let f = Fun::new(g);
        let at = g.usize(0, 6);
        note!(g, "{} failing at call {}", f.text(), at);
        let mut n = 0;
        let mut sv = RootFinder::new();
        let r = sv.brent(-5.0, 4.0, &mut 0, |x, _: &mut NoArgs| {
            n += 1;
            if n - 1 == at {
                return Err("stop here");
            }
            Ok(f.at(x))
        });
        if n > at {
            ck!(r == Err("stop here"), "error of the function lost: {:?}", r);
        }
        ck!(RootFinder::new().brent(1.0, 1.0, &mut 0, |x, _: &mut NoArgs| Ok(x - 1.0)).is_err(), "empty interval accepted");
        Ok(())
    });
    cx.cases("roots_from_samples", |g| {
        let n = g.usize(0, 7);
        let (xa, len) = (g.range(-3.0, 2.0), g.range(0.5, 5.0));
        let xb = xa + len;
        // well separated roots inside the interval, some outside
        let mut roots: Vec<f64> = (0..n).map(|i| xa + len * (i as f64 + g.range(0.25, 0.75)) / n as f64).collect();
        let inside = roots.clone();
        if g.bool() {
            roots.push(xb + len);
        }
        if n == 0 {
            roots.push(xa - len);
        }
        let c = *g.pick(&[1.0, -2.0, 0.5]);
        note!(g, "interval {:?}..{:?} roots {:?}", xa, xb, roots);
        let deg = roots.len();
        let mut ip = InterpChebyshev::new(deg, xa, xb)?;
        ip.set_function(deg, &mut 0, |x, _: &mut NoArgs| Ok(poly(&roots, c, x)))?;
        let sv = RootFinder::new();
        let found = match sv.chebyshev(&ip) {
            Ok(v) => v,
            Err(e) => {
                ck!(e.contains("trailing") && ip.get_coefficients()[deg].abs() < 1e-12, "refused: {}", e);
                return Ok(());
            }
        };
        ck!(found.len() == inside.len(), "{} roots {:?} reported, expected {:?}", found.len(), found, inside);
        for i in 0..found.len() {
            ck!(found[i] >= xa && found[i] <= xb, "root {:?} outside of [{:?},{:?}]", found[i], xa, xb);
            ck!((found[i] - inside[i]).abs() < 1e-5 * len, "root {} is {:?}, expected {:?}", i, found[i], inside[i]);
        }
        if found.len() > 0 {
            let mut fine = found.clone();
            let mut sv = RootFinder::new();
            sv.newton_max_iterations = 60;
            if sv.refine(&mut fine, xa, xb, &mut 0, |x, _: &mut NoArgs| Ok(poly(&roots, c, x))).is_ok() {
                for i in 0..fine.len() {
                    ck!((fine[i] - inside[i]).abs() < 1e-8 * len, "refined root {} is {:?}, expected {:?}", i, fine[i], inside[i]);
                }
            }
        }
        Ok(())
    });
    cx.cases("root_at_the_boundary", |g| {
        // linear and quadratic functions with a root at or next to an end
        let (xa, len) = (g.range(-3.0, 2.0), g.range(0.5, 5.0));
        let xb = xa + len;
        let off = *g.pick(&[0.0, 1e-9, -1e-9, 1e-7, -1e-7, 4e-7, 1e-3, -1e-3]) * len;
        let left = g.bool();
        let r0 = if left { xa + off } else { xb + off };
        let deg = g.usize(1, 2);
        let roots = if deg == 1 { vec![r0] } else { vec![r0, xb + 2.0 * len] };
        note!(g, "interval {:?}..{:?} roots {:?}", xa, xb, roots);
        let mut ip = InterpChebyshev::new(deg, xa, xb)?;
        ip.set_function(deg, &mut 0, |x, _: &mut NoArgs| Ok(poly(&roots, 1.0, x)))?;
        let found = RootFinder::new().chebyshev(&ip)?;
        for x in &found {
            ck!(*x >= xa && *x <= xb, "root {:?} outside of [{:?},{:?}]", x, xa, xb);
            ck!((x - r0).abs() < 1e-5 * len, "root {:?}, expected {:?}", x, r0);
        }
        if r0 >= xa && r0 <= xb {
            ck!(found.len() == 1, "{} roots reported for a sign change at {:?}", found.len(), r0);
        }
        Ok(())
    });
}
