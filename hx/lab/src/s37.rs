//! line search, Newton iterations, straight-line fits and difference quotients
use hx_common::*;
use russell_lab::*;

pub fn register(cx: &mut Ctx) {
    cx.contract("line_search_exact", |g| {
        let mut s = LineSearcher::new();
        s.max_iterations = 1 + g.choose("iterations", 5);
        let (a, b, c) = (g.pos("c1"), g.pos("rho"), g.pos("min_alpha"));
        s.c1 = a / (1.0 + a);
        s.rho = b / (1.0 + b);
        s.min_alpha = c / (1.0 + c);
        let (x, p, fx) = (g.var("x"), g.var("p"), g.var("fx"));
        let slope = -g.pos("slope");
        // any function: a new value at every trial
        let mut values = vec![0.0; s.max_iterations];
        for k in 0..s.max_iterations {
            values[k] = g.var("value");
        }
        let mut log = vec![];
        let r = s.search(x, p, fx, slope, &mut 0, |t, _: &mut NoArgs| {
            let v = values[log.len()];
            log.push((t, v));
            Ok(v)
        });
        g.tol(1e-12);
        let n = log.len();
        g.holds(n >= 1 && n <= s.max_iterations, "number of trials")?;
        let mut w = 1.0;
        for k in 0..n {
            g.same(log[k].0, x + w * p, "place of a trial")?;
            g.holds(k == 0 || w >= s.min_alpha, "trial with a step below the limit")?;
            let good = log[k].1 <= fx + s.c1 * w * slope;
            if k + 1 < n {
                g.holds(!good, "acceptable step skipped")?;
            } else if let Ok((alpha, m)) = r {
                g.same(alpha, w, "the last trial is accepted")?;
                g.holds(good, "sufficient decrease")?;
                g.holds(m == n, "number of iterations")?;
            } else {
                g.holds(!good, "acceptable step refused")?;
                g.holds(n == s.max_iterations || w * s.rho < s.min_alpha, "gave up early")?;
            }
            w = w * s.rho;
        }
        Ok(())
    });
    cx.contract("line_search_refusals", |g| {
        let mut s = LineSearcher::new();
        let v = g.pos("v");
        let bad = match g.choose("what", 4) {
            0 => -v,
            1 => 0.0,
            2 => 1.0,
            _ => 1.0 + v,
        };
        let mut slope = -1.0;
        match g.choose("parameter", 5) {
            0 => s.c1 = bad,
            1 => s.rho = bad,
            2 => s.min_alpha = bad,
            3 => s.max_iterations = 0,
            _ => slope = if g.flag("flat") { 0.0 } else { v },
        }
        let mut calls = 0;
        let r = s.search(0.0, 1.0, 0.0, slope, &mut 0, |_, _: &mut NoArgs| {
            calls += 1;
            Ok(-1e9)
        });
        g.holds(r.is_err() && calls == 0, "invalid parameters or an ascent direction are refused")
    });
    cx.contract("newton_exact", |g| {
        let n = 1 + g.choose("unknowns", 2);
        let search = g.flag("search");
        let its = if search { 1 } else { 1 + g.choose("iterations", if n == 1 { 4 } else { 2 }) };
        let mut s = NewtonSolver::new(n)?;
        let tol = 1e-3 + g.pos("tolerance");
        let a = g.pos("alpha");
        let first = 2.0 * a / (1.0 + a);
        s.set_tolerance(tol).set_max_iterations(its).set_use_line_search(search).set_initial_alpha(first);
        let mut x = Vector::new(n);
        for i in 0..n {
            x[i] = g.var("x");
        }
        // any residuals and Jacobians: new values at every call, the line search takes the second trial at the latest
        let calls = its + 2;
        let mut values = vec![vec![0.0; n]; calls];
        let mut slopes = vec![vec![0.0; n * n]; calls];
        for k in 0..calls {
            for i in 0..n {
                values[k][i] = if search && k == calls - 1 { 0.0 } else { g.var("value") };
                for j in 0..n {
                    slopes[k][i * n + j] = g.var("slope") + if i == j && !g.symbolic() { 3.0 } else { 0.0 };
                }
            }
        }
        let mut log: Vec<(Vector, Vec<f64>)> = vec![];
        let mut jacs = 0;
        let start = x.clone();
        let r = s.solve(
            &mut x,
            &mut 0,
            |r, x, _: &mut NoArgs| {
                let k = log.len();
                for i in 0..n {
                    r[i] = values[k][i];
                }
                log.push((x.clone(), values[k].clone()));
                Ok(())
            },
            |m, _, _: &mut NoArgs| {
                for i in 0..n {
                    for j in 0..n {
                        m.set(i, j, slopes[jacs][i * n + j]);
                    }
                }
                jacs += 1;
                Ok(())
            },
        );
        g.tol(1e-6);
        g.holds(log.len() >= 1, "residual evaluated")?;
        let last = &log[log.len() - 1];
        for i in 0..n {
            g.same(log[0].0[i], start[i], "first residual at the start")?;
            g.same(last.0[i], x[i], "last residual at the state returned")?;
        }
        if r.is_ok() {
            for i in 0..n {
                g.holds(last.1[i] < tol && -last.1[i] < tol, "residual within the tolerance")?;
            }
        }
        if !search {
            for k in 1..log.len() {
                for i in 0..n {
                    let mut t = log[k - 1].1[i];
                    for j in 0..n {
                        t = t + slopes[k - 1][i * n + j] * (log[k].0[j] - log[k - 1].0[j]);
                    }
                    g.same(t, 0.0, "full Newton correction")?;
                }
            }
        }
        Ok(())
    });
    cx.contract("straight_line_fit", |g| {
        let n = 1 + g.choose("points", 6);
        let zero = g.flag("through_zero");
        let (mut x, mut y) = (vec![0.0; n], vec![0.0; n]);
        for i in 0..n {
            // separate points keep the rounding small
            x[i] = g.var("x") + if g.symbolic() { 0.0 } else { 10.0 * i as f64 };
            y[i] = g.var("y");
        }
        g.tol(1e-6);
        if n == 1 && !zero {
            return Ok(());
        }
        let mut xx = 0.0;
        for i in 0..n {
            xx = xx + x[i] * x[i];
        }
        if !g.symbolic() && zero && xx < 1e-2 {
            return Ok(());
        }
        let (c, m) = linear_fitting(&x, &y, zero)?;
        let (mut r0, mut r1) = (0.0, 0.0);
        for i in 0..n {
            let e = y[i] - (c + m * x[i]);
            r0 = r0 + e;
            r1 = r1 + e * x[i];
        }
        if zero {
            g.same(c, 0.0, "line through zero")?;
        } else {
            g.same(r0, 0.0, "residuals orthogonal to one")?;
        }
        g.same(r1, 0.0, "residuals orthogonal to x")?;
        g.holds(linear_fitting(&x, &y[1..], zero).is_err(), "different lengths refused")
    });
    cx.contract("difference_quotients", |g| {
        let which = g.choose("formula", 6);
        // highest degree for which the formula is exact
        let top = [4, 6, 6, 9, 7, 7][which];
        let d = g.choose("degree", top + 1);
        let c: Vec<f64> = (0..=d).map(|_| g.var("coefficient")).collect();
        let x = g.var("x");
        g.tol(1e-4);
        if !g.symbolic() && (which > 2 || d > 4) && x.abs() > 2.0 {
            return Ok(());
        }
        let (mut p, mut q, mut r) = (0.0, 0.0, 0.0);
        for k in c.iter().rev() {
            r = r * x + 2.0 * q;
            q = q * x + p;
            p = p * x + *k;
        }
        let f = |t: f64, _: &mut NoArgs| Ok(c.iter().rev().fold(0.0, |s, k| s * t + *k));
        match which {
            0 => g.same(deriv1_central5(x, &mut 0, f)?, q, "first derivative, central"),
            1 => g.same(deriv1_forward7(x, &mut 0, f)?, q, "first derivative, forward"),
            2 => g.same(deriv1_backward7(x, &mut 0, f)?, q, "first derivative, backward"),
            3 => g.same(deriv2_central9(x, &mut 0, f)?, r, "second derivative, central"),
            4 => g.same(deriv2_forward8(x, &mut 0, f)?, r, "second derivative, forward"),
            _ => g.same(deriv2_backward8(x, &mut 0, f)?, r, "second derivative, backward"),
        }
    });
}
