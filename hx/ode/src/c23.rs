use crate::ox::*;
use hx_common::*;
use russell_lab::Vector;
use russell_ode::{Method, OdeSolver, Params};

fn explicit() -> Vec<Method> {
    let mut list = Method::erk_methods();
    list.push(Method::FwEuler);
    list
}

fn values(g: &mut Gx, name: &str, n: usize) -> Vec<f64> {
    (0..n).map(|i| g.var(&format!("{}{}", name, i))).collect()
}

/// checks the calls of one step starting at call `at`; `k` has the derivatives of all stages; `known` stages are not asked again
fn check_step(g: &mut Gx, m: Method, t: &Tab, log: &Log, at: usize, known: usize, x: f64, y: &[f64], h: f64, k: &[Vec<f64>]) -> Result<Vec<f64>, String> {
    for i in known..t.s {
        let (u, v) = &log.calls[at + i - known];
        g.same(*u, x + t.c[i] * h, &format!("{:?}: abscissa of stage {}", m, i))?;
        for d in 0..y.len() {
            let mut e = y[d];
            for j in 0..i {
                e = e + h * t.a[i][j] * k[j][d];
            }
            g.same(v[d], e, &format!("{:?}: component {} of stage {}", m, d, i))?;
        }
    }
    let mut res = vec![];
    for d in 0..y.len() {
        let mut e = y[d];
        for i in 0..t.s {
            e = e + h * t.b[i] * k[i][d];
        }
        res.push(e);
    }
    Ok(res)
}

fn two_steps(g: &mut Gx, m: Method) -> Res {
    let t = tableau(m)?;
    let ndim = if g.symbolic() { 1 } else { 1 + g.choose("dimension", 3) };
    let (x, h) = (g.var("x"), g.pos("h"));
    let y = values(g, "y", ndim);
    let fsal = m.information().first_step_same_as_last;
    // two steps of size h; the right-hand side returns arbitrary numbers
    let n = t.s + t.s - if fsal { 1 } else { 0 };
    let script: Vec<_> = (0..n).map(|i| values(g, &format!("k{}_", i), ndim)).collect();
    let mut log = Log::new(ndim, script.clone());
    let mut solver = OdeSolver::new(Params::new(m), scripted(ndim))?;
    let mut y1 = Vector::from(&y);
    let mut out = recorder();
    // h below ten machine epsilons is refused
    if solver.solve(&mut y1, x, x + 2.0 * h, Some(h), &mut log, Some(&mut out)).is_err() {
        return g.holds(h < 1e-13, "step refused");
    }
    if !g.symbolic() && log.steps.len() != 3 {
        return Ok(()); // one step more because of rounding
    }
    g.holds(log.steps.len() == 3, "two steps")?;
    g.holds(log.calls.len() == n, "number of evaluations")?;
    let hh = log.steps[1].0;
    g.same(hh, h, "stepsize")?;
    let e = check_step(g, m, &t, &log, 0, 0, x, &y, h, &script[..t.s])?;
    for d in 0..ndim {
        g.same(log.steps[1].2[d], e[d], &format!("{:?}: new state", m))?;
    }
    g.same(log.steps[1].1, x + h, "new abscissa")?;
    // second step: the last stage is used again only by first-same-as-last methods
    let ya = log.steps[1].2.clone();
    let xa = log.steps[1].1;
    let e = if fsal {
        let mut k = vec![script[t.s - 1].clone()];
        k.extend_from_slice(&script[t.s..]);
        g.same(log.calls[t.s - 1].0, xa, "last stage at the new point")?;
        for d in 0..ndim {
            g.same(log.calls[t.s - 1].1[d], ya[d], "last stage at the new state")?;
        }
        check_step(g, m, &t, &log, t.s, 1, xa, &ya, h, &k)?
    } else {
        check_step(g, m, &t, &log, t.s, 0, xa, &ya, h, &script[t.s..])?
    };
    for d in 0..ndim {
        g.same(log.steps[2].2[d], e[d], &format!("{:?}: state after the second step", m))?;
        g.same(y1[d], e[d], &format!("{:?}: final state", m))?;
    }
    Ok(())
}

fn polynomial(g: &mut Gx, m: Method, deg: usize, x0: f64, h: f64, th: f64, c: f64) -> Res {
    let d = deg as i32;
    let sys = russell_ode::System::new(1, move |f: &mut Vector, x, _y: &Vector, _: &mut u8| {
        f[0] = if d == 0 { 0.0 } else { c * (d as f64) * f64::powi(x, d - 1) };
        Ok(())
    });
    let mut out = russell_ode::Output::new();
    let xs = x0 + th * h;
    out.set_dense_x_out(&[xs])?;
    out.set_dense_recording(&[0]);
    let mut solver = OdeSolver::new(Params::new(m), sys)?;
    let p = |x: f64| c * f64::powi(x, d);
    let mut y = Vector::from(&[p(x0)]);
    if solver.solve(&mut y, x0, x0 + h, Some(h), &mut 0, Some(&mut out)).is_err() {
        // steps below ten machine epsilons are refused
        return g.holds(h < 1e-13, "step refused");
    }
    if !g.symbolic() {
        g.tol(1e-11 * (1.0 + c.abs()) * (1.0 + (x0.abs() + h).powi(d)));
    }
    g.same(out.dense_y(0)[1], p(xs), &format!("{:?}: degree {} at {:?} of the step", m, deg, th))?;
    g.same(y[0], p(x0 + h), "end")
}

pub fn register(cx: &mut Ctx) {
    for m in explicit() {
        cx.contract(&format!("stages_and_new_state_{:?}", m), move |g| two_steps(g, m));
    }
    cx.contract("dense_output_at_the_ends", |g| {
        let m = [Method::DoPri5, Method::DoPri8][g.choose("method", 2)];
        let s = if m == Method::DoPri5 { 7 } else { 12 };
        let extra = if m == Method::DoPri5 { 0 } else { 3 };
        let (x, h) = (g.var("x"), g.pos("h"));
        let y = g.var("y");
        let n = 2 * (s + extra);
        let script: Vec<_> = (0..n).map(|i| vec![g.var(&format!("k{}", i))]).collect();
        let mut log = Log::new(1, script.clone());
        let mut solver = OdeSolver::new(Params::new(m), scripted(1))?;
        let mut y1 = Vector::from(&[y]);
        let mut out = recorder();
        let t = g.small("t");
        // stations at the end of the first step and shortly after it
        let near = x + h + h * t / (1.0 + t);
        // stations closer than ten machine epsilons are refused
        if g.symbolic() && !g.assume_positive(h * t - 10.0 * f64::EPSILON * (1.0 + t)) {
            return Ok(());
        }
        out.set_dense_x_out(&[x + h, near])?;
        out.set_dense_recording(&[0]);
        if solver.solve(&mut y1, x, x + 2.0 * h, Some(h), &mut log, Some(&mut out)).is_err() {
            return g.holds(h < 1e-13, "step refused");
        }
        if log.steps.len() != 3 || (!g.symbolic() && log.steps[1].1 < x + h) {
            return g.holds(!g.symbolic(), "two steps");
        }
        g.holds(out.dense_x().len() == 4 && out.dense_y(0).len() == 4, "four stations")?;
        if !g.symbolic() {
            let big = script.iter().fold(1.0, |a: f64, k| a.max(k[0].abs()));
            g.tol(1e-6 * (1.0 + h) * big);
        }
        g.same(out.dense_y(0)[0], y, "start")?;
        g.same(out.dense_y(0)[1], log.steps[1].2[0], "end of the first step")?;
        g.same_at0(out.dense_y(0)[2], t, log.steps[1].2[0], "start of the second step")?;
        g.same(out.dense_y(0)[3], y1[0], "end")?;
        g.same(log.steps[2].2[0], y1[0], "end of the second step")?;
        if m == Method::DoPri8 {
            // stages of the interpolation lie inside the step
            for i in 0..3 {
                let u = log.calls[s + i].0 - x;
                g.holds(u > 0.0 && u < h, "abscissa of an interpolation stage")?;
            }
        }
        Ok(())
    });
    cx.contract("dense_output_slopes", |g| {
        let m = Method::DoPri5;
        let (x, h) = (g.var("x"), g.pos("h"));
        let (y, t) = (g.var("y"), g.small("t"));
        let end = g.flag("end");
        let script: Vec<_> = (0..7).map(|i| vec![g.var(&format!("k{}", i))]).collect();
        let mut log = Log::new(1, script.clone());
        let mut solver = OdeSolver::new(Params::new(m), scripted(1))?;
        let mut y1 = Vector::from(&[y]);
        let mut out = recorder();
        let theta = t / (1.0 + t);
        out.set_dense_x_out(&[if end { x + h - h * theta } else { x + h * theta }])?;
        out.set_dense_recording(&[0]);
        if solver.solve(&mut y1, x, x + h, Some(h), &mut log, Some(&mut out)).is_err() {
            return g.holds(h < 1e-13, "step refused");
        }
        if !g.symbolic() && (h < 0.5 || log.steps.len() != 2) {
            return Ok(());
        }
        if !g.symbolic() {
            let big = script.iter().fold(1.0, |a: f64, k| a.max(k[0].abs()));
            g.tol(1e-5 * (1.0 + h) * (big + y.abs()));
        }
        let q = out.dense_y(0)[1];
        if end {
            g.same_at0((y1[0] - q) / (h * t), t, script[6][0], "slope at the end")
        } else {
            g.same_at0((q - y) / (h * t), t, script[0][0], "slope at the start")
        }
    });
    for end in [false, true] {
        cx.bounded(if end { "order8_slope_at_end" } else { "order8_slope_at_start" }, move |g| {
            // right-hand side depending on the state
            let (a, b) = (g.var("a").clamp(-3.0, 3.0), g.var("b").clamp(-3.0, 3.0) * 0.5);
            let sys = russell_ode::System::new(1, move |f: &mut Vector, x, y: &Vector, _: &mut u8| {
                f[0] = a * (x + y[0]).sin() + b * y[0];
                Ok(())
            });
            let f = |x: f64, y: f64| a * (x + y).sin() + b * y;
            let mut out = russell_ode::Output::new();
            let h = g.pos("h") * 0.2;
            let t = 1e-6;
            out.set_dense_x_out(&[t * h, h - t * h])?;
            out.set_dense_recording(&[0]);
            let mut solver = OdeSolver::new(Params::new(Method::DoPri8), sys)?;
            let mut y = Vector::from(&[1.0]);
            solver.solve(&mut y, 0.0, h, Some(h), &mut 0, Some(&mut out))?;
            let q = out.dense_y(0);
            let (s, d) = if end { ((y[0] - q[2]) / (t * h), f(h, y[0])) } else { ((q[1] - 1.0) / (t * h), f(0.0, 1.0)) };
            let tol = 1e-4 * (1.0 + d.abs()) * (1.0 + h * (a.abs() + b.abs())).powi(2);
            g.holds((s - d).abs() < tol, &format!("slope {:?} of the interpolation, derivative {:?}", s, d))
        });
    }
    for deg in 0..5 {
        cx.contract(&format!("dense_output_of_degree_{}_DoPri5", deg), move |g| {
            let (x0, h, c) = (g.var("x0"), g.pos("h"), g.var("c"));
            let t = g.pos("t");
            polynomial(g, Method::DoPri5, deg, x0, h, t / (1.0 + t), c)
        });
    }
    cx.bounded("dense output reproduces polynomials", |g| {
        let deg = g.choose("degree", 8);
        let (x0, h, th, c) = (g.var("x0") * 0.3, g.pos("h") * 0.3, 0.02 + g.pos("theta") * 0.19, g.var("c"));
        polynomial(g, Method::DoPri8, deg, x0, h, th, c)
    });
    cx.bounded("dense output inside of a step", |g| {
        // linear equation with known solution: the error of the interpolation is of higher order
        let m = [Method::DoPri5, Method::DoPri8][g.choose("method", 2)];
        let (l, a, b, y0) = (g.var("l").clamp(-3.0, 3.0) / 3.0, g.var("a").clamp(-3.0, 3.0), g.var("b").clamp(-3.0, 3.0), g.var("y0").clamp(-3.0, 3.0));
        let h = 0.02 + 0.18 * g.pos("h").min(5.0) / 5.0;
        let th = 0.05 + 0.9 * g.pos("theta").min(5.0) / 5.0;
        let ndim = 1 + g.choose("dimension", 2);
        let sys = russell_ode::System::new(ndim, move |f: &mut Vector, x, y: &Vector, _: &mut u8| {
            for i in 0..ndim {
                f[i] = l * y[i] + a + b * x;
            }
            Ok(())
        });
        // series of the solution
        let exact = |x: f64| {
            let mut d = l * y0 + a;
            let mut sum = y0 + d * x;
            let mut p = x;
            for k in 2..20 {
                d = if k == 2 { l * d + b } else { l * d };
                p *= x / (k as f64);
                sum += d * p;
            }
            sum
        };
        let mut out = russell_ode::Output::new();
        out.set_dense_x_out(&[th * h])?;
        out.set_dense_recording(&[ndim - 1]);
        let mut solver = OdeSolver::new(Params::new(m), sys)?;
        let mut y = Vector::initialized(ndim, |_| y0);
        solver.solve(&mut y, 0.0, h, Some(h), &mut 0, Some(&mut out))?;
        let (q, e) = (out.dense_y(ndim - 1)[1], exact(th * h));
        let size = 1.0 + y0.abs() + a.abs() + b.abs();
        g.holds((q - e).abs() <= 1e-14 * size + size * (if m == Method::DoPri5 { 0.1 * h.powi(5) } else { 0.01 * h.powi(7) }), &format!("{:?}: {:?} inside of the step, solution {:?}", m, q, e))
    });
    cx.bounded("error estimate", |g| {
        let list: Vec<_> = Method::erk_methods().into_iter().filter(|m| m.information().embedded).collect();
        let m = list[g.choose("method", list.len())];
        let t = tableau(m)?;
        let q = m.information().order_of_estimator;
        let e = error_weights(m, &t)?;
        let ndim = 1 + g.choose("dimension", 3);
        let y = values(g, "y", ndim);
        let h = g.pos("h");
        let (abs, rel) = (g.pos("abs") * 0.1, g.pos("rel") * 0.1);
        let size = [1.0, 0.1, 10.0, 1e3][g.choose("size", 4)];
        let script: Vec<Vec<f64>> = (0..t.s).map(|i| values(g, &format!("k{}_", i), ndim).iter().map(|v| v * size).collect()).collect();
        let mut sum = 0.0;
        let (mut err3, mut err5) = (0.0, 0.0);
        for d in 0..ndim {
            let w: f64 = y[d] + h * (0..t.s).map(|i| t.b[i] * script[i][d]).sum::<f64>();
            let err: f64 = (0..t.s).map(|i| e[i] * script[i][d]).sum();
            let sk = abs + rel * f64::max(y[d].abs(), w.abs());
            sum += (h * err / sk).powi(2);
            if m == Method::DoPri8 {
                let e3: f64 = (0..t.s).map(|i| t.b[i] * script[i][d]).sum::<f64>() - (BHH[0] * script[0][d] + BHH[1] * script[8][d] + BHH[2] * script[11][d]);
                err3 += (e3 / sk).powi(2);
                err5 += (err / sk).powi(2);
            }
        }
        let mut expect = (sum / (ndim as f64)).sqrt().max(1e-10);
        if m == Method::DoPri8 {
            let den = err5 + 0.01 * err3;
            expect = if den > 0.0 { h * err5 / (den * (ndim as f64)).sqrt() } else { 0.0 };
        }
        let r = attempt(m, script, &y, h, abs, rel, t.c[1])?;
        let fac = expect.powf(1.0 / ((q + 1) as f64));
        if (expect - 1.0).abs() > 1e-9 {
            g.holds(r.accepted == (expect < 1.0), &format!("{:?}: error estimate {:?} but accepted = {}", m, expect, r.accepted))?;
        }
        if fac > 0.051 && fac < 990.0 {
            g.tol(1e-9);
            g.same(r.h_next, h / fac, &format!("{:?}: next stepsize for the error estimate {:?}", m, expect))?;
        }
        Ok(())
    });
}
