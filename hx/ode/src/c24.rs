use crate::ox::*;
use hx_common::*;
use russell_lab::Vector;
use russell_ode::{Method, OdeSolver, Output, Params, Stats, System};
use russell_sparse::Sym;

pub const KINDS: usize = 8;

/// family of right-hand sides; dimension one or two
pub fn rhs(kind: usize, p: f64, q: f64, x: f64, y: &[f64], f: &mut [f64]) {
    let n = y.len();
    for i in 0..n {
        let o = y[(i + 1) % n];
        f[i] = match kind {
            0 => p + 0.0 * x,
            1 => q * y[i],
            2 => p * (3.0 * x).cos() + q * o,
            3 => p * (x + y[i]).sin() - 0.2 * o,
            4 => p * (200.0 * (x - 0.3)).tanh() + 0.1 * q * y[i],
            5 => p * (20.0 * x).sin() * (1.0 + 0.5 * y[i].sin()),
            6 => -5.0 * y[i] + p * o.cos(),
            _ => p * (-100.0 * (x - 0.4) * (x - 0.4)).exp() * 10.0 + 0.3 * q * y[i],
        };
    }
}

pub fn drhs(kind: usize, p: f64, q: f64, x: f64, y: &[f64], i: usize, j: usize) -> f64 {
    let n = y.len();
    let o = (i + 1) % n;
    let mut d = 0.0;
    let same = if i == j { 1.0 } else { 0.0 };
    let other = if o == j { 1.0 } else { 0.0 };
    match kind {
        0 => {}
        1 => d = q * same,
        2 => d = q * other,
        3 => d = p * (x + y[i]).cos() * same - 0.2 * other,
        4 => d = 0.1 * q * same,
        5 => d = p * (20.0 * x).sin() * 0.5 * y[i].cos() * same,
        6 => d = -5.0 * same - p * y[o].sin() * other,
        _ => d = 0.3 * q * same,
    }
    d
}

pub fn system<'a>(ndim: usize, kind: usize, p: f64, q: f64) -> System<'a, Log> {
    let mut s = System::new(ndim, move |f: &mut Vector, x, y: &Vector, a: &mut Log| {
        a.calls.push((x, y.as_data().clone()));
        let mut r = vec![0.0; ndim];
        rhs(kind, p, q, x, y.as_data(), &mut r);
        for i in 0..ndim {
            f[i] = r[i];
        }
        Ok(())
    });
    s.set_jacobian(None, Sym::No, move |jj, al, x, y: &Vector, _a: &mut Log| {
        jj.reset();
        for i in 0..ndim {
            for j in 0..ndim {
                jj.put(i, j, al * drhs(kind, p, q, x, y.as_data(), i, j))?;
            }
        }
        Ok(())
    })
    .unwrap();
    s
}

pub fn all() -> Vec<Method> {
    let mut list = Method::erk_methods();
    list.extend([Method::FwEuler, Method::BwEuler, Method::Radau5]);
    list
}

pub fn params(g: &mut Gen, m: Method) -> Params {
    let mut p = Params::new(m);
    if g.chance(3, 4) {
        p.step.m_min = *g.pick(&[0.001, 0.05, 0.2, 0.125, 0.4, 0.5]);
        p.step.m_max = *g.pick(&[1.5, 2.0, 5.0, 10.0, 20.0]);
        p.step.m_safety = *g.pick(&[0.5, 0.8, 0.9, 0.97]);
        p.step.m_first_reject = *g.pick(&[0.0, 0.1, 0.5]);
        p.step.h_ini = *g.pick(&[1e-4, 1e-2, 0.1, 1.0, 0.3]);
        p.step.rel_error_prev_min = *g.pick(&[1e-4, 1e-2, 1e-8]);
        p.erk.lund_beta = *g.pick(&[0.0, 0.04, 0.1]);
        p.erk.lund_m = *g.pick(&[0.0, 0.2, 0.75, 1.0]);
    }
    if m == Method::Radau5 {
        p.step.m_min = p.step.m_min.max(0.05);
        p.radau5.theta_max = *g.pick(&[1e-3, 1e-2, 1e-5]);
        p.radau5.use_pred_control = g.bool();
        p.radau5.zero_trial = g.bool();
        p.radau5.concurrent = false;
    }
    if m == Method::BwEuler {
        p.newton.n_iteration_max = 20;
    }
    let tol = *g.pick(&[1e-3, 1e-4, 1e-6, 1e-7]);
    let rat = *g.pick(&[1.0, 10.0, 0.1]);
    p.set_tolerances(tol, tol * rat, None).unwrap();
    TOL.with(|t| t.set((tol, tol * rat)));
    p
}

thread_local! { pub static TOL: std::cell::Cell<(f64, f64)> = std::cell::Cell::new((0.0, 0.0)); }

pub fn setup(g: &mut Gen) -> (usize, usize, f64, f64, f64, f64, Vec<f64>) {
    let ndim = g.usize(1, 2);
    let kind = g.usize(0, KINDS - 1);
    let (p, q) = (g.range(-2.0, 2.0), g.range(-2.0, 1.0));
    let x0 = if g.bool() { 0.0 } else { g.range(-2.0, 2.0) };
    let x1 = x0 + *g.pick(&[1.0, 0.5, 2.0, 0.3, 1.7]);
    let y0: Vec<f64> = (0..ndim).map(|_| g.range(-1.0, 1.0)).collect();
    note!(g, "right-hand side {} p {:?} q {:?} on {:?}..{:?} from {:?}", kind, p, q, x0, x1, y0);
    (ndim, kind, p, q, x0, x1, y0)
}

/// recovered once per method
fn coefficients(m: Method) -> Result<std::rc::Rc<(Tab, Vec<f64>)>, String> {
    thread_local! { static SEEN: std::cell::RefCell<Vec<(Method, std::rc::Rc<(Tab, Vec<f64>)>)>> = std::cell::RefCell::new(vec![]); }
    if let Some(r) = SEEN.with(|s| s.borrow().iter().find(|q| q.0 == m).map(|q| q.1.clone())) {
        return Ok(r);
    }
    let t = tableau(m)?;
    let e = error_weights(m, &t)?;
    let r = std::rc::Rc::new((t, e));
    SEEN.with(|s| s.borrow_mut().push((m, r.clone())));
    Ok(r)
}

pub fn register(cx: &mut Ctx) {
    cx.cases_w("variable_steps", 3, |g| {
        let list: Vec<_> = Method::erk_methods().into_iter().filter(|m| m.information().embedded).collect();
        let m = list[(g.idx % list.len() as u64) as usize];
        let (ndim, kind, p, q, x0, x1, y0) = setup(g);
        let mut par = params(g, m);
        let (abs, rel) = TOL.with(|t| t.get());
        let short = g.chance(1, 6);
        if short {
            par.step.n_step_max = g.usize(1, 12);
        } else {
            par.step.n_step_max = 20000;
        }
        note!(g, "{:?} {:?} tolerances {:?} {:?}", m, par.step, abs, rel);
        let mut log = Log::new(ndim, vec![]);
        let mut solver = OdeSolver::new(par, system(ndim, kind, p, q))?;
        let mut y = Vector::from(&y0);
        let mut out = recorder();
        let res = solver.solve(&mut y, x0, x1, None, &mut log, Some(&mut out));
        let st = solver.stats();
        ck!(st.n_function == log.calls.len(), "{} evaluations counted, {} made", st.n_function, log.calls.len());
        ck!(st.n_accepted + 1 == log.steps.len(), "{} accepted steps, {} recorded", st.n_accepted, log.steps.len() - 1);
        let end = log.steps.last().unwrap();
        ck!(y.as_data() == &end.2, "final state {:?} is not the one of the last accepted step {:?}", y.as_data(), end.2);
        match res {
            Ok(()) => ck!((end.1 - x1).abs() <= 1e-14 * (1.0 + x1.abs()), "ended at {:?}", end.1),
            Err(e) => {
                ck!(short || kind >= 4 || par.erk.lund_beta > 0.0 || st.n_steps == par.step.n_step_max, "refused: {}", e);
                ck!(st.n_steps <= par.step.n_step_max, "more steps than allowed");
            }
        }
        // every attempt against the documented control
        let co = coefficients(m)?;
        let (t, e) = (&co.0, &co.1);
        let info = m.information();
        let lf = 1.0 / ((info.order_of_estimator + 1) as f64) - par.erk.lund_beta * par.erk.lund_m;
        let top = (0..t.s).fold(1, |a, i| if t.c[i].abs() > t.c[a].abs() { i } else { a });
        let (mut x, mut yy) = (x0, y0.clone());
        let (mut pos, mut acc, mut follows, mut prev) = (0, 0, false, par.step.rel_error_prev_min);
        let mut expect_h = par.step.h_ini.min(x1 - x0);
        let mut attempts = 0;
        let (mut unc, mut last_unc) = (0.0, 0.0);
        let mut refk0: Option<Vec<f64>> = None;
        while pos < log.calls.len() {
            attempts += 1;
            let known = if follows || (info.first_step_same_as_last && acc > 0) { 1 } else { 0 };
            ck!(pos + t.s - known <= log.calls.len(), "incomplete attempt");
            let h = (log.calls[pos + top - known].0 - x) / t.c[top];
            if expect_h < 1e-6 * (1.0 + x.abs()) {
                return Ok(()); // too small to recover the stepsize from the abscissae
            }
            ck!((h - expect_h).abs() <= (1e-6 + unc) * expect_h + 1e-14 * (1.0 + x.abs()), "attempt {} at {:?} has stepsize {:?}, expected {:?} (follows a rejection: {})", attempts, x, h, expect_h, follows);
            let h = if acc + 1 < log.steps.len() && ((log.steps[acc + 1].0 - h) / h).abs() < 1e-8 { log.steps[acc + 1].0 } else { h };
            // stages from scratch
            let mut k: Vec<Vec<f64>> = vec![];
            for i in 0..t.s {
                let v: Vec<f64> = (0..ndim).map(|d| yy[d] + h * (0..i).map(|j| t.a[i][j] * k[j][d]).sum::<f64>()).collect();
                let mut f = vec![0.0; ndim];
                rhs(kind, p, q, x + t.c[i] * h, &v, &mut f);
                if i == 0 {
                    if let Some(r) = &refk0 {
                        f = r.clone();
                    }
                }
                k.push(f);
            }
            if !info.first_step_same_as_last {
                refk0 = None;
            }
            let w: Vec<f64> = (0..ndim).map(|d| yy[d] + h * (0..t.s).map(|i| t.b[i] * k[i][d]).sum::<f64>()).collect();
            let (mut sum, mut e3, mut e5) = (0.0, 0.0, 0.0);
            for d in 0..ndim {
                let err: f64 = (0..t.s).map(|i| e[i] * k[i][d]).sum();
                let sk = abs + rel * yy[d].abs().max(w[d].abs());
                sum += (h * err / sk).powi(2);
                e5 += (err / sk).powi(2);
                if m == Method::DoPri8 {
                    let a: f64 = (0..t.s).map(|i| t.b[i] * k[i][d]).sum::<f64>() - (BHH[0] * k[0][d] + BHH[1] * k[8][d] + BHH[2] * k[11][d]);
                    e3 += (a / sk).powi(2);
                }
            }
            let mut rel_err = (sum / ndim as f64).sqrt().max(1e-10);
            if m == Method::DoPri8 {
                let den = e5 + 0.01 * e3;
                rel_err = h * e5 * (1.0 / (ndim as f64 * if den > 0.0 { den } else { 1.0 })).sqrt();
            }
            pos += t.s - known;
            let accepted = acc + 1 < log.steps.len() && log.steps[acc + 1].0 == h;
            // estimates dominated by rounding are not compared
            let noise = 1e-15 * (0..ndim).map(|d| (0..t.s).map(|i| (e[i] * k[i][d]).abs()).sum::<f64>() * h / abs).fold(0.0, f64::max) * 1e3;
            let certain = rel_err > noise * 1e2 + 1e-9;
            let own_unc = if rel_err > noise * 1e2 { noise / rel_err } else { 1.0 };
            unc = own_unc + if par.erk.lund_beta > 0.0 { last_unc } else { 0.0 };
            let lo = par.step.m_min;
            let hi = par.step.m_max;
            if certain && (rel_err - 1.0).abs() > 1e-6 + unc {
                ck!(accepted == (rel_err < 1.0), "attempt {} at {:?} with stepsize {:?}: error estimate {:?}, accepted = {}", attempts, x, h, rel_err, accepted);
            }
            if accepted {
                acc += 1;
                for d in 0..ndim {
                    ck!(close(log.steps[acc].2[d], w[d], 1e-9), "state after step {}: {:?} expected {:?}", acc, log.steps[acc].2, w);
                }
                ck!((log.steps[acc].1 - (x + h)).abs() <= 1e-14 * (1.0 + x.abs()), "step {} ends at {:?}", acc, log.steps[acc].1);
                let mut fac = rel_err.powf(lf);
                if par.erk.lund_beta > 0.0 {
                    fac /= prev.powf(par.erk.lund_beta);
                }
                fac = (fac / par.step.m_safety).min(1.0 / lo).max(1.0 / hi);
                let mut h_new = h / fac;
                if follows {
                    h_new = h_new.min(h);
                }
                follows = false;
                prev = rel_err.max(par.step.rel_error_prev_min);
                last_unc = if par.step.rel_error_prev_min > 10.0 * (rel_err + noise) { 0.0 } else { own_unc };
                x = log.steps[acc].1;
                yy = log.steps[acc].2.clone();
                if info.first_step_same_as_last {
                    refk0 = Some(k[t.s - 1].clone());
                }
                expect_h = h_new.min(x1 - x);
                if !certain {
                    // take what was done, within the bounds
                    if pos < log.calls.len() {
                        let kn = if info.first_step_same_as_last { 1 } else { 0 };
                        if pos + top - kn < log.calls.len() {
                            let hh = (log.calls[pos + top - kn].0 - x) / t.c[top];
                            ck!(hh <= h * hi * (1.0 + 1e-6) + 1e-14, "ratio of consecutive stepsizes {:?} {:?}", h, hh);
                            expect_h = hh;
                            // the previous estimate enters the next factor
                            prev = par.step.rel_error_prev_min.max(rel_err);
                        }
                    }
                }
            } else {
                if acc == 0 && par.step.m_first_reject > 0.0 {
                    expect_h = h * par.step.m_first_reject;
                } else {
                    expect_h = h / (rel_err.powf(lf) / par.step.m_safety).min(1.0 / lo);
                }
                expect_h = expect_h.min(x1 - x);
                follows = true;
                ck!(expect_h <= h || pos >= log.calls.len(), "rejected step retried with a larger one");
            }
        }
        ck!(acc + 1 == log.steps.len(), "{} accepted steps explained, {} recorded", acc, log.steps.len() - 1);
        ck!(attempts == st.n_steps, "{} attempts, {} counted", attempts, st.n_steps);
        Ok(())
    });
    cx.cases_w("implicit_variable_steps", 2, |g| {
        let m = Method::Radau5;
        let (ndim, kind, p, q, x0, x1, y0) = setup(g);
        let mut par = params(g, m);
        par.newton.use_numerical_jacobian = g.bool();
        note!(g, "{:?} {:?} {:?}", m, par.step, par.radau5);
        let mut log = Log::new(ndim, vec![]);
        let mut solver = OdeSolver::new(par, system(ndim, kind, p, q))?;
        let mut y = Vector::from(&y0);
        let mut out = recorder();
        let res = solver.solve(&mut y, x0, x1, None, &mut log, Some(&mut out));
        let end = log.steps.last().unwrap().clone();
        ck!(y.as_data() == &end.2, "final state is not the one of the last accepted step");
        if res.is_ok() {
            ck!((end.1 - x1).abs() <= 1e-14 * (1.0 + x1.abs()), "ended at {:?}", end.1);
        } else {
            ck!(kind >= 3, "refused: {:?}", res);
        }
        for k in 1..log.steps.len() {
            let (h, x, _) = log.steps[k];
            ck!((x - (log.steps[k - 1].1 + h)).abs() <= 1e-14 * (1.0 + x.abs()), "step {} does not start where the previous one ended", k);
            ck!(h > 0.0, "step backwards");
            if k > 1 {
                ck!(h <= log.steps[k - 1].0 / par.step.m_min * (1.0 + 1e-9), "stepsize grows from {:?} to {:?}", log.steps[k - 1].0, h);
            } else {
                ck!(h <= par.step.h_ini * (1.0 + 1e-12), "first step larger than requested");
            }
        }
        Ok(())
    });
    cx.cases_w("equal_steps", 2, |g| {
        let list = all();
        let m = list[(g.idx % list.len() as u64) as usize];
        let (ndim, _, _, _, _, _, _) = setup(g);
        let (p, q) = (g.range(-1.0, 1.0), g.range(-1.0, 0.0));
        let x0 = if g.bool() { 0.0 } else { g.range(-3.0, 3.0) };
        let x1 = x0 + if g.chance(1, 3) { 1.0 } else { g.range(0.01, 5.0) };
        let n_want = g.usize(1, 60);
        let h_eq = match g.usize(0, 3) {
            0 => g.range(0.01, 6.0),
            1 => (x1 - x0) / (n_want as f64),
            2 => *g.pick(&[0.1, 0.2, 0.05, 0.3, 0.01, 0.25]),
            _ => (x1 - x0) * g.range(0.02, 1.2),
        };
        let none = g.chance(1, 8) && !m.information().embedded;
        note!(g, "{:?} on {:?}..{:?} stepsize {:?} default {}", m, x0, x1, h_eq, none);
        let mut log = Log::new(ndim, vec![]);
        let mut solver = OdeSolver::new(Params::new(m), system(ndim, 2, p, q))?;
        let mut y = Vector::new(ndim);
        let mut out = recorder();
        solver.solve(&mut y, x0, x1, if none { None } else { Some(h_eq) }, &mut log, Some(&mut out))?;
        let n = if none { 10 } else { ((x1 - x0) / h_eq).ceil() as usize };
        let h = (x1 - x0) / (n as f64);
        ck!(log.steps.len() == n + 1, "{} steps instead of {}", log.steps.len() - 1, n);
        for k in 0..n + 1 {
            if k > 0 {
                ck!(log.steps[k].0 == h, "step {} of size {:?} instead of {:?}", k, log.steps[k].0, h);
            }
            let x = x0 + (k as f64) * h;
            ck!((log.steps[k].1 - x).abs() <= 1e-14 * (1.0 + x0.abs() + x1.abs()) * (1 + k) as f64, "step {} ends at {:?} instead of {:?}", k, log.steps[k].1, x);
        }
        ck!((log.steps[n].1 - x1).abs() <= 1e-14 * (1.0 + x0.abs() + x1.abs()) * (1 + n) as f64, "ended at {:?}", log.steps[n].1);
        let st = solver.stats();
        ck!(st.n_steps == n && st.n_accepted == n && st.n_rejected == 0, "counted {} {} {}", st.n_steps, st.n_accepted, st.n_rejected);
        Ok(())
    });
    cx.cases_w("update_params", 2, |g| {
        let list = all();
        let m = list[(g.idx % list.len() as u64) as usize];
        let (ndim, kind, p, q, x0, x1, y0) = setup(g);
        let mut first = params(g, m);
        let mut second = params(g, m);
        first.newton.use_numerical_jacobian = g.bool();
        second.newton.use_numerical_jacobian = g.bool();
        second.bweuler.use_modified_newton = g.bool();
        let before = g.bool();
        note!(g, "{:?} from {:?} to {:?}, solved before: {}", m, first, second, before);
        let run = |s: &mut OdeSolver<Log>| {
            let mut log = Log::new(ndim, vec![]);
            let mut y = Vector::from(&y0);
            let mut out = recorder();
            let r = s.solve(&mut y, x0, x1, None, &mut log, Some(&mut out));
            (r, log.steps, log.calls, s.stats().n_function)
        };
        let mut a = OdeSolver::new(first, system(ndim, kind, p, q))?;
        if before {
            let _ = run(&mut a);
        }
        a.update_params(second)?;
        let mut b = OdeSolver::new(second, system(ndim, kind, p, q))?;
        let (ra, rb) = (run(&mut a), run(&mut b));
        ck!(ra.0 == rb.0, "result {:?} after the update, {:?} when new", ra.0, rb.0);
        ck!(ra.1.len() == rb.1.len(), "{} steps after the update, {} when new", ra.1.len(), rb.1.len());
        for k in 0..ra.1.len() {
            ck!(ra.1[k] == rb.1[k], "step {}: {:?} after the update, {:?} when new", k, ra.1[k], rb.1[k]);
        }
        ck!(ra.2 == rb.2, "different evaluations");
        let mut c = second;
        c.step.m_min = 0.7;
        ck!(a.update_params(c).is_err() && OdeSolver::new(c, system(ndim, kind, p, q)).is_err(), "invalid parameters accepted");
        let other = list[(g.idx as usize + 1) % list.len()];
        ck!(a.update_params(Params::new(other)).is_err(), "change of the method accepted");
        Ok(())
    });
    cx.cases("refusals", |g| {
        let list = all();
        let m = list[(g.idx % list.len() as u64) as usize];
        let (ndim, kind, p, q, x0, x1, y0) = setup(g);
        let mut log = Log::new(ndim, vec![]);
        let mut s = OdeSolver::new(Params::new(m), system(ndim, kind, p, q))?;
        let mut y = Vector::from(&y0);
        ck!(s.solve(&mut Vector::new(ndim + 1), x0, x1, None, &mut log, None).is_err(), "wrong dimension accepted");
        ck!(s.solve(&mut y, x0, x0, None, &mut log, None).is_err(), "empty interval accepted");
        ck!(s.solve(&mut y, x1, x0, None, &mut log, None).is_err(), "reversed interval accepted");
        ck!(s.solve(&mut y, x0, x1, Some(1e-16), &mut log, None).is_err(), "tiny stepsize accepted");
        ck!(log.calls.is_empty() && y.as_data() == &y0, "refused calls had effects");
        // values that are not finite never count as a solution
        let at = x0 + (x1 - x0) * g.unit();
        let bad = *g.pick(&[f64::NAN, f64::INFINITY]);
        note!(g, "{:?} on {:?}..{:?} value {:?} from {:?} on", m, x0, x1, bad, at);
        let mut par = Params::new(m);
        par.step.n_step_max = 500;
        let sys = System::new(1, move |f: &mut Vector, x, _y: &Vector, _: &mut u8| {
            f[0] = if x > at { bad } else { 1.0 };
            Ok(())
        });
        let mut s = OdeSolver::new(par, sys)?;
        let mut y = Vector::new(1);
        let h = if g.bool() && !m.information().implicit { Some((x1 - x0) / 7.0) } else { None };
        let r = s.solve(&mut y, x0, x1, h, &mut 0, None);
        ck!(r.is_err() || y[0].is_finite(), "state {:?} returned", y[0]);
        // errors of the right-hand side are passed on
        let n_ok = g.usize(0, 20);
        let sys = System::new(1, move |f: &mut Vector, _x, _y: &Vector, n: &mut usize| {
            *n += 1;
            f[0] = 1.0;
            if *n > n_ok { Err("stop") } else { Ok(()) }
        });
        let mut s = OdeSolver::new(Params::new(m), sys)?;
        let r = s.solve(&mut Vector::new(1), x0, x1, Some((x1 - x0) / 25.0), &mut 0, None);
        ck!(r == Err("stop"), "error of the right-hand side lost: {:?}", r);
        Ok(())
    });
    let _ = |_: &Stats, _: &Output<u8>| {};
}
