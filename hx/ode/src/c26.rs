use crate::c24::*;
use crate::ox::*;
use hx_common::*;
use russell_lab::{vec_rms_scaled, Vector};
use russell_ode::{Method, OdeSolver, Output, Params, System};
use russell_sparse::{CooMatrix, Sym};

/// mass matrix (row major), never singular here
fn with_mass<'a>(mut s: System<'a, Log>, ndim: usize, mass: &Option<Vec<f64>>) -> System<'a, Log> {
    if let Some(mm) = mass.clone() {
        s.set_mass(None, Sym::No, move |m: &mut CooMatrix| {
            m.reset();
            for i in 0..ndim {
                for j in 0..ndim {
                    m.put(i, j, mm[i * ndim + j]).unwrap();
                }
            }
        })
        .unwrap();
    }
    s
}

fn without_jacobian<'a>(ndim: usize, kind: usize, p: f64, q: f64) -> System<'a, Log> {
    System::new(ndim, move |f: &mut Vector, x, y: &Vector, a: &mut Log| {
        a.calls.push((x, y.as_data().clone()));
        let mut r = vec![0.0; ndim];
        rhs(kind, p, q, x, y.as_data(), &mut r);
        for i in 0..ndim {
            f[i] = r[i];
        }
        Ok(())
    })
}

pub fn register(cx: &mut Ctx) {
    cx.cases_w("backward_euler", 2, |g| {
        let (ndim, kind, p, q, x0, x1, y0) = setup(g);
        let mut par = Params::new(Method::BwEuler);
        let tol = *g.pick(&[1e-3, 1e-5, 1e-7]);
        let newton = *g.pick(&[1e-2, 1e-4, 1e-6]);
        par.set_tolerances(tol, tol * 3.0, Some(newton))?;
        par.newton.n_iteration_max = *g.pick(&[2, 5, 7, 20]);
        par.newton.use_numerical_jacobian = g.bool();
        par.bweuler.use_modified_newton = g.bool();
        let n = g.usize(1, 12);
        note!(g, "tolerances {:?} {:?} iterations {} numerical {} modified {} steps {}", tol, newton, par.newton.n_iteration_max, par.newton.use_numerical_jacobian, par.bweuler.use_modified_newton, n);
        let sys = if g.chance(1, 4) { without_jacobian(ndim, kind, p, q) } else { system(ndim, kind, p, q) };
        let mut s = OdeSolver::new(par, sys)?;
        let mut log = Log::new(ndim, vec![]);
        let mut out = recorder();
        let mut y = Vector::from(&y0);
        let r = s.solve(&mut y, x0, x1, Some((x1 - x0) / n as f64), &mut log, Some(&mut out));
        if r.is_err() {
            let hh = (x1 - x0) / n as f64;
            let critical = [p, q].iter().any(|v| ((hh * v).abs() - 1.0).abs() < 0.05);
            ck!(critical || kind > 2 || par.newton.n_iteration_max < 5 || par.bweuler.use_modified_newton || newton < 1e-5 || tol < 1e-6, "linear problem refused: {:?}", r);
        }
        for k in 1..log.steps.len() {
            let (h, x, ya) = (&log.steps[k].0, &log.steps[k].1, &log.steps[k - 1].2);
            let yb = &log.steps[k].2;
            let mut f = vec![0.0; ndim];
            rhs(kind, p, q, *x, yb, &mut f);
            let res: Vec<f64> = (0..ndim).map(|i| yb[i] - ya[i] - h * f[i]).collect();
            let e = vec_rms_scaled(&Vector::from(&res), &Vector::from(ya), tol, tol * 3.0);
            let noise = 1e-14 * (1.0 + ya.iter().chain(f.iter()).fold(0.0, |a: f64, v| a.max(v.abs()))) / tol;
            ck!(e < newton + noise, "step {} at {:?}: scaled residual {:?} above the tolerance {:?}", k, x, e, newton);
        }
        Ok(())
    });
    cx.cases_w("radau", 3, |g| {
        let (ndim, kind, p, q, x0, x1, y0) = setup(g);
        let mut par = params(g, Method::Radau5);
        let (abs, rel) = TOL.with(|t| t.get());
        par.newton.use_numerical_jacobian = g.bool();
        par.radau5.concurrent = g.chance(1, 10);
        par.newton.n_iteration_max = *g.pick(&[7, 10, 3]);
        let equal = if g.chance(1, 3) { Some((x1 - x0) / g.usize(1, 12) as f64) } else { None };
        let mass = if g.bool() {
            let mut v: Vec<f64> = (0..ndim * ndim).map(|_| g.range(-0.4, 0.4)).collect();
            for i in 0..ndim {
                v[i * ndim + i] = g.range(1.0, 3.0);
            }
            Some(v)
        } else {
            None
        };
        note!(g, "{:?} {:?} {:?} equal {:?} mass {:?}", par.step, par.radau5, par.newton, equal, mass);
        // first run: the steps
        let mut log = Log::new(ndim, vec![]);
        let mut out = recorder();
        let mut y = Vector::from(&y0);
        let mut s = OdeSolver::new(par, with_mass(system(ndim, kind, p, q), ndim, &mass))?;
        let r = s.solve(&mut y, x0, x1, equal, &mut log, Some(&mut out));
        let end = log.steps.last().unwrap().1;
        let n = log.steps.len() - 1;
        if r.is_err() || n == 0 {
            return Ok(());
        }
        // second run on a fresh solver: the stage values through the dense output
        let r6 = 6f64.sqrt();
        let c = [(4.0 - r6) / 10.0, (4.0 + r6) / 10.0];
        let mut st = vec![];
        for k in 1..n + 1 {
            let (h, x) = (log.steps[k].0, log.steps[k - 1].1);
            st.push(x + c[0] * h);
            st.push(x + c[1] * h);
        }
        st.retain(|x| *x < x1);
        let mut out2 = Output::new();
        if out2.set_dense_x_out(&st).is_err() || st.len() != 2 * n {
            return Ok(());
        }
        let sel: Vec<usize> = (0..ndim).collect();
        out2.set_dense_recording(&sel);
        let mut s2 = OdeSolver::new(par, with_mass(system(ndim, kind, p, q), ndim, &mass))?;
        let mut y2 = Vector::from(&y0);
        s2.solve(&mut y2, x0, x1, equal, &mut Log::new(ndim, vec![]), Some(&mut out2))?;
        ck!(y2.as_data() == y.as_data(), "a second fresh solver gives {:?} instead of {:?}", y2.as_data(), y.as_data());
        let aa = [
            [(88.0 - 7.0 * r6) / 360.0, (296.0 - 169.0 * r6) / 1800.0, (-2.0 + 3.0 * r6) / 225.0],
            [(296.0 + 169.0 * r6) / 1800.0, (88.0 + 7.0 * r6) / 360.0, (-2.0 - 3.0 * r6) / 225.0],
            [(16.0 - r6) / 36.0, (16.0 + r6) / 36.0, 1.0 / 9.0],
        ];
        // tolerances as documented for this method
        let quot = abs / rel;
        let rel5 = 0.1 * rel.powf(2.0 / 3.0);
        let abs5 = rel5 * quot;
        let newton = f64::max(10.0 * f64::EPSILON / rel5, f64::min(0.03, rel5.sqrt()));
        for k in 1..n + 1 {
            let (h, x) = (log.steps[k].0, log.steps[k - 1].1);
            let ya = &log.steps[k - 1].2;
            // the first iteration is judged by the contraction observed in the step before, which
            // says nothing about a much larger step of a nonlinear problem
            if matches!(kind, 3 | 5 | 6) && k > 1 && h > 1.2 * log.steps[k - 1].0 {
                continue;
            }
            let stage = |i: usize, d: usize| if i < 2 { out2.dense_y(d)[1 + 2 * (k - 1) + i] } else { log.steps[k].2[d] };
            let mut f = vec![vec![0.0; ndim]; 3];
            for i in 0..3 {
                let v: Vec<f64> = (0..ndim).map(|d| stage(i, d)).collect();
                rhs(kind, p, q, x + if i < 2 { c[i] * h } else { h }, &v, &mut f[i]);
            }
            for i in 0..3 {
                for d in 0..ndim {
                    let z = |e: usize| stage(i, e) - ya[e];
                    let lhs = match &mass {
                        Some(mm) => (0..ndim).map(|e| mm[d * ndim + e] * z(e)).sum::<f64>(),
                        None => z(d),
                    };
                    let rhs = h * (0..3).map(|j| aa[i][j] * f[j][d]).sum::<f64>();
                    let big = ya.iter().fold(0.0, |a: f64, v| a.max(v.abs()));
                    let lim = if matches!(kind, 3 | 5 | 6) { 3000.0 } else { 60.0 } * newton * (abs5 + rel5 * big) * if mass.is_some() { 4.0 } else { 1.0 } + 1e-11 * (1.0 + big);
                    ck!((lhs - rhs).abs() <= lim, "step {} at {:?} (h {:?}): collocation equation {} has residual {:?}, tolerance {:?}", k, x, h, i, lhs - rhs, lim);
                }
            }
        }
        let _ = end;
        Ok(())
    });
    cx.cases_w("solver_reuse", 3, |g| {
        let m = *g.pick(&[Method::Radau5, Method::Radau5, Method::BwEuler, Method::DoPri5, Method::DoPri8, Method::Fehlberg4]);
        let (ndim, kind, p, q, x0, x1, y0) = setup(g);
        let mut par = params(g, m);
        par.newton.use_numerical_jacobian = g.bool();
        par.bweuler.use_modified_newton = g.bool();
        let equal = if g.chance(1, 3) { Some((x1 - x0) / g.usize(1, 12) as f64) } else { None };
        let equal0 = if g.chance(1, 3) { Some((x1 - x0) / g.usize(1, 12) as f64) } else { None };
        let y1: Vec<f64> = y0.iter().map(|v| v + g.range(-1.0, 1.0)).collect();
        let (a0, a1) = (x0 + g.range(-0.5, 0.5), x1 + g.range(0.6, 1.5));
        // the first solve may end early: by an error of the output, by a stop, or normally
        let stop = g.usize(0, 12);
        let how = g.usize(0, 2);
        note!(g, "{:?} {:?} {:?}; first from {:?} on {:?}..{:?} equal {:?} stop {} {}; then equal {:?}", m, par.step, par.radau5, y1, a0, a1, equal0, how, stop, equal);
        let run = |s: &mut OdeSolver<Log>| {
            let mut log = Log::new(ndim, vec![]);
            let mut y = Vector::from(&y0);
            let mut out = recorder();
            let r = s.solve(&mut y, x0, x1, equal, &mut log, Some(&mut out));
            let st = s.stats();
            (r, log.steps, log.calls, [st.n_function, st.n_jacobian, st.n_factor, st.n_lin_sol, st.n_steps, st.n_accepted, st.n_rejected, st.n_iterations_max])
        };
        let mut a = OdeSolver::new(par, system(ndim, kind, p, q))?;
        let mut first = Output::new();
        first.set_step_callback(move |_s, h, x, y: &Vector, l: &mut Log| {
            l.steps.push((h, x, y.as_data().clone()));
            if how > 0 && l.steps.len() > stop { if how == 1 { Ok(true) } else { Err("enough") } } else { Ok(false) }
        });
        let _ = a.solve(&mut Vector::from(&y1), a0, a1, equal0, &mut Log::new(ndim, vec![]), Some(&mut first));
        let mut b = OdeSolver::new(par, system(ndim, kind, p, q))?;
        let (ra, rb) = (run(&mut a), run(&mut b));
        ck!(ra.0 == rb.0, "result {:?} on the used solver, {:?} on a fresh one", ra.0, rb.0);
        ck!(ra.1.len() == rb.1.len(), "{} steps on the used solver, {} on a fresh one", ra.1.len(), rb.1.len());
        for k in 0..ra.1.len() {
            ck!(ra.1[k] == rb.1[k], "step {}: {:?} on the used solver, {:?} on a fresh one", k, ra.1[k], rb.1[k]);
        }
        ck!(ra.3 == rb.3, "statistics {:?} on the used solver, {:?} on a fresh one", ra.3, rb.3);
        ck!(ra.2 == rb.2, "different evaluations");
        Ok(())
    });
    cx.cases("no_convergence", |g| {
        // right-hand sides with which the iterations cannot converge: wrong derivative or jumps
        let m = *g.pick(&[Method::Radau5, Method::BwEuler]);
        let w = *g.pick(&[-1.0, -3.0, 5.0, 40.0, 300.0]);
        let gain = g.range(2.0, 400.0);
        let mut par = Params::new(m);
        par.newton.n_iteration_max = g.usize(3, 12);
        par.radau5.concurrent = false;
        par.step.n_step_max = 200;
        let n = g.usize(1, 4);
        note!(g, "{:?} gain {:?} wrong slope {:?} steps {} iterations {}", m, gain, w, n, par.newton.n_iteration_max);
        let mut sys = System::new(1, move |f: &mut Vector, x: f64, y: &Vector, _: &mut Log| {
            f[0] = gain * (3.0 * y[0] + x).sin() + 1.0;
            Ok(())
        });
        sys.set_jacobian(Some(1), Sym::No, move |jj, al, _x, _y: &Vector, _a: &mut Log| {
            jj.reset();
            jj.put(0, 0, al * w)
        })?;
        let mut s = OdeSolver::new(par, sys)?;
        let mut out = recorder();
        let mut log = Log::new(1, vec![]);
        let mut y = Vector::from(&[0.3]);
        let tol = 1e-4;
        let r = s.solve(&mut y, 0.0, 1.0, Some(1.0 / n as f64), &mut log, Some(&mut out));
        // every accepted step satisfies its equation all the same
        for k in 1..log.steps.len() {
            let (h, x, ya) = (log.steps[k].0, log.steps[k].1, log.steps[k - 1].2[0]);
            let yb = log.steps[k].2[0];
            if m == Method::BwEuler {
                let e = (yb - ya - h * (gain * (3.0 * yb + x).sin() + 1.0)).abs() / (tol + tol * ya.abs());
                ck!(e < 0.0101, "step {} accepted with residual {:?}", k, e);
            }
        }
        if m == Method::Radau5 && r.is_ok() {
            // the three collocation equations have a solution with this end value
            let r6 = 6f64.sqrt();
            let c = [(4.0 - r6) / 10.0, (4.0 + r6) / 10.0, 1.0];
            let mut out = Output::new();
            let mut st = vec![];
            for k in 1..log.steps.len() {
                st.push(log.steps[k - 1].1 + c[0] * log.steps[k].0);
                st.push(log.steps[k - 1].1 + c[1] * log.steps[k].0);
            }
            out.set_dense_x_out(&st)?.set_dense_recording(&[0]);
            let mut y = Vector::from(&[0.3]);
            s.solve(&mut y, 0.0, 1.0, Some(1.0 / n as f64), &mut Log::new(1, vec![]), Some(&mut out))?;
            let b = [(16.0 - r6) / 36.0, (16.0 + r6) / 36.0, 1.0 / 9.0];
            for k in 1..log.steps.len() {
                let (h, x, ya) = (log.steps[k].0, log.steps[k - 1].1, log.steps[k - 1].2[0]);
                let v = [out.dense_y(0)[2 * k - 1], out.dense_y(0)[2 * k], log.steps[k].2[0]];
                let sum: f64 = (0..3).map(|j| b[j] * (gain * (3.0 * v[j] + x + c[j] * h).sin() + 1.0)).sum();
                let res = v[2] - ya - h * sum;
                let rel5 = 0.1 * 1e-4f64.powf(2.0 / 3.0);
                let newton = 0.03f64.min(rel5.sqrt());
                let lim = 200.0 * newton * rel5 * (1.0 + ya.abs()) * (1.0 + 3.0 * gain * h);
                ck!(res.abs() <= lim, "step {} accepted with residual {:?} of the last collocation equation, tolerance {:?}", k, res, lim);
            }
        }
        Ok(())
    });
}
