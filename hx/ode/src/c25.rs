use crate::c24::*;
use crate::ox::*;
use hx_common::*;
use russell_lab::Vector;
use russell_ode::{Method, OdeSolver, OutCount, OutData, Output, Params, Stats};

const DENSE: [Method; 3] = [Method::DoPri5, Method::DoPri8, Method::Radau5];

fn par(g: &mut Gen, m: Method) -> Params {
    let mut p = params(g, m);
    p.step.n_step_max = 20000;
    p.erk.lund_beta = 0.0;
    p
}

fn record<'a>(out: &mut Output<'a, Log>) {
    out.set_dense_callback(|_s: &Stats, _h, x, y: &Vector, a: &mut Log| {
        a.dense.push((x, y.as_data().clone()));
        Ok(false)
    });
}

fn check_dense(out: &Output<Log>, log: &Log, stations: &[f64], ndim: usize) -> Res {
    let n = stations.len();
    ck!(out.dense_x().len() == n, "{} stations instead of {}: {:?} expected {:?}", out.dense_x().len(), n, out.dense_x(), stations);
    ck!(log.dense.len() == n, "dense output called {} times for {} stations", log.dense.len(), n);
    for k in 0..n {
        ck!(out.dense_x()[k] == stations[k], "station {} at {:?} instead of {:?}", k, out.dense_x()[k], stations[k]);
        ck!((log.dense[k].0 - stations[k]).abs() <= 1e-13 * (1.0 + stations[k].abs()), "call {} at {:?} instead of {:?}", k, log.dense[k].0, stations[k]);
    }
    for m in 0..ndim {
        ck!(out.dense_y(m).len() == n, "{} values for {} stations", out.dense_y(m).len(), n);
        for k in 0..n {
            ck!(out.dense_y(m)[k] == log.dense[k].1[m], "recorded value {:?} at station {}, reported {:?}", out.dense_y(m)[k], k, log.dense[k].1[m]);
        }
    }
    Ok(())
}

fn check_steps(out: &Output<Log>, log: &Log, x0: f64, ndim: usize) -> Res {
    let n = log.steps.len();
    ck!(n > 0 && out.step_x().len() == n && out.step_h().len() == n, "{} {} recorded for {} steps", out.step_x().len(), out.step_h().len(), n);
    ck!(out.step_x()[0] == x0, "does not start at the initial point");
    for k in 0..n {
        ck!(out.step_x()[k] == log.steps[k].1 && out.step_h()[k] == log.steps[k].0, "step {} recorded wrongly", k);
        ck!(k == 0 || out.step_x()[k] > out.step_x()[k - 1], "steps not in order");
        for m in 0..ndim {
            ck!(out.step_y(m).len() == n && out.step_y(m)[k] == log.steps[k].2[m], "value of step {} recorded wrongly", k);
        }
    }
    Ok(())
}

pub fn register(cx: &mut Ctx) {
    cx.cases_w("stations", 3, |g| {
        let m = DENSE[(g.idx % 3) as usize];
        let (ndim, kind, p, q, x0, x1, y0) = setup(g);
        let pr = par(g, m);
        let equal = if g.chance(1, 3) { Some((x1 - x0) / g.usize(1, 30) as f64) } else { None };
        let mut solver = OdeSolver::new(pr, system(ndim, kind, p, q))?;
        // first run: where the steps are
        let mut log = Log::new(ndim, vec![]);
        let mut y = Vector::from(&y0);
        let mut out = recorder();
        let sel: Vec<usize> = (0..ndim).collect();
        out.set_step_recording(&sel);
        if solver.solve(&mut y, x0, x1, equal, &mut log, Some(&mut out)).is_err() {
            ck!(kind >= 3, "refused");
            return Ok(());
        }
        check_steps(&out, &log, x0, ndim)?;
        ck!((log.steps.last().unwrap().1 - x1).abs() < 1e-12 * (1.0 + x1.abs()), "steps do not end at the final point");
        let ends: Vec<(f64, Vec<f64>)> = log.steps.iter().map(|s| (s.1, s.2.clone())).collect();
        // stations: anywhere, at the ends of steps and next to them
        let mut st: Vec<f64> = vec![];
        for _ in 0..g.usize(0, 12) {
            let e = g.pick(&ends).0;
            st.push(match g.usize(0, 6) {
                0 | 1 => g.range(x0, x1),
                2 => e,
                3 => e + e.abs().max(1e-3) * 2.3e-16,
                4 => e - e.abs().max(1e-3) * 2.3e-16,
                5 => e + g.range(-1e-9, 1e-9),
                _ => x0 + (x1 - x0) * 0.5 + g.unit() * 1e-3,
            });
        }
        if g.chance(1, 6) {
            st.push(x1 - x1.abs().max(1e-3) * *g.pick(&[2.3e-16, 5e-16, 1e-14]));
        }
        st.retain(|x| *x > x0 && *x < x1);
        st.sort_by(|a, b| a.partial_cmp(b).unwrap());
        let mut s2: Vec<f64> = vec![];
        for x in st {
            if s2.is_empty() || x - s2[s2.len() - 1] > 3e-15 {
                s2.push(x);
            }
        }
        let st = s2;
        note!(g, "{:?} equal {:?} stations {:?}", m, equal, st);
        let mut log2 = Log::new(ndim, vec![]);
        let mut y2 = Vector::from(&y0);
        let mut out2 = recorder();
        out2.set_dense_x_out(&st)?.set_dense_recording(&sel);
        record(&mut out2);
        if g.bool() {
            out2.set_step_recording(&sel);
        }
        let mut solver2 = OdeSolver::new(pr, system(ndim, kind, p, q))?;
        solver2.solve(&mut y2, x0, x1, equal, &mut log2, Some(&mut out2))?;
        ck!(y2.as_data() == y.as_data() && log2.steps == log.steps, "the solution depends on the output");
        let mut all = vec![x0];
        all.extend(&st);
        all.push(x1);
        check_dense(&out2, &log2, &all, ndim)?;
        for c in 0..ndim {
            ck!(out2.dense_y(c)[0] == y0[c] && *out2.dense_y(c).last().unwrap() == y2[c], "ends of the interval");
        }
        // at the ends of steps the values are those of the steps
        let size = ends.iter().flat_map(|e| e.1.iter()).fold(1.0, |a: f64, v| a.max(v.abs()));
        for k in 0..all.len() {
            for e in &ends {
                if (all[k] - e.0).abs() < 1e-13 {
                    for c in 0..ndim {
                        ck!((log2.dense[k].1[c] - e.1[c]).abs() < 1e-9 * size, "{:?} at the end {:?} of a step, {:?} reported at {:?}", e.1, e.0, log2.dense[k].1, all[k]);
                    }
                }
            }
        }
        // each value does not depend on the other stations
        if st.len() > 0 {
            let k = g.usize(0, st.len() - 1);
            let mut log3 = Log::new(ndim, vec![]);
            let mut out3 = Output::new();
            out3.set_dense_x_out(&st[k..k + 1])?.set_dense_recording(&sel);
            let mut y3 = Vector::from(&y0);
            let mut solver3 = OdeSolver::new(pr, system(ndim, kind, p, q))?;
            solver3.solve(&mut y3, x0, x1, equal, &mut log3, Some(&mut out3))?;
            for c in 0..ndim {
                ck!(out3.dense_y(c)[1] == out2.dense_y(c)[k + 1], "value at {:?}: {:?} alone, {:?} with the other stations", st[k], out3.dense_y(c)[1], out2.dense_y(c)[k + 1]);
            }
        }
        Ok(())
    });
    cx.cases("values", |g| {
        // linear system with known solution
        let m = DENSE[(g.idx % 3) as usize];
        let q = g.range(-2.0, 1.0);
        let (x0, x1) = (g.range(-1.0, 1.0), 1.0 + g.range(0.5, 2.0));
        let y0 = g.range(-2.0, 2.0);
        let mut pr = Params::new(m);
        pr.set_tolerances(1e-9, 1e-9, None)?;
        let n = g.usize(1, 30);
        let mut st: Vec<f64> = (0..n).map(|_| g.range(x0, x1)).collect();
        st.sort_by(|a, b| a.partial_cmp(b).unwrap());
        note!(g, "{:?} q {:?} on {:?}..{:?} from {:?} stations {:?}", m, q, x0, x1, y0, st);
        let mut out = Output::new();
        if out.set_dense_x_out(&st).is_err() {
            return Ok(());
        }
        out.set_dense_recording(&[0]).set_step_recording(&[0]);
        let exact = move |x: f64| y0 * (q * (x - x0)).exp();
        out.set_yx_correct(move |y, x, _| y[0] = exact(x));
        let mut s = OdeSolver::new(pr, system(1, 1, 0.0, q))?;
        let mut y = Vector::from(&[y0]);
        s.solve(&mut y, x0, x1, None, &mut Log::new(1, vec![]), Some(&mut out))?;
        for k in 0..out.dense_x().len() {
            let e = exact(out.dense_x()[k]);
            let v = out.dense_y(0)[k];
            ck!((v - e).abs() < 1e-5 * (1.0 + y0.abs()), "value {:?} at {:?}, solution {:?}", v, out.dense_x()[k], e);
        }
        ck!(out.step_global_error().len() == out.step_x().len(), "errors not recorded at all steps");
        for k in 0..out.step_x().len() {
            let e = (out.step_y(0)[k] - exact(out.step_x()[k])).abs();
            ck!(out.step_global_error()[k] == e, "error {:?} of step {}, expected {:?}", out.step_global_error()[k], k, e);
        }
        Ok(())
    });
    cx.cases_w("spacing", 2, |g| {
        let m = DENSE[(g.idx % 3) as usize];
        let (ndim, kind, p, q, x0, _, y0) = setup(g);
        let pr = par(g, m);
        let n = g.usize(1, 25);
        let h = match g.usize(0, 2) {
            0 => *g.pick(&[0.1, 0.2, 0.05, 0.3, 0.25, 0.7]),
            _ => g.range(0.05, 1.0),
        };
        let x1 = if g.bool() { x0 + h * n as f64 } else { x0 + g.range(0.2, 2.5) };
        note!(g, "{:?} spacing {:?} on {:?}..{:?}", m, h, x0, x1);
        let mut all = vec![];
        let mut k = 0;
        while x0 + (k as f64) * h < x1 - 1e-9 {
            all.push(x0 + (k as f64) * h);
            k += 1;
        }
        all.push(x1);
        let mut out = recorder();
        out.set_dense_h_out(h)?.set_dense_recording(&[0]);
        record(&mut out);
        let mut log = Log::new(ndim, vec![]);
        let mut s = OdeSolver::new(pr, system(ndim, kind, p, q))?;
        let mut y = Vector::from(&y0);
        if s.solve(&mut y, x0, x1, None, &mut log, Some(&mut out)).is_err() {
            ck!(kind >= 3, "refused");
            return Ok(());
        }
        let xs = out.dense_x().clone();
        ck!(xs.len() == all.len(), "{} stations {:?} instead of {:?}", xs.len(), xs, all);
        for k in 0..all.len() {
            ck!((xs[k] - all[k]).abs() <= 1e-13 * (1.0 + x0.abs() + x1.abs()), "station {} at {:?} instead of {:?}", k, xs[k], all[k]);
        }
        ck!(xs[0] == x0 && xs[xs.len() - 1] == x1, "ends of the interval");
        check_dense(&out, &log, &xs, 1)
    });
    cx.cases_w("reuse", 2, |g| {
        // two solves with the same output object, the second compared with a fresh object
        let m = DENSE[(g.idx % 3) as usize];
        let dir = format!("{}/c25_{}", std::env::var("HX_SCRATCH").unwrap_or("/tmp/hx_c25".into()), std::process::id());
        std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
        let (ndim, kind, p, q, x0, x1, y0) = setup(g);
        let mut pr = par(g, m);
        pr.stiffness.enabled = g.bool();
        pr.stiffness.save_results = g.bool();
        pr.stiffness.stop_with_error = false;
        let mut pr2 = pr;
        pr2.stiffness.save_results = g.bool();
        let files = g.bool();
        let dense = g.usize(0, 2);
        let steps = g.bool();
        let sel: Vec<usize> = if g.bool() { vec![0] } else { (0..ndim).collect() };
        let h_out = g.range(0.05, 0.4);
        let inner = x0 + 0.2 + 0.05 * g.unit();
        let (a0, a1) = (x0 - 0.5, x1 + g.range(-0.01, 1.0));
        note!(g, "{:?} files {} dense {} steps {} components {:?} spacing {:?} first interval {:?}..{:?}", m, files, dense, steps, sel, h_out, a0, a1);
        fn make<'a>(dir: &str, name: &str, files: bool, dense: usize, steps: bool, sel: &[usize], h_out: f64, inner: f64) -> Result<Output<'a, Log>, String> {
            let mut out = recorder();
            if steps {
                out.set_step_recording(sel);
            }
            if dense > 0 {
                if dense == 1 {
                    out.set_dense_h_out(h_out)?;
                } else {
                    out.set_dense_x_out(&[inner])?;
                }
                out.set_dense_recording(sel);
                record(&mut out);
            }
            if files {
                out.set_step_file_writing(&format!("{}/{}_step", dir, name));
                if dense > 0 {
                    out.set_dense_file_writing(&format!("{}/{}_dense", dir, name))?;
                }
            }
            Ok(out)
        }
        let mut first = make(&dir, "reused", files, dense, steps, &sel, h_out, inner)?;
        let mut fresh = make(&dir, "fresh", files, dense, steps, &sel, h_out, inner)?;
        let mut s = OdeSolver::new(pr, system(ndim, kind, p, q))?;
        let mut y = Vector::from(&y0);
        let r0 = s.solve(&mut y, a0, a1, None, &mut Log::new(ndim, vec![]), Some(&mut first));
        let (mut la, mut lb) = (Log::new(ndim, vec![]), Log::new(ndim, vec![]));
        let mut sa = OdeSolver::new(pr2, system(ndim, kind, p, q))?;
        let mut sb = OdeSolver::new(pr2, system(ndim, kind, p, q))?;
        let (mut ya, mut yb) = (Vector::from(&y0), Vector::from(&y0));
        let ra = sa.solve(&mut ya, x0, x1, None, &mut la, Some(&mut first));
        let rb = sb.solve(&mut yb, x0, x1, None, &mut lb, Some(&mut fresh));
        let res = (|| -> Res {
            ck!(ra == rb && ya.as_data() == yb.as_data(), "different results {:?} {:?}", ra, rb);
            if ra.is_err() || r0.is_err() {
                return Ok(());
            }
            ck!(first.step_x() == fresh.step_x() && first.step_h() == fresh.step_h(), "steps recorded by the reused object {:?}, fresh {:?}", first.step_x(), fresh.step_x());
            ck!(first.dense_x() == fresh.dense_x(), "stations {:?}, fresh {:?}", first.dense_x(), fresh.dense_x());
            for c in &sel {
                ck!(first.step_y(*c) == fresh.step_y(*c), "recorded states differ");
                ck!(first.dense_y(*c) == fresh.dense_y(*c), "recorded dense values differ");
            }
            ck!(first.stiff_step_index() == fresh.stiff_step_index() && first.stiff_x() == fresh.stiff_x() && first.stiff_h_times_rho() == fresh.stiff_h_times_rho(), "stiffness records {:?} fresh {:?}", first.stiff_h_times_rho(), fresh.stiff_h_times_rho());
            ck!(la.dense == lb.dense && la.steps == lb.steps, "callbacks differ");
            if files {
                for what in ["step", "dense"] {
                    if what == "dense" && dense == 0 {
                        continue;
                    }
                    let ca = OutCount::read_json(&format!("{}/reused_{}_count.json", dir, what))?;
                    let cb = OutCount::read_json(&format!("{}/fresh_{}_count.json", dir, what))?;
                    ck!(ca.n == cb.n, "{} files counted for {}, fresh {}", ca.n, what, cb.n);
                    let want: Vec<(f64, Vec<f64>)> = if what == "step" { lb.steps.iter().map(|s| (s.1, s.2.clone())).collect() } else { lb.dense.clone() };
                    ck!(cb.n == want.len(), "{} files for {} points", cb.n, want.len());
                    for k in [0, want.len() / 2, want.len() - 1] {
                        let a = OutData::read_json(&format!("{}/reused_{}_{}.json", dir, what, k))?;
                        let b = OutData::read_json(&format!("{}/fresh_{}_{}.json", dir, what, k))?;
                        ck!(a.x == b.x && a.y.as_data() == b.y.as_data() && a.h == b.h, "file {} differs", k);
                        ck!(close(b.x, want[k].0, 1e-14) && (0..ndim).all(|c| close(b.y[c], want[k].1[c], 1e-14)), "file {} has {:?}, reported {:?}", k, b, want[k]);
                    }
                }
            }
            Ok(())
        })();
        let _ = std::fs::remove_dir_all(&dir);
        res
    });
    cx.cases("stopping", |g| {
        let list = all();
        let m = list[(g.idx % list.len() as u64) as usize];
        let (ndim, kind, p, q, x0, x1, y0) = setup(g);
        let pr = par(g, m);
        let at = g.usize(0, 6);
        let fail = g.bool();
        note!(g, "{:?} stop at output {} with error {}", m, at, fail);
        let mut out = Output::new();
        out.set_step_callback(move |_s: &Stats, h, x, y: &Vector, a: &mut Log| {
            a.steps.push((h, x, y.as_data().clone()));
            let now = a.steps.len() > at;
            if fail && now { Err("enough") } else { Ok(now) }
        });
        let mut log = Log::new(ndim, vec![]);
        let mut s = OdeSolver::new(pr, system(ndim, kind, p, q))?;
        let mut y = Vector::from(&y0);
        let r = s.solve(&mut y, x0, x1, None, &mut log, Some(&mut out));
        ck!(log.steps.len() <= at + 1, "called {} times after asking to stop", log.steps.len());
        if log.steps.len() == at + 1 {
            ck!(r == if fail { Err("enough") } else { Ok(()) }, "result {:?}", r);
            ck!(y.as_data() == &log.steps[at].2, "state is not the one at the stop");
        }
        // too few steps with dense output: an error, not a crash
        let mut pr = Params::new(DENSE[(g.idx % 3) as usize]);
        pr.step.n_step_max = g.usize(1, 3);
        let mut out = recorder();
        out.set_dense_h_out(0.1)?.set_dense_recording(&[0]);
        let mut s = OdeSolver::new(pr, system(ndim, 2, p, q))?;
        let mut y = Vector::from(&y0);
        ck!(s.solve(&mut y, x0, x1, None, &mut Log::new(ndim, vec![]), Some(&mut out)).is_err(), "too few steps accepted");
        // methods without dense output refuse it
        for m in all() {
            if !DENSE.contains(&m) {
                let mut s = OdeSolver::new(Params::new(m), system(ndim, 2, p, q))?;
                let mut out = Output::new();
                out.set_dense_recording(&[0]);
                let mut y = Vector::from(&y0);
                ck!(s.solve(&mut y, x0, x1, None, &mut Log::new(ndim, vec![]), Some(&mut out)).is_err(), "{:?}: dense output accepted", m);
            }
        }
        // stations outside or out of order are refused
        let mut out: Output<Log> = Output::new();
        ck!(out.set_dense_x_out(&[x0 + 0.2, x0 + 0.1]).is_err(), "unsorted stations accepted");
        for bad in [vec![x0], vec![x0 - 0.1], vec![x1], vec![x1 + 0.1]] {
            let mut out: Output<Log> = Output::new();
            out.set_dense_x_out(&bad)?.set_dense_recording(&[0]);
            let mut s = OdeSolver::new(Params::new(Method::DoPri5), system(ndim, 2, p, q))?;
            let mut y = Vector::from(&y0);
            ck!(s.solve(&mut y, x0, x1, None, &mut Log::new(ndim, vec![]), Some(&mut out)).is_err(), "station {:?} accepted on {:?}..{:?}", bad, x0, x1);
        }
        Ok(())
    });
}
