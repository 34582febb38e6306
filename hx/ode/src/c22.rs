use crate::ox::*;
use hx_common::*;
use russell_lab::Vector;
use russell_ode::{Method, OdeSolver, Params, System};

/// methods whose coefficients are fractions; the others are given by decimals with at least 16 digits
fn decimal(m: Method) -> bool {
    m == Method::DoPri8
}

fn agree(g: &mut Gx, m: Method, a: f64, b: f64, what: &str) -> Res {
    if decimal(m) {
        let d = a - b;
        let d = if d < 0.0 { -d } else { d };
        g.holds(d < if g.symbolic() { 1e-14 } else { 1e-12 }, what)
    } else {
        g.same(a, b, what)
    }
}

fn explicit() -> Vec<Method> {
    let mut list = Method::erk_methods();
    list.push(Method::FwEuler);
    list
}

pub fn register(cx: &mut Ctx) {
    cx.contract("explicit_tables", |g| {
        let list = explicit();
        let k = g.choose("method", list.len());
        let m = list[k];
        g.tol(1e-13);
        let t = tableau(m)?;
        g.holds(t.s >= 1 && t.s <= 16, "number of stages")?;
        for i in 0..t.s {
            let mut sum = 0.0;
            for j in 0..t.s {
                sum = sum + t.a[i][j];
                if j >= i {
                    g.holds(t.a[i][j] == 0.0, "stage uses a later stage")?;
                }
            }
            agree(g, m, sum, t.c[i], &format!("row sum {} of {:?}", i, m))?;
        }
        let info = m.information();
        if info.first_step_same_as_last {
            let l = t.s - 1;
            agree(g, m, t.c[l], 1.0, "last node of a first-same-as-last method")?;
            for j in 0..t.s {
                agree(g, m, t.a[l][j], t.b[j], &format!("last row, entry {} of {:?}", j, m))?;
            }
        }
        Ok(())
    });
    cx.contract("order_conditions_of_the_weights", |g| {
        let list = explicit();
        let k = g.choose("method", list.len());
        let m = list[k];
        g.tol(1e-13);
        let tab = tableau(m)?;
        let p = m.information().order;
        g.holds(p >= 1 && p <= 8, "stated order")?;
        for t in trees(p) {
            let w = t.weights(&tab);
            let mut sum = 0.0;
            for i in 0..tab.s {
                sum = sum + tab.b[i] * w[i];
            }
            agree(g, m, sum * (t.density() as f64), 1.0, &format!("{:?}: condition of tree {}", m, t.show()))?;
        }
        Ok(())
    });
    cx.contract("order_conditions_of_the_error_weights", |g| {
        let list: Vec<_> = Method::erk_methods().into_iter().filter(|m| m.information().embedded).collect();
        let k = g.choose("method", list.len());
        let m = list[k];
        let tab = tableau(m)?;
        let info = m.information();
        let (p, q) = (info.order, info.order_of_estimator);
        // the estimate of the order-8 method combines differences to solutions of orders 5 and 3
        let low = if m == Method::DoPri8 { 5 } else if p < q { p } else { q };
        // stages returning the elementary weights of a tree times 1e10: the difference of both solutions vanishes
        for t in trees(low) {
            let w: Vec<_> = t.weights(&tab).iter().map(|v| vec![*v * 1e10]).collect();
            let r = attempt(m, w, &[0.0], 1.0, 1.0, 1e-14, tab.c[1])?;
            g.holds(r.accepted, &format!("{:?}: error weights do not annihilate tree {}", m, t.show()))?;
        }
        // the difference is not blind to the terms it is meant to see
        let mut seen = false;
        for t in trees(low + 1) {
            if t.order == low + 1 {
                let w: Vec<_> = t.weights(&tab).iter().map(|v| vec![*v * 1e10]).collect();
                let r = attempt(m, w, &[0.0], 1.0, 1.0, 1e-14, tab.c[1])?;
                seen = seen || !r.accepted;
            }
        }
        g.holds(seen, &format!("{:?}: error weights vanish on all trees of order {}", m, low + 1))?;
        Ok(())
    });
    cx.bounded("embedded solution of higher order", |g| {
        // where the second solution has the higher order, the difference equals the defect of the weights
        let list: Vec<_> = Method::erk_methods().into_iter().filter(|m| m.information().embedded && m.information().order < m.information().order_of_estimator).collect();
        let k = g.choose("method", list.len());
        let m = list[k];
        let tab = tableau(m)?;
        let info = m.information();
        let (p, q) = (info.order, info.order_of_estimator);
        let n = (q + 1) as i32;
        g.tol(1e-5);
        for t in trees(q) {
            if t.order > p {
                let ww = t.weights(&tab);
                let sum: f64 = (0..tab.s).map(|i| tab.b[i] * ww[i]).sum();
                let defect = (sum - 1.0 / (t.density() as f64)).abs();
                let w: Vec<_> = ww.iter().map(|v| vec![*v * 1e10]).collect();
                let r = attempt(m, w, &[0.0], 1.0, 1.0, 1e-14, tab.c[1])?;
                if defect > 1e-9 {
                    g.holds(!r.accepted, &format!("{:?}: tree {} not seen", m, t.show()))?;
                    let est = (1.0 / r.h_next).powi(n) / 1e10;
                    g.same(est / defect, 1.0, &format!("{:?}: tree {}", m, t.show()))?;
                }
            }
        }
        Ok(())
    });
    cx.bounded("implicit three-stage method", |g| {
        let (x0, h) = (0.0, 1.0);
        let mut y0 = 0.0;
        let mut aa = [[0.0; 3]; 3];
        let mut b = [0.0; 3];
        let mut c = [0.0; 3];
        g.tol(1e-12);
        if g.flag("shifted") {
            y0 = g.var("y0");
        }
        let zero_trial = g.flag("zero trial");
        for j in 0..3 {
            // right-hand side depending on x only, one at node j, zero at the other nodes
            let mut params = Params::new(Method::Radau5);
            params.radau5.zero_trial = zero_trial;
            params.radau5.concurrent = false;
            params.set_tolerances(1e-10, 1e-10, None)?;
            let nodes = c;
            let mut sys = System::new(1, move |f: &mut Vector, x, _y: &Vector, a: &mut Log| {
                f[0] = if a.script.len() == 1 { 0.0 } else if (x - nodes[j]).abs() < 1e-9 { 1.0 } else { 0.0 };
                a.calls.push((x, vec![_y[0]]));
                Ok(())
            });
            sys.set_jacobian(Some(1), russell_sparse::Sym::No, |jj, al, _x, _y, _a: &mut Log| {
                jj.reset();
                jj.put(0, 0, al * 0.0)
            })?;
            if j == 0 {
                // find the nodes
                let mut log = Log::new(1, vec![vec![0.0]]);
                let mut solver = OdeSolver::new(params, sys.clone())?;
                let mut y = Vector::from(&[y0]);
                solver.solve(&mut y, x0, x0 + h, Some(h), &mut log, None)?;
                let mut n: Vec<f64> = log.calls.iter().map(|c| c.0).filter(|x| *x > 1e-9).collect();
                n.sort_by(|a, b| a.partial_cmp(b).unwrap());
                n.dedup();
                g.holds(n.len() == 3, "three nodes")?;
                c = [n[0], n[1], n[2]];
                let nodes = c;
                sys = System::new(1, move |f: &mut Vector, x, _y: &Vector, a: &mut Log| {
                    f[0] = if (x - nodes[0]).abs() < 1e-9 { 1.0 } else { 0.0 };
                    a.calls.push((x, vec![_y[0]]));
                    Ok(())
                });
                sys.set_jacobian(Some(1), russell_sparse::Sym::No, |jj, al, _x, _y, _a: &mut Log| {
                    jj.reset();
                    jj.put(0, 0, al * 0.0)
                })?;
            }
            let mut log = Log::new(1, vec![]);
            let mut solver = OdeSolver::new(params, sys)?;
            let mut y = Vector::from(&[y0]);
            solver.solve(&mut y, x0, x0 + h, Some(h), &mut log, None)?;
            b[j] = y[0] - y0;
            for i in 0..3 {
                let last = log.calls.iter().filter(|q| (q.0 - c[i]).abs() < 1e-9 && q.0 > 1e-9).filter(|_| true).collect::<Vec<_>>();
                // the value at the end point may also be asked for after the step: take the last one before it
                let pick = if i == 2 { last[last.len() - 2] } else { last[last.len() - 1] };
                aa[i][j] = pick.1[0] - y0;
            }
        }
        let scale = 1.0 + y0.abs();
        for k in 1..6 {
            let s: f64 = (0..3).map(|i| b[i] * c[i].powi(k - 1)).sum();
            g.holds((s * (k as f64) - 1.0).abs() < 1e-12 * scale, &format!("quadrature condition {}: {} {:?} {:?}", k, s, b, c))?;
        }
        for i in 0..3 {
            for k in 1..4 {
                let s: f64 = (0..3).map(|j| aa[i][j] * c[j].powi(k - 1)).sum();
                g.holds((s * (k as f64) - c[i].powi(k)).abs() < 1e-12 * scale, &format!("stage condition {} {}: {}", i, k, s))?;
            }
        }
        for j in 0..3 {
            g.holds((aa[2][j] - b[j]).abs() < 1e-12 * scale, "stiffly accurate")?;
        }
        g.same(c[0], (4.0 - 6f64.sqrt()) / 10.0, "first node")?;
        g.same(c[1], (4.0 + 6f64.sqrt()) / 10.0, "second node")?;
        g.same(c[2], 1.0, "third node")
    });
    cx.bounded("implicit three-stage method: stability function", |g| {
        // one step of y' = A y with A = [[a, -w], [w, a]]: y1 = R(h A) y0 exactly when the constants diagonalise the table
        let (a, w) = (-g.pos("a"), g.var("w") * 0.2);
        let h = 0.5;
        let (u, v) = (g.var("u"), g.var("v"));
        let mut params = Params::new(Method::Radau5);
        params.set_tolerances(1e-12, 1e-12, Some(1e-8))?;
        params.radau5.concurrent = g.flag("concurrent");
        let mut sys = System::new(2, move |f: &mut Vector, _x, y: &Vector, _: &mut u8| {
            f[0] = a * y[0] - w * y[1];
            f[1] = w * y[0] + a * y[1];
            Ok(())
        });
        sys.set_jacobian(Some(4), russell_sparse::Sym::No, move |jj, al, _x, _y, _: &mut u8| {
            jj.reset();
            jj.put(0, 0, al * a)?;
            jj.put(0, 1, -al * w)?;
            jj.put(1, 0, al * w)?;
            jj.put(1, 1, al * a)
        })?;
        let mut solver = OdeSolver::new(params, sys)?;
        let mut y = Vector::from(&[u, v]);
        solver.solve(&mut y, 0.0, h, Some(h), &mut 0, None)?;
        // R(z) = (1 + 2z/5 + z²/20) / (1 - 3z/5 + 3z²/20 - z³/60), complex arithmetic with z = h (a + i w)
        let mul = |p: (f64, f64), q: (f64, f64)| (p.0 * q.0 - p.1 * q.1, p.0 * q.1 + p.1 * q.0);
        let z = (h * a, h * w);
        let z2 = mul(z, z);
        let z3 = mul(z2, z);
        let num = (1.0 + 0.4 * z.0 + z2.0 / 20.0, 0.4 * z.1 + z2.1 / 20.0);
        let den = (1.0 - 0.6 * z.0 + 0.15 * z2.0 - z3.0 / 60.0, -0.6 * z.1 + 0.15 * z2.1 - z3.1 / 60.0);
        let d2 = den.0 * den.0 + den.1 * den.1;
        let r = mul(num, (den.0 / d2, -den.1 / d2));
        let e = mul(r, (u, v));
        let s = 1.0 + u.abs() + v.abs();
        g.holds((y[0] - e.0).abs() < 1e-10 * s && (y[1] - e.1).abs() < 1e-10 * s, &format!("step gives {:?} {:?}, stability function {:?}", y[0], y[1], e))
    });
    cx.bounded("implicit three-stage method: error estimate", |g| {
        // the estimate vanishes for polynomials up to degree three, and only for those
        let deg = g.choose("degree", 5) as i32;
        let (p, h) = (10.0 * g.pos("scale"), 1.0);
        let mut params = Params::new(Method::Radau5);
        params.set_tolerances(1e-6, 1e-6, None)?;
        params.step.h_ini = h;
        params.step.m_first_reject = 0.0;
        let mut sys = System::new(1, move |f: &mut Vector, x, _y: &Vector, a: &mut Log| {
            f[0] = 1e4 * p * (deg as f64) * f64::powi(x, deg - 1);
            a.calls.push((x, vec![]));
            Ok(())
        });
        sys.set_jacobian(Some(1), russell_sparse::Sym::No, |jj, al, _x, _y, _a: &mut Log| {
            jj.reset();
            jj.put(0, 0, al * 0.0)
        })?;
        let mut log = Log::new(1, vec![]);
        let mut solver = OdeSolver::new(params, sys)?;
        let mut y = Vector::new(1);
        let mut out = recorder();
        solver.solve(&mut y, 0.0, h, None, &mut log, Some(&mut out))?;
        let first = log.steps.len() == 2;
        if deg <= 3 {
            g.holds(first, &format!("degree {}: first attempt rejected", deg))
        } else {
            g.holds(!first, &format!("degree {}: error not seen", deg))
        }
    });
}
