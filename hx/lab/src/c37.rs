use hx_common::*;
use russell_lab::*;

fn arb(seed: u64, x: f64) -> f64 {
    let h = (x.to_bits() ^ seed).wrapping_mul(0x9E3779B97F4A7C15);
    ((h ^ (h >> 29)).wrapping_mul(0xBF58476D1CE4E5B9) >> 11) as f64 / (1u64 << 53) as f64
}

pub fn register(cx: &mut Ctx) {
    cx.cases_w("line_search", 2, |g| {
        let mut s = LineSearcher::new();
        s.c1 = *g.pick(&[1e-4, 0.1, 0.5, 0.9]);
        s.rho = *g.pick(&[0.5, 0.1, 0.9, 0.25]);
        s.min_alpha = *g.pick(&[1e-20, 1e-3, 0.3, 0.5]);
        s.max_iterations = g.usize(1, 30);
        let (x, p, fx, slope) = (g.range(-3.0, 3.0), g.range(-2.0, 2.0), g.range(0.0, 1.0), g.range(-2.0, -0.01));
        let kind = g.usize(0, 2);
        let seed = g.u64();
        let cur = g.range(0.0, 60.0);
        note!(g, "{:?} x {:?} p {:?} fx {:?} slope {:?} kind {} {:?}", s, x, p, fx, slope, kind, cur);
        let f = |t: f64| match kind {
            0 => arb(seed, t),
            _ => {
                let a = if p != 0.0 { (t - x) / p } else { 0.0 };
                fx + slope * a + cur * a * a
            }
        };
        let mut log = vec![];
        let r = s.search(x, p, fx, slope, &mut 0, |t, _: &mut NoArgs| {
            let v = f(t);
            log.push((t, v));
            Ok(v)
        });
        match r {
            Ok((a, n)) => {
                ck!(a <= 1.0 && a >= s.min_alpha, "step {:?} outside of the allowed range", a);
                ck!(n >= 1 && n <= s.max_iterations && n == log.len(), "{} iterations reported, {} evaluations", n, log.len());
                let l = log[log.len() - 1];
                ck!(l.0 == x + a * p, "step {:?} was not the last one evaluated ({:?})", a, l.0);
                ck!(l.1 <= fx + s.c1 * a * slope, "no sufficient decrease: {:?} > {:?}", l.1, fx + s.c1 * a * slope);
                let mut w = 1.0;
                for k in 0..n {
                    ck!(log[k].0 == x + w * p, "trial {} at {:?}, expected {:?}", k, log[k].0, x + w * p);
                    ck!(k + 1 == n || log[k].1 > fx + s.c1 * w * slope, "acceptable step {:?} skipped", w);
                    w *= s.rho;
                }
            }
            Err(_) => {
                let mut w = 1.0;
                for k in 0..s.max_iterations {
                    if w < s.min_alpha {
                        break;
                    }
                    ck!(f(x + w * p) > fx + s.c1 * w * slope, "refused although trial {} (step {:?}) has sufficient decrease", k, w);
                    w *= s.rho;
                }
            }
        }
        ck!(s.search(x, p, fx, 0.0, &mut 0, |_, _: &mut NoArgs| Ok(-1e9)).is_err() && s.search(x, p, fx, 1.0, &mut 0, |_, _: &mut NoArgs| Ok(-1e9)).is_err(), "ascent direction accepted");
        let ok = |_: f64, _: &mut NoArgs| Ok(-1e9);
        for (c1, rho, mi, it) in [(0.0, 0.5, 0.1, 5), (1.0, 0.5, 0.1, 5), (0.5, 0.0, 0.1, 5), (0.5, 1.0, 0.1, 5), (0.5, 0.5, 0.0, 5), (0.5, 0.5, 1.0, 5), (0.5, 0.5, 0.1, 0)] {
            let q = LineSearcher { c1, rho, min_alpha: mi, max_iterations: it };
            ck!(q.search(x, p, fx, slope, &mut 0, ok).is_err(), "invalid parameters {:?} accepted", q);
        }
        let a = line_search(x, p, fx, slope, &mut 0, |t, _: &mut NoArgs| Ok(f(t)));
        let b = line_search_with_stats(x, p, fx, slope, &mut 0, |t, _: &mut NoArgs| Ok(f(t)));
        ck!(a.is_ok() == b.is_ok() && (a.is_err() || a.unwrap() == b.unwrap().0), "the two entry points disagree");
        Ok(())
    });
    cx.cases_w("newton", 2, |g| {
        let n = g.usize(1, 4);
        let kind = g.usize(0, 3);
        let (c, q): (Vec<f64>, Vec<f64>) = ((0..n).map(|_| g.range(-2.0, 2.0)).collect(), (0..n).map(|_| g.range(-1.0, 1.0)).collect());
        let wrong = if g.chance(1, 3) { g.range(0.3, 3.0) } else { 1.0 };
        let mut s = NewtonSolver::new(n)?;
        let tol = *g.pick(&[1e-10, 1e-6, 1e-3, 1e-13]);
        s.set_tolerance(tol).set_max_iterations(g.usize(1, 40)).set_use_line_search(g.bool()).set_initial_alpha(*g.pick(&[1.0, 0.5, 2.0]));
        let x0: Vec<f64> = (0..n).map(|_| g.range(-3.0, 3.0)).collect();
        note!(g, "n {} kind {} c {:?} q {:?} jacobian factor {:?} tolerance {:?} start {:?}", n, kind, c, q, wrong, tol, x0);
        let f = |r: &mut Vector, x: &Vector| {
            for i in 0..n {
                let (u, v) = (x[i], x[(i + 1) % n]);
                r[i] = match kind {
                    0 => 3.0 * u + q[i] * v - c[i],
                    1 => u * u * u + u + q[i] * v - c[i],
                    2 => u * u + q[i] * v - c[i],
                    _ => u.exp() - 1.0 + q[i] * v * v - c[i],
                };
            }
        };
        let jac = |j: &mut Matrix, x: &Vector| {
            j.fill(0.0);
            for i in 0..n {
                let (u, v) = (x[i], x[(i + 1) % n]);
                let (du, dv) = match kind {
                    0 => (3.0, q[i]),
                    1 => (3.0 * u * u + 1.0, q[i]),
                    2 => (2.0 * u, q[i]),
                    _ => (u.exp(), 2.0 * q[i] * v),
                };
                j.add(i, i, du * wrong);
                j.add(i, (i + 1) % n, dv * wrong);
            }
        };
        let mut x = Vector::from(&x0);
        for round in 0..2 {
            let r = s.solve(&mut x, &mut 0, |r, x, _: &mut NoArgs| { f(r, x); Ok(()) }, |j, x, _: &mut NoArgs| { jac(j, x); Ok(()) });
            let mut res = Vector::new(n);
            f(&mut res, &x);
            let w = res.as_data().iter().fold(0.0, |a: f64, b| a.max(b.abs()));
            if r.is_ok() {
                ck!(w < tol, "solve {} returned a state with residual {:e}, tolerance {:e}", round, w, tol);
            } else if round == 1 {
                break;
            }
        }
        ck!(s.solve(&mut Vector::new(n + 1), &mut 0, |_, _, _: &mut NoArgs| Ok(()), |_, _, _: &mut NoArgs| Ok(())).is_err(), "wrong dimension accepted");
        let mut t = NewtonSolver::new(n)?;
        ck!(NewtonSolver::new(0).is_err() && t.set_max_iterations(0).solve(&mut x, &mut 0, |_, _, _: &mut NoArgs| Ok(()), |_, _, _: &mut NoArgs| Ok(())).is_err(), "invalid parameters accepted");
        Ok(())
    });
    cx.cases("linear_fit", |g| {
        let n = g.dim(1, 20);
        let zero = g.bool();
        let x: Vec<f64> = (0..n).map(|_| g.ival()).collect();
        let y: Vec<f64> = (0..n).map(|_| g.ival()).collect();
        note!(g, "x {:?} y {:?} through zero {}", x, y, zero);
        let (c, m) = linear_fitting(&x, &y, zero)?;
        let exact = x.iter().chain(y.iter()).all(|v| v.fract() == 0.0 && v.abs() < 1e4);
        let sc = x.iter().chain(y.iter()).map(|v| v.abs()).fold(1.0, f64::max);
        let all_eq = x.iter().all(|v| *v == x[0]);
        if (zero && x.iter().all(|v| *v == 0.0)) || (!zero && all_eq) {
            if exact {
                ck!(m.is_infinite(), "vertical data: slope {:?}", m);
            }
            return Ok(());
        }
        if !m.is_finite() && !exact {
            return Ok(());
        }
        // residuals orthogonal to 1 and x
        let (mut r0, mut r1) = (0.0, 0.0);
        for i in 0..n {
            let e = y[i] - (c + m * x[i]);
            r0 += e;
            r1 += e * x[i];
        }
        let nf = n as f64 * sc * sc * (1.0 + m.abs() + c.abs());
        ck!(!zero || c == 0.0, "constant {:?} for a line through zero", c);
        ck!(zero || r0.abs() < 1e-9 * nf, "sum of residuals {:e}", r0);
        ck!(r1.abs() < 1e-9 * nf, "residuals times x: {:e}", r1);
        ck!(linear_fitting(&x, &y[1..], zero).is_err(), "different lengths accepted");
        Ok(())
    });
    cx.cases("difference_quotients", |g| {
        let d = g.usize(0, 4);
        let c: Vec<f64> = (0..=d).map(|_| g.range(-3.0, 3.0)).collect();
        let x = g.range(-2.0, 2.0);
        note!(g, "polynomial {:?} at {:?}", c, x);
        let f = |t: f64, _: &mut NoArgs| Ok(c.iter().rev().fold(0.0, |s, k| s * t + k));
        let d1: f64 = (1..=d).map(|k| k as f64 * c[k] * x.powi(k as i32 - 1)).sum();
        let d2: f64 = (2..=d).map(|k| (k * (k - 1)) as f64 * c[k] * x.powi(k as i32 - 2)).sum();
        let sc = 1.0 + c.iter().map(|v| v.abs()).sum::<f64>() * 16.0;
        for (what, v, w, tol) in [
            ("central", deriv1_central5(x, &mut 0, f)?, d1, 1e-8),
            ("forward", deriv1_forward7(x, &mut 0, f)?, d1, 1e-9),
            ("backward", deriv1_backward7(x, &mut 0, f)?, d1, 1e-9),
            ("second central", deriv2_central9(x, &mut 0, f)?, d2, 1e-6),
            ("second forward", deriv2_forward8(x, &mut 0, f)?, d2, 1e-6),
            ("second backward", deriv2_backward8(x, &mut 0, f)?, d2, 1e-6),
        ] {
            ck!((v - w).abs() < tol * sc, "{} derivative is {:?}, expected {:?}", what, v, w);
        }
        let n = g.usize(1, 4);
        let (a, al) = (Matrix::initialized(n, n, |_, _| g.range(-2.0, 2.0)), g.range(-2.0, 2.0));
        let y = Vector::initialized(n, |_| g.range(-2.0, 2.0));
        let j = num_jacobian(n, 0.7, &y, al, &mut 0, |r: &mut Vector, t: f64, y: &Vector, _: &mut NoArgs| {
            for i in 0..n {
                r[i] = t + (0..n).map(|k| a.get(i, k) * y[k] * y[(k + 1) % n]).sum::<f64>();
            }
            Ok(())
        })?;
        for i in 0..n {
            for k in 0..n {
                let prev = (k + n - 1) % n;
                let w = al * (a.get(i, k) * y[(k + 1) % n] + a.get(i, prev) * y[prev]);
                ck!((j.get(i, k) - w).abs() < 1e-7, "Jacobian ({},{}) is {:?}, expected {:?}", i, k, j.get(i, k), w);
            }
        }
        Ok(())
    });
    cx.cases("cubic", |g| {
        let r: Vec<f64> = (0..3).map(|_| g.int(-6, 6) as f64 / *g.pick(&[1.0, 2.0])).collect();
        let a = *g.pick(&[1.0, -2.0, 0.5]);
        note!(g, "roots {:?} leading {:?}", r, a);
        let one = g.bool();
        if !one && (r[0] == r[1] || r[0] == r[2] || r[1] == r[2]) {
            return Ok(()); // multiple roots are not resolved to the last bit
        }
        // three real roots, or one real root and a complex pair p +- iq
        let (p, q) = (r[1], 1.0 + r[2].abs());
        let (b, c, d) = if one {
            (-a * (r[0] + 2.0 * p), a * (2.0 * p * r[0] + p * p + q * q), -a * r[0] * (p * p + q * q))
        } else {
            (-a * (r[0] + r[1] + r[2]), a * (r[0] * r[1] + r[0] * r[2] + r[1] * r[2]), -a * r[0] * r[1] * r[2])
        };
        let x = solve_cubic(a, b, c, d)?;
        let mut w = if one { vec![r[0]] } else { r.clone() };
        w.sort_by(|a, b| a.partial_cmp(b).unwrap());
        ck!(x.len() == w.len(), "roots {:?}, expected {:?}", x, w);
        for i in 0..w.len() {
            ck!((x[i] - w[i]).abs() < 1e-5, "roots {:?}, expected {:?}", x, w);
        }
        Ok(())
    });
}
