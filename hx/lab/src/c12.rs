use hx_common::*;
use russell_lab::*;

fn fun(kind: usize, m: f64, s: f64, t: f64, x: f64) -> f64 {
    let d = x - m;
    match kind {
        0 => s * d * d,
        1 => s * d.abs(),
        2 => s * d.powi(4),
        3 => s * (d.abs() + d * d) * if d < 0.0 { 1.0 } else { t },
        4 => s * (d * d).sqrt().sqrt(),
        5 => s * (2.0 * d).sin() + 0.3 * d * d,
        6 => (s * d).cos() + t * (3.0 * d).sin(),
        7 => (d * 10.0).floor() * if d < 0.0 { -1.0 } else { 1.0 }, // plateaus
        8 => s * d,
        _ => ((x * 1000.0).to_bits() >> 20) as f64 % 17.0, // arbitrary
    }
}

pub fn register(cx: &mut Ctx) {
    cx.cases_w("bracketing", 2, |g| {
        let kind = g.usize(0, 9);
        let (m, s, t) = (g.range(-20.0, 20.0), g.range(0.1, 5.0), g.range(0.2, 4.0));
        let x0 = g.range(-30.0, 30.0);
        let mut sv = MinBracketing::new();
        if g.bool() {
            sv.initial_step = *g.pick(&[1e-3, 0.1, 1.0, -0.5, 5.0]);
            sv.expansion_factor = *g.pick(&[1.5, 2.0, 3.0, 1.1]);
            sv.n_iteration_max = g.usize(2, 60);
        }
        note!(g, "kind {} m {:?} s {:?} t {:?} start {:?} step {:?} factor {:?} max {}", kind, m, s, t, x0, sv.initial_step, sv.expansion_factor, sv.n_iteration_max);
        let r = sv.basic(x0, &mut 0, |x, _: &mut NoArgs| Ok(fun(kind, m, s, t, x)));
        if let Ok(b) = r {
            ck!(b.a < b.xo && b.xo < b.b, "not ordered: {:?}", b);
            ck!(b.fxo <= b.fa && b.fxo <= b.fb, "middle value above an end: {:?}", b);
            let f = |x| fun(kind, m, s, t, x);
            ck!(b.fa == f(b.a) && b.fxo == f(b.xo) && b.fb == f(b.b), "values {:?} are not the function {:?} {:?} {:?}", b, f(b.a), f(b.xo), f(b.b));
            if kind <= 4 {
                ck!(b.a <= m && m <= b.b, "minimum {:?} of a unimodal function not inside {:?}", m, b);
            }
        } else {
            ck!(kind >= 5 || sv.n_iteration_max < 60 || sv.expansion_factor < 1.2, "no bracket found for a unimodal function: {:?}", r.err());
        }
        sv.n_iteration_max = 1;
        ck!(sv.basic(x0, &mut 0, |x, _: &mut NoArgs| Ok(x)).is_err(), "invalid parameter accepted");
        Ok(())
    });
    cx.cases_w("minimiser", 3, |g| {
        let kind = g.usize(0, 9);
        let (a, len) = (g.range(-10.0, 10.0), g.range(0.01, 20.0));
        let b = a + len;
        let m = if g.chance(1, 5) { g.range(a - 1.0, b + 1.0) } else { g.range(a, b) };
        let (s, t) = (g.range(0.1, 5.0), g.range(0.2, 4.0));
        let mut sv = MinSolver::new();
        sv.tolerance = *g.pick(&[1e-10, 1e-8, 1e-4, 1e-14]);
        let flip = g.bool();
        note!(g, "kind {} on {:?}..{:?} m {:?} s {:?} t {:?} tolerance {:?} flip {}", kind, a, b, m, s, t, sv.tolerance, flip);
        let mut log = vec![];
        let (p, q) = if flip { (b, a) } else { (a, b) };
        let r = sv.brent(p, q, &mut 0, |x, _: &mut NoArgs| {
            let v = fun(kind, m, s, t, x);
            log.push((x, v));
            Ok(v)
        });
        for (x, _) in &log {
            ck!(*x >= a && *x <= b, "evaluated at {:?}, outside of [{:?},{:?}]", x, a, b);
        }
        match r {
            Ok(x) => {
                ck!(x >= a && x <= b, "{:?} outside of [{:?},{:?}]", x, a, b);
                let v = fun(kind, m, s, t, x);
                ck!(log.iter().any(|l| l.0 == x), "returned point was never evaluated");
                for l in &log {
                    ck!(v <= l.1, "returned value {:?} at {:?} is above {:?} found at {:?}", v, x, l.1, l.0);
                }
                if kind <= 4 && kind != 2 {
                    let mm = m.max(a).min(b);
                    let tol = 3.0 * (1.5e-8 * (x.abs() + 1e-12) + sv.tolerance / 3.0) + 1e-15;
                    ck!((x - mm).abs() <= tol, "minimiser of a unimodal function is {:?}, returned {:?} (tolerance {:e})", mm, x, tol);
                }
            }
            Err(e) => ck!(kind >= 1, "no minimum returned: {}", e),
        }
        let mut bad = MinSolver::new();
        bad.tolerance = 1e-16;
        ck!(bad.brent(a, b, &mut 0, |x, _: &mut NoArgs| Ok(x * x)).is_err() && MinSolver::new().brent(a, a, &mut 0, |x, _: &mut NoArgs| Ok(x * x)).is_err(), "invalid arguments accepted");
        Ok(())
    });
    cx.cases("function_error_is_passed_on", |g| {
        let at = g.usize(0, 8);
        let m = g.range(-3.0, 3.0);
        note!(g, "failing at call {}", at);
        for which in 0..2 {
            let mut n = 0;
            let f = |x: f64, _: &mut NoArgs| {
                n += 1;
                if n - 1 == at {
                    return Err("stop here");
                }
                Ok((x - m) * (x - m))
            };
            let e = if which == 0 { MinBracketing::new().basic(0.0, &mut 0, f).err() } else { MinSolver::new().brent(-4.0, 5.0, &mut 0, f).err() };
            if n > at {
                ck!(e == Some("stop here"), "error of the function lost: {:?}", e);
            }
        }
        Ok(())
    });
}
