use hx_common::*;
use russell_lab::Vector;
use russell_nonlin::*;
use russell_sparse::Sym;

/// one prescribed iteration: residual and correction to be obtained from it
#[derive(Clone)]
struct Item {
    r: Vec<f64>,
    d: Vec<f64>,
}

struct Script {
    items: Vec<Item>,
    ngg: usize,
    njac: usize,
}

const BAD: [f64; 3] = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY];

fn size(g: &mut Gen) -> f64 {
    g.range(1.0, 9.0) * f64::powi(10.0, g.int(-13, 3) as i32)
}

fn vector(g: &mut Gen, n: usize, s: f64) -> Vec<f64> {
    let big = g.usize(0, n - 1);
    (0..n).map(|i| (if i == big { s } else { s * g.range(0.001, 0.999) }) * if g.bool() { 1.0 } else { -1.0 }).collect()
}

fn maxabs(v: &[f64]) -> f64 {
    v.iter().fold(0.0, |a: f64, x| if x.is_nan() || a.is_nan() { f64::NAN } else { a.max(x.abs()) })
}

#[derive(Clone, Copy, Debug)]
struct Par {
    n: usize,
    tol_r: f64,
    tol_a: f64,
    tol_rel: f64,
    allowed: f64,
    nit: usize,
    ncr: usize,
    ncd: usize,
    off: bool,
}

enum Out {
    Accepted,
    Failed(Status),
    Unclear,
    Exhausted,
}

/// what one step must do, read off the prescribed iterations from position k on
fn one_step(p: &Par, items: &[Item], k: &mut usize, u: &mut Vec<f64>, clean: &mut bool) -> Out {
    let u0 = u.clone();
    let mut v = u.clone();
    let (mut rp, mut dp) = (0.0, 0.0);
    let (mut rg, mut dg) = (0, 0); // lengths of the current runs of growth
    let (mut nr, mut nd) = (0, 0);
    for it in 0..p.nit {
        if *k >= items.len() {
            return Out::Exhausted;
        }
        let x = &items[*k];
        *k += 1;
        let r = maxabs(&x.r);
        if !r.is_finite() {
            return Out::Failed(Status::NanOrInfResidual);
        }
        if r < p.tol_r {
            *u = v;
            return Out::Accepted;
        }
        rg = if it > 0 && r > rp { rg + 1 } else { 0 };
        if rg >= 2 {
            nr += 1;
        }
        rp = r;
        if !p.off {
            let d = maxabs(&x.d);
            if !d.is_finite() {
                return Out::Failed(Status::NanOrInfDelta);
            }
            let s: f64 = (0..p.n).map(|i| (x.d[i] / (p.tol_a + p.tol_rel * u0[i].abs())).powi(2)).sum();
            let rms = (s / p.n as f64).sqrt();
            if rms <= 1.0 {
                if rms > 1.0 - 1e-7 && rms != 1.0 {
                    return Out::Unclear;
                }
                *u = v;
                *clean = false; // the last correction may be left out
                return Out::Accepted;
            }
            if rms < 1.0 + 1e-7 {
                return Out::Unclear;
            }
            if it > 0 && (d - dp).abs() <= 1e-7 * d {
                return Out::Unclear;
            }
            dg = if it > 0 && d > dp { dg + 1 } else { 0 };
            if dg >= 2 {
                nd += 1;
            }
            dp = d;
            if (d - p.allowed).abs() <= 1e-7 * d {
                return Out::Unclear;
            }
            if d > p.allowed {
                return Out::Failed(Status::LargeDelta);
            }
        }
        if nr >= p.ncr {
            return Out::Failed(Status::ContinuedResidualDivergence);
        }
        if nd >= p.ncd {
            return Out::Failed(Status::ContinuedDeltaDivergence);
        }
        if it == p.nit - 1 {
            return Out::Failed(Status::ReachedMaxIterations);
        }
        for i in 0..p.n {
            v[i] += x.d[i];
        }
    }
    Out::Exhausted
}

fn scripted(g: &mut Gen, auto: bool) -> Res {
    let n = g.usize(1, 4);
    let mut c = Config::new();
    let tol_r = f64::powi(2.0, -g.int(10, 39) as i32);
    let tol_a = f64::powi(2.0, -g.int(10, 39) as i32);
    let tol_rel = if g.bool() { f64::powi(10.0, -g.int(2, 9) as i32) } else { f64::powi(2.0, -g.int(10, 39) as i32) };
    let p = Par {
        n,
        tol_r,
        tol_a,
        tol_rel,
        allowed: if g.bool() { 1e8 } else { size(g).max(1e-3) },
        nit: g.usize(2, 12),
        ncr: g.usize(1, 4),
        ncd: g.usize(1, 4),
        off: g.chance(1, 6),
    };
    let nfail = g.usize(1, 4);
    c.set_method(Method::Natural).set_euler_predictor(false).set_tol_abs_residual(tol_r).set_tol_delta(tol_a, tol_rel).set_delta_max_allowed(p.allowed);
    c.set_n_iteration_max(p.nit).set_n_cont_residual_divergence_max(p.ncr).set_n_cont_delta_divergence_max(p.ncd);
    c.set_disable_rel_delta_analysis(p.off).set_n_cont_failure_max(nfail);
    let steps = g.usize(1, 4);
    let u0: Vec<f64> = (0..n).map(|_| if g.bool() { 0.0 } else { g.rval() }).collect();
    // prescribed iterations
    let style = g.usize(0, 3);
    let mut items = vec![];
    let (mut sr, mut sd) = (size(g).max(tol_r), size(g));
    let len = p.nit * (steps + 1) * if auto { 1 + nfail } else { 1 };
    for _ in 0..len {
        match style {
            0 => (sr, sd) = (size(g), size(g)),
            1 => {
                sr *= if g.chance(2, 3) { g.range(1.1, 3.0) } else { g.range(0.01, 0.9) };
                sd *= if g.chance(1, 2) { g.range(1.1, 3.0) } else { g.range(0.01, 0.9) };
            }
            2 => {
                sr *= if g.chance(1, 2) { g.range(1.1, 3.0) } else { g.range(0.1, 0.9) };
                sd *= if g.chance(2, 3) { g.range(1.1, 3.0) } else { g.range(0.1, 0.9) };
            }
            _ => {
                sr *= g.range(1e-4, 0.9);
                sd *= g.range(1e-4, 0.9);
            }
        }
        if !(1e-25..1e25).contains(&sr) || !(1e-25..1e25).contains(&sd) {
            (sr, sd) = (size(g), size(g));
        }
        let mut r = vector(g, n, sr);
        let mut d = vector(g, n, sd);
        match g.usize(0, 23) {
            0 => {
                // exactly at the tolerance of the residual
                r = vector(g, n, tol_r);
            }
            1 => {
                // exactly at the tolerance of the correction
                if n == 1 && u0[0] == 0.0 {
                    d = vec![tol_a];
                    r = vec![f64::powi(2.0, g.int(-3, 9) as i32).max(2.0 * tol_r)];
                }
            }
            2 => {
                if g.chance(1, 3) {
                    let i = g.usize(0, n - 1);
                    r[i] = *g.pick(&BAD);
                }
            }
            3 => {
                if g.chance(1, 3) {
                    // a correction out of the range of the machine numbers
                    let i = g.usize(0, n - 1);
                    r[i] = 1e300;
                    d[i] = f64::INFINITY;
                }
            }
            _ => (),
        }
        items.push(Item { r, d });
    }
    note!(g, "{:?} auto={} nfail={} steps={} u0={:?}", p, auto, nfail, steps, u0);
    // what must happen
    let mut k = 0;
    let mut u = u0.clone();
    let mut clean = true;
    let mut want = Status::Success;
    let (mut acc, mut rej, mut fails) = (0, 0, 0);
    loop {
        match one_step(&p, &items, &mut k, &mut u, &mut clean) {
            Out::Unclear | Out::Exhausted => return Ok(()),
            Out::Accepted => {
                acc += 1;
                fails = 0;
                if acc == steps {
                    break;
                }
            }
            Out::Failed(s) => {
                if !auto || matches!(s, Status::NanOrInfResidual | Status::NanOrInfDelta) {
                    want = s;
                    break;
                }
                fails += 1;
                if fails >= nfail {
                    want = Status::ContinuedFailure;
                    break;
                }
                rej += 1;
                if rej > 20 {
                    return Ok(());
                }
            }
        }
    }
    note!(g, "iterations {:?}", items[..k].iter().map(|x| (x.r.clone(), x.d.clone())).collect::<Vec<_>>());
    // run
    let system = System::new(
        n,
        Some(n),
        Sym::No,
        |gg: &mut Vector, _l: f64, _u: &Vector, s: &mut Script| {
            if s.ngg >= s.items.len() {
                return Err("script exhausted");
            }
            let x = &s.items[s.ngg];
            for i in 0..x.r.len() {
                gg[i] = x.r[i];
            }
            s.ngg += 1;
            Ok(())
        },
        |ggu, _ggl: &mut Vector, _l: f64, _u: &Vector, s: &mut Script| {
            let x = &s.items[s.ngg - 1];
            for i in 0..x.r.len() {
                // the correction is minus residual over coefficient
                let a = if x.d[i].is_infinite() { 1e-300 } else { -x.r[i] / x.d[i] };
                ggu.put(i, i, a)?;
            }
            s.njac += 1;
            Ok(())
        },
    )
    .unwrap();
    let mut script = Script { items: items.clone(), ngg: 0, njac: 0 };
    let mut solver = Solver::new(&c, system).unwrap();
    let mut uu = Vector::from(&u0);
    let mut l = 0.0;
    let ddl = if auto { DeltaLambda::auto(0.5) } else { DeltaLambda::constant(0.5) };
    let got = solver.solve(&mut script, &mut uu, &mut l, IniDir::Pos, Stop::Steps(steps), &ddl, None);
    let got = match got {
        Ok(s) => s,
        Err(e) => {
            // the linear solver may refuse a correction out of range
            if want == Status::NanOrInfDelta || p.off {
                return Ok(());
            }
            return Err(format!("error {:?}; expected {:?}", e, want));
        }
    };
    ck!(got == want, "status {:?} instead of {:?} (after {} of {} evaluations)", got, want, script.ngg, k);
    ck!(script.ngg == k, "{} evaluations instead of {}", script.ngg, k);
    let st = solver.get_stats();
    ck!(st.n_accepted == acc, "{} accepted steps instead of {}", st.n_accepted, acc);
    ck!(st.n_iteration_total == k, "{} iterations instead of {}", st.n_iteration_total, k);
    if !auto {
        ck!(close(l, 0.5 * acc as f64, 1e-14), "parameter {:?} after {} steps of 0.5", l, acc);
    } else {
        ck!(st.n_rejected == rej, "{} rejected steps instead of {}", st.n_rejected, rej);
    }
    let big = items[..k].iter().map(|x| maxabs(&x.d)).filter(|x| x.is_finite()).fold(1.0, f64::max);
    for i in 0..n {
        let t = 1e-9 * big + if clean { 0.0 } else { 2.0 * steps as f64 * (n as f64).sqrt() * (tol_a + tol_rel * (u[i].abs() + big)) };
        ck!((uu[i] - u[i]).abs() <= t, "component {} is {:?} instead of {:?} after {} accepted steps", i, uu[i], u[i], acc);
    }
    Ok(())
}

/// equations with a restricted domain: leaving the domain gives numbers that are not finite
fn domain(g: &mut Gen) -> Res {
    let n = g.usize(1, 3);
    let bad = g.usize(0, n - 1);
    let edge = g.range(0.3, 2.0);
    let kind = g.usize(0, 2);
    let arc = g.bool();
    let border = g.bool();
    note!(g, "n={} component {} leaves its domain at {:?} kind {} arclength {} bordering {}", n, bad, edge, kind, arc, border);
    let mut c = Config::new();
    c.set_method(if arc { Method::Arclength } else { Method::Natural }).set_bordering(border);
    let system = System::new(
        n,
        Some(n),
        Sym::No,
        move |gg: &mut Vector, l: f64, u: &Vector, _a: &mut NoArgs| {
            for i in 0..gg.dim() {
                gg[i] = u[i] - l;
            }
            if l > edge {
                gg[bad] = BAD[kind];
            }
            Ok(())
        },
        move |ggu, ggl: &mut Vector, _l: f64, u: &Vector, _a: &mut NoArgs| {
            for i in 0..u.dim() {
                ggu.put(i, i, 1.0)?;
                ggl[i] = -1.0;
            }
            Ok(())
        },
    )
    .unwrap();
    let mut solver = Solver::new(&c, system).unwrap();
    let mut u = Vector::new(n);
    let mut l = 0.0;
    let ddl = g.range(0.05, 0.2);
    let d = if g.bool() { DeltaLambda::auto(ddl) } else { DeltaLambda::constant(ddl) };
    let s = solver.solve(&mut 0, &mut u, &mut l, IniDir::Pos, Stop::MaxLambda(3.0), &d, None);
    ck!(l <= edge, "the parameter {:?} is accepted although the residual is not finite beyond {:?} (status {:?})", l, edge, s);
    match s {
        Ok(s) => ck!(s == Status::NanOrInfResidual, "status {:?} for a residual that is not finite", s),
        Err(_) => (),
    }
    for i in 0..n {
        ck!((u[i] - l).abs() < 1e-8, "component {} is {:?} at {:?}", i, u[i], l);
    }
    Ok(())
}

pub fn register(cx: &mut Ctx) {
    cx.cases_w("fixed_steps", 3, |g| scripted(g, false));
    cx.cases_w("automatic_steps", 3, |g| scripted(g, true));
    cx.cases("restricted_domain", domain);
}
