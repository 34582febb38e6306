use hx_common::*;
use russell_lab::{Norm, Vector};
use russell_nonlin::*;
use russell_sparse::Sym;

/// family of equations with smooth branches through (u0, l0)
#[derive(Clone, Debug)]
struct Prob {
    kind: usize,
    n: usize,
    a: Vec<f64>,
    b: Vec<f64>,
    calls: usize,
}

impl Prob {
    /// residual of equation i
    fn g(&self, i: usize, u: &[f64], l: f64) -> f64 {
        let (a, b) = (self.a[i], self.b[i]);
        match self.kind {
            0 => a * u[i] - b * l,                                              // lines
            1 => u[i] * u[i] * u[i] + a * u[i] - b * l,                         // monotone cubic
            2 => u[i] * u[i] * u[i] - a * u[i] * 0.5 - b * l - 1.0,             // cubic with folds
            3 => u[i] * u[i] + l * l - 1.0,                                     // circle
            4 => a * u[i] + 0.3 * (u[(i + 1) % self.n] - l).sin() - b * l,      // coupled
            5 => (u[i]).exp() - 1.0 - b * l,                                    // logarithm
            6 => a * u[i] - b * (3.0 * l).tanh() - 0.2 * l,                     // turn of the branch
            _ => u[i] - (1.0 - a * 0.1) * u[i] * u[i] * 0.1 - b * l,            // parabola with a fold
        }
    }
    fn du(&self, i: usize, j: usize, u: &[f64], l: f64) -> f64 {
        let (a, _b) = (self.a[i], self.b[i]);
        let diag = i == j;
        match self.kind {
            4 => (if diag { a } else { 0.0 }) + if j == (i + 1) % self.n { 0.3 * (u[j] - l).cos() } else { 0.0 },
            _ if !diag => 0.0,
            0 | 6 => a,
            1 => 3.0 * u[i] * u[i] + a,
            2 => 3.0 * u[i] * u[i] - a * 0.5,
            3 => 2.0 * u[i],
            5 => u[i].exp(),
            _ => 1.0 - 2.0 * (1.0 - a * 0.1) * u[i] * 0.1,
        }
    }
    fn dl(&self, i: usize, u: &[f64], l: f64) -> f64 {
        let b = self.b[i];
        match self.kind {
            3 => 2.0 * l,
            4 => -0.3 * (u[(i + 1) % self.n] - l).cos() - b,
            6 => -3.0 * b / (3.0 * l).cosh().powi(2) - 0.2,
            _ => -b,
        }
    }
    /// starting parameter and a first guess
    fn start(&self, g: &mut Gen) -> (Vec<f64>, f64) {
        let mut l = match self.kind {
            3 => g.range(-0.6, 0.6),
            5 => g.range(-0.1, 0.5),
            2 => g.range(-0.4, 0.4),
            _ => g.range(-1.0, 1.0),
        };
        if l == 0.0 {
            l = 0.125;
        }
        let mut u: Vec<f64> = (0..self.n).map(|_| if self.kind == 2 { 1.5 } else if self.kind == 3 { 1.0 } else { 0.0 }).collect();
        // dense Newton of the harness
        for _ in 0..60 {
            let r: Vec<f64> = (0..self.n).map(|i| self.g(i, &u, l)).collect();
            let n = self.n;
            let mut m: Vec<Vec<f64>> = (0..n).map(|i| (0..n).map(|j| self.du(i, j, &u, l)).chain([r[i]]).collect()).collect();
            for c in 0..n {
                let p = (c..n).max_by(|x, y| m[*x][c].abs().partial_cmp(&m[*y][c].abs()).unwrap()).unwrap();
                m.swap(c, p);
                for i in 0..n {
                    if i != c {
                        let f = m[i][c] / m[c][c];
                        for k in c..=n {
                            m[i][k] -= f * m[c][k];
                        }
                    }
                }
            }
            for i in 0..n {
                u[i] -= m[i][n] / m[i][i];
            }
        }
        (u, l)
    }
    fn residual(&self, u: &[f64], l: f64) -> f64 {
        (0..self.n).map(|i| self.g(i, u, l).abs()).fold(0.0, |a, x| if x.is_nan() { f64::INFINITY } else { a.max(x) })
    }
    fn slope(&self, u: &[f64], l: f64) -> f64 {
        let mut s = 0.0;
        for i in 0..self.n {
            let r: f64 = (0..self.n).map(|j| self.du(i, j, u, l).abs()).sum::<f64>() + self.dl(i, u, l).abs();
            s = f64::max(s, r);
        }
        s
    }
}

fn problem(g: &mut Gen) -> Prob {
    let kind = g.usize(0, 7);
    let n = match kind {
        4 => g.usize(2, 4),
        2 | 3 | 7 => 1,
        _ => g.usize(1, 3),
    };
    Prob {
        kind,
        n,
        a: (0..n).map(|_| g.range(0.5, 2.0)).collect(),
        b: (0..n).map(|_| g.range(0.3, 2.0) * if kind != 5 && kind != 2 && g.bool() { -1.0 } else { 1.0 }).collect(),
        calls: 0,
    }
}

fn system<'a>(n: usize) -> System<'a, Prob> {
    System::new(
        n,
        Some(n * n),
        Sym::No,
        |gg: &mut Vector, l: f64, u: &Vector, p: &mut Prob| {
            p.calls += 1;
            if p.calls > 400_000 {
                return Err("too many calls");
            }
            for i in 0..p.n {
                gg[i] = p.g(i, u.as_data(), l);
            }
            Ok(())
        },
        |ggu, ggl: &mut Vector, l: f64, u: &Vector, p: &mut Prob| {
            for i in 0..p.n {
                for j in 0..p.n {
                    let x = p.du(i, j, u.as_data(), l);
                    if x != 0.0 {
                        ggu.put(i, j, x)?;
                    }
                }
                ggl[i] = p.dl(i, u.as_data(), l);
            }
            Ok(())
        },
    )
    .unwrap()
}

fn norm(u: &[f64], k: usize, b: usize, e: usize) -> f64 {
    let v = &u[b..e];
    match k {
        0 => v.iter().map(|x| x * x).sum::<f64>().sqrt(),
        1 => v.iter().map(|x| x.abs()).sum(),
        _ => v.iter().fold(0.0, |a: f64, x| a.max(x.abs())),
    }
}

fn runs(g: &mut Gen) -> Res {
    let p = problem(g);
    let n = p.n;
    let (u0, l0) = p.start(g);
    if p.residual(&u0, l0) > 1e-11 || u0.iter().any(|x| x.abs() > 20.0) {
        return Ok(());
    }
    let mut c = Config::new();
    let arc = g.bool();
    c.set_method(if arc { Method::Arclength } else { Method::Natural });
    c.set_bordering(g.bool()).set_euler_predictor(g.bool());
    if g.bool() {
        c.set_n_iteration_max(g.usize(2, 8));
    }
    if g.chance(1, 3) {
        c.set_delta_max_allowed(g.range(0.01, 0.5));
    }
    if g.chance(1, 4) {
        c.set_m_failure(g.range(0.1, 0.9));
    }
    if g.chance(1, 4) {
        c.set_n_cont_failure_max(g.usize(1, 12));
    }
    if g.chance(1, 4) {
        c.set_tg_control_tol(g.range(0.01, 0.5));
    }
    if g.chance(1, 4) {
        c.set_disable_rel_delta_analysis(true);
    }
    let nmax = if g.chance(1, 8) { g.usize(1, 5) } else { 300 };
    c.set_n_step_max(nmax);
    let precise = g.bool();
    c.set_enable_precise_stop_u_comp(precise);
    let ddl = *g.pick(&[0.02, 0.05, 0.1, 0.3, 0.7]) * g.range(0.7, 1.4);
    let (mode, d, listlen) = match g.usize(0, 3) {
        0 => ("constant", DeltaLambda::constant(ddl), 0),
        1 => {
            let v: Vec<f64> = (0..g.usize(1, 30)).map(|_| ddl * g.range(0.3, 1.3)).collect();
            ("list", DeltaLambda::list(&v), v.len())
        }
        _ => ("auto", DeltaLambda::auto(ddl), 0),
    };
    let budget = if listlen > 0 { listlen } else { nmax };
    // targets
    let dir_up = g.bool();
    let reach = *g.pick(&[0.01, 0.1, 0.5, 1.0, 2.0]) * g.range(0.5, 1.5);
    let i = g.usize(0, n - 1);
    let (bb, ee) = {
        let b = g.usize(0, n - 1);
        (b, g.usize(b + 1, n))
    };
    let nk = g.usize(0, 2);
    let nt = [Norm::Euc, Norm::One, Norm::Max][nk];
    let steps = g.usize(1, 12);
    let stop = match g.usize(0, 6) {
        0 => Stop::MinLambda(l0 - reach),
        1 => Stop::MaxLambda(l0 + reach),
        2 => Stop::MinCompU(i, u0[i] - reach),
        3 => Stop::MaxCompU(i, u0[i] + reach),
        4 => Stop::MaxNormU(norm(&u0, nk, bb, ee) + reach, nt, bb, ee),
        5 => Stop::Steps(steps),
        _ => {
            if dir_up {
                Stop::MaxLambda(l0 + reach)
            } else {
                Stop::MinLambda(l0 - reach)
            }
        }
    };
    note!(g, "{:?} at {:?} {:?} {} dir_up={} stop {:?} {} ddl={:?} list={} n_step_max={} precise={}", p, u0, l0, if arc { "arclength" } else { "natural" }, dir_up, stop, mode, ddl, listlen, nmax, precise);
    note!(g, "bordering {:?} n_iteration_max {:?} allowed {:?} m_failure {:?} fail_max {:?} tg_tol {:?}", c.get_bordering(), c.get_n_iteration_max(), c.get_delta_max_allowed(), c.get_m_failure(), c.get_n_cont_failure_max(), c.get_tg_control_tol());
    let mut args = p.clone();
    let mut solver = Solver::new(&c, system(n)).unwrap();
    let repeat = g.chance(1, 5);
    for round in 0..1 + repeat as usize {
        let mut u = Vector::from(&u0);
        let mut l = l0;
        let mut out = Output::new();
        let comps: Vec<usize> = (0..n).collect();
        out.set_recording(true, &comps, &[]);
        args.calls = 0;
        let r = solver.solve(&mut args, &mut u, &mut l, if dir_up { IniDir::Pos } else { IniDir::Neg }, stop, &d, Some(&mut out));
        let s = solver.get_stats();
        let ll = out.get_l_values().clone();
        let uu: Vec<Vec<f64>> = (0..ll.len()).map(|k| (0..n).map(|j| out.get_u_values(j)[k]).collect()).collect();
        let r = match r {
            Ok(r) => r,
            Err(e) => {
                // the linear solver may meet a singular matrix near folds
                if e == "too many calls" {
                    return Err(format!("the run does not end: {} steps", s.n_steps));
                }
                return Ok(());
            }
        };
        // records
        ck!(ll.len() == s.n_accepted + 1, "{} records for {} accepted steps", ll.len(), s.n_accepted);
        ck!(ll[0] == l0 && uu[0] == u0, "the first record is not the start");
        let last = ll.len() - 1;
        ck!(ll[last] == l, "parameter {:?} differs from the last accepted one {:?} (status {:?})", l, ll[last], r);
        ck!(uu[last] == u.as_data().to_vec(), "state {:?} differs from the last accepted one {:?} (status {:?})", u.as_data(), uu[last], r);
        if round == 0 {
            note!(g, "{:?} accepted {} rejected {} l={:?} u={:?}", r, s.n_accepted, s.n_rejected, l, u.as_data());
        }
        // accepted points solve the equations
        for k in 1..ll.len() {
            let scale = uu[k - 1].iter().chain(uu[k].iter()).fold(ll[k - 1].abs().max(ll[k].abs()), |a, x| a.max(x.abs()));
            let t = c.get_tol_abs_residual()
                + if c.get_disable_rel_delta_analysis() { 0.0 } else { 2.0 * p.slope(&uu[k], ll[k]) * ((n + 1) as f64).sqrt() * (c.get_tol_abs_delta() + c.get_tol_rel_delta() * scale) };
            let res = p.residual(&uu[k], ll[k]);
            ck!(res <= t, "accepted point {} of {} has the residual {:?} (tolerance {:?}, status {:?})", k, last, res, t, r);
        }
        if !arc {
            for k in 1..ll.len() {
                let t = 1e-12 * (1.0 + ll[k].abs());
                ck!(if dir_up { ll[k] >= ll[k - 1] - t } else { ll[k] <= ll[k - 1] + t }, "the parameter goes from {:?} to {:?} against the direction", ll[k - 1], ll[k]);
            }
        }
        let within = s.n_steps < budget;
        // targets
        let tol = if arc { 1e-6 } else { 1.01e-10 };
        let ok = r == Status::Success;
        match stop {
            Stop::MinLambda(t) | Stop::MaxLambda(t) => {
                let sg = if matches!(stop, Stop::MinLambda(_)) { -1.0 } else { 1.0 };
                for k in 0..ll.len() {
                    ck!(sg * (ll[k] - t) <= tol, "accepted point {} of {} has the parameter {:?} beyond the target {:?} (status {:?})", k, last, ll[k], t, r);
                    if k < last {
                        ck!(sg * (ll[k] - t) < -0.99e-10, "the run goes on from {:?} at the target {:?}", ll[k], t);
                    }
                }
                if ok && within {
                    ck!((l - t).abs() <= tol, "the run succeeds at {:?} instead of the target {:?}", l, t);
                }
            }
            Stop::MinCompU(i, t) | Stop::MaxCompU(i, t) => {
                let sg = if matches!(stop, Stop::MinCompU(..)) { -1.0 } else { 1.0 };
                for k in 0..last {
                    ck!(sg * (uu[k][i] - t) < -0.99e-10, "the run goes on from component {:?} at the target {:?}", uu[k][i], t);
                }
                if ok && within {
                    ck!(sg * (uu[last][i] - t) > -1.01e-10, "the run succeeds at component {:?} before the target {:?}", uu[last][i], t);
                }
                if precise && mode == "auto" {
                    ck!(sg * (uu[last][i] - t) < 1.01e-10, "the component {:?} is beyond the precise target {:?}", uu[last][i], t);
                }
            }
            Stop::MaxNormU(t, _, b, e) => {
                for k in 0..ll.len() {
                    let x = norm(&uu[k], nk, b, e);
                    if k < last {
                        ck!(k == 0 || x - t < 0.0, "the run goes on from the norm {:?} at the target {:?}", x, t);
                    } else if ok && within {
                        ck!(x - t > -1.01e-10, "the run succeeds at the norm {:?} before the target {:?}", x, t);
                    }
                }
            }
            Stop::Steps(m) => {
                ck!(s.n_accepted <= m, "{} accepted steps instead of {}", s.n_accepted, m);
                if ok && within {
                    ck!(s.n_accepted == m, "{} accepted steps instead of {} ({} rejected)", s.n_accepted, m, s.n_rejected);
                }
            }
        }
        ck!(s.n_steps <= budget, "{} steps instead of at most {}", s.n_steps, budget);
    }
    Ok(())
}

fn refusals(g: &mut Gen) -> Res {
    let p = problem(g);
    let n = p.n;
    let (u0, l0) = p.start(g);
    if u0.iter().any(|x| !x.is_finite()) {
        return Ok(());
    }
    let mut c = Config::new();
    let arc = g.bool();
    c.set_method(if arc { Method::Arclength } else { Method::Natural });
    c.set_n_step_max(3);
    let i = g.usize(0, n - 1);
    let x = g.range(0.1, 1.0);
    let zero = g.chance(1, 3);
    let x = if zero { 0.0 } else { x };
    let mut ddl = DeltaLambda::constant(0.1);
    let mut dim = n;
    let stop = match g.usize(0, 13) {
        0 => Stop::MinLambda(l0 + x),
        1 => Stop::MaxLambda(l0 - x),
        2 => Stop::MinCompU(i, u0[i] + x),
        3 => Stop::MaxCompU(i, u0[i] - x),
        4 => Stop::MinCompU(n + i, u0[i] - 1.0),
        5 => Stop::MaxCompU(n, u0[i] + 1.0),
        6 => Stop::Steps(0),
        7 => Stop::MaxNormU(-x, Norm::Euc, 0, n),
        8 => Stop::MaxNormU(1.0, Norm::Euc, i, i),
        9 => Stop::MaxNormU(1.0, Norm::Euc, i, n + 1),
        10 => {
            dim = n + 1 + g.usize(0, 2);
            Stop::Steps(1)
        }
        11 => {
            ddl = DeltaLambda::auto(-x);
            Stop::Steps(1)
        }
        12 => {
            ddl = DeltaLambda::constant(1e-11);
            Stop::MaxLambda(l0 + 1.0)
        }
        _ => {
            ddl = DeltaLambda::list(&[0.0, 0.1]);
            Stop::MaxLambda(l0 + 1.0)
        }
    };
    note!(g, "{:?} {:?} from {:?} {:?} dimension {}", stop, ddl, u0, l0, dim);
    let mut args = p.clone();
    let mut solver = Solver::new(&c, system(n)).unwrap();
    let mut v = u0.clone();
    v.resize(dim, 0.25);
    let mut u = Vector::from(&v);
    let mut l = l0;
    let mut out = Output::new();
    out.set_recording(true, &[0], &[]);
    let r = solver.solve(&mut args, &mut u, &mut l, IniDir::Pos, stop, &ddl, Some(&mut out));
    ck!(r.is_err(), "accepted with {:?}", r);
    ck!(args.calls == 0, "{} evaluations before the refusal", args.calls);
    ck!(u.as_data() == &v[..] && l == l0, "a refused run changes the state");
    ck!(out.get_l_values().len() == 0, "a refused run writes records");
    Ok(())
}

/// step sizes follow the list; constant steps stay constant (natural method)
fn step_sizes(g: &mut Gen) -> Res {
    let mut p = problem(g);
    p.kind = *g.pick(&[0, 1, 6]);
    let n = p.n;
    let (u0, l0) = p.start(g);
    if p.residual(&u0, l0) > 1e-11 {
        return Ok(());
    }
    let mut c = Config::new();
    c.set_method(Method::Natural);
    let up = g.bool();
    let list = g.bool();
    let m = g.usize(1, 12);
    let v: Vec<f64> = if list { (0..m).map(|_| g.range(0.05, 0.4)).collect() } else { vec![g.range(0.05, 0.4); m] };
    let d = if list { DeltaLambda::list(&v) } else { DeltaLambda::constant(v[0]) };
    let sum: f64 = v.iter().sum();
    let lim = g.bool();
    let sg = if up { 1.0 } else { -1.0 };
    let reach = sum * if g.bool() { g.range(0.2, 0.95) } else { g.range(1.2, 2.0) };
    let stop = if lim { if up { Stop::MaxLambda(l0 + reach) } else { Stop::MinLambda(l0 - reach) } } else { Stop::Steps(m) };
    note!(g, "{:?} from {:?} steps {:?} list={} up={} {:?}", p, l0, v, list, up, stop);
    let mut args = p.clone();
    let mut solver = Solver::new(&c, system(n)).unwrap();
    let mut u = Vector::from(&u0);
    let mut l = l0;
    let mut out = Output::new();
    out.set_recording(true, &[0], &[]);
    let r = solver.solve(&mut args, &mut u, &mut l, if up { IniDir::Pos } else { IniDir::Neg }, stop, &d, Some(&mut out));
    let ll = out.get_l_values().clone();
    if r != Ok(Status::Success) {
        return Ok(());
    }
    let mut want = vec![l0];
    let mut k = 0;
    loop {
        let h = if list { if k < m { v[k] } else { break } } else { v[0] };
        let x = want[k] + sg * h;
        if lim && sg * (x - (l0 + sg * reach)) >= 0.0 {
            want.push(l0 + sg * reach);
            break;
        }
        want.push(x);
        k += 1;
        if !lim && k == m {
            break;
        }
    }
    ck!(ll.len() == want.len(), "{} points instead of {} ({:?} instead of {:?})", ll.len(), want.len(), ll, want);
    for k in 0..ll.len() {
        ck!((ll[k] - want[k]).abs() <= 1e-9, "point {} is {:?} instead of {:?}", k, ll[k], want[k]);
    }
    Ok(())
}

pub fn register(cx: &mut Ctx) {
    cx.cases_w("runs", 6, runs);
    cx.cases("refusals", refusals);
    cx.cases("step_sizes", step_sizes);
}
