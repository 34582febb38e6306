//! helpers for the Runge-Kutta contracts: scripted right-hand sides, recovered tableaus, rooted trees

use russell_lab::Vector;
use russell_ode::{Method, OdeSolver, Output, Params, Stats, System};

/// what the right-hand side returned and was asked, and what the step callback saw
#[derive(Clone)]
pub struct Log {
    pub ndim: usize,
    pub script: Vec<Vec<f64>>,
    pub calls: Vec<(f64, Vec<f64>)>,
    pub steps: Vec<(f64, f64, Vec<f64>)>,
    pub dense: Vec<(f64, Vec<f64>)>,
}

impl Log {
    pub fn new(ndim: usize, script: Vec<Vec<f64>>) -> Self {
        Log { ndim, script, calls: vec![], steps: vec![], dense: vec![] }
    }
}

/// system whose right-hand side returns the next line of the script, whatever it is asked
pub fn scripted<'a>(ndim: usize) -> System<'a, Log> {
    System::new(ndim, |f: &mut Vector, x, y: &Vector, a: &mut Log| {
        let i = a.calls.len();
        a.calls.push((x, (0..a.ndim).map(|m| y[m]).collect()));
        for m in 0..a.ndim {
            f[m] = if a.script.len() > 0 { a.script[i % a.script.len()][m] } else { 0.0 };
        }
        Ok(())
    })
}

pub fn recorder<'a>() -> Output<'a, Log> {
    let mut out = Output::new();
    out.set_step_callback(|_s: &Stats, h, x, y: &Vector, a: &mut Log| {
        a.steps.push((h, x, (0..a.ndim).map(|m| y[m]).collect()));
        Ok(false)
    });
    out
}

pub struct Tab {
    pub s: usize,
    pub a: Vec<Vec<f64>>,
    pub b: Vec<f64>,
    pub c: Vec<f64>,
}

/// recovers the coefficients used by one step: stage i returns the i-th unit vector
pub fn tableau(method: Method) -> Result<Tab, String> {
    let ndim = 16;
    let mut script = vec![vec![0.0; ndim]; ndim];
    for i in 0..ndim {
        script[i][i] = 1.0;
    }
    let mut log = Log::new(ndim, script);
    let mut solver = OdeSolver::new(Params::new(method), scripted(ndim)).map_err(|e| e.to_string())?;
    let mut y = Vector::new(ndim);
    solver.solve(&mut y, 0.0, 1.0, Some(1.0), &mut log, None).map_err(|e| e.to_string())?;
    let s = log.calls.len();
    Ok(Tab {
        s,
        a: log.calls.iter().map(|(_, v)| v[..s].to_vec()).collect(),
        b: (0..s).map(|i| y[i]).collect(),
        c: log.calls.iter().map(|(x, _)| *x).collect(),
    })
}

#[derive(Clone, Debug)]
pub struct Tree {
    pub sub: Vec<Tree>,
    pub order: usize,
}

impl Tree {
    pub fn density(&self) -> usize {
        self.order * self.sub.iter().map(|t| t.density()).product::<usize>()
    }
    /// elementary weight of every stage
    pub fn weights(&self, tab: &Tab) -> Vec<f64> {
        let mut res = vec![1.0; tab.s];
        for t in &self.sub {
            let w = t.weights(tab);
            for i in 0..tab.s {
                let mut sum = 0.0;
                for j in 0..tab.s {
                    sum = sum + tab.a[i][j] * w[j];
                }
                res[i] = res[i] * sum;
            }
        }
        res
    }
    pub fn show(&self) -> String {
        format!("[{}]", self.sub.iter().map(|t| t.show()).collect::<Vec<_>>().join(""))
    }
}

/// multisets of trees with the given total order, taken from position `from` of the list on
fn forests(list: &Vec<Tree>, total: usize, from: usize) -> Vec<Vec<Tree>> {
    if total == 0 {
        return vec![vec![]];
    }
    let mut res = vec![];
    for k in from..list.len() {
        if list[k].order <= total {
            for mut rest in forests(list, total - list[k].order, k) {
                rest.push(list[k].clone());
                res.push(rest);
            }
        }
    }
    res
}

/// all rooted trees up to the given order
pub fn trees(max: usize) -> Vec<Tree> {
    let mut list: Vec<Tree> = vec![];
    for order in 1..(max + 1) {
        let new: Vec<Tree> = forests(&list, order - 1, 0).into_iter().map(|sub| Tree { sub, order }).collect();
        list.extend(new);
    }
    list
}

/// outcome of the first attempt of a variable-step integration from x = 0 with all controls neutral
pub struct Attempt {
    pub accepted: bool,
    pub h_next: f64,
    pub y: Vec<f64>,
}

/// script: values returned by the stages, the last row repeats; the first attempt uses stepsize h
pub fn attempt(method: Method, script: Vec<Vec<f64>>, y0: &[f64], h: f64, abs: f64, rel: f64, c1: f64) -> Result<Attempt, String> {
    let ndim = y0.len();
    let s = script.len();
    let mut params = Params::new(method);
    params.set_tolerances(abs, rel, None)?;
    params.step.m_safety = 1.0;
    params.step.m_min = 0.001;
    params.step.m_max = 20.0;
    params.step.m_first_reject = 0.0;
    params.step.h_ini = h;
    params.step.n_step_max = 2;
    params.erk.lund_beta = 0.0;
    let mut solver = OdeSolver::new(params, scripted(ndim))?;
    let mut log = Log::new(ndim, script);
    let mut y = Vector::from(&y0.to_vec());
    let mut out = recorder();
    let _ = solver.solve(&mut y, 0.0, 1e6 * h, None, &mut log, Some(&mut out));
    let accepted = log.steps.len() > 1 && log.steps[1].0 == h;
    let h_next = if accepted {
        // the next attempt starts at x = h: its stages lie at h + c h_next; the first one only if not first-same-as-last
        if log.calls.len() > s && log.calls[s].0 == h && log.steps[1].1 == h {
            (log.calls[s + 1].0 - h) / c1
        } else {
            (log.calls[s].0 - h) / c1
        }
    } else {
        log.calls[s].0 / c1
    };
    Ok(Attempt { accepted, h_next, y: log.steps.last().map(|s| s.2.clone()).unwrap_or(vec![]) })
}

/// weights of the second and third solutions of the order-8 method (Hairer, Nørsett & Wanner)
pub const BHH: [f64; 3] = [0.244094488188976377952755905512e+00, 0.733846688281611857341361741547e+00, 0.220588235294117647058823529412e-01];
pub const DOP853_ER: [f64; 12] = [
    0.1312004499419488073250102996e-01, 0.0, 0.0, 0.0, 0.0, -0.1225156446376204440720569753e+01,
    -0.4957589496572501915214079952e+00, 0.1664377182454986536961530415e+01, -0.3503288487499736816886487290e+00,
    0.3341791187130174790297318841e+00, 0.8192320648511571246570742613e-01, -0.2235530786388629525884427845e-01,
];

/// error weights up to a common sign, recovered from the stepsize proposed after steps with one or two non-zero stages
pub fn error_weights(method: Method, tab: &Tab) -> Result<Vec<f64>, String> {
    if method == Method::DoPri8 {
        return Ok(DOP853_ER.to_vec());
    }
    let n = (method.information().order_of_estimator + 1) as i32;
    let size = |on: &[usize]| -> Result<f64, String> {
        let mut script = vec![vec![0.0]; tab.s];
        for i in on {
            script[*i][0] = 100.0;
        }
        let r = attempt(method, script, &[0.0], 1.0, 1.0, 1e-14, tab.c[1])?;
        let e = (1.0 / r.h_next).powi(n) / 100.0;
        Ok(if e < 1e-9 || r.h_next > 19.999999 { 0.0 } else { e })
    };
    let mut e = vec![0.0; tab.s];
    let mut big = 0;
    for i in 0..tab.s {
        e[i] = size(&[i])?;
        if e[i] > e[big] {
            big = i;
        }
    }
    for i in 0..tab.s {
        if i != big && e[i] > 0.0 {
            let both = size(&[big, i])?;
            if (both - (e[big] + e[i])).abs() > (both - (e[big] - e[i]).abs()).abs() {
                e[i] = -e[i];
            }
        }
    }
    Ok(e)
}
