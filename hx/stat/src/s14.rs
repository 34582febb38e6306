//! statistics, quantiles and outliers of few values: any values, any order
use hx_common::*;
use russell_stat::*;

/// increasing values, possibly with repetitions
fn sorted(g: &mut Gx, n: usize) -> Vec<f64> {
    let mut s = vec![g.var("first")];
    for i in 1..n {
        let d = if g.flag("repeated value") { 0.0 } else { g.pos(&format!("d{}", i)) };
        let l = s[i - 1];
        s.push(l + d);
    }
    s
}

/// positions: value i of the increasing list is stored at p[i]
fn positions(g: &mut Gx, n: usize) -> Vec<usize> {
    let mut free: Vec<usize> = (0..n).collect();
    let mut p = Vec::new();
    for _ in 0..n {
        let k = g.choose("position", free.len());
        p.push(free.remove(k));
    }
    p
}

/// interpolation between neighbours at position k + w, 0 <= w <= 1
fn between(s: &[f64], k: usize, w: f64) -> f64 {
    if k + 1 < s.len() {
        s[k] + w * (s[k + 1] - s[k])
    } else {
        s[k]
    }
}

/// quarter positions m/4 of n-1 intervals
fn quarter(s: &[f64], m: usize) -> f64 {
    let a = m * (s.len() - 1);
    between(s, a / 4, (a % 4) as f64 / 4.0)
}

fn outlier_list(g: &mut Gx, n: usize, all: bool) -> Res {
    let s = sorted(g, n);
    let p = if all {
        positions(g, n)
    } else if g.flag("reversed") {
        (0..n).rev().collect()
    } else {
        let k = g.choose("rotation", n);
        (0..n).map(|i| (i + k) % n).collect()
    };
    let mut x = s.clone();
    for i in 0..n {
        x[p[i]] = s[i];
    }
    let (a, c) = (quarter(&s, 1), quarter(&s, 3));
    let (lo, hi) = (a - 1.5 * (c - a), c + 1.5 * (c - a));
    if !g.symbolic() {
        // rounding decides at the limits
        for v in &s {
            if (v - lo).abs() < 1e-9 || (v - hi).abs() < 1e-9 {
                return Ok(());
            }
        }
    }
    let r = outliers(&x);
    let mut seen = vec![false; n];
    for k in 0..r.len() {
        let (i, v) = r[k];
        g.holds(i < n && !seen[i], "reported once with its position")?;
        seen[i] = true;
        g.same(v, x[i], "reported value")?;
        g.holds(k == 0 || r[k - 1].1 <= v, "reported by increasing value")?;
    }
    for i in 0..n {
        g.holds(seen[i] == (x[i] < lo || x[i] > hi), "outlier")?;
    }
    Ok(())
}

pub fn register(cx: &mut Ctx) {
    for n in 0..=6 {
        cx.contract(&format!("statistics_of_{}_values", n), move |g| {
            let mut x = if n == 0 { vec![] } else { sorted(g, n) };
            if n < 6 {
                let (p, y) = (positions(g, n), x.clone());
                for i in 0..n {
                    x[p[i]] = y[i];
                }
            }
            let s = Statistics::new(&x);
            g.tol(1e-9);
            if n == 0 {
                for v in [s.min, s.max, s.mean, s.std_dev] {
                    g.same(v, 0.0, "no data")?;
                }
                return Ok(());
            }
            let mut m = 0.0;
            for v in &x {
                m += *v;
            }
            m /= n as f64;
            g.same(s.mean, m, "mean")?;
            let mut d = 0.0;
            for v in &x {
                d += (*v - m) * (*v - m);
            }
            if n > 1 {
                d /= (n - 1) as f64;
            }
            g.same(s.std_dev * s.std_dev, d, "square of the deviation")?;
            g.holds(s.std_dev >= 0.0, "deviation is negative")?;
            for v in &x {
                g.holds(s.min <= *v && s.max >= *v, "limits")?;
            }
            g.holds(x.contains(&s.min) && x.contains(&s.max), "limits are values")
        });
    }
    for n in 1..=6 {
        cx.contract(&format!("quantiles_of_{}_values", n), move |g| {
            let s = sorted(g, n);
            let i = g.choose("interval", n);
            let t = g.pos("t");
            // at a value or inside of an interval
            let w = if i == n - 1 || g.flag("at the value") { 0.0 } else { t / (1.0 + t) };
            let q = if n == 1 { w } else { (i as f64 + w) / (n - 1) as f64 };
            if !g.symbolic() && q > 1.0 {
                return Ok(());
            }
            g.tol(1e-9);
            g.same(quantile(&s, q), between(&s, i, w), "quantile")?;
            if n == 1 {
                g.same(quantile(&s, t / (1.0 + t)), s[0], "quantile of one value")?;
            }
            g.same(quantile(&s, 0.0), s[0], "first")?;
            g.same(quantile(&s, 1.0), s[n - 1], "last")
        });
    }
    for n in 1..=5 {
        cx.contract(&format!("quartiles_of_{}_values", n), move |g| {
            let s = sorted(g, n);
            let p = positions(g, n);
            let mut x = s.clone();
            for i in 0..n {
                x[p[i]] = s[i];
            }
            let mut y = x.clone();
            let (a, b, c) = quartiles(&mut x);
            g.tol(1e-9);
            for (v, m) in [(a, 1), (b, 2), (c, 3)] {
                g.same(v, quarter(&s, m), "quartile")?;
            }
            for i in 0..n {
                g.same(x[i], s[i], "sorted values")?;
            }
            g.same(inter_quartile_range(&mut y), quarter(&s, 3) - quarter(&s, 1), "inter-quartile range")
        });
    }
    for n in 1..=3 {
        cx.contract(&format!("outliers_of_{}_values", n), move |g| outlier_list(g, n, true));
    }
    for n in 4..=6 {
        cx.contract(&format!("outliers_of_{}_values", n), move |g| outlier_list(g, n, false));
    }
}
