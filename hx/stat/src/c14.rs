use hx_common::*;
use russell_stat::*;

fn quant(s: &[f64], q: f64) -> f64 {
    let t = q * (s.len() - 1) as f64;
    let k = (t as usize).min(s.len() - 1);
    let f = t - k as f64;
    if f == 0.0 {
        s[k]
    } else {
        s[k] * (1.0 - f) + s[k + 1] * f
    }
}

pub fn register(cx: &mut Ctx) {
    cx.cases("statistics", |g| {
        let n = g.dim(0, 40);
        let off = if g.chance(1, 4) { 1e6 } else { 0.0 };
        let x: Vec<f64> = (0..n).map(|_| off + g.rval()).collect();
        note!(g, "data {:?}", x);
        let s = Statistics::new(&x);
        if n == 0 {
            ck!(s.min == 0.0 && s.max == 0.0 && s.mean == 0.0 && s.std_dev == 0.0, "no data: {} {} {} {}", s.min, s.max, s.mean, s.std_dev);
            return Ok(());
        }
        let (lo, hi) = (x.iter().cloned().fold(f64::INFINITY, f64::min), x.iter().cloned().fold(f64::NEG_INFINITY, f64::max));
        let m = x.iter().sum::<f64>() / n as f64;
        let v = if n == 1 { 0.0 } else { x.iter().map(|t| (t - m) * (t - m)).sum::<f64>() / (n as f64 - 1.0) };
        let sc = 1.0 + lo.abs().max(hi.abs());
        ck!(s.min == lo && s.max == hi, "limits {:?} {:?}, expected {:?} {:?}", s.min, s.max, lo, hi);
        ck!((s.mean - m).abs() <= 1e-12 * sc, "mean {:?}, expected {:?}", s.mean, m);
        ck!((s.std_dev - v.sqrt()).abs() <= 1e-7 * (1.0 + hi - lo) + 1e-12 * sc, "deviation {:?}, expected {:?}", s.std_dev, v.sqrt());
        let xi: Vec<i32> = x.iter().map(|t| *t as i32).collect();
        let (a, b) = (Statistics::new(&xi), Statistics::new(&xi.iter().map(|t| *t as f64).collect::<Vec<_>>()));
        ck!(a.min == b.min && a.max == b.max && a.mean == b.mean && a.std_dev == b.std_dev, "integer data differ from real data");
        Ok(())
    });
    cx.cases_w("quantiles", 2, |g| {
        let n = g.dim(1, 30);
        let mut x: Vec<f64> = (0..n).map(|_| g.rval()).collect();
        let orig = x.clone();
        let mut s = x.clone();
        s.sort_by(|a, b| a.partial_cmp(b).unwrap());
        note!(g, "data {:?}", x);
        let sc = 1.0 + s[0].abs().max(s[n - 1].abs());
        let mut prev = s[0];
        let mut qs: Vec<f64> = (0..6).map(|_| g.range(0.0, 1.0)).collect();
        qs.push(0.0);
        qs.push(1.0);
        if n > 1 {
            qs.push(g.usize(0, n - 1) as f64 / (n - 1) as f64);
        }
        qs.sort_by(|a, b| a.partial_cmp(b).unwrap());
        for q in qs {
            let v = quantile(&s, q);
            ck!((v - quant(&s, q)).abs() < 1e-12 * sc, "quantile {:?} is {:?}, expected {:?}", q, v, quant(&s, q));
            ck!(v >= prev - 1e-12 * sc, "quantile {:?} is {:?}, below an earlier one {:?}", q, v, prev);
            prev = v;
        }
        ck!(quantile(&s, 0.0) == s[0] && quantile(&s, 1.0) == s[n - 1], "first and last quantiles {:?} {:?}", quantile(&s, 0.0), quantile(&s, 1.0));
        let (a, b, c) = quartiles(&mut x);
        ck!(x == s, "data not sorted: {:?}", x);
        for (v, q) in [(a, 0.25), (b, 0.5), (c, 0.75)] {
            ck!((v - quant(&s, q)).abs() < 1e-12 * sc, "quartile {:?} is {:?}, expected {:?}", q, v, quant(&s, q));
        }
        let mut y = orig.clone();
        let r = inter_quartile_range(&mut y);
        ck!((r - (c - a)).abs() < 1e-12 * sc, "range {:?}, expected {:?}", r, c - a);
        ck!(panics(|| drop(quantile::<f64>(&[], 0.5))) && panics(|| drop(quantile(&[1.0], -0.1))) && panics(|| drop(quantile(&[1.0], 1.1))), "invalid arguments accepted");
        Ok(())
    });
    cx.cases_w("outlier_search", 2, |g| {
        let n = g.dim(1, 30);
        let x: Vec<i32> = (0..n).map(|_| if g.chance(1, 6) { g.int(-100, 100) } else { g.int(-8, 8) } as i32).collect();
        note!(g, "data {:?}", x);
        let mut s: Vec<f64> = x.iter().map(|v| *v as f64).collect();
        s.sort_by(|a, b| a.partial_cmp(b).unwrap());
        // quartiles of integers are multiples of 1/4: exact
        let (a, c) = (quant(&s, 0.25), quant(&s, 0.75));
        let (lo, hi) = (a - 1.5 * (c - a), c + 1.5 * (c - a));
        let mut w: Vec<(usize, i32)> = (0..n).filter(|&i| (x[i] as f64) < lo || (x[i] as f64) > hi).map(|i| (i, x[i])).collect();
        w.sort();
        let r = outliers(&x);
        for k in 1..r.len() {
            ck!(r[k].1 >= r[k - 1].1, "not reported by increasing value: {:?}", r);
        }
        let mut v = r.clone();
        v.sort();
        ck!(v == w, "outliers {:?}, expected {:?}", v, w);
        let xf: Vec<f64> = x.iter().map(|v| *v as f64).collect();
        let rf = outliers(&xf);
        let mut vf: Vec<(usize, i32)> = rf.iter().map(|t| (t.0, t.1 as i32)).collect();
        vf.sort();
        ck!(vf == w, "outliers of reals {:?}, expected {:?}", vf, w);
        Ok(())
    });
}
