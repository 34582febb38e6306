use hx_common::*;
use russell_stat::*;

extern "C" {
    fn tgamma(x: f64) -> f64;
}

// derivative of the cumulative distribution, with an error estimate
fn deriv(d: &dyn Fn(f64) -> f64, x: f64, h0: f64) -> (f64, f64) {
    let mut best = (0.0, f64::INFINITY);
    let mut h = h0;
    for _ in 0..12 {
        let c = |h: f64| (d(x + h) - d(x - h)) / (2.0 * h);
        let r = |h: f64| (4.0 * c(h / 2.0) - c(h)) / 3.0;
        let (a, b) = (r(h), r(h / 2.0));
        let e = (a - b).abs() + 4e-16 / h;
        if e < best.1 {
            best = ((16.0 * b - a) / 15.0, e);
        }
        h /= 2.0;
    }
    best
}

fn common(g: &mut Gen, name: &str, pdf: &dyn Fn(f64) -> f64, cdf: &dyn Fn(f64) -> f64, lo: f64, scale: f64, kinks: &[f64]) -> Res {
    let mut pts: Vec<f64> = (0..8).map(|_| lo + scale * g.range(-2.0, 8.0)).collect();
    for k in kinks {
        for e in [1e-14, 1e-12, 1e-9, 1e-6, 1e-3] {
            pts.push(k + e * scale);
        }
    }
    pts.push(lo - 1e3 * scale);
    pts.push(lo + 1e3 * scale);
    pts.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let mut prev = 0.0;
    for x in pts {
        let (p, c) = (pdf(x), cdf(x));
        ck!(p >= 0.0 && p.is_finite(), "{} density at {:?} is {:?}", name, x, p);
        ck!(c >= prev - 1e-15 && c <= 1.0, "{} cumulative at {:?} is {:?} after {:?}", name, x, c, prev);
        prev = c;
        let gap = kinks.iter().map(|k| (x - k).abs()).fold(scale, f64::min);
        if gap < 1e-8 * (x.abs() + scale) {
            continue; // no room for a difference quotient
        }
        let (w, e) = deriv(cdf, x, 0.2 * gap);
        ck!((p - w).abs() <= 1e-7 / scale + 1e-7 * w.abs() + 40.0 * e, "{} density at {:?} is {:?}, derivative of the cumulative distribution {:?}", name, x, p, w);
    }
    Ok(())
}

fn ends(name: &str, cdf: &dyn Fn(f64) -> f64, a: f64, b: f64, tol: f64) -> Res {
    ck!(cdf(a) <= tol, "{} cumulative at {:?} is {:?}", name, a, cdf(a));
    ck!(cdf(b) >= 1.0 - tol, "{} cumulative at {:?} is {:?}", name, b, cdf(b));
    Ok(())
}

fn eq(name: &str, v: f64, w: f64) -> Res {
    ck!(v == w || (v - w).abs() <= 1e-12 * (1.0 + w.abs()), "{} is {:?}, expected {:?}", name, v, w);
    Ok(())
}

pub fn register(cx: &mut Ctx) {
    cx.cases("uniform", |g| {
        let (a, l) = (g.range(-5.0, 5.0), g.range(0.01, 10.0));
        note!(g, "{:?} {:?}", a, a + l);
        let d = DistributionUniform::new(a, a + l)?;
        common(g, "uniform", &|x| d.pdf(x), &|x| d.cdf(x), a, l, &[a, a + l])?;
        ends("uniform", &|x| d.cdf(x), a - 1e-9, a + l + 1e-9, 0.0)?;
        eq("mean", d.mean(), a + l / 2.0)?;
        eq("variance", d.variance(), l * l / 12.0)?;
        ck!(DistributionUniform::new(a + l, a).is_err() && DistributionUniform::new(a, f64::INFINITY).is_err() && DistributionUniform::new(f64::NAN, a).is_err(), "invalid parameters accepted");
        Ok(())
    });
    cx.cases("normal", |g| {
        let (m, s) = (g.range(-5.0, 5.0), g.range(0.01, 10.0));
        note!(g, "{:?} {:?}", m, s);
        let d = DistributionNormal::new(m, s)?;
        common(g, "normal", &|x| d.pdf(x), &|x| d.cdf(x), m - 3.0 * s, s, &[])?;
        ends("normal", &|x| d.cdf(x), m - 40.0 * s, m + 40.0 * s, 1e-15)?;
        let t = g.range(0.0, 6.0) * s;
        ck!((d.cdf(m + t) + d.cdf(m - t) - 1.0).abs() < 1e-14, "not symmetric at distance {:?}", t);
        eq("mean", d.mean(), m)?;
        eq("variance", d.variance(), s * s)?;
        for bad in [-s, 0.0, f64::NAN, f64::INFINITY] {
            ck!(DistributionNormal::new(m, bad).is_err(), "deviation {:?} accepted", bad);
        }
        ck!(DistributionNormal::new(f64::NAN, s).is_err() && DistributionNormal::new(f64::INFINITY, s).is_err(), "mean that is not a number accepted");
        Ok(())
    });
    cx.cases("lognormal", |g| {
        let (m, s) = (g.range(-2.0, 2.0), g.range(0.1, 1.5));
        note!(g, "{:?} {:?}", m, s);
        let d = DistributionLognormal::new(m, s)?;
        common(g, "lognormal", &|x| d.pdf(x), &|x| d.cdf(x), 0.0, m.exp(), &[0.0])?;
        ends("lognormal", &|x| d.cdf(x), 0.0, (m + 40.0 * s).exp(), 1e-15)?;
        eq("mean", d.mean(), (m + s * s / 2.0).exp())?;
        eq("variance", d.variance(), (s * s).exp_m1() * (2.0 * m + s * s).exp())?;
        let (mu, sig) = (g.range(0.1, 5.0), g.range(0.01, 5.0));
        let e = DistributionLognormal::new_from_mu_sig(mu, sig)?;
        eq("mean given", e.mean(), mu)?;
        ck!((e.variance() - sig * sig).abs() < 1e-9 * (1.0 + sig * sig), "variance given {:?}, reported {:?}", sig * sig, e.variance());
        common(g, "lognormal from mean", &|x| e.pdf(x), &|x| e.cdf(x), 0.0, mu / (1.0 + sig / mu), &[0.0])?;
        for bad in [-s, 0.0, f64::NAN, f64::INFINITY] {
            ck!(DistributionLognormal::new(m, bad).is_err() && DistributionLognormal::new_from_mu_sig(mu, bad).is_err(), "deviation {:?} accepted", bad);
        }
        for bad in [-mu, 0.0, f64::NAN, f64::INFINITY] {
            ck!(DistributionLognormal::new_from_mu_sig(bad, sig).is_err(), "mean {:?} accepted", bad);
        }
        ck!(DistributionLognormal::new(f64::NAN, s).is_err() && DistributionLognormal::new(f64::INFINITY, s).is_err(), "mean of the logarithm that is not a number accepted");
        Ok(())
    });
    cx.cases("gumbel", |g| {
        let (l, s) = (g.range(-5.0, 5.0), g.range(0.01, 10.0));
        note!(g, "{:?} {:?}", l, s);
        let d = DistributionGumbel::new(l, s)?;
        common(g, "gumbel", &|x| d.pdf(x), &|x| d.cdf(x), l - 2.0 * s, s, &[])?;
        ends("gumbel", &|x| d.cdf(x), l - 10.0 * s, l + 40.0 * s, 1e-15)?;
        let pi = std::f64::consts::PI;
        eq("mean", d.mean(), l + 0.57721566490153286061 * s)?;
        eq("variance", d.variance(), pi * pi / 6.0 * s * s)?;
        let (mu, sig) = (g.range(-5.0, 5.0), g.range(0.01, 5.0));
        let e = DistributionGumbel::new_from_mu_sig(mu, sig)?;
        eq("mean given", e.mean(), mu)?;
        eq("variance given", e.variance(), sig * sig)?;
        for bad in [-s, 0.0, f64::NAN, f64::INFINITY] {
            ck!(DistributionGumbel::new(l, bad).is_err() && DistributionGumbel::new_from_mu_sig(mu, bad).is_err(), "scale {:?} accepted", bad);
        }
        Ok(())
    });
    cx.cases("frechet", |g| {
        let (l, s, a) = (g.range(-2.0, 2.0), g.range(0.1, 5.0), if g.chance(1, 4) { g.range(3.0, 30.0) } else { g.range(0.3, 6.0) });
        note!(g, "{:?} {:?} {:?}", l, s, a);
        let d = DistributionFrechet::new(l, s, a)?;
        common(g, "frechet", &|x| d.pdf(x), &|x| d.cdf(x), l, s, &[l])?;
        ends("frechet", &|x| d.cdf(x), l, l + s * 1e18_f64.powf(1.0 / a), 1e-15)?;
        let gm = |k: f64| unsafe { tgamma(1.0 - k / a) };
        if a > 1.01 || a < 1.0 {
            let w = if a > 1.0 { l + s * gm(1.0) } else { f64::INFINITY };
            ck!(d.mean() == w || (d.mean() - w).abs() < 1e-10 * (1.0 + w.abs()), "mean {:?}, expected {:?}", d.mean(), w);
        }
        if a > 2.01 || a < 2.0 {
            let w = if a > 2.0 { s * s * (gm(2.0) - gm(1.0) * gm(1.0)) } else { f64::INFINITY };
            ck!(d.variance() == w || (d.variance() - w).abs() < 1e-9 * (1.0 + w.abs()), "variance {:?}, expected {:?}", d.variance(), w);
        }
        for bad in [-s, 0.0, f64::NAN, f64::INFINITY] {
            ck!(DistributionFrechet::new(l, bad, a).is_err() && DistributionFrechet::new(l, s, bad).is_err(), "scale or shape {:?} accepted", bad);
        }
        Ok(())
    });
}
