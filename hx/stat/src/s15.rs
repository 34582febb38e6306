//! densities are the derivatives of the cumulative distributions; means and variances
use hx_common::*;
use russell_lab::math::gamma;
use russell_stat::*;

const EULER: f64 = 0.57721566490153286061;

/// density at x: derivative of the cumulative distribution, not negative
fn density<D: ProbabilityDistribution>(g: &mut Gx, d: &D, x: f64, scale: f64) -> Res {
    let p = d.pdf(x);
    g.holds(p >= 0.0, "density is negative")?;
    if g.symbolic() {
        return g.same_deriv(p, x, &mut |x| d.cdf(x), "density and derivative of the cumulative distribution");
    }
    // difference quotients of two sizes
    let h = 1e-5 * scale;
    let c = |h: f64| (d.cdf(x + h) - d.cdf(x - h)) / (2.0 * h);
    let (a, b) = (c(h), c(2.0 * h));
    let e = (a - b).abs() + 1e-9 / scale;
    g.holds((p - a).abs() <= 10.0 * e, &format!("density {:?} at {:?}, derivative of the cumulative distribution {:?}", p, x, a))
}

pub fn register(cx: &mut Ctx) {
    cx.contract("uniform_exact", |g| {
        let (a, l) = (g.var("a"), g.pos("l"));
        let d = DistributionUniform::new(a, a + l)?;
        let t = g.pos("t");
        // inside, below, above
        let k = g.choose("region", 3);
        let (x, w) = match k {
            0 => (a + l * (t / (1.0 + t)), t / (1.0 + t)),
            1 => (a - t, 0.0),
            _ => (a + l + t, 1.0),
        };
        if g.symbolic() || t > 1e-9 {
            g.same(d.cdf(x), w, "cumulative distribution")?;
            g.same(d.pdf(x) * l, if k == 0 { 1.0 } else { 0.0 }, "density")?;
        }
        g.same(d.mean(), a + l / 2.0, "mean")?;
        g.same(d.variance(), l * l / 12.0, "variance")
    });
    cx.contract("normal_exact", |g| {
        let (m, s, x, t) = (g.var("m"), g.pos("s"), g.var("x"), g.var("t"));
        let d = DistributionNormal::new(m, s)?;
        density(g, &d, x, s)?;
        g.same(d.cdf(m + t) + d.cdf(m - t), 1.0, "symmetry")?;
        g.same(d.pdf(m + t), d.pdf(m - t), "symmetry of the density")?;
        g.same(d.mean(), m, "mean")?;
        g.same(d.variance(), s * s, "variance")?;
        g.holds(DistributionNormal::new(m, -s).is_err() && DistributionNormal::new(m, 0.0).is_err(), "invalid deviation accepted")
    });
    cx.contract("lognormal_exact", |g| {
        let (m, s, x) = (g.var("m"), g.pos("s"), g.pos("x"));
        if !g.assume_positive(x - 1e-15) {
            return Ok(());
        }
        let d = DistributionLognormal::new(m, s)?;
        density(g, &d, x, x * s / (1.0 + s))?;
        g.same(d.cdf(-x), 0.0, "cumulative distribution below zero")?;
        g.same(d.pdf(-x), 0.0, "density below zero")?;
        g.same(d.mean(), (m + s * s / 2.0).exp(), "mean")?;
        g.same(d.variance(), ((s * s).exp() - 1.0) * (2.0 * m + s * s).exp(), "variance")?;
        g.holds(DistributionLognormal::new(m, -s).is_err() && DistributionLognormal::new(m, 0.0).is_err(), "invalid deviation accepted")
    });
    cx.contract("lognormal_from_mean_exact", |g| {
        let (mu, sig, x) = (g.pos("mu"), g.pos("sig"), g.pos("x"));
        if !g.assume_positive(x - 1e-15) {
            return Ok(());
        }
        let d = DistributionLognormal::new_from_mu_sig(mu, sig)?;
        g.tol(1e-7);
        g.same(d.mean(), mu, "mean")?;
        g.same(d.variance(), sig * sig, "variance")?;
        density(g, &d, x, x * (sig / (mu + sig)))?;
        g.holds(DistributionLognormal::new_from_mu_sig(-mu, sig).is_err() && DistributionLognormal::new_from_mu_sig(mu, -sig).is_err(), "invalid parameters accepted")
    });
    cx.contract("gumbel_exact", |g| {
        let (l, s, x) = (g.var("l"), g.pos("s"), g.var("x"));
        let d = DistributionGumbel::new(l, s)?;
        if !g.symbolic() && (x - l) / s < -5.0 {
            return Ok(());
        }
        density(g, &d, x, s)?;
        let pi = std::f64::consts::PI;
        g.same(d.mean(), l + EULER * s, "mean")?;
        g.same(d.variance(), pi * pi / 6.0 * s * s, "variance")?;
        g.holds(DistributionGumbel::new(l, -s).is_err() && DistributionGumbel::new(l, 0.0).is_err(), "invalid scale accepted")
    });
    cx.contract("gumbel_from_mean_exact", |g| {
        let (mu, sig) = (g.var("mu"), g.pos("sig"));
        let d = DistributionGumbel::new_from_mu_sig(mu, sig)?;
        g.same(d.mean(), mu, "mean")?;
        g.same(d.variance(), sig * sig, "variance")?;
        g.holds(DistributionGumbel::new_from_mu_sig(mu, -sig).is_err(), "invalid deviation accepted")
    });
    cx.contract("frechet_exact", |g| {
        let (l, s, a, x) = (g.var("l"), g.pos("s"), g.pos("a"), g.var("x"));
        let d = DistributionFrechet::new(l, s, a)?;
        if x > l + 1e-15 {
            if g.symbolic() || ((x - l) / s > 0.3 && a > 0.2 && a < 8.0) {
                density(g, &d, x, (x - l) / (1.0 + a))?;
            }
        } else {
            g.same(d.cdf(x), 0.0, "cumulative distribution below the location")?;
            g.same(d.pdf(x), 0.0, "density below the location")?;
        }
        if a > 1.0 {
            g.same(d.mean(), l + s * gamma(1.0 - 1.0 / a), "mean")?;
        } else {
            g.holds(d.mean() == f64::INFINITY, "infinite mean")?;
        }
        if a > 2.0 {
            let c = gamma(1.0 - 1.0 / a);
            g.tol(1e-6);
            g.same(d.variance(), s * s * (gamma(1.0 - 2.0 / a) - c * c), "variance")?;
        } else {
            g.holds(d.variance() == f64::INFINITY, "infinite variance")?;
        }
        g.holds(DistributionFrechet::new(l, -s, a).is_err() && DistributionFrechet::new(l, s, -a).is_err(), "invalid parameters accepted")
    });
}
