use crate::tx::*;
use hx_common::{ck, Ctx, Gx, Res};
use russell_lab::Vector;
use russell_tensor::{Rep, Spectral2, Tensor2, TOL_J2};

/// definitions in terms of the principal values
fn principal(g: &mut Gx, t: &Tensor2, l: [f64; 3]) -> Res {
    let (a, b, c) = (l[0], l[1], l[2]);
    let tr = a + b + c;
    let q2 = ((a - b) * (a - b) + (b - c) * (b - c) + (c - a) * (c - a)) / 2.0;
    g.same(t.invariant_ii1(), tr, "first invariant")?;
    g.same(t.invariant_ii2(), a * b + b * c + c * a, "second invariant")?;
    g.same(t.invariant_ii3(), a * b * c, "third invariant")?;
    g.same(t.invariant_jj2(), q2 / 3.0, "J2")?;
    let m = tr / 3.0;
    let j3 = (a - m) * (b - m) * (c - m);
    g.same(t.invariant_jj3(), j3, "J3")?;
    g.same(t.invariant_sigma_s(), tr / f64::sqrt(3.0), "sigma_s")?;
    let st = t.invariant_sigma_t();
    g.same(st, f64::sqrt(2.0 * q2 / 3.0), "sigma_t")?;
    g.same(t.invariant_p(), m, "p")?;
    g.same(t.invariant_q(), f64::sqrt(q2), "q")?;
    g.same(t.invariant_eps_s(), tr / f64::sqrt(3.0), "eps_s")?;
    g.same(t.invariant_eps_t(), st, "eps_t")?;
    g.same(t.invariant_eps_v(), tr, "eps_v")?;
    g.same(t.invariant_eps_d(), f64::sqrt(q2) * 2.0 / 3.0, "eps_d")?;
    let (d, r, lode) = t.invariants_octahedral();
    g.same(d, tr / f64::sqrt(3.0), "octahedral distance")?;
    g.same(r, st, "octahedral radius")?;
    let own = t.invariant_lode();
    g.holds(lode.is_some() == own.is_some(), "lode invariant: the two functions disagree")?;
    g.holds(own.is_some() == (t.invariant_jj2() > TOL_J2), "lode invariant refused exactly for vanishing J2")?;
    if let (Some(x), Some(y)) = (lode, own) {
        g.same(x, y, "lode invariant: the two functions disagree")?;
        let q = f64::sqrt(q2);
        g.same(x * 2.0 * q * q * q, 27.0 * j3, "lode invariant")?;
    }
    Ok(())
}

pub fn register(cx: &mut Ctx) {
    cx.contract("principal_values", |g| {
        let r = rep(g);
        let l = [g.var("l0"), g.var("l1"), g.var("l2")];
        let mut t = Tensor2::new(r);
        let p = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]][g.choose("order", 6)];
        for i in 0..3 {
            t.set(i, l[p[i]]);
        }
        principal(g, &t, l)
    });
    cx.contract("general_state", |g| {
        // the invariants of the stored tensor are those of the standard components
        let r = sym_rep(g);
        let t = v2(g, "t", r);
        let s = std2(&t);
        let d = dev(&s);
        let j2 = ddot(&d, &d) / 2.0;
        g.same(t.invariant_jj2(), j2, "J2")?;
        g.same(t.invariant_jj3(), det(&d), "J3")?;
        g.same(t.invariant_sigma_t(), f64::sqrt(2.0 * j2), "sigma_t")?;
        g.same(t.invariant_q(), f64::sqrt(3.0 * j2), "q")?;
        g.same(t.invariant_eps_d(), 2.0 * f64::sqrt(j2) / f64::sqrt(3.0), "eps_d")?;
        let tr = s[0][0] + s[1][1] + s[2][2];
        g.same(t.invariant_p(), tr / 3.0, "p")?;
        g.same(t.invariant_sigma_s(), tr / f64::sqrt(3.0), "sigma_s")?;
        g.same(t.invariant_eps_v(), tr, "eps_v")?;
        if let Some(x) = t.invariant_lode() {
            g.same(2.0 * x * f64::sqrt(j2) * j2, 3.0 * f64::sqrt(3.0) * det(&d), "lode invariant")?;
        }
        Ok(())
    });
    cx.contract("from_octahedral_alpha", |g| {
        let two = g.flag("two_dim");
        let (mut d, mut r, al) = (g.var("distance"), g.pos("radius"), g.var("alpha"));
        if !g.symbolic() {
            // moderate ratios (cancellation)
            d = d % 8.0;
            r = 0.5 + r % 8.0;
        }
        let pi = std::f64::consts::PI;
        match Tensor2::new_from_octahedral_alpha(d, r, al, two) {
            Err(_) => g.holds(al < -pi || al > pi, "accepted angle refused"),
            Ok(t) => {
                g.holds(al >= -pi && al <= pi, "angle outside of the range accepted")?;
                ck!(t.rep() == if two { Rep::Symmetric2D } else { Rep::Symmetric }, "representation");
                let (x, y, _) = t.invariants_octahedral();
                g.same(x, d, "octahedral distance")?;
                g.same(y * y, r * r, "octahedral radius")?;
                for m in 3..t.dim() {
                    g.same(t.get(m), 0.0, "off-diagonal component")?;
                }
                // sin(3 theta) and cos(3 theta) with theta measured from the other axis
                let (s, _c) = (f64::sin(al), f64::cos(al));
                let jj3 = t.invariant_jj3();
                let w = r * r * r * (4.0 * s * s * s - 3.0 * s);
                g.same(jj3 * 3.0 * f64::sqrt(6.0), w, "third invariant of the given angle")
            }
        }
    });
    cx.bounded("from_octahedral", |g| {
        g.tol(1e-6);
        let two = g.flag("two_dim");
        let (d, r, l) = (g.var("distance") % 8.0, 0.5 + g.pos("radius") % 8.0, g.var("lode"));
        match Tensor2::new_from_octahedral(d, r, l, two) {
            Err(_) => g.holds(l < -1.0 || l > 1.0, "accepted lode invariant refused"),
            Ok(t) => {
                g.holds(l >= -1.0 && l <= 1.0, "lode invariant outside of the range accepted")?;
                let (x, y, z) = t.invariants_octahedral();
                g.same(x, d, "octahedral distance")?;
                g.same(y, r, "octahedral radius")?;
                ck!(z.is_some(), "no lode invariant for a radius of {:?}", r);
                g.same(z.unwrap(), l, "lode invariant")?;
                // largest, ... order of the principal values
                g.holds(t.get(0) >= t.get(1) - 1e-12 && t.get(0) >= t.get(2) - 1e-12, "order of the principal values")
            }
        }
    });
    cx.contract("compose", |g| {
        let two = g.flag("two_dim");
        let mut sp = Spectral2::new(two);
        let r = if two { Rep::Symmetric2D } else { Rep::Symmetric };
        for k in 0..3 {
            sp.projectors[k] = v2(g, &format!("p{}", k), r);
        }
        let l = Vector::from(&[g.var("l0"), g.var("l1"), g.var("l2")]);
        let mut t = v2(g, "old", r);
        ck!(sp.compose(&mut t, &l).is_ok(), "compose failed");
        let p: Vec<M3> = (0..3).map(|k| std2(&sp.projectors[k])).collect();
        let w = fill2(|i, j| l[0] * p[0][i][j] + l[1] * p[1][i][j] + l[2] * p[2][i][j]);
        let x = std2(&t);
        eq2(g, &x, &w, "compose")?;
        for k in 0..3 {
            sp.lambda[k] = l[k];
        }
        let (a, b, c) = sp.octahedral_basis();
        g.same(b, (l[0] + l[1] + l[2]) / f64::sqrt(3.0), "octahedral basis: second component")?;
        let m = (l[0] + l[1] + l[2]) / 3.0;
        let r2 = (l[0] - m) * (l[0] - m) + (l[1] - m) * (l[1] - m) + (l[2] - m) * (l[2] - m);
        g.same(a * a + c * c, r2, "octahedral basis: radius")?;
        g.same(a, (2.0 * l[0] - l[1] - l[2]) / f64::sqrt(6.0), "octahedral basis: first component")?;
        g.same(c, (l[2] - l[1]) / f64::sqrt(2.0), "octahedral basis: third component")?;
        let mut bad = Tensor2::new(if two { Rep::Symmetric } else { Rep::Symmetric2D });
        g.holds(sp.compose(&mut bad, &l).is_err(), "compose with another representation")?;
        g.holds(sp.compose(&mut t, &Vector::new(2)).is_err(), "compose with two values")
    });
    cx.bounded("spectral", |g| {
        let two = g.flag("two_dim");
        let r = if two { Rep::Symmetric2D } else { Rep::Symmetric };
        let mut a = v2(g, "a", r);
        match g.choose("kind", 4) {
            0 => {
                // repeated principal values
                let (x, y) = (g.var("x"), g.var("y"));
                a = Tensor2::new(r);
                a.set(0, x);
                a.set(1, x);
                a.set(2, y);
            }
            1 => {
                // rotated, two equal principal values: x I + y n (x) n
                let (x, y, th) = (g.var("x"), g.var("y"), g.var("th"));
                let n = if two { [f64::cos(th), f64::sin(th), 0.0] } else { [f64::cos(th) * 0.6, f64::sin(th) * 0.6, 0.8] };
                a = Tensor2::from_std_matrix(&fill2(|i, j| x * delta(i, j) + y * (n[i] * n[j])), r).unwrap();
            }
            2 => {
                // very different magnitudes
                let k = f64::powi(10.0, g.choose("decade", 13) as i32 - 6);
                for m in 0..a.dim() {
                    if g.flag("scaled") {
                        a.set(m, a.get(m) * k);
                    }
                }
            }
            _ => (),
        }
        let mut big = 0.0;
        for m in 0..a.dim() {
            big = f64::max(big, f64::abs(a.get(m)));
        }
        let mut sp = Spectral2::new(two);
        if let Err(e) = sp.decompose(&a) {
            return Err(format!("decompose failed: {}", e));
        }
        let p: Vec<M3> = (0..3).map(|k| std2(&sp.projectors[k])).collect();
        let w = fill2(|i, j| delta(i, j));
        let x = fill2(|i, j| p[0][i][j] + p[1][i][j] + p[2][i][j]);
        eq2(g, &x, &w, "sum of the projectors")?;
        for k in 0..3 {
            for l in 0..3 {
                let x = fill2(|i, j| sum1(|q| p[k][i][q] * p[l][q][j]));
                let w = fill2(|i, j| if k == l { p[k][i][j] } else { 0.0 });
                eq2(g, &x, &w, &format!("product of projectors {} and {}", k, l))?;
            }
        }
        let mut t = v2(g, "old", r);
        ck!(sp.compose(&mut t, &sp.lambda).is_ok(), "compose failed");
        for m in 0..a.dim() {
            g.holds(f64::abs(t.get(m) - a.get(m)) <= 1e-11 * (1.0 + big), &format!("composed tensor: component {} is {:?}, expected {:?}", m, t.get(m), a.get(m)))?;
        }
        let mut bad = Tensor2::new(if two { Rep::Symmetric } else { Rep::Symmetric2D });
        bad.clear();
        g.holds(sp.decompose(&bad).is_err(), "decompose of another representation")
    });
}
