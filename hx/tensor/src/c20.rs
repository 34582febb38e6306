use crate::tx::*;
use hx_common::{ck, Ctx, Gx, Res};
use russell_tensor::{LinElasticity, Rep, Tensor2, Tensor4};

/// Young modulus and Poisson ratio (kept away from the values -1 and 1/2 with generated numbers)
fn young_poisson(g: &mut Gx) -> (f64, f64) {
    let e = g.pos("young");
    let mut nu = g.var("poisson");
    if !g.symbolic() {
        nu = f64::abs(nu) % 0.45;
    }
    (e, nu)
}
/// stress of Hooke's law
fn hooke(e: f64, nu: f64, eps: &M3) -> M3 {
    let lam = e * nu / ((1.0 + nu) * (1.0 - 2.0 * nu));
    let mu = e / (2.0 * (1.0 + nu));
    let tr = eps[0][0] + eps[1][1] + eps[2][2];
    fill2(|i, j| lam * tr * delta(i, j) + 2.0 * mu * eps[i][j])
}

fn compliance(g: &mut Gx, k: f64, mu: f64) -> Res {
    let two = g.flag("two_dim");
    let mut m = LinElasticity::new(1.0, 0.0, two, false);
    m.set_bulk_shear(k, mu);
    let r = m.rep();
    let mut cc = v4(g, "old", r);
    if let Err(e) = m.calc_compliance(&mut cc) {
        if g.symbolic() {
            return Ok(()); // pivots below the absolute tolerance
        }
        return Err(e.to_string());
    }
    let n = cc.dim();
    for i in 0..n {
        for j in 0..n {
            let mut s = 0.0;
            for p in 0..n {
                s += m.get_modulus().get(i, p) * cc.get(p, j);
            }
            g.same(s, if i == j { 1.0 } else { 0.0 }, &format!("stiffness times compliance {}{}", i, j))?;
        }
    }
    // strain of Hooke's law
    let (e, nu) = m.get_young_poisson();
    let s = v2(g, "sig", r);
    let ss = std2(&s);
    let tr = ss[0][0] + ss[1][1] + ss[2][2];
    let w = fill2(|i, j| ((1.0 + nu) * ss[i][j] - nu * tr * delta(i, j)) / e);
    let c4 = std4(&cc);
    let x = fill2(|i, j| sum(|k, l| c4[i][j][k][l] * ss[k][l]));
    eq2(g, &x, &w, "compliance times stress")
}

pub fn register(cx: &mut Ctx) {
    cx.contract("stiffness", |g| {
        let two = g.flag("two_dim");
        let (e, nu) = young_poisson(g);
        let mut m = LinElasticity::new(e, nu, two, false);
        let r = if two { Rep::Symmetric2D } else { Rep::Symmetric };
        ck!(m.rep() == r, "representation");
        let (mut e, mut nu) = (e, nu);
        match g.choose("constants set again (1 young/poisson, 2 bulk/shear)", 3) {
            1 => {
                let (e2, nu2) = young_poisson(g);
                e = e2;
                nu = nu2;
                m.set_young_poisson(e, nu);
            }
            2 => {
                let (k, mu) = (g.pos("bulk"), g.pos("shear"));
                m.set_bulk_shear(k, mu);
                let (k2, mu2) = m.get_bulk_shear();
                g.same(k2, k, "bulk modulus")?;
                g.same(mu2, mu, "shear modulus")?;
                let (a, b) = m.get_young_poisson();
                e = a;
                nu = b;
                g.same(e * (3.0 * k + mu), 9.0 * k * mu, "Young modulus from bulk and shear")?;
            }
            _ => (),
        }
        let (a, b) = m.get_young_poisson();
        g.same(a, e, "Young modulus")?;
        g.same(b, nu, "Poisson ratio")?;
        let (k, mu) = m.get_bulk_shear();
        g.same(3.0 * k * (1.0 - 2.0 * nu), e, "bulk modulus")?;
        g.same(2.0 * mu * (1.0 + nu), e, "shear modulus")?;
        let eps = v2(g, "eps", r);
        let w = hooke(e, nu, &std2(&eps));
        let mut s = v2(g, "old", r);
        m.calc_stress(&mut s, &eps);
        let x = std2(&s);
        eq2(g, &x, &w, "calc_stress")?;
        let d = std4(m.get_modulus());
        let x2 = std2(&eps);
        let x = fill2(|i, j| sum(|k, l| d[i][j][k][l] * x2[k][l]));
        eq2(g, &x, &w, "modulus times strain")
    });
    cx.contract("plane_stress", |g| {
        let two = g.flag("two_dim");
        let (e, nu) = young_poisson(g);
        let mut m = LinElasticity::new(e, nu, two, true);
        let (mut e, mut nu) = (e, nu);
        if g.flag("constants set again") {
            let (e2, nu2) = young_poisson(g);
            e = e2;
            nu = nu2;
            m.set_young_poisson(e, nu);
        }
        ck!(m.rep() == Rep::Symmetric2D, "representation");
        let mut eps = v2(g, "eps", Rep::Symmetric2D);
        let mut s = v2(g, "old", Rep::Symmetric2D);
        m.calc_stress(&mut s, &eps);
        g.same(s.get(2), 0.0, "out-of-plane stress")?;
        let ez = match m.out_of_plane_strain(&s) {
            Ok(z) => z,
            Err(e) => return Err(e.to_string()),
        };
        // the completed strain gives the same stress with the three-dimensional law
        eps.set(2, ez);
        let w = hooke(e, nu, &std2(&eps));
        let x = std2(&s);
        eq2(g, &x, &w, "stress of the completed strain")?;
        let mut cc = Tensor4::new(Rep::Symmetric2D);
        g.holds(m.calc_compliance(&mut cc).is_err(), "compliance in plane stress")?;
        let m = LinElasticity::new(e, nu, two, false);
        g.holds(m.out_of_plane_strain(&s).is_err(), "out-of-plane strain without plane stress")
    });
    cx.contract("plane_strain", |g| {
        // in-plane strain: the out-of-plane normal stress is nu (sxx + syy) and no out-of-plane strain
        let (e, nu) = young_poisson(g);
        let m = LinElasticity::new(e, nu, true, false);
        let mut eps = v2(g, "eps", Rep::Symmetric2D);
        eps.set(2, 0.0);
        let mut s = Tensor2::new(Rep::Symmetric2D);
        m.calc_stress(&mut s, &eps);
        g.same(s.get(2), nu * (s.get(0) + s.get(1)), "out-of-plane stress in plane strain")?;
        let ez = (s.get(2) - nu * (s.get(0) + s.get(1))) / e;
        g.same(ez, 0.0, "out-of-plane strain in plane strain")
    });
    cx.contract("compliance", |g| {
        // shear modulus mu and Lame constant mu t or - 2/3 mu / (1 + t) with t > 0
        let (mu, t) = (g.pos("shear"), g.pos("t"));
        let lam = if g.flag("negative") { -(2.0 / 3.0) * mu / (1.0 + t) } else { mu * t };
        compliance(g, lam + 2.0 * mu / 3.0, mu)
    });
    cx.bounded("compliance_bulk_shear", |g| {
        let (k, mu) = (g.pos("bulk"), g.pos("shear"));
        compliance(g, k, mu)
    });
}
