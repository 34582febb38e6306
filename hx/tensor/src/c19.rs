use crate::tx::*;
use hx_common::{ck, Ctx, Gx, Res};
use russell_tensor::*;

/// derivative of a scalar with respect to the stored components (orthonormal basis)
fn grad(g: &mut Gx, d1: &Tensor2, sigma: &Tensor2, f: &dyn Fn(&Tensor2) -> f64, what: &str) -> Res {
    for m in 0..sigma.dim() {
        g.same_deriv(
            d1.get(m),
            sigma.get(m),
            &mut |x| {
                let mut s = sigma.clone();
                s.set(m, x);
                f(&s)
            },
            &format!("{}: component {}", what, m),
        )?;
    }
    Ok(())
}
/// derivative of a tensor-valued function; the perturbations have the representation of `base`
fn jac(g: &mut Gx, d: &Tensor4, base: &Tensor2, f: &dyn Fn(&Tensor2) -> Tensor2, what: &str) -> Res {
    ck!(d.dim() == base.dim(), "{}: dimension of the derivative", what);
    // all rows of one column together
    let n = g.choose("column", base.dim());
    for m in 0..base.dim() {
        g.same_deriv(
            d.get(m, n),
            base.get(n),
            &mut |x| {
                let mut s = base.clone();
                s.set(n, x);
                f(&s).get(m)
            },
            &format!("{}: component {},{}", what, m, n),
        )?;
    }
    Ok(())
}
fn three(t: &Tensor2) -> Tensor2 {
    if t.rep() == Rep::Symmetric2D { t.sym2d_as_symmetric() } else { t.clone() }
}
/// tensors away from the points where the invariants are not differentiable
fn sigma(g: &mut Gx, r: Rep) -> Tensor2 {
    let mut s = v2(g, "s", r);
    if !g.symbolic() && s.invariant_jj2() < 0.1 {
        s.set(0, s.get(0) + 2.0);
    }
    s
}

pub fn register(cx: &mut Ctx) {
    cx.contract("norm", |g| {
        let r = rep(g);
        let s = sigma(g, r);
        let mut d = v2(g, "old", r);
        match deriv1_norm(&mut d, &s) {
            None => g.holds(!(s.norm() > 0.0), "derivative of the norm refused"),
            Some(n) => {
                g.same(n, s.norm(), "norm returned")?;
                grad(g, &d, &s, &|t| t.norm(), "derivative of the norm")
            }
        }
    });
    cx.contract("jj2_jj3", |g| {
        let r = sym_rep(g);
        let s = sigma(g, r);
        let mut d = v2(g, "old", r);
        deriv1_invariant_jj2(&mut d, &s);
        grad(g, &d, &s, &|t| t.invariant_jj2(), "derivative of J2")?;
        let mut w = v2(g, "old_s", r);
        deriv1_invariant_jj3(&mut d, &mut w, &s);
        grad(g, &d, &s, &|t| t.invariant_jj3(), "derivative of J3")?;
        let (x, y) = (std2(&w), dev(&std2(&s)));
        eq2(g, &x, &y, "deviator returned")
    });
    cx.contract("sigma_s_p", |g| {
        let r = rep(g);
        let s = sigma(g, r);
        let mut d = v2(g, "old", r);
        deriv1_invariant_sigma_s(&mut d, &s);
        grad(g, &d, &s, &|t| t.invariant_sigma_s(), "derivative of sigma_s")?;
        let mut d = v2(g, "old", r);
        deriv1_invariant_p(&mut d, &s);
        grad(g, &d, &s, &|t| t.invariant_p(), "derivative of p")
    });
    cx.contract("sigma_t_q", |g| {
        let r = sym_rep(g);
        let s = sigma(g, r);
        let j = s.invariant_jj2();
        let mut d = v2(g, "old", r);
        let a = deriv1_invariant_sigma_t(&mut d, &s);
        g.holds(a.is_some() == (j > TOL_J2), "sigma_t: refused exactly for vanishing J2")?;
        if let Some(x) = a {
            g.same(x, j, "J2 returned")?;
            grad(g, &d, &s, &|t| t.invariant_sigma_t(), "derivative of sigma_t")?;
        }
        let b = deriv1_invariant_q(&mut d, &s);
        g.holds(b.is_some() == (j > TOL_J2), "q: refused exactly for vanishing J2")?;
        if let Some(x) = b {
            g.same(x, j, "J2 returned")?;
            grad(g, &d, &s, &|t| t.invariant_q(), "derivative of q")?;
        }
        Ok(())
    });
    cx.contract("lode", |g| {
        let r = sym_rep(g);
        let s = sigma(g, r);
        let j = s.invariant_jj2();
        let (mut d, mut w) = (v2(g, "old", r), v2(g, "old_s", r));
        let a = deriv1_invariant_lode(&mut d, &mut w, &s);
        g.holds(a.is_some() == (j > TOL_J2), "lode: refused exactly for vanishing J2")?;
        if let Some(x) = a {
            g.same(x, j, "J2 returned")?;
            grad(g, &d, &s, &|t| t.invariant_lode().unwrap_or(0.0), "derivative of the lode invariant")?;
        }
        Ok(())
    });
    cx.contract("inverse", |g| {
        let r = rep(g);
        let mut a = v2(g, "a", r);
        if !g.symbolic() {
            for m in 0..3 {
                a.set(m, a.get(m) + 9.0);
            }
        }
        let mut ai = Tensor2::new(r);
        if a.inverse(&mut ai, 1e-10).is_none() {
            return Ok(());
        }
        let mut d = v4(g, "old", Rep::General);
        deriv_inverse_tensor(&mut d, &ai);
        let f = |t: &Tensor2| {
            let mut x = Tensor2::new(t.rep());
            t.inverse(&mut x, 0.0);
            x
        };
        jac(g, &d, &a.as_general(), &f, "derivative of the inverse")
    });
    cx.contract("inverse_sym", |g| {
        let r = sym_rep(g);
        let mut a = v2(g, "a", r);
        if !g.symbolic() {
            for m in 0..3 {
                a.set(m, a.get(m) + 9.0);
            }
        }
        let mut ai = Tensor2::new(r);
        if a.inverse(&mut ai, 1e-10).is_none() {
            return Ok(());
        }
        let mut d = v4(g, "old", Rep::Symmetric);
        d.use_loops = g.flag("loops");
        deriv_inverse_tensor_sym(&mut d, &ai);
        let f = |t: &Tensor2| {
            let mut x = Tensor2::new(t.rep());
            t.inverse(&mut x, 0.0);
            x
        };
        jac(g, &d, &three(&a), &f, "derivative of the inverse (symmetric)")
    });
    cx.contract("squared", |g| {
        let r = rep(g);
        let a = v2(g, "a", r);
        let mut d = v4(g, "old", Rep::General);
        d.use_loops = g.flag("loops");
        let mut ii = v2(g, "old_ii", r);
        deriv_squared_tensor(&mut d, &mut ii, &a);
        let f = |t: &Tensor2| {
            let mut x = Tensor2::new(t.rep());
            t.squared(&mut x);
            x
        };
        jac(g, &d, &a.as_general(), &f, "derivative of the square")
    });
    cx.contract("squared_sym", |g| {
        let r = sym_rep(g);
        let a = v2(g, "a", r);
        let mut d = v4(g, "old", Rep::Symmetric);
        d.use_loops = g.flag("loops");
        let mut ii = v2(g, "old_ii", r);
        deriv_squared_tensor_sym(&mut d, &mut ii, &a);
        let f = |t: &Tensor2| {
            let mut x = Tensor2::new(t.rep());
            t.squared(&mut x);
            x
        };
        jac(g, &d, &three(&a), &f, "derivative of the square (symmetric)")
    });
    cx.contract("second_jj2_jj3", |g| {
        let r = sym_rep(g);
        let s = sigma(g, r);
        let mut d = v4(g, "old", Rep::Symmetric);
        d.use_loops = g.flag("loops");
        if g.flag("jj3") {
            let mut aux = AuxDeriv2InvariantJ3::new();
            deriv2_invariant_jj3(&mut d, &mut aux, &s);
            let f = |t: &Tensor2| {
                let (mut x, mut w) = (Tensor2::new(t.rep()), Tensor2::new(t.rep()));
                deriv1_invariant_jj3(&mut x, &mut w, t);
                x
            };
            jac(g, &d, &three(&s), &f, "second derivative of J3")
        } else {
            deriv2_invariant_jj2(&mut d, &s);
            let f = |t: &Tensor2| {
                let mut x = Tensor2::new(t.rep());
                deriv1_invariant_jj2(&mut x, t);
                x
            };
            jac(g, &d, &three(&s), &f, "second derivative of J2")
        }
    });
    cx.contract("second_sigma_t_q", |g| {
        let r = sym_rep(g);
        let s = sigma(g, r);
        let j = s.invariant_jj2();
        let mut d = v4(g, "old", Rep::Symmetric);
        let mut aux = AuxDeriv2InvariantSigmaT::new();
        let q = g.flag("q");
        let a = if q { deriv2_invariant_q(&mut d, &mut aux, &s) } else { deriv2_invariant_sigma_t(&mut d, &mut aux, &s) };
        g.holds(a.is_some() == (j > TOL_J2), "refused exactly for vanishing J2")?;
        match a {
            None => Ok(()),
            Some(x) => {
                g.same(x, j, "J2 returned")?;
                let f = move |t: &Tensor2| {
                    let mut x = Tensor2::new(t.rep());
                    if q {
                        deriv1_invariant_q(&mut x, t);
                    } else {
                        deriv1_invariant_sigma_t(&mut x, t);
                    }
                    x
                };
                jac(g, &d, &three(&s), &f, if q { "second derivative of q" } else { "second derivative of sigma_t" })
            }
        }
    });
    cx.contract("second_lode", |g| {
        let r = sym_rep(g);
        let s = sigma(g, r);
        let j = s.invariant_jj2();
        let mut d = v4(g, "old", Rep::Symmetric);
        d.use_loops = g.flag("loops");
        let mut aux = AuxDeriv2InvariantLode::new();
        let a = deriv2_invariant_lode(&mut d, &mut aux, &s);
        g.holds(a.is_some() == (j > TOL_J2), "refused exactly for vanishing J2")?;
        match a {
            None => Ok(()),
            Some(x) => {
                g.same(x, j, "J2 returned")?;
                let f = |t: &Tensor2| {
                    let (mut x, mut w) = (Tensor2::new(t.rep()), Tensor2::new(t.rep()));
                    deriv1_invariant_lode(&mut x, &mut w, t);
                    x
                };
                jac(g, &d, &three(&s), &f, "second derivative of the lode invariant")
            }
        }
    });
}
