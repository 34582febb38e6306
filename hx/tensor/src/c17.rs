use crate::tx::*;
use hx_common::{ck, Ctx};
use russell_tensor::{t1_dot_t2, t1_dyad_t1, t2_add, t2_ddot_t2, t2_dot_t1, t2_dot_t2, Rep, Tensor1, Tensor2};

pub fn register(cx: &mut Ctx) {
    cx.contract("linear", |g| {
        let r = rep(g);
        let (mut a, b, c) = (v2(g, "a", r), v2(g, "b", r), v2(g, "c", r));
        let (al, be) = (g.var("alpha"), g.var("beta"));
        let (sa, sb) = (std2(&a), std2(&b));
        let mut t = c.clone();
        t2_add(&mut t, al, &a, be, &b);
        let w = fill2(|i, j| al * sa[i][j] + be * sb[i][j]);
        let s = std2(&t);
        eq2(g, &s, &w, "t2_add")?;
        let mut t = c.clone();
        t.set_tensor(al, &a);
        let w = fill2(|i, j| al * sa[i][j]);
        let s = std2(&t);
        eq2(g, &s, &w, "set_tensor")?;
        let v: Vec<f64> = (0..a.dim()).map(|m| a.get(m)).collect();
        let mut t = c.clone();
        t.set_vector(al, &v);
        let s = std2(&t);
        eq2(g, &s, &w, "set_vector")?;
        a.update(al, &b);
        let w = fill2(|i, j| sa[i][j] + al * sb[i][j]);
        let s = std2(&a);
        eq2(g, &s, &w, "update")
    });
    cx.contract("scalars", |g| {
        let r = rep(g);
        let (a, b) = (v2(g, "a", r), v2(g, "b", r));
        let (s, sb) = (std2(&a), std2(&b));
        g.same(a.determinant(), det(&s), "determinant")?;
        g.same(a.invariant_ii3(), det(&s), "third invariant")?;
        let tr = s[0][0] + s[1][1] + s[2][2];
        g.same(a.trace(), tr, "trace")?;
        g.same(a.invariant_ii1(), tr, "first invariant")?;
        let s2 = sum(|i, k| s[i][k] * s[k][i]);
        g.same(a.invariant_ii2(), (tr * tr - s2) / 2.0, "second invariant")?;
        g.same(a.norm(), f64::sqrt(ddot(&s, &s)), "norm")?;
        let d = dev(&s);
        g.same(a.deviator_norm(), f64::sqrt(ddot(&d, &d)), "norm of the deviator")?;
        g.same(a.deviator_determinant(), det(&d), "determinant of the deviator")?;
        g.same(t2_ddot_t2(&a, &b), ddot(&s, &sb), "double contraction")
    });
    cx.contract("transpose_decompose", |g| {
        let r = rep(g);
        let a = v2(g, "a", r);
        let s = std2(&a);
        let mut t = v2(g, "old", r);
        a.transpose(&mut t);
        let w = fill2(|i, j| s[j][i]);
        let x = std2(&t);
        eq2(g, &x, &w, "transpose")?;
        let (mut p, mut q) = (v2(g, "old_sym", r), v2(g, "old_skw", r));
        a.decompose(&mut p, &mut q);
        let (sp, sq) = (std2(&p), std2(&q));
        let w = fill2(|i, j| (s[i][j] + s[j][i]) / 2.0);
        eq2(g, &sp, &w, "symmetric part")?;
        let w = fill2(|i, j| (s[i][j] - s[j][i]) / 2.0);
        eq2(g, &sq, &w, "skew part")?;
        let (mut om, u) = (v1(g, "old_axial"), v1(g, "u"));
        a.axial_vector(&mut om);
        let (o, u) = (std1(&om), std1(&u));
        let cross = [o[1] * u[2] - o[2] * u[1], o[2] * u[0] - o[0] * u[2], o[0] * u[1] - o[1] * u[0]];
        for i in 0..3 {
            g.same(cross[i], sum1(|j| w[i][j] * u[j]), "axial vector")?;
        }
        Ok(())
    });
    cx.contract("deviator", |g| {
        let r = rep(g);
        let a = v2(g, "a", r);
        let mut t = v2(g, "old", r);
        a.deviator(&mut t);
        let s = std2(&a);
        let w = dev(&s);
        let x = std2(&t);
        eq2(g, &x, &w, "deviator")
    });
    cx.contract("inverse", |g| {
        g.tol(1e-6);
        let r = rep(g);
        let a = v2(g, "a", r);
        let s = std2(&a);
        let d = det(&s);
        let mut t = v2(g, "old", r);
        let tol = g.pos("tol");
        match a.inverse(&mut t, tol) {
            None => g.holds(!(f64::abs(d) > tol * 1.000001), "inverse refused for a determinant above the tolerance"),
            Some(v) => {
                g.holds(f64::abs(d) > tol * 0.999999, "inverse returned for a determinant not above the tolerance")?;
                g.same(v, d, "determinant returned by inverse")?;
                let x = std2(&t);
                let w = fill2(|i, j| delta(i, j));
                let p = fill2(|i, j| sum1(|k| s[i][k] * x[k][j]));
                eq2(g, &p, &w, "tensor times inverse")?;
                let p = fill2(|i, j| sum1(|k| x[i][k] * s[k][j]));
                eq2(g, &p, &w, "inverse times tensor")
            }
        }
    });
    cx.contract("inverse_zero_determinant", |g| {
        let r = rep(g);
        // third row and column zero: determinant zero
        let mut a = mat(g, "a", r);
        for i in 0..3 {
            a[2][i] = 0.0;
            a[i][2] = 0.0;
        }
        let a = match Tensor2::from_std_matrix(&a, r) {
            Ok(a) => a,
            Err(e) => return Err(e.to_string()),
        };
        let mut t = Tensor2::new(r);
        g.holds(a.inverse(&mut t, 0.0).is_none(), "inverse of a tensor with zero determinant")
    });
    cx.contract("squared", |g| {
        let r = rep(g);
        let a = v2(g, "a", r);
        let mut t = v2(g, "old", r);
        a.squared(&mut t);
        let (s, x) = (std2(&a), std2(&t));
        let w = fill2(|i, j| sum1(|k| s[i][k] * s[k][j]));
        eq2(g, &x, &w, "squared")
    });
    cx.contract("single_dot", |g| {
        let r = rep(g);
        let (a, b) = (v2(g, "a", r), v2(g, "b", r));
        let mut t = v2(g, "old", Rep::General);
        t2_dot_t2(&mut t, &a, &b);
        let (s, sb, x) = (std2(&a), std2(&b), std2(&t));
        let w = fill2(|i, j| sum1(|k| s[i][k] * sb[k][j]));
        eq2(g, &x, &w, "t2_dot_t2")?;
        let (al, u, mut v) = (g.var("alpha"), v1(g, "u"), v1(g, "v"));
        let su = std1(&u);
        t2_dot_t1(&mut v, al, &a, &u);
        for i in 0..3 {
            g.same(v.get(i), al * sum1(|k| s[i][k] * su[k]), "t2_dot_t1")?;
        }
        t1_dot_t2(&mut v, al, &u, &a);
        for i in 0..3 {
            g.same(v.get(i), al * sum1(|k| s[k][i] * su[k]), "t1_dot_t2")?;
        }
        Ok(())
    });
    cx.contract("vectors", |g| {
        let (a, b) = (v1(g, "a"), v1(g, "b"));
        let (x, y) = (std1(&a), std1(&b));
        g.same(a.dot(&b), sum1(|i| x[i] * y[i]), "dot product")?;
        let mut c = v1(g, "old");
        a.cross(&mut c, &b);
        let w = [x[1] * y[2] - x[2] * y[1], x[2] * y[0] - x[0] * y[2], x[0] * y[1] - x[1] * y[0]];
        let c = std1(&c);
        eq1(g, &c, &w, "cross product")?;
        let v = a.as_vector();
        for i in 0..3 {
            g.same(v[i], x[i], "as_vector")?;
        }
        Ok(())
    });
    cx.contract("dyad", |g| {
        let r = rep(g);
        let mut t = v2(g, "old", r);
        let al = g.var("alpha");
        let mut u = v1(g, "u");
        let v;
        if r == Rep::General {
            v = v1(g, "v");
        } else {
            // parallel vectors (in the plane for the two-dimensional storage)
            if r == Rep::Symmetric2D {
                u.set(2, 0.0);
            }
            let k = [1.0, 2.0, -0.5][g.choose("ratio", 3)];
            v = Tensor1::from(&[k * u.get(0), k * u.get(1), k * u.get(2)]);
        }
        ck!(t1_dyad_t1(&mut t, al, &u, &v).is_ok(), "dyadic product refused");
        let (x, y, s) = (std1(&u), std1(&v), std2(&t));
        let w = fill2(|i, j| al * x[i] * y[j]);
        eq2(g, &s, &w, "dyadic product")
    });
    cx.contract("dyad_refused", |g| {
        let r = sym_rep(g);
        let (u, v) = (v1(g, "u"), v1(g, "v"));
        let (x, y) = (std1(&u), std1(&v));
        let mut t = Tensor2::new(r);
        let p01 = x[0] * y[1] == x[1] * y[0];
        let p12 = x[1] * y[2] == x[2] * y[1];
        let p02 = x[0] * y[2] == x[2] * y[0];
        let ok = p01 && (r == Rep::Symmetric2D || (p12 && p02));
        g.holds(t1_dyad_t1(&mut t, 1.0, &u, &v).is_ok() == ok, "dyadic product: refusal does not match the data")
    });
    cx.bounded("deviator_large", |g| {
        let r = rep(g);
        let mut a = Tensor2::new(r);
        let scale = f64::powi(10.0, g.choose("decade", 14) as i32);
        let mut big = 0.0;
        for m in 0..a.dim() {
            let v = g.var("a") * scale;
            a.set(m, v);
            big = f64::max(big, f64::abs(v));
        }
        let mut t = v2(g, "old", r);
        a.deviator(&mut t);
        let w = dev(&std2(&a));
        let x = std2(&t);
        for i in 0..3 {
            for j in 0..3 {
                g.holds(f64::abs(x[i][j] - w[i][j]) <= 1e-14 * big, &format!("deviator {}{}: {:?}, expected {:?}", i, j, x[i][j], w[i][j]))?;
            }
        }
        Ok(())
    });
}
