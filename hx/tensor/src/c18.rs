use crate::tx::*;
use hx_common::{ck, Ctx, Gx, Res};
use russell_tensor::*;

pub fn register(cx: &mut Ctx) {
    cx.contract("linear", |g| {
        let r = rep(g);
        let (mut a, b, mut c) = (v4(g, "a", r), v4(g, "b", r), v4(g, "c", r));
        let (al, be) = (g.var("alpha"), g.var("beta"));
        let (sa, sb) = (std4(&a), std4(&b));
        t4_add(&mut c, al, &a, be, &b);
        let s = std4(&c);
        let w = fill4(|i, j, k, l| al * sa[i][j][k][l] + be * sb[i][j][k][l]);
        eq4(g, &s, &w, "t4_add")?;
        c.set_tensor(al, &a);
        let s = std4(&c);
        let w = fill4(|i, j, k, l| al * sa[i][j][k][l]);
        eq4(g, &s, &w, "set_tensor")?;
        a.update(al, &b);
        let s = std4(&a);
        let w = fill4(|i, j, k, l| sa[i][j][k][l] + al * sb[i][j][k][l]);
        eq4(g, &s, &w, "update")
    });
    cx.contract("dyad", |g| {
        let r = rep(g);
        let (a, b, mut c) = (v2(g, "a", r), v2(g, "b", r), v4(g, "c", r));
        let al = g.var("alpha");
        let (sa, sb, sc) = (std2(&a), std2(&b), std4(&c));
        if g.flag("update") {
            t2_dyad_t2_update(&mut c, al, &a, &b);
            let s = std4(&c);
            let w = fill4(|i, j, k, l| sc[i][j][k][l] + al * sa[i][j] * sb[k][l]);
            eq4(g, &s, &w, "t2_dyad_t2_update")
        } else {
            t2_dyad_t2(&mut c, al, &a, &b);
            let s = std4(&c);
            let w = fill4(|i, j, k, l| al * sa[i][j] * sb[k][l]);
            eq4(g, &s, &w, "t2_dyad_t2")
        }
    });
    cx.contract("ddot_t4_t2", |g| {
        let r = rep(g);
        let (d, a, mut b) = (v4(g, "d", r), v2(g, "a", r), v2(g, "b", r));
        let (al, be) = (g.var("alpha"), g.var("beta"));
        let (sd, sa, sb) = (std4(&d), std2(&a), std2(&b));
        match g.choose("operation", 4) {
            0 => {
                t4_ddot_t2(&mut b, al, &d, &a);
                let s = std2(&b);
                let w = fill2(|i, j| al * sum(|k, l| sd[i][j][k][l] * sa[k][l]));
                eq2(g, &s, &w, "t4_ddot_t2")
            }
            1 => {
                t4_ddot_t2_update(&mut b, al, &d, &a, be);
                let s = std2(&b);
                let w = fill2(|i, j| be * sb[i][j] + al * sum(|k, l| sd[i][j][k][l] * sa[k][l]));
                eq2(g, &s, &w, "t4_ddot_t2_update")
            }
            2 => {
                t2_ddot_t4(&mut b, al, &a, &d);
                let s = std2(&b);
                let w = fill2(|i, j| al * sum(|k, l| sa[k][l] * sd[k][l][i][j]));
                eq2(g, &s, &w, "t2_ddot_t4")
            }
            _ => {
                let x = t2_ddot_t4_ddot_t2(&a, &d, &b);
                let w = sum(|i, j| sum(|k, l| sa[i][j] * sd[i][j][k][l] * sb[k][l]));
                g.same(x, w, "t2_ddot_t4_ddot_t2")
            }
        }
    });
    cx.contract("ddot_t4_t4", |g| {
        let r = rep(g);
        let (c, d, mut e) = (v4(g, "c", r), v4(g, "d", r), v4(g, "e", r));
        let (al, be) = (g.var("alpha"), g.var("beta"));
        let (sc, sd, se) = (std4(&c), std4(&d), std4(&e));
        let prod = |i: usize, j: usize, k: usize, l: usize| sum(|p, q| sc[i][j][p][q] * sd[p][q][k][l]);
        if g.flag("update") {
            t4_ddot_t4_update(&mut e, al, &c, &d, be);
            let s = std4(&e);
            let w = fill4(|i, j, k, l| be * se[i][j][k][l] + al * prod(i, j, k, l));
            eq4(g, &s, &w, "t4_ddot_t4_update")
        } else {
            t4_ddot_t4(&mut e, al, &c, &d);
            let s = std4(&e);
            let w = fill4(|i, j, k, l| al * prod(i, j, k, l));
            eq4(g, &s, &w, "t4_ddot_t4")
        }
    });
    cx.contract("elastoplastic", |g| {
        let r = sym_rep(g);
        let (d, a, b, mut e) = (v4(g, "d", r), v2(g, "a", r), v2(g, "b", r), v4(g, "e", r));
        let (al, be) = (g.var("alpha"), g.var("beta"));
        let (sd, sa, sb) = (std4(&d), std2(&a), std2(&b));
        t4_ddot_t2_dyad_t2_ddot_t4(&mut e, al, &d, be, &a, &b);
        let s = std4(&e);
        let l = fill2(|i, j| sum(|p, q| sd[i][j][p][q] * sa[p][q]));
        let m = fill2(|k, l| sum(|p, q| sb[p][q] * sd[p][q][k][l]));
        let w = fill4(|i, j, k, n| al * sd[i][j][k][n] + be * l[i][j] * m[k][n]);
        eq4(g, &s, &w, "t4_ddot_t2_dyad_t2_ddot_t4")
    });
    cx.contract("elastoplastic_general", |g| {
        // all components of the general storage, one basis tensor at a time
        let r = Rep::General;
        let (d, mut e) = (v4(g, "d", r), v4(g, "e", r));
        let (mut a, mut b) = (Tensor2::new(r), Tensor2::new(r));
        a.set(g.choose("m", 9), 1.0);
        b.set(g.choose("n", 9), 1.0);
        let (al, be) = (g.var("alpha"), g.var("beta"));
        let (sd, sa, sb) = (std4(&d), std2(&a), std2(&b));
        t4_ddot_t2_dyad_t2_ddot_t4(&mut e, al, &d, be, &a, &b);
        let s = std4(&e);
        let l = fill2(|i, j| sum(|p, q| sd[i][j][p][q] * sa[p][q]));
        let m = fill2(|k, l| sum(|p, q| sb[p][q] * sd[p][q][k][l]));
        let w = fill4(|i, j, k, n| al * sd[i][j][k][n] + be * l[i][j] * m[k][n]);
        eq4(g, &s, &w, "t4_ddot_t2_dyad_t2_ddot_t4")
    });
    cx.contract("overbar_underbar", |g| {
        let r = rep(g);
        let (a, b, mut d) = (v2(g, "a", r), v2(g, "b", r), v4(g, "old", Rep::General));
        d.use_loops = g.flag("loops");
        let s = g.var("s");
        let (sa, sb) = (std2(&a), std2(&b));
        if g.flag("underbar") {
            t2_udyad_t2(&mut d, s, &a, &b);
            let x = std4(&d);
            let w = fill4(|i, j, k, l| s * sa[i][l] * sb[j][k]);
            eq4(g, &x, &w, "t2_udyad_t2")
        } else {
            t2_odyad_t2(&mut d, s, &a, &b);
            let x = std4(&d);
            let w = fill4(|i, j, k, l| s * sa[i][k] * sb[j][l]);
            eq4(g, &x, &w, "t2_odyad_t2")
        }
    });
    cx.contract("self_sum", |g| {
        let r = rep(g);
        let (a, b, mut d) = (v2(g, "a", r), v2(g, "b", r), v4(g, "old", Rep::Symmetric));
        d.use_loops = g.flag("loops");
        let s = g.var("s");
        let (sa, sb) = (std2(&a), std2(&b));
        if g.flag("two tensors") {
            t2_qsd_t2(&mut d, s, &a, &b);
            let x = std4(&d);
            let w = fill4(|i, j, k, l| s * (sa[i][k] * sb[j][l] + sa[i][l] * sb[j][k] + sb[i][k] * sa[j][l] + sb[i][l] * sa[j][k]));
            eq4(g, &x, &w, "t2_qsd_t2")
        } else {
            t2_ssd(&mut d, s, &a);
            let x = std4(&d);
            let w = fill4(|i, j, k, l| s * (sa[i][k] * sa[j][l] + sa[i][l] * sa[j][k]));
            eq4(g, &x, &w, "t2_ssd")
        }
    });
    cx.contract("third_order", |g| {
        let r = rep(g);
        let ca = g.flag("case a");
        let (a, b, mut c) = (v3(g, "a", r, ca), v3(g, "b", r, ca), v3(g, "c", r, ca));
        let (al, be) = (g.var("alpha"), g.var("beta"));
        let (sa, sb) = (std3(&a, ca), std3(&b, ca));
        t3_add(&mut c, al, &a, be, &b);
        let s = std3(&c, ca);
        for i in 0..3 {
            for j in 0..3 {
                for k in 0..3 {
                    g.same(s[i][j][k], al * sa[i][j][k] + be * sb[i][j][k], "t3_add")?;
                }
            }
        }
        c.set_tensor(al, &a);
        let s = std3(&c, ca);
        c.update(be, &b);
        let s2 = std3(&c, ca);
        for i in 0..3 {
            for j in 0..3 {
                for k in 0..3 {
                    g.same(s[i][j][k], al * sa[i][j][k], "set_tensor")?;
                    g.same(s2[i][j][k], al * sa[i][j][k] + be * sb[i][j][k], "update")?;
                }
            }
        }
        if ca {
            let (u, mut t) = (v1(g, "u"), v2(g, "old", r));
            t3_dot_t1(&mut t, al, &a, &u);
            let (x, u) = (std2(&t), std1(&u));
            let w = fill2(|i, j| al * sum1(|k| sa[i][j][k] * u[k]));
            eq2(g, &x, &w, "t3_dot_t1")
        } else {
            let (mut u, t) = (v1(g, "old"), v2(g, "t", r));
            t3_ddot_t2(&mut u, al, &a, &t);
            let (t, u) = (std2(&t), std1(&u));
            let w = [0, 1, 2].map(|i| al * sum(|j, k| sa[i][j][k] * t[j][k]));
            eq1(g, &u, &w, "t3_ddot_t2")
        }
    });
    cx.contract("permutation_tensor", |g| {
        let ca = g.flag("case a");
        let t = Tensor3::constant_permutation(ca);
        let s = std3(&t, ca);
        let mut w = [[[0.0; 3]; 3]; 3];
        for (i, j, k) in [(0, 1, 2), (1, 2, 0), (2, 0, 1)] {
            w[i][j][k] = 1.0;
            w[j][i][k] = -1.0;
        }
        eq3(g, &s, &w, "permutation tensor")
    });
    cx.contract("constants", constants);
    cx.contract("inverse_diagonal", |g| {
        let r = rep(g);
        // diagonal in the compact basis: D : D^-1 is the identity on the stored components
        let mut a = Tensor4::new(r);
        for m in 0..a.dim() {
            let v = g.pos(&format!("d{}", m));
            a.set(m, m, v);
        }
        let mut b = v4(g, "old", r);
        let d = match a.calc_inverse(&mut b) {
            Ok(d) => d,
            Err(_) => return g.holds((0..a.dim()).any(|m| a.get(m, m) < 1e-14), "inverse of a positive diagonal refused"),
        };
        let mut w = 1.0;
        for m in 0..a.dim() {
            w = w * a.get(m, m);
            for n in 0..a.dim() {
                g.same(b.get(m, n), if m == n { 1.0 / a.get(m, m) } else { 0.0 }, &format!("inverse {}{}", m, n))?;
            }
        }
        g.same(d, w, "determinant returned with the inverse")
    });
    cx.bounded("inverse", |g| {
        let r = rep(g);
        let mut a = v4(g, "a", r);
        for m in 0..a.dim() {
            a.set(m, m, a.get(m, m) + 12.0 * if g.flag("sign") { 1.0 } else { -1.0 });
        }
        let mut b = v4(g, "old", r);
        if let Err(e) = a.calc_inverse(&mut b) {
            return Err(e.to_string());
        }
        let n = a.dim();
        for i in 0..n {
            for j in 0..n {
                let mut s = 0.0;
                for k in 0..n {
                    s += a.get(i, k) * b.get(k, j);
                }
                g.same(s, if i == j { 1.0 } else { 0.0 }, &format!("tensor times inverse {}{}", i, j))?;
            }
        }
        Ok(())
    });
    cx.bounded("inverse_singular", |g| {
        let r = rep(g);
        let mut a = v4(g, "a", r);
        let k = g.choose("zero row", a.dim());
        for m in 0..a.dim() {
            a.set(k, m, 0.0);
        }
        let mut b = v4(g, "old", r);
        ck!(a.calc_inverse(&mut b).is_err(), "inverse of a singular tensor returned");
        Ok(())
    });
}
fn constants(g: &mut Gx) -> Res {
    let red = g.flag("reduced");
    let a = mat(g, "a", if red { Rep::Symmetric } else { Rep::General });
    let t = (a[0][0] + a[1][1] + a[2][2]) / 3.0;
    let apply = |d: &Tensor4| {
        let s = std4(d);
        fill2(|i, j| sum(|k, l| s[i][j][k][l] * a[k][l]))
    };
    let dim = if red { 6 } else { 9 };
    let w_iso = fill2(|i, j| t * delta(i, j));
    let w_sym = fill2(|i, j| (a[i][j] + a[j][i]) / 2.0);
    let w_skw = fill2(|i, j| (a[i][j] - a[j][i]) / 2.0);
    let w_tr = fill2(|i, j| 3.0 * t * delta(i, j));
    let w_dev = fill2(|i, j| a[i][j] - t * delta(i, j));
    let w_sd = fill2(|i, j| (a[i][j] + a[j][i]) / 2.0 - t * delta(i, j));
    let w_t = fill2(|i, j| a[j][i]);
    let d = Tensor4::constant_jj(red);
    ck!(d.dim() == dim, "constant_jj: dimension");
    let x = apply(&d);
    eq2(g, &x, &w_tr, "constant_jj : a = tr(a) I")?;
    let d = Tensor4::constant_pp_iso(red);
    ck!(d.dim() == dim, "constant_pp_iso: dimension");
    let x = apply(&d);
    eq2(g, &x, &w_iso, "constant_pp_iso : a = tr(a) I / 3")?;
    let d = Tensor4::constant_pp_sym(red);
    ck!(d.dim() == dim, "constant_pp_sym: dimension");
    let x = apply(&d);
    eq2(g, &x, &w_sym, "constant_pp_sym : a = sym(a)")?;
    let d = Tensor4::constant_pp_symdev(red);
    ck!(d.dim() == dim, "constant_pp_symdev: dimension");
    let x = apply(&d);
    eq2(g, &x, &w_sd, "constant_pp_symdev : a = dev(sym(a))")?;
    let mut d = v4(g, "old", if red { Rep::Symmetric } else { Rep::General });
    d.set_pp_symdev();
    let x = apply(&d);
    eq2(g, &x, &w_sd, "set_pp_symdev : a = dev(sym(a))")?;
    if !red {
        let x = apply(&Tensor4::constant_ii());
        eq2(g, &x, &a, "constant_ii : a = a")?;
        let x = apply(&Tensor4::constant_tt());
        eq2(g, &x, &w_t, "constant_tt : a = transpose(a)")?;
        let x = apply(&Tensor4::constant_pp_skew());
        eq2(g, &x, &w_skw, "constant_pp_skew : a = skew(a)")?;
        let x = apply(&Tensor4::constant_pp_dev());
        eq2(g, &x, &w_dev, "constant_pp_dev : a = dev(a)")?;
    }
    Ok(())
}
