use crate::tx::*;
use hx_common::{ck, Ctx, Gx, Res};
use russell_lab::Matrix;
use russell_tensor::{t2_ddot_t2, Rep, Tensor2, Tensor3, Tensor4};

const IJ9: [(usize, usize); 9] = [(0, 0), (1, 1), (2, 2), (0, 1), (1, 2), (0, 2), (1, 0), (2, 1), (2, 0)];

pub fn register(cx: &mut Ctx) {
    cx.contract("tensor2_round_trip", |g| {
        let r = rep(g);
        let a = mat(g, "a", r);
        let mut t = v2(g, "old", r);
        ck!(t.set_std_matrix(&a).is_ok(), "matching data was refused");
        let s = std2(&t);
        eq2(g, &s, &a, "set_std_matrix")?;
        let u = match Tensor2::from_std_matrix(&a, r) {
            Ok(u) => u,
            Err(e) => return Err(format!("from_std_matrix: {}", e)),
        };
        ck!(u.rep() == r, "from_std_matrix changed the representation");
        let s = std2(&u);
        eq2(g, &s, &a, "from_std_matrix")?;
        let mm = Matrix::from(&a);
        let u = match Tensor2::from_std_matrix(&mm, r) {
            Ok(u) => u,
            Err(e) => return Err(format!("from_std_matrix: {}", e)),
        };
        let s = std2(&u);
        eq2(g, &s, &a, "from_std_matrix (matrix)")
    });
    cx.contract("tensor2_access", |g| {
        let r = rep(g);
        let t = v2(g, "t", r);
        let s = std2(&t);
        let got = fill2(|i, j| t.get_std(i, j));
        eq2(g, &got, &s, "get_std")?;
        let m = t.as_std_matrix();
        let got = fill2(|i, j| m.get(i, j));
        eq2(g, &got, &s, "as_std_matrix")?;
        let mut m = Matrix::new(3, 3);
        let old = g.var("old");
        m.fill(old);
        t.to_std_matrix(&mut m);
        let got = fill2(|i, j| m.get(i, j));
        eq2(g, &got, &s, "to_std_matrix (matrix with other content before)")?;
        let u = t.as_general();
        ck!(u.rep() == Rep::General, "as_general: not general");
        let su = std2(&u);
        eq2(g, &su, &s, "as_general")?;
        if r == Rep::Symmetric2D {
            let u = t.sym2d_as_symmetric();
            ck!(u.rep() == Rep::Symmetric, "sym2d_as_symmetric: wrong representation");
            let su = std2(&u);
            eq2(g, &su, &s, "sym2d_as_symmetric")?;
            let (zz, m) = t.as_std_matrix_2d();
            g.same(zz, s[2][2], "as_std_matrix_2d (22)")?;
            for i in 0..2 {
                for j in 0..2 {
                    g.same(m.get(i, j), s[i][j], "as_std_matrix_2d")?;
                }
            }
        }
        Ok(())
    });
    cx.contract("tensor2_isometry", |g| {
        let r = rep(g);
        let (a, b) = (v2(g, "a", r), v2(g, "b", r));
        let (sa, sb) = (std2(&a), std2(&b));
        g.same(t2_ddot_t2(&a, &b), ddot(&sa, &sb), "double contraction")?;
        let n = a.norm();
        g.same(n, f64::sqrt(ddot(&sa, &sa)), "norm")
    });
    cx.contract("tensor2_refuses", |g| {
        let r = sym_rep(g);
        let a = mat(g, "a", Rep::General);
        let sym = a[0][1] == a[1][0] && a[0][2] == a[2][0] && a[1][2] == a[2][1];
        let flat = a[0][2] == 0.0 && a[1][2] == 0.0;
        let ok = sym && (r == Rep::Symmetric || flat);
        let mut t = Tensor2::new(r);
        g.holds(t.set_std_matrix(&a).is_ok() == ok, "set_std_matrix: refusal does not match the data")?;
        let a = mat(g, "b", Rep::Symmetric);
        if r == Rep::Symmetric2D {
            let flat = a[0][2] == 0.0 && a[1][2] == 0.0;
            g.holds(t.set_std_matrix(&a).is_ok() == flat, "set_std_matrix: refusal does not match the (three-dimensional) data")?;
        }
        // one pair at a time
        let p = [(0, 1), (0, 2), (1, 2)][g.choose("pair", 3)];
        let mut a = mat(g, "c", r);
        a[p.1][p.0] = g.var("x");
        if a[p.1][p.0] != a[p.0][p.1] {
            g.holds(t.set_std_matrix(&a).is_err(), "set_std_matrix: one unequal pair accepted")?;
        }
        Ok(())
    });
    cx.contract("tensor2_set", |g| {
        let r = sym_rep(g);
        let mut t = v2(g, "t", r);
        let n = if r == Rep::Symmetric { 6 } else { 4 };
        let (i, j) = IJ9[g.choose("pair", n)];
        let before = std2(&t);
        let (al, v) = (g.var("alpha"), g.var("v"));
        t.sym_add_std(i, j, al, v);
        let mut w = before;
        w[i][j] = w[i][j] + al * v;
        w[j][i] = w[i][j];
        let s = std2(&t);
        eq2(g, &s, &w, "sym_add_std")?;
        if g.flag("swap") {
            t.sym_set_std(j, i, v);
        } else {
            t.sym_set_std(i, j, v);
        }
        w[i][j] = v;
        w[j][i] = v;
        let s = std2(&t);
        eq2(g, &s, &w, "sym_set_std")?;
        t.clear();
        let z = fill2(|_, _| 0.0);
        let s = std2(&t);
        eq2(g, &s, &z, "clear")?;
        let id = Tensor2::identity(r);
        let s = std2(&id);
        let w = fill2(|i, j| delta(i, j));
        eq2(g, &s, &w, "identity")
    });
    cx.contract("tensor4_round_trip", |g| {
        let r = rep(g);
        let a = arr4(g, "a", r);
        let mut t = v4(g, "old", r);
        ck!(t.set_std_array(&a).is_ok(), "matching data was refused");
        let s = std4(&t);
        eq4(g, &s, &a, "set_std_array")?;
        let mut m = Matrix::new(9, 9);
        for p in 0..9 {
            for q in 0..9 {
                m.set(p, q, a[IJ9[p].0][IJ9[p].1][IJ9[q].0][IJ9[q].1]);
            }
        }
        let u = match Tensor4::from_std_matrix(&m, r) {
            Ok(u) => u,
            Err(e) => return Err(format!("from_std_matrix: {}", e)),
        };
        let s = std4(&u);
        eq4(g, &s, &a, "from_std_matrix")?;
        let u = match Tensor4::from_std_array(&a, r) {
            Ok(u) => u,
            Err(e) => return Err(format!("from_std_array: {}", e)),
        };
        let s = std4(&u);
        eq4(g, &s, &a, "from_std_array")
    });
    cx.contract("tensor4_access", |g| {
        let r = rep(g);
        let t = v4(g, "t", r);
        let s = std4(&t);
        let got = fill4(|i, j, k, l| t.get_std(i, j, k, l));
        eq4(g, &got, &s, "get_std")?;
        let m = t.as_std_array();
        let got = fill4(|i, j, k, l| m[i][j][k][l]);
        eq4(g, &got, &s, "as_std_array")?;
        let old = g.var("old");
        let mut m = vec![vec![vec![vec![old; 3]; 3]; 3]; 3];
        t.to_std_array(&mut m);
        let got = fill4(|i, j, k, l| m[i][j][k][l]);
        eq4(g, &got, &s, "to_std_array (array with other content before)")?;
        let m = t.as_std_matrix();
        let mut m2 = Matrix::new(9, 9);
        m2.fill(old);
        t.to_std_matrix(&mut m2);
        for p in 0..9 {
            for q in 0..9 {
                let w = s[IJ9[p].0][IJ9[p].1][IJ9[q].0][IJ9[q].1];
                g.same(m.get(p, q), w, &format!("as_std_matrix ({},{})", p, q))?;
                g.same(m2.get(p, q), w, &format!("to_std_matrix ({},{}) (matrix with other content before)", p, q))?;
            }
        }
        Ok(())
    });
    cx.contract("tensor4_set", |g| {
        let r = sym_rep(g);
        let mut t = v4(g, "t", r);
        let n = if r == Rep::Symmetric { 6 } else { 4 };
        let ((i, j), (k, l)) = (IJ9[g.choose("first pair", n)], IJ9[g.choose("second pair", n)]);
        let mut w = std4(&t);
        let v = g.var("v");
        t.sym_set_std(i, j, k, l, v);
        for (p, q) in [(i, j), (j, i)] {
            for (a, b) in [(k, l), (l, k)] {
                w[p][q][a][b] = v;
            }
        }
        let s = std4(&t);
        eq4(g, &s, &w, "sym_set_std")
    });
    cx.contract("tensor4_refuses", |g| refuses4(g));
    cx.contract("tensor3_round_trip", |g| {
        let r = rep(g);
        let ca = g.flag("case a");
        let a = arr3(g, "a", r, ca);
        let mut t = v3(g, "old", r, ca);
        ck!(t.set_std_array(&a).is_ok(), "matching data was refused");
        let s = std3(&t, ca);
        eq3(g, &s, &a, "set_std_array")?;
        let u = match Tensor3::from_std_array(&a, r, ca) {
            Ok(u) => u,
            Err(e) => return Err(format!("from_std_array: {}", e)),
        };
        let s = std3(&u, ca);
        eq3(g, &s, &a, "from_std_array")?;
        let mut m = if ca { Matrix::new(9, 3) } else { Matrix::new(3, 9) };
        for p in 0..9 {
            for k in 0..3 {
                if ca {
                    m.set(p, k, a[IJ9[p].0][IJ9[p].1][k]);
                } else {
                    m.set(k, p, a[k][IJ9[p].0][IJ9[p].1]);
                }
            }
        }
        let u = match Tensor3::from_std_matrix(&m, r, ca) {
            Ok(u) => u,
            Err(e) => return Err(format!("from_std_matrix: {}", e)),
        };
        let s = std3(&u, ca);
        eq3(g, &s, &a, "from_std_matrix")
    });
    cx.contract("tensor3_access", |g| {
        let r = rep(g);
        let ca = g.flag("case a");
        let t = v3(g, "t", r, ca);
        let s = std3(&t, ca);
        let old = g.var("old");
        let m = t.as_std_array();
        let mut m2 = vec![vec![vec![old; 3]; 3]; 3];
        t.to_std_array(&mut m2);
        for i in 0..3 {
            for j in 0..3 {
                for k in 0..3 {
                    let w = s[i][j][k];
                    g.same(t.get_std(i, j, k), w, &format!("get_std {}{}{}", i, j, k))?;
                    g.same(m[i][j][k], w, &format!("as_std_array {}{}{}", i, j, k))?;
                    g.same(m2[i][j][k], w, &format!("to_std_array {}{}{} (array with other content before)", i, j, k))?;
                }
            }
        }
        let m = t.as_std_matrix();
        let mut m2 = if ca { Matrix::new(9, 3) } else { Matrix::new(3, 9) };
        m2.fill(old);
        t.to_std_matrix(&mut m2);
        for p in 0..9 {
            for k in 0..3 {
                let (x, y, w) = if ca {
                    (m.get(p, k), m2.get(p, k), s[IJ9[p].0][IJ9[p].1][k])
                } else {
                    (m.get(k, p), m2.get(k, p), s[k][IJ9[p].0][IJ9[p].1])
                };
                g.same(x, w, &format!("as_std_matrix {} {}", p, k))?;
                g.same(y, w, &format!("to_std_matrix {} {} (matrix with other content before)", p, k))?;
            }
        }
        Ok(())
    });
    cx.contract("tensor3_set", |g| {
        let r = sym_rep(g);
        let ca = g.flag("case a");
        let mut t = v3(g, "t", r, ca);
        let n = if r == Rep::Symmetric { 6 } else { 4 };
        let ((i, j), k) = (IJ9[g.choose("pair", n)], g.choose("k", 3));
        let mut w = std3(&t, ca);
        let v = g.var("v");
        if ca {
            t.sym_set_std(i, j, k, v);
            w[i][j][k] = v;
            w[j][i][k] = v;
        } else {
            t.sym_set_std(k, i, j, v);
            w[k][i][j] = v;
            w[k][j][i] = v;
        }
        let s = std3(&t, ca);
        eq3(g, &s, &w, "sym_set_std")
    });
}
fn refuses4(g: &mut Gx) -> Res {
    let r = sym_rep(g);
    let mut a = arr4(g, "a", r);
    let (i, j, k, l) = (g.choose("i", 3), g.choose("j", 3), g.choose("k", 3), g.choose("l", 3));
    let x = g.var("x");
    a[i][j][k][l] = x;
    // the entry breaks the symmetry if it has a twin of a different value
    let mut ok = true;
    for (p, q) in [(i, j), (j, i)] {
        for (s, t) in [(k, l), (l, k)] {
            if (p, q, s, t) != (i, j, k, l) && a[p][q][s][t] != x {
                ok = false;
            }
        }
    }
    if r == Rep::Symmetric2D && (i == 2) != (j == 2) && x != 0.0 {
        ok = false;
    }
    if r == Rep::Symmetric2D && (k == 2) != (l == 2) && x != 0.0 {
        ok = false;
    }
    let mut t = Tensor4::new(r);
    g.holds(t.set_std_array(&a).is_ok() == ok, "set_std_array: refusal does not match the data")?;
    let mut m = Matrix::new(9, 9);
    for p in 0..9 {
        for q in 0..9 {
            m.set(p, q, a[IJ9[p].0][IJ9[p].1][IJ9[q].0][IJ9[q].1]);
        }
    }
    let mut t = Tensor4::new(r);
    g.holds(t.set_std_matrix(&m).is_ok() == ok, "set_std_matrix: refusal does not match the data")
}
