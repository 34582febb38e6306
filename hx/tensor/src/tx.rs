//! Reference meaning of the compact storage: T = sum_m v_m B_m with the orthonormal basis
//! B_0..B_2 = e_i (x) e_i, B_3..B_5 = (e_i (x) e_j + e_j (x) e_i)/sqrt(2), B_6..B_8 the skew ones,
//! with the pairs (0,1), (1,2), (0,2).
use hx_common::{Gx, Res};
use russell_tensor::{Rep, Tensor1, Tensor2, Tensor3, Tensor4};

pub type M3 = [[f64; 3]; 3];
pub type A3 = [[[f64; 3]; 3]; 3];
pub type A4 = [[[[f64; 3]; 3]; 3]; 3];

pub fn rep(g: &mut Gx) -> Rep {
    [Rep::General, Rep::Symmetric, Rep::Symmetric2D][g.choose("rep (0 general, 1 symmetric, 2 symmetric 2D)", 3)]
}
pub fn sym_rep(g: &mut Gx) -> Rep {
    [Rep::Symmetric, Rep::Symmetric2D][g.choose("rep (0 symmetric, 1 symmetric 2D)", 2)]
}
fn dim(r: Rep) -> usize {
    match r {
        Rep::General => 9,
        Rep::Symmetric => 6,
        Rep::Symmetric2D => 4,
    }
}
/// non-zero standard components of the basis tensor
pub fn basis(m: usize) -> Vec<(usize, usize, f64)> {
    let p = [(0, 1), (1, 2), (0, 2)];
    let r = f64::sqrt(2.0);
    if m < 3 {
        vec![(m, m, 1.0)]
    } else if m < 6 {
        let (i, j) = p[m - 3];
        vec![(i, j, 1.0 / r), (j, i, 1.0 / r)]
    } else {
        let (i, j) = p[m - 6];
        vec![(i, j, 1.0 / r), (j, i, -1.0 / r)]
    }
}
pub fn v1(g: &mut Gx, name: &str) -> Tensor1 {
    let mut t = Tensor1::new();
    for i in 0..3 {
        let v = g.var(&format!("{}{}", name, i));
        t.set(i, v);
    }
    t
}
pub fn v2(g: &mut Gx, name: &str, r: Rep) -> Tensor2 {
    let mut t = Tensor2::new(r);
    for m in 0..dim(r) {
        let v = g.var(&format!("{}{}", name, m));
        t.set(m, v);
    }
    t
}
pub fn v3(g: &mut Gx, name: &str, r: Rep, case_a: bool) -> Tensor3 {
    let mut t = Tensor3::new(r, case_a);
    for m in 0..dim(r) {
        for k in 0..3 {
            let v = g.var(&format!("{}{}{}", name, m, k));
            if case_a {
                t.set(m, k, v);
            } else {
                t.set(k, m, v);
            }
        }
    }
    t
}
pub fn v4(g: &mut Gx, name: &str, r: Rep) -> Tensor4 {
    let mut t = Tensor4::new(r);
    for m in 0..dim(r) {
        for n in 0..dim(r) {
            let v = g.var(&format!("{}{}{}", name, m, n));
            t.set(m, n, v);
        }
    }
    t
}
/// matrix of free components with the structure of the representation
pub fn mat(g: &mut Gx, name: &str, r: Rep) -> M3 {
    let mut a = [[0.0; 3]; 3];
    for i in 0..3 {
        for j in 0..3 {
            if r == Rep::Symmetric2D && (i == 2) != (j == 2) {
                continue;
            }
            if r != Rep::General && i > j {
                a[i][j] = a[j][i];
            } else {
                a[i][j] = g.var(&format!("{}{}{}", name, i, j));
            }
        }
    }
    a
}
fn pair(i: usize, j: usize) -> usize {
    match (i, j) {
        (0, 0) => 0,
        (1, 1) => 1,
        (2, 2) => 2,
        (0, 1) | (1, 0) => 3,
        (1, 2) | (2, 1) => 4,
        _ => 5,
    }
}
pub fn arr4(g: &mut Gx, name: &str, r: Rep) -> A4 {
    let mut a = [[[[0.0; 3]; 3]; 3]; 3];
    for i in 0..3 {
        for j in 0..3 {
            for k in 0..3 {
                for l in 0..3 {
                    if r == Rep::Symmetric2D && (pair(i, j) > 3 || pair(k, l) > 3) {
                        continue;
                    }
                    if r != Rep::General && (i > j || k > l) {
                        let (p, q) = if i > j { (j, i) } else { (i, j) };
                        let (s, t) = if k > l { (l, k) } else { (k, l) };
                        a[i][j][k][l] = a[p][q][s][t];
                    } else {
                        a[i][j][k][l] = g.var(&format!("{}{}{}{}{}", name, i, j, k, l));
                    }
                }
            }
        }
    }
    a
}
pub fn arr3(g: &mut Gx, name: &str, r: Rep, case_a: bool) -> A3 {
    let mut a = [[[0.0; 3]; 3]; 3];
    for i in 0..3 {
        for j in 0..3 {
            for k in 0..3 {
                if r == Rep::Symmetric2D && pair(i, j) > 3 {
                    continue;
                }
                let v = if r != Rep::General && i > j {
                    if case_a { a[j][i][k] } else { a[k][j][i] }
                } else {
                    g.var(&format!("{}{}{}{}", name, i, j, k))
                };
                if case_a {
                    a[i][j][k] = v;
                } else {
                    a[k][i][j] = v;
                }
            }
        }
    }
    a
}
pub fn std2(t: &Tensor2) -> M3 {
    let mut a = [[0.0; 3]; 3];
    for m in 0..dim(t.rep()) {
        for (i, j, b) in basis(m) {
            a[i][j] += t.get(m) * b;
        }
    }
    a
}
pub fn std1(t: &Tensor1) -> [f64; 3] {
    [t.get(0), t.get(1), t.get(2)]
}
pub fn std3(t: &Tensor3, case_a: bool) -> A3 {
    let mut a = [[[0.0; 3]; 3]; 3];
    for m in 0..dim(t.rep()) {
        for k in 0..3 {
            for (i, j, b) in basis(m) {
                if case_a {
                    a[i][j][k] += t.get(m, k) * b;
                } else {
                    a[k][i][j] += t.get(k, m) * b;
                }
            }
        }
    }
    a
}
pub fn std4(t: &Tensor4) -> A4 {
    let mut a = [[[[0.0; 3]; 3]; 3]; 3];
    for m in 0..dim(t.rep()) {
        for n in 0..dim(t.rep()) {
            for (i, j, b) in basis(m) {
                for (k, l, c) in basis(n) {
                    a[i][j][k][l] += t.get(m, n) * b * c;
                }
            }
        }
    }
    a
}
pub fn eq1(g: &mut Gx, a: &[f64; 3], b: &[f64; 3], what: &str) -> Res {
    for i in 0..3 {
        g.same(a[i], b[i], &format!("{}: component {}", what, i))?;
    }
    Ok(())
}
pub fn eq2(g: &mut Gx, a: &M3, b: &M3, what: &str) -> Res {
    for i in 0..3 {
        for j in 0..3 {
            g.same(a[i][j], b[i][j], &format!("{}: component {}{}", what, i, j))?;
        }
    }
    Ok(())
}
pub fn eq3(g: &mut Gx, a: &A3, b: &A3, what: &str) -> Res {
    for i in 0..3 {
        for j in 0..3 {
            for k in 0..3 {
                g.same(a[i][j][k], b[i][j][k], &format!("{}: component {}{}{}", what, i, j, k))?;
            }
        }
    }
    Ok(())
}
pub fn eq4(g: &mut Gx, a: &A4, b: &A4, what: &str) -> Res {
    for i in 0..3 {
        for j in 0..3 {
            for k in 0..3 {
                for l in 0..3 {
                    g.same(a[i][j][k][l], b[i][j][k][l], &format!("{}: component {}{}{}{}", what, i, j, k, l))?;
                }
            }
        }
    }
    Ok(())
}
pub fn fill4(f: impl Fn(usize, usize, usize, usize) -> f64) -> A4 {
    let mut a = [[[[0.0; 3]; 3]; 3]; 3];
    for i in 0..3 {
        for j in 0..3 {
            for k in 0..3 {
                for l in 0..3 {
                    a[i][j][k][l] = f(i, j, k, l);
                }
            }
        }
    }
    a
}
pub fn fill2(f: impl Fn(usize, usize) -> f64) -> M3 {
    let mut a = [[0.0; 3]; 3];
    for i in 0..3 {
        for j in 0..3 {
            a[i][j] = f(i, j);
        }
    }
    a
}
pub fn sum(f: impl Fn(usize, usize) -> f64) -> f64 {
    let mut s = 0.0;
    for i in 0..3 {
        for j in 0..3 {
            s += f(i, j);
        }
    }
    s
}
pub fn sum1(f: impl Fn(usize) -> f64) -> f64 {
    f(0) + f(1) + f(2)
}
pub fn delta(i: usize, j: usize) -> f64 {
    if i == j { 1.0 } else { 0.0 }
}
pub fn det(a: &M3) -> f64 {
    a[0][0] * (a[1][1] * a[2][2] - a[1][2] * a[2][1]) - a[0][1] * (a[1][0] * a[2][2] - a[1][2] * a[2][0])
        + a[0][2] * (a[1][0] * a[2][1] - a[1][1] * a[2][0])
}
pub fn dev(a: &M3) -> M3 {
    let t = (a[0][0] + a[1][1] + a[2][2]) / 3.0;
    fill2(|i, j| a[i][j] - t * delta(i, j))
}
pub fn ddot(a: &M3, b: &M3) -> f64 {
    sum(|i, j| a[i][j] * b[i][j])
}
