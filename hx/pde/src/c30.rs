use hx_common::*;
use russell_lab::Vector;
use russell_pde::{FnVec1Param1, FnVec1Param2, FnVec2Param2, FnVec3Param2, Transfinite2d, Transfinite3d};

/// polynomial of one parameter and its derivatives
fn poly(c: &[f64], x: f64, order: usize) -> f64 {
    let mut s = 0.0;
    let mut p = 1.0;
    for i in order..c.len() {
        let mut k = 1;
        for q in 0..order {
            k *= i - q;
        }
        s += c[i] * (k as f64) * p;
        p = p * x;
    }
    s
}
/// tensor-product polynomial of two parameters and its derivatives
fn poly2(c: &[Vec<f64>], x: f64, y: f64, ox: usize, oy: usize) -> f64 {
    let a: Vec<f64> = c.iter().map(|r| poly(r, y, oy)).collect();
    poly(&a, x, ox)
}

/// Components: `which` gets arbitrary coefficients, the others get fixed ones.
fn coefs(g: &mut Gx, which: usize, i: usize, name: &str, n: usize) -> Vec<f64> {
    (0..n)
        .map(|k| if which == i { g.var(&format!("{}{}", name, k)) } else { (1 + k + 2 * i) as f64 * if k % 2 == 0 { 0.5 } else { -0.25 } })
        .collect()
}

fn square(g: &mut Gx, deg: usize, second: bool) -> Result<(Transfinite2d, Vec<Vec<Vec<f64>>>, usize), String> {
    let which = g.choose("component", 2);
    let mut all = vec![];
    for b in 0..4 {
        let c: Vec<Vec<f64>> = (0..2).map(|i| coefs(g, which, i, &format!("b{}_", b), deg + 1)).collect();
        all.push(c);
    }
    Ok((build_square(&all, second)?, all, which))
}
fn build_square(all: &Vec<Vec<Vec<f64>>>, second: bool) -> Result<Transfinite2d, String> {
    let f = |order: usize| -> Vec<FnVec1Param1> {
        all.iter()
            .map(|c| {
                let c = c.clone();
                let b: FnVec1Param1 = Box::new(move |v: &mut Vector, t: f64| {
                    for i in 0..2 {
                        v[i] = poly(&c[i], t, order);
                    }
                });
                b
            })
            .collect()
    };
    Transfinite2d::new(f(0), f(1), if second { Some(f(2)) } else { None }).map_err(|e| e.to_string())
}

/// value, first and second derivatives
fn eval2(m: &mut Transfinite2d, r: f64, s: f64) -> [Vector; 6] {
    let mut v: [Vector; 6] = std::array::from_fn(|_| Vector::from(&[77.0, 77.0]));
    {
        let [x, dr, ds, rr, ss, rs] = &mut v;
        m.point_and_derivs(x, dr, ds, Some(rr), Some(ss), Some(rs), r, s);
    }
    v
}

fn derivatives_2d(g: &mut Gx) -> Res {
    let linear = g.choose("second derivatives absent", 2) == 1;
    let (mut m, _, i) = square(g, if linear { 1 } else { 4 }, !linear)?;
    let (r, s) = (g.var("r"), g.var("s"));
    let v = eval2(&mut m, r, s);
    let mut x = Vector::new(2);
    m.point(&mut x, r, s);
    for k in 0..2 {
        g.same(v[0][k], x[k], "position returned with the derivatives")?;
    }
    let mut p = |m: &mut Transfinite2d, k: usize, r: f64, s: f64| eval2(m, r, s)[k][i];
    g.same_deriv(v[1][i], r, &mut |r| p(&mut m, 0, r, s), "derivative along r")?;
    g.same_deriv(v[2][i], s, &mut |s| p(&mut m, 0, r, s), "derivative along s")?;
    g.same_deriv(v[3][i], r, &mut |r| p(&mut m, 1, r, s), "second derivative along r")?;
    g.same_deriv(v[4][i], s, &mut |s| p(&mut m, 2, r, s), "second derivative along s")?;
    g.same_deriv(v[5][i], r, &mut |r| p(&mut m, 2, r, s), "mixed derivative (s, then r)")?;
    g.same_deriv(v[5][i], s, &mut |s| p(&mut m, 1, r, s), "mixed derivative (r, then s)")?;
    // without the second derivatives
    let (mut a, mut b, mut c) = (Vector::new(2), Vector::new(2), Vector::new(2));
    m.point_and_derivs(&mut a, &mut b, &mut c, None, None, None, r, s);
    for k in 0..2 {
        g.same(a[k], v[0][k], "position (first derivatives only)")?;
        g.same(b[k], v[1][k], "derivative along r (first derivatives only)")?;
        g.same(c[k], v[2][k], "derivative along s (first derivatives only)")?;
    }
    Ok(())
}

fn boundaries_2d(g: &mut Gx) -> Res {
    // sides of a biquadratic surface: they agree at the corners and are arbitrary otherwise
    let which = g.choose("component", 2);
    let c: Vec<Vec<Vec<f64>>> = (0..2).map(|i| (0..3).map(|k| coefs(g, which, i, &format!("c{}", k), 3)).collect()).collect();
    let restrict = |fix_r: bool, at: f64| -> Vec<Vec<f64>> {
        (0..2)
            .map(|i| {
                (0..3)
                    .map(|k| {
                        if fix_r {
                            poly(&[c[i][0][k], c[i][1][k], c[i][2][k]], at, 0)
                        } else {
                            poly(&c[i][k], at, 0)
                        }
                    })
                    .collect()
            })
            .collect()
    };
    let all = vec![restrict(true, -1.0), restrict(true, 1.0), restrict(false, -1.0), restrict(false, 1.0)];
    let mut m = build_square(&all, true)?;
    let t = g.var("t");
    let mut x = Vector::new(2);
    for b in 0..4 {
        let (r, s) = match b {
            0 => (-1.0, t),
            1 => (1.0, t),
            2 => (t, -1.0),
            _ => (t, 1.0),
        };
        m.point(&mut x, r, s);
        let v = eval2(&mut m, r, s);
        for i in 0..2 {
            let w = poly(&all[b][i], t, 0);
            g.same(x[i], w, &format!("point on side {}", b))?;
            g.same(v[0][i], w, &format!("point on side {} (with derivatives)", b))?;
        }
    }
    let (p0, p1, p2, p3) = m.get_corners();
    for (p, r, s) in [(p0, -1.0, -1.0), (p1, 1.0, -1.0), (p2, 1.0, 1.0), (p3, -1.0, 1.0)] {
        for i in 0..2 {
            g.same(p[i], poly2(&c[i], r, s, 0, 0), "corner")?;
        }
    }
    Ok(())
}

fn build_cube(all: &Vec<Vec<Vec<Vec<f64>>>>, second: bool) -> Result<Transfinite3d, String> {
    let f0: Vec<FnVec1Param2> = all
        .iter()
        .map(|c| {
            let c = c.clone();
            let b: FnVec1Param2 = Box::new(move |v: &mut Vector, x: f64, y: f64| {
                for i in 0..3 {
                    v[i] = poly2(&c[i], x, y, 0, 0);
                }
            });
            b
        })
        .collect();
    let f1: Vec<FnVec2Param2> = all
        .iter()
        .map(|c| {
            let c = c.clone();
            let b: FnVec2Param2 = Box::new(move |u: &mut Vector, v: &mut Vector, x: f64, y: f64| {
                for i in 0..3 {
                    u[i] = poly2(&c[i], x, y, 1, 0);
                    v[i] = poly2(&c[i], x, y, 0, 1);
                }
            });
            b
        })
        .collect();
    let f2: Vec<FnVec3Param2> = all
        .iter()
        .map(|c| {
            let c = c.clone();
            let b: FnVec3Param2 = Box::new(move |u: &mut Vector, v: &mut Vector, w: &mut Vector, x: f64, y: f64| {
                for i in 0..3 {
                    u[i] = poly2(&c[i], x, y, 2, 0);
                    v[i] = poly2(&c[i], x, y, 0, 2);
                    w[i] = poly2(&c[i], x, y, 1, 1);
                }
            });
            b
        })
        .collect();
    Transfinite3d::new(f0, f1, if second { Some(f2) } else { None }).map_err(|e| e.to_string())
}

/// value, first derivatives, second derivatives (rr ss tt rs rt st)
fn eval3(m: &mut Transfinite3d, r: f64, s: f64, t: f64) -> [Vector; 10] {
    let mut v: [Vector; 10] = std::array::from_fn(|_| Vector::from(&[77.0, 77.0, 77.0]));
    {
        let [x, dr, ds, dt, rr, ss, tt, rs, rt, st] = &mut v;
        m.point_and_derivs(x, dr, ds, dt, Some(rr), Some(ss), Some(tt), Some(rs), Some(rt), Some(st), r, s, t);
    }
    v
}

fn derivatives_3d(g: &mut Gx) -> Res {
    let linear = g.choose("second derivatives absent", 2) == 1;
    let i = g.choose("component", 3);
    let deg = if linear { 1 } else { 4 };
    let mut all = vec![];
    for b in 0..6 {
        let mut face = vec![];
        for k in 0..3 {
            let mut c: Vec<Vec<f64>> = (0..deg + 1).map(|q| coefs(g, i, k, &format!("b{}_{}", b, q), deg + 1)).collect();
            if linear {
                c[1][1] = 0.0; // all second derivatives are zero
            }
            face.push(c);
        }
        all.push(face);
    }
    let mut m = build_cube(&all, !linear)?;
    let (r, s, t) = (g.var("r"), g.var("s"), g.var("t"));
    let v = eval3(&mut m, r, s, t);
    let mut x = Vector::new(3);
    m.point(&mut x, r, s, t);
    for k in 0..3 {
        g.same(v[0][k], x[k], "position returned with the derivatives")?;
    }
    let at = [r, s, t];
    // (derivative, function, direction)
    let rel = [
        (1, 0, 0, "dr"),
        (2, 0, 1, "ds"),
        (3, 0, 2, "dt"),
        (4, 1, 0, "drr"),
        (5, 2, 1, "dss"),
        (6, 3, 2, "dtt"),
        (7, 1, 1, "drs"),
        (8, 1, 2, "drt"),
        (9, 2, 2, "dst"),
        (7, 2, 0, "dsr"),
        (8, 3, 0, "dtr"),
        (9, 3, 1, "dts"),
    ];
    for (d, f, dir, name) in rel {
        g.same_deriv(
            v[d][i],
            at[dir],
            &mut |z| {
                let mut p = at;
                p[dir] = z;
                eval3(&mut m, p[0], p[1], p[2])[f][i]
            },
            &format!("derivative {}", name),
        )?;
    }
    let mut w: [Vector; 4] = std::array::from_fn(|_| Vector::new(3));
    {
        let [x, dr, ds, dt] = &mut w;
        m.point_and_derivs(x, dr, ds, dt, None, None, None, None, None, None, r, s, t);
    }
    for q in 0..4 {
        for k in 0..3 {
            g.same(w[q][k], v[q][k], "results with first derivatives only")?;
        }
    }
    Ok(())
}

fn boundaries_3d(g: &mut Gx) -> Res {
    // faces of a triquadratic solid
    let which = g.choose("component", 3);
    // c[component][power of r][power of s][power of t]
    let c: Vec<Vec<Vec<Vec<f64>>>> = (0..3)
        .map(|i| (0..3).map(|k| (0..3).map(|q| coefs(g, which, i, &format!("c{}{}", k, q), 3)).collect()).collect())
        .collect();
    // the first parameter of a face is the first of the remaining ones
    let face = |dir: usize, at: f64| -> Vec<Vec<Vec<f64>>> {
        (0..3)
            .map(|i| {
                (0..3)
                    .map(|a| {
                        (0..3)
                            .map(|b| {
                                let z: Vec<f64> = (0..3)
                                    .map(|k| match dir {
                                        0 => c[i][k][a][b],
                                        1 => c[i][a][k][b],
                                        _ => c[i][a][b][k],
                                    })
                                    .collect();
                                poly(&z, at, 0)
                            })
                            .collect()
                    })
                    .collect()
            })
            .collect()
    };
    let all = vec![face(0, -1.0), face(0, 1.0), face(1, -1.0), face(1, 1.0), face(2, -1.0), face(2, 1.0)];
    let mut m = build_cube(&all, true)?;
    let (a, b) = (g.var("a"), g.var("b"));
    let mut x = Vector::new(3);
    for f in 0..6 {
        let e = if f % 2 == 0 { -1.0 } else { 1.0 };
        let (r, s, t) = match f / 2 {
            0 => (e, a, b),
            1 => (a, e, b),
            _ => (a, b, e),
        };
        m.point(&mut x, r, s, t);
        let v = eval3(&mut m, r, s, t);
        for i in 0..3 {
            let w = poly2(&all[f][i], a, b, 0, 0);
            g.same(x[i], w, &format!("point on face {}", f))?;
            g.same(v[0][i], w, &format!("point on face {} (with derivatives)", f))?;
        }
    }
    let p = m.get_corners();
    let p = [p.0, p.1, p.2, p.3, p.4, p.5, p.6, p.7];
    let at = [(-1.0, -1.0), (1.0, -1.0), (1.0, 1.0), (-1.0, 1.0)];
    for k in 0..8 {
        let (r, s) = at[k % 4];
        for i in 0..3 {
            let f = if k < 4 { 4 } else { 5 };
            g.same(p[k][i], poly2(&all[f][i], r, s, 0, 0), &format!("corner {}", k))?;
        }
    }
    Ok(())
}

pub fn register(cx: &mut Ctx) {
    cx.contract("derivatives_2d", derivatives_2d);
    cx.contract("boundaries_2d", boundaries_2d);
    cx.contract("derivatives_3d", derivatives_3d);
    cx.contract("boundaries_3d", boundaries_3d);
}
