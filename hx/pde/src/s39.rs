//! spectral collocation: the exact polynomial satisfies the assembled equations and is the solution returned
use crate::c29::{axis, Axis};
use hx_common::*;
use russell_lab::{Matrix, Vector};
use russell_pde::{EssentialBcs1d, EssentialBcs2d, FnVec1Param1, NaturalBcs1d, NaturalBcs2d, Side, Spc1d, Spc2d, SpcMap2d, Transfinite2d};

/// polynomial in one variable: derivative of the given order
fn poly(c: &[f64], x: f64, order: usize) -> f64 {
    let mut s = 0.0;
    for i in (order..c.len()).rev() {
        let mut k = 1.0;
        for q in 0..order {
            k = k * (i - q) as f64;
        }
        s = s * x + c[i] * k;
    }
    s
}
/// polynomial in two variables, c[power of x][power of y]
fn poly2(c: &[Vec<f64>], x: f64, y: f64, a: usize, b: usize) -> f64 {
    let r: Vec<f64> = c.iter().map(|d| poly(d, y, b)).collect();
    poly(&r, x, a)
}
fn coefs(g: &mut Gx, n: usize) -> Vec<f64> {
    (0..n).map(|_| g.var("c")).collect()
}
/// size of the terms, for the rounding errors
fn size(g: &Gx, m: &Matrix, a: &Vector) -> f64 {
    if g.symbolic() {
        return 1.0;
    }
    let mut s = 1.0;
    let (nr, nc) = m.dims();
    for i in 0..nr {
        for j in 0..nc {
            s = s + m.get(i, j).abs();
        }
    }
    let mut t = 1.0;
    for i in 0..a.dim() {
        t = t + a[i].abs();
    }
    s * t
}
struct System<'a> {
    exact: &'a Vector,
    prescribed: Vec<bool>,
    kk: Matrix,
    kc: Matrix,
    f: Vector,
    ac: Vector,
    mm: Matrix,
    ff: Vector,
}
/// the exact solution satisfies both systems of equations
fn satisfied(g: &mut Gx, s: &System) -> Res {
    let n = s.exact.dim();
    let (mut u, mut p) = (vec![], vec![]);
    for m in 0..n {
        if s.prescribed[m] {
            p.push(m);
        } else {
            u.push(m);
        }
    }
    ck!(u.len() == 0 || s.kk.dims() == (u.len(), u.len()), "dimensions of the reduced matrix");
    ck!(s.f.dim() == u.len() && s.ac.dim() == p.len() && s.mm.dims() == (n + p.len(), n + p.len()) && s.ff.dim() == n + p.len(), "dimensions of the vectors");
    let big = size(g, &s.mm, s.exact);
    for (i, m) in u.iter().enumerate() {
        let (mut t, mut v) = (0.0, 0.0);
        for (j, k) in u.iter().enumerate() {
            t = t + s.kk.get(i, j) * s.exact[*k];
        }
        for (j, k) in p.iter().enumerate() {
            t = t + s.kc.get(i, j) * s.exact[*k];
        }
        for k in 0..n {
            v = v + s.mm.get(*m, k) * s.exact[k];
        }
        g.same(t / big, s.f[i] / big, &format!("reduced equation of node {}", m))?;
        g.same(v / big, s.ff[*m] / big, &format!("augmented equation of node {}", m))?;
    }
    for (i, m) in p.iter().enumerate() {
        g.same(s.ac[i] / big, s.exact[*m] / big, "prescribed value")?;
        g.same(s.ff[n + i] / big, s.exact[*m] / big, "prescribed value of the augmented system")?;
    }
    for i in 0..p.len() {
        for m in 0..n + p.len() {
            let w = if m == p[i] { 1.0 } else { 0.0 };
            g.same(s.mm.get(n + i, m), w, "constraint equation")?;
            g.same(s.mm.get(m, n + i), w, "multiplier of the constraint")?;
        }
    }
    Ok(())
}
fn essential(i: usize, n: usize, a: Axis) -> bool {
    match a {
        Axis::Periodic => false,
        Axis::Sides(p, q) => (p && i == 0) || (q && i == n - 1),
    }
}
fn sides(a: Axis) -> (bool, bool) {
    match a {
        Axis::Periodic => (false, false),
        Axis::Sides(p, q) => (p, q),
    }
}
fn not_periodic(g: &mut Gx, what: &str) -> Axis {
    match g.choose(what, 4) {
        0 => Axis::Sides(true, true),
        1 => Axis::Sides(true, false),
        2 => Axis::Sides(false, true),
        _ => Axis::Sides(false, false),
    }
}
fn one(g: &mut Gx, solve: bool) -> Res {
    let nx = 2 + g.choose("nodes", if solve { 5 } else { 6 });
    let ax = if solve { not_periodic(g, "sides") } else { axis(g, "sides") };
    if solve && nx == 2 && ax == Axis::Sides(false, false) {
        return Ok(()); // fluxes on both sides say nothing about a linear function through two nodes
    }
    let (x0, w, k, alpha) = if solve {
        (-0.75, 2.5, 1.25, 0.5)
    } else {
        (g.var("xmin"), if g.symbolic() { g.pos("width") } else { 0.5 + g.pos("width") }, g.var("k"), g.var("alpha"))
    };
    let c = coefs(g, nx);
    g.tol(if solve { 1e-5 } else { 1e-9 });
    if !g.symbolic() && (x0.abs() > 10.0 || w > 10.0) {
        return Ok(());
    }
    let (mut e, mut n) = (EssentialBcs1d::new(), NaturalBcs1d::new());
    if ax == Axis::Periodic {
        e.set_periodic(true);
        ck!(Spc1d::new(x0, x0 + w, nx, e, n, k).is_err(), "periodic conditions accepted");
        return Ok(());
    }
    let (a, b) = sides(ax);
    let (p, q) = (c.clone(), c.clone());
    if a { e.set(Side::Xmin, move |x| poly(&p, x, 0)) } else { n.set(Side::Xmin, move |x| k * poly(&p, x, 1)) }
    if b { e.set(Side::Xmax, move |x| poly(&q, x, 0)) } else { n.set(Side::Xmax, move |x| -k * poly(&q, x, 1)) }
    let spc = Spc1d::new(x0, x0 + w, nx, e, n, k)?;
    let r = c.clone();
    let source = move |x: f64| alpha * poly(&r, x, 0) - k * poly(&r, x, 2);
    let mut at = vec![];
    spc.for_each_coord(|_, x| at.push(x));
    let mut exact = Vector::new(nx);
    for m in 0..nx {
        exact[m] = poly(&c, at[m], 0);
    }
    g.same(at[0], x0, "left end")?;
    g.same(at[nx - 1], x0 + w, "right end")?;
    if solve {
        let s = spc.solve_sps(alpha, &source)?;
        let l = spc.solve_lmm(alpha, &source)?;
        let big = size(g, &Matrix::new(0, 0), &exact);
        for m in 0..nx {
            g.same(s[m] / big, exact[m] / big, "partitioned solution")?;
            g.same(l[m] / big, exact[m] / big, "multiplier solution")?;
        }
        return Ok(());
    }
    if spc.get_dims_sps().0 == 0 {
        return Ok(()); // nothing to assemble
    }
    let (kk, kc) = spc.get_matrices_sps(alpha, 0);
    let (_, ac, f) = spc.get_vectors_sps(&source);
    let (mm, _) = spc.get_matrices_lmm(alpha, 0, true);
    let (_, ff) = spc.get_vectors_lmm(&source);
    let prescribed: Vec<bool> = (0..nx).map(|m| essential(m, nx, ax)).collect();
    let mm = mm.as_dense();
    let big = size(g, &mm, &exact);
    let flow = spc.calculate_flow_vectors(&exact)?;
    for m in 0..nx {
        g.same(flow[m] / big, -k * poly(&c, at[m], 1) / big, "flow")?;
    }
    satisfied(g, &System { exact: &exact, prescribed, kk: kk.as_dense(), kc: kc.as_dense(), f, ac, mm, ff })
}
/// corner of two sides with fluxes: the equation combines both
fn two(g: &mut Gx, solve: bool) -> Res {
    let (nx, ny) = (2 + g.choose("nx", 3), 2 + g.choose("ny", if solve { 2 } else { 3 }));
    let (ax, ay) = (not_periodic(g, "xsides"), not_periodic(g, "ysides"));
    if solve && ((nx == 2 && ax == Axis::Sides(false, false)) || (ny == 2 && ay == Axis::Sides(false, false))) {
        return Ok(());
    }
    let (x0, w, y0, h, kx, ky, alpha) = if solve {
        (-0.75, 2.5, 0.5, 1.5, 1.25, 0.75, 0.5)
    } else {
        let (w, h) = (g.pos("width"), g.pos("height"));
        let add = if g.symbolic() { 0.0 } else { 0.5 };
        (g.var("xmin"), w + add, g.var("ymin"), h + add, g.var("kx"), g.var("ky"), g.var("alpha"))
    };
    let c: Vec<Vec<f64>> = (0..nx).map(|_| coefs(g, ny)).collect();
    g.tol(if solve { 1e-5 } else { 1e-9 });
    if !g.symbolic() && (x0.abs() > 10.0 || w > 10.0 || y0.abs() > 10.0 || h > 10.0) {
        return Ok(());
    }
    let (mut e, mut n) = (EssentialBcs2d::new(), NaturalBcs2d::new());
    let (p, q, r, s) = (c.clone(), c.clone(), c.clone(), c.clone());
    let (a, b) = sides(ax);
    if a { e.set(Side::Xmin, move |x, y| poly2(&p, x, y, 0, 0)) } else { n.set(Side::Xmin, move |x, y| kx * poly2(&p, x, y, 1, 0)) }
    if b { e.set(Side::Xmax, move |x, y| poly2(&q, x, y, 0, 0)) } else { n.set(Side::Xmax, move |x, y| -kx * poly2(&q, x, y, 1, 0)) }
    let (a, b) = sides(ay);
    if a { e.set(Side::Ymin, move |x, y| poly2(&r, x, y, 0, 0)) } else { n.set(Side::Ymin, move |x, y| ky * poly2(&r, x, y, 0, 1)) }
    if b { e.set(Side::Ymax, move |x, y| poly2(&s, x, y, 0, 0)) } else { n.set(Side::Ymax, move |x, y| -ky * poly2(&s, x, y, 0, 1)) }
    let spc = Spc2d::new(x0, x0 + w, y0, y0 + h, nx, ny, e, n, kx, ky)?;
    let d = c.clone();
    let source = move |x: f64, y: f64| alpha * poly2(&d, x, y, 0, 0) - kx * poly2(&d, x, y, 2, 0) - ky * poly2(&d, x, y, 0, 2);
    let mut at = vec![];
    spc.for_each_coord(|_, x, y| at.push((x, y)));
    let mut exact = Vector::new(nx * ny);
    for m in 0..nx * ny {
        exact[m] = poly2(&c, at[m].0, at[m].1, 0, 0);
    }
    if solve {
        let s = spc.solve_sps(alpha, &source)?;
        let l = spc.solve_lmm(alpha, &source)?;
        let big = size(g, &Matrix::new(0, 0), &exact);
        for m in 0..nx * ny {
            g.same(s[m] / big, exact[m] / big, "partitioned solution")?;
            g.same(l[m] / big, exact[m] / big, "multiplier solution")?;
        }
        return Ok(());
    }
    if spc.get_dims_sps().0 == 0 {
        return Ok(()); // nothing to assemble
    }
    let (kk, kc) = spc.get_matrices_sps(alpha, 0);
    let (_, ac, f) = spc.get_vectors_sps(&source);
    let (mm, _) = spc.get_matrices_lmm(alpha, 0, true);
    let (_, ff) = spc.get_vectors_lmm(&source);
    let prescribed: Vec<bool> = (0..nx * ny).map(|m| essential(m % nx, nx, ax) || essential(m / nx, ny, ay)).collect();
    let mm = mm.as_dense();
    let big = size(g, &mm, &exact);
    let (fx, fy) = spc.calculate_flow_vectors(&exact)?;
    for m in 0..nx * ny {
        g.same(fx[m] / big, -kx * poly2(&c, at[m].0, at[m].1, 1, 0) / big, "flow along x")?;
        g.same(fy[m] / big, -ky * poly2(&c, at[m].0, at[m].1, 0, 1) / big, "flow along y")?;
    }
    satisfied(g, &System { exact: &exact, prescribed, kk: kk.as_dense(), kc: kc.as_dense(), f, ac, mm, ff })
}
/// x and y as polynomials of r and s, c[component][power of r][power of s]
fn transfinite(c: &Vec<Vec<Vec<f64>>>) -> Transfinite2d {
    let along = |k: usize, b: usize| -> Vec<f64> {
        let e = if b % 2 == 0 { -1.0 } else { 1.0 };
        let c = &c[k];
        (0..3).map(|i| if b < 2 { c[0][i] + c[1][i] * e + c[2][i] } else { c[i][0] + c[i][1] * e + c[i][2] }).collect()
    };
    let f = |order: usize| -> Vec<FnVec1Param1> {
        (0..4)
            .map(|b| {
                let p = [along(0, b), along(1, b)];
                let f: FnVec1Param1 = Box::new(move |v: &mut Vector, t: f64| {
                    for i in 0..2 {
                        v[i] = poly(&p[i], t, order);
                    }
                });
                f
            })
            .collect()
    };
    Transfinite2d::new(f(0), f(1), Some(f(2))).unwrap()
}
fn mapped(g: &mut Gx, solve: bool) -> Res {
    let curved = g.flag("curved");
    let (nr, ns) = if curved { (5, 5) } else { (3 + g.choose("nr", 2), 3 + g.choose("ns", 2)) };
    let (ax, ay) = if curved { (Axis::Sides(true, true), Axis::Sides(true, true)) } else { (not_periodic(g, "xsides"), not_periodic(g, "ysides")) };
    if !curved && ax == Axis::Sides(false, false) && ay == Axis::Sides(false, false) {
        return Ok(());
    }
    let add = if g.symbolic() { 0.0 } else { 0.5 };
    let mut c = vec![vec![vec![0.0; 3]; 3]; 2];
    if curved {
        for (i, a, b, v) in [(0, 0, 0, 0.5), (0, 1, 0, 1.25), (0, 0, 1, 0.125), (0, 1, 1, 0.0625), (0, 0, 2, 0.125), (1, 0, 0, -0.25), (1, 0, 1, 0.75), (1, 1, 0, -0.125), (1, 2, 0, 0.0625)] {
            c[i][a][b] = v;
        }
    } else {
        c[0][0][0] = if solve { 0.5 } else { g.var("x0") };
        c[1][0][0] = if solve { -0.25 } else { g.var("y0") };
        c[0][1][0] = if solve { 1.25 } else { g.pos("half_width") + add };
        c[1][0][1] = if solve { 0.75 } else { g.pos("half_height") + add };
    }
    if !curved && !solve {
        let j = c[0][1][0] * c[1][0][1];
        g.assume_positive(1e15 * j * j - 1.0); // smaller cells are refused
    }
    if !g.symbolic() && (c[0][0][0].abs() > 10.0 || c[1][0][0].abs() > 10.0 || c[0][1][0] > 10.0 || c[1][0][1] > 10.0) {
        return Ok(());
    }
    let (k, alpha) = if solve { (1.25, 0.5) } else { (g.var("k"), g.var("alpha")) };
    g.tol(if solve { 1e-5 } else { 1e-8 });
    // quadratic solution
    let d = vec![coefs(g, 3), { let mut t = coefs(g, 2); t.push(0.0); t }, { let mut t = coefs(g, 1); t.push(0.0); t.push(0.0); t }];
    let (mut e, mut n) = (EssentialBcs2d::new(), NaturalBcs2d::new());
    let (p, q, r, s) = (d.clone(), d.clone(), d.clone(), d.clone());
    let (a, b) = sides(ax);
    if a { e.set(Side::Xmin, move |x, y| poly2(&p, x, y, 0, 0)) } else { n.set(Side::Xmin, move |x, y| k * poly2(&p, x, y, 1, 0)) }
    if b { e.set(Side::Xmax, move |x, y| poly2(&q, x, y, 0, 0)) } else { n.set(Side::Xmax, move |x, y| -k * poly2(&q, x, y, 1, 0)) }
    let (a, b) = sides(ay);
    if a { e.set(Side::Ymin, move |x, y| poly2(&r, x, y, 0, 0)) } else { n.set(Side::Ymin, move |x, y| k * poly2(&r, x, y, 0, 1)) }
    if b { e.set(Side::Ymax, move |x, y| poly2(&s, x, y, 0, 0)) } else { n.set(Side::Ymax, move |x, y| -k * poly2(&s, x, y, 0, 1)) }
    let mut spc = SpcMap2d::new(transfinite(&c), nr, ns, e, n, k)?;
    let t = d.clone();
    let source = move |x: f64, y: f64| alpha * poly2(&t, x, y, 0, 0) - k * poly2(&t, x, y, 2, 0) - k * poly2(&t, x, y, 0, 2);
    let mut at = vec![];
    spc.for_each_coord(|_, x, y| at.push((x, y)));
    let mut exact = Vector::new(nr * ns);
    for m in 0..nr * ns {
        exact[m] = poly2(&d, at[m].0, at[m].1, 0, 0);
    }
    if solve {
        let s = spc.solve_sps(alpha, &source)?;
        let l = spc.solve_lmm(alpha, &source)?;
        let big = size(g, &Matrix::new(0, 0), &exact);
        for m in 0..nr * ns {
            g.same(s[m] / big, exact[m] / big, "partitioned solution")?;
            g.same(l[m] / big, exact[m] / big, "multiplier solution")?;
        }
        return Ok(());
    }
    if spc.get_dims_sps().0 == 0 {
        return Ok(()); // nothing to assemble
    }
    let (kk, kc) = spc.get_matrices_sps(alpha, 0);
    let (_, ac, f) = spc.get_vectors_sps(&source);
    let (mm, _) = spc.get_matrices_lmm(alpha, 0, true);
    let (_, ff) = spc.get_vectors_lmm(&source);
    let prescribed: Vec<bool> = (0..nr * ns).map(|m| essential(m % nr, nr, ax) || essential(m / nr, ns, ay)).collect();
    let mm = mm.as_dense();
    let big = size(g, &mm, &exact);
    let (fx, fy) = spc.calculate_flow_vectors(&exact)?;
    for m in 0..nr * ns {
        g.same(fx[m] / big, -k * poly2(&d, at[m].0, at[m].1, 1, 0) / big, "flow along x")?;
        g.same(fy[m] / big, -k * poly2(&d, at[m].0, at[m].1, 0, 1) / big, "flow along y")?;
    }
    satisfied(g, &System { exact: &exact, prescribed, kk: kk.as_dense(), kc: kc.as_dense(), f, ac, mm, ff })
}

pub fn register(cx: &mut Ctx) {
    cx.contract("equations_in_one_dimension", |g| one(g, false));
    cx.contract("solution_in_one_dimension", |g| one(g, true));
    cx.contract("equations_in_two_dimensions", |g| two(g, false));
    cx.contract("solution_in_two_dimensions", |g| two(g, true));
    cx.contract("equations_on_a_mapped_domain", |g| mapped(g, false));
    cx.contract("solution_on_a_mapped_domain", |g| mapped(g, true));
}
