use crate::c29::Axis;
use crate::c29s::axis;
use hx_common::*;
use russell_lab::Vector;
use russell_pde::{EssentialBcs1d, EssentialBcs2d, FnVec1Param1, Grid1d, NaturalBcs1d, NaturalBcs2d, Side, Spc1d, Spc2d, SpcMap2d, Transfinite2d};

/// polynomial in a variable scaled to [-1,1], with derivatives along x
#[derive(Clone)]
struct Poly {
    c: Vec<f64>,
    mid: f64,
    half: f64,
}
impl Poly {
    fn new(g: &mut Gen, deg: usize, xmin: f64, xmax: f64) -> Self {
        Poly { c: (0..deg + 1).map(|_| g.range(-1.0, 1.0)).collect(), mid: (xmin + xmax) / 2.0, half: (xmax - xmin) / 2.0 }
    }
    fn at(&self, x: f64, order: usize) -> f64 {
        let r = (x - self.mid) / self.half;
        let mut s = 0.0;
        for i in (order..self.c.len()).rev() {
            let mut k = 1.0;
            for q in 0..order {
                k *= (i - q) as f64;
            }
            s = s * r + self.c[i] * k;
        }
        s / self.half.powi(order as i32)
    }
}

/// fluxes on both sides say nothing about a linear function through two nodes
fn least(a: Axis) -> usize {
    if a == Axis::Sides(false, false) { 3 } else { 2 }
}

/// biquadratic map close to the square
fn geometry(g: &mut Gen, curved: bool) -> Vec<Vec<Vec<f64>>> {
    // c[component][power of r][power of s]
    let mut c = vec![vec![vec![0.0; 3]; 3]; 2];
    for i in 0..2 {
        c[i][0][0] = g.range(-2.0, 2.0);
        if curved {
            for a in 0..3 {
                for b in 0..3 {
                    if a == 0 || b == 0 || (a == 1 && b == 1) {
                        c[i][a][b] += g.range(-0.12, 0.12);
                    }
                }
            }
        }
    }
    let (w, h) = (g.range(0.5, 2.0), g.range(0.5, 2.0));
    c[0][1][0] += w;
    c[1][0][1] += h;
    c
}
fn side_poly(c: &Vec<Vec<f64>>, b: usize) -> Vec<f64> {
    let e: f64 = if b % 2 == 0 { -1.0 } else { 1.0 };
    (0..3).map(|k| if b < 2 { c[0][k] + c[1][k] * e + c[2][k] } else { c[k][0] + c[k][1] * e + c[k][2] }).collect()
}
fn transfinite(c: &Vec<Vec<Vec<f64>>>) -> Transfinite2d {
    let f = |order: usize| -> Vec<FnVec1Param1> {
        (0..4)
            .map(|b| {
                let p = [side_poly(&c[0], b), side_poly(&c[1], b)];
                let f: FnVec1Param1 = Box::new(move |v: &mut Vector, t: f64| {
                    for i in 0..2 {
                        v[i] = match order {
                            0 => p[i][0] + p[i][1] * t + p[i][2] * t * t,
                            1 => p[i][1] + 2.0 * p[i][2] * t,
                            _ => 2.0 * p[i][2],
                        };
                    }
                });
                f
            })
            .collect()
    };
    Transfinite2d::new(f(0), f(1), Some(f(2))).unwrap()
}

pub fn register(cx: &mut Ctx) {
    cx.cases("one_dimension", |g| {
        let ax = axis(g);
        let nx = g.dim(least(ax), 14);
        let (x0, w, k) = (g.range(-2.0, 2.0), g.range(0.3, 4.0), g.range(0.2, 3.0));
        let alpha = if ax == Axis::Sides(false, false) || g.bool() { g.range(0.2, 3.0) } else { 0.0 };
        let deg = g.usize(0, nx - 1);
        let p = Poly::new(g, deg, x0, x0 + w);
        note!(g, "{} nodes on {:?}+{:?} {:?} k {:?} alpha {:?} poly {:?}", nx, x0, w, ax, k, alpha, p.c);
        let (mut e, mut n) = (EssentialBcs1d::new(), NaturalBcs1d::new());
        if let Axis::Sides(a, b) = ax {
            let (u, v) = (p.clone(), p.clone());
            if a { e.set(Side::Xmin, move |x| u.at(x, 0)) } else { n.set(Side::Xmin, move |x| k * u.at(x, 1)) }
            if b { e.set(Side::Xmax, move |x| v.at(x, 0)) } else { n.set(Side::Xmax, move |x| -k * v.at(x, 1)) }
        }
        let spc = Spc1d::new(x0, x0 + w, nx, e, n, k)?;
        let q = p.clone();
        let source = move |x: f64| -k * q.at(x, 2) + alpha * q.at(x, 0);
        let mut at = vec![];
        spc.for_each_coord(|_, x| at.push(x));
        let grid = Grid1d::new_chebyshev_gauss_lobatto(nx)?;
        for m in 0..nx {
            let want = x0 + w * (1.0 + grid.coord(m)) / 2.0;
            ck!(close(at[m], want, 1e-13), "coordinate of node {} is {:?} instead of {:?}", m, at[m], want);
        }
        let s = spc.solve_sps(alpha, &source)?;
        let l = spc.solve_lmm(alpha, &source)?;
        for m in 0..nx {
            let want = p.at(at[m], 0);
            ck!((s[m] - want).abs() < 1e-7, "partitioned solution at {:?} is {:?} instead of {:?}", at[m], s[m], want);
            ck!((l[m] - want).abs() < 1e-7, "multiplier solution at {:?} is {:?} instead of {:?}", at[m], l[m], want);
        }
        let exact = Vector::initialized(nx, |m| p.at(at[m], 0));
        let flow = spc.calculate_flow_vectors(&exact)?;
        for m in 0..nx {
            let want = -k * p.at(at[m], 1);
            ck!((flow[m] - want).abs() < 1e-8 * (1.0 + want.abs()), "flow at {:?} is {:?} instead of {:?}", at[m], flow[m], want);
        }
        // the operator applied to the polynomial
        let (mm, _) = spc.get_matrices_lmm(alpha, 0, false);
        let (neq, nlag, ndim) = spc.get_dims_lmm();
        ck!(neq == nx && ndim == nx + nlag, "dimensions");
        let mm = mm.as_dense();
        for m in 1..nx.max(1) - 1 {
            let mut v = 0.0;
            let mut big = 0.0_f64;
            for n in 0..nx {
                v += mm.get(m, n) * exact[n];
                big = big.max(mm.get(m, n).abs());
            }
            let want = source(at[m]);
            ck!((v - want).abs() < 1e-11 * (1.0 + want.abs() + big), "operator at {:?} gives {:?} instead of {:?}", at[m], v, want);
        }
        let (a_bar, a_check, _) = spc.get_vectors_sps(&source);
        ck!((a_bar.dim(), a_check.dim()) == spc.get_dims_sps(), "dimensions of the partitioned vectors");
        Ok(())
    });
    cx.cases("two_dimensions", |g| {
        let (ax, ay) = (axis(g), axis(g));
        let (nx, ny) = (g.dim(least(ax), 7), g.dim(least(ay), 7));
        let (x0, w, y0, h) = (g.range(-2.0, 2.0), g.range(0.3, 4.0), g.range(-2.0, 2.0), g.range(0.3, 4.0));
        let (kx, ky) = (g.range(0.2, 3.0), g.range(0.2, 3.0));
        let none = |a: Axis| a == Axis::Sides(false, false);
        let alpha = if (none(ax) && none(ay)) || g.bool() { g.range(0.2, 3.0) } else { 0.0 };
        // sum of products of polynomials
        let terms: Vec<(Poly, Poly)> = (0..2)
            .map(|_| {
                let (a, b) = (g.usize(0, nx - 1), g.usize(0, ny - 1));
                (Poly::new(g, a, x0, x0 + w), Poly::new(g, b, y0, y0 + h))
            })
            .collect();
        note!(g, "{}x{} on {:?} {:?} {:?} k {:?} alpha {:?} poly {:?}", nx, ny, (x0, w, y0, h), ax, ay, (kx, ky), alpha,
            terms.iter().map(|t| (t.0.c.clone(), t.1.c.clone())).collect::<Vec<_>>());
        let terms = std::sync::Arc::new(terms);
        let t = terms.clone();
        let u = move |x: f64, y: f64, a: usize, b: usize| t.iter().map(|(p, q)| p.at(x, a) * q.at(y, b)).sum::<f64>();
        let (mut e, mut n) = (EssentialBcs2d::new(), NaturalBcs2d::new());
        if let Axis::Sides(a, b) = ax {
            let (p, q) = (u.clone(), u.clone());
            if a { e.set(Side::Xmin, move |x, y| p(x, y, 0, 0)) } else { n.set(Side::Xmin, move |x, y| kx * p(x, y, 1, 0)) }
            if b { e.set(Side::Xmax, move |x, y| q(x, y, 0, 0)) } else { n.set(Side::Xmax, move |x, y| -kx * q(x, y, 1, 0)) }
        }
        if let Axis::Sides(a, b) = ay {
            let (p, q) = (u.clone(), u.clone());
            if a { e.set(Side::Ymin, move |x, y| p(x, y, 0, 0)) } else { n.set(Side::Ymin, move |x, y| ky * p(x, y, 0, 1)) }
            if b { e.set(Side::Ymax, move |x, y| q(x, y, 0, 0)) } else { n.set(Side::Ymax, move |x, y| -ky * q(x, y, 0, 1)) }
        }
        let spc = Spc2d::new(x0, x0 + w, y0, y0 + h, nx, ny, e, n, kx, ky)?;
        let v = u.clone();
        let source = move |x: f64, y: f64| -kx * v(x, y, 2, 0) - ky * v(x, y, 0, 2) + alpha * v(x, y, 0, 0);
        let mut at = vec![];
        spc.for_each_coord(|_, x, y| at.push((x, y)));
        let s = spc.solve_sps(alpha, &source)?;
        let l = spc.solve_lmm(alpha, &source)?;
        for m in 0..nx * ny {
            let want = u(at[m].0, at[m].1, 0, 0);
            ck!((s[m] - want).abs() < 1e-6, "partitioned solution at {:?} is {:?} instead of {:?}", at[m], s[m], want);
            ck!((l[m] - want).abs() < 1e-6, "multiplier solution at {:?} is {:?} instead of {:?}", at[m], l[m], want);
        }
        let exact = Vector::initialized(nx * ny, |m| u(at[m].0, at[m].1, 0, 0));
        let (fx, fy) = spc.calculate_flow_vectors(&exact)?;
        for m in 0..nx * ny {
            let (p, q) = (-kx * u(at[m].0, at[m].1, 1, 0), -ky * u(at[m].0, at[m].1, 0, 1));
            ck!((fx[m] - p).abs() < 1e-8 * (1.0 + p.abs()), "flow along x at {:?} is {:?} instead of {:?}", at[m], fx[m], p);
            ck!((fy[m] - q).abs() < 1e-8 * (1.0 + q.abs()), "flow along y at {:?} is {:?} instead of {:?}", at[m], fy[m], q);
        }
        let (mm, _) = spc.get_matrices_lmm(alpha, 0, false);
        let mm = mm.as_dense();
        for m in 0..nx * ny {
            let (i, j) = (m % nx, m / nx);
            if i == 0 || j == 0 || i == nx - 1 || j == ny - 1 {
                continue;
            }
            let (mut v, mut big) = (0.0, 0.0_f64);
            for n in 0..nx * ny {
                v += mm.get(m, n) * exact[n];
                big = big.max(mm.get(m, n).abs());
            }
            let want = source(at[m].0, at[m].1);
            ck!((v - want).abs() < 1e-11 * (1.0 + want.abs() + big), "operator at {:?} gives {:?} instead of {:?}", at[m], v, want);
        }
        Ok(())
    });
    cx.cases("mapped_domain", |g| {
        // essential conditions on curved domains; natural ones where the coordinates are orthogonal (straight domains)
        let curved = g.bool();
        let c = geometry(g, curved);
        let (nr, ns) = (g.dim(5, 8), g.dim(5, 8));
        let (ax, ay) = if curved {
            (Axis::Sides(true, true), Axis::Sides(true, true))
        } else {
            let (a, b) = (axis(g), axis(g));
            if a == Axis::Sides(false, false) && b == Axis::Sides(false, false) { (Axis::Sides(true, false), b) } else { (a, b) }
        };
        let k = g.range(0.2, 3.0);
        let alpha = if g.bool() { g.range(0.2, 3.0) } else { 0.0 };
        let q: [f64; 6] = std::array::from_fn(|_| g.range(-1.0, 1.0));
        note!(g, "{}x{} map {:?} {:?} {:?} k {:?} alpha {:?} solution {:?}", nr, ns, c, ax, ay, k, alpha, q);
        let u = move |x: f64, y: f64| q[0] + q[1] * x + q[2] * y + q[3] * x * x + q[4] * x * y + q[5] * y * y;
        let ux = move |x: f64, y: f64| q[1] + 2.0 * q[3] * x + q[4] * y;
        let uy = move |x: f64, y: f64| q[2] + q[4] * x + 2.0 * q[5] * y;
        let (mut e, mut n) = (EssentialBcs2d::new(), NaturalBcs2d::new());
        if let Axis::Sides(a, b) = ax {
            if a { e.set(Side::Xmin, u) } else { n.set(Side::Xmin, move |x, y| k * ux(x, y)) }
            if b { e.set(Side::Xmax, u) } else { n.set(Side::Xmax, move |x, y| -k * ux(x, y)) }
        }
        if let Axis::Sides(a, b) = ay {
            if a { e.set(Side::Ymin, u) } else { n.set(Side::Ymin, move |x, y| k * uy(x, y)) }
            if b { e.set(Side::Ymax, u) } else { n.set(Side::Ymax, move |x, y| -k * uy(x, y)) }
        }
        let mut spc = SpcMap2d::new(transfinite(&c), nr, ns, e, n, k)?;
        let source = move |x: f64, y: f64| -k * 2.0 * (q[3] + q[5]) + alpha * u(x, y);
        let mut at = vec![];
        spc.for_each_coord(|_, x, y| at.push((x, y)));
        let s = spc.solve_sps(alpha, &source)?;
        let l = spc.solve_lmm(alpha, &source)?;
        for m in 0..nr * ns {
            let want = u(at[m].0, at[m].1);
            ck!((s[m] - want).abs() < 1e-6 * (1.0 + want.abs()), "partitioned solution at {:?} is {:?} instead of {:?}", at[m], s[m], want);
            ck!((l[m] - want).abs() < 1e-6 * (1.0 + want.abs()), "multiplier solution at {:?} is {:?} instead of {:?}", at[m], l[m], want);
        }
        let exact = Vector::initialized(nr * ns, |m| u(at[m].0, at[m].1));
        let (fx, fy) = spc.calculate_flow_vectors(&exact)?;
        for m in 0..nr * ns {
            let (p, q) = (-k * ux(at[m].0, at[m].1), -k * uy(at[m].0, at[m].1));
            ck!((fx[m] - p).abs() < 1e-8 * (1.0 + p.abs()), "flow along x at {:?} is {:?} instead of {:?}", at[m], fx[m], p);
            ck!((fy[m] - q).abs() < 1e-8 * (1.0 + q.abs()), "flow along y at {:?} is {:?} instead of {:?}", at[m], fy[m], q);
        }
        Ok(())
    });
}
