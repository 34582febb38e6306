//! solutions of the finite-difference solvers (on the unmodified crate only)
use crate::c29::Axis;
use hx_common::*;
use russell_pde::{EssentialBcs1d, EssentialBcs2d, Fdm1d, Fdm2d, Grid1d, Grid2d, NaturalBcs1d, NaturalBcs2d, Side};
use russell_sparse::Genie;

pub fn axis(g: &mut Gen) -> Axis {
    match g.usize(0, 4) {
        0 => Axis::Sides(true, true),
        1 => Axis::Sides(true, false),
        2 => Axis::Sides(false, true),
        _ => Axis::Sides(false, false),
    }
}

pub fn register(cx: &mut Ctx) {
    cx.cases("solutions_1d", |g| {
        let nx = g.dim(2, 14);
        let ax = if g.chance(1, 6) { Axis::Periodic } else { axis(g) };
        let k = g.range(0.2, 4.0);
        let alpha = if ax == Axis::Sides(false, false) || ax == Axis::Periodic || g.bool() { g.range(0.1, 3.0) } else { 0.0 };
        let (x0, w) = (g.range(-2.0, 2.0), g.range(0.3, 5.0));
        // quadratic solution (constant when periodic)
        let (a, mut b, mut c) = (g.range(-2.0, 2.0), g.range(-2.0, 2.0), g.range(-2.0, 2.0));
        if ax == Axis::Periodic {
            b = 0.0;
            c = 0.0;
        }
        note!(g, "{} nodes on {:?}+{:?} {:?} k {:?} alpha {:?} solution {:?}", nx, x0, w, ax, k, alpha, (a, b, c));
        let u = move |x: f64| a + b * x + c * x * x;
        let du = move |x: f64| b + 2.0 * c * x;
        let (mut e, mut n) = (EssentialBcs1d::new(), NaturalBcs1d::new());
        match ax {
            Axis::Periodic => e.set_periodic(true),
            Axis::Sides(p, q) => {
                if p { e.set(Side::Xmin, u) } else { n.set(Side::Xmin, move |x| k * du(x)) }
                if q { e.set(Side::Xmax, u) } else { n.set(Side::Xmax, move |x| -k * du(x)) }
            }
        }
        let grid = Grid1d::new_uniform(x0, x0 + w, nx)?;
        let x: Vec<f64> = (0..nx).map(|m| grid.coord(m)).collect();
        let mut fdm = Fdm1d::new(grid, e, n, k)?;
        fdm.set_solver_options(Genie::Umfpack, g.bool());
        let source = move |x: f64| -k * 2.0 * c + alpha * u(x);
        let s = fdm.solve_sps(alpha, source)?;
        let l = fdm.solve_lmm(alpha, source)?;
        for m in 0..nx {
            ck!(close(s[m], u(x[m]), 1e-8), "partitioned solution at {:?} is {:?} instead of {:?}", x[m], s[m], u(x[m]));
            ck!(close(l[m], u(x[m]), 1e-8), "multiplier solution at {:?} is {:?} instead of {:?}", x[m], l[m], u(x[m]));
        }
        Ok(())
    });
    cx.cases("solutions_2d", |g| {
        let (nx, ny) = (g.dim(2, 8), g.dim(2, 8));
        let (ax, ay) = (if g.chance(1, 6) { Axis::Periodic } else { axis(g) }, if g.chance(1, 6) { Axis::Periodic } else { axis(g) });
        let (kx, ky) = (g.range(0.2, 4.0), g.range(0.2, 4.0));
        let none = |a: Axis| a == Axis::Periodic || a == Axis::Sides(false, false);
        let alpha = if (none(ax) && none(ay)) || g.bool() { g.range(0.1, 3.0) } else { 0.0 };
        let (x0, w, y0, h) = (g.range(-2.0, 2.0), g.range(0.3, 5.0), g.range(-2.0, 2.0), g.range(0.3, 5.0));
        let mut c: Vec<f64> = (0..6).map(|_| g.range(-2.0, 2.0)).collect();
        if ax == Axis::Periodic {
            c[1] = 0.0;
            c[3] = 0.0;
            c[4] = 0.0;
        }
        if ay == Axis::Periodic {
            c[2] = 0.0;
            c[4] = 0.0;
            c[5] = 0.0;
        }
        note!(g, "{}x{} on {:?} {:?} {:?} k {:?} alpha {:?} solution {:?}", nx, ny, (x0, w, y0, h), ax, ay, (kx, ky), alpha, c);
        let c: [f64; 6] = [c[0], c[1], c[2], c[3], c[4], c[5]];
        let u = move |x: f64, y: f64| c[0] + c[1] * x + c[2] * y + c[3] * x * x + c[4] * x * y + c[5] * y * y;
        let ux = move |x: f64, y: f64| c[1] + 2.0 * c[3] * x + c[4] * y;
        let uy = move |x: f64, y: f64| c[2] + c[4] * x + 2.0 * c[5] * y;
        let (mut e, mut n) = (EssentialBcs2d::new(), NaturalBcs2d::new());
        e.set_periodic(ax == Axis::Periodic, ay == Axis::Periodic);
        if let Axis::Sides(p, q) = ax {
            if p { e.set(Side::Xmin, u) } else { n.set(Side::Xmin, move |x, y| kx * ux(x, y)) }
            if q { e.set(Side::Xmax, u) } else { n.set(Side::Xmax, move |x, y| -kx * ux(x, y)) }
        }
        if let Axis::Sides(p, q) = ay {
            if p { e.set(Side::Ymin, u) } else { n.set(Side::Ymin, move |x, y| ky * uy(x, y)) }
            if q { e.set(Side::Ymax, u) } else { n.set(Side::Ymax, move |x, y| -ky * uy(x, y)) }
        }
        let grid = Grid2d::new_uniform(x0, x0 + w, y0, y0 + h, nx, ny)?;
        let at: Vec<(f64, f64)> = (0..nx * ny).map(|m| grid.coord(m)).collect();
        let mut fdm = Fdm2d::new(grid, e, n, kx, ky)?;
        fdm.set_solver_options(Genie::Umfpack, g.bool());
        let source = move |x: f64, y: f64| -kx * 2.0 * c[3] - ky * 2.0 * c[5] + alpha * u(x, y);
        let s = fdm.solve_sps(alpha, source)?;
        let l = fdm.solve_lmm(alpha, source)?;
        for m in 0..nx * ny {
            let w = u(at[m].0, at[m].1);
            ck!(close(s[m], w, 1e-8), "partitioned solution at {:?} is {:?} instead of {:?}", at[m], s[m], w);
            ck!(close(l[m], w, 1e-8), "multiplier solution at {:?} is {:?} instead of {:?}", at[m], l[m], w);
        }
        Ok(())
    });
    cx.cases("strategies_agree", |g| {
        // arbitrary data: both strategies give the same solution
        let (nx, ny) = (g.dim(2, 8), g.dim(2, 8));
        let (ax, ay) = (if g.chance(1, 4) { Axis::Periodic } else { axis(g) }, if g.chance(1, 4) { Axis::Periodic } else { axis(g) });
        let c: Vec<f64> = (0..8).map(|_| g.range(-2.0, 2.0)).collect();
        let alpha = g.range(0.1, 3.0);
        note!(g, "{}x{} {:?} {:?} alpha {:?} {:?}", nx, ny, ax, ay, alpha, c);
        let (mut e, mut n) = (EssentialBcs2d::new(), NaturalBcs2d::new());
        e.set_periodic(ax == Axis::Periodic, ay == Axis::Periodic);
        for (k, a) in [(0, ax), (2, ay)] {
            if let Axis::Sides(p, q) = a {
                for (i, ess) in [(k, p), (k + 1, q)] {
                    let (u, v) = (c[i], c[i + 4]);
                    if ess {
                        e.set(Side::from_index(i), move |x, y| (u * x + y).sin() + v);
                    } else {
                        n.set(Side::from_index(i), move |x, y| (u * x + y).cos() * v);
                    }
                }
            }
        }
        let grid = Grid2d::new_uniform(-1.0, 1.5, 0.0, 1.0, nx, ny)?;
        let fdm = Fdm2d::new(grid, e, n, c[0].abs() + 0.1, c[1].abs() + 0.1)?;
        let source = |x: f64, y: f64| (3.0 * x * y).sin() + c[2];
        let s = fdm.solve_sps(alpha, source)?;
        let l = fdm.solve_lmm(alpha, source)?;
        for m in 0..nx * ny {
            ck!(close(s[m], l[m], 1e-8), "node {}: {:?} and {:?}", m, s[m], l[m]);
        }
        Ok(())
    });
}
