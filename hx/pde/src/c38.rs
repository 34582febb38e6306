use hx_common::*;
use russell_lab::Vector;
use russell_pde::{EssentialBcs1d, EssentialBcs2d, Fdm1d, Fdm2d, Grid1d, Grid2d, NaturalBcs1d, NaturalBcs2d, Side};

#[derive(Clone, Copy, PartialEq)]
struct Model {
    periodic: [bool; 2],
    ess: [Option<f64>; 4],
    nat: [Option<f64>; 4],
}
impl Model {
    /// sides of one axis: the same rules for both
    fn valid(&self, naxis: usize) -> bool {
        for a in 0..naxis {
            for s in 2 * a..2 * a + 2 {
                let (e, n) = (self.ess[s].is_some(), self.nat[s].is_some());
                if e && n {
                    return false;
                }
                if self.periodic[a] {
                    if n {
                        return false;
                    }
                } else if !e && !n {
                    return false;
                }
            }
        }
        true
    }
}

fn two(g: &mut Gx, nx: usize, ny: usize) -> Res {
    let (mut e, mut n) = (EssentialBcs2d::new(), NaturalBcs2d::new());
    let mut m = Model { periodic: [false; 2], ess: [None; 4], nat: [None; 4] };
    // every state reachable by assignments is the result of some of these, in this order ...
    let per = g.choose("periodic first", 4);
    if per > 0 {
        m.periodic = [per & 1 != 0, per & 2 != 0];
        e.set_periodic(m.periodic[0], m.periodic[1]);
    }
    for s in 0..4 {
        match g.choose("side", 4) {
            0 => (),
            1 => {
                let v = g.var("v");
                e.set(Side::from_index(s), move |x, y| v + x + 2.0 * y);
                m.ess[s] = Some(v);
                m.periodic[s / 2] = false;
            }
            2 => {
                let v = g.var("q");
                n.set(Side::from_index(s), move |x, y| v - x * y);
                m.nat[s] = Some(v);
            }
            _ => {
                let v = g.var("v");
                let w = g.var("q");
                e.set(Side::from_index(s), move |x, y| v + x + 2.0 * y);
                n.set(Side::from_index(s), move |x, y| w - x * y);
                m.ess[s] = Some(v);
                m.nat[s] = Some(w);
                m.periodic[s / 2] = false;
            }
        }
    }
    // ... followed by any one operation
    let mut homogeneous = false;
    match g.choose("operation", 7) {
        0 => {
            let s = g.choose("which side", 4);
            let v = g.var("v2");
            e.set(Side::from_index(s), move |x, y| v + x + 2.0 * y);
            m.ess[s] = Some(v);
            m.periodic[s / 2] = false;
        }
        1 => {
            let s = g.choose("which side", 4);
            let v = g.var("q2");
            n.set(Side::from_index(s), move |x, y| v - x * y);
            m.nat[s] = Some(v);
        }
        2 => {
            e.set_homogeneous();
            homogeneous = true;
            m.periodic = [false; 2];
            m.ess = [Some(0.0); 4];
        }
        k => {
            let p = k - 3;
            m.periodic = [p & 1 != 0, p & 2 != 0];
            e.set_periodic(m.periodic[0], m.periodic[1]);
            for a in 0..2 {
                if m.periodic[a] {
                    m.ess[2 * a] = None;
                    m.ess[2 * a + 1] = None;
                }
            }
        }
    }
    g.holds(e.validate(&n).is_ok() == m.valid(2), "acceptance of the boundary conditions")?;
        let grid = Grid2d::new_uniform(-1.0, 2.0, 0.5, 1.5, nx, ny).unwrap();
    let fdm = match Fdm2d::new(grid, e, n, 1.0, 1.0) {
        Ok(f) => f,
        Err(s) => return Err(format!("refused: {}", s)),
    };
    // prescribed nodes are those of the essential sides, each one once
    let on = |k: usize, s: usize| match s {
        0 => k % nx == 0,
        1 => k % nx == nx - 1,
        2 => k / nx == 0,
        _ => k / nx == ny - 1,
    };
    let want: Vec<usize> = (0..nx * ny).filter(|k| (0..4).any(|s| m.ess[s].is_some() && on(*k, s))).collect();
    g.holds(fdm.get_equations().prescribed() == &want, "list of prescribed nodes")?;
    let at: Vec<(f64, f64)> = {
        let mut v = vec![];
        fdm.for_each_coord(|_, x, y| v.push((x, y)));
        v
    };
    // prescribed values (at corners, that of either side)
    let (_, check, f_bar) = fdm.get_vectors_sps(|_, _| 0.0);
    for (i, k) in want.iter().enumerate() {
        let (x, y) = at[*k];
        let mut ok = false;
        for s in 0..4 {
            if let (Some(v), true) = (m.ess[s], on(*k, s)) {
                let w = if homogeneous { 0.0 } else { v + x + 2.0 * y };
                ok = ok || g.same(check[i], w, "").is_ok();
            }
        }
        g.holds(ok, &format!("prescribed value of node {}", k))?;
    }
    if !m.valid(2) {
        return g.holds(fdm.solve_sps(1.0, |_, _| 0.0).is_err() && fdm.solve_lmm(1.0, |_, _| 0.0).is_err(), "inconsistent conditions refused by the solvers");
    }
    // fluxes
    let (dx, dy) = (3.0 / (nx - 1) as f64, 1.0 / (ny - 1) as f64);
    let mut iu = 0;
    for k in 0..nx * ny {
        if want.contains(&k) {
            continue;
        }
        let (x, y) = at[k];
        let (bx, by) = (!m.periodic[0] && (on(k, 0) || on(k, 1)), !m.periodic[1] && (on(k, 2) || on(k, 3)));
        let mut f = 0.0;
        for s in 0..4 {
            if let (Some(v), true) = (m.nat[s], on(k, s)) {
                let other = if s < 2 { by } else { bx };
                f -= (v - x * y) / (if s < 2 { dx } else { dy }) * (if other { 0.5 } else { 1.0 });
            }
        }
        g.same(f_bar[iu], f, &format!("flux at node {}", k))?;
        iu += 1;
    }
    // coupling across periodic sides
    for k in 0..nx * ny {
        let mut row = vec![0.0; nx * ny];
        fdm.loop_over_molecule(k, |q, v| row[q] += v);
        if nx == 3 && k % nx == 0 {
            g.holds((row[k + nx - 1] != 0.0) == m.periodic[0], "coupling across the periodic direction x")?;
        }
        if ny == 3 && k / nx == 0 {
            g.holds((row[k + nx * (ny - 1)] != 0.0) == m.periodic[1], "coupling across the periodic direction y")?;
        }
    }
    Ok(())
}

fn one(g: &mut Gx) -> Res {
    let (mut e, mut n) = (EssentialBcs1d::new(), NaturalBcs1d::new());
    let mut m = Model { periodic: [false; 2], ess: [None; 4], nat: [None; 4] };
    if g.choose("periodic first", 2) == 1 {
        m.periodic[0] = true;
        e.set_periodic(true);
    }
    for s in 0..2 {
        let k = g.choose("side", 4);
        if k & 1 != 0 {
            let v = g.var("v");
            e.set(Side::from_index(s), move |x| v + x);
            m.ess[s] = Some(v);
            m.periodic[0] = false;
        }
        if k & 2 != 0 {
            let v = g.var("q");
            n.set(Side::from_index(s), move |x| v - x);
            m.nat[s] = Some(v);
        }
    }
    let mut homogeneous = false;
    match g.choose("operation", 7) {
        k @ (0 | 1) => {
            let v = g.var("v2");
            e.set(Side::from_index(k), move |x| v + x);
            m.ess[k] = Some(v);
            m.periodic[0] = false;
        }
        k @ (2 | 3) => {
            let v = g.var("q2");
            n.set(Side::from_index(k - 2), move |x| v - x);
            m.nat[k - 2] = Some(v);
        }
        4 => {
            e.set_homogeneous();
            homogeneous = true;
            m.periodic[0] = false;
            m.ess = [Some(0.0), Some(0.0), None, None];
        }
        k => {
            m.periodic[0] = k == 5;
            e.set_periodic(k == 5);
            if k == 5 {
                m.ess = [None; 4];
            }
        }
    }
    g.holds(e.validate(&n).is_ok() == m.valid(1), "acceptance of the boundary conditions")?;
    let nx = 2 + g.choose("nx", 2);
    let grid = Grid1d::new_uniform(-1.0, 2.0, nx).unwrap();
    let x = [-1.0, 2.0];
    let fdm = match Fdm1d::new(grid, e, n, 1.0) {
        Ok(f) => f,
        Err(s) => return Err(format!("refused: {}", s)),
    };
    let node = [0, nx - 1];
    let want: Vec<usize> = (0..2).filter(|s| m.ess[*s].is_some()).map(|s| node[s]).collect();
    g.holds(fdm.get_equations().prescribed() == &want, "list of prescribed nodes")?;
    let (_, check, f_bar): (Vector, Vector, Vector) = fdm.get_vectors_sps(|_| 0.0);
    let mut i = 0;
    for s in 0..2 {
        if let Some(v) = m.ess[s] {
            g.same(check[i], if homogeneous { 0.0 } else { v + x[s] }, "prescribed value")?;
            i += 1;
        }
    }
    if !m.valid(1) {
        return g.holds(fdm.solve_sps(1.0, |_| 0.0).is_err() && fdm.solve_lmm(1.0, |_| 0.0).is_err(), "inconsistent conditions refused by the solvers");
    }
    let dx = 3.0 / (nx - 1) as f64;
    for s in 0..2 {
        if m.ess[s].is_none() {
            let iu = if s == 0 { 0 } else { f_bar.dim() - 1 };
            let f = match m.nat[s] {
                Some(v) => -(v - x[s]) / dx,
                None => 0.0,
            };
            g.same(f_bar[iu], f, "flux")?;
        }
    }
    if nx == 3 {
        let mut row = vec![0.0; nx];
        fdm.loop_over_molecule(0, |q, v| row[q] += v);
        g.holds((row[2] != 0.0) == m.periodic[0], "coupling across the periodic direction")?;
    }
    Ok(())
}

pub fn register(cx: &mut Ctx) {
    cx.contract("assignments_1d", one);
    cx.contract("assignments_2d_2x2", |g| two(g, 2, 2));
    cx.contract("assignments_2d_3x2", |g| two(g, 3, 2));
    cx.contract("assignments_2d_2x3", |g| two(g, 2, 3));
    cx.contract("assignments_2d_3x3", |g| two(g, 3, 3));
}
