use hx_common::*;
use russell_lab::{Matrix, Vector};
use russell_pde::{EssentialBcs1d, EssentialBcs2d, Fdm1d, Fdm2d, Grid1d, Grid2d, NaturalBcs1d, NaturalBcs2d, Side};
use russell_sparse::Sym as Storage;

const KINDS: [Storage; 4] = [Storage::No, Storage::YesLower, Storage::YesUpper, Storage::YesFull];

/// condition of the two sides along one axis
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Axis {
    Periodic,
    Sides(bool, bool), // essential at the lower and upper side (natural otherwise)
}
pub fn axis(g: &mut Gx, what: &str) -> Axis {
    match g.choose(what, 5) {
        0 => Axis::Periodic,
        1 => Axis::Sides(true, true),
        2 => Axis::Sides(true, false),
        3 => Axis::Sides(false, true),
        _ => Axis::Sides(false, false),
    }
}
/// neighbours along one axis (ghosts are mirrored, periodic ones wrapped), and the scaling
fn neighbours(i: usize, n: usize, a: Axis) -> (usize, usize, f64) {
    let last = n - 1;
    match a {
        Axis::Periodic => (if i == 0 { last } else { i - 1 }, if i == last { 0 } else { i + 1 }, 1.0),
        _ => (if i == 0 { 1 } else { i - 1 }, if i == last { last - 1 } else { i + 1 }, if i == 0 || i == last { 0.5 } else { 1.0 }),
    }
}
fn essential(i: usize, n: usize, a: Axis) -> bool {
    match a {
        Axis::Periodic => false,
        Axis::Sides(p, q) => (p && i == 0) || (q && i == n - 1),
    }
}

struct Expected {
    kk: Vec<Vec<f64>>, // complete operator
    f: Vec<f64>,       // complete right-hand side
    unknown: Vec<usize>,
    prescribed: Vec<usize>,
}

/// compares the assembled matrices of both strategies with the complete operator
fn matrices(g: &mut Gx, e: &Expected, kk_bar: &Matrix, kk_check: Option<&Matrix>, mm: &Matrix, cc: Option<&Matrix>) -> Res {
    let (nu, np, n) = (e.unknown.len(), e.prescribed.len(), e.kk.len());
    ck!(kk_bar.dims() == (nu, nu), "dimensions of the reduced matrix {:?}", kk_bar.dims());
    for a in 0..nu {
        for b in 0..nu {
            g.same(kk_bar.get(a, b), e.kk[e.unknown[a]][e.unknown[b]], &format!("reduced matrix, nodes {} and {}", e.unknown[a], e.unknown[b]))?;
        }
    }
    match kk_check {
        None => ck!(np == 0, "no correction matrix with {} prescribed nodes", np),
        Some(m) => {
            ck!(m.dims() == (nu, np), "dimensions of the correction matrix {:?}", m.dims());
            for a in 0..nu {
                for b in 0..np {
                    g.same(m.get(a, b), e.kk[e.unknown[a]][e.prescribed[b]], &format!("correction matrix, nodes {} and {}", e.unknown[a], e.prescribed[b]))?;
                }
            }
        }
    }
    ck!(mm.dims() == (n + np, n + np), "dimensions of the augmented matrix {:?}", mm.dims());
    for a in 0..n + np {
        for b in 0..n + np {
            let w = if a < n && b < n {
                e.kk[a][b]
            } else if a < n {
                if e.prescribed[b - n] == a { 1.0 } else { 0.0 }
            } else if b < n {
                if e.prescribed[a - n] == b { 1.0 } else { 0.0 }
            } else {
                0.0
            };
            g.same(mm.get(a, b), w, &format!("augmented matrix ({},{})", a, b))?;
        }
    }
    match cc {
        None => ck!(np == 0, "no constraints matrix with {} prescribed nodes", np),
        Some(m) => {
            ck!(m.dims() == (np, n), "dimensions of the constraints matrix {:?}", m.dims());
            for a in 0..np {
                for b in 0..n {
                    g.same(m.get(a, b), if e.prescribed[a] == b { 1.0 } else { 0.0 }, &format!("constraints matrix ({},{})", a, b))?;
                }
            }
        }
    }
    for a in 0..n {
        for b in 0..a {
            g.same(e.kk[a][b], e.kk[b][a], "symmetry of the operator")?;
        }
    }
    Ok(())
}
fn vectors(g: &mut Gx, e: &Expected, bar: &Vector, check: &Vector, f_bar: &Vector, aa: &Vector, ff: &Vector, value: &dyn Fn(usize) -> Vec<f64>) -> Res {
    let (nu, np, n) = (e.unknown.len(), e.prescribed.len(), e.kk.len());
    ck!(bar.dim() == nu && f_bar.dim() == nu && check.dim() == np, "dimensions of the vectors");
    ck!(aa.dim() == n + np && ff.dim() == n + np, "dimensions of the augmented vectors");
    for a in 0..nu {
        g.same(f_bar[a], e.f[e.unknown[a]], &format!("right-hand side of node {}", e.unknown[a]))?;
    }
    for a in 0..n {
        if !e.prescribed.contains(&a) {
            g.same(ff[a], e.f[a], &format!("augmented right-hand side of node {}", a))?;
        }
    }
    for a in 0..np {
        // a corner may take the value of either side
        let w = value(e.prescribed[a]);
        let one = |g: &mut Gx, x: f64| -> Res {
            for k in 1..w.len() {
                if g.same(x, w[k], "").is_ok() {
                    return Ok(());
                }
            }
            g.same(x, w[0], &format!("prescribed value of node {}", e.prescribed[a]))
        };
        one(g, check[a])?;
        one(g, ff[n + a])?;
    }
    Ok(())
}

fn one_dim(g: &mut Gx) -> Res {
    let nx = 2 + g.choose("number of nodes", 5);
    let ax = axis(g, "sides");
    let kind = KINDS[g.choose("storage", 4)];
    let (x0, w, k, alpha) = (g.var("xmin"), g.pos("width"), g.var("k"), g.var("alpha"));
    let (q0, q1, s0, s1, v0, v1) = (g.var("q0"), g.var("q1"), g.var("s0"), g.var("s1"), g.var("v0"), g.var("v1"));
    let grid = match Grid1d::new_uniform(x0, x0 + w, nx) {
        Ok(t) => t,
        Err(_) => return Ok(()), // the width is lost by rounding
    };
    let x: Vec<f64> = (0..nx).map(|i| grid.coord(i)).collect();
    let (mut e, mut n) = (EssentialBcs1d::new(), NaturalBcs1d::new());
    match ax {
        Axis::Periodic => e.set_periodic(true),
        Axis::Sides(p, q) => {
            if p {
                e.set(Side::Xmin, move |x| v0 * x);
            } else {
                n.set(Side::Xmin, move |x| q0 + x);
            }
            if q {
                e.set(Side::Xmax, move |x| v1 + x);
            } else {
                n.set(Side::Xmax, move |x| q1 * x);
            }
        }
    }
    let fdm = match Fdm1d::new(grid, e, n, k) {
        Ok(t) => t,
        Err(m) => return Err(format!("refused: {}", m)),
    };
    let source = move |x: f64| s0 + s1 * x;
    let unknown: Vec<usize> = (0..nx).filter(|i| !essential(*i, nx, ax)).collect();
    let prescribed: Vec<usize> = (0..nx).filter(|i| essential(*i, nx, ax)).collect();
    if unknown.len() == 0 {
        return Ok(());
    }
    let h = w / (nx - 1) as f64;
    let mut kk = vec![vec![0.0; nx]; nx];
    let mut f = vec![0.0; nx];
    for m in 0..nx {
        let (l, r, c) = neighbours(m, nx, ax);
        kk[m][m] += c * (2.0 * k / (h * h) + alpha);
        kk[m][l] -= c * k / (h * h);
        kk[m][r] -= c * k / (h * h);
        f[m] = c * (s0 + s1 * x[m]);
        if ax != Axis::Periodic && m == 0 {
            f[m] -= (q0 + x[m]) / h;
        }
        if ax != Axis::Periodic && m == nx - 1 {
            f[m] -= q1 * x[m] / h;
        }
    }
    g.tol(1e-9);
    let e = Expected { kk, f, unknown, prescribed };
    ck!(fdm.get_dims_sps() == (e.unknown.len(), e.prescribed.len()), "dimensions {:?}", fdm.get_dims_sps());
    ck!(fdm.get_dims_lmm() == (nx, e.prescribed.len(), nx + e.prescribed.len()), "dimensions {:?}", fdm.get_dims_lmm());
    let (a, b) = fdm.get_matrices_sps(alpha, 0, kind);
    let (c, d) = fdm.get_matrices_lmm(alpha, 0, true, kind);
    matrices(g, &e, &a.as_dense(), b.map(|m| m.as_dense()).as_ref(), &c.as_dense(), d.map(|m| m.as_dense()).as_ref())?;
    let (p, q, r) = fdm.get_vectors_sps(source);
    let (s, t) = fdm.get_vectors_lmm(source);
    let last = nx - 1;
    vectors(g, &e, &p, &q, &r, &s, &t, &|m| if m == last { vec![v1 + x[m]] } else { vec![v0 * x[m]] })?;
    // the molecule without the scaling of the boundaries
    for m in 0..nx {
        let mut row = vec![0.0; nx];
        fdm.loop_over_molecule(m, |n, v| row[n] += v);
        let (l, r, _) = neighbours(m, nx, ax);
        let mut want = vec![0.0; nx];
        want[m] += 2.0 * k / (h * h);
        want[l] -= k / (h * h);
        want[r] -= k / (h * h);
        for n in 0..nx {
            g.same(row[n], want[n], &format!("molecule of node {} at {}", m, n))?;
        }
    }
    let mut a_bar = Vector::new(e.unknown.len());
    let mut a_check = Vector::new(e.prescribed.len());
    for i in 0..e.unknown.len() {
        a_bar[i] = 10.0 + e.unknown[i] as f64;
    }
    for i in 0..e.prescribed.len() {
        a_check[i] = 10.0 + e.prescribed[i] as f64;
    }
    let a = fdm.get_joined_vector_sps(&a_bar, &a_check);
    for i in 0..nx {
        g.same(a[i], 10.0 + i as f64, &format!("joined vector {}", i))?;
    }
    Ok(())
}

fn two_dim(g: &mut Gx, nx: usize, ny: usize) -> Res {
    let (ax, ay) = (axis(g, "sides along x"), axis(g, "sides along y"));
    let kind = KINDS[g.choose("storage", 4)];
    let (x0, y0, w, h) = (g.var("xmin"), g.var("ymin"), g.pos("width"), g.pos("height"));
    let (kx, ky, alpha) = (g.var("kx"), g.var("ky"), g.var("alpha"));
    let c: Vec<f64> = (0..6).map(|i| g.var(&format!("c{}", i))).collect();
    let grid = match Grid2d::new_uniform(x0, x0 + w, y0, y0 + h, nx, ny) {
        Ok(t) => t,
        Err(_) => return Ok(()),
    };
    let n = nx * ny;
    let at: Vec<(f64, f64)> = (0..n).map(|i| grid.coord(i)).collect();
    // functions of the four sides
    let side = move |k: usize, x: f64, y: f64| match k {
        0 => 1.0 + c[0] * y - x,
        1 => c[1] + y * y,
        2 => c[2] * x + 2.0 * y,
        _ => c[3] - x * y,
    };
    let (mut eb, mut nb) = (EssentialBcs2d::new(), NaturalBcs2d::new());
    eb.set_periodic(ax == Axis::Periodic, ay == Axis::Periodic);
    for (k, a) in [(0, ax), (2, ay)] {
        if let Axis::Sides(p, q) = a {
            for (i, ess) in [(k, p), (k + 1, q)] {
                let f = side.clone();
                if ess {
                    eb.set(Side::from_index(i), move |x, y| f(i, x, y));
                } else {
                    nb.set(Side::from_index(i), move |x, y| f(i, x, y));
                }
            }
        }
    }
    let fdm = match Fdm2d::new(grid, eb, nb, kx, ky) {
        Ok(t) => t,
        Err(m) => return Err(format!("refused: {}", m)),
    };
    let (s0, s1) = (g.var("s0"), g.var("s1"));
    let source = move |x: f64, y: f64| s0 + s1 * x * y + y;
    let ess = |m: usize| essential(m % nx, nx, ax) || essential(m / nx, ny, ay);
    let unknown: Vec<usize> = (0..n).filter(|m| !ess(*m)).collect();
    let prescribed: Vec<usize> = (0..n).filter(|m| ess(*m)).collect();
    if unknown.len() == 0 {
        return Ok(());
    }
    let (dx, dy) = (w / (nx - 1) as f64, h / (ny - 1) as f64);
    let mut kk = vec![vec![0.0; n]; n];
    let mut f = vec![0.0; n];
    for m in 0..n {
        let (i, j) = (m % nx, m / nx);
        let (l, r, cx) = neighbours(i, nx, ax);
        let (b, t, cy) = neighbours(j, ny, ay);
        let (l, r, b, t) = (l + j * nx, r + j * nx, i + b * nx, i + t * nx);
        let c = cx * cy;
        kk[m][m] += c * (2.0 * kx / (dx * dx) + 2.0 * ky / (dy * dy) + alpha);
        kk[m][l] -= c * kx / (dx * dx);
        kk[m][r] -= c * kx / (dx * dx);
        kk[m][b] -= c * ky / (dy * dy);
        kk[m][t] -= c * ky / (dy * dy);
        let (x, y) = at[m];
        f[m] = c * (s0 + s1 * x * y + y);
        // mirrored ghost values: twice the flux over the spacing, scaled as the row
        if ax != Axis::Periodic && i == 0 {
            f[m] -= c * 2.0 * side(0, x, y) / dx;
        }
        if ax != Axis::Periodic && i == nx - 1 {
            f[m] -= c * 2.0 * side(1, x, y) / dx;
        }
        if ay != Axis::Periodic && j == 0 {
            f[m] -= c * 2.0 * side(2, x, y) / dy;
        }
        if ay != Axis::Periodic && j == ny - 1 {
            f[m] -= c * 2.0 * side(3, x, y) / dy;
        }
    }
    g.tol(1e-9);
    let e = Expected { kk, f, unknown, prescribed };
    ck!(fdm.get_dims_sps() == (e.unknown.len(), e.prescribed.len()), "dimensions {:?}", fdm.get_dims_sps());
    ck!(fdm.get_dims_lmm() == (n, e.prescribed.len(), n + e.prescribed.len()), "dimensions {:?}", fdm.get_dims_lmm());
    let (a, b) = fdm.get_matrices_sps(alpha, 0, kind);
    let (c, d) = fdm.get_matrices_lmm(alpha, 0, true, kind);
    matrices(g, &e, &a.as_dense(), b.map(|m| m.as_dense()).as_ref(), &c.as_dense(), d.map(|m| m.as_dense()).as_ref())?;
    let (p, q, r) = fdm.get_vectors_sps(source);
    let (s, t) = fdm.get_vectors_lmm(source);
    let value = |m: usize| {
        let (i, j) = (m % nx, m / nx);
        let (x, y) = at[m];
        let mut v = vec![];
        if let Axis::Sides(p, q) = ax {
            if p && i == 0 {
                v.push(side(0, x, y));
            }
            if q && i == nx - 1 {
                v.push(side(1, x, y));
            }
        }
        if let Axis::Sides(p, q) = ay {
            if p && j == 0 {
                v.push(side(2, x, y));
            }
            if q && j == ny - 1 {
                v.push(side(3, x, y));
            }
        }
        v
    };
    vectors(g, &e, &p, &q, &r, &s, &t, &value)?;
    for m in 0..n {
        let mut row = vec![0.0; n];
        fdm.loop_over_molecule(m, |n, v| row[n] += v);
        let (i, j) = (m % nx, m / nx);
        let (l, r, _) = neighbours(i, nx, ax);
        let (b, t, _) = neighbours(j, ny, ay);
        let mut want = vec![0.0; n];
        want[m] += 2.0 * kx / (dx * dx) + 2.0 * ky / (dy * dy);
        want[l + j * nx] -= kx / (dx * dx);
        want[r + j * nx] -= kx / (dx * dx);
        want[i + b * nx] -= ky / (dy * dy);
        want[i + t * nx] -= ky / (dy * dy);
        for k in 0..n {
            g.same(row[k], want[k], &format!("molecule of node {} at {}", m, k))?;
        }
    }
    let mut a_bar = Vector::new(e.unknown.len());
    let mut a_check = Vector::new(e.prescribed.len());
    for i in 0..e.unknown.len() {
        a_bar[i] = 10.0 + e.unknown[i] as f64;
    }
    for i in 0..e.prescribed.len() {
        a_check[i] = 10.0 + e.prescribed[i] as f64;
    }
    let a = fdm.get_joined_vector_sps(&a_bar, &a_check);
    for i in 0..n {
        g.same(a[i], 10.0 + i as f64, &format!("joined vector {}", i))?;
    }
    Ok(())
}

pub fn register(cx: &mut Ctx) {
    cx.contract("operator_1d", one_dim);
    for nx in 2..5 {
        for ny in 2..5 {
            cx.contract(&format!("operator_2d_{}x{}", nx, ny), move |g| two_dim(g, nx, ny));
        }
    }
}
