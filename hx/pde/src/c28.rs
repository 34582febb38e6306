use hx_common::*;
use russell_pde::{Grid1d, Grid2d, Side};

fn list(g: &mut Gen, n: usize) -> Vec<f64> {
    let scale = *g.pick(&[1.0, 1.0, 1e-3, 1e3, 1e6]);
    let mut x = g.rval() * scale;
    let mut v = vec![];
    let mut step = g.range(0.1, 2.0);
    let uniform = g.bool();
    for _ in 0..n {
        v.push(x);
        if !uniform {
            step = g.range(0.1, 2.0);
        }
        x += step * scale;
    }
    v
}

/// spoils a list: equal or decreasing neighbours
fn spoil(g: &mut Gen, v: &mut Vec<f64>) {
    if v.len() > 1 {
        let i = g.usize(1, v.len() - 1);
        v[i] = if g.bool() { v[i - 1] } else { v[i - 1] - g.range(0.0, 2.0) };
    }
}

/// spacing expected from a list: Some(true) uniform, Some(false) not, None too close to decide
fn spacing(x: &[f64]) -> (Option<bool>, f64) {
    let big = x.iter().fold(0.0, |a: f64, v| a.max(v.abs()));
    let n = x.len() - 1;
    let d = (x[n] - x[0]) / n as f64;
    let dev = (1..n).map(|i| (x[i] - x[0] - i as f64 * d).abs()).fold(0.0, f64::max);
    (if dev <= f64::EPSILON * 2.5 * big { Some(true) } else if dev > 1e-9 * big.max(1.0) { Some(false) } else { None }, d)
}

fn check1(g: &Grid1d, x: &[f64], exact: bool) -> Res {
    let n = x.len();
    let big = x.iter().fold(0.0, |a: f64, v| a.max(v.abs()));
    let eq = |a: f64, b: f64| if exact { a == b } else { (a - b).abs() <= 4.0 * f64::EPSILON * big };
    ck!(g.nx() == n, "nx is {} for {} coordinates", g.nx(), n);
    let mut seen = vec![];
    g.for_each_coord(|m, x| seen.push((m, x)));
    ck!(seen.len() == n, "for_each_coord visits {} of {} nodes", seen.len(), n);
    for m in 0..n {
        ck!(eq(g.coord(m), x[m]), "coordinate {} is {:?} instead of {:?}", m, g.coord(m), x[m]);
        ck!(seen[m] == (m, g.coord(m)), "for_each_coord gives {:?} as number {}", seen[m], m);
        ck!(g.is_xmin(m) == (m == 0), "is_xmin({})", m);
        ck!(g.is_xmax(m) == (m == n - 1), "is_xmax({})", m);
        ck!(g.on_boundary(m) == (m == 0 || m == n - 1), "on_boundary({})", m);
    }
    ck!(g.get_nodes_on_side(Side::Xmin) == &[0], "nodes of Xmin");
    ck!(g.get_nodes_on_side(Side::Xmax) == &[n - 1], "nodes of Xmax");
    ck!(g.get_boundary_nodes() == (&[0usize][..], &[n - 1][..]), "boundary nodes");
    let (u, d) = spacing(x);
    match u {
        Some(true) => ck!(g.get_dx().map_or(false, |v| (v - d).abs() <= 1e-9 * d + 8.0 * f64::EPSILON * big), "spacing is {:?} instead of {:?}", g.get_dx(), d),
        Some(false) => ck!(g.get_dx() == None, "uniform spacing {:?} reported", g.get_dx()),
        None => (),
    }
    Ok(())
}

fn check2(g: &Grid2d, x: &[f64], y: &[f64], exact: bool, cgl: bool) -> Res {
    let (nx, ny) = (x.len(), y.len());
    let bx = x.iter().fold(0.0, |a: f64, v| a.max(v.abs()));
    let by = y.iter().fold(0.0, |a: f64, v| a.max(v.abs()));
    let eq = |a: f64, b: f64, big: f64| if exact { a == b } else { (a - b).abs() <= 4.0 * f64::EPSILON * big };
    ck!(g.nx() == nx && g.ny() == ny && g.size() == nx * ny, "sizes {} {} {}", g.nx(), g.ny(), g.size());
    ck!(g.xmin() == x[0] && g.ymin() == y[0], "limits {:?} {:?}", g.xmin(), g.ymin());
    ck!(eq(g.xmax(), x[nx - 1], bx) && eq(g.ymax(), y[ny - 1], by), "limits {:?} {:?}", g.xmax(), g.ymax());
    ck!(g.is_chebyshev_gauss_lobatto() == cgl, "kind of grid");
    let mut seen = vec![];
    g.for_each_coord(|m, x, y| seen.push((m, x, y)));
    ck!(seen.len() == nx * ny, "for_each_coord visits {} of {} nodes", seen.len(), nx * ny);
    let mut count = 0;
    for j in 0..ny {
        for i in 0..nx {
            let m = g.get_m(i, j);
            ck!(m < nx * ny, "node {} of ({},{})", m, i, j);
            ck!(g.get_ij(m) == (i, j), "node {} of ({},{}) belongs to {:?}", m, i, j, g.get_ij(m));
            let (a, b) = g.coord(m);
            ck!(eq(a, x[i], bx) && eq(b, y[j], by), "coordinates of ({},{}) are {:?} instead of {:?}", i, j, (a, b), (x[i], y[j]));
            ck!(seen[m] == (m, a, b), "for_each_coord gives {:?} as number {}", seen[m], m);
            ck!(g.is_xmin(m) == (i == 0), "is_xmin({})", m);
            ck!(g.is_xmax(m) == (i == nx - 1), "is_xmax({})", m);
            ck!(g.is_ymin(m) == (j == 0), "is_ymin({})", m);
            ck!(g.is_ymax(m) == (j == ny - 1), "is_ymax({})", m);
            let (ex, ey) = (i == 0 || i == nx - 1, j == 0 || j == ny - 1);
            ck!(g.on_boundary(m) == (ex || ey), "on_boundary({})", m);
            ck!(g.is_corner(m) == (ex && ey), "is_corner({})", m);
            count += m + 1;
        }
    }
    let n = nx * ny;
    ck!(count == n * (n + 1) / 2, "node numbers are not a permutation");
    let want = [
        (0..ny).map(|j| g.get_m(0, j)).collect::<Vec<_>>(),
        (0..ny).map(|j| g.get_m(nx - 1, j)).collect(),
        (0..nx).map(|i| g.get_m(i, 0)).collect(),
        (0..nx).map(|i| g.get_m(i, ny - 1)).collect(),
    ];
    let b = g.get_boundary_nodes();
    let b = [b.0, b.1, b.2, b.3];
    for s in 0..4 {
        let side = Side::from_index(s);
        ck!(side as usize == s, "index of {:?}", side);
        ck!(g.get_nodes_on_side(side) == &want[s][..], "nodes of {:?}: {:?} instead of {:?}", side, g.get_nodes_on_side(side), want[s]);
        ck!(b[s] == &want[s][..], "boundary nodes of {:?}: {:?} instead of {:?}", side, b[s], want[s]);
        let mut seen = vec![];
        match s {
            0 => g.for_each_node_xmin(|m| seen.push(*m)),
            1 => g.for_each_node_xmax(|m| seen.push(*m)),
            2 => g.for_each_node_ymin(|m| seen.push(*m)),
            _ => g.for_each_node_ymax(|m| seen.push(*m)),
        }
        ck!(seen == want[s], "loop over {:?} visits {:?} instead of {:?}", side, seen, want[s]);
    }
    let ((u, d), (v, e)) = (spacing(x), spacing(y));
    match (u, v) {
        (Some(true), Some(true)) => ck!(
            g.get_dx_dy().map_or(false, |(a, b)| (a - d).abs() <= 1e-9 * d + 8.0 * f64::EPSILON * bx && (b - e).abs() <= 1e-9 * e + 8.0 * f64::EPSILON * by),
            "spacing is {:?} instead of {:?}",
            g.get_dx_dy(),
            (d, e)
        ),
        (Some(false), _) | (_, Some(false)) => ck!(g.get_dx_dy() == None, "uniform spacing {:?} reported", g.get_dx_dy()),
        _ => (),
    }
    Ok(())
}

fn uniform(a: f64, b: f64, n: usize) -> Vec<f64> {
    (0..n).map(|i| if i == n - 1 { b } else { a + (b - a) * i as f64 / (n - 1) as f64 }).collect()
}
fn lobatto(n: usize) -> Vec<f64> {
    (0..n).map(|i| -(std::f64::consts::PI * i as f64 / (n - 1) as f64).cos()).collect()
}

pub fn register(cx: &mut Ctx) {
    cx.cases("lists_1d", |g| {
        let n = g.dim(0, 20);
        let mut x = list(g, n);
        if g.chance(1, 4) {
            spoil(g, &mut x);
        }
        note!(g, "{:?}", x);
        let good = n >= 2 && (1..n).all(|i| x[i] > x[i - 1]);
        match Grid1d::new(&x) {
            Ok(t) => {
                ck!(good, "accepted");
                check1(&t, &x, true)
            }
            Err(e) => {
                ck!(!good, "refused: {}", e);
                Ok(())
            }
        }
    });
    cx.cases("uniform_1d", |g| {
        let n = g.dim(0, 30);
        let a = g.rval() * *g.pick(&[1.0, 1.0, 1e-3, 1e3, 1e6]);
        let b = if g.chance(1, 5) { a } else { a + g.range(-1.0, 4.0) * *g.pick(&[1.0, 1e-3, 1e3, 1e5]) };
        note!(g, "{:?}..{:?} with {}", a, b, n);
        let good = n >= 2 && b > a;
        match Grid1d::new_uniform(a, b, n) {
            Ok(t) => {
                ck!(good, "accepted");
                check1(&t, &uniform(a, b, n), false)
            }
            Err(e) => {
                ck!(!good, "refused: {}", e);
                Ok(())
            }
        }
    });
    cx.cases("lobatto", |g| {
        let (nx, ny) = (g.dim(0, 20), g.dim(0, 20));
        note!(g, "{} {}", nx, ny);
        match Grid1d::new_chebyshev_gauss_lobatto(nx) {
            Ok(t) => {
                ck!(nx >= 2, "accepted");
                check1(&t, &lobatto(nx), false)?;
            }
            Err(e) => ck!(nx < 2, "refused: {}", e),
        }
        match Grid2d::new_chebyshev_gauss_lobatto(nx, ny) {
            Ok(t) => {
                ck!(nx >= 2 && ny >= 2, "accepted");
                check2(&t, &lobatto(nx), &lobatto(ny), false, true)
            }
            Err(e) => {
                ck!(nx < 2 || ny < 2, "refused: {}", e);
                Ok(())
            }
        }
    });
    cx.cases("lists_2d", |g| {
        let (nx, ny) = (g.dim(0, 12), g.dim(0, 12));
        let (mut x, mut y) = (list(g, nx), list(g, ny));
        if g.chance(1, 5) {
            spoil(g, &mut x);
        }
        if g.chance(1, 5) {
            spoil(g, &mut y);
        }
        note!(g, "{:?} {:?}", x, y);
        let good = nx >= 2 && ny >= 2 && (1..nx).all(|i| x[i] > x[i - 1]) && (1..ny).all(|i| y[i] > y[i - 1]);
        match Grid2d::new(&x, &y) {
            Ok(t) => {
                ck!(good, "accepted");
                check2(&t, &x, &y, true, false)
            }
            Err(e) => {
                ck!(!good, "refused: {}", e);
                Ok(())
            }
        }
    });
    cx.cases("uniform_2d", |g| {
        let (nx, ny) = (g.dim(0, 12), g.dim(0, 12));
        let mut lim = |g: &mut Gen| {
            let a = g.rval() * *g.pick(&[1.0, 1.0, 1e-3, 1e3, 1e6]);
            (a, if g.chance(1, 6) { a } else { a + g.range(-0.5, 4.0) * *g.pick(&[1.0, 1e-3, 1e3, 1e5]) })
        };
        let ((a, b), (c, d)) = (lim(g), lim(g));
        note!(g, "{:?}..{:?} {:?}..{:?} with {}x{}", a, b, c, d, nx, ny);
        let good = nx >= 2 && ny >= 2 && b > a && d > c;
        match Grid2d::new_uniform(a, b, c, d, nx, ny) {
            Ok(t) => {
                ck!(good, "accepted");
                check2(&t, &uniform(a, b, nx), &uniform(c, d, ny), false, false)
            }
            Err(e) => {
                ck!(!good, "refused: {}", e);
                Ok(())
            }
        }
    });
}
