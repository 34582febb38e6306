use hx_common::*;
use num_complex::Complex64;
use russell_lab::*;

fn rows(g: &mut Gen, m: usize, n: usize) -> Vec<Vec<f64>> {
    (0..m).map(|_| (0..n).map(|_| g.ival()).collect()).collect()
}
fn same(a: &Matrix, w: &Vec<Vec<f64>>, m: usize, n: usize, what: &str) -> Res {
    ck!(a.dims() == (m, n) && a.nrow() == m && a.ncol() == n, "{}: dims {:?}, expected {:?}", what, a.dims(), (m, n));
    ck!(a.as_data().len() == m * n, "{}: {} values stored", what, a.as_data().len());
    for i in 0..m {
        for j in 0..n {
            ck!(a.get(i, j) == w[i][j], "{}: element ({},{}) is {:?}, expected {:?}", what, i, j, a.get(i, j), w[i][j]);
            ck!(a.as_data()[i + j * m] == w[i][j], "{}: not stored by columns at ({},{})", what, i, j);
        }
    }
    Ok(())
}

pub fn register(cx: &mut Ctx) {
    cx.cases_w("matrix_access_history", 3, |g| {
        let (m, n) = (g.dim(0, 12), g.dim(0, 12));
        let mut a = Matrix::new(m, n);
        let mut w = vec![vec![0.0; n]; m];
        note!(g, "{}x{}", m, n);
        same(&a, &w, m, n, "new")?;
        let ops = if m * n == 0 { 1 } else { g.usize(1, 12) };
        for _ in 0..ops {
            let (i, j) = (if m > 0 { g.usize(0, m - 1) } else { 0 }, if n > 0 { g.usize(0, n - 1) } else { 0 });
            let v = g.ival();
            match if m * n == 0 { 4 } else { g.usize(0, 4) } {
                0 => {
                    note!(g, "set {} {} {:?}", i, j, v);
                    a.set(i, j, v);
                    w[i][j] = v;
                }
                1 => {
                    note!(g, "add {} {} {:?}", i, j, v);
                    a.add(i, j, v);
                    w[i][j] += v;
                }
                2 => {
                    note!(g, "mul {} {} {:?}", i, j, v);
                    a.mul(i, j, v);
                    w[i][j] *= v;
                }
                3 => {
                    let k = g.usize(0, m * n - 1);
                    note!(g, "as_mut_data[{}] {:?}", k, v);
                    a.as_mut_data()[k] = v;
                    w[k % m][k / m] = v;
                }
                _ => {
                    note!(g, "fill {:?}", v);
                    a.fill(v);
                    for r in w.iter_mut() {
                        for x in r.iter_mut() {
                            *x = v;
                        }
                    }
                }
            }
            same(&a, &w, m, n, "after operation")?;
        }
        for i in 0..m {
            ck!(a.extract_row(i) == w[i], "row {}", i);
        }
        for j in 0..n {
            let c: Vec<f64> = (0..m).map(|i| w[i][j]).collect();
            ck!(a.extract_column(j) == c, "column {}", j);
        }
        let t = a.transposed();
        let wt: Vec<Vec<f64>> = (0..n).map(|j| (0..m).map(|i| w[i][j]).collect()).collect();
        same(&t, &wt, n, m, "transposed")?;
        same(&a, &w, m, n, "operand")
    });
    cx.cases("matrix_constructors", |g| {
        let (m, n) = (g.dim(1, 10), g.dim(0, 10));
        let data = rows(g, m, n);
        let v = g.ival();
        note!(g, "{}x{} {:?}", m, n, data);
        let m_eff = if n == 0 { 0 } else { m };
        let n_eff = if m == 0 { 0 } else { n };
        same(&Matrix::from(&data), &data, m_eff, n_eff, "from")?;
        same(&Matrix::filled(m, n, v), &vec![vec![v; n]; m], m, n, "filled")?;
        let mut calls = vec![vec![0; n]; m];
        let a = Matrix::initialized(m, n, |i, j| {
            calls[i][j] += 1;
            data[i][j]
        });
        ck!(calls.iter().all(|r| r.iter().all(|c| *c == 1)), "initialiser called {:?}", calls);
        same(&a, &data, m, n, "initialized")?;
        let mut id = vec![vec![0.0; m]; m];
        for i in 0..m {
            id[i][i] = 1.0;
        }
        same(&Matrix::identity(m), &id, m, m, "identity")?;
        let d: Vec<f64> = (0..n).map(|_| g.ival()).collect();
        let mut dd = vec![vec![0.0; n]; n];
        for i in 0..n {
            dd[i][i] = d[i];
        }
        same(&Matrix::diagonal(&d), &dd, n, n, "diagonal")?;
        let lo = Matrix::from_lower(&data);
        let up = Matrix::from_upper(&data);
        ck!(lo.is_ok() == (m_eff == n_eff) && up.is_ok() == (m_eff == n_eff), "triangle constructors on {}x{}: {} {}", m, n, lo.is_ok(), up.is_ok());
        if m_eff == n_eff {
            let wl: Vec<Vec<f64>> = (0..m_eff).map(|i| (0..n_eff).map(|j| if j <= i { data[i][j] } else { 0.0 }).collect()).collect();
            let wu: Vec<Vec<f64>> = (0..m_eff).map(|i| (0..n_eff).map(|j| if j >= i { data[i][j] } else { 0.0 }).collect()).collect();
            same(&lo?, &wl, m_eff, n_eff, "lower")?;
            same(&up?, &wu, m_eff, n_eff, "upper")?;
        }
        Ok(())
    });
    cx.cases("vector_history", |g| {
        let n = g.dim(0, 20);
        let mut w: Vec<f64> = (0..n).map(|_| g.ival()).collect();
        let mut a = Vector::from(&w);
        note!(g, "{:?}", w);
        for _ in 0..g.usize(0, 8) {
            let v = g.ival();
            match g.usize(0, 7) {
                0 if n > 0 => {
                    let i = g.usize(0, n - 1);
                    a.set(i, v);
                    w[i] = v;
                }
                1 if n > 0 => {
                    let i = g.usize(0, n - 1);
                    a[i] = v;
                    w[i] = v;
                }
                2 => {
                    a.fill(v);
                    w = vec![v; n];
                }
                3 => {
                    a.scale(v);
                    w.iter_mut().for_each(|x| *x *= v);
                }
                4 => {
                    a.map(|x| x * 2.0 - 1.0);
                    w.iter_mut().for_each(|x| *x = *x * 2.0 - 1.0);
                }
                5 => {
                    a.map_with_index(|i, x| x - i as f64);
                    w.iter_mut().enumerate().for_each(|(i, x)| *x -= i as f64);
                }
                6 => {
                    let o: Vec<f64> = (0..n).map(|_| g.ival()).collect();
                    a.set_vector(&o);
                    w = o;
                }
                _ => {
                    let k = g.usize(0, n);
                    let o: Vec<f64> = (0..n).map(|_| g.ival()).collect();
                    a.join2(&o[..k], &o[k..]);
                    w = o;
                }
            }
            ck!(a.dim() == n && a.as_data() == &w, "vector {:?}, expected {:?}", a.as_data(), w);
            for i in 0..n {
                ck!(a.get(i) == w[i] && a[i] == w[i], "element {}", i);
            }
        }
        let k = g.usize(0, n);
        let (mut u, mut v) = (vec![9e9; k], vec![9e9; n - k]);
        a.split2(&mut u, &mut v);
        ck!(u == w[..k] && v == w[k..], "split2 at {}: {:?} {:?}", k, u, v);
        let m = a.get_mapped(|x| x + 3.0);
        ck!(m.as_data() == &w.iter().map(|x| x + 3.0).collect::<Vec<_>>(), "get_mapped");
        let d = a.get_differences();
        ck!(d.as_data() == &w.windows(2).map(|p| p[1] - p[0]).collect::<Vec<_>>(), "differences {:?} of {:?}", d.as_data(), w);
        for s in [None, Some(5.0)] {
            let c = a.get_cumulative_sum(s);
            let mut want = vec![];
            let mut acc = 0.0;
            if let Some(x) = s {
                acc = x;
                want.push(acc);
            }
            for x in &w {
                acc += x;
                want.push(acc);
            }
            ck!(c.as_data() == &want, "cumulative sum {:?} of {:?} from {:?}", c.as_data(), w, s);
        }
        ck!(a.as_data() == &w, "operand changed");
        let mut calls = vec![];
        let b = Vector::initialized(n, |i| i as f64 * 3.0);
        calls.push(b.dim());
        for i in 0..n {
            ck!(b[i] == i as f64 * 3.0, "initialized");
        }
        ck!(Vector::filled(n, 7.0).as_data() == &vec![7.0; n] && Vector::new(n).as_data() == &vec![0.0; n], "filled/new");
        ck!(panics(|| a.clone().set_vector(&vec![0.0; n + 1])), "longer slice accepted");
        ck!(panics(|| { a.clone().join2(&vec![0.0; n], &[1.0]) }), "join2 of longer slices accepted");
        Ok(())
    });
    cx.cases("evenly_spaced", |g| {
        let n = g.dim(0, 60);
        let (a, b) = (g.rval(), g.rval());
        note!(g, "{:?} to {:?} with {}", a, b, n);
        let v = Vector::linspace(a, b, n)?;
        ck!(v.dim() == n, "dimension {}", v.dim());
        let mut seen = vec![];
        let mv = Vector::mapped_linspace(a, b, n, |x| {
            seen.push(x);
            x * 2.0
        })?;
        ck!(mv.dim() == n, "dimension {}", mv.dim());
        if n >= 1 {
            ck!(v[0] == a, "starts at {:?}", v[0]);
        }
        let tol = 4.0 * f64::EPSILON * (a.abs() + b.abs());
        if n >= 2 {
            ck!((v[n - 1] - b).abs() <= tol, "ends at {:?}", v[n - 1]);
            for i in 0..n {
                let x = a + (b - a) * (i as f64) / ((n - 1) as f64);
                ck!((v[i] - x).abs() <= tol, "element {} is {:?}, expected {:?}", i, v[i], x);
                ck!((mv[i] - 2.0 * x).abs() <= 2.0 * tol, "mapped element {} is {:?}, expected {:?}", i, mv[i], 2.0 * x);
            }
        }
        Ok(())
    });
    cx.cases("complex_and_integer", |g| {
        let (m, n) = (g.dim(1, 8), g.dim(1, 8));
        let mut a = ComplexMatrix::new(m, n);
        let mut b = NumMatrix::<i64>::new(m, n);
        let mut w = vec![vec![(0i64, 0i64); n]; m];
        for _ in 0..g.usize(1, 10) {
            let (i, j, x, y) = (g.usize(0, m - 1), g.usize(0, n - 1), g.int(-9, 9), g.int(-9, 9));
            note!(g, "{} {} {} {}", i, j, x, y);
            if g.bool() {
                a.set(i, j, Complex64::new(x as f64, y as f64));
                b.set(i, j, x);
                w[i][j] = (x, y);
            } else {
                a.add(i, j, Complex64::new(x as f64, y as f64));
                b.add(i, j, x);
                w[i][j].0 += x;
                w[i][j].1 += y;
            }
            for i in 0..m {
                for j in 0..n {
                    ck!(b.get(i, j) == w[i][j].0 && a.get(i, j) == Complex64::new(w[i][j].0 as f64, w[i][j].1 as f64), "element ({},{})", i, j);
                }
            }
        }
        Ok(())
    });
}
