use crate::c01::*;
use hx_common::*;
use num_complex::Complex64;
use russell_sparse::*;

fn path(name: &str) -> String {
    let dir = std::env::var("HX_SCRATCH").unwrap_or_else(|_| std::env::temp_dir().to_string_lossy().to_string());
    format!("{}/{}", dir, name)
}

fn val(g: &mut Gen, tol: f64) -> f64 {
    match g.usize(0, 8) {
        0 => 0.0,
        1 => tol,
        2 => tol * 1.5,
        3 => -tol * 0.5,
        4 => g.range(-1e-12, 1e-12),
        5 => g.range(-1e12, 1e12),
        6 => f64::from_bits((g.u64() & 0x800F_FFFF_FFFF_FFFF) | (g.usize(1, 2046) as u64) << 52),
        7 => g.ival(),
        _ => g.range(-3.0, 3.0),
    }
}

const MMS: [MMsym; 3] = [MMsym::LeaveAsLower, MMsym::SwapToUpper, MMsym::MakeItFull];

pub fn register(cx: &mut Ctx) {
    cx.cases("real", |g| {
        let sym = *g.pick(&SYMS);
        let m = g.dim(1, 12);
        let n = if sym == Sym::No { g.dim(1, 12) } else { m };
        let tol = *g.pick(&[0.0, 1e-15, 1e-3, 1.0]);
        let mut d = vec![vec![0.0; n]; m];
        let mut coo = CooMatrix::new(m, n, 2 * m * n, sym).unwrap();
        for i in 0..m {
            for j in 0..n {
                if g.chance(1, 3) && (sym == Sym::No || j <= i) {
                    let x = val(g, tol);
                    let keep = x.abs() > tol;
                    match sym {
                        Sym::No => coo.put(i, j, x)?,
                        Sym::YesLower => coo.put(i, j, x)?,
                        Sym::YesUpper => coo.put(j, i, x)?,
                        Sym::YesFull => {
                            coo.put(i, j, x)?;
                            if i != j {
                                coo.put(j, i, x)?;
                            }
                        }
                    }
                    note!(g, "({},{}) {:?}", i, j, x);
                    if keep {
                        d[i][j] = x;
                        if sym != Sym::No {
                            d[j][i] = x;
                        }
                    }
                }
            }
        }
        note!(g, "{}x{} {:?} tol {:?}", m, n, sym, tol);
        let written = d.iter().flatten().filter(|x| **x != 0.0).count();
        if coo.get_nnz() == 0 || written == 0 {
            g.trivial = true;
            return Ok(());
        }
        let csc = CscMatrix::from_coo(&coo)?;
        let f = path("real.mtx");
        csc.write_matrix_market(&f, false, tol)?;
        let text = std::fs::read_to_string(&f).map_err(|e| e.to_string())?;
        let body: Vec<&str> = text.lines().filter(|l| !l.starts_with('%') && !l.trim().is_empty()).collect();
        let announced: usize = body[0].split_whitespace().nth(2).unwrap_or("x").parse().map_err(|_| "dimension line".to_string())?;
        ck!(announced == body.len() - 1, "the file announces {} entries and contains {}:\n{}", announced, body.len() - 1, text);
        for h in MMS {
            let (a, b) = read_matrix_market(&f, h).map_err(|e| format!("reading back with {:?}: {}\n{}", h, e, text))?;
            ck!(b.is_none(), "complex matrix returned");
            let a = a.ok_or("no matrix returned")?;
            let (mm, nn, _, s) = a.get_info();
            ck!(mm == m && nn == n, "dimensions {}x{}", mm, nn);
            let want = if sym == Sym::No { Sym::No } else { match h { MMsym::LeaveAsLower => Sym::YesLower, MMsym::SwapToUpper => Sym::YesUpper, _ => Sym::YesFull } };
            ck!(s == want, "symmetry {:?} expected {:?}", s, want);
            same_dense(&a.as_dense(), &d).map_err(|e| format!("{:?}: {}\n{}", h, e, text))?;
        }
        // visualisation file: zero-based positions of the full matrix
        csc.write_matrix_market(&f, true, tol)?;
        let text = std::fs::read_to_string(&f).map_err(|e| e.to_string())?;
        let mut lines = text.lines().filter(|l| !l.trim().is_empty());
        let head: Vec<usize> = lines.next().unwrap_or("").split_whitespace().filter_map(|x| x.parse().ok()).collect();
        ck!(head == vec![m, n, written], "visualisation header {:?}, expected {:?}", head, (m, n, written));
        let mut seen = vec![vec![0.0; n]; m];
        let mut cnt = 0;
        for l in lines {
            let w: Vec<&str> = l.split_whitespace().collect();
            let (i, j, x): (usize, usize, f64) = (w[0].parse().unwrap(), w[1].parse().unwrap(), w[2].parse().unwrap());
            ck!(i < m && j < n, "visualisation position {} {}", i, j);
            seen[i][j] += x;
            cnt += 1;
        }
        ck!(cnt == written && seen == d, "visualisation entries {:?} expected {:?}", seen, d);
        Ok(())
    });
    cx.cases("complex", |g| {
        let sym = *g.pick(&SYMS);
        let m = g.dim(1, 10);
        let n = if sym == Sym::No { g.dim(1, 10) } else { m };
        let tol = *g.pick(&[0.0, 1e-15, 1e-3]);
        let zero = Complex64::new(0.0, 0.0);
        let mut d = vec![vec![zero; n]; m];
        let mut coo = ComplexCooMatrix::new(m, n, 2 * m * n, sym).unwrap();
        let mut written = 0;
        for i in 0..m {
            for j in 0..n {
                if g.chance(1, 3) && (sym == Sym::No || j <= i) {
                    let x = Complex64::new(val(g, tol), val(g, tol));
                    let keep = x.re.abs() > tol || x.im.abs() > tol;
                    match sym {
                        Sym::No | Sym::YesLower => coo.put(i, j, x)?,
                        Sym::YesUpper => coo.put(j, i, x)?,
                        Sym::YesFull => {
                            coo.put(i, j, x)?;
                            if i != j {
                                coo.put(j, i, x)?;
                            }
                        }
                    }
                    note!(g, "({},{}) {:?}", i, j, x);
                    if keep {
                        written += 1;
                        d[i][j] = x;
                        if sym != Sym::No {
                            d[j][i] = x;
                        }
                    }
                }
            }
        }
        note!(g, "complex {}x{} {:?} tol {:?}", m, n, sym, tol);
        if written == 0 {
            g.trivial = true;
            return Ok(());
        }
        let csc = ComplexCscMatrix::from_coo(&coo)?;
        let f = path("complex.mtx");
        csc.write_matrix_market(&f, false, tol)?;
        let text = std::fs::read_to_string(&f).map_err(|e| e.to_string())?;
        let body: Vec<&str> = text.lines().filter(|l| !l.starts_with('%') && !l.trim().is_empty()).collect();
        let announced: usize = body[0].split_whitespace().nth(2).unwrap_or("x").parse().map_err(|_| "dimension line".to_string())?;
        ck!(announced == body.len() - 1, "the file announces {} entries and contains {}:\n{}", announced, body.len() - 1, text);
        for h in MMS {
            let (a, b) = read_matrix_market(&f, h).map_err(|e| format!("reading back with {:?}: {}\n{}", h, e, text))?;
            ck!(a.is_none(), "real matrix returned");
            let b = b.ok_or("no matrix returned")?.as_dense();
            for i in 0..m {
                for j in 0..n {
                    ck!(b.get(i, j) == d[i][j], "{:?}: entry ({},{}) read back as {} written {}\n{}", h, i, j, b.get(i, j), d[i][j], text);
                }
            }
        }
        Ok(())
    });
    cx.cases("malformed", |g| {
        // every single-line defect is reported as an error
        let sym = g.bool();
        let cplx = g.bool();
        let m = g.usize(2, 4);
        let mut lines: Vec<String> = vec![format!("%%MatrixMarket matrix coordinate {} {}", if cplx { "complex" } else { "real" }, if sym { "symmetric" } else { "general" })];
        let v = if cplx { "1.5 -2.0" } else { "1.5" };
        lines.push(format!("{} {} 2", m, m));
        lines.push(format!("1 1 {}", v));
        lines.push(format!("2 1 {}", v));
        let f = path("bad.mtx");
        std::fs::write(&f, lines.join("\n") + "\n").unwrap();
        let h = *g.pick(&MMS);
        ck!(read_matrix_market(&f, h).is_ok(), "good file refused: {:?}", lines);
        let kind = g.usize(0, 9);
        match kind {
            0 => lines[0] = "%MatrixMarket matrix coordinate real general".into(),
            1 => lines[1] = format!("{} {}", m, m),
            2 => lines[1] = format!("{} {} 3", m, m),
            3 => lines[1] = format!("{} {} 1", m, m),
            4 => lines[2] = format!("0 1 {}", v),
            5 => lines[2] = format!("{} 1 {}", m + 1, v),
            6 => lines[3] = "2 1".into(),
            7 => lines[3] = format!("x 1 {}", v),
            8 => {
                lines.truncate(1);
            }
            _ => {
                if !sym {
                    return Ok(());
                }
                if g.bool() {
                    if h == MMsym::MakeItFull {
                        return Ok(());
                    }
                    lines[3] = format!("1 2 {}", v);
                } else {
                    lines[1] = format!("{} {} 2", m, m + 1);
                }
            }
        }
        note!(g, "{:?} read with {:?}", lines, h);
        std::fs::write(&f, lines.join("\n") + "\n").unwrap();
        let r = read_matrix_market(&f, h);
        ck!(r.is_err(), "malformed file accepted: {:?}", lines);
        Ok(())
    });
}
