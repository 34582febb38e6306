use crate::c01::SYMS;
use hx_common::*;
use russell_lab::*;
use russell_sparse::*;

pub fn register(cx: &mut Ctx) {
    cx.cases("sparse_forward_difference", |g| {
        let sym = *g.pick(&SYMS);
        let ndim = g.dim(1, 12);
        let extra = g.usize(0, 2);
        let nn = ndim + extra;
        let alpha = g.ival();
        let x = g.range(-2.0, 2.0);
        let tri = sym.triangular();
        let cap = if tri { (ndim + ndim * ndim) / 2 } else { ndim * ndim } + g.usize(0, 2);
        let mut jj = CooMatrix::new(nn, nn, cap.max(1), sym).unwrap();
        if g.bool() {
            jj.put(0, 0, 77.0)?; // previous content
        }
        let y0: Vec<f64> = (0..nn)
            .map(|_| match g.usize(0, 5) {
                0 => g.range(-1.0, 1.0) * 1e-14, // much smaller than the increment
                1 => (1.0 - 1e-9 * g.unit()) * f64::powi(2.0, g.int(-4, 4) as i32), // the increment crosses a power of two
                _ => g.rval(),
            })
            .collect();
        let mut y = Vector::from(&y0);
        let mut w1 = Vector::filled(nn, 1e30);
        let mut w2 = Vector::filled(nn, -1e30);
        // arbitrary function: values are recorded and later looked up, so nothing is assumed about it
        let salt = g.u64();
        let fail_at = if g.chance(1, 6) { g.usize(0, ndim) } else { usize::MAX };
        let mut rec: Vec<(Vec<f64>, Vec<f64>)> = vec![];
        note!(g, "ndim {} matrix {}x{} {:?} alpha {:?} y {:?} fail_at {}", ndim, nn, nn, sym, alpha, y0, fail_at);
        let mut count = 0;
        let res = numerical_jacobian(&mut jj, ndim, alpha, x, &mut y, &mut w1, &mut w2, &mut rec, |f: &mut Vector, xx: f64, yy: &Vector, rec: &mut Vec<(Vec<f64>, Vec<f64>)>| {
            if count == fail_at {
                return Err("stop");
            }
            count += 1;
            let mut h = salt ^ xx.to_bits();
            for k in 0..yy.dim() {
                h = (h ^ yy[k].to_bits()).wrapping_mul(0x9E3779B97F4A7C15).rotate_left(17);
            }
            for i in 0..ndim {
                h = h.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                f[i] = ((h >> 40) as f64) / 1024.0 - 8192.0;
            }
            rec.push((yy.as_data().clone(), f.as_data()[..ndim].to_vec()));
            Ok(())
        });
        ck!(y.as_data() == &y0, "the state is {:?} after the call, it was {:?}", y.as_data(), y0);
        if fail_at != usize::MAX {
            ck!(res.is_err(), "error of the function not reported");
            return Ok(());
        }
        res?;
        ck!(rec.len() == ndim + 1, "{} evaluations for {} variables", rec.len(), ndim);
        ck!(rec[0].0 == y0, "the base point is {:?}", rec[0].0);
        let mut want = vec![vec![None; nn]; nn];
        for j in 0..ndim {
            let yj = &rec[j + 1].0;
            for k in 0..nn {
                if k != j {
                    ck!(yj[k] == y0[k], "variable {} is perturbed while column {} is computed", k, j);
                }
            }
            let dy = yj[j] - y0[j];
            ck!(dy > 0.0, "variable {} is perturbed by {:?}", j, dy);
            for i in 0..ndim {
                want[i][j] = Some(alpha * (rec[j + 1].1[i] - rec[0].1[i]) / dy);
            }
        }
        let (ii, jx, vv) = (jj.get_row_indices(), jj.get_col_indices(), jj.get_values());
        let n_expected = if tri { (ndim + ndim * ndim) / 2 } else { ndim * ndim };
        ck!(ii.len() == n_expected, "{} entries, expected {}", ii.len(), n_expected);
        let mut seen = vec![vec![false; nn]; nn];
        for p in 0..ii.len() {
            let (i, j) = (ii[p] as usize, jx[p] as usize);
            ck!(i < ndim && j < ndim && !seen[i][j], "entry ({},{})", i, j);
            seen[i][j] = true;
            match sym {
                Sym::YesLower => ck!(j <= i, "entry ({},{}) above the diagonal", i, j),
                Sym::YesUpper => ck!(j >= i, "entry ({},{}) below the diagonal", i, j),
                _ => {}
            }
            let w = want[i][j].unwrap();
            ck!(close(vv[p], w, 1e-6), "entry ({},{}) is {:?}, the difference quotient is {:?}", i, j, vv[p], w);
        }
        Ok(())
    });
    cx.cases("refusals", |g| {
        let ndim = g.usize(1, 4);
        let sym = *g.pick(&[Sym::No, Sym::YesLower, Sym::YesFull]);
        let nn = g.usize(1, 5);
        let need = if sym.triangular() { (ndim + ndim * ndim) / 2 } else { ndim * ndim };
        let cap = g.usize(1, need + 1);
        let (ly, l1, l2) = (g.usize(ndim - 1, ndim + 1), g.usize(ndim - 1, ndim + 1), g.usize(ndim - 1, ndim + 1));
        let ok = nn >= ndim && cap >= need && ly >= ndim && l1 >= ndim && l2 >= ndim;
        note!(g, "ndim {} nn {} cap {} of {} lengths {} {} {}", ndim, nn, cap, need, ly, l1, l2);
        let mut jj = CooMatrix::new(nn, nn, cap, sym).unwrap();
        let r = numerical_jacobian(&mut jj, ndim, 1.0, 0.0, &mut Vector::new(ly), &mut Vector::new(l1), &mut Vector::new(l2), &mut (), |_f: &mut Vector, _x: f64, _y: &Vector, _a: &mut ()| Ok(()));
        ck!(r.is_ok() == ok, "returned {:?}, expected ok = {}", r, ok);
        Ok(())
    });
    cx.cases("dense_central", |g| {
        // polynomial of degree <= 3: the five-point rule is exact up to rounding
        let n = g.dim(1, 6);
        let a: Vec<f64> = (0..n * n).map(|_| g.int(-3, 3) as f64).collect();
        let b: Vec<f64> = (0..n * n).map(|_| g.int(-3, 3) as f64).collect();
        let y: Vec<f64> = (0..n).map(|_| g.range(-1.5, 1.5)).collect();
        let x = g.range(-1.0, 1.0);
        let alpha = g.range(-2.0, 2.0);
        note!(g, "n {} A {:?} B {:?} y {:?} x {:?} alpha {:?}", n, a, b, y, x, alpha);
        let jac = num_jacobian(n, x, &Vector::from(&y), alpha, &mut 0, |f: &mut Vector, xx: f64, yy: &Vector, _: &mut i32| {
            for i in 0..n {
                f[i] = xx;
                for j in 0..n {
                    f[i] += a[i * n + j] * yy[j] + b[i * n + j] * xx * yy[j] * yy[j] * yy[(j + 1) % n];
                }
            }
            Ok(())
        })?;
        for i in 0..n {
            for j in 0..n {
                // derivative of the j-th variable
                let mut d = a[i * n + j];
                for k in 0..n {
                    let kn = (k + 1) % n;
                    if k == j {
                        d += b[i * n + k] * x * if kn == k { 3.0 * y[k] * y[k] } else { 2.0 * y[k] * y[kn] };
                    } else if kn == j {
                        d += b[i * n + k] * x * y[k] * y[k];
                    }
                }
                ck!((jac.get(i, j) - alpha * d).abs() < 1e-6 * (1.0 + d.abs()), "entry ({},{}) is {:?}, derivative {:?}", i, j, jac.get(i, j), alpha * d);
            }
        }
        Ok(())
    });
}
