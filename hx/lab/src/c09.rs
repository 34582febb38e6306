use hx_common::*;
use russell_lab::base::*;

fn val(g: &mut Gen) -> f64 {
    match g.usize(0, 4) {
        0 => g.rval(),
        _ => g.int(-2, 2) as f64,
    }
}

pub fn register(cx: &mut Ctx) {
    cx.once("small_sorts_all_orders", |g| {
        // every assignment of ranks (with ties), real and integer
        for k in 0..256usize {
            let d = [(k % 4) as i32, (k / 4 % 4) as i32, (k / 16 % 4) as i32, (k / 64 % 4) as i32];
            let f = d.map(|x| x as f64 * 1.5 - 2.0);
            note!(g, "{:?}", d);
            let mut w4 = d;
            w4.sort();
            let mut x4 = (d[0], d[1], d[2], d[3]);
            sort4(&mut x4);
            ck!([x4.0, x4.1, x4.2, x4.3] == w4, "sort4 of {:?} is {:?}", d, x4);
            let mut y4 = (f[0], f[1], f[2], f[3]);
            sort4(&mut y4);
            ck!([y4.0, y4.1, y4.2, y4.3] == w4.map(|x| x as f64 * 1.5 - 2.0), "sort4 of {:?} is {:?}", f, y4);
            let mut w3 = [d[0], d[1], d[2]];
            let mut x3 = (d[0], d[1], d[2]);
            w3.sort();
            sort3(&mut x3);
            ck!([x3.0, x3.1, x3.2] == w3, "sort3 of {:?} is {:?}", d, x3);
            let mut w2 = [d[0], d[1]];
            let mut x2 = (d[0], d[1]);
            w2.sort();
            sort2(&mut x2);
            ck!([x2.0, x2.1] == w2, "sort2 of {:?} is {:?}", d, x2);
        }
        Ok(())
    });
    cx.cases("argsort", |g| {
        let n = g.dim(0, 30);
        let mut cols: Vec<Vec<f64>> = vec![];
        for _ in 0..3 {
            let c: Vec<f64> = (0..n).map(|_| if g.chance(1, 30) { f64::NAN } else { val(g) }).collect();
            cols.push(c);
        }
        note!(g, "{:?}", cols);
        let cmp = |a: f64, b: f64| -> std::cmp::Ordering {
            match (a.is_nan(), b.is_nan()) {
                (true, true) => std::cmp::Ordering::Equal,
                (true, false) => std::cmp::Ordering::Greater,
                (false, true) => std::cmp::Ordering::Less,
                _ => a.partial_cmp(&b).unwrap(),
            }
        };
        for k in 1..=3 {
            let p = match k {
                1 => argsort_f64(&cols[0]),
                2 => argsort2_f64(&cols[0], &cols[1]),
                _ => argsort3_f64(&cols[0], &cols[1], &cols[2]),
            };
            let mut q = p.clone();
            q.sort();
            ck!(q == (0..n).collect::<Vec<_>>(), "argsort with {} keys is not a permutation: {:?}", k, p);
            for i in 1..n {
                let mut o = std::cmp::Ordering::Equal;
                for c in 0..k {
                    o = o.then(cmp(cols[c][p[i - 1]], cols[c][p[i]]));
                }
                ck!(o != std::cmp::Ordering::Greater, "argsort with {} keys {:?} is not ordered at {}", k, p, i);
            }
        }
        Ok(())
    });
    cx.cases_w("extrema_valleys_peaks", 3, |g| {
        let n = match g.usize(0, 3) {
            0 => g.usize(0, 5),
            _ => g.dim(0, 30),
        };
        let x: Vec<f64> = (0..n).map(|_| val(g)).collect();
        note!(g, "{:?}", x);
        let (a, b) = find_min_max(&x);
        let (va, pe, a2, b2) = find_valleys_and_peaks(&x);
        if n == 0 {
            ck!((a, b, a2, b2) == (usize::MAX, usize::MAX, usize::MAX, usize::MAX), "empty: {:?}", (a, b, a2, b2));
            ck!(va.is_empty() && pe.is_empty(), "empty");
            return Ok(());
        }
        for i in 0..n {
            ck!(x[a] <= x[i] && x[a2] <= x[i], "minimum {} {} of {:?}", a, a2, x);
            ck!(x[b] >= x[i] && x[b2] >= x[i], "maximum {} {} of {:?}", b, b2, x);
        }
        // definition: last point of a maximal run of equal values that is higher (lower) than both neighbouring runs
        let (mut wv, mut wp) = (vec![], vec![]);
        let mut s = 0;
        while s < n {
            let mut e = s;
            while e + 1 < n && x[e + 1] == x[s] {
                e += 1;
            }
            if s > 0 && e + 1 < n {
                if x[s - 1] > x[s] && x[e + 1] > x[s] {
                    wv.push(e);
                }
                if x[s - 1] < x[s] && x[e + 1] < x[s] {
                    wp.push(e);
                }
            }
            s = e + 1;
        }
        ck!(va == wv, "valleys {:?}, expected {:?}, of {:?}", va, wv, x);
        ck!(pe == wp, "peaks {:?}, expected {:?}, of {:?}", pe, wp, x);
        let k: Vec<i32> = x.iter().map(|v| (*v * 1000.0) as i32).collect();
        let (c, d) = find_min_max(&k);
        ck!(k[c] == *k.iter().min().unwrap() && k[d] == *k.iter().max().unwrap(), "integer extrema of {:?}", k);
        Ok(())
    });
}
