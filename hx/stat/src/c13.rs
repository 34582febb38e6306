use hx_common::*;
use russell_stat::*;

pub fn register(cx: &mut Ctx) {
    cx.cases_w("counts", 2, |g| {
        let n = g.dim(2, 14);
        let mut s = vec![g.int(-10, 10) as f64 / 2.0];
        for i in 1..n {
            let step = if g.chance(1, 4) { g.range(0.001, 2.0) } else { g.int(1, 4) as f64 / 2.0 };
            s.push(s[i - 1] + step);
        }
        note!(g, "stations {:?}", s);
        let mut h = Histogram::new(&s)?;
        let mut w = vec![0; n - 1];
        ck!(*h.get_counts() == w, "counts of a new histogram {:?}", h.get_counts());
        for _ in 0..g.usize(1, 6) {
            if g.chance(1, 5) {
                note!(g, "reset");
                h.reset();
                w = vec![0; n - 1];
            } else {
                let mut d = vec![];
                for _ in 0..g.usize(0, 12) {
                    d.push(match g.usize(0, 9) {
                        0 => f64::NAN,
                        1 => f64::INFINITY * if g.bool() { 1.0 } else { -1.0 },
                        2 | 3 => s[g.usize(0, n - 1)],
                        4 => f64::from_bits(s[g.usize(0, n - 1)].to_bits().wrapping_sub(1)),
                        5 => f64::from_bits(s[g.usize(0, n - 1)].to_bits().wrapping_add(1)),
                        _ => g.range(s[0] - 1.0, s[n - 1] + 1.0),
                    });
                }
                note!(g, "count {:?}", d);
                h.count(&d);
                for x in &d {
                    for i in 0..n - 1 {
                        if s[i] <= *x && *x < s[i + 1] {
                            w[i] += 1;
                        }
                    }
                }
            }
            ck!(*h.get_counts() == w, "counts {:?}, expected {:?}", h.get_counts(), w);
        }
        ck!(Histogram::new(&s[..1]).is_err() && Histogram::<f64>::new(&[]).is_err(), "fewer than two stations accepted");
        Ok(())
    });
    cx.cases("integer_counts", |g| {
        let n = g.dim(2, 14);
        let mut s = vec![g.int(-10, 10) as i32];
        for i in 1..n {
            s.push(s[i - 1] + g.int(1, 4) as i32);
        }
        let d: Vec<i32> = (0..g.usize(0, 40)).map(|_| g.int(-14, 30) as i32).collect();
        note!(g, "stations {:?} data {:?}", s, d);
        let mut h = Histogram::new(&s)?;
        h.count(&d);
        for i in 0..n - 1 {
            let w = d.iter().filter(|x| s[i] <= **x && **x < s[i + 1]).count();
            ck!(h.get_counts()[i] == w, "bin {} has {}, expected {}", i, h.get_counts()[i], w);
        }
        Ok(())
    });
}
