//! the symbolic operations agree with floating-point evaluation at points of the current path
use crate::*;

#[test]
fn roots() {
    with(|w| w.reset());
    let x = fresh("x", false);
    let r = (Sym::lit(1.0) - x).sqrt();
    assert!(identical(r * r, Sym::lit(1.0) - x));
}

#[test]
fn powers() {
    with(|w| w.reset());
    let (x, y, a) = (fresh("x", true), fresh("y", true), fresh("a", false));
    let one = Sym::lit(1.0);
    assert!(identical(x.powf(a) * x.powf(one - a), x));
    assert!(identical((x * y).powf(a), x.powf(a) * y.powf(a)));
    let r = (x + y).powf(one / Sym::lit(5.0));
    assert!(identical(r.powi(5), x + y));
    assert!(identical((x / y).ln(), x.ln() - y.ln()));
    assert!(identical((x * x * Sym::lit(6.0)).ln(), Sym::lit(2.0).ln() + Sym::lit(3.0).ln() + x.ln() + x.ln()));
    assert!(identical(a.exp().ln(), a));
    assert!(identical((a + x).exp(), a.exp() * x.exp()));
}

fn run(seed: u64) -> (usize, usize) {
    with(|w| w.reset());
    let mut s = seed.wrapping_mul(0x9E3779B97F4A7C15) | 1;
    let mut rnd = |n: u64| { s ^= s << 13; s ^= s >> 7; s ^= s << 17; (s >> 20) % n };
    // variables, then a program on two stacks: the symbolic one and the one of closures over points
    let vars: Vec<Sym> = (0..3).map(|i| fresh(&format!("v{}", i), i == 2)).collect();
    #[derive(Clone, Debug)]
    enum Op { Var(usize), Num(f64), Bin(u64, usize, usize), Un(u64, usize), Pick(u64, usize, usize, usize) }
    let mut ops = vec![Op::Var(0), Op::Var(1), Op::Var(2)];
    for _ in 0..9 {
        let n = ops.len() as u64;
        let (i, j, k) = (rnd(n) as usize, rnd(n) as usize, rnd(n) as usize);
        ops.push(match rnd(10) {
            0 => Op::Num([2.0, 0.5, -3.0, 1.25e-3, 1.0 / 3.0, 2f64.sqrt(), 0.1, -7.0][rnd(8) as usize]),
            1 | 2 => Op::Bin(0, i, j),
            3 => Op::Bin(1, i, j),
            4 | 5 => Op::Bin(2, i, j),
            6 => Op::Bin(3, i, j),
            7 => Op::Un(rnd(4), i),
            8 => Op::Un(4 + rnd(6), i),
            _ => Op::Pick(rnd(3), i, j, k),
        });
    }
    let mut st: Vec<Sym> = vec![];
    for o in &ops {
        let v = match o {
            Op::Var(i) => vars[*i],
            Op::Num(x) => Sym::lit(*x),
            Op::Bin(0, i, j) => st[*i] + st[*j],
            Op::Bin(1, i, j) => st[*i] - st[*j],
            Op::Bin(2, i, j) => st[*i] * st[*j],
            Op::Bin(_, i, j) => { if st[*j].is_zero() { return (0, 0); } st[*i] / st[*j] }
            Op::Un(0, i) => -st[*i],
            Op::Un(1, i) => st[*i].abs(),
            Op::Un(2, i) => (st[*i] * st[*i] + Sym::lit(0.5)).sqrt(),
            Op::Un(3, i) => st[*i].abs().sqrt(),
            Op::Un(4, i) => st[*i].powi(3),
            Op::Un(5, i) => st[*i].sin(),
            Op::Un(6, i) => (Sym::lit(1.0) + st[*i].powi(2)).ln(),
            Op::Un(7, i) => st[*i].exp(),
            Op::Un(8, i) => st[*i].abs().powf(Sym::lit(1.0) / Sym::lit(3.0)),
            Op::Un(_, i) => (st[*i].abs() * Sym::lit(0.75)).powf(vars[1]).ln(),
            Op::Pick(0, i, j, k) => if st[*i] < st[*j] { st[*k] } else { -st[*k] },
            Op::Pick(1, i, j, _) => st[*i].max(st[*j]),
            Op::Pick(_, i, j, k) => if st[*i] >= st[*j] { st[*k] } else { st[*j] },
        };
        st.push(v);
    }
    let id: Vec<usize> = vars.iter().map(|v| with(|w| w.val(*v).num.0.keys().next().unwrap()[0].0 as usize)).collect();
    let mut pseed = seed + 77;
    let (mut hits, mut bad) = (0, 0);
    for _ in 0..300 {
        let x = with(|w| w.point(&mut pseed));
        let signs: Vec<(Poly, i32)> = with(|w| w.signs.iter().map(|(p, s)| (p.clone(), *s)).collect());
        if !signs.iter().all(|(p, s)| with(|w| w.eval(p, &x)) * (*s as f64) > 1e-6) {
            continue;
        }
        let mut f: Vec<f64> = vec![];
        for o in &ops {
            let v = match o {
                Op::Var(i) => x[id[*i]],
                Op::Num(x) => *x,
                Op::Bin(0, i, j) => f[*i] + f[*j],
                Op::Bin(1, i, j) => f[*i] - f[*j],
                Op::Bin(2, i, j) => f[*i] * f[*j],
                Op::Bin(_, i, j) => f[*i] / f[*j],
                Op::Un(0, i) => -f[*i],
                Op::Un(1, i) => f[*i].abs(),
                Op::Un(2, i) => (f[*i] * f[*i] + 0.5).sqrt(),
                Op::Un(3, i) => f[*i].abs().sqrt(),
                Op::Un(4, i) => f[*i].powi(3),
                Op::Un(5, i) => f[*i].sin(),
                Op::Un(6, i) => (1.0 + f[*i].powi(2)).ln(),
                Op::Un(7, i) => f[*i].exp(),
                Op::Un(8, i) => f[*i].abs().powf(1.0 / 3.0),
                Op::Un(_, i) => (f[*i].abs() * 0.75).powf(f[1]).ln(),
                Op::Pick(0, i, j, k) => if f[*i] < f[*j] { f[*k] } else { -f[*k] },
                Op::Pick(1, i, j, _) => f[*i].max(f[*j]),
                Op::Pick(_, i, j, k) => if f[*i] >= f[*j] { f[*k] } else { f[*j] },
            };
            f.push(v);
        }
        let k = ops.len() - 1;
        let y = with(|w| { let v = w.val(st[k]); w.eval_val(&v, &x) });
        if !y.is_finite() || f.iter().any(|v| !v.is_finite() || v.abs() > 1e5 || (*v != 0.0 && v.abs() < 1e-4)) {
            continue;
        }
        hits += 1;
        if (y - f[k]).abs() > 1e-6 * (1.0 + f.iter().fold(0.0, |a: f64, v| a.max(v.abs()))) {
            bad += 1;
            eprintln!("{:?}\n x {:?} f {:?}\n y {} f {}\n {}", ops, x, f, y, f[k], st[k].text());
            break;
        }
    }
    (hits, bad)
}

#[test]
fn random_programs() {
    let (mut hits, mut bad, mut stuck) = (0, 0, 0);
    for seed in 1..6000u64 {
        let r = std::thread::spawn(move || run(seed)).join();
        match r {
            Ok((h, b)) => { hits += h; bad += b; }
            Err(e) => {
                let t = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                assert!(t.contains("SYM-"), "{}", t);
                stuck += 1;
            }
        }
    }
    eprintln!("points {} disagreements {} stuck {}", hits, bad, stuck);
    assert!(hits > 10000 && bad == 0 && stuck < 300);
}

#[test]
fn function_values() {
    for (x, y) in [(0.5, 0.5204998778130465), (1.0, 0.8427007929497149), (-2.0, -0.9953222650189527)] {
        assert!((super::erf_value(x) - y).abs() < 1e-14);
    }
    for (x, y) in [(0.5, 1.772453850905516), (5.0, 24.0), (-0.5, -3.544907701811032), (4.5, 11.63172839656745)] {
        assert!((super::gamma_value(x) / y - 1.0).abs() < 1e-12, "{}", super::gamma_value(x));
    }
}

#[test]
fn linear_consequences() {
    // a < b, b < c, c + d < 2 b: a < c and d < b follow, the order of a and d is open
    let o = explore(100, &|| {
        let (a, b, c, d) = (fresh("a", false), fresh("b", false), fresh("c", false), fresh("d", false));
        assume_positive(b - a);
        assume_positive(c - b);
        assume_positive(b * Sym::lit(2.0) - c - d);
        assert!(a < c && d < b && !(c < a) && (c - a).abs().text() == (c - a).text());
        let _ = a < d;
        Ok(())
    });
    assert!(o.fail.is_none() && o.stuck.is_none(), "{:?} {:?}", o.fail, o.stuck);
    assert_eq!(o.paths, 2);
}

#[test]
fn multiples_of_angles() {
    let o = explore(100, &|| {
        let x = fresh("x", false);
        let t = x.acos();
        let (l, u) = (Sym::lit, x.acosh());
        assert!(identical((l(3.0) * t).cos(), l(4.0) * x * x * x - l(3.0) * x));
        assert!(identical((l(-3.0) * t).sin(), -(l(4.0) * x * x - l(1.0)) * (l(1.0) - x * x).sqrt()));
        assert!(identical((l(2.0) * u).cosh(), l(2.0) * x * x - l(1.0)));
        assert!(identical((l(3.0) * u).sinh(), (l(4.0) * x * x - l(1.0)) * (x * x - l(1.0)).sqrt()));
        assert!(identical(t.sin() * t.sin(), l(1.0) - x * x));
        Ok(())
    });
    assert!(o.fail.is_none() && o.stuck.is_none(), "{:?} {:?}", o.fail, o.stuck);
}

#[test]
fn cosines_of_fractions_of_pi() {
    let o = explore(100, &|| {
        let l = Sym::lit;
        let pi = std::f64::consts::PI;
        for b in 1..25 {
            with(|w| w.reset());
            // the largest base comes first
            let first = (l(pi) / l(2.0 * b as f64)).cos();
            for a in -30..30 {
                let ang = l(pi) * l(a as f64) / l(b as f64);
                let (c, s) = (ang.cos(), ang.sin());
                let (x, y) = ((pi * a as f64 / b as f64).cos(), (pi * a as f64 / b as f64).sin());
                assert!((num_traits::ToPrimitive::to_f64(&c).unwrap() - x).abs() < 1e-8 && (num_traits::ToPrimitive::to_f64(&s).unwrap() - y).abs() < 1e-8, "{} {} {:?} {:?}", a, b, c, s);
                assert!(identical(c * c + s * s, l(1.0)));
                assert_eq!(c.is_zero(), x.abs() < 1e-9);
                if x.abs() > 1e-9 {
                    assert!(identical(l(1.0) / (c * l(3.0)) * c, l(1.0) / l(3.0)));
                    assert_eq!(c > l(0.0), x > 0.0);
                }
            }
            // all roots: sum of cos(2 k pi / b) is zero for b > 1
            let mut t = l(0.0);
            for k in 0..b {
                t = t + (l(pi) * l(2.0 * k as f64) / l(b as f64)).cos();
            }
            assert!(identical(t, if b == 1 { l(1.0) } else { l(0.0) }), "{} {:?} {:?}", b, t, first);
        }
        Ok(())
    });
    assert!(o.fail.is_none() && o.stuck.is_none(), "{:?} {:?}", o.fail, o.stuck);
}
