use hx_common::*;
use russell_lab::math::*;

// values found by the bit-precise checker
fn point() -> Vec<f64> {
    std::env::var("HX_POINT").unwrap_or_default().split(',').filter_map(|s| s.parse::<u64>().ok()).map(f64::from_bits).collect()
}
fn anyf(g: &mut Gen) -> f64 {
    let p = point();
    if p.len() > 0 && g.chance(1, 3) {
        return *g.pick(&p);
    }
    match g.usize(0, 9) {
        0 => f64::from_bits(g.u64()),
        1 => f64::from_bits(g.u64() >> 12 | (g.u64() & (1 << 63))), // subnormal
        2 => *g.pick(&[0.0, -0.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, f64::MAX, f64::MIN, f64::MIN_POSITIVE, -f64::MIN_POSITIVE, f64::from_bits(1), f64::EPSILON, 1.0, -1.0, 4503599627370496.0, 9007199254740992.0, 4503599627370495.5, 2251799813685248.5]),
        3 => g.int(-1000, 1000) as f64,
        4 => g.int(-1000, 1000) as f64 / 8.0,
        5 => {
            // around a power of two
            let e = g.usize(0, 2046) as u64;
            let k = g.int(-2, 2);
            f64::from_bits(((e << 52) as i64 + k).max(0) as u64 | (g.u64() & (1 << 63)))
        }
        6 => f64::from_bits((g.u64() & 0x800fffffffffffff) | ((1023 + g.usize(0, 60) as u64) << 52)),
        7 => {
            let m = !0u64 << g.usize(0, 52);
            f64::from_bits((g.u64() & 0x800fffffffffffff & m) | ((1023 + g.usize(0, 60) as u64) << 52))
        }
        _ => g.rval(),
    }
}
fn same(a: f64, b: f64) -> bool {
    a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan())
}
// m times two to the power e, correctly rounded
fn ldexp(m: f64, e: i64) -> f64 {
    if m == 0.0 || !m.is_finite() {
        return m;
    }
    let b = m.to_bits();
    let sign = b & (1 << 63);
    let ex = ((b >> 52) & 0x7ff) as i64;
    let fr = b & ((1 << 52) - 1);
    // value = mant * 2^(x)
    let (mut mant, mut x) = if ex == 0 { (fr, -1074) } else { (fr | (1 << 52), ex - 1075) };
    x += e;
    while mant < (1 << 52) {
        mant <<= 1;
        x -= 1;
    }
    // mant in [2^52, 2^53)
    let exp = x + 52; // value in [2^exp, 2^(exp+1))
    if exp > 1023 {
        return f64::from_bits(sign | f64::INFINITY.to_bits());
    }
    if exp >= -1022 {
        return f64::from_bits(sign | (((exp + 1023) as u64) << 52) | (mant & ((1 << 52) - 1)));
    }
    let sh = -1022 - exp; // shift right by sh, round half to even
    if sh > 53 {
        return f64::from_bits(sign);
    }
    let keep = if sh == 64 { 0 } else { mant >> sh };
    let rest = mant & ((1u64 << sh) - 1);
    let half = 1u64 << (sh - 1);
    let up = rest > half || (rest == half && keep & 1 == 1);
    f64::from_bits(sign | (keep + up as u64))
}

pub fn register(cx: &mut Ctx) {
    cx.cases("split", |g| {
        let x = anyf(g);
        note!(g, "x {:?} bits {:#x}", x, x.to_bits());
        let (i, f) = float_split(x);
        if x.is_nan() {
            ck!(i.is_nan() && f.is_nan(), "({:?},{:?})", i, f);
        } else if x.is_infinite() {
            ck!(i == x && f == 0.0, "({:?},{:?})", i, f);
        } else {
            ck!(same(i, x.trunc()), "integer part {:?} of {:?}, expected {:?}", i, x, x.trunc());
            let wf = x - x.trunc(); // exact
            ck!(f == wf && i + f == x, "remainder {:?} of {:?}, expected {:?}", f, x, wf);
            ck!(f.is_sign_negative() == x.is_sign_negative() && i.is_sign_negative() == x.is_sign_negative(), "signs of ({:?},{:?}) for {:?}", i, f, x);
            ck!(f.abs() < 1.0, "remainder {:?}", f);
        }
        let int = x.is_finite() && x.trunc() == x;
        ck!(float_is_integer(x) == int, "integer test on {:?} returned {}", x, !int);
        ck!(float_is_neg_integer(x) == (int && x < 0.0), "negative integer test on {:?}", x);
        Ok(())
    });
    cx.cases("decompose_and_compose", |g| {
        let x = anyf(g);
        note!(g, "x {:?} bits {:#x}", x, x.to_bits());
        let (m, e) = float_decompose(x);
        if x == 0.0 || !x.is_finite() {
            ck!(same(m, x) && e == 0, "({:?},{}) for {:?}", m, e, x);
        } else {
            ck!(m.abs() >= 0.5 && m.abs() < 1.0, "fraction {:?} of {:?}", m, x);
            ck!(same(ldexp(m, e as i64), x), "{:?} times 2^{} is not {:?}", m, e, x);
        }
        ck!(same(float_compose(m, e), x), "composition of ({:?},{}) is {:?}, expected {:?}", m, e, float_compose(m, e), x);
        Ok(())
    });
    cx.cases("compose", |g| {
        let m = anyf(g);
        let e: i32 = match g.usize(0, 5) {
            0 => *g.pick(&[i32::MAX, i32::MIN, i32::MAX - 1000, i32::MIN + 1000, i32::MAX - 1023, i32::MIN + 2047, -1075, -1074, -1022, -1023, 1023, 1024]),
            1 if point().len() > 0 => g.pick(&point()).to_bits() as i32,
            1 => g.u64() as i32,
            2 => g.int(-2200, 2200) as i32,
            3 => g.int(-60, 60) as i32,
            _ => {
                let x = ((m.to_bits() >> 52) & 0x7ff) as i32 - 1023;
                *g.pick(&[-1022, -1023, -1050, -1073, -1074, -1075, -1076, 1023, 1024]) - x + g.int(-2, 2) as i32
            }
        };
        note!(g, "m {:?} bits {:#x} e {}", m, m.to_bits(), e);
        let v = float_compose(m, e);
        let w = ldexp(m, e as i64);
        ck!(same(v, w), "{:?} times 2^{} is {:?}, expected {:?}", m, e, v, w);
        Ok(())
    });
    cx.cases("modulo", |g| {
        let x = anyf(g);
        let y = match g.usize(0, 3) {
            0 => anyf(g),
            1 => g.int(1, 60) as f64 / 8.0,
            2 => ldexp(x, -(g.usize(0, 80) as i64)) * g.range(0.5, 1.0),
            _ => g.rval(),
        };
        note!(g, "x {:?} y {:?}", x, y);
        let r = modulo(x, y);
        let w = x % y;
        ck!(same(r, w) || (r == 0.0 && w == 0.0 && r.is_sign_negative() == x.is_sign_negative()), "modulo({:?},{:?}) is {:?}, expected {:?}", x, y, r, w);
        if x.is_finite() && y != 0.0 && !y.is_nan() {
            ck!(r.abs() < y.abs() && (r == 0.0 || (r < 0.0) == (x < 0.0)), "modulo({:?},{:?}) is {:?}", x, y, r);
        }
        Ok(())
    });
    cx.cases("elementary", |g| {
        let x = anyf(g);
        note!(g, "x {:?}", x);
        if !x.is_nan() {
            let s = if x > 0.0 { 1.0 } else if x < 0.0 { -1.0 } else { 0.0 };
            ck!(sign(x) == s && heaviside(x) == (s + 1.0) / 2.0 && ramp(x) == if x > 0.0 { x } else { 0.0 }, "sign {:?} step {:?} ramp {:?} of {:?}", sign(x), heaviside(x), ramp(x), x);
            let (a, b) = (g.range(-3.0, 0.0), g.range(0.1, 4.0));
            let w = if x > a && x < b { 1.0 } else if x == a || x == b { 0.5 } else { 0.0 };
            ck!(boxcar(x, a, b) == w && boxcar(a, a, b) == 0.5 && boxcar(b, a, b) == 0.5, "box of {:?}", x);
        }
        let n = g.u64() as i32;
        ck!(neg_one_pow_n(n) == if n % 2 == 0 { 1.0 } else { -1.0 }, "power {}", n);
        let k = g.usize(0, 22);
        let w: u128 = (1..=k as u128).product();
        ck!(factorial_lookup_22(k) == w as f64, "factorial {}", k);
        Ok(())
    });
}
