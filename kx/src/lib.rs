//! Contracts of the floating-point composition functions, decided for every 64-bit value.
#![allow(dead_code, unused_imports)]

// the real source files, unchanged
#[path = "{REPO}/russell_lab/src/math/composition.rs"]
pub mod composition;
#[path = "{REPO}/russell_lab/src/math/functions.rs"]
pub mod functions;
// written by `vx kx`: the real function with its loop cut at the invariant
pub mod modulo;
pub use composition::*;
pub use functions::*;

#[cfg(kani)]
pub use proofs::{vx_any, vx_entry, vx_exit, vx_step};

#[cfg(kani)]
mod proofs {
    use super::*;

    // ---- rule of the loop of the modulo ----
    static mut LAST: f64 = 0.0;
    fn magnitude(x: f64) -> u64 {
        x.to_bits() & !(1 << 63)
    }
    // between zero and the dividend
    fn invariant(r: f64, x: f64) -> bool {
        finite(r) && if zero(x) { r.to_bits() == x.to_bits() } else { !negative(r) && r.to_bits() <= magnitude(x) }
    }
    // before the loop: the magnitudes of both arguments
    pub fn vx_entry(r: f64, y: f64, x0: f64, y0: f64) {
        assert!(finite(x0) && !nan(y0) && !zero(y0));
        assert!(y.to_bits() == magnitude(y0));
        assert!(magnitude(r) == magnitude(x0));
        assert!(invariant(r, x0));
    }
    // any state between two passes
    pub fn vx_any(x0: f64) -> f64 {
        let r: f64 = kani::any();
        kani::assume(invariant(r, x0));
        r
    }
    // which part of the rule a proof is about: 0 before and after the loop, 1 and 2 one pass
    static mut PART: u8 = 0;
    // one pass subtracts the divisor times a power of two, without rounding
    pub fn vx_step(r: f64, s: f64, y: f64) {
        let ((rm, re), (ym, ye)) = (parts(r), parts(y));
        kani::assume(unsafe { PART } == 1 + (rm < ym) as u8);
        let k = re - ye - (rm < ym) as i64;
        assert!(k >= 0);
        let d = ((rm as u128) << 1) - if rm < ym { ym as u128 } else { (ym as u128) << 1 };
        if d == 0 {
            assert!(s.to_bits() == 0);
        } else {
            let z = d.leading_zeros() as i64 - 64;
            assert!(z >= -1 && !negative(s) && finite(s) && !zero(s) && s < r);
            let (m, low) = if z < 0 { ((d >> 1) as u64, d & 1) } else { ((d as u64) << z, 0) };
            let (sm, se) = parts(s);
            assert!(low == 0 && sm == m && se == re - 1 - z);
        }
        kani::assume(false);
    }
    pub fn vx_exit(r: f64) {
        unsafe { LAST = r };
    }
    // results demanded by the contracts `compose` and `decompose`
    fn composed(m: f64, e: i32) -> f64 {
        if zero(m) || !finite(m) {
            return m;
        }
        let (mm, me) = parts(m);
        f64::from_bits(rounded(negative(m), mm, me + e as i64))
    }
    fn decomposed(x: f64) -> (f64, i32) {
        if zero(x) || !finite(x) {
            return (x, 0);
        }
        let (m, e) = parts(x);
        (f64::from_bits(((negative(x) as u64) << 63) | (1022 << 52) | ((m << 1) >> 12)), (e + 64) as i32)
    }
    #[kani::proof]
    #[kani::stub(composition::float_compose, composed)]
    #[kani::stub(composition::float_decompose, decomposed)]
    fn modulo_ends() {
        let (x, y): (f64, f64) = (kani::any(), kani::any());
        let v = modulo::modulo(x, y);
        if !finite(x) || nan(y) || zero(y) {
            assert!(nan(v));
        } else {
            // the last state of the loop, below the divisor, with the sign of the dividend
            assert!(magnitude(v) == magnitude(unsafe { LAST }) && magnitude(v) < magnitude(y));
            assert!(negative(v) == negative(x));
        }
    }
    #[kani::proof]
    #[kani::stub(composition::float_compose, composed)]
    #[kani::stub(composition::float_decompose, decomposed)]
    fn modulo_pass_1() {
        unsafe { PART = 1 };
        let _ = modulo::modulo(kani::any(), kani::any());
    }
    #[kani::proof]
    #[kani::stub(composition::float_compose, composed)]
    #[kani::stub(composition::float_decompose, decomposed)]
    fn modulo_pass_2() {
        unsafe { PART = 2 };
        let _ = modulo::modulo(kani::any(), kani::any());
    }

    // ---- notation ----
    fn biased(x: f64) -> i64 {
        ((x.to_bits() >> 52) & 0x7ff) as i64
    }
    fn negative(x: f64) -> bool {
        x.to_bits() >> 63 == 1
    }
    fn nan(x: f64) -> bool {
        biased(x) == 0x7ff && x.to_bits() << 12 != 0
    }
    fn infinite(x: f64) -> bool {
        biased(x) == 0x7ff && x.to_bits() << 12 == 0
    }
    fn zero(x: f64) -> bool {
        x.to_bits() << 1 == 0
    }
    fn finite(x: f64) -> bool {
        biased(x) != 0x7ff
    }
    // |x| = m * 2^e with m in [2^63, 2^64) for a finite number other than zero
    fn parts(x: f64) -> (u64, i64) {
        let f = x.to_bits() & ((1 << 52) - 1);
        let (m, e) = if biased(x) == 0 { (f, -1074) } else { (f | (1 << 52), biased(x) - 1075) };
        let s = m.leading_zeros();
        (m << s, e - s as i64)
    }
    // the number is an integer
    fn whole(x: f64) -> bool {
        if !finite(x) {
            return false;
        }
        if zero(x) {
            return true;
        }
        let (m, e) = parts(x);
        // no digit below the point
        if e >= 0 {
            true
        } else if e <= -64 {
            false
        } else {
            m & ((1u64 << (-e) as u32) - 1) == 0
        }
    }
    // m * 2^e rounded to the nearest, ties to even
    fn rounded(neg: bool, m: u64, e: i64) -> u64 {
        let s = (neg as u64) << 63;
        let top = e + 63;
        if top > 1023 {
            return s | (0x7ff << 52);
        }
        let drop = if top >= -1022 { 11 } else { -1022 - top + 11 };
        if drop > 64 {
            return s;
        }
        let (keep, rest, half) = if drop == 64 { (0, m, 1u64 << 63) } else { (m >> drop, m & ((1u64 << drop) - 1), 1u64 << (drop - 1)) };
        let up = (rest > half || (rest == half && keep & 1 == 1)) as u64;
        // the carry moves into the exponent
        if top >= -1022 {
            s | ((((top + 1022) as u64) << 52) + keep + up)
        } else {
            s | (keep + up)
        }
    }

    #[kani::proof]
    fn split_integer_part() {
        let x: f64 = kani::any();
        let (i, f) = float_split(x);
        if nan(x) {
            assert!(nan(i) && nan(f));
        } else if infinite(x) {
            assert!(i.to_bits() == x.to_bits() && zero(f));
        } else {
            // toward zero
            assert!(whole(i) && negative(i) == negative(x) && negative(f) == negative(x));
            assert!((i.to_bits() << 1) <= (x.to_bits() << 1));
        }
    }

    #[kani::proof]
    fn split_remainder() {
        let x: f64 = kani::any();
        kani::assume(finite(x));
        let (i, f) = float_split(x);
        assert!(f < 1.0 && f > -1.0);
        assert!(i + f == x);
        assert!(x - i == f);
    }

    #[kani::proof]
    fn integer_tests() {
        let x: f64 = kani::any();
        assert!(float_is_integer(x) == whole(x));
        assert!(float_is_neg_integer(x) == (whole(x) && negative(x) && !zero(x)));
    }

    #[kani::proof]
    fn decompose() {
        let x: f64 = kani::any();
        let (m, e) = float_decompose(x);
        if zero(x) || !finite(x) {
            assert!(e == 0 && (m.to_bits() == x.to_bits() || (nan(m) && nan(x))));
        } else {
            // in [1/2,1), same sign, same digits
            assert!(biased(m) == 1022 && negative(m) == negative(x));
            let ((mm, me), (xm, xe)) = (parts(m), parts(x));
            assert!(mm == xm && me + e as i64 == xe);
        }
    }

    #[kani::proof]
    fn compose() {
        let m: f64 = kani::any();
        let e: i32 = kani::any();
        let v = float_compose(m, e);
        if zero(m) || !finite(m) {
            assert!(v.to_bits() == m.to_bits() || (nan(m) && nan(v)));
        } else {
            let (mm, me) = parts(m);
            assert!(v.to_bits() == rounded(negative(m), mm, me + e as i64));
        }
    }

    #[kani::proof]
    fn compose_of_decompose() {
        let x: f64 = kani::any();
        let (m, e) = float_decompose(x);
        let v = float_compose(m, e);
        assert!(v.to_bits() == x.to_bits() || (nan(v) && nan(x)));
    }

    #[kani::proof]
    fn elementary() {
        let (x, a, b): (f64, f64, f64) = (kani::any(), kani::any(), kani::any());
        let n: i32 = kani::any();
        let s = if nan(x) || zero(x) { 0 } else if negative(x) { -1 } else { 1 };
        assert!(sign(x) == s as f64);
        if !nan(x) {
            assert!(heaviside(x) == [0.0, 0.5, 1.0][(s + 1) as usize]);
            assert!(if s == 1 { ramp(x).to_bits() == x.to_bits() } else { zero(ramp(x)) });
        }
        if a < b && !nan(x) {
            let w = if x < a || b < x { 0.0 } else if x == a || x == b { 0.5 } else { 1.0 };
            assert!(boxcar(x, a, b) == w);
        }
        assert!(neg_one_pow_n(n) == if n % 2 == 0 { 1.0 } else { -1.0 });
    }
}
