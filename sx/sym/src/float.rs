impl num_traits::Float for Sym {
    fn nan() -> Sym { Sym::NAN }
    fn infinity() -> Sym { Sym::INFINITY }
    fn neg_infinity() -> Sym { Sym::NEG_INFINITY }
    fn neg_zero() -> Sym { Sym::lit(0.0) }
    fn min_value() -> Sym { Sym::MIN }
    fn min_positive_value() -> Sym { Sym::MIN_POSITIVE }
    fn max_value() -> Sym { Sym::MAX }
    fn epsilon() -> Sym { Sym::EPSILON }
    fn is_nan(self) -> bool { false }
    fn is_infinite(self) -> bool { false }
    fn is_finite(self) -> bool { true }
    fn is_normal(self) -> bool { true }
    fn classify(self) -> std::num::FpCategory { std::num::FpCategory::Normal }
    fn floor(self) -> Sym { panic!("SYM-UNSUPPORTED floor") }
    fn ceil(self) -> Sym { panic!("SYM-UNSUPPORTED ceil") }
    fn round(self) -> Sym { panic!("SYM-UNSUPPORTED round") }
    fn trunc(self) -> Sym { panic!("SYM-UNSUPPORTED trunc") }
    fn fract(self) -> Sym { panic!("SYM-UNSUPPORTED fract") }
    fn abs(self) -> Sym { Sym::abs(self) }
    fn signum(self) -> Sym { Sym::signum(self) }
    fn recip(self) -> Sym { Sym::recip(self) }
    fn sqrt(self) -> Sym { Sym::sqrt(self) }
    fn exp(self) -> Sym { Sym::exp(self) }
    fn exp2(self) -> Sym { panic!("SYM-UNSUPPORTED exp2") }
    fn ln(self) -> Sym { Sym::ln(self) }
    fn log2(self) -> Sym { panic!("SYM-UNSUPPORTED log2") }
    fn log10(self) -> Sym { panic!("SYM-UNSUPPORTED log10") }
    fn cbrt(self) -> Sym { panic!("SYM-UNSUPPORTED cbrt") }
    fn sin(self) -> Sym { Sym::sin(self) }
    fn cos(self) -> Sym { Sym::cos(self) }
    fn tan(self) -> Sym { Sym::tan(self) }
    fn asin(self) -> Sym { Sym::asin(self) }
    fn acos(self) -> Sym { Sym::acos(self) }
    fn atan(self) -> Sym { Sym::atan(self) }
    fn exp_m1(self) -> Sym { panic!("SYM-UNSUPPORTED exp_m1") }
    fn ln_1p(self) -> Sym { panic!("SYM-UNSUPPORTED ln_1p") }
    fn sinh(self) -> Sym { panic!("SYM-UNSUPPORTED sinh") }
    fn cosh(self) -> Sym { Sym::cosh(self) }
    fn tanh(self) -> Sym { panic!("SYM-UNSUPPORTED tanh") }
    fn asinh(self) -> Sym { panic!("SYM-UNSUPPORTED asinh") }
    fn acosh(self) -> Sym { Sym::acosh(self) }
    fn atanh(self) -> Sym { panic!("SYM-UNSUPPORTED atanh") }
    fn is_sign_positive(self) -> bool { self >= Sym::lit(0.0) }
    fn is_sign_negative(self) -> bool { self < Sym::lit(0.0) }
    fn mul_add(self, a: Sym, b: Sym) -> Sym { self * a + b }
    fn powi(self, n: i32) -> Sym { Sym::powi(self, n) }
    fn powf(self, n: Sym) -> Sym { Sym::powf(self, n) }
    fn log(self, _: Sym) -> Sym { panic!("SYM-UNSUPPORTED log") }
    fn max(self, o: Sym) -> Sym { Sym::max(self, o) }
    fn min(self, o: Sym) -> Sym { Sym::min(self, o) }
    fn abs_sub(self, o: Sym) -> Sym { if self > o { self - o } else { Sym::lit(0.0) } }
    fn hypot(self, o: Sym) -> Sym { (self * self + o * o).sqrt() }
    fn atan2(self, _: Sym) -> Sym { panic!("SYM-UNSUPPORTED atan2") }
    fn sin_cos(self) -> (Sym, Sym) { (self.sin(), self.cos()) }
    fn integer_decode(self) -> (u64, i16, i8) { panic!("SYM-UNSUPPORTED integer_decode") }
}
