// stand-in: comparisons of the test suite are not used by the contracts
pub fn complex_approx_eq<T>(_: num_complex::Complex<T>, _: num_complex::Complex<T>, _: ::sym::Sym) { panic!("SYM-UNSUPPORTED approximate comparison") }
