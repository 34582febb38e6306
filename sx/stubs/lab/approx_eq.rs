// stand-in: comparisons of the test suite are not used by the contracts
pub fn approx_eq<T>(_: T, _: T, _: ::sym::Sym) { panic!("SYM-UNSUPPORTED approximate comparison") }
