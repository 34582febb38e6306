// stand-in: the error function and its complement as functions known by name, derivative and symmetry
pub fn erf(x: ::sym::Sym) -> ::sym::Sym { x.erf() }
pub fn erfc(x: ::sym::Sym) -> ::sym::Sym { ::sym::Sym::from(1.0) - x.erf() }
