// stand-in: the gamma function as a function known by name only
pub fn gamma(x: ::sym::Sym) -> ::sym::Sym { x.gamma() }
