//! Stand-ins of the samplers of an external crate: parameters are accepted as documented there,
//! no random numbers are drawn.
use sym::Sym;

pub struct Error;

pub trait Distribution<T> {
    fn sample<R: rand::Rng + ?Sized>(&self, _: &mut R) -> T {
        panic!("SYM-UNSUPPORTED random number")
    }
}

macro_rules! sampler {
    ($name:ident, ($($a:ident),*), $ok:expr) => {
        pub struct $name<F>(std::marker::PhantomData<F>);
        impl $name<Sym> {
            pub fn new($($a: Sym),*) -> Result<Self, Error> {
                $(let _ = $a;)*
                if $ok { Ok($name(std::marker::PhantomData)) } else { Err(Error) }
            }
        }
        impl Distribution<Sym> for $name<Sym> {}
    };
}
sampler!(Uniform, (low, high), low < high);
sampler!(Normal, (_mean, _std_dev), true);
sampler!(LogNormal, (_mu, sigma), sigma >= Sym::lit(0.0));
sampler!(Gumbel, (_location, scale), scale > Sym::lit(0.0));
sampler!(Frechet, (_location, scale, shape), scale > Sym::lit(0.0) && shape > Sym::lit(0.0));
