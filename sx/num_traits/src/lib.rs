//! Stand-in of the traits of an external crate, for exact values.
use std::ops::*;
use sym::Sym;

pub trait ToPrimitive { fn to_f64(&self) -> Option<Sym>; }
pub trait NumCast: Sized + ToPrimitive {}
pub trait Num: PartialEq + Sized + Add<Output = Self> + Sub<Output = Self> + Mul<Output = Self> + Div<Output = Self> {}
pub mod cast { pub use super::{NumCast, ToPrimitive}; }

impl ToPrimitive for Sym { fn to_f64(&self) -> Option<Sym> { Some(*self) } }
impl NumCast for Sym {}
impl Num for Sym {}
