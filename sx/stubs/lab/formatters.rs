// stand-ins: texts of numbers are outside of the symbolic contracts
use std::fmt::{Display, Write};
use sym::Sym;
pub fn format_nanoseconds(_: u128) -> String { String::new() }
pub fn format_nanoseconds_with_digits(_: u128, _: usize) -> String { String::new() }
pub fn format_scientific(num: Sym, _: usize, _: usize) -> String { num.text() }
pub fn format_fortran(num: Sym) -> String { num.text() }
pub fn write_formatted_number<T>(buffer: &mut String, number: T, _: usize, _: Option<usize>, _: Option<usize>) where T: Display {
    write!(buffer, "{}", number).unwrap();
}
