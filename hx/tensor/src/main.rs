// contracts of the tensor crate; compiled once against the real crates (numbers are generated)
// and once against the symbolic form of the crates (every equality is decided as an identity)
mod c16;
mod c17;
mod c18;
mod c19;
mod c20;
mod c21;
mod tx;
fn register(prop: &str, cx: &mut hx_common::Ctx) -> bool {
    match prop {
        "C16" => c16::register(cx),
        "C17" => c17::register(cx),
        "C18" => c18::register(cx),
        "C19" => c19::register(cx),
        "C20" => c20::register(cx),
        "C21" => c21::register(cx),
        _ => return false,
    }
    true
}
fn main() {
    hx_common::main_with(register);
}
