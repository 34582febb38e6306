mod c32;
mod c33;
fn register(prop: &str, cx: &mut hx_common::Ctx) -> bool {
    match prop {
        "C32" => c32::register(cx),
        "C33" => c33::register(cx),
        _ => return false,
    }
    true
}
fn main() {
    hx_common::main_with(register);
}
