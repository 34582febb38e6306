mod c13;
mod c14;
mod c15;
mod s14;
mod s15;
fn register(prop: &str, cx: &mut hx_common::Ctx) -> bool {
    match prop {
        "C13" => c13::register(cx),
        "C14" => { c14::register(cx); s14::register(cx) }
        "C15" => { c15::register(cx); s15::register(cx) }
        _ => return false,
    }
    true
}
fn main() {
    hx_common::main_with(register);
}
