mod c22;
mod c23;
mod c24;
mod c25;
mod c26;
mod ox;
fn register(prop: &str, cx: &mut hx_common::Ctx) -> bool {
    match prop {
        "C22" => c22::register(cx),
        "C23" => c23::register(cx),
        "C24" => c24::register(cx),
        "C25" => c25::register(cx),
        "C26" => c26::register(cx),
        _ => return false,
    }
    true
}
fn main() {
    hx_common::main_with(register);
}
