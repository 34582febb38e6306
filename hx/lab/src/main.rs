mod c07;
mod c08;
mod c09;
mod c10;
mod c11;
mod c12;
mod c34;
mod c35;
mod c36;
mod c37;
mod s08;
mod s10;
mod s35;
mod s36;
mod s37;
fn register(prop: &str, cx: &mut hx_common::Ctx) -> bool {
    match prop {
        "C07" => c07::register(cx),
        "C08" => { c08::register(cx); s08::register(cx) }
        "C09" => c09::register(cx),
        "C10" => { c10::register(cx); s10::register(cx) }
        "C11" => c11::register(cx),
        "C12" => c12::register(cx),
        "C34" => c34::register(cx),
        "C35" => { c35::register(cx); s35::register(cx) }
        "C36" => { c36::register(cx); s36::register(cx) }
        "C37" => { c37::register(cx); s37::register(cx) }
        _ => return false,
    }
    true
}
fn main() {
    hx_common::main_with(register);
}
