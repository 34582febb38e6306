mod c27;
mod c28;
mod c29;
mod c29s;
mod c30;
mod c31;
mod c38;
mod c39;
mod s39;
fn register(prop: &str, cx: &mut hx_common::Ctx) -> bool {
    match prop {
        "C27" => c27::register(cx),
        "C28" => c28::register(cx),
        "C30" => c30::register(cx),
        "C31" => c31::register(cx),
        "C38" => c38::register(cx),
        "C39" => {
            c39::register(cx);
            s39::register(cx)
        }
        "C29" => {
            c29::register(cx);
            c29s::register(cx)
        }
        _ => return false,
    }
    true
}
fn main() {
    hx_common::main_with(register);
}
