mod c01;
mod c02;
mod c05;
mod c06;
#[path = "../../lab/src/s06.rs"]
mod s06;
fn register(prop: &str, cx: &mut hx_common::Ctx) -> bool {
    match prop {
        "C01" => c01::register(cx),
        "C02" => c02::register_c02(cx),
        "C03" => c02::register_c03(cx),
        "C04" => c02::register_c04(cx),
        "C05" => c05::register(cx),
        "C06" => { c06::register(cx); s06::register(cx) }
        _ => return false,
    }
    true
}
fn main() {
    hx_common::main_with(register);
}
