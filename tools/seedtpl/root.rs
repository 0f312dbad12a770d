// Demonstration compiled into the crate (private items are visible here).
#[allow(dead_code, unused_imports)]
mod h { include!(concat!(env!("VP_HOOKS_DIR"), "/harness.rs")); }
#[allow(dead_code, unused_imports)]
mod d { include!(concat!(env!("VP_HOOKS_DIR"), "/demo.rs")); }
#[no_mangle]
pub extern "C" fn demo_main() -> i32 {
    let r = std::panic::catch_unwind(d::demo);
    match r { Ok(true) => 0, Ok(false) => 1, Err(_) => 1 }
}
