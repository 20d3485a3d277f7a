//! The operations of the harness in a program without standard library, allocator or operating system services
//! other than writing its results.
#![no_std]
#![allow(incomplete_features, clippy::all, dead_code)]
#![feature(generic_const_exprs)]

pub mod core {
    pub type R = f64;
}
#[path = "../../harness/src/ops.rs"]
pub mod ops;
#[path = "../../harness/src/special.rs"]
pub mod special;
#[path = "../../harness/src/template.rs"]
pub mod template;

use ops::Out;

extern "C" {
    fn put(at: *const u8, n: usize);
    fn quit() -> !;
}
#[panic_handler]
fn panic(_: &::core::panic::PanicInfo) -> ! {
    unsafe { quit() }
}

fn bytes(b: &[u8]) {
    unsafe { put(b.as_ptr(), b.len()) }
}
/// As the hosted builds do: the values of every call.
#[no_mangle]
pub extern "C" fn run(space: u64, from: u64, to: u64) {
    let mut o = Out::new();
    for i in from..to {
        special::with(special::number(space, i), &mut |w| {
            for k in 0.. {
                for q in special::pars(space) {
                    if !w.step(k, *q, &mut o) {
                        return;
                    }
                    bytes(&(o.n as u16).to_le_bytes());
                    for x in o.values() {
                        bytes(&x.to_le_bytes());
                    }
                }
            }
        });
    }
}
