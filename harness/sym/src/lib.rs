//! Symbolic build of the harness: everything below is executed by /verif/engine.
#![no_std]
extern crate vcore;
use core::alloc::{GlobalAlloc, Layout};

unsafe extern "C" {
    fn sym_panic() -> !;
    fn sym_alloc(n: u64) -> *mut u8;
    fn sym_dealloc(p: *mut u8);
}

#[panic_handler]
fn on_panic(_: &core::panic::PanicInfo) -> ! {
    unsafe { sym_panic() }
}

struct A;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        unsafe { sym_alloc(l.size() as u64) }
    }
    unsafe fn dealloc(&self, p: *mut u8, _: Layout) {
        unsafe { sym_dealloc(p) }
    }
}
#[global_allocator]
static GLOBAL: A = A;
