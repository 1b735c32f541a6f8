//! Deterministic simulation of co-snarks: one seed, one execution. See /verif/DESIGN.md.
#![allow(static_mut_refs)]
mod os;
mod run;
mod scn;

struct Alloc;
unsafe impl std::alloc::GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 { os::alloc_point(); unsafe { std::alloc::System.alloc(l) } }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) { unsafe { std::alloc::System.dealloc(p, l) } }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 { os::alloc_point(); unsafe { std::alloc::System.alloc_zeroed(l) } }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 { unsafe { std::alloc::System.realloc(p, l, n) } }
}
#[global_allocator]
static A: Alloc = Alloc;

fn main() {
    run::stabilise();
    let args: Vec<String> = std::env::args().skip(1).collect();
    std::process::exit(run::cli(&args));
}
