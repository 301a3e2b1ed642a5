//! One crate for both readings of the harness: compiled with `--cfg sx_ir` it is what the executor encodes
//! (the sx_* functions are the executor's); otherwise it replays one path natively with given values.
#![allow(static_mut_refs, dead_code, unused_imports)]
include!("all.rs");

#[cfg(sx_ir)]
fn main() {
    // keeps every entry in the module
    for (n, f) in entries() { if n.len() > 1000 { f() } }
}
#[cfg(not(sx_ir))]
fn main() { native::main() }

#[cfg(not(sx_ir))]
mod native {
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

static LIVE: AtomicU64 = AtomicU64::new(0);
struct Counting;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(1, Relaxed); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(1, Relaxed); System.dealloc(p, l) }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(1, Relaxed); System.alloc_zeroed(l) }
}
#[global_allocator]
static G: Counting = Counting;

static mut VALUES: Vec<u64> = Vec::new();
static mut AT: usize = 0;

fn next() -> u64 {
    unsafe {
        let v = VALUES.get(AT).copied().unwrap_or(0);
        AT += 1;
        v
    }
}
#[no_mangle] extern "C" fn sx_any(bits: u32) -> u64 { let v = next(); if bits >= 64 { v } else { v & ((1 << bits) - 1) } }
#[no_mangle] extern "C" fn sx_choose(n: u64) -> u64 { let v = next(); if v < n { v } else { println!("ASSUME"); std::process::exit(5) } }
#[no_mangle] extern "C" fn sx_concrete(v: u64) -> u64 { v }
#[no_mangle] extern "C" fn sx_assume(c: bool) { if !c { println!("ASSUME"); std::process::exit(5) } }
#[no_mangle] extern "C" fn sx_check(c: bool, id: u32) { if !c { println!("CHECK {id}"); std::process::exit(3) } }
#[no_mangle] extern "C" fn sx_emit(v: u64) { println!("EMIT {v}") }
#[no_mangle] extern "C" fn sx_heap_live() -> u64 { LIVE.load(Relaxed) }
#[no_mangle] extern "C" fn sx_cover(_: u32) {}
#[no_mangle] extern "C" fn sx_mode(_: u32) {}
#[no_mangle] extern "C-unwind" fn sx_catch(f: extern "C-unwind" fn(*mut u8), data: *mut u8) -> u32 {
    let l = LIVE.load(Relaxed);
    let r = std::panic::catch_unwind(|| f(data));
    match r {
        Ok(_) => 0,
        Err(p) => { drop(p); let _ = l; 1 }
    }
}

pub fn main() {
    let a: Vec<String> = std::env::args().collect();
    let entry = &a[1];
    let vals: Vec<u64> = a[2..].iter().map(|x| x.parse().unwrap()).collect();
    unsafe { VALUES = vals; }
    std::panic::set_hook(Box::new(|i| {
        let l = LIVE.load(Relaxed);
        eprintln!("PANIC {i}");
        LIVE.store(l, Relaxed);
    }));
    println!("START"); // the output buffer exists before the harness looks at the heap
    match super::entries().iter().find(|(n, _)| n == entry) {
        Some((_, f)) => f(),
        None => { println!("NOENTRY"); std::process::exit(4) }
    }
    println!("DONE");
}
}
