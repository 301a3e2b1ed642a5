//! The vocabulary the harnesses speak to the symbolic executor (or, natively, to the replayer).
#![allow(dead_code)]

mod raw {
    extern "C" {
        pub fn sx_any(bits: u32) -> u64;
        pub fn sx_choose(n: u64) -> u64;
        pub fn sx_concrete(v: u64) -> u64;
        pub fn sx_assume(c: bool);
        pub fn sx_check(c: bool, id: u32);
        pub fn sx_emit(v: u64);
        pub fn sx_heap_live() -> u64;
        pub fn sx_cover(id: u32);
        pub fn sx_mode(m: u32);
    }
    extern "C-unwind" {
        pub fn sx_catch(f: extern "C-unwind" fn(*mut u8), data: *mut u8) -> u32;
    }
}

/// an arbitrary value
pub fn any_u32() -> u32 { unsafe { raw::sx_any(32) as u32 } }
pub fn any_u64() -> u64 { unsafe { raw::sx_any(64) } }
/// an arbitrary value below n; one path per value
pub fn choose(n: usize) -> usize { unsafe { raw::sx_choose(n as u64) as usize } }
/// one path per possible value of v
pub fn concrete(v: u64) -> u64 { unsafe { raw::sx_concrete(v) } }
pub fn assume(c: bool) { unsafe { raw::sx_assume(c) } }
/// the property's assertion
pub fn check(c: bool, id: u32) { unsafe { raw::sx_check(c, id) } }
/// an observed value, compared between the encoding and the native run
pub fn emit(v: u64) { unsafe { raw::sx_emit(v) } }
/// reachability witness
pub fn cover(id: u32) { unsafe { raw::sx_cover(id) } }
/// number of live heap blocks
pub fn heap_live() -> u64 { unsafe { raw::sx_heap_live() } }
/// resolve symbolic addresses into if-then-else terms (true) or into one path each (false)
pub fn merge_loads(on: bool) { unsafe { raw::sx_mode(on as u32) } }

/// a path may take this many million instructions more than usual before it counts as not terminating
pub fn allow_millions(n: u32) { unsafe { raw::sx_mode(n << 1) } }

/// requests for 2^44 bytes and more fail from here on; the process may end because of that
pub fn allocations_may_fail() { unsafe { raw::sx_mode(u32::MAX) } }

/// runs f; true when it panicked
pub fn panics<F: FnOnce()>(f: F) -> bool {
    extern "C-unwind" fn tramp<F: FnOnce()>(p: *mut u8) {
        let f = unsafe { (*(p as *mut Option<F>)).take() };
        if let Some(f) = f { f() }
    }
    let mut o = Some(f);
    unsafe { raw::sx_catch(tramp::<F>, &mut o as *mut Option<F> as *mut u8) != 0 }
}
/// an arbitrary value below n, kept symbolic (no fork)
pub fn pick(n: usize) -> usize { let v = any_u32(); assume((v as usize) < n); v as usize }
/// if c {a} else {b} without a branch (no fork)
pub fn sel(c: bool, a: usize, b: usize) -> usize { b ^ ((a ^ b) & 0usize.wrapping_sub(c as usize)) }
