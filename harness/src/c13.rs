//! ResourceStore: values stay put, every resource is dropped exactly once, memory is given back.
use crate::sx::*;
use crate::world::*;
use division_ecs::*;

static mut DROPS: [u32; 16] = [0; 16];
fn drops(k: usize) -> u32 { unsafe { DROPS[k] } }
fn dropped(k: usize) { unsafe { DROPS[k] += 1 } }

pub trait Res { const COUNTED: bool = true; fn mk(k: usize, v: u32) -> Self; fn is(&self, k: usize, v: u32) -> bool; fn set(&mut self, v: u32); }

/// owns heap memory
pub struct Owned { k: usize, b: Box<u32> }
impl Res for Owned { fn mk(k: usize, v: u32) -> Self { Owned { k, b: Box::new(v) } } fn is(&self, k: usize, v: u32) -> bool { (self.k == k) & (*self.b == v) } fn set(&mut self, v: u32) { *self.b = v } }
impl Drop for Owned { fn drop(&mut self) { dropped(self.k) } }

/// over-aligned
#[repr(align(64))]
pub struct Wide { k: usize, v: [u32; 20] }
impl Res for Wide { fn mk(k: usize, v: u32) -> Self { let mut a = [0; 20]; a[0] = v; a[19] = v; Wide { k, v: a } } fn is(&self, k: usize, v: u32) -> bool { (self.k == k) & (self.v[0] == v) & (self.v[19] == v) } fn set(&mut self, v: u32) { self.v[0] = v; self.v[19] = v } }
impl Drop for Wide { fn drop(&mut self) { dropped(self.k) } }

/// no size at all
pub struct Zero;
impl Res for Zero { fn mk(_: usize, _: u32) -> Self { Zero } fn is(&self, _: usize, _: u32) -> bool { true } fn set(&mut self, _: u32) {} }
impl Drop for Zero { fn drop(&mut self) { dropped(0) } }

/// plain data without anything to drop
#[derive(Clone, Copy)]
pub struct Bare { k: usize, v: u32 }
impl Res for Bare { const COUNTED: bool = false; fn mk(k: usize, v: u32) -> Self { Bare { k, v } } fn is(&self, k: usize, v: u32) -> bool { (self.k == k) & (self.v == v) } fn set(&mut self, v: u32) { self.v = v } }

/// memory owned, without a destructor of its own
pub struct Boxed(Box<(usize, u32)>, Option<Box<u8>>);
impl Res for Boxed { const COUNTED: bool = false; fn mk(k: usize, v: u32) -> Self { Boxed(Box::new((k, v)), if v & 1 == 1 { Some(Box::new(v as u8)) } else { None }) } fn is(&self, k: usize, v: u32) -> bool { (self.0.0 == k) & (self.0.1 == v) } fn set(&mut self, v: u32) { self.0.1 = v } }

fn make<T: Res>(cap: usize) -> ResourceStore<T> { if cap == usize::MAX { ResourceStore::new() } else { ResourceStore::with_capacity(cap) } }

pub fn history<T: Res>(cap: usize, pre: usize, steps: usize) {
    let zst = core::mem::size_of::<T>() == 0;
    let before = heap_live();
    let mut s = make::<T>(cap);
    let mut h = [Entity::null(); 16];
    let mut val = [0u32; 16];
    let mut live = [false; 16];
    let mut n = 0;
    let mut released = 0;
    while n < pre { val[n] = any_u32(); h[n] = s.create(T::mk(n, val[n])); live[n] = true; n += 1; }
    let mut k = 0;
    while k < steps {
        let op = choose(3);
        if op == 0 {
            let v = any_u32();
            let e = s.create(T::mk(n, v));
            let mut i = 0;
            while i < n { check(h[i] != e, 1); i += 1; }
            h[n] = e; val[n] = v; live[n] = true; n += 1;
        } else {
            let i = choose(n + (n == 0) as usize);
            if !live[i] { assume(false); }
            if op == 1 {
                let r = s.release(h[i]);
                check(r.is(i, val[i]), 2);
                if T::COUNTED && !zst { check(drops(i) == 0, 3); }
                drop(r);
                if T::COUNTED && !zst { check(drops(i) == 1, 4); }
                live[i] = false;
                released += 1;
            } else { val[i] = any_u32(); s[h[i]].set(val[i]); }
        }
        let mut i = 0;
        while i < n {
            if live[i] { check(s[h[i]].is(i, val[i]), 5); if T::COUNTED && !zst { check(drops(i) == 0, 6); } }
            i += 1;
        }
        if zst { check(drops(0) == released, 7); }
        k += 1;
    }
    drop(s);
    if zst { check(drops(0) == n as u32, 8); } else if T::COUNTED { let mut i = 0; while i < n { check(drops(i) == 1, 9); i += 1; } }
    check(heap_live() == before, 10);
    let mut i = 0;
    while i < n { emit(h[i].id() as u64 | (h[i].version() as u64) << 32); i += 1; }
    cover(1);
}

/// C17: handles of released (or never created) resources are refused and change nothing
pub fn stale(cap: usize, steps: usize) {
    let mut s = make::<Owned>(cap);
    let mut h = [Entity::null(); 16];
    let mut val = [0u32; 16];
    let mut live = [false; 16];
    let mut n = 0;
    let mut k = 0;
    while k < steps {
        if n == 0 || choose(2) == 0 { val[n] = any_u32(); h[n] = s.create(Owned::mk(n, val[n])); live[n] = true; n += 1; }
        else { let i = choose(n); if !live[i] { assume(false); } drop(s.release(h[i])); live[i] = false; }
        k += 1;
    }
    // any handle that is not a live one
    let x = forge(any_u32(), any_u32());
    let mut i = 0;
    while i < n { if live[i] { assume(!((x.id() == h[i].id()) & (x.version() == h[i].version()))); } i += 1; }
    let refused = match choose(3) {
        0 => panics(|| { let _ = s.release(x); }),
        1 => panics(|| { let _ = &s[x]; }),
        _ => panics(|| s[x].set(7)),
    };
    check(refused, 21);
    let mut i = 0;
    while i < n { check(drops(i) == !live[i] as u32, 22); if live[i] { check(s[h[i]].is(i, val[i]), 23); } i += 1; }
    // and the store goes on working
    let e = s.create(Owned::mk(n, 5));
    let mut i = 0;
    while i < n { check(h[i] != e, 24); if live[i] { check(s[h[i]].is(i, val[i]), 25); } i += 1; }
    check(s[e].is(n, 5), 26);
    drop(s);
    let mut i = 0;
    while i <= n { check(drops(i) == 1, 27); i += 1; }
    emit(n as u64);
    cover(1);
}

/// plain data, and a drop that can be told from the outside
pub struct Plain { k: u32, v: u32 }
impl Drop for Plain { fn drop(&mut self) { dropped(self.k as usize & 15) } }

/// which resource is released or written stays symbolic
pub fn symbolic(cap: usize, pre: usize, steps: usize) {
    let before = heap_live();
    let mut s: ResourceStore<Plain> = ResourceStore::with_capacity(cap);
    let mut h = [Entity::null(); 16];
    let mut val = [0u32; 16];
    let mut live = [false; 16];
    let mut n = 0;
    while n < pre { val[n] = any_u32(); h[n] = s.create(Plain { k: n as u32, v: val[n] }); live[n] = true; n += 1; }
    merge_loads(true);
    let mut k = 0;
    while k < steps {
        let op = choose(3);
        if op == 0 {
            let v = any_u32();
            let e = s.create(Plain { k: n as u32, v });
            let mut i = 0;
            while i < n { check((h[i].id() != e.id()) | (h[i].version() != e.version()), 31); check(!live[i] | (h[i].id() != e.id()), 32); i += 1; }
            h[n] = e; val[n] = v; live[n] = true; n += 1;
        } else {
            if n == 0 { assume(false); }
            let i = pick(n);
            assume(live[i]);
            if op == 1 {
                let r = s.release(h[i]);
                check((r.k as usize == i) & (r.v == val[i]), 33);
                check(drops(i) == 0, 34);
                drop(r);
                live[i] = false;
            } else { let v = any_u32(); s[h[i]].v = v; val[i] = v; }
        }
        k += 1;
    }
    let i = pick(n + (n == 0) as usize);
    if n > 0 {
        check(drops(i) == !live[i] as u32, 35);
        if live[i] { let r = &s[h[i]]; check((r.k as usize == i) & (r.v == val[i]), 36); }
    }
    drop(s);
    let mut i = 0;
    while i < n { check(drops(i) == 1, 37); emit(h[i].id() as u64); i += 1; }
    check(heap_live() == before, 38);
    cover(1);
}

static mut COUNT: [u8; 400] = [0; 400];
pub struct Numbered { k: u32, v: u32, pad: [u32; 3] }
impl Drop for Numbered { fn drop(&mut self) { unsafe { COUNT[self.k as usize] += 1 } } }
/// many resources: growth far beyond the first capacities, releases and reuse at the interesting places
pub fn many(cap: usize, n: usize, steps: usize, bounds: &[usize]) {
    allow_millions(20);
    let before = heap_live();
    let mut s: ResourceStore<Numbered> = if cap == usize::MAX { ResourceStore::new() } else { ResourceStore::with_capacity(cap) };
    let mut h = Vec::with_capacity(n + steps);
    let mut val = Vec::with_capacity(n + steps);
    let mut live = Vec::with_capacity(n + steps);
    let base = any_u32();
    let mut i = 0;
    while i < n {
        let v = base ^ i as u32;
        let e = s.create(Numbered { k: i as u32, v, pad: [!v; 3] });
        h.push(e); val.push(v); live.push(true);
        i += 1;
    }
    let mut k = 0;
    while k < steps {
        let i = place(n, bounds);
        if !live[i] { assume(false); }
        match choose(3) {
            0 => { let r = s.release(h[i]); check((r.k as usize == i) & (r.v == val[i]) & (r.pad[2] == !val[i]), 51); drop(r); live[i] = false; }
            1 => { drop(s.release(h[i])); live[i] = false; let v = any_u32(); let e = s.create(Numbered { k: h.len() as u32, v, pad: [!v; 3] }); h.push(e); val.push(v); live.push(true); }
            _ => { let v = any_u32(); let r = &mut s[h[i]]; r.v = v; r.pad = [!v; 3]; val[i] = v; }
        }
        let mut i = 0;
        while i < h.len() {
            check(unsafe { COUNT[i] } == !live[i] as u8, 52);
            if live[i] { let r = &s[h[i]]; check((r.k as usize == i) & (r.v == val[i]) & (r.pad[0] == !val[i]) & (r.pad[2] == !val[i]), 53); }
            i += 1;
        }
        k += 1;
    }
    drop(s);
    let mut i = 0;
    while i < h.len() { check(unsafe { COUNT[i] } == 1, 54); i += 1; }
    emit(h.len() as u64);
    drop(h); drop(val); drop(live);
    check(heap_live() == before, 55);
    cover(1);
}

/// C17: which resource was released, and the handle used, stay symbolic
pub fn stale_sym(cap: usize, pre: usize, steps: usize) {
    let mut s: ResourceStore<Plain> = ResourceStore::with_capacity(cap);
    let mut h = [Entity::null(); 16];
    let mut val = [0u32; 16];
    let mut live = [false; 16];
    let mut n = 0;
    while n < pre { val[n] = any_u32(); h[n] = s.create(Plain { k: n as u32, v: val[n] }); live[n] = true; n += 1; }
    merge_loads(true);
    let mut k = 0;
    while k < steps {
        if choose(2) == 0 { val[n] = any_u32(); h[n] = s.create(Plain { k: n as u32, v: val[n] }); live[n] = true; n += 1; }
        else { let i = pick(n); assume(live[i]); drop(s.release(h[i])); live[i] = false; }
        k += 1;
    }
    let x = forge(any_u32(), any_u32());
    let mut i = 0;
    while i < n { assume(!(live[i] & (x.id() == h[i].id()) & (x.version() == h[i].version()))); i += 1; }
    let refused = match choose(3) {
        0 => panics(|| { let _ = s.release(x); }),
        1 => panics(|| { let _ = &s[x]; }),
        _ => panics(|| s[x].v = 7),
    };
    check(refused, 61);
    let mut i = 0;
    while i < n { check(drops(i) == !live[i] as u32, 62); i += 1; }
    let i = pick(n);
    assume(live[i]);
    let r = &s[h[i]];
    check((r.k as usize == i) & (r.v == val[i]), 63);
    emit(refused as u64);
    cover(1);
}

/// C17: one slot used many times over; every handle it had before stays refused
pub fn cycled(times: usize) {
    allow_millions(20);
    let mut s: ResourceStore<Plain> = ResourceStore::with_capacity(2);
    let a = s.create(Plain { k: 0, v: 10 });
    let mut old: Vec<Entity> = Vec::with_capacity(times);
    let v = any_u32();
    let mut k = 0;
    while k < times { let h = s.create(Plain { k: 1, v }); check(s[h].v == v, 71); drop(s.release(h)); old.push(h); k += 1; }
    let h = s.create(Plain { k: 2, v: 7 });
    // also the handles from 2^8, 2^12, 2^15, 2^16 uses ago; or any handle to the slot but the one in use
    let at = [0, 1, 126, 127, 128, 254, 255, 256, times - 1, times - 256, times - 4096.min(times), times - 32768.min(times), times - 65536.min(times)];
    let i = choose(14);
    let x = if i < 13 { old[at[i]] } else { let x = forge(h.id(), any_u32()); assume(x.version() != h.version()); x };
    check(x != h, 72);
    check(match choose(3) { 0 => panics(|| { let _ = s.release(x); }), 1 => panics(|| { let _ = &s[x]; }), _ => panics(|| s[x].v = 7) }, 73);
    check((s[a].v == 10) & (s[h].v == 7) & (drops(1) == times as u32) & (drops(2) == 0), 74);
    emit(h.id() as u64);
    cover(1);
}
