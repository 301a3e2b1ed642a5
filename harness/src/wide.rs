//! Worlds with many component types, ordered by their type ids, so that every relative position of a type
//! in the (sorted) archetypes is exercised, whatever ids the compiler gave the types.
use crate::sx::*;
use crate::world::Val;
use core::any::TypeId;
use division_ecs::*;

/// N tells types apart, L is the number of 32-bit words
#[derive(Clone, Copy)]
pub struct K<const N: usize, const L: usize>(pub [u32; L]);
impl<const N: usize, const L: usize> Component for K<N, L> {}
impl<const N: usize, const L: usize> Val for K<N, L> {
    fn mk(v: u32) -> Self { let mut a = [0u32; L]; a[0] = v; a[L / 2] = v; a[L - 1] = v; K(a) }
    fn val(&self) -> u32 { self.0[0] }
    fn same(&self, v: u32) -> bool { (self.0[0] == v) & (self.0[L / 2] == v) & (self.0[L - 1] == v) }
}

pub const W: usize = 8;
pub const NE: usize = 16;
pub type A0 = K<0, 1>;
pub type A1 = K<1, 2>;
pub type A2 = K<2, 1>;
pub type A3 = K<3, 3>;
pub type A4 = K<4, 1>;
pub type A5 = K<5, 1>;
pub type A6 = K<6, 5>;
pub type A7 = K<7, 1>;

/// what can be done with one component type
#[derive(Clone, Copy)]
pub struct Ty {
    pub id: TypeId,
    pub add: fn(&mut Store, Entity, u32),
    pub rem: fn(&mut Store, Entity),
    pub get: fn(&Store, Entity, u32) -> (bool, bool),
    pub put: fn(&mut Store, Entity, u32) -> bool,
    pub inc: fn(&mut ArchetypeBuilder),
    pub exc: fn(&mut ArchetypeBuilder),
    pub has: fn(&Archetype) -> bool,
    pub bit: usize,
    pub size: usize,
    pub align: usize,
}
pub fn ty<T: Val>(bit: usize) -> Ty {
    Ty {
        id: TypeId::of::<T>(),
        add: |s, e, v| s.add_components(e, T::mk(v)),
        rem: |s, e| s.remove_components::<T>(e),
        get: |s, e, v| match s.get_components_refs::<T>(e) { Some(r) => (true, r.same(v)), None => (false, false) },
        put: |s, e, v| match s.get_components_refs_mut::<T>(e) { Some(r) => { *r = T::mk(v); true } None => false },
        inc: |b| { b.include_components::<T>(); },
        exc: |b| { b.exclude_components::<T>(); },
        has: |a| a.has_component::<T>(),
        bit,
        size: core::mem::size_of::<T>(),
        align: core::mem::align_of::<T>(),
    }
}
/// the eight types, in the order of their ids; bit i of a mask is types()[i]
pub fn types() -> [Ty; W] {
    let mut t = [ty::<A0>(0), ty::<A1>(1), ty::<A2>(2), ty::<A3>(3), ty::<A4>(4), ty::<A5>(5), ty::<A6>(6), ty::<A7>(7)];
    let mut i = 1;
    while i < W {
        let mut j = i;
        while j > 0 && t[j].id < t[j - 1].id { t.swap(j, j - 1); j -= 1; }
        i += 1;
    }
    t
}

pub struct Wide {
    pub s: Store,
    pub t: [Ty; W],
    pub n: usize,
    pub e: [Entity; NE],
    pub live: [bool; NE],
    pub has: [usize; NE],
    pub val: [[u32; W]; NE],
}

impl Wide {
    pub fn new(cap: usize) -> Self {
        Wide { s: Store::with_capacity(cap), t: types(), n: 0, e: [Entity::null(); NE], live: [false; NE], has: [0; NE], val: [[0; W]; NE] }
    }
    pub fn create(&mut self, mask: usize) -> usize {
        let e = if mask == 0 { self.s.create_entity() } else {
            let mut b = ArchetypeBuilder::new();
            let mut j = 0;
            // not in the order of the ids
            while j < W { let k = (j * 5 + 3) % W; if mask >> k & 1 != 0 { (self.t[k].inc)(&mut b); } j += 1; }
            let a = b.build();
            self.s.create_entity_with_archetype(&a)
        };
        let i = self.n;
        self.n += 1;
        self.e[i] = e;
        self.live[i] = true;
        self.has[i] = mask;
        self.write(i);
        i
    }
    pub fn write(&mut self, i: usize) {
        let mut j = 0;
        while j < W {
            if self.has[i] >> j & 1 != 0 { let v = any_u32(); check((self.t[j].put)(&mut self.s, self.e[i], v), 801); self.val[i][j] = v; }
            j += 1;
        }
    }
    pub fn add(&mut self, i: usize, j: usize) {
        let v = any_u32();
        (self.t[j].add)(&mut self.s, self.e[i], v);
        self.has[i] |= 1 << j;
        self.val[i][j] = v;
    }
    pub fn rem(&mut self, i: usize, j: usize) {
        (self.t[j].rem)(&mut self.s, self.e[i]);
        self.has[i] &= !(1 << j);
    }
    /// sorted position of the type with the given number
    fn pos(&self, bit: usize) -> usize { let mut j = 0; while self.t[j].bit != bit { j += 1; } j }
    fn mark(&mut self, i: usize, bits: &[usize], v: &[u32]) {
        let mut k = 0;
        while k < bits.len() { let j = self.pos(bits[k]); self.has[i] |= 1 << j; self.val[i][j] = v[k]; k += 1; }
    }
    fn unmark(&mut self, i: usize, bits: &[usize]) {
        let mut k = 0;
        while k < bits.len() { let j = self.pos(bits[k]); self.has[i] &= !(1 << j); k += 1; }
    }
    pub const TUPLES: usize = 8;
    /// operations over tuples of component types
    pub fn tuple(&mut self, i: usize, op: usize) {
        let e = self.e[i];
        let v = [any_u32(), any_u32(), any_u32(), any_u32()];
        match op {
            0 => { self.s.add_components(e, (A0::mk(v[0]), A2::mk(v[1]), A4::mk(v[2]), A6::mk(v[3]))); self.mark(i, &[0, 2, 4, 6], &v) }
            1 => { self.s.add_components(e, (A7::mk(v[0]), A5::mk(v[1]), A3::mk(v[2]), A1::mk(v[3]))); self.mark(i, &[7, 5, 3, 1], &v) }
            2 => { self.s.add_components(e, (A5::mk(v[0]), A0::mk(v[1]), A6::mk(v[2]))); self.mark(i, &[5, 0, 6], &v) }
            3 => {
                let w = [any_u32(), any_u32(), any_u32(), any_u32()];
                self.s.add_components(e, (A6::mk(v[0]), A1::mk(v[1]), A7::mk(v[2]), A0::mk(v[3]), A3::mk(w[0]), A5::mk(w[1]), A2::mk(w[2]), A4::mk(w[3])));
                self.mark(i, &[6, 1, 7, 0], &v);
                self.mark(i, &[3, 5, 2, 4], &w)
            }
            4 => { self.s.remove_components::<(A4, A1, A7)>(e); self.unmark(i, &[4, 1, 7]) }
            5 => { self.s.remove_components::<(A0, A2, A4, A6)>(e); self.unmark(i, &[0, 2, 4, 6]) }
            6 => { self.s.remove_components::<(A7, A6, A5, A3, A2, A0)>(e); self.unmark(i, &[7, 6, 5, 3, 2, 0]) }
            _ => { self.s.remove_components::<(A3, A1)>(e); self.unmark(i, &[3, 1]) }
        }
    }
    pub fn destroy(&mut self, i: usize) {
        self.s.destroy_entity(self.e[i]);
        self.live[i] = false;
        self.has[i] = 0;
    }
    pub fn some_live(&self) -> usize {
        let i = choose(self.n);
        if !self.live[i] { assume(false); }
        i
    }
    pub fn verify(&self) { let mut i = 0; while i < self.n { self.verify_one(i); i += 1; } }
    pub fn verify_one(&self, i: usize) {
        let (e, m) = (self.e[i], self.has[i]);
        check(self.s.is_alive(e) == self.live[i], 811);
        check(self.s.is_valid_entity_with_archetype(e) == (m != 0), 812);
        let a = self.s.get_entity_archetype(e);
        check(a.is_some() == (m != 0), 813);
        let mut count = 0;
        let mut j = 0;
        while j < W {
            let h = m >> j & 1 != 0;
            count += h as usize;
            let (there, same) = (self.t[j].get)(&self.s, e, self.val[i][j]);
            check(there == h, 814);
            if h { check(same, 815); }
            if let Some(a) = a { check((self.t[j].has)(a) == h, 816); }
            j += 1;
        }
        if let Some(a) = a { check(a.component_count() == count, 817); }
    }
    pub fn emit_all(&self) {
        let mut i = 0;
        while i < self.n { emit(self.e[i].id() as u64 | (self.e[i].version() as u64) << 32); emit(self.has[i] as u64); i += 1; }
    }
}

/// Arbitrary operations on a few entities over eight component types. `start`: 0 none, 1 all, 2 all but one
/// (each one), 3 only one (each one), 4 the lower half of the ids, 5 the upper half
pub fn history(start: &[usize], steps: usize, tuples: bool) {
    let mut w = Wide::new(start.len());
    let mut i = 0;
    while i < start.len() {
        let m = match start[i] { 0 => 0, 1 => 0xff, 2 => 0xff & !(1 << choose(W)), 3 => 1 << choose(W), 4 => 0x0f, _ => 0xf0 };
        w.create(m);
        i += 1;
    }
    let mut k = 0;
    while k < steps {
        let i = w.some_live();
        let op = choose(2 * W + if tuples { Wide::TUPLES } else { 0 } + 1);
        if op == 0 { w.destroy(i); }
        else if op <= W { w.add(i, op - 1); }
        else if op <= 2 * W { w.rem(i, op - 1 - W); }
        else { w.tuple(i, op - 1 - 2 * W); }
        w.verify();
        k += 1;
    }
    w.emit_all();
    cover(1);
}

/// `count` archetypes one after the other: entities of every single type and of growing sets, all alive at
/// once; then they go in an order of choice and others of the same sets come
pub fn many_archetypes(count: usize, gone: usize) {
    let mut w = Wide::new(4);
    let mut i = 0;
    while i < count { w.create(if i < W { 1 << i } else { (2 << (i - W + 1)) - 1 }); i += 1; }
    w.verify();
    let mut k = 0;
    while k < gone { let i = w.some_live(); w.destroy(i); k += 1; }
    w.verify();
    let first = choose(2);
    let mut k = 0;
    while k < gone {
        let m = if first == 0 { 0xff >> k } else { let j = (k * 3 + 1) % count; if j < W { 1 << j } else { (2 << (j - W + 1)) - 1 } };
        w.create(m);
        k += 1;
    }
    w.verify();
    let i = w.some_live();
    w.tuple(i, 3);
    w.verify();
    w.emit_all();
    cover(1);
}

