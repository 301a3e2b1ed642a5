//! Archetypes are sets of component types.
use crate::sx::*;
use crate::world::*;
use core::any::TypeId;
use core::hash::{Hash, Hasher};
use division_ecs::*;

type T0 = W8; type U1 = W16; type U2 = W32; type U3 = W64; type U4 = Odd; type U5 = Bytes3;
fn ids() -> [TypeId; 6] { [TypeId::of::<T0>(), TypeId::of::<U1>(), TypeId::of::<U2>(), TypeId::of::<U3>(), TypeId::of::<U4>(), TypeId::of::<U5>()] }
fn types() -> [ComponentType; 6] { [ComponentType::of::<T0>(), ComponentType::of::<U1>(), ComponentType::of::<U2>(), ComponentType::of::<U3>(), ComponentType::of::<U4>(), ComponentType::of::<U5>()] }
fn build(mask: usize) -> Archetype {
    let mut b = ArchetypeBuilder::new();
    let t = types();
    let mut i = 0;
    while i < 6 { if mask >> i & 1 != 0 { b.include_component_types(&t[i..i + 1]); } i += 1; }
    b.build()
}
fn pop(m: usize) -> usize { let mut n = 0; let mut i = 0; while i < 8 { n += m >> i & 1; i += 1; } n }

struct Fold(u64);
impl Hasher for Fold { fn finish(&self) -> u64 { self.0 } fn write(&mut self, b: &[u8]) { let mut i = 0; while i < b.len() { self.0 = self.0.rotate_left(5) ^ b[i] as u64; i += 1; } } }
fn hash(a: &Archetype) -> u64 { let mut h = Fold(1); a.hash(&mut h); h.finish() }

fn describes(a: &Archetype, m: usize) {
    let t = types();
    check(a.component_count() == pop(m), 1);
    let l = a.included_ids();
    check(l.len() == pop(m), 2);
    let mut i = 0;
    while i + 1 < l.len() { check(l[i] < l[i + 1], 3); i += 1; }
    let mut i = 0;
    while i < 6 {
        match a.find_component_index(t[i].id()) { Some(k) => { check(m >> i & 1 != 0, 4); check(l[k] == t[i].id(), 5) } None => check(m >> i & 1 == 0, 6) }
        i += 1;
    }
    check(a.has_component::<T0>() == (m & 1 != 0), 7);
    check(a.has_component::<U3>() == (m & 8 != 0), 8);
    let mut seen = 0;
    for c in a.components_iter() {
        let mut i = 0;
        while i < 6 {
            if c.id() == t[i].id() { check(seen >> i & 1 == 0, 9); seen |= 1 << i; check((c.size() == t[i].size()) & (c.align() == t[i].align()) & (c.name().len() == t[i].name().len()), 10); }
            i += 1;
        }
    }
    check(seen == m, 11);
}

pub fn pairs(bits: usize) {
    let m1 = 1 + choose((1 << bits) - 1);
    let m2 = 1 + choose((1 << bits) - 1);
    let (a, b) = (build(m1), build(m2));
    check(a.is_include(&b) == (m2 & !m1 == 0), 21);
    check(a.is_exclude(&b) == (m1 & m2 == 0), 22);
    check(a.is_same_as(&b) == (m1 == m2), 23);
    check(a.is_include_only_ids(b.included_ids()) == (m1 == m2), 24);
    if m1 == m2 { check(hash(&a) == hash(&b), 25); }
    describes(&a, m1);
    let c = a.clone();
    describes(&c, m1);
    check(c.is_same_as(&a) & (hash(&c) == hash(&a)), 26);
    emit(a.component_count() as u64);
    cover(1);
}

/// membership tests against arbitrary lists of arbitrary (distinct) type ids, in any order
pub fn lists(bits: usize, len: usize) {
    let m = 1 + choose((1 << bits) - 1);
    let a = build(m);
    let known = ids();
    let mut l = [known[0]; 4];
    let mut inside = 0;
    let mut n = 0;
    while n < len {
        let raw = [any_u64(), any_u64()];
        let id: TypeId = unsafe { core::mem::transmute(raw) };
        l[n] = id;
        let mut i = 0;
        let mut hit = false;
        while i < 6 {
            let k: [u64; 2] = unsafe { core::mem::transmute(known[i]) };
            hit |= (m >> i & 1 != 0) & (k[0] == raw[0]) & (k[1] == raw[1]);
            i += 1;
        }
        let mut j = 0;
        while j < n { let p: [u64; 2] = unsafe { core::mem::transmute(l[j]) }; assume((p[0] != raw[0]) | (p[1] != raw[1])); j += 1; }
        inside += hit as usize;
        n += 1;
    }
    check(a.is_include_ids(&l[..len]) == (inside == len), 31);
    check(a.is_exclude_ids(&l[..len]) == (inside == 0), 32);
    check(a.is_include_only_ids(&l[..len]) == ((inside == len) & (pop(m) == len)), 33);
    emit(inside as u64);
    cover(1);
}

/// builders: any sequence of inclusions and exclusions
pub fn builder(steps: usize) {
    let mut b = ArchetypeBuilder::new();
    let mut m = 0;
    let mut k = 0;
    while k < steps {
        match choose(9) {
            0 => { b.include_components::<(U2, T0)>(); m |= 5; }
            1 => { b.include_components::<U3>(); m |= 8; }
            2 => { b.exclude_components::<(U3, U2)>(); m &= !12; }
            3 => { b.exclude_components::<T0>(); m &= !1; }
            4 => { b.include_archetype(&Archetype::with_components::<(U4, U3, T0)>()); m |= 25; }
            5 => { b.include_component_types(&[ComponentType::of::<U1>(), ComponentType::of::<U4>(), ComponentType::of::<U1>()]); m |= 18; }
            6 => { b.exclude_component_types(&[ComponentType::of::<U4>(), ComponentType::of::<U1>()]); m &= !18; }
            7 => { b.include_components::<(U5, U1, U4)>(); m |= 50; }
            _ => { if m != 0 { let a = b.build(); describes(&a, m); } }
        }
        k += 1;
    }
    if m == 0 { check(panics(|| { b.build(); }), 41); } else { let a = b.build(); describes(&a, m); check(a.is_same_as(&build(m)), 42); }
    emit(m as u64);
    cover(1);
}

/// the order in which a tuple names its components is irrelevant
pub fn tuples() {
    let (a, b) = match choose(4) {
        0 => (Archetype::with_components::<(T0, U1, U2)>(), Archetype::with_components::<(U2, T0, U1)>()),
        1 => (Archetype::with_components::<(U3, U4)>(), Archetype::with_components::<(U4, U3)>()),
        2 => (Archetype::with_components::<(U5, U4, U3, U2, U1, T0)>(), Archetype::with_components::<(T0, U1, U2, U3, U4, U5)>()),
        _ => (Archetype::with_components::<(U1, U5, U3, T0)>(), Archetype::with_components::<(U5, T0, U1, U3)>()),
    };
    check(a.is_same_as(&b) & a.is_include(&b) & b.is_include(&a), 51);
    check(hash(&a) == hash(&b), 52);
    let mut s = Store::with_capacity(2);
    let x = s.create_entity_with_archetype(&a);
    let y = s.create_entity_with_archetype(&b);
    match (s.get_entity_archetype(x), s.get_entity_archetype(y)) { (Some(p), Some(q)) => check(p.is_same_as(q), 53), _ => check(false, 54) }
    emit(a.component_count() as u64);
    cover(1);
}

/// A description of a component type with the given id, size and alignment.
/// (Found in the description of a real type and replaced there, wherever the fields are.)
fn describe(id: [u64; 2], size: usize, align: usize) -> ComponentType {
    #[repr(align(512))]
    struct Probe([u64; 704]); // 5632 bytes
    const N: usize = core::mem::size_of::<ComponentType>() / 8;
    let mut c = ComponentType::of::<Probe>();
    let real: [u64; 2] = unsafe { core::mem::transmute(TypeId::of::<Probe>()) };
    let p = &mut c as *mut ComponentType as *mut u64;
    let at = |w: u64| { let mut i = 0; while i < N && unsafe { p.add(i).read() } != w { i += 1; } i };
    let (i, s, a) = (at(real[0]), at(5632), at(512));
    if i + 1 < N && s < N && a < N {
        unsafe { p.add(i).write(id[0]); p.add(i + 1).write(id[1]); p.add(s).write(size as u64); p.add(a).write(align as u64); }
    }
    let got: [u64; 2] = unsafe { core::mem::transmute(c.id()) };
    if !((got[0] == id[0]) & (got[1] == id[1]) & (c.size() == size) & (c.align() == align)) { assume(false); }
    c
}

/// Component types with arbitrary ids, sizes and alignments, in any order, possibly named twice.
pub fn symbolic(na: usize, nb: usize, dup: bool) {
    let mut id = [[0u64; 2]; 6];
    let mut size = [0usize; 6];
    let mut align = [0usize; 6];
    let mut b = ArchetypeBuilder::new();
    let mut n = 0;
    while n < na + nb {
        id[n] = [any_u64(), any_u64()];
        let k = any_u32() & 7;
        align[n] = 1usize << k;
        size[n] = ((any_u32() & 0xff) as usize) << k;
        // the same type has one size and one alignment
        let mut j = 0;
        while j < n {
            let same = (id[j][0] == id[n][0]) & (id[j][1] == id[n][1]);
            if !dup && ((j < na) == (n < na)) { assume(!same); }
            assume(!same | ((size[j] == size[n]) & (align[j] == align[n])));
            j += 1;
        }
        n += 1;
    }
    let mut i = 0;
    while i < na { b.include_component_types(&[describe(id[i], size[i], align[i])]); i += 1; }
    let a = b.build();
    let tid = |i: usize| -> TypeId { unsafe { core::mem::transmute(id[i]) } };
    let raw = |t: TypeId| -> [u64; 2] { unsafe { core::mem::transmute(t) } };
    let eq = |x: [u64; 2], y: [u64; 2]| (x[0] == y[0]) & (x[1] == y[1]);
    // each type once, in one definite order, with its own size and alignment
    let mut distinct = 0;
    let mut i = 0;
    while i < na {
        let mut again = false;
        let mut j = 0;
        while j < i { again |= eq(id[i], id[j]); j += 1; }
        distinct += !again as usize;
        match a.find_component_index(tid(i)) { Some(k) => { check(k < a.component_count(), 61); check(eq(raw(a.included_ids()[k]), id[i]), 62); } None => check(false, 63) }
        i += 1;
    }
    check(a.component_count() == distinct, 64);
    for c in a.components_iter() {
        let mut ok = false;
        let mut i = 0;
        while i < na { ok |= eq(raw(c.id()), id[i]) & (c.size() == size[i]) & (c.align() == align[i]); i += 1; }
        check(ok, 65);
    }
    let l = a.included_ids();
    let mut i = 0;
    while i < l.len() { let mut j = 0; while j < i { check(!eq(raw(l[i]), raw(l[j])), 66); j += 1; } i += 1; }
    // against another one
    if nb > 0 {
        let mut b = ArchetypeBuilder::new();
        let mut i = na;
        while i < na + nb { b.include_component_types(&[describe(id[i], size[i], align[i])]); i += 1; }
        let c = b.build();
        let (mut all, mut none) = (true, true);
        let mut i = na;
        while i < na + nb {
            let mut hit = false;
            let mut j = 0;
            while j < na { hit |= eq(id[i], id[j]); j += 1; }
            all &= hit;
            none &= !hit;
            i += 1;
        }
        check(a.is_include(&c) == all, 67);
        check(a.is_exclude(&c) == none, 68);
        check(a.is_same_as(&c) == (all & (a.component_count() == c.component_count())), 69);
        check(a.is_include_only_ids(c.included_ids()) == (all & (a.component_count() == c.component_count())), 70);
        // the union, and the difference
        let mut b = ArchetypeBuilder::new();
        let u = b.include_archetype(&c).include_archetype(&a).build();
        check(u.is_include(&a) & u.is_include(&c), 71);
        check((u.component_count() == a.component_count()) == all, 72);
    }
    // named in the opposite order
    let mut b = ArchetypeBuilder::new();
    let mut i = na;
    while i > 0 { i -= 1; b.include_component_types(&[describe(id[i], size[i], align[i])]); }
    let d = b.build();
    check(d.is_same_as(&a), 73);
    check(hash(&d) == hash(&a), 74);
    emit(distinct as u64);
    cover(1);
}

/// eight types: any set against one that differs in up to two types, and against its complement
pub fn eight() {
    let t = crate::wide::types();
    let mk = |m: usize, rev: bool| {
        let mut b = ArchetypeBuilder::new();
        let mut j = 0;
        while j < 8 { let k = if rev { 7 - j } else { (j * 3 + 2) % 8 }; if m >> k & 1 != 0 { (t[k].inc)(&mut b); } j += 1; }
        b.build()
    };
    let m1 = 1 + choose(255);
    let (f, g) = (choose(9), choose(9));
    if f < g || (f == 8 && g < 8 && false) { assume(false); }
    let mut m2 = m1;
    if f < 8 { m2 ^= 1 << f; }
    if g < 8 && g != f { m2 ^= 1 << g; }
    if f == 8 && g == 0 { m2 = 0xff & !m1; }
    if m2 == 0 { assume(false); }
    let (a, b) = (mk(m1, false), mk(m2, true));
    check(a.is_include(&b) == (m2 & !m1 == 0), 81);
    check(a.is_exclude(&b) == (m1 & m2 == 0), 82);
    check(a.is_same_as(&b) == (m1 == m2), 83);
    check(a.is_include_only_ids(b.included_ids()) == (m1 == m2), 84);
    check(a.is_include_ids(b.included_ids()) == (m2 & !m1 == 0), 85);
    check(a.is_exclude_ids(b.included_ids()) == (m1 & m2 == 0), 86);
    let c = a.clone();
    check(c.is_same_as(&a), 87);
    let mut n = 0;
    let mut seen = 0;
    for d in c.components_iter() {
        let mut j = 0;
        while j < 8 { if t[j].id == d.id() { seen |= 1 << j; check((d.size() == t[j].size) & (d.align() == t[j].align), 88); } j += 1; }
        n += 1;
    }
    check((seen == m1) & (n == pop(m1)) & (a.component_count() == n), 89);
    let mut j = 0;
    while j < 8 { check((t[j].has)(&a) == (m1 >> j & 1 != 0), 90); j += 1; }
    if m1 == m2 { check(hash(&a) == hash(&b), 91); }
    emit(n as u64);
    cover(1);
}
