//! A store together with the reference model of what it should contain.
use crate::sx::*;
use division_ecs::*;

/// A component type whose value is determined by one 32-bit word.
pub trait Val: Component + 'static {
    fn mk(v: u32) -> Self;
    /// the word, read back from every part of the component that carries it
    fn val(&self) -> u32;
    fn same(&self, v: u32) -> bool;
}

macro_rules! word_comp {
    ($n:ident, $t:ty) => {
        #[derive(Clone, Copy)]
        pub struct $n(pub $t);
        impl Component for $n {}
        impl Val for $n {
            fn mk(v: u32) -> Self { $n(v as $t) }
            fn val(&self) -> u32 { self.0 as u32 }
            fn same(&self, v: u32) -> bool { self.0 == v as $t }
        }
    };
}
word_comp!(W8, u8);
word_comp!(W16, u16);
word_comp!(W32, u32);
/// both halves carry the word
#[derive(Clone, Copy)]
pub struct W64(pub u64);
impl Component for W64 {}
impl Val for W64 {
    fn mk(v: u32) -> Self { W64(v as u64 | (!v as u64) << 32) }
    fn val(&self) -> u32 { self.0 as u32 }
    fn same(&self, v: u32) -> bool { self.0 == v as u64 | (!v as u64) << 32 }
}

macro_rules! big_comp {
    ($n:ident, $words:expr) => {
        #[derive(Clone, Copy)]
        pub struct $n(pub [u32; $words]);
        impl Component for $n {}
        impl Val for $n {
            fn mk(v: u32) -> Self { let mut a = [0u32; $words]; a[0] = v; a[$words / 2] = v; a[$words - 1] = v; $n(a) }
            fn val(&self) -> u32 { self.0[0] }
            fn same(&self, v: u32) -> bool { (self.0[0] == v) & (self.0[$words / 2] == v) & (self.0[$words - 1] == v) }
        }
    };
}
big_comp!(B2k, 512);   // 2048 bytes
big_comp!(B4k, 1024);  // 4096 bytes
big_comp!(B5k, 1365);  // 5460 bytes
big_comp!(B8k, 2048);  // 8192 bytes: with one other component one per page, alone two, without a byte to spare
big_comp!(Odd, 3);     // 12 bytes

#[derive(Clone, Copy)]
pub struct Bytes3(pub [u8; 3]);
impl Component for Bytes3 {}
impl Val for Bytes3 {
    fn mk(v: u32) -> Self { Bytes3([v as u8, (v >> 8) as u8, v as u8]) }
    fn val(&self) -> u32 { self.0[0] as u32 | (self.0[1] as u32) << 8 }
    fn same(&self, v: u32) -> bool { (self.0[0] == v as u8) & (self.0[1] == (v >> 8) as u8) & (self.0[2] == v as u8) }
}

#[derive(Clone, Copy)]
#[repr(align(32))]
pub struct Al32(pub [u32; 8]);
impl Component for Al32 {}
impl Val for Al32 {
    fn mk(v: u32) -> Self { let mut a = [0; 8]; a[0] = v; a[7] = v; Al32(a) }
    fn val(&self) -> u32 { self.0[0] }
    fn same(&self, v: u32) -> bool { (self.0[0] == v) & (self.0[7] == v) }
}

/// 64-byte alignment, bigger than one alignment unit
#[derive(Clone, Copy)]
#[repr(align(64))]
pub struct Al64(pub [u32; 32]);
impl Component for Al64 {}
impl Val for Al64 {
    fn mk(v: u32) -> Self { let mut a = [0; 32]; a[0] = v; a[31] = v; Al64(a) }
    fn val(&self) -> u32 { self.0[0] }
    fn same(&self, v: u32) -> bool { (self.0[0] == v) & (self.0[31] == v) }
}

/// no data at all
#[derive(Clone, Copy)]
pub struct Empty;
impl Component for Empty {}
impl Val for Empty {
    fn mk(_: u32) -> Self { Empty }
    fn val(&self) -> u32 { 0 }
    fn same(&self, _: u32) -> bool { true }
}
/// no data, but an alignment
#[derive(Clone, Copy)]
#[repr(align(16))]
pub struct Empty16;
impl Component for Empty16 {}
impl Val for Empty16 {
    fn mk(_: u32) -> Self { Empty16 }
    fn val(&self) -> u32 { 0 }
    fn same(&self, _: u32) -> bool { true }
}

pub struct T1; impl Tag for T1 {}
pub struct T2; impl Tag for T2 {}
pub struct T3; impl Tag for T3 {}

/// forge a handle from raw parts (what any code holding a stale or foreign handle can present)
pub fn forge(id: u32, version: u32) -> Entity {
    let p: Entity = unsafe { core::mem::transmute([1u32, 2u32]) };
    if p.id() == 1 { unsafe { core::mem::transmute([id, version]) } } else { unsafe { core::mem::transmute([version, id]) } }
}

pub const MAXE: usize = 16;
pub const A: usize = 1;
pub const B: usize = 2;
pub const C: usize = 4;

/// entities that came and went before, so that the ids in use have different versions
pub fn age(s: &mut Store, cap: usize) {
    let k = if cap < 6 { cap } else { 6 };
    let mut m = 1;
    while m < k {
        let mut e = [Entity::null(); 6];
        let mut i = 0;
        while i < m { e[i] = s.create_entity(); i += 1; }
        while i > 0 { i -= 1; s.destroy_entity(e[i]); }
        m += 1;
    }
}

/// usize::MAX: as `new` makes it
pub fn store(cap: usize) -> Store { if cap == usize::MAX { Store::new() } else { Store::with_capacity(cap) } }

pub struct World<X: Val, Y: Val, Z: Val> {
    pub s: Store,
    pub n: usize,
    pub e: [Entity; MAXE],
    pub live: [bool; MAXE],
    pub has: [usize; MAXE],
    pub val: [[u32; 3]; MAXE],
    pub p: core::marker::PhantomData<(X, Y, Z)>,
}

impl<X: Val, Y: Val, Z: Val> World<X, Y, Z> {
    pub fn new(cap: usize) -> Self {
        let mut s = store(cap);
        age(&mut s, cap);
        World { s, n: 0, e: [Entity::null(); MAXE], live: [false; MAXE], has: [0; MAXE], val: [[0; 3]; MAXE], p: core::marker::PhantomData }
    }
    fn push(&mut self, e: Entity, mask: usize) -> usize {
        let i = self.n;
        self.n += 1;
        self.e[i] = e;
        self.live[i] = true;
        self.has[i] = mask;
        i
    }
    pub fn create(&mut self) -> usize {
        let e = self.s.create_entity();
        self.push(e, 0)
    }
    pub fn arch(mask: usize) -> Archetype {
        let mut b = ArchetypeBuilder::new();
        if mask & A != 0 { b.include_components::<X>(); }
        if mask & B != 0 { b.include_components::<Y>(); }
        if mask & C != 0 { b.include_components::<Z>(); }
        b.build()
    }
    /// create_entity_with_archetype, then every component written through the mutable references
    pub fn create_with(&mut self, mask: usize) -> usize {
        let a = Self::arch(mask);
        let e = self.s.create_entity_with_archetype(&a);
        let i = self.push(e, mask);
        self.write(i, mask);
        i
    }
    /// overwrite present components in place
    pub fn write(&mut self, i: usize, mask: usize) {
        let e = self.e[i];
        if mask & A != 0 { let v = any_u32(); match self.s.get_components_refs_mut::<X>(e) { Some(r) => *r = X::mk(v), None => check(false, 901) } self.val[i][0] = v; }
        if mask & B != 0 { let v = any_u32(); match self.s.get_components_refs_mut::<Y>(e) { Some(r) => *r = Y::mk(v), None => check(false, 902) } self.val[i][1] = v; }
        if mask & C != 0 { let v = any_u32(); match self.s.get_components_refs_mut::<Z>(e) { Some(r) => *r = Z::mk(v), None => check(false, 903) } self.val[i][2] = v; }
    }
    pub fn add(&mut self, i: usize, mask: usize) {
        let e = self.e[i];
        let (a, b, c) = (any_u32(), any_u32(), any_u32());
        match mask {
            1 => self.s.add_components(e, X::mk(a)),
            2 => self.s.add_components(e, Y::mk(b)),
            4 => self.s.add_components(e, Z::mk(c)),
            3 => self.s.add_components(e, (X::mk(a), Y::mk(b))),
            5 => self.s.add_components(e, (Z::mk(c), X::mk(a))),
            6 => self.s.add_components(e, (Y::mk(b), Z::mk(c))),
            _ => self.s.add_components(e, (Y::mk(b), Z::mk(c), X::mk(a))),
        }
        self.has[i] |= mask;
        if mask & A != 0 { self.val[i][0] = a; }
        if mask & B != 0 { self.val[i][1] = b; }
        if mask & C != 0 { self.val[i][2] = c; }
    }
    pub fn remove(&mut self, i: usize, mask: usize) {
        let e = self.e[i];
        match mask {
            1 => self.s.remove_components::<X>(e),
            2 => self.s.remove_components::<Y>(e),
            4 => self.s.remove_components::<Z>(e),
            3 => self.s.remove_components::<(Y, X)>(e),
            5 => self.s.remove_components::<(X, Z)>(e),
            6 => self.s.remove_components::<(Z, Y)>(e),
            _ => self.s.remove_components::<(X, Y, Z)>(e),
        }
        self.has[i] &= !mask;
    }
    pub fn destroy(&mut self, i: usize) {
        self.s.destroy_entity(self.e[i]);
        self.live[i] = false;
        self.has[i] = 0;
    }
    /// one of the live entities, one path each
    pub fn some_live(&self) -> usize {
        let mut k = 0;
        let mut i = 0;
        while i < self.n { if self.live[i] { k += 1; } i += 1; }
        if k == 0 { assume(false); }
        let mut c = choose(k);
        let mut i = 0;
        loop {
            if self.live[i] { if c == 0 { return i; } c -= 1; }
            i += 1;
        }
    }
    /// one of the live entities, kept symbolic
    pub fn any_live(&self) -> usize {
        if self.n == 0 { assume(false); }
        let i = pick(self.n);
        assume(self.live[i]);
        i
    }
    /// `steps` operations, each of a kind of choice, each on any live entity, kept symbolic
    pub fn steps_sym(&mut self, steps: usize, adds: &[usize], rems: &[usize], creates: &[usize], write: bool) {
        let mut k = 0;
        while k < steps {
            let op = choose(creates.len() + adds.len() + rems.len() + 1 + write as usize);
            if op < creates.len() {
                let m = creates[op];
                if m == 0 { self.create(); } else { self.create_with(m); }
            } else {
                let op = op - creates.len();
                merge_loads(true);
                let i = self.any_live();
                if op < adds.len() { self.add(i, adds[op]); }
                else if op < adds.len() + rems.len() { let m = rems[op - adds.len()]; self.remove(i, m); }
                else if op == adds.len() + rems.len() { self.destroy(i); }
                else { let m = self.has[i]; if m == 0 { assume(false); } self.write(i, m); }
                merge_loads(false);
            }
            k += 1;
        }
    }
    /// which of the model's entities this is, as a bit set
    pub fn who(&self, e: Entity) -> usize {
        let mut m = 0;
        let mut i = 0;
        while i < self.n { m |= (((self.live[i]) & (self.e[i].id() == e.id()) & (self.e[i].version() == e.version())) as usize) << i; i += 1; }
        m
    }
    /// the entities that have all of these components, as a bit set
    pub fn matching(&self, mask: usize) -> usize {
        let mut m = 0;
        let mut i = 0;
        while i < self.n { m |= ((self.live[i] & (self.has[i] & mask == mask)) as usize) << i; i += 1; }
        m
    }
    /// the value of component c of the one entity in the set
    pub fn val_of(&self, who: usize, c: usize) -> u32 {
        let mut v = 0;
        let mut i = 0;
        while i < self.n { v |= self.val[i][c] & 0u32.wrapping_sub((who >> i & 1) as u32); i += 1; }
        v
    }
    /// queries over a world whose contents may be symbolic
    pub fn queries_any(&self, q1: &mut ComponentReadOnlyQuery<X>, q2: &mut ComponentReadWriteQuery<Z, X>) {
        merge_loads(true);
        let mut seen = 0;
        for (e, x) in self.s.component_query_iter(q1).with_entities() {
            let h = self.who(e);
            check((h != 0) & (h & (h.wrapping_sub(1)) == 0) & (seen & h == 0), 961);
            check(x.same(self.val_of(h, 0)), 962);
            seen |= h;
        }
        check(seen == self.matching(A), 963);
        let mut seen = 0;
        for (e, (z, x)) in self.s.component_query_iter(q2).with_entities() {
            let h = self.who(e);
            check((h != 0) & (h & (h.wrapping_sub(1)) == 0) & (seen & h == 0), 964);
            check(x.same(self.val_of(h, 0)) & z.same(self.val_of(h, 2)), 965);
            seen |= h;
        }
        check(seen == self.matching(A | C), 966);
        emit(seen as u64);
        merge_loads(false);
    }
    /// the store answers exactly what the model says for every handle that can exist
    pub fn verify_any(&self) {
        merge_loads(true);
        let e = forge(any_u32(), any_u32());
        assume((e.id() as usize) < self.s.entities_capacity());
        let mut live = false;
        let mut m = 0;
        let mut v = [0u32; 3];
        let mut i = 0;
        while i < self.n {
            let hit = self.live[i] & (self.e[i].id() == e.id()) & (self.e[i].version() == e.version());
            live |= hit;
            let k = 0usize.wrapping_sub(hit as usize);
            m |= self.has[i] & k;
            v[0] |= self.val[i][0] & k as u32;
            v[1] |= self.val[i][1] & k as u32;
            v[2] |= self.val[i][2] & k as u32;
            i += 1;
        }
        check(self.s.is_alive(e) == live, 941);
        check(self.s.is_valid_entity_with_archetype(e) == (m != 0), 942);
        match self.s.get_entity_archetype(e) {
            None => check(m == 0, 943),
            Some(a) => {
                check(a.component_count() == (m & 1) + (m >> 1 & 1) + (m >> 2), 945);
                check(a.has_component::<X>() == (m & A != 0), 946);
                check(a.has_component::<Y>() == (m & B != 0), 947);
                check(a.has_component::<Z>() == (m & C != 0), 948);
            }
        }
        match self.s.get_components_refs::<X>(e) { Some(r) => { check(m & A != 0, 951); check(r.same(v[0]), 952) } None => check(m & A == 0, 953) }
        match self.s.get_components_refs::<Y>(e) { Some(r) => { check(m & B != 0, 954); check(r.same(v[1]), 955) } None => check(m & B == 0, 956) }
        match self.s.get_components_refs::<Z>(e) { Some(r) => { check(m & C != 0, 957); check(r.same(v[2]), 958) } None => check(m & C == 0, 959) }
        match self.s.get_components_refs::<(Z, X)>(e) {
            Some((z, x)) => { check(m & 5 == 5, 960); check(z.same(v[2]) & x.same(v[0]), 961) }
            None => check(m & 5 != 5, 962),
        }
        merge_loads(false);
    }
    /// the store holds exactly what the model says, for every handle ever issued
    pub fn verify(&self) {
        let mut i = 0;
        while i < self.n { self.verify_one(i); i += 1; }
    }
    pub fn verify_one(&self, i: usize) {
        let e = self.e[i];
        let m = self.has[i];
        check(self.s.is_alive(e) == self.live[i], 911);
        check(self.s.is_valid_entity_with_archetype(e) == (m != 0), 912);
        match self.s.get_entity_archetype(e) {
            None => check(m == 0, 913),
            Some(a) => {
                check(m != 0, 914);
                check(a.component_count() == (m & 1) + (m >> 1 & 1) + (m >> 2), 915);
                check(a.has_component::<X>() == (m & A != 0), 916);
                check(a.has_component::<Y>() == (m & B != 0), 917);
                check(a.has_component::<Z>() == (m & C != 0), 918);
            }
        }
        match self.s.get_components_refs::<X>(e) { Some(r) => { check(m & A != 0, 921); check(r.same(self.val[i][0]), 922) } None => check(m & A == 0, 923) }
        match self.s.get_components_refs::<Y>(e) { Some(r) => { check(m & B != 0, 924); check(r.same(self.val[i][1]), 925) } None => check(m & B == 0, 926) }
        match self.s.get_components_refs::<Z>(e) { Some(r) => { check(m & C != 0, 927); check(r.same(self.val[i][2]), 928) } None => check(m & C == 0, 929) }
        match self.s.get_components_refs::<(Z, X)>(e) {
            Some((z, x)) => { check(m & 5 == 5, 930); check(z.same(self.val[i][2]) & x.same(self.val[i][0]), 931) }
            None => check(m & 5 != 5, 932),
        }
    }
    pub fn emit_all(&self) {
        let mut i = 0;
        while i < self.n {
            let e = self.e[i];
            emit(e.id() as u64 | (e.version() as u64) << 32);
            if let Some(r) = self.s.get_components_refs::<X>(e) { emit(r.val() as u64) }
            if let Some(r) = self.s.get_components_refs::<Y>(e) { emit(r.val() as u64) }
            if let Some(r) = self.s.get_components_refs::<Z>(e) { emit(r.val() as u64) }
            i += 1;
        }
    }
}

/// the interesting places in a population of n: ends, middle, and around every power-of-two boundary given
pub fn place(n: usize, bounds: &[usize]) -> usize {
    let k = choose(4 + 2 * bounds.len());
    let p = match k { 0 => 0, 1 => n / 2 + 1, 2 => n - 2, 3 => n - 1, _ => bounds[(k - 4) / 2] - (k & 1) };
    if p >= n { assume(false); }
    p
}

