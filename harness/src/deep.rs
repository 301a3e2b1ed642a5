//! Worlds over 72 component types: entities of up to 72 components and hundreds of archetypes at once.
use crate::sx::*;
use crate::wide::{ty, Ty, K};
use crate::world::Val;
use division_ecs::*;

pub const D: usize = 72;
type All = u128;
const ALL: All = (1 << D) - 1;

macro_rules! table { ($($n:literal)*) => { vec![ $( ty::<K<{ 100 + $n }, { 1 + $n % 3 }>>($n) ),* ] } }
/// in the order of their ids; bit i of a mask is types()[i]
pub fn types() -> Vec<Ty> {
    let mut t: Vec<Ty> = table!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36 37 38 39 40 41 42 43 44 45 46 47 48 49 50 51 52 53 54 55 56 57 58 59 60 61 62 63 64 65 66 67 68 69 70 71);
    let mut i = 1;
    while i < D {
        let mut j = i;
        while j > 0 && t[j].id < t[j - 1].id { t.swap(j, j - 1); j -= 1; }
        i += 1;
    }
    t
}
/// places in the order of the ids where something may change
const SPOTS: [usize; 6] = [0, 31, 32, 63, 64, D - 1];

struct Deep { s: Store, t: Vec<Ty>, e: Vec<Entity>, live: Vec<bool>, has: Vec<All>, val: Vec<Vec<u32>>, v: u32 }
impl Deep {
    fn new(cap: usize) -> Self { Deep { s: Store::with_capacity(cap), t: types(), e: Vec::new(), live: Vec::new(), has: Vec::new(), val: Vec::new(), v: any_u32() } }
    fn mk(&mut self, i: usize, j: usize) -> u32 { let v = self.v ^ (i * D + j) as u32; self.val[i][j] = v; v }
    fn bare(&mut self) -> usize {
        let e = self.s.create_entity();
        self.e.push(e);
        self.live.push(true);
        self.has.push(0);
        self.val.push(vec![0; D]);
        self.e.len() - 1
    }
    fn create(&mut self, m: All) -> usize {
        let mut b = ArchetypeBuilder::new();
        let mut j = 0;
        while j < D { let k = (j * 5 + 3) % D; if m >> k & 1 != 0 { (self.t[k].inc)(&mut b); } j += 1; }
        let e = self.s.create_entity_with_archetype(&b.build());
        self.e.push(e);
        self.live.push(true);
        self.has.push(m);
        self.val.push(vec![0; D]);
        let i = self.e.len() - 1;
        let mut j = 0;
        while j < D { if m >> j & 1 != 0 { let v = self.mk(i, j); check((self.t[j].put)(&mut self.s, e, v), 861); } j += 1; }
        i
    }
    fn add(&mut self, i: usize, j: usize) {
        let mut v = self.mk(i, j);
        if self.has[i] >> j & 1 != 0 { v = !v; self.val[i][j] = v; }
        (self.t[j].add)(&mut self.s, self.e[i], v);
        self.has[i] |= 1 << j;
    }
    fn rem(&mut self, i: usize, j: usize) { (self.t[j].rem)(&mut self.s, self.e[i]); self.has[i] &= !(1 << j); }
    fn destroy(&mut self, i: usize) { self.s.destroy_entity(self.e[i]); self.live[i] = false; self.has[i] = 0; }
    fn verify(&self) {
        let mut i = 0;
        while i < self.e.len() {
            let (e, m) = (self.e[i], self.has[i]);
            check(self.s.is_alive(e) == self.live[i], 862);
            let a = self.s.get_entity_archetype(e);
            check(a.is_some() == (m != 0), 863);
            let mut n = 0;
            let mut j = 0;
            while j < D {
                let h = m >> j & 1 != 0;
                n += h as usize;
                let (there, same) = (self.t[j].get)(&self.s, e, self.val[i][j]);
                check(there == h, 864);
                if h { check(same, 865); }
                if let Some(a) = a { check((self.t[j].has)(a) == h, 866); }
                j += 1;
            }
            if let Some(a) = a { check(a.component_count() == n, 867); }
            i += 1;
        }
    }
}
fn spot() -> usize { SPOTS[choose(SPOTS.len())] }

/// One entity gets its `n` types one by one, in an order of choice; others come with all, half and most of them at
/// once. Then steps at the places of interest, and the first entity loses everything again.
pub fn tall(cap: usize, n: usize, steps: usize) {
    allow_millions(60);
    let mut w = Deep::new(cap);
    let order = choose(4);
    let at = |k: usize| match order { 0 => k, 1 => D - 1 - k, 2 => (k * 7 + 3) % D, _ => if k % 2 == 0 { k / 2 } else { D - 1 - k / 2 } };
    let x = w.bare();
    w.bare();
    let mut k = 0;
    while k < n {
        w.add(x, at(k));
        if k == n / 2 { w.create(ALL); w.create(ALL & 0x5555_5555_5555_5555_5555_5555_5555_5555); w.create(ALL & !(1 << 64)); }
        k += 1;
    }
    w.verify();
    let mut k = 0;
    while k < steps {
        let i = [x, 2, 4][choose(3)];
        if !w.live[i] { assume(false); }
        match choose(3) { 0 => w.destroy(i), 1 => { let j = spot(); w.add(i, j) } _ => { let j = spot(); w.rem(i, j) } }
        if k + 1 < steps { w.verify(); }
        k += 1;
    }
    if w.live[x] { let mut k = 0; while k < D { if k % 7 == order { w.rem(x, at(k)); } k += 1; } }
    w.verify();
    emit(w.e.len() as u64);
    cover(1);
}

/// `n` archetypes of two types each (no two alike) alive at once; a part of the entities goes and others come into
/// the same and into other archetypes; a query over one of the types meets each of its entities once.
pub fn pairs(cap: usize, n: usize, queries: bool) {
    allow_millions(80);
    let mut w = Deep::new(cap);
    let pair = |k: usize| -> All { let (i, d) = (k % D, 1 + k / D); (1 << i) | (1 << ((i + d) % D)) };
    let mut q = query::component::readonly::<K<100, 1>>();
    let a = { let mut j = 0; while w.t[j].bit != 0 { j += 1; } j };
    let early = choose(2) == 1;
    if early && queries { w.count(&mut q, a); }
    let mut k = 0;
    while k < n { w.create(pair(k)); k += 1; }
    if queries { w.count(&mut q, a); }
    let part = choose(4);
    let mut k = 0;
    while k < n {
        let i = if early { n - 1 - k } else { k };
        if match part { 0 => true, 1 => i % 2 == 0, 2 => i >= n / 2, _ => i % 32 == 31 } { w.destroy(i); }
        k += 1;
    }
    if queries { w.count(&mut q, a); }
    let more = choose(3);
    let mut k = 0;
    while k < n {
        if k % 5 < 2 { match more { 0 => { w.create(pair(n - 1 - k)); } 1 => { w.create(pair(n + k)); } _ => { if w.live[k] { let j = (k + 40) % D; w.add(k, j); } else { w.create(pair(k)); } } } }
        k += 1;
    }
    if queries { w.count(&mut q, a); }
    // any step at places of interest
    let i = crate::world::place(w.e.len(), &[32, 64, 256]);
    if !w.live[i] { assume(false); }
    match choose(3) { 0 => w.destroy(i), 1 => w.add(i, a), _ => w.rem(i, i % D) }
    if queries { w.count(&mut q, a); } else { w.verify_pairs(); }
    emit(w.e.len() as u64);
    cover(1);
}
impl Deep {
    /// only the components an entity should have and two it should not have
    fn verify_pairs(&self) {
        let mut i = 0;
        while i < self.e.len() {
            let (e, m) = (self.e[i], self.has[i]);
            check(self.s.is_alive(e) == self.live[i], 872);
            let a = self.s.get_entity_archetype(e);
            check(a.is_some() == (m != 0), 873);
            if let Some(a) = a { check(a.component_count() == m.count_ones() as usize, 874); }
            let mut j = 0;
            while j < D {
                let h = m >> j & 1 != 0;
                if h | (j == i % D) | (j == (i + 36) % D) {
                    let (there, same) = (self.t[j].get)(&self.s, e, self.val[i][j]);
                    check(there == h, 875);
                    if h { check(same, 876); }
                }
                j += 1;
            }
            i += 1;
        }
    }
    fn count(&self, q: &mut query::component::ComponentReadOnlyQuery<K<100, 1>>, a: usize) {
        let mut by_id = vec![usize::MAX; self.s.entities_capacity()];
        let mut want = 0;
        let mut i = 0;
        while i < self.e.len() {
            if self.live[i] { by_id[self.e[i].id() as usize] = i; want += (self.has[i] >> a & 1) as usize; }
            i += 1;
        }
        let mut n = 0;
        for (e, x) in self.s.component_query_iter(q).with_entities() {
            let i = by_id[e.id() as usize];
            check(i < self.e.len(), 881);
            if i >= self.e.len() { assume(false); }
            check(self.e[i] == e, 882);
            check(x.same(self.val[i][a]), 883);
            by_id[e.id() as usize] = usize::MAX;
            n += 1;
        }
        check(n == want, 884);
    }
}

/// archetypes of up to 72 types: sets again
pub fn sets() {
    allow_millions(20);
    let t = types();
    let mk = |m: All, order: usize| {
        let mut b = ArchetypeBuilder::new();
        let mut j = 0;
        while j < D { let k = match order { 0 => j, 1 => D - 1 - j, _ => (j * 5 + 3) % D }; if m >> k & 1 != 0 { (t[k].inc)(&mut b); } j += 1; }
        b
    };
    let m1 = [ALL, ALL & 0x5555_5555_5555_5555_5555, ALL >> 8, (1 << 33) - 1, (1 << 64) - 1][choose(5)];
    let m2 = match choose(4) { 0 => m1, 1 => m1 ^ 1 << spot(), 2 => m1 ^ 1 << spot() ^ 1 << (choose(3) * 32), _ => ALL & !m1 };
    if m2 == 0 { assume(false); }
    let mut b1 = mk(m1, choose(2) * 2);
    let out = [D, 0, 63, D - 1][choose(4)];
    let mut m1 = m1;
    if out < D { (t[out].exc)(&mut b1); m1 &= !(1 << out); }
    let (a, b) = (b1.build(), mk(m2, 1).build());
    check(a.is_include(&b) == (m2 & !m1 == 0), 891);
    check(a.is_exclude(&b) == (m1 & m2 == 0), 892);
    check(a.is_same_as(&b) == (m1 == m2), 893);
    check(a.is_include_only_ids(b.included_ids()) == (m1 == m2), 894);
    check(a.is_include_ids(b.included_ids()) == (m2 & !m1 == 0), 895);
    check(a.is_exclude_ids(b.included_ids()) == (m1 & m2 == 0), 896);
    let c = a.clone();
    check(c.is_same_as(&a), 897);
    let mut n = 0;
    let mut seen: All = 0;
    for d in c.components_iter() {
        let mut j = 0;
        while j < D { if t[j].id == d.id() { seen |= 1 << j; check((d.size() == t[j].size) & (d.align() == t[j].align), 898); } j += 1; }
        n += 1;
    }
    check((seen == m1) & (n == m1.count_ones() as usize) & (a.component_count() == n), 899);
    let mut j = 0;
    while j < D { check((t[j].has)(&a) == (m1 >> j & 1 != 0), 900); j += 1; }
    emit(n as u64);
    cover(1);
}
