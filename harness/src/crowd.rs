//! Worlds with many of everything: a hundred archetypes over eight component types, dozens of tags and order groups.
use crate::sx::*;
use crate::wide::*;
use crate::world::place;
use division_ecs::*;

pub struct Crowd { pub s: Store, t: [Ty; W], e: Vec<Entity>, live: Vec<bool>, has: Vec<usize>, val: Vec<[u32; W]>, v: u32 }

impl Crowd {
    fn new(cap: usize, n: usize) -> Self {
        Crowd { s: Store::with_capacity(cap), t: types(), e: Vec::with_capacity(n), live: Vec::with_capacity(n), has: Vec::with_capacity(n), val: Vec::with_capacity(n), v: any_u32() }
    }
    fn create(&mut self, mask: usize) -> usize {
        let e = if mask == 0 { self.s.create_entity() } else {
            let mut b = ArchetypeBuilder::new();
            let mut j = 0;
            while j < W { let k = (j * 5 + 3) % W; if mask >> k & 1 != 0 { (self.t[k].inc)(&mut b); } j += 1; }
            let a = b.build();
            self.s.create_entity_with_archetype(&a)
        };
        let i = self.e.len();
        self.e.push(e);
        self.live.push(true);
        self.has.push(mask);
        self.val.push([0; W]);
        let mut j = 0;
        while j < W { if mask >> j & 1 != 0 { let v = self.v ^ (i * W + j) as u32; check((self.t[j].put)(&mut self.s, e, v), 831); self.val[i][j] = v; } j += 1; }
        i
    }
    fn add(&mut self, i: usize, j: usize) {
        let v = self.v.wrapping_add((i * W + j) as u32);
        (self.t[j].add)(&mut self.s, self.e[i], v);
        self.has[i] |= 1 << j;
        self.val[i][j] = v;
    }
    fn rem(&mut self, i: usize, j: usize) { (self.t[j].rem)(&mut self.s, self.e[i]); self.has[i] &= !(1 << j); }
    fn destroy(&mut self, i: usize) { self.s.destroy_entity(self.e[i]); self.live[i] = false; self.has[i] = 0; }
    fn verify(&self) {
        let mut i = 0;
        while i < self.e.len() {
            let (e, m) = (self.e[i], self.has[i]);
            check(self.s.is_alive(e) == self.live[i], 832);
            let a = self.s.get_entity_archetype(e);
            check(a.is_some() == (m != 0), 833);
            if let Some(a) = a { check(a.component_count() == m.count_ones() as usize, 834); }
            let mut j = 0;
            while j < W {
                let (there, same) = (self.t[j].get)(&self.s, e, self.val[i][j]);
                check(there == (m >> j & 1 != 0), 835);
                if there { check(same, 836); }
                j += 1;
            }
            i += 1;
        }
    }
    /// queries over types of the table: each matching entity once, with its values
    fn query<T: Val2, U: Val2>(&self, q: &mut query::component::ComponentReadWriteQuery<T, U>) {
        let (a, b) = (self.at::<T>(), self.at::<U>());
        let mut by_id = vec![usize::MAX; self.s.entities_capacity()];
        let mut want = 0;
        let mut i = 0;
        while i < self.e.len() {
            if self.live[i] { by_id[self.e[i].id() as usize] = i; want += (self.has[i] >> a & self.has[i] >> b & 1) as usize; }
            i += 1;
        }
        let mut n = 0;
        for (e, (x, y)) in self.s.component_query_iter(q).with_entities() {
            let i = by_id[e.id() as usize];
            check(i < self.e.len(), 841);
            if i >= self.e.len() { assume(false); }
            check(self.e[i] == e, 842);
            check(x.same(self.val[i][a]) & y.same(self.val[i][b]), 843);
            by_id[e.id() as usize] = usize::MAX;
            n += 1;
        }
        check(n == want, 844);
    }
    fn at<T: 'static>(&self) -> usize { let mut j = 0; while self.t[j].id != core::any::TypeId::of::<T>() { j += 1; } j }
}
pub trait Val2: crate::world::Val {}
impl<T: crate::world::Val> Val2 for T {}

/// any mask once for 255 consecutive numbers
fn mask(k: usize) -> usize { (k * 37) % 255 + 1 }

/// `n` archetypes at once, `per` entities in each; a part goes, others come, a type is added to or removed from all
pub fn archetypes(cap: usize, n: usize, per: usize, queries: bool) {
    allow_millions(60);
    let mut w = Crowd::new(cap, 2 * n * per);
    let mut q1 = query::component::read_write::<A0, A3>();
    let mut q2 = query::component::read_write::<A6, A1>();
    let by_type = choose(2) == 1;
    let mut k = 0;
    while k < n * per { w.create(mask(if by_type { k / per } else { k % n })); k += 1; }
    if queries { w.query(&mut q1); w.query(&mut q2); }
    let total = w.e.len();
    let part = choose(4);
    let back = choose(2) == 1;
    let mut k = 0;
    while k < total {
        let i = if back { total - 1 - k } else { k };
        let go = match part { 0 => true, 1 => i % 2 == 0, 2 => i >= total / 2, _ => i / per % 3 == 1 };
        if go { w.destroy(i); }
        k += 1;
    }
    if queries { w.query(&mut q1); w.query(&mut q2); } else { w.verify(); }
    let kind = choose(4);
    let mut k = 0;
    while k < n {
        match kind {
            0 => { w.create(mask(k)); }
            1 => { w.create(mask(n + n - k)); }
            2 => { if w.live[k] { w.add(k, k % W); } else { w.create(mask(k / 2)); } }
            _ => { if w.live[k] { w.rem(k, k % W); w.add(k, (k + 3) % W); } else { w.create(1 << (k % W)); } }
        }
        k += 1;
    }
    if queries { w.query(&mut q1); w.query(&mut q2); }
    // and then any step, at places of interest
    let i = place(w.e.len(), &[]);
    if !w.live[i] { assume(false); }
    match choose(3) { 0 => w.destroy(i), 1 => { let j = choose(W); w.add(i, j) } _ => { let j = choose(W); w.rem(i, j) } }
    if queries { w.query(&mut q1); w.query(&mut q2); }
    w.verify();
    emit(w.e.len() as u64);
    cover(1);
}

/// Populations of the same size but with other component sets every time: served from what became free.
pub fn tides(n: usize, warm: usize, rounds: usize) {
    allow_millions(60);
    let before = heap_live();
    {
        let mut s = Store::with_capacity(n);
        let t = types();
        let mut e = Vec::with_capacity(n);
        let way = choose(4);
        let far = choose(2) == 1;
        let mut held = 0;
        let mut r = 0;
        while r < rounds {
            let mut k = 0;
            while k < n {
                let m = mask(if far { r * n + k } else { r * (n / 2) + k });
                let x = if way == 0 {
                    let mut b = ArchetypeBuilder::new();
                    let mut j = 0;
                    while j < W { if m >> j & 1 != 0 { (t[j].inc)(&mut b); } j += 1; }
                    s.create_entity_with_archetype(&b.build())
                } else {
                    let x = s.create_entity();
                    let mut j = 0;
                    while j < W { if m >> j & 1 != 0 { (t[j].add)(&mut s, x, 3); } j += 1; }
                    x
                };
                e.push(x);
                k += 1;
            }
            let mut k = 0;
            while k < n {
                let x = match way { 1 => e[n - 1 - k], _ => e[k] };
                if way == 3 { let mut j = 0; while j < W { (t[j].rem)(&mut s, x); j += 1; } }
                s.destroy_entity(x);
                k += 1;
            }
            e.clear();
            if r < warm { held = heap_live(); } else { check(heap_live() <= held, 851); }
            r += 1;
        }
        check(s.entities_capacity() <= 2 * n, 852);
        emit(held - before);
    }
    check(heap_live() == before, 853);
    cover(1);
}

/// Creation, destruction and creation again in bulk; every handle of the history is compared with every other one of its id.
pub fn handles(n: usize, rounds: usize) {
    allow_millions(60);
    let mut s = Store::with_capacity([1, n / 2, n + 3][choose(3)]);
    let mut owner = vec![usize::MAX; 4 * n];
    let mut seen: Vec<Vec<u32>> = vec![Vec::new(); 4 * n];
    let mut e: Vec<Entity> = Vec::with_capacity(4 * n);
    let mut live: Vec<bool> = Vec::with_capacity(4 * n);
    let mut make = |s: &mut Store, owner: &mut Vec<usize>, e: &mut Vec<Entity>, live: &mut Vec<bool>| {
        let x = s.create_entity();
        let id = x.id() as usize;
        check(id < owner.len(), 61);
        if id >= owner.len() { assume(false); }
        check(owner[id] == usize::MAX, 62);
        check(!seen[id].contains(&x.version()), 63);
        seen[id].push(x.version());
        owner[id] = e.len();
        e.push(x);
        live.push(true);
    };
    let mut i = 0;
    while i < n { make(&mut s, &mut owner, &mut e, &mut live); i += 1; }
    let mut r = 0;
    while r < rounds {
        let part = choose(7);
        let order = choose(3);
        let m = e.len();
        let mut k = 0;
        while k < m {
            let i = match order { 0 => k, 1 => m - 1 - k, _ => (k * 7) % m };
            let go = match part { 0 => true, 1 => i % 2 == 0, 2 => i % 3 == 1, 3 => i < m / 2, 4 => i >= m / 2, 5 => i > 0 && i < m - 1, _ => i / 8 % 2 == 0 };
            if go && live[i] { s.destroy_entity(e[i]); live[i] = false; owner[e[i].id() as usize] = usize::MAX; }
            k += 1;
        }
        let more = [n / 3, n + 5][choose(2)];
        let mut k = 0;
        while k < more { make(&mut s, &mut owner, &mut e, &mut live); k += 1; }
        r += 1;
    }
    let mut i = 0;
    while i < e.len() { check(s.is_alive(e[i]) == live[i], 64); i += 1; }
    let f = crate::world::forge(e[n / 2].id(), any_u32());
    let o = owner[n / 2];
    merge_loads(true);
    check(s.is_alive(f) == ((o < e.len()) & (f.version() == e[if o < e.len() { o } else { 0 }].version())), 65);
    emit(e.len() as u64);
    cover(1);
}
