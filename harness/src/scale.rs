//! Populations larger than the small worlds: many entities in one page, many pages, ids beyond a byte.
use crate::sx::*;
use crate::world::*;
use division_ecs::*;
use division_ecs::query;

pub struct Pop<X: Val, Y: Val> {
    pub s: Store,
    pub e: Vec<Entity>,
    pub live: Vec<bool>,
    pub has: Vec<u8>,
    pub x: Vec<u32>,
    pub y: Vec<u32>,
    pub p: core::marker::PhantomData<(X, Y)>,
}

impl<X: Val, Y: Val> Pop<X, Y> {
    pub fn new(cap: usize, room: usize) -> Self {
        Pop { s: Store::with_capacity(cap), e: Vec::with_capacity(room), live: Vec::with_capacity(room), has: Vec::with_capacity(room), x: Vec::with_capacity(room), y: Vec::with_capacity(room), p: core::marker::PhantomData }
    }
    pub fn create(&mut self, a: Option<&Archetype>, has: u8, v: u32) -> usize {
        let i = self.e.len();
        let e = match a { None => self.s.create_entity(), Some(a) => self.s.create_entity_with_archetype(a) };
        self.e.push(e);
        self.live.push(true);
        self.has.push(has);
        self.x.push(v);
        self.y.push(v);
        if has & 1 != 0 { self.put_x(i, v); }
        if has & 2 != 0 { match self.s.get_components_refs_mut::<Y>(e) { Some(r) => *r = Y::mk(v), None => check(false, 602) } }
        i
    }
    pub fn put_x(&mut self, i: usize, v: u32) {
        match self.s.get_components_refs_mut::<X>(self.e[i]) { Some(r) => *r = X::mk(v), None => check(false, 601) }
        self.x[i] = v;
    }
    pub fn add_y(&mut self, i: usize) { let v = any_u32(); self.s.add_components(self.e[i], Y::mk(v)); self.y[i] = v; self.has[i] |= 2; }
    pub fn add_x(&mut self, i: usize) { let v = any_u32(); self.s.add_components(self.e[i], X::mk(v)); self.x[i] = v; self.has[i] |= 1; }
    pub fn rem_x(&mut self, i: usize) { self.s.remove_components::<X>(self.e[i]); self.has[i] &= !1; }
    pub fn rem_y(&mut self, i: usize) { self.s.remove_components::<Y>(self.e[i]); self.has[i] &= !2; }
    pub fn destroy(&mut self, i: usize) { self.s.destroy_entity(self.e[i]); self.live[i] = false; self.has[i] = 0; }
    pub fn verify_one(&self, i: usize) {
        let e = self.e[i];
        check(self.s.is_alive(e) == self.live[i], 611);
        match self.s.get_components_refs::<X>(e) { Some(r) => { check(self.has[i] & 1 != 0, 612); check(r.same(self.x[i]), 613) } None => check(self.has[i] & 1 == 0, 614) }
        match self.s.get_components_refs::<Y>(e) { Some(r) => { check(self.has[i] & 2 != 0, 615); check(r.same(self.y[i]), 616) } None => check(self.has[i] & 2 == 0, 617) }
    }
    pub fn verify(&self) { let mut i = 0; while i < self.e.len() { self.verify_one(i); i += 1; } }
    /// each matching entity exactly once, with its handle and its value
    pub fn query_x(&self, q: &mut ComponentReadOnlyQuery<X>) {
        let n = self.e.len();
        let mut by_id = vec![usize::MAX; self.s.entities_capacity()];
        let mut want = 0;
        let mut i = 0;
        while i < n { if self.live[i] { by_id[self.e[i].id() as usize] = i; want += (self.has[i] & 1) as usize; } i += 1; }
        let mut seen = vec![false; n];
        let mut k = 0;
        for (e, x) in self.s.component_query_iter(q).with_entities() {
            let i = by_id[e.id() as usize];
            check(i < n, 621);
            check((self.e[i] == e) & (self.has[i] & 1 != 0) & !seen[i], 622);
            check(x.same(self.x[i]), 623);
            seen[i] = true;
            k += 1;
        }
        check(k == want, 624);
        let mut q2 = query::component::read_write::<Y, X>();
        let mut want = 0;
        let mut i = 0;
        while i < n { want += (self.has[i] == 3) as usize; i += 1; }
        let mut k = 0;
        for (e, (y, x)) in self.s.component_query_iter(&mut q2).with_entities() {
            let i = by_id[e.id() as usize];
            check(i < n, 625);
            check((self.e[i] == e) & (self.has[i] == 3), 626);
            check(x.same(self.x[i]) & y.same(self.y[i]), 627);
            k += 1;
        }
        check(k == want, 628);
    }
}

/// n entities with X (every `second`-th also with Y); then operations at the given places, then everything is compared
pub fn many<X: Val, Y: Val>(cap: usize, n: usize, second: usize, bounds: &[usize], steps: usize, queries: bool) {
    if n > 1000 { allow_millions(n as u32 / 50); }
    let mut w = Pop::<X, Y>::new(cap, n + 8);
    let a = Archetype::with_components::<X>();
    let b = Archetype::with_components::<(Y, X)>();
    let mut i = 0;
    while i < n { if second > 0 && i % second == 1 { w.create(Some(&b), 3, i as u32); } else { w.create(Some(&a), 1, i as u32); } i += 1; }
    let mut q = query::component::readonly::<X>();
    if queries { w.query_x(&mut q); }
    let v = any_u32();
    let at = [0, n / 2, n - 1];
    let mut i = 0;
    while i < 3 { w.put_x(at[i], v ^ i as u32); i += 1; }
    let mut k = 0;
    while k < steps {
        let op = choose(5);
        let i = place(n, bounds);
        if !w.live[i] { assume(false); }
        match op {
            0 => w.destroy(i),
            1 => w.add_y(i),
            2 => w.rem_x(i),
            3 => { w.destroy(i); w.create(Some(&b), 3, 0xabcdef); }
            _ => { w.rem_y(i); w.rem_x(i); w.add_x(i); }
        }
        if !queries || k + 1 == steps { w.verify(); }
        if queries { w.query_x(&mut q); }
        k += 1;
    }
    emit(w.e.len() as u64);
    cover(1);
}

/// whole pages emptied: `gone` consecutive entities starting at a place of choice are destroyed, then as many come back
pub fn emptied<X: Val, Y: Val>(n: usize, gone: usize, step: usize, rounds: usize) {
    let mut w = Pop::<X, Y>::new(8, n + gone * rounds);
    let a = Archetype::with_components::<X>();
    let b = Archetype::with_components::<(X, Y)>();
    let c = Archetype::with_components::<Y>();
    let mut i = 0;
    while i < n { w.create(Some(&a), 1, i as u32); i += 1; }
    let mut q = query::component::readonly::<X>();
    let mut r = 0;
    while r < rounds {
        w.query_x(&mut q);
        let from = choose((w.e.len() - gone) / step + 1) * step;
        let back = choose(2) == 1;
        let mut k = 0;
        while k < gone { let i = if back { from + gone - 1 - k } else { from + k }; if w.live[i] { w.destroy(i); } k += 1; }
        w.query_x(&mut q);
        let kind = choose(3);
        let mut k = 0;
        while k < gone { match kind { 0 => { w.create(Some(&a), 1, k as u32 + 7000); } 1 => { w.create(Some(&b), 3, k as u32 + 8000); } _ => { w.create(Some(&c), 2, k as u32 + 9000); } } k += 1; }
        w.query_x(&mut q);
        w.verify();
        r += 1;
    }
    emit(w.e.len() as u64);
    cover(1);
}

/// one entity at a time comes and later goes (from either end); the same query object is used every time
pub fn growing<X: Val, Y: Val>(n: usize) {
    allow_millions(20);
    let mut w = Pop::<X, Y>::new(1, n);
    let a = Archetype::with_components::<X>();
    let b = Archetype::with_components::<(X, Y)>();
    let mix = choose(3);
    let mut q = query::component::readonly::<X>();
    w.query_x(&mut q);
    let v = any_u32();
    let mut i = 0;
    while i < n {
        if mix == 0 || (mix == 1 && i % 2 == 0) || (mix == 2 && i < 1) { w.create(Some(&a), 1, v ^ i as u32); } else { w.create(Some(&b), 3, v ^ i as u32); }
        w.query_x(&mut q);
        i += 1;
    }
    let order = choose(3);
    let mut i = 0;
    while i < n {
        let x = match order { 0 => i, 1 => n - 1 - i, _ => if i % 2 == 0 { i / 2 } else { n - 1 - i / 2 } };
        w.destroy(x);
        w.query_x(&mut q);
        i += 1;
    }
    w.verify();
    emit(w.e.len() as u64);
    cover(1);
}

/// The same population coming and going again and again needs no more memory each time.
pub fn steady<X: Val, Y: Val, Z: Val>(n: usize, warm: usize, rounds: usize) {
    allow_millions(40);
    let before = heap_live();
    {
        let mut s = Store::with_capacity(4);
        let mut e = Vec::with_capacity(n);
        let kind = choose(4);
        let back = choose(2) == 1;
        let mut held = 0;
        let mut cap = 0;
        let mut r = 0;
        while r < rounds {
            let mut i = 0;
            while i < n {
                let x = s.create_entity();
                match (i + kind) % 3 { 0 => s.add_components(x, X::mk(1)), 1 => { s.add_components(x, X::mk(1)); s.add_components(x, Y::mk(2)) } _ => s.add_components(x, (Z::mk(1), Y::mk(2))) }
                if kind == 3 { s.add_tag::<T1>(x); s.add_entity_order_by::<T1>(x); s.remove_components::<X>(x); }
                e.push(x);
                i += 1;
            }
            let mut i = 0;
            while i < n { s.destroy_entity(if back { e[n - 1 - i] } else { e[i] }); i += 1; }
            e.clear();
            if r < warm { held = heap_live(); cap = s.entities_capacity(); } else { check(heap_live() <= held, 24); check(s.entities_capacity() <= cap, 26); }
            r += 1;
        }
        emit(held - before);
    }
    check(heap_live() == before, 25);
    cover(1);
}
