//! Stores do not affect each other, nor do iterations that run side by side; asking changes nothing.
use crate::c10::{self, List};
use crate::sx::*;
use crate::world::*;
use division_ecs::query::{component, entity_component, ordered_component};
use division_ecs::*;

type W = World<W32, W64, W8>;

/// a world with tags and an order group
struct Full { w: W, tag: [[bool; 2]; MAXE], l: List }

impl Full {
    fn new(cap: usize, masks: &[usize]) -> Self {
        let mut f = Full { w: W::new(cap), tag: [[false; 2]; MAXE], l: List::new() };
        let mut i = 0;
        while i < masks.len() { if masks[i] == 0 { f.w.create(); } else { f.w.create_with(masks[i]); } i += 1; }
        f
    }
    fn act(&mut self, op: usize) {
        if op == 0 { self.w.create(); return; }
        if op == 1 { self.w.create_with(A | B); return; }
        let i = self.w.some_live();
        let e = self.w.e[i];
        match op {
            2 => self.w.add(i, C),
            3 => self.w.remove(i, A),
            4 => { self.w.destroy(i); self.tag[i] = [false; 2]; self.l.remove(i); }
            5 => { self.w.s.add_tag::<T1>(e); self.tag[i][0] = true; }
            6 => { self.w.s.add_tag::<T2>(e); self.tag[i][1] = true; self.w.s.remove_tag::<T1>(e); self.tag[i][0] = false; }
            7 => { if self.l.find(i).is_some() { assume(false); } self.w.s.add_entity_order_by::<T1>(e); let k = self.l.n; self.l.insert(k, i); }
            _ => { if self.l.find(i).is_none() { assume(false); } self.w.s.remove_entity_order_by::<T1>(e); self.l.remove(i); }
        }
    }
    fn verify(&self, q: &mut Queries) {
        self.w.verify();
        let mut i = 0;
        while i < self.w.n {
            check(self.w.s.has_tag::<T1>(self.w.e[i]) == self.tag[i][0], 1);
            check(self.w.s.has_tag::<T2>(self.w.e[i]) == self.tag[i][1], 2);
            check(!self.w.s.has_tag::<T3>(self.w.e[i]), 3);
            i += 1;
        }
        c10::verify::<T1>(&self.w.s, &self.w.e, &self.w.live, self.w.n, &self.l, 10);
        check(self.w.s.get_first_entity_ordered_by::<T2>().is_none(), 4);
        check(self.w.s.entities_capacity() >= self.w.n - self.dead(), 5);
        let mut k = 0;
        while k < KINDS { self.whole(k, q); k += 1; }
    }
    fn dead(&self) -> usize { let mut d = 0; let mut i = 0; while i < self.w.n { if !self.w.live[i] { d += 1; } i += 1; } d }
    /// is this what an item of a query of this kind must be? (its place in the model)
    fn item(&self, kind: usize, e: Entity, v: u32) -> usize {
        let mut i = 0;
        while i < self.w.n { if self.w.live[i] && self.w.e[i] == e { break; } i += 1; }
        check(i < self.w.n, 21);
        if i >= self.w.n { assume(false); }
        check(self.w.val[i][0] == v, 22);
        check(self.belongs(kind, i), 23);
        i
    }
    fn belongs(&self, kind: usize, i: usize) -> bool {
        let need = match kind { 1 | 4 => A | B, _ => A };
        let m = self.w.live[i] && self.w.has[i] & need == need;
        match kind { 2 => m && self.tag[i][0], 3 | 4 => m && self.l.find(i).is_some(), 5 => m && i < 3, _ => m }
    }
    fn expected(&self, kind: usize) -> usize { let mut c = 0; let mut i = 0; while i < self.w.n { c += self.belongs(kind, i) as usize; i += 1; } c }
    /// the query run through without interruption
    fn whole(&self, kind: usize, q: &mut Queries) -> List {
        let mut o = List::new();
        for (e, v) in run(kind, &self.w, q) {
            let i = self.item(kind, e, v);
            check(o.find(i).is_none(), 24);
            if o.n >= c10::N { assume(false); }
            let k = o.n;
            o.insert(k, i);
        }
        check(o.n == self.expected(kind), 25);
        o
    }
}

pub const KINDS: usize = 6;
pub struct Queries {
    c1: ComponentReadOnlyQuery<W32>,
    c2: ComponentReadWriteQuery<W64, W32>,
    c3: ComponentReadOnlyQuery<W32>,
    o1: ReadonlyOrderedComponentQuery<T1, W32>,
    o2: WriteOrderedComponentQuery<T1, (W64, W32)>,
    l1: query::entity_component::EntityComponentReadOnlyQuery<W32>,
}
impl Queries {
    fn new() -> Self {
        Queries {
            c1: component::readonly(), c2: component::read_write(), c3: component::readonly(),
            o1: ordered_component::readonly(), o2: ordered_component::write(), l1: entity_component::readonly(),
        }
    }
}
/// six kinds of iteration, each as pairs of handle and value
fn run<'a>(kind: usize, w: &'a W, q: &'a mut Queries) -> Box<dyn Iterator<Item = (Entity, u32)> + 'a> {
    match kind {
        0 => Box::new(w.s.component_query_iter(&mut q.c1).with_entities().map(|(e, x)| (e, x.val()))),
        1 => Box::new(w.s.component_query_iter(&mut q.c2).with_entities().map(|(e, (_, x))| (e, x.val()))),
        2 => Box::new(w.s.component_query_iter(&mut q.c3).with_entities().filter_tag::<T1>().map(|(e, x)| (e, x.val()))),
        3 => Box::new(w.s.ordered_query_iter(&mut q.o1).with_entities().map(|(e, x)| (e, x.val()))),
        4 => Box::new(w.s.ordered_query_iter(&mut q.o2).with_entities().map(|(e, (_, x))| (e, x.val()))),
        _ => Box::new(w.s.entity_component_query_iter(&w.e[..3], &mut q.l1).with_entities().map(|(e, x)| (e, x.val()))),
    }
}

/// Two stores, operations on either in any order; both are checked after each, with the same query objects.
pub fn stores(steps: usize) {
    let mut q = Queries::new();
    let mut f = Full::new(3, &[A, A | B, 0]);
    let mut g = Full::new(2, &[C, A | B, A]);
    f.act(5);
    let mut k = 0;
    while k < steps {
        let op = choose(9);
        if choose(2) == 0 { f.act(op); } else { g.act(op); }
        f.verify(&mut q);
        g.verify(&mut q);
        k += 1;
    }
    // one goes, the other stays
    if choose(2) == 0 { drop(f); g.verify(&mut q); g.w.create_with(A | C); g.verify(&mut q); g.w.emit_all(); }
    else { drop(g); f.verify(&mut q); f.w.create_with(A | C); f.verify(&mut q); f.w.emit_all(); }
    cover(1);
}

/// Two iterations side by side over one or two stores, advanced in any order, either possibly left half way.
pub fn together(two_stores: bool, pairs: usize) {
    let mut f = Full::new(4, &[A, A | B, A | B, A]);
    let mut g = Full::new(2, &[A | B, C, A]);
    let mut i = 0;
    while i < 4 { if i != 1 { f.w.s.add_tag::<T1>(f.w.e[i]); f.tag[i][0] = true; } i += 1; }
    let mut i = 0;
    while i < 3 { let x = [2, 0, 1][i]; f.w.s.add_entity_order_by::<T1>(f.w.e[x]); f.l.insert(i, x); i += 1; }
    g.w.s.add_tag::<T1>(g.w.e[0]);
    g.tag[0][0] = true;
    g.w.s.add_entity_order_by::<T1>(g.w.e[2]);
    g.l.insert(0, 2);
    let (mut p, mut q) = (Queries::new(), Queries::new());
    let a = choose(KINDS);
    let b = if pairs == 0 { choose(KINDS) } else { (a + pairs) % KINDS };
    let h = if two_stores { &g } else { &f };
    let x = f.whole(a, &mut q);
    let y = h.whole(b, &mut p);
    {
        let mut s = run(a, &f.w, &mut p);
        let mut t = run(b, &h.w, &mut q);
        let (mut i, mut j) = (0, 0);
        let mut k = 0;
        let stop = 1 + choose(x.n + y.n + 2);
        while k < stop && (i <= x.n || j <= y.n) {
            if j > y.n || (i <= x.n && choose(2) == 0) {
                match s.next() {
                    Some((e, v)) => { check(i < x.n, 31); if i >= x.n { assume(false); } check(f.item(a, e, v) == x.a[i], 32); }
                    None => check(i == x.n, 33),
                }
                i += 1;
            } else {
                match t.next() {
                    Some((e, v)) => { check(j < y.n, 34); if j >= y.n { assume(false); } check(h.item(b, e, v) == y.a[j], 35); }
                    None => check(j == y.n, 36),
                }
                j += 1;
            }
            k += 1;
        }
        emit((i * 16 + j) as u64);
    }
    f.verify(&mut q);
    g.verify(&mut p);
    cover(1);
}

/// Any question with any handle, in any store state: afterwards everything is as it was, and goes on as it would have.
pub fn questions(pre: usize, asks: usize) {
    let mut q = Queries::new();
    let mut f = Full::new(3, &[A, A | B, 0]);
    f.act(7);
    let mut k = 0;
    while k < pre { let op = choose(9); f.act(op); k += 1; }
    let cap = f.w.s.entities_capacity();
    let mut k = 0;
    while k < asks {
        let e = forge(any_u32(), any_u32());
        assume((e.id() as usize) < cap);
        let s = &mut f.w.s;
        match choose(9) {
            0 => { s.get_components_refs_mut::<W32>(e); s.get_components_refs::<(W64, W8)>(e); }
            1 => { s.get_components_refs_mut::<(W8, W32)>(e); s.get_components_refs_mut::<Odd>(e); }
            2 => { s.is_alive(e); s.is_valid_entity_with_archetype(e); s.get_entity_archetype(e).map(|a| a.clone()); }
            3 => { s.has_tag::<T1>(e); s.has_tag::<T3>(e); }
            4 => { panics(|| { s.get_next_entity_ordered_by::<T1>(e); }); panics(|| { s.get_previous_entity_ordered_by::<T2>(e); }); }
            5 => { s.get_first_entity_ordered_by::<T3>(); s.get_last_entity_ordered_by::<T1>(); s.entities_capacity(); }
            6 => { let mut it = run(choose(KINDS), &f.w, &mut q); it.next(); it.size_hint(); }
            7 => { let l = [e, e]; let mut q = entity_component::write::<W32>(); for _ in s.entity_component_query_iter(&l, &mut q) {} }
            _ => { let mut q = component::read_write::<W8, (W64, W32)>(); for _ in s.component_query_iter(&mut q).with_entities().filter_tag::<T3>() {} }
        }
        k += 1;
    }
    check(f.w.s.entities_capacity() == cap, 41);
    f.verify(&mut q);
    f.act(1);
    f.act(0);
    f.verify(&mut q);
    f.w.emit_all();
    cover(1);
}

/// Two resource stores: operations on either in any order.
pub fn resources(steps: usize) {
    let mut s = [ResourceStore::<[u32; 2]>::with_capacity(1), ResourceStore::<[u32; 2]>::new()];
    let mut h = [[Entity::null(); 8]; 2];
    let mut v = [[0u32; 8]; 2];
    let mut live = [[false; 8]; 2];
    let mut n = [0usize; 2];
    merge_loads(true);
    let mut k = 0;
    while k < steps {
        let w = choose(2);
        let op = choose(3);
        if op == 0 { let x = any_u32(); h[w][n[w]] = s[w].create([x, !x]); v[w][n[w]] = x; live[w][n[w]] = true; n[w] += 1; }
        else if n[w] == 0 { assume(false); }
        else if op == 1 { let i = pick(n[w]); assume(live[w][i]); let x = any_u32(); s[w][h[w][i]] = [x, !x]; v[w][i] = x; }
        else { let i = pick(n[w]); assume(live[w][i]); let r = s[w].release(h[w][i]); check((r[0] == v[w][i]) & (r[1] == !v[w][i]), 51); live[w][i] = false; }
        let mut w = 0;
        while w < 2 {
            if n[w] > 0 {
                // any live one
                let i = pick(n[w]);
                if live[w][i] { let r = s[w][h[w][i]]; check((r[0] == v[w][i]) & (r[1] == !v[w][i]), 52); }
            }
            w += 1;
        }
        k += 1;
    }
    emit((n[0] * 16 + n[1]) as u64);
    cover(1);
}

/// Two stores, operations on either, on any live entity, kept symbolic; any handle and the same query objects ask both.
pub fn symbolic(steps: usize) {
    let mut q1 = component::readonly::<W32>();
    let mut q2 = component::read_write::<W8, W32>();
    let mut w = W::new(4);
    let mut u = W::new(2);
    w.create_with(A);
    w.create_with(A | C);
    w.create_with(A);
    u.create_with(C);
    u.create_with(A | C);
    let mut k = 0;
    while k < steps {
        let x = if choose(2) == 0 { &mut w } else { &mut u };
        x.steps_sym(1, &[C], &[A], &[], true);
        w.verify_any();
        u.verify_any();
        if k == 0 || k + 1 == steps { u.queries_any(&mut q1, &mut q2); }
        if k + 1 == steps { w.queries_any(&mut q1, &mut q2); }
        k += 1;
    }
    cover(1);
}

/// A store takes the place of another one (same variable, same address); the query objects are those of the old one.
pub fn replaced(rounds: usize) {
    let mut q = Queries::new();
    let mut f = Full::new(3, &[A, A | B, 0]);
    let mut r = 0;
    while r < rounds {
        f.act(choose(9));
        f.verify(&mut q);
        let masks: [usize; 3] = [[A, A | B, 0], [A | B, 0, A], [B, C, A | B]][choose(3)];
        let cap = 2 + choose(2);
        f = Full::new(cap, &masks);
        f.verify(&mut q);
        f.act(choose(9));
        f.verify(&mut q);
        r += 1;
    }
    f.w.emit_all();
    cover(1);
}
