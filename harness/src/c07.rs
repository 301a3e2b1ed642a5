//! Component queries visit exactly the matching entities.
use crate::sx::*;
use crate::world::*;
use division_ecs::*;
use division_ecs::query::component as q;

fn index<X: Val, Y: Val, Z: Val>(w: &World<X, Y, Z>, e: Entity) -> usize {
    let mut i = 0;
    while i < w.n { if w.live[i] && w.e[i] == e { return i; } i += 1; }
    check(false, 100); // an entity that is not alive
    assume(false);
    0
}
fn all_once<X: Val, Y: Val, Z: Val>(w: &World<X, Y, Z>, seen: &[u32; MAXE], mask: usize, base: u32) {
    let mut i = 0;
    while i < w.n { check(seen[i] == (w.live[i] && w.has[i] & mask == mask) as u32, base); i += 1; }
}

/// every kind of query, each entity exactly once, right handle, right values
pub fn queries<X: Val, Y: Val, Z: Val>(w: &mut World<X, Y, Z>, q1: &mut ComponentReadOnlyQuery<X>, q2: &mut ComponentReadOnlyQuery<(Y, X)>, q3: &mut ComponentReadWriteQuery<X, Z>, q4: &mut ComponentWriteQuery<Y>) {
    let mut seen = [0u32; MAXE];
    for (e, x) in w.s.component_query_iter(q1).with_entities() { let i = index(w, e); seen[i] += 1; check(x.same(w.val[i][0]), 101); emit(x.val() as u64); }
    all_once(w, &seen, A, 102);
    let mut seen = [0u32; MAXE];
    for (e, (y, x)) in w.s.component_query_iter(q2).with_entities() { let i = index(w, e); seen[i] += 1; check(y.same(w.val[i][1]) & x.same(w.val[i][0]), 103); }
    all_once(w, &seen, A | B, 104);
    // without handles: as many items as matching entities
    let mut n = 0;
    for _ in w.s.component_query_iter(q2) { n += 1; }
    let mut m = 0;
    let mut i = 0;
    while i < w.n { if w.live[i] && w.has[i] & 3 == 3 { m += 1; } i += 1; }
    check(n == m, 105);
    // writes through a query reach exactly the entity they were handed for
    let mut seen = [0u32; MAXE];
    let mut wrote = [0u32; MAXE];
    for (e, (x, z)) in w.s.component_query_iter(q3).with_entities() {
        let i = index(w, e);
        seen[i] += 1;
        check(x.same(w.val[i][0]) & z.same(w.val[i][2]), 106);
        let v = any_u32();
        *z = Z::mk(v);
        wrote[i] = v;
    }
    all_once(w, &seen, A | C, 107);
    let mut i = 0;
    while i < w.n { if seen[i] > 0 { w.val[i][2] = wrote[i]; } i += 1; }
    let mut seen = [0u32; MAXE];
    for (e, y) in w.s.component_query_iter(q4).with_entities() {
        let i = index(w, e);
        seen[i] += 1;
        check(y.same(w.val[i][1]), 108);
        let v = any_u32();
        *y = Y::mk(v);
        wrote[i] = v;
    }
    all_once(w, &seen, B, 109);
    let mut i = 0;
    while i < w.n { if seen[i] > 0 { w.val[i][1] = wrote[i]; } i += 1; }
    w.verify();
}

/// entities with arbitrary component sets, then arbitrary changes; the same query objects are used throughout
pub fn history<X: Val, Y: Val, Z: Val>(cap: usize, count: usize, masks: &[usize], steps: usize, adds: &[usize], rems: &[usize]) {
    let mut w = World::<X, Y, Z>::new(cap);
    let (mut q1, mut q2, mut q3, mut q4) = (q::readonly::<X>(), q::readonly::<(Y, X)>(), q::read_write::<X, Z>(), q::write::<Y>());
    let mut i = 0;
    while i < count { let m = masks[choose(masks.len())]; if m == 0 { w.create(); } else { w.create_with(m); } i += 1; }
    queries(&mut w, &mut q1, &mut q2, &mut q3, &mut q4);
    let mut k = 0;
    while k < steps {
        let op = choose(adds.len() + rems.len() + 1);
        let i = w.some_live();
        if op < adds.len() { w.add(i, adds[op]); } else if op < adds.len() + rems.len() { w.remove(i, rems[op - adds.len()]); } else { w.destroy(i); }
        queries(&mut w, &mut q1, &mut q2, &mut q3, &mut q4);
        k += 1;
    }
    cover(1);
}

/// Operations on any live entity, kept symbolic, between two uses of the same query objects.
pub fn symbolic<X: Val, Y: Val, Z: Val>(cap: usize, start: &[usize], rounds: usize, steps: usize, adds: &[usize], rems: &[usize], creates: &[usize]) {
    let mut w = World::<X, Y, Z>::new(cap);
    let (mut q1, mut q2) = (q::readonly::<X>(), q::read_write::<Z, X>());
    let mut i = 0;
    while i < start.len() { if start[i] == 0 { w.create(); } else { w.create_with(start[i]); } i += 1; }
    w.queries_any(&mut q1, &mut q2);
    let mut r = 0;
    while r < rounds {
        w.steps_sym(steps, adds, rems, creates, false);
        w.queries_any(&mut q1, &mut q2);
        r += 1;
    }
    cover(1);
}

/// One query object used with two stores in turn, also when an iteration was left half way.
pub fn shared(masks: &[usize], rounds: usize) {
    let mut w = World::<W32, W64, W8>::new(4);
    let mut u = World::<W32, W64, W8>::new(2);
    let (mut q1, mut q2, mut q3, mut q4) = (q::readonly::<W32>(), q::readonly::<(W64, W32)>(), q::read_write::<W32, W8>(), q::write::<W64>());
    let mut i = 0;
    while i < 3 { let m = masks[choose(masks.len())]; if m == 0 { w.create(); } else { w.create_with(m); } i += 1; }
    // the same sets in the other store, but in another order
    u.create_with(C);
    u.create_with(A | B);
    let mut r = 0;
    while r < rounds {
        let k = choose(3);
        {
            let x = if choose(2) == 0 { &w } else { &u };
            let mut it = x.s.component_query_iter(&mut q1).with_entities();
            let mut i = 0;
            while i < k { if it.next().is_none() { break; } i += 1; }
        }
        queries(&mut w, &mut q1, &mut q2, &mut q3, &mut q4);
        queries(&mut u, &mut q1, &mut q2, &mut q3, &mut q4);
        match choose(4) {
            0 => { let i = w.some_live(); w.destroy(i); }
            1 => { let i = u.some_live(); u.destroy(i); }
            2 => { u.create_with(A); }
            _ => { let i = w.some_live(); w.add(i, C); }
        }
        queries(&mut u, &mut q1, &mut q2, &mut q3, &mut q4);
        queries(&mut w, &mut q1, &mut q2, &mut q3, &mut q4);
        r += 1;
    }
    cover(1);
}
