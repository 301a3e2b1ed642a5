//! Handles of destroyed (or never created) entities: refused or ignored, never acting on the new owner of the id.
use crate::c10::{self, List};
use crate::sx::*;
use crate::world::*;
use division_ecs::*;
use division_ecs::query;

type Wd = World<W32, W64, W8>;

fn setup(cap: usize) -> (Wd, List, [bool; MAXE]) {
    let mut w = Wd::new(cap);
    let mut l = List::new();
    let mut t = [false; MAXE];
    w.create_with(A | B);
    w.create_with(A);
    w.create();
    w.s.add_entity_order_by::<T1>(w.e[0]); l.insert(0, 0);
    w.s.add_entity_order_by::<T1>(w.e[1]); l.insert(1, 1);
    w.s.add_entity_order_by::<T1>(w.e[2]); l.insert(2, 2);
    w.s.add_tag::<T1>(w.e[0]); t[0] = true;
    w.s.add_tag::<T1>(w.e[1]); t[1] = true;
    w.s.add_tag::<T1>(w.e[2]); t[2] = true;
    // some entity dies; its id may be taken over by a new one
    let d = choose(3);
    w.destroy(d); l.remove(d); t[d] = false;
    match choose(4) {
        0 => {}
        1 => { w.create(); }
        2 => { let i = w.create_with(A | B); w.s.add_tag::<T1>(w.e[i]); t[i] = true; let k = l.n; w.s.add_entity_order_by::<T1>(w.e[i]); l.insert(k, i); }
        _ => { let i = w.create_with(B); w.destroy(i); let i = w.create_with(A); let k = l.n; w.s.add_entity_order_by::<T1>(w.e[i]); l.insert(k, i); }
    }
    (w, l, t)
}

fn unchanged(w: &Wd, l: &List, t: &[bool; MAXE]) {
    let mut i = 0;
    while i < w.n {
        if w.live[i] { w.verify_one(i); check(w.s.has_tag::<T1>(w.e[i]) == t[i], 201); check(!w.s.has_tag::<T2>(w.e[i]), 202); } else { check(!w.s.is_alive(w.e[i]), 203); }
        i += 1;
    }
    c10::verify::<T1>(&w.s, &w.e, &w.live, w.n, l, 210);
    c10::verify::<T2>(&w.s, &w.e, &w.live, w.n, &List::new(), 220);
}

fn misuse(w: &mut Wd, op: usize, x: Entity, anchor: Entity) -> bool {
    let v = any_u32();
    let s = &mut w.s;
    match op {
        0 => panics(|| s.destroy_entity(x)),
        1 => panics(|| s.add_components(x, W32(v))),
        2 => panics(|| s.add_components(x, (W8(1), W64(v as u64)))),
        3 => panics(|| s.remove_components::<W32>(x)),
        4 => panics(|| s.add_tag::<T1>(x)),
        5 => panics(|| s.add_tag::<T2>(x)),
        6 => panics(|| s.remove_tag::<T1>(x)),
        7 => panics(|| s.add_entity_order_by::<T1>(x)),
        8 => panics(|| s.add_entity_order_by::<T2>(x)),
        9 => panics(|| s.add_entity_next_to_order_by::<T1>(x, anchor)),
        10 => panics(|| s.add_entity_previous_to_order_by::<T1>(x, anchor)),
        11 => panics(|| s.remove_entity_order_by::<T1>(x)),
        12 => panics(|| check(!s.is_alive(x), 101)),
        13 => panics(|| check(s.get_components_refs::<W32>(x).is_none(), 102)),
        14 => panics(|| check(s.get_components_refs_mut::<W64>(x).is_none(), 103)),
        15 => panics(|| check(s.get_entity_archetype(x).is_none(), 104)),
        16 => panics(|| check(!s.is_valid_entity_with_archetype(x), 105)),
        17 => panics(|| check(!s.has_tag::<T1>(x), 106)),
        18 => panics(|| check(s.get_next_entity_ordered_by::<T1>(x).is_none(), 107)),
        19 => panics(|| check(s.get_previous_entity_ordered_by::<T1>(x).is_none(), 108)),
        20 => panics(|| { let mut q = query::entity_component::readonly::<W32>(); let l = [x]; check(s.entity_component_query_iter(&l, &mut q).next().is_none(), 109) }),
        // a dead anchor for a live entity
        21 => panics(|| s.add_entity_next_to_order_by::<T1>(anchor, x)),
        _ => panics(|| s.add_entity_previous_to_order_by::<T2>(anchor, x)),
    }
}
const OPS: usize = 23;

/// handles that were valid once
pub fn stale(cap: usize) {
    let (mut w, l, t) = setup(cap);
    let mut dead = Entity::null();
    let c = choose(w.n);
    if w.live[c] { assume(false); }
    dead = w.e[c];
    let a = w.some_live();
    let op = choose(OPS);
    if op < 9 || (op > 10 && op < 21) { if a != 0 && w.live[0] { assume(false); } }
    let anchor = w.e[a];
    let p = misuse(&mut w, op, dead, anchor);
    emit(p as u64);
    unchanged(&w, &l, &t);
    cover(1);
}

/// every handle value there is: any id (also far outside the store), any version
pub fn forged(cap: usize, lo: usize, hi: usize) {
    let (mut w, l, t) = setup(cap);
    let x = forge(any_u32(), any_u32());
    let mut i = 0;
    while i < w.n { if w.live[i] { assume(!((x.id() == w.e[i].id()) & (x.version() == w.e[i].version()))); } i += 1; }
    // unused slots have version 0 and are not alive either
    let mut a = 0;
    while !w.live[a] { a += 1; }
    let op = lo + choose(hi - lo);
    let anchor = w.e[a];
    let p = misuse(&mut w, op, x, anchor);
    emit(p as u64);
    unchanged(&w, &l, &t);
    cover(1);
}

/// Which entity died, and every handle that is not alive, stay symbolic.
pub fn symbolic(cap: usize, lo: usize, hi: usize, takeover: usize) {
    let mut w = Wd::new(cap);
    w.create_with(A | B);
    w.create_with(A);
    w.create();
    w.create_with(B | C);
    merge_loads(true);
    let d = w.any_live();
    w.destroy(d);
    let mut i = 0;
    while i < takeover { w.create_with(A | B); i += 1; }
    w.s.add_tag::<T1>(w.e[w.n - 1]);
    let tagged = w.n - 1;
    let x = forge(any_u32(), any_u32());
    assume(w.who(x) == 0);
    let a = w.any_live();
    let anchor = w.e[a];
    let op = lo + choose(hi - lo);
    let p = misuse(&mut w, op, x, anchor);
    emit(p as u64);
    w.verify_any();
    merge_loads(true);
    let y = w.any_live();
    check(w.s.has_tag::<T1>(w.e[y]) == ((y == tagged) & w.live[y]), 231);
    check(!w.s.has_tag::<T2>(w.e[y]), 232);
    check(w.s.get_next_entity_ordered_by::<T1>(w.e[y]).is_none() & w.s.get_previous_entity_ordered_by::<T1>(w.e[y]).is_none(), 233);
    check(w.s.get_first_entity_ordered_by::<T1>().is_none() & w.s.get_last_entity_ordered_by::<T2>().is_none(), 234);
    cover(1);
}
