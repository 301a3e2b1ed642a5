//! A store gives everything back; no operation touches memory it does not own (the executor checks every access).
use crate::sx::*;
use crate::world::*;
use division_ecs::*;
use division_ecs::query;

pub fn history<X: Val, Y: Val, Z: Val>(cap: usize, steps: usize) {
    let before = heap_live();
    {
        let mut w = World::<X, Y, Z>::new(cap);
        let mut k = 0;
        while k < steps {
            match choose(11) {
                0 => { w.create(); }
                1 => { w.create_with(A | B); }
                2 => { w.create_with(C); }
                3 => { let i = w.some_live(); w.add(i, A); }
                4 => { let i = w.some_live(); w.add(i, B | C); }
                5 => { let i = w.some_live(); w.remove(i, A); }
                6 => { let i = w.some_live(); w.destroy(i); }
                7 => { let i = w.some_live(); w.s.add_tag::<T1>(w.e[i]); w.s.add_tag::<T2>(w.e[i]); w.s.remove_tag::<T1>(w.e[i]); }
                8 => { let i = w.some_live(); if w.s.get_first_entity_ordered_by::<T1>() != None { assume(false); } w.s.add_entity_order_by::<T1>(w.e[i]); w.s.add_entity_order_by::<T2>(w.e[i]); w.s.remove_entity_order_by::<T2>(w.e[i]); }
                9 => {
                    let mut q = query::component::readonly::<(X, Y)>();
                    let mut n = 0;
                    for _ in w.s.component_query_iter(&mut q).with_entities().filter_tag::<T2>() { n += 1; }
                    let mut q = query::ordered_component::readonly::<T1, X>();
                    for _ in w.s.ordered_query_iter(&mut q).with_entities() { n += 1; }
                    let mut q = query::entity_component::readonly::<X>();
                    let l = [w.e[0], w.e[1]];
                    if w.n >= 2 { for _ in w.s.entity_component_query_iter(&l, &mut q).with_entities() { n += 1; } }
                    check(n <= 3 * w.n, 1);
                }
                _ => { let a = World::<X, Y, Z>::arch(A | C); let b = a.clone(); drop(a); check(b.component_count() == 2, 2); w.s.create_entity_with_archetype(&b); }
            }
            k += 1;
        }
        w.verify();
    }
    check(heap_live() == before, 3);
    emit(1);
    cover(1);
}

/// Every operation of the store with an arbitrary handle (any id, any version), refused or not:
/// no access outside the store's memory, and everything is given back.
pub fn any_handle(cap: usize, steps: usize) {
    let before = heap_live();
    {
        let mut w = World::<W32, Odd, W8>::new(cap);
        w.create_with(A | B);
        w.create_with(C);
        w.create();
        w.create_with(A);
        w.s.add_tag::<T1>(w.e[0]);
        w.s.add_entity_order_by::<T1>(w.e[1]);
        w.s.add_entity_order_by::<T1>(w.e[3]);
        merge_loads(true);
        let mut k = 0;
        while k < steps {
            let x = forge(any_u32(), any_u32());
            let y = w.e[pick(4)];
            let v = any_u32();
            let s = &mut w.s;
            let p = match choose(16) {
                0 => panics(|| s.destroy_entity(x)),
                1 => panics(|| s.add_components(x, W32(v))),
                2 => panics(|| s.add_components(x, (W8(1), Odd::mk(v)))),
                3 => panics(|| s.remove_components::<W32>(x)),
                4 => panics(|| s.remove_components::<(W8, Odd)>(x)),
                5 => panics(|| s.add_tag::<T1>(x)),
                6 => panics(|| { s.remove_tag::<T1>(x); let _ = s.has_tag::<T1>(x); }),
                7 => panics(|| s.add_entity_order_by::<T1>(x)),
                8 => panics(|| s.add_entity_next_to_order_by::<T1>(x, y)),
                9 => panics(|| s.add_entity_previous_to_order_by::<T2>(y, x)),
                10 => panics(|| s.remove_entity_order_by::<T1>(x)),
                11 => panics(|| { if let Some((a, b)) = s.get_components_refs_mut::<(W32, Odd)>(x) { a.0 = v; *b = Odd::mk(v); } }),
                12 => panics(|| { let _ = s.get_entity_archetype(x).is_none(); let _ = s.is_valid_entity_with_archetype(x); let _ = s.is_alive(x); }),
                13 => panics(|| { let _ = s.get_next_entity_ordered_by::<T1>(x); let _ = s.get_previous_entity_ordered_by::<T1>(x); }),
                14 => panics(|| { let mut q = query::entity_component::readonly::<W32>(); let l = [x, y]; for r in s.entity_component_query_iter(&l, &mut q) { check(r.0 == r.0, 20); } }),
                _ => { s.create_entity(); false }
            };
            emit(p as u64);
            k += 1;
        }
    }
    check(heap_live() == before, 21);
    cover(1);
}

/// Which entities the operations act on stays symbolic; then the store is dropped.
pub fn symbolic<X: Val, Y: Val, Z: Val>(start: &[usize], steps: usize, adds: &[usize], rems: &[usize], creates: &[usize]) {
    let before = heap_live();
    {
        let mut w = World::<X, Y, Z>::new(start.len());
        let mut i = 0;
        while i < start.len() { if start[i] == 0 { w.create(); } else { w.create_with(start[i]); } i += 1; }
        merge_loads(true);
        let x = w.any_live();
        w.s.add_tag::<T1>(w.e[x]);
        let y = w.any_live();
        w.s.add_entity_order_by::<T2>(w.e[y]);
        w.steps_sym(steps, adds, rems, creates, false);
        w.verify_any();
    }
    check(heap_live() == before, 22);
    cover(1);
}

use crate::tags::G;
/// Many tags, groups, archetypes and growth: everything is given back.
pub fn everything(n: usize) {
    allow_millions(40);
    let before = heap_live();
    {
        let mut s = Store::with_capacity(1 + choose(2) * 40);
        let mut e = Vec::with_capacity(n);
        let kinds = choose(4);
        let mut i = 0;
        while i < n {
            let x = s.create_entity();
            match (i + kinds) % 4 { 0 => s.add_components(x, (W32(1), B2k::mk(i as u32))), 1 => s.add_components(x, (Odd::mk(i as u32), Al64::mk(3))), 2 => s.add_components(x, (W8(1), W16(2), W64(3))), _ => {} }
            if i % 3 == 0 { s.add_tag::<G<1>>(x); s.add_tag::<G<2>>(x); s.add_tag::<G<3>>(x); s.add_tag::<G<4>>(x); s.add_tag::<G<5>>(x); s.add_tag::<G<6>>(x); }
            if i % 2 == 0 { s.add_entity_order_by::<G<1>>(x); s.add_entity_order_by::<G<2>>(x); s.add_entity_order_by::<G<3>>(x); s.add_entity_order_by::<G<4>>(x); s.add_entity_order_by::<G<5>>(x); }
            e.push(x);
            i += 1;
        }
        let mut i = 0;
        while i < n { if i % 5 < 2 { s.destroy_entity(e[i]); } else if i % 5 == 2 { s.remove_components::<(W32, Odd, W8)>(e[i]); } i += 1; }
        let mut q = query::component::readonly::<W64>();
        let mut k = 0;
        for _ in s.component_query_iter(&mut q).with_entities().filter_tag::<G<3>>() { k += 1; }
        let mut q = query::ordered_component::readonly::<G<4>, B2k>();
        for _ in s.ordered_query_iter(&mut q) { k += 1; }
        let mut q = query::entity_component::readonly::<W64>();
        for _ in s.entity_component_query_iter(&e, &mut q) { k += 1; }
        emit(k as u64);
    }
    check(heap_live() == before, 23);
    cover(1);
}


/// Capacities that no machine can provide, among them those whose size in bytes wraps around: refused by a panic, or the end of
/// the process, but never a store with less memory than it believes to have.
pub fn huge() {
    allocations_may_fail();
    let before = heap_live();
    let k = 46 + choose(18);
    let top = 1usize << k;
    let cap = match choose(5) { 0 => top, 1 => top + 1, 2 => top - 1, 3 => 0usize.wrapping_sub(top), _ => top | top >> 1 | 3 };
    let kind = choose(4);
    let p = panics(|| {
        match kind {
            0 => { let mut s = Store::with_capacity(cap); let e = s.create_entity(); s.add_components(e, W32::mk(7)); s.add_tag::<T1>(e); s.add_entity_order_by::<T1>(e); }
            1 => { let mut s = ResourceStore::<u64>::with_capacity(cap); let h = s.create(5); check(s[h] == 5, 61); }
            2 => { let mut s = ResourceStore::<[u32; 3]>::with_capacity(cap); let h = s.create([1, 2, 3]); check(s[h][1] == 2, 62); }
            _ => { let mut s = ResourceStore::<()>::with_capacity(cap); s.create(()); }
        }
    });
    if p { check(heap_live() == before, 63); cover(1); }
    emit(p as u64);
}

/// Entities that never had a component among others, all ids beyond the capacity the store began with, asked for in every way:
/// nothing is read that was never written.
pub fn bare(n: usize) {
    let before = heap_live();
    {
        let mut w = World::<W32, Odd, W8>::new(1);
        let mut i = 0;
        while i < n {
            match choose(3) { 0 => { w.create(); } 1 => { w.create_with(A); } _ => { w.create_with(A | B); } }
            if choose(2) == 1 { w.s.add_entity_order_by::<T1>(w.e[i]); }
            i += 1;
        }
        let mut k = 0;
        let mut q = query::ordered_component::readonly::<T1, W32>();
        for (e, x) in w.s.ordered_query_iter(&mut q).with_entities() { k += (e == e) as usize + (x.0 == x.0) as usize; }
        let mut q = query::ordered_component::readonly::<T1, (W32, Odd)>();
        for (x, _) in w.s.ordered_query_iter(&mut q) { k += (x.0 == x.0) as usize; }
        let mut q = query::entity_component::readonly::<W32>();
        for (e, x) in w.s.entity_component_query_iter(&w.e[..n], &mut q).with_entities() { k += (e == e) as usize + (x.0 == x.0) as usize; }
        let mut q = query::component::readonly::<(W32, Odd)>();
        for (e, (x, _)) in w.s.component_query_iter(&mut q).with_entities().filter_tag::<T2>() { k += (e == e) as usize + (x.0 == x.0) as usize; }
        let mut i = 0;
        while i < n {
            k += w.s.get_entity_archetype(w.e[i]).is_some() as usize;
            k += w.s.get_components_refs::<W32>(w.e[i]).is_some() as usize;
            k += w.s.get_next_entity_ordered_by::<T1>(w.e[i]).is_some() as usize;
            k += w.s.has_tag::<T1>(w.e[i]) as usize;
            i += 1;
        }
        check(k <= 11 * n, 24);
        let d = choose(n);
        w.destroy(d);
        w.create();
        w.add(n, A | C);
        w.verify();
        emit(k as u64);
    }
    check(heap_live() == before, 25);
    cover(1);
}
