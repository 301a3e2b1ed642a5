//! len() of an iterator is the number of items it still has.
use crate::c10::List;
use crate::sx::*;
use crate::world::*;
use division_ecs::*;
use division_ecs::query;

pub fn exact<I: ExactSizeIterator>(mut it: I, n: usize, base: u32) {
    let mut k = 0;
    loop {
        check(it.len() == n - k, base);
        let (lo, hi) = it.size_hint();
        check(lo <= n - k, base + 1);
        if let Some(h) = hi { check(h >= n - k, base + 2); }
        if it.next().is_none() { break; }
        k += 1;
        check(k <= n, base + 3);
        if k > n { assume(false); }
    }
    check(k == n, base + 4);
    check(it.next().is_none() && it.len() == 0, base + 5);
    check(it.size_hint() == (0, Some(0)) && it.next().is_none(), base + 6);
}
/// the same, with steps of more than one item
fn skipping<I: ExactSizeIterator>(mut it: I, n: usize, step: usize, base: u32) {
    let mut k = 0;
    while k + step < n { check(it.nth(step).is_some(), base); k += step + 1; check(it.len() == n - k, base + 1); }
    if choose(2) == 0 { check(it.count() == n - k, base + 2); } else { check(it.last().is_some() == (k < n), base + 3); }
}

pub fn lens<X: Val, Y: Val, Z: Val>(count: usize, masks: &[usize], ordered: usize, steps: usize) {
    let mut w = World::<X, Y, Z>::new(count);
    let mut l = List::new();
    let mut i = 0;
    while i < count { let m = masks[choose(masks.len())]; if m == 0 { w.create(); } else { w.create_with(m); } i += 1; }
    let mut i = 0;
    while i < ordered { let x = choose(count); if l.find(x).is_some() { assume(false); } w.s.add_entity_order_by::<T1>(w.e[x]); l.insert(i, x); i += 1; }
    let mut k = 0;
    while k < steps {
        let i = w.some_live();
        match choose(3) { 0 => { w.destroy(i); l.remove(i); } 1 => w.add(i, B), _ => w.remove(i, A) }
        k += 1;
    }
    let (mut a, mut ab, mut oa, mut oab) = (0, 0, 0, 0);
    let mut i = 0;
    while i < w.n {
        let o = w.live[i] && l.find(i).is_some();
        if w.has[i] & 1 != 0 { a += 1; if o { oa += 1; } }
        if w.has[i] & 3 == 3 { ab += 1; if o { oab += 1; } }
        i += 1;
    }
    let mut q = query::component::readonly::<X>();
    exact(w.s.component_query_iter(&mut q), a, 10);
    let mut q = query::component::read_write::<X, Y>();
    exact(w.s.component_query_iter(&mut q), ab, 20);
    let mut q = query::ordered_component::readonly::<T1, X>();
    exact(w.s.ordered_query_iter(&mut q), oa, 30);
    let mut q = query::ordered_component::write::<T1, (Y, X)>();
    exact(w.s.ordered_query_iter(&mut q), oab, 40);
    emit(a as u64);
    emit(oab as u64);
    cover(1);
}

/// which entities changed and which joined the order stays symbolic
pub fn symbolic(start: &[usize], joins: usize, steps: usize) {
    let mut w = World::<W32, W64, W8>::new(start.len());
    let mut i = 0;
    while i < start.len() { if start[i] == 0 { w.create(); } else { w.create_with(start[i]); } i += 1; }
    let mut ord = [false; 16];
    merge_loads(true);
    let mut k = 0;
    while k < joins { let x = pick(w.n); assume(!ord[x]); w.s.add_entity_order_by::<T1>(w.e[x]); ord[x] = true; k += 1; }
    w.steps_sym(steps, &[2], &[1], &[1], false);
    merge_loads(true);
    let (mut a, mut ab, mut oa, mut oab) = (0, 0, 0, 0);
    let mut i = 0;
    while i < w.n {
        let o = w.live[i] & ord[i];
        let (m1, m3) = (w.has[i] & 1 != 0, w.has[i] & 3 == 3);
        a += m1 as usize;
        ab += m3 as usize;
        oa += (m1 & o) as usize;
        oab += (m3 & o) as usize;
        i += 1;
    }
    let mut q = query::component::readonly::<W32>();
    exact(w.s.component_query_iter(&mut q), a, 10);
    let mut q = query::component::read_write::<W32, W64>();
    exact(w.s.component_query_iter(&mut q), ab, 20);
    let mut q = query::ordered_component::readonly::<T1, W32>();
    exact(w.s.ordered_query_iter(&mut q), oa, 30);
    let mut q = query::ordered_component::write::<T1, (W64, W32)>();
    exact(w.s.ordered_query_iter(&mut q), oab, 40);
    emit(a as u64);
    emit(oab as u64);
    cover(1);
}
/// several pages per archetype, long orders: the lengths at every moment
pub fn pages<X: Val, Y: Val>(n: usize) {
    allow_millions(20);
    let mut s = Store::with_capacity(4);
    let a = Archetype::with_components::<X>();
    let b = Archetype::with_components::<(X, Y)>();
    let mut e = Vec::with_capacity(n);
    let mix = choose(3);
    let order = choose(4);
    let (mut na, mut nb, mut oa, mut ob) = (0, 0, 0, 0);
    let mut i = 0;
    while i < n {
        let second = match mix { 0 => false, 1 => i % 2 == 1, _ => i % 5 < 3 };
        e.push(s.create_entity_with_archetype(if second { &b } else { &a }));
        na += 1;
        nb += second as usize;
        i += 1;
    }
    let mut i = 0;
    while i < n {
        let x = match order { 0 => i, 1 => n - 1 - i, 2 => (i * 7) % n, _ => (i * 11 + 1) % n };
        if order != 3 || i % 3 != 0 {
            if s.get_components_refs::<X>(e[x]).is_some() { oa += 1; }
            if s.get_components_refs::<(X, Y)>(e[x]).is_some() { ob += 1; }
            s.add_entity_order_by::<T1>(e[x]);
        }
        i += 1;
    }
    let gone = choose(4);
    if gone > 0 {
        let x = [0, n / 2, n - 1][gone - 1];
        if s.get_next_entity_ordered_by::<T1>(e[x]).is_some() || s.get_last_entity_ordered_by::<T1>() == Some(e[x]) { oa -= 1; if s.get_components_refs::<Y>(e[x]).is_some() { ob -= 1; } }
        if s.get_components_refs::<Y>(e[x]).is_some() { nb -= 1; }
        na -= 1;
        s.destroy_entity(e[x]);
    }
    let mut q = query::component::readonly::<X>();
    exact(s.component_query_iter(&mut q), na, 10);
    let mut q = query::component::write::<(Y, X)>();
    exact(s.component_query_iter(&mut q), nb, 20);
    let mut q = query::ordered_component::readonly::<T1, X>();
    exact(s.ordered_query_iter(&mut q), oa, 30);
    let mut q = query::ordered_component::read_write::<T1, X, Y>();
    exact(s.ordered_query_iter(&mut q), ob, 40);
    let step = [1, 3, 8][choose(3)];
    skipping(s.ordered_query_iter(&mut q), ob, step, 50);
    let mut q = query::component::write::<(X, Y)>();
    skipping(s.component_query_iter(&mut q), nb, step, 60);
    emit(na as u64);
    emit(oa as u64);
    cover(1);
}
