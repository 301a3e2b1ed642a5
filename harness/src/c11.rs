//! Ordered queries.
use crate::c10::List;
use crate::sx::*;
use crate::world::*;
use division_ecs::*;
use division_ecs::query::ordered_component as q;

pub fn expect(w: &World<W32, W64, W8>, l: &List, mask: usize) -> List {
    let mut o = List::new();
    let mut i = 0;
    while i < l.n { let x = l.a[i]; if w.has[x] & mask == mask { let k = o.n; o.insert(k, x); } i += 1; }
    o
}

pub fn queries(w: &mut World<W32, W64, W8>, l: &List, q1: &mut ReadonlyOrderedComponentQuery<T1, W32>, q2: &mut ReadWriteOrderedComponentQuery<T1, W32, W64>, q3: &mut WriteOrderedComponentQuery<T1, W64>) {
    let x = expect(w, l, A);
    let mut k = 0;
    for v in w.s.ordered_query_iter(q1) { check(k < x.n, 1); if k >= x.n { assume(false); } check(v.same(w.val[x.a[k]][0]), 2); k += 1; }
    check(k == x.n, 3);
    let mut k = 0;
    for (e, v) in w.s.ordered_query_iter(q1).with_entities() {
        check(k < x.n, 4);
        if k >= x.n { assume(false); }
        check(e == w.e[x.a[k]], 5);
        check(v.same(w.val[x.a[k]][0]), 6);
        emit(e.id() as u64);
        k += 1;
    }
    check(k == x.n, 7);
    let x = expect(w, l, A | B);
    let mut k = 0;
    let mut wrote = [0u32; 8];
    for (e, (r, z)) in w.s.ordered_query_iter(q2).with_entities() {
        check(k < x.n, 8);
        if k >= x.n { assume(false); }
        let i = x.a[k];
        check(e == w.e[i], 9);
        check(r.same(w.val[i][0]) & z.same(w.val[i][1]), 10);
        let v = any_u32();
        *z = W64::mk(v);
        wrote[k] = v;
        k += 1;
    }
    check(k == x.n, 11);
    let mut k = 0;
    while k < x.n { w.val[x.a[k]][1] = wrote[k]; k += 1; }
    let x = expect(w, l, B);
    let mut k = 0;
    for z in w.s.ordered_query_iter(q3) { check(k < x.n, 12); if k >= x.n { assume(false); } check(z.same(w.val[x.a[k]][1]), 13); k += 1; }
    check(k == x.n, 14);
    w.verify();
}

/// `count` entities with arbitrary component sets, an arbitrary part of them ordered arbitrarily, then
/// arbitrary changes; the same query objects are used throughout
pub fn history(count: usize, masks: &[usize], ordered: usize, steps: usize) {
    let mut w = World::<W32, W64, W8>::new(count);
    let (mut q1, mut q2, mut q3) = (q::readonly::<T1, W32>(), q::read_write::<T1, W32, W64>(), q::write::<T1, W64>());
    let mut l = List::new();
    let mut i = 0;
    while i < count { let m = masks[choose(masks.len())]; if m == 0 { w.create(); } else { w.create_with(m); } i += 1; }
    let mut i = 0;
    while i < ordered {
        let x = choose(count);
        if l.find(x).is_some() { assume(false); }
        w.s.add_entity_order_by::<T1>(w.e[x]);
        l.insert(i, x);
        i += 1;
    }
    queries(&mut w, &l, &mut q1, &mut q2, &mut q3);
    let mut k = 0;
    while k < steps {
        let op = choose(5);
        let i = w.some_live();
        match op {
            0 => w.add(i, A),
            1 => { w.remove(i, B); }
            2 => { w.destroy(i); l.remove(i); }
            3 => { w.s.remove_entity_order_by::<T1>(w.e[i]); l.remove(i); }
            _ => { if l.find(i).is_some() || l.n == 0 { assume(false); } let y = l.a[0]; w.s.add_entity_previous_to_order_by::<T1>(w.e[i], w.e[y]); l.insert(0, i); }
        }
        queries(&mut w, &l, &mut q1, &mut q2, &mut q3);
        k += 1;
    }
    cover(1);
}

/// The order in which entities join, the entity that changes and the place it joins at are symbolic.
pub fn symbolic(masks: &[usize], joins: usize, steps: usize) {
    let count = masks.len();
    let mut w = World::<W32, W64, W8>::new(count);
    let (mut q1, mut q2) = (q::readonly::<T1, W32>(), q::read_write::<T1, W32, W64>());
    let mut i = 0;
    while i < count { if masks[i] == 0 { w.create(); } else { w.create_with(masks[i]); } i += 1; }
    let mut a = [0usize; 8];
    let mut n = 0;
    merge_loads(true);
    while n < joins {
        let x = pick(count);
        let mut i = 0;
        while i < n { assume(a[i] != x); i += 1; }
        w.s.add_entity_order_by::<T1>(w.e[x]);
        a[n] = x;
        n += 1;
    }
    queries_sym(&w, &a, n, &mut q1, &mut q2);
    let mut k = 0;
    while k < steps {
        if n == 0 { assume(false); }
        let p = pick(n);
        let x = a[p];
        match choose(5) {
            0 => w.add(x, A),
            1 => w.remove(x, B),
            2 | 3 => {
                if choose(2) == 0 { w.destroy(x); } else { w.s.remove_entity_order_by::<T1>(w.e[x]); }
                let mut i = 0;
                while i + 1 < n { a[i] = sel(i >= p, a[i + 1], a[i]); i += 1; }
                n -= 1;
            }
            _ => {
                let y = pick(count);
                assume(w.live[y]);
                let mut i = 0;
                while i < n { assume(a[i] != y); i += 1; }
                w.s.add_entity_next_to_order_by::<T1>(w.e[y], w.e[x]);
                let mut i = n;
                while i > 0 { a[i] = sel(i > p + 1, a[i - 1], sel(i == p + 1, y, a[i])); i -= 1; }
                n += 1;
            }
        }
        queries_sym(&w, &a, n, &mut q1, &mut q2);
        k += 1;
    }
    cover(1);
}
pub fn queries_sym(w: &World<W32, W64, W8>, a: &[usize; 8], n: usize, q1: &mut ReadonlyOrderedComponentQuery<T1, W32>, q2: &mut ReadWriteOrderedComponentQuery<T1, W32, W64>) {
    let (x, c) = filtered(w, a, n, A);
    let mut k = 0;
    for (e, v) in w.s.ordered_query_iter(q1).with_entities() {
        if k >= n { check(false, 31); assume(false); }
        check(k < c, 32);
        check((e.id() == w.e[x[k]].id()) & (e.version() == w.e[x[k]].version()), 33);
        check(v.same(w.val[x[k]][0]), 34);
        k += 1;
    }
    check(k == c, 35);
    let (x, c) = filtered(w, a, n, A | B);
    let mut k = 0;
    for (e, (v, z)) in w.s.ordered_query_iter(q2).with_entities() {
        if k >= n { check(false, 36); assume(false); }
        check(k < c, 37);
        check((e.id() == w.e[x[k]].id()) & (e.version() == w.e[x[k]].version()), 38);
        check(v.same(w.val[x[k]][0]) & z.same(w.val[x[k]][1]), 39);
        k += 1;
    }
    check(k == c, 40);
    emit(k as u64);
}
fn filtered(w: &World<W32, W64, W8>, a: &[usize; 8], n: usize, mask: usize) -> ([usize; 8], usize) {
    let mut x = [0usize; 8];
    let mut c = 0;
    let mut i = 0;
    while i < n {
        let m = w.has[a[i]] & mask == mask;
        let mut j = 0;
        while j <= i { x[j] = sel(m & (c == j), a[i], x[j]); j += 1; }
        c += m as usize;
        i += 1;
    }
    (x, c)
}
