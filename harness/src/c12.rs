//! Queries over an explicit list of entities.
use crate::sx::*;
use crate::world::*;
use division_ecs::*;
use division_ecs::query::entity_component as q;

fn run(w: &mut World<W32, W64, W8>, list: &[Entity], len: usize, q1: &mut EntityComponentReadOnlyQuery<W32>, q2: &mut EntityComponentReadWriteQuery<W32, W64>, dup: bool) {
    let mut want = [0usize; 8];
    for mask in [A, A | B] {
        let mut n = 0;
        let mut i = 0;
        while i < len {
            let mut j = 0;
            while j < w.n { if w.live[j] && w.e[j] == list[i] && w.has[j] & mask == mask { want[n] = j; n += 1; } j += 1; }
            i += 1;
        }
        if mask == A {
            let mut k = 0;
            for x in w.s.entity_component_query_iter(&list[..len], q1) { check(k < n, 1); if k >= n { assume(false); } check(x.same(w.val[want[k]][0]), 2); k += 1; }
            check(k == n, 3);
            let mut k = 0;
            for (e, x) in w.s.entity_component_query_iter(&list[..len], q1).with_entities() { check(k < n, 4); if k >= n { assume(false); } check(e == w.e[want[k]], 5); check(x.same(w.val[want[k]][0]), 6); emit(want[k] as u64); k += 1; }
            check(k == n, 7);
        } else {
            if dup { return; }
            let mut wrote = [0u32; 8];
            let mut k = 0;
            for (e, (x, y)) in w.s.entity_component_query_iter(&list[..len], q2).with_entities() {
                check(k < n, 8);
                if k >= n { assume(false); }
                check(e == w.e[want[k]], 9);
                check(x.same(w.val[want[k]][0]) & y.same(w.val[want[k]][1]), 10);
                let v = any_u32();
                *y = W64::mk(v);
                wrote[k] = v;
                k += 1;
            }
            check(k == n, 11);
            let mut k = 0;
            while k < n { w.val[want[k]][1] = wrote[k]; k += 1; }
        }
    }
    w.verify();
}

/// entities with arbitrary component sets, some destroyed and their ids reused; then two lists drawn from
/// every handle ever issued (with repetitions) go through the same query objects
pub fn history(count: usize, masks: &[usize], changes: usize, len: usize, lists: usize) {
    let mut w = World::<W32, W64, W8>::new(count);
    let (mut q1, mut q2) = (q::readonly::<W32>(), q::read_write::<W32, W64>());
    let mut i = 0;
    while i < count { let m = masks[choose(masks.len())]; if m == 0 { w.create(); } else { w.create_with(m); } i += 1; }
    let mut k = 0;
    while k < changes {
        let i = w.some_live();
        match choose(4) {
            0 => w.destroy(i),
            1 => { w.destroy(i); w.create(); }
            2 => { w.destroy(i); w.create_with(A); }
            _ => w.add(i, A),
        }
        k += 1;
    }
    let mut t = 0;
    while t < lists {
        let mut list = [Entity::null(); 8];
        let mut dup = false;
        let mut i = 0;
        while i < len {
            let x = choose(w.n);
            list[i] = w.e[x];
            let mut j = 0;
            while j < i { dup |= list[j] == list[i]; j += 1; }
            i += 1;
        }
        run(&mut w, &list, len, &mut q1, &mut q2, dup);
        t += 1;
    }
    cover(1);
}

/// a list of arbitrary handles, symbolic in id and version
pub fn symbolic(len: usize, start: &[usize], steps: usize) {
    let mut w = World::<W32, W64, W8>::new(start.len());
    let mut i = 0;
    while i < start.len() { if start[i] == 0 { w.create(); } else { w.create_with(start[i]); } i += 1; }
    if steps == 0 { w.destroy(1); w.create_with(A); } else { w.steps_sym(steps, &[3], &[1], &[1], false); }
    let mut list = [Entity::null(); 4];
    let mut want = 0;
    let mut i = 0;
    merge_loads(true);
    while i < len {
        let e = forge(any_u32(), any_u32());
        list[i] = e;
        want += (w.who(e) & w.matching(A) != 0) as usize;
        i += 1;
    }
    let mut q1 = q::readonly::<W32>();
    let mut n = 0;
    for (e, x) in w.s.entity_component_query_iter(&list[..len], &mut q1).with_entities() {
        let h = w.who(e);
        check(h & w.matching(A) != 0, 21);
        check(x.same(w.val_of(h, 0)), 22);
        // the next one of the list that matches
        let (mut before, mut ok) = (0, false);
        let mut i = 0;
        while i < len {
            let m = w.who(list[i]) & w.matching(A) != 0;
            ok |= m & (before == n) & (list[i].id() == e.id()) & (list[i].version() == e.version());
            before += m as usize;
            i += 1;
        }
        check(ok, 23);
        n += 1;
    }
    check(n == want, 24);
    emit(n as u64);
    cover(1);
}
