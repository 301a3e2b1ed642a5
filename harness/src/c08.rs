//! Tag-filtered queries.
use crate::sx::*;
use crate::world::*;
use division_ecs::*;
use division_ecs::query::component as q;

fn run<T: Tag>(w: &World<W32, W64, W8>, tagged: &[bool; MAXE], base: u32) {
    let mut q1 = q::readonly::<W32>();
    let mut seen = [0u32; MAXE];
    for (e, x) in w.s.component_query_iter(&mut q1).with_entities().filter_tag::<T>() {
        let mut i = 0;
        while i < w.n && !(w.live[i] && w.e[i] == e) { i += 1; }
        check(i < w.n, base);
        if i >= w.n { assume(false); }
        seen[i] += 1;
        check(x.same(w.val[i][0]), base + 1);
        emit(i as u64);
    }
    let mut i = 0;
    while i < w.n { check(seen[i] == (w.live[i] & (w.has[i] & A != 0) & tagged[i]) as u32, base + 2); i += 1; }
}

pub fn history(cap: usize, masks: &[usize], count: usize, steps: usize) {
    let mut w = World::<W32, W64, W8>::new(cap);
    let mut t = [[false; MAXE]; 2];
    let mut i = 0;
    while i < count { let m = masks[choose(masks.len())]; if m == 0 { w.create(); } else { w.create_with(m); } i += 1; }
    let mut k = 0;
    while k < steps {
        let op = choose(7);
        let i = w.some_live();
        match op {
            0 => { w.s.add_tag::<T1>(w.e[i]); t[0][i] = true; }
            1 => { w.s.remove_tag::<T1>(w.e[i]); t[0][i] = false; }
            2 => { w.s.add_tag::<T2>(w.e[i]); t[1][i] = true; }
            3 => { w.destroy(i); t[0][i] = false; t[1][i] = false; }
            4 => { w.create_with(A); }
            5 => w.add(i, A),
            _ => w.remove(i, B),
        }
        run::<T1>(&w, &t[0], 10);
        run::<T2>(&w, &t[1], 20);
        run::<T3>(&w, &[false; MAXE], 30);
        k += 1;
    }
    cover(1);
}

/// Any subset of many entities tagged: the subset is one symbolic word.
pub fn symbolic(pre: usize, count: usize) {
    let mut s = Store::with_capacity(pre + count);
    let a = Archetype::with_components::<W32>();
    let mut e = [Entity::null(); 16];
    let mut i = 0;
    while i < pre { s.create_entity(); i += 1; }
    let bits = any_u32();
    let mut i = 0;
    while i < count {
        e[i] = s.create_entity_with_archetype(&a);
        if let Some(r) = s.get_components_refs_mut::<W32>(e[i]) { r.0 = i as u32; }
        if bits >> i & 1 != 0 { s.add_tag::<T1>(e[i]); }
        i += 1;
    }
    let mut got = 0u32;
    let mut q1 = q::readonly::<W32>();
    for (x, v) in s.component_query_iter(&mut q1).with_entities().filter_tag::<T1>() {
        let i = v.0 as usize;
        check(i < count, 41);
        if i >= count { assume(false); }
        check(x == e[i], 42);
        check(got >> i & 1 == 0, 43);
        got |= 1 << i;
    }
    check(got == bits & ((1 << count) - 1), 44);
    emit(got as u64);
    cover(1);
}

/// Long runs of untagged entities in front of a tagged one (and none at all).
pub fn long(count: usize) {
    let mut s = Store::with_capacity(count);
    let a = Archetype::with_components::<W32>();
    let k = choose(3);
    let mut e = Entity::null();
    let mut i = 0;
    while i < count { let x = s.create_entity_with_archetype(&a); if i == 0 || k != 0 { e = x; } i += 1; }
    if k != 2 { s.add_tag::<T1>(e); } else { s.add_tag::<T1>(e); s.remove_tag::<T1>(e); }
    let mut q1 = q::write::<W32>();
    let mut n = 0;
    for (x, _) in s.component_query_iter(&mut q1).with_entities().filter_tag::<T1>() { check(x == e, 51); n += 1; }
    check(n == (k != 2) as u32, 52);
    emit(n as u64);
    cover(1);
}

/// Several pages and archetypes, several tags: the filter against the tags, whatever the pattern.
pub fn pages<X: Val, Y: Val>(n: usize, steps: usize) {
    use crate::tags::table;
    allow_millions(20);
    let t = table();
    let mut w = crate::scale::Pop::<X, Y>::new(3, n + steps);
    let a = Archetype::with_components::<X>();
    let b = Archetype::with_components::<(X, Y)>();
    let c = Archetype::with_components::<Y>();
    let mix = choose(3);
    let mut i = 0;
    while i < n {
        match (mix * i) % 5 % 3 { 0 => w.create(Some(&a), 1, i as u32), 1 => w.create(Some(&b), 3, i as u32), _ => w.create(Some(&c), 2, i as u32) };
        i += 1;
    }
    // tag j: one pattern each; the last one on nobody
    let pat = choose(5);
    let mut has: Vec<u32> = vec![0; n + steps];
    let mut i = 0;
    while i < n {
        let bits = [i % 2 == 0, i < n / 2, i % 7 == 6 || i == n - 1, i != n / 3, false];
        let mut j = 0;
        while j < 5 { if bits[(j + pat) % 5] { (t[j].add)(&mut w.s, w.e[i]); has[i] |= 1 << j; } j += 1; }
        i += 1;
    }
    let mut k = 0;
    while k <= steps {
        filtered::<X, Y, crate::tags::G<0>>(&w, &has, &t);
        filtered::<X, Y, crate::tags::G<1>>(&w, &has, &t);
        filtered::<X, Y, crate::tags::G<2>>(&w, &has, &t);
        filtered::<X, Y, crate::tags::G<3>>(&w, &has, &t);
        filtered::<X, Y, crate::tags::G<4>>(&w, &has, &t);
        if k < steps {
            let i = place(n, &[32]);
            if !w.live[i] { assume(false); }
            match choose(4) {
                0 => { w.destroy(i); has[i] = 0; }
                1 => { w.destroy(i); has[i] = 0; w.create(Some(&b), 3, 555); }
                2 => { let j = choose(5); if has[i] >> j & 1 != 0 { (t[j].rem)(&mut w.s, w.e[i]); } else { (t[j].add)(&mut w.s, w.e[i]); } has[i] ^= 1 << j; }
                _ => { if w.has[i] & 1 != 0 { w.rem_x(i); } else { w.add_x(i); } }
            }
        }
        k += 1;
    }
    emit(n as u64);
    cover(1);
}
fn filtered<X: Val, Y: Val, T: Tag>(w: &crate::scale::Pop<X, Y>, has: &[u32], t: &[crate::tags::Tg]) {
    let id = core::any::TypeId::of::<T>();
    let mut j = 0;
    while t[j].id != id { j += 1; }
    let n = w.e.len();
    let mut by_id = vec![usize::MAX; w.s.entities_capacity()];
    let mut want = 0;
    let mut i = 0;
    while i < n { if w.live[i] { by_id[w.e[i].id() as usize] = i; want += (w.has[i] & 1 != 0 && has[i] >> j & 1 != 0) as usize; } i += 1; }
    let mut seen = vec![false; n];
    let mut q1 = q::readonly::<X>();
    let mut k = 0;
    for (e, x) in w.s.component_query_iter(&mut q1).with_entities().filter_tag::<T>() {
        let i = by_id[e.id() as usize];
        check(i < n, 61);
        check((w.e[i] == e) & (w.has[i] & 1 != 0) & (has[i] >> j & 1 != 0) & !seen[i], 62);
        check(x.same(w.x[i]), 63);
        seen[i] = true;
        k += 1;
    }
    check(k == want, 64);
}
