//! Growing the store changes nothing that was there.
use crate::sx::*;
use crate::world::*;
use division_ecs::*;

pub fn growth(caps: &[usize], rounds: usize) {
    // 0: whatever a new store starts with
    let cap = caps[choose(caps.len())];
    let mut s = if cap == 0 { Store::new() } else { Store::with_capacity(cap) };
    let cap = if cap == 0 { s.entities_capacity() } else { cap };
    if cap == 0 || cap > 100 { return; }
    let mut e = [Entity::null(); 300];
    let mut n = 0;
    while n < cap { e[n] = s.create_entity(); n += 1; }
    check(s.entities_capacity() >= cap, 1);
    // the watched entities: the first and the last ones of the initial capacity, in arbitrary states
    let watch = [0, cap / 2, cap - 1];
    let mut val = [0u32; 3];
    let mut kind = [0usize; 3];
    let mut i = 0;
    while i < 3 {
        let x = e[watch[i]];
        if i == 0 || watch[i] != watch[i - 1] {
            kind[i] = choose(4);
            val[i] = any_u32();
            match kind[i] {
                0 => {}
                1 => s.add_components(x, W32(val[i])),
                2 => { s.add_tag::<T1>(x); s.add_entity_order_by::<T1>(x); }
                _ => { s.add_components(x, (W32(val[i]), W8(3))); s.add_tag::<T2>(x); s.add_entity_order_by::<T1>(x); }
            }
        } else { kind[i] = 9; }
        i += 1;
    }
    let mut r = 0;
    while r < rounds {
        let c = s.entities_capacity();
        while n <= c { e[n] = s.create_entity(); n += 1; }
        check(s.entities_capacity() >= n, 2);
        r += 1;
    }
    let mut prev = None;
    let mut i = 0;
    while i < 3 {
        let x = e[watch[i]];
        let k = kind[i];
        if k != 9 {
            check(s.is_alive(x), 3);
            check(s.has_tag::<T1>(x) == (k == 2), 4);
            check(s.has_tag::<T2>(x) == (k == 3), 5);
            match s.get_components_refs::<W32>(x) { Some(v) => { check(k & 1 == 1, 6); check(v.0 == val[i], 7) } None => check(k & 1 == 0, 8) }
            match s.get_components_refs::<W8>(x) { Some(v) => check((k == 3) & (v.0 == 3), 9), None => check(k != 3, 10) }
            if k >= 2 {
                check(s.get_previous_entity_ordered_by::<T1>(x) == prev, 11);
                if let Some(p) = prev { check(s.get_next_entity_ordered_by::<T1>(p) == Some(x), 12); } else { check(s.get_first_entity_ordered_by::<T1>() == Some(x), 13); }
                prev = Some(x);
            } else { check((s.get_previous_entity_ordered_by::<T1>(x) == None) & (s.get_next_entity_ordered_by::<T1>(x) == None), 14); }
        }
        i += 1;
    }
    check(s.get_last_entity_ordered_by::<T1>() == prev, 15);
    // newcomers start blank, whatever their id
    let mut i = cap;
    while i < n {
        let x = e[i];
        check(s.is_alive(x) & !s.is_valid_entity_with_archetype(x) & !s.has_tag::<T1>(x) & !s.has_tag::<T2>(x), 16);
        check((s.get_previous_entity_ordered_by::<T1>(x) == None) & (s.get_next_entity_ordered_by::<T1>(x) == None), 17);
        i += 1;
    }
    // any handle whatsoever
    merge_loads(true);
    let f = forge(any_u32(), any_u32());
    assume((f.id() as usize) < s.entities_capacity());
    let a = s.is_alive(f);
    let mut known = false;
    let mut i = 0;
    while i < n { known |= (f.id() == e[i].id()) & (f.version() == e[i].version()); i += 1; }
    check(a == known, 18);
    emit(n as u64);
    cover(1);
}

/// from one entity to hundreds: every entity gets its state when it is created and keeps it through every growth
pub fn long(cap: usize, n: usize) {
    allow_millions(60);
    let mut s = Store::with_capacity(cap);
    let a = Archetype::with_components::<(W32, W8)>();
    let shift = choose(5);
    let base = any_u32();
    let mut e: Vec<Entity> = Vec::with_capacity(n);
    let mut gone: Vec<Entity> = Vec::new();
    let kind = |i: usize| (i + shift) % 5;
    let mut i = 0;
    while i < n {
        let before = s.entities_capacity();
        // created by any of the creating operations
        let x = if kind(i) == 1 { s.create_entity_with_archetype(&a) } else { s.create_entity() };
        let grown = s.entities_capacity() != before;
        check(s.entities_capacity() > i, 21);
        if kind(i) != 1 { check(!s.is_valid_entity_with_archetype(x), 22); }
        check(!s.has_tag::<T1>(x) & !s.has_tag::<T2>(x), 23);
        check(s.get_previous_entity_ordered_by::<T1>(x).is_none() & s.get_next_entity_ordered_by::<T1>(x).is_none(), 24);
        match kind(i) {
            0 => s.add_components(x, W32(base ^ i as u32)),
            1 => { if let Some((p, q)) = s.get_components_refs_mut::<(W32, W8)>(x) { p.0 = base ^ i as u32; q.0 = i as u8; } }
            2 => { s.add_tag::<T1>(x); s.add_entity_order_by::<T1>(x); }
            3 => { s.add_tag::<T2>(x); s.add_components(x, W8(i as u8)); s.add_entity_order_by::<T1>(x); }
            _ => { s.add_tag::<T1>(x); s.add_tag::<T2>(x); }
        }
        e.push(x);
        i += 1;
        if grown || i == n || gone.len() == 0 && i == n / 2 {
            let mut prev: Option<Entity> = None;
            let mut j = 0;
            while j < i {
                let (x, k) = (e[j], kind(j));
                check(s.is_alive(x), 25);
                check(s.has_tag::<T1>(x) == (k == 2 || k == 4), 26);
                check(s.has_tag::<T2>(x) == (k == 3 || k == 4), 27);
                match s.get_components_refs::<W32>(x) { Some(v) => { check(k < 2, 28); check(v.0 == base ^ j as u32, 29) } None => check(k >= 2, 30) }
                match s.get_components_refs::<W8>(x) { Some(v) => check((k == 1 || k == 3) & (v.0 == j as u8), 31), None => check(k != 1 && k != 3, 32) }
                if k == 2 || k == 3 { check(s.get_previous_entity_ordered_by::<T1>(x) == prev, 33); if let Some(p) = prev { check(s.get_next_entity_ordered_by::<T1>(p) == Some(x), 34); } prev = Some(x); }
                else { check(s.get_previous_entity_ordered_by::<T1>(x).is_none() & s.get_next_entity_ordered_by::<T1>(x).is_none(), 35); }
                j += 1;
            }
            check(s.get_last_entity_ordered_by::<T1>() == prev, 36);
        }
    }
    let _ = gone.pop();
    emit(s.entities_capacity() as u64);
    cover(1);
}

/// Which entities have what stays symbolic; then the store grows once or more.
pub fn symbolic(cap: usize, more: usize) {
    let mut s = Store::with_capacity(cap);
    let mut e = [Entity::null(); 80];
    let mut i = 0;
    while i < cap { e[i] = s.create_entity(); i += 1; }
    merge_loads(true);
    let at = |i: usize| if cap < 5 { i } else if i < 2 { i * (cap / 2 - 1) } else { cap - 4 + i };
    let few = if cap < 4 { cap } else { 4 };
    let one = || { let i = pick(few); let mut x = at(0); let mut j = 1; while j < few { x = sel(i == j, at(j), x); j += 1; } x };
    let (t, o, p, c) = (one(), one(), one(), one());
    assume(o != p);
    let v = any_u32();
    s.add_tag::<T1>(e[t]);
    s.add_entity_order_by::<T2>(e[o]);
    s.add_entity_next_to_order_by::<T2>(e[p], e[o]);
    s.add_components(e[c], W32(v));
    let d = choose(3);
    if d == 1 { s.destroy_entity(e[t]); }
    let mut i = cap;
    while i < cap + more { e[i] = s.create_entity(); i += 1; }
    let n = cap + more;
    let x = { let i = pick(few + more); let mut x = at(0); let mut j = 1; while j < few + more { x = sel(i == j, if j < few { at(j) } else { cap + j - few }, x); j += 1; } x };
    let dead = (d == 1) & (x == t);
    check(s.is_alive(e[x]) == !dead, 41);
    check(s.has_tag::<T1>(e[x]) == ((x == t) & (d != 1)), 42);
    check(!s.has_tag::<T2>(e[x]), 43);
    if d != 1 {
        check(match s.get_next_entity_ordered_by::<T2>(e[x]) { Some(g) => (x == o) & (g == e[p]), None => x != o }, 44);
        check(match s.get_previous_entity_ordered_by::<T2>(e[x]) { Some(g) => (x == p) & (g == e[o]), None => x != p }, 45);
        match s.get_components_refs::<W32>(e[x]) { Some(r) => { check(x == c, 46); check(r.0 == v, 47) } None => check(x != c, 48) }
    }
    emit(n as u64);
    cover(1);
}
