//! More entities than sixteen bits can count.
use crate::sx::*;
use crate::world::*;
use division_ecs::query::{component, entity_component, ordered_component};
use division_ecs::*;

pub const N: usize = 66_000;
const AT: [usize; 4] = [1, 32_768, 65_535, N - 1];

fn handles(s: &mut Store, bare: bool) -> Vec<Entity> {
    let a = Archetype::with_components::<W32>();
    let mut e = Vec::with_capacity(N + 8);
    let mut i = 0;
    while i < N { e.push(if bare { s.create_entity() } else { s.create_entity_with_archetype(&a) }); i += 1; }
    e
}
fn once(e: &[Entity]) {
    let mut used = vec![false; 2 * N];
    let mut i = 0;
    while i < e.len() { let id = e[i].id() as usize; check(id < 2 * N, 901); check(!used[id], 902); used[id] = true; i += 1; }
}

/// Handles alone: distinct, alive; some go, others come; capacity.
pub fn ids() {
    allow_millions(3000);
    let mut s = Store::with_capacity(if choose(2) == 0 { 1 } else { 65_536 });
    let mut e = handles(&mut s, true);
    once(&e);
    check(s.entities_capacity() >= N, 903);
    let mut i = 0;
    while i < N { check(s.is_alive(e[i]), 904); i += 1; }
    let x = AT[choose(4)];
    s.destroy_entity(e[x]);
    let more = s.create_entity();
    check(more != e[x], 905);
    let mut i = 0;
    while i < N { check(s.is_alive(e[i]) == (i != x), 906); i += 1; }
    e[x] = more;
    check(s.is_alive(more), 907);
    once(&e);
    // all of them, or most, go; as many come
    let bulk = if x == AT[0] { choose(4) } else { 0 };
    if bulk > 0 {
        let old = e.clone();
        let goes = |i: usize| match bulk { 1 => true, 2 => i % 2 == 0, _ => i > 300 };
        let mut k = 0;
        while k < N { let i = if bulk == 2 { N - 1 - k } else { k }; if goes(i) { s.destroy_entity(e[i]); } k += 1; }
        let mut i = 0;
        while i < N { check(s.is_alive(e[i]) == !goes(i), 908); i += 1; }
        let mut i = 0;
        while i < N { if goes(i) { e[i] = s.create_entity(); } i += 1; }
        once(&e);
        let mut i = 0;
        while i < N { check(s.is_alive(e[i]), 909); if goes(i) { check(!s.is_alive(old[i]), 910); } i += 1; }
        check(s.entities_capacity() <= 4 * N, 970);
    }
    emit(more.id() as u64);
    cover(1);
}

fn fill(s: &mut Store, e: &[Entity]) {
    let mut i = 0;
    while i < N { match s.get_components_refs_mut::<W32>(e[i]) { Some(r) => *r = W32::mk(i as u32), None => check(false, 911) } i += 1; }
}
fn values(s: &Store, e: &[Entity], not: usize) {
    let mut i = 0;
    while i < N { match s.get_components_refs::<W32>(e[i]) { Some(r) => { check(i != not, 912); check(r.val() == i as u32, 913) } None => check(i == not, 914) } i += 1; }
}

/// Values: one entity goes, or changes its components; all others keep theirs.
pub fn comps() {
    allow_millions(3000);
    let mut s = Store::with_capacity(3);
    let e = handles(&mut s, false);
    fill(&mut s, &e);
    let x = AT[choose(4)];
    let mut not = N;
    match choose(3) { 0 => { s.destroy_entity(e[x]); not = x; } 1 => { s.add_components(e[x], W8::mk(1)); } _ => { s.remove_components::<W32>(e[x]); not = x; } }
    values(&s, &e, not);
    // most of them go, others come into their places with other components
    let bulk = if x == AT[0] && not == N { choose(3) } else { 0 };
    if bulk > 0 {
        let goes = |i: usize| if bulk == 1 { i % 2 == 0 } else { i > 300 };
        let mut i = 0;
        while i < N { if goes(i) && s.is_alive(e[i]) { s.destroy_entity(e[i]); } i += 1; }
        let b = Archetype::with_components::<(W64, W8)>();
        let mut more = Vec::with_capacity(N);
        let mut i = 0;
        while i < N { if goes(i) { let x = s.create_entity_with_archetype(&b); match s.get_components_refs_mut::<W64>(x) { Some(r) => *r = W64::mk(!(i as u32)), None => check(false, 915) } more.push((i, x)); } i += 1; }
        let mut i = 0;
        while i < N { if !goes(i) { match s.get_components_refs::<W32>(e[i]) { Some(r) => check((i != not) & (r.val() == i as u32), 916), None => check(i == not, 917) } } else { check(s.get_components_refs::<W32>(e[i]).is_none(), 918); } i += 1; }
        let mut k = 0;
        while k < more.len() { let (i, x) = more[k]; match s.get_components_refs::<W64>(x) { Some(r) => check(r.same(!(i as u32)), 919), None => check(false, 920) } k += 1; }
    }
    emit(s.get_components_refs::<W32>(e[5]).unwrap().val() as u64);
    cover(1);
}

/// Queries by archetype: every entity once; the length counts down.
pub fn queries(with_tags: bool) {
    allow_millions(3000);
    let mut s = Store::with_capacity(4);
    let e = handles(&mut s, false);
    fill(&mut s, &e);
    let x = AT[choose(4)];
    let gone = choose(2) == 1;
    let third = choose(2) == 1;
    let tagged = |i: usize| if third { i % 3 == 1 } else { i == 2 || i == x };
    if with_tags { let mut i = 0; while i < N { if tagged(i) { s.add_tag::<T1>(e[i]); } i += 1; } }
    if gone { s.destroy_entity(e[x]); }
    let mut seen = vec![false; N];
    let mut q = component::readonly::<W32>();
    let mut c = 0;
    if with_tags {
        for (h, v) in s.component_query_iter(&mut q).with_entities().filter_tag::<T1>() {
            let i = v.val() as usize;
            check(i < N && !seen[i] && e[i] == h && tagged(i), 921);
            seen[i] = true;
            c += 1;
        }
        let mut want = 0;
        let mut i = 0;
        while i < N { if tagged(i) && !(gone && i == x) { want += 1; } check(s.has_tag::<T1>(e[i]) == (tagged(i) && !(gone && i == x)), 922); i += 1; }
        check(c == want, 923);
    } else {
        let want = N - gone as usize;
        let mut it = s.component_query_iter(&mut q).with_entities();
        while let Some((h, v)) = it.next() {
            let i = v.val() as usize;
            check(i < N && !seen[i] && e[i] == h && !(gone && i == x), 924);
            seen[i] = true;
            c += 1;
        }
        check(c == want, 925);
    }
    emit(c as u64);
    cover(1);
}
pub fn lengths() {
    allow_millions(3000);
    let mut s = Store::with_capacity(4);
    let e = handles(&mut s, false);
    let ordered = choose(2) == 1;
    let gone = choose(2) == 1;
    if ordered { let mut i = 0; while i < N { s.add_entity_order_by::<T1>(e[if gone { N - 1 - i } else { i }]); i += 1; } }
    if gone { s.destroy_entity(e[70]); }
    let n = N - gone as usize;
    let mut c = 0;
    if ordered {
        let mut q = ordered_component::readonly::<T1, W32>();
        let mut it = s.ordered_query_iter(&mut q);
        check(it.len() == n, 931);
        while it.next().is_some() { c += 1; check(it.len() == n - c, 932); }
        check(it.size_hint() == (0, Some(0)), 933);
    } else {
        let mut q = component::write::<W32>();
        let mut it = s.component_query_iter(&mut q);
        check(it.len() == n, 934);
        while it.next().is_some() { c += 1; check(it.len() == n - c, 935); }
        check(it.size_hint() == (0, Some(0)), 936);
    }
    check(c == n, 937);
    emit(c as u64);
    cover(1);
}

/// A list of all of them, one twice, one dead.
pub fn listed() {
    allow_millions(3000);
    let mut s = Store::with_capacity(5);
    let mut e = handles(&mut s, false);
    fill(&mut s, &e);
    let x = AT[choose(4)];
    let mut c = 0;
    s.destroy_entity(e[x]);
    if choose(2) == 1 { e.reverse(); }
    let first = e[0];
    e.push(first);
    let mut q = entity_component::readonly::<W32>();
    let mut k = 0;
    for (h, v) in s.entity_component_query_iter(&e, &mut q).with_entities() {
        while k < e.len() && e[k].id() as usize == x { k += 1; }
        check(k < e.len() && h == e[k] && v.val() == h.id(), 944);
        k += 1;
        c += 1;
    }
    // without the dead one, with the second appearance of the first one
    check(c == if first.id() as usize == x { N - 1 } else { N }, 945);
    emit(c as u64);
    cover(1);
}

/// All of them in a group, one leaves; the links, or the query in that order.
pub fn ordered(query: bool) {
    allow_millions(3000);
    let mut s = Store::with_capacity(5);
    let e = handles(&mut s, !query);
    if query { fill(&mut s, &e); }
    let x = AT[choose(4)];
    let mut i = 0;
    while i < N { s.add_entity_order_by::<T1>(e[i]); i += 1; }
    if choose(2) == 1 { s.destroy_entity(e[x]); } else { s.remove_entity_order_by::<T1>(e[x]); }
    let mut c = 0;
    let mut k = 0;
    if query {
        let mut q = ordered_component::readonly::<T1, W32>();
        for (h, v) in s.ordered_query_iter(&mut q).with_entities() {
            if k == x { k += 1; }
            check(k < N && h == e[k] && v.val() == k as u32, 943);
            k += 1;
            c += 1;
        }
        check(c == N - 1, 946);
    } else {
        let mut at = s.get_first_entity_ordered_by::<T1>();
        let mut last = None;
        while k < N {
            if k != x {
                check(at == Some(e[k]), 941);
                check(s.get_previous_entity_ordered_by::<T1>(e[k]) == last, 947);
                last = at;
                at = s.get_next_entity_ordered_by::<T1>(e[k]);
            }
            k += 1;
        }
        check(at.is_none() & (s.get_last_entity_ordered_by::<T1>() == last), 942);
    }
    emit(k as u64);
    cover(1);
}

/// A full store of 2^16 grows: components, tags and order stay.
pub fn growth() {
    const M: usize = 65_536;
    allow_millions(3000);
    let mut s = Store::with_capacity([M, 1][choose(2)]);
    let e: Vec<Entity> = (0..M).map(|_| s.create_entity()).collect();
    let at = [0, 1, 31, 32, 4095, 32_767, 32_768, M - 2, M - 1];
    let mut i = 0;
    while i < 9 { let x = e[at[i]]; s.add_components(x, W32::mk(i as u32)); s.add_entity_order_by::<T1>(x); if i % 2 == 0 { s.add_tag::<T1>(x); } i += 1; }
    check(s.entities_capacity() >= M, 961);
    let n = s.create_entity();
    check(s.entities_capacity() > M, 962);
    let mut i = 0;
    let mut l = s.get_first_entity_ordered_by::<T1>();
    while i < 9 {
        let x = e[at[i]];
        check(s.is_alive(x), 963);
        check(s.get_components_refs::<W32>(x).map(|v| v.val()) == Some(i as u32), 964);
        check(s.has_tag::<T1>(x) == (i % 2 == 0), 965);
        check(l == Some(x), 966);
        l = s.get_next_entity_ordered_by::<T1>(x);
        i += 1;
    }
    check(l.is_none(), 967);
    check(!s.has_tag::<T1>(n) & s.get_entity_archetype(n).is_none() & s.get_next_entity_ordered_by::<T1>(n).is_none() & s.get_previous_entity_ordered_by::<T1>(n).is_none(), 968);
    let mut i = 0;
    while i < M { check(s.is_alive(e[i]) & (e[i] != n), 969); i += 1; }
    emit(n.id() as u64);
    cover(1);
}

/// Resources.
pub fn resources() {
    allow_millions(3000);
    let mut s = if choose(2) == 0 { ResourceStore::<u32>::new() } else { ResourceStore::with_capacity(65_536) };
    let mut h = Vec::with_capacity(N);
    let mut i = 0;
    while i < N { h.push(s.create(i as u32)); i += 1; }
    once(&h);
    let x = AT[choose(4)];
    check(s.release(h[x]) == x as u32, 951);
    let mut i = 0;
    while i < N { if i != x { check(s[h[i]] == i as u32, 952); } i += 1; }
    check(panics(|| { let _ = s[h[x]]; }), 953);
    let n = s.create(77);
    check(s[n] == 77, 954);
    emit(n.id() as u64);
    cover(1);
}
