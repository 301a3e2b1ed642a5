//! Order groups: operations that make no sense are refused and leave the group as it was.
use crate::c10::*;
use crate::sx::*;
use crate::world::*;
use division_ecs::*;

pub fn history(pre: usize, steps: usize) {
    let mut s = Store::with_capacity(8);
    let mut e = [Entity::null(); N];
    let mut live = [false; N];
    let mut n = 0;
    while n < pre { e[n] = s.create_entity(); live[n] = true; n += 1; }
    let mut l = List::new();
    let mut k = 0;
    while k < steps {
        let op = choose(5);
        let x = choose(n);
        let y = if op == 1 || op == 2 { choose(n) } else { 0 };
        let mut refused = false;
        match op {
            0 => {
                let valid = live[x] && l.find(x).is_none();
                refused = panics(|| s.add_entity_order_by::<T1>(e[x]));
                if valid { check(!refused, 1); let k = l.n; l.insert(k, x); }
            }
            1 | 2 => {
                let valid = live[x] && live[y] && x != y && l.find(x).is_none() && l.find(y).is_some();
                refused = panics(|| if op == 1 { s.add_entity_next_to_order_by::<T1>(e[x], e[y]) } else { s.add_entity_previous_to_order_by::<T1>(e[x], e[y]) });
                if valid { check(!refused, 2); let p = l.find(y).unwrap(); l.insert(if op == 1 { p + 1 } else { p }, x); }
            }
            3 => { let p = panics(|| s.remove_entity_order_by::<T1>(e[x])); if live[x] { check(!p, 3); l.remove(x); } }
            _ => { if !live[x] || n >= N { assume(false); } s.destroy_entity(e[x]); live[x] = false; l.remove(x); if choose(2) == 0 { e[n] = s.create_entity(); live[n] = true; n += 1; } }
        }
        emit(refused as u64);
        verify::<T1>(&s, &e, &live, n, &l, 10);
        k += 1;
    }
    cover(1);
}

/// any operands, valid or not, kept symbolic; one of the entities is dead
pub fn symbolic(count: usize, joined: usize, steps: usize) {
    let mut s = Store::with_capacity(count);
    let mut e = [Entity::null(); N];
    let mut i = 0;
    while i < count { let x = s.create_entity(); check((x.id() as usize) < count, 40); e[x.id() as usize] = x; i += 1; }
    let mut a = [0usize; N];
    let mut n = 0;
    while n < joined { s.add_entity_order_by::<T1>(e[n]); a[n] = n; n += 1; }
    let dead = count - 1;
    s.destroy_entity(e[dead]);
    merge_loads(true);
    let mut k = 0;
    while k < steps {
        let op = choose(4);
        let x = pick(count);
        let y = if op == 1 || op == 2 { pick(count) } else { 0 };
        let (mut at, mut to) = (n, n);
        let mut i = 0;
        while i < n { at = sel(a[i] == x, i, at); to = sel(a[i] == y, i, to); i += 1; }
        let p = match op {
            0 => panics(|| s.add_entity_order_by::<T1>(e[x])),
            1 => panics(|| s.add_entity_next_to_order_by::<T1>(e[x], e[y])),
            2 => panics(|| s.add_entity_previous_to_order_by::<T1>(e[x], e[y])),
            _ => panics(|| s.remove_entity_order_by::<T1>(e[x])),
        };
        let live = x != dead;
        let valid = match op { 0 => live & (at == n), 3 => live & (at < n), _ => live & (at == n) & (to < n) };
        check(!(valid & p), 41);
        if valid {
            if op == 3 {
                let mut i = 0;
                while i + 1 < n { a[i] = sel(i >= at, a[i + 1], a[i]); i += 1; }
                n -= 1;
            } else {
                let pos = match op { 0 => n, 1 => to + 1, _ => to };
                let mut i = n;
                while i > 0 { a[i] = sel(i > pos, a[i - 1], sel(i == pos, x, a[i])); i -= 1; }
                a[0] = sel(pos == 0, x, a[0]);
                n += 1;
            }
        }
        k += 1;
    }
    let f = s.get_first_entity_ordered_by::<T1>();
    let l = s.get_last_entity_ordered_by::<T1>();
    if n == 0 { check(f.is_none() & l.is_none(), 42); } else {
        check(match f { Some(g) => (g.id() as usize == a[0]) & (a[0] != dead), None => false }, 43);
        check(match l { Some(g) => g.id() as usize == a[n - 1], None => false }, 44);
    }
    let x = pick(count);
    assume(x != dead);
    let (mut nx, mut pv) = (count, count);
    let mut i = 0;
    while i < n {
        if i + 1 < n { nx = sel(a[i] == x, a[i + 1], nx); }
        if i > 0 { pv = sel(a[i] == x, a[i - 1], pv); }
        i += 1;
    }
    let g = match s.get_next_entity_ordered_by::<T1>(e[x]) { Some(g) => g.id() as usize, None => count };
    let h = match s.get_previous_entity_ordered_by::<T1>(e[x]) { Some(h) => h.id() as usize, None => count };
    check(g == nx, 45);
    check(h == pv, 46);
    emit(g as u64);
    emit(h as u64);
    cover(1);
}
