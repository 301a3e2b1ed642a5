//! Order groups: valid operations behave like list operations.
use crate::sx::*;
use crate::world::*;
use division_ecs::*;

pub const N: usize = 8;
#[derive(Clone, Copy)]
pub struct List { pub a: [usize; N], pub n: usize }
impl List {
    pub fn new() -> Self { List { a: [0; N], n: 0 } }
    pub fn find(&self, x: usize) -> Option<usize> { let mut i = 0; while i < self.n { if self.a[i] == x { return Some(i); } i += 1; } None }
    pub fn insert(&mut self, at: usize, x: usize) { let mut i = self.n; while i > at { self.a[i] = self.a[i - 1]; i -= 1; } self.a[at] = x; self.n += 1; }
    pub fn remove(&mut self, x: usize) { if let Some(p) = self.find(x) { let mut i = p; while i + 1 < self.n { self.a[i] = self.a[i + 1]; i += 1; } self.n -= 1; } }
}

pub fn verify<T: Tag>(s: &Store, e: &[Entity], live: &[bool], n: usize, l: &List, base: u32) {
    match s.get_first_entity_ordered_by::<T>() { Some(x) => { check(l.n > 0, base); if l.n > 0 { check(x == e[l.a[0]], base + 1) } } None => check(l.n == 0, base + 2) }
    match s.get_last_entity_ordered_by::<T>() { Some(x) => { check(l.n > 0, base + 3); if l.n > 0 { check(x == e[l.a[l.n - 1]], base + 4) } } None => check(l.n == 0, base + 5) }
    let mut i = 0;
    while i < n {
        if live[i] {
            let p = l.find(i);
            let nx = match p { Some(p) if p + 1 < l.n => Some(e[l.a[p + 1]]), _ => None };
            let pv = match p { Some(p) if p > 0 => Some(e[l.a[p - 1]]), _ => None };
            check(s.get_next_entity_ordered_by::<T>(e[i]) == nx, base + 6);
            check(s.get_previous_entity_ordered_by::<T>(e[i]) == pv, base + 7);
        }
        i += 1;
    }
}

pub fn act<T: Tag>(s: &mut Store, e: &[Entity], live: &[bool], n: usize, l: &mut List, kind: usize) {
    let x = choose(n);
    if !live[x] { assume(false); }
    match kind {
        0 => { if l.find(x).is_some() { assume(false); } s.add_entity_order_by::<T>(e[x]); let k = l.n; l.insert(k, x); }
        1 | 2 => {
            if l.find(x).is_some() || l.n == 0 { assume(false); }
            let p = choose(l.n);
            let y = l.a[p];
            if kind == 1 { s.add_entity_next_to_order_by::<T>(e[x], e[y]); l.insert(p + 1, x); } else { s.add_entity_previous_to_order_by::<T>(e[x], e[y]); l.insert(p, x); }
        }
        _ => { s.remove_entity_order_by::<T>(e[x]); l.remove(x); }
    }
}

pub fn history(cap: usize, pre: usize, steps: usize, two: bool, lifecycle: bool) {
    let mut s = Store::with_capacity(cap);
    let mut e = [Entity::null(); N];
    let mut live = [false; N];
    let mut n = 0;
    while n < pre { e[n] = s.create_entity(); live[n] = true; n += 1; }
    let (mut l1, mut l2) = (List::new(), List::new());
    let mut k = 0;
    while k < steps {
        let op = choose(4 + if two { 4 } else { 0 } + if lifecycle { 2 } else { 0 });
        let base = if two { 8 } else { 4 };
        if op < 4 { act::<T1>(&mut s, &e, &live, n, &mut l1, op); }
        else if two && op < 8 { act::<T2>(&mut s, &e, &live, n, &mut l2, op - 4); }
        else if op == base { if n >= N { assume(false); } e[n] = s.create_entity(); live[n] = true; n += 1; }
        else { let x = choose(n); if !live[x] { assume(false); } s.destroy_entity(e[x]); live[x] = false; l1.remove(x); l2.remove(x); }
        verify::<T1>(&s, &e, &live, n, &l1, 10);
        verify::<T2>(&s, &e, &live, n, &l2, 20);
        check(s.get_first_entity_ordered_by::<T3>().is_none() & s.get_last_entity_ordered_by::<T3>().is_none(), 30);
        k += 1;
    }
    emit(l1.n as u64);
    let mut i = 0;
    while i < l1.n { emit(l1.a[i] as u64); i += 1; }
    drop(s);
    cover(1);
}

/// The same with symbolic operands: which entity, and where it goes, stays symbolic.
pub fn symbolic(count: usize, steps: usize) {
    let mut s = Store::with_capacity(count);
    let mut e = [Entity::null(); N];
    let mut i = 0;
    while i < count { let x = s.create_entity(); check((x.id() as usize) < count, 40); e[x.id() as usize] = x; i += 1; }
    let mut a = [0usize; N];
    let mut n = 0;
    merge_loads(true);
    let mut k = 0;
    while k < steps {
        let op = choose(4);
        let x = pick(count);
        let mut at = n; // position of x, n when absent
        let mut i = 0;
        while i < n { at = sel(a[i] == x, i, at); i += 1; }
        if op == 3 {
            if n == 0 { assume(false); }
            assume(at < n);
            s.remove_entity_order_by::<T1>(e[x]);
            let mut i = 0;
            while i + 1 < n { a[i] = sel(i >= at, a[i + 1], a[i]); i += 1; }
            n -= 1;
        } else {
            if n >= count { assume(false); }
            assume(at == n);
            let mut pos = n;
            if op == 0 { s.add_entity_order_by::<T1>(e[x]); } else {
                if n == 0 { assume(false); }
                let p = pick(n);
                let y = a[p];
                if op == 1 { s.add_entity_next_to_order_by::<T1>(e[x], e[y]); pos = p + 1; } else { s.add_entity_previous_to_order_by::<T1>(e[x], e[y]); pos = p; }
            }
            let mut i = n;
            while i > 0 { a[i] = sel(i > pos, a[i - 1], sel(i == pos, x, a[i])); i -= 1; }
            a[0] = sel(pos == 0, x, a[0]);
            n += 1;
        }
        k += 1;
    }
    let f = s.get_first_entity_ordered_by::<T1>();
    let l = s.get_last_entity_ordered_by::<T1>();
    if n == 0 { check(f.is_none() & l.is_none(), 41); } else {
        check(f == Some(e[a[0]]), 42);
        check(l == Some(e[a[n - 1]]), 43);
    }
    // an arbitrary entity's neighbours, by id (count = none)
    let x = pick(count);
    let (mut nx, mut pv) = (count, count);
    let mut i = 0;
    while i < n {
        if i + 1 < n { nx = sel(a[i] == x, a[i + 1], nx); }
        if i > 0 { pv = sel(a[i] == x, a[i - 1], pv); }
        i += 1;
    }
    let g = match s.get_next_entity_ordered_by::<T1>(e[x]) { Some(g) => g.id() as usize, None => count };
    let h = match s.get_previous_entity_ordered_by::<T1>(e[x]) { Some(h) => h.id() as usize, None => count };
    check(g == nx, 44);
    check(h == pv, 45);
    emit(g as u64);
    emit(h as u64);
    cover(1);
}
