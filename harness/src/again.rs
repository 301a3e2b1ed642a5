//! The same query objects before and after several changes, nothing asked in between: whatever an object remembers from
//! its last use (a list of pages, a count, an order, a list of handles) has to be of no consequence.
use crate::sx::*;
use crate::world::*;
use division_ecs::*;
use division_ecs::query;

type W = World<W32, W64, W8>;

struct Model { w: W, tagged: usize, a: [usize; 8], n: usize }

impl Model {
    fn new(start: &[usize], cap: usize) -> Self {
        let mut w = W::new(cap);
        let mut i = 0;
        while i < start.len() { if start[i] == 0 { w.create(); } else { w.create_with(start[i]); } i += 1; }
        w.s.add_tag::<T1>(w.e[0]);
        w.s.add_tag::<T2>(w.e[1]);
        // last, first, second; the rest is in no order
        let mut a = [0; 8];
        let first = [start.len() - 1, 0, 1];
        let mut i = 0;
        while i < 3 { w.s.add_entity_order_by::<T1>(w.e[first[i]]); a[i] = first[i]; i += 1; }
        Model { w, tagged: 1, a, n: 3 }
    }
    fn leave(&mut self, p: usize) {
        let mut i = 0;
        while i + 1 < self.n { self.a[i] = sel(i >= p, self.a[i + 1], self.a[i]); i += 1; }
        self.n -= 1;
    }
    /// the ops are letters: what may happen to any live entity
    fn step(&mut self, ops: &[u8]) {
        merge_loads(true);
        match ops[choose(ops.len())] {
            b'c' => { self.w.create_with(A); }
            b'd' => { self.w.create_with(A | B); }
            b'D' => {
                let x = self.w.any_live();
                // a member leaves its order; the others are a case of their own
                if choose(2) == 0 {
                    if self.n == 0 { assume(false); }
                    let p = pick(self.n);
                    assume(self.a[p] == x);
                    self.leave(p);
                } else {
                    let mut i = 0;
                    while i < self.n { assume(self.a[i] != x); i += 1; }
                }
                self.w.destroy(x);
                self.tagged &= !(1 << x);
            }
            b'a' => { let x = self.w.any_live(); self.w.add(x, A); }
            b'b' => { let x = self.w.any_live(); self.w.add(x, B); }
            b'r' => { let x = self.w.any_live(); self.w.remove(x, A); }
            b't' => { let x = self.w.any_live(); self.w.s.add_tag::<T1>(self.w.e[x]); self.tagged |= 1 << x; }
            b'u' => { let x = self.w.any_live(); self.w.s.remove_tag::<T1>(self.w.e[x]); self.tagged &= !(1 << x); }
            b'l' => {
                if self.n == 0 { assume(false); }
                let p = pick(self.n);
                self.w.s.remove_entity_order_by::<T1>(self.w.e[self.a[p]]);
                self.leave(p);
            }
            op => {
                // at the end, next to or in front of a member
                let x = self.w.any_live();
                let mut i = 0;
                while i < self.n { assume(self.a[i] != x); i += 1; }
                let at = match op {
                    b'o' => { self.w.s.add_entity_order_by::<T1>(self.w.e[x]); self.n }
                    _ => {
                        if self.n == 0 { assume(false); }
                        let p = pick(self.n);
                        let y = self.w.e[self.a[p]];
                        if op == b'n' { self.w.s.add_entity_next_to_order_by::<T1>(self.w.e[x], y); p + 1 } else { self.w.s.add_entity_previous_to_order_by::<T1>(self.w.e[x], y); p }
                    }
                };
                let mut i = self.n;
                while i > 0 { self.a[i] = sel(i > at, self.a[i - 1], sel(i == at, x, self.a[i])); i -= 1; }
                self.a[0] = sel(at == 0, x, self.a[0]);
                self.n += 1;
            }
        }
        merge_loads(false);
    }
    #[cfg(feature = "c20")]
    fn in_order(&self) -> usize {
        let mut m = 0;
        let mut i = 0;
        while i < self.n { m |= 1 << self.a[i]; i += 1; }
        m
    }
}

/// C07
#[cfg(feature = "c07")]
pub fn queries(start: &[usize], cap: usize, ops: &[u8], steps: usize) {
    let mut m = Model::new(start, cap);
    let (mut q1, mut q2) = (query::component::readonly::<W32>(), query::component::read_write::<W8, W32>());
    m.w.queries_any(&mut q1, &mut q2);
    let mut k = 0;
    while k < steps { m.step(ops); k += 1; }
    m.w.queries_any(&mut q1, &mut q2);
    cover(1);
}

/// C08
#[cfg(feature = "c08")]
pub fn filtered(start: &[usize], cap: usize, ops: &[u8], steps: usize) {
    let mut m = Model::new(start, cap);
    let mut q1 = query::component::readonly::<W32>();
    let mut q2 = query::component::read_write::<W32, W64>();
    let mut k = 0;
    while k < 2 {
        merge_loads(true);
        // written through the filter: these and no others
        let want = m.w.matching(A | B) & m.tagged;
        let mut seen = 0;
        let v = any_u32();
        for (e, (x, y)) in m.w.s.component_query_iter(&mut q2).with_entities().filter_tag::<T1>() {
            let h = m.w.who(e);
            check((h & want != 0) & (seen & h == 0), 974);
            check(x.same(m.w.val_of(h, 0)) & y.same(m.w.val_of(h, 1)), 975);
            *y = W64::mk(v);
            seen |= h;
        }
        check(seen == want, 976);
        let mut i = 0;
        while i < m.w.n { m.w.val[i][1] = m.w.val[i][1] & !0u32.wrapping_sub((want >> i & 1) as u32) | v & 0u32.wrapping_sub((want >> i & 1) as u32); i += 1; }
        let want = m.w.matching(A) & m.tagged;
        let mut seen = 0;
        for (e, x) in m.w.s.component_query_iter(&mut q1).with_entities().filter_tag::<T1>() {
            let h = m.w.who(e);
            check((h & want != 0) & (seen & h == 0), 971);
            check(x.same(m.w.val_of(h, 0)), 972);
            seen |= h;
        }
        check(seen == want, 973);
        emit(seen as u64);
        if k == 0 { let mut k = 0; while k < steps { m.step(ops); k += 1; } }
        k += 1;
    }
    m.w.verify_any();
    cover(1);
}

/// C11
#[cfg(feature = "c11")]
pub fn ordered(start: &[usize], cap: usize, ops: &[u8], steps: usize) {
    let mut m = Model::new(start, cap);
    let (mut q1, mut q2) = (query::ordered_component::readonly::<T1, W32>(), query::ordered_component::read_write::<T1, W32, W64>());
    merge_loads(true);
    crate::c11::queries_sym(&m.w, &m.a, m.n, &mut q1, &mut q2);
    let mut k = 0;
    while k < steps { m.step(ops); k += 1; }
    merge_loads(true);
    crate::c11::queries_sym(&m.w, &m.a, m.n, &mut q1, &mut q2);
    cover(1);
}

/// C12: the list stays where it is; what it lists may change too
#[cfg(feature = "c12")]
pub fn listed(start: &[usize], cap: usize, ops: &[u8], steps: usize) {
    let mut m = Model::new(start, cap);
    let mut q1 = query::entity_component::readonly::<W32>();
    let mut list = [m.w.e[0], m.w.e[2], m.w.e[1], m.w.e[2]];
    let mut round = 0;
    while round < 2 {
        merge_loads(true);
        let mut want = 0;
        let mut i = 0;
        while i < 4 { want += (m.w.who(list[i]) & m.w.matching(A) != 0) as usize; i += 1; }
        let mut n = 0;
        for (e, x) in m.w.s.entity_component_query_iter(&list, &mut q1).with_entities() {
            let h = m.w.who(e);
            check(h & m.w.matching(A) != 0, 981);
            check(x.same(m.w.val_of(h, 0)), 982);
            let (mut before, mut ok) = (0, false);
            let mut i = 0;
            while i < 4 {
                let f = m.w.who(list[i]) & m.w.matching(A) != 0;
                ok |= f & (before == n) & (list[i].id() == e.id()) & (list[i].version() == e.version());
                before += f as usize;
                i += 1;
            }
            check(ok, 983);
            n += 1;
        }
        check(n == want, 984);
        emit(n as u64);
        if round == 0 {
            let mut k = 0;
            while k < steps { m.step(ops); k += 1; }
            match choose(3) { 0 => {} 1 => list[3] = m.w.e[m.w.n - 1], _ => { let x = list[0]; list[0] = list[1]; list[1] = x; } }
        }
        round += 1;
    }
    cover(1);
}

/// C20
#[cfg(feature = "c20")]
pub fn lengths(start: &[usize], cap: usize, ops: &[u8], steps: usize) {
    let mut m = Model::new(start, cap);
    let mut q1 = query::component::readonly::<W32>();
    let mut q2 = query::component::read_write::<W32, W64>();
    let mut q3 = query::ordered_component::readonly::<T1, W32>();
    let mut q4 = query::ordered_component::write::<T1, (W64, W32)>();
    let mut round = 0;
    while round < 2 {
        merge_loads(true);
        let (a, ab, o) = (m.w.matching(A), m.w.matching(A | B), m.in_order());
        crate::c20::exact(m.w.s.component_query_iter(&mut q1), count(a), 210);
        crate::c20::exact(m.w.s.component_query_iter(&mut q2), count(ab), 220);
        crate::c20::exact(m.w.s.ordered_query_iter(&mut q3), count(a & o), 230);
        crate::c20::exact(m.w.s.ordered_query_iter(&mut q4), count(ab & o), 240);
        if round == 0 { let mut k = 0; while k < steps { m.step(ops); k += 1; } }
        round += 1;
    }
    emit(m.n as u64);
    cover(1);
}
#[cfg(feature = "c20")]
fn count(m: usize) -> usize {
    let mut c = 0;
    let mut i = 0;
    while i < 16 { c += m >> i & 1; i += 1; }
    c
}

/// Handles asked for, or a filter put on, in the middle of an iteration: the rest follows, and after the end nothing more.
struct Mid<X: Val> { s: Store, e: [Entity; 16], n: usize, p: core::marker::PhantomData<X> }
impl<X: Val> Mid<X> {
    /// some have X, some another component too, some neither
    fn new(n: usize, mix: usize) -> Self {
        let mut s = Store::with_capacity(3);
        age(&mut s, 3);
        let mut e = [Entity::null(); 16];
        let mut i = 0;
        while i < n {
            e[i] = s.create_entity();
            if (mix + i) % 5 != 4 { s.add_components(e[i], X::mk(i as u32)); }
            if (mix * i) % 3 == 1 { s.add_components(e[i], W8(1)); }
            i += 1;
        }
        Mid { s, e, n, p: core::marker::PhantomData }
    }
    fn all(&self) -> usize {
        let mut m = 0;
        let mut i = 0;
        while i < self.n { if self.s.get_components_refs::<X>(self.e[i]).is_some() { m |= 1 << i; } i += 1; }
        m
    }
    /// which one an item is: its value tells
    fn item(&self, x: &X) -> usize { let i = x.val() as usize; check((i < self.n) & x.same(i as u32), 985); if i >= self.n { assume(false); } i }
    fn pair(&self, y: (Entity, &X)) -> usize { let i = self.item(y.1); check(y.0 == self.e[i], 986); i }
    /// what is left, in whatever order, taken in whatever way
    fn rest<I: Iterator>(&self, mut it: I, get: impl Fn(I::Item) -> usize, mut seen: usize, want: usize) {
        let mut left = 0;
        let mut i = 0;
        while i < self.n { left += want >> i & !seen >> i & 1; i += 1; }
        let mut taken = 0;
        let mut one = |y: I::Item| { let i = get(y); check((want >> i & 1 == 1) & (seen >> i & 1 == 0), 987); seen |= 1 << i; taken += 1; };
        match choose(6) {
            5 => { while let Some(y) = it.nth(4) { one(y); } check(it.next().is_none(), 988); check(taken == left / 5, 996); }
            0 => { while let Some(y) = it.next() { one(y); } check(it.next().is_none() && it.next().is_none(), 988); check(taken == left, 996); }
            1 => { it.for_each(one); check(taken == left, 996); }
            2 => { while let Some(y) = it.nth(1) { one(y); } check(it.next().is_none(), 988); check(taken == left / 2, 996); }
            3 => check(it.count() == left, 996),
            _ => match it.last() { Some(y) => { one(y); check(left > 0, 996); } None => check(left == 0, 996) },
        }
        emit(left as u64);
        cover(1);
    }
    /// what is left, in this order, taken in whatever way
    fn seq<I: Iterator>(&self, mut it: I, get: impl Fn(I::Item) -> usize, want: &[usize], from: usize) {
        let mut at = from;
        let mut one = |y: I::Item, at: usize| { let i = get(y); check(at < want.len() && i == want[at], 992); if at >= want.len() { assume(false); } };
        match choose(6) {
            5 => { while let Some(y) = it.nth(4) { one(y, at + 4); at += 5; } check(it.next().is_none(), 995); check(at + 4 >= want.len(), 994); }
            0 => { while let Some(y) = it.next() { one(y, at); at += 1; } check(it.next().is_none() && it.next().is_none(), 995); check(at == want.len(), 994); }
            1 => { it.for_each(|y| { one(y, at); at += 1; }); check(at == want.len(), 994); }
            2 => { while let Some(y) = it.nth(1) { one(y, at + 1); at += 2; } check(it.next().is_none(), 995); check(at + 1 >= want.len(), 994); }
            3 => check(it.count() == want.len() - from, 994),
            _ => match it.last() { Some(y) => { check(from < want.len(), 994); one(y, want.len().wrapping_sub(1)); } None => check(from == want.len(), 994) },
        }
        emit(want.len() as u64);
        cover(1);
    }
}
#[cfg(feature = "c07")]
pub fn mid_query<X: Val>(n: usize, mixes: usize) {
    let m = Mid::<X>::new(n, choose(mixes));
    let mut q = query::component::readonly::<X>();
    let mut it = m.s.component_query_iter(&mut q);
    let (mut seen, mut k) = (0, choose(n + 1));
    while k > 0 { match it.next() { Some(x) => { let i = m.item(x); check(seen >> i & 1 == 0, 989); seen |= 1 << i; } None => break } k -= 1; }
    if choose(2) == 0 { m.rest(it.with_entities(), |y| m.pair(y), seen, m.all()); } else { m.rest(it, |x| m.item(x), seen, m.all()); }
}
#[cfg(feature = "c08")]
pub fn mid_filter<X: Val>(n: usize, mixes: usize) {
    let mut m = Mid::<X>::new(n, choose(mixes));
    let tagged = any_u32() as usize;
    let mut i = 0;
    while i < n { if tagged >> i & 1 == 1 { m.s.add_tag::<T1>(m.e[i]); } i += 1; }
    let mut q = query::component::readonly::<X>();
    let mut it = m.s.component_query_iter(&mut q);
    let (mut seen, mut k) = (0, choose(3));
    while k > 0 { match it.next() { Some(x) => seen |= 1 << m.item(x), None => break } k -= 1; }
    let mut it = it.with_entities();
    k = choose(n);
    while k > 0 { match it.next() { Some((_, x)) => seen |= 1 << m.item(x), None => break } k -= 1; }
    m.rest(it.filter_tag::<T1>(), |y| m.pair(y), 0, m.all() & !seen & tagged);
}
#[cfg(feature = "c11")]
pub fn mid_ordered<X: Val>(n: usize, mixes: usize) {
    let mut m = Mid::<X>::new(n, choose(mixes));
    let step = [1, 2, n - 1][choose(3)];
    let (mut want, mut order) = ([0; 16], 0);
    let all = m.all();
    let mut i = 0;
    while i < n {
        let x = (i * step + 1) % n;
        if m.s.get_next_entity_ordered_by::<T1>(m.e[x]).is_none() && m.s.get_last_entity_ordered_by::<T1>() != Some(m.e[x]) {
            m.s.add_entity_order_by::<T1>(m.e[x]);
            if all >> x & 1 == 1 { want[order] = x; order += 1; }
        }
        i += 1;
    }
    let mut q = query::ordered_component::readonly::<T1, X>();
    let mut it = m.s.ordered_query_iter(&mut q);
    let (mut at, k) = (0, choose(n + 1));
    while at < k { match it.next() { Some(x) => { check(at < order && m.item(x) == want[at], 990); at += 1; } None => { check(at == order, 991); break } } }
    if choose(2) == 0 { m.seq(it.with_entities(), |y| m.pair(y), &want[..order], at); } else { m.seq(it, |x| m.item(x), &want[..order], at); }
}
#[cfg(feature = "c12")]
pub fn mid_listed<X: Val>(n: usize, mixes: usize) {
    let mut m = Mid::<X>::new(n, choose(mixes));
    // backwards or in steps, somebody twice, somebody dead
    let step = [1, 2, n - 1][choose(3)];
    let dead = choose(n);
    let all = m.all() & !(1 << dead);
    m.s.destroy_entity(m.e[dead]);
    let mut list = [Entity::null(); 18];
    let (mut want, mut order) = ([0; 18], 0);
    let mut i = 0;
    while i < n + 2 { let x = (i * step + 1) % n; list[i] = m.e[x]; if all >> x & 1 == 1 { want[order] = x; order += 1; } i += 1; }
    let mut q = query::entity_component::readonly::<X>();
    let mut it = m.s.entity_component_query_iter(&list[..n + 2], &mut q);
    let (mut at, k) = (0, choose(n + 3));
    while at < k { match it.next() { Some(x) => { check(at < order && m.item(x) == want[at], 990); at += 1; } None => { check(at == order, 991); break } } }
    if choose(2) == 0 { m.seq(it.with_entities(), |y| m.pair(y), &want[..order], at); } else { m.seq(it, |x| m.item(x), &want[..order], at); }
}
/// what the other iterators say about their length is not wrong either
#[cfg(feature = "c20")]
pub fn hints<X: Val>(n: usize, mixes: usize) {
    let mut m = Mid::<X>::new(n, choose(mixes));
    let mut i = 0;
    while i < n { if i % 3 != 2 { m.s.add_entity_order_by::<T1>(m.e[n - 1 - i]); } if i % 4 == 1 { m.s.add_tag::<T1>(m.e[i]); } i += 1; }
    let skip = choose(3);
    let (mut q, mut o) = (query::component::readonly::<X>(), query::ordered_component::readonly::<T1, X>());
    let mut a = m.s.component_query_iter(&mut q);
    let mut b = m.s.ordered_query_iter(&mut o);
    let mut k = 0;
    while k < skip { a.next(); b.next(); k += 1; }
    match choose(3) {
        0 => { let k = a.len(); hinted(a.with_entities(), k) }
        1 => { let k = b.len(); hinted(b.with_entities(), k) }
        _ => {
            let mut p = query::component::readonly::<X>();
            let mut k = 0;
            let mut c = m.s.component_query_iter(&mut p).with_entities();
            let mut i = 0;
            while i < skip { c.next(); i += 1; }
            for (e, _) in c { k += m.s.has_tag::<T1>(e) as usize; }
            hinted(a.with_entities().filter_tag::<T1>(), k)
        }
    }
    cover(1);
}
#[cfg(feature = "c20")]
fn hinted<I: Iterator>(mut it: I, n: usize) {
    let mut k = 0;
    loop {
        let (lo, hi) = it.size_hint();
        check(lo <= n - k, 251);
        if let Some(h) = hi { check(h >= n - k, 252); }
        if it.next().is_none() { break; }
        k += 1;
        check(k <= n, 253);
        if k > n { assume(false); }
    }
    check(k == n, 254);
    emit(k as u64);
}
