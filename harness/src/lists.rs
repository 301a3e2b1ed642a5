//! Ordered queries and entity-list queries over long sequences that wander over pages and archetypes.
use crate::scale::Pop;
use crate::sx::*;
use crate::world::*;
use division_ecs::*;
use division_ecs::query;

/// how a sequence of n entities wanders through the storage
fn walk(kind: usize, n: usize, i: usize) -> usize {
    match kind {
        0 => i,
        1 => n - 1 - i,
        2 => (i * 7 + 3) % n,                              // n not divisible by 7
        3 => if i < n / 2 { 2 * i } else { 2 * (i - n / 2) + 1 }, // n even
        _ => { let b = i / 4 * 4; if b + 4 <= n { b + 3 - i % 4 } else { i } } // runs of four, backwards
    }
}

pub fn long<X: Val, Y: Val>(n: usize, ordered: bool) {
    allow_millions(40);
    let mut w = Pop::<X, Y>::new(3, n + 4);
    let a = Archetype::with_components::<X>();
    let b = Archetype::with_components::<(X, Y)>();
    let c = Archetype::with_components::<Y>();
    let mix = choose(4);
    let v = any_u32();
    let mut i = 0;
    while i < n {
        let k = match mix { 0 => 0, 1 => i % 2, 2 => i / 5 % 3, _ => (i * 5) % 7 % 4 };
        match k { 0 => w.create(Some(&a), 1, v ^ i as u32), 1 => w.create(Some(&b), 3, v ^ i as u32), 2 => w.create(Some(&c), 2, v ^ i as u32), _ => w.create(None, 0, 0) };
        i += 1;
    }
    let kind = choose(5);
    let mut l: Vec<usize> = Vec::with_capacity(n + 4);
    let mut h: Vec<Entity> = Vec::with_capacity(n + 4);
    let mut i = 0;
    while i < n {
        let x = walk(kind, n, i);
        l.push(x);
        h.push(w.e[x]);
        if ordered { w.s.add_entity_order_by::<T1>(w.e[x]); }
        i += 1;
    }
    let mut o1 = query::ordered_component::readonly::<T1, X>();
    let mut o2 = query::ordered_component::read_write::<T1, Y, X>();
    let mut e1 = query::entity_component::readonly::<X>();
    let mut e2 = query::entity_component::read_write::<Y, X>();
    let mut r = 0;
    while r < 2 {
        // each the n-th matching one, with its own handle and value
        let mut x: Vec<usize> = Vec::with_capacity(n + 4);
        let mut y: Vec<usize> = Vec::with_capacity(n + 4);
        let mut i = 0;
        while i < l.len() { let j = l[i]; if w.live[j] { if w.has[j] & 1 != 0 { x.push(j); } if w.has[j] == 3 { y.push(j); } } i += 1; }
        let mut k = 0;
        macro_rules! each { ($it:expr, $x:ident, $id:expr, $p:pat, $same:expr) => {
            for (e, $p) in $it {
                check(k < $x.len(), $id);
                if k >= $x.len() { assume(false); }
                let i = $x[k];
                check(e == w.e[i], $id + 1);
                check($same(i), $id + 2);
                k += 1;
            }
            check(k == $x.len(), $id + 3);
            k = 0;
        } }
        if ordered {
            each!(w.s.ordered_query_iter(&mut o1).with_entities(), x, 10, q, |i: usize| q.same(w.x[i]));
            each!(w.s.ordered_query_iter(&mut o2).with_entities(), y, 20, (q, p), |i: usize| q.same(w.x[i]) & p.same(w.y[i]));
        } else {
            each!(w.s.entity_component_query_iter(&h, &mut e1).with_entities(), x, 30, q, |i: usize| q.same(w.x[i]));
            each!(w.s.entity_component_query_iter(&h, &mut e2).with_entities(), y, 40, (q, p), |i: usize| q.same(w.x[i]) & p.same(w.y[i]));
        }
        // one change at an interesting place
        if r == 0 {
            let i = place(n, &[4, 8, 16]);
            match choose(3) {
                0 => w.destroy(i),
                1 => { w.rem_x(i); w.add_y(i); }
                _ => {
                    // its id goes to another one, which is not in the sequence
                    w.destroy(i);
                    w.create(Some(&b), 3, 77);
                }
            }
        }
        k += 0 * k;
        r += 1;
    }
    w.verify();
    emit(w.e.len() as u64);
    cover(1);
}
