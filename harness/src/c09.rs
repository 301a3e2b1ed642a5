//! Tags.
use crate::sx::*;
use crate::world::*;
use division_ecs::*;

fn add(s: &mut Store, e: Entity, t: usize) { match t { 0 => s.add_tag::<T1>(e), 1 => s.add_tag::<T2>(e), _ => s.add_tag::<T3>(e) } }
fn rem(s: &mut Store, e: Entity, t: usize) { match t { 0 => s.remove_tag::<T1>(e), 1 => s.remove_tag::<T2>(e), _ => s.remove_tag::<T3>(e) } }
fn has(s: &Store, e: Entity, t: usize) -> bool { match t { 0 => s.has_tag::<T1>(e), 1 => s.has_tag::<T2>(e), _ => s.has_tag::<T3>(e) } }

pub fn history(cap: usize, pre: usize, watch: usize, tags: usize, steps: usize) {
    let mut s = Store::with_capacity(cap);
    let mut n = 0;
    let mut e = [Entity::null(); 72];
    let mut live = [false; 72];
    let mut t = [[false; 3]; 72];
    while n < pre { e[n] = s.create_entity(); live[n] = true; n += 1; }
    let lo = pre - watch;
    let mut k = 0;
    while k < steps {
        match choose(4) {
            0 => { e[n] = s.create_entity(); live[n] = true; n += 1; }
            1 => { let i = lo + choose(n - lo); if !live[i] { assume(false); } s.destroy_entity(e[i]); live[i] = false; t[i] = [false; 3]; }
            2 => { let i = lo + choose(n - lo); if !live[i] { assume(false); } let x = choose(tags); add(&mut s, e[i], x); t[i][x] = true; }
            _ => { let i = lo + choose(n - lo); if !live[i] { assume(false); } let x = choose(tags); rem(&mut s, e[i], x); t[i][x] = false; }
        }
        let mut i = 0;
        while i < n {
            if live[i] {
                let mut x = 0;
                while x < tags { check(has(&s, e[i], x) == t[i][x], 1 + x as u32); x += 1; }
            }
            i += 1;
        }
        k += 1;
    }
    let mut i = lo;
    while i < n { if live[i] { emit(has(&s, e[i], 0) as u64); } i += 1; }
    drop(s);
    cover(1);
}

/// Which entities are tagged is symbolic (a whole word of arbitrary choices), operands are symbolic.
pub fn symbolic(cap: usize, pre: usize, steps: usize, lo: usize) {
    let mut s = Store::with_capacity(cap);
    let mut e = [Entity::null(); 80];
    let mut t = [[false; 2]; 80];
    let mut n = 0;
    while n < pre { e[n] = s.create_entity(); n += 1; }
    merge_loads(true);
    let mut k = 0;
    while k < steps {
        let op = choose(5);
        if op == 4 { e[n] = s.create_entity(); n += 1; } else {
            let i = lo + pick(n - lo);
            match op {
                0 => { s.add_tag::<T1>(e[i]); t[i][0] = true; }
                1 => { s.remove_tag::<T1>(e[i]); t[i][0] = false; }
                2 => { s.add_tag::<T2>(e[i]); t[i][1] = true; }
                _ => { s.remove_tag::<T2>(e[i]); t[i][1] = false; }
            }
        }
        k += 1;
    }
    let i = lo + pick(n - lo);
    let (a, b) = (s.has_tag::<T1>(e[i]), s.has_tag::<T2>(e[i]));
    check(a == t[i][0], 11);
    check(b == t[i][1], 12);
    check(!s.has_tag::<T3>(e[i]), 13);
    emit(a as u64);
    emit(b as u64);
    cover(1);
}
