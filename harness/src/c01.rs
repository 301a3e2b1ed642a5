use crate::sx::*;
use crate::world::forge;
use division_ecs::*;

/// Histories of create / destroy on a store of initial capacity `cap` with `pre` entities already created.
pub fn history(cap: usize, pre: usize, steps: usize) {
    let mut s = Store::with_capacity(cap);
    let mut issued: [Option<Entity>; 48] = [None; 48];
    let mut live = [false; 48];
    let mut n = 0;
    while n < pre {
        issued[n] = Some(s.create_entity());
        live[n] = true;
        n += 1;
    }
    let mut k = 0;
    while k < steps {
        // recent live handles are the candidates for destruction
        let lo = if pre > 4 { pre - 4 } else { 0 };
        let op = choose(1 + n - lo);
        if op == 0 {
            let e = s.create_entity();
            let mut i = 0;
            while i < n {
                if let Some(o) = issued[i] {
                    check(!(o.id() == e.id() && o.version() == e.version()), 1);
                    if live[i] { check(o.id() != e.id(), 2); }
                }
                i += 1;
            }
            issued[n] = Some(e);
            live[n] = true;
            n += 1;
        } else {
            let i = lo + op - 1;
            if !live[i] { assume(false); }
            s.destroy_entity(issued[i].unwrap());
            live[i] = false;
        }
        k += 1;
    }
    let mut i = 0;
    while i < n {
        let e = issued[i].unwrap();
        check(s.is_alive(e) == live[i], 3);
        emit(e.id() as u64);
        emit(e.version() as u64);
        i += 1;
    }
    // any handle whatsoever
    let id = any_u32();
    let ver = any_u32();
    assume((id as usize) < s.entities_capacity());
    merge_loads(true);
    let a = s.is_alive(forge(id, ver));
    let mut m = false;
    let mut i = 0;
    while i < n {
        let e = issued[i].unwrap();
        m |= live[i] & (e.id() == id) & (e.version() == ver);
        i += 1;
    }
    check(a == m, 4);
    emit(a as u64);
    merge_loads(false);
    drop(s);
    cover(1);
}
/// the destroyed entity is any live one, kept symbolic; `ops` fixes the kinds of the steps ('c', 'd' or '?')
pub fn sym(cap: usize, pre: usize, ops: &[u8]) {
    let steps = ops.len();
    let mut s = if cap == usize::MAX { Store::new() } else { Store::with_capacity(cap) };
    let mut issued: [Entity; 48] = [Entity::null(); 48];
    let mut live = [false; 48];
    let mut n = 0;
    while n < pre {
        issued[n] = s.create_entity();
        live[n] = true;
        n += 1;
    }
    merge_loads(true);
    let mut k = 0;
    while k < steps {
        if n == 0 || ops[k] == b'c' || (ops[k] == b'?' && choose(2) == 0) {
            let e = s.create_entity();
            let mut i = 0;
            while i < n {
                let o = issued[i];
                check(!((o.id() == e.id()) & (o.version() == e.version())), 1);
                check(!live[i] | (o.id() != e.id()), 2);
                i += 1;
            }
            issued[n] = e;
            live[n] = true;
            n += 1;
        } else {
            let i = pick(n);
            assume(live[i]);
            s.destroy_entity(issued[i]);
            live[i] = false;
        }
        k += 1;
    }
    let mut i = 0;
    while i < n {
        emit(issued[i].id() as u64);
        emit(issued[i].version() as u64);
        i += 1;
    }
    // any of the issued handles
    let i = pick(n);
    check(s.is_alive(issued[i]) == live[i], 3);
    let id = any_u32();
    let ver = any_u32();
    assume((id as usize) < s.entities_capacity());
    let a = s.is_alive(forge(id, ver));
    let mut m = false;
    let mut i = 0;
    while i < n {
        let e = issued[i];
        m |= live[i] & (e.id() == id) & (e.version() == ver);
        i += 1;
    }
    check(a == m, 4);
    emit(a as u64);
    drop(s);
    cover(1);
}

/// One id reused very often: the same handle never comes back, and no old handle is alive.
pub fn cycle(times: usize) {
    allow_millions(200);
    let mut s = Store::with_capacity(2);
    let a = s.create_entity();
    let mut b = s.create_entity();
    let c = if choose(2) == 0 { None } else { Some(s.create_entity()) };
    const N: usize = 20;
    let mut old = [Entity::null(); N];
    let mut n = 0;
    let mut k = 0;
    while k < times {
        // around the powers of two
        let at = k + 3;
        if n < N && (at & (at - 1) == 0 || (at - 1) & (at - 2) == 0 || (at > 5 && (at + 1) & at == 0)) { old[n] = b; n += 1; }
        s.destroy_entity(b);
        check(!s.is_alive(b), 21);
        let e = s.create_entity();
        check(e.id() != a.id(), 22);
        if let Some(c) = c { check(e.id() != c.id(), 23); }
        let mut i = 0;
        while i < n { check((e.id() != old[i].id()) | (e.version() != old[i].version()), 24); i += 1; }
        b = e;
        k += 1;
    }
    let mut i = 0;
    while i < n { check(!s.is_alive(old[i]), 25); i += 1; }
    check(s.is_alive(a) & s.is_alive(b), 26);
    emit(b.id() as u64);
    emit(b.version() as u64);
    cover(1);
}

/// However often an id was issued before (any number below 2^32 - 4), its next handles are new.
#[cfg(division_verif)]
pub fn versions(cap: usize, pre: usize) {
    let mut s = Store::with_capacity(cap);
    let mut e = [Entity::null(); 8];
    let mut i = 0;
    while i < pre { e[i] = s.create_entity(); i += 1; }
    let d = choose(pre);
    let issued = any_u32();
    assume(issued >= 1 && issued < u32::MAX - 4);
    merge_loads(true);
    s.destroy_entity(e[d]);
    // what destroying and creating this entity some more times would have led to
    division_ecs::verif_hooks::set_issued_count(&mut s, e[d].id(), issued);
    let old = any_u32();
    assume(old >= 1 && old <= issued);
    let o = forge(e[d].id(), old);
    check(!s.is_alive(o), 31);
    let mut prev = u32::MAX;
    let mut k = 0;
    while k < 3 {
        let x = s.create_entity();
        check(s.is_alive(x), 32);
        check(!s.is_alive(o), 33);
        check((x.id() != o.id()) | (x.version() != old), 34);
        check((x.id() != o.id()) | (x.version() != prev), 35);
        if x.id() == o.id() { prev = x.version(); }
        let mut i = 0;
        while i < pre { if i != d { check(s.is_alive(e[i]) & (e[i].id() != x.id()), 36); } i += 1; }
        emit(x.version() as u64);
        match choose(2) { 0 => { s.destroy_entity(x); check(!s.is_alive(x), 37); } _ => {} }
        k += 1;
    }
    cover(1);
}
