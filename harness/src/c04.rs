//! Component sets after arbitrary adds and removes on one entity among others.
use crate::sx::*;
use crate::world::*;
use division_ecs::*;

pub fn sets<X: Val, Y: Val, Z: Val>(start: &[usize], steps: usize) {
    let mut w = World::<X, Y, Z>::new(4);
    let mut i = 0;
    while i < start.len() {
        if start[i] == 0 { w.create(); } else { w.create_with(start[i]); }
        i += 1;
    }
    let mut k = 0;
    while k < steps {
        let i = choose(w.n);
        let op = choose(14);
        if op < 7 { w.add(i, op + 1); } else { w.remove(i, op - 6); }
        w.verify();
        k += 1;
    }
    w.emit_all();
    cover(1);
}

/// a component that is not part of World's three: tuples of four and five
pub fn wide(steps: usize) {
    let mut s = Store::with_capacity(2);
    let o = s.create_entity();
    s.add_components(o, (W8(1), W16(2), W32(3), W64(4), Odd([5, 6, 7])));
    let e = s.create_entity();
    let mut has = [false; 5];
    let mut val = [0u32; 5];
    let mut k = 0;
    while k < steps {
        let v = [any_u32(), any_u32(), any_u32(), any_u32(), any_u32()];
        let m: usize = match choose(10) {
            0 => { s.add_components(e, (W16::mk(v[1]), Odd::mk(v[4]), W8::mk(v[0]), W64::mk(v[3]))); 0b11011 }
            1 => { s.add_components(e, (W64::mk(v[3]), W32::mk(v[2]), W16::mk(v[1]), W8::mk(v[0]))); 0b01111 }
            2 => { s.add_components(e, (Odd::mk(v[4]), W64::mk(v[3]))); 0b11000 }
            3 => { s.add_components(e, (W8::mk(v[0]), W32::mk(v[2]))); 0b00101 }
            4 => { s.add_components(e, W16::mk(v[1])); 0b00010 }
            5 => { s.remove_components::<(W8, W16, W64)>(e); 0b01011 << 8 }
            6 => { s.remove_components::<(Odd, W32)>(e); 0b10100 << 8 }
            7 => { s.remove_components::<W64>(e); 0b01000 << 8 }
            8 => { s.remove_components::<(W64, Odd, W8, W32)>(e); 0b11101 << 8 }
            _ => { s.remove_components::<(W16, W32)>(e); 0b00110 << 8 }
        };
        let mut i = 0;
        while i < 5 {
            if m >> i & 1 != 0 { has[i] = true; val[i] = v[i]; }
            if m >> 8 >> i & 1 != 0 { has[i] = false; }
            i += 1;
        }
        match s.get_components_refs::<W8>(e) { Some(r) => { check(has[0], 11); check(r.same(val[0]), 12) } None => check(!has[0], 13) }
        match s.get_components_refs::<W16>(e) { Some(r) => { check(has[1], 14); check(r.same(val[1]), 15) } None => check(!has[1], 16) }
        match s.get_components_refs::<W32>(e) { Some(r) => { check(has[2], 17); check(r.same(val[2]), 18) } None => check(!has[2], 19) }
        match s.get_components_refs::<W64>(e) { Some(r) => { check(has[3], 20); check(r.same(val[3]), 21) } None => check(!has[3], 22) }
        match s.get_components_refs::<Odd>(e) { Some(r) => { check(has[4], 23); check(r.same(val[4]), 24) } None => check(!has[4], 25) }
        match s.get_components_refs::<(W64, W8, Odd)>(e) {
            Some((a, b, c)) => { check(has[3] & has[0] & has[4], 26); check(a.same(val[3]) & b.same(val[0]) & c.same(val[4]), 27) }
            None => check(!(has[3] & has[0] & has[4]), 28),
        }
        let n = has[0] as usize + has[1] as usize + has[2] as usize + has[3] as usize + has[4] as usize;
        match s.get_entity_archetype(e) { Some(a) => check(a.component_count() == n, 29), None => check(n == 0, 30) }
        match s.get_components_refs::<(W8, W16, W32, W64, Odd)>(o) {
            Some((a, b, c, d, f)) => check(a.same(1) & b.same(2) & c.same(3) & (d.0 == 4) & (f.0[0] == 5) & (f.0[1] == 6) & (f.0[2] == 7), 31),
            None => check(false, 32),
        }
        emit(n as u64);
        k += 1;
    }
    cover(1);
}
