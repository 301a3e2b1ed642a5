//! Where the components of an entity lie in a data page.
use crate::sx::*;
use crate::world::*;
use division_ecs::*;
use division_ecs::query;

/// every size (symbolic), alignments one path each
#[cfg(division_verif)]
pub fn layout(count: usize, aligns: &[u32]) {
    const PAGE: usize = Store::data_page_size();
    let mut t = [(0usize, 1usize); 6];
    let mut refusable = false;
    let mut i = 0;
    while i < count {
        let k = aligns[choose(aligns.len())];
        let size = ((any_u32() & (0x7fff >> k)) as usize) << k;
        t[i] = (size, 1 << k);
        refusable |= size > PAGE / count;
        i += 1;
    }
    let mut r = (0, Vec::new());
    let refused = panics(|| r = verif_hooks::page_layout(&t[..count]));
    if refused { check(refusable, 1); emit(1); cover(2); return; }
    let (cap, off) = r;
    check(cap >= 1, 2);
    check(off.len() == count, 3);
    check(cap <= 0x10000, 4);
    let mut i = 0;
    while i < count {
        let (size, align) = t[i];
        check(off[i] & (align - 1) == 0, 5);
        check((off[i] <= PAGE) & (size * cap <= PAGE), 6);
        check(off[i] + size * cap <= PAGE, 7);
        let mut j = 0;
        while j < i {
            let (sj, _) = t[j];
            check((off[i] + size * cap <= off[j]) | (off[j] + sj * cap <= off[i]) | (size == 0) | (sj == 0), 8);
            j += 1;
        }
        i += 1;
    }
    emit(0);
    cover(1);
}

fn addr<T>(r: &T) -> usize { r as *const T as usize }

/// concrete component types, `count` entities (more than a page holds): every component lies aligned in
/// storage of its own and keeps its value, also after entities are destroyed
pub fn shapes<X: Val, Y: Val, Z: Val>(count: usize, full: bool) {
    let mut w = World::<X, Y, Z>::new(count);
    let mut i = 0;
    while i < count { w.create_with(7); i += 1; }
    let mut x = [(0usize, 0usize); 3 * MAXE];
    let mut n = 0;
    let mut i = 0;
    while i < w.n {
        let e = w.e[i];
        if let Some((a, b, c)) = w.s.get_components_refs::<(X, Y, Z)>(e) {
            x[n] = (addr(a), core::mem::size_of::<X>());
            x[n + 1] = (addr(b), core::mem::size_of::<Y>());
            x[n + 2] = (addr(c), core::mem::size_of::<Z>());
            check(x[n].0 % core::mem::align_of::<X>() == 0, 21);
            check(x[n + 1].0 % core::mem::align_of::<Y>() == 0, 22);
            check(x[n + 2].0 % core::mem::align_of::<Z>() == 0, 23);
            n += 3;
        }
        i += 1;
    }
    check(n == 3 * count, 24);
    if full {
        let mut i = 0;
        while i < n {
            let mut j = 0;
            while j < i { check((x[i].0 + x[i].1 <= x[j].0) | (x[j].0 + x[j].1 <= x[i].0) | (x[i].1 == 0) | (x[j].1 == 0), 25); j += 1; }
            i += 1;
        }
    }
    w.verify();
    let d = w.some_live();
    w.destroy(d);
    w.verify();
    w.create_with(7);
    w.verify();
    let mut q = query::component::readonly::<(Z, Y, X)>();
    let mut k = 0;
    for _ in w.s.component_query_iter(&mut q) { k += 1; }
    check(k == count, 26);
    emit(k as u64);
    cover(1);
}

/// a set of components too large for a page, or aligned more strictly than a page, is refused and everything else stays as it
/// was: no entity comes into being, whichever id would have been next
pub fn too_large() {
    let mut w = World::<B5k, B4k, W8>::new(1 + choose(4));
    w.create_with(1);
    w.create_with(6);
    match choose(3) { 0 => w.destroy(0), 1 => w.destroy(1), _ => {} }
    let e = w.e[if w.live[0] { 0 } else { 1 }];
    let refused = match choose(4) {
        0 => panics(|| w.s.add_components(e, (Huge([1; 2800]), W16(3)))),
        1 => panics(|| { w.s.create_entity_with_archetype(&Archetype::with_components::<(Huge, W16)>()); }),
        // (only named, never on the stack: values aligned so strictly are miscompiled there)
        2 => panics(|| { w.s.create_entity_with_archetype(&Archetype::with_components::<(Al8k, W16)>()); }),
        _ => {
            let x = w.s.create_entity();
            let r = panics(|| w.s.add_components(x, (Huge([1; 2800]), Al64::mk(4))));
            check(w.s.is_alive(x), 32);
            check(w.s.get_components_refs::<Huge>(x).is_none(), 33);
            w.s.destroy_entity(x);
            r
        }
    };
    check(refused, 31);
    w.verify();
    w.verify_any();
    w.create_with(6);
    w.add(w.n - 1, 1);
    w.verify();
    w.verify_any();
    cover(1);
}
#[derive(Clone, Copy)]
#[repr(align(8192))]
pub struct Al8k(pub [u32; 2048]);
impl Component for Al8k {}
/// 11200 bytes: alone in a page, never together with another component
#[derive(Clone, Copy)]
pub struct Huge(pub [u32; 2800]);
impl Component for Huge {}
