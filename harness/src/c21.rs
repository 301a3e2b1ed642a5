//! Tuples of one to twelve component types.
use crate::sx::*;
use crate::wide::K;
use crate::world::{Val, T1, W16};
use division_ecs::*;
use division_ecs::query;

/// Every tuple length from one to twelve: added, read, queried, written, cloned, removed position by position.
macro_rules! arity {
    ($name:ident: $($t:ident $v:ident $n:tt),*) => {
        #[allow(unused_parens)]
        pub fn $name() {
            type Tup = ($(K<$n, 1>),*);
            let mut s = Store::with_capacity(2);
            let e = s.create_entity();
            let f = s.create_entity();
            $(let $v = any_u32();)*
            s.add_components(f, ($(K::<$n, 1>([100 + $n]) ),*));
            s.add_components(e, ($(K::<$n, 1>([$v]) ),*));
            // written through the handle of either one, kept symbolic
            merge_loads(true);
            let which = any_u32() & 1;
            let l = [e, f];
            match s.get_components_refs_mut::<Tup>(l[which as usize]) {
                Some(($($t),*)) => { $(check($t.0[0] == ($v & which.wrapping_sub(1)) | ((100 + $n) & 0u32.wrapping_sub(which)), 840 + $n); $t.0[0] ^= 1 << ($n + 16);)* }
                None => check(false, 860),
            }
            match s.get_components_refs_mut::<Tup>(e) {
                Some(($($t),*)) => { $(check($t.0[0] == $v ^ ((which ^ 1) << ($n + 16)), 870 + $n); $t.0[0] = $v;)* }
                None => check(false, 861),
            }
            match s.get_components_refs_mut::<Tup>(f) {
                Some(($($t),*)) => { $(check($t.0[0] == (100 + $n) ^ (which << ($n + 16)), 890 + $n); $t.0[0] = 100 + $n;)* }
                None => check(false, 862),
            }
            merge_loads(false);
            match s.get_components_refs::<Tup>(e) {
                Some(($($t),*)) => { $(check($t.0[0] == $v, 700 + $n);)* }
                None => check(false, 720),
            }
            $(match s.get_components_refs::<K<$n, 1>>(e) { Some(x) => check(x.0[0] == $v, 730 + $n), None => check(false, 721) })*
            if let Some(c) = s.get_components_refs::<Tup>(e) {
                let ($($t),*): Tup = c.cloned();
                $(check($t.0[0] == $v, 740 + $n);)*
            }
            match s.get_components_refs_mut::<Tup>(e) {
                Some(($($t),*)) => { $(check($t.0[0] == $v, 750 + $n); $t.0[0] = $v ^ (1 << $n);)* }
                None => check(false, 722),
            }
            $(match s.get_components_refs::<K<$n, 1>>(e) { Some(x) => check(x.0[0] == $v ^ (1 << $n), 760 + $n), None => check(false, 723) })*
            let mut q = query::component::readonly::<Tup>();
            let mut k = 0;
            for (x, ($($t),*)) in s.component_query_iter(&mut q).with_entities() {
                check((x == e) | (x == f), 724);
                if x == e { $(check($t.0[0] == $v ^ (1 << $n), 770 + $n);)* } else { $(check($t.0[0] == 100 + $n, 770 + $n);)* }
                k += 1;
            }
            check(k == 2, 725);
            let mut q = query::component::write::<Tup>();
            for (x, ($($t),*)) in s.component_query_iter(&mut q).with_entities() { if x == e { $($t.0[0] = $v;)* } }
            let l = [f, e];
            let mut q = query::entity_component::write::<Tup>();
            let mut k = 0;
            for (x, ($($t),*)) in s.entity_component_query_iter(&l, &mut q).with_entities() {
                check(x == l[k], 726);
                if k == 1 { $(check($t.0[0] == $v, 780 + $n); $t.0[0] = $v ^ 5;)* }
                k += 1;
            }
            check(k == 2, 727);
            s.add_entity_order_by::<T1>(e);
            let mut q = query::ordered_component::readonly::<T1, Tup>();
            let mut k = 0;
            for ($($t),*) in s.ordered_query_iter(&mut q) { $(check($t.0[0] == $v ^ 5, 790 + $n);)* k += 1; }
            check(k == 1, 728);
            let a = Archetype::with_components::<Tup>();
            match s.get_entity_archetype(e) { Some(b) => check(b.is_same_as(&a) & a.is_include(b) & b.is_include(&a), 729), None => check(false, 729) }
            $(check(a.has_component::<K<$n, 1>>(), 810);)*
            s.add_components(e, W16(77));
            s.remove_components::<Tup>(e);
            $(check(s.get_components_refs::<K<$n, 1>>(e).is_none(), 830);)*
            check(match s.get_components_refs::<W16>(e) { Some(x) => x.0 == 77, None => false }, 831);
            $(match s.get_components_refs::<K<$n, 1>>(f) { Some(x) => check(x.0[0] == 100 + $n, 832), None => check(false, 833) })*
            s.remove_components::<Tup>(f);
            check(!s.is_valid_entity_with_archetype(f) & s.is_alive(f), 834);
            emit(k as u64);
            cover(1);
        }
    };
}
arity!(t1: x0 v0 0);
arity!(t2: x0 v0 0, x1 v1 1);
arity!(t3: x0 v0 0, x1 v1 1, x2 v2 2);
arity!(t4: x0 v0 0, x1 v1 1, x2 v2 2, x3 v3 3);
arity!(t5: x0 v0 0, x1 v1 1, x2 v2 2, x3 v3 3, x4 v4 4);
arity!(t6: x0 v0 0, x1 v1 1, x2 v2 2, x3 v3 3, x4 v4 4, x5 v5 5);
arity!(t7: x0 v0 0, x1 v1 1, x2 v2 2, x3 v3 3, x4 v4 4, x5 v5 5, x6 v6 6);
arity!(t8: x0 v0 0, x1 v1 1, x2 v2 2, x3 v3 3, x4 v4 4, x5 v5 5, x6 v6 6, x7 v7 7);
arity!(t9: x0 v0 0, x1 v1 1, x2 v2 2, x3 v3 3, x4 v4 4, x5 v5 5, x6 v6 6, x7 v7 7, x8 v8 8);
arity!(t10: x0 v0 0, x1 v1 1, x2 v2 2, x3 v3 3, x4 v4 4, x5 v5 5, x6 v6 6, x7 v7 7, x8 v8 8, x9 v9 9);
arity!(t11: x0 v0 0, x1 v1 1, x2 v2 2, x3 v3 3, x4 v4 4, x5 v5 5, x6 v6 6, x7 v7 7, x8 v8 8, x9 v9 9, x10 v10 10);
arity!(t12: x0 v0 0, x1 v1 1, x2 v2 2, x3 v3 3, x4 v4 4, x5 v5 5, x6 v6 6, x7 v7 7, x8 v8 8, x9 v9 9, x10 v10 10, x11 v11 11);

pub fn all(lo: usize, hi: usize) {
    match lo + choose(hi - lo) {
        1 => t1(), 2 => t2(), 3 => t3(), 4 => t4(), 5 => t5(), 6 => t6(),
        7 => t7(), 8 => t8(), 9 => t9(), 10 => t10(), 11 => t11(), _ => t12(),
    }
}

/// The same with types of all sizes and alignments, among them some without data; in part already there, in part only there.
macro_rules! mixed {
    ($name:ident: $($x:ident $v:ident $n:tt $t:ty),*) => {
        #[allow(unused_parens)]
        pub fn $name() {
            type Tup = ($($t),*);
            type Other = crate::wide::K<77, 3>;
            const N: usize = 0 $(+ { let _ = $n; 1 })*;
            let mut s = Store::with_capacity(4);
            let e = s.create_entity();
            let f = s.create_entity();
            let g = s.create_entity();
            $(let $v = any_u32();)*
            let o = any_u32();
            // f has all; g another component and one of these; e whichever of these, or none
            s.add_components(f, ($(<$t>::mk(100 + $n)),*));
            s.add_components(g, Other::mk(o));
            let p = choose(N + 1);
            $(if p == $n { s.add_components(e, <$t>::mk(3)); s.add_components(g, <$t>::mk(200 + $n)); })*
            s.add_components(e, ($(<$t>::mk($v)),*));
            match s.get_components_refs::<Tup>(e) {
                Some(($($x),*)) => {
                    $(check($x.same($v), 900 + $n);)*
                    let ($($x),*): Tup = ($($x),*).cloned();
                    $(check($x.same($v), 920 + $n);)*
                }
                None => check(false, 700),
            }
            $(match s.get_components_refs::<$t>(e) { Some(x) => check(x.same($v), 940 + $n), None => check(false, 701) })*
            check(s.get_components_refs::<Tup>(g).is_none() | (N == 1 && p == 0), 702);
            $(check(s.get_components_refs::<$t>(g).is_some() == (p == $n), 703);)*
            // written through the tuple, through a query, through a list, through an order
            match s.get_components_refs_mut::<Tup>(e) {
                Some(($($x),*)) => { $(check($x.same($v), 960 + $n); *$x = <$t>::mk($v ^ 0x11);)* }
                None => check(false, 704),
            }
            let mut q = query::component::write::<Tup>();
            let mut k = 0;
            for (y, ($($x),*)) in s.component_query_iter(&mut q).with_entities() {
                if y == e { $(check($x.same($v ^ 0x11), 980 + $n); *$x = <$t>::mk($v ^ 0x12);)* k += 1; }
                if y == f { $(check($x.same(100 + $n), 1000 + $n);)* k += 16; }
                if y == g { k += 256; }
            }
            check(k == 17 + if N == 1 && p == 0 { 256 } else { 0 }, 705);
            let l = [g, e, f];
            let mut q = query::entity_component::write::<Tup>();
            let mut k = 0;
            for (y, ($($x),*)) in s.entity_component_query_iter(&l, &mut q).with_entities() {
                if y == e { $(check($x.same($v ^ 0x12), 1020 + $n); *$x = <$t>::mk($v ^ 0x13);)* k += 1; }
                if y == f { $(check($x.same(100 + $n), 1040 + $n);)* k += 16; }
            }
            check(k == 17, 706);
            s.add_entity_order_by::<T1>(f);
            s.add_entity_order_by::<T1>(g);
            s.add_entity_order_by::<T1>(e);
            let mut q = query::ordered_component::write::<T1, Tup>();
            let mut k = 0;
            for (y, ($($x),*)) in s.ordered_query_iter(&mut q).with_entities() {
                if y == e { $(check($x.same($v ^ 0x13), 1060 + $n); *$x = <$t>::mk($v ^ 0x14);)* k += 1; }
                if y == f { $(check($x.same(100 + $n), 1080 + $n);)* k += 16; }
            }
            check(k == 17, 707);
            let mut q = query::component::read_write::<Other, Tup>();
            check(s.component_query_iter(&mut q).count() == (N == 1 && p == 0) as usize, 708);
            // taken from those that have all and from those that have one, or none
            s.add_components(e, Other::mk(o ^ 1));
            let first = choose(2);
            let mut i = 0;
            while i < 2 { if i == first { s.remove_components::<Tup>(e); } else { s.remove_components::<Tup>(g); } i += 1; }
            $(check(s.get_components_refs::<$t>(e).is_none() & s.get_components_refs::<$t>(g).is_none(), 709);)*
            match s.get_components_refs::<Other>(e) { Some(x) => check(x.same(o ^ 1), 710), None => check(false, 711) }
            match s.get_components_refs::<Other>(g) { Some(x) => check(x.same(o), 712), None => check(false, 713) }
            $(match s.get_components_refs::<$t>(f) { Some(x) => check(x.same(100 + $n), 1100 + $n), None => check(false, 714) })*
            match s.get_entity_archetype(g) { Some(a) => check(a.component_count() == 1, 715), None => check(false, 716) }
            emit(p as u64);
            cover(1);
        }
    };
}
use crate::world::{Al32, Bytes3, Empty, Empty16, Odd, W32, W64, W8};
mixed!(m1: x0 v0 0 Empty);
mixed!(m2: x0 v0 0 W64, x1 v1 1 W8);
mixed!(m3: x0 v0 0 Odd, x1 v1 1 Empty16, x2 v2 2 W16);
mixed!(m4: x0 v0 0 W8, x1 v1 1 Al32, x2 v2 2 Bytes3, x3 v3 3 W64);
mixed!(m5: x0 v0 0 Empty, x1 v1 1 K<9, 5>, x2 v2 2 W8, x3 v3 3 W64, x4 v4 4 Bytes3);
mixed!(m6: x0 v0 0 W16, x1 v1 1 W32, x2 v2 2 Empty, x3 v3 3 Odd, x4 v4 4 W8, x5 v5 5 Al32);
mixed!(m7: x0 v0 0 W64, x1 v1 1 W8, x2 v2 2 W32, x3 v3 3 Bytes3, x4 v4 4 K<8, 9>, x5 v5 5 Empty16, x6 v6 6 W16);
mixed!(m8: x0 v0 0 Bytes3, x1 v1 1 W64, x2 v2 2 K<7, 2>, x3 v3 3 W16, x4 v4 4 Odd, x5 v5 5 W8, x6 v6 6 Al32, x7 v7 7 W32);
mixed!(m9: x0 v0 0 W32, x1 v1 1 Empty, x2 v2 2 W8, x3 v3 3 K<6, 3>, x4 v4 4 W64, x5 v5 5 Odd, x6 v6 6 W16, x7 v7 7 Bytes3, x8 v8 8 K<5, 1>);
mixed!(m10: x0 v0 0 K<4, 7>, x1 v1 1 W8, x2 v2 2 W64, x3 v3 3 Empty16, x4 v4 4 W16, x5 v5 5 Al32, x6 v6 6 Bytes3, x7 v7 7 W32, x8 v8 8 Odd, x9 v9 9 K<3, 2>);
mixed!(m11: x0 v0 0 Al32, x1 v1 1 K<2, 1>, x2 v2 2 W8, x3 v3 3 Odd, x4 v4 4 W32, x5 v5 5 W64, x6 v6 6 Bytes3, x7 v7 7 Empty, x8 v8 8 W16, x9 v9 9 K<1, 4>, x10 v10 10 K<11, 2>);
mixed!(m12: x0 v0 0 W8, x1 v1 1 W16, x2 v2 2 W32, x3 v3 3 W64, x4 v4 4 Odd, x5 v5 5 Bytes3, x6 v6 6 Al32, x7 v7 7 Empty16, x8 v8 8 K<12, 3>, x9 v9 9 K<13, 1>, x10 v10 10 K<14, 6>, x11 v11 11 Empty);

pub fn all_mixed() {
    match choose(12) {
        1 => m1(), 2 => m2(), 3 => m3(), 4 => m4(), 5 => m5(), 6 => m6(),
        7 => m7(), 8 => m8(), 9 => m9(), 10 => m10(), 11 => m11(), _ => m12(),
    }
}
