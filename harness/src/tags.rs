//! Worlds with many tags / order groups, arranged by their type ids, whatever ids the compiler gave them.
use crate::sx::*;
use crate::world::place;
use core::any::TypeId;
use division_ecs::*;

pub struct G<const N: usize>;
impl<const N: usize> Tag for G<N> {}

#[derive(Clone, Copy)]
pub struct Tg {
    pub id: TypeId,
    pub add: fn(&mut Store, Entity),
    pub rem: fn(&mut Store, Entity),
    pub has: fn(&Store, Entity) -> bool,
    pub append: fn(&mut Store, Entity),
    pub after: fn(&mut Store, Entity, Entity),
    pub before: fn(&mut Store, Entity, Entity),
    pub leave: fn(&mut Store, Entity),
    pub first: fn(&Store) -> Option<Entity>,
    pub last: fn(&Store) -> Option<Entity>,
    pub next: fn(&Store, Entity) -> Option<Entity>,
    pub prev: fn(&Store, Entity) -> Option<Entity>,
}
fn tg<T: Tag>() -> Tg {
    Tg {
        id: TypeId::of::<T>(),
        add: |s, e| s.add_tag::<T>(e),
        rem: |s, e| s.remove_tag::<T>(e),
        has: |s, e| s.has_tag::<T>(e),
        append: |s, e| s.add_entity_order_by::<T>(e),
        after: |s, e, a| s.add_entity_next_to_order_by::<T>(e, a),
        before: |s, e, a| s.add_entity_previous_to_order_by::<T>(e, a),
        leave: |s, e| s.remove_entity_order_by::<T>(e),
        first: |s| s.get_first_entity_ordered_by::<T>(),
        last: |s| s.get_last_entity_ordered_by::<T>(),
        next: |s, e| s.get_next_entity_ordered_by::<T>(e),
        prev: |s, e| s.get_previous_entity_ordered_by::<T>(e),
    }
}
pub const NT: usize = 5;
/// in the order of their ids
pub fn table() -> [Tg; NT] {
    let mut t = [tg::<G<0>>(), tg::<G<1>>(), tg::<G<2>>(), tg::<G<3>>(), tg::<G<4>>()];
    let mut i = 1;
    while i < NT {
        let mut j = i;
        while j > 0 && t[j].id < t[j - 1].id { t.swap(j, j - 1); j -= 1; }
        i += 1;
    }
    t
}
/// every order of k out of NT tags
pub fn permutation(k: usize) -> [usize; NT] {
    let mut p = [0, 1, 2, 3, 4];
    let mut i = 0;
    while i < k { let j = i + choose(NT - i); p.swap(i, j); i += 1; }
    p
}

/// `k` tags come into use in any order of their ids; tags, growth, removal, death, reuse
pub fn tags(k: usize, cap: usize, steps: usize) {
    let t = table();
    let p = permutation(k);
    let mut s = Store::with_capacity(cap);
    let mut e = [Entity::null(); 80];
    let mut live = [false; 80];
    let mut has = [[false; NT]; 80];
    let mut n = 0;
    while n < cap { e[n] = s.create_entity(); live[n] = true; n += 1; }
    // the j-th tag to come goes to the last entity and to every (j+2)-th
    let mut j = 0;
    while j < k {
        let mut i = 0;
        while i < n { if i == n - 1 || i % (j + 2) == 0 { (t[p[j]].add)(&mut s, e[i]); has[i][p[j]] = true; } i += 1; }
        j += 1;
    }
    let mut step = 0;
    while step < steps {
        match choose(4) {
            0 => { let c = s.entities_capacity(); while n <= c && n < 80 { e[n] = s.create_entity(); live[n] = true; n += 1; } }
            1 => { let i = place(cap, &[]); if !live[i] { assume(false); } s.destroy_entity(e[i]); live[i] = false; has[i] = [false; NT]; if n < 80 { e[n] = s.create_entity(); live[n] = true; n += 1; } }
            2 => { let i = place(cap, &[]); if !live[i] { assume(false); } let j = p[choose(k)]; (t[j].rem)(&mut s, e[i]); has[i][j] = false; }
            _ => { let i = place(cap, &[]); if !live[i] { assume(false); } let j = p[choose(k)]; (t[j].add)(&mut s, e[i]); has[i][j] = true; }
        }
        let mut i = 0;
        while i < n {
            let mut j = 0;
            while j < NT { check((t[j].has)(&s, e[i]) == (live[i] & has[i][j]), 501); j += 1; }
            i += 1;
        }
        step += 1;
    }
    emit(n as u64);
    drop(s);
    cover(1);
}

pub const NL: usize = 48;
#[derive(Clone, Copy)]
pub struct Seq { pub a: [usize; NL], pub n: usize }
impl Seq {
    pub fn new() -> Self { Seq { a: [0; NL], n: 0 } }
    pub fn find(&self, x: usize) -> Option<usize> { let mut i = 0; while i < self.n { if self.a[i] == x { return Some(i); } i += 1; } None }
    pub fn insert(&mut self, at: usize, x: usize) { let mut i = self.n; while i > at { self.a[i] = self.a[i - 1]; i -= 1; } self.a[at] = x; self.n += 1; }
    pub fn remove(&mut self, x: usize) { if let Some(p) = self.find(x) { let mut i = p; while i + 1 < self.n { self.a[i] = self.a[i + 1]; i += 1; } self.n -= 1; } }
}
fn agree(s: &Store, t: &Tg, e: &[Entity], live: &[bool], n: usize, l: &Seq) {
    let f = if l.n > 0 { Some(e[l.a[0]]) } else { None };
    let g = if l.n > 0 { Some(e[l.a[l.n - 1]]) } else { None };
    check((t.first)(s) == f, 511);
    check((t.last)(s) == g, 512);
    let mut i = 0;
    while i < n {
        if live[i] {
            let p = l.find(i);
            let nx = match p { Some(p) if p + 1 < l.n => Some(e[l.a[p + 1]]), _ => None };
            let pv = match p { Some(p) if p > 0 => Some(e[l.a[p - 1]]), _ => None };
            check((t.next)(s, e[i]) == nx, 513);
            check((t.prev)(s, e[i]) == pv, 514);
        }
        i += 1;
    }
}

/// `k` groups come into use in any order of their ids, with different lists of the same entities
pub fn groups(k: usize, cap: usize, count: usize, steps: usize) {
    let t = table();
    let p = permutation(k);
    let mut s = Store::with_capacity(cap);
    let mut e = [Entity::null(); 16];
    let mut live = [false; 16];
    let mut l = [Seq::new(); NT];
    let mut n = 0;
    while n < count { e[n] = s.create_entity(); live[n] = true; n += 1; }
    let mut j = 0;
    while j < k {
        let g = p[j];
        let mut i = 0;
        // the j-th group lacks entity j and is rotated by j
        while i < count { let x = (i + j) % count; if x != j || k == 1 { (t[g].append)(&mut s, e[x]); let at = l[g].n; l[g].insert(at, x); } i += 1; }
        j += 1;
    }
    let mut step = 0;
    while step < steps {
        match choose(5) {
            0 => { let c = s.entities_capacity(); while n <= c && n < 16 { e[n] = s.create_entity(); live[n] = true; n += 1; } }
            1 => { let i = choose(count); if !live[i] { assume(false); } s.destroy_entity(e[i]); live[i] = false; let mut j = 0; while j < NT { l[j].remove(i); j += 1; } if n < 16 { e[n] = s.create_entity(); live[n] = true; n += 1; } }
            2 => { let i = choose(count); if !live[i] { assume(false); } let g = p[choose(k)]; (t[g].leave)(&mut s, e[i]); l[g].remove(i); }
            3 => { let i = choose(count); let g = p[choose(k)]; if !live[i] || l[g].find(i).is_some() || l[g].n == 0 { assume(false); } let at = l[g].n - 1; let a = e[l[g].a[at]]; (t[g].before)(&mut s, e[i], a); l[g].insert(at, i); }
            _ => { let i = choose(n); let g = p[choose(k)]; if !live[i] || l[g].find(i).is_some() || l[g].n == 0 { assume(false); } let a = e[l[g].a[0]]; (t[g].after)(&mut s, e[i], a); l[g].insert(1, i); }
        }
        let mut j = 0;
        while j < NT { agree(&s, &t[j], &e, &live, n, &l[j]); j += 1; }
        step += 1;
    }
    emit(n as u64);
    drop(s);
    cover(1);
}

/// a group of many members, built while the store grows from nothing; then operations at its ends, its middle and
/// around the places where the store grew
pub fn long(count: usize, steps: usize) {
    let t = table();
    let g = t[choose(2) * (NT - 1)];
    let mut s = Store::with_capacity(1);
    let mut e = [Entity::null(); 48];
    let mut live = [false; 48];
    let mut l = Seq::new();
    let mut n = 0;
    let way = choose(3);
    while n < count {
        e[n] = s.create_entity();
        live[n] = true;
        if way == 0 || n == 0 { (g.append)(&mut s, e[n]); let at = l.n; l.insert(at, n); }
        else if way == 1 { let a = e[l.a[0]]; (g.before)(&mut s, e[n], a); l.insert(0, n); }
        else { let at = l.n / 2; let a = e[l.a[at]]; (g.after)(&mut s, e[n], a); l.insert(at + 1, n); }
        n += 1;
    }
    agree(&s, &g, &e, &live, n, &l);
    let mut k = 0;
    while k < steps {
        let at = place(l.n, &[2, 4, 8, 16, 32]);
        let x = l.a[at];
        match choose(4) {
            0 => { (g.leave)(&mut s, e[x]); l.remove(x); (g.append)(&mut s, e[x]); let z = l.n; l.insert(z, x); }
            1 => { s.destroy_entity(e[x]); live[x] = false; l.remove(x); if n < 48 { e[n] = s.create_entity(); live[n] = true; let a = e[l.a[0]]; (g.after)(&mut s, e[n], a); l.insert(1, n); n += 1; } }
            2 => { (g.leave)(&mut s, e[x]); l.remove(x); }
            _ => { let y = l.a[l.n - 1]; if y == x { assume(false); } (g.leave)(&mut s, e[y]); l.remove(y); (g.before)(&mut s, e[y], e[x]); let at = l.find(x).unwrap(); l.insert(at, y); }
        }
        agree(&s, &g, &e, &live, n, &l);
        k += 1;
    }
    emit(l.n as u64);
    cover(1);
}

pub const MANY: usize = 70;
macro_rules! table { ($($n:literal)*) => { [ $( tg::<G<$n>>() ),* ] } }
fn many() -> [Tg; MANY] { table!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36 37 38 39 40 41 42 43 44 45 46 47 48 49 50 51 52 53 54 55 56 57 58 59 60 61 62 63 64 65 66 67 68 69) }

/// Dozens of tags in use on `n` entities, in a pattern that differs per tag; then steps at places of interest.
pub fn many_tags(cap: usize, n: usize, steps: usize) {
    allow_millions(40);
    let t = many();
    let mut s = Store::with_capacity(cap);
    let mut e = [Entity::null(); 80];
    let mut live = [false; 80];
    let mut has = [0u128; 80];
    let late = choose(2) == 1;
    let mut c = 0;
    if !late { while c < n { e[c] = s.create_entity(); live[c] = true; c += 1; } }
    let mut j = 0;
    while j < MANY {
        if late { let mut k = 0; while c < n && k < 1 + n / MANY { e[c] = s.create_entity(); live[c] = true; c += 1; k += 1; } }
        let mut i = 0;
        while i < c { if (i * (j + 2) + j) % 3 == 0 { (t[j].add)(&mut s, e[i]); has[i] |= 1 << j; } i += 1; }
        j += 1;
    }
    let mut k = 0;
    while k < steps {
        let i = place(c, &[]);
        let j = [0, MANY / 2, MANY - 1, 31, 32, 63, 64][choose(7)];
        match choose(4) {
            0 => { if !live[i] { assume(false); } s.destroy_entity(e[i]); live[i] = false; has[i] = 0; e[c] = s.create_entity(); live[c] = true; c += 1; }
            1 => { if !live[i] { assume(false); } (t[j].rem)(&mut s, e[i]); has[i] &= !(1 << j); }
            2 => { if !live[i] { assume(false); } (t[j].add)(&mut s, e[i]); has[i] |= 1 << j; }
            _ => { let l = s.entities_capacity(); if l > 70 { assume(false); } while c <= l { e[c] = s.create_entity(); live[c] = true; c += 1; } }
        }
        let mut i = 0;
        while i < c {
            let mut j = 0;
            while j < MANY { check((t[j].has)(&s, e[i]) == (has[i] >> j & 1 != 0), 521); j += 1; }
            i += 1;
        }
        k += 1;
    }
    emit(c as u64);
    cover(1);
}

/// Dozens of groups with different lists of the same entities; then steps at places of interest.
pub fn many_groups(cap: usize, n: usize, steps: usize) {
    allow_millions(40);
    let t = many();
    let mut s = Store::with_capacity(cap);
    let mut e = [Entity::null(); 48];
    let mut live = [false; 48];
    let mut l = [Seq::new(); MANY];
    let mut c = 0;
    while c < n { e[c] = s.create_entity(); live[c] = true; c += 1; }
    let mut j = 0;
    while j < MANY {
        let mut i = 0;
        while i < n {
            let x = (i * 5 + j) % n;
            if (x + j) % 4 != 0 && l[j].find(x).is_none() {
                let at = if l[j].n == 0 { 0 } else { match j % 3 { 0 => l[j].n, 1 => 0, _ => 1 } };
                if at == l[j].n { (t[j].append)(&mut s, e[x]); } else if at == 0 { let a = e[l[j].a[0]]; (t[j].before)(&mut s, e[x], a); } else { let a = e[l[j].a[0]]; (t[j].after)(&mut s, e[x], a); }
                l[j].insert(at, x);
            }
            i += 1;
        }
        j += 1;
    }
    let mut k = 0;
    while k < steps {
        let i = choose(n);
        let j = [0, MANY / 2, MANY - 1, 31, 32, 63, 64][choose(7)];
        match choose(4) {
            0 => { if !live[i] { assume(false); } s.destroy_entity(e[i]); live[i] = false; let mut j = 0; while j < MANY { l[j].remove(i); j += 1; } e[c] = s.create_entity(); live[c] = true; c += 1; }
            1 => { if !live[i] { assume(false); } (t[j].leave)(&mut s, e[i]); l[j].remove(i); }
            2 => { if !live[i] || l[j].find(i).is_some() { assume(false); } (t[j].append)(&mut s, e[i]); let at = l[j].n; l[j].insert(at, i); }
            _ => { let z = s.entities_capacity(); if z > 40 { assume(false); } while c <= z { e[c] = s.create_entity(); live[c] = true; c += 1; } (t[j].append)(&mut s, e[c - 1]); let at = l[j].n; l[j].insert(at, c - 1); }
        }
        let mut j = 0;
        while j < MANY { agree(&s, &t[j], &e, &live, c, &l[j]); j += 1; }
        k += 1;
    }
    emit(c as u64);
    cover(1);
}

/// More tags than a byte can count, each on another set of a few entities.
#[cfg(feature = "c09")]
pub fn flood_tags() {
    type Ops = (fn(&mut Store, Entity), fn(&mut Store, Entity), fn(&Store, Entity) -> bool);
    fn ops<T: Tag>() -> Ops { (|s, e| s.add_tag::<T>(e), |s, e| s.remove_tag::<T>(e), |s, e| s.has_tag::<T>(e)) }
    macro_rules! ops { ($($n:literal)*) => { [ $( ops::<G<$n>>() ),* ] } }
    let t: [Ops; FLOOD] = ops!(100 101 102 103 104 105 106 107 108 109 110 111 112 113 114 115 116 117 118 119 120 121 122 123 124 125 126 127 128 129 130 131 132 133 134 135 136 137 138 139 140 141 142 143 144 145 146 147 148 149 150 151 152 153 154 155 156 157 158 159 160 161 162 163 164 165 166 167 168 169 170 171 172 173 174 175 176 177 178 179 180 181 182 183 184 185 186 187 188 189 190 191 192 193 194 195 196 197 198 199 200 201 202 203 204 205 206 207 208 209 210 211 212 213 214 215 216 217 218 219 220 221 222 223 224 225 226 227 228 229 230 231 232 233 234 235 236 237 238 239 240 241 242 243 244 245 246 247 248 249 250 251 252 253 254 255 256 257 258 259 260 261 262 263 264 265 266 267 268 269 270 271 272 273 274 275 276 277 278 279 280 281 282 283 284 285 286 287 288 289 290 291 292 293 294 295 296 297 298 299 300 301 302 303 304 305 306 307 308 309 310 311 312 313 314 315 316 317 318 319 320 321 322 323 324 325 326 327 328 329 330 331 332 333 334 335 336 337 338 339 340 341 342 343 344 345 346 347 348 349 350 351 352 353 354 355 356 357 358 359 360 361 362 363 364 365 366 367 368 369);
    allow_millions(40);
    let mut s = Store::with_capacity(2);
    let mut e = [s.create_entity(), s.create_entity(), Entity::null()];
    let mut has = [0u8; FLOOD];
    let mut j = 0;
    while j < FLOOD {
        if j == FLOOD / 2 { e[2] = s.create_entity(); }
        let m = (j * j + j / 8) & if j < FLOOD / 2 { 3 } else { 7 };
        let mut i = 0;
        while i < 3 { if m >> i & 1 == 1 { (t[j].0)(&mut s, e[i]); } i += 1; }
        has[j] = m as u8;
        j += 1;
    }
    let i = choose(3);
    match choose(2) {
        0 => { s.destroy_entity(e[i]); e[i] = s.create_entity(); let mut j = 0; while j < FLOOD { has[j] &= !(1 << i); j += 1; } }
        _ => { let j = [0, 13, 255, 256, FLOOD - 1][choose(5)]; if has[j] >> i & 1 == 1 { (t[j].1)(&mut s, e[i]); } else { (t[j].0)(&mut s, e[i]); } has[j] ^= 1 << i; }
    }
    let mut j = 0;
    while j < FLOOD { let mut i = 0; while i < 3 { check((t[j].2)(&s, e[i]) == (has[j] >> i & 1 == 1), 561); i += 1; } j += 1; }
    emit(i as u64);
    cover(1);
}
/// The same with order groups.
#[cfg(feature = "c10")]
pub fn flood_groups() {
    type Ops = (fn(&mut Store, Entity), fn(&mut Store, Entity), fn(&Store) -> Option<Entity>, fn(&Store, Entity) -> Option<Entity>);
    fn ops<T: Tag>() -> Ops { (|s, e| s.add_entity_order_by::<T>(e), |s, e| s.remove_entity_order_by::<T>(e), |s| s.get_first_entity_ordered_by::<T>(), |s, e| s.get_next_entity_ordered_by::<T>(e)) }
    macro_rules! ops { ($($n:literal)*) => { [ $( ops::<G<$n>>() ),* ] } }
    let t: [Ops; FLOOD] = ops!(100 101 102 103 104 105 106 107 108 109 110 111 112 113 114 115 116 117 118 119 120 121 122 123 124 125 126 127 128 129 130 131 132 133 134 135 136 137 138 139 140 141 142 143 144 145 146 147 148 149 150 151 152 153 154 155 156 157 158 159 160 161 162 163 164 165 166 167 168 169 170 171 172 173 174 175 176 177 178 179 180 181 182 183 184 185 186 187 188 189 190 191 192 193 194 195 196 197 198 199 200 201 202 203 204 205 206 207 208 209 210 211 212 213 214 215 216 217 218 219 220 221 222 223 224 225 226 227 228 229 230 231 232 233 234 235 236 237 238 239 240 241 242 243 244 245 246 247 248 249 250 251 252 253 254 255 256 257 258 259 260 261 262 263 264 265 266 267 268 269 270 271 272 273 274 275 276 277 278 279 280 281 282 283 284 285 286 287 288 289 290 291 292 293 294 295 296 297 298 299 300 301 302 303 304 305 306 307 308 309 310 311 312 313 314 315 316 317 318 319 320 321 322 323 324 325 326 327 328 329 330 331 332 333 334 335 336 337 338 339 340 341 342 343 344 345 346 347 348 349 350 351 352 353 354 355 356 357 358 359 360 361 362 363 364 365 366 367 368 369);
    allow_millions(40);
    let mut s = Store::with_capacity(2);
    let mut e = [s.create_entity(), s.create_entity(), Entity::null()];
    // the lists: entity at each place, 9 for none
    let mut l = [[9usize; 4]; FLOOD];
    let mut j = 0;
    while j < FLOOD {
        if j == FLOOD / 2 { e[2] = s.create_entity(); }
        let have = if j < FLOOD / 2 { 2 } else { 3 };
        let mut n = 0;
        let mut i = 0;
        while i < have { let x = (j + i) % have; if (j / 3 + i) % 4 != 0 { (t[j].0)(&mut s, e[x]); l[j][n] = x; n += 1; } i += 1; }
        j += 1;
    }
    let i = choose(3);
    fn cut(l: &mut [usize; 4], i: usize) { let mut k = 0; while k < 3 { if l[k] == i { let mut m = k; while m < 3 { l[m] = l[m + 1]; m += 1; } } k += 1; } }
    match choose(2) {
        0 => { s.destroy_entity(e[i]); e[i] = s.create_entity(); let mut j = 0; while j < FLOOD { cut(&mut l[j], i); j += 1; } }
        _ => { let j = [0, 13, 255, 256, FLOOD - 1][choose(5)]; (t[j].1)(&mut s, e[i]); cut(&mut l[j], i); }
    }
    let mut j = 0;
    while j < FLOOD {
        let mut x = (t[j].2)(&s);
        let mut k = 0;
        while k < 4 {
            check(x == if l[j][k] == 9 { None } else { Some(e[l[j][k]]) }, 571);
            if l[j][k] == 9 { break; }
            x = (t[j].3)(&s, e[l[j][k]]);
            k += 1;
        }
        j += 1;
    }
    emit(i as u64);
    cover(1);
}
const FLOOD: usize = 270;
