//! Symbolic bit-vector expressions with structural hashing and local simplification.
use std::sync::Arc;

pub type E = Arc<Expr>;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum BinOp { Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr }

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Cmp { Eq, Ne, Ult, Ule, Ugt, Uge, Slt, Sle, Sgt, Sge }

#[derive(Debug)]
pub enum K {
    Const(u128),
    Var(u32),
    /// unspecified content (uninitialised memory / undef), identified by a global counter
    Undef(u64),
    Bin(BinOp, E, E),
    Cmp(Cmp, E, E), // only Eq, Ult, Ule, Slt, Sle after normalisation
    Not(E),         // width 1
    Ite(E, E, E),
    ZExt(E),
    SExt(E),
    Extract(E, u32), // low bit
    Concat(E, E),    // hi, lo
}

#[derive(Debug)]
pub struct Expr {
    pub k: K,
    pub w: u32,
    pub h: u128,
    pub vars: u128,
    pub undef: bool,
}

fn mix(a: u64, b: u64) -> u64 {
    let p = (a ^ 0x9E37_79B9_7F4A_7C15) as u128 * (b ^ 0xD6E8_FEB8_6659_FD93) as u128;
    (p as u64) ^ ((p >> 64) as u64)
}
fn hc(tag: u64, xs: &[u128]) -> u128 {
    let mut lo = mix(tag, 0x1234_5678_9abc_def1);
    let mut hi = mix(tag.wrapping_add(77), 0xfedc_ba98_7654_3211);
    for x in xs {
        let (a, b) = (*x as u64, (*x >> 64) as u64);
        lo = mix(lo.rotate_left(17) ^ a, b.wrapping_add(0x51ed_270b_a3b1_4d7f)).wrapping_add(a);
        hi = mix(hi.rotate_left(29) ^ b, a.wrapping_add(0xa076_1d64_78bd_642f)).wrapping_add(b.rotate_left(7));
    }
    ((hi as u128) << 64) | lo as u128
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 { u128::MAX } else { (1u128 << w) - 1 }
}
pub fn sx(v: u128, w: u32) -> i128 {
    if w >= 128 { v as i128 } else { ((v << (128 - w)) as i128) >> (128 - w) }
}

fn mk(k: K, w: u32) -> E {
    let (h, vars, undef) = match &k {
        K::Const(v) => (hc(1, &[*v, w as u128]), 0, false),
        K::Var(i) => (hc(2, &[*i as u128, w as u128]), 1u128 << (i % 128), false),
        K::Undef(i) => (hc(3, &[*i as u128, w as u128]), 0, true),
        K::Bin(o, a, b) => (hc(10 + *o as u64, &[a.h, b.h]), a.vars | b.vars, a.undef | b.undef),
        K::Cmp(o, a, b) => (hc(40 + *o as u64, &[a.h, b.h]), a.vars | b.vars, a.undef | b.undef),
        K::Not(a) => (hc(60, &[a.h]), a.vars, a.undef),
        K::Ite(c, a, b) => (hc(61, &[c.h, a.h, b.h]), c.vars | a.vars | b.vars, c.undef | a.undef | b.undef),
        K::ZExt(a) => (hc(62, &[a.h, w as u128]), a.vars, a.undef),
        K::SExt(a) => (hc(63, &[a.h, w as u128]), a.vars, a.undef),
        K::Extract(a, l) => (hc(64, &[a.h, *l as u128, w as u128]), a.vars, a.undef),
        K::Concat(a, b) => (hc(65, &[a.h, b.h]), a.vars | b.vars, a.undef | b.undef),
    };
    Arc::new(Expr { k, w, h, vars, undef })
}

pub fn cst(v: u128, w: u32) -> E { mk(K::Const(v & mask(w)), w) }
pub fn var(i: u32, w: u32) -> E { mk(K::Var(i), w) }
pub fn undef(i: u64, w: u32) -> E { mk(K::Undef(i), w) }
pub fn tt() -> E { cst(1, 1) }
pub fn ff() -> E { cst(0, 1) }

impl Expr {
    pub fn as_const(&self) -> Option<u128> {
        if let K::Const(v) = self.k { Some(v) } else { None }
    }
    pub fn is_true(&self) -> bool { self.w == 1 && self.as_const() == Some(1) }
    pub fn is_false(&self) -> bool { self.w == 1 && self.as_const() == Some(0) }
}
pub fn same(a: &E, b: &E) -> bool { Arc::ptr_eq(a, b) || a.h == b.h }

pub fn fold_bin(op: BinOp, a: u128, b: u128, w: u32) -> Option<u128> {
    use BinOp::*;
    let m = mask(w);
    Some(m & match op {
        Add => a.wrapping_add(b),
        Sub => a.wrapping_sub(b),
        Mul => a.wrapping_mul(b),
        UDiv => if b == 0 { return None } else { a / b },
        URem => if b == 0 { return None } else { a % b },
        SDiv => if b == 0 { return None } else { sx(a, w).wrapping_div(sx(b, w)) as u128 },
        SRem => if b == 0 { return None } else { sx(a, w).wrapping_rem(sx(b, w)) as u128 },
        And => a & b,
        Or => a | b,
        Xor => a ^ b,
        Shl => if b >= w as u128 { 0 } else { a << b },
        LShr => if b >= w as u128 { 0 } else { a >> b },
        AShr => (sx(a, w) >> (b.min(w as u128 - 1))) as u128,
    })
}
pub fn fold_cmp(op: Cmp, a: u128, b: u128, w: u32) -> bool {
    use Cmp::*;
    match op {
        Eq => a == b, Ne => a != b,
        Ult => a < b, Ule => a <= b, Ugt => a > b, Uge => a >= b,
        Slt => sx(a, w) < sx(b, w), Sle => sx(a, w) <= sx(b, w),
        Sgt => sx(a, w) > sx(b, w), Sge => sx(a, w) >= sx(b, w),
    }
}

pub fn bin(op: BinOp, a: &E, b: &E) -> E {
    use BinOp::*;
    let w = a.w;
    debug_assert_eq!(a.w, b.w);
    if let (Some(x), Some(y)) = (a.as_const(), b.as_const()) {
        if let Some(r) = fold_bin(op, x, y, w) { return cst(r, w); }
    }
    // constants to the right for commutative operators
    let (a, b) = match op {
        Add | Mul | And | Or | Xor if a.as_const().is_some() => (b, a),
        _ => (a, b),
    };
    if let Some(c) = b.as_const() {
        match op {
            Add | Sub | Or | Xor | Shl | LShr | AShr if c == 0 => return a.clone(),
            Mul if c == 1 => return a.clone(),
            Mul if c == 0 => return cst(0, w),
            And if c == 0 => return cst(0, w),
            And if c == mask(w) => return a.clone(),
            Or if c == mask(w) => return cst(c, w),
            UDiv | SDiv if c == 1 => return a.clone(),
            URem if c == 1 => return cst(0, w),
            Shl | LShr if c >= w as u128 => return cst(0, w),
            Mul if c.is_power_of_two() => return bin(Shl, a, &cst(c.trailing_zeros() as u128, w)),
            UDiv if c.is_power_of_two() => return bin(LShr, a, &cst(c.trailing_zeros() as u128, w)),
            URem if c.is_power_of_two() => return bin(And, a, &cst(c - 1, w)),
            Xor if w == 1 && c == 1 => return not(a),
            Sub => return bin(Add, a, &cst(c.wrapping_neg() & mask(w), w)),
            Add => {
                if let K::Bin(Add, x, y) = &a.k {
                    if let Some(d) = y.as_const() {
                        return bin(Add, x, &cst(c.wrapping_add(d), w));
                    }
                }
            }
            LShr => {
                // zext'ed small values shifted out
                if let K::ZExt(x) = &a.k { if c >= x.w as u128 { return cst(0, w); } }
                return zext(&extract(a, c as u32, w - c as u32), w);
            }
            Shl => {
                let c = c as u32;
                return concat(&extract(a, 0, w - c), &cst(0, c));
            }
            And => {
                // low masks
                if (c + 1).is_power_of_two() {
                    let n = (c + 1).trailing_zeros();
                    return zext(&extract(a, 0, n), w);
                }
                if let K::ZExt(x) = &a.k {
                    if c & mask(x.w) == mask(x.w) { return a.clone(); }
                    return zext(&bin(And, x, &cst(c & mask(x.w), x.w)), w);
                }
                if let K::Ite(cc, x, y) = &a.k {
                    if x.as_const().is_some() || y.as_const().is_some() {
                        return ite(cc, &bin(And, x, b), &bin(And, y, b));
                    }
                }
                // a few runs of ones: the kept bits, zeros elsewhere
                let mut runs: Vec<(u32, u32, bool)> = Vec::new();
                let mut i = 0;
                while i < w {
                    let bit = c >> i & 1 == 1;
                    match runs.last_mut() { Some(r) if r.2 == bit => r.1 += 1, _ => runs.push((i, 1, bit)) }
                    i += 1;
                }
                if runs.len() <= 5 {
                    let mut acc: Option<E> = None;
                    for (lo, n, keep) in runs {
                        let p = if keep { extract(a, lo, n) } else { cst(0, n) };
                        acc = Some(match acc { None => p, Some(x) => concat(&p, &x) });
                    }
                    return acc.unwrap();
                }
            }
            _ => {}
        }
        // push constants into ite with constant leaves
        if let K::Ite(cc, x, y) = &a.k {
            if x.as_const().is_some() && y.as_const().is_some() {
                let l = bin(op, x, b); let r = bin(op, y, b);
                return ite(cc, &l, &r);
            }
        }
        if w > 1 && matches!(op, UDiv | URem) {
            if let K::ZExt(x) = &a.k {
                if c <= mask(x.w) { return zext(&bin(op, x, &cst(c, x.w)), w); }
                return if op == UDiv { cst(0, w) } else { a.clone() };
            }
        }
    }
    if same(a, b) {
        match op {
            Sub | Xor => return cst(0, w),
            And | Or => return a.clone(),
            _ => {}
        }
    }
    if let Some(0) = a.as_const() {
        match op { Shl | LShr | AShr | UDiv | URem => return cst(0, w), _ => {} }
    }
    if op == Sub {
        // (x + y) - x
        if let K::Bin(Add, x, y) = &a.k {
            if same(x, b) { return y.clone(); }
            if same(y, b) { return x.clone(); }
        }
        if let (K::Bin(Add, x, c1), K::Bin(Add, y, c2)) = (&a.k, &b.k) {
            if same(x, y) { return bin(Sub, c1, c2); }
        }
    }
    if op == Add {
        if let K::Bin(Sub, x, y) = &a.k { if same(y, b) { return x.clone(); } }
        if let K::Bin(Sub, x, y) = &b.k { if same(y, a) { return x.clone(); } }
        if let K::Bin(Add, x, c) = &a.k {
            if c.as_const().is_some() { return bin(Add, &bin(Add, x, b), c); }
        }
        if let K::Bin(Add, x, c) = &b.k {
            if c.as_const().is_some() { return bin(Add, &bin(Add, a, x), c); }
        }
    }
    // narrow zero-extended operands
    if let (K::ZExt(x), K::ZExt(y)) = (&a.k, &b.k) {
        match op {
            And | Or | Xor => {
                if x.w == y.w { return zext(&bin(op, x, y), w); }
            }
            _ => {}
        }
    }
    // bits put together piece by piece: (hi << k) | lo
    if op == Or && w > 1 {
        let mut cuts = vec![0, w];
        cut_points(a, 0, &mut cuts, 8);
        cut_points(b, 0, &mut cuts, 8);
        cuts.sort_unstable();
        cuts.dedup();
        if cuts.len() > 2 && cuts.len() <= 18 {
            let mut parts: Vec<E> = Vec::new();
            for k in 0..cuts.len() - 1 {
                let (lo, n) = (cuts[k], cuts[k + 1] - cuts[k]);
                let (x, y) = (extract(a, lo, n), extract(b, lo, n));
                match (x.as_const(), y.as_const()) {
                    (Some(0), _) => parts.push(y),
                    (_, Some(0)) => parts.push(x),
                    (Some(p), Some(q)) => parts.push(cst(p | q, n)),
                    _ => { parts.clear(); break; }
                }
            }
            if !parts.is_empty() {
                let mut acc = parts[0].clone();
                for p in &parts[1..] { acc = concat(p, &acc); }
                return acc;
            }
        }
    }
    // products and quotients of values known to be small: compute them in as few bits as they need
    // (a division whose divisor may be zero never reaches here: the executor branches on that first)
    if w > 8 && matches!(op, Mul | UDiv | URem) {
        let (x, y) = (umax(a), umax(b));
        let m = if op == Mul { x.checked_mul(y).unwrap_or(u128::MAX) } else { x.max(y) };
        let n = (128 - m.leading_zeros()).max(1);
        if n < w {
            return zext(&bin(op, &extract(a, 0, n), &extract(b, 0, n)), w);
        }
    }
    if w == 1 {
        match op {
            And => {
                if a.is_false() || b.is_false() { return ff(); }
                if same(&not(a), b) { return ff(); }
            }
            Or => if same(&not(a), b) { return tt(); },
            _ => {}
        }
    }
    mk(K::Bin(op, a.clone(), b.clone()), w)
}

pub fn not(a: &E) -> E {
    debug_assert_eq!(a.w, 1);
    match &a.k {
        K::Const(v) => cst(1 - v, 1),
        K::Not(x) => x.clone(),
        _ => mk(K::Not(a.clone()), 1),
    }
}

pub fn ite(c: &E, a: &E, b: &E) -> E {
    if c.is_true() { return a.clone(); }
    if c.is_false() { return b.clone(); }
    if same(a, b) { return a.clone(); }
    if let K::Not(x) = &c.k { return ite(x, b, a); }
    if a.w == 1 {
        match (a.as_const(), b.as_const()) {
            (Some(1), Some(0)) => return c.clone(),
            (Some(0), Some(1)) => return not(c),
            (Some(1), None) => return bin(BinOp::Or, c, b),
            (Some(0), None) => return bin(BinOp::And, &not(c), b),
            (None, Some(0)) => return bin(BinOp::And, c, a),
            (None, Some(1)) => return bin(BinOp::Or, &not(c), a),
            _ => {}
        }
    }
    if let K::Ite(c2, x, _) = &a.k { if same(c, c2) { return ite(c, x, b); } }
    if let K::Ite(c2, _, y) = &b.k { if same(c, c2) { return ite(c, a, y); } }
    mk(K::Ite(c.clone(), a.clone(), b.clone()), a.w)
}

/// where the bits of e change from one part of a concatenation to the next
fn cut_points(e: &E, base: u32, out: &mut Vec<u32>, depth: u32) {
    if depth == 0 { return; }
    match &e.k {
        K::Concat(h, l) => { cut_points(l, base, out, depth - 1); out.push(base + l.w); cut_points(h, base + l.w, out, depth - 1); }
        K::ZExt(x) => { cut_points(x, base, out, depth - 1); out.push(base + x.w); }
        _ => {}
    }
}

/// an upper bound of the unsigned value
pub fn umax(e: &E) -> u128 {
    match &e.k {
        K::Const(v) => *v,
        K::ZExt(x) => umax(x),
        K::Ite(_, a, b) => umax(a).max(umax(b)),
        K::Bin(BinOp::And, a, b) => umax(a).min(umax(b)),
        K::Bin(BinOp::URem, _, b) => match b.as_const() { Some(c) if c > 0 => c - 1, _ => mask(e.w) },
        K::Bin(BinOp::UDiv, a, b) => match b.as_const() { Some(c) if c > 0 => umax(a) / c, _ => umax(a).max(if umax(b) == mask(b.w) { mask(e.w) } else { 0 }) },
        K::Bin(BinOp::Add, a, b) => {
            let (x, y) = (umax(a), umax(b));
            match x.checked_add(y) { Some(s) if s <= mask(e.w) => s, _ => mask(e.w) }
        }
        K::Bin(BinOp::Mul, a, b) => {
            let (x, y) = (umax(a), umax(b));
            match x.checked_mul(y) { Some(s) if s <= mask(e.w) => s, _ => mask(e.w) }
        }
        K::Bin(BinOp::Or, a, b) | K::Bin(BinOp::Xor, a, b) => {
            let m = umax(a) | umax(b);
            if m == 0 { 0 } else { mask(128 - m.leading_zeros()) }
        }
        K::Concat(h, l) => (umax(h) << l.w) | mask(l.w),
        _ => mask(e.w),
    }
}

pub fn cmp(op: Cmp, a: &E, b: &E) -> E {
    use Cmp::*;
    let w = a.w;
    debug_assert_eq!(a.w, b.w);
    if let (Some(x), Some(y)) = (a.as_const(), b.as_const()) {
        return if fold_cmp(op, x, y, w) { tt() } else { ff() };
    }
    if same(a, b) {
        return match op { Eq | Ule | Uge | Sle | Sge => tt(), _ => ff() };
    }
    match op {
        Ne => return not(&cmp(Eq, a, b)),
        Ugt => return cmp(Ult, b, a),
        Uge => return cmp(Ule, b, a),
        Sgt => return cmp(Slt, b, a),
        Sge => return cmp(Sle, b, a),
        _ => {}
    }
    let (a, b) = if op == Eq && a.as_const().is_some() { (b, a) } else { (a, b) };
    if op == Eq {
        if w == 1 {
            if let Some(c) = b.as_const() { return if c == 1 { a.clone() } else { not(a) }; }
        }
        if let Some(c) = b.as_const() {
            match &a.k {
                K::ZExt(x) => {
                    return if c > mask(x.w) { ff() } else { cmp(Eq, x, &cst(c, x.w)) };
                }
                K::SExt(x) => {
                    let lo = c & mask(x.w);
                    return if (sx(lo, x.w) as u128) & mask(w) == c { cmp(Eq, x, &cst(lo, x.w)) } else { ff() };
                }
                K::Ite(cc, x, y) => {
                    if x.as_const().is_some() || y.as_const().is_some() {
                        return ite(cc, &cmp(Eq, x, b), &cmp(Eq, y, b));
                    }
                }
                K::Bin(BinOp::Add, x, d) => {
                    if let Some(d) = d.as_const() {
                        return cmp(Eq, x, &cst(c.wrapping_sub(d), w));
                    }
                }
                K::Bin(BinOp::Xor, x, d) => {
                    if let Some(d) = d.as_const() { return cmp(Eq, x, &cst(c ^ d, w)); }
                }
                K::Concat(h, l) => {
                    return bin(BinOp::And, &cmp(Eq, h, &cst(c >> l.w, h.w)), &cmp(Eq, l, &cst(c, l.w)));
                }
                _ => {}
            }
            if c > umax(a) { return ff(); }
        }
        if let (K::ZExt(x), K::ZExt(y)) = (&a.k, &b.k) {
            if x.w == y.w { return cmp(Eq, x, y); }
        }
        if let (K::Concat(h, l), K::Concat(h2, l2)) = (&a.k, &b.k) {
            if l.w == l2.w { return bin(BinOp::And, &cmp(Eq, h, h2), &cmp(Eq, l, l2)); }
        }
        // order operands canonically
        if b.as_const().is_none() && a.h > b.h {
            return mk(K::Cmp(Eq, b.clone(), a.clone()), 1);
        }
    } else {
        if let (K::ZExt(x), K::ZExt(y)) = (&a.k, &b.k) {
            if x.w == y.w {
                let o = match op { Slt => Ult, Sle => Ule, o => o };
                return cmp(o, x, y);
            }
        }
        if op == Ult || op == Ule {
            if let Some(c) = b.as_const() {
                if op == Ult && c == 0 { return ff(); }
                let um = umax(a);
                if op == Ult && um < c { return tt(); }
                if op == Ule && um <= c { return tt(); }
                if let K::ZExt(x) = &a.k { return cmp(op, x, &cst(c, x.w)); }
                if op == Ult && c == 1 { return cmp(Eq, a, &cst(0, w)); }
            }
            if let Some(c) = a.as_const() {
                if op == Ule && c == 0 { return tt(); }
                let um = umax(b);
                if op == Ult && um <= c { return ff(); }
                if op == Ule && um < c { return ff(); }
                if let K::ZExt(x) = &b.k { return cmp(op, &cst(c, x.w), x); }
                if op == Ult && c == 0 { return not(&cmp(Eq, b, &cst(0, w))); }
            }
        } else {
            // signed with known-nonnegative both sides -> unsigned
            let half = mask(w) >> 1;
            if umax(a) <= half && umax(b) <= half {
                return cmp(if op == Slt { Ult } else { Ule }, a, b);
            }
        }
        if let (K::Ite(cc, x, y), Some(_)) = (&a.k, b.as_const()) {
            if x.as_const().is_some() && y.as_const().is_some() {
                return ite(cc, &cmp(op, x, b), &cmp(op, y, b));
            }
        }
    }
    mk(K::Cmp(op, a.clone(), b.clone()), 1)
}

pub fn zext(a: &E, w: u32) -> E {
    if a.w == w { return a.clone(); }
    debug_assert!(w > a.w);
    match &a.k {
        K::Const(v) => cst(*v, w),
        K::ZExt(x) => zext(x, w),
        K::Ite(c, x, y) if x.as_const().is_some() && y.as_const().is_some() => ite(c, &zext(x, w), &zext(y, w)),
        _ => mk(K::ZExt(a.clone()), w),
    }
}
pub fn sext(a: &E, w: u32) -> E {
    if a.w == w { return a.clone(); }
    match &a.k {
        K::Const(v) => cst(sx(*v, a.w) as u128, w),
        K::ZExt(x) if x.w < a.w => zext(x, w),
        K::SExt(x) => sext(x, w),
        K::Ite(c, x, y) if x.as_const().is_some() && y.as_const().is_some() => ite(c, &sext(x, w), &sext(y, w)),
        _ => mk(K::SExt(a.clone()), w),
    }
}
pub fn extract(a: &E, lo: u32, w: u32) -> E {
    if lo == 0 && w == a.w { return a.clone(); }
    debug_assert!(lo + w <= a.w);
    match &a.k {
        K::Const(v) => cst(*v >> lo, w),
        K::Extract(x, l2) => extract(x, lo + l2, w),
        K::ZExt(x) => {
            if lo >= x.w { cst(0, w) }
            else if lo + w <= x.w { extract(x, lo, w) }
            else { zext(&extract(x, lo, x.w - lo), w) }
        }
        K::SExt(x) if lo + w <= x.w => extract(x, lo, w),
        K::Concat(h, l) => {
            if lo >= l.w { extract(h, lo - l.w, w) }
            else if lo + w <= l.w { extract(l, lo, w) }
            else { concat(&extract(h, 0, lo + w - l.w), &extract(l, lo, l.w - lo)) }
        }
        K::Ite(c, x, y) if x.as_const().is_some() || y.as_const().is_some() => ite(c, &extract(x, lo, w), &extract(y, lo, w)),
        K::Bin(o @ (BinOp::And | BinOp::Or | BinOp::Xor), x, y) => bin(*o, &extract(x, lo, w), &extract(y, lo, w)),
        K::Bin(o @ (BinOp::Add | BinOp::Sub | BinOp::Mul), x, y) if lo == 0 => bin(*o, &extract(x, 0, w), &extract(y, 0, w)),
        _ => mk(K::Extract(a.clone(), lo), w),
    }
}
pub fn concat(h: &E, l: &E) -> E {
    if h.w == 0 { return l.clone(); }
    if l.w == 0 { return h.clone(); }
    let w = h.w + l.w;
    if let (Some(x), Some(y)) = (h.as_const(), l.as_const()) { return cst((x << l.w) | y, w); }
    if let Some(0) = h.as_const() { return zext(l, w); }
    if let (K::Extract(x, lx), K::Extract(y, ly)) = (&h.k, &l.k) {
        if same(x, y) && *lx == ly + l.w { return extract(x, *ly, w); }
    }
    // hi zext over adjoining extract: concat(zext(extract(x,lo..)), extract) when the top of x
    if let (K::Extract(x, lx), _) = (&h.k, ()) {
        // low half is the plain truncation of x that simplified away (e.g. x = concat)
        if *lx == l.w && same(&extract(x, 0, l.w), l) { return extract(x, 0, w); }
    }
    if let K::ZExt(x) = &h.k { return zext(&concat(x, l), w); }
    if let K::Concat(lh, ll) = &l.k {
        // re-associate to merge adjacent extracts
        if let (K::Extract(x, lx), K::Extract(y, ly)) = (&h.k, &lh.k) {
            if same(x, y) && *lx == ly + lh.w { return concat(&concat(h, lh), ll); }
        }
    }
    mk(K::Concat(h.clone(), l.clone()), w)
}

/// evaluate under an assignment (vars missing -> 0, undef -> 0)
pub fn eval(e: &E, m: &dyn Fn(u32) -> u128, memo: &mut std::collections::HashMap<u128, u128>) -> u128 {
    match &e.k {
        K::Const(v) => return *v,
        K::Var(i) => return m(*i) & mask(e.w),
        K::Undef(_) => return 0,
        _ => {}
    }
    if let Some(v) = memo.get(&e.h) { return *v; }
    let r = match &e.k {
        K::Const(_) | K::Var(_) | K::Undef(_) => unreachable!(),
        K::Bin(o, a, b) => {
            let (x, y) = (eval(a, m, memo), eval(b, m, memo));
            fold_bin(*o, x, y, e.w).unwrap_or(match o { BinOp::UDiv => mask(e.w), BinOp::URem => x, BinOp::SDiv => if sx(x, e.w) < 0 { 1 } else { mask(e.w) }, _ => x })
        }
        K::Cmp(o, a, b) => fold_cmp(*o, eval(a, m, memo), eval(b, m, memo), a.w) as u128,
        K::Not(a) => 1 - eval(a, m, memo),
        K::Ite(c, a, b) => if eval(c, m, memo) == 1 { eval(a, m, memo) } else { eval(b, m, memo) },
        K::ZExt(a) => eval(a, m, memo),
        K::SExt(a) => sx(eval(a, m, memo), a.w) as u128 & mask(e.w),
        K::Extract(a, l) => (eval(a, m, memo) >> l) & mask(e.w),
        K::Concat(h, l) => (eval(h, m, memo) << l.w) | eval(l, m, memo),
    };
    memo.insert(e.h, r);
    r
}
