//! Z3 through its C API: one context per worker thread, a query cache shared by all of them.
use crate::expr::*;
use std::collections::{BTreeSet, HashMap};
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::Mutex;
use std::time::Instant;

type P = *mut c_void;
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_del_config(c: P);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_del_context(c: P);
    fn Z3_interrupt(c: P);
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_mk_solver_for_logic(c: P, l: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, compl: bool, r: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, a: P, r: *mut u64) -> bool;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_get_full_version() -> *const c_char;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, t: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, t: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvnot(c: P, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
}

static INTERRUPTED: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
extern "C" fn on_error(_c: P, e: c_int) {
    if INTERRUPTED.load(Relaxed) { return; }
    eprintln!("sx: z3 error code {e}");
    std::process::exit(2);
}

pub fn z3_version() -> String {
    unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
}

#[derive(Default)]
pub struct Stats {
    pub sat: AtomicU64,
    pub unsat: AtomicU64,
    pub unknown: AtomicU64,
    pub cache_hits: AtomicU64,
    pub model_hits: AtomicU64,
    pub nanos: AtomicU64,
}

#[derive(Clone, Debug)]
pub enum Ans {
    Sat(HashMap<u32, u128>),
    Unsat,
    Unknown,
}

pub struct Shared {
    pub stats: Stats,
    cache: Vec<Mutex<HashMap<u128, Ans>>>,
    pub timeout_ms: u32,
    live: Mutex<Vec<usize>>, // contexts in use
    pub dump: Option<Mutex<(std::path::PathBuf, u64, u64)>>, // dir, written, max
}
impl Shared {
    pub fn new(timeout_ms: u32, dump: Option<(std::path::PathBuf, u64)>) -> Self {
        INTERRUPTED.store(false, Relaxed);
        Shared {
            stats: Stats::default(),
            cache: (0..64).map(|_| Mutex::new(HashMap::new())).collect(),
            timeout_ms,
            live: Mutex::new(vec![]),
            dump: dump.map(|(d, n)| Mutex::new((d, 0, n))),
        }
    }
    /// make every query under way answer "unknown"
    pub fn interrupt(&self) {
        INTERRUPTED.store(true, Relaxed);
        for c in self.live.lock().unwrap().iter() { unsafe { Z3_interrupt(*c as P); } }
    }
    fn retire(&self, c: P) { self.live.lock().unwrap().retain(|x| *x != c as usize); }
}

pub struct Solver<'a> {
    sh: &'a Shared,
    ctx: P,
    solver: P,
    memo: HashMap<u128, P>,
    queries: u32,
}

impl<'a> Solver<'a> {
    pub fn new(sh: &'a Shared) -> Self {
        let mut s = Solver { sh, ctx: std::ptr::null_mut(), solver: std::ptr::null_mut(), memo: HashMap::new(), queries: 0 };
        s.reset_ctx();
        s
    }
    fn reset_ctx(&mut self) {
        unsafe {
            if !self.ctx.is_null() {
                self.memo.clear();
                self.sh.retire(self.ctx);
                Z3_solver_dec_ref(self.ctx, self.solver);
                Z3_del_context(self.ctx);
            }
            let cfg = Z3_mk_config();
            self.ctx = Z3_mk_context(cfg);
            Z3_del_config(cfg);
            Z3_set_error_handler(self.ctx, Some(on_error));
            self.sh.live.lock().unwrap().push(self.ctx as usize);
            self.new_solver(true);
            self.queries = 0;
        }
    }
    unsafe fn new_solver(&mut self, first: bool) {
        if !first { Z3_solver_dec_ref(self.ctx, self.solver); }
        let l = CString::new("QF_BV").unwrap();
        let sym = Z3_mk_string_symbol(self.ctx, l.as_ptr());
        self.solver = Z3_mk_solver_for_logic(self.ctx, sym);
        Z3_solver_inc_ref(self.ctx, self.solver);
        let p = Z3_mk_params(self.ctx);
        Z3_params_inc_ref(self.ctx, p);
        let k = CString::new("timeout").unwrap();
        Z3_params_set_uint(self.ctx, p, Z3_mk_string_symbol(self.ctx, k.as_ptr()), self.sh.timeout_ms);
        Z3_solver_set_params(self.ctx, self.solver, p);
    }

    unsafe fn num(&self, v: u128, w: u32) -> P {
        let s = Z3_mk_bv_sort(self.ctx, w);
        if v <= u64::MAX as u128 {
            Z3_mk_unsigned_int64(self.ctx, v as u64, s)
        } else {
            let t = CString::new(v.to_string()).unwrap();
            Z3_mk_numeral(self.ctx, t.as_ptr(), s)
        }
    }
    unsafe fn var_ast(&self, name: String, w: u32) -> P {
        let n = CString::new(name).unwrap();
        Z3_mk_const(self.ctx, Z3_mk_string_symbol(self.ctx, n.as_ptr()), Z3_mk_bv_sort(self.ctx, w))
    }
    /// width-1 expressions are kept as 1-bit vectors; `boolean` turns them into Z3 booleans
    unsafe fn boolean(&mut self, e: &E) -> P {
        let c = self.ctx;
        match &e.k {
            K::Cmp(op, a, b) => {
                let (x, y) = (self.tr(a), self.tr(b));
                match op {
                    Cmp::Eq => Z3_mk_eq(c, x, y),
                    Cmp::Ult => Z3_mk_bvult(c, x, y),
                    Cmp::Ule => Z3_mk_bvule(c, x, y),
                    Cmp::Slt => Z3_mk_bvslt(c, x, y),
                    Cmp::Sle => Z3_mk_bvsle(c, x, y),
                    _ => unreachable!(),
                }
            }
            K::Not(a) => { let x = self.boolean(a); Z3_mk_not(c, x) }
            _ => { let x = self.tr(e); let one = self.num(1, 1); Z3_mk_eq(c, x, one) }
        }
    }
    unsafe fn tr(&mut self, e: &E) -> P {
        if let Some(p) = self.memo.get(&e.h) { return *p; }
        let c = self.ctx;
        let r = match &e.k {
            K::Const(v) => self.num(*v, e.w),
            K::Var(i) => self.var_ast(format!("v{}_{}", i, e.w), e.w),
            K::Undef(i) => self.var_ast(format!("u{}_{}", i, e.w), e.w),
            K::Bin(o, a, b) => {
                let (x, y) = (self.tr(a), self.tr(b));
                match o {
                    BinOp::Add => Z3_mk_bvadd(c, x, y),
                    BinOp::Sub => Z3_mk_bvsub(c, x, y),
                    BinOp::Mul => Z3_mk_bvmul(c, x, y),
                    BinOp::UDiv => Z3_mk_bvudiv(c, x, y),
                    BinOp::SDiv => Z3_mk_bvsdiv(c, x, y),
                    BinOp::URem => Z3_mk_bvurem(c, x, y),
                    BinOp::SRem => Z3_mk_bvsrem(c, x, y),
                    BinOp::And => Z3_mk_bvand(c, x, y),
                    BinOp::Or => Z3_mk_bvor(c, x, y),
                    BinOp::Xor => Z3_mk_bvxor(c, x, y),
                    BinOp::Shl => Z3_mk_bvshl(c, x, y),
                    BinOp::LShr => Z3_mk_bvlshr(c, x, y),
                    BinOp::AShr => Z3_mk_bvashr(c, x, y),
                }
            }
            K::Cmp(..) => {
                let b = self.boolean(e);
                let (o, z) = (self.num(1, 1), self.num(0, 1));
                Z3_mk_ite(c, b, o, z)
            }
            K::Not(a) => { let x = self.tr(a); Z3_mk_bvnot(c, x) }
            K::Ite(k, a, b) => {
                let k = self.boolean(k);
                let (x, y) = (self.tr(a), self.tr(b));
                Z3_mk_ite(c, k, x, y)
            }
            K::ZExt(a) => { let x = self.tr(a); Z3_mk_zero_ext(c, e.w - a.w, x) }
            K::SExt(a) => { let x = self.tr(a); Z3_mk_sign_ext(c, e.w - a.w, x) }
            K::Extract(a, l) => { let x = self.tr(a); Z3_mk_extract(c, l + e.w - 1, *l, x) }
            K::Concat(h, l) => { let (x, y) = (self.tr(h), self.tr(l)); Z3_mk_concat(c, x, y) }
        };
        self.memo.insert(e.h, r);
        r
    }

    /// Decide the conjunction of `cs`; on sat, a value for every variable in it.
    pub fn check(&mut self, cs: &[E]) -> Ans {
        let mut key_set: BTreeSet<u128> = BTreeSet::new();
        for c in cs {
            if c.is_false() { return Ans::Unsat; }
            if !c.is_true() { key_set.insert(c.h); }
        }
        if key_set.is_empty() { return Ans::Sat(HashMap::new()); }
        let mut key = 0x6a09_e667_f3bc_c908_u128;
        for k in &key_set { key = key.rotate_left(23) ^ k.wrapping_mul(0x9E37_79B9_7F4A_7C15_F39C_C060_5CED_C835); key = key.wrapping_mul(0xD6E8_FEB8_6659_FD93_0000_0000_0000_0001 | 1); }
        let shard = (key as usize) & 63;
        if let Some(a) = self.sh.cache[shard].lock().unwrap().get(&key) {
            self.sh.stats.cache_hits.fetch_add(1, Relaxed);
            return a.clone();
        }
        let t0 = Instant::now();
        let ans = unsafe {
            self.queries += 1;
            if self.queries > 4000 { self.reset_ctx(); } else { self.new_solver(false); }
            let mut vars: HashMap<u32, u32> = HashMap::new();
            for c in cs {
                if c.is_true() { continue; }
                collect_vars(c, &mut vars);
                let b = self.boolean(c);
                Z3_solver_assert(self.ctx, self.solver, b);
            }
            let r = Z3_solver_check(self.ctx, self.solver);
            if r == 1 {
                let m = Z3_solver_get_model(self.ctx, self.solver);
                Z3_model_inc_ref(self.ctx, m);
                let mut out = HashMap::new();
                for (v, w) in &vars {
                    let a = self.var_ast(format!("v{}_{}", v, w), *w);
                    let mut res: P = std::ptr::null_mut();
                    if Z3_model_eval(self.ctx, m, a, true, &mut res) {
                        let mut x = 0u64;
                        if Z3_get_numeral_uint64(self.ctx, res, &mut x) { out.insert(*v, x as u128); }
                    }
                }
                Z3_model_dec_ref(self.ctx, m);
                Ans::Sat(out)
            } else if r == -1 { Ans::Unsat } else { Ans::Unknown }
        };
        self.sh.stats.nanos.fetch_add(t0.elapsed().as_nanos() as u64, Relaxed);
        match &ans {
            Ans::Sat(_) => &self.sh.stats.sat,
            Ans::Unsat => &self.sh.stats.unsat,
            Ans::Unknown => &self.sh.stats.unknown,
        }.fetch_add(1, Relaxed);
        if let Some(d) = &self.sh.dump {
            let mut d = d.lock().unwrap();
            if d.1 < d.2 && !matches!(ans, Ans::Unknown) {
                d.1 += 1;
                let txt = unsafe { CStr::from_ptr(Z3_solver_to_string(self.ctx, self.solver)).to_string_lossy().into_owned() };
                let st = if matches!(ans, Ans::Unsat) { "unsat" } else { "sat" };
                let f = d.0.join(format!("q{:06}.{}.smt2", d.1, st));
                let _ = std::fs::write(f, format!("(set-logic QF_BV)\n{}\n(check-sat)\n", txt));
            }
        }
        let mut c = self.sh.cache[shard].lock().unwrap();
        if c.len() > 20000 { c.clear(); }
        c.insert(key, ans.clone());
        ans
    }
}
impl Drop for Solver<'_> {
    fn drop(&mut self) {
        self.sh.retire(self.ctx);
        unsafe { Z3_solver_dec_ref(self.ctx, self.solver); Z3_del_context(self.ctx); }
    }
}

fn collect_vars(e: &E, out: &mut HashMap<u32, u32>) {
    fn go(e: &E, out: &mut HashMap<u32, u32>, seen: &mut std::collections::HashSet<u128>) {
        if e.vars == 0 || !seen.insert(e.h) { return; }
        match &e.k {
            K::Var(i) => { out.insert(*i, e.w); }
            K::Const(_) | K::Undef(_) => {}
            K::Bin(_, a, b) | K::Cmp(_, a, b) | K::Concat(a, b) => { go(a, out, seen); go(b, out, seen); }
            K::Not(a) | K::ZExt(a) | K::SExt(a) | K::Extract(a, _) => go(a, out, seen),
            K::Ite(c, a, b) => { go(c, out, seen); go(a, out, seen); go(b, out, seen); }
        }
    }
    go(e, out, &mut std::collections::HashSet::new());
}
