//! The symbolic interpreter: executes parsed LLVM IR on symbolic states, forking where the solver
//! says both outcomes are possible.
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::solver::*;
use std::collections::{HashMap, HashSet};
use std::hash::{BuildHasherDefault, Hasher};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::Relaxed};
use std::sync::{Arc, Condvar, Mutex, OnceLock};
use std::time::{Duration, Instant};

#[derive(Default, Clone)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) { for x in b { self.0 = (self.0.rotate_left(5) ^ *x as u64).wrapping_mul(0x517c_c1b7_2722_0a95); } }
    fn write_u32(&mut self, x: u32) { self.0 = (self.0.rotate_left(5) ^ x as u64).wrapping_mul(0x517c_c1b7_2722_0a95); }
    fn write_u128(&mut self, x: u128) { self.0 = (x as u64) ^ (x >> 64) as u64; }
}
pub type FMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

pub const HEAP0: u32 = 0x0010_0000;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Bi {
    None, Unknown,
    Alloc, AllocZeroed, Dealloc, Realloc, NoAllocShim,
    Panic, PanicNounwind,
    Memcpy, Memmove, Memset, Bcmp, Strlen,
    Nop, Assume, Expect,
    UMax, UMin, SMax, SMin,
    Ovf(BinOp, bool), // signed?
    Sat(BinOp, bool),
    Float, Reduce, Ctpop, Ctlz, Cttz, Bswap, Bitreverse, Fshl, Fshr, Ucmp, Scmp, Abs, IsConst, Trap, Tls, Abort, Random, Zero, AllocError,
    SxAny, SxChoose, SxConc, SxAssume, SxCheck, SxEmit, SxCatch, SxLive, SxCover, SxMode, SxNote, SxWidth, SxNat,
}

fn classify(d: &FuncDecl) -> Bi {
    let n = d.name.as_str();
    let ends = |s: &str| n.ends_with(s);
    if let Some(l) = n.strip_prefix("llvm.") {
        let p = |s: &str| l.starts_with(s);
        return if p("memcpy") { Bi::Memcpy } else if p("memmove") { Bi::Memmove } else if p("memset") { Bi::Memset }
        else if p("lifetime") || p("experimental.noalias") || p("dbg") || p("x86.sse2.pause") || p("donothing") || p("prefetch") || p("sideeffect") || p("invariant") { Bi::Nop }
        else if p("assume") { Bi::Assume } else if p("expect") { Bi::Expect }
        else if p("umax") { Bi::UMax } else if p("umin") { Bi::UMin } else if p("smax") { Bi::SMax } else if p("smin") { Bi::SMin }
        else if p("uadd.with") { Bi::Ovf(BinOp::Add, false) } else if p("usub.with") { Bi::Ovf(BinOp::Sub, false) } else if p("umul.with") { Bi::Ovf(BinOp::Mul, false) }
        else if p("sadd.with") { Bi::Ovf(BinOp::Add, true) } else if p("ssub.with") { Bi::Ovf(BinOp::Sub, true) } else if p("smul.with") { Bi::Ovf(BinOp::Mul, true) }
        else if p("uadd.sat") { Bi::Sat(BinOp::Add, false) } else if p("usub.sat") { Bi::Sat(BinOp::Sub, false) }
        else if p("sadd.sat") { Bi::Sat(BinOp::Add, true) } else if p("ssub.sat") { Bi::Sat(BinOp::Sub, true) }
        else if p("vector.reduce.") { Bi::Reduce }
        else if ["floor.", "ceil.", "round.", "roundeven.", "rint.", "nearbyint.", "trunc.", "sqrt.", "fabs.", "maxnum.", "minnum.", "maximum.", "minimum.", "maximumnum.", "minimumnum.", "copysign.", "fma.", "fmuladd.", "pow.", "powi.", "exp2.", "log2.", "exp.", "log.", "log10.", "fptoui.sat.", "fptosi.sat."].iter().any(|f| p(f)) { Bi::Float }
        else if p("ctpop") { Bi::Ctpop } else if p("ctlz") { Bi::Ctlz } else if p("cttz") { Bi::Cttz }
        else if p("bswap") { Bi::Bswap } else if p("bitreverse") { Bi::Bitreverse } else if p("fshl") { Bi::Fshl } else if p("fshr") { Bi::Fshr }
        else if p("ucmp") { Bi::Ucmp } else if p("scmp") { Bi::Scmp } else if p("abs") { Bi::Abs }
        else if p("is.constant") { Bi::IsConst } else if p("trap") || p("ubsantrap") || p("debugtrap") { Bi::Trap } else if p("threadlocal.address") { Bi::Tls }
        else { Bi::Unknown };
    }
    match n {
        "sx_any" => return Bi::SxAny, "sx_choose" => return Bi::SxChoose, "sx_concrete" => return Bi::SxConc,
        "sx_assume" => return Bi::SxAssume, "sx_check" => return Bi::SxCheck, "sx_emit" => return Bi::SxEmit,
        "sx_catch" => return Bi::SxCatch, "sx_heap_live" => return Bi::SxLive, "sx_cover" => return Bi::SxCover,
        "sx_mode" => return Bi::SxMode, "sx_note" => return Bi::SxNote, "sx_is_symbolic" => return Bi::SxWidth,
        "sx_native" => return Bi::SxNat,
        "bcmp" | "memcmp" => return Bi::Bcmp, "strlen" => return Bi::Strlen, "abort" => return Bi::Abort,
        // the seed of std's hasher: one fixed value (stated bound); destructors of thread locals run after the harness has ended
        "getrandom" => return Bi::Random, "__cxa_thread_atexit_impl" => return Bi::Zero,
        "memcpy" => return Bi::Memcpy, "memmove" => return Bi::Memmove,
        _ => {}
    }
    if ends("12___rust_alloc") { return Bi::Alloc }
    if ends("19___rust_alloc_zeroed") { return Bi::AllocZeroed }
    if ends("14___rust_dealloc") { return Bi::Dealloc }
    if ends("14___rust_realloc") { return Bi::Realloc }
    if n.contains("___rust_no_alloc_shim_is_unstable") { return Bi::NoAllocShim }
    if ends("9panicking9panic_fmt") || n.contains("9panicking11begin_panic") && !n.contains("FormatString") { return Bi::Panic }
    if ends("18panic_nounwind_fmt") || ends("14panic_nounwind") || ends("26panic_nounwind_nobacktrace") || ends("19panic_cannot_unwind")
        || ends("16panic_in_cleanup") || ends("36panic_misaligned_pointer_dereference") || ends("30panic_null_pointer_dereference") || ends("32panic_null_reference_constructed")
        { return Bi::PanicNounwind }
    if ends("18handle_alloc_error") { return Bi::AllocError }
    if d.text.is_none() { Bi::Unknown } else { Bi::None }
}

/// readable path out of a v0-mangled symbol (identifiers joined by ::)
pub fn demangle(n: &str) -> String {
    if !n.starts_with("_R") { return n.to_string(); }
    let b = n.as_bytes();
    let mut i = 2;
    let mut out: Vec<String> = vec![];
    while i < b.len() {
        if b[i] == b's' && i + 1 < b.len() { // disambiguator s<base62>_
            let mut j = i + 1;
            while j < b.len() && b[j].is_ascii_alphanumeric() { j += 1; }
            if j < b.len() && b[j] == b'_' && j + 1 < b.len() && b[j + 1].is_ascii_digit() { i = j + 1; }
        }
        if b[i].is_ascii_digit() {
            let mut j = i;
            let mut v = 0usize;
            while j < b.len() && b[j].is_ascii_digit() { v = v * 10 + (b[j] - b'0') as usize; j += 1; }
            if j < b.len() && b[j] == b'_' && v > 0 && j + 1 + v <= b.len() && !b[j + 1].is_ascii_digit() && b[j+1] != b'_' { j += 1; }
            if v > 0 && j + v <= b.len() {
                let id = &n[j..j + v];
                if id.bytes().all(|c| c.is_ascii_alphanumeric() || c == b'_') { out.push(id.to_string()); i = j + v; continue; }
            }
            i = j;
        } else { i += 1; }
    }
    if out.len() > 8 { out.truncate(8); }
    out.join("::")
}

#[derive(Clone)]
pub struct Frame {
    f: Arc<Func>,
    bb: u32,
    ip: u32,
    prev: u32,
    regs: Vec<Val>,
    allocas: Vec<u32>,
    catch: bool,
}

#[derive(Clone)]
pub struct State {
    frames: Vec<Frame>,
    objs: FMap<u32, Arc<Obj>>,
    next_obj: u32,
    pc: Vec<E>,
    known: FMap<u128, u128>,
    vars: Vec<u32>, // widths
    model: HashMap<u32, u128>,
    emits: Vec<(Val, u32)>,
    covers: Vec<u32>,
    ninst: u64,
    depth: u32,
    heap_live: i64,
    ite_loads: bool,
    may_fail: bool,
    room: u64,
    last_panic: Option<String>,
    choices: u32,
}

#[derive(Clone, Debug)]
pub struct Violation { pub kind: String, pub msg: String, pub inputs: Vec<u64>, pub stack: Vec<String>, pub emits: usize }
#[derive(Clone, Debug)]
pub struct Sample { pub inputs: Vec<u64>, pub emits: Vec<u64>, pub pc: usize }

#[derive(Default)]
pub struct Report {
    pub violations: Vec<Violation>,
    pub samples: Vec<Sample>,
    pub errors: HashMap<String, u64>,
    pub covers: HashMap<u32, u64>,
    pub funcs: HashSet<u32>,
    pub paths_seen: u64,
}

pub struct Cfg { pub threads: usize, pub deadline: Instant, pub max_path_insts: u64, pub max_samples: usize, pub seed: u64, pub max_viol: usize, pub strict_loads: bool }

pub struct Engine<'m> {
    pub m: &'m Module,
    pub bi: Vec<Bi>,
    pub gobjs: Vec<OnceLock<Result<Arc<Obj>, String>>>,
    pub sh: Shared,
    pub cfg: Cfg,
    pub rep: Mutex<Report>,
    pub paths: AtomicU64,
    pub paths_panicked: AtomicU64,
    pub paths_killed: AtomicU64,
    pub forks: AtomicU64,
    pub insts: AtomicU64,
    pub checks_const: AtomicU64,
    pub checks_query: AtomicU64,
    pub sym_branches: AtomicU64,
    pub max_pc: AtomicUsize,
    pub timed_out: AtomicBool,
    q: Mutex<Q>,
    cv: Condvar,
    idle: AtomicUsize,
    stop: AtomicBool,
}
struct Q { states: Vec<State>, active: usize }

enum Stop { Done, Killed(String), Viol(String, String) }
type Res<X> = Result<X, Stop>;

impl<'m> Engine<'m> {
    pub fn new(m: &'m Module, sh: Shared, cfg: Cfg) -> Self {
        Engine {
            m, bi: m.funcs.iter().map(classify).collect(),
            gobjs: (0..m.globals.len()).map(|_| OnceLock::new()).collect(),
            sh, cfg, rep: Mutex::new(Report::default()),
            paths: AtomicU64::new(0), paths_panicked: AtomicU64::new(0), paths_killed: AtomicU64::new(0), forks: AtomicU64::new(0), insts: AtomicU64::new(0),
            checks_const: AtomicU64::new(0), checks_query: AtomicU64::new(0), sym_branches: AtomicU64::new(0), max_pc: AtomicUsize::new(0), timed_out: AtomicBool::new(false),
            q: Mutex::new(Q { states: vec![], active: 0 }), cv: Condvar::new(), idle: AtomicUsize::new(0), stop: AtomicBool::new(false),
        }
    }

    fn gobj(&self, g: u32) -> Result<Arc<Obj>, String> {
        self.gobjs[g as usize].get_or_init(|| {
            let d = &self.m.globals[g as usize];
            let Some(c) = self.m.global_init(g)? else { return Err(format!("external global @{}", d.name)) };
            let mut o = Obj::new(d.ty.size().max(1), d.align, if d.constant { Kind::Const } else { Kind::Global }, true, 0);
            put_cst(&mut o, 0, &d.ty, &c);
            Ok(Arc::new(o))
        }).clone()
    }

    pub fn run(&self, entry: &str) -> Result<(), String> {
        let id = *self.m.fidx.get(entry).ok_or(format!("no entry {entry}"))?;
        let f = self.m.func(id)?;
        let st = State {
            frames: vec![Frame { regs: vec![Val::U; f.nregs as usize], f, bb: 0, ip: 0, prev: 0, allocas: vec![], catch: false }],
            objs: Default::default(), next_obj: HEAP0, pc: vec![], known: Default::default(), vars: vec![], model: HashMap::new(),
            emits: vec![], covers: vec![], ninst: 0, depth: 0, heap_live: 0, ite_loads: false, may_fail: false, room: 0, last_panic: None, choices: 0,
        };
        self.q.lock().unwrap().states.push(st);
        let running = std::sync::atomic::AtomicUsize::new(self.cfg.threads);
        let running = &running;
        std::thread::scope(|s| {
            for t in 0..self.cfg.threads {
                std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, move || { Worker::new(self, t as u64).main(); running.fetch_sub(1, Relaxed); }).unwrap();
            }
            // a query under way when time is up is interrupted
            s.spawn(move || while running.load(Relaxed) > 0 {
                std::thread::sleep(Duration::from_millis(2));
                if Instant::now() > self.cfg.deadline {
                    self.timed_out.store(true, Relaxed);
                    self.stop.store(true, Relaxed);
                    self.sh.interrupt();
                    std::thread::sleep(Duration::from_millis(50));
                }
            });
        });
        Ok(())
    }
}

fn put_cst(o: &mut Obj, off: u64, ty: &T, c: &Cst) {
    match c {
        Cst::I(v, _) => {
            let n = ty.store_size();
            for i in 0..n { o.set(off + i, Cell::C((v >> (8 * i)) as u8)); }
        }
        Cst::Undef => for i in 0..ty.size() { o.set(off + i, Cell::U); },
        Cst::Agg(xs) => for (i, x) in xs.iter().enumerate() { put_cst(o, off + ty.offset(i), &ty.field(i), x); },
    }
}

fn cval(c: &Cst) -> Val {
    match c {
        Cst::I(v, w) => if *w <= 64 { Val::C(*v as u64) } else { Val::S(cst(*v, *w)) },
        Cst::Undef => Val::U,
        Cst::Agg(v) => Val::A(Arc::new(v.iter().map(cval).collect())),
    }
}

struct Worker<'e, 'm> {
    en: &'e Engine<'m>,
    sol: Solver<'e>,
    stack: Vec<State>,
    funcs: HashSet<u32>,
    rng: u64,
    ninst: u64,
    trace: bool,
}

fn m64(w: u32) -> u64 { if w >= 64 { u64::MAX } else { (1u64 << w) - 1 } }

impl<'e, 'm> Worker<'e, 'm> {
    fn new(en: &'e Engine<'m>, t: u64) -> Self {
        Worker { en, sol: Solver::new(&en.sh), stack: vec![], funcs: HashSet::new(), rng: en.cfg.seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ (t + 1), ninst: 0, trace: std::env::var("SX_TRACE").is_ok() }
    }
    fn rnd(&mut self) -> u64 { self.rng ^= self.rng << 13; self.rng ^= self.rng >> 7; self.rng ^= self.rng << 17; self.rng }

    fn main(&mut self) {
        loop {
            let st = {
                let mut q = self.en.q.lock().unwrap();
                loop {
                    if self.en.stop.load(Relaxed) { break None; }
                    if let Some(s) = q.states.pop() { q.active += 1; break Some(s); }
                    if q.active == 0 { self.en.cv.notify_all(); break None; }
                    self.en.idle.fetch_add(1, Relaxed);
                    q = self.en.cv.wait_timeout(q, Duration::from_millis(20)).unwrap().0;
                    self.en.idle.fetch_sub(1, Relaxed);
                }
            };
            let Some(st) = st else { break };
            self.stack.push(st);
            while let Some(s) = self.stack.pop() {
                if self.en.stop.load(Relaxed) { break; }
                self.run_path(s);
                if self.stack.len() > 1 && self.en.idle.load(Relaxed) > 0 {
                    let n = self.stack.len() / 2;
                    let mut q = self.en.q.lock().unwrap();
                    if q.states.len() < 16 {
                        let give: Vec<State> = self.stack.drain(..n).collect();
                        q.states.extend(give);
                        self.en.cv.notify_all();
                    }
                }
            }
            self.stack.clear();
            self.en.q.lock().unwrap().active -= 1;
            self.en.cv.notify_all();
        }
        self.en.insts.fetch_add(self.ninst, Relaxed);
        self.en.rep.lock().unwrap().funcs.extend(self.funcs.iter());
    }

    fn run_path(&mut self, mut st: State) {
        let r = loop {
            if st.ninst & 0x3ff == 0 {
                if self.en.stop.load(Relaxed) { return; }
                if Instant::now() > self.en.cfg.deadline {
                    self.en.timed_out.store(true, Relaxed);
                    self.en.stop.store(true, Relaxed);
                    self.en.cv.notify_all();
                    return;
                }
                if st.ninst > self.en.cfg.max_path_insts + st.room {
                    break Stop::Viol("nontermination".into(), format!("path exceeded {} instructions", self.en.cfg.max_path_insts + st.room));
                }
            }
            st.ninst += 1;
            self.ninst += 1;
            if let Err(e) = self.step(&mut st) { break e; }
        };
        self.en.max_pc.fetch_max(st.pc.len(), Relaxed);
        match r {
            Stop::Done => {
                self.en.paths.fetch_add(1, Relaxed);
                let mut rep = self.en.rep.lock().unwrap();
                for c in &st.covers { *rep.covers.entry(*c).or_insert(0) += 1; }
                rep.paths_seen += 1;
                let k = self.en.cfg.max_samples;
                let seen = rep.paths_seen;
                let slot = if rep.samples.len() < k { Some(rep.samples.len()) } else { let r = self.rnd() % seen; if (r as usize) < k { Some(r as usize) } else { None } };
                if let Some(i) = slot {
                    let s = self.sample(&st);
                    if i < rep.samples.len() { rep.samples[i] = s; } else { rep.samples.push(s); }
                }
            }
            Stop::Killed(e) => {
                self.en.paths_killed.fetch_add(1, Relaxed);
                if !e.is_empty() {
                    let stk = stack_of(&st, self.en.m);
                    *self.en.rep.lock().unwrap().errors.entry(format!("{e} at {}", stk.first().cloned().unwrap_or_default())).or_insert(0) += 1;
                }
            }
            Stop::Viol(k, m) => {
                self.violation(&st, k, m, None);
                self.en.paths_killed.fetch_add(1, Relaxed);
            }
        }
    }

    fn inputs(&self, st: &State, model: &HashMap<u32, u128>) -> Vec<u64> {
        st.vars.iter().enumerate().map(|(i, w)| (model.get(&(i as u32)).copied().unwrap_or(0) & mask(*w)) as u64).collect()
    }
    fn sample(&self, st: &State) -> Sample {
        let f = |i: u32| st.model.get(&i).copied().unwrap_or(0);
        let mut memo = HashMap::new();
        Sample {
            inputs: self.inputs(st, &st.model),
            emits: st.emits.iter().map(|(v, w)| match v { Val::C(c) => *c, Val::S(e) => { let _ = w; eval(e, &f, &mut memo) as u64 } _ => 0 }).collect(),
            pc: st.pc.len(),
        }
    }
    fn violation(&mut self, st: &State, kind: String, msg: String, model: Option<HashMap<u32, u128>>) {
        let mut mm = st.model.clone();
        if let Some(m) = model { mm.extend(m); }
        let v = Violation { kind, msg, inputs: self.inputs(st, &mm), stack: stack_of(st, self.en.m), emits: st.emits.len() };
        if self.trace { eprintln!("VIOL {v:?}"); }
        let mut rep = self.en.rep.lock().unwrap();
        let same = rep.violations.iter().filter(|o| o.kind == v.kind && o.msg == v.msg).count();
        if same < 3 { rep.violations.push(v); }
        if rep.violations.len() >= self.en.cfg.max_viol { self.en.stop.store(true, Relaxed); self.en.cv.notify_all(); }
    }

    // ---- constraints -------------------------------------------------------------------------

    fn slice(&self, st: &State, c: &E) -> Vec<E> {
        let mut need = c.vars;
        let mut out = vec![c.clone()];
        let mut used = vec![false; st.pc.len()];
        loop {
            let mut ch = false;
            for (i, p) in st.pc.iter().enumerate() {
                if !used[i] && p.vars & need != 0 { used[i] = true; need |= p.vars; out.push(p.clone()); ch = true; }
            }
            if !ch { return out; }
        }
    }
    fn query(&mut self, st: &State, c: &E) -> Res<Option<HashMap<u32, u128>>> {
        if c.is_true() { return Ok(Some(HashMap::new())); }
        if c.is_false() { return Ok(None); }
        let cs = self.slice(st, c);
        if self.en.stop.load(Relaxed) { return Err(Stop::Killed(String::new())); }
        let ans = self.sol.check(&cs);
        // an interrupted solver's answers count for nothing
        if self.en.stop.load(Relaxed) { return Err(Stop::Killed(String::new())); }
        match ans {
            Ans::Sat(m) => Ok(Some(m)),
            Ans::Unsat => Ok(None),
            Ans::Unknown => Err(Stop::Killed("solver: unknown/timeout".into())),
        }
    }
    fn model_says(&self, st: &State, c: &E) -> bool {
        let f = |i: u32| st.model.get(&i).copied().unwrap_or(0);
        eval(c, &f, &mut HashMap::new()) == 1
    }
    /// record e == v and what follows from it syntactically
    fn learn(&self, st: &mut State, e: &E, v: u128) {
        if e.as_const().is_some() || e.undef { return; }
        st.known.insert(e.h, v & mask(e.w));
        match &e.k {
            K::Not(a) => self.learn(st, a, 1 - (v & 1)),
            K::ZExt(a) => self.learn(st, a, v & mask(a.w)),
            K::SExt(a) => self.learn(st, a, v & mask(a.w)),
            K::Concat(h, l) => { self.learn(st, h, (v >> l.w) & mask(h.w)); self.learn(st, l, v & mask(l.w)); }
            K::Bin(BinOp::Add, a, b) => if let Some(c) = b.as_const() { self.learn(st, a, v.wrapping_sub(c) & mask(e.w)); },
            K::Bin(BinOp::Xor, a, b) => if let Some(c) = b.as_const() { self.learn(st, a, v ^ c); },
            K::Bin(BinOp::And, a, b) if e.w == 1 && v == 1 => { self.learn(st, a, 1); self.learn(st, b, 1); }
            K::Bin(BinOp::Or, a, b) if e.w == 1 && v == 0 => { self.learn(st, a, 0); self.learn(st, b, 0); }
            K::Cmp(Cmp::Eq, a, b) if v == 1 => {
                if let Some(c) = b.as_const() { self.learn(st, a, c); }
            }
            K::Ite(c, a, b) => {
                let (x, y) = (a.as_const(), b.as_const());
                if let (Some(x), Some(y)) = (x, y) { if x != y { if v == x { self.learn(st, c, 1) } else if v == y { self.learn(st, c, 0) } } }
                else if x.is_some() && x != Some(v) { self.learn(st, c, 0); self.learn(st, b, v); }
                else if y.is_some() && y != Some(v) { self.learn(st, c, 1); self.learn(st, a, v); }
            }
            _ => {}
        }
    }
    fn simp(&self, st: &State, e: &E) -> E {
        if st.known.is_empty() || e.as_const().is_some() { return e.clone(); }
        fn go(e: &E, k: &FMap<u128, u128>, memo: &mut HashMap<u128, E>) -> E {
            if e.as_const().is_some() { return e.clone(); }
            if let Some(v) = k.get(&e.h) { return cst(*v, e.w); }
            if let Some(r) = memo.get(&e.h) { return r.clone(); }
            let r = match &e.k {
                K::Const(_) | K::Var(_) | K::Undef(_) => e.clone(),
                K::Bin(o, a, b) => { let (x, y) = (go(a, k, memo), go(b, k, memo)); if same(&x, a) && same(&y, b) { e.clone() } else { bin(*o, &x, &y) } }
                K::Cmp(o, a, b) => { let (x, y) = (go(a, k, memo), go(b, k, memo)); if same(&x, a) && same(&y, b) { e.clone() } else { cmp(*o, &x, &y) } }
                K::Concat(a, b) => { let (x, y) = (go(a, k, memo), go(b, k, memo)); if same(&x, a) && same(&y, b) { e.clone() } else { concat(&x, &y) } }
                K::Not(a) => { let x = go(a, k, memo); if same(&x, a) { e.clone() } else { not(&x) } }
                K::ZExt(a) => { let x = go(a, k, memo); if same(&x, a) { e.clone() } else { zext(&x, e.w) } }
                K::SExt(a) => { let x = go(a, k, memo); if same(&x, a) { e.clone() } else { sext(&x, e.w) } }
                K::Extract(a, l) => { let x = go(a, k, memo); if same(&x, a) { e.clone() } else { extract(&x, *l, e.w) } }
                K::Ite(c, a, b) => {
                    let z = go(c, k, memo);
                    if z.is_true() { go(a, k, memo) } else if z.is_false() { go(b, k, memo) } else {
                        let (x, y) = (go(a, k, memo), go(b, k, memo));
                        if same(&x, a) && same(&y, b) && same(&z, c) { e.clone() } else { ite(&z, &x, &y) }
                    }
                }
            };
            memo.insert(e.h, r.clone());
            r
        }
        go(e, &st.known, &mut HashMap::new())
    }
    fn assume(&mut self, st: &mut State, c: &E) {
        if c.is_true() { return; }
        // split conjunctions for better slicing
        if let K::Bin(BinOp::And, a, b) = &c.k { if c.w == 1 { let (a, b) = (a.clone(), b.clone()); self.assume(st, &a); self.assume(st, &b); return; } }
        st.pc.push(c.clone());
        self.learn(st, c, 1);
    }
    fn no_undef(&mut self, st: &State, c: &E, what: &str) -> Res<E> {
        if !c.undef { return Ok(c.clone()); }
        let (c0, c1) = (subst_undef(c, 0), subst_undef(c, 1));
        if let Some(m) = self.query(st, &cmp(Cmp::Ne, &c0, &c1))? {
            let st2 = st.clone();
            self.violation(&st2, "uninit".into(), format!("{what} depends on uninitialised memory"), Some(m));
            return Err(Stop::Killed(String::new()));
        }
        let z = subst_undef_zero(c);
        Ok(z)
    }
    /// decide a boolean; forks the other outcome when feasible
    fn branch(&mut self, st: &mut State, v: &Val) -> Res<bool> {
        let e = match v {
            Val::C(c) => return Ok(c & 1 == 1),
            Val::U => return Err(Stop::Viol("uninit".into(), "branch on uninitialised memory".into())),
            Val::A(_) => return Err(Stop::Killed("branch on aggregate".into())),
            Val::S(e) => e.clone(),
        };
        let c = self.simp(st, &e);
        if let Some(x) = c.as_const() { return Ok(x == 1); }
        let c = self.no_undef(st, &c, "branch")?;
        if let Some(x) = c.as_const() { return Ok(x == 1); }
        self.en.sym_branches.fetch_add(1, Relaxed);
        let b = self.model_says(st, &c);
        self.en.sh.stats.model_hits.fetch_add(1, Relaxed);
        let (mine, other) = if b { (c.clone(), not(&c)) } else { (not(&c), c.clone()) };
        match self.query(st, &other)? {
            Some(m) => {
                let mut o = st.clone();
                o.model.extend(m);
                o.depth += 1;
                self.assume(&mut o, &other);
                self.learn(&mut o, &e, !b as u128);
                self.stack.push(o);
                self.en.forks.fetch_add(1, Relaxed);
                st.depth += 1;
                self.assume(st, &mine);
                self.learn(st, &e, b as u128);
            }
            None => { self.learn(st, &c, b as u128); self.learn(st, &e, b as u128); }
        }
        Ok(b)
    }
    /// concretise, forking over every other feasible value
    fn conc(&mut self, st: &mut State, v: &Val, w: u32, what: &str) -> Res<u64> {
        let e = match v {
            Val::C(c) => return Ok(*c),
            Val::U => return Err(Stop::Viol("uninit".into(), format!("{what} is uninitialised"))),
            Val::A(_) => return Err(Stop::Killed(format!("{what}: aggregate"))),
            Val::S(e) => e.clone(),
        };
        let _ = w;
        let c = self.simp(st, &e);
        if let Some(x) = c.as_const() { return Ok(x as u64); }
        let c = self.no_undef(st, &c, what)?;
        let f = |i: u32| st.model.get(&i).copied().unwrap_or(0);
        let x = eval(&c, &f, &mut HashMap::new());
        let eq = cmp(Cmp::Eq, &c, &cst(x, c.w));
        let ne = not(&eq);
        self.en.sym_branches.fetch_add(1, Relaxed);
        if let Some(m) = self.query(st, &ne)? {
            let mut o = st.clone();
            o.model.extend(m);
            o.depth += 1;
            self.assume(&mut o, &ne);
            self.stack.push(o);
            self.en.forks.fetch_add(1, Relaxed);
            st.depth += 1;
            self.assume(st, &eq);
        }
        self.learn(st, &c, x);
        self.learn(st, &e, x);
        Ok(x as u64)
    }

    // ---- memory ------------------------------------------------------------------------------

    fn obj<'s>(&self, st: &'s State, id: u32) -> Option<Result<std::borrow::Cow<'s, Arc<Obj>>, String>> {
        if let Some(o) = st.objs.get(&id) { return Some(Ok(std::borrow::Cow::Borrowed(o))); }
        if id >= GLOB_BASE as u32 && ((id - GLOB_BASE as u32) as usize) < self.en.gobjs.len() {
            return Some(self.en.gobj(id - GLOB_BASE as u32).map(std::borrow::Cow::Owned));
        }
        None
    }
    fn describe(&self, st: &State, addr: u64) -> String {
        let id = (addr >> 32) as u32;
        if addr < 4096 { return format!("null/dangling address {addr:#x}"); }
        if id as u64 >= FUNC_BASE { return "a function address".into(); }
        if id >= HEAP0 && id < st.next_obj && !st.objs.contains_key(&id) { return "freed or out-of-scope memory".into(); }
        "a wild address".into()
    }
    /// check an access at a concrete address; returns (object id, offset)
    fn access(&self, st: &State, addr: u64, len: u64, align: u64, write: bool) -> Res<(u32, u64)> {
        let id = (addr >> 32) as u32;
        let rw = if write { "write" } else { "read" };
        let v = |m: String| Stop::Viol("memory".into(), m);
        match self.obj(st, id) {
            None => Err(v(format!("{rw} of {len} bytes at {}", self.describe(st, addr)))),
            Some(Err(e)) => Err(Stop::Killed(e)),
            Some(Ok(o)) => {
                let lo = addr & 0xffff_ffff;
                if lo < o.align || lo - o.align + len > o.size {
                    return Err(v(format!("{rw} of {len} bytes out of bounds of a {:?} object of size {} (offset {})", o.kind, o.size, lo as i64 - o.align as i64)));
                }
                if align > 1 && addr % align != 0 { return Err(v(format!("misaligned {rw} (requires align {align}) in a {:?} object of align {}", o.kind, o.align))); }
                if write && o.kind == Kind::Const { return Err(v("write to constant memory".into())); }
                Ok((id, lo - o.align))
            }
        }
    }
    fn obj_mut<'s>(&self, st: &'s mut State, id: u32) -> Res<&'s mut Obj> {
        if !st.objs.contains_key(&id) {
            let g = self.en.gobj(id - GLOB_BASE as u32).map_err(Stop::Killed)?;
            st.objs.insert(id, g);
        }
        Ok(Arc::make_mut(st.objs.get_mut(&id).unwrap()))
    }
    /// turn a symbolic address into candidates. Ok(Left(addr)) = concrete; Ok(Right(list)) = ite over list
    fn resolve(&mut self, st: &mut State, p: &Val, len: u64, align: u64, write: bool, allow_ite: bool) -> Res<Result<u64, (E, Vec<u64>)>> {
        let e = match p {
            Val::C(c) => return Ok(Ok(*c)),
            Val::U => return Err(Stop::Viol("uninit".into(), "pointer is uninitialised".into())),
            Val::A(_) => return Err(Stop::Killed("aggregate pointer".into())),
            Val::S(e) => e.clone(),
        };
        let c = self.simp(st, &e);
        if let Some(x) = c.as_const() { return Ok(Ok(x as u64)); }
        let c = self.no_undef(st, &c, "address")?;
        // pick the object from the model, check it can't go outside; otherwise fork
        let f = |i: u32| st.model.get(&i).copied().unwrap_or(0);
        let x = eval(&c, &f, &mut HashMap::new()) as u64;
        let (id, _) = self.access(st, x, len, 1, write)?;
        let (osize, oalign) = { let o = self.obj(st, id).unwrap().map_err(Stop::Killed)?; (o.size, o.align) };
        let base = ((id as u64) << 32) | oalign;
        let inb = bin(BinOp::And, &cmp(Cmp::Ule, &cst(base as u128, 64), &c), &cmp(Cmp::Ule, &c, &cst((base + osize - len) as u128, 64)));
        let outb = not(&inb);
        self.en.sym_branches.fetch_add(1, Relaxed);
        if let Some(m) = self.query(st, &outb)? {
            let mut o = st.clone();
            o.model.extend(m);
            self.assume(&mut o, &outb);
            self.stack.push(o);
            self.en.forks.fetch_add(1, Relaxed);
            self.assume(st, &inb);
        }
        let _ = align;
        if allow_ite && st.ite_loads {
            // enumerate feasible addresses inside the object
            let mut cand = vec![x];
            let mut excl = not(&cmp(Cmp::Eq, &c, &cst(x as u128, 64)));
            while cand.len() <= 64 {
                let mut q = st.clone();
                q.pc.push(inb.clone());
                match self.query(&q, &excl)? {
                    None => { return Ok(if cand.len() == 1 { Ok(x) } else { Err((c, cand)) }); }
                    Some(m) => {
                        let mut mm = st.model.clone();
                        mm.extend(m);
                        let g = |i: u32| mm.get(&i).copied().unwrap_or(0);
                        let y = eval(&c, &g, &mut HashMap::new()) as u64;
                        cand.push(y);
                        excl = bin(BinOp::And, &excl, &not(&cmp(Cmp::Eq, &c, &cst(y as u128, 64))));
                    }
                }
                // many: every slot of the object at the stride the address is known to have
                let stride = 1u64 << low_zeros(&c).min(8);
                if cand.len() > 8 && osize / stride <= 512 && oalign >= stride {
                    let all: Vec<u64> = (0..).map(|i| base + i * stride).take_while(|a| *a + len <= base + osize).filter(|a| *a != x).collect();
                    cand.truncate(1);
                    cand.extend(all);
                    return Ok(Err((c, cand)));
                }
            }
        }
        let x = self.conc(st, &Val::S(c), 64, "address")?;
        Ok(Ok(x))
    }

    fn load_at(&self, st: &State, addr: u64, ty: &T, align: u64) -> Res<Val> {
        if !ty.is_scalar() {
            if ty.count() == 0 { return Ok(Val::A(Arc::new(vec![]))); }
            let mut v = vec![];
            for i in 0..ty.count() { v.push(self.load_at(st, addr.wrapping_add(ty.offset(i)), &ty.field(i), 1)?); }
            return Ok(Val::A(Arc::new(v)));
        }
        let n = ty.store_size();
        let (id, off) = self.access(st, addr, n, align, false)?;
        let o = self.obj(st, id).unwrap().map_err(Stop::Killed)?;
        let v = o.load(off, n);
        let w = ty.bits();
        Ok(if w as u64 != n * 8 { trunc_val(&v, n as u32 * 8, w) } else { v })
    }
    fn store_at(&mut self, st: &mut State, addr: u64, ty: &T, v: &Val, align: u64) -> Res<()> {
        if !ty.is_scalar() {
            for i in 0..ty.count() {
                let x = elem(v, i);
                self.store_at(st, addr.wrapping_add(ty.offset(i)), &ty.field(i), &x, 1)?;
            }
            return Ok(());
        }
        let n = ty.store_size();
        let (id, off) = self.access(st, addr, n, align, true)?;
        self.obj_mut(st, id)?.store(off, n, v);
        Ok(())
    }
    fn load(&mut self, st: &mut State, p: &Val, ty: &T, align: u64) -> Res<Val> {
        match self.resolve(st, p, ty.store_size(), align, false, ty.is_scalar())? {
            Ok(a) => self.load_at(st, a, ty, align),
            Err((e, cands)) => {
                let w = ty.bits();
                let mut acc: Option<E> = None;
                for a in cands {
                    let v = self.load_at(st, a, ty, align)?.e(w);
                    acc = Some(match acc { None => v, Some(x) => ite(&cmp(Cmp::Eq, &e, &cst(a as u128, 64)), &v, &x) });
                }
                Ok(Val::from_e(acc.unwrap()))
            }
        }
    }
    fn store(&mut self, st: &mut State, p: &Val, ty: &T, v: &Val, align: u64) -> Res<()> {
        match self.resolve(st, p, ty.store_size(), align, true, ty.is_scalar())? {
            Ok(a) => self.store_at(st, a, ty, v, align),
            Err((e, cands)) => {
                let w = ty.bits();
                for a in cands {
                    let old = self.load_at(st, a, ty, align)?.e(w);
                    let nv = ite(&cmp(Cmp::Eq, &e, &cst(a as u128, 64)), &v.e(w), &old);
                    self.store_at(st, a, ty, &Val::from_e(nv), align)?;
                }
                Ok(())
            }
        }
    }
    fn alloc(&mut self, st: &mut State, size: u64, align: u64, kind: Kind, zero: bool) -> Res<u64> {
        if size >= 1 << 31 { return Err(Stop::Killed(format!("allocation of {size} bytes"))); }
        let id = st.next_obj;
        st.next_obj += 1;
        st.objs.insert(id, Arc::new(Obj::new(size, align, kind, zero, 0)));
        if kind == Kind::Heap { st.heap_live += 1; }
        Ok(((id as u64) << 32) | align)
    }
    fn dealloc(&mut self, st: &mut State, addr: u64, size: u64, align: u64, what: &str) -> Res<()> {
        let id = (addr >> 32) as u32;
        let v = |m: String| Err(Stop::Viol("memory".into(), m));
        match st.objs.get(&id) {
            None => v(format!("{what} of {}", self.describe(st, addr))),
            Some(o) => {
                if o.kind != Kind::Heap { return v(format!("{what} of non-heap memory")); }
                if addr & 0xffff_ffff != o.align { return v(format!("{what} of a pointer into the middle of an allocation")); }
                if o.size != size || o.align != align { return v(format!("{what} with layout (size {size}, align {align}) of a block allocated with (size {}, align {})", o.size, o.align)); }
                st.objs.remove(&id);
                st.heap_live -= 1;
                Ok(())
            }
        }
    }
    fn copy(&mut self, st: &mut State, dst: u64, src: u64, n: u64, overlap_ok: bool) -> Res<()> {
        if n == 0 { return Ok(()); }
        let (si, so) = self.access(st, src, n, 1, false)?;
        let (di, d_o) = self.access(st, dst, n, 1, true)?;
        if !overlap_ok && si == di && so != d_o && so < d_o + n && d_o < so + n {
            return Err(Stop::Viol("memory".into(), "memcpy with overlapping ranges".into()));
        }
        let s = self.obj(st, si).unwrap().map_err(Stop::Killed)?.into_owned();
        if si == di {
            let cells = s.read_cells(so, n);
            let o = self.obj_mut(st, di)?;
            for (i, c) in cells.into_iter().enumerate() { o.set(d_o + i as u64, c); }
        } else {
            self.obj_mut(st, di)?.copy_from(d_o, &s, so, n);
        }
        Ok(())
    }

    // ---- control -----------------------------------------------------------------------------

    fn jump(&mut self, st: &mut State, to: u32) {
        let fr = st.frames.last_mut().unwrap();
        let from = fr.bb;
        fr.prev = from;
        fr.bb = to;
        fr.ip = 0;
        let f = fr.f.clone();
        let ph = &f.blocks[to as usize].phis;
        if ph.is_empty() { return; }
        if ph.len() == 1 {
            let (d, _, v) = &ph[0];
            for (b, o) in v { if *b == from { let x = opv(fr, o); fr.regs[*d as usize] = x; break; } }
            return;
        }
        let mut vals = Vec::with_capacity(ph.len());
        for (d, _, v) in ph {
            for (b, o) in v { if *b == from { vals.push((*d, opv(fr, o))); break; } }
        }
        for (d, x) in vals { fr.regs[d as usize] = x; }
    }
    fn pop_frame(&mut self, st: &mut State) -> Frame {
        let fr = st.frames.pop().unwrap();
        for a in &fr.allocas { st.objs.remove(a); }
        fr
    }
    /// the call instruction the (now top) frame is waiting on returns `v`
    fn finish_call(&mut self, st: &mut State, v: Val) {
        let fr = st.frames.last_mut().unwrap();
        let f = fr.f.clone();
        if let Inst::Call(c) = &f.blocks[fr.bb as usize].insts[fr.ip as usize] {
            if let Some(d) = c.dst { fr.regs[d as usize] = v; }
            match c.normal { Some(b) => self.jump(st, b), None => fr.ip += 1 }
        }
    }
    fn unwind(&mut self, st: &mut State) -> Res<()> {
        loop {
            let Some(fr) = st.frames.last() else { unreachable!() };
            let f = fr.f.clone();
            if let Inst::Call(c) = &f.blocks[fr.bb as usize].insts[fr.ip as usize] {
                if let Some(b) = c.unwind { self.jump(st, b); return Ok(()); }
            }
            let fr = self.pop_frame(st);
            if fr.catch {
                self.en.paths_panicked.fetch_add(1, Relaxed);
                self.finish_call(st, Val::C(1));
                return Ok(());
            }
            if st.frames.is_empty() {
                st.frames.push(fr);
                let m = st.last_panic.clone().unwrap_or_default();
                return Err(Stop::Viol("panic".into(), format!("uncaught panic at {m}")));
            }
        }
    }

    fn read_str(&self, st: &State, addr: u64, n: u64) -> String {
        let mut s = String::new();
        for i in 0..n.min(300) {
            match self.access(st, addr + i, 1, 1, false) {
                Ok((id, off)) => match self.obj(st, id).unwrap() { Ok(o) => match o.get(off) { Cell::C(b) => s.push(b as char), _ => return s }, _ => return s },
                Err(_) => return s,
            }
        }
        s
    }
    fn panic_loc(&self, st: &State, args: &[Val]) -> String {
        // the last argument is &'static Location { file: &str, line: u32, col: u32 }
        if let Some(Val::C(l)) = args.last() {
            let i64t: T = Arc::new(Type::Int(64));
            let i32t: T = Arc::new(Type::Int(32));
            if let (Ok(Val::C(p)), Ok(Val::C(n)), Ok(Val::C(line))) = (self.load_at(st, *l, &i64t, 1), self.load_at(st, l + 8, &i64t, 1), self.load_at(st, l + 16, &i32t, 1)) {
                let f = self.read_str(st, p, n);
                let f = f.rsplit("/library/").next().unwrap_or(&f).to_string();
                return format!("{f}:{line}");
            }
        }
        "?".into()
    }

    fn step(&mut self, st: &mut State) -> Res<()> {
        let fr = st.frames.last_mut().unwrap();
        let f: *const Func = &*fr.f;
        // SAFETY: parsed functions live in the module for the whole run
        let f: &Func = unsafe { &*f };
        let inst = &f.blocks[fr.bb as usize].insts[fr.ip as usize];
        macro_rules! v { ($o:expr) => { opv(st.frames.last().unwrap(), $o) } }
        macro_rules! set { ($d:expr, $v:expr) => {{ let x = $v; let fr = st.frames.last_mut().unwrap(); fr.regs[$d as usize] = x; fr.ip += 1; }} }
        match inst {
            Inst::Bin(op, t, a, b, d) => {
                let (a, b) = (v!(a), v!(b));
                if matches!(op, BinOp::UDiv | BinOp::SDiv | BinOp::URem | BinOp::SRem) && t.is_scalar() {
                    let w = t.bits();
                    let z = self.vcmp(Cmp::Eq, &b, &Val::C(0), w);
                    if self.branch(st, &z)? { return Err(Stop::Viol("memory".into(), "division by zero reached the hardware instruction".into())); }
                }
                let r = self.vbin(*op, &a, &b, t)?;
                set!(*d, r)
            }
            Inst::Icmp(op, t, a, b, d) => {
                let (a, b) = (v!(a), v!(b));
                let r = if t.is_scalar() { self.vcmp(*op, &a, &b, t.bits()) } else {
                    Val::A(Arc::new((0..t.count()).map(|i| self.vcmp(*op, &elem(&a, i), &elem(&b, i), t.field(i).bits())).collect()))
                };
                set!(*d, r)
            }
            Inst::Cast(k, t, t2, a, d) => {
                let a = v!(a);
                let r = if t.is_scalar() && t2.is_scalar() { vcast(*k, &a, t.bits(), t2.bits()) }
                    else if let (Type::Vec(n, _), Type::Vec(n2, _)) = (&**t, &**t2) {
                        if n == n2 { Val::A(Arc::new((0..*n as usize).map(|i| vcast(*k, &elem(&a, i), t.field(i).bits(), t2.field(i).bits())).collect())) } else { return Err(Stop::Killed("vector bitcast".into())); }
                    } else if let (Type::Vec(n, _), true) = (&**t, t2.is_scalar()) {
                        let mut acc: Option<E> = None;
                        for i in 0..*n as usize { let x = elem(&a, i).e(t.field(i).bits()); acc = Some(match acc { None => x, Some(y) => concat(&x, &y) }); }
                        Val::from_e(acc.unwrap())
                    } else if let (true, Type::Vec(n, et)) = (t.is_scalar(), &**t2) {
                        let x = a.e(t.bits());
                        let ew = et.bits();
                        Val::A(Arc::new((0..*n as u32).map(|i| Val::from_e(extract(&x, i * ew, ew))).collect()))
                    } else { return Err(Stop::Killed("aggregate cast".into())); };
                set!(*d, r)
            }
            Inst::Select(ct, t, c, a, b, d) => {
                let c = v!(c);
                let r = match &c {
                    Val::C(x) => if x & 1 == 1 { v!(a) } else { v!(b) },
                    Val::U => return Err(Stop::Viol("uninit".into(), "select on uninitialised memory".into())),
                    Val::S(_) => {
                        if t.is_scalar() {
                            let Val::S(ce) = &c else { unreachable!() };
                            let ce = self.simp(st, ce);
                            let ce = self.no_undef(st, &ce, "select")?;
                            if let Some(k) = ce.as_const() { if k == 1 { v!(a) } else { v!(b) } }
                            else { let (x, y) = (v!(a).e(t.bits()), v!(b).e(t.bits())); Val::from_e(ite(&ce, &x, &y)) }
                        } else if self.branch(st, &c)? { v!(a) } else { v!(b) }
                    }
                    Val::A(cs) => {
                        let _ = ct;
                        let (x, y) = (v!(a), v!(b));
                        let mut out = vec![];
                        for (i, c) in cs.iter().enumerate() {
                            let w = t.field(i).bits();
                            out.push(match c { Val::C(k) => if k & 1 == 1 { elem(&x, i) } else { elem(&y, i) }, o => Val::from_e(ite(&o.e(1), &elem(&x, i).e(w), &elem(&y, i).e(w))) });
                        }
                        Val::A(Arc::new(out))
                    }
                };
                set!(*d, r)
            }
            Inst::Gep(base, coff, terms, d) => {
                let b = v!(base);
                let mut acc = match &b { Val::C(x) => Val::C(x.wrapping_add(*coff)), Val::S(e) => Val::from_e(bin(BinOp::Add, e, &cst(*coff as u128, 64))), o => o.clone() };
                for (o, w, scale) in terms {
                    let i = v!(o);
                    acc = match (&acc, &i) {
                        (Val::C(a), Val::C(i)) => {
                            let ix = if *w < 64 { sx(*i as u128, *w) as u64 } else { *i };
                            Val::C(a.wrapping_add(ix.wrapping_mul(*scale)))
                        }
                        (Val::U, _) | (_, Val::U) => Val::U,
                        (a, i) => {
                            let ix = sext(&i.e(*w), 64);
                            Val::from_e(bin(BinOp::Add, &a.e(64), &bin(BinOp::Mul, &ix, &cst(*scale as u128, 64))))
                        }
                    };
                }
                set!(*d, acc)
            }
            Inst::Load(t, p, al, d, defined) => {
                let p = v!(p);
                let mut r = self.load(st, &p, t, *al)?;
                if *defined && self.en.cfg.strict_loads {
                    match &r {
                        Val::U => return Err(Stop::Viol("uninit".into(), "uninitialised memory is read".into())),
                        Val::S(e) if e.undef => { let e = e.clone(); r = Val::from_e(self.no_undef(st, &e, "value read")?); }
                        _ => {}
                    }
                }
                set!(*d, r)
            }
            Inst::Store(t, x, p, al) => {
                let (x, p) = (v!(x), v!(p));
                self.store(st, &p, t, &x, *al)?;
                st.frames.last_mut().unwrap().ip += 1;
            }
            Inst::Alloca(sz, al, d) => {
                let a = self.alloc(st, *sz, (*al).max(1), Kind::Stack, false)?;
                let fr = st.frames.last_mut().unwrap();
                fr.allocas.push((a >> 32) as u32);
                fr.regs[*d as usize] = Val::C(a);
                fr.ip += 1;
            }
            Inst::Br(b) => self.jump(st, *b),
            Inst::CondBr(c, a, b) => {
                let c = v!(c);
                let r = self.branch(st, &c)?;
                self.jump(st, if r { *a } else { *b });
            }
            Inst::Switch(w, x, cases, d) => {
                let x = v!(x);
                let to = match &x {
                    Val::C(k) => cases.iter().find(|c| c.0 as u64 == *k).map(|c| c.1).unwrap_or(*d),
                    Val::U => return Err(Stop::Viol("uninit".into(), "switch on uninitialised memory".into())),
                    _ => {
                        let mut to = *d;
                        for (k, lb) in cases {
                            let c = self.vcmp(Cmp::Eq, &x, &Val::C(*k as u64), *w);
                            if self.branch(st, &c)? { to = *lb; break; }
                        }
                        to
                    }
                };
                self.jump(st, to);
            }
            Inst::Ret(o) => {
                let r = match o { Some((_, o)) => v!(o), None => Val::U };
                let fr = self.pop_frame(st);
                if st.frames.is_empty() { return Err(Stop::Done); }
                self.finish_call(st, if fr.catch { Val::C(0) } else { r });
            }
            Inst::Unreachable => return Err(Stop::Viol("memory".into(), "code the compiler was told is unreachable is reached".into())),
            Inst::Resume(_) => {
                let fr = self.pop_frame(st);
                if fr.catch { self.finish_call(st, Val::C(1)); return Ok(()); }
                if st.frames.is_empty() {
                    st.frames.push(fr);
                    let m = st.last_panic.clone().unwrap_or_default();
                    return Err(Stop::Viol("panic".into(), format!("uncaught panic at {m}")));
                }
                self.unwind(st)?;
            }
            Inst::ExtractVal(_, a, ix, d) => {
                let mut x = v!(a);
                for i in ix { x = elem(&x, *i); }
                set!(*d, x)
            }
            Inst::InsertVal(t, a, _, b, ix, d) => {
                let (a, b) = (v!(a), v!(b));
                let r = insert(&a, t, ix, b);
                set!(*d, r)
            }
            Inst::LandingPad(d, _) => set!(*d, Val::A(Arc::new(vec![Val::C(16), Val::C(0)]))),
            Inst::Freeze(_, a, d) => { let x = v!(a); let x = match x { Val::U => Val::C(0), o => o }; set!(*d, x) }
            Inst::AtomicRmw(op, t, p, x, d) => {
                let (p, x) = (v!(p), v!(x));
                let old = self.load(st, &p, t, 1)?;
                let bo = match op.as_str() { "add" => Some(BinOp::Add), "sub" => Some(BinOp::Sub), "and" => Some(BinOp::And), "or" => Some(BinOp::Or), "xor" => Some(BinOp::Xor), "xchg" | "max" | "min" | "umax" | "umin" | "nand" => None, _ => return Err(Stop::Killed("atomicrmw".into())) };
                let nv = match bo { Some(o) => self.vbin(o, &old, &x, t)?, None => match op.as_str() {
                    "xchg" => x,
                    "nand" => { let y = self.vbin(BinOp::And, &old, &x, t)?; self.vbin(BinOp::Xor, &y, &Val::C(mask(t.bits()) as u64), t)? }
                    o => {
                        let k = match o { "max" => Cmp::Sgt, "min" => Cmp::Slt, "umax" => Cmp::Ugt, _ => Cmp::Ult };
                        let c = self.vcmp(k, &old, &x, t.bits());
                        Val::from_e(ite(&c.e(1), &old.e(t.bits()), &x.e(t.bits())))
                    }
                } };
                self.store(st, &p, t, &nv, 1)?;
                set!(*d, old)
            }
            Inst::CmpXchg(t, p, c, n, d) => {
                let (p, c, n) = (v!(p), v!(c), v!(n));
                let old = self.load(st, &p, t, 1)?;
                let eq = self.vcmp(Cmp::Eq, &old, &c, t.bits());
                let b = self.branch(st, &eq)?;
                if b { self.store(st, &p, t, &n, 1)?; }
                set!(*d, Val::A(Arc::new(vec![old, Val::C(b as u64)])))
            }
            Inst::Nop => st.frames.last_mut().unwrap().ip += 1,
            Inst::ExtractElem(t, a, i, d) => {
                let a = v!(a);
                let i = v!(i);
                let i = self.conc(st, &i, 64, "vector index")? as usize;
                if i >= t.count() { return Err(Stop::Killed("vector index".into())); }
                set!(*d, elem(&a, i))
            }
            Inst::InsertElem(t, a, x, i, d) => {
                let (a, x, i) = (v!(a), v!(x), v!(i));
                let i = self.conc(st, &i, 64, "vector index")? as usize;
                set!(*d, insert(&a, t, &[i], x))
            }
            Inst::Shuffle(t, a, b, mk, d) => {
                let (a, b) = (v!(a), v!(b));
                let n = t.count();
                let r: Vec<Val> = mk.iter().map(|k| if *k < 0 { Val::U } else if (*k as usize) < n { elem(&a, *k as usize) } else { elem(&b, *k as usize - n) }).collect();
                set!(*d, Val::A(Arc::new(r)))
            }
            Inst::Float(op, t, t2, a, d) => {
                let mut x = vec![];
                for o in a { let v = v!(o); x.push(self.conc(st, &v, t.bits(), "floating point operand")?); }
                let r = float(op, t, t2, &x).ok_or_else(|| Stop::Killed(format!("unsupported: {op}")))?;
                set!(*d, Val::C(r))
            }
            Inst::Unsupported(s) => return Err(Stop::Killed(format!("unsupported: {s}"))),
            Inst::Call(c) => return self.call(st, c),
        }
        Ok(())
    }

    fn vcmp(&self, op: Cmp, a: &Val, b: &Val, w: u32) -> Val {
        match (a, b) {
            (Val::C(x), Val::C(y)) => Val::C(fold_cmp(op, *x as u128, *y as u128, w) as u64),
            (Val::U, _) | (_, Val::U) => Val::U,
            _ => Val::from_e(cmp(op, &a.e(w), &b.e(w))),
        }
    }
    fn vbin(&self, op: BinOp, a: &Val, b: &Val, t: &T) -> Res<Val> {
        if !t.is_scalar() {
            let mut v = vec![];
            for i in 0..t.count() { v.push(self.vbin(op, &elem(a, i), &elem(b, i), &t.field(i))?); }
            return Ok(Val::A(Arc::new(v)));
        }
        let w = t.bits();
        Ok(match (a, b) {
            (Val::C(x), Val::C(y)) if w <= 64 => {
                let (x, y) = (*x, *y);
                Val::C(m64(w) & match op {
                    BinOp::Add => x.wrapping_add(y), BinOp::Sub => x.wrapping_sub(y), BinOp::Mul => x.wrapping_mul(y),
                    BinOp::And => x & y, BinOp::Or => x | y, BinOp::Xor => x ^ y,
                    _ => match fold_bin(op, x as u128, y as u128, w) { Some(r) => r as u64, None => return Err(Stop::Viol("memory".into(), "division by zero".into())) },
                })
            }
            (Val::U, o) | (o, Val::U) => {
                // an absorbing constant hides undefined bits
                match (op, o) { (BinOp::And, Val::C(0)) | (BinOp::Mul, Val::C(0)) => Val::C(0),
                    // the bits that stay defined matter: values are assembled with masks and shifts
                    (BinOp::And | BinOp::Or | BinOp::Shl | BinOp::LShr, Val::C(_) | Val::S(_)) => Val::from_e(bin(op, &a.e(w), &b.e(w))),
                    _ => Val::U }
            }
            _ => Val::from_e(bin(op, &a.e(w), &b.e(w))),
        })
    }

    fn call(&mut self, st: &mut State, c: &CallI) -> Res<()> {
        let mut args: Vec<Val> = Vec::with_capacity(c.args.len());
        { let fr = st.frames.last().unwrap(); for (_, o) in &c.args { args.push(opv(fr, o)); } }
        let fid = match &c.callee {
            Callee::F(i) => *i,
            Callee::Ind(o) => {
                let p = opv(st.frames.last().unwrap(), o);
                let a = self.conc(st, &p, 64, "function pointer")?;
                let id = (a >> 32).wrapping_sub(FUNC_BASE);
                if a & 0xffff_ffff != 16 || id as usize >= self.en.m.funcs.len() { return Err(Stop::Viol("memory".into(), format!("call through {}", self.describe(st, a)))); }
                id as u32
            }
        };
        let bi = self.en.bi[fid as usize];
        if bi == Bi::None { return self.enter(st, fid, args, false); }
        let ret = |s: &mut Self, st: &mut State, v: Val| { s.finish_call(st, v); Ok(()) };
        let bits = |i: usize| c.args[i].0.bits();
        match bi {
            Bi::None => unreachable!(),
            Bi::Unknown => Err(Stop::Killed(format!("call to external {}", self.en.m.funcs[fid as usize].name))),
            Bi::Nop | Bi::NoAllocShim => ret(self, st, Val::U),
            Bi::Alloc | Bi::AllocZeroed => {
                let n = self.conc(st, &args[0], 64, "allocation size")?;
                let al = self.conc(st, &args[1], 64, "allocation align")?;
                if n == 0 { return Err(Stop::Viol("memory".into(), "zero-size request to the global allocator".into())); }
                if !al.is_power_of_two() || n > isize::MAX as u64 - (al - 1) { return Err(Stop::Viol("memory".into(), "invalid allocation layout".into())); }
                // more than any machine has
                if st.may_fail && n >= 1 << 44 { return ret(self, st, Val::C(0)); }
                let a = self.alloc(st, n, al, Kind::Heap, bi == Bi::AllocZeroed)?;
                ret(self, st, Val::C(a))
            }
            Bi::Dealloc => {
                let p = self.conc(st, &args[0], 64, "dealloc pointer")?;
                let n = self.conc(st, &args[1], 64, "dealloc size")?;
                let al = self.conc(st, &args[2], 64, "dealloc align")?;
                self.dealloc(st, p, n, al, "dealloc")?;
                ret(self, st, Val::U)
            }
            Bi::Realloc => {
                let p = self.conc(st, &args[0], 64, "realloc pointer")?;
                let n = self.conc(st, &args[1], 64, "realloc size")?;
                let al = self.conc(st, &args[2], 64, "realloc align")?;
                let nn = self.conc(st, &args[3], 64, "realloc new size")?;
                if nn == 0 { return Err(Stop::Viol("memory".into(), "zero-size request to the global allocator".into())); }
                let id = (p >> 32) as u32;
                let old = st.objs.get(&id).cloned();
                self.dealloc(st, p, n, al, "realloc")?;
                let a = self.alloc(st, nn, al, Kind::Heap, false)?;
                let o = self.obj_mut(st, (a >> 32) as u32)?;
                o.copy_from(0, &old.unwrap(), 0, n.min(nn));
                ret(self, st, Val::C(a))
            }
            Bi::Panic => {
                let loc = self.panic_loc(st, &args);
                st.last_panic = Some(loc);
                self.unwind(st)
            }
            Bi::PanicNounwind => {
                let loc = self.panic_loc(st, &args);
                let mut what = demangle(&self.en.m.funcs[fid as usize].name);
                if let (Some(Val::C(p)), Some(Val::C(n))) = (args.first(), args.get(1)) { if *n < 300 { let s = self.read_str(st, *p, *n); if !s.is_empty() { what = s; } } }
                let k = if what.contains("cleanup") || what.contains("cannot_unwind") { "abort" } else { "memory" };
                Err(Stop::Viol(k.into(), format!("{what} ({loc})")))
            }
            // the process ends in an orderly way, which is what the property asks for
            Bi::AllocError if st.may_fail => Err(Stop::Killed(String::new())),
            Bi::AllocError => Err(Stop::Viol("memory".into(), "out of memory".into())),
            Bi::Trap | Bi::Abort => Err(Stop::Viol("abort".into(), format!("process abort ({})", self.en.m.funcs[fid as usize].name))),
            Bi::Memcpy | Bi::Memmove => {
                let n = self.conc(st, &args[2], 64, "copy length")?;
                if n == 0 { return ret(self, st, args[0].clone()); }
                let d = match self.resolve(st, &args[0], n, 1, true, false)? { Ok(a) => a, Err(_) => unreachable!() };
                let s = match self.resolve(st, &args[1], n, 1, false, false)? { Ok(a) => a, Err(_) => unreachable!() };
                self.copy(st, d, s, n, bi == Bi::Memmove)?;
                ret(self, st, Val::C(d))
            }
            Bi::Memset => {
                let n = self.conc(st, &args[2], 64, "set length")?;
                if n == 0 { return ret(self, st, Val::U); }
                let d = match self.resolve(st, &args[0], n, 1, true, false)? { Ok(a) => a, Err(_) => unreachable!() };
                let (id, off) = self.access(st, d, n, 1, true)?;
                let cell = match &args[1] { Val::C(b) => Cell::C(*b as u8), Val::U | Val::A(_) => Cell::U, Val::S(e) => Cell::S(e.clone(), 0) };
                self.obj_mut(st, id)?.fill(off, n, &cell);
                ret(self, st, Val::U)
            }
            Bi::Bcmp => {
                let n = self.conc(st, &args[2], 64, "compare length")?;
                if n == 0 { return ret(self, st, Val::C(0)); }
                let a = match self.resolve(st, &args[0], n, 1, false, false)? { Ok(a) => a, Err(_) => unreachable!() };
                let b = match self.resolve(st, &args[1], n, 1, false, false)? { Ok(a) => a, Err(_) => unreachable!() };
                let (ai, ao) = self.access(st, a, n, 1, false)?;
                let (bi_, bo) = self.access(st, b, n, 1, false)?;
                let (x, y) = (self.obj(st, ai).unwrap().map_err(Stop::Killed)?.into_owned(), self.obj(st, bi_).unwrap().map_err(Stop::Killed)?.into_owned());
                let byte = |c: Cell| match c { Cell::C(b) => cst(b as u128, 8), Cell::U => fresh_undef(8), Cell::S(e, i) => extract(&e, i as u32 * 8, 8) };
                let is_memcmp = self.en.m.funcs[fid as usize].name == "memcmp";
                // result: 0 when equal, +-1 by the first difference
                let mut acc = cst(0, 32);
                for i in (0..n).rev() {
                    let (p, q) = (byte(x.get(ao + i)), byte(y.get(bo + i)));
                    let ne = if is_memcmp { ite(&cmp(Cmp::Ult, &p, &q), &cst(u128::MAX, 32), &cst(1, 32)) } else { cst(1, 32) };
                    acc = ite(&cmp(Cmp::Eq, &p, &q), &acc, &ne);
                }
                ret(self, st, Val::from_e(acc))
            }
            Bi::Zero => ret(self, st, Val::C(0)),
            Bi::Random => {
                let n = self.conc(st, &args[1], 64, "random length")?;
                if n > 0 {
                    let d = match self.resolve(st, &args[0], n, 1, true, false)? { Ok(a) => a, Err(_) => unreachable!() };
                    let (id, off) = self.access(st, d, n, 1, true)?;
                    self.obj_mut(st, id)?.fill(off, n, &Cell::C(0x5a));
                }
                ret(self, st, Val::C(n))
            }
            Bi::Strlen => {
                let p = self.conc(st, &args[0], 64, "strlen")?;
                let (id, off) = self.access(st, p, 1, 1, false)?;
                let o = self.obj(st, id).unwrap().map_err(Stop::Killed)?.into_owned();
                let mut n = 0;
                loop { if off + n >= o.size { return Err(Stop::Viol("memory".into(), "strlen past the end".into())); } match o.get(off + n) { Cell::C(0) => break, Cell::C(_) => n += 1, _ => return Err(Stop::Killed("symbolic strlen".into())) } }
                ret(self, st, Val::C(n))
            }
            Bi::Assume => {
                if !self.branch(st, &args[0])? { return Err(Stop::Viol("memory".into(), "compiler assumption violated (undefined behaviour)".into())); }
                ret(self, st, Val::U)
            }
            Bi::Expect => { let v = args[0].clone(); ret(self, st, v) }
            Bi::UMax | Bi::UMin | Bi::SMax | Bi::SMin => {
                let w = bits(0);
                let op = match bi { Bi::UMax => Cmp::Ugt, Bi::UMin => Cmp::Ult, Bi::SMax => Cmp::Sgt, _ => Cmp::Slt };
                let c_ = self.vcmp(op, &args[0], &args[1], w);
                let r = match c_ { Val::C(k) => args[if k == 1 { 0 } else { 1 }].clone(), Val::U => Val::U, o => Val::from_e(ite(&o.e(1), &args[0].e(w), &args[1].e(w))) };
                ret(self, st, r)
            }
            Bi::Ovf(op, signed) => {
                let w = bits(0);
                if let (Val::U, _) | (_, Val::U) = (&args[0], &args[1]) { return ret(self, st, Val::A(Arc::new(vec![Val::U, Val::U]))); }
                let (a, b) = (args[0].e(w), args[1].e(w));
                let r = bin(op, &a, &b);
                let ww = if op == BinOp::Mul { w * 2 } else { w + 1 };
                let o = if !signed && op == BinOp::Mul && umax(&a).checked_mul(umax(&b)).map(|x| x <= mask(w)).unwrap_or(false) { ff() }
                else if !signed && op == BinOp::Add && umax(&a).checked_add(umax(&b)).map(|x| x <= mask(w)).unwrap_or(false) { ff() }
                else if !signed && op == BinOp::Sub { cmp(Cmp::Ult, &a, &b) }
                else if !signed && op == BinOp::Add { cmp(Cmp::Ult, &r, &a) }
                else if ww > 128 {
                    match (a.as_const(), b.as_const()) {
                        (Some(x), Some(y)) if w == 128 => {
                            let o = match (op, signed) { (BinOp::Mul, false) => x.checked_mul(y).is_none(), (BinOp::Mul, true) => (x as i128).checked_mul(y as i128).is_none(), (BinOp::Add, _) => (x as i128).checked_add(y as i128).is_none(), _ => (x as i128).checked_sub(y as i128).is_none() };
                            cst(o as u128, 1)
                        }
                        _ => return Err(Stop::Killed("wide overflow check".into())),
                    }
                } else {
                    let ext = |x: &E| if signed { sext(x, ww) } else { zext(x, ww) };
                    cmp(Cmp::Ne, &ext(&r), &bin(op, &ext(&a), &ext(&b)))
                };
                ret(self, st, Val::A(Arc::new(vec![Val::from_e(r), Val::from_e(o)])))
            }
            Bi::Float => {
                let mut x = vec![];
                for (i, v) in args.iter().enumerate() { x.push(self.conc(st, v, bits(i), "floating point operand")?); }
                let n = self.en.m.funcs[fid as usize].name.clone();
                let n = n.trim_start_matches("llvm.");
                let r = float(n, &c.args[0].0, &c.ret, &x).ok_or_else(|| Stop::Killed(format!("unsupported: {n}")))?;
                ret(self, st, Val::C(r))
            }
            Bi::Reduce => {
                let n = self.en.m.funcs[fid as usize].name.clone();
                let o = n.trim_start_matches("llvm.vector.reduce.").split('.').next().unwrap().to_string();
                let t = c.args[0].0.clone();
                let et = t.field(0);
                let w = et.bits();
                let mut acc = elem(&args[0], 0);
                for i in 1..t.count() {
                    let y = elem(&args[0], i);
                    let k = match o.as_str() { "umax" => Some(Cmp::Ugt), "umin" => Some(Cmp::Ult), "smax" => Some(Cmp::Sgt), "smin" => Some(Cmp::Slt), _ => None };
                    acc = match k {
                        Some(k) => { let q = self.vcmp(k, &acc, &y, w); if matches!((&q, &acc, &y), (Val::U, _, _) | (_, Val::U, _) | (_, _, Val::U)) { Val::U } else { Val::from_e(ite(&q.e(1), &acc.e(w), &y.e(w))) } }
                        None => {
                            let b = match o.as_str() { "and" => BinOp::And, "or" => BinOp::Or, "xor" => BinOp::Xor, "add" => BinOp::Add, "mul" => BinOp::Mul, _ => return Err(Stop::Killed(format!("call to external {n}"))) };
                            self.vbin(b, &acc, &y, &et)?
                        }
                    };
                }
                ret(self, st, acc)
            }
            Bi::Sat(op, true) => {
                let w = bits(0);
                let (a, b) = (args[0].e(w), args[1].e(w));
                let x = bin(op, &sext(&a, w + 1), &sext(&b, w + 1));
                let (lo, hi) = (cst(1 << (w - 1), w), cst(mask(w - 1), w));
                let r = extract(&x, 0, w);
                let over = cmp(Cmp::Sgt, &x, &sext(&hi, w + 1));
                let under = cmp(Cmp::Slt, &x, &sext(&lo, w + 1));
                ret(self, st, Val::from_e(ite(&over, &hi, &ite(&under, &lo, &r))))
            }
            Bi::Sat(op, _) => {
                let w = bits(0);
                let (a, b) = (args[0].e(w), args[1].e(w));
                let r = if op == BinOp::Sub { ite(&cmp(Cmp::Ult, &a, &b), &cst(0, w), &bin(BinOp::Sub, &a, &b)) } else {
                    let s = bin(BinOp::Add, &a, &b);
                    ite(&cmp(Cmp::Ult, &s, &a), &cst(mask(w), w), &s)
                };
                ret(self, st, Val::from_e(r))
            }
            Bi::Ctpop | Bi::Ctlz | Bi::Cttz | Bi::Bswap | Bi::Bitreverse => {
                let w = bits(0);
                let r = match &args[0] {
                    Val::U => Val::U,
                    a => {
                        let x = a.e(w);
                        let r = match bi {
                            Bi::Ctpop => { let mut s = cst(0, w); for i in 0..w { s = bin(BinOp::Add, &s, &zext(&extract(&x, i, 1), w)); } s }
                            Bi::Ctlz => { let mut s = cst(w as u128, w); for i in 0..w { s = ite(&extract(&x, i, 1), &cst((w - 1 - i) as u128, w), &s); } s }
                            Bi::Cttz => { let mut s = cst(w as u128, w); for i in (0..w).rev() { s = ite(&extract(&x, i, 1), &cst(i as u128, w), &s); } s }
                            Bi::Bswap => { let mut s = extract(&x, 0, 8); for i in 1..w / 8 { s = concat(&s, &extract(&x, i * 8, 8)); } s }
                            _ => { let mut s = extract(&x, 0, 1); for i in 1..w { s = concat(&s, &extract(&x, i, 1)); } s }
                        };
                        Val::from_e(r)
                    }
                };
                ret(self, st, r)
            }
            Bi::Fshl | Bi::Fshr => {
                let w = bits(0);
                let s = self.conc(st, &args[2], w, "funnel shift")? as u32 % w;
                let x = concat(&args[0].e(w), &args[1].e(w));
                let r = if bi == Bi::Fshl { extract(&x, w - s, w) } else { extract(&x, s, w) };
                ret(self, st, Val::from_e(r))
            }
            Bi::Ucmp | Bi::Scmp => {
                let w = bits(0);
                let rw = c.ret.bits();
                let lt = self.vcmp(if bi == Bi::Ucmp { Cmp::Ult } else { Cmp::Slt }, &args[0], &args[1], w);
                let eq = self.vcmp(Cmp::Eq, &args[0], &args[1], w);
                let r = if let (Val::U, _) = (&lt, ()) { Val::U } else { Val::from_e(ite(&lt.e(1), &cst(u128::MAX, rw), &ite(&eq.e(1), &cst(0, rw), &cst(1, rw)))) };
                ret(self, st, r)
            }
            Bi::Abs => {
                let w = bits(0);
                let x = args[0].e(w);
                let r = ite(&cmp(Cmp::Slt, &x, &cst(0, w)), &bin(BinOp::Sub, &cst(0, w), &x), &x);
                ret(self, st, Val::from_e(r))
            }
            Bi::IsConst => ret(self, st, Val::C(0)),
            Bi::Tls => { let v = args[0].clone(); ret(self, st, v) }

            Bi::SxAny => {
                let w = self.conc(st, &args[0], 32, "sx_any width")? as u32;
                let i = st.vars.len() as u32;
                st.vars.push(w);
                ret(self, st, Val::S(zext(&var(i, w), 64)))
            }
            Bi::SxChoose => {
                let n = self.conc(st, &args[0], 64, "sx_choose")?;
                if n == 0 { return Err(Stop::Killed(String::new())); }
                let i = st.vars.len() as u32;
                st.vars.push(32);
                let x = var(i, 32);
                for k in (1..n).rev() {
                    let mut o = st.clone();
                    let eq = cmp(Cmp::Eq, &x, &cst(k as u128, 32));
                    o.model.insert(i, k as u128);
                    self.assume(&mut o, &eq);
                    self.finish_call(&mut o, Val::C(k));
                    self.stack.push(o);
                    self.en.forks.fetch_add(1, Relaxed);
                }
                let eq = cmp(Cmp::Eq, &x, &cst(0, 32));
                st.model.insert(i, 0);
                self.assume(st, &eq);
                ret(self, st, Val::C(0))
            }
            Bi::SxConc => { let v = self.conc(st, &args[0], 64, "sx_concrete")?; ret(self, st, Val::C(v)) }
            Bi::SxAssume => {
                let e = match &args[0] { Val::C(k) => { if k & 1 == 1 { return ret(self, st, Val::U); } else { return Err(Stop::Killed(String::new())); } } o => o.e(bits(0)) };
                let e = extract(&e, 0, 1);
                let e = self.simp(st, &e);
                if e.is_false() { return Err(Stop::Killed(String::new())); }
                if !e.is_true() {
                    if !self.model_says(st, &e) {
                        match self.query(st, &e)? { Some(m) => st.model.extend(m), None => return Err(Stop::Killed(String::new())) }
                    }
                    self.assume(st, &e);
                }
                ret(self, st, Val::U)
            }
            Bi::SxCheck => {
                let id = self.conc(st, &args[1], 32, "check id")?;
                match &args[0] {
                    Val::C(k) => {
                        self.en.checks_const.fetch_add(1, Relaxed);
                        if k & 1 == 0 { return Err(Stop::Viol("check".into(), format!("check {id} failed"))); }
                    }
                    Val::U => return Err(Stop::Viol("uninit".into(), format!("check {id} depends on uninitialised memory"))),
                    o => {
                        let e = extract(&o.e(bits(0)), 0, 1);
                        let e = self.simp(st, &e);
                        if let Some(k) = e.as_const() {
                            self.en.checks_const.fetch_add(1, Relaxed);
                            if k == 0 { return Err(Stop::Viol("check".into(), format!("check {id} failed"))); }
                        } else {
                            let e = self.no_undef(st, &e, &format!("check {id}"))?;
                            self.en.checks_query.fetch_add(1, Relaxed);
                            let ne = not(&e);
                            if let Some(m) = self.query(st, &ne)? {
                                let st2 = st.clone();
                                self.violation(&st2, "check".into(), format!("check {id} failed"), Some(m));
                                match self.query(st, &e)? { Some(m) => st.model.extend(m), None => return Err(Stop::Killed(String::new())) }
                                self.assume(st, &e);
                            }
                        }
                    }
                }
                ret(self, st, Val::U)
            }
            Bi::SxEmit => { let v = args[0].clone(); if let Val::U = v { return Err(Stop::Viol("uninit".into(), "emitted value is uninitialised".into())); } st.emits.push((v, bits(0))); ret(self, st, Val::U) }
            Bi::SxCatch => {
                let a = self.conc(st, &args[0], 64, "sx_catch")?;
                let id = ((a >> 32) - FUNC_BASE) as u32;
                let d = args[1].clone();
                self.enter(st, id, vec![d], true)
            }
            Bi::SxLive => { let n = st.heap_live as u64; ret(self, st, Val::C(n)) }
            Bi::SxCover => { let k = self.conc(st, &args[0], 32, "cover")? as u32; if !st.covers.contains(&k) { st.covers.push(k); } ret(self, st, Val::U) }
            Bi::SxMode => { let k = self.conc(st, &args[0], 32, "mode")?; if k == u32::MAX as u64 { st.may_fail = true } else if k < 2 { st.ite_loads = k == 1 } else { st.room = (k >> 1) * 1_000_000 } ret(self, st, Val::U) }
            Bi::SxNote => { if self.trace { eprintln!("note {:?}", match &args[0] { Val::C(k) => format!("{k:#x}"), Val::S(e) => format!("sym {:?}", e.k), Val::U => "undef".into(), _ => "agg".into() }); } ret(self, st, Val::U) }
            Bi::SxWidth => { let r = matches!(args[0], Val::S(_)) as u64; ret(self, st, Val::C(r)) }
            Bi::SxNat => ret(self, st, Val::C(0)),
        }
    }

    fn enter(&mut self, st: &mut State, fid: u32, args: Vec<Val>, catch: bool) -> Res<()> {
        let f = self.en.m.func(fid).map_err(Stop::Killed)?;
        if st.frames.len() > 2000 { return Err(Stop::Viol("nontermination".into(), "call depth above 2000".into())); }
        self.funcs.insert(fid);
        let mut regs = vec![Val::U; f.nregs as usize];
        for (p, a) in f.params.iter().zip(args) { regs[*p as usize] = a; }
        if self.trace { eprintln!("{}> {}", " ".repeat(st.frames.len()), demangle(&self.en.m.funcs[fid as usize].name)); }
        st.frames.push(Frame { f, bb: 0, ip: 0, prev: 0, regs, allocas: vec![], catch });
        Ok(())
    }
}

/// number of low bits that are zero whatever the variables are
fn low_zeros(e: &E) -> u32 {
    match &e.k {
        K::Const(v) => v.trailing_zeros().min(e.w),
        K::Concat(h, l) => { let z = low_zeros(l); if z == l.w { z + low_zeros(h) } else { z } }
        K::ZExt(a) => { let z = low_zeros(a); if z == a.w { e.w } else { z } }
        K::SExt(a) => low_zeros(a),
        K::Bin(BinOp::Add | BinOp::Sub | BinOp::Or | BinOp::Xor, a, b) => low_zeros(a).min(low_zeros(b)),
        K::Bin(BinOp::And, a, b) => low_zeros(a).max(low_zeros(b)),
        K::Bin(BinOp::Mul, a, b) => (low_zeros(a) + low_zeros(b)).min(e.w),
        K::Bin(BinOp::Shl, a, b) => match b.as_const() { Some(k) => (low_zeros(a) + k as u32).min(e.w), None => low_zeros(a) },
        K::Ite(_, a, b) => low_zeros(a).min(low_zeros(b)),
        _ => 0,
    }
}
fn opv(fr: &Frame, o: &Op) -> Val {
    match o { Op::R(r) => fr.regs[*r as usize].clone(), Op::C(c) => cval(c) }
}
fn elem(v: &Val, i: usize) -> Val {
    match v { Val::A(a) => a.get(i).cloned().unwrap_or(Val::U), _ => Val::U }
}
fn insert(a: &Val, t: &T, ix: &[usize], b: Val) -> Val {
    if ix.is_empty() { return b; }
    let mut v: Vec<Val> = match a { Val::A(v) => (**v).clone(), _ => vec![Val::U; t.count()] };
    let x = insert(&v[ix[0]], &t.field(ix[0]), &ix[1..], b);
    v[ix[0]] = x;
    Val::A(Arc::new(v))
}
fn trunc_val(v: &Val, from: u32, to: u32) -> Val {
    let _ = from;
    match v { Val::C(c) => Val::C(c & m64(to)), Val::S(e) => Val::from_e(extract(e, 0, to)), o => o.clone() }
}
fn vcast(k: Cast, a: &Val, w: u32, w2: u32) -> Val {
    match a {
        Val::U if matches!(k, Cast::ZExt) => Val::from_e(zext(&fresh_undef(w), w2)),
        Val::U => Val::U,
        Val::A(_) => Val::U,
        Val::C(c) if w2 <= 64 => Val::C(match k { Cast::Trunc => c & m64(w2), Cast::SExt => sx(*c as u128, w) as u64 & m64(w2), _ => *c }),
        _ => {
            let e = a.e(w);
            Val::from_e(match k { Cast::Trunc => extract(&e, 0, w2), Cast::ZExt => zext(&e, w2), Cast::SExt => sext(&e, w2), Cast::Bit => e })
        }
    }
}
fn subst_undef(e: &E, bit: u64) -> E {
    map_undef(e, &|i, w| undef(i * 2 + bit + (1 << 48), w))
}
fn subst_undef_zero(e: &E) -> E { map_undef(e, &|_, w| cst(0, w)) }
fn map_undef(e: &E, f: &dyn Fn(u64, u32) -> E) -> E {
    if !e.undef { return e.clone(); }
    match &e.k {
        K::Undef(i) => f(*i, e.w),
        K::Const(_) | K::Var(_) => e.clone(),
        K::Bin(o, a, b) => bin(*o, &map_undef(a, f), &map_undef(b, f)),
        K::Cmp(o, a, b) => cmp(*o, &map_undef(a, f), &map_undef(b, f)),
        K::Not(a) => not(&map_undef(a, f)),
        K::Ite(c, a, b) => ite(&map_undef(c, f), &map_undef(a, f), &map_undef(b, f)),
        K::ZExt(a) => zext(&map_undef(a, f), e.w),
        K::SExt(a) => sext(&map_undef(a, f), e.w),
        K::Extract(a, l) => extract(&map_undef(a, f), *l, e.w),
        K::Concat(a, b) => concat(&map_undef(a, f), &map_undef(b, f)),
    }
}
fn stack_of(st: &State, m: &Module) -> Vec<String> {
    st.frames.iter().rev().take(14).map(|f| demangle(&m.funcs[f.f.id as usize].name)).collect()
}

/// floating point on concrete bits, as the hardware does it
fn float(op: &str, t: &T, t2: &T, x: &[u64]) -> Option<u64> {
    let single = |t: &T| matches!(**t, Type::F32);
    let is_f = |t: &T| matches!(**t, Type::F32 | Type::F64);
    let get = |i: usize| if single(t) { f32::from_bits(x[i] as u32) as f64 } else { f64::from_bits(x[i]) };
    let put = |v: f64| if single(t2) { (v as f32).to_bits() as u64 } else { v.to_bits() };
    if t.bits() > 64 || t2.bits() > 64 || t.bits() == 0 || t2.bits() == 0 { return None; }
    let w = t.bits();
    let signed = |v: u64| ((v << (64 - w)) as i64) >> (64 - w);
    let w2 = t2.bits();
    let m2 = mask(w2) as u64;
    // f32 arithmetic through f64 rounds once more, harmlessly for + - * / and sqrt
    Some(match op.split('.').next().unwrap() {
        "uitofp" => if single(t2) { (x[0] as f32).to_bits() as u64 } else { (x[0] as f64).to_bits() },
        "sitofp" => if single(t2) { (signed(x[0]) as f32).to_bits() as u64 } else { (signed(x[0]) as f64).to_bits() },
        "fptoui" => { let v = get(0) as u128; (if v > m2 as u128 { m2 } else { v as u64 }) & m2 }
        "fptosi" => { let v = get(0) as i128; let (lo, hi) = (-(1i128 << (w2 - 1)), (1i128 << (w2 - 1)) - 1); v.clamp(lo, hi) as u64 & m2 }
        "fpext" | "fptrunc" if is_f(t) && is_f(t2) => put(get(0)),
        "fadd" => put(get(0) + get(1)), "fsub" => put(get(0) - get(1)), "fmul" => put(get(0) * get(1)), "fdiv" => put(get(0) / get(1)), "frem" => put(get(0) % get(1)),
        "fneg" => put(-get(0)), "fabs" => put(get(0).abs()), "floor" => put(get(0).floor()), "ceil" => put(get(0).ceil()), "round" => put(get(0).round()), "trunc" => put(get(0).trunc()),
        "roundeven" | "rint" | "nearbyint" => put(get(0).round_ties_even()), "sqrt" => put(get(0).sqrt()),
        "maxnum" | "maximumnum" => put(get(0).max(get(1))), "minnum" | "minimumnum" => put(get(0).min(get(1))), "copysign" => put(get(0).copysign(get(1))),
        "fma" | "fmuladd" if !single(t) => put(get(0).mul_add(get(1), get(2))),
        "pow" if !single(t) => put(get(0).powf(get(1))), "powi" if !single(t) => put(get(0).powi(x[1] as i32)),
        "exp2" if !single(t) => put(get(0).exp2()), "log2" if !single(t) => put(get(0).log2()), "exp" if !single(t) => put(get(0).exp()), "log" if !single(t) => put(get(0).ln()), "log10" if !single(t) => put(get(0).log10()),
        "false" => 0, "true" => 1,
        p @ ("oeq" | "ogt" | "oge" | "olt" | "ole" | "one" | "ord" | "ueq" | "ugt" | "uge" | "ult" | "ule" | "une" | "uno") => {
            let (a, b) = (get(0), get(1));
            let un = a.is_nan() || b.is_nan();
            let c = match &p[1..] { "eq" => a == b, "gt" => a > b, "ge" => a >= b, "lt" => a < b, "le" => a <= b, "ne" => a != b, "rd" => true, _ => false };
            (if p == "ord" { !un } else if p == "uno" { un } else if p.starts_with('o') { !un && c } else { un || c }) as u64
        }
        _ => return None,
    })
}
