//! Parser for the textual LLVM IR that rustc produces (LLVM 17+ opaque pointers).
use crate::expr::{BinOp, Cmp};
use std::collections::HashMap;
use std::sync::{Arc, OnceLock};

pub type T = Arc<Type>;

#[derive(Debug, PartialEq)]
pub enum Type { Void, Int(u32), Ptr, F32, F64, Arr(u64, T), Vec(u64, T), Struct(Vec<T>, bool), Other }

impl Type {
    pub fn align(&self) -> u64 {
        match self {
            Type::Int(w) => match *w { 0..=8 => 1, 9..=16 => 2, 17..=32 => 4, 33..=64 => 8, _ => 16 },
            Type::Ptr | Type::F64 => 8,
            Type::F32 => 4,
            Type::Arr(_, t) => t.align(),
            Type::Vec(..) => self.raw_size().next_power_of_two(),
            Type::Struct(fs, packed) => if *packed { 1 } else { fs.iter().map(|f| f.align()).max().unwrap_or(1) },
            _ => 1,
        }
    }
    fn raw_size(&self) -> u64 {
        match self {
            Type::Int(w) => (*w as u64 + 7) / 8,
            Type::Ptr | Type::F64 => 8,
            Type::F32 => 4,
            Type::Arr(n, t) => n * t.size(),
            Type::Vec(n, t) => match &**t { Type::Int(w) => (n * *w as u64 + 7) / 8, o => n * o.raw_size() },
            Type::Struct(fs, _) => {
                let mut o = 0;
                for (i, f) in fs.iter().enumerate() { o = self.offset(i) + f.size(); }
                o
            }
            _ => 0,
        }
    }
    /// bytes a load/store of this type touches
    pub fn store_size(&self) -> u64 {
        match self { Type::Struct(..) | Type::Arr(..) => self.size(), _ => self.raw_size() }
    }
    /// allocation size (with tail padding)
    pub fn size(&self) -> u64 {
        let a = self.align();
        (self.raw_size() + a - 1) / a * a
    }
    pub fn offset(&self, idx: usize) -> u64 {
        match self {
            Type::Struct(fs, packed) => {
                let mut o = 0u64;
                for (i, f) in fs.iter().enumerate() {
                    let a = if *packed { 1 } else { f.align() };
                    o = (o + a - 1) / a * a;
                    if i == idx { return o; }
                    o += f.size();
                }
                o
            }
            Type::Arr(_, t) => t.size() * idx as u64,
            Type::Vec(_, t) => t.raw_size() * idx as u64,
            _ => 0,
        }
    }
    pub fn field(&self, idx: usize) -> T {
        match self { Type::Struct(fs, _) => fs[idx].clone(), Type::Arr(_, t) | Type::Vec(_, t) => t.clone(), _ => Arc::new(Type::Other) }
    }
    pub fn count(&self) -> usize {
        match self { Type::Struct(fs, _) => fs.len(), Type::Arr(n, _) | Type::Vec(n, _) => *n as usize, _ => 0 }
    }
    pub fn bits(&self) -> u32 {
        match self { Type::Int(w) => *w, Type::Ptr | Type::F64 => 64, Type::F32 => 32, _ => 0 }
    }
    pub fn is_scalar(&self) -> bool { self.bits() > 0 }
}

/// constant operand
#[derive(Debug, Clone)]
pub enum Cst { I(u128, u32), Undef, Agg(Vec<Cst>) }

#[derive(Debug, Clone)]
pub enum Op { R(u32), C(Cst) }

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Cast { Trunc, ZExt, SExt, Bit }

#[derive(Debug)]
pub struct CallI {
    pub callee: Callee,
    pub args: Vec<(T, Op)>,
    pub ret: T,
    pub dst: Option<u32>,
    pub normal: Option<u32>,
    pub unwind: Option<u32>,
}
#[derive(Debug)]
pub enum Callee { F(u32), Ind(Op) }

#[derive(Debug)]
pub enum Inst {
    Bin(BinOp, T, Op, Op, u32),
    Icmp(Cmp, T, Op, Op, u32),
    Cast(Cast, T, T, Op, u32),
    Select(T, T, Op, Op, Op, u32), // cond ty, val ty
    Gep(Op, u64, Vec<(Op, u32, u64)>, u32),
    /// type, address, alignment, destination, whether the value has to be initialised
    Load(T, Op, u64, u32, bool),
    Store(T, Op, Op, u64),
    Alloca(u64, u64, u32),
    Call(Box<CallI>),
    Br(u32),
    CondBr(Op, u32, u32),
    Switch(u32, Op, Vec<(u128, u32)>, u32),
    Ret(Option<(T, Op)>),
    Unreachable,
    Resume(Op),
    ExtractVal(T, Op, Vec<usize>, u32),
    InsertVal(T, Op, T, Op, Vec<usize>, u32),
    LandingPad(u32, bool), // has catch
    Freeze(T, Op, u32),
    AtomicRmw(String, T, Op, Op, u32),
    CmpXchg(T, Op, Op, Op, u32),
    Nop,
    ExtractElem(T, Op, Op, u32),
    InsertElem(T, Op, Op, Op, u32),
    Shuffle(T, Op, Op, Vec<i64>, u32),
    /// floating point on values that are concrete: operation, operand type, result type, operands
    Float(String, T, T, Vec<Op>, u32),
    Unsupported(String),
}

#[derive(Debug, Default)]
pub struct Block {
    pub phis: Vec<(u32, T, Vec<(u32, Op)>)>,
    pub insts: Vec<Inst>,
}
#[derive(Debug)]
pub struct Func {
    pub id: u32,
    pub params: Vec<u32>,
    pub nregs: u32,
    pub blocks: Vec<Block>,
    pub ninst: usize,
}

pub struct FuncDecl {
    pub name: String,
    pub text: Option<(usize, usize)>, // byte range of the whole define
    pub body: OnceLock<Result<Arc<Func>, String>>,
}
pub struct GlobalDecl {
    pub name: String,
    pub ty: T,
    pub align: u64,
    pub constant: bool,
    pub init: Option<(usize, usize)>, // text range of the initialiser
}
pub struct Module {
    pub text: String,
    pub funcs: Vec<FuncDecl>,
    pub fidx: HashMap<String, u32>,
    pub globals: Vec<GlobalDecl>,
    pub gidx: HashMap<String, u32>,
    pub named: HashMap<String, T>,
    pub gaddr: Vec<u64>,
}

pub const FUNC_BASE: u64 = 0x4000_0000;
pub const GLOB_BASE: u64 = 1;

pub fn func_addr(i: u32) -> u64 { ((FUNC_BASE + i as u64) << 32) | 16 }

#[derive(Debug, Clone, PartialEq)]
enum Tok<'a> { Local(&'a str), Global(&'a str), Word(&'a str), Int(&'a str), Str(Vec<u8>), P(u8), Meta, Attr, Dots, End }

struct Lex<'a> { s: &'a [u8], i: usize, peeked: Option<Tok<'a>> }

fn is_id(c: u8) -> bool { c.is_ascii_alphanumeric() || matches!(c, b'_' | b'.' | b'$' | b'-') }

impl<'a> Lex<'a> {
    fn new(s: &'a str) -> Self { Lex { s: s.as_bytes(), i: 0, peeked: None } }
    fn sub(&self, a: usize, b: usize) -> &'a str { std::str::from_utf8(&self.s[a..b]).unwrap_or("?") }
    fn name(&mut self) -> &'a str {
        if self.i < self.s.len() && self.s[self.i] == b'"' {
            let st = self.i + 1;
            self.i = st;
            while self.s[self.i] != b'"' { self.i += 1; }
            let r = self.sub(st, self.i);
            self.i += 1;
            r
        } else {
            let st = self.i;
            while self.i < self.s.len() && is_id(self.s[self.i]) { self.i += 1; }
            self.sub(st, self.i)
        }
    }
    fn lex(&mut self) -> Tok<'a> {
        while self.i < self.s.len() && (self.s[self.i] as char).is_ascii_whitespace() { self.i += 1; }
        if self.i >= self.s.len() { return Tok::End; }
        let c = self.s[self.i];
        match c {
            b'%' => { self.i += 1; Tok::Local(self.name()) }
            b'@' => { self.i += 1; Tok::Global(self.name()) }
            b'!' => {
                self.i += 1;
                self.name();
                Tok::Meta
            }
            b'#' => { self.i += 1; self.name(); Tok::Attr }
            b';' => { self.i = self.s.len(); Tok::End }
            b'c' if self.i + 1 < self.s.len() && self.s[self.i + 1] == b'"' => { self.i += 1; Tok::Str(self.string()) }
            b'"' => Tok::Str(self.string()),
            b'.' if self.s[self.i..].starts_with(b"...") => { self.i += 3; Tok::Dots }
            b'-' | b'0'..=b'9' => {
                let st = self.i;
                self.i += 1;
                while self.i < self.s.len() && (is_id(self.s[self.i]) || self.s[self.i] == b'+') { self.i += 1; }
                Tok::Int(self.sub(st, self.i))
            }
            c if c.is_ascii_alphabetic() || c == b'_' => {
                let st = self.i;
                while self.i < self.s.len() && is_id(self.s[self.i]) { self.i += 1; }
                Tok::Word(self.sub(st, self.i))
            }
            _ => { self.i += 1; Tok::P(c) }
        }
    }
    fn string(&mut self) -> Vec<u8> {
        self.i += 1;
        let mut out = vec![];
        while self.s[self.i] != b'"' {
            if self.s[self.i] == b'\\' {
                let h = self.sub(self.i + 1, self.i + 3);
                if let Ok(v) = u8::from_str_radix(h, 16) { out.push(v); self.i += 3; }
                else { out.push(b'\\'); self.i += 2; }
            } else { out.push(self.s[self.i]); self.i += 1; }
        }
        self.i += 1;
        out
    }
    fn next(&mut self) -> Tok<'a> { if let Some(t) = self.peeked.take() { t } else { self.lex() } }
    fn peek(&mut self) -> &Tok<'a> {
        if self.peeked.is_none() { let t = self.lex(); self.peeked = Some(t); }
        self.peeked.as_ref().unwrap()
    }
    fn is_p(&mut self, c: u8) -> bool { *self.peek() == Tok::P(c) }
    fn eat_p(&mut self, c: u8) -> bool { if self.is_p(c) { self.next(); true } else { false } }
    fn is_w(&mut self, w: &str) -> bool { matches!(self.peek(), Tok::Word(x) if *x == w) }
    fn eat_w(&mut self, w: &str) -> bool { if self.is_w(w) { self.next(); true } else { false } }
    fn need_p(&mut self, c: u8) -> R<()> { if self.eat_p(c) { Ok(()) } else { Err(format!("expected {:?} got {:?}", c as char, self.peek())) } }
    fn need_w(&mut self, w: &str) -> R<()> { if self.eat_w(w) { Ok(()) } else { Err(format!("expected {w} got {:?}", self.peek())) } }
    fn skip_parens(&mut self) {
        let mut d = 0;
        loop {
            match self.next() {
                Tok::P(b'(') => d += 1,
                Tok::P(b')') => { d -= 1; if d == 0 { return; } }
                Tok::End => return,
                _ => {}
            }
        }
    }
}
type R<X> = Result<X, String>;

fn int_lit(s: &str) -> Option<u128> {
    if let Some(n) = s.strip_prefix('-') { n.parse::<u128>().ok().map(|v| v.wrapping_neg()) } else { s.parse::<u128>().ok() }
}

impl Module {
    pub fn load(path: &str) -> R<Module> {
        let text = std::fs::read_to_string(path).map_err(|e| format!("{path}: {e}"))?;
        let mut m = Module { text: String::new(), funcs: vec![], fidx: HashMap::new(), globals: vec![], gidx: HashMap::new(), named: HashMap::new(), gaddr: vec![] };
        let mut pos = 0usize;
        let bytes = text.as_bytes();
        let n = bytes.len();
        let mut pending_globals = vec![];
        while pos < n {
            let eol = text[pos..].find('\n').map(|x| pos + x).unwrap_or(n);
            let line = &text[pos..eol];
            if line.starts_with("define ") {
                let end = text[pos..].find("\n}").map(|x| pos + x + 2).ok_or("unterminated define")?;
                let name = Self::fname(line)?;
                let id = m.funcs.len() as u32;
                m.fidx.insert(name.clone(), id);
                m.funcs.push(FuncDecl { name, text: Some((pos, end)), body: OnceLock::new() });
                pos = end + 1;
                continue;
            } else if line.starts_with("declare ") {
                let name = Self::fname(line)?;
                let id = m.funcs.len() as u32;
                m.fidx.insert(name.clone(), id);
                m.funcs.push(FuncDecl { name, text: None, body: OnceLock::new() });
            } else if line.starts_with('@') {
                pending_globals.push((pos, eol));
            } else if line.starts_with('%') {
                let mut lx = Lex::new(line);
                if let Tok::Local(nm) = lx.next() {
                    lx.need_p(b'=')?;
                    lx.need_w("type")?;
                    let ty = if lx.eat_w("opaque") { Arc::new(Type::Other) } else { m.ty(&mut lx)? };
                    m.named.insert(nm.to_string(), ty);
                }
            }
            pos = eol + 1;
        }
        for (a, b) in pending_globals {
            let line = &text[a..b];
            let mut lx = Lex::new(line);
            let name = match lx.next() { Tok::Global(g) => g.to_string(), t => return Err(format!("global? {t:?}")) };
            lx.need_p(b'=')?;
            let mut external = false;
            let constant;
            loop {
                match lx.next() {
                    Tok::Word("global") => { constant = false; break; }
                    Tok::Word("constant") => { constant = true; break; }
                    Tok::Word("alias") => { constant = true; external = true; break; }
                    Tok::Word("external") | Tok::Word("extern_weak") => external = true,
                    Tok::P(b'(') => { while !lx.eat_p(b')') { lx.next(); } }
                    Tok::End => return Err(format!("bad global {line}")),
                    _ => {}
                }
            }
            let ty = m.ty(&mut lx)?;
            let mut init = None;
            if !external {
                lx.peek();
                // start of the initialiser text: position before the peeked token
                let st = a + Self::init_start(line, &mut Lex::new(line), &m)?;
                init = Some((st, b));
            }
            let mut align = ty.align();
            if let Some(p) = line.rfind(", align ") {
                let d: String = line[p + 8..].chars().take_while(|c| c.is_ascii_digit()).collect();
                align = d.parse().unwrap_or(align);
            }
            let id = m.globals.len() as u32;
            m.gidx.insert(name.clone(), id);
            m.gaddr.push(((GLOB_BASE + id as u64) << 32) | align);
            m.globals.push(GlobalDecl { name, ty, align, constant, init });
        }
        m.text = text;
        Ok(m)
    }
    fn init_start(line: &str, lx: &mut Lex, m: &Module) -> R<usize> {
        lx.next();
        loop {
            match lx.next() {
                Tok::Word("global") | Tok::Word("constant") => break,
                Tok::End => return Err(format!("bad global {line}")),
                _ => {}
            }
        }
        m.ty(lx)?;
        // nothing peeked after a type unless it was followed by '(' lookahead; step back if so
        let mut i = lx.i;
        if lx.peeked.is_some() {
            // re-scan: find the start of the peeked token by walking back is error-prone; redo without peek
            let mut l2 = Lex::new(line);
            l2.next();
            loop { if let Tok::Word("global") | Tok::Word("constant") = l2.next() { break; } }
            i = m.ty_end(&mut l2)?;
        }
        Ok(i)
    }
    fn ty_end(&self, lx: &mut Lex) -> R<usize> {
        // type parser that records the position after the last consumed token
        self.ty_inner(lx)?;
        Ok(lx.i)
    }
    fn fname(line: &str) -> R<String> {
        let p = line.find('@').ok_or("no name")?;
        let mut lx = Lex::new(&line[p..]);
        match lx.next() { Tok::Global(g) => Ok(g.to_string()), t => Err(format!("fname {t:?}")) }
    }

    fn ty(&self, lx: &mut Lex) -> R<T> {
        let t = self.ty_inner(lx)?;
        Ok(t)
    }
    fn ty_inner(&self, lx: &mut Lex) -> R<T> {
        let t = match lx.next() {
            Tok::Word("void") => Type::Void,
            Tok::Word("ptr") => {
                // optional addrspace(n)
                Type::Ptr
            }
            Tok::Word("float") => Type::F32,
            Tok::Word("double") => Type::F64,
            Tok::Word("label") | Tok::Word("metadata") | Tok::Word("token") | Tok::Word("half") | Tok::Word("fp128") | Tok::Word("x86_fp80") => Type::Other,
            Tok::Word(w) if w.starts_with('i') && w[1..].parse::<u32>().is_ok() => Type::Int(w[1..].parse().unwrap()),
            Tok::P(b'[') => {
                let n = match lx.next() { Tok::Int(s) => s.parse::<u64>().map_err(|e| e.to_string())?, t => return Err(format!("arr {t:?}")) };
                lx.need_w("x")?;
                let t = self.ty_inner(lx)?;
                lx.need_p(b']')?;
                Type::Arr(n, t)
            }
            Tok::P(b'<') => {
                if lx.is_p(b'{') {
                    lx.next();
                    let fs = self.fields(lx)?;
                    lx.need_p(b'>')?;
                    Type::Struct(fs, true)
                } else {
                    let n = match lx.next() { Tok::Int(s) => s.parse::<u64>().map_err(|e| e.to_string())?, t => return Err(format!("vec {t:?}")) };
                    lx.need_w("x")?;
                    let t = self.ty_inner(lx)?;
                    lx.need_p(b'>')?;
                    Type::Vec(n, t)
                }
            }
            Tok::P(b'{') => Type::Struct(self.fields(lx)?, false),
            Tok::Local(n) => return self.named.get(n).cloned().ok_or(format!("type %{n}")),
            t => return Err(format!("type? {t:?}")),
        };
        Ok(Arc::new(t))
    }
    fn fields(&self, lx: &mut Lex) -> R<Vec<T>> {
        let mut fs = vec![];
        if lx.eat_p(b'}') { return Ok(fs); }
        loop {
            fs.push(self.ty_inner(lx)?);
            if lx.eat_p(b'}') { return Ok(fs); }
            lx.need_p(b',')?;
        }
    }

    fn addr_of(&self, n: &str) -> R<u64> {
        if let Some(g) = self.gidx.get(n) { return Ok(self.gaddr[*g as usize]); }
        if let Some(f) = self.fidx.get(n) { return Ok(func_addr(*f)); }
        Err(format!("unknown global @{n}"))
    }

    fn cst(&self, ty: &T, lx: &mut Lex) -> R<Cst> {
        let bits = ty.bits();
        Ok(match lx.next() {
            Tok::Int(s) => {
                if let Some(v) = int_lit(s) { Cst::I(v & crate::expr::mask(bits.max(1)), bits) }
                else if let Some(h) = s.strip_prefix("0x") {
                    let v = u64::from_str_radix(h, 16).map_err(|e| e.to_string())?;
                    if **ty == Type::F32 { Cst::I((f64::from_bits(v) as f32).to_bits() as u128, 32) } else { Cst::I(v as u128, bits) }
                } else if let Ok(f) = s.parse::<f64>() {
                    if **ty == Type::F32 { Cst::I((f as f32).to_bits() as u128, 32) } else { Cst::I(f.to_bits() as u128, 64) }
                } else { return Err(format!("int {s}")); }
            }
            Tok::Word("true") => Cst::I(1, 1),
            Tok::Word("false") => Cst::I(0, 1),
            Tok::Word("null") => Cst::I(0, 64),
            Tok::Word("undef") | Tok::Word("poison") => self.undef_of(ty),
            Tok::Word("zeroinitializer") => self.zero_of(ty),
            Tok::Word("none") => Cst::Undef,
            Tok::Global(n) => Cst::I(self.addr_of(n)? as u128, 64),
            Tok::Str(v) => Cst::Agg(v.into_iter().map(|b| Cst::I(b as u128, 8)).collect()),
            Tok::P(b'[') => self.agg(lx, b']')?,
            Tok::P(b'{') => self.agg(lx, b'}')?,
            Tok::P(b'<') => {
                if lx.eat_p(b'{') { let a = self.agg(lx, b'}')?; lx.need_p(b'>')?; a } else { self.agg(lx, b'>')? }
            }
            Tok::Word("splat") => {
                lx.need_p(b'(')?;
                let t = self.ty(lx)?;
                let c = self.cst(&t, lx)?;
                lx.need_p(b')')?;
                Cst::Agg(vec![c; ty.count()])
            }
            Tok::Word(w @ ("inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "zext" | "addrspacecast" | "ptrtoaddr")) => {
                let _ = w;
                lx.need_p(b'(')?;
                let t = self.ty(lx)?;
                let c = self.cst(&t, lx)?;
                lx.need_w("to")?;
                let t2 = self.ty(lx)?;
                lx.need_p(b')')?;
                match c { Cst::I(v, _) => Cst::I(v & crate::expr::mask(t2.bits()), t2.bits()), c => c }
            }
            Tok::Word("getelementptr") => {
                while let Tok::Word(_) = lx.peek() { lx.next(); if lx.is_p(b'(') && false { break; } }
                // inbounds/nuw/inrange(..) flags were skipped above; inrange has parens of its own
                lx.need_p(b'(')?;
                if matches!(lx.peek(), Tok::Int(_)) {
                    // inrange(a, b)
                    loop { if lx.eat_p(b')') { break; } lx.next(); }
                    lx.need_p(b'(')?;
                }
                let st = self.ty(lx)?;
                lx.need_p(b',')?;
                let pt = self.ty(lx)?;
                let base = match self.cst(&pt, lx)? { Cst::I(v, _) => v as u64, _ => return Err("gep base".into()) };
                let mut off = 0u64;
                let mut cur = st;
                let mut first = true;
                while lx.eat_p(b',') {
                    let it = self.ty(lx)?;
                    let i = match self.cst(&it, lx)? { Cst::I(v, w) => crate::expr::sx(v, w) as i64, _ => return Err("gep idx".into()) };
                    if first { off = off.wrapping_add((cur.size() as i64 * i) as u64); first = false; }
                    else { off = off.wrapping_add(if matches!(&*cur, Type::Struct(..)) { cur.offset(i as usize) } else { (cur.field(0).size() as i64 * i) as u64 }); cur = cur.field(i as usize); }
                }
                lx.need_p(b')')?;
                Cst::I(base.wrapping_add(off) as u128, 64)
            }
            Tok::Word(w @ ("sub" | "add")) => {
                while let Tok::Word(_) = lx.peek() { lx.next(); }
                lx.need_p(b'(')?;
                let t = self.ty(lx)?; let a = self.cst(&t, lx)?;
                lx.need_p(b',')?;
                let t2 = self.ty(lx)?; let b = self.cst(&t2, lx)?;
                lx.need_p(b')')?;
                match (a, b) { (Cst::I(x, w1), Cst::I(y, _)) => Cst::I(if w == "sub" { x.wrapping_sub(y) } else { x.wrapping_add(y) } & crate::expr::mask(w1), w1), _ => return Err("cexpr".into()) }
            }
            t => return Err(format!("const? {t:?}")),
        })
    }
    fn agg(&self, lx: &mut Lex, close: u8) -> R<Cst> {
        let mut v = vec![];
        if lx.eat_p(close) { return Ok(Cst::Agg(v)); }
        loop {
            let t = self.ty(lx)?;
            v.push(self.cst(&t, lx)?);
            if lx.eat_p(close) { return Ok(Cst::Agg(v)); }
            lx.need_p(b',')?;
        }
    }
    fn undef_of(&self, ty: &T) -> Cst {
        if ty.count() > 0 { Cst::Agg((0..ty.count()).map(|i| self.undef_of(&ty.field(i))).collect()) } else { Cst::Undef }
    }
    fn zero_of(&self, ty: &T) -> Cst {
        match &**ty {
            Type::Struct(..) | Type::Arr(..) | Type::Vec(..) => Cst::Agg((0..ty.count()).map(|i| self.zero_of(&ty.field(i))).collect()),
            _ => Cst::I(0, ty.bits()),
        }
    }
    pub fn global_init(&self, g: u32) -> R<Option<Cst>> {
        let d = &self.globals[g as usize];
        let Some((a, b)) = d.init else { return Ok(None) };
        let mut lx = Lex::new(&self.text[a..b]);
        self.cst(&d.ty, &mut lx).map(Some).map_err(|e| format!("global {}: {e}", d.name))
    }

    pub fn func(&self, id: u32) -> R<Arc<Func>> {
        let d = &self.funcs[id as usize];
        d.body.get_or_init(|| self.parse_func(id).map(Arc::new)).clone()
    }

    fn parse_func(&self, id: u32) -> R<Func> {
        let d = &self.funcs[id as usize];
        let (a, b) = d.text.ok_or_else(|| format!("no body: {}", d.name))?;
        let text = &self.text[a..b];
        let hdr_end = text.find('\n').unwrap();
        let mut p = FP { m: self, regs: HashMap::new(), labels: HashMap::new() };
        let mut params = vec![];
        {
            let hdr = &text[..hdr_end];
            let at = hdr.find('@').unwrap();
            let mut lx = Lex::new(&hdr[at..]);
            lx.next();
            lx.need_p(b'(')?;
            let mut n = 0;
            if !lx.eat_p(b')') {
                loop {
                    if *lx.peek() == Tok::Dots { lx.next(); lx.need_p(b')')?; break; }
                    self.ty(&mut lx)?;
                    skip_attrs(&mut lx);
                    let nm = match lx.peek() { Tok::Local(x) => { let x = x.to_string(); lx.next(); x } _ => n.to_string() };
                    params.push(p.reg(&nm));
                    n += 1;
                    if lx.eat_p(b')') { break; }
                    lx.need_p(b',')?;
                }
            }
        }
        // logical lines
        let mut lines: Vec<String> = vec![];
        let mut open = false;
        for l in text[hdr_end + 1..text.len() - 1].lines() {
            let t = l.trim();
            if t.is_empty() || t.starts_with(';') || t.starts_with("#dbg_") { continue; }
            if open { let last = lines.last_mut().unwrap(); last.push(' '); last.push_str(t); if t.starts_with(']') { open = false; } continue; }
            if t.starts_with("to label") || t.starts_with("catch ") || t == "cleanup" || t.starts_with("cleanup") && !t.contains(':') || t.starts_with("filter ") {
                let last = lines.last_mut().unwrap(); last.push(' '); last.push_str(t); continue;
            }
            if t.starts_with("switch ") && t.ends_with('[') { open = true; }
            lines.push(t.to_string());
        }
        // labels first (numbering: unnamed values and blocks share a counter, but names are explicit in the text)
        let mut blocks: Vec<Block> = vec![];
        let entry_named = lines.first().map(|l| label_of(l).is_some()).unwrap_or(false);
        let mut nb = 0u32;
        if !entry_named { p.labels.insert(params.len().to_string(), 0); nb = 1; }
        for l in &lines { if let Some(n) = label_of(l) { p.labels.insert(n, nb); nb += 1; } }
        for _ in 0..nb { blocks.push(Block::default()); }
        let mut cur = 0usize;
        if entry_named { cur = usize::MAX; }
        let mut next_b = if entry_named { 0 } else { 1 };
        let mut ninst = 0;
        for l in &lines {
            if label_of(l).is_some() { cur = next_b; next_b += 1; continue; }
            ninst += 1;
            match p.inst(l) {
                Ok(PI::Phi(r, t, v)) => blocks[cur].phis.push((r, t, v)),
                Ok(PI::I(i)) => blocks[cur].insts.push(i),
                Err(e) => blocks[cur].insts.push(Inst::Unsupported(format!("{e} in `{l}`"))),
            }
        }
        Ok(Func { id, params, nregs: p.regs.len() as u32, blocks, ninst })
    }
}

fn label_of(l: &str) -> Option<String> {
    let s = l.split(';').next().unwrap().trim_end();
    if !s.ends_with(':') { return None; }
    let s = &s[..s.len() - 1];
    let s = s.trim_matches('"');
    if !s.is_empty() && s.bytes().all(is_id) { Some(s.to_string()) } else { None }
}

fn skip_attrs(lx: &mut Lex) {
    loop {
        match lx.peek() {
            Tok::Word(w) => {
                let w = *w;
                if matches!(w, "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "inttoptr" | "ptrtoint" | "getelementptr" | "bitcast" | "splat" | "sub" | "add" | "none" | "c") { return; }
                lx.next();
                if w == "align" && matches!(lx.peek(), Tok::Int(_)) { lx.next(); continue; }
                if lx.is_p(b'(') { lx.skip_parens(); }
            }
            Tok::Attr => { lx.next(); }
            Tok::Str(_) => { lx.next(); if lx.eat_p(b'=') { lx.next(); } }
            _ => return,
        }
    }
}

enum PI { Phi(u32, T, Vec<(u32, Op)>), I(Inst) }

struct FP<'m> { m: &'m Module, regs: HashMap<String, u32>, labels: HashMap<String, u32> }

impl<'m> FP<'m> {
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(r) = self.regs.get(n) { return *r; }
        let r = self.regs.len() as u32;
        self.regs.insert(n.to_string(), r);
        r
    }
    fn op(&mut self, t: &T, lx: &mut Lex) -> R<Op> {
        if let Tok::Local(n) = lx.peek() {
            let n = n.to_string();
            lx.next();
            return Ok(Op::R(self.reg(&n)));
        }
        self.m.cst(t, lx).map(Op::C)
    }
    fn top(&mut self, lx: &mut Lex) -> R<(T, Op)> {
        let t = self.m.ty(lx)?;
        skip_attrs(lx);
        let o = self.op(&t, lx)?;
        Ok((t, o))
    }
    fn label(&mut self, lx: &mut Lex) -> R<u32> {
        lx.need_w("label")?;
        match lx.next() { Tok::Local(n) => self.labels.get(n).copied().ok_or(format!("label {n}")), t => Err(format!("label {t:?}")) }
    }
    fn align(lx: &mut Lex, dflt: u64) -> u64 {
        while lx.eat_p(b',') {
            if lx.eat_w("align") { if let Tok::Int(s) = lx.next() { return s.parse().unwrap_or(dflt); } }
            else { lx.next(); }
        }
        dflt
    }
    fn inst(&mut self, l: &str) -> R<PI> {
        let mut lx = Lex::new(l);
        let lx = &mut lx;
        let mut dst = 0u32;
        let mut has_dst = false;
        if let Tok::Local(n) = lx.peek() {
            let n = n.to_string();
            lx.next();
            lx.need_p(b'=')?;
            dst = self.reg(&n);
            has_dst = true;
        }
        let mut w = match lx.next() { Tok::Word(w) => w, t => return Err(format!("op {t:?}")) };
        if matches!(w, "tail" | "musttail" | "notail") { w = match lx.next() { Tok::Word(w) => w, t => return Err(format!("op {t:?}")) }; }
        let m = self.m;
        Ok(PI::I(match w {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" => {
                while matches!(lx.peek(), Tok::Word("nuw" | "nsw" | "exact" | "disjoint")) { lx.next(); }
                let t = m.ty(lx)?;
                let a = self.op(&t, lx)?;
                lx.need_p(b',')?;
                let b = self.op(&t, lx)?;
                use BinOp::*;
                let o = match w { "add" => Add, "sub" => Sub, "mul" => Mul, "udiv" => UDiv, "sdiv" => SDiv, "urem" => URem, "srem" => SRem, "and" => And, "or" => Or, "xor" => Xor, "shl" => Shl, "lshr" => LShr, _ => AShr };
                Inst::Bin(o, t, a, b, dst)
            }
            "icmp" => {
                lx.eat_w("samesign");
                let o = match lx.next() { Tok::Word(o) => o, t => return Err(format!("{t:?}")) };
                use Cmp::*;
                let o = match o { "eq" => Eq, "ne" => Ne, "ult" => Ult, "ule" => Ule, "ugt" => Ugt, "uge" => Uge, "slt" => Slt, "sle" => Sle, "sgt" => Sgt, "sge" => Sge, _ => return Err("pred".into()) };
                let t = m.ty(lx)?;
                let a = self.op(&t, lx)?;
                lx.need_p(b',')?;
                let b = self.op(&t, lx)?;
                Inst::Icmp(o, t, a, b, dst)
            }
            "fadd" | "fsub" | "fmul" | "fdiv" | "frem" | "fneg" | "fcmp" => {
                while matches!(lx.peek(), Tok::Word("fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc")) { lx.next(); }
                let o = if w == "fcmp" { match lx.next() { Tok::Word(o) => o.to_string(), t => return Err(format!("{t:?}")) } } else { w.to_string() };
                let t = m.ty(lx)?;
                let mut a = vec![self.op(&t, lx)?];
                if lx.eat_p(b',') && w != "fneg" { a.push(self.op(&t, lx)?); }
                let t2 = if w == "fcmp" { Arc::new(Type::Int(1)) } else { t.clone() };
                Inst::Float(o, t, t2, a, dst)
            }
            "uitofp" | "sitofp" | "fptoui" | "fptosi" | "fpext" | "fptrunc" => {
                while matches!(lx.peek(), Tok::Word("fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "nneg")) { lx.next(); }
                let (t, a) = self.top(lx)?;
                lx.need_w("to")?;
                let t2 = m.ty(lx)?;
                Inst::Float(w.to_string(), t, t2, vec![a], dst)
            }
            "trunc" | "zext" | "sext" | "bitcast" | "ptrtoint" | "inttoptr" | "addrspacecast" | "ptrtoaddr" => {
                while matches!(lx.peek(), Tok::Word("nuw" | "nsw" | "nneg")) { lx.next(); }
                let (t, a) = self.top(lx)?;
                lx.need_w("to")?;
                let t2 = m.ty(lx)?;
                let c = match w {
                    "trunc" => Cast::Trunc, "zext" => Cast::ZExt, "sext" => Cast::SExt,
                    _ => if t2.bits() < t.bits() && t2.bits() > 0 && w != "bitcast" { Cast::Trunc } else if t2.bits() > t.bits() && w != "bitcast" { Cast::ZExt } else { Cast::Bit },
                };
                Inst::Cast(c, t, t2, a, dst)
            }
            "select" => {
                let (ct, c) = self.top(lx)?;
                lx.need_p(b',')?;
                let (t, a) = self.top(lx)?;
                lx.need_p(b',')?;
                let (_, b) = self.top(lx)?;
                Inst::Select(ct, t, c, a, b, dst)
            }
            "getelementptr" => {
                while let Tok::Word(x) = lx.peek() { if matches!(*x, "inbounds" | "nuw" | "nusw") { lx.next(); } else if *x == "inrange" { lx.next(); lx.skip_parens(); } else { break; } }
                let st = m.ty(lx)?;
                lx.need_p(b',')?;
                let (_, base) = self.top(lx)?;
                let mut cur = st;
                let mut coff = 0u64;
                let mut terms = vec![];
                let mut first = true;
                while lx.eat_p(b',') {
                    if matches!(lx.peek(), Tok::Meta) { break; }
                    let (it, o) = self.top(lx)?;
                    let scale = if first { cur.size() } else if let Type::Struct(..) = &*cur { 0 } else { cur.field(0).size() };
                    match &o {
                        Op::C(Cst::I(v, w)) => {
                            let i = crate::expr::sx(*v, *w) as i64;
                            if !first && matches!(&*cur, Type::Struct(..)) { coff = coff.wrapping_add(cur.offset(i as usize)); cur = cur.field(i as usize); }
                            else { coff = coff.wrapping_add((scale as i64).wrapping_mul(i) as u64); if !first { cur = cur.field(0); } }
                        }
                        _ => {
                            terms.push((o.clone(), it.bits(), scale));
                            if !first { cur = cur.field(0); }
                        }
                    }
                    first = false;
                }
                Inst::Gep(base, coff, terms, dst)
            }
            "load" => {
                lx.eat_w("atomic"); lx.eat_w("volatile");
                let t = m.ty(lx)?;
                lx.need_p(b',')?;
                let (_, p) = self.top(lx)?;
                while matches!(lx.peek(), Tok::Word(_)) { lx.next(); if lx.is_p(b'(') { lx.skip_parens(); } }
                let al = Self::align(lx, t.align());
                Inst::Load(t, p, al, dst, l.contains("!noundef"))
            }
            "store" => {
                lx.eat_w("atomic"); lx.eat_w("volatile");
                let (t, v) = self.top(lx)?;
                lx.need_p(b',')?;
                let (_, p) = self.top(lx)?;
                while matches!(lx.peek(), Tok::Word(_)) { lx.next(); if lx.is_p(b'(') { lx.skip_parens(); } }
                let al = Self::align(lx, t.align());
                Inst::Store(t, v, p, al)
            }
            "alloca" => {
                let t = m.ty(lx)?;
                let al = Self::align(lx, t.align());
                Inst::Alloca(t.size(), al, dst)
            }
            "call" | "invoke" => {
                skip_cc(lx);
                let ret = m.ty(lx)?;
                // function type for varargs: ret (..., ...)
                if lx.is_p(b'(') { lx.skip_parens(); }
                let callee = match lx.peek().clone() {
                    Tok::Global(n) => { lx.next(); Callee::F(*m.fidx.get(n).ok_or(format!("callee {n}"))?) }
                    Tok::Local(n) => { lx.next(); Callee::Ind(Op::R(self.reg(n))) }
                    Tok::Word("asm") => return Ok(PI::I(if l.contains("asm sideeffect \"\"") && !has_dst { Inst::Nop } else { Inst::Unsupported("inline asm".into()) })),
                    _ => { let t = Arc::new(Type::Ptr); Callee::Ind(self.op(&t, lx)?) }
                };
                lx.need_p(b'(')?;
                let mut args = vec![];
                if !lx.eat_p(b')') {
                    loop {
                        if lx.is_w("metadata") {
                            // metadata argument: skip to , or )
                            lx.next();
                            let mut d = 0;
                            loop {
                                if d == 0 && (lx.is_p(b',') || lx.is_p(b')')) { break; }
                                match lx.next() { Tok::P(b'(') => d += 1, Tok::P(b')') => d -= 1, Tok::End => break, _ => {} }
                            }
                        } else {
                            args.push(self.top(lx)?);
                        }
                        if lx.eat_p(b')') { break; }
                        lx.need_p(b',')?;
                    }
                }
                let (mut normal, mut unwind) = (None, None);
                if w == "invoke" {
                    while !lx.is_w("to") { if *lx.peek() == Tok::End { return Err("invoke".into()); } lx.next(); if lx.is_p(b'(') { lx.skip_parens(); } }
                    lx.next();
                    normal = Some(self.label(lx)?);
                    lx.need_w("unwind")?;
                    unwind = Some(self.label(lx)?);
                }
                Inst::Call(Box::new(CallI { callee, args, ret: ret.clone(), dst: if has_dst { Some(dst) } else { None }, normal, unwind }))
            }
            "br" => {
                if lx.is_w("label") { Inst::Br(self.label(lx)?) } else {
                    let (_, c) = self.top(lx)?;
                    lx.need_p(b',')?;
                    let a = self.label(lx)?;
                    lx.need_p(b',')?;
                    let b = self.label(lx)?;
                    Inst::CondBr(c, a, b)
                }
            }
            "switch" => {
                let (t, v) = self.top(lx)?;
                lx.need_p(b',')?;
                let d = self.label(lx)?;
                lx.need_p(b'[')?;
                let mut cs = vec![];
                while !lx.eat_p(b']') {
                    let (_, c) = self.top(lx)?;
                    lx.need_p(b',')?;
                    let lb = self.label(lx)?;
                    if let Op::C(Cst::I(v, _)) = c { cs.push((v, lb)); }
                }
                Inst::Switch(t.bits(), v, cs, d)
            }
            "ret" => {
                if lx.is_w("void") { Inst::Ret(None) } else { Inst::Ret(Some(self.top(lx)?)) }
            }
            "unreachable" => Inst::Unreachable,
            "resume" => Inst::Resume(self.top(lx)?.1),
            "extractvalue" => {
                let (t, a) = self.top(lx)?;
                Inst::ExtractVal(t, a, idxs(lx), dst)
            }
            "insertvalue" => {
                let (t, a) = self.top(lx)?;
                lx.need_p(b',')?;
                let (t2, b) = self.top(lx)?;
                Inst::InsertVal(t, a, t2, b, idxs(lx), dst)
            }
            "landingpad" => Inst::LandingPad(dst, l.contains(" catch ")),
            "freeze" => { let (t, a) = self.top(lx)?; Inst::Freeze(t, a, dst) }
            "fence" => Inst::Nop,
            "atomicrmw" => {
                lx.eat_w("volatile");
                let o = match lx.next() { Tok::Word(o) => o.to_string(), t => return Err(format!("{t:?}")) };
                let (_, p) = self.top(lx)?;
                lx.need_p(b',')?;
                let (t, v) = self.top(lx)?;
                Inst::AtomicRmw(o, t, p, v, dst)
            }
            "cmpxchg" => {
                lx.eat_w("weak"); lx.eat_w("volatile");
                let (_, p) = self.top(lx)?;
                lx.need_p(b',')?;
                let (t, c) = self.top(lx)?;
                lx.need_p(b',')?;
                let (_, n) = self.top(lx)?;
                Inst::CmpXchg(t, p, c, n, dst)
            }
            "phi" => {
                let t = m.ty(lx)?;
                let mut v = vec![];
                loop {
                    lx.need_p(b'[')?;
                    let o = self.op(&t, lx)?;
                    lx.need_p(b',')?;
                    let lb = match lx.next() { Tok::Local(n) => *self.labels.get(n).ok_or("phi label")?, t => return Err(format!("{t:?}")) };
                    lx.need_p(b']')?;
                    v.push((lb, o));
                    if !lx.eat_p(b',') { break; }
                    if matches!(lx.peek(), Tok::Meta) { break; }
                }
                return Ok(PI::Phi(dst, t, v));
            }
            "extractelement" => {
                let (t, a) = self.top(lx)?;
                lx.need_p(b',')?;
                let (_, i) = self.top(lx)?;
                Inst::ExtractElem(t, a, i, dst)
            }
            "insertelement" => {
                let (t, a) = self.top(lx)?;
                lx.need_p(b',')?;
                let (_, v) = self.top(lx)?;
                lx.need_p(b',')?;
                let (_, i) = self.top(lx)?;
                Inst::InsertElem(t, a, v, i, dst)
            }
            "shufflevector" => {
                let (t, a) = self.top(lx)?;
                lx.need_p(b',')?;
                let (_, b) = self.top(lx)?;
                lx.need_p(b',')?;
                let (_, mk) = self.top(lx)?;
                let mk = match mk { Op::C(Cst::Agg(v)) => v.iter().map(|c| match c { Cst::I(v, _) => *v as i64, _ => -1 }).collect(), _ => return Err("shuffle mask".into()) };
                Inst::Shuffle(t, a, b, mk, dst)
            }
            _ => Inst::Unsupported(format!("instruction `{w}`")),
        }))
    }
}
fn idxs(lx: &mut Lex) -> Vec<usize> {
    let mut v = vec![];
    while lx.eat_p(b',') { if let Tok::Int(s) = lx.peek() { v.push(s.parse().unwrap()); lx.next(); } else { break; } }
    v
}
fn skip_cc(lx: &mut Lex) {
    // calling convention, fast-math flags and return attributes up to the return type
    loop {
        match lx.peek() {
            Tok::Word(w) => {
                let w = *w;
                let is_ty = matches!(w, "void" | "ptr" | "float" | "double") || (w.starts_with('i') && w[1..].parse::<u32>().is_ok());
                if is_ty { return; }
                lx.next();
                if w == "align" && matches!(lx.peek(), Tok::Int(_)) { lx.next(); continue; }
                if lx.is_p(b'(') { lx.skip_parens(); }
            }
            Tok::Attr => { lx.next(); }
            _ => return,
        }
    }
}
