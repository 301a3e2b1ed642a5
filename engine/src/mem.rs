//! Byte-precise object memory: every byte is concrete, uninitialised or part of a symbolic expression.
use crate::expr::*;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::{Arc, OnceLock};

pub const CH: usize = 512;
const UNINIT: u16 = 0x100;
const SYM: u16 = 0x200;

#[derive(Clone)]
pub struct Chunk { cells: [u16; CH], syms: BTreeMap<u16, (E, u8)> }

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind { Heap, Stack, Global, Const }

#[derive(Clone)]
pub struct Obj { pub size: u64, pub align: u64, pub kind: Kind, pub site: u32, chunks: Vec<Option<Arc<Chunk>>> }

#[derive(Clone)]
pub enum Val { C(u64), S(E), A(Arc<Vec<Val>>), U }

impl Val {
    pub fn from_e(e: E) -> Val {
        if e.w <= 64 { if let Some(c) = e.as_const() { return Val::C(c as u64); } }
        Val::S(e)
    }
    /// as an expression of width w (an undefined value becomes fresh unspecified bits)
    pub fn e(&self, w: u32) -> E {
        match self {
            Val::C(c) => cst(*c as u128, w),
            Val::S(e) => { debug_assert_eq!(e.w, w); e.clone() }
            Val::U => fresh_undef(w),
            Val::A(_) => fresh_undef(w),
        }
    }
}

static UNDEF_CTR: AtomicU64 = AtomicU64::new(1);
pub fn fresh_undef(w: u32) -> E { undef(UNDEF_CTR.fetch_add(1, Relaxed), w) }

fn zero_chunk() -> Arc<Chunk> {
    static Z: OnceLock<Arc<Chunk>> = OnceLock::new();
    Z.get_or_init(|| Arc::new(Chunk { cells: [0; CH], syms: BTreeMap::new() })).clone()
}
fn uninit_chunk() -> Chunk { Chunk { cells: [UNINIT; CH], syms: BTreeMap::new() } }

#[derive(Clone)]
pub enum Cell { C(u8), U, S(E, u8) }

impl Obj {
    pub fn new(size: u64, align: u64, kind: Kind, zero: bool, site: u32) -> Obj {
        let n = (size as usize + CH - 1) / CH;
        let c = if zero { Some(zero_chunk()) } else { None };
        Obj { size, align, kind, site, chunks: vec![c; n] }
    }
    pub fn get(&self, off: u64) -> Cell {
        let (ci, o) = (off as usize / CH, off as usize % CH);
        match &self.chunks[ci] {
            None => Cell::U,
            Some(c) => match c.cells[o] {
                SYM => { let (e, i) = &c.syms[&(o as u16)]; Cell::S(e.clone(), *i) }
                UNINIT => Cell::U,
                v => Cell::C(v as u8),
            },
        }
    }
    fn chunk_mut(&mut self, ci: usize) -> &mut Chunk {
        let s = &mut self.chunks[ci];
        if s.is_none() { *s = Some(Arc::new(uninit_chunk())); }
        Arc::make_mut(s.as_mut().unwrap())
    }
    pub fn set(&mut self, off: u64, c: Cell) {
        let (ci, o) = (off as usize / CH, off as usize % CH);
        if let (Cell::U, None) = (&c, &self.chunks[ci]) { return; }
        let ch = self.chunk_mut(ci);
        if ch.cells[o] == SYM { ch.syms.remove(&(o as u16)); }
        match c {
            Cell::C(b) => ch.cells[o] = b as u16,
            Cell::U => ch.cells[o] = UNINIT,
            Cell::S(e, i) => { ch.cells[o] = SYM; ch.syms.insert(o as u16, (e, i)); }
        }
    }
    /// load n bytes (n <= 16) as a value of 8n bits
    pub fn load(&self, off: u64, n: u64) -> Val {
        let (ci, o) = (off as usize / CH, off as usize % CH);
        let n = n as usize;
        if o + n <= CH && n <= 8 {
            match &self.chunks[ci] {
                None => return Val::U,
                Some(c) => {
                    let mut v = 0u64;
                    let mut any = 0u16;
                    for i in (0..n).rev() { let x = c.cells[o + i]; any |= x; v = (v << 8) | (x & 0xff) as u64; }
                    if any < 0x100 { return Val::C(v); }
                    if any & SYM == 0 && c.cells[o..o + n].iter().all(|x| *x == UNINIT) { return Val::U; }
                }
            }
        }
        let cells: Vec<Cell> = (0..n as u64).map(|i| self.get(off + i)).collect();
        if cells.iter().all(|c| matches!(c, Cell::U)) { return Val::U; }
        if let Cell::S(e0, i0) = &cells[0] {
            if cells.iter().enumerate().all(|(k, c)| matches!(c, Cell::S(e, i) if same(e, e0) && *i as usize == *i0 as usize + k)) {
                return Val::from_e(extract(e0, *i0 as u32 * 8, n as u32 * 8));
            }
        }
        let mut acc: Option<E> = None;
        for c in &cells {
            let b = match c {
                Cell::C(b) => cst(*b as u128, 8),
                Cell::U => fresh_undef(8),
                Cell::S(e, i) => extract(e, *i as u32 * 8, 8),
            };
            acc = Some(match acc { None => b, Some(a) => concat(&b, &a) });
        }
        Val::from_e(acc.unwrap())
    }
    pub fn store(&mut self, off: u64, n: u64, v: &Val) {
        match v {
            Val::C(c) => {
                let (ci, o) = (off as usize / CH, off as usize % CH);
                if o + n as usize <= CH {
                    let ch = self.chunk_mut(ci);
                    for i in 0..n as usize {
                        if ch.cells[o + i] == SYM { ch.syms.remove(&((o + i) as u16)); }
                        ch.cells[o + i] = if i < 8 { (c >> (8 * i)) as u8 as u16 } else { 0 };
                    }
                } else {
                    for i in 0..n { self.set(off + i, Cell::C(if i < 8 { (c >> (8 * i)) as u8 } else { 0 })); }
                }
            }
            Val::U | Val::A(_) => for i in 0..n { self.set(off + i, Cell::U); },
            Val::S(e) => {
                let e = if e.w as u64 == n * 8 { e.clone() } else { zext(e, n as u32 * 8) };
                if let Some(c) = e.as_const() { for i in 0..n { self.set(off + i, Cell::C((c >> (8 * i)) as u8)); } return; }
                for i in 0..n { self.set(off + i, Cell::S(e.clone(), i as u8)); }
            }
        }
    }
    pub fn fill(&mut self, off: u64, n: u64, c: &Cell) {
        let mut i = 0;
        while i < n {
            let p = (off + i) as usize;
            if p % CH == 0 && n - i >= CH as u64 {
                match c {
                    Cell::U => { self.chunks[p / CH] = None; i += CH as u64; continue; }
                    Cell::C(0) => { self.chunks[p / CH] = Some(zero_chunk()); i += CH as u64; continue; }
                    _ => {}
                }
            }
            self.set(off + i, c.clone());
            i += 1;
        }
    }
    pub fn read_cells(&self, off: u64, n: u64) -> Vec<Cell> { (0..n).map(|i| self.get(off + i)).collect() }

    /// copy n bytes from src (fast for whole chunks)
    pub fn copy_from(&mut self, off: u64, src: &Obj, soff: u64, n: u64) {
        let mut i = 0;
        while i < n {
            let (d, s) = ((off + i) as usize, (soff + i) as usize);
            if d % CH == 0 && s % CH == 0 && n - i >= CH as u64 {
                self.chunks[d / CH] = src.chunks[s / CH].clone();
                i += CH as u64;
                continue;
            }
            // run within one chunk on both sides
            let run = (CH - d % CH).min(CH - s % CH).min((n - i) as usize);
            match &src.chunks[s / CH] {
                None => for k in 0..run { self.set((d + k) as u64, Cell::U); },
                Some(sc) => {
                    let sc = sc.clone();
                    let dch = self.chunk_mut(d / CH);
                    for k in 0..run {
                        let (so, d_o) = (s % CH + k, d % CH + k);
                        if dch.cells[d_o] == SYM { dch.syms.remove(&(d_o as u16)); }
                        let v = sc.cells[so];
                        dch.cells[d_o] = v;
                        if v == SYM { dch.syms.insert(d_o as u16, sc.syms[&(so as u16)].clone()); }
                    }
                }
            }
            i += run as u64;
        }
    }
    pub fn chunk_refs(&self) -> &[Option<Arc<Chunk>>] { &self.chunks }
}
