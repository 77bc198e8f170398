//! Neutral representation of WebAssembly 1.0 modules, opcode tables transcribed from the
//! specification, and a binary encoder. Nothing here depends on the code under test.

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum T { I32, I64, F32, F64 }
pub const TS: [T; 4] = [T::I32, T::I64, T::F32, T::F64];

impl T {
    pub fn byte(self) -> u8 { match self { T::I32 => 0x7F, T::I64 => 0x7E, T::F32 => 0x7D, T::F64 => 0x7C } }
    pub fn from_byte(b: u8) -> Option<T> {
        match b { 0x7F => Some(T::I32), 0x7E => Some(T::I64), 0x7D => Some(T::F32), 0x7C => Some(T::F64), _ => None }
    }
}

#[derive(Clone, PartialEq, Eq, Debug, Default, Hash)]
pub struct FT { pub p: Vec<T>, pub r: Vec<T> }
impl FT { pub fn new(p: &[T], r: &[T]) -> FT { FT { p: p.to_vec(), r: r.to_vec() } } }

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Lim { pub min: u32, pub max: Option<u32> }
pub fn lim(min: u32, max: Option<u32>) -> Lim { Lim { min, max } }

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct GT { pub t: T, pub mutable: bool }
pub fn gt(t: T, mutable: bool) -> GT { GT { t, mutable } }

/// One flat instruction token. Blocks are opened by `Blk` and closed by `Op(0x0B)`.
#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum Ins {
    Op(u8),
    Blk(u8, Option<T>),
    Idx(u8, u32),
    BrTable(Vec<u32>, u32),
    CallInd(u32, u32),
    /// opcode, alignment exponent, offset (binary order)
    Mem(u8, u32, u32),
    I32(i32),
    I64(i64),
    F32(u32),
    F64(u64),
}
pub const ELSE: u8 = 0x05;
pub const END: u8 = 0x0B;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Imm { None, Block, Idx, BrTable, CallInd, Mem, I32, I64, F32, F64 }

/// The immediates of an opcode, or None if WebAssembly 1.0 does not define it.
pub fn imm_of(op: u8) -> Option<Imm> {
    Some(match op {
        0x00 | 0x01 | 0x05 | 0x0B | 0x0F | 0x1A | 0x1B => Imm::None,
        0x02 | 0x03 | 0x04 => Imm::Block,
        0x0C | 0x0D | 0x10 | 0x20..=0x24 | 0x3F | 0x40 => Imm::Idx,
        0x0E => Imm::BrTable,
        0x11 => Imm::CallInd,
        0x28..=0x3E => Imm::Mem,
        0x41 => Imm::I32,
        0x42 => Imm::I64,
        0x43 => Imm::F32,
        0x44 => Imm::F64,
        0x45..=0xBF => Imm::None,
        _ => return None,
    })
}

/// Operand and result types of the plain numeric instructions (0x45..=0xBF).
pub fn num_sig(op: u8) -> (&'static [T], T) {
    use T::*;
    const I: &[T] = &[I32]; const II: &[T] = &[I32, I32];
    const L: &[T] = &[I64]; const LL: &[T] = &[I64, I64];
    const F: &[T] = &[F32]; const FF: &[T] = &[F32, F32];
    const D: &[T] = &[F64]; const DD: &[T] = &[F64, F64];
    match op {
        0x45 => (I, I32),               // i32.eqz
        0x46..=0x4F => (II, I32),       // i32 comparisons
        0x50 => (L, I32),               // i64.eqz
        0x51..=0x5A => (LL, I32),       // i64 comparisons
        0x5B..=0x60 => (FF, I32),       // f32 comparisons
        0x61..=0x66 => (DD, I32),       // f64 comparisons
        0x67..=0x69 => (I, I32),        // i32.clz ctz popcnt
        0x6A..=0x78 => (II, I32),       // i32 binary
        0x79..=0x7B => (L, I64),        // i64.clz ctz popcnt
        0x7C..=0x8A => (LL, I64),       // i64 binary
        0x8B..=0x91 => (F, F32),        // f32 unary
        0x92..=0x98 => (FF, F32),       // f32 binary
        0x99..=0x9F => (D, F64),        // f64 unary
        0xA0..=0xA6 => (DD, F64),       // f64 binary
        0xA7 => (L, I32),               // i32.wrap_i64
        0xA8 | 0xA9 => (F, I32),        // i32.trunc_f32
        0xAA | 0xAB => (D, I32),        // i32.trunc_f64
        0xAC | 0xAD => (I, I64),        // i64.extend_i32
        0xAE | 0xAF => (F, I64),        // i64.trunc_f32
        0xB0 | 0xB1 => (D, I64),        // i64.trunc_f64
        0xB2 | 0xB3 => (I, F32),        // f32.convert_i32
        0xB4 | 0xB5 => (L, F32),        // f32.convert_i64
        0xB6 => (D, F32),               // f32.demote_f64
        0xB7 | 0xB8 => (I, F64),        // f64.convert_i32
        0xB9 | 0xBA => (L, F64),        // f64.convert_i64
        0xBB => (F, F64),               // f64.promote_f32
        0xBC => (F, I32),               // i32.reinterpret_f32
        0xBD => (D, I64),               // i64.reinterpret_f64
        0xBE => (I, F32),               // f32.reinterpret_i32
        0xBF => (L, F64),               // f64.reinterpret_i64
        _ => unreachable!(),
    }
}

/// (value type, access width in bytes, is_store) of a memory access instruction.
pub fn mem_sig(op: u8) -> (T, u32, bool) {
    use T::*;
    match op {
        0x28 => (I32, 4, false), 0x29 => (I64, 8, false), 0x2A => (F32, 4, false), 0x2B => (F64, 8, false),
        0x2C | 0x2D => (I32, 1, false), 0x2E | 0x2F => (I32, 2, false),
        0x30 | 0x31 => (I64, 1, false), 0x32 | 0x33 => (I64, 2, false), 0x34 | 0x35 => (I64, 4, false),
        0x36 => (I32, 4, true), 0x37 => (I64, 8, true), 0x38 => (F32, 4, true), 0x39 => (F64, 8, true),
        0x3A => (I32, 1, true), 0x3B => (I32, 2, true),
        0x3C => (I64, 1, true), 0x3D => (I64, 2, true), 0x3E => (I64, 4, true),
        _ => unreachable!(),
    }
}

#[derive(Clone, PartialEq, Debug)]
pub struct Imp { pub module: String, pub name: String, pub desc: ImpD }
#[derive(Clone, PartialEq, Debug)]
pub enum ImpD { Func(u32), Table(Lim), Mem(Lim), Global(GT) }
#[derive(Clone, PartialEq, Debug)]
pub struct Exp { pub name: String, pub kind: u8, pub idx: u32 }
#[derive(Clone, PartialEq, Debug)]
pub struct Func { pub ty: u32, pub locals: Vec<T>, pub body: Vec<Ins> }
#[derive(Clone, PartialEq, Debug)]
pub struct Glob { pub ty: GT, pub init: Vec<Ins> }
#[derive(Clone, PartialEq, Debug)]
pub struct Elem { pub table: u32, pub offset: Vec<Ins>, pub init: Vec<u32> }
#[derive(Clone, PartialEq, Debug)]
pub struct Data { pub mem: u32, pub offset: Vec<Ins>, pub init: Vec<u8> }

#[derive(Clone, PartialEq, Debug, Default)]
pub struct M {
    pub types: Vec<FT>,
    pub imports: Vec<Imp>,
    pub funcs: Vec<Func>,
    pub tables: Vec<Lim>,
    pub mems: Vec<Lim>,
    pub globals: Vec<Glob>,
    pub exports: Vec<Exp>,
    pub start: Option<u32>,
    pub elems: Vec<Elem>,
    pub datas: Vec<Data>,
}

#[derive(Clone, PartialEq, Debug)]
pub enum Ext { Func(FT), Table(Lim), Mem(Lim), Global(GT) }

// ---------------------------------------------------------------------------------------------
// convenience constructors

pub fn imp(desc: ImpD) -> Imp { Imp { module: "m".into(), name: "n".into(), desc } }
pub fn exp(name: &str, kind: u8, idx: u32) -> Exp { Exp { name: name.into(), kind, idx } }
pub fn cst(t: T) -> Ins { match t { T::I32 => Ins::I32(1), T::I64 => Ins::I64(1), T::F32 => Ins::F32(0x3F80_0000), T::F64 => Ins::F64(0x3FF0_0000_0000_0000) } }
pub fn f(ty: u32, locals: &[T], body: &[Ins]) -> Func { Func { ty, locals: locals.to_vec(), body: body.to_vec() } }

// ---------------------------------------------------------------------------------------------
// encoder; `pad` extra LEB128 groups are appended to every integer

#[derive(Default, Clone)]
pub struct Enc { pub out: Vec<u8>, pub pad: usize }

pub fn leb_u(out: &mut Vec<u8>, mut v: u64, pad: usize) {
    loop {
        let b = (v & 0x7F) as u8;
        v >>= 7;
        if v == 0 {
            if pad == 0 { out.push(b); return }
            out.push(b | 0x80);
            for _ in 1..pad { out.push(0x80) }
            out.push(0x00);
            return;
        }
        out.push(b | 0x80);
    }
}
pub fn leb_s(out: &mut Vec<u8>, mut v: i64, pad: usize) {
    loop {
        let b = (v & 0x7F) as u8;
        let neg = b & 0x40 != 0;
        v >>= 7;
        if (v == 0 && !neg) || (v == -1 && neg) {
            if pad == 0 { out.push(b); return }
            let fill = if neg { 0x7F } else { 0x00 };
            out.push(b | 0x80);
            for _ in 1..pad { out.push(fill | 0x80) }
            out.push(fill);
            return;
        }
        out.push(b | 0x80);
    }
}

impl Enc {
    pub fn new() -> Enc { Enc::default() }
    pub fn with_pad(pad: usize) -> Enc { Enc { out: vec![], pad } }
    pub fn u(&mut self, v: u32) { let p = self.pad; leb_u(&mut self.out, v as u64, p) }
    pub fn b(&mut self, v: u8) { self.out.push(v) }
    pub fn name(&mut self, s: &str) { self.u(s.len() as u32); self.out.extend_from_slice(s.as_bytes()) }
    pub fn lim(&mut self, l: &Lim) {
        match l.max { None => { self.b(0); self.u(l.min) } Some(m) => { self.b(1); self.u(l.min); self.u(m) } }
    }
    pub fn gt(&mut self, g: &GT) { self.b(g.t.byte()); self.b(g.mutable as u8) }
    pub fn ft(&mut self, t: &FT) {
        self.b(0x60);
        self.u(t.p.len() as u32); for x in &t.p { self.b(x.byte()) }
        self.u(t.r.len() as u32); for x in &t.r { self.b(x.byte()) }
    }
    pub fn ins(&mut self, i: &Ins) {
        match i {
            Ins::Op(o) => self.b(*o),
            Ins::Blk(o, t) => { self.b(*o); self.b(t.map_or(0x40, |t| t.byte())) }
            Ins::Idx(o, i) => { self.b(*o); self.u(*i) }
            Ins::BrTable(v, d) => { self.b(0x0E); self.u(v.len() as u32); for x in v { self.u(*x) } self.u(*d) }
            Ins::CallInd(t, x) => { self.b(0x11); self.u(*t); self.u(*x) }
            Ins::Mem(o, a, off) => { self.b(*o); self.u(*a); self.u(*off) }
            Ins::I32(v) => { self.b(0x41); let p = self.pad; leb_s(&mut self.out, *v as i64, p) }
            Ins::I64(v) => { self.b(0x42); let p = self.pad; leb_s(&mut self.out, *v, p) }
            Ins::F32(v) => { self.b(0x43); self.out.extend_from_slice(&v.to_le_bytes()) }
            Ins::F64(v) => { self.b(0x44); self.out.extend_from_slice(&v.to_le_bytes()) }
        }
    }
    pub fn expr(&mut self, e: &[Ins]) { for i in e { self.ins(i) } self.b(END) }
    pub fn sized(&mut self, body: &[u8]) { self.u(body.len() as u32); self.out.extend_from_slice(body) }
    pub fn sub(&self) -> Enc { Enc::with_pad(self.pad) }
    pub fn import(&mut self, i: &Imp) {
        self.name(&i.module); self.name(&i.name);
        match &i.desc {
            ImpD::Func(t) => { self.b(0); self.u(*t) }
            ImpD::Table(l) => { self.b(1); self.b(0x70); self.lim(l) }
            ImpD::Mem(l) => { self.b(2); self.lim(l) }
            ImpD::Global(g) => { self.b(3); self.gt(g) }
        }
    }
    pub fn func(&mut self, f: &Func) {
        let mut groups: Vec<(u32, T)> = vec![];
        for t in &f.locals {
            match groups.last_mut() { Some((n, x)) if x == t => *n += 1, _ => groups.push((1, *t)) }
        }
        self.u(groups.len() as u32);
        for (n, t) in groups { self.u(n); self.b(t.byte()) }
        self.expr(&f.body);
    }
    pub fn section(&mut self, id: u8, body: &[u8]) { self.b(id); self.sized(body) }
}

pub const PREAMBLE: [u8; 8] = [0, b'a', b's', b'm', 1, 0, 0, 0];

/// The content of section `id` of `m`, or None if the section would be empty.
pub fn section_body(m: &M, id: u8, pad: usize) -> Option<Vec<u8>> {
    let mut e = Enc::with_pad(pad);
    macro_rules! vecs { ($v:expr, $x:ident => $b:block) => {{ if $v.is_empty() { return None } e.u($v.len() as u32); for $x in &$v $b }} }
    match id {
        1 => vecs!(m.types, t => { e.ft(t) }),
        2 => vecs!(m.imports, i => { e.import(i) }),
        3 => vecs!(m.funcs, f => { e.u(f.ty) }),
        4 => vecs!(m.tables, l => { e.b(0x70); e.lim(l) }),
        5 => vecs!(m.mems, l => { e.lim(l) }),
        6 => vecs!(m.globals, g => { e.gt(&g.ty); e.expr(&g.init) }),
        7 => vecs!(m.exports, x => { e.name(&x.name); e.b(x.kind); e.u(x.idx) }),
        8 => { match m.start { None => return None, Some(s) => e.u(s) } }
        9 => vecs!(m.elems, x => { e.u(x.table); e.expr(&x.offset); e.u(x.init.len() as u32); for i in &x.init { e.u(*i) } }),
        10 => vecs!(m.funcs, f => { let mut s = e.sub(); s.func(f); e.sized(&s.out) }),
        11 => vecs!(m.datas, d => { e.u(d.mem); e.expr(&d.offset); e.u(d.init.len() as u32); e.out.extend_from_slice(&d.init) }),
        _ => return None,
    }
    Some(e.out)
}

pub fn encode_pad(m: &M, pad: usize) -> Vec<u8> {
    let mut e = Enc::with_pad(pad);
    e.out.extend_from_slice(&PREAMBLE);
    for id in 1..=11 {
        if let Some(b) = section_body(m, id, pad) { e.section(id, &b) }
    }
    e.out
}
pub fn encode(m: &M) -> Vec<u8> { encode_pad(m, 0) }
