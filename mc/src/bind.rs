//! Binding between the neutral model and the implementation: conversion of neutral modules to the
//! AST of `whasm::structure` and of decoded ASTs back to neutral form. Opcode names follow the
//! WebAssembly 1.0 specification.

use crate::model::*;
use whasm::structure::{idx, instr, instr::Instr, module, ty};
use whasm::validation::module::result::External;

/// Stands for anything in an AST that cannot be part of a decoded expression.
pub const POISON: Ins = Ins::Op(0xFF);

macro_rules! plain_table { ($($op:literal $name:ident,)*) => {
    fn plain_to(op: u8) -> Option<Instr> { match op { $($op => Some(Instr::$name),)* _ => None } }
    fn plain_from(i: &Instr) -> Option<u8> { match i { $(Instr::$name => Some($op),)* _ => None } }
} }
macro_rules! mem_table { ($($op:literal $name:ident,)*) => {
    fn mem_to(op: u8, a: u32, o: u32) -> Option<Instr> { match op { $($op => Some(Instr::$name(a, o)),)* _ => None } }
    fn mem_from(i: &Instr) -> Option<(u8, u32, u32)> { match i { $(Instr::$name(a, o) => Some(($op, *a, *o)),)* _ => None } }
} }

plain_table! {
    0x00 Unreachable, 0x01 Nop, 0x0F Return, 0x1A Drop, 0x1B Select, 0x45 I32Eqz, 0x46 I32Eq, 0x47 I32Ne,
    0x48 I32LtS, 0x49 I32LtU, 0x4A I32GtS, 0x4B I32GtU, 0x4C I32LeS, 0x4D I32LeU, 0x4E I32GeS, 0x4F I32GeU,
    0x50 I64Eqz, 0x51 I64Eq, 0x52 I64Ne, 0x53 I64LtS, 0x54 I64LtU, 0x55 I64GtS, 0x56 I64GtU, 0x57 I64LeS,
    0x58 I64LeU, 0x59 I64GeS, 0x5A I64GeU, 0x5B F32Eq, 0x5C F32Ne, 0x5D F32Lt, 0x5E F32Gt, 0x5F F32Le,
    0x60 F32Ge, 0x61 F64Eq, 0x62 F64Ne, 0x63 F64Lt, 0x64 F64Gt, 0x65 F64Le, 0x66 F64Ge, 0x67 I32Clz,
    0x68 I32Ctz, 0x69 I32Popcnt, 0x6A I32Add, 0x6B I32Sub, 0x6C I32Mul, 0x6D I32DivS, 0x6E I32DivU,
    0x6F I32RemS, 0x70 I32RemU, 0x71 I32And, 0x72 I32Or, 0x73 I32Xor, 0x74 I32Shl, 0x75 I32ShrS,
    0x76 I32ShrU, 0x77 I32Rotl, 0x78 I32Rotr, 0x79 I64Clz, 0x7A I64Ctz, 0x7B I64Popcnt, 0x7C I64Add,
    0x7D I64Sub, 0x7E I64Mul, 0x7F I64DivS, 0x80 I64DivU, 0x81 I64RemS, 0x82 I64RemU, 0x83 I64And,
    0x84 I64Or, 0x85 I64Xor, 0x86 I64Shl, 0x87 I64ShrS, 0x88 I64ShrU, 0x89 I64Rotl, 0x8A I64Rotr,
    0x8B F32Abs, 0x8C F32Neg, 0x8D F32Ceil, 0x8E F32Floor, 0x8F F32Trunc, 0x90 F32Nearest, 0x91 F32Sqrt,
    0x92 F32Add, 0x93 F32Sub, 0x94 F32Mul, 0x95 F32Div, 0x96 F32Min, 0x97 F32Max, 0x98 F32Copysign,
    0x99 F64Abs, 0x9A F64Neg, 0x9B F64Ceil, 0x9C F64Floor, 0x9D F64Trunc, 0x9E F64Nearest, 0x9F F64Sqrt,
    0xA0 F64Add, 0xA1 F64Sub, 0xA2 F64Mul, 0xA3 F64Div, 0xA4 F64Min, 0xA5 F64Max, 0xA6 F64Copysign,
    0xA7 I32WrapI64, 0xA8 I32TruncF32S, 0xA9 I32TruncF32U, 0xAA I32TruncF64S, 0xAB I32TruncF64U,
    0xAC I64ExtendI32S, 0xAD I64ExtendI32U, 0xAE I64TruncF32S, 0xAF I64TruncF32U, 0xB0 I64TruncF64S,
    0xB1 I64TruncF64U, 0xB2 F32ConvertI32S, 0xB3 F32ConvertI32U, 0xB4 F32ConvertI64S, 0xB5 F32ConvertI64U,
    0xB6 F32DemoteF64, 0xB7 F64ConvertI32S, 0xB8 F64ConvertI32U, 0xB9 F64ConvertI64S, 0xBA F64ConvertI64U,
    0xBB F64PromoteF32, 0xBC I32ReinterpretF32, 0xBD I64ReinterpretF64, 0xBE F32ReinterpretI32,
    0xBF F64ReinterpretI64,
}
mem_table! {
    0x28 I32Load, 0x29 I64Load, 0x2A F32Load, 0x2B F64Load, 0x2C I32Load8S, 0x2D I32Load8U, 0x2E I32Load16S,
    0x2F I32Load16U, 0x30 I64Load8S, 0x31 I64Load8U, 0x32 I64Load16S, 0x33 I64Load16U, 0x34 I64Load32S,
    0x35 I64Load32U, 0x36 I32Store, 0x37 I64Store, 0x38 F32Store, 0x39 F64Store, 0x3A I32Store8,
    0x3B I32Store16, 0x3C I64Store8, 0x3D I64Store16, 0x3E I64Store32,
}

pub fn val(t: T) -> ty::Val { match t { T::I32 => ty::Val::I32, T::I64 => ty::Val::I64, T::F32 => ty::Val::F32, T::F64 => ty::Val::F64 } }
pub fn unval(v: &ty::Val) -> T { match v { ty::Val::I32 => T::I32, ty::Val::I64 => T::I64, ty::Val::F32 => T::F32, ty::Val::F64 => T::F64 } }
fn vals(ts: &[T]) -> Vec<ty::Val> { ts.iter().map(|t| val(*t)).collect() }
fn unvals(vs: &[ty::Val]) -> Vec<T> { vs.iter().map(unval).collect() }
pub fn functype(t: &FT) -> ty::Func { ty::Func { params: vals(&t.p), results: vals(&t.r) } }
pub fn unfunctype(t: &ty::Func) -> FT { FT { p: unvals(&t.params), r: unvals(&t.results) } }
fn limits(l: &Lim) -> ty::Limits { ty::Limits { min: l.min, max: l.max } }
pub fn unlimits(l: &ty::Limits) -> Lim { Lim { min: l.min, max: l.max } }
fn table(l: &Lim) -> ty::Table { ty::Table { lim: limits(l), elem: ty::Elem::FuncRef } }
pub fn untable(t: &ty::Table) -> Lim { unlimits(&t.lim) }
fn mem(l: &Lim) -> ty::Mem { ty::Mem { lim: limits(l) } }
pub fn unmem(t: &ty::Mem) -> Lim { unlimits(&t.lim) }
fn global(g: &GT) -> ty::Global { ty::Global { mt: if g.mutable { ty::Mut::Var } else { ty::Mut::Const }, val: val(g.t) } }
pub fn unglobal(g: &ty::Global) -> GT { GT { t: unval(&g.val), mutable: g.mt == ty::Mut::Var } }

fn leaf(i: &Ins) -> Option<Instr> {
    Some(match i {
        Ins::Op(op) => plain_to(*op)?,
        Ins::Blk(..) => return None,
        Ins::Idx(op, x) => match op {
            0x0C => Instr::Br(idx::Label(*x)), 0x0D => Instr::BrIf(idx::Label(*x)), 0x10 => Instr::Call(idx::Func(*x)),
            0x20 => Instr::LocalGet(idx::Local(*x)), 0x21 => Instr::LocalSet(idx::Local(*x)), 0x22 => Instr::LocalTee(idx::Local(*x)),
            0x23 => Instr::GlobalGet(idx::Global(*x)), 0x24 => Instr::GlobalSet(idx::Global(*x)),
            0x3F => Instr::MemSize(idx::Mem(*x)), 0x40 => Instr::MemGrow(idx::Mem(*x)),
            _ => return None,
        },
        Ins::BrTable(v, d) => Instr::BrTable(v.iter().map(|l| idx::Label(*l)).collect(), idx::Label(*d)),
        Ins::CallInd(t, x) => Instr::CallIndirect(idx::Type(*t), idx::Table(*x)),
        Ins::Mem(op, a, o) => mem_to(*op, *a, *o)?,
        Ins::I32(v) => Instr::ConstI32(*v),
        Ins::I64(v) => Instr::ConstI64(*v),
        Ins::F32(v) => Instr::ConstF32(f32::from_bits(*v)),
        Ins::F64(v) => Instr::ConstF64(f64::from_bits(*v)),
    })
}

/// Builds the instruction tree of a flat token sequence; None if the nesting is not balanced.
pub fn expr(body: &[Ins]) -> Option<Vec<Instr>> {
    struct Open { kind: u8, t: Option<T>, outer: Vec<Instr>, then: Option<Vec<Instr>> }
    let mut cur: Vec<Instr> = vec![];
    let mut open: Vec<Open> = vec![];
    for i in body {
        match i {
            Ins::Blk(kind, t) => open.push(Open { kind: *kind, t: *t, outer: std::mem::take(&mut cur), then: None }),
            Ins::Op(ELSE) => {
                let o = open.last_mut()?;
                if o.kind != 4 || o.then.is_some() { return None }
                o.then = Some(std::mem::take(&mut cur));
            }
            Ins::Op(END) => {
                let o = open.pop()?;
                let body = std::mem::replace(&mut cur, o.outer);
                let rt = ty::RetVal(o.t.iter().map(|t| val(*t)).collect());
                cur.push(match (o.kind, o.then) {
                    (2, _) => Instr::Block(rt, instr::Expr(body)),
                    (3, _) => Instr::Loop(rt, instr::Expr(body)),
                    (_, None) => Instr::If(rt, instr::Expr(body), instr::Expr(vec![])),
                    (_, Some(then)) => Instr::If(rt, instr::Expr(then), instr::Expr(body)),
                });
            }
            _ => cur.push(leaf(i)?),
        }
    }
    if open.is_empty() { Some(cur) } else { None }
}

/// Flattens an instruction tree. Explicit work stack, so depth does not matter here.
pub fn unexpr(e: &[Instr]) -> Vec<Ins> {
    enum W<'a> { Seq(std::slice::Iter<'a, Instr>), Tok(Ins) }
    let mut out = vec![];
    let mut work = vec![W::Seq(e.iter())];
    while let Some(w) = work.pop() {
        let mut it = match w { W::Tok(t) => { out.push(t); continue } W::Seq(it) => it };
        while let Some(i) = it.next() {
            let (k, rt, a, b): (u8, &ty::RetVal, &instr::Expr, Option<&instr::Expr>) = match i {
                Instr::Block(rt, a) => (2, rt, a, None),
                Instr::Loop(rt, a) => (3, rt, a, None),
                Instr::If(rt, a, b) => (4, rt, a, Some(b)),
                _ => { out.push(unleaf(i)); continue }
            };
            out.push(if rt.0.len() > 1 { POISON } else { Ins::Blk(k, rt.0.first().map(unval)) });
            work.push(W::Seq(it));
            work.push(W::Tok(Ins::Op(END)));
            if let Some(b) = b { if !b.0.is_empty() { work.push(W::Seq(b.0.iter())); work.push(W::Tok(Ins::Op(ELSE))); } }
            work.push(W::Seq(a.0.iter()));
            break;
        }
    }
    out
}
fn unleaf(i: &Instr) -> Ins {
    if let Some(op) = plain_from(i) { return Ins::Op(op) }
    if let Some((op, a, o)) = mem_from(i) { return Ins::Mem(op, a, o) }
    match i {
        Instr::Br(x) => Ins::Idx(0x0C, x.0), Instr::BrIf(x) => Ins::Idx(0x0D, x.0), Instr::Call(x) => Ins::Idx(0x10, x.0),
        Instr::LocalGet(x) => Ins::Idx(0x20, x.0), Instr::LocalSet(x) => Ins::Idx(0x21, x.0), Instr::LocalTee(x) => Ins::Idx(0x22, x.0),
        Instr::GlobalGet(x) => Ins::Idx(0x23, x.0), Instr::GlobalSet(x) => Ins::Idx(0x24, x.0),
        Instr::MemSize(x) => Ins::Idx(0x3F, x.0), Instr::MemGrow(x) => Ins::Idx(0x40, x.0),
        Instr::BrTable(v, d) => Ins::BrTable(v.iter().map(|l| l.0).collect(), d.0),
        Instr::CallIndirect(t, x) => Ins::CallInd(t.0, x.0),
        Instr::ConstI32(v) => Ins::I32(*v),
        Instr::ConstI64(v) => Ins::I64(*v),
        Instr::ConstF32(v) => Ins::F32(v.to_bits()),
        Instr::ConstF64(v) => Ins::F64(v.to_bits()),
        _ => POISON,
    }
}

/// The AST of a neutral module; None if some expression is not balanced.
pub fn ast(m: &M) -> Option<module::Module> {
    let ce = |e: &[Ins]| Some(instr::ConstExpr(expr(e)?));
    let mut out = module::Module::default();
    out.types = m.types.iter().map(functype).collect();
    for f in &m.funcs {
        out.funcs.push(module::Func { ty: idx::Type(f.ty), locals: vals(&f.locals), body: instr::Expr(expr(&f.body)?) });
    }
    out.tables = m.tables.iter().map(|l| module::Table { ty: table(l) }).collect();
    out.mems = m.mems.iter().map(|l| module::Mem { ty: mem(l) }).collect();
    for g in &m.globals { out.globals.push(module::Global { ty: global(&g.ty), init: ce(&g.init)? }) }
    for e in &m.elems {
        out.elem.push(module::Elem { table: idx::Table(e.table), offset: ce(&e.offset)?, init: e.init.iter().map(|x| idx::Func(*x)).collect() });
    }
    for d in &m.datas { out.data.push(module::Data { mem: idx::Mem(d.mem), offset: ce(&d.offset)?, init: d.init.clone() }) }
    out.start = m.start.map(|s| module::Start { func: idx::Func(s) });
    out.imports = m.imports.iter().map(|i| module::Import { module: i.module.clone(), name: i.name.clone(), desc: match &i.desc {
        ImpD::Func(t) => module::desc::Import::Func(idx::Type(*t)),
        ImpD::Table(l) => module::desc::Import::Table(table(l)),
        ImpD::Mem(l) => module::desc::Import::Mem(mem(l)),
        ImpD::Global(g) => module::desc::Import::Global(global(g)),
    } }).collect();
    out.exports = m.exports.iter().map(|e| module::Export { name: e.name.clone(), desc: match e.kind {
        0 => module::desc::Export::Func(idx::Func(e.idx)),
        1 => module::desc::Export::Table(idx::Table(e.idx)),
        2 => module::desc::Export::Mem(idx::Mem(e.idx)),
        _ => module::desc::Export::Global(idx::Global(e.idx)),
    } }).collect();
    Some(out)
}

pub fn unimport(i: &module::Import) -> Imp {
    Imp { module: i.module.clone(), name: i.name.clone(), desc: match &i.desc {
        module::desc::Import::Func(t) => ImpD::Func(t.0),
        module::desc::Import::Table(l) => ImpD::Table(untable(l)),
        module::desc::Import::Mem(l) => ImpD::Mem(unmem(l)),
        module::desc::Import::Global(g) => ImpD::Global(unglobal(g)),
    } }
}
pub fn unexport(e: &module::Export) -> Exp {
    let (kind, idx) = match &e.desc {
        module::desc::Export::Func(x) => (0, x.0),
        module::desc::Export::Table(x) => (1, x.0),
        module::desc::Export::Mem(x) => (2, x.0),
        module::desc::Export::Global(x) => (3, x.0),
    };
    Exp { name: e.name.clone(), kind, idx }
}
pub fn unfunc(f: &module::Func) -> Func { Func { ty: f.ty.0, locals: unvals(&f.locals), body: unexpr(&f.body.0) } }
pub fn unglob(g: &module::Global) -> Glob { Glob { ty: unglobal(&g.ty), init: unexpr(&g.init.0) } }
pub fn unelem(e: &module::Elem) -> Elem { Elem { table: e.table.0, offset: unexpr(&e.offset.0), init: e.init.iter().map(|x| x.0).collect() } }
pub fn undata(d: &module::Data) -> Data { Data { mem: d.mem.0, offset: unexpr(&d.offset.0), init: d.init.clone() } }

/// The neutral form of a decoded module.
pub fn neutral(m: &module::Module) -> M {
    M {
        types: m.types.iter().map(unfunctype).collect(),
        imports: m.imports.iter().map(unimport).collect(),
        funcs: m.funcs.iter().map(unfunc).collect(),
        tables: m.tables.iter().map(|t| untable(&t.ty)).collect(),
        mems: m.mems.iter().map(|t| unmem(&t.ty)).collect(),
        globals: m.globals.iter().map(unglob).collect(),
        exports: m.exports.iter().map(unexport).collect(),
        start: m.start.as_ref().map(|s| s.func.0),
        elems: m.elem.iter().map(unelem).collect(),
        datas: m.data.iter().map(undata).collect(),
    }
}

pub fn ext(e: &External) -> Ext {
    match e {
        External::Func(t) => Ext::Func(unfunctype(t)),
        External::Table(t) => Ext::Table(untable(t)),
        External::Mem(t) => Ext::Mem(unmem(t)),
        External::Global(t) => Ext::Global(unglobal(t)),
    }
}
