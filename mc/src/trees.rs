//! Syntax trees that need not come from any binary: pseudo-instructions anywhere, blocks with any
//! number of results, expressions of any kind in any place. Validation must answer all of them.
//! Payload: [place][tokens]

use crate::engine::{space, Space};
use crate::cases::Kind;
use whasm::structure::instr::{ConstExpr, Expr, Instr};
use whasm::structure::{idx, module, ty};
use whasm::validation::ValidationEntry;

const I32: ty::Val = ty::Val::I32;
const I64: ty::Val = ty::Val::I64;
pub const PLACES: usize = 7;
/// Tokens below OPENERS open a construct, CLOSE closes it, MID separates the arms of an if.
const OPENERS: u8 = 7;
const CLOSE: u8 = 7;
const MID: u8 = 8;
const FIRST_LEAF: u8 = 9;

/// An extreme instruction: its number follows.
const EXTREME: u8 = 180;
const CONST: u8 = 190;
const BLOCK: u8 = 200;
const LOOP: u8 = 201;
const IF: u8 = 202;

/// The i-th list of value types, by length.
fn results(i: usize) -> Vec<ty::Val> {
    let (mut len, mut first) = (0, 0);
    while i - first >= 4usize.pow(len) { first += 4usize.pow(len); len += 1 }
    let mut x = i - first;
    (0..len).map(|_| { let v = [I32, I64, ty::Val::F32, ty::Val::F64][x % 4]; x /= 4; v }).collect()
}
fn numbers(i: usize) -> Vec<u8> { results(i).iter().map(|v| match v { ty::Val::I32 => 0, ty::Val::I64 => 1, ty::Val::F32 => 2, ty::Val::F64 => 3 }).collect() }

fn leaves() -> Vec<Instr> {
    let mut v = vec![
        Instr::End, Instr::Else, Instr::Unreachable, Instr::ConstI32(0), Instr::ConstI64(0), Instr::Drop, Instr::Select, Instr::I32Add, Instr::Return,
        Instr::Br(idx::Label(0)), Instr::Br(idx::Label(1)), Instr::BrIf(idx::Label(0)), Instr::BrTable(vec![idx::Label(0), idx::Label(1)], idx::Label(0)), Instr::Br(idx::Label(u32::MAX)),
        Instr::Call(idx::Func(0)), Instr::CallIndirect(idx::Type(0), idx::Table(0)), Instr::LocalTee(idx::Local(0)), Instr::GlobalGet(idx::Global(0)), Instr::GlobalSet(idx::Global(0)),
        Instr::I32Load(u32::MAX, 0), Instr::I64Store(3, u32::MAX), Instr::MemGrow(idx::Mem(0)),
    ];
    v.extend([Instr::LocalGet(idx::Local(u32::MAX)), Instr::MemSize(idx::Mem(u32::MAX)), Instr::CallIndirect(idx::Type(u32::MAX), idx::Table(u32::MAX))]);
    v
}
/// Every instruction with an index or other immediate, at values that are out of reach or at the edge of the number range.
fn extremes() -> Vec<Instr> {
    let mut v = vec![];
    for x in [1, 2, 3, 31, 32, 33, 63, 64, 65, 255, 256, 65535, 65536, i32::MAX as u32, 1 << 31, u32::MAX - 1, u32::MAX] {
        let l = || idx::Label(x);
        v.extend([Instr::Br(l()), Instr::BrIf(l()), Instr::BrTable(vec![l()], idx::Label(0)), Instr::BrTable(vec![], l()), Instr::BrTable(vec![idx::Label(0), l(), l()], idx::Label(0)), Instr::BrTable(vec![l()], l()), Instr::Call(idx::Func(x)),
            Instr::CallIndirect(idx::Type(x), idx::Table(0)), Instr::CallIndirect(idx::Type(0), idx::Table(x)), Instr::LocalGet(idx::Local(x)), Instr::LocalSet(idx::Local(x)), Instr::LocalTee(idx::Local(x)), Instr::GlobalGet(idx::Global(x)), Instr::GlobalSet(idx::Global(x)),
            Instr::MemSize(idx::Mem(x)), Instr::MemGrow(idx::Mem(x)), Instr::ConstI32(x as i32), Instr::ConstI64((x as u64 * 0x1_0000_0001) as i64)]);
        for o in 0x28..=0x3Eu8 { for off in [0, x] { v.extend(crate::bind::expr(&[crate::model::Ins::Mem(o, x, off)]).expect("HARNESS: leaf")) } }
    }
    v
}
pub fn tokens() -> usize { FIRST_LEAF as usize + leaves().len() }

fn parse(t: &[u8], i: &mut usize, leaves: &[Instr], nested: bool) -> (Vec<Instr>, bool) {
    let mut v = vec![];
    while *i < t.len() {
        let x = t[*i];
        *i += 1;
        match x {
            CLOSE if nested => return (v, false),
            MID if nested => return (v, true),
            CLOSE | MID => {}
            // a construct with any list of up to 4 results: its number follows
            x if x >= BLOCK => {
                let r = ty::RetVal(results(u16::from_le_bytes([t[*i], t[*i + 1]]) as usize));
                *i += 2;
                let (body, mid) = parse(t, i, leaves, true);
                let other = if mid { parse(t, i, leaves, true).0 } else { vec![] };
                v.push(match x { BLOCK => Instr::Block(r, Expr(body)), LOOP => Instr::Loop(r, Expr(body)), _ => Instr::If(r, Expr(body), Expr(other)) });
            }
            EXTREME => { v.push(clone(&extremes()[u16::from_le_bytes([t[*i], t[*i + 1]]) as usize])); *i += 2 }
            x if x >= CONST => v.push(match x - CONST { 0 => Instr::ConstI32(0), 1 => Instr::ConstI64(0), 2 => Instr::ConstF32(0.0), _ => Instr::ConstF64(0.0) }),
            x if x < OPENERS => {
                let (body, mid) = parse(t, i, leaves, true);
                let other = if mid { parse(t, i, leaves, true).0 } else { vec![] };
                let ret = |v: &[ty::Val]| ty::RetVal(v.to_vec());
                v.push(match x {
                    0 => Instr::Block(ret(&[]), Expr(body)),
                    1 => Instr::Block(ret(&[I32]), Expr(body)),
                    2 => Instr::Block(ret(&[I32, I64]), Expr(body)),
                    3 => Instr::Loop(ret(&[I32, I32, I32]), Expr(body)),
                    4 => Instr::Loop(ret(&[]), Expr(body)),
                    5 => Instr::If(ret(&[]), Expr(body), Expr(other)),
                    _ => Instr::If(ret(&[I32, I64]), Expr(body), Expr(other)),
                });
            }
            x => v.push(clone(&leaves[(x - FIRST_LEAF) as usize])),
        }
    }
    (v, false)
}
/// A leaf instruction again (the tree types need not be clonable).
fn clone(i: &Instr) -> Instr {
    match i {
        Instr::End => Instr::End,
        Instr::Else => Instr::Else,
        i => crate::bind::expr(&crate::bind::unexpr(std::slice::from_ref(i))).expect("HARNESS: leaf").pop().expect("HARNESS: leaf"),
    }
}

fn build(p: &[u8]) -> module::Module {
    let (e, _) = parse(&p[1..], &mut 0, &leaves(), false);
    let lim = || ty::Limits { min: 1, max: None };
    let mut m = module::Module::default();
    let results = if p[0] == 1 { vec![I32, I64] } else if p[0] == 2 { vec![I32] } else { vec![] };
    if p[0] != 6 { m.types = vec![ty::Func { params: vec![I32], results }] }
    m.tables.push(module::Table { ty: ty::Table { lim: lim(), elem: ty::Elem::FuncRef } });
    m.mems.push(module::Mem { ty: ty::Mem { lim: lim() } });
    m.imports.push(module::Import { module: "".into(), name: "".into(), desc: module::desc::Import::Global(ty::Global { mt: ty::Mut::Const, val: I32 }) });
    let mut body = vec![Instr::Unreachable];
    match p[0] {
        0..=2 | 6 => body = e,
        3 => m.globals.push(module::Global { ty: ty::Global { mt: ty::Mut::Var, val: I32 }, init: ConstExpr(e) }),
        4 => m.elem.push(module::Elem { table: idx::Table(0), offset: ConstExpr(e), init: vec![] }),
        _ => m.data.push(module::Data { mem: idx::Mem(0), offset: ConstExpr(e), init: vec![] }),
    }
    m.funcs.push(module::Func { ty: idx::Type(0), locals: vec![], body: Expr(body) });
    m
}

pub fn run(p: &[u8]) -> Result<&'static str, String> {
    let m = build(p);
    let first = m.validate().is_ok();
    if m.validate().is_ok() != first { return Err("two validations of the same tree disagree".into()) }
    if format!("{:?}", m).is_empty() { return Err("tree prints as nothing".into()) }
    Ok(if first { "accepted" } else { "rejected" })
}
pub fn describe(p: &[u8]) -> String { format!("place {} {:?}", p[0], build(p)).chars().take(600).collect() }

pub fn all(len: usize) -> Space {
    space("trees", format!("every sequence of up to {} of {} tree tokens (constructs with 0 to 3 results, pseudo-instructions as plain instructions, instructions with extreme immediates) as function body under 4 kinds of function type, global initialiser, element offset and data offset", len, tokens()), 3, move |c| {
        let mut p = vec![c.pick(PLACES)? as u8];
        for _ in 0..len {
            let t = c.pick(tokens() + 1)?;
            if t == 0 { break }
            p.push(t as u8 - 1);
        }
        c.run(Kind::Ast, &p)
    })
}

/// Constructs with every short list of results.
pub fn shapes(len: u32) -> Space {
    let n: usize = (0..=len).map(|l| 4usize.pow(l)).sum();
    space("result-lists", format!("blocks, loops and ifs with each of {} lists of up to {} results, left by falling off the end, branching, conditionally branching, through a table or dead, with the results in order, in reverse, one missing, one too many or none, inside each other or not, as function body of 3 kinds and in initialisers", n, len), 2, move |c| {
        let r = c.pick(n)?;
        let kind = c.pick(3)?;
        let place = *c.of(&[0u8, 1, 2, 3, 4, 5])?;
        let vals = c.pick(5)?;
        let leave = c.pick(6)?;
        let nested = c.flag()?;
        let mut v = numbers(r);
        match vals { 0 => {} 1 => v.reverse(), 2 => { v.pop(); } 3 => v.push(0), _ => v.clear() }
        let leaf = |i: u8| FIRST_LEAF + i;
        let mut b: Vec<u8> = v.iter().map(|x| CONST + x).collect();
        match leave { 0 => {} 1 => b.push(leaf(9)), 2 => b.extend([CONST, leaf(11)]), 3 => b.extend([CONST, leaf(12)]), 4 => b.push(leaf(2)), _ => b.push(leaf(8)) }
        let open = |kind: usize, r: usize| { let mut p = vec![]; if kind == 2 { p.push(CONST) } p.push([BLOCK, LOOP, IF][kind]); p.extend((r as u16).to_le_bytes()); p };
        let mut p = vec![place];
        if nested { p.extend(open(0, r)) }
        p.extend(open(kind, r));
        p.extend(&b);
        if kind == 2 { p.push(MID); p.extend(&b) }
        p.push(CLOSE);
        if nested { p.push(CLOSE) }
        for _ in numbers(r) { p.push(leaf(5)) }
        c.run(Kind::Ast, &p)
    })
}

/// Extreme immediates everywhere.
pub fn immediates() -> Space {
    let n = extremes().len();
    space("extremes", format!("each of {} instructions with an extreme immediate, plain or followed by drops, behind nothing, operands of each type or unreachable code, inside up to two constructs of 4 kinds, in each of {} places", n, PLACES), 2, move |c| {
        let x = c.pick(n)?;
        let place = c.pick(PLACES)? as u8;
        let pre = c.pick(7)?;
        let a = c.pick(4)? as u8;
        let b = c.pick(4)? as u8;
        let drops = c.pick(2)?;
        let mut p = vec![place];
        let open = [None, Some(0u8), Some(4), Some(5)];
        for k in [a, b] { if let Some(o) = open[k as usize] { if o == 5 { p.push(CONST) } p.push(o) } }
        match pre { 0 => {} 1..=4 => p.extend([CONST + pre as u8 - 1; 2]), 5 => p.extend([CONST, CONST + 1]), _ => p.push(FIRST_LEAF + 2) }
        p.push(EXTREME);
        p.extend((x as u16).to_le_bytes());
        for _ in 0..drops { p.push(FIRST_LEAF + 5) }
        for k in [a, b] { if k > 0 { p.push(CLOSE) } }
        c.run(Kind::Ast, &p)
    })
}
