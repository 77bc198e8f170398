//! Spaces that put a probe into every one of many surroundings: the product of independent choices about
//! the rest of the module, or the rest of the function, with a list of things that may be wrong.

use crate::cases::Kind;
use crate::engine::{space, Ch, Space, X};
use crate::model::*;
use crate::refval;
use crate::sp_val::*;
use crate::sp_dec::{leb_u, sections_of, seq_payload, whole};
use crate::sp_wide::{applied, expr_payload};
use crate::prims::prim;
use T::*;

// ---------------------------------------------------------------------------------------------
// the rest of the module

/// A valid module from independent choices about each of its parts.
fn around(c: &mut Ch, full: bool) -> X<M> {
    let mut m = M { types: vec![FT::new(&[], &[]), FT::new(&[I32], &[I32])], ..M::default() };
    if full && c.flag()? { m.types.extend([FT::new(&[], &[]), FT::new(&[I64, F32], &[F64]), FT::new(&[I32], &[I32])]) }
    for i in 0..[0, 1, 3][c.pick(3)?] { m.imports.push(Imp { module: "m".into(), name: ["b", "a", "b"][i].into(), desc: ImpD::Func([0, 1, 0][i]) }) }
    for i in 0..[0, 1, 3][c.pick(3)?] { m.imports.push(Imp { module: ["m", "l", "n"][i].into(), name: "g".into(), desc: ImpD::Global([gt(I32, false), gt(F32, true), gt(I64, true)][i]) }) }
    match c.pick(4)? { 0 => {} 1 => m.tables.push(lim(1, None)), 2 => m.tables.push(lim(0, Some(0))), _ => m.imports.insert(0, imp(ImpD::Table(lim(0, None)))) }
    match c.pick(4)? { 0 => {} 1 => m.mems.push(lim(1, None)), 2 => m.mems.push(lim(0, Some(0))), _ => m.imports.push(imp(ImpD::Mem(lim(2, Some(3))))) }
    let (tab, mem) = (has_table(&m), has_mem(&m));
    for i in 0..[1, 3][c.pick(2)?] { m.funcs.push(f([0, 1, 0][i], &[I32][..(i < 2) as usize], if i == 1 { &[Ins::I32(0)] } else { &[] })) }
    for i in 0..[0, 1, 3][c.pick(3)?] { m.globals.push(Glob { ty: [gt(I32, true), gt(F64, false), gt(I32, false)][i], init: vec![[Ins::I32(7), Ins::F64(0), Ins::I32(-1)][i].clone()] }) }
    for i in 0..[0, 1, 4][c.pick(3)?] { m.exports.push(exp(["d", "b", "c", ""][i], 0, 0)) }
    if c.flag()? { m.start = Some(0) }
    if tab && full && c.flag()? { m.elems = vec![Elem { table: 0, offset: vec![Ins::I32(0)], init: vec![0, 0] }, Elem { table: 0, offset: vec![Ins::I32(5)], init: vec![] }] }
    if mem && full && c.flag()? { m.datas = vec![Data { mem: 0, offset: vec![Ins::I32(0)], init: vec![1, 2] }, Data { mem: 0, offset: vec![Ins::I32(5)], init: vec![] }] }
    Ok(m)
}
fn has_table(m: &M) -> bool { !m.tables.is_empty() || m.imports.iter().any(|i| matches!(i.desc, ImpD::Table(_))) }
fn has_mem(m: &M) -> bool { !m.mems.is_empty() || m.imports.iter().any(|i| matches!(i.desc, ImpD::Mem(_))) }
fn nfuncs(m: &M) -> u32 { (m.funcs.len() + m.imports.iter().filter(|i| matches!(i.desc, ImpD::Func(_))).count()) as u32 }
fn globals(m: &M) -> Vec<GT> { m.imports.iter().filter_map(|i| if let ImpD::Global(g) = i.desc { Some(g) } else { None }).chain(m.globals.iter().map(|g| g.ty)).collect() }

type Probe = Box<dyn Fn(&mut M) + Sync + Send>;
pub const BODY: u32 = 1;
pub const INDEX: u32 = 2;
pub const CONST: u32 = 4;
pub const WIDE: u32 = 8;
pub const NAMES: u32 = 16;
pub const EXTERN: u32 = 32;
pub const MEMORY: u32 = 64;
pub const ALL: u32 = 127;
/// Things done to a module, some of them wrong, depending on the module.
fn probes(groups: u32) -> Vec<Probe> {
    let mut v: Vec<(u32, Probe)> = vec![(ALL, Box::new(|_: &mut M| {}))];
    fn body(b: Vec<Ins>) -> Probe { Box::new(move |m: &mut M| m.funcs.last_mut().unwrap().body = b.clone()) }
    fn from(g: impl Fn(&M) -> Vec<Ins> + Sync + Send + 'static) -> Probe { Box::new(move |m: &mut M| { let b = g(m); m.funcs.last_mut().unwrap().body = b }) }
    let z = || Ins::I32(0);
    for b in [vec![DROP], vec![z()], vec![z(), DROP], vec![UNR, DROP], vec![UNR, z(), Ins::I64(0), op(0x6A), DROP], vec![UNR, ix(0x20, 9), DROP], vec![UNR, z()], vec![ix(0x0C, 0)], vec![ix(0x0C, 1)], vec![op(0x0F), DROP],
        vec![z(), ix(0x0D, 0)], vec![Ins::I64(0), ix(0x0D, 0)], vec![z(), Ins::BrTable(vec![0], 0)], vec![z(), Ins::BrTable(vec![1], 0)],
        vec![z(), z(), z(), op(0x1B), DROP], vec![z(), Ins::F32(0), z(), op(0x1B), DROP], vec![blk(None), z(), Ins::F32(0), z(), op(0x1B), DROP, E], vec![blk(None), blk(None), z(), Ins::F32(0), z(), op(0x1B), DROP, E, E],
        vec![blk(Some(I32)), E, DROP], vec![z(), iff(Some(I32)), z(), E, DROP], vec![z(), iff(Some(I32)), z(), L, z(), E, DROP], vec![blk(None), z(), E], vec![lop(None), ix(0x0C, 0), E], vec![lop(Some(I32)), z(), ix(0x0C, 0), E, DROP],
        vec![z(), z(), op(0x6A), DROP], vec![z(), Ins::I64(0), op(0x6A), DROP], vec![z(), Ins::I64(0), op(0x6A)], vec![Ins::F64(0), op(0x9F), op(0x45), DROP]] { v.push((BODY, body(b))) }
    for b in [vec![z(), Ins::Mem(0x28, 2, 0), DROP], vec![z(), Ins::Mem(0x28, 3, 0), DROP], vec![Ins::I64(0), Ins::Mem(0x2B, 3, 0), DROP], vec![Ins::Mem(0x37, 3, 0)], vec![z(), Ins::I64(0), Ins::Mem(0x37, 3, 0)], vec![z(), z(), Ins::Mem(0x37, 3, 0)], vec![z(), Ins::I64(0), Ins::Mem(0x3D, 2, 0)],
        vec![ix(0x3F, 0), DROP], vec![z(), ix(0x40, 0), DROP], vec![Ins::I64(0), ix(0x40, 0), DROP], vec![ix(0x40, 0), DROP]] { v.push((MEMORY, body(b))) }
    for t in 0..6u32 { for a in 0..2 { v.push((BODY | INDEX, from(move |m| { let mut b = vec![Ins::I32(0); a]; b.push(Ins::I32(0)); b.push(Ins::CallInd(t, 0)); if m.types.get(t as usize).map_or(false, |t| !t.r.is_empty()) { b.push(DROP) } b }))) } }
    for d in 0..3u32 { for a in 0..2 {
        v.push((INDEX, from(move |m| { let i = nfuncs(m).saturating_sub(d); let mut b = vec![Ins::I32(0); a]; b.push(ix(0x10, i)); b.extend(vec![DROP; a]); b })));
        v.push((INDEX, from(move |m| { let i = (globals(m).len() as u32).saturating_sub(d); if a == 0 { vec![ix(0x23, i), DROP] } else { vec![cst(globals(m).get(i as usize).map_or(I32, |g| g.t)), ix(0x24, i)] } })));
        v.push((INDEX, from(move |m| { let i = (globals(m).len() as u32).saturating_sub(d); vec![ix(0x23, i), if a == 0 { op(0x45) } else { op(0x8B) }, DROP] })));
        v.push((INDEX, from(move |m| { let i = (m.funcs.last().unwrap().locals.len() as u32).saturating_sub(d); if a == 0 { vec![ix(0x20, i), DROP] } else { vec![Ins::I32(0), ix(0x21, i)] } })));
        v.push((INDEX | WIDE, Box::new(move |m: &mut M| { let i = (m.types.len() as u32).saturating_sub(d); if a == 0 { m.funcs.push(f(i, &[], &[UNR])) } else { m.imports.push(imp(ImpD::Func(i))) } })));
        v.push((INDEX | WIDE, Box::new(move |m: &mut M| { if a == 1 { m.funcs.push(f(1, &[], &[UNR])) } m.start = Some(nfuncs(m).saturating_sub(d)) })));
        v.push((INDEX | NAMES | EXTERN, Box::new(move |m: &mut M| { let i = nfuncs(m).saturating_sub(d); m.exports.insert(if a == 0 { 0 } else { m.exports.len() }, exp("zz", 0, i)) })));
        v.push((INDEX | EXTERN, Box::new(move |m: &mut M| { let i = (globals(m).len() as u32).saturating_sub(d); m.exports.insert(if a == 0 { 0 } else { m.exports.len() }, exp("zz", 3, i)) })));
    } }
    for kd in 1..3u8 { for i in 0..2 { v.push((INDEX | EXTERN, Box::new(move |m: &mut M| m.exports.push(exp("zz", kd, i))))) } }
    // a repeated name: of the first, of the last export, of two others of another kind
    v.push((NAMES, Box::new(|m: &mut M| if let Some(n) = m.exports.first().map(|e| e.name.clone()) { m.exports.push(exp(&n, 0, 0)) })));
    v.push((NAMES, Box::new(|m: &mut M| if let Some(n) = m.exports.last().map(|e| e.name.clone()) { m.exports.insert(0, exp(&n, 0, 0)) })));
    v.push((NAMES, Box::new(|m: &mut M| m.exports.extend([exp("zz", 0, 0), exp("zz", 0, 0)]))));
    v.push((NAMES, Box::new(|m: &mut M| { m.exports.insert(0, exp("zz", 0, 0)); m.exports.push(exp("zz", 0, 0)) })));
    v.push((NAMES, Box::new(|m: &mut M| { let kd = if has_mem(m) { 2 } else if has_table(m) { 1 } else { 0 }; m.exports.insert(0, exp("zz", 0, 0)); m.exports.push(exp("zz", kd, 0)) })));
    v.push((NAMES, Box::new(|m: &mut M| m.exports.extend([exp("zz", 0, 0), exp("zZ", 0, 0), exp("zz ", 0, 0), exp("z", 0, 0)]))));
    // constant expressions in a global, an element segment and a data segment
    let exprs: Vec<(bool, fn(&M) -> Vec<Ins>)> = vec![
        (true, |_| vec![Ins::I32(0)]), (true, |_| vec![]), (true, |_| vec![Ins::I64(0)]), (true, |_| vec![Ins::I32(0), Ins::I32(0)]), (true, |_| vec![Ins::I32(0), Ins::I64(0)]), (true, |_| vec![Ins::Op(1), Ins::I32(0)]), (true, |_| vec![Ins::I32(0), Ins::Op(0x45)]), (true, |_| vec![UNR]),
        (true, |_| vec![ix(0x23, 0)]), (true, |_| vec![ix(0x23, 1)]), (true, |_| vec![ix(0x23, 2)]), (true, |m| vec![ix(0x23, globals(m).len() as u32)]), (true, |m| vec![ix(0x23, (globals(m).len() as u32).saturating_sub(1))]), (true, |_| vec![Ins::I32(0), ix(0x23, 0)]),
    ];
    for (_, e) in exprs {
        for t in TS { v.push((CONST, Box::new(move |m: &mut M| { let init = e(m); m.globals.push(Glob { ty: gt(t, false), init }) }))) }
        v.push((CONST, Box::new(move |m: &mut M| { let init = e(m); m.globals.insert(0, Glob { ty: gt(I32, true), init }) })));
        for n in [0usize, 1, 4] {
            v.push((CONST, Box::new(move |m: &mut M| { let offset = e(m); m.elems.push(Elem { table: 0, offset, init: vec![0; n] }) })));
            v.push((CONST, Box::new(move |m: &mut M| { let offset = e(m); m.datas.push(Data { mem: 0, offset, init: vec![0; n] }) })));
        }
    }
    for d in 0..3u32 { v.push((INDEX, Box::new(move |m: &mut M| { let i = nfuncs(m).saturating_sub(d); m.elems.push(Elem { table: 0, offset: vec![Ins::I32(0)], init: vec![0, i, 0] }) }))) }
    for t in 0..2u32 { v.push((INDEX, Box::new(move |m: &mut M| m.elems.insert(0, Elem { table: t, offset: vec![Ins::I32(0)], init: vec![] })))); v.push((INDEX, Box::new(move |m: &mut M| m.datas.insert(0, Data { mem: t, offset: vec![Ins::I32(0)], init: vec![] })))) }
    for l in [lim(65537, None), lim(65536, None), lim(2, Some(1)), lim(0, Some(65537)), lim(0, Some(u32::MAX)), lim(u32::MAX, None)] { for a in 0..2 {
        v.push((WIDE | EXTERN, Box::new(move |m: &mut M| if a == 0 { m.mems.push(l) } else { m.imports.insert(0, imp(ImpD::Mem(l))) })));
        v.push((WIDE | EXTERN, Box::new(move |m: &mut M| if a == 0 { m.tables.push(l) } else { m.imports.insert(0, imp(ImpD::Table(l))) })));
    } }
    for r in [vec![I32, I32], vec![F64, F64], vec![I32, I64, F32], vec![F64]] { for a in 0..2 {
        let r = r.clone();
        v.push((WIDE, Box::new(move |m: &mut M| if a == 0 { m.types.push(FT::new(&[], &r)) } else { let t = FT::new(&[F32], &r); m.types.push(t); m.funcs.push(f(m.types.len() as u32 - 1, &[], &[UNR])) })));
    } }
    v.into_iter().filter(|p| p.0 & groups != 0).map(|p| p.1).collect()
}
pub fn surroundings(k: Kind, groups: u32, full: bool) -> Space {
    let ps = probes(groups);
    space("surroundings", format!("{} additions to a module, right and wrong ones, in every module from the product of: imported functions (0, 1, 3), imported globals (0, 1, 3), table (none, two own ones, imported), memory (none, two own ones, imported), functions (1, 3), own globals (0, 1, 3), exports (0, 1, 4), start or not{}", ps.len(), if full { ", more types or not, element segments or not, data segments or not" } else { "" }), 4, move |c| {
        let m = around(c, full)?;
        let p = c.of(&ps)?;
        let mut m = m;
        p(&mut m);
        c.run(k, &encode(&m))
    })
}

// ---------------------------------------------------------------------------------------------
// the rest of the function

fn use_as(t: T) -> [Ins; 2] { [op(match t { I32 => 0x45, I64 => 0x50, F32 => 0x8B, F64 => 0x99 }), DROP] }
/// An instruction with its operands right or one of them wrong or missing, and its result used rightly or wrongly.
fn uses() -> Vec<Vec<Ins>> {
    let mut v: Vec<Vec<Ins>> = vec![];
    let next = |t: T| TS[(t as usize + 1) % 4];
    for (s, o, r) in applied() {
        if matches!(o, Ins::Idx(0x20..=0x22, _)) { continue }
        let full: Vec<Ins> = s.iter().map(|t| cst(*t)).chain([o.clone()]).collect();
        if r == 1 {
            for t in TS { let mut b = full.clone(); b.extend(use_as(t)); if t == I32 || t == I64 || refval::module(&host(None, &b)).is_ok() { v.push(b) } }
        } else { v.push(full.clone()) }
        for i in 0..s.len() {
            let mut b = full.clone();
            b[i] = cst(next(s[i]));
            b.extend(vec![DROP; r]);
            v.push(b);
        }
        if !s.is_empty() { let mut b = full[1..].to_vec(); b.extend(vec![DROP; r]); v.push(b) }
    }
    v
}
pub fn insides(k: Kind, depth: usize) -> Space {
    let us = uses();
    let lists: Vec<(Vec<T>, Vec<T>)> = vec![(vec![], vec![]), (vec![I32, I64], vec![F32, F64]), (vec![], vec![F32, F32, F64, F32, F64, F64]), (vec![F64; 7], vec![])];
    space("insides", format!("{} uses of instructions, right and wrong, and every local read, written and tee'd at each type, in up to {} nested blocks, loops, then- and else-arms, with or without operands below and a result, live or dead, in functions with {} lists of locals", us.len(), depth, lists.len()), 4, move |c| {
        let n = c.range(0, depth)?;
        let mut open = vec![];
        let mut b = vec![];
        for _ in 0..n { open.push(c.pick(4)?) }
        let (p, l) = c.of(&lists)?;
        let below = c.flag()?;
        let res = c.flag()?;
        let dead = c.flag()?;
        for (i, o) in open.iter().enumerate() {
            if below && i + 1 == n { b.extend([Ins::F64(0), Ins::I32(0)]) }
            let t = if res && i + 1 == n { Some(F32) } else { None };
            match o { 0 => b.push(blk(t)), 1 => b.push(lop(t)), 2 => b.extend([Ins::I32(0), iff(t)]), _ => { b.extend([Ins::I32(0), iff(t)]); if t.is_some() { b.push(Ins::F32(0)) } b.push(L) } }
        }
        if n == 0 && below { b.extend([Ins::F64(0), Ins::I32(0)]) }
        if dead { b.push(UNR) }
        let all: Vec<T> = p.iter().chain(l).cloned().collect();
        let u = c.pick(us.len() + 4 * 3 * all.len().min(7))?;
        if u < us.len() { b.extend(us[u].iter().cloned()) } else {
            let u = u - us.len();
            let (i, t, o) = (u / 12, TS[u / 3 % 4], u % 3);
            match o { 0 => { b.push(ix(0x20, i as u32)); b.extend(use_as(t)) } 1 => b.extend([cst(t), ix(0x21, i as u32)]), _ => { b.extend([cst(t), ix(0x22, i as u32)]); b.extend(use_as(t)) } }
        }
        for (i, o) in open.iter().enumerate().rev() {
            let t = res && i + 1 == n;
            if t { b.push(Ins::F32(0)) }
            if *o == 2 && t { b.extend([L, Ins::F32(0)]) }
            b.push(E);
            if t { b.push(DROP) }
            if below && i + 1 == n { b.extend([DROP, DROP]) }
        }
        if n == 0 && below && !dead { b.extend([DROP, DROP]) }
        let mut m = host(None, &b);
        m.types[0] = FT::new(p, &[]);
        m.funcs[0].locals = l.clone();
        c.run(k, &encode(&m))
    })
}

// ---------------------------------------------------------------------------------------------
// what other implementations limit

/// Modules at and above the limits that WebAssembly implementations commonly have and WebAssembly has not.
/// How many families `sized` has; those from 17 on but the last are nested n deep.
pub const FAMILIES: usize = 24;
/// A module with n of something, the last of them used rightly or wrongly.
pub fn sized(what: usize, n: usize, bad: bool) -> Vec<u8> {
    let last = (n - 1) as u32 + bad as u32;
    let void = || FT::new(&[], &[]);
    let one = |b: &[Ins], l: &[T]| M { types: vec![void()], funcs: vec![f(0, l, b)], ..M::default() };
    let m = match what {
        0 => M { types: vec![void(); n], funcs: vec![f(last, &[], &[])], ..M::default() },
        1 => M { types: vec![FT::new(&vec![F32; n], &[])], funcs: vec![f(0, &[], &[ix(0x20, last), DROP])], ..M::default() },
        2 => M { types: vec![void()], imports: vec![imp(ImpD::Func(0)); n], start: Some(last), ..M::default() },
        3 => M { imports: vec![imp(ImpD::Global(gt(I32, false))); n], globals: vec![Glob { ty: gt(I32, false), init: vec![ix(0x23, last)] }], ..M::default() },
        4 => M { types: vec![void()], funcs: vec![f(0, &[], &[]); n], start: Some(last), ..M::default() },
        5 => { let mut m = one(&[ix(0x23, last), DROP], &[]); m.globals = vec![Glob { ty: gt(I64, false), init: vec![Ins::I64(0)] }; n]; m }
        6 => { let mut m = one(&[], &[]); m.exports = (0..n).map(|i| exp(&format!("{:06}", if bad && i + 1 == n { 0 } else { i }), 0, 0)).collect(); m }
        7 => { let mut m = one(&[], &[]); m.tables = vec![lim(0, None)]; m.elems = vec![Elem { table: 0, offset: vec![Ins::I32(0)], init: vec![0; n] }]; if bad { m.elems[0].init[n - 1] = 1 } m }
        8 => { let mut m = M { tables: vec![lim(0, None)], elems: vec![Elem { table: 0, offset: vec![Ins::I32(0)], init: vec![] }; n], ..M::default() }; if bad { m.elems[n - 1].table = 1 } m }
        9 => { let mut m = M { mems: vec![lim(0, None)], datas: vec![Data { mem: 0, offset: vec![Ins::I32(0)], init: vec![1] }; n], ..M::default() }; if bad { m.datas[n - 1].offset.clear() } m }
        10 => M { mems: vec![lim(0, None)], datas: vec![Data { mem: bad as u32, offset: vec![Ins::I32(0)], init: vec![7; n] }], ..M::default() },
        11 => one(&[ix(0x20, last), DROP], &vec![F64; n]),
        12 => { let mut ls = vec![0; n]; if bad { ls[n - 1] = 1 } one(&[Ins::I32(0), Ins::BrTable(ls, 0)], &[]) }
        13 => { let mut b = vec![op(1); n - 1]; b.push(if bad { DROP } else { op(1) }); one(&b, &[]) }
        14 => { let mut b = vec![Ins::I32(0); n]; b.extend(vec![DROP; last as usize + 1]); one(&b, &[]) }
        15 => { let mut m = M { imports: vec![imp(ImpD::Global(gt(I32, false)))], ..M::default() }; if bad { m.imports[0].name = "a".repeat(n) } else { m.imports[0].module = "a".repeat(n) } m }
        16 => { let mut m = one(&[], &[]); m.exports = vec![exp(&"a".repeat(n), 0, 0), exp(&"a".repeat(last as usize), 0, 0)]; m }
        17 => { let mut b = vec![]; for _ in 0..n { b.push(blk(None)) } b.push(ix(0x0C, last + 1)); b.extend(vec![E; n]); one(&b, &[]) }
        18 => { let mut b = vec![]; for _ in 0..n { b.push(lop(Some(I32))) } b.push(if bad { Ins::I64(0) } else { Ins::I32(0) }); b.extend(vec![E; n]); b.push(DROP); one(&b, &[]) }
        19 => { let mut b = vec![]; for _ in 0..n { b.extend([Ins::I32(0), iff(None), L, Ins::I32(0), iff(None), op(1), L, E]) } b.push(if bad { DROP } else { op(1) }); b.extend(vec![E; n]); one(&b, &[]) }
        20 => { let mut b = vec![UNR]; for _ in 0..n { b.extend([blk(Some(I32)), UNR]) } b.push(if bad { Ins::I64(0) } else { Ins::I32(0) }); b.extend(vec![E; n]); one(&b, &[]) }
        21 => { let mut b = vec![]; for _ in 0..n { b.push(blk(Some(I32))) } b.extend(vec![Ins::I32(0); n]); b.push(ix(0x0C, last + bad as u32)); b.extend(vec![E; n]); if bad { b.push(DROP) } b.push(DROP); one(&b, &[]) }
        22 => { let mut b = vec![]; for i in 0..n { b.extend([ix(0x20, i as u32 % 3), ix(0x21, (i as u32 + 1) % 3)]) } if bad { b.push(ix(0x21, 0)) } one(&b, &[I32, I32, I32]) }
        _ => { let mut v = encode(&one(&[if bad { DROP } else { op(1) }], &[])); let mut e = Enc::new(); e.name(&"a".repeat(n)); e.out.extend(vec![9; n]); let b = e.out; let mut e = Enc::new(); e.section(0, &b); v.extend(e.out); return v }
    };
    encode(&m)
}
pub fn engine_limits(k: Kind, million: bool) -> Space {
    let ns: &'static [usize] = if million { &[1000, 1001, 50000, 50001, 65520, 65521, 100000, 100001, 1000000, 1000001] } else { &[1000, 1001, 50000, 50001, 65520, 65521, 100000, 100001] };
    space("engine-limits", format!("modules with n types, parameters, imports of each kind, functions, globals, exports, element entries, element segments, data segments, data bytes, locals, labels, instructions, name bytes, the last of them used rightly or wrongly, n in {:?}", ns), 2, move |c| {
        let what = c.pick(18)?;
        let what = if what == 17 { FAMILIES - 1 } else { what };
        let n = *c.of(ns)?;
        let bad = c.flag()?;
        c.run(k, &sized(what, n, bad))
    })
}
/// Something big, then something small of the same or another sort, and the other way round.
pub fn big_small(k: Kind, max: usize) -> Space {
    let ns: Vec<usize> = if max <= 5000 { vec![1, 2, 3, 9, 17, 33, 65, 129, 257, 1000, 4097] } else { vec![1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 5000, 65535, 65536, 65537] };
    let few: &'static [usize] = if max <= 5000 { &[1, 40] } else { &[1, 3, 40, 300] };
    space("big-small", format!("histories x, y, x where x has n and y m of something (24 families of modules: types, parameters, imports, functions, globals, exports, segments, locals, labels, instructions, operands, name bytes, nesting), n and m of {:?}, y right or wrong at its end; for different families n and m of {:?} and x right", ns, few), 2, move |c| {
        let w = c.pick(FAMILIES)?;
        let v = c.pick(FAMILIES)?;
        let at: &[usize] = if v == w { &ns } else { few };
        let n = *c.of(at)?;
        let m = *c.of(at)?;
        let nb = v == w && c.flag()?;
        let mb = c.flag()?;
        let nested = |w: usize, n: usize| (17..=21).contains(&w) && n > 300;
        if nested(w, n) || nested(v, m) || n + m > 70000 && n != m && n.min(m) > 1000 { return Ok(()) }
        let id = prim("module");
        let (x, y) = (sized(w, n, nb), sized(v, m, mb));
        c.run(k, &seq_payload(&[(id, &x), (id, &y), (id, &x)]))
    }).serial()
}
/// Lengths that agree in their low bits.
pub fn congruent(k: Kind, pow: usize) -> Space {
    space("congruent", format!("histories x, y, x where x has n + 2^j and y n bytes, elements or entries (n in 1..=9, j in 3..={}, shorter ones first) or the other way round: names, byte vectors, integer vectors, expressions, sized content, and the modules of 10 families", pow), 1, move |c| {
        let j = 3 + c.pick(pow - 2)?;
        let n = 1 + c.pick(9)?;
        let what = c.pick(15)?;
        let back = c.flag()?;
        let make = |n: usize| -> (u8, Vec<u8>) {
            let len = leb_u(n as u64);
            match what {
                0 => (prim("string"), [len, vec![b'a'; n]].concat()),
                1 => (prim("vec-byte"), [len, vec![1; n]].concat()),
                2 => (prim("vec-u32"), [len, vec![1; n]].concat()),
                3 => (prim("expr"), [vec![1; n], vec![END]].concat()),
                4 => (prim("sized-consume"), [len, vec![1; n]].concat()),
                w => (prim("module"), sized([0, 1, 2, 4, 5, 6, 10, 11, 12, 15][w - 5], n, false)),
            }
        };
        let (x, y) = (make(n + (1 << j)), make(n));
        let (x, y) = if back { (y, x) } else { (x, y) };
        c.run(k, &seq_payload(&[(x.0, &x.1), (y.0, &y.1), (x.0, &x.1)]))
    }).serial()
}
/// Modules of n things each, small ones one by one.
pub fn sized_all(k: Kind, upto: usize, max: usize) -> Space {
    let ns: Vec<usize> = sizes(upto, max).into_iter().filter(|n| *n > 0).collect();
    space("sized", format!("modules with n types, parameters, imports, functions, globals, exports, entries, segments, data bytes, locals, labels, instructions, operands, name bytes, nested blocks, loops, if/else and dead blocks (24 families), the last used rightly or wrongly, n in 1..={} and around powers of two up to {} (nesting: up to 1100)", upto, max), 2, move |c| {
        let w = c.pick(FAMILIES)?;
        let n = *c.of(&ns)?;
        if (17..=21).contains(&w) && n > 1100 { return Ok(()) }
        let bad = c.flag()?;
        c.run(k, &whole(k, &sized(w, n, bad)))
    })
}
/// One section of a module moved or repeated elsewhere.
pub fn reordered(k: Kind, full: bool) -> Space {
    space("reordered", "every module from the product of independent choices about its parts (as in the surroundings space) with one section moved to, or repeated at, every place", 4, move |c| {
        let b = encode(&around(c, full)?);
        let ss = sections_of(&b);
        if ss.is_empty() { return Ok(()) }
        let i = c.pick(ss.len())?;
        let j = c.pick(ss.len() + 1)?;
        let again = c.flag()?;
        let cut = |i: usize| ss[i].1 - 1;
        let end = |i: usize| if i + 1 < ss.len() { cut(i + 1) } else { b.len() };
        let mut o = PREAMBLE.to_vec();
        for p in 0..=ss.len() {
            if p == j { o.extend(&b[cut(i)..end(i)]) }
            if p < ss.len() && (again || p != i) { o.extend(&b[cut(p)..end(p)]) }
        }
        c.run(k, &whole(k, &o))
    })
}
/// Custom sections that mean something to other tools.
pub fn custom_names(k: Kind) -> Space {
    let names = ["name", "producers", "target_features", "sourceMappingURL", "external_debug_info", "linking", "reloc.CODE", "reloc.DATA", "reloc.", ".debug_info", ".debug_line", ".debug_str", "dylink", "dylink.0", "build_id", "metadata.code.branch_hint", "component-type", "core", "", " ", "a", "Name", "names", "\u{0}", "start", "type", "code", "data", "memory", "version", "wasm", "license", "é", "🚀", "event", "datacount", "tag"];
    let bodies: Vec<Vec<u8>> = vec![vec![], vec![0], vec![1], vec![0xFF], vec![0, 0], vec![0, 2, 1, b'm'], vec![1, 4, 1, 0, 1, b'f'], vec![0, 5, 1, b'm'], vec![1, 4, 1, 9, 1, b'f'], vec![0x80], vec![0xFF; 9], vec![1, 8, b'l', b'a', b'n', b'g', b'u', b'a', b'g', b'e'], vec![1, b'+', 1, b'a'], vec![0xC3], vec![2, 0], PREAMBLE.to_vec()];
    let bases: Vec<Vec<u8>> = vec![PREAMBLE.to_vec(), encode(&crate::bases::rich())];
    space("custom-names", format!("custom sections of {} well-known and other names with each of {} contents, at every gap of an empty and a full module, once, twice in a row or at two gaps, also with the name cut or padded", names.len(), bodies.len()), 2, move |c| {
        let n = *c.of(&names)?;
        let body = c.of(&bodies)?;
        let b = c.of(&bases)?;
        let ss = sections_of(b);
        let gap = c.pick(ss.len() + 1)?;
        let how = c.pick(5)?;
        let at = if gap < ss.len() { ss[gap].1 - 1 } else { b.len() };
        let mut x = Enc::new();
        match how { 3 => { x.out.extend(leb_u(n.len() as u64 + 1)); x.out.extend(n.as_bytes()) } 4 => { x.out.extend([n.len() as u8 | 0x80, 0x80, 0]); x.out.extend(n.as_bytes()) } _ => x.name(n) }
        x.out.extend(body);
        let mut e = Enc::new();
        e.section(0, &x.out);
        let mut o = b[..at].to_vec();
        o.extend(&e.out);
        if how == 1 { o.extend(&e.out) }
        o.extend(&b[at..]);
        if how == 2 { o.extend(&e.out) }
        c.run(k, &whole(k, &o))
    })
}
/// Lists of a section from few entries, in every order.
pub fn lists(k: Kind, len: usize) -> Space {
    space("lists", format!("every list of up to {} entries of one section, from 6 to 8 each: types, imports, functions with locals, globals, exports, element and data segments; alike, alike but for one thing, empty", len), 3, move |c| {
        let what = c.pick(7)?;
        let n = c.range(0, len)?;
        let mut m = M { types: vec![FT::new(&[], &[])], ..M::default() };
        let off = |i: usize| if i == 0 { vec![] } else { vec![Ins::I32(i as i32)] };
        for _ in 0..n {
            match what {
                0 => { let t = c.of(&[FT::new(&[], &[]), FT::new(&[I32], &[]), FT::new(&[I32, I32], &[]), FT::new(&[I32, I64], &[]), FT::new(&[I32, I32], &[I32]), FT::new(&[I32, I32], &[I64]), FT::new(&[I32, I32, I32], &[])])?.clone(); m.types.push(t) }
                1 => { let (a, b, d) = c.of(&[("a", "a", ImpD::Func(0)), ("a", "ab", ImpD::Func(0)), ("ab", "a", ImpD::Func(0)), ("", "", ImpD::Global(gt(I32, false))), ("a", "a", ImpD::Global(gt(I32, true))), ("b", "a", ImpD::Mem(lim(0, None))), ("a", "a", ImpD::Table(lim(0, Some(0)))), ("a", "a", ImpD::Func(1))])?.clone(); m.imports.push(Imp { module: a.into(), name: b.into(), desc: d }) }
                2 => { let (t, l, b) = c.of(&[(0u32, vec![], vec![]), (0, vec![I32], vec![]), (0, vec![I32, I32], vec![]), (0, vec![I32, I64], vec![]), (1, vec![], vec![]), (0, vec![], vec![op(1)]), (0, vec![], vec![op(1), op(1)]), (0, vec![I64, I32], vec![op(1)])])?.clone(); m.funcs.push(f(t, &l, &b)) }
                3 => { let (t, i) = c.of(&[(gt(I32, false), vec![Ins::I32(0)]), (gt(I32, true), vec![Ins::I32(0)]), (gt(I32, false), vec![Ins::I32(1)]), (gt(I32, false), vec![]), (gt(F64, false), vec![Ins::F64(0)]), (gt(I32, false), vec![ix(0x23, 0)])])?.clone(); m.globals.push(Glob { ty: t, init: i }) }
                4 => { let (s, kd, i) = *c.of(&[("b", 0u8, 0u32), ("a", 0, 0), ("", 0, 0), ("a", 2, 0), ("ab", 0, 1), ("b", 0, 1), ("B", 3, 0)])?; m.exports.push(exp(s, kd, i)) }
                5 => { let (o, i) = c.of(&[(0usize, vec![]), (1, vec![]), (1, vec![0]), (2, vec![0]), (1, vec![0, 0]), (1, vec![1, 0]), (1, vec![0, 1])])?.clone(); m.elems.push(Elem { table: 0, offset: off(o), init: i }) }
                _ => { let (o, i) = c.of(&[(0usize, vec![]), (1, vec![]), (2, vec![]), (1, vec![0u8]), (2, vec![0]), (1, vec![0, 0]), (1, vec![1, 0])])?.clone(); m.datas.push(Data { mem: 0, offset: off(o), init: i }) }
            }
        }
        c.run(k, &encode(&m))
    })
}
/// Label lists and short strings of two instructions.
pub fn repetitions(k: Kind, len: usize) -> Space {
    let ops = vec![op(0), op(1), DROP, op(0x1B), op(0x0F), ix(0x20, 0), ix(0x21, 0), ix(0x22, 0), ix(0x22, 1), ix(0x23, 0), ix(0x0C, 0), ix(0x0D, 0), ix(0x10, 0), Ins::Mem(0x28, 0, 0), Ins::I32(0), Ins::I32(1), Ins::F64(0), op(0x45), op(0x6A), Ins::BrTable(vec![0], 0)];
    let id = prim("expr");
    space("repetitions", format!("every string of up to {} over each pair of {} instructions, alone and in a block; br_table with every list of up to {} labels over 0 and 1 and of up to 8 over 0, 1 and 128, and each default", len, ops.len(), len + 5), 3, move |c| {
        let mut v = vec![];
        if c.flag()? {
            let three = c.flag()?;
            let n = c.range(0, if three { 8 } else { len + 5 })?;
            let ls = [0u32, 1, 128];
            let q = if three { 3 } else { 2 };
            let mut l = vec![];
            for _ in 0..n { l.push(ls[c.pick(q)?]) }
            let d = ls[c.pick(q)?];
            v.push(Ins::BrTable(l, d));
        } else {
            let i = c.pick(ops.len())?;
            let j = c.pick(ops.len())?;
            if j <= i { return Ok(()) }
            let inside = c.flag()?;
            if inside { v.push(blk(None)) }
            let n = c.range(2, len)?;
            for _ in 0..n { v.push(ops[if c.flag()? { i } else { j }].clone()) }
            if inside { v.push(E) }
        }
        c.run(k, &expr_payload(id, &v))
    })
}

// ---------------------------------------------------------------------------------------------
// one entry unlike the others

/// One entry of an index space differs from all the others, and is used rightly or as if it did not differ.
pub fn odd_one(k: Kind, upto: usize, max: usize) -> Space {
    let ns: Vec<usize> = sizes(upto, max).into_iter().filter(|n| *n > 0).collect();
    space("odd-one", format!("n functions, globals, types or locals (n in 1..={} and around powers of two up to {}; none, half or all of them imported or parameters), all alike but one (the first, second, middle, last but one or last), that one or a neighbour used by start, call, call_indirect, global.get, global.set, an initialiser, local.get, local.set, local.tee or an export, at one or the other type", upto, max), 2, move |c| {
        let how = c.pick(11)?;
        let n = *c.of(&ns)?;
        let split = c.pick(3)?;
        let mut ps = vec![0, 1, n / 2, n.saturating_sub(2), n - 1];
        ps.sort(); ps.dedup(); ps.retain(|p| *p < n);
        let odd = *c.of(&ps)?;
        let near = c.pick(3)?;
        let x = match near { 0 => odd, 1 => odd + 1, _ => odd.wrapping_sub(1) };
        if x > n { return Ok(()) }
        let x = x as u32;
        let dev = c.pick(3)?;
        let cut = [0, n / 2, n][split];
        let mut m = M { types: vec![FT::new(&[], &[]), FT::new(&[], &[I32]), FT::new(&[F64], &[]), FT::new(&[F32], &[])], ..M::default() };
        let probe = |m: &mut M, b: &[Ins]| m.funcs.push(f(0, &[], b));
        match how {
            0 | 1 | 9 => {
                // functions: all of type 0, the odd one with a result or a parameter; or the other way round
                let (a, b) = [(0, 1), (0, 2), (1, 0)][dev];
                for i in 0..n { let t = if i == odd { b } else { a }; if i < cut { m.imports.push(imp(ImpD::Func(t))) } else { m.funcs.push(f(t, &[], &[UNR])) } }
                match how { 0 => m.start = Some(x), 1 => probe(&mut m, &[ix(0x10, x)]), _ => { m.exports.push(exp("e", 0, x)); m.exports.push(exp("f", 0, n as u32 / 2)) } }
            }
            2 => {
                m.types = (0..n).map(|i| if (i == odd) == (dev != 2) { FT::new(&[F32, F64, I64, I32], &[]) } else if dev == 0 { FT::new(&[F32, I64, F64, I32], &[]) } else { FT::new(&[F32, F64, I64, I32], &[I64]) }).collect();
                m.tables.push(lim(0, None));
                m.types.push(FT::new(&[], &[]));
                m.funcs.push(f(n as u32, &[], &[Ins::F32(0), Ins::F64(0), Ins::I64(0), Ins::I32(0), Ins::I32(0), Ins::CallInd(x, 0)]));
            }
            3..=5 | 10 => {
                let (a, b) = [(gt(I32, true), gt(I64, true)), (gt(I32, true), gt(I32, false)), (gt(I32, false), gt(I32, true))][dev];
                for i in 0..n { let t = if i == odd { b } else { a }; if i < cut { m.imports.push(imp(ImpD::Global(t))) } else { m.globals.push(Glob { ty: t, init: vec![cst(t.t)] }) } }
                match how {
                    3 => probe(&mut m, &[ix(0x23, x), op(0x45), DROP]),
                    4 => probe(&mut m, &[Ins::I32(0), ix(0x24, x)]),
                    5 => { m.globals.push(Glob { ty: gt(I32, false), init: vec![ix(0x23, x)] }); m.exports.push(exp("e", 3, x)) }
                    _ => m.exports.push(exp("e", 3, x)),
                }
            }
            _ => {
                let (a, b) = [(I32, I64), (F64, I32), (I32, F32)][dev];
                let all: Vec<T> = (0..n).map(|i| if i == odd { b } else { a }).collect();
                m.types.push(FT::new(&all[..cut], &[]));
                m.funcs.push(f(4, &all[cut..], &match how { 6 => vec![ix(0x20, x), op(0x45), DROP], 7 => vec![Ins::I32(0), ix(0x21, x)], _ => vec![Ins::I32(0), ix(0x22, x), DROP] }));
            }
        }
        c.run(k, &encode(&m))
    })
}
/// Two function types that agree in all but one place, used by functions, calls and indirect calls.
pub fn alike_types(k: Kind, max: usize) -> Space {
    let ns: Vec<usize> = (0..=9).chain([12, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257]).filter(|n| *n <= max).collect();
    space("alike-types", format!("two function types of n parameters (n up to {}) with or without a result that differ in one parameter (each of up to 9, else at the ends and the middle), the result, by one parameter more or not at all, next to each other or with up to 2 types between, the first or second used by a function that reads the parameter, by a call or an indirect call, at the type of the one or the other", max), 2, move |c| {
        let n = *c.of(&ns)?;
        let mut ps: Vec<usize> = if n <= 9 { (0..n).collect() } else { vec![0, 1, n / 2, n - 2, n - 1] };
        ps.push(usize::MAX);
        let p = *c.of(&ps)?;
        let pat = c.pick(3)?;
        let res = c.pick(2)?;
        let var = c.pick(3)?;
        let gap = c.pick(3)?;
        let second = c.flag()?;
        let how = c.pick(3)?;
        let at = c.flag()?;
        let a = FT { p: (0..n).map(|i| match pat { 0 => I32, 1 => TS[i % 4], _ => F64 }).collect(), r: vec![I32; res] };
        let mut b = a.clone();
        if p < n { b.p[p] = TS[(b.p[p] as usize + 1) % 4] } else { match var { 0 => {} 1 => if b.r.is_empty() { b.r = vec![I64] } else { b.r[0] = F32 }, _ => b.p.push(I32) } }
        if p < n && var > 0 { return Ok(()) }
        let mut m = M { types: vec![FT::new(&[], &[]), a.clone()], tables: vec![lim(0, None)], ..M::default() };
        for i in 0..gap { m.types.push(FT::new(&[TS[i]], &[])) }
        m.types.push(b.clone());
        let t = if second { 2 + gap as u32 } else { 1 };
        let as_ = if at { &b } else { &a };
        let use_of = |r: &[T]| -> Vec<Ins> { r.iter().flat_map(|t| use_as(*t)).collect() };
        match how {
            0 => { let (i, ty) = if p < n { (p, as_.p[p]) } else { (as_.p.len().wrapping_sub(1), as_.p.last().cloned().unwrap_or(I32)) }; let mut body = vec![ix(0x20, i as u32)]; body.extend(use_as(ty)); body.extend(as_.r.iter().map(|t| cst(*t))); m.funcs.push(f(t, &[], &body)) }
            1 => { let mut body: Vec<Ins> = as_.p.iter().map(|t| cst(*t)).collect(); body.push(ix(0x10, 0)); body.extend(use_of(&as_.r)); m.funcs.push(f(t, &[], &[UNR])); m.funcs.push(f(0, &[], &body)) }
            _ => { let mut body: Vec<Ins> = as_.p.iter().map(|t| cst(*t)).collect(); body.push(Ins::I32(0)); body.push(Ins::CallInd(t, 0)); body.extend(use_of(&as_.r)); m.funcs.push(f(0, &[], &body)) }
        }
        c.run(k, &encode(&m))
    })
}
/// Characters that somebody might leave out or fold.
pub fn export_every_char(k: Kind, all: bool) -> Space {
    let cs: Vec<char> = (0..0x110000u32).filter(|c| all || *c < 0x3100 || (0xA600..0xAC00).contains(c) || (0xD7A0..0x11000).contains(c) || *c >= 0xE0000 && *c < 0xE0200 || c % 256 < 2).filter_map(char::from_u32).collect();
    space("export-every-char", format!("names \"a\" and \"ab\" beside the same with each of {} characters in front, inside or behind, and each character beside its upper and lower case", cs.len()), 1, move |c| {
        let ch = *c.of(&cs)?;
        let how = c.pick(5)?;
        let s = |x: &str| x.to_string();
        let v = match how { 0 => [s("a"), format!("a{}", ch)], 1 => [format!("{}a", ch), s("a")], 2 => [s("ab"), format!("a{}b", ch)], 3 => [ch.to_string(), ch.to_lowercase().to_string()], _ => [ch.to_uppercase().to_string(), ch.to_string()] };
        let mut m = M { mems: vec![lim(0, None)], ..M::default() };
        for n in &v { m.exports.push(exp(n, 2, 0)) }
        c.run(k, &encode(&m))
    })
}
