//! Spaces about sizes, positions and values that the others hold fixed: one odd entry in a long list,
//! high operand stacks, long names, fill patterns, encodings of later versions of WebAssembly.

use crate::cases::{Kind, SOURCES};
use crate::engine::{space, Space};
use crate::model::*;
use crate::prims::{prim, PRIMS};
use crate::sp_dec::{element_samples, leb_u, pair_payload, seq_payload, whole};
use crate::sp_val::*;
use T::*;

/// Positions in 0..n worth trying: all of them for short lists, else the ends, the middle and the
/// neighbourhoods of the powers of two.
pub fn places(n: usize, all: usize) -> Vec<usize> {
    if n <= all { return (0..n).collect() }
    let mut v = vec![0, 1, n / 3, n / 2, n - 2, n - 1];
    let mut k = 4;
    while k <= n { v.extend([k - 1, k, k + 1]); k *= 2 }
    v.retain(|p| *p < n);
    v.sort();
    v.dedup();
    v
}

// ---------------------------------------------------------------------------------------------
// encodings that WebAssembly 1.0 does not have

/// Every opcode byte followed by every short string, in a function whose operand stack matches anything.
pub fn opcodes(k: Kind, len: usize) -> Space {
    let alpha = [0x00u8, 0x01, 0x02, 0x0A, 0x40, 0x6F, 0x70, 0x7F, 0x80, 0xFF];
    let as_prim = k == Kind::Prim || k == Kind::ErrKind;
    space("opcodes", format!("every opcode byte followed by every string of exactly {} bytes over {:02x?}, in dead code, then as many ends as leave an open block open, close it, or close it after an else, then dead code again", len, alpha), 2, move |c| {
        let o = c.pick(256)? as u8;
        let mut b = vec![0x00, o];
        let n = c.range(0, len)?;
        for _ in 0..n { b.push(*c.of(&alpha)?) }
        b.extend(c.of(&[&[0x00u8, 0x0B][..], &[0x0B, 0x00, 0x0B], &[0x00, 0x05, 0x00, 0x0B, 0x00, 0x0B]])?.iter());
        if as_prim {
            let mut p = vec![prim("expr")];
            p.extend(b);
            return c.run(k, &p);
        }
        c.run(k, &whole(k, &with_body(&b)))
    })
}
/// A module with memory, table, globals and types whose one body (without locals) is given as bytes.
fn with_body(b: &[u8]) -> Vec<u8> {
    let mut e = Enc::new();
    e.out.extend(PREAMBLE);
    e.section(1, &[3, 0x60, 0, 0, 0x60, 0, 1, 0x7F, 0x60, 1, 0x7F, 0]);
    e.section(3, &[1, 0]);
    e.section(4, &[1, 0x70, 0, 1]);
    e.section(5, &[1, 0, 1]);
    e.section(6, &[2, 0x7F, 1, 0x41, 0, 0x0B, 0x7E, 1, 0x42, 0, 0x0B]);
    let mut s = Enc::new();
    s.u(1);
    let mut body = vec![1, 2, 0x7F];
    body.extend(b);
    s.sized(&body);
    e.section(10, &s.out);
    e.out
}
/// Sections written by hand, in order.
fn by_hand(ss: &[(u8, Vec<u8>)]) -> Vec<u8> {
    let mut e = Enc::new();
    e.out.extend(PREAMBLE);
    for (id, b) in ss { e.section(*id, b) }
    e.out
}
/// Features of later versions, one at a time, each section entry also with its neighbours intact.
pub fn later_versions(k: Kind) -> Space {
    let mut list: Vec<Vec<u8>> = vec![];
    let ty = |b: &[u8]| (1u8, [&[1u8][..], b].concat());
    // type forms, value types
    for form in (0x40u8..=0x7F).chain([0x00, 0x01, 0xE0]) { list.push(by_hand(&[ty(&[form, 0, 0])])); list.push(by_hand(&[ty(&[form, 1, 0x7F, 1, 0x7F])])); list.push(by_hand(&[ty(&[form])])); list.push(by_hand(&[ty(&[form, 1, 0x7F, 0])])) }
    for v in 0..=255u8 { list.push(by_hand(&[ty(&[0x60, 1, v, 0])])); list.push(by_hand(&[ty(&[0x60, 0, 1, v])])); list.push(by_hand(&[ty(&[0x60, 1, v, 0x70, 0])])) }
    // tables and memories: every element type and limits flag, with zero to three numbers
    for et in 0..=255u8 { list.push(by_hand(&[(4, vec![1, et, 0, 1])])); list.push(by_hand(&[(4, vec![1, et, 1, 1, 2])])) }
    for fl in 0..=255u8 { for tail in [&[][..], &[1], &[1, 2], &[1, 2, 3]] { list.push(by_hand(&[(4, [&[1, 0x70, fl][..], tail].concat())])); list.push(by_hand(&[(5, [&[1, fl][..], tail].concat())])); list.push(by_hand(&[(2, [&[1, 0, 0, 2, fl][..], tail].concat())])); list.push(by_hand(&[(2, [&[1, 0, 0, 1, 0x70, fl][..], tail].concat())])) } }
    // globals, imports and exports of every kind byte
    for v in 0..=255u8 {
        list.push(by_hand(&[(6, vec![1, v, 0, 0x41, 0, 0x0B])]));
        list.push(by_hand(&[(6, vec![1, v, 0, 0xD0, 0x70, 0x0B])]));
        list.push(by_hand(&[(6, vec![1, 0x7F, v, 0x41, 0, 0x0B])]));
        for tail in [&[0][..], &[0, 0], &[0x70, 0, 0], &[0x7F, 0], &[0x7F, 1]] { list.push(by_hand(&[ty(&[0x60, 0, 0]), (2, [&[1, 0, 0, v][..], tail].concat())])) }
        list.push(by_hand(&[ty(&[0x60, 0, 0]), (3, vec![1, 0]), (4, vec![1, 0x70, 0, 1]), (5, vec![1, 0, 1]), (6, vec![1, 0x7F, 0, 0x41, 0, 0x0B]), (7, vec![1, 0, v, 0]), (10, vec![1, 2, 0, 0x0B])]));
    }
    // element and data segments with flags, in the layouts later versions give them
    let host = |id: u8, b: Vec<u8>| by_hand(&{ let mut v = vec![ty(&[0x60, 0, 0]), (3, vec![1, 0]), (4, vec![1, 0x70, 0, 1]), (5, vec![1, 0, 1])]; if id == 9 { v.push((9, b.clone())) } v.push((10, vec![1, 2, 0, 0x0B])); if id == 11 { v.push((11, b)) } v });
    for fl in (0..=9u8).chain([0x40, 0x7F, 0x80, 0xFF]) {
        for off in [&[][..], &[0x41, 0, 0x0B], &[0, 0x41, 0, 0x0B]] { for mid in [&[][..], &[0x00], &[0x70]] { for init in [&[0][..], &[1, 0], &[1, 0xD2, 0, 0x0B], &[1, 0xD0, 0x70, 0x0B]] { list.push(host(9, [&[1, fl][..], off, mid, init].concat())) } } }
        for off in [&[][..], &[0x41, 0, 0x0B], &[0, 0x41, 0, 0x0B]] { for init in [&[0][..], &[1, 0x55]] { list.push(host(11, [&[1, fl][..], off, init].concat())) } }
    }
    // data count and tag sections, at each place
    for at in 0..=11u8 { for (id, b) in [(12u8, vec![0u8]), (12, vec![1]), (13, vec![0]), (13, vec![1, 0, 0]), (14, vec![0])] {
        let full = [(1u8, vec![1, 0x60, 0, 0]), (2, vec![0]), (3, vec![1, 0]), (4, vec![0]), (5, vec![1, 0, 1]), (6, vec![0]), (7, vec![0]), (8, vec![0]), (9, vec![0]), (10, vec![1, 2, 0, 0x0B]), (11, vec![1, 0, 0x41, 0, 0x0B, 0])];
        let mut v = full[..at as usize].to_vec();
        v.push((id, b.clone()));
        v.extend(full[at as usize..].iter().cloned());
        list.push(by_hand(&v));
    } }
    // constant expressions of later versions
    for e in [&[0x41u8, 1, 0x41, 2, 0x6A][..], &[0x41, 1, 0x41, 2, 0x6B], &[0x41, 1, 0x41, 2, 0x6C], &[0x23, 0], &[0x23, 0, 0x41, 1, 0x6A], &[0xD2, 0], &[0xD0, 0x70], &[0xD0, 0x6F], &[0x42, 1, 0xA7], &[0x41, 1, 0x1A, 0x41, 1], &[0x01, 0x41, 0], &[0x00], &[]] {
        let e = [e, &[0x0B]].concat();
        list.push(by_hand(&[(6, [&[2, 0x7F, 0, 0x41, 0, 0x0B, 0x7F, 0][..], &e].concat())]));
        list.push(host(9, [&[1, 0][..], &e, &[0]].concat()));
        list.push(host(11, [&[1, 0][..], &e, &[0]].concat()));
    }
    // block types: every byte, and as type indices
    for bt in 0..=255u8 { for o in [2u8, 3, 4] { list.push(with_body(&[0x00, o, bt, 0x00, 0x0B, 0x00, 0x0B])); list.push(with_body(&[0x00, o, bt, 0x0B, 0x00, 0x0B])); list.push(with_body(&[0x00, o, bt, 0x00, 0x00, 0x0B, 0x00, 0x0B])) } }
    // preambles of later versions and of components
    for v in [[1u8, 0, 0, 0], [2, 0, 0, 0], [0x0D, 0, 0, 0], [0x0D, 0, 1, 0], [0x0A, 0, 1, 0], [0, 0, 0, 0], [0x0B, 0, 0, 0], [1, 0, 1, 0]] { list.push([&PREAMBLE[..4], &v].concat()) }
    space("later-versions", format!("{} modules using encodings that later versions of WebAssembly give a meaning to (and all other values of the same bytes): type forms, value and element types, limits flags, kinds, segment flags, sections, constant expressions, block types, versions", list.len()), 1, move |c| {
        let b = c.of(&list)?;
        c.run(k, &whole(k, b))
    })
}
/// All strings of one length, whatever the reference makes of their beginnings.
pub fn raw_entries(k: Kind, name: &'static str, prims: Vec<&'static str>, alpha: Vec<u8>, len: usize) -> Space {
    let ids: Vec<u8> = prims.iter().map(|n| prim(n)).collect();
    space(name, format!("every string of exactly {} bytes over {:02x?} decoded as each of {:?}", len, alpha, prims), 3, move |c| {
        let mut p = vec![*c.of(&ids)?];
        for _ in 0..len { p.push(*c.of(&alpha)?) }
        c.run(k, &p)
    }).injective()
}
/// Every element's encodings with one byte replaced or inserted, and something to read after it.
pub fn mutate_elements(k: Kind, per: usize) -> Space {
    let sm: Vec<(u8, Vec<u8>)> = element_samples(per).into_iter().filter(|s| !s.1.is_empty()).collect();
    space("mutate-elements", format!("each of {} encodings of {} element kinds with every byte replaced by every value, or every value inserted at every place, followed by 3 kinds of bytes", sm.len(), PRIMS.len() - 1), 2, move |c| {
        let (id, b) = c.of(&sm)?;
        let ins = c.flag()?;
        let at = c.pick(b.len() + ins as usize)?;
        let v = c.pick(256)? as u8;
        let mut p = vec![*id];
        p.extend(b);
        if ins { p.insert(1 + at, v) } else { p[1 + at] = v }
        p.extend(c.of(&[&[][..], &[0x00, 0x00, 0x00, 0x0B], &[0x01, 0x7F, 0x0B, 0x0B]])?.iter());
        c.run(k, &p)
    })
}

// ---------------------------------------------------------------------------------------------
// one bad entry among many

pub fn one_bad(k: Kind, upto: usize, max: usize) -> Space {
    let ns: Vec<usize> = sizes(upto, max).into_iter().filter(|n| *n > 0).collect();
    space("one-bad", format!("lists of n entries (types, imports, functions, bodies, globals, exports, element segments, their functions, data segments, instructions; n in 1..={} and around powers of two up to {}), all good but for one of 24 kinds of bad entry at one place (every place for n<=12, else the ends, middle and powers of two), or none", upto, max), 2, move |c| {
        let n = *c.of(&ns)?;
        let what = c.pick(24)?;
        let ps = places(n, 12);
        let p = c.pick(ps.len() + 1)?;
        let j = if p == ps.len() { usize::MAX } else { ps[p] };
        let bad = |i: usize| i == j;
        let mut m = M { types: vec![FT::new(&[], &[]), FT::new(&[I32], &[I32])], ..M::default() };
        let off = |i: usize| vec![Ins::I32(i as i32)];
        let name = |i: usize| format!("n{}", i);
        let nopd = |b: &[Ins]| f(0, &[], b);
        match what {
            0 => m.types.extend((0..n).map(|i| if bad(i) { FT::new(&[], &[I32, I64]) } else { FT::new(&[TS[i % 4]], &[]) })),
            1 => m.imports = (0..n).map(|i| imp(ImpD::Func(if bad(i) { 2 } else { (i % 2) as u32 }))).collect(),
            2 => m.imports = (0..n).map(|i| imp(if bad(i) { ImpD::Mem(lim(65537, None)) } else { ImpD::Func(0) })).collect(),
            3 => m.imports = (0..n).map(|i| imp(if bad(i) { ImpD::Table(lim(2, Some(1))) } else { ImpD::Global(gt(I32, false)) })).collect(),
            4 => m.funcs = (0..n).map(|i| if bad(i) { f(2, &[], &[UNR]) } else { nopd(&[]) }).collect(),
            5 => m.funcs = (0..n).map(|i| if bad(i) { nopd(&[Ins::I32(0)]) } else { nopd(&[]) }).collect(),
            6 => m.funcs = (0..n).map(|i| if bad(i) { nopd(&[DROP]) } else { nopd(&[Ins::I32(0), DROP]) }).collect(),
            7 => m.funcs = (0..n).map(|i| if bad(i) { f(1, &[], &[Ins::I64(0)]) } else { f(1, &[], &[Ins::Idx(0x20, 0)]) }).collect(),
            8 => m.funcs = (0..n).map(|i| if bad(i) { nopd(&[ix(0x10, n as u32)]) } else { nopd(&[ix(0x10, n as u32 - 1)]) }).collect(),
            9 => m.globals = (0..n).map(|i| Glob { ty: gt(I32, i % 2 == 0), init: if bad(i) { vec![Ins::I64(0)] } else { off(i) } }).collect(),
            10 => { m.imports.push(imp(ImpD::Global(gt(I32, false)))); m.globals = (0..n).map(|i| Glob { ty: gt(I32, false), init: vec![ix(0x23, if bad(i) { 1 } else { 0 })] }).collect() }
            11..=14 => {
                m.funcs = vec![nopd(&[])];
                m.tables = vec![lim(1, None)];
                m.mems = vec![lim(1, None)];
                m.globals = vec![Glob { ty: gt(I32, false), init: off(0) }];
                m.exports = (0..n).map(|i| exp(&name(i), if bad(i) { what as u8 - 11 } else { (i % 4) as u8 }, bad(i) as u32)).collect()
            }
            15 | 16 => { m.mems = vec![lim(1, None)]; let a = what == 15; m.datas = (0..n).map(|i| Data { mem: (a && bad(i)) as u32, offset: if !a && bad(i) { vec![Ins::F32(0)] } else { off(i) }, init: vec![i as u8; i % 3] }).collect() }
            17..=19 => { m.tables = vec![lim(1, None)]; m.funcs = vec![nopd(&[])]; m.elems = (0..n).map(|i| Elem { table: (what == 17 && bad(i)) as u32, offset: if what == 18 && bad(i) { vec![] } else { off(i) }, init: if what == 19 && bad(i) { vec![0, 1] } else { vec![0; i % 3] } }).collect() }
            20 => { m.tables = vec![lim(1, None)]; m.funcs = vec![nopd(&[]); 2]; m.elems = vec![Elem { table: 0, offset: off(0), init: (0..n).map(|i| if bad(i) { 2 } else { (i % 2) as u32 }).collect() }] }
            21 => m.funcs = vec![nopd(&(0..n).flat_map(|i| [Ins::I32(0), if bad(i) { op(0x45) } else { DROP }]).collect::<Vec<_>>())],
            22 => m.funcs = vec![nopd(&(0..n).flat_map(|i| [blk(None), ix(0x0C, if bad(i) { 2 } else { 1 }), E, UNR]).collect::<Vec<_>>())],
            _ => { m.mems = vec![lim(1, None)]; m.funcs = vec![nopd(&(0..n).flat_map(|i| [Ins::I32(0), Ins::Mem(0x28, if bad(i) { 3 } else { 2 }, i as u32), DROP]).collect::<Vec<_>>())] }
        }
        c.run(k, &encode(&m))
    })
}

// ---------------------------------------------------------------------------------------------
// operand stacks

/// Constructs entered with n operands below them.
pub fn tall(k: Kind, upto: usize, max: usize) -> Space {
    let ns = sizes(upto, max);
    space("tall-stacks", format!("n operands (n in 0..={} and around powers of two up to {}), then a block, loop, if or else-branch, with or without result, whose content is balanced, takes one or two operands too many, leaves one, or ends dead, at nesting 1 or 2; afterwards exactly the right number of drops, one fewer or one more", upto, max), 2, move |c| {
        let n = *c.of(&ns)?;
        let kind = c.pick(4)?;
        let t = *c.of(&[None, Some(I32), Some(F64)])?;
        let content = c.pick(11)?;
        let deep = c.flag()?;
        let off = *c.of(&[0i64, -1, 1])?;
        let mut b: Vec<Ins> = (0..n).map(|_| Ins::I32(0)).collect();
        if deep { b.push(blk(None)) }
        match kind { 0 => b.push(blk(t)), 1 => b.push(lop(t)), 2 => { b.push(Ins::I32(1)); b.push(iff(t)) } _ => { b.push(Ins::I32(1)); b.push(iff(t)); b.push(UNR); b.push(L) } }
        let v: Vec<Ins> = t.map(cst).into_iter().collect();
        match content {
            0 => b.extend(v),
            1 => { b.push(DROP); b.extend(v) }
            2 => { b.extend([op(0x6A)]); b.extend(v) }
            3 => { b.push(Ins::I32(0)); b.push(op(0x6A)); b.push(DROP); b.extend(v) }
            4 => { b.push(Ins::I32(0)); b.extend(v) }
            5 => b.push(UNR),
            6 => { b.push(UNR); b.push(DROP); b.push(DROP); b.extend(v) }
            7 => { b.extend(v); b.push(ix(0x0C, 0)) }
            8 => { b.extend(v); b.push(ix(0x0C, 1)) }
            9 => { b.push(UNR); b.push(DROP) }
            _ => { b.push(set(I32)); b.extend(v) }
        }
        if kind == 2 && t.is_some() { b.push(L); b.push(UNR) }
        b.push(E);
        if t.is_some() { b.push(DROP) }
        if deep { b.push(E) }
        let m2 = (n as i64 + off).max(0) as usize;
        b.extend(vec![DROP; m2]);
        c.run(k, &encode(&host(None, &b)))
    })
}

// ---------------------------------------------------------------------------------------------
// what else is in the module

/// Memory and table instructions against every kind of declaration.
pub fn declared_limits(k: Kind) -> Space {
    let edges = [0u32, 1, 2, 255, 256, 32767, 32768, 65535, 65536];
    let mut ls: Vec<Lim> = vec![];
    for a in edges { ls.push(lim(a, None)); for b in edges { if b >= a { ls.push(lim(a, Some(b))) } } }
    for b in [65537, 1 << 20, 0x7FFF_FFFF, 0x8000_0000, u32::MAX] { ls.push(lim(0, Some(b))); ls.push(lim(b, None)); ls.push(lim(b, Some(b))) }
    space("declared-limits", format!("23 loads and stores (natural alignment, one more), memory.size, memory.grow and call_indirect with right and wrong operand and result types, against {} limits of an imported or defined memory or table, in a module with or without other things", ls.len()), 1, move |c| {
        let l = *c.of(&ls)?;
        let imported = c.flag()?;
        let o = c.range(0x28, 0x41)? as u8;
        let bare = c.pick(3)?;
        let dev = c.pick(4)?;
        // dev: right, wrong address type, wrong value or result type, alignment one too large / index 1
        let x = if dev == 1 { Ins::I64(0) } else { Ins::I32(0) };
        let wrong = |t: T| TS[(t as usize + 1) % 4];
        let mut b = vec![];
        match o {
            0x28..=0x3E => {
                let (t, w, store) = mem_sig(o);
                let t = if dev == 2 { wrong(t) } else { t };
                b.push(x);
                if store { b.push(cst(t)) }
                b.push(Ins::Mem(o, w.trailing_zeros() + (dev == 3) as u32, 0));
                if !store { b.push(set(t)) }
            }
            0x3F | 0x40 => { if o == 0x40 { b.push(x) } b.push(ix(o, (dev == 3) as u32)); b.push(set(if dev == 2 { I64 } else { I32 })) }
            _ => { b.push(Ins::I32(0)); b.push(x); b.push(Ins::CallInd(2, (dev == 3) as u32)); b.push(set(if dev == 2 { F64 } else { I64 })) }
        }
        let mut m = host(None, &b);
        if o == 0x41 { m.tables.clear(); if imported { m.imports.push(imp(ImpD::Table(l))) } else { m.tables.push(l) } }
        else { m.mems.clear(); if imported { m.imports.push(imp(ImpD::Mem(l))) } else { m.mems.push(l) } }
        // bare: without the other of table and memory, and without globals and other functions
        if bare > 0 { if o == 0x41 { m.mems.clear() } else { m.tables.clear() } }
        if bare > 1 { m.globals.clear(); m.funcs.truncate(1) }
        c.run(k, &encode(&m))
    })
}
/// Instructions among other things: additions to the module that change no index.
pub fn contexts(k: Kind) -> Space {
    let ops = all_leaf_ops();
    let st = stacks(2);
    space("contexts", format!("each of {} instructions on every operand stack of up to 2 values (and the fitting one of three), in {} modules that have other things besides, result dropped or not", ops.len(), 24), 2, move |c| {
        let o = c.of(&ops)?;
        let s = c.pick(st.len() + 1)?;
        let with = c.pick(24)?;
        let drop = c.pick(2)?;
        let mut b: Vec<Ins> = if s < st.len() { st[s].iter().map(|t| cst(*t)).collect() } else { vec![Ins::I64(0), Ins::I64(1), Ins::I32(0)] };
        b.push(o.clone());
        b.extend(vec![DROP; drop]);
        let mut m = host(None, &b);
        let void = || f(1, &[], &[]);
        match with {
            0 => m.start = Some(1),
            1 => m.exports = vec![exp("a", 0, 0), exp("b", 1, 0), exp("c", 2, 0), exp("d", 3, 1)],
            2 => m.datas = vec![Data { mem: 0, offset: vec![Ins::I32(0)], init: vec![1, 2, 3] }],
            3 => m.elems = vec![Elem { table: 0, offset: vec![Ins::I32(0)], init: vec![0, 1, 2, 3, 4] }],
            4 => m.mems[0] = lim(0, Some(0)),
            5 => m.mems[0] = lim(65536, Some(65536)),
            6 => m.tables[0] = lim(0, Some(0)),
            7 => m.tables[0] = lim(0, Some(u32::MAX)),
            8 => m.funcs.extend(vec![void(); 300]),
            9 => m.types.extend(vec![FT::new(&[F64; 9], &[F64]); 300]),
            10 => for i in 0..300 { m.globals.push(Glob { ty: gt(TS[i % 4], i % 2 == 0), init: vec![cst(TS[i % 4])] }) },
            11 => m.funcs[0].locals.extend((0..300).map(|i| TS[i % 4])),
            12 => { m.mems.clear(); m.imports.push(imp(ImpD::Mem(lim(1, None)))) }
            13 => { m.tables.clear(); m.imports.push(imp(ImpD::Table(lim(1, None)))) }
            14 => { let g = m.globals.remove(0); m.imports.push(imp(ImpD::Global(g.ty))) }
            15 => { m.mems.clear(); m.tables.clear() }
            16 => m.globals.clear(),
            17 => { m.funcs.truncate(1); }
            18 => { m.start = Some(1); m.exports = vec![exp("", 0, 1)]; m.funcs.push(f(1, &[I32; 3], &[Ins::I32(5), iff(None), L, E])) }
            19 => m.funcs[1].body = b.clone(),
            20 => m.funcs.push(f(0, &[F32, F64], &b)),
            21 => { m.funcs[0].ty = 5; m.types.push(FT::new(&[I32, I64], &[I32])) }
            22 => { m.funcs[0].ty = 5; m.types.push(FT::new(&[I32, I64], &[F64])) }
            _ => { m.types.push(FT::new(&[], &[I32, I32])); }
        }
        c.run(k, &encode(&m))
    })
}

// ---------------------------------------------------------------------------------------------
// names and contents

pub fn names_long(k: Kind, upto: usize, max: usize) -> Space {
    let ns = sizes(upto, max);
    space("names-long", format!("a name of n one-byte characters (n in 0..={} and around powers of two up to {}), then a character of 1..4 bytes, then 0..5 more, as import module, import name, export name, second export name and custom section name", upto, max), 2, move |c| {
        let n = *c.of(&ns)?;
        let ch = *c.of(&["é", "€", "😀", "\0", "\u{FFFD}"])?;
        let tail = *c.of(&["", "xyzzy"])?;
        let s = format!("{}{}{}", "a".repeat(n), ch, tail);
        let mut m = M { types: vec![FT::new(&[], &[])], mems: vec![lim(1, None)], ..M::default() };
        let mut custom = false;
        match c.pick(5)? {
            0 => m.imports.push(Imp { module: s.clone(), name: "n".into(), desc: ImpD::Func(0) }),
            1 => m.imports.push(Imp { module: "m".into(), name: s.clone(), desc: ImpD::Global(gt(F32, true)) }),
            2 => m.exports.push(exp(&s, 2, 0)),
            3 => { m.exports.push(exp(&"a".repeat(n), 2, 0)); m.exports.push(exp(&s, 2, 0)) }
            _ => custom = true,
        }
        let mut b = encode(&m);
        if custom {
            let mut body = leb_u(s.len() as u64);
            body.extend(s.bytes());
            body.extend([1, 2, 3]);
            let mut e = Enc::new();
            e.section(0, &body);
            b.extend(e.out);
        }
        c.run(k, &whole(k, &b))
    })
}
/// Lists whose items are all equal, or all but one, or change once.
pub fn fills(k: Kind, upto: usize, max: usize) -> Space {
    let ns: Vec<usize> = sizes(upto, max).into_iter().filter(|n| *n > 0).collect();
    space("fills", format!("data, element, name, locals, parameter, label and body lists of n items (n in 1..={} and around powers of two up to {}): items all a, one b at a place among a's, a's up to a place and b's from there, for each pair of different a and b of 5", upto, max), 2, move |c| {
        let n = *c.of(&ns)?;
        let which = c.pick(8)?;
        let a = c.pick(5)?;
        let b = c.pick(5)?;
        let ps = if a == b { vec![0] } else { places(n, 3).into_iter().filter(|p| n <= 40 || *p < 2 || *p + 3 > n || *p == n / 2).collect() };
        let p = *c.of(&ps)?;
        let step = if a == b { false } else { c.flag()? };
        let odd = |i: usize| if step { i >= p } else { i == p };
        let bytes = [0u8, 1, 0x0B, 0x80, 0xFF];
        let nums = [0u32, 1, 127, 128, u32::MAX];
        let by = |i: usize| bytes[if odd(i) { b } else { a }];
        let nu = |i: usize| nums[if odd(i) { b } else { a }];
        let t = |i: usize| TS[(if odd(i) { b } else { a }) % 4];
        let mut m = M::default();
        match which {
            0 => m.datas.push(Data { mem: 0, offset: vec![Ins::I32(0)], init: (0..n).map(by).collect() }),
            1 => m.elems.push(Elem { table: 0, offset: vec![Ins::I32(0)], init: (0..n).map(nu).collect() }),
            2 => m.exports.push(exp(&(0..n).map(|i| ['\0', 'a', '\u{7F}', ' ', 'Z'][if odd(i) { b } else { a }]).collect::<String>(), 0, 0)),
            3 => m.funcs.push(f(0, &(0..n).map(t).collect::<Vec<_>>(), &[])),
            4 => m.types.push(FT { p: (0..n).map(t).collect(), r: vec![] }),
            5 => m.funcs.push(f(0, &[], &[Ins::BrTable((0..n).map(nu).collect(), 3)])),
            6 => m.funcs.push(f(0, &[], &(0..n).map(|i| Ins::Op([0x00, 0x01, 0x0F, 0x1A, 0x1B][if odd(i) { b } else { a }])).collect::<Vec<_>>())),
            _ => m.funcs = (0..n).map(|i| f(nu(i), &[], &[Ins::I32(i as i32)])).collect(),
        }
        c.run(k, &encode(&m))
    })
}
/// Integers padded to any length.
pub fn pads(k: Kind, upto: usize, max: usize) -> Space {
    let ns = sizes(upto, max);
    space("leb-pads", format!("8 integer types, 9 values each, padded with n bytes (n in 0..={} and around powers of two up to {}) of zeros or ones, the last, first or a middle padding byte different or not, complete or cut", upto, max), 2, move |c| {
        let (n, bits, sg) = *c.of(&[("u8", 8, false), ("u16", 16, false), ("u32", 32, false), ("u64", 64, false), ("i8", 8, true), ("i16", 16, true), ("i32", 32, true), ("i64", 64, true)])?;
        let top: i128 = 1 << (bits - sg as i32);
        let vs: [i128; 9] = [0, 1, 63, 64, 127, top - 1, if sg { -1 } else { 128 }, if sg { -64 } else { top / 2 }, if sg { -top } else { 2 }];
        let v = *c.of(&vs)?;
        let pad = *c.of(&ns)?;
        let ones = c.flag()?;
        let odd = c.pick(5)?;
        let mut b = vec![];
        let mut x = v;
        loop {
            let low = (x & 0x7F) as u8;
            x >>= 7;
            let done = if sg { (x == 0 && low & 0x40 == 0) || (x == -1 && low & 0x40 != 0) } else { x == 0 };
            b.push(low | 0x80);
            if done { break }
        }
        let at = b.len();
        b.extend(vec![if ones { 0xFF } else { 0x80 }; pad]);
        match odd { 0 => {} 1 => *b.last_mut().unwrap() ^= 1, 2 => if pad > 0 { b[at] ^= 0x40 }, 3 => if pad > 0 { b[at + pad / 2] ^= 0x10 }, _ => {} }
        if odd != 4 { *b.last_mut().unwrap() &= 0x7F }
        let mut p = vec![prim(n)];
        p.extend(b);
        if odd != 4 { p.push(0x80) }
        c.run(k, &p)
    })
}
pub fn utf8_units() -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = ["a", "\0", "\u{7F}", "\u{80}", "é", "\u{7FF}", "\u{800}", "€", "\u{D7FF}", "\u{E000}", "\u{FEFF}", "\u{FFFE}", "\u{FFFF}", "\u{10000}", "😀", "\u{3FFFF}", "\u{40000}", "\u{10FFFF}", "\u{301}"].iter().map(|s| s.as_bytes().to_vec()).collect();
    v.extend([
        vec![0x80], vec![0xBF], vec![0xC0], vec![0xC0, 0x80], vec![0xC1, 0xBF], vec![0xC2], vec![0xDF], vec![0xE0, 0x80, 0x80], vec![0xE0, 0x9F, 0xBF], vec![0xE0, 0xA0], vec![0xE2, 0x82], vec![0xE2],
        vec![0xED, 0xA0, 0x80], vec![0xED, 0xAF, 0xBF], vec![0xED, 0xA0, 0xBD], vec![0xED, 0xB0, 0x80], vec![0xED, 0xB8, 0x80], vec![0xED, 0xBF, 0xBF], vec![0xED],
        vec![0xF0, 0x80, 0x80, 0x80], vec![0xF0, 0x8F, 0xBF, 0xBF], vec![0xF0, 0x9F, 0x98], vec![0xF0, 0x9F], vec![0xF0], vec![0xF4, 0x90, 0x80, 0x80], vec![0xF5, 0x80, 0x80, 0x80], vec![0xF7, 0xBF, 0xBF, 0xBF], vec![0xF8, 0x88, 0x80, 0x80, 0x80], vec![0xFC, 0x84, 0x80, 0x80, 0x80, 0x80], vec![0xFE], vec![0xFF],
    ]);
    v
}
/// Names put together from whole, broken and forbidden sequences.
pub fn name_units(k: Kind, len: usize) -> Space {
    let us = utf8_units();
    let id = prim("string");
    space("name-units", format!("names made of up to {} of {} byte sequences: characters at the edges of each length, truncated, overlong, surrogate and out-of-range sequences", len, us.len()), 2, move |c| {
        let n = c.range(0, len)?;
        let mut b: Vec<u8> = vec![];
        for _ in 0..n { b.extend(c.of(&us)?) }
        let mut p = vec![id, b.len() as u8];
        p.extend(b);
        c.run(k, &p)
    })
}
/// The sequences at every distance from the start and the end of a longer name.
pub fn name_units_at(k: Kind, upto: usize, max: usize) -> Space {
    let us = utf8_units();
    let id = prim("string");
    let ns = sizes(upto, max);
    space("name-units-at", format!("each of {} byte sequences after n letters (n in 0..={} and around powers of two up to {}) and before 0, 1, 3, 8, 40 more", us.len(), upto, max), 2, move |c| {
        let u = c.of(&us)?;
        let n = *c.of(&ns)?;
        let t = *c.of(&[0usize, 1, 3, 8, 40])?;
        let wide = c.flag()?;
        let mut b: Vec<u8> = if wide { "é".repeat(n).into_bytes() } else { vec![b'a'; n] };
        b.extend(u);
        b.extend(vec![b'z'; t]);
        let mut p = vec![id];
        p.extend(leb_u(b.len() as u64));
        p.extend(b);
        c.run(k, &p)
    })
}
/// Pairs of the sequences where modules have names.
pub fn name_units_in_place(k: Kind) -> Space {
    let us = utf8_units();
    space("name-units-in-place", format!("every pair of {} byte sequences as import module, import name, export name and custom section name", us.len()), 2, move |c| {
        let mut n = c.of(&us)?.clone();
        n.extend(c.of(&us)?);
        let mut s = Enc::new();
        let mut e = Enc::new();
        e.out.extend(PREAMBLE);
        let put = |s: &mut Enc| { s.u(n.len() as u32); s.out.extend(&n) };
        match c.pick(4)? {
            0 => { s.u(1); put(&mut s); s.out.extend([1, b'x', 3, 0x7F, 0]); e.section(2, &s.out) }
            1 => { s.out.extend([1, 1, b'x']); put(&mut s); s.out.extend([3, 0x7F, 0]); e.section(2, &s.out) }
            2 => { e.section(5, &[1, 0, 0]); s.u(1); put(&mut s); s.out.extend([2, 0]); e.section(7, &s.out) }
            _ => { put(&mut s); s.out.extend([0x80, 0xFF]); e.section(0, &s.out) }
        }
        c.run(k, &whole(k, &e.out))
    })
}
/// Names in a row, then more.
pub fn stream_names(k: Kind) -> Space {
    let us = utf8_units();
    space("stream-names", format!("two names of up to two of {} byte sequences one after the other, from each of {} kinds of byte source", us.len(), SOURCES), 2, move |c| {
        let a = c.of(&us)?.clone();
        let b = c.pick(us.len() + 1)?;
        let s = c.pick(SOURCES)?;
        let id = prim("string");
        let n = if b < us.len() { [a.clone(), us[b].clone()].concat() } else { a.clone() };
        let mut p = vec![s as u8, 2, id, id, n.len() as u8];
        p.extend(&n);
        p.push(a.len() as u8);
        p.extend(&a);
        p.extend([0x80, 0x41]);
        c.run(k, &p)
    })
}

// ---------------------------------------------------------------------------------------------
// pairing

pub fn pairing_patterns(k: Kind, upto: usize, max: usize) -> Space {
    let ns: Vec<usize> = sizes(upto, max).into_iter().filter(|n| *n > 0).collect();
    space("pairing-patterns", format!("n functions (n in 1..={} and around powers of two up to {}) whose type indices are all a, or one b among them, or a's then b's, or the run a b a, with the change at every place (n<=150, else interesting ones), for 3 pairs of a and b; bodies all different or all but one alike", upto, max), 2, move |c| {
        let n = *c.of(&ns)?;
        let (a, b) = *c.of(&[(0u32, 1u32), (2, 0), (5, u32::MAX)])?;
        let shape = c.pick(4)?;
        let ps = if shape == 0 { vec![0] } else { places(n, 150) };
        let p = *c.of(&ps)?;
        let alike = c.flag()?;
        let ty = |i: usize| if match shape { 0 => false, 1 => i == p, 2 => i >= p, _ => i >= p && i <= p + (n - p) / 2 } { b } else { a };
        let mut m = M { types: vec![FT::new(&[], &[]); 3], ..M::default() };
        m.funcs = (0..n).map(|i| if alike { f(ty(i), &[], &[Ins::Op((i == p) as u8)]) } else { f(ty(i), &vec![I32; i % 3], &[Ins::I32(i as i32)]) }).collect();
        c.run(k, &whole(k, &encode(&m)))
    })
}

// ---------------------------------------------------------------------------------------------
// histories of longer things

/// x, y, x where y is as long as x and differs in one place.
pub fn long_twins(k: Kind, upto: usize) -> Space {
    let mut ns: Vec<usize> = (1..=upto).collect();
    ns.extend([31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000].into_iter().filter(|n| *n > upto));
    space("long-twins", format!("histories x, y, x where x is a name, byte vector, integer vector, expression, or module with a name, data segment, list of functions, of types or of locals of n items (n in 1..={} and some up to 1000) and y differs from it in one item (every place for n<=24) or is one longer", upto), 1, move |c| {
        let n = *c.of(&ns)?;
        let which = c.pick(11)?;
        let ps = places(n, 24);
        let p = c.pick(ps.len() + 1)?;
        let make = |odd: usize, n: usize| -> (u8, Vec<u8>) {
            let let_ = |i: usize| if i == odd { b'Z' } else { b'a' + (i % 25) as u8 };
            let t = |i: usize| if i == odd { F64 } else { TS[i % 3] };
            let len = leb_u(n as u64);
            let m = prim("module");
            let mut x = M { types: vec![FT::new(&[], &[])], mems: vec![lim(1, None)], ..M::default() };
            match which {
                0 => (prim("string"), [len, (0..n).map(let_).collect()].concat()),
                1 => (prim("vec-byte"), [len, (0..n).map(let_).collect()].concat()),
                2 => (prim("vec-u32"), [len, (0..n).map(let_).collect()].concat()),
                3 => (prim("expr"), [(0..n).flat_map(|i| [0x20, let_(i)]).collect(), vec![0x0B]].concat()),
                4 => { x.exports.push(exp(&String::from_utf8((0..n).map(let_).collect()).unwrap(), 2, 0)); (m, encode(&x)) }
                5 => { x.imports.push(Imp { module: String::from_utf8((0..n).map(let_).collect()).unwrap(), name: "n".into(), desc: ImpD::Func(0) }); (m, encode(&x)) }
                6 => { x.datas.push(Data { mem: 0, offset: vec![Ins::I32(0)], init: (0..n).map(let_).collect() }); (m, encode(&x)) }
                7 => { x.funcs = (0..n).map(|i| f(0, &[], if i == odd { &[UNR] } else { &[] })).collect(); (m, encode(&x)) }
                8 => { x.types.extend((0..n).map(|i| FT::new(&[t(i)], &[]))); (m, encode(&x)) }
                9 => { x.funcs = vec![f(0, &(0..n).map(t).collect::<Vec<_>>(), &[ix(0x20, odd.min(n - 1) as u32), Ins::Blk(2, None), E, DROP])]; (m, encode(&x)) }
                // the same but for the type that is used: one valid, one not
                _ => { x.types.push(FT { p: (0..n).map(t).collect(), r: vec![] }); x.funcs = vec![f(1, &[], &[ix(0x20, ps[p.min(ps.len() - 1)] as u32), cst(F64), op(0xA0), DROP])]; (m, encode(&x)) }
            }
        };
        let (id, x) = make(usize::MAX, n);
        let (_, y) = if p < ps.len() { make(ps[p], n) } else { make(usize::MAX, n + 1) };
        c.run(k, &seq_payload(&[(id, &x), (id, &y), (id, &x)]))
    }).serial()
}
/// Functions one after another whose locals are as many but of other types.
pub fn locals_pairs(k: Kind, upto: usize, max: usize) -> Space {
    let ns: Vec<usize> = sizes(upto, max).into_iter().filter(|n| *n > 0).collect();
    space("locals-pairs", format!("two functions with n parameters and locals (n in 1..={} and around powers of two up to {}; all parameters, all locals, half and half), the second as many, one fewer or one more, of the same type, all of another, or differing in one place; the second uses the first, last or differing one as its own or as the other's type; 0..1 functions between", upto, max), 2, move |c| {
        let n = *c.of(&ns)?;
        let split = c.pick(3)?;
        let split2 = c.pick(3)?;
        let d = *c.of(&[0i64, -1, 1])?;
        let n2 = (n as i64 + d) as usize;
        let diff = c.pick(3)?;
        let mid = c.flag()?;
        let at = *c.of(&[0usize, 1, 2])?;
        let right = c.flag()?;
        if n2 == 0 { return Ok(()) }
        let i = [0, n2 / 2, n2 - 1][at];
        let ty = |j: usize| match diff { 0 => I32, 1 => I64, _ => if j == i { I64 } else { I32 } };
        let cut = |n: usize, s: usize| [0, n / 2, n][s];
        let mut m = M { types: vec![FT::new(&[], &[]), FT { p: vec![I32; cut(n, split)], r: vec![] }, FT { p: (0..cut(n2, split2)).map(ty).collect(), r: vec![] }], ..M::default() };
        m.funcs.push(f(1, &vec![I32; n - cut(n, split)], &[]));
        if mid { m.funcs.push(f(0, &[], &[])) }
        let want = if right { ty(i) } else if ty(i) == I64 { I32 } else { I64 };
        m.funcs.push(f(2, &(cut(n2, split2)..n2).map(ty).collect::<Vec<_>>(), &[ix(0x20, i as u32), op(if want == I64 { 0x50 } else { 0x45 }), DROP]));
        c.run(k, &encode(&m))
    })
}

// ---------------------------------------------------------------------------------------------
// comparing

/// Two modules alike but for one number.
pub fn pairs_fields(k: Kind) -> Space {
    let vals: Vec<Option<u32>> = [None].into_iter().chain([0u32, 1, 2, 3, 127, 128, 255, 256, 65535, 65536, 65537, 0x7FFF_FFFF, 0x8000_0000, 0x8000_0001, u32::MAX - 1, u32::MAX].map(Some)).collect();
    let build = |which: usize, v: Option<u32>| -> Option<Vec<u8>> {
        let mut m = M { types: vec![FT::new(&[], &[])], ..M::default() };
        let x = || v;
        let n = v;
        match which {
            0 => m.tables.push(lim(7, x())),
            1 => m.mems.push(lim(7, x())),
            2 => m.imports.push(imp(ImpD::Table(lim(7, x())))),
            3 => m.imports.push(imp(ImpD::Mem(lim(7, x())))),
            4 => m.start = x(),
            5 => m.tables.push(lim(n?, None)),
            6 => m.mems.push(lim(n?, Some(7))),
            7 => m.imports.push(imp(ImpD::Table(lim(n?, Some(7))))),
            8 => m.imports.push(imp(ImpD::Mem(lim(n?, None)))),
            9 => m.imports.push(imp(ImpD::Func(n?))),
            10 => m.funcs.push(f(n?, &[], &[])),
            11..=14 => m.exports.push(exp("e", which as u8 - 11, n?)),
            15 => m.elems.push(Elem { table: n?, offset: vec![], init: vec![] }),
            16 => m.elems.push(Elem { table: 0, offset: vec![], init: vec![n?] }),
            17 => m.elems.push(Elem { table: 0, offset: vec![Ins::I32(n? as i32)], init: vec![] }),
            18 => m.datas.push(Data { mem: n?, offset: vec![], init: vec![] }),
            19 => m.datas.push(Data { mem: 0, offset: vec![Ins::Idx(0x23, n?)], init: vec![] }),
            20 => m.globals.push(Glob { ty: gt(I64, false), init: vec![Ins::I64(n? as i64)] }),
            21 => m.globals.push(Glob { ty: gt(I64, false), init: vec![Ins::I64((n? as i64) << 32)] }),
            22 => { let n = n?; m.globals.push(Glob { ty: gt(TS[(n % 4) as usize], n & 4 != 0), init: vec![] }) }
            23 => { let n = n?; m.types.push(FT::new(&TS[..(n % 4) as usize], &TS[..(n / 64 % 4) as usize])) }
            24 => { let n = n?; m.exports.push(exp("e", (n % 4) as u8, 0)) }
            _ => { let n = n?; m.imports.push(imp(match n % 4 { 0 => ImpD::Func(0), 1 => ImpD::Table(lim(0, None)), 2 => ImpD::Mem(lim(0, None)), _ => ImpD::Global(gt(I32, false)) })) }
        }
        Some(encode(&m))
    };
    let fam: Vec<Vec<Vec<u8>>> = (0..26).map(|w| vals.iter().filter_map(|v| build(w, *v)).collect()).collect();
    space("field-pairs", format!("all pairs of modules alike but for one number, for {} places and {} values (or none where optional)", fam.len(), vals.len() - 1), 1, move |c| {
        let g = c.of(&fam)?;
        let a = c.pick(g.len())?;
        let b = c.pick(g.len())?;
        c.run(k, &pair_payload(&g[a], &g[b]))
    })
}
