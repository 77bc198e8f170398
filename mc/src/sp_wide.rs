//! Spaces that vary two things at once: two counts, a count and a place, an instruction and what is
//! below or before it, a defect and sections that are there but empty.

use crate::cases::Kind;
use crate::engine::{space, Space};
use crate::model::*;
use crate::prims::prim;
use crate::refval;
use crate::sp_dec::{leb_u, whole};
use crate::sp_more::places;
use crate::sp_val::*;
use T::*;

fn valid(m: &M) -> bool { refval::module(m).is_ok() }

// ---------------------------------------------------------------------------------------------
// sections that are present and empty

/// Modules with at most one thing wrong, each.
pub fn one_wrong() -> Vec<M> {
    let void = || FT::new(&[], &[]);
    let base = || M { types: vec![void(), FT::new(&[I32], &[I32])], ..M::default() };
    let body = |b: &[Ins]| M { funcs: vec![f(0, &[I32], b)], ..base() };
    let zero = || vec![Ins::I32(0)];
    let mut v = vec![
        M::default(), base(), body(&[]), body(&[DROP]), body(&[Ins::I32(0)]), body(&[ix(0x10, 0)]), body(&[ix(0x10, 1)]), body(&[ix(0x20, 0), DROP]), body(&[ix(0x20, 1), DROP]),
        body(&[ix(0x23, 0), DROP]), body(&[Ins::I32(0), ix(0x24, 0)]), body(&[Ins::I32(0), Ins::Mem(0x28, 0, 0), DROP]), body(&[Ins::I32(0), Ins::I32(0), Ins::Mem(0x36, 0, 0)]), body(&[ix(0x3F, 0), DROP]),
        body(&[Ins::I32(0), Ins::CallInd(0, 0)]), body(&[Ins::I32(0), Ins::CallInd(9, 0)]), body(&[ix(0x0C, 0)]), body(&[ix(0x0C, 1)]), body(&[blk(Some(I32)), E, DROP]), body(&[Ins::I32(0), iff(Some(I32)), Ins::I32(0), E, DROP]),
        M { funcs: vec![f(7, &[], &[])], ..base() },
        M { funcs: vec![f(1, &[], &[])], ..base() },
        M { elems: vec![Elem { table: 0, offset: zero(), init: vec![] }], ..base() },
        M { elems: vec![Elem { table: 0, offset: zero(), init: vec![] }], tables: vec![lim(0, None)], ..base() },
        M { elems: vec![Elem { table: 0, offset: zero(), init: vec![0] }], tables: vec![lim(0, None)], ..base() },
        M { elems: vec![Elem { table: 0, offset: vec![], init: vec![] }], tables: vec![lim(0, None)], ..base() },
        M { elems: vec![Elem { table: 0, offset: vec![Ins::I64(0)], init: vec![] }], imports: vec![imp(ImpD::Table(lim(0, None)))], ..base() },
        M { datas: vec![Data { mem: 0, offset: zero(), init: vec![] }], ..base() },
        M { datas: vec![Data { mem: 0, offset: zero(), init: vec![1] }], mems: vec![lim(0, None)], ..base() },
        M { datas: vec![Data { mem: 0, offset: vec![Ins::F32(0)], init: vec![1] }], mems: vec![lim(0, None)], ..base() },
        M { datas: vec![Data { mem: 1, offset: zero(), init: vec![1] }], imports: vec![imp(ImpD::Mem(lim(0, None)))], ..base() },
        M { mems: vec![lim(0, None), lim(0, None)], ..base() },
        M { mems: vec![lim(65537, None)], ..base() },
        M { mems: vec![lim(2, Some(1))], ..base() },
        M { tables: vec![lim(0, None), lim(0, None)], ..base() },
        M { tables: vec![lim(2, Some(1))], ..base() },
        M { tables: vec![lim(1, Some(1))], mems: vec![lim(1, Some(1))], ..base() },
        M { imports: vec![imp(ImpD::Mem(lim(0, None)))], mems: vec![lim(0, None)], ..base() },
        M { imports: vec![imp(ImpD::Func(9))], ..base() },
        M { imports: vec![imp(ImpD::Func(1)), imp(ImpD::Global(gt(I32, true)))], ..base() },
        M { imports: vec![imp(ImpD::Table(lim(3, Some(2))))], ..base() },
        M { globals: vec![Glob { ty: gt(I32, false), init: vec![] }], ..base() },
        M { globals: vec![Glob { ty: gt(I32, false), init: vec![Ins::I64(0)] }], ..base() },
        M { globals: vec![Glob { ty: gt(I32, false), init: vec![ix(0x23, 0)] }], ..base() },
        M { globals: vec![Glob { ty: gt(F32, true), init: vec![Ins::F32(0)] }], ..base() },
        M { start: Some(0), ..base() },
        M { start: Some(0), imports: vec![imp(ImpD::Func(0))], ..base() },
        M { start: Some(0), imports: vec![imp(ImpD::Func(1))], ..base() },
        M { types: vec![FT::new(&[I32], &[I32, I64])], ..M::default() },
    ];
    for kd in 0..4u8 { v.push(M { exports: vec![exp("e", kd, 0)], ..base() }) }
    v.push(M { exports: vec![exp("e", 2, 0), exp("e", 2, 0)], mems: vec![lim(0, None)], ..base() });
    v.push(M { exports: vec![exp("e", 2, 0), exp("f", 2, 0)], mems: vec![lim(0, None)], ..base() });
    v.push(crate::bases::rich());
    v
}
pub fn empty_sections(k: Kind) -> Space {
    let ms = one_wrong();
    space("empty-sections", format!("{} modules with at most one thing wrong, with every subset of the sections they lack added as sections without entries", ms.len()), 2, move |c| {
        let b = encode(c.of(&ms)?);
        let mut ss: Vec<(u8, Vec<u8>)> = vec![];
        let mut i = 8;
        while i < b.len() {
            let id = b[i];
            let (mut n, mut sh) = (0usize, 0);
            i += 1;
            loop { n |= ((b[i] & 0x7F) as usize) << sh; sh += 7; i += 1; if b[i - 1] & 0x80 == 0 { break } }
            ss.push((id, b[i..i + n].to_vec()));
            i += n;
        }
        let have: Vec<u8> = ss.iter().map(|s| s.0).collect();
        for id in [1u8, 2, 3, 4, 5, 6, 7, 9, 10, 11] { if !have.contains(&id) && c.flag()? { ss.push((id, vec![0])) } }
        ss.sort_by_key(|s| s.0);
        let mut e = Enc::new();
        e.out.extend(PREAMBLE);
        for (id, b) in ss { e.section(id, &b) }
        c.run(k, &whole(k, &e.out))
    })
}

// ---------------------------------------------------------------------------------------------
// what lies below

/// Every instruction with the operands it needs: (operands, instruction, number of results).
pub fn applied() -> Vec<(Vec<T>, Ins, usize)> {
    let mut v = vec![];
    for o in all_leaf_ops() {
        if matches!(o, Ins::Op(0) | Ins::Op(0x0F) | Ins::Idx(0x0C, _)) { continue }
        let fits = |s: &[T], drops: usize| { let mut b: Vec<Ins> = s.iter().map(|t| cst(*t)).collect(); b.push(o.clone()); b.extend(vec![DROP; drops]); valid(&host(None, &b)) };
        // the shortest stacks it runs on
        for n in 0..=3 {
            let good: Vec<(Vec<T>, usize)> = stacks(3).into_iter().filter(|s| s.len() == n).filter_map(|s| if fits(&s, 0) { Some((s, 0)) } else if fits(&s, 1) { Some((s, 1)) } else { None }).collect();
            if !good.is_empty() { for (s, r) in good { v.push((s, o.clone(), r)) } break }
        }
    }
    v
}
/// Instructions leave what is below their operands as it was.
pub fn below(k: Kind, upto: usize, max: usize) -> Space {
    let ops = applied();
    let ns: Vec<usize> = sizes(upto, max).into_iter().filter(|n| *n > 0).collect();
    space("below", format!("each of {} instructions with the operands it needs, n operands below those (n in 1..={} and around powers of two up to {}) in the function, a block or a loop; afterwards each of the operands below is taken at its type, or the one at a place (the uppermost, the one under it, a middle one, the lowest) at another", ops.len(), upto, max), 1, move |c| {
        let (s, o, r) = c.of(&ops)?;
        let n = *c.of(&ns)?;
        let ctx = c.pick(3)?;
        let rot = if n < 3 { c.pick(4)? } else { 0 };
        let mut ps = vec![usize::MAX, n - 1, n.saturating_sub(2), n / 2, 0];
        ps.dedup();
        let p = *c.of(&ps)?;
        let ty = |i: usize| TS[(i + rot) % 4];
        let mut b = vec![];
        match ctx { 0 => {} 1 => b.push(blk(None)), _ => b.push(lop(None)) }
        b.extend((0..n).map(|i| cst(ty(i))));
        b.extend(s.iter().map(|t| cst(*t)));
        b.push(o.clone());
        b.extend(vec![DROP; *r]);
        for i in (0..n).rev() { b.push(set(if i == p { ty(i + 1) } else { ty(i) })) }
        if ctx > 0 { b.push(E) }
        c.run(k, &encode(&host(None, &b)))
    })
}
/// The same two instructions further down in a body.
pub fn pairs_at(k: Kind) -> Space {
    let mut ops = all_leaf_ops();
    ops.extend([Ins::BrTable(vec![0], 0), Ins::BrTable(vec![], 0), Ins::Mem(0x28, 2, 4), Ins::I32(-1), Ins::I64(-1), Ins::I32(64)]);
    let id = prim("expr");
    space("pairs-at", format!("every ordered pair of {} instructions behind n nops (n in 0..9, 15..17, 32), as whole expression; and behind 0 or 6 nops inside a block, loop, then-branch and else-branch", ops.len()), 2, move |c| {
        let a = c.of(&ops)?;
        let b = c.of(&ops)?;
        let at = c.pick(14 + 8)?;
        let (ctx, n) = if at < 14 { (0, [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 32][at]) } else { (1 + (at - 14) / 2, [0, 6][at % 2]) };
        let mut v = vec![];
        match ctx { 0 => {} 1 => v.push(blk(None)), 2 => v.push(lop(Some(I32))), 3 => v.push(iff(None)), _ => { v.push(iff(None)); v.push(op(0)); v.push(L) } }
        v.extend(vec![op(1); n]);
        v.push(a.clone());
        v.push(b.clone());
        if ctx > 0 { v.push(E); v.push(op(1)) }
        c.run(k, &expr_payload(id, &v))
    })
}
pub fn expr_payload(id: u8, v: &[Ins]) -> Vec<u8> {
    let mut e = Enc::new();
    for i in v { e.ins(i) }
    e.out.push(END);
    let mut p = vec![id];
    p.extend(e.out);
    p
}
/// Runs of three and four instructions further down.
pub fn runs_at(k: Kind, len: usize) -> Space {
    let ops = vec![op(0), op(1), DROP, op(0x1B), op(0x0F), ix(0x20, 0), ix(0x21, 0), ix(0x22, 0), ix(0x23, 0), ix(0x3F, 0), ix(0x40, 0), ix(0x0C, 0), ix(0x0D, 0), ix(0x10, 0), Ins::CallInd(0, 0), Ins::Mem(0x28, 0, 0), Ins::Mem(0x36, 0, 0), Ins::I32(0), Ins::I64(0), Ins::F32(0), Ins::F64(0), op(0x45), op(0x6A), op(0xA7), Ins::BrTable(vec![0], 0)];
    let id = prim("expr");
    space("runs-at", format!("every run of {} of {} instructions behind 0, 5 or 20 nops and before 0 or 3", len, ops.len()), 2, move |c| {
        let mut v = vec![op(1); *c.of(&[0usize, 5, 20])?];
        for _ in 0..len { v.push(c.of(&ops)?.clone()) }
        v.extend(vec![op(1); *c.of(&[0usize, 3])?]);
        c.run(k, &expr_payload(id, &v))
    })
}

// ---------------------------------------------------------------------------------------------
// two counts

pub fn grid(k: Kind, max: usize, what: &[usize]) -> Space {
    let ns: Vec<usize> = [0, 1, 2, 3, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 126, 127, 128, 129, 200, 254, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 32767, 32768, 65535, 65536, 65537].into_iter().filter(|n| *n <= max).collect();
    let what = what.to_vec();
    const NAMES: [&str; 12] = ["parameters x locals", "imported x defined functions", "imported x defined globals", "types x functions", "two groups of locals", "open blocks x labels of a br_table", "operands x parameters of a callee", "exports of a function x of a memory", "element segments x entries", "data segments x bytes", "functions x locals of each", "lengths of module and item name of an import"];
    space("grid", format!("two counts n and m at once, each of {:?} (n*m up to 300000): {}; probed at the last valid and the first invalid index", ns, what.iter().map(|w| NAMES[*w]).collect::<Vec<_>>().join(", ")), 2, move |c| {
        let w = *c.of(&what)?;
        let n = *c.of(&ns)?;
        let m = *c.of(&ns)?;
        if w >= 8 && w != 11 && n * m > 300_000 { return Ok(()) }
        if w == 5 && n > 300 { return Ok(()) }
        let off = c.pick(3)?;
        // the last valid index, the first invalid one, the boundary between the two groups
        let x = match off { 0 => (n + m).wrapping_sub(1), 1 => n + m, _ => n } as u32;
        let mut a = M { types: vec![FT::new(&[], &[]), FT { p: vec![I32; n], r: vec![] }], ..M::default() };
        match w {
            0 => a.funcs.push(f(1, &vec![F64; m], &[ix(0x20, x), DROP])),
            1 => { for _ in 0..n { a.imports.push(imp(ImpD::Func(0))) } for _ in 0..m { a.funcs.push(f(0, &[], &[])) } a.funcs.push(f(0, &[], &[ix(0x10, if off == 1 { x + 1 } else { x })])); }
            2 => { for _ in 0..n { a.imports.push(imp(ImpD::Global(gt(I32, false)))) } for _ in 0..m { a.globals.push(Glob { ty: gt(F32, true), init: vec![Ins::F32(0)] }) } a.funcs.push(f(0, &[], &[ix(0x23, x), DROP])) }
            3 => { a.types = vec![FT::new(&[], &[]); n]; for i in 0..m { a.funcs.push(f(if i + 1 == m { if off == 0 { n.wrapping_sub(1) as u32 } else { n as u32 } } else { 0 }, &[], &[])) } }
            4 => { let mut l = vec![I32; n]; l.extend(vec![F64; m]); a.funcs.push(f(0, &l, &[ix(0x20, x), if off == 2 { op(0x9A) } else { op(1) }, DROP])) }
            5 => { let mut b: Vec<Ins> = vec![blk(None); n]; b.push(Ins::I32(0)); b.push(Ins::BrTable((0..m).map(|i| (i % (n + 1)) as u32).collect(), if off == 1 { n as u32 + 1 } else { n as u32 })); for _ in 0..n { b.push(E) } a.funcs.push(f(0, &[], &b)) }
            6 => { a.types.push(FT { p: vec![I32; m], r: vec![I32] }); a.funcs.push(f(2, &[], &[Ins::I32(0)])); let mut b = vec![Ins::I32(0); n]; b.push(ix(0x10, 0)); let left = (n + 1).saturating_sub(m); b.extend(vec![DROP; if off == 1 { left + 1 } else { left }]); a.funcs.push(f(0, &[], &b)) }
            7 => { a.funcs.push(f(0, &[], &[])); a.mems.push(lim(0, None)); for i in 0..n { a.exports.push(exp(&format!("f{}", i), 0, 0)) } for i in 0..m { a.exports.push(exp(&if off == 1 && i + 1 == m { "f0".into() } else { format!("m{}", i) }, 2, 0)) } }
            8 => { a.tables.push(lim(0, None)); a.funcs.push(f(0, &[], &[])); for i in 0..n { a.elems.push(Elem { table: 0, offset: vec![Ins::I32(i as i32)], init: (0..m).map(|j| (off == 1 && i + 1 == n && j + 1 == m) as u32).collect() }) } }
            9 => { a.mems.push(lim(0, None)); for i in 0..n { a.datas.push(Data { mem: (off == 1 && i + 1 == n) as u32, offset: vec![Ins::I32(i as i32)], init: (0..m).map(|j| (i + j) as u8).collect() }) } }
            10 => for i in 0..n { a.funcs.push(f(0, &vec![TS[i % 4]; m], &[ix(0x20, if off == 1 && i + 1 == n { m as u32 } else { (m as u32).wrapping_sub(1) }), DROP])) },
            _ => a.imports.push(Imp { module: "é".repeat(n / 2) + &"a".repeat(n % 2), name: "b".repeat(m), desc: ImpD::Func(if off == 1 { 2 } else { 0 }) }),
        }
        c.run(k, &whole(k, &encode(&a)))
    })
}

// ---------------------------------------------------------------------------------------------
// names

/// A character of several bytes at every place of a name.
pub fn names_everywhere(k: Kind, max: usize) -> Space {
    let mut ls: Vec<usize> = sizes(20, max);
    ls.extend([50, 60, 90, 100, 110, 120, 125, 130, 140, 150, 160, 180, 200, 240, 250, 260].iter().filter(|l| **l <= max));
    ls.sort();
    ls.dedup();
    space("names-everywhere", format!("names of l bytes (l in 0..20 and {} lengths up to {}) with a character of 2, 3 or 4 bytes starting at every byte up to 300, at the neighbourhoods of powers of two and at the end, as import module, import name, export name and custom section name", ls.len(), max), 2, move |c| {
        let l = *c.of(&ls)?;
        let ch = *c.of(&["é", "€", "😀"])?;
        if l < ch.len() { return Ok(()) }
        let room = l - ch.len() + 1;
        let mut ps: Vec<usize> = (0..room.min(300)).collect();
        if room > 300 { ps.extend(places(room, 0)) }
        ps.sort();
        ps.dedup();
        let p = *c.of(&ps)?;
        let s = format!("{}{}{}", "a".repeat(p), ch, "z".repeat(room - 1 - p));
        let b = named(c.pick(4)?, s.as_bytes());
        c.run(k, &whole(k, &b))
    })
}
/// A module with a name made of these bytes in one of four places.
fn named(place: usize, n: &[u8]) -> Vec<u8> {
    let mut s = Enc::new();
    let mut e = Enc::new();
    e.out.extend(PREAMBLE);
    let put = |s: &mut Enc| { s.out.extend(leb_u(n.len() as u64)); s.out.extend(n) };
    match place {
        0 => { s.u(1); put(&mut s); s.out.extend([1, b'x', 3, 0x7F, 0]); e.section(2, &s.out) }
        1 => { s.out.extend([1, 1, b'x']); put(&mut s); s.out.extend([3, 0x7F, 0]); e.section(2, &s.out) }
        2 => { e.section(5, &[1, 0, 0]); s.u(1); put(&mut s); s.out.extend([2, 0]); e.section(7, &s.out) }
        _ => { put(&mut s); s.out.extend([0x80, 0xFF]); e.section(0, &s.out) }
    }
    e.out
}
pub fn name_pairs(k: Kind) -> Space {
    space("name-pairs", "every name of two one-byte characters, alone or between letters, as import module, import name, export name and custom section name", 2, move |c| {
        let a = c.pick(128)? as u8;
        let b = c.pick(128)? as u8;
        let n = if c.flag()? { vec![a, b] } else { vec![b'q', a, b, b'w'] };
        let place = c.pick(4)?;
        c.run(k, &whole(k, &named(place, &n)))
    })
}

// ---------------------------------------------------------------------------------------------
// initialisers that name globals

pub fn const_own(k: Kind, own: usize) -> Space {
    space("const-own", format!("up to 2 imported globals of every type and mutability, then {} defined ones of every type, the last mutable or not, each initialised by its constant or by naming any global up to one past the end; then nothing, or an element or data segment with entries whose offset names one", own), 2, move |c| {
        let mut m = M { types: vec![FT::new(&[], &[])], funcs: vec![f(0, &[], &[])], tables: vec![lim(9, None)], mems: vec![lim(1, None)], ..M::default() };
        let n = c.range(0, 2)?;
        for _ in 0..n { let t = *c.of(&TS)?; let mu = c.flag()?; m.imports.push(imp(ImpD::Global(gt(t, mu)))) }
        for i in 0..own {
            let t = *c.of(&TS)?;
            let g = c.pick(n + own + 2)?;
            let mu = if i + 1 == own { c.flag()? } else { false };
            m.globals.push(Glob { ty: gt(t, mu), init: vec![if g == 0 { cst(t) } else { ix(0x23, g as u32 - 1) }] });
        }
        match c.pick(3)? {
            0 => {}
            1 => { let g = c.pick(n + own + 1)?; m.elems.push(Elem { table: 0, offset: vec![ix(0x23, g as u32)], init: vec![0, 0] }) }
            _ => { let g = c.pick(n + own + 1)?; m.datas.push(Data { mem: 0, offset: vec![ix(0x23, g as u32)], init: vec![7] }) }
        }
        c.run(k, &encode(&m))
    })
}

// ---------------------------------------------------------------------------------------------
// functions after functions

pub fn body_returns(k: Kind) -> Space {
    // a function: result, parameters or locals, way of leaving, value of the right type or not
    let mut menu: Vec<(usize, Vec<T>, Vec<Ins>)> = vec![];
    for (r, ret) in NONE_OR_T.iter().enumerate() {
        for l in [&[][..], &[I32], &[F64, F64, I64]] {
            for right in [true, false] {
                let v: Vec<Ins> = match (ret, right) { (Some(t), true) => vec![cst(*t)], (Some(t), false) => vec![cst(TS[(*t as usize + 1) % 4])], (None, true) => vec![], (None, false) => vec![Ins::F32(0)] };
                let with = |post: &[Ins]| [&v[..], post].concat();
                let all: Vec<Vec<Ins>> = vec![
                    with(&[]), with(&[op(0x0F)]), with(&[ix(0x0C, 0)]), [&[blk(None)][..], &v, &[ix(0x0C, 1), E, UNR]].concat(), with(&[Ins::I32(0), ix(0x0D, 0)]), with(&[Ins::I32(0), Ins::BrTable(vec![0], 0)]),
                    [&[Ins::I32(0), iff(None)][..], &v, &[op(0x0F), E], &v].concat(), [&[lop(*ret)][..], &v, &[E]].concat(), with(&[op(0x0F), UNR]),
                ];
                for b in all { menu.push((r, l.to_vec(), b)) }
            }
        }
    }
    space("body-returns", format!("every pair from {} functions (5 results, 3 lists of locals, 9 ways of leaving with the right value or a wrong one), next to each other or with a plain function between", menu.len()), 1, move |c| {
        let a = c.of(&menu)?;
        let b = c.of(&menu)?;
        let between = c.flag()?;
        let types: Vec<FT> = NONE_OR_T.iter().map(|r| FT { p: vec![], r: r.iter().copied().collect() }).collect();
        let mut m = M { types, ..M::default() };
        m.funcs.push(f(a.0 as u32, &a.1, &a.2));
        if between { m.funcs.push(f(0, &[], &[])) }
        m.funcs.push(f(b.0 as u32, &b.1, &b.2));
        c.run(k, &encode(&m))
    })
}

// ---------------------------------------------------------------------------------------------
// long expressions, honestly

pub fn honest_inside(k: Kind, max: usize) -> Space {
    let ns = sizes(2, max);
    space("honest-inside", format!("n labels of a br_table, n parameters, n results, n groups of locals, n nops, n constants, n empty blocks, n branches with one label, n bytes of a name, n bytes of a size-prefixed item, n bytes of a custom section, n element entries and n data bytes, n around powers of two up to {}", max), 2, move |c| {
        let n = *c.of(&ns)?;
        let mut b = leb_u(n as u64);
        let p: (&str, Vec<u8>) = match c.pick(15)? {
            0 => { b.insert(0, 0x0E); b.extend(vec![0; n + 1]); b.push(END); ("expr", b) }
            1 => { b.insert(0, 0x60); b.extend(vec![0x7F; n]); b.push(0); ("functype", b) }
            2 => { b.insert(0, 0); b.insert(0, 0x60); b.extend(vec![0x7C; n]); ("functype", b) }
            3 => { for _ in 0..n { b.extend([0, 0x7F]) } b.push(END); ("func", b) }
            4 => ("expr", [vec![1; n], vec![END]].concat()),
            5 => ("expr", [[0x41u8, 0].repeat(n), vec![END]].concat()),
            6 => ("expr", [[0x02u8, 0x40, END].repeat(n), vec![END]].concat()),
            7 => ("expr", [[0x0Eu8, 1, 0, 0].repeat(n), vec![END]].concat()),
            8 => { b.extend(vec![b'a'; n]); ("string", b) }
            9 => { b.extend(vec![0; n]); ("sized-consume", b) }
            10 => { let mut e = Enc::new(); e.out.extend(PREAMBLE); e.section(0, &[vec![1, b'x'], vec![0; n]].concat()); ("module", e.out) }
            11 => { b.splice(0..0, [0, 0x41, 0, 0x0B]); b.extend(vec![0; n]); ("elem", b) }
            12 => { b.splice(0..0, [0, 0x41, 0, 0x0B]); b.extend(vec![0; n]); ("data", b) }
            13 => ("expr", [vec![0x80; 0], [0x04u8, 0x40, 0x05, END].repeat(n), vec![END]].concat()),
            _ => { let mut x = vec![0x41]; x.extend(vec![0x80; n]); x.extend([0, END]); ("expr", x) }
        };
        let mut q = vec![prim(p.0)];
        q.extend(p.1);
        c.run(k, &q)
    })
}

// ---------------------------------------------------------------------------------------------
// histories

/// One operation many times, then each other one, over and over.
pub fn bursts(k: Kind, count: usize) -> Space {
    let n = crate::menu::menu().len();
    space("bursts", format!("for each operation a of the menu: a {} times, then another one, for each other one in turn", count), 1, move |c| {
        let a = c.pick(n)? as u8;
        let mut p = vec![];
        for b in 0..n { p.extend(vec![a; count]); p.push(b as u8) }
        c.run(k, &p)
    }).serial()
}
