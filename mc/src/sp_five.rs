//! Spaces around histories of failures, lists compared with lists, and operands below nested blocks.

use crate::bases;
use crate::cases::Kind;
use crate::engine::{space, Space};
use crate::model::*;
use crate::prims::prim;
use crate::sp_dec::{element_samples, pair_payload, seq_payload};
use crate::sp_val::*;
use T::*;

/// A decode that fails and one that does not, over and over.
pub fn cycles(k: Kind, count: u32) -> Space {
    let mut e = Enc::new();
    for f in &bases::rich().funcs { for i in &f.body { e.ins(i) } }
    for i in [lop(None), lop(None), Ins::I32(0), iff(None), lop(None), E, Ins::Op(ELSE), blk(None), E, E, E, E] { e.ins(&i) }
    e.b(END);
    let mut list = vec![(prim("expr"), e.out)];
    list.extend(element_samples(1).into_iter().filter(|s| s.1.len() > 1));
    let mut cycles: Vec<(u8, Vec<u8>, usize)> = vec![];
    for (id, b) in &list { for n in 0..b.len() { cycles.push((*id, b.clone(), n)) } }
    for m in bases::small() { let b = encode(&m); for n in 8..b.len() { cycles.push((prim("module"), b.clone(), n)) } }
    space("cycles", format!("for each of {} beginnings of a rich expression, of an encoding of each element kind and of each small module: the beginning and the whole, {} times in turn", cycles.len(), count), 1, move |c| {
        let (id, b, n) = c.of(&cycles)?;
        let mut p = count.to_le_bytes().to_vec();
        p.extend(seq_payload(&[(*id, &b[..*n]), (*id, b)]));
        c.run(k, &p)
    })
}
/// The same with modules that decode and are not valid.
pub fn cycles_invalid(k: Kind, count: u32) -> Space {
    let body = |b: &[Ins]| M { types: vec![FT::new(&[], &[])], funcs: vec![f(0, &[I32], b)], ..M::default() };
    let mut list: Vec<M> = crate::sp_wide::one_wrong();
    let opens: [&[Ins]; 6] = [&[blk(None)], &[lop(None)], &[Ins::I32(0), iff(None)], &[Ins::I32(0), iff(None), Ins::Op(ELSE)], &[UNR, blk(Some(I32))], &[lop(None), Ins::I32(0), iff(None), Ins::Op(ELSE)]];
    for o in opens { for n in 1..=3 { for bad in [DROP, ix(0x0C, 9), Ins::I64(0), ix(0x20, 7), ix(0x10, 3)] {
        let mut b: Vec<Ins> = (0..n).flat_map(|_| o.to_vec()).collect();
        let ends = b.iter().filter(|i| matches!(i, Ins::Blk(..))).count();
        b.push(bad);
        b.extend(vec![E; ends]);
        list.push(body(&b));
    } } }
    let list: Vec<Vec<u8>> = list.into_iter().filter(|m| crate::refval::module(m).is_err()).map(|m| encode(&m)).collect();
    let good = encode(&M { mems: vec![lim(1, None)], tables: vec![lim(1, None)], ..body(&[blk(None), lop(None), Ins::I32(0), iff(Some(I32)), Ins::I32(1), Ins::Op(ELSE), ix(0x20, 0), E, ix(0x21, 0), Ins::I32(0), Ins::BrTable(vec![0], 1), E, E, ix(0x10, 0), Ins::I32(0), Ins::CallInd(0, 0), ix(0x3F, 0), Ins::Mem(0x28, 2, 0), DROP, Ins::Op(0x0F)]) });
    assert!(crate::refval::module(&crate::refdec::module(&good).unwrap()).is_ok());
    space("cycles-invalid", format!("for each of {} modules that are not valid: it and a valid one, {} times in turn", list.len(), count), 1, move |c| {
        let b = c.of(&list)?;
        let id = prim("module");
        let mut p = count.to_le_bytes().to_vec();
        p.extend(seq_payload(&[(id, b), (id, &good)]));
        c.run(k, &p)
    })
}

/// Sizes of mebibytes. `which` selects the places.
pub fn mega(k: Kind, which: &'static [usize], sizes: Vec<usize>) -> Space {
    const PLACES: [&str; 16] = ["custom bytes", "bytes of a custom name", "data bytes", "bytes of an export name", "bytes of an import name", "bytes of a name", "bytes behind a size", "bytes of a vector",
        "element entries", "labels", "parameters", "nops", "types", "empty functions", "constants", "bytes of a sized vector"];
    space("mega", format!("{:?} in numbers {:?}, the last and one in the middle like the others or not", which.iter().map(|w| PLACES[*w]).collect::<Vec<_>>(), sizes), 2, move |c| {
        let w = *c.of(which)?;
        let n = *c.of(&sizes)?;
        if w > 6 && n > 1 << 21 { return Ok(()) }
        let odd = c.pick(3)?;
        let at = match odd { 0 => usize::MAX, 1 => n / 2, _ => n - 1 };
        let by = |same: u8, other: u8| { let mut v = vec![same; n]; if at < n { v[at] = other } v };
        let text = || String::from_utf8(by(b'a', b'z')).unwrap();
        let x = |i: usize| (i == at) as u32 * 300;
        let mut m = M::default();
        let raw = |name: &str, b: Vec<u8>| { let mut p = vec![prim(name)]; p.extend(b); p };
        let with = |b: Vec<u8>| [crate::sp_dec::leb_u(n as u64), b].concat();
        match w {
            0 | 1 => {
                let mut e = Enc::new();
                e.out.extend(PREAMBLE);
                let body = if w == 0 { [vec![1, b'n'], by(0, 1)].concat() } else { with(by(b'a', b'z')) };
                e.section(0, &body);
                e.section(1, &[1, 0x60, 0, 0]);
                return c.run(k, &e.out);
            }
            2 => m.datas.push(Data { mem: 0, offset: vec![Ins::I32(0)], init: by(0, 1) }),
            3 => m.exports.push(exp(&text(), 0, 0)),
            4 => m.imports.push(Imp { module: "m".into(), name: text(), desc: ImpD::Func(0) }),
            5 => return c.run(k, &raw("string", with(by(b'a', if odd == 1 { 0xFF } else { b'z' })))),
            6 => return c.run(k, &raw("sized-consume", with(by(0, 1)))),
            7 => return c.run(k, &raw("unwrap-byte", with(by(0, 1)))),
            8 => m.elems.push(Elem { table: 0, offset: vec![Ins::I32(0)], init: (0..n).map(x).collect() }),
            9 => m.funcs.push(f(0, &[], &[Ins::BrTable((0..n).map(x).collect(), 1)])),
            10 => m.types.push(FT { p: (0..n).map(|i| if i == at { F64 } else { I32 }).collect(), r: vec![] }),
            11 => m.funcs.push(f(0, &[], &(0..n).map(|i| Ins::Op((i != at) as u8)).collect::<Vec<_>>())),
            12 => m.types = (0..n).map(|i| if i == at { FT::new(&[F64], &[]) } else { FT::new(&[], &[]) }).collect(),
            13 => m.funcs = (0..n).map(|i| f(x(i), &[], &[])).collect(),
            14 => m.funcs.push(f(0, &[], &(0..n).map(|i| Ins::I32(x(i) as i32)).collect::<Vec<_>>())),
            _ => { let b = with(by(0, 1)); let b = [crate::sp_dec::leb_u(b.len() as u64 + (odd == 1) as u64), b, vec![0, 0]].concat(); return c.run(k, &raw("sized-vec-byte", b)) }
        }
        c.run(k, &encode(&m))
    }).serial()
}

/// Many locals, parameters, types, functions and globals around nested blocks.
pub fn waiting_things(k: Kind, things: usize, depth: usize) -> Space {
    let ns = sizes(1, things);
    let ds = sizes(1, depth);
    space("waiting-things", format!("n locals of one run or of runs of one, parameters, types, functions, globals, imports, exports or elements next to a function of d nested blocks, loops or ifs, each with a result or not (n around powers of two up to {}, d up to {})", things, depth), 2, move |c| {
        let n = *c.of(&ns)?;
        let d = *c.of(&ds)?;
        let kind = c.range(2, 4)? as u8;
        let r = if c.flag()? { Some(I32) } else { None };
        let mut b: Vec<Ins> = vec![];
        for _ in 0..d { if kind == 4 { b.push(Ins::I32(0)) } b.push(Ins::Blk(kind, r)); }
        if r.is_some() { b.push(Ins::I32(0)) }
        for _ in 0..d { if kind == 4 && r.is_some() { b.extend([Ins::Op(ELSE), Ins::I32(0)]) } b.push(E) }
        if r.is_some() { b.push(DROP) }
        let mut m = M { types: vec![FT::new(&[], &[])], funcs: vec![f(0, &[], &b)], ..M::default() };
        match c.pick(9)? {
            0 => m.funcs[0].locals = vec![I32; n],
            1 => m.funcs[0].locals = (0..n).map(|i| TS[i % 2]).collect(),
            2 => m.types[0].p = vec![I32; n],
            3 => m.types.extend(vec![FT::new(&[], &[]); n]),
            4 => m.funcs.extend(vec![f(0, &[], &[]); n]),
            5 => m.globals = vec![Glob { ty: gt(I32, false), init: vec![Ins::I32(0)] }; n],
            6 => m.imports = vec![imp(ImpD::Func(0)); n],
            7 => m.exports = (0..n).map(|i| exp(&i.to_string(), 0, 0)).collect(),
            _ => { m.tables.push(lim(0, None)); m.elems.push(Elem { table: 0, offset: vec![Ins::I32(0)], init: vec![0; n] }) }
        }
        let mut p = vec![prim("module")];
        p.extend(encode(&m));
        c.run(k, &p)
    })
}

/// Imports and exports whose names agree or not, of all kinds, each with a type of its own.
pub fn name_relations(k: Kind, exports: usize) -> Space {
    space("name-relations", format!("up to two imports (2 modules x 3 names x 4 kinds each, all of different types), a definition of each kind, and up to {} exports (3 names x every item there is)", exports), 3, move |c| {
        let names = ["", "a", "b"];
        let ni = c.range(0, 2)?;
        let mut m = M { types: vec![FT::new(&[], &[]), FT::new(&[I32], &[]), FT::new(&[I64], &[])], ..M::default() };
        let (mut nf, mut ng) = (1, 1);
        for i in 0..ni {
            let (md, nm) = (*c.of(&["a", "b"])?, *c.of(&names)?);
            let desc = match c.pick(4)? {
                0 => { nf += 1; ImpD::Func(1 + i as u32) }
                1 => { if m.imports.iter().any(|x| matches!(x.desc, ImpD::Table(_))) { return Ok(()) } ImpD::Table(lim(1 + i as u32, None)) }
                2 => { if m.imports.iter().any(|x| matches!(x.desc, ImpD::Mem(_))) { return Ok(()) } ImpD::Mem(lim(1 + i as u32, None)) }
                _ => { ng += 1; ImpD::Global(gt([F32, F64][i], false)) }
            };
            m.imports.push(Imp { module: md.into(), name: nm.into(), desc });
        }
        m.funcs.push(f(0, &[], &[]));
        m.globals.push(Glob { ty: gt(I32, true), init: vec![Ins::I32(0)] });
        if !m.imports.iter().any(|x| matches!(x.desc, ImpD::Table(_))) { m.tables.push(lim(0, Some(9))) }
        if !m.imports.iter().any(|x| matches!(x.desc, ImpD::Mem(_))) { m.mems.push(lim(0, Some(9))) }
        for _ in 0..c.range(1, exports)? {
            let nm = *c.of(&names)?;
            let j = c.pick(nf + ng + 2)?;
            let (kd, ix) = if j < nf { (0, j) } else if j < nf + ng { (3, j - nf) } else { ((1 + j - nf - ng) as u8, 0) };
            m.exports.push(exp(nm, kd, ix as u32));
        }
        c.run(k, &encode(&m))
    })
}

/// All pairs of short lists.
pub fn pairs_lists(k: Kind, len: usize) -> Space {
    let mut ls: Vec<Vec<usize>> = vec![vec![]];
    let mut from = 0;
    for _ in 0..len { let to = ls.len(); for i in from..to { for x in 0..3 { let mut v = ls[i].clone(); v.push(x); ls.push(v) } } from = to }
    const N: usize = 22;
    space("list-pairs", format!("all pairs of lists of up to {} items out of 3, in {} places of a module ({} lists each)", len, N, ls.len()), 1, move |c| {
        let which = c.pick(N)?;
        let a = c.pick(ls.len())?;
        let b = c.range(a, ls.len() - 1)?;
        let make = |l: &[usize]| {
            let t = |x: &usize| [I32, I64, F32][*x];
            let n = |x: &usize| [0u32, 1, 128][*x];
            let i = |x: &usize| [Ins::I32(0), Ins::I32(1), Ins::Idx(0x23, 0)][*x].clone();
            let o = |x: &usize| [Ins::Op(1), Ins::Op(0), Ins::I64(0)][*x].clone();
            let ch = |x: &usize| ['a', 'b', 'é'][*x];
            let mut m = M::default();
            let within = |kind: u8, l: &[usize], other: bool| {
                let mut v = vec![Ins::Blk(kind, None)];
                if other { v.push(Ins::Op(ELSE)) }
                v.extend(l.iter().map(o));
                v.push(E);
                v
            };
            match which {
                0 => m.types = l.iter().map(|x| FT::new(&[t(x)], &[])).collect(),
                1 => m.types = l.iter().map(|x| FT::new(&[], &[t(x)])).collect(),
                2 => m.types.push(FT { p: l.iter().map(t).collect(), r: vec![] }),
                3 => m.types.push(FT { p: vec![], r: l.iter().map(t).collect() }),
                4 => m.imports = l.iter().map(|x| imp([ImpD::Func(0), ImpD::Mem(lim(0, None)), ImpD::Global(gt(I32, false))][*x].clone())).collect(),
                5 => m.imports.push(Imp { module: l.iter().map(ch).collect(), name: "n".into(), desc: ImpD::Func(0) }),
                6 => m.imports.push(Imp { module: "m".into(), name: l.iter().map(ch).collect(), desc: ImpD::Func(0) }),
                7 => m.funcs = l.iter().map(|x| f(n(x), &[], &[])).collect(),
                8 => m.funcs = l.iter().map(|x| f(0, &[], &[o(x)])).collect(),
                9 => m.funcs.push(f(0, &l.iter().map(t).collect::<Vec<_>>(), &[])),
                10 => m.funcs.push(f(0, &[], &l.iter().map(o).collect::<Vec<_>>())),
                11 => m.funcs.push(f(0, &[], &[Ins::BrTable(l.iter().map(n).collect(), 0)])),
                12 => m.funcs.push(f(0, &[], &within(2, l, false))),
                13 => m.funcs.push(f(0, &[], &within(3, l, false))),
                14 => m.funcs.push(f(0, &[], &within(4, l, false))),
                15 => m.funcs.push(f(0, &[], &within(4, l, true))),
                16 => m.globals.push(Glob { ty: gt(I32, false), init: l.iter().map(i).collect() }),
                17 => { m.exports = l.iter().map(|x| exp("e", *x as u8, n(x))).collect() }
                18 => m.elems.push(Elem { table: 0, offset: l.iter().map(i).collect(), init: vec![] }),
                19 => m.elems.push(Elem { table: 0, offset: vec![], init: l.iter().map(n).collect() }),
                20 => m.datas.push(Data { mem: 0, offset: l.iter().map(i).collect(), init: vec![] }),
                _ => m.datas.push(Data { mem: 0, offset: vec![], init: l.iter().map(|x| *x as u8).collect() }),
            }
            encode(&m)
        };
        c.run(k, &pair_payload(&make(&ls[a]), &make(&ls[b])))
    })
}

/// Operands waiting below and inside nested blocks.
pub fn waiting(k: Kind, operands: usize, depth: usize) -> Space {
    let ns = sizes(2, operands);
    let ds = sizes(2, depth);
    space("waiting-operands", format!("n operands of two types below d nested blocks, loops or ifs with nothing, an operand or an unconditional branch at every level (n around powers of two up to {}, d up to {}), then dropped or left", operands, depth), 2, move |c| {
        let n = *c.of(&ns)?;
        let d = *c.of(&ds)?;
        let kind = c.range(2, 4)? as u8;
        let at = c.pick(3)?;
        let ok = c.flag()?;
        let mut b: Vec<Ins> = (0..n).map(|i| cst(TS[i % 2])).collect();
        for _ in 0..d {
            match at { 0 => {} 1 => b.push(Ins::I32(0)), _ => b.push(Ins::I64(1)) }
            if kind == 4 { b.push(Ins::I32(0)) }
            b.push(Ins::Blk(kind, None));
        }
        if at == 2 { b.push(UNR) }
        for _ in 0..d { b.push(E); if at > 0 { b.push(DROP) } }
        if ok { b.extend(vec![DROP; n]) }
        let mut p = vec![prim("module")];
        p.extend(encode(&M { types: vec![FT::new(&[], &[])], funcs: vec![f(0, &[], &b)], ..M::default() }));
        c.run(k, &p)
    })
}

/// Start functions with many parameters or results.
pub fn start_sizes(k: Kind, upto: usize, max: usize) -> Space {
    let ns = sizes(upto, max);
    space("start-sizes", format!("start functions with n parameters or n results or one of each more (n in 0..={} and around powers of two up to {}), imported or defined, the first or the last of several", upto, max), 2, move |c| {
        let n = *c.of(&ns)?;
        let t = *c.of(&TS)?;
        let ft = match c.pick(3)? { 0 => FT { p: vec![t; n], r: vec![] }, 1 => FT { p: vec![], r: vec![t; n] }, _ => FT { p: vec![t; n], r: vec![t] } };
        let imported = c.flag()?;
        let last = c.flag()?;
        let mut m = M { types: vec![FT::new(&[], &[]), ft], ..M::default() };
        for i in 0..3 { let ty = (i == 2 * last as usize) as u32; if imported { m.imports.push(imp(ImpD::Func(ty))) } else { m.funcs.push(f(ty, &[], &[UNR])) } }
        m.start = Some(2 * last as u32);
        c.run(k, &encode(&m))
    })
}

/// Long lists of bytes and numbers, with another value at the ends and around multiples of two.
pub fn fills_long(k: Kind, sizes: Vec<usize>) -> Space {
    space("fills-long", format!("data, element, name, locals, parameter, label and body lists of n items (n in {:?}): all a, or one b first, last, next to last, in the middle, or at every place one less than, one more than or at a power of two from 2^8, for each pair of different a and b of 3", sizes), 2, move |c| {
        let n = *c.of(&sizes)?;
        let which = c.pick(7)?;
        let a = c.pick(3)?;
        let b = c.pick(3)?;
        let mut ps = vec![0, 1, n / 2, n - 2, n - 1];
        let mut k2 = 256;
        while k2 < n { ps.extend([k2 - 1, k2, k2 + 1].into_iter().filter(|p| *p < n)); k2 *= 2 }
        ps.sort();
        ps.dedup();
        if a == b { ps.truncate(1) }
        let p = *c.of(&ps)?;
        let v = |i: usize| if i == p { b } else { a };
        let mut m = M::default();
        match which {
            0 => m.datas.push(Data { mem: 0, offset: vec![Ins::I32(0)], init: (0..n).map(|i| [0u8, 1, 0xFF][v(i)]).collect() }),
            1 => m.elems.push(Elem { table: 0, offset: vec![Ins::I32(0)], init: (0..n).map(|i| [0u32, 128, u32::MAX][v(i)]).collect() }),
            2 => m.exports.push(exp(&(0..n).map(|i| ['\0', 'a', 'é'][v(i)]).collect::<String>(), 0, 0)),
            3 => m.funcs.push(f(0, &(0..n).map(|i| TS[v(i)]).collect::<Vec<_>>(), &[])),
            4 => m.types.push(FT { p: (0..n).map(|i| TS[v(i)]).collect(), r: vec![] }),
            5 => m.funcs.push(f(0, &[], &[Ins::BrTable((0..n).map(|i| [0u32, 128, u32::MAX][v(i)]).collect(), 3)])),
            _ => m.funcs.push(f(0, &[], &(0..n).map(|i| Ins::Op([0x00, 0x01, 0x1A][v(i)])).collect::<Vec<_>>())),
        }
        c.run(k, &encode(&m))
    })
}
