//! Base modules for mutation, truncation and histories.

use crate::model::*;
use T::*;

fn m() -> M { M::default() }

/// A valid module that uses every section, every import and export kind and every immediate kind.
pub fn rich() -> M {
    M {
        types: vec![FT::new(&[], &[]), FT::new(&[I32, I64], &[F32]), FT::new(&[I32], &[I32])],
        imports: vec![
            Imp { module: "env".into(), name: "f".into(), desc: ImpD::Func(2) },
            Imp { module: "env".into(), name: "g".into(), desc: ImpD::Global(gt(I32, false)) },
            Imp { module: "".into(), name: "é".into(), desc: ImpD::Global(gt(F64, true)) },
        ],
        funcs: vec![
            f(0, &[I32, I32, F64], &[
                Ins::Blk(2, None), Ins::Blk(3, None), Ins::Idx(0x20, 0), Ins::Idx(0x0D, 1), Ins::I32(-5), Ins::BrTable(vec![0, 1], 2), Ins::Op(END), Ins::Op(END),
                Ins::I32(1), Ins::Blk(4, Some(I64)), Ins::I64(-1), Ins::Op(ELSE), Ins::I64(1 << 40), Ins::Op(END), Ins::Op(0x1A),
                Ins::Idx(0x20, 0), Ins::Idx(0x20, 1), Ins::Idx(0x10, 0), Ins::CallInd(2, 0), Ins::Idx(0x21, 0),
                Ins::I32(0), Ins::Mem(0x29, 3, 300), Ins::Op(0xA7), Ins::Idx(0x22, 0), Ins::F32(0x7FC0_0001), Ins::Mem(0x38, 2, 0),
                Ins::F64(0x8000_0000_0000_0000), Ins::Idx(0x24, 1), Ins::Idx(0x3F, 0), Ins::Idx(0x40, 0), Ins::Op(0x1A),
            ]),
            f(1, &[], &[Ins::F32(0x3F80_0000), Ins::F32(0), Ins::Idx(0x20, 0), Ins::Op(0x1B), Ins::Op(0x0F)]),
        ],
        tables: vec![lim(2, Some(10))],
        mems: vec![lim(1, Some(65536))],
        globals: vec![Glob { ty: gt(I32, false), init: vec![Ins::Idx(0x23, 0)] }, Glob { ty: gt(I64, true), init: vec![Ins::I64(7)] }],
        exports: vec![exp("run", 0, 1), exp("t", 1, 0), exp("mem", 2, 0), exp("g", 3, 2)],
        start: Some(1),
        elems: vec![Elem { table: 0, offset: vec![Ins::I32(0)], init: vec![0, 2] }],
        datas: vec![Data { mem: 0, offset: vec![Ins::Idx(0x23, 0)], init: b"hi\xFF".to_vec() }],
    }
}

/// The same with float constants that compare as their bits do.
pub fn rich_plain() -> M {
    let mut m = rich();
    for f in &mut m.funcs { for i in &mut f.body { match i { Ins::F32(b) if *b == 0x7FC0_0001 => *b = 0x4049_0FDB, Ins::F64(b) => *b = 0x4009_21FB_5444_2D18, _ => {} } } }
    m
}

/// Smaller valid modules, each centred on one feature.
pub fn small() -> Vec<M> {
    let void = || FT::new(&[], &[]);
    let one = |t: FT, l: &[T], b: &[Ins]| M { types: vec![t], funcs: vec![f(0, l, b)], ..m() };
    vec![
        m(),
        M { types: vec![void(), FT::new(&[I32, I64, F32, F64], &[F64])], ..m() },
        one(void(), &[], &[]),
        one(FT::new(&[], &[I32]), &[], &[Ins::I32(-129)]),
        one(FT::new(&[], &[I64]), &[], &[Ins::I64(i64::MIN)]),
        one(FT::new(&[], &[F32]), &[], &[Ins::F32(0x7F80_0001)]),
        one(FT::new(&[], &[F64]), &[], &[Ins::F64(0x7FF0_0000_0000_0001)]),
        one(void(), &[I32, I32, I64, F32, F32, F32, I32], &[Ins::Idx(0x20, 6), Ins::Idx(0x21, 0)]),
        one(void(), &[], &[Ins::Blk(2, None), Ins::Blk(2, None), Ins::Idx(0x0C, 1), Ins::Op(END), Ins::Op(END)]),
        one(FT::new(&[I32], &[I32]), &[], &[Ins::Idx(0x20, 0), Ins::Blk(4, Some(I32)), Ins::I32(1), Ins::Op(ELSE), Ins::I32(2), Ins::Op(END)]),
        one(void(), &[], &[Ins::Blk(3, None), Ins::I32(0), Ins::Idx(0x0D, 0), Ins::Op(END)]),
        one(FT::new(&[I32], &[]), &[], &[Ins::Blk(2, None), Ins::Idx(0x20, 0), Ins::BrTable(vec![0, 1, 0], 1), Ins::Op(END)]),
        one(FT::new(&[], &[I32]), &[], &[Ins::Op(0), Ins::Op(0x6A), Ins::Op(0x1B)]),
        M { types: vec![void()], imports: vec![imp(ImpD::Func(0)), imp(ImpD::Func(0))], funcs: vec![f(0, &[], &[Ins::Idx(0x10, 1), Ins::Idx(0x10, 2)])], exports: vec![exp("", 0, 2)], start: Some(2), ..m() },
        M { imports: vec![imp(ImpD::Table(lim(0, Some(0))))], exports: vec![exp("t", 1, 0)], ..m() },
        M { imports: vec![imp(ImpD::Mem(lim(65536, None)))], exports: vec![exp("m", 2, 0)], datas: vec![Data { mem: 0, offset: vec![Ins::I32(-1)], init: vec![0, 1, 2, 255] }], ..m() },
        M { imports: vec![imp(ImpD::Global(gt(I64, false)))], globals: vec![Glob { ty: gt(I64, true), init: vec![Ins::Idx(0x23, 0)] }], exports: vec![exp("g", 3, 0), exp("h", 3, 1)], ..m() },
        M { types: vec![void()], funcs: vec![f(0, &[], &[]), f(0, &[F32], &[])], tables: vec![lim(1, None)], elems: vec![Elem { table: 0, offset: vec![Ins::I32(3)], init: vec![1, 0, 1] }, Elem { table: 0, offset: vec![Ins::I32(0)], init: vec![] }], ..m() },
        M { types: vec![FT::new(&[I32, I32], &[])], mems: vec![lim(0, Some(1))], funcs: vec![f(0, &[], &[Ins::Idx(0x20, 0), Ins::Idx(0x20, 1), Ins::Mem(0x36, 2, 4), Ins::Idx(0x20, 0), Ins::Mem(0x2D, 0, 0xFFFF_FFFF), Ins::Op(0x1A)])], ..m() },
        M { types: vec![void(), FT::new(&[I64], &[F64])], tables: vec![lim(1, None)], funcs: vec![f(0, &[], &[Ins::I64(0), Ins::I32(0), Ins::CallInd(1, 0), Ins::Op(0x1A)])], ..m() },
        M { types: vec![void(); 3], funcs: vec![f(2, &[], &[]), f(1, &[], &[Ins::Op(1)]), f(0, &[], &[Ins::Op(0)])], ..m() },
    ]
}

/// `rich` with custom sections before, between and after its sections.
pub fn with_customs() -> Vec<u8> {
    let r = rich();
    let mut e = Enc::new();
    e.out.extend_from_slice(&PREAMBLE);
    e.section(0, &[0]);
    for id in 1..=11 {
        if let Some(b) = section_body(&r, id, 0) { e.section(id, &b) }
        if id % 4 == 0 { e.section(0, b"\x04name\x01\x02\x03"); e.section(0, &[2, 0xC3, 0xA9]) }
    }
    e.section(0, b"\x01x");
    e.out
}

/// All base modules as bytes, the large ones last.
pub fn all() -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = small().iter().map(encode).collect();
    v.push(encode(&rich()));
    v.push(with_customs());
    v.push(encode_pad(&small()[9], 3));
    v
}
