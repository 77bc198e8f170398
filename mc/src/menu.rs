//! Operations that histories are made of.

use crate::bind;
use crate::model::*;
use crate::prims::prim;
use crate::{refdec, refval};
use std::sync::OnceLock;

pub enum Op {
    Module { bytes: Vec<u8>, expect: Option<(M, String, bool)> },
    Validate { m: M, text: String, valid: bool },
    Prim { id: u8, bytes: Vec<u8> },
}

static MENU: OnceLock<Vec<Op>> = OnceLock::new();
pub fn menu() -> &'static [Op] { MENU.get_or_init(build) }

pub fn module(bytes: Vec<u8>) -> Op {
    let expect = refdec::module(&bytes).ok().map(|m| {
        let text = format!("{:?}", bind::ast(&m).unwrap());
        let valid = refval::module(&m).is_ok();
        (m, text, valid)
    });
    Op::Module { bytes, expect }
}
fn validate(m: M) -> Op {
    let text = format!("{:?}", bind::ast(&m).unwrap());
    let valid = refval::module(&m).is_ok();
    Op::Validate { m, text, valid }
}

fn build() -> Vec<Op> {
    let rich = crate::bases::rich();
    let full = encode(&rich);
    let one = |t: FT, locals: &[T], body: &[Ins]| M { types: vec![t], funcs: vec![f(0, locals, body)], ..M::default() };
    let mut v = vec![
        // well-formed and valid
        module(full.clone()),
        module(PREAMBLE.to_vec()),
        module(encode_pad(&rich, 2)),
        // well-formed and invalid
        module(encode(&one(FT::new(&[], &[T::I32]), &[], &[Ins::I64(1)]))),
        module(encode(&one(FT::new(&[], &[]), &[], &[Ins::Blk(2, None), Ins::I32(1), Ins::Op(END)]))),
        // malformed at various depths
        module(full[..full.len() - 1].to_vec()),
        module(full[..full.len() / 2].to_vec()),
        module(vec![0, b'a', b's']),
        module({ let mut x = full.clone(); x[0] = 1; x }),
        module([&PREAMBLE[..], &[3, 2, 1, 0]].concat()),
        module([&PREAMBLE[..], &[0, 2, 1, 0xFF]].concat()),
        module([&PREAMBLE[..], &[1, 2, 0, 0]].concat()),
        module([&PREAMBLE[..], &[2, 1, 0, 1, 1, 0]].concat()),
        module([&PREAMBLE[..], &[1, 0xFF, 0xFF, 0xFF, 0xFF, 0x7F]].concat()),
        // validation only: failing inside nested frames, with operands left, in every kind of expression
        validate(one(FT::new(&[T::I32], &[T::I32]), &[T::I64], &[Ins::Idx(0x20, 0), Ins::Blk(2, Some(T::I32)), Ins::Idx(0x20, 1), Ins::Op(END)])),
        validate(one(FT::new(&[T::I32], &[T::I32]), &[T::I64], &[Ins::Idx(0x20, 0), Ins::Op(0x0F), Ins::Op(0x0F)])),
        validate(one(FT::new(&[], &[]), &[], &[Ins::Blk(3, None), Ins::Idx(0x0C, 0), Ins::Op(END)])),
        validate(one(FT::new(&[], &[]), &[], &[Ins::Idx(0x20, 0)])),
        validate(M { globals: vec![Glob { ty: gt(T::I32, false), init: vec![Ins::I64(0)] }], ..M::default() }),
        validate(M { globals: vec![Glob { ty: gt(T::F32, true), init: vec![Ins::F32(0)] }], ..M::default() }),
        validate(M { mems: vec![lim(1, None)], datas: vec![Data { mem: 0, offset: vec![Ins::I32(0), Ins::I32(0)], init: vec![] }], ..M::default() }),
        validate(M { exports: vec![exp("a", 0, 0)], ..M::default() }),
        validate(rich.clone()),
        validate(M { start: Some(7), ..rich.clone() }),
        // validation only: one for each remaining reason to reject
        validate(M { funcs: vec![f(5, &[], &[])], ..M::default() }),
        validate(M { imports: vec![imp(ImpD::Func(5))], ..M::default() }),
        validate(M { mems: vec![lim(1, None)], exports: vec![exp("a", 2, 0), exp("a", 2, 0)], ..M::default() }),
        validate(M { mems: vec![lim(1, None)], exports: vec![exp("a", 2, 0), exp("b", 2, 0)], ..M::default() }),
        validate(M { mems: vec![lim(1, None), lim(1, None)], ..M::default() }),
        validate(M { tables: vec![lim(2, Some(1))], ..M::default() }),
        validate(M { types: vec![FT::new(&[], &[T::I32, T::I32])], ..M::default() }),
        validate(M { tables: vec![lim(2, None)], elems: vec![Elem { table: 0, offset: vec![Ins::I32(0)], init: vec![4] }], ..M::default() }),
        validate(one(FT::new(&[], &[]), &[], &[Ins::I32(0), Ins::Mem(0x28, 3, 0), Ins::Op(0x1A)])),
        validate(M { mems: vec![lim(1, None)], ..one(FT::new(&[], &[]), &[], &[Ins::I32(0), Ins::Mem(0x28, 3, 0), Ins::Op(0x1A)]) }),
        validate(M { globals: vec![Glob { ty: gt(T::I32, true), init: vec![Ins::I32(0)] }], mems: vec![lim(1, None)], datas: vec![Data { mem: 0, offset: vec![Ins::Idx(0x23, 0)], init: vec![] }], ..M::default() }),
        validate(one(FT::new(&[T::I32], &[]), &[T::I64, T::F32], &[Ins::Idx(0x0C, 1)])),
    ];
    for (n, b) in [
        ("u32", vec![0x80, 0x80, 0x80, 0x80, 0x10]), ("u32", vec![0x80]), ("u32", vec![0xFF, 0xFF, 0xFF, 0xFF, 0x0F]), ("i64", vec![0x7F]),
        ("i32", vec![0x80, 0x80, 0x80, 0x80, 0x08]), ("f64", vec![0, 0, 0, 0, 0, 0, 0xF8, 0x7F]), ("f32", vec![1, 2, 3]), ("string", vec![2, 0xC3, 0x28]),
        ("string", vec![2, 0xC3, 0xA9]), ("sized-byte", vec![2, 1, 2]), ("sized-consume", vec![1, 2]), ("expr", vec![0x02, 0x40, 0x05]),
        ("expr", vec![0x02, 0x40, 0x0B, 0x0B]), ("compact-val", vec![2, 3, 0x7F, 1, 0x7C]), ("compact-val", vec![2, 3, 0x7F, 1]), ("vec-val", vec![2, 0x7F, 0x01]),
    ] { v.push(Op::Prim { id: prim(n), bytes: b }) }
    v
}
