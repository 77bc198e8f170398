//! Every element the library can decode on its own, paired with its reference decoder.

use crate::bind;
use crate::model::*;
use crate::refdec::{self, Cur, E, R};
use whasm::binary::{Byte, CompactVec, Consume, Error, Sized, UnwrappingVec, WasmBinary, WasmBinaryParseProxy};
use whasm::structure::{idx, instr, module, ty};

/// Canonical decoded value.
#[derive(Clone, PartialEq, Debug)]
pub enum C {
    Nil,
    N(i128),
    L(Vec<C>),
    S(String),
    T(Vec<Ins>),
    FT(FT),
    Lim(Lim),
    GT(GT),
    Imp(Imp),
    Exp(Exp),
    Func(Func),
    Glob(Glob),
    Elem(Elem),
    Data(Data),
    M(Box<M>),
}
fn n<X: Into<i128>>(x: X) -> C { C::N(x.into()) }
fn ns<X: Into<i128>>(x: Vec<X>) -> C { C::L(x.into_iter().map(n).collect()) }
fn t(x: T) -> C { C::N(x.byte() as i128) }
fn ts(x: Vec<T>) -> C { C::L(x.into_iter().map(t).collect()) }

pub type Src<'a> = &'a mut dyn Iterator<Item = u8>;
type ImpFn = for<'a> fn(Src<'a>) -> Result<C, Error>;
type RefFn = for<'a, 'b> fn(&'a mut Cur<'b>) -> R<C>;
pub struct Prim { pub name: &'static str, pub imp: ImpFn, pub rf: RefFn }

macro_rules! prims { ($($name:literal: $ty:ty => $conv:expr, $rf:expr;)*) => {
    pub static PRIMS: &[Prim] = &[$(Prim {
        name: $name,
        imp: |s| { let mut s = s; let x: $ty = s.parse()?; let f: fn($ty) -> C = $conv; Ok(f(x)) },
        rf: $rf,
    },)*];
} }

fn byte_arr<const K: usize>(x: [Byte; K]) -> C { C::L(x.iter().map(|b| n(b.0)).collect()) }
fn arr<'b>(c: &mut Cur<'b>, k: usize, f: impl Fn(&mut Cur<'b>) -> R<C>) -> R<C> { let mut v = vec![]; for _ in 0..k { v.push(f(c)?) } Ok(C::L(v)) }
fn bytes<'b>(c: &mut Cur<'b>) -> R<C> { Ok(C::L(c.bytes()?.iter().map(|b| n(*b)).collect())) }
fn rbyte(c: &mut Cur) -> R<C> { Ok(n(c.byte()?)) }
fn ru8(c: &mut Cur) -> R<C> { Ok(n(c.uint(8)?)) }
fn ru32(c: &mut Cur) -> R<C> { Ok(n(c.u32()?)) }
fn rval(c: &mut Cur) -> R<C> { Ok(t(c.val()?)) }
fn rvec(c: &mut Cur, f: fn(&mut Cur) -> R<C>) -> R<C> { Ok(C::L(c.vec(f)?)) }
/// An expression inside a value keeps only its tokens.
fn toks(e: &[instr::Instr]) -> C { C::T(bind::unexpr(e)) }
fn rcompact(c: &mut Cur, f: fn(&mut Cur) -> R<C>) -> R<C> {
    let k = c.u32()?;
    let mut v = vec![];
    let mut total = 0u64;
    for _ in 0..k {
        let m = c.u32()?;
        let x = f(c)?;
        total += m as u64;
        if total > u32::MAX as u64 { return Err(E::Locals) }
        if total > refdec::MAX_LOCALS { return Err(E::TooBig) }
        for _ in 0..m { v.push(x.clone()) }
    }
    Ok(C::L(v))
}
fn one_ins(c: &mut Cur) -> R<C> {
    // a single instruction: a structured one extends to its matching `end`
    let i = c.ins()?;
    match i {
        Ins::Blk(..) => {
            let mut out = vec![i.clone()];
            let mut open = vec![if let Ins::Blk(k, _) = i { k } else { 0 }];
            while !open.is_empty() {
                let j = c.ins()?;
                match j {
                    Ins::Blk(k, _) => open.push(k),
                    Ins::Op(ELSE) => { let l = open.last_mut().unwrap(); if *l == 4 { *l = ELSE } else { return Err(E::Else) } }
                    Ins::Op(END) => { open.pop(); if let Some(Ins::Op(ELSE)) = out.last() { out.pop(); } }
                    _ => {}
                }
                out.push(j);
            }
            Ok(C::T(out))
        }
        // not instructions on their own; what decoding them alone gives is nobody's business
        Ins::Op(ELSE) | Ins::Op(END) => Err(E::Unspecified),
        _ => Ok(C::T(vec![i])),
    }
}

prims! {
    "module": module::Module => |x| C::M(Box::new(bind::neutral(&x))), |c| { let m = refdec::module(&c.b[c.pos..])?; c.pos = c.b.len(); Ok(C::M(Box::new(m))) };
    "u8": u8 => n, |c| Ok(n(c.uint(8)?));
    "u16": u16 => n, |c| Ok(n(c.uint(16)?));
    "u32": u32 => n, ru32;
    "u64": u64 => n, |c| Ok(n(c.uint(64)?));
    "i8": i8 => n, |c| Ok(n(c.sint(8)?));
    "i16": i16 => n, |c| Ok(n(c.sint(16)?));
    "i32": i32 => n, |c| Ok(n(c.sint(32)?));
    "i64": i64 => n, |c| Ok(n(c.sint(64)?));
    "byte": Byte => |x| n(x.unwrap()), rbyte;
    "byte0": [Byte; 0] => byte_arr, |c| arr(c, 0, rbyte);
    "byte1": [Byte; 1] => byte_arr, |c| arr(c, 1, rbyte);
    "byte2": [Byte; 2] => byte_arr, |c| arr(c, 2, rbyte);
    "byte3": [Byte; 3] => byte_arr, |c| arr(c, 3, rbyte);
    "byte4": [Byte; 4] => byte_arr, |c| arr(c, 4, rbyte);
    "byte5": [Byte; 5] => byte_arr, |c| arr(c, 5, rbyte);
    "byte6": [Byte; 6] => byte_arr, |c| arr(c, 6, rbyte);
    "byte7": [Byte; 7] => byte_arr, |c| arr(c, 7, rbyte);
    "byte8": [Byte; 8] => byte_arr, |c| arr(c, 8, rbyte);
    "u32x3": [u32; 3] => |x| ns(x.to_vec()), |c| arr(c, 3, ru32);
    "u8x0": [u8; 0] => |x| ns(x.to_vec()), |c| arr(c, 0, ru8);
    "u8x1": [u8; 1] => |x| ns(x.to_vec()), |c| arr(c, 1, ru8);
    "u8x2": [u8; 2] => |x| ns(x.to_vec()), |c| arr(c, 2, ru8);
    "u8x3": [u8; 3] => |x| ns(x.to_vec()), |c| arr(c, 3, ru8);
    "u8x4": [u8; 4] => |x| ns(x.to_vec()), |c| arr(c, 4, ru8);
    "u8x5": [u8; 5] => |x| ns(x.to_vec()), |c| arr(c, 5, ru8);
    "u8x6": [u8; 6] => |x| ns(x.to_vec()), |c| arr(c, 6, ru8);
    "u8x7": [u8; 7] => |x| ns(x.to_vec()), |c| arr(c, 7, ru8);
    "u8x8": [u8; 8] => |x| ns(x.to_vec()), |c| arr(c, 8, ru8);
    "valx4": [ty::Val; 4] => |x| ts(x.iter().map(bind::unval).collect()), |c| arr(c, 4, rval);
    "valx7": [ty::Val; 7] => |x| ts(x.iter().map(bind::unval).collect()), |c| arr(c, 7, rval);
    "valx8": [ty::Val; 8] => |x| ts(x.iter().map(bind::unval).collect()), |c| arr(c, 8, rval);
    "f32": f32 => |x| n(x.to_bits()), |c| Ok(n(c.le(4)?));
    "f64": f64 => |x| n(x.to_bits()), |c| Ok(n(c.le(8)?));
    "vec-u8": Vec<u8> => ns, |c| rvec(c, |c| Ok(n(c.uint(8)?)));
    "vec-u32": Vec<u32> => ns, |c| rvec(c, ru32);
    "vec-byte": Vec<Byte> => |x| C::L(x.iter().map(|b| n(b.0)).collect()), |c| rvec(c, rbyte);
    "vec-i64": Vec<i64> => ns, |c| rvec(c, |c| Ok(n(c.sint(64)?)));
    "vec-f64": Vec<f64> => |x| C::L(x.iter().map(|b| n(b.to_bits())).collect()), |c| rvec(c, |c| Ok(n(c.le(8)?)));
    "vec-val": Vec<ty::Val> => |x| ts(x.iter().map(bind::unval).collect()), |c| rvec(c, rval);
    "vec-vec-byte": Vec<Vec<Byte>> => |x| C::L(x.iter().map(|v| C::L(v.iter().map(|b| n(b.0)).collect())).collect()), |c| rvec(c, |c| rvec(c, rbyte));
    "vec-string": Vec<String> => |x| C::L(x.into_iter().map(C::S).collect()), |c| rvec(c, |c| Ok(C::S(c.name()?)));
    "compact-val": CompactVec<ty::Val> => |x| ts(x.unwrap().iter().map(bind::unval).collect()), |c| rcompact(c, rval);
    "compact-u8": CompactVec<u8> => |x| ns(x.unwrap()), |c| rcompact(c, |c| Ok(n(c.uint(8)?)));
    "compact-u32": CompactVec<u32> => |x| ns(x.unwrap()), |c| rcompact(c, ru32);
    "unwrap-byte": UnwrappingVec<Byte> => |x| ns(x.unwrap()), bytes;
    "unwrap-sized-byte2": UnwrappingVec<Sized<[Byte; 2]>> => |x| C::L(x.unwrap().into_iter().map(byte_arr).collect()), |c| rvec(c, |c| c.sized(|c| arr(c, 2, rbyte)));
    "string": String => C::S, |c| Ok(C::S(c.name()?));
    "sized-byte": Sized<Byte> => |x| n(x.unwrap().0), |c| c.sized(rbyte);
    "sized-byte2": Sized<[Byte; 2]> => |x| byte_arr(x.unwrap()), |c| c.sized(|c| arr(c, 2, rbyte));
    "sized-u32": Sized<u32> => |x| n(x.unwrap()), |c| c.sized(ru32);
    "sized-string": Sized<String> => |x| C::S(x.unwrap()), |c| c.sized(|c| Ok(C::S(c.name()?)));
    "sized-vec-byte": Sized<Vec<Byte>> => |x| C::L(x.unwrap().iter().map(|b| n(b.0)).collect()), |c| c.sized(|c| rvec(c, rbyte));
    "sized-consume": Sized<Consume> => |x| n(x.unwrap().count as u64), |c| c.sized(|c| Ok(n(c.rest()?)));
    "sized-sized-byte": Sized<Sized<Byte>> => |x| n(x.unwrap().unwrap().0), |c| c.sized(|c| c.sized(rbyte));
    "sized-sized-consume": Sized<Sized<Consume>> => |x| n(x.unwrap().unwrap().count as u64), |c| c.sized(|c| c.sized(|c| Ok(n(c.rest()?))));
    "sized3-vec-byte": Sized<Sized<Sized<Vec<Byte>>>> => |x| C::L(x.unwrap().unwrap().unwrap().iter().map(|b| n(b.0)).collect()), |c| c.sized(|c| c.sized(|c| c.sized(|c| rvec(c, rbyte))));
    "sized-empty": Sized<[Byte; 0]> => |x| byte_arr(x.unwrap()), |c| c.sized(|c| arr(c, 0, rbyte));
    "sized-expr": Sized<instr::Expr> => |x| toks(&x.unwrap().0), |c| c.sized(|c| Ok(C::T(c.expr()?)));
    "sized-custom": Sized<(String, Consume)> => |x| { let (s, r) = x.unwrap(); C::L(vec![C::S(s), n(r.count as u64)]) }, |c| c.sized(|c| { let s = c.name()?; Ok(C::L(vec![C::S(s), n(c.rest()?)])) });
    "limits": ty::Limits => |x| C::Lim(bind::unlimits(&x)), |c| Ok(C::Lim(c.limits()?));
    "val": ty::Val => |x| t(bind::unval(&x)), rval;
    "elemtype": ty::Elem => |_| C::Nil, |c| { c.elemtype()?; Ok(C::Nil) };
    "blocktype": ty::RetVal => |x| ts(x.0.iter().map(bind::unval).collect()), |c| Ok(ts(c.blocktype()?.into_iter().collect()));
    "functype": ty::Func => |x| C::FT(bind::unfunctype(&x)), |c| Ok(C::FT(c.functype()?));
    "tabletype": ty::Table => |x| C::Lim(bind::untable(&x)), |c| Ok(C::Lim(c.table()?));
    "memtype": ty::Mem => |x| C::Lim(bind::unmem(&x)), |c| Ok(C::Lim(c.limits()?));
    "mut": ty::Mut => |x| n((x == ty::Mut::Var) as u8), |c| Ok(n(c.mutability()? as u8));
    "globaltype": ty::Global => |x| C::GT(bind::unglobal(&x)), |c| Ok(C::GT(c.globaltype()?));
    "typeidx": idx::Type => |x| n(x.0), ru32;
    "funcidx": idx::Func => |x| n(x.0), ru32;
    "tableidx": idx::Table => |x| n(x.0), ru32;
    "memidx": idx::Mem => |x| n(x.0), ru32;
    "globalidx": idx::Global => |x| n(x.0), ru32;
    "localidx": idx::Local => |x| n(x.0), ru32;
    "labelidx": idx::Label => |x| n(x.0), ru32;
    "expr": instr::Expr => |x| toks(&x.0), |c| Ok(C::T(c.expr()?));
    "constexpr": instr::ConstExpr => |x| toks(&x.0), |c| Ok(C::T(c.expr()?));
    "instr": instr::Instr => |x| toks(&[x]), one_ins;
    "func": module::Func => |x| C::Func(bind::unfunc(&x)), |c| Ok(C::Func(c.func()?));
    "table": module::Table => |x| C::Lim(bind::untable(&x.ty)), |c| Ok(C::Lim(c.table()?));
    "mem": module::Mem => |x| C::Lim(bind::unmem(&x.ty)), |c| Ok(C::Lim(c.limits()?));
    "global": module::Global => |x| C::Glob(bind::unglob(&x)), |c| Ok(C::Glob(c.global()?));
    "elem": module::Elem => |x| C::Elem(bind::unelem(&x)), |c| Ok(C::Elem(c.elem()?));
    "data": module::Data => |x| C::Data(bind::undata(&x)), |c| Ok(C::Data(c.data()?));
    "start": module::Start => |x| n(x.func.0), ru32;
    "import": module::Import => |x| C::Imp(bind::unimport(&x)), |c| Ok(C::Imp(c.import()?));
    "export": module::Export => |x| C::Exp(bind::unexport(&x)), |c| Ok(C::Exp(c.export()?));
    "vec-functype": Vec<ty::Func> => |x| C::L(x.iter().map(|f| C::FT(bind::unfunctype(f))).collect()), |c| rvec(c, |c| Ok(C::FT(c.functype()?)));
    "vec-import": Vec<module::Import> => |x| C::L(x.iter().map(|f| C::Imp(bind::unimport(f))).collect()), |c| rvec(c, |c| Ok(C::Imp(c.import()?)));
    "vec-export": Vec<module::Export> => |x| C::L(x.iter().map(|f| C::Exp(bind::unexport(f))).collect()), |c| rvec(c, |c| Ok(C::Exp(c.export()?)));
    "vec-global": Vec<module::Global> => |x| C::L(x.iter().map(|f| C::Glob(bind::unglob(f))).collect()), |c| rvec(c, |c| Ok(C::Glob(c.global()?)));
    "vec-elem": Vec<module::Elem> => |x| C::L(x.iter().map(|f| C::Elem(bind::unelem(f))).collect()), |c| rvec(c, |c| Ok(C::Elem(c.elem()?)));
    "vec-data": Vec<module::Data> => |x| C::L(x.iter().map(|f| C::Data(bind::undata(f))).collect()), |c| rvec(c, |c| Ok(C::Data(c.data()?)));
    "vec-table": Vec<module::Table> => |x| C::L(x.iter().map(|f| C::Lim(bind::untable(&f.ty))).collect()), |c| rvec(c, |c| Ok(C::Lim(c.table()?)));
    "vec-mem": Vec<module::Mem> => |x| C::L(x.iter().map(|f| C::Lim(bind::unmem(&f.ty))).collect()), |c| rvec(c, |c| Ok(C::Lim(c.limits()?)));
    "code": UnwrappingVec<Sized<module::Func>> => |x| C::L(x.unwrap().iter().map(|f| C::Func(bind::unfunc(f))).collect()), |c| rvec(c, |c| c.sized(|c| Ok(C::Func(c.func()?))));
}

pub fn prim(name: &str) -> u8 {
    PRIMS.iter().position(|p| p.name == name).unwrap_or_else(|| panic!("HARNESS: no element {}", name)) as u8
}
