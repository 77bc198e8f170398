//! Containers of elements that the user of the library defines: how often, in which order and on
//! which bytes their decoders are called, what becomes of the values and of the errors.
//! Payload: [shape][failing call u32][error][n][n bytes taken by successive calls, cyclically][input]

use crate::cases::Kind;
use crate::engine::{space, Space};
use crate::refdec::{Cur, R};
use crate::sp_val::sizes;
use std::cell::RefCell;
use whasm::binary::{Byte, CompactVec, Error, Sized, UnwrappingVec, WasmBinary, WasmBinaryParse, WasmBinaryParseProxy};

#[derive(PartialEq, Debug, Clone)]
enum V { El(usize), List(Vec<V>) }

#[derive(Default)]
struct World { takes: Vec<u8>, fail: usize, err: u8, log: Vec<Vec<u8>>, live: Vec<bool>, made: usize, gone: usize, bad: Option<String> }
thread_local! { static W: RefCell<World> = RefCell::new(World::default()) }

const ERRORS: usize = 13;
fn error(i: u8) -> Error {
    match i {
        0 => Error::UnexpectedEndOfFile,
        1 => Error::SizeMissmatch,
        2 => Error::InvalidUtf8Encoding,
        3 => Error::UnexpectedSectionId { id: Byte(7) },
        4 => Error::InvalidVariantId { id: 0x55, ty: "thing" },
        5 => Error::OutOfRangeSignedInteger,
        6 => Error::OutOfRangeUnsignedInteger,
        7 => Error::UnexpectedOpcode { instr: "thing" },
        8 => Error::InvalidPreambleMagic,
        9 => Error::InvalidPreambleVersion,
        10 => Error::InvalidSectionId { id: Byte(0x99) },
        11 => Error::SectionSizeMissmatch { id: Byte(3) },
        _ => Error::FunctionSizeMissmatch,
    }
}

/// One call of the user's decoder; the result is the number of the call.
fn call<B: WasmBinary>(bin: &mut B) -> Result<usize, Error> {
    let (k, take) = W.with(|w| { let mut w = w.borrow_mut(); let k = w.log.len(); w.log.push(vec![]); w.live.push(false); (k, w.takes[k % w.takes.len()]) });
    for _ in 0..take {
        let b = bin.next().ok_or(Error::UnexpectedEndOfFile)?;
        W.with(|w| w.borrow_mut().log[k].push(b));
    }
    W.with(|w| { let w = w.borrow(); if k == w.fail { Err(error(w.err)) } else { Ok(k) } })
}

/// An element that notices how often it is dropped.
struct El(usize);
impl WasmBinaryParse for El {
    fn parse<B: WasmBinary>(bin: &mut B) -> Result<El, Error> {
        let k = call(bin)?;
        W.with(|w| w.borrow_mut().live[k] = true);
        Ok(El(k))
    }
}
impl Drop for El {
    fn drop(&mut self) {
        W.with(|w| {
            let mut w = w.borrow_mut();
            match w.live.get_mut(self.0) {
                Some(l) if *l => *l = false,
                _ => w.bad = Some(format!("element {} dropped twice or never made", self.0)),
            }
        })
    }
}
struct Proxy(El);
impl WasmBinaryParse for Proxy { fn parse<B: WasmBinary>(bin: &mut B) -> Result<Proxy, Error> { El::parse(bin).map(Proxy) } }
impl WasmBinaryParseProxy for Proxy { type Inner = El; fn unwrap(self) -> El { self.0 } }
#[derive(Clone, Copy)]
struct Cp(usize);
impl WasmBinaryParse for Cp { fn parse<B: WasmBinary>(bin: &mut B) -> Result<Cp, Error> { call(bin).map(Cp) } }

/// An element without data.
struct Zst;
impl WasmBinaryParse for Zst { fn parse<B: WasmBinary>(bin: &mut B) -> Result<Zst, Error> { call(bin)?; W.with(|w| w.borrow_mut().made += 1); Ok(Zst) } }
impl Drop for Zst { fn drop(&mut self) { W.with(|w| w.borrow_mut().gone += 1) } }
struct ProxyZ(Zst);
impl WasmBinaryParse for ProxyZ { fn parse<B: WasmBinary>(bin: &mut B) -> Result<ProxyZ, Error> { Zst::parse(bin).map(ProxyZ) } }
impl WasmBinaryParseProxy for ProxyZ { type Inner = Zst; fn unwrap(self) -> Zst { self.0 } }
#[derive(Clone, Copy)]
struct ZstCp;
impl WasmBinaryParse for ZstCp { fn parse<B: WasmBinary>(bin: &mut B) -> Result<ZstCp, Error> { call(bin).map(|_| ZstCp) } }
/// Elements of one byte, of many, and with a wide alignment.
#[derive(Clone, Copy)]
struct Tiny(u8);
impl WasmBinaryParse for Tiny { fn parse<B: WasmBinary>(bin: &mut B) -> Result<Tiny, Error> { call(bin).map(|k| Tiny(k as u8)) } }
#[derive(Clone, Copy)]
struct Big([usize; 41]);
impl WasmBinaryParse for Big { fn parse<B: WasmBinary>(bin: &mut B) -> Result<Big, Error> { call(bin).map(|k| Big([k; 41])) } }
#[repr(align(64))]
struct Wide(El);
impl WasmBinaryParse for Wide { fn parse<B: WasmBinary>(bin: &mut B) -> Result<Wide, Error> { El::parse(bin).map(Wide) } }

trait Val { fn v(&self) -> V; }
impl Val for Zst { fn v(&self) -> V { V::El(0) } }
impl Val for ZstCp { fn v(&self) -> V { V::El(0) } }
impl Val for Tiny { fn v(&self) -> V { V::El(self.0 as usize) } }
impl Val for Big { fn v(&self) -> V { V::El(if self.0.iter().all(|x| *x == self.0[0]) { self.0[0] } else { usize::MAX }) } }
impl Val for Wide { fn v(&self) -> V { V::El(if self as *const _ as usize % 64 == 0 { self.0 .0 } else { usize::MAX }) } }
impl Val for El { fn v(&self) -> V { V::El(self.0) } }
impl Val for Cp { fn v(&self) -> V { V::El(self.0) } }
impl<T: Val> Val for Vec<T> { fn v(&self) -> V { V::List(self.iter().map(|x| x.v()).collect()) } }
impl<T: Val, const N: usize> Val for [T; N] { fn v(&self) -> V { V::List(self.iter().map(|x| x.v()).collect()) } }

/// What the reference expects of a failing input.
#[derive(Clone, Copy, PartialEq, Debug)]
enum F { Exactly(u8), EofOrSize, Any, /** not a verdict: more calls than the harness is willing to make */ TooBig }
/// Calls of decoders, and elements of a compact vector.
const MOST: usize = 200_000;

enum S { El, Vec(Box<S>), Compact, Arr(usize, Box<S>), Sized(Box<S>) }
/// `see` is what can be told of the number of the call from the element.
struct Shape { name: &'static str, s: fn() -> S, imp: fn(&[u8]) -> Result<V, Error>, see: fn(usize) -> usize }
macro_rules! shape {
    ($n:literal, $t:ty, $s:expr) => { shape!($n, $t, $s, |k| k) };
    (unwrap $n:literal, $t:ty, $s:expr) => { shape!(unwrap $n, $t, $s, |k| k) };
    ($n:literal, $t:ty, $s:expr, $see:expr) => { Shape { name: $n, s: || $s, imp: |b| b.iter().copied().parse::<$t>().map(|x| x.v()), see: $see } };
    (unwrap $n:literal, $t:ty, $s:expr, $see:expr) => { Shape { name: $n, s: || $s, imp: |b| b.iter().copied().parse::<$t>().map(|x| x.unwrap().v()), see: $see } };
}
fn bx(s: S) -> Box<S> { Box::new(s) }
static SHAPES: &[Shape] = &[
    shape!("T", El, S::El),
    shape!("Vec<T>", Vec<El>, S::Vec(bx(S::El))),
    shape!(unwrap "UnwrappingVec<T>", UnwrappingVec<Proxy>, S::Vec(bx(S::El))),
    shape!(unwrap "CompactVec<T>", CompactVec<Cp>, S::Compact),
    shape!("[T; 0]", [El; 0], S::Arr(0, bx(S::El))),
    shape!("[T; 1]", [El; 1], S::Arr(1, bx(S::El))),
    shape!("[T; 2]", [El; 2], S::Arr(2, bx(S::El))),
    shape!("[T; 3]", [El; 3], S::Arr(3, bx(S::El))),
    shape!("[T; 4]", [El; 4], S::Arr(4, bx(S::El))),
    shape!("[T; 5]", [El; 5], S::Arr(5, bx(S::El))),
    shape!("[T; 6]", [El; 6], S::Arr(6, bx(S::El))),
    shape!("[T; 7]", [El; 7], S::Arr(7, bx(S::El))),
    shape!("[T; 8]", [El; 8], S::Arr(8, bx(S::El))),
    shape!(unwrap "Sized<T>", Sized<El>, S::Sized(bx(S::El))),
    shape!(unwrap "Sized<Vec<T>>", Sized<Vec<El>>, S::Sized(bx(S::Vec(bx(S::El))))),
    shape!(unwrap "UnwrappingVec<Sized<T>>", UnwrappingVec<Sized<El>>, S::Vec(bx(S::Sized(bx(S::El))))),
    shape!("Vec<Vec<T>>", Vec<Vec<El>>, S::Vec(bx(S::Vec(bx(S::El))))),
    shape!("[Vec<T>; 2]", [Vec<El>; 2], S::Arr(2, bx(S::Vec(bx(S::El))))),
    shape!(unwrap "Sized<[T; 2]>", Sized<[El; 2]>, S::Sized(bx(S::Arr(2, bx(S::El))))),
    shape!("Vec<[T; 2]>", Vec<[El; 2]>, S::Vec(bx(S::Arr(2, bx(S::El))))),
    shape!(unwrap "UnwrappingVec<CompactVec<T>>", UnwrappingVec<CompactVec<Cp>>, S::Vec(bx(S::Compact))),
    shape!(unwrap "Sized<[[T; 1]; 3]>", Sized<[[El; 1]; 3]>, S::Sized(bx(S::Arr(3, bx(S::Arr(1, bx(S::El))))))),
    shape!("Vec<()>", Vec<Zst>, S::Vec(bx(S::El)), |_| 0),
    shape!("[(); 3]", [Zst; 3], S::Arr(3, bx(S::El)), |_| 0),
    shape!(unwrap "UnwrappingVec<()>", UnwrappingVec<ProxyZ>, S::Vec(bx(S::El)), |_| 0),
    shape!(unwrap "CompactVec<()>", CompactVec<ZstCp>, S::Compact, |_| 0),
    shape!(unwrap "Sized<Vec<()>>", Sized<Vec<Zst>>, S::Sized(bx(S::Vec(bx(S::El)))), |_| 0),
    shape!(unwrap "Sized<[(); 2]>", Sized<[Zst; 2]>, S::Sized(bx(S::Arr(2, bx(S::El)))), |_| 0),
    shape!("Vec<tiny>", Vec<Tiny>, S::Vec(bx(S::El)), |k| k % 256),
    shape!("[tiny; 7]", [Tiny; 7], S::Arr(7, bx(S::El)), |k| k % 256),
    shape!(unwrap "CompactVec<tiny>", CompactVec<Tiny>, S::Compact, |k| k % 256),
    shape!("Vec<big>", Vec<Big>, S::Vec(bx(S::El))),
    shape!("[big; 5]", [Big; 5], S::Arr(5, bx(S::El))),
    shape!(unwrap "CompactVec<big>", CompactVec<Big>, S::Compact),
    shape!("Vec<wide>", Vec<Wide>, S::Vec(bx(S::El))),
    shape!("[wide; 3]", [Wide; 3], S::Arr(3, bx(S::El))),
    shape!("Vec<T: Copy>", Vec<Cp>, S::Vec(bx(S::El))),
    shape!("[T: Copy; 8]", [Cp; 8], S::Arr(8, bx(S::El))),
];
fn seen(v: &V, see: fn(usize) -> usize) -> V { match v { V::El(k) => V::El(see(*k)), V::List(l) => V::List(l.iter().map(|x| seen(x, see)).collect()) } }

struct Rf<'a> { takes: &'a [u8], fail: usize, err: u8, log: Vec<Vec<u8>> }
impl Rf<'_> {
    fn eof(c: &Cur) -> F { if c.inner { F::EofOrSize } else { F::Exactly(0) } }
    fn count(c: &mut Cur) -> Result<u32, F> {
        let r: R<u64> = c.uint(32);
        match r { Ok(n) => Ok(n as u32), Err(crate::refdec::E::Eof) => Err(F::Exactly(0)), Err(crate::refdec::E::URange) => Err(F::Exactly(6)), Err(_) => Err(F::Any) }
    }
    fn call(&mut self, c: &mut Cur) -> Result<V, F> {
        let k = self.log.len();
        if k >= MOST { return Err(F::TooBig) }
        self.log.push(vec![]);
        for _ in 0..self.takes[k % self.takes.len()] {
            match c.byte() { Ok(b) => self.log[k].push(b), Err(_) => return Err(Self::eof(c)) }
        }
        if k == self.fail { Err(if self.err == 0 { Self::eof(c) } else { F::Exactly(self.err) }) } else { Ok(V::El(k)) }
    }
    fn go(&mut self, s: &S, c: &mut Cur) -> Result<V, F> {
        Ok(match s {
            S::El => return self.call(c),
            S::Vec(s) => { let n = Self::count(c)?; let mut v = vec![]; for _ in 0..n { if v.len() >= MOST { return Err(F::TooBig) } v.push(self.go(s, c)?) } V::List(v) }
            S::Arr(n, s) => { let mut v = vec![]; for _ in 0..*n { v.push(self.go(s, c)?) } V::List(v) }
            S::Compact => {
                let k = Self::count(c)?;
                let mut v = vec![];
                for _ in 0..k { let n = Self::count(c)?; let x = self.call(c)?; if v.len() + n as usize > MOST { return Err(F::TooBig) } for _ in 0..n { v.push(x.clone()) } }
                V::List(v)
            }
            S::Sized(s) => {
                let n = Self::count(c)? as usize;
                if n > c.b.len() - c.pos { return Err(F::Any) }
                let mut d = Cur { b: &c.b[..c.pos + n], pos: c.pos, inner: true };
                let v = self.go(s, &mut d)?;
                if d.pos != d.b.len() { return Err(F::Exactly(1)) }
                c.pos = d.pos;
                v
            }
        })
    }
}

fn split(p: &[u8]) -> (&'static Shape, usize, u8, &[u8], &[u8]) {
    let n = p[6] as usize;
    let fail = u32::from_le_bytes(p[1..5].try_into().unwrap());
    (&SHAPES[p[0] as usize], if fail == u32::MAX { usize::MAX } else { fail as usize }, p[5], &p[7..7 + n], &p[7 + n..])
}
fn pack(shape: usize, fail: u32, err: u8, takes: &[u8], input: &[u8]) -> Vec<u8> {
    let mut p = vec![shape as u8];
    p.extend(fail.to_le_bytes());
    p.push(err);
    p.push(takes.len() as u8);
    p.extend(takes);
    p.extend(input);
    p
}

pub fn run(p: &[u8]) -> Result<&'static str, String> {
    let (shape, fail, err, takes, input) = split(p);
    let mut rf = Rf { takes, fail, err, log: vec![] };
    let want = rf.go(&(shape.s)(), &mut Cur::new(input)).map(|v| seen(&v, shape.see));
    if want == Err(F::TooBig) { return Ok("skipped:toobig") }
    W.with(|w| *w.borrow_mut() = World { takes: takes.to_vec(), fail, err, ..World::default() });
    let got = (shape.imp)(input);
    let w = W.with(|w| std::mem::take(&mut *w.borrow_mut()));
    if let Some(b) = w.bad { return Err(format!("{}: {}", shape.name, b)) }
    if let Some(k) = w.live.iter().position(|l| *l) { return Err(format!("{}: element {} is never dropped", shape.name, k)) }
    if w.made != w.gone { return Err(format!("{}: {} elements made and {} dropped", shape.name, w.made, w.gone)) }
    if want != Err(F::Any) && w.log != rf.log {
        let k = (0..).find(|k| w.log.get(*k) != rf.log.get(*k)).unwrap();
        return Err(format!("{}: decoder call {} reads {:?} instead of {:?} (None: no such call)", shape.name, k, w.log.get(k), rf.log.get(k)));
    }
    match (got, want) {
        (Ok(g), Ok(w)) if g == w => Ok("ok"),
        (Err(_), Err(F::Any)) => Ok("rejected:truncated"),
        (Err(g), Err(F::Exactly(e))) if g == error(e) => Ok(match e { 0 => "rejected:eof", 1 => "rejected:size", _ => "rejected:other" }),
        (Err(Error::UnexpectedEndOfFile), Err(F::EofOrSize)) | (Err(Error::SizeMissmatch), Err(F::EofOrSize)) => Ok("rejected:overrun"),
        (g, w) => { let mut t = format!("{} gives {:?} instead of {:?}", shape.name, g, w); t.truncate(600); Err(t) }
    }
}
pub fn describe(p: &[u8]) -> String {
    let (shape, fail, err, takes, input) = split(p);
    format!("{} whose element decoder takes {:?} bytes{} on {}", shape.name, takes, if fail == usize::MAX { String::new() } else { format!(" and fails with {:?} at call {}", error(err), fail) }, crate::cases::hex(input, 60))
}

/// All short inputs, for all short behaviours of the decoder.
pub fn short(len: usize, calls: u32) -> Space {
    let takes: Vec<Vec<u8>> = vec![vec![1], vec![0], vec![2], vec![0, 1], vec![1, 0], vec![1, 2], vec![2, 1], vec![2, 0, 1], vec![3, 1]];
    space("user-elements", format!("{} container shapes x {} patterns of bytes taken by a user-defined decoder x failing at no call or at one of the first {} with 4 errors x every input of up to {} bytes over 5 values", SHAPES.len(), takes.len(), calls, len), 3, move |c| {
        let shape = c.pick(SHAPES.len())?;
        let t = c.of(&takes)?;
        let f = c.pick(1 + calls as usize * 4)?;
        let (fail, err) = if f == 0 { (u32::MAX, 0) } else { ((f as u32 - 1) / 4, (f - 1) as u8 % 4) };
        let mut input = vec![];
        for _ in 0..len {
            let b = c.pick(6)?;
            if b == 0 { break }
            input.push([0, 1, 2, 3, 0x80][b - 1]);
        }
        c.run(Kind::Elems, &pack(shape, fail, err, t, &input))
    })
}
/// Long containers, every error, at the first, a middle and the last call.
pub fn long(upto: usize, max: usize) -> Space {
    let ns = sizes(upto, max);
    space("user-elements-long", format!("Vec, UnwrappingVec, CompactVec and their nested forms of {} sizes up to {}, complete, one byte short and one long, with no failure or each of {} errors at the first, middle and last call", ns.len(), max, ERRORS), 2, move |c| {
        let (shape, form) = *c.of(&[(1usize, 0u8), (2, 0), (3, 1), (14, 2), (15, 3), (16, 4), (19, 5), (22, 0), (24, 0), (25, 1), (26, 2), (28, 0), (30, 1), (31, 0), (33, 1), (34, 0), (36, 0)])?;
        let n = *c.of(&ns)?;
        let f = c.pick(1 + 3 * ERRORS)?;
        let calls = if form == 5 { 2 * n } else { n };
        let (fail, err) = if f == 0 { (u32::MAX, 0) } else {
            if calls == 0 { return Ok(()) }
            ([0, calls / 2, calls - 1][(f - 1) / ERRORS] as u32, ((f - 1) % ERRORS) as u8)
        };
        let cut = c.pick(3)?;
        let leb = |n: usize| { let mut v = vec![]; crate::model::leb_u(&mut v, n as u64, 0); v };
        let el = |i: usize| (i % 251) as u8;
        let mut b = match form {
            0 => [leb(n), (0..n).map(el).collect()].concat(),
            1 => [leb(n), (0..n).flat_map(|i| [(i % 3) as u8, el(i)]).collect()].concat(),
            2 => { let body = [leb(n), (0..n).map(el).collect()].concat(); [leb(body.len()), body].concat() }
            3 => [leb(n), (0..n).flat_map(|i| [1, el(i)]).collect()].concat(),
            4 => [leb(n), (0..n).flat_map(|i| [1, el(i)]).collect()].concat(),
            _ => [leb(n), (0..2 * n).map(el).collect()].concat(),
        };
        match cut { 0 => {} 1 => { b.pop(); } _ => b.push(0) }
        c.run(Kind::Elems, &pack(shape, fail, err, &[1], &b))
    })
}
/// Arrays: every prefix of their input, every number of bytes per element, failing anywhere.
pub fn arrays() -> Space {
    let shapes: Vec<(usize, usize)> = SHAPES.iter().enumerate().filter_map(|(i, s)| match (s.s)() { S::Arr(n, e) => match *e { S::El => Some((i, n)), _ => None }, _ => None }).collect();
    space("user-arrays", format!("arrays of {:?} elements, each taking 0..3 bytes, from every length of input up to one byte too many, failing with {} errors at no call or any", shapes.iter().map(|s| s.1).collect::<Vec<_>>(), ERRORS), 2, move |c| {
        let (shape, n) = *c.of(&shapes)?;
        let take = c.pick(4)? as u8;
        let len = c.range(0, n * take as usize + 1)?;
        let f = c.pick(n + 1)?;
        let err = if f == 0 { 0 } else { c.pick(ERRORS)? as u8 };
        let input: Vec<u8> = (0..len).map(|i| i as u8).collect();
        c.run(Kind::Elems, &pack(shape, if f == 0 { u32::MAX } else { f as u32 - 1 }, err, &[take], &input))
    })
}
/// Well-formed containers of elements of any length: sizes off, cut anywhere, failing anywhere.
pub fn structured(upto: usize) -> Space {
    fn build(s: &S, upto: usize, c: &mut crate::engine::Ch, takes: &[u8], calls: &mut usize, out: &mut Vec<u8>) -> crate::engine::X<()> {
        match s {
            S::El => { for _ in 0..takes[*calls % takes.len()] { out.push(0x20 + out.len() as u8 % 64) } *calls += 1 }
            S::Vec(s) => { let n = c.range(0, upto)?; out.push(n as u8); for _ in 0..n { build(s, upto.min(2), c, takes, calls, out)? } }
            S::Arr(n, s) => for _ in 0..*n { build(s, upto, c, takes, calls, out)? },
            S::Compact => { let k = c.range(0, upto)?; out.push(k as u8); for _ in 0..k { out.push(c.pick(3)? as u8); build(&S::El, upto, c, takes, calls, out)? } }
            S::Sized(s) => {
                let mut body = vec![];
                build(s, upto, c, takes, calls, &mut body)?;
                let d = *c.of(&[0i64, -1, 1, -5, 5])?;
                out.push((body.len() as i64 + d).max(0) as u8);
                out.extend(body);
            }
        }
        Ok(())
    }
    let ts = [0u8, 1, 2, 5, 9];
    space("user-elements-structured", format!("{} container shapes with every list of up to {} elements or runs (of 0, 1 or 2) taking 0, 1, 2, 5 or 9 bytes in every pattern of three, size prefixes right or off by 1 or 5, followed by more, cut at every byte, or failing at any call", SHAPES.len(), upto), 3, move |c| {
        let shape = c.pick(SHAPES.len())?;
        let takes = [*c.of(&ts)?, *c.of(&ts)?, *c.of(&ts)?];
        let (mut calls, mut b) = (0, vec![]);
        build(&(SHAPES[shape].s)(), upto, c, &takes, &mut calls, &mut b)?;
        match c.pick(3)? {
            0 => { b.extend([1, 2, 3, 4, 5, 6]); c.run(Kind::Elems, &pack(shape, u32::MAX, 0, &takes, &b)) }
            1 => { let k = c.pick(b.len() + 1)?; c.run(Kind::Elems, &pack(shape, u32::MAX, 0, &takes, &b[..k])) }
            _ => { if calls == 0 { return Ok(()) } let k = c.pick(calls)?; b.extend([1, 2, 3, 4, 5, 6]); c.run(Kind::Elems, &pack(shape, k as u32, 5, &takes, &b)) }
        }
    })
}
