//! Reference decoder, written from the WebAssembly 1.0 binary format chapter (with the documented
//! leniency of arbitrarily padded LEB128). Works on slices, never recurses, never preallocates.

use crate::model::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum E {
    Eof, URange, SRange, Utf8, Size, Magic, Version,
    SecOrder(u8), SecId(u8), Variant(u8), Else, FuncCode, Locals,
    /// the input ends early, but what was read is already wrong in another way (out of range,
    /// not UTF-8, wrong magic or version): either error describes it
    EofOrU, EofOrS, EofOrUtf8, EofOrMagic, EofOrVersion,
    /// an element runs past the size declared for it although the input continues, or the declared
    /// size itself runs past the input
    Overrun,
    /// not a verdict: the case is too large for the harness to expand
    TooBig,
    /// not a verdict: nothing is promised for this input
    Unspecified,
}
impl E {
    /// Whether there is no verdict to compare with.
    pub fn open(self) -> bool { matches!(self, E::TooBig | E::Unspecified) }
    pub fn tag(self) -> &'static str {
        match self {
            E::Eof => "reject:eof", E::URange => "reject:urange", E::SRange => "reject:srange", E::Utf8 => "reject:utf8",
            E::Size => "reject:size", E::Magic => "reject:magic", E::Version => "reject:version",
            E::SecOrder(_) => "reject:order", E::SecId(_) => "reject:secid", E::Variant(_) => "reject:variant",
            E::Else => "reject:else", E::FuncCode => "reject:funccode", E::Locals => "reject:locals",
            E::EofOrU | E::EofOrS | E::EofOrUtf8 | E::EofOrMagic | E::EofOrVersion => "reject:eof-or-other", E::Overrun => "reject:overrun",
            E::TooBig => "skipped:toobig", E::Unspecified => "skipped:unspecified",
        }
    }
}
pub type R<X> = Result<X, E>;

/// Largest number of run-length-encoded locals the harness is willing to expand.
pub const MAX_LOCALS: u64 = 1 << 20;

#[derive(Clone)]
pub struct Cur<'a> { pub b: &'a [u8], pub pos: usize, /** the slice ends before the input does */ pub inner: bool }

impl<'a> Cur<'a> {
    pub fn new(b: &'a [u8]) -> Cur<'a> { Cur { b, pos: 0, inner: false } }
    pub fn byte(&mut self) -> R<u8> {
        if self.pos < self.b.len() { self.pos += 1; Ok(self.b[self.pos - 1]) } else { Err(self.eof()) }
    }
    /// The 7-bit groups of one LEB128 integer.
    fn groups(&mut self) -> (&'a [u8], bool) {
        let start = self.pos;
        loop {
            match self.byte() {
                Ok(b) if b & 0x80 == 0 => return (&self.b[start..self.pos], true),
                Ok(_) => {}
                Err(_) => return (&self.b[start..self.pos], false),
            }
        }
    }
    pub fn uint(&mut self, bits: u32) -> R<u64> {
        let (g, done) = self.groups();
        let r = Self::uint_of(g, bits);
        if done { r } else if r.is_err() { Err(E::EofOrU) } else { Err(self.eof()) }
    }
    pub fn sint(&mut self, bits: u32) -> R<i64> {
        let (g, done) = self.groups();
        if done { return Self::sint_of(g, bits) }
        // unterminated: out of range whatever follows iff neither sign of continuation fits
        let fits = |fill: u8| { let mut v = g.to_vec(); v.push(fill); Self::sint_of(&v, bits).is_ok() };
        if fits(0x00) || fits(0x7F) { Err(self.eof()) } else { Err(E::EofOrS) }
    }
    /// The error for running out of bytes here.
    fn eof(&self) -> E { if self.inner { E::Overrun } else { E::Eof } }
    fn uint_of(g: &[u8], bits: u32) -> R<u64> {
        if g.is_empty() { return Ok(0) }
        let mut n = g.len();
        while n > 1 && g[n - 1] & 0x7F == 0 { n -= 1 }
        if n > 10 { return Err(E::URange) }
        let mut v: u128 = 0;
        for i in 0..n { v |= ((g[i] & 0x7F) as u128) << (7 * i) }
        if v >= 1u128 << bits { return Err(E::URange) }
        Ok(v as u64)
    }
    fn sint_of(g: &[u8], bits: u32) -> R<i64> {
        let mut n = g.len();
        // a final group that merely repeats the sign of the group below it carries no information
        while n > 1 && ((g[n - 1] & 0x7F == 0 && g[n - 2] & 0x40 == 0) || (g[n - 1] & 0x7F == 0x7F && g[n - 2] & 0x40 != 0)) { n -= 1 }
        if n > 10 { return Err(E::SRange) }
        let mut v: i128 = 0;
        for i in 0..n { v += ((g[i] & 0x7F) as i128) << (7 * i) }
        if g[n - 1] & 0x40 != 0 { v -= 1i128 << (7 * n) }
        let lim = 1i128 << (bits - 1);
        if v < -lim || v >= lim { return Err(E::SRange) }
        Ok(v as i64)
    }
    pub fn u32(&mut self) -> R<u32> { Ok(self.uint(32)? as u32) }
    pub fn le(&mut self, n: usize) -> R<u64> {
        let mut v = 0u64;
        for i in 0..n { v |= (self.byte()? as u64) << (8 * i) }
        Ok(v)
    }
    pub fn bytes(&mut self) -> R<&'a [u8]> {
        let n = self.u32()? as usize;
        if self.b.len() - self.pos < n {
            let ok = utf8_prefix(&self.b[self.pos..]);
            self.pos = self.b.len();
            return Err(if ok { self.eof() } else { E::EofOrUtf8 });
        }
        let s = &self.b[self.pos..self.pos + n];
        self.pos += n;
        Ok(s)
    }
    pub fn name(&mut self) -> R<String> {
        let s = self.bytes()?;
        if !utf8_ok(s) { return Err(E::Utf8) }
        Ok(unsafe { String::from_utf8_unchecked(s.to_vec()) })
    }
    pub fn vec<X>(&mut self, mut f: impl FnMut(&mut Self) -> R<X>) -> R<Vec<X>> {
        let n = self.u32()?;
        let mut v = vec![];
        for _ in 0..n { v.push(f(self)?) }
        Ok(v)
    }
    pub fn val(&mut self) -> R<T> { let b = self.byte()?; T::from_byte(b).ok_or(E::Variant(b)) }
    pub fn elemtype(&mut self) -> R<()> { match self.byte()? { 0x70 => Ok(()), b => Err(E::Variant(b)) } }
    pub fn limits(&mut self) -> R<Lim> {
        match self.byte()? {
            0 => Ok(Lim { min: self.u32()?, max: None }),
            1 => { let min = self.u32()?; Ok(Lim { min, max: Some(self.u32()?) }) }
            b => Err(E::Variant(b)),
        }
    }
    pub fn mutability(&mut self) -> R<bool> { match self.byte()? { 0 => Ok(false), 1 => Ok(true), b => Err(E::Variant(b)) } }
    pub fn globaltype(&mut self) -> R<GT> { let t = self.val()?; Ok(GT { t, mutable: self.mutability()? }) }
    pub fn functype(&mut self) -> R<FT> {
        match self.byte()? {
            0x60 => { let p = self.vec(|c| c.val())?; let r = self.vec(|c| c.val())?; Ok(FT { p, r }) }
            b => Err(E::Variant(b)),
        }
    }
    pub fn blocktype(&mut self) -> R<Option<T>> {
        match self.byte()? { 0x40 => Ok(None), b => T::from_byte(b).map(Some).ok_or(E::Variant(b)) }
    }
    pub fn ins(&mut self) -> R<Ins> {
        let op = self.byte()?;
        Ok(match imm_of(op).ok_or(E::Variant(op))? {
            Imm::None => Ins::Op(op),
            Imm::Block => Ins::Blk(op, self.blocktype()?),
            Imm::Idx => Ins::Idx(op, self.u32()?),
            Imm::BrTable => { let v = self.vec(|c| c.u32())?; Ins::BrTable(v, self.u32()?) }
            Imm::CallInd => { let t = self.u32()?; Ins::CallInd(t, self.u32()?) }
            Imm::Mem => { let a = self.u32()?; Ins::Mem(op, a, self.u32()?) }
            Imm::I32 => Ins::I32(self.sint(32)? as i32),
            Imm::I64 => Ins::I64(self.sint(64)?),
            Imm::F32 => Ins::F32(self.le(4)? as u32),
            Imm::F64 => Ins::F64(self.le(8)?),
        })
    }
    /// An expression, without its final `end`; an empty else-branch is normalised away.
    pub fn expr(&mut self) -> R<Vec<Ins>> {
        let mut out = vec![];
        let mut open: Vec<u8> = vec![];
        loop {
            let i = self.ins()?;
            match i {
                Ins::Blk(op, _) => { open.push(op); out.push(i) }
                Ins::Op(ELSE) => {
                    match open.last_mut() { Some(k) if *k == 0x04 => *k = ELSE, _ => return Err(E::Else) }
                    out.push(i);
                }
                Ins::Op(END) => {
                    match open.pop() {
                        None => return Ok(out),
                        Some(_) => {
                            if let Some(Ins::Op(ELSE)) = out.last() { out.pop(); }
                            out.push(i);
                        }
                    }
                }
                _ => out.push(i),
            }
        }
    }
    pub fn import(&mut self) -> R<Imp> {
        let module = self.name()?;
        let name = self.name()?;
        let desc = match self.byte()? {
            0 => ImpD::Func(self.u32()?),
            1 => { self.elemtype()?; ImpD::Table(self.limits()?) }
            2 => ImpD::Mem(self.limits()?),
            3 => ImpD::Global(self.globaltype()?),
            b => return Err(E::Variant(b)),
        };
        Ok(Imp { module, name, desc })
    }
    pub fn export(&mut self) -> R<Exp> {
        let name = self.name()?;
        let kind = self.byte()?;
        if kind > 3 { return Err(E::Variant(kind)) }
        Ok(Exp { name, kind, idx: self.u32()? })
    }
    pub fn locals(&mut self) -> R<Vec<T>> {
        let k = self.u32()?;
        let mut v: Vec<T> = vec![];
        let mut total = 0u64;
        for _ in 0..k {
            let n = self.u32()?;
            let t = self.val()?;
            total += n as u64;
            if total > u32::MAX as u64 { return Err(E::Locals) }
            if total > MAX_LOCALS { return Err(E::TooBig) }
            for _ in 0..n { v.push(t) }
        }
        Ok(v)
    }
    pub fn func(&mut self) -> R<Func> { let locals = self.locals()?; Ok(Func { ty: 0, locals, body: self.expr()? }) }
    pub fn table(&mut self) -> R<Lim> { self.elemtype()?; self.limits() }
    pub fn global(&mut self) -> R<Glob> { let ty = self.globaltype()?; Ok(Glob { ty, init: self.expr()? }) }
    pub fn elem(&mut self) -> R<Elem> {
        let table = self.u32()?; let offset = self.expr()?;
        Ok(Elem { table, offset, init: self.vec(|c| c.u32())? })
    }
    pub fn data(&mut self) -> R<Data> {
        let mem = self.u32()?; let offset = self.expr()?;
        Ok(Data { mem, offset, init: self.bytes()?.to_vec() })
    }
    /// Decodes `f` inside a size prefix.
    pub fn sized<X>(&mut self, f: impl FnOnce(&mut Cur<'a>) -> R<X>) -> R<X> {
        let n = self.u32()? as usize;
        let avail = self.b.len() - self.pos;
        let mut sub = Cur { b: &self.b[..self.pos + n.min(avail)], pos: self.pos, inner: self.inner || n < avail };
        let x = f(&mut sub)?;
        if sub.pos != self.pos + n { return Err(if n > avail { E::Overrun } else { E::Size }) }
        self.pos = sub.pos;
        Ok(x)
    }
    /// Takes what is left and tells how many bytes that was.
    pub fn rest(&mut self) -> R<u64> { let k = self.b.len() - self.pos; self.pos = self.b.len(); Ok(k as u64) }
}

pub fn module(b: &[u8]) -> R<M> { module_bounds(b, &mut vec![]) }

/// Decodes a module and records the section boundaries (preamble end first).
pub fn module_bounds(b: &[u8], bounds: &mut Vec<usize>) -> R<M> {
    let mut c = Cur::new(b);
    for (from, bad, eof) in [(0, E::Magic, E::EofOrMagic), (4, E::Version, E::EofOrVersion)] {
        let have = &b[from.min(b.len())..(from + 4).min(b.len())];
        let same = have == &PREAMBLE[from..from + have.len()];
        if have.len() < 4 { return Err(if same { E::Eof } else { eof }) }
        if !same { return Err(bad) }
    }
    c.pos = 8;
    bounds.push(8);
    let mut m = M::default();
    let mut last = 0;
    let mut decl: Vec<u32> = vec![];
    while c.pos < b.len() {
        let id = c.byte()?;
        if id > 11 { return Err(E::SecId(id)) }
        if id != 0 {
            if id <= last { return Err(E::SecOrder(id)) }
            last = id;
        }
        match id {
            0 => c.sized(|c| { c.name()?; c.rest().map(|_| ()) })?,
            1 => m.types = c.sized(|c| c.vec(|c| c.functype()))?,
            2 => m.imports = c.sized(|c| c.vec(|c| c.import()))?,
            3 => decl = c.sized(|c| c.vec(|c| c.u32()))?,
            4 => m.tables = c.sized(|c| c.vec(|c| c.table()))?,
            5 => m.mems = c.sized(|c| c.vec(|c| c.limits()))?,
            6 => m.globals = c.sized(|c| c.vec(|c| c.global()))?,
            7 => m.exports = c.sized(|c| c.vec(|c| c.export()))?,
            8 => m.start = Some(c.sized(|c| c.u32())?),
            9 => m.elems = c.sized(|c| c.vec(|c| c.elem()))?,
            10 => m.funcs = c.sized(|c| c.vec(|c| c.sized(|c| c.func())))?,
            11 => m.datas = c.sized(|c| c.vec(|c| c.data()))?,
            _ => unreachable!(),
        }
        bounds.push(c.pos);
    }
    if decl.len() != m.funcs.len() { return Err(E::FuncCode) }
    for (f, t) in m.funcs.iter_mut().zip(decl) { f.ty = t }
    Ok(m)
}

/// Whether some continuation could make `s` well-formed UTF-8 (as far as the tail is cut).
fn utf8_prefix(s: &[u8]) -> bool {
    (0..=s.len().min(3)).any(|k| utf8_ok(&s[..s.len() - k]) && s[s.len() - k..].iter().enumerate().all(|(i, b)| if i == 0 { *b >= 0xC2 } else { *b & 0xC0 == 0x80 }))
}

/// Well-formed UTF-8 (Unicode table 3-7), independent of the standard library.
pub fn utf8_ok(s: &[u8]) -> bool {
    let mut i = 0;
    while i < s.len() {
        let (n, lo, hi) = match s[i] {
            0x00..=0x7F => (0, 0, 0),
            0xC2..=0xDF => (1, 0x80, 0xBF),
            0xE0 => (2, 0xA0, 0xBF),
            0xE1..=0xEC | 0xEE | 0xEF => (2, 0x80, 0xBF),
            0xED => (2, 0x80, 0x9F),
            0xF0 => (3, 0x90, 0xBF),
            0xF1..=0xF3 => (3, 0x80, 0xBF),
            0xF4 => (3, 0x80, 0x8F),
            _ => return false,
        };
        if i + n >= s.len() + if n == 0 { 1 } else { 0 } { return false }
        for k in 1..=n {
            let (l, h) = if k == 1 { (lo, hi) } else { (0x80, 0xBF) };
            if s[i + k] < l || s[i + k] > h { return false }
        }
        i += n + 1;
    }
    true
}
