//! Reference validator: the WebAssembly 1.0 validation rules as an explicit state machine.

use crate::model::*;

pub type V<X> = Result<X, &'static str>;

/// What a function body can refer to.
#[derive(Clone, Debug, Default)]
pub struct FCtx {
    pub types: Vec<FT>,
    pub funcs: Vec<FT>,
    pub tables: usize,
    pub mems: usize,
    pub globals: Vec<GT>,
    pub locals: Vec<T>,
    pub ret: Option<T>,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Fr {
    /// 0 function, 2 block, 3 loop, 4 if (then-branch), 5 if (else-branch)
    pub kind: u8,
    pub res: Option<T>,
    /// operands of this frame only; None = unknown type
    pub ops: Vec<Option<T>>,
    pub dead: bool,
}
impl Fr {
    fn new(kind: u8, res: Option<T>) -> Fr { Fr { kind, res, ops: vec![], dead: false } }
    fn label(&self) -> Option<T> { if self.kind == 3 { None } else { self.res } }
}

/// State of a body under validation. No frames left = body complete.
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Body { pub frames: Vec<Fr> }

impl Body {
    pub fn new(ctx: &FCtx) -> Body { Body { frames: vec![Fr::new(0, ctx.ret)] } }
    fn top(&mut self) -> &mut Fr { self.frames.last_mut().unwrap() }
    fn push(&mut self, t: Option<T>) { self.top().ops.push(t) }
    fn pop(&mut self, want: Option<T>) -> V<Option<T>> {
        let f = self.top();
        match f.ops.pop() {
            None if f.dead => Ok(want),
            None => Err("underflow"),
            Some(None) => Ok(want),
            Some(have) if want.is_none() || want == have => Ok(have),
            Some(_) => Err("mismatch"),
        }
    }
    fn pops(&mut self, ts: &[T]) -> V<()> { for t in ts.iter().rev() { self.pop(Some(*t))?; } Ok(()) }
    fn opt(&mut self, t: Option<T>) -> V<()> { if t.is_some() { self.pop(t)?; } Ok(()) }
    fn die(&mut self) { let f = self.top(); f.ops.clear(); f.dead = true }
    fn close(&mut self) -> V<Fr> {
        let r = self.top().res;
        self.opt(r)?;
        if !self.top().ops.is_empty() { return Err("leftover") }
        Ok(self.frames.pop().unwrap())
    }
    fn label(&self, l: u32) -> V<Option<T>> {
        let n = self.frames.len();
        if l as usize >= n { return Err("label") }
        Ok(self.frames[n - 1 - l as usize].label())
    }

    pub fn step(&mut self, c: &FCtx, i: &Ins) -> V<()> {
        match i {
            Ins::Op(0x00) => self.die(),
            Ins::Op(0x01) => {}
            Ins::Blk(k, t) => {
                if *k == 4 { self.pop(Some(T::I32))?; }
                self.frames.push(Fr::new(*k, *t));
            }
            Ins::Op(ELSE) => {
                if self.top().kind != 4 { return Err("else") }
                let f = self.close()?;
                self.frames.push(Fr::new(5, f.res));
            }
            Ins::Op(END) => {
                let f = self.close()?;
                if f.kind == 4 && f.res.is_some() { return Err("no-else") }
                if self.frames.is_empty() { return Ok(()) }
                if f.res.is_some() { self.push(f.res) }
            }
            Ins::Idx(0x0C, l) => { let t = self.label(*l)?; self.opt(t)?; self.die() }
            Ins::Idx(0x0D, l) => {
                let t = self.label(*l)?;
                self.pop(Some(T::I32))?;
                self.opt(t)?;
                if t.is_some() { self.push(t) }
            }
            Ins::BrTable(ls, d) => {
                let t = self.label(*d)?;
                for l in ls { if self.label(*l)? != t { return Err("br_table") } }
                self.pop(Some(T::I32))?;
                self.opt(t)?;
                self.die();
            }
            Ins::Op(0x0F) => { self.opt(c.ret)?; self.die() }
            Ins::Idx(0x10, f) => { let t = c.funcs.get(*f as usize).ok_or("func")?; self.call(t)? }
            Ins::CallInd(t, x) => {
                if *x as usize >= c.tables { return Err("table") }
                let t = c.types.get(*t as usize).ok_or("type")?;
                self.pop(Some(T::I32))?;
                self.call(t)?;
            }
            Ins::Op(0x1A) => { self.pop(None)?; }
            Ins::Op(0x1B) => {
                self.pop(Some(T::I32))?;
                let a = self.pop(None)?;
                let b = self.pop(a)?;
                self.push(b);
            }
            Ins::Idx(op @ 0x20..=0x22, l) => {
                let t = *c.locals.get(*l as usize).ok_or("local")?;
                if *op != 0x20 { self.pop(Some(t))?; }
                if *op != 0x21 { self.push(Some(t)) }
            }
            Ins::Idx(0x23, g) => { let g = c.globals.get(*g as usize).ok_or("global")?; self.push(Some(g.t)) }
            Ins::Idx(0x24, g) => {
                let g = c.globals.get(*g as usize).ok_or("global")?;
                if !g.mutable { return Err("immutable") }
                self.pop(Some(g.t))?;
            }
            Ins::Mem(op, align, _) => {
                let (t, width, store) = mem_sig(*op);
                if c.mems == 0 { return Err("memory") }
                if *align > 3 || (1u32 << align) > width { return Err("alignment") }
                if store { self.pop(Some(t))?; self.pop(Some(T::I32))?; }
                else { self.pop(Some(T::I32))?; self.push(Some(t)) }
            }
            Ins::Idx(op @ (0x3F | 0x40), x) => {
                if *x as usize >= c.mems { return Err("memory") }
                if *op == 0x40 { self.pop(Some(T::I32))?; }
                self.push(Some(T::I32));
            }
            Ins::I32(_) => self.push(Some(T::I32)),
            Ins::I64(_) => self.push(Some(T::I64)),
            Ins::F32(_) => self.push(Some(T::F32)),
            Ins::F64(_) => self.push(Some(T::F64)),
            Ins::Op(op) => { let (p, r) = num_sig(*op); self.pops(p)?; self.push(Some(r)) }
            Ins::Idx(_, _) => unreachable!(),
        }
        Ok(())
    }
    fn call(&mut self, t: &FT) -> V<()> {
        self.pops(&t.p)?;
        for r in &t.r { self.push(Some(*r)) }
        Ok(())
    }
}

pub fn body(c: &FCtx, body: &[Ins]) -> V<()> {
    let mut s = Body::new(c);
    for i in body {
        if s.frames.is_empty() { return Err("end") }
        s.step(c, i)?;
    }
    if s.frames.is_empty() { return Err("end") }
    s.step(c, &Ins::Op(END))?;
    if s.frames.is_empty() { Ok(()) } else { Err("open") }
}

fn const_expr(globals: &[GT], e: &[Ins], want: T) -> V<()> {
    let mut ts = vec![];
    for i in e {
        ts.push(match i {
            Ins::I32(_) => T::I32, Ins::I64(_) => T::I64, Ins::F32(_) => T::F32, Ins::F64(_) => T::F64,
            Ins::Idx(0x23, g) => {
                let g = globals.get(*g as usize).ok_or("const:global")?;
                if g.mutable { return Err("const:mutable") }
                g.t
            }
            _ => return Err("const:instr"),
        })
    }
    if ts == [want] { Ok(()) } else { Err("const:type") }
}

fn limits(l: &Lim, bound: u64) -> V<()> {
    if l.min as u64 > bound { return Err("limit:min") }
    if let Some(m) = l.max {
        if m as u64 > bound { return Err("limit:max") }
        if l.min > m { return Err("limit:order") }
    }
    Ok(())
}

/// The module context (index spaces) of `m`, with the body-independent parts filled in.
pub fn context(m: &M) -> V<FCtx> {
    let mut c = FCtx { types: m.types.clone(), ..FCtx::default() };
    for i in &m.imports {
        match &i.desc {
            ImpD::Func(t) => c.funcs.push(m.types.get(*t as usize).ok_or("type")?.clone()),
            ImpD::Table(_) => c.tables += 1,
            ImpD::Mem(_) => c.mems += 1,
            ImpD::Global(g) => c.globals.push(*g),
        }
    }
    for f in &m.funcs { c.funcs.push(m.types.get(f.ty as usize).ok_or("type")?.clone()) }
    c.tables += m.tables.len();
    c.mems += m.mems.len();
    for g in &m.globals { c.globals.push(g.ty) }
    Ok(c)
}

pub fn fctx(c: &FCtx, m: &M, f: &Func) -> FCtx {
    let ty = &m.types[f.ty as usize];
    let mut fc = c.clone();
    fc.locals = ty.p.iter().chain(f.locals.iter()).copied().collect();
    fc.ret = ty.r.first().copied();
    fc
}

/// Validates a module; on success returns the external types of its imports and exports.
pub fn module(m: &M) -> V<(Vec<Ext>, Vec<Ext>)> {
    for t in &m.types { if t.r.len() > 1 { return Err("results") } }
    let mut c = context(m)?;
    const PAGES: u64 = 65536;
    for i in &m.imports {
        match &i.desc { ImpD::Table(l) => limits(l, u64::MAX)?, ImpD::Mem(l) => limits(l, PAGES)?, _ => {} }
    }
    for l in &m.tables { limits(l, u64::MAX)? }
    for l in &m.mems { limits(l, PAGES)? }
    if c.tables > 1 { return Err("tables") }
    if c.mems > 1 { return Err("mems") }
    for f in &m.funcs {
        let ty = &m.types[f.ty as usize];
        c.locals.clear();
        c.locals.extend(ty.p.iter().chain(f.locals.iter()).copied());
        c.ret = ty.r.first().copied();
        body(&c, &f.body)?;
    }
    let imported: Vec<GT> = m.imports.iter().filter_map(|i| if let ImpD::Global(g) = i.desc { Some(g) } else { None }).collect();
    for g in &m.globals { const_expr(&imported, &g.init, g.ty.t)? }
    for e in &m.elems {
        if e.table as usize >= c.tables { return Err("elem:table") }
        const_expr(&c.globals, &e.offset, T::I32)?;
        for f in &e.init { if *f as usize >= c.funcs.len() { return Err("elem:func") } }
    }
    for d in &m.datas {
        if d.mem as usize >= c.mems { return Err("data:mem") }
        const_expr(&c.globals, &d.offset, T::I32)?;
    }
    if let Some(s) = m.start {
        let t = c.funcs.get(s as usize).ok_or("start:func")?;
        if !t.p.is_empty() || !t.r.is_empty() { return Err("start:type") }
    }
    let tables: Vec<Lim> = m.imports.iter().filter_map(|i| if let ImpD::Table(l) = i.desc { Some(l) } else { None }).chain(m.tables.iter().copied()).collect();
    let mems: Vec<Lim> = m.imports.iter().filter_map(|i| if let ImpD::Mem(l) = i.desc { Some(l) } else { None }).chain(m.mems.iter().copied()).collect();
    let mut exports = vec![];
    for e in &m.exports {
        let i = e.idx as usize;
        exports.push(match e.kind {
            0 => Ext::Func(c.funcs.get(i).ok_or("export")?.clone()),
            1 => Ext::Table(*tables.get(i).ok_or("export")?),
            2 => Ext::Mem(*mems.get(i).ok_or("export")?),
            _ => Ext::Global(*c.globals.get(i).ok_or("export")?),
        });
    }
    let mut seen = std::collections::HashSet::new();
    for e in &m.exports { if !seen.insert(e.name.as_bytes()) { return Err("export:dup") } }
    let imports = m.imports.iter().map(|i| match &i.desc {
        ImpD::Func(t) => Ext::Func(m.types[*t as usize].clone()),
        ImpD::Table(l) => Ext::Table(*l),
        ImpD::Mem(l) => Ext::Mem(*l),
        ImpD::Global(g) => Ext::Global(*g),
    }).collect();
    Ok((imports, exports))
}
