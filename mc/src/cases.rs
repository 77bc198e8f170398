//! What is done with one explored input. Every case is (kind, bytes), so it can be replayed alone.

use crate::bind;
use crate::model::*;
use crate::prims::{Src, PRIMS};
use crate::refdec::{self, Cur, E};
use crate::refval;
use whasm::binary::{Byte, Error, WasmBinary};
use whasm::structure::module::Module;
use whasm::validation::ValidationEntry;

macro_rules! kinds { ($($k:ident $name:literal,)*) => {
    #[derive(Clone, Copy, PartialEq, Eq, Debug)]
    #[repr(u32)]
    pub enum Kind { $($k,)* }
    pub const KINDS: &[(Kind, &str)] = &[$((Kind::$k, $name),)*];
} }
kinds! {
    Decode "decode", E2e "e2e", Verdict "verdict", Externs "externs", Robust "robust", Prim "prim", Stream "stream",
    History "history", ErrKind "errkind", Mem "mem", Indep "indep", Cli "cli", Nest "nest", Deep "deep", Repeat "repeat",
    Seq "seq", Cycle "cycle", Nested "nested", Sched "sched", Ast "ast", Elems "elems", Pair "pair",
}
pub fn kind_name(k: Kind) -> &'static str { KINDS[k as usize].1 }
pub fn kind_of(name: &str) -> Option<Kind> { KINDS.iter().find(|k| k.1 == name).map(|k| k.0) }
pub fn kind_nr(n: u32) -> Kind { KINDS[n as usize].0 }

type Out = Result<&'static str, String>;

pub fn run(kind: Kind, p: &[u8]) -> Out {
    match kind {
        Kind::Decode => decode(p),
        Kind::E2e => e2e(p),
        Kind::Verdict => verdict(p, false),
        Kind::Externs => verdict(p, true),
        Kind::Robust => robust(p, 16),
        Kind::Prim => prim(p),
        Kind::Stream => stream(p),
        Kind::History => history(p),
        Kind::ErrKind => errkind(p),
        Kind::Mem => mem(p),
        Kind::Indep => indep(p),
        Kind::Cli => crate::cli::run(p),
        Kind::Nest => nest(p),
        Kind::Deep => deep(p),
        Kind::Repeat => repeat(p),
        Kind::Seq => seq(p),
        Kind::Cycle => cycle(p),
        Kind::Nested => nested(p),
        Kind::Sched => sched(p),
        Kind::Ast => crate::trees::run(p),
        Kind::Elems => crate::elems::run(p),
        Kind::Pair => pair(p),
    }
}

/// What the reference model says of a module payload, for comparing it with other engines.
pub fn expected(kind: Kind, p: &[u8]) -> &'static str {
    if !matches!(kind, Kind::Decode | Kind::E2e | Kind::Verdict | Kind::Externs | Kind::Robust | Kind::Indep) { return "-" }
    match refdec::module(p) { Err(e) => e.tag(), Ok(m) => match refval::module(&m) { Err(e) => e, Ok(_) => "accept" } }
}

pub fn describe(kind: Kind, p: &[u8]) -> String {
    let (pre, body) = match kind {
        Kind::Prim | Kind::ErrKind | Kind::Mem => (format!("{} ", PRIMS[p[0] as usize].name), &p[1..]),
        Kind::Cli => (crate::cli::describe(p), &p[..0]),
        Kind::Ast => (crate::trees::describe(p), &p[..0]),
        Kind::Elems => (crate::elems::describe(p), &p[..0]),
        Kind::Nested => (format!("operation {} on whose bytes, before the given position, the next runs: ", p[0]), &p[1..]),
        Kind::Sched => (format!("operations {} and {}, turn passing after these numbers of bytes: ", p[0], p[1]), &p[2..]),
        _ => (String::new(), p),
    };
    format!("{} {}{}", kind_name(kind), pre, hex(body, 96))
}
pub fn hex(b: &[u8], max: usize) -> String {
    let mut s: String = b.iter().take(max).map(|x| format!("{:02x}", x)).collect();
    if b.len() > max { s += &format!("..({} bytes)", b.len()) }
    s
}
fn clip(s: String) -> String { if s.len() > 600 { let mut k = 600; while !s.is_char_boundary(k) { k -= 1 } format!("{}..", &s[..k]) } else { s } }

pub fn parse(p: &[u8]) -> Result<Module, Error> { p.iter().copied().parse::<Module>() }

fn decode(p: &[u8]) -> Out {
    let want = refdec::module(p);
    if let Err(e) = want { if e.open() { return Ok(e.tag()) } }
    match (parse(p), want) {
        (Ok(a), Ok(m)) => {
            let got = bind::neutral(&a);
            if got == m { Ok("accept") } else { Err(clip(format!("decoded {:?} instead of {:?}", got, m))) }
        }
        (Err(_), Err(e)) => Ok(e.tag()),
        (Ok(a), Err(e)) => Err(clip(format!("accepted malformed module ({}): {:?}", e.tag(), a))),
        (Err(e), Ok(_)) => Err(format!("rejected well-formed module: {:?}", e)),
    }
}

fn e2e(p: &[u8]) -> Out {
    let m = refdec::module(p);
    if let Err(e) = m { if e.open() { return Ok(e.tag()) } }
    let want = match &m { Err(e) => Err(e.tag()), Ok(m) => refval::module(m).map(|_| ()) };
    let got = match parse(p) {
        Err(e) => Err(format!("decoding: {:?}", e)),
        Ok(a) => a.validate().map(|_| ()).map_err(|e| format!("validation: {:?}", e)),
    };
    match (got, want) {
        (Ok(()), Ok(())) => Ok("accept"),
        (Err(_), Err(e)) => Ok(e),
        (Ok(()), Err(e)) => Err(format!("accepted although the module is not valid: {}", e)),
        (Err(e), Ok(())) => Err(format!("rejected a valid module in {}", e)),
    }
}

fn verdict(p: &[u8], externs: bool) -> Out {
    let m = match refdec::module(p) { Ok(m) => m, Err(e) if e.open() => return Ok(e.tag()), Err(e) => panic!("HARNESS: verdict case does not decode: {:?} {}", e, hex(p, 200)) };
    let a = match bind::ast(&m) { Some(a) => a, None => panic!("HARNESS: unbalanced body") };
    let want = refval::module(&m);
    let got = a.validate();
    match (got, want) {
        (Ok(r), Ok((wi, we))) => {
            if externs {
                let gi: Vec<Ext> = r.imports.iter().map(bind::ext).collect();
                let ge: Vec<Ext> = r.exports.iter().map(bind::ext).collect();
                if gi != wi { return Err(clip(format!("reported imports {:?} instead of {:?}", gi, wi))) }
                if ge != we { return Err(clip(format!("reported exports {:?} instead of {:?}", ge, we))) }
            }
            Ok("accept")
        }
        (Err(_), Err(e)) => Ok(e),
        (Ok(_), Err(e)) => Err(clip(format!("accepted although invalid ({}): {:?}", e, m))),
        (Err(_), Ok(_)) => Err(clip(format!("rejected although valid: {:?}", m))),
    }
}

struct Sink(u64);
impl std::fmt::Write for Sink { fn write_str(&mut self, s: &str) -> std::fmt::Result { self.0 += s.len() as u64; Ok(()) } }

fn depth(f: &Func) -> usize {
    let (mut d, mut max) = (0usize, 0);
    for i in &f.body { match i { Ins::Blk(..) => { d += 1; max = max.max(d) } Ins::Op(END) => d = d.saturating_sub(1), _ => {} } }
    max
}
fn robust(p: &[u8], pretty_depth: usize) -> Out {
    use std::fmt::Write;
    let want = refdec::module(p);
    if let Err(e) = want { if e.open() { return Ok(e.tag()) } }
    // the standard library indents `{:#?}` line by line at every level, which is cubic in the depth
    let pretty = want.map_or(true, |m| m.funcs.iter().all(|f| depth(f) <= pretty_depth));
    Ok(match parse(p) {
        Err(e) => { let _ = write!(Sink(0), "{} {:?}", e, e); "decode-error" }
        Ok(a) => {
            let mut s = Sink(0);
            let _ = write!(s, "{:?}", a);
            if pretty { let _ = write!(s, "{:#?}", a); }
            let r = match a.validate() { Ok(_) => "valid", Err(e) => { let _ = write!(s, "{} {:?}", e, e); "invalid" } };
            if s.0 == 0 { return Err("module prints as nothing".into()) }
            drop(a);
            r
        }
    })
}

fn prim(p: &[u8]) -> Out {
    let pr = &PRIMS[p[0] as usize];
    let b = &p[1..];
    let mut c = Cur::new(b);
    let want = (pr.rf)(&mut c);
    if let Err(e) = want { if e.open() { return Ok(e.tag()) } }
    let mut it = b.iter().copied();
    let got = (pr.imp)(&mut it);
    match (got, want) {
        (Ok(g), Ok(w)) => {
            if g != w { return Err(clip(format!("{} decoded to {:?} instead of {:?}", pr.name, g, w))) }
            if b.len() - it.len() != c.pos { return Err(format!("{} consumed {} bytes instead of {}", pr.name, b.len() - it.len(), c.pos)) }
            Ok("ok")
        }
        (Err(_), Err(e)) => Ok(e.tag()),
        (Ok(g), Err(e)) => Err(clip(format!("{} decoded to {:?} instead of failing ({})", pr.name, g, e.tag()))),
        (Err(e), Ok(w)) => Err(clip(format!("{} failed with {:?} instead of decoding to {:?}", pr.name, e, w))),
    }
}

// ---------------------------------------------------------------------------------------------
// byte sources: [source][n][n element ids][bytes]

pub const SOURCES: usize = 15;
struct Hint<I>(I, (usize, Option<usize>));
impl<I: Iterator<Item = u8>> Iterator for Hint<I> {
    type Item = u8;
    fn next(&mut self) -> Option<u8> { self.0.next() }
    fn size_hint(&self) -> (usize, Option<usize>) { self.1 }
}
/// Delivers bytes from a buffer refilled in chunks, as a reader over a file or socket would.
struct Chunked<'a> { rest: std::slice::Chunks<'a, u8>, cur: std::slice::Iter<'a, u8> }
impl<'a> Iterator for Chunked<'a> {
    type Item = u8;
    fn next(&mut self) -> Option<u8> {
        loop {
            if let Some(b) = self.cur.next() { return Some(*b) }
            self.cur = self.rest.next()?.iter();
        }
    }
}
/// Says once that it has ended, then goes on with other bytes, as a terminal or a growing file may.
struct Resumed<'a> { rest: std::slice::Iter<'a, u8>, after: usize }
impl<'a> Iterator for Resumed<'a> {
    type Item = u8;
    fn next(&mut self) -> Option<u8> {
        if self.after == 0 { if let Some(b) = self.rest.next() { return Some(*b) } }
        self.after += 1;
        if self.after > 1 && self.after < 66 { Some((self.after - 2) as u8) } else { None }
    }
}
const RESUMED: u8 = 12;
fn with_source<Y>(k: u8, b: &[u8], f: impl FnOnce(&mut dyn FnMut(&mut dyn FnMut(Src))) -> Y) -> Y {
    macro_rules! go { ($it:expr) => {{ let mut it = $it; f(&mut |g| g(&mut it)) }} }
    match k {
        0 => go!(b.iter().copied()),
        1 => go!(b.to_vec().into_iter()),
        2 => go!(Hint(b.iter().copied(), (0, None))),
        3 => go!(Hint(b.iter().copied(), (0, Some(usize::MAX)))),
        4 => go!(Chunked { rest: b.chunks(1), cur: [].iter() }),
        5 => go!(Chunked { rest: b.chunks(3), cur: [].iter() }),
        6 => { let h = b.len() / 2; go!(b[..h].iter().copied().chain(b[h..].iter().copied())) }
        7 => { let mut i = 0; go!(std::iter::from_fn(|| { i += 1; b.get(i - 1).copied() })) }
        8 => go!({ use std::io::Read; std::io::BufReader::with_capacity(2, b).bytes().map(|x| x.unwrap()) }),
        9 => go!(b.iter().copied().collect::<std::collections::VecDeque<u8>>().into_iter()),
        10 => go!(b.iter().map(|x| x ^ 0x5A).collect::<Vec<u8>>().into_iter().map(|x| x ^ 0x5A).filter(|_| true).peekable()),
        13 => go!(Hint(b.iter().copied(), (1, Some(1)))),
        14 => go!(Hint(b.iter().copied(), (b.len() + 5, Some(b.len() + 5)))),
        RESUMED => go!(Resumed { rest: b.iter(), after: 0 }),
        _ => go!(b.iter().copied().flat_map(|x| Some(x)).fuse().skip(0).step_by(1)),
    }
}

fn stream(p: &[u8]) -> Out {
    let (src, k) = (p[0], p[1] as usize);
    let (ids, b) = p[2..].split_at(k);
    let mut cur = Cur::new(b);
    let mut failed: Option<E> = None;
    let mut err: Option<String> = None;
    with_source(src, b, |with| {
        for (j, id) in ids.iter().enumerate() {
            let pr = &PRIMS[*id as usize];
            let want = (pr.rf)(&mut cur);
            if let Err(e) = want { if e.open() { failed = Some(e); return } }
            let mut got = None;
            with(&mut |s| got = Some((pr.imp)(s)));
            match (got.unwrap(), want) {
                (Ok(g), Ok(w)) if g == w => {}
                (Err(_), Err(e)) => { failed = Some(e); return }
                (g, w) => { err = Some(clip(format!("source {}: element {} ({}) gave {:?} instead of {:?}", src, j, pr.name, g, w))); return }
            }
        }
        // a module has taken the end of its input already
        if src == RESUMED && ids.iter().any(|i| PRIMS[*i as usize].name == "module") { return }
        // what follows must still be there
        let mut rest = vec![];
        with(&mut |s| while let Some(x) = s.next() { rest.push(x) });
        if rest != b[cur.pos..] { err = Some(format!("source {}: {} bytes left instead of {}", src, rest.len(), b.len() - cur.pos)) }
    });
    match (err, failed) { (Some(e), _) => Err(e), (None, Some(e)) => Ok(e.tag()), (None, None) => Ok("ok") }
}

// ---------------------------------------------------------------------------------------------
// histories: each byte names an operation of `crate::menu`

fn step(op: &crate::menu::Op) -> Result<bool, String> { step_hooked(op, |_| {}) }
/// Runs an operation of the menu, calling `hook` before each byte it reads and before the end of the
/// input; tells whether the operation succeeded, as it should.
fn step_hooked(op: &crate::menu::Op, mut hook: impl FnMut(usize)) -> Result<bool, String> {
    use crate::menu::Op;
    let check_ast = |a: &Module, m: &M, text: &str, valid: bool| -> Result<bool, String> {
        if bind::neutral(a) != *m { return Err("decoded module differs from its input".into()) }
        if format!("{:?}", a) != text { return Err("decoded module prints differently".into()) }
        let r = a.validate();
        if r.is_ok() != valid { return Err(format!("validation {} instead of {}", if valid { "rejects" } else { "accepts" }, if valid { "accepting" } else { "rejecting" })) }
        if let Ok(r) = r {
            let (wi, we) = refval::module(m).unwrap();
            let gi: Vec<Ext> = r.imports.iter().map(bind::ext).collect();
            let ge: Vec<Ext> = r.exports.iter().map(bind::ext).collect();
            if gi != wi || ge != we { return Err("validation reports different external types".into()) }
        }
        Ok(valid)
    };
    match op {
        Op::Module { bytes, expect } => match (hooked(bytes, &mut hook).parse::<Module>(), expect) {
            (Ok(a), Some((m, text, valid))) => check_ast(&a, m, text, *valid),
            (Err(_), None) => Ok(false),
            (Ok(_), None) => Err("malformed module accepted".into()),
            (Err(e), Some(_)) => Err(format!("well-formed module rejected: {:?}", e)),
        },
        Op::Validate { m, text, valid } => { let a = bind::ast(m).unwrap(); check_ast(&a, m, text, *valid) }
        Op::Prim { id, bytes } => {
            let pr = &PRIMS[*id as usize];
            let want = (pr.rf)(&mut Cur::new(bytes));
            if let Err(e) = &want { if e.open() { return Ok(false) } }
            match ((pr.imp)(&mut hooked(bytes, &mut hook)), want) {
                (Ok(g), Ok(w)) if g == w => Ok(true),
                (Err(_), Err(_)) => Ok(false),
                (g, w) => Err(clip(format!("{} gave {:?} instead of {:?}", pr.name, g, w))),
            }
        }
    }
}

fn hooked<'a>(bytes: &'a [u8], hook: &'a mut impl FnMut(usize)) -> impl Iterator<Item = u8> + 'a {
    let mut i = 0;
    std::iter::from_fn(move || { hook(i); let b = bytes.get(i).copied(); i += 1; b })
}

fn how_many(good: usize, of: usize) -> &'static str { if good == 0 { "none-succeeds" } else if good == of { "all-succeed" } else { "some-succeed" } }

/// Histories run one at a time, so that process-wide state is theirs too.
static ALONE: std::sync::Mutex<()> = std::sync::Mutex::new(());

fn history(p: &[u8]) -> Out {
    let _alone = ALONE.lock().unwrap_or_else(|e| e.into_inner());
    // a fresh thread, so that the history is exactly the operations listed
    let ops: Vec<u8> = p.to_vec();
    let r = std::thread::Builder::new().stack_size(4 << 20).spawn(move || {
        let menu = crate::menu::menu();
        let mut good = 0;
        for (j, o) in ops.iter().enumerate() {
            good += step(&menu[*o as usize]).map_err(|e| format!("operation {} of history {}{:?}: {}", j, if j > 60 { ".." } else { "" }, &ops[j.saturating_sub(60)..=j], e))? as usize;
        }
        Ok(how_many(good, ops.len()))
    }).expect("HARNESS: spawn").join();
    match r { Ok(x) => x, Err(_) => Err("panic in history".into()) }
}

/// [op][count u32]: the same operation over and over.
fn repeat(p: &[u8]) -> Out {
    let k = u32::from_le_bytes(p[1..5].try_into().unwrap());
    let op = &crate::menu::menu()[p[0] as usize];
    let mut good = 0;
    for j in 0..k { good += step(op).map_err(|e| format!("repetition {} of operation {}: {}", j, p[0], e))? as usize }
    Ok(how_many(good, k as usize))
}

/// n*([element id][length u32][bytes])
fn ops(mut rest: &[u8]) -> Vec<crate::menu::Op> {
    let mut v = vec![];
    while !rest.is_empty() {
        let n = u32::from_le_bytes(rest[1..5].try_into().unwrap()) as usize;
        let (id, b) = (rest[0], &rest[5..5 + n]);
        rest = &rest[5 + n..];
        let module = PRIMS[id as usize].name == "module";
        if let Err(e) = refdec::module(b) { if module && e.open() { continue } }
        v.push(if module { crate::menu::module(b.to_vec()) } else { crate::menu::Op::Prim { id, bytes: b.to_vec() } });
    }
    v
}
/// The elements one after another, modules also validated.
fn seq(p: &[u8]) -> Out {
    let _alone = ALONE.lock().unwrap_or_else(|e| e.into_inner());
    let p = p.to_vec();
    let r = std::thread::Builder::new().stack_size(4 << 20).spawn(move || {
        let ops = ops(&p);
        let mut good = 0;
        for (j, op) in ops.iter().enumerate() { good += step(op).map_err(|e| format!("element {} of the sequence: {}", j, e))? as usize }
        Ok(how_many(good, ops.len()))
    }).expect("HARNESS: spawn").join();
    match r { Ok(x) => x, Err(_) => Err("panic in sequence".into()) }
}
/// [count u32] and elements as in a sequence: the whole of it over and over, on a thread of its own.
fn cycle(p: &[u8]) -> Out {
    let count = u32::from_le_bytes(p[..4].try_into().unwrap());
    let p = p.to_vec();
    let r = std::thread::Builder::new().stack_size(4 << 20).spawn(move || {
        let ops = ops(&p[4..]);
        let mut good = 0;
        for j in 0..count {
            for (i, op) in ops.iter().enumerate() { good += step(op).map_err(|e| format!("element {} of the sequence, the time after {}: {}", i, j, e))? as usize }
        }
        Ok(how_many(good, ops.len() * count as usize))
    }).expect("HARNESS: spawn").join();
    match r { Ok(x) => x, Err(_) => Err("panic in cycle".into()) }
}

// ---------------------------------------------------------------------------------------------
// decodes in progress at the same time

/// [op] n*([position u16][op]): the source of the first decode runs the second operation before the
/// byte at that position, whose source runs the third, and so on.
fn nested(p: &[u8]) -> Out {
    let _alone = ALONE.lock().unwrap_or_else(|e| e.into_inner());
    /// how many operations succeed
    fn go(p: &[u8]) -> Result<usize, String> {
        let op = &crate::menu::menu()[p[0] as usize];
        if p.len() == 1 { return step(op).map(|g| g as usize) }
        let at = u16::from_le_bytes(p[1..3].try_into().unwrap()) as usize;
        let mut inner = Ok(0);
        let good = step_hooked(op, |i| if i == at { inner = go(&p[3..]) }).map_err(|e| format!("decode {} with another inside it at byte {}: {}", p[0], at, e))?;
        inner.map(|n| n + good as usize).map_err(|e| format!("inside decode {} at byte {}: {}", p[0], at, e))
    }
    let n = p.len() / 3 + 1;
    let p = p.to_vec();
    let r = std::thread::Builder::new().stack_size(8 << 20).spawn(move || go(&p)).expect("HARNESS: spawn").join();
    match r { Ok(x) => x.map(|g| how_many(g, n)), Err(_) => Err("panic in nested decodes".into()) }
}
/// [op a][op b] k*[steps u16]: two threads, one running at a time; a goes first, and the turn passes
/// after the listed numbers of bytes; when the list ends or one finishes, the other runs on.
fn sched(p: &[u8]) -> Out {
    use std::sync::{Arc, Condvar, Mutex};
    struct Turn { now: usize, left: usize, rest: Vec<usize>, done: [bool; 2] }
    struct Shared { m: Mutex<Turn>, c: Condvar }
    let _alone = ALONE.lock().unwrap_or_else(|e| e.into_inner());
    let mut plan: Vec<usize> = p[2..].chunks(2).map(|c| u16::from_le_bytes(c.try_into().unwrap()) as usize).collect();
    plan.reverse();
    let left = plan.pop().unwrap_or(usize::MAX);
    let sh = Arc::new(Shared { m: Mutex::new(Turn { now: 0, left, rest: plan, done: [false; 2] }), c: Condvar::new() });
    fn wait(sh: &Shared, me: usize) {
        let mut t = sh.m.lock().unwrap_or_else(|e| e.into_inner());
        if t.now == me && t.left == 0 {
            t.left = t.rest.pop().unwrap_or(usize::MAX);
            if !t.done[1 - me] { t.now = 1 - me; sh.c.notify_all() }
        }
        while t.now != me { t = sh.c.wait(t).unwrap_or_else(|e| e.into_inner()) }
        t.left = t.left.saturating_sub(1);
    }
    struct Finish<'a>(&'a Shared, usize);
    impl Drop for Finish<'_> {
        fn drop(&mut self) {
            let mut t = self.0.m.lock().unwrap_or_else(|e| e.into_inner());
            t.done[self.1] = true;
            t.now = 1 - self.1;
            t.left = usize::MAX;
            self.0.c.notify_all();
        }
    }
    let hs: Vec<_> = (0..2).map(|me| {
        let (sh, op) = (sh.clone(), p[me]);
        std::thread::Builder::new().stack_size(4 << 20).spawn(move || {
            let _f = Finish(&sh, me);
            step_hooked(&crate::menu::menu()[op as usize], |_| wait(&sh, me))
        }).expect("HARNESS: spawn")
    }).collect();
    let mut good = 0;
    for (me, h) in hs.into_iter().enumerate() {
        match h.join() { Ok(Ok(g)) => good += g as usize, Ok(Err(e)) => return Err(format!("thread {}: {}", me, e)), Err(_) => return Err(format!("panic in thread {}", me)) }
    }
    Ok(how_many(good, 2))
}

// ---------------------------------------------------------------------------------------------
// comparing and printing

/// Whether a module has no float constant for which equality of numbers is not equality of bits.
pub fn plain_floats(m: &M) -> bool {
    let odd = |i: &Ins| match i { Ins::F32(b) => f32::from_bits(*b).is_nan() || *b == 1 << 31, Ins::F64(b) => f64::from_bits(*b).is_nan() || *b == 1 << 63, _ => false };
    !m.funcs.iter().flat_map(|f| &f.body).chain(m.globals.iter().flat_map(|g| &g.init)).chain(m.elems.iter().flat_map(|e| &e.offset)).chain(m.datas.iter().flat_map(|d| &d.offset)).any(odd)
}
/// [length u32][module][module]
fn pair(p: &[u8]) -> Out {
    let n = u32::from_le_bytes(p[..4].try_into().unwrap()) as usize;
    let (a, b) = (&p[4..4 + n], &p[4 + n..]);
    let (ma, mb) = match (refdec::module(a), refdec::module(b)) { (Ok(x), Ok(y)) => (x, y), _ => return Ok("malformed") };
    if !plain_floats(&ma) || !plain_floats(&mb) { return Ok("skipped:nan") }
    let (x, y) = match (parse(a), parse(b)) { (Ok(x), Ok(y)) => (x, y), _ => return Err("well-formed module rejected".into()) };
    let same = ma == mb;
    if (x == y) != same || (y == x) != same || (x != y) == same { return Err(format!("modules with {} contents compare {}", if same { "the same" } else { "different" }, if same { "unequal" } else { "equal" })) }
    if (format!("{:?}", x) == format!("{:?}", y)) != same || (format!("{:#?}", x) == format!("{:#?}", y)) != same { return Err(format!("modules with {} contents print {}", if same { "the same" } else { "different" }, if same { "differently" } else { "alike" })) }
    Ok(if same { "same" } else { "different" })
}

// ---------------------------------------------------------------------------------------------
// error kinds: [element id][bytes]

fn errkind(p: &[u8]) -> Out {
    let pr = &PRIMS[p[0] as usize];
    let b = &p[1..];
    let want = (pr.rf)(&mut Cur::new(b));
    if let Err(e) = want { if e.open() { return Ok(e.tag()) } }
    let got = (pr.imp)(&mut b.iter().copied());
    let (e, w) = match (got, want) {
        (Err(e), Err(w)) => (e, w),
        // whether it fails at all is decided elsewhere
        (Ok(_), _) => return Ok("no-error"),
        (Err(e), Ok(_)) => return Err(format!("{} fails with {:?} on well-formed input", pr.name, e)),
    };
    let size = matches!(e, Error::SizeMissmatch | Error::SectionSizeMissmatch { .. } | Error::FunctionSizeMissmatch);
    let eof = matches!(e, Error::UnexpectedEndOfFile);
    let ok = match w {
        E::Eof => eof,
        E::Overrun => eof || size,
        E::URange => matches!(e, Error::OutOfRangeUnsignedInteger),
        E::SRange => matches!(e, Error::OutOfRangeSignedInteger),
        E::Utf8 => matches!(e, Error::InvalidUtf8Encoding),
        E::Size => size,
        E::Magic => matches!(e, Error::InvalidPreambleMagic),
        E::Version => matches!(e, Error::InvalidPreambleVersion),
        E::SecOrder(i) => matches!(e, Error::UnexpectedSectionId { id: Byte(x) } if x == i),
        E::SecId(i) => matches!(e, Error::InvalidSectionId { id: Byte(x) } if x == i),
        E::Variant(i) => matches!(e, Error::InvalidVariantId { id, .. } if id == i),
        E::Else => matches!(e, Error::UnexpectedOpcode { .. }),
        E::FuncCode | E::Locals => true,
        E::EofOrU => eof || size || matches!(e, Error::OutOfRangeUnsignedInteger),
        E::EofOrS => eof || size || matches!(e, Error::OutOfRangeSignedInteger),
        E::EofOrUtf8 => eof || size || matches!(e, Error::InvalidUtf8Encoding),
        E::EofOrMagic => eof || matches!(e, Error::InvalidPreambleMagic),
        E::EofOrVersion => eof || matches!(e, Error::InvalidPreambleVersion),
        E::TooBig | E::Unspecified => true,
    };
    if ok { Ok(w.tag()) } else { Err(format!("{}: reported {:?} for {:?}", pr.name, e, w)) }
}

// ---------------------------------------------------------------------------------------------
// memory: [element id][bytes]

pub const MEM_CONST: u64 = 8 << 20;
pub const MEM_PER_BYTE: u64 = 768;
/// Validation builds no tree.
pub const MEM_VAL_CONST: u64 = 1 << 20;
pub const MEM_VAL_PER_BYTE: u64 = 256;

fn mem(p: &[u8]) -> Out {
    let pr = &PRIMS[p[0] as usize];
    let b = &p[1..];
    let want = (pr.rf)(&mut Cur::new(b));
    if let Err(e) = want { if e.open() { return Ok(e.tag()) } }
    // run-length-encoded locals are the documented exception: what they expand to is allowed on top
    let extra = match &want { Ok(c) => expanded(c), Err(_) => 2 * refdec::MAX_LOCALS * 8 };
    let mut used = 0u64;
    let (got, peak) = crate::alloc::measure(|| (pr.imp)(&mut b.iter().copied().inspect(|_| used += 1)));
    let limit = MEM_CONST + MEM_PER_BYTE * used + extra;
    if peak > limit { return Err(format!("{}: {} bytes allocated while reading {} bytes", pr.name, peak, used)) }
    if let (Ok(crate::prims::C::M(_)), true) = (&got, pr.name == "module") {
        let limit = MEM_VAL_CONST + MEM_VAL_PER_BYTE * used + 16 * extra;
        let m = b.iter().copied().parse::<Module>();
        if let Ok(m) = &m {
            let (_, peak) = crate::alloc::measure(|| m.validate().is_ok());
            if peak > limit { return Err(format!("{} bytes allocated while validating a module of {} bytes", peak, used)) }
        }
    }
    if let (Ok(_), Err(E::Locals)) = (&got, &want) { return Err("local declarations beyond 2^32-1 accepted".into()) }
    Ok(match want { Ok(_) => "ok", Err(e) => e.tag() })
}
fn expanded(c: &crate::prims::C) -> u64 {
    use crate::prims::C;
    match c {
        C::M(m) => m.funcs.iter().map(|f| f.locals.len() as u64 * 4).sum(),
        C::Func(f) => f.locals.len() as u64 * 4,
        C::L(v) => v.iter().map(expanded).sum::<u64>() + v.len() as u64 * 128,
        _ => 0,
    }
}

// ---------------------------------------------------------------------------------------------
// independence of function bodies

fn indep(p: &[u8]) -> Out {
    let m = match refdec::module(p) { Ok(m) => m, Err(e) => panic!("HARNESS: indep case does not decode: {:?}", e) };
    let ok = |m: &M| bind::ast(m).expect("HARNESS: unbalanced").validate().is_ok();
    let whole = ok(&m);
    let mut all = true;
    let mut n = 0;
    for i in 0..m.funcs.len() {
        let mut x = m.clone();
        for (j, f) in x.funcs.iter_mut().enumerate() { if j != i { f.locals.clear(); f.body = vec![Ins::Op(0)]; } }
        let v = ok(&x);
        if !v { n += 1 }
        all &= v;
    }
    if whole != all { return Err(clip(format!("module {} although its functions one by one are {}: {:?}", if whole { "accepted" } else { "rejected" }, if all { "all accepted" } else { "not all accepted" }, m))) }
    Ok(match n { 0 => "all-accepted", 1 => "one-rejected", _ => "several-rejected" })
}

// ---------------------------------------------------------------------------------------------
// nesting: [shape][depth u32]

pub fn nest_module(p: &[u8]) -> Vec<u8> {
    let depth = u32::from_le_bytes(p[1..5].try_into().unwrap()) as usize;
    let mut body = vec![];
    for i in 0..depth {
        match p[0] {
            0 => body.extend([0x02, 0x40]),
            1 => body.extend([0x03, 0x40]),
            2 => body.extend([0x41, 0x00, 0x04, 0x40]),
            3 => body.extend([0x41, 0x00, 0x04, 0x40, 0x05]),
            _ => body.extend([if i % 2 == 0 { 0x02 } else { 0x03 }, 0x40]),
        }
    }
    for _ in 0..depth { body.push(END) }
    body.push(END);
    let mut e = Enc::new();
    e.out.extend(PREAMBLE);
    e.section(1, &[1, 0x60, 0, 0]);
    e.section(3, &[1, 0]);
    let mut f = vec![0];
    f.extend(&body);
    let mut s = Enc::new();
    s.u(1);
    s.sized(&f);
    e.section(10, &s.out);
    e.out
}
/// The stack a main thread usually has.
const USUAL_STACK: usize = 8 << 20;
fn nest(p: &[u8]) -> Out {
    let b = nest_module(p);
    let r = std::thread::Builder::new().stack_size(USUAL_STACK).spawn(move || robust(&b, 130)).expect("HARNESS: spawn").join();
    match r {
        Err(_) => Err("panic on a deeply nested module".into()),
        Ok(r) => match r? { "valid" => Ok("valid"), r => Err(format!("deeply nested valid module is {}", r)) },
    }
}
/// As `nest`, in a process of its own that may die.
fn deep(p: &[u8]) -> Out {
    use std::io::Write;
    use std::process::{Command, Stdio};
    let mut ch = Command::new(std::env::current_exe().expect("HARNESS: exe")).args(["case", "nest"]).stdin(Stdio::piped()).stdout(Stdio::null()).stderr(Stdio::null()).spawn().expect("HARNESS: spawn");
    ch.stdin.take().unwrap().write_all(p).expect("HARNESS: pipe");
    let st = ch.wait().expect("HARNESS: wait");
    match st.code() { Some(0) => Ok("valid"), Some(c) => Err(format!("deeply nested module: exit {}", c)), None => Err(format!("deeply nested module ends the process: {:?}", st)) }
}
