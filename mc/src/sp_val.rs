//! Spaces about validation. Each takes the kind of case to run, so that the same space can be
//! judged for its verdict, end to end, or for robustness.

use crate::cases::Kind;
use crate::engine::{space, Ch, Space, X};
use crate::model::*;
use crate::refval::{self, Body, FCtx};
use std::collections::{HashMap, VecDeque};
use T::*;

pub const NONE_OR_T: [Option<T>; 5] = [None, Some(I32), Some(I64), Some(F32), Some(F64)];

/// 0..=upto, then the neighbourhoods of the powers of two and some round numbers up to `max`.
pub fn sizes(upto: usize, max: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=upto.min(max)).collect();
    let mut k = 1usize;
    while k <= max { for d in [k - 1, k, k + 1] { if d > upto && d <= max + 1 { v.push(d) } } k *= 2 }
    for d in [100, 200, 255, 500, 1000, 2000, 5000, 10000, 20000, 50000, 100000] { if d > upto && d <= max { v.push(d) } }
    v.sort();
    v.dedup();
    v
}
/// Interesting 32-bit values.
pub fn u32s() -> Vec<u32> {
    let mut v = vec![];
    for k in 0..32 { for d in [-1i64, 0, 1] { v.push(((1i64 << k) + d) as u32) } }
    v.push(u32::MAX);
    v.push(u32::MAX - 1);
    v.sort();
    v.dedup();
    v
}

pub fn op(o: u8) -> Ins { Ins::Op(o) }
pub fn ix(o: u8, i: u32) -> Ins { Ins::Idx(o, i) }
pub fn blk(t: Option<T>) -> Ins { Ins::Blk(2, t) }
pub fn lop(t: Option<T>) -> Ins { Ins::Blk(3, t) }
pub fn iff(t: Option<T>) -> Ins { Ins::Blk(4, t) }
pub const UNR: Ins = Ins::Op(0);
pub const E: Ins = Ins::Op(END);
pub const L: Ins = Ins::Op(ELSE);
pub const DROP: Ins = Ins::Op(0x1A);
pub fn set(t: T) -> Ins { ix(0x21, t as u32) }
pub fn get(t: T) -> Ins { ix(0x20, t as u32) }

/// A module whose function 0 has locals i32,i64,f32,f64 (two of them parameters) and the given body.
pub fn host(ret: Option<T>, body: &[Ins]) -> M {
    let r: Vec<T> = ret.into_iter().collect();
    M {
        types: vec![FT::new(&[I32, I64], &r), FT::new(&[], &[]), FT::new(&[I32], &[I64]), FT::new(&[I64, I32], &[]), FT::new(&[], &[F32])],
        funcs: vec![f(0, &[F32, F64], body), f(1, &[], &[UNR]), f(2, &[], &[UNR]), f(3, &[], &[UNR]), f(4, &[], &[UNR])],
        tables: vec![lim(1, None)],
        mems: vec![lim(1, None)],
        globals: vec![Glob { ty: gt(I32, true), init: vec![Ins::I32(0)] }, Glob { ty: gt(I64, false), init: vec![Ins::I64(0)] }],
        ..M::default()
    }
}
fn host_ctx(ret: Option<T>) -> FCtx {
    let m = host(ret, &[]);
    let c = refval::context(&m).unwrap();
    refval::fctx(&c, &m, &m.funcs[0])
}
fn go(c: &mut Ch, k: Kind, m: &M) -> X<()> { c.run(k, &encode(m)) }

/// Which constructs are open after `body`; None if `t` cannot structurally follow.
fn nest(open: &mut Vec<u8>, t: &Ins) -> bool {
    match t {
        Ins::Blk(k, _) => { open.push(*k); true }
        Ins::Op(ELSE) => match open.last_mut() { Some(k) if *k == 4 => { *k = 5; true } _ => false },
        Ins::Op(END) => open.pop().is_some(),
        _ => true,
    }
}
/// Closes everything that is open, each construct ending in `unreachable`.
fn close_dead(body: &mut Vec<Ins>, open: &[u8]) {
    for k in open.iter().rev() {
        body.push(UNR);
        if *k == 4 { body.push(L); body.push(UNR) }
        body.push(E);
    }
    body.push(UNR);
}
fn close_plain(body: &mut Vec<Ins>, open: &[u8]) { for _ in open { body.push(E) } }

/// All instruction sequences over `alpha` up to `depth`, each with several completions.
pub fn tree(k: Kind, name: &'static str, alpha: Vec<Ins>, depth: usize, rets: Vec<Option<T>>, prefix: Vec<Ins>) -> Space {
    let about = format!("every sequence of up to {} of {} instruction tokens, function results {:?}, prefix {:?}, branches closed once the reference rejects; completions: plain ends, dead ends, drop+dead ends", depth, alpha.len(), rets, prefix);
    space(name, about, 4, move |c| {
        let ret = *c.of(&rets)?;
        let ctx = host_ctx(ret);
        let mut body: Vec<Ins> = vec![];
        let mut open = vec![];
        let mut st = Body::new(&ctx);
        for t in &prefix { nest(&mut open, t); st.step(&ctx, t).ok().unwrap(); body.push(t.clone()) }
        for len in 0.. {
            let ch = if len < depth { c.pick(1 + alpha.len())? } else { 0 };
            if ch == 0 {
                let mut b = body.clone(); close_plain(&mut b, &open); go(c, k, &host(ret, &b))?;
                let mut b = body.clone(); close_dead(&mut b, &open); go(c, k, &host(ret, &b))?;
                let mut b = body.clone(); b.push(DROP); close_dead(&mut b, &open); go(c, k, &host(ret, &b))?;
                return Ok(());
            }
            let t = &alpha[ch - 1];
            if !nest(&mut open, t) { return Ok(()) }
            body.push(t.clone());
            if st.step(&ctx, t).is_err() {
                let mut b = body.clone(); close_dead(&mut b, &open); go(c, k, &host(ret, &b))?;
                let mut b = body.clone(); close_plain(&mut b, &open); go(c, k, &host(ret, &b))?;
                return Ok(());
            }
        }
        Ok(())
    })
}

pub fn alpha_full() -> Vec<Ins> {
    vec![
        UNR, op(1), blk(None), blk(Some(I32)), blk(Some(I64)), lop(None), lop(Some(I32)), iff(None), iff(Some(I32)), iff(Some(F32)), L, E,
        ix(0x0C, 0), ix(0x0C, 1), ix(0x0C, 2), ix(0x0D, 0), ix(0x0D, 1), ix(0x0D, 2), Ins::BrTable(vec![], 0), Ins::BrTable(vec![0, 1], 0), Ins::BrTable(vec![1], 1),
        op(0x0F), ix(0x10, 1), ix(0x10, 2), ix(0x10, 3), Ins::CallInd(2, 0), DROP, op(0x1B),
        get(I32), get(I64), set(I32), set(I64), ix(0x22, 0), ix(0x24, 0), Ins::F32(0), op(0x45), op(0x6A), op(0x7C), op(0xA7), Ins::Mem(0x29, 0, 0),
    ]
}
pub fn alpha_core() -> Vec<Ins> {
    vec![UNR, blk(None), blk(Some(I32)), lop(Some(I32)), iff(Some(I32)), iff(None), L, E, ix(0x0C, 0), ix(0x0C, 1), ix(0x0D, 0), op(0x0F), DROP, Ins::I32(0), Ins::I64(0), op(0x6A)]
}
pub fn alpha_ctl() -> Vec<Ins> {
    vec![blk(None), lop(None), iff(None), L, E, ix(0x0C, 0), ix(0x0C, 1), Ins::I32(0), UNR]
}
pub fn alpha_dead() -> Vec<Ins> {
    vec![DROP, op(0x1B), op(0x6A), op(0x7C), Ins::I32(0), Ins::I64(0), set(I32), set(I64), ix(0x22, 1), ix(0x0D, 0), Ins::BrTable(vec![0], 0), ix(0x10, 2), blk(Some(I32)), iff(Some(I64)), L, E, op(0xA7)]
}

/// Explicit-state exploration of the reference validator: every state reachable within `depth` tokens
/// (one representative path each), every token from it, and probes that tell the resulting states apart.
pub fn graph(k: Kind, depth: usize, max_frames: usize, max_ops: usize, cap: usize) -> Space {
    let alpha = alpha_full();
    let mut states: Vec<(Option<T>, Vec<Ins>)> = vec![];
    let mut edges = 0u64;
    for ret in [None, Some(I32), Some(I64)] {
        let ctx = host_ctx(ret);
        let mut seen: HashMap<Body, ()> = HashMap::new();
        let mut q = VecDeque::new();
        let s0 = Body::new(&ctx);
        seen.insert(s0.clone(), ());
        q.push_back((s0, vec![], vec![]));
        while let Some((s, path, open)) = q.pop_front() {
            states.push((ret, path.clone()));
            if path.len() >= depth || seen.len() >= cap { continue }
            for t in &alpha {
                let mut o: Vec<u8> = open.clone();
                if !nest(&mut o, t) { continue }
                let mut n = s.clone();
                edges += 1;
                if n.step(&ctx, t).is_err() || n.frames.is_empty() { continue }
                if n.frames.len() > max_frames || n.frames.iter().map(|f| f.ops.len()).sum::<usize>() > max_ops { continue }
                if seen.contains_key(&n) { continue }
                seen.insert(n.clone(), ());
                let mut p = path.clone();
                p.push(t.clone());
                q.push_back((n, p, o));
            }
        }
    }
    let about = format!("explicit-state graph of the reference validator: {} distinct states (frames, operand stacks) within {} tokens (<= {} frames, <= {} operands, {} model edges tried), one representative path each; from every state every token of {} and up to 21 distinguishing suffixes", states.len(), depth, max_frames, max_ops, edges, alpha.len());
    space("state-graph", about, 1, move |c| {
        let (ret, path) = c.of(&states)?;
        let t = c.of(&alpha)?;
        let mut open = vec![];
        for x in path { nest(&mut open, x); }
        if !nest(&mut open, t) { return Ok(()) }
        let ctx = host_ctx(*ret);
        let mut body = path.clone();
        body.push(t.clone());
        let mut st = Body::new(&ctx);
        let ok = body.iter().all(|x| st.step(&ctx, x).is_ok());
        let probe = |c: &mut Ch, extra: &[Ins], dead: bool| {
            let mut b = body.clone();
            b.extend_from_slice(extra);
            if dead { close_dead(&mut b, &open) } else { close_plain(&mut b, &open) }
            go(c, k, &host(*ret, &b))
        };
        probe(c, &[], true)?;
        if !ok { return Ok(()) }
        probe(c, &[], false)?;
        for t in TS { probe(c, &[set(t)], true)? }
        probe(c, &[DROP, DROP], true)?;
        for l in 0..open.len() as u32 + 2 {
            probe(c, &[ix(0x0C, l)], true)?;
            probe(c, &[Ins::I32(0), ix(0x0C, l)], true)?;
        }
        probe(c, &[Ins::I64(0)], false)?;
        probe(c, &[Ins::I32(0)], false)?;
        probe(c, &[DROP], false)?;
        probe(c, &[op(0x0F)], false)
    })
}

/// Nests of n constructs, one of which has a result, with branches to every depth.
pub fn branch_depths(k: Kind, upto: usize, max: usize) -> Space {
    let ns = sizes(upto, max);
    space("branch-depth", format!("nests of n constructs for n in 0..={} and around powers of two up to {}, branches (br, br_if, br_table) to every label up to n+1 (all of them for n<=70, else the interesting ones), construct at one depth typed i32", upto, max), 2, move |c| {
        let n = *c.of(&ns)?;
        let kind = *c.of(&[2u8, 3, 4])?;
        let how = c.pick(3)?;
        let mut ls: Vec<usize> = if n <= 70 { (0..n + 2).collect() } else { vec![0, 1, 2, 62, 63, 64, 65, 127, 128, 129, 255, 256, 257, n / 2, n - 2, n - 1, n, n + 1, n + 2, n + 256] };
        ls.retain(|l| *l <= n + 2 || *l == n + 256);
        ls.dedup();
        let l = *c.of(&ls)?;
        // depth (from outside) of the construct that has an i32 result, or none
        let mut ts: Vec<usize> = vec![usize::MAX, 0, n / 2, n.wrapping_sub(1), n.wrapping_sub(1).wrapping_sub(l), n.wrapping_sub(l)];
        ts.retain(|t| *t == usize::MAX || *t < n);
        ts.sort();
        ts.dedup();
        let typed = *c.of(&ts)?;
        let operand = c.flag()?;
        let mut b = vec![];
        for d in 0..n {
            if kind == 4 { b.push(Ins::I32(0)) }
            b.push(Ins::Blk(kind, if d == typed { Some(I32) } else { None }));
        }
        if operand { b.push(Ins::I32(7)) }
        match how { 0 => b.push(ix(0x0C, l as u32)), 1 => { b.push(Ins::I32(0)); b.push(ix(0x0D, l as u32)) } _ => { b.push(Ins::I32(0)); b.push(Ins::BrTable(vec![l as u32], l as u32)) } }
        close_dead(&mut b, &vec![kind; n]);
        go(c, k, &host(None, &b))
    })
}

/// br_table lists over labels whose types differ.
pub fn br_tables(k: Kind, max_len: usize) -> Space {
    let frames: Vec<Vec<Ins>> = {
        let menu = [blk(None), blk(Some(I32)), blk(Some(I64)), lop(None), lop(Some(I32)), iff(Some(I32)), iff(None)];
        let mut v = vec![vec![]];
        for a in &menu { v.push(vec![a.clone()]); for b in &menu { v.push(vec![a.clone(), b.clone()]) } }
        v
    };
    space("br-table", format!("br_table with up to {} targets plus default over every label of 0..2 enclosing constructs of 7 kinds/types, 3 function results, 4 operand situations; lists of up to 300 and around powers of two with one odd target", max_len), 2, move |c| {
        let fr = c.of(&frames)?;
        let ret = *c.of(&[None, Some(I32), Some(I64)])?;
        let pre = c.of(&[vec![], vec![Ins::I32(1)], vec![Ins::I64(1)], vec![UNR]])?.clone();
        let n = fr.len() + 2;
        let len = c.range(0, max_len)?;
        let mut v = vec![];
        for _ in 0..len { v.push(c.pick(n)? as u32) }
        let d = c.pick(n)? as u32;
        let mut b = vec![];
        let mut open = vec![];
        for x in fr { if let Ins::Blk(4, _) = x { b.push(Ins::I32(0)) } nest(&mut open, x); b.push(x.clone()) }
        b.extend(pre.iter().cloned());
        b.push(Ins::I32(0));
        b.push(Ins::BrTable(v, d));
        close_dead(&mut b, &open);
        go(c, k, &host(ret, &b))
    })
}
pub fn br_tables_long(k: Kind, upto: usize, max: usize) -> Space {
    let ns: Vec<usize> = sizes(upto, max).into_iter().filter(|n| *n > 0).collect();
    space("br-table-long", format!("br_table of n targets, n in 1..={} and around powers of two up to {}, one target (every position for n<=40) being of another type or out of range", upto, max), 1, move |c| {
        let n = *c.of(&ns)?;
        let pos: Vec<usize> = if n <= 40 { (0..=n + 1).collect() } else { vec![0, 1, 31, 32, 33, n / 2, n - 2, n - 1, n, n + 1] };
        let p = *c.of(&pos)?;
        let bad = *c.of(&[1u32, 2, 3, u32::MAX])?;
        let mut v = vec![0u32; n];
        let mut d = 0;
        if p < n { v[p] = bad } else if p == n { d = bad }
        let b = vec![blk(Some(I32)), blk(None), Ins::I32(0), Ins::BrTable(v, d), E, UNR, E, DROP];
        go(c, k, &host(None, &b))
    })
}

/// if/else shapes: result type, both branches from a menu.
pub fn ifs(k: Kind) -> Space {
    let arms = |t: Option<T>| -> Vec<Vec<Ins>> {
        let mut v = vec![vec![], vec![UNR], vec![ix(0x0C, 0)], vec![op(0x0F)], vec![op(1)], vec![Ins::I32(0), Ins::I32(0)], vec![ix(0x0C, 1)]];
        for x in TS { v.push(vec![cst(x)]); v.push(vec![cst(x), ix(0x0C, 0)]); v.push(vec![UNR, cst(x)]); v.push(vec![cst(x), DROP]) }
        if let Some(t) = t { v.push(vec![cst(t), cst(t)]); v.push(vec![blk(Some(t)), cst(t), E]); v.push(vec![cst(t), Ins::I32(0), ix(0x0D, 0)]) }
        v
    };
    space("if-else", "if with every result type, then/else branches each from a menu of up to 27 (else also absent), followed by each kind of use of the result", 2, move |c| {
        let t = *c.of(&NONE_OR_T)?;
        let a = arms(t);
        let then = c.of(&a)?.clone();
        let e = c.pick(a.len() + 1)?;
        let after = c.pick(7)?;
        let mut b = vec![Ins::I32(0), iff(t)];
        b.extend(then);
        if e > 0 { b.push(L); b.extend(a[e - 1].iter().cloned()) }
        b.push(E);
        match after { 0 => {} 1 => b.push(DROP), 2..=5 => b.push(set(TS[after - 2])), _ => b.push(UNR) }
        go(c, k, &host(None, &b))
    })
}

/// Long bodies: counts of repeated patterns.
pub fn long_bodies(k: Kind, upto: usize, max: usize) -> Space {
    let ns = sizes(upto, max);
    space("long-body", format!("bodies made of n repetitions, n in 0..={} and around powers of two up to {}: operands pushed then dropped (exactly, one short, one too many), sequences of blocks, of adds, of dead code", upto, max), 1, move |c| {
        let n = *c.of(&ns)?;
        let shape = c.pick(7)?;
        let off = *c.of(&[0i64, -1, 1])?;
        let m2 = (n as i64 + off).max(0) as usize;
        let mut b = vec![];
        match shape {
            0 => { b.extend(vec![Ins::I32(0); n]); b.extend(vec![DROP; m2]) }
            1 => { for _ in 0..n { b.push(Ins::I64(1)); b.push(DROP) } if off != 0 { b.push(if off > 0 { Ins::I64(0) } else { DROP }) } }
            2 => { b.extend(vec![Ins::I32(0); n + 1]); b.extend(vec![op(0x6A); m2]); b.push(DROP) }
            3 => { for _ in 0..n { b.push(blk(None)); b.push(E) } if off != 0 { b.push(if off > 0 { Ins::I64(0) } else { DROP }) } }
            4 => { b.push(UNR); b.extend(vec![op(0x6A); n]); b.extend(vec![Ins::I32(0); m2.min(2)]); b.push(DROP); }
            5 => { for i in 0..n { b.push(cst(TS[i % 4])) } for i in (0..n).rev() { b.push(set(TS[if i == 0 && off != 0 { (i + 1) % 4 } else { i % 4 }])) } }
            _ => { b.push(blk(None)); b.extend(vec![Ins::I32(0); n]); b.push(ix(0x0C, 0)); b.extend(vec![DROP; m2]); b.push(E) }
        }
        go(c, k, &host(None, &b))
    })
}

// ---------------------------------------------------------------------------------------------
// C03

pub fn all_leaf_ops() -> Vec<Ins> {
    let mut v: Vec<Ins> = vec![op(0), op(1), op(0x0F), DROP, op(0x1B)];
    for t in TS { v.push(get(t)); v.push(set(t)); v.push(ix(0x22, t as u32)) }
    v.extend([ix(0x23, 0), ix(0x23, 1), ix(0x24, 0), ix(0x24, 1)]);
    for o in 0x28..=0x3E { v.push(Ins::Mem(o, 0, 0)) }
    v.extend([ix(0x3F, 0), ix(0x40, 0)]);
    for t in TS { v.push(cst(t)) }
    for o in 0x45..=0xBF { v.push(op(o)) }
    v.extend([ix(0x10, 1), ix(0x10, 2), ix(0x10, 3), ix(0x10, 4), Ins::CallInd(1, 0), Ins::CallInd(2, 0), Ins::CallInd(3, 0), Ins::CallInd(4, 0)]);
    v.extend([ix(0x0C, 0), ix(0x0D, 0), ix(0x0C, 1), ix(0x0D, 1)]);
    v
}
pub fn stacks(max: usize) -> Vec<Vec<T>> {
    let mut v: Vec<Vec<T>> = vec![vec![]];
    let mut last = v.clone();
    for _ in 0..max {
        let mut next = vec![];
        for s in &last { for t in TS { let mut x: Vec<T> = s.clone(); x.push(t); next.push(x) } }
        v.extend(next.iter().cloned());
        last = next;
    }
    v
}
/// Probes that reveal what an instruction left on the operand stack.
fn result_probe(c: &mut Ch, drops: usize) -> X<(Vec<Ins>, bool)> {
    // (extra instructions, closed with unreachable)
    let k = c.pick(5 + drops + 1)?;
    Ok(match k { 0 => (vec![], true), 1..=4 => (vec![set(TS[k - 1])], true), _ => (vec![DROP; k - 5], false) })
}
pub fn signatures(k: Kind, depth: usize) -> Space {
    let ops = all_leaf_ops();
    let st = stacks(depth);
    space("signatures", format!("each of {} instructions on every operand stack of up to {} values over 4 types, in 5 contexts (function, dead code, block, loop, above foreign operands), with {} probes of the result", ops.len(), depth, 10), 2, move |c| {
        let o = c.of(&ops)?;
        let s = c.of(&st)?;
        let ctx = c.pick(5)?;
        let (extra, dead) = result_probe(c, 4)?;
        let mut b = vec![];
        let mut open = vec![];
        match ctx {
            0 => {}
            1 => b.push(UNR),
            2 => { b.push(blk(None)); open.push(2) }
            3 => { b.push(lop(Some(F32))); open.push(3) }
            // operands of the right types below a block boundary must stay out of reach
            _ => { for t in s.iter() { b.push(cst(*t)) } b.push(blk(None)); open.push(2); b.push(o.clone()); b.extend(extra); close_dead(&mut b, &open); return go(c, k, &host(None, &b)) }
        }
        for t in s { b.push(cst(*t)) }
        b.push(o.clone());
        b.extend(extra);
        if dead { close_dead(&mut b, &open) } else { close_plain(&mut b, &open); if ctx == 3 { b.push(DROP) } }
        go(c, k, &host(None, &b))
    })
}
pub fn pairs(k: Kind) -> Space {
    let ops = all_leaf_ops();
    let st = stacks(2);
    space("op-pairs", "every ordered pair of instructions on every operand stack of up to 2 values, result probed by dead end and by drops", 1, move |c| {
        let a = c.of(&ops)?;
        let b2 = c.of(&ops)?;
        let s = c.of(&st)?;
        let dead = c.flag()?;
        let mut b: Vec<Ins> = s.iter().map(|t| cst(*t)).collect();
        b.push(a.clone());
        b.push(b2.clone());
        if dead { b.push(UNR) } else { b.push(DROP) }
        go(c, k, &host(None, &b))
    })
}
/// Calls of every small signature on every small stack.
pub fn calls(k: Kind, params: usize, depth: usize) -> Space {
    let sigs = stacks(params);
    let st = stacks(depth);
    space("calls", format!("call and call_indirect of every signature with up to {} parameters and up to one result, on every operand stack of up to {} values, imported and defined callee, live and dead code", params, depth), 2, move |c| {
        let p = c.of(&sigs)?;
        let r = *c.of(&NONE_OR_T)?;
        let s = c.of(&st)?;
        let mode = c.pick(4)?;
        let (extra, dead) = { let x = c.pick(4)?; match x { 0 => (vec![], true), 1 => (vec![set(r.unwrap_or(I32))], true), 2 => (vec![], false), _ => (vec![DROP], false) } };
        let mut m = host(None, &[]);
        m.types.push(FT { p: p.clone(), r: r.into_iter().collect() });
        let t = m.types.len() as u32 - 1;
        let mut b: Vec<Ins> = vec![];
        if mode == 3 { b.push(UNR) }
        b.extend(s.iter().map(|t| cst(*t)));
        match mode {
            0 | 3 => { m.funcs.push(f(t, &[], &[UNR])); let i = m.funcs.len() as u32 - 1; b.push(ix(0x10, i)) }
            1 => { m.imports.push(imp(ImpD::Func(t))); b.push(ix(0x10, 0)) }
            _ => b.push(Ins::CallInd(t, 0)),
        }
        b.extend(extra);
        if dead { b.push(UNR) }
        m.funcs[0].body = b;
        go(c, k, &m)
    })
}
/// Calls with many parameters, exact and with one deviation.
pub fn calls_long(k: Kind, upto: usize, max: usize) -> Space {
    let ns = sizes(upto, max);
    space("calls-long", format!("calls with n parameters (n in 0..={} and around powers of two up to {}) of cyclic types; operands exact, one missing, one extra, or one of another type at a chosen position", upto, max), 1, move |c| {
        let n = *c.of(&ns)?;
        let pos: Vec<usize> = if n <= 20 { (0..n).collect() } else { vec![0, 1, 7, 8, 15, 16, n / 2, n - 2, n - 1] };
        let dev = c.pick(3 + pos.len())?;
        let ind = c.flag()?;
        let p: Vec<T> = (0..n).map(|i| TS[i % 4]).collect();
        let mut s = p.clone();
        match dev { 0 => {} 1 => { s.pop(); } 2 => s.insert(0, I32), _ => { let q = pos[dev - 3]; s[q] = TS[(s[q] as usize + 1) % 4] } }
        let mut m = host(None, &[]);
        m.types.push(FT { p, r: vec![F64] });
        let t = m.types.len() as u32 - 1;
        m.funcs.push(f(t, &[], &[UNR]));
        let i = m.funcs.len() as u32 - 1;
        let mut b: Vec<Ins> = s.iter().map(|t| cst(*t)).collect();
        if ind { b.push(Ins::I32(0)); b.push(Ins::CallInd(t, 0)) } else { b.push(ix(0x10, i)) }
        b.push(set(F64));
        m.funcs[0].body = b;
        go(c, k, &m)
    })
}

// ---------------------------------------------------------------------------------------------
// C04

pub fn mem_ops(k: Kind) -> Space {
    let mut aligns: Vec<u32> = (0..=80).collect();
    aligns.extend(u32s().into_iter().filter(|a| *a > 80));
    let offs: Vec<u32> = vec![0, 1, 2, 3, 4, 5, 7, 8, 9, 16, 31, 32, 64, 100, 255, 256, 65535, 65536, 0x7FFF_FFFF, 0x8000_0000, u32::MAX];
    space("memory-ops", format!("23 loads/stores x {} alignments x {} offsets x memory absent/defined/imported/defined with table x live/dead x enclosing block", aligns.len(), offs.len()), 2, move |c| {
        let o = c.range(0x28, 0x3E)? as u8;
        let a = *c.of(&aligns)?;
        let mem = c.pick(4)?;
        let off = *c.of(&offs)?;
        let ctx = c.pick(3)?;
        let (t, _, store) = mem_sig(o);
        let mut b = vec![];
        if ctx == 1 { b.push(UNR) }
        if ctx == 2 { b.push(blk(None)) }
        b.push(Ins::I32(0));
        if store { b.push(cst(t)) }
        b.push(Ins::Mem(o, a, off));
        if !store { b.push(set(t)) }
        if ctx == 2 { b.push(E) }
        let mut m = host(None, &b);
        memory(&mut m, mem);
        go(c, k, &m)
    })
}
fn memory(m: &mut M, how: usize) {
    m.mems.clear();
    match how { 0 => m.tables.clear(), 1 => m.mems.push(lim(1, None)), 2 => m.imports.push(imp(ImpD::Mem(lim(0, Some(3))))), _ => { m.mems.push(lim(0, Some(0))); m.tables.clear() } }
}
pub fn mem_admin(k: Kind) -> Space {
    let xs = u32s();
    space("memory-size-grow", "memory.size/grow with every interesting memory index x memory absent/defined/imported x operand situations", 1, move |c| {
        let g = c.flag()?;
        let x = *c.of(&xs)?;
        let mem = c.pick(4)?;
        let pre = c.of(&[vec![], vec![Ins::I32(0)], vec![Ins::I64(0)], vec![UNR]])?.clone();
        let post = c.of(&[vec![], vec![DROP], vec![set(I32)], vec![set(I64)], vec![UNR]])?.clone();
        let mut b = pre.clone();
        b.push(ix(if g { 0x40 } else { 0x3F }, x));
        b.extend(post.iter().cloned());
        let mut m = host(None, &b);
        memory(&mut m, mem);
        go(c, k, &m)
    })
}

// ---------------------------------------------------------------------------------------------
// C05

/// Types that tell entities apart: the signature of the i-th function, the type of the i-th global...
fn sig(i: usize) -> FT { FT::new(&stacks(2)[i % 21], &[]) }

/// Import lists over all kinds plus definitions; one use of one index with the type of one entity.
pub fn index_mix(k: Kind, max_imports: usize) -> Space {
    space("index-mix", format!("import lists of up to {} entries over 6 kinds x up to 2 defined functions/globals, every use site (call, global.get/set, elem, export, start, call_indirect, data) with every index up to one past the end and every expected type", max_imports), 3, move |c| {
        let mut m = M::default();
        // types: 0..6 are []->[t] for the four t, [], [i32]
        m.types = vec![FT::new(&[], &[I32]), FT::new(&[], &[I64]), FT::new(&[], &[F32]), FT::new(&[], &[F64]), FT::new(&[], &[]), FT::new(&[I32], &[])];
        let ni = c.range(0, max_imports)?;
        let (mut nf, mut ng, mut nt, mut nm) = (0usize, 0usize, 0usize, 0usize);
        for _ in 0..ni {
            match c.pick(6)? {
                0 => { m.imports.push(imp(ImpD::Func((nf % 4) as u32))); nf += 1 }
                1 => { m.imports.push(imp(ImpD::Func(4))); nf += 1 }
                2 => { m.imports.push(imp(ImpD::Global(gt(TS[ng % 4], false)))); ng += 1 }
                3 => { m.imports.push(imp(ImpD::Global(gt(TS[ng % 4], true)))); ng += 1 }
                4 => { m.imports.push(imp(ImpD::Table(lim(0, None)))); nt += 1 }
                _ => { m.imports.push(imp(ImpD::Mem(lim(0, None)))); nm += 1 }
            }
        }
        if nt > 1 || nm > 1 { return Ok(()) }
        let df = c.range(0, 2)?;
        for _ in 0..df { m.funcs.push(f((nf % 4) as u32, &[], &[UNR])); nf += 1 }
        let dg = c.range(0, 2)?;
        for j in 0..dg { m.globals.push(Glob { ty: gt(TS[ng % 4], j % 2 == 0), init: vec![cst(TS[ng % 4])] }); ng += 1 }
        match c.pick(12)? {
            0 => { let i = c.pick(nf + 2)?; let t = *c.of(&TS)?; m.funcs.push(f(4, &[t], &[ix(0x10, i as u32), ix(0x21, 0)])) }
            1 => { let i = c.pick(ng + 1)?; let t = *c.of(&TS)?; m.funcs.push(f(4, &[t], &[ix(0x23, i as u32), ix(0x21, 0)])) }
            2 => { let i = c.pick(ng + 1)?; let t = *c.of(&TS)?; m.funcs.push(f(4, &[], &[cst(t), ix(0x24, i as u32)])) }
            3 => { let i = c.pick(nf + 1)?; m.elems.push(Elem { table: 0, offset: vec![Ins::I32(0)], init: vec![i as u32] }) }
            4 => { let i = c.pick(nf + 1)?; m.exports.push(exp("f", 0, i as u32)) }
            5 => { let i = c.pick(ng + 1)?; m.exports.push(exp("g", 3, i as u32)) }
            6 => { let i = c.pick(3)?; m.exports.push(exp("t", 1, i as u32)) }
            7 => { let i = c.pick(3)?; m.exports.push(exp("m", 2, i as u32)) }
            8 => { let i = c.pick(nf + 1)?; m.start = Some(i as u32) }
            9 => { let i = c.pick(3)?; m.datas.push(Data { mem: i as u32, offset: vec![Ins::I32(0)], init: vec![] }) }
            10 => { let i = c.pick(8)?; let x = c.pick(3)?; let d = c.flag()?; if d { m.tables.push(lim(1, None)); if nt > 0 { return Ok(()) } } m.funcs.push(f(4, &[F32], &[Ins::I32(0), Ins::CallInd(i as u32, x as u32), ix(0x21, 0)])) }
            _ => { let i = c.pick(8)?; let how = c.flag()?; if how { m.imports.push(imp(ImpD::Func(i as u32))) } else { m.funcs.push(f(i as u32, &[], &[UNR])) } }
        }
        go(c, k, &m)
    })
}
pub fn locals(k: Kind, max: usize) -> Space {
    space("locals", format!("functions with up to {0} parameters and up to {0} locals of every type, each get/set/tee of every index up to two past the end with every type, locals of earlier functions different", max), 3, move |c| {
        let np = c.range(0, max)?;
        let mut p = vec![];
        for _ in 0..np { p.push(*c.of(&TS)?) }
        let nl = c.range(0, max)?;
        let mut l = vec![];
        for _ in 0..nl { l.push(*c.of(&TS)?) }
        let i = c.pick(np + nl + 2)? as u32;
        let t = *c.of(&TS)?;
        let other = c.flag()?;
        let b = match c.pick(3)? {
            0 => vec![blk(Some(t)), ix(0x20, i), E, DROP],
            1 => vec![cst(t), ix(0x21, i)],
            _ => vec![blk(Some(t)), cst(t), ix(0x22, i), E, DROP],
        };
        let mut m = M { types: vec![FT { p, r: vec![] }, FT::new(&[], &[])], ..M::default() };
        if other { m.funcs.push(f(1, &[F64, F64, I32, I64, F32, F32], &[])) }
        m.funcs.push(f(0, &l, &b));
        go(c, k, &m)
    })
}
/// Big index spaces: n entities of which one is different.
pub fn index_big(k: Kind, upto: usize, max: usize) -> Space {
    let ns: Vec<usize> = sizes(upto, max).into_iter().filter(|n| *n > 0).collect();
    space("index-big", format!("index spaces of n entries (types, imported/defined functions, imported/defined globals, locals, parameters), n in 1..={} and around powers of two up to {}; entry j differs from all others; uses of j-1, j, j+1, n-1, n, n+1, j+256, j+65536, 2^32-1", upto, max), 2, move |c| {
        let n = *c.of(&ns)?;
        let what = c.pick(8)?;
        let js: Vec<usize> = { let mut v: Vec<usize> = [0, 1, n / 2, n.saturating_sub(2), n - 1, 127, 128, 255, 256].into_iter().filter(|j| *j < n).collect(); v.sort(); v.dedup(); v };
        let j = *c.of(&js)?;
        let mut us: Vec<u32> = [j.wrapping_sub(1) as u32, j as u32, j as u32 + 1, n as u32 - 1, n as u32, n as u32 + 1, j as u32 + 256, j as u32 + 65536, u32::MAX, (j as u32) | 0x8000_0000].to_vec();
        us.sort();
        us.dedup();
        let u = *c.of(&us)?;
        let ty = |i: usize| if i == j { I64 } else { I32 };
        let ft = |i: usize| FT::new(&[], &[ty(i)]);
        let mut m = M { types: vec![FT::new(&[], &[]), FT::new(&[], &[I32]), FT::new(&[], &[I64])], ..M::default() };
        let ti = |i: usize| if i == j { 2 } else { 1 };
        let use_ = |i: Ins| vec![i, ix(0x21, 0)];
        match what {
            0 => { m.types = (0..n).map(ft).collect(); m.types.push(FT::new(&[], &[])); m.tables.push(lim(0, None)); m.funcs.push(f(n as u32, &[I64], &[Ins::I32(0), Ins::CallInd(u, 0), ix(0x21, 0)])) }
            1 => { for i in 0..n { m.imports.push(imp(ImpD::Func(ti(i)))) } m.funcs.push(f(0, &[I64], &use_(ix(0x10, u)))) }
            2 => { m.funcs.push(f(0, &[I64], &use_(ix(0x10, u.wrapping_add(1))))); for i in 0..n { m.funcs.push(f(ti(i), &[], &[UNR])) } }
            3 => { for i in 0..n { m.imports.push(imp(ImpD::Global(gt(ty(i), false)))) } m.funcs.push(f(0, &[I64], &use_(ix(0x23, u)))) }
            4 => { for i in 0..n { m.globals.push(Glob { ty: gt(ty(i), true), init: vec![cst(ty(i))] }) } m.funcs.push(f(0, &[], &[Ins::I64(0), ix(0x24, u)])) }
            5 => { m.funcs.push(f(0, &(0..n).map(ty).collect::<Vec<_>>(), &[Ins::I64(0), ix(0x21, u)])) }
            6 => { m.types[0].p = (0..n).map(ty).collect(); m.funcs.push(f(0, &[I32, I32], &[Ins::I64(0), ix(0x22, u), DROP])) }
            _ => { for i in 0..n { if i % 2 == 0 { m.imports.push(imp(ImpD::Func(ti(i)))) } } for i in 0..n { if i % 2 == 1 { m.funcs.push(f(ti(i), &[], &[UNR])) } } m.exports.push(exp("x", 0, u)); m.tables.push(lim(0, None)); m.elems.push(Elem { table: 0, offset: vec![Ins::I32(0)], init: vec![0, u] }) }
        }
        go(c, k, &m)
    })
}

/// Every interesting 32-bit value at every index position.
pub fn index_values(k: Kind) -> Space {
    let xs = u32s();
    space("index-values", format!("each of {} index values at each of 19 index positions of an otherwise valid module", xs.len()), 1, move |c| {
        let x = *c.of(&xs)?;
        let mut m = host(None, &[]);
        let b = match c.pick(19)? {
            0 => vec![ix(0x0C, x)],
            1 => vec![Ins::I32(0), ix(0x0D, x)],
            2 => vec![Ins::I32(0), Ins::BrTable(vec![x], 0)],
            3 => vec![Ins::I32(0), Ins::BrTable(vec![0], x)],
            4 => vec![UNR, ix(0x10, x)],
            5 => vec![UNR, Ins::CallInd(x, 0), UNR],
            6 => vec![Ins::I32(0), Ins::CallInd(1, x)],
            7 => vec![UNR, ix(0x20, x), UNR],
            8 => vec![UNR, ix(0x21, x)],
            9 => vec![UNR, ix(0x22, x), UNR],
            10 => vec![ix(0x23, x), DROP],
            11 => vec![UNR, ix(0x24, x)],
            12 => { m.elems.push(Elem { table: x, offset: vec![Ins::I32(0)], init: vec![] }); vec![] }
            13 => { m.elems.push(Elem { table: 0, offset: vec![Ins::I32(0)], init: vec![0, x, 0] }); vec![] }
            14 => { m.datas.push(Data { mem: x, offset: vec![Ins::I32(0)], init: vec![] }); vec![] }
            15 => { let kd = c.pick(4)? as u8; m.exports.push(exp("e", kd, x)); vec![] }
            16 => { m.start = Some(x); vec![] }
            17 => { m.imports.push(imp(ImpD::Func(x))); vec![] }
            _ => { m.funcs.push(f(x, &[], &[UNR])); vec![] }
        };
        m.funcs[0].body = b;
        go(c, k, &m)
    })
}

// ---------------------------------------------------------------------------------------------
// C06

fn const_module(site: usize, e: Vec<Ins>) -> M {
    let mut m = M {
        types: vec![FT::new(&[], &[]), FT::new(&[], &[I32])],
        imports: vec![imp(ImpD::Global(gt(I32, false))), imp(ImpD::Func(1)), imp(ImpD::Global(gt(I64, false))), imp(ImpD::Global(gt(I32, true))), imp(ImpD::Global(gt(F32, false))), imp(ImpD::Global(gt(F64, false)))],
        tables: vec![lim(1, None)],
        mems: vec![lim(1, None)],
        globals: vec![Glob { ty: gt(I32, false), init: vec![Ins::I32(0)] }, Glob { ty: gt(I64, false), init: vec![Ins::I64(0)] }, Glob { ty: gt(I32, true), init: vec![Ins::I32(0)] }],
        ..M::default()
    };
    match site {
        0..=7 => m.globals.push(Glob { ty: gt(TS[site % 4], site >= 4), init: e }),
        8 => m.elems.push(Elem { table: 0, offset: e, init: vec![] }),
        9 => m.datas.push(Data { mem: 0, offset: e, init: vec![] }),
        10 => { m.elems.push(Elem { table: 0, offset: vec![Ins::I32(1)], init: vec![0] }); m.elems.push(Elem { table: 0, offset: e, init: vec![0] }) }
        11 => m.datas.push(Data { mem: 0, offset: e, init: vec![1, 2, 3] }),
        12 => { m.datas.push(Data { mem: 0, offset: vec![Ins::I32(1)], init: vec![0] }); m.datas.push(Data { mem: 0, offset: e, init: vec![0] }) }
        13 => { m.elems.push(Elem { table: 0, offset: e, init: vec![0, 0] }); m.elems.push(Elem { table: 0, offset: vec![Ins::I32(1)], init: vec![] }) }
        // before other globals, so that a global may name a later one
        _ => m.globals.insert(0, Glob { ty: gt(I32, false), init: e }),
    }
    m
}
pub const CONST_SITES: usize = 15;
pub fn const_seqs(k: Kind, len: usize) -> Space {
    let mut alpha: Vec<Ins> = TS.iter().map(|t| cst(*t)).collect();
    for g in 0..10 { alpha.push(ix(0x23, g)) }
    alpha.extend([op(1), UNR, DROP, op(0x6A), op(0x45), op(0x0F), ix(0x10, 0), ix(0x0C, 0), ix(0x20, 0), ix(0x24, 2), ix(0x3F, 0), Ins::Mem(0x28, 0, 0)]);
    space("const-seqs", format!("every sequence of up to {} of {} tokens as initialiser of a global of each type and mutability, as element and data offset", len, alpha.len()), 2, move |c| {
        let site = c.pick(CONST_SITES)?;
        let n = c.range(0, len)?;
        let mut e = vec![];
        for _ in 0..n { e.push(c.of(&alpha)?.clone()) }
        go(c, k, &const_module(site, e))
    })
}
pub fn const_ops(k: Kind) -> Space {
    let mut ops = all_leaf_ops();
    for t in NONE_OR_T { ops.push(blk(t)); ops.push(lop(t)); ops.push(iff(t)) }
    ops.extend([Ins::BrTable(vec![], 0), Ins::BrTable(vec![0], 0)]);
    for x in [6, 7, 8, 9, 100, u32::MAX] { ops.push(ix(0x23, x)) }
    let pre: Vec<Vec<Ins>> = stacks(2).into_iter().map(|s| s.into_iter().map(cst).collect()).collect();
    space("const-ops", format!("every instruction (structured ones around a constant) after every stack of up to 2 constants, alone or followed by a constant or drop, in every initialiser position ({} positions)", CONST_SITES), 2, move |c| {
        let o = c.of(&ops)?;
        let p = c.of(&pre)?;
        let site = c.pick(CONST_SITES)?;
        let post = c.pick(3)?;
        let mut e = p.clone();
        e.push(o.clone());
        if let Ins::Blk(kd, t) = o { if let Some(t) = t { e.push(cst(*t)); if *kd == 4 { e.push(L); e.push(cst(*t)) } } e.push(E) }
        match post { 0 => {} 1 => e.push(Ins::I32(0)), _ => e.push(DROP) }
        go(c, k, &const_module(site, e))
    })
}
/// n imported and n defined globals; initialisers and offsets that name each of them.
pub fn const_globals(k: Kind, upto: usize, max: usize) -> Space {
    let ns = sizes(upto, max);
    space("const-globals", format!("n imported and d defined globals (n in 0..={} and around powers of two up to {}, d in 0..3), one import of another type or mutable; a global initialiser, element and data offset naming every interesting index", upto, max), 2, move |c| {
        let n = *c.of(&ns)?;
        let d = c.range(0, 3)?;
        let odd = c.pick(3)?;
        let js: Vec<usize> = { let mut v: Vec<usize> = [0, 1, n / 2, n.saturating_sub(1)].into_iter().filter(|j| *j < n).collect(); v.dedup(); if v.is_empty() { v.push(usize::MAX) } v };
        let j = *c.of(&js)?;
        let mut us: Vec<u32> = [0, j.wrapping_sub(1) as u32, j as u32, (j as u32).wrapping_add(1), n as u32, n as u32 + 1, n as u32 + 2, n as u32 + 3, n as u32 + 256, u32::MAX].to_vec();
        us.sort();
        us.dedup();
        let u = *c.of(&us)?;
        let site = c.pick(3)?;
        let mut m = M { tables: vec![lim(0, None)], mems: vec![lim(0, None)], ..M::default() };
        for i in 0..n { m.imports.push(imp(ImpD::Global(if i == j { match odd { 0 => gt(I32, false), 1 => gt(I32, true), _ => gt(I64, false) } } else { gt(I32, false) }))) }
        for _ in 0..d { m.globals.push(Glob { ty: gt(I32, false), init: vec![Ins::I32(0)] }) }
        let e = vec![ix(0x23, u)];
        match site { 0 => m.globals.push(Glob { ty: gt(I32, true), init: e }), 1 => m.elems.push(Elem { table: 0, offset: e, init: vec![] }), _ => m.datas.push(Data { mem: 0, offset: e, init: vec![] }) }
        go(c, k, &m)
    })
}
/// Long initialisers.
pub fn const_long(k: Kind, upto: usize, max: usize) -> Space {
    let ns = sizes(upto, max);
    space("const-long", format!("initialisers and offsets of n constants, and n globals/segments of which one is wrong, n in 0..={} and around powers of two up to {}", upto, max), 1, move |c| {
        let n = *c.of(&ns)?;
        let shape = c.pick(4)?;
        let m = match shape {
            0 => { let site = c.pick(CONST_SITES)?; const_module(site, vec![Ins::I32(0); n]) }
            s => {
                let js: Vec<usize> = { let mut v: Vec<usize> = [0, 1, n / 2, n.saturating_sub(1), usize::MAX].into_iter().filter(|j| *j < n || *j == usize::MAX).collect(); v.dedup(); v };
                let j = *c.of(&js)?;
                let bad = c.of(&[vec![], vec![Ins::I64(0)], vec![Ins::I32(0), Ins::I32(0)], vec![Ins::I32(0), op(1)]])?.clone();
                let mut m = M { tables: vec![lim(0, None)], mems: vec![lim(0, None)], ..M::default() };
                for i in 0..n {
                    let e = if i == j { bad.clone() } else { vec![Ins::I32(i as i32)] };
                    match s { 1 => m.globals.push(Glob { ty: gt(I32, false), init: e }), 2 => m.elems.push(Elem { table: 0, offset: e, init: vec![] }), _ => m.datas.push(Data { mem: 0, offset: e, init: vec![] }) }
                }
                m
            }
        };
        go(c, k, &m)
    })
}

// ---------------------------------------------------------------------------------------------
// C07

pub fn limits(k: Kind) -> Space {
    let mut vs: Vec<u32> = (0..=20).collect();
    for b in [1u64 << 8, 1 << 10, 1 << 15, 1 << 16, 1 << 17, 1 << 24, 1 << 31] { for d in -4i64..=4 { vs.push((b as i64 + d) as u32) } }
    vs.extend((0..4).map(|d| u32::MAX - d));
    vs.extend([0xFFFF_0000, 0xFFFF_FFFF, 0x1_0000 * 2, 0x1_0000 * 3 + 1]);
    vs.sort();
    vs.dedup();
    space("limits", format!("every pair of minimum and (optional) maximum from {} values, for imported and defined tables and memories", vs.len()), 2, move |c| {
        let min = *c.of(&vs)?;
        let mx = c.pick(vs.len() + 1)?;
        let l = lim(min, if mx == 0 { None } else { Some(vs[mx - 1]) });
        let mut m = M::default();
        match c.pick(4)? { 0 => m.tables.push(l), 1 => m.mems.push(l), 2 => m.imports.push(imp(ImpD::Table(l))), _ => m.imports.push(imp(ImpD::Mem(l))) }
        go(c, k, &m)
    })
}
/// How many tables and memories, where, and with which limits.
pub fn counts(k: Kind) -> Space {
    space("table-memory-counts", "0..3 imported and 0..3 defined tables, likewise memories, imports in every order of kinds with a function import in between, optional uses (elem, data, exports of index 0 and 1), one entry with bad limits or none", 3, move |c| {
        let (it, dt, im, dm) = (c.range(0, 3)?, c.range(0, 3)?, c.range(0, 2)?, c.range(0, 3)?);
        let order = c.pick(3)?;
        let uses = c.pick(4)?;
        let bad = c.pick(4)?;
        let mut m = M { types: vec![FT::new(&[], &[])], ..M::default() };
        let t = imp(ImpD::Table(if bad == 1 { lim(3, Some(2)) } else { lim(1, Some(2)) }));
        let me = imp(ImpD::Mem(if bad == 2 { lim(65537, None) } else { lim(1, Some(2)) }));
        let fi = imp(ImpD::Func(0));
        match order {
            0 => { for _ in 0..it { m.imports.push(t.clone()) } for _ in 0..im { m.imports.push(me.clone()) } }
            1 => { for _ in 0..im { m.imports.push(me.clone()) } m.imports.push(fi); for _ in 0..it { m.imports.push(t.clone()) } }
            _ => { for i in 0..it.max(im) { if i < it { m.imports.push(t.clone()) } m.imports.push(fi.clone()); if i < im { m.imports.push(me.clone()) } } }
        }
        m.tables = vec![lim(0, None); dt];
        m.mems = vec![if bad == 3 { lim(0, Some(65537)) } else { lim(0, None) }; dm];
        match uses {
            0 => {}
            1 => { m.exports.push(exp("t", 1, 0)); m.exports.push(exp("m", 2, 0)) }
            2 => { m.elems.push(Elem { table: 0, offset: vec![Ins::I32(0)], init: vec![] }); m.datas.push(Data { mem: 0, offset: vec![Ins::I32(0)], init: vec![] }) }
            _ => { m.exports.push(exp("t", 1, 1)); m.exports.push(exp("m", 2, 1)) }
        }
        go(c, k, &m)
    })
}
pub fn many_tables(k: Kind, upto: usize, max: usize) -> Space {
    let ns = sizes(upto, max);
    space("many-tables", format!("n tables or memories, imported, defined or half and half, n in 0..={} and around powers of two up to {}", upto, max), 1, move |c| {
        let n = *c.of(&ns)?;
        let mem = c.flag()?;
        let how = c.pick(3)?;
        let mut m = M::default();
        for i in 0..n {
            let imported = match how { 0 => true, 1 => false, _ => i % 2 == 0 };
            match (mem, imported) {
                (false, true) => m.imports.push(imp(ImpD::Table(lim(0, None)))), (true, true) => m.imports.push(imp(ImpD::Mem(lim(0, None)))),
                (false, false) => m.tables.push(lim(0, None)), (true, false) => m.mems.push(lim(0, None)),
            }
        }
        go(c, k, &m)
    })
}
/// Function types: number of parameters and results, position, used or not.
pub fn types(k: Kind) -> Space {
    space("function-types", "function types with up to 3 parameters and up to 4 results of all types, at each position of a list of up to 4 types, unused or used by import, definition, call_indirect", 2, move |c| {
        let np = c.range(0, 2)?;
        let mut p = vec![];
        for _ in 0..np { p.push(*c.of(&TS)?) }
        let nr = c.range(0, 3)?;
        let mut r = vec![];
        for _ in 0..nr { r.push(*c.of(&TS)?) }
        let n = c.range(1, 4)?;
        let pos = c.pick(n)?;
        let used = c.pick(4)?;
        let mut m = M::default();
        for i in 0..n { m.types.push(if i == pos { FT { p: p.clone(), r: r.clone() } } else { FT::new(&[], &[]) }) }
        match used {
            0 => {}
            1 => m.imports.push(imp(ImpD::Func(pos as u32))),
            2 => m.funcs.push(f(pos as u32, &[], &[UNR])),
            _ => { m.types.push(FT::new(&[], &[])); m.tables.push(lim(0, None)); m.funcs.push(f(n as u32, &[], &[UNR, Ins::CallInd(pos as u32, 0), UNR])) }
        }
        go(c, k, &m)
    })
}
pub fn types_big(k: Kind, upto: usize, max: usize) -> Space {
    let ns = sizes(upto, max);
    space("function-types-big", format!("types with n parameters and 0..3 results, with n results and 0..2 parameters, and n types of which one has two results; n in 0..={} and around powers of two up to {}", upto, max), 1, move |c| {
        let n = *c.of(&ns)?;
        let shape = c.pick(4)?;
        let mut m = M::default();
        match shape {
            0 => { let r = c.range(0, 3)?; m.types.push(FT { p: (0..n).map(|i| TS[i % 4]).collect(), r: vec![F32; r] }) }
            1 => { let q = c.range(0, 2)?; m.types.push(FT { p: vec![I64; q], r: (0..n).map(|i| TS[i % 4]).collect() }) }
            _ => {
                let js: Vec<usize> = [0, n / 2, n.saturating_sub(1)].into_iter().filter(|j| *j < n).collect();
                let j = *c.of(&js)?;
                m.types = (0..n).map(|i| if i == j && shape == 2 { FT::new(&[], &[I32, I32]) } else { FT::new(&[I32], &[I32]) }).collect()
            }
        }
        go(c, k, &m)
    })
}
pub fn starts(k: Kind) -> Space {
    let ps = stacks(2);
    space("start", "start functions of every signature with up to 2 parameters and up to one result (and two), imported or defined, at each of 3 positions, and every index up to one past the end", 2, move |c| {
        let p = c.of(&ps)?;
        let r = c.of(&[vec![], vec![I32], vec![I64], vec![F32], vec![F64], vec![I32, I32]])?.clone();
        let ni = c.range(0, 2)?;
        let nd = c.range(0, 2)?;
        if ni + nd == 0 { return Ok(()) }
        let pos = c.pick(ni + nd)?;
        let s = c.pick(ni + nd + 2)?;
        let mut m = M { types: vec![FT::new(&[], &[]), FT { p: p.clone(), r: r.clone() }], ..M::default() };
        for i in 0..ni + nd { let t = (i == pos) as u32; if i < ni { m.imports.push(imp(ImpD::Func(t))) } else { m.funcs.push(f(t, &[], &[UNR])) } }
        if s > 0 { m.start = Some(s as u32 - 1) }
        go(c, k, &m)
    })
}

// ---------------------------------------------------------------------------------------------
// C08

fn export_module(names: &[String], kinds: usize) -> M {
    let mut m = M { types: vec![FT::new(&[], &[])], funcs: vec![f(0, &[], &[])], tables: vec![lim(0, None)], mems: vec![lim(0, None)], globals: vec![Glob { ty: gt(I32, false), init: vec![Ins::I32(0)] }], ..M::default() };
    for (i, n) in names.iter().enumerate() { m.exports.push(exp(n, match kinds { 0 => 0, 1 => (i % 4) as u8, _ => 3 - (i % 4) as u8 }, 0)) }
    m
}
pub fn export_names(k: Kind, len: usize) -> Space {
    let menu: Vec<String> = ["", "a", "b", "aa", "A", "a\0", "é", "e\u{301}", " a", "a "].iter().map(|s| s.to_string()).collect();
    space("export-names", format!("every list of up to {} export names from a menu of {} (empty, prefix, case, NUL, composed/decomposed, blanks), 3 assignments of kinds", len, menu.len()), 2, move |c| {
        let n = c.range(0, len)?;
        let mut v = vec![];
        for _ in 0..n { v.push(c.of(&menu)?.clone()) }
        let kd = c.pick(3)?;
        go(c, k, &export_module(&v, kd))
    })
}
pub fn export_chars(k: Kind, hi: u32) -> Space {
    let cs: Vec<char> = (0..hi).chain([0x130, 0x131, 0x17F, 0x1E9E, 0x212A, 0x2126, 0xFB01, 0xFEFF, 0xFFFD, 0x200B, 0x1F600, 0x10FFFF]).filter_map(char::from_u32).collect();
    space("export-chars", format!("every pair of one-character names over {} characters (and after a common prefix)", cs.len()), 1, move |c| {
        let i = c.pick(cs.len())?;
        let j = c.pick(i + 1)?;
        let pre = *c.of(&["", "x"])?;
        go(c, k, &export_module(&[format!("{}{}", pre, cs[i]), format!("{}{}", pre, cs[j])], 0))
    })
}
pub fn export_lists(k: Kind, upto: usize, max: usize) -> Space {
    let ns: Vec<usize> = sizes(upto, max).into_iter().filter(|n| *n > 0).collect();
    space("export-lists", format!("n exports (n in 1..={} and around powers of two up to {}) in 4 name orders, all names different or one pair (every pair for n<=24) the same", upto, max), 2, move |c| {
        let n = *c.of(&ns)?;
        let order = c.pick(4)?;
        let mut names: Vec<String> = (0..n).map(|i| match order { 0 => format!("n{:06}", i), 1 => format!("n{:06}", n - i), 2 => format!("n{}", i), _ => format!("n{:06}", (i * 7919) % 1_000_003) }).collect();
        let ps: Vec<usize> = if n <= 24 { (0..n).collect() } else { let mut v = vec![0, 1, n / 3, n / 2, n - 2, n - 1]; v.dedup(); v };
        let i = c.pick(ps.len() + 1)?;
        if i < ps.len() {
            let j = c.pick(ps.len())?;
            if ps[j] <= ps[i] { return Ok(()) }
            names[ps[j]] = names[ps[i]].clone();
        }
        let kd = c.pick(3)?;
        go(c, k, &export_module(&names, kd))
    })
}
pub fn export_long_names(k: Kind, upto: usize, max: usize) -> Space {
    let ns: Vec<usize> = sizes(upto, max).into_iter().filter(|n| *n > 0).collect();
    space("export-long-names", format!("two names of n bytes (n in 1..={} and around powers of two up to {}), equal or differing only at the first, middle, last or an interesting position, or by one more byte", upto, max), 1, move |c| {
        let n = *c.of(&ns)?;
        let mut ps: Vec<usize> = [0, 1, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256, n / 2, n.saturating_sub(2), n - 1].into_iter().filter(|p| *p < n).collect();
        ps.sort();
        ps.dedup();
        let a = "x".repeat(n);
        let mut b = a.clone();
        let d = c.pick(ps.len() + 2)?;
        match d { 0 => {} 1 => b.push('x'), _ => b.replace_range(ps[d - 2]..ps[d - 2] + 1, "y") }
        let swap = c.flag()?;
        let v = if swap { [b, "q".into(), a] } else { [a, "q".into(), b] };
        go(c, k, &export_module(&v, 0))
    })
}

// ---------------------------------------------------------------------------------------------
// C09

pub fn externs(k: Kind, ni_max: usize, ne_max: usize) -> Space {
    let imps = vec![
        ImpD::Func(0), ImpD::Func(1), ImpD::Func(2), ImpD::Table(lim(1, None)), ImpD::Table(lim(0, Some(9))), ImpD::Mem(lim(2, None)), ImpD::Mem(lim(0, Some(65536))),
        ImpD::Global(gt(I32, false)), ImpD::Global(gt(I32, true)), ImpD::Global(gt(I64, false)), ImpD::Global(gt(F64, true)),
    ];
    space("externs", format!("every import list of up to {} entries over {} descriptions, with up to one defined entity of each kind, and every export list of up to {} over all entities", ni_max, imps.len(), ne_max), 3, move |c| {
        let mut m = M { types: vec![FT::new(&[], &[]), FT::new(&[I32], &[F32]), FT::new(&[I64, I32], &[F32])], ..M::default() };
        let mut cnt = [0usize; 4];
        let ni = c.range(0, ni_max)?;
        for _ in 0..ni {
            let d = c.of(&imps)?.clone();
            cnt[match d { ImpD::Func(_) => 0, ImpD::Table(_) => 1, ImpD::Mem(_) => 2, ImpD::Global(_) => 3 }] += 1;
            m.imports.push(imp(d));
        }
        if cnt[1] > 1 || cnt[2] > 1 { return Ok(()) }
        if c.flag()? {
            m.funcs.push(f(2, &[], &[UNR]));
            m.funcs.push(f(1, &[], &[UNR]));
            m.globals.push(Glob { ty: gt(F32, true), init: vec![cst(F32)] });
            m.globals.push(Glob { ty: gt(F64, false), init: vec![cst(F64)] });
            cnt[0] += 2;
            cnt[3] += 2;
            if cnt[1] == 0 { m.tables.push(lim(5, Some(6))); cnt[1] += 1 }
            if cnt[2] == 0 { m.mems.push(lim(3, Some(4))); cnt[2] += 1 }
        }
        let ents: Vec<(u8, u32)> = (0..4u8).flat_map(|kd| (0..cnt[kd as usize] as u32).map(move |i| (kd, i))).collect();
        let ne = c.range(0, ne_max)?;
        for i in 0..ne { let (kd, x) = *c.of(&ents)?; m.exports.push(exp(["c", "a", "b", "d"][i], kd, x)) }
        go(c, k, &m)
    })
}
pub fn externs_big(k: Kind, upto: usize, max: usize) -> Space {
    let ns = sizes(upto, max);
    space("externs-big", format!("n imports and n exports in orders and kinds that differ entry by entry, n in 0..={} and around powers of two up to {}", upto, max), 1, move |c| {
        let n = *c.of(&ns)?;
        let order = c.pick(3)?;
        let mut m = M { types: (0..21).map(sig).collect(), tables: vec![lim(1, Some(2))], mems: vec![lim(3, None)], ..M::default() };
        let (mut nf, mut ng) = (0, 0);
        for i in 0..n {
            if i % 3 == 1 { m.imports.push(Imp { module: "m".into(), name: format!("g{}", i), desc: ImpD::Global(gt(TS[(i / 3) % 4], i % 2 == 0)) }); ng += 1 }
            else { m.imports.push(Imp { module: format!("m{}", i), name: "f".into(), desc: ImpD::Func((i % 21) as u32) }); nf += 1 }
        }
        for i in 0..n {
            let j = match order { 0 => i, 1 => n - 1 - i, _ => (i * 7) % n };
            let name = format!("e{}", i);
            if j % 5 == 4 { m.exports.push(exp(&name, if i % 2 == 0 { 1 } else { 2 }, 0)) }
            else if j % 2 == 0 && ng > 0 { m.exports.push(exp(&name, 3, (j % ng) as u32)) }
            else if nf > 0 { m.exports.push(exp(&name, 0, (j % nf) as u32)) }
        }
        go(c, k, &m)
    })
}

// ---------------------------------------------------------------------------------------------
// C25

pub fn body_menu() -> Vec<(u32, Vec<T>, Vec<Ins>)> {
    // types: 0 []->[], 1 []->[i32], 2 [i64]->[]
    vec![
        (0, vec![], vec![]),
        (0, vec![I32], vec![ix(0x20, 0), DROP]),
        (0, vec![], vec![ix(0x20, 0), DROP]),
        (0, vec![], vec![Ins::I32(0)]),
        (0, vec![], vec![DROP]),
        (0, vec![], vec![UNR, DROP]),
        (0, vec![], vec![blk(None), ix(0x0C, 1), E]),
        (0, vec![], vec![blk(Some(I32)), E, DROP]),
        (1, vec![], vec![Ins::I32(1)]),
        (1, vec![], vec![]),
        (1, vec![F32], vec![Ins::I32(0), op(0x0F), op(0x6A)]),
        (1, vec![], vec![Ins::I64(1)]),
        (2, vec![], vec![ix(0x20, 0), DROP]),
        (2, vec![I32], vec![ix(0x20, 1), ix(0x21, 0)]),
        (2, vec![I32], vec![ix(0x20, 0), ix(0x21, 0), op(0x0F)]),
        (2, vec![], vec![lop(None), ix(0x0C, 0), E, Ins::F32(0), DROP]),
        (0, vec![], vec![ix(0x0C, 1)]),
        (0, vec![], vec![Ins::I32(0), iff(Some(I32)), Ins::I32(0), E, DROP]),
        (0, vec![I32; 6], vec![ix(0x20, 5), DROP]),
        (0, vec![], vec![ix(0x20, 5), DROP]),
        (0, vec![], vec![Ins::I32(0), Ins::I32(0), Ins::I32(0), UNR]),
    ]
}
fn bodies_module(v: &[(u32, Vec<T>, Vec<Ins>)]) -> M {
    M { types: vec![FT::new(&[], &[]), FT::new(&[], &[I32]), FT::new(&[I64], &[])], funcs: v.iter().map(|(t, l, b)| f(*t, l, b)).collect(), ..M::default() }
}
pub fn body_lists(k: Kind, len: usize) -> Space {
    let menu = body_menu();
    space("body-lists", format!("every list of up to {} functions from a menu of {} valid and invalid bodies", len, menu.len()), 2, move |c| {
        let n = c.range(0, len)?;
        let mut v = vec![];
        for _ in 0..n { v.push(c.of(&menu)?.clone()) }
        go(c, k, &bodies_module(&v))
    })
}
/// What one function has of parameters, locals, operands, frames and what the next one reaches for.
pub fn body_leaks(k: Kind, upto: usize, max: usize) -> Space {
    let ns = sizes(upto, max);
    space("body-leaks", format!("a first function with n parameters, locals, locals in the second half only, operands left by a dead end, open frames or branches out (n in 0..={} and around powers of two up to {}), 0..2 trivial functions, then one that reads local 0, n/2, n-1, n, drops, branches to label 0, 1, n or returns a value", upto, max), 2, move |c| {
        let n = *c.of(&ns)?;
        let what = c.pick(7)?;
        let between = c.range(0, 2)?;
        let first = c.flag()?;
        let probe = c.pick(12)?;
        let mut m = M { types: vec![FT::new(&[], &[]), FT { p: vec![I32; n], r: vec![] }, FT::new(&[], &[I32]), FT { p: vec![F64], r: vec![I64] }], ..M::default() };
        let a = match what {
            0 => f(1, &[], &[]),
            1 => f(0, &vec![I32; n], &[]),
            2 => f(1, &vec![I32; n / 2], &[]),
            3 => f(0, &[], &{ let mut b = vec![Ins::I32(0); n]; b.push(UNR); b }),
            4 => f(0, &[], &{ let mut b = vec![Ins::I32(0); n]; b.push(op(0x0F)); b.extend(vec![Ins::I64(0); n]); b.push(UNR); b }),
            5 => f(2, &[], &{ let mut b = vec![]; for _ in 0..n.min(300) { b.push(blk(None)) } b.push(Ins::I32(0)); b.push(ix(0x0C, n.min(300) as u32)); for _ in 0..n.min(300) { b.push(E); b.push(UNR) } b }),
            _ => f(3, &vec![I64; n], &[UNR]),
        };
        let i = n as u32;
        let b = match probe {
            0 => f(0, &[], &[ix(0x20, 0), DROP]), 1 => f(0, &[I64], &[ix(0x20, (i / 2).max(1)), DROP]), 2 => f(0, &[], &[ix(0x20, i.saturating_sub(1)), DROP]), 3 => f(0, &[F32], &[ix(0x20, i.max(1)), DROP]),
            4 => f(0, &[], &[DROP]), 5 => f(0, &[], &[ix(0x0C, 0)]), 6 => f(0, &[], &[ix(0x0C, 1)]), 7 => f(0, &[], &[ix(0x0C, i.max(1))]),
            8 => f(2, &[], &[ix(0x0C, 0)]), 9 => f(0, &[], &[op(0x0F), DROP]), 10 => f(2, &[], &[op(0x0F)]), _ => f(0, &[], &[op(0x6A), DROP]),
        };
        let mid = vec![f(0, &[], &[]); between];
        m.funcs = if first { [vec![a], mid, vec![b]].concat() } else { [vec![b], mid, vec![a]].concat() };
        go(c, k, &m)
    })
}
pub fn body_many(k: Kind, upto: usize, max: usize) -> Space {
    let menu = body_menu();
    let ns: Vec<usize> = sizes(upto, max).into_iter().filter(|n| *n > 0).collect();
    let valid = [0usize, 1, 5, 8, 10, 14, 15];
    space("body-many", format!("n functions (n in 1..={} and around powers of two up to {}), all but one the same valid body (7 kinds) and one from the menu of {} at an interesting position", upto, max, menu.len()), 1, move |c| {
        let n = *c.of(&ns)?;
        let base = *c.of(&valid)?;
        let odd = c.pick(menu.len())?;
        let ps: Vec<usize> = if n <= 8 { (0..n).collect() } else { let mut v = vec![0, 1, n / 2, n - 2, n - 1]; v.dedup(); v };
        let p = *c.of(&ps)?;
        let v: Vec<_> = (0..n).map(|i| menu[if i == p { odd } else { base }].clone()).collect();
        go(c, k, &bodies_module(&v))
    })
}
