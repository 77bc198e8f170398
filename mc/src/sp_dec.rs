//! Spaces about decoding.

use crate::bases;
use crate::cases::{Kind, SOURCES};
use crate::cli;
use crate::engine::{space, Space};
use crate::menu::menu;
use crate::model::*;
use crate::prims::{prim, PRIMS};
use crate::refdec::{self, Cur, E};
use crate::sp_val::{sizes, u32s};
use T::*;

pub fn leb_u(v: u64) -> Vec<u8> { let mut o = vec![]; crate::model::leb_u(&mut o, v, 0); o }
fn leb_s(v: i64) -> Vec<u8> { let mut o = vec![]; crate::model::leb_s(&mut o, v, 0); o }

pub fn all_bytes() -> Vec<u8> { (0..=255).collect() }

fn more_input_matters(e: &E) -> bool {
    matches!(e, E::Eof | E::Overrun | E::EofOrU | E::EofOrS | E::EofOrUtf8 | E::EofOrMagic | E::EofOrVersion)
}

/// Every byte string over `alpha` up to `depth` for every listed element, extended only while the
/// reference decoder still wants input; complete elements also with one byte following.
pub fn bytes_tree(k: Kind, name: &'static str, prims: Vec<&'static str>, alpha: Vec<u8>, depth: usize, prefix: Vec<u8>) -> Space {
    let about = format!("every byte string of up to {} bytes over {} byte values (after prefix {:02x?}) for {:?}, extended while the reference decoder wants more input, complete ones also with a byte following", depth, alpha.len(), prefix, prims);
    let ids: Vec<u8> = prims.iter().map(|n| prim(n)).collect();
    space(name, about, 3, move |c| {
        let id = *c.of(&ids)?;
        let mut p = vec![id];
        p.extend(&prefix);
        for d in 0.. {
            let want = (PRIMS[id as usize].rf)(&mut Cur::new(&p[1..]));
            match want {
                Err(e) if more_input_matters(&e) => {
                    let ch = if d < depth { c.pick(1 + alpha.len())? } else { 0 };
                    if ch == 0 { return c.run(k, &p) }
                    p.push(alpha[ch - 1]);
                }
                _ => {
                    c.run(k, &p)?;
                    p.push(0x0B);
                    return c.run(k, &p);
                }
            }
        }
        Ok(())
    }).injective()
}

// ---------------------------------------------------------------------------------------------
// C17

const INTS: [(&str, u32, bool); 8] = [("u8", 8, false), ("u16", 16, false), ("u32", 32, false), ("u64", 64, false), ("i8", 8, true), ("i16", 16, true), ("i32", 32, true), ("i64", 64, true)];

pub fn leb_long(k: Kind, around: usize, two: bool) -> Space {
    let ends: Vec<u8> = (0..=0x10).chain([0x1F, 0x20, 0x38, 0x3C]).chain(0x3E..=0x42).chain([0x60, 0x70, 0x78, 0x7C]).chain(0x7D..=0x83).chain([0x8F, 0xC0, 0xF0, 0xFE, 0xFF]).collect();
    space("leb-long", format!("encodings of up to {} bytes more or fewer than the longest allowed, all bytes 0x80 or all 0xFF except for the last byte and {} (any value)", around, if two { "two others" } else { "one other" }), 4, move |c| {
        let (n, bits, _) = *c.of(&INTS)?;
        let max = (bits as usize + 6) / 7;
        let len = c.range(max.saturating_sub(around).max(1), max + around)?;
        let base = *c.of(&[0x80u8, 0xFF])?;
        let mut p = vec![prim(n)];
        p.extend(vec![base; len]);
        let i = c.pick(len)?;
        let a = c.pick(256)? as u8;
        p[1 + i] = a;
        if two && i > 0 { let j = c.pick(i)?; let v = *c.of(&[0u8, 1, 0x3F, 0x40, 0x7F, 0x80, 0x81, 0xBF, 0xC0, 0xFE, 0xFF])?; p[1 + j] = v }
        if i != len - 1 { p[len] = if two { *c.of(&ends)? } else { c.pick(256)? as u8 } }
        c.run(k, &p)
    })
}
/// Values around every power of two, in canonical and padded form, as bare integers.
pub fn leb_values(k: Kind) -> Space {
    space("leb-values", "values within 70 of every power of two and its negation, for every width, canonical and with 0..=10 bytes of padding (sign-extending or zero), followed by a byte", 2, move |c| {
        let (n, bits, sg) = *c.of(&INTS)?;
        let pow = c.pick(bits as usize + 1)?;
        let d = c.range(0, 140)? as i128 - 70;
        let neg = if sg { c.flag()? } else { false };
        let mut v = (1i128 << pow) + d;
        if neg { v = -v }
        let pad = c.pick(11)?;
        let fill = c.flag()?;
        let mut b = vec![];
        let mut x = v;
        loop {
            let low = (x & 0x7F) as u8;
            x >>= 7;
            let done = if sg { (x == 0 && low & 0x40 == 0) || (x == -1 && low & 0x40 != 0) } else { x == 0 || x == -1 };
            if done { b.push(low); break }
            b.push(low | 0x80);
        }
        if pad > 0 {
            let f = if fill { 0x7F } else { 0 };
            *b.last_mut().unwrap() |= 0x80;
            for j in 0..pad { b.push(if j + 1 < pad { f | 0x80 } else { f }) }
        }
        let mut p = vec![prim(n)];
        p.extend(b);
        p.push(0xA5);
        c.run(k, &p)
    })
}
/// Every value of a 16- or 32-bit range in canonical form.
pub fn leb_all(k: Kind, name: &'static str, elem: &'static str, hi: u64) -> Space {
    let id = prim(elem);
    let signed = elem.starts_with('i');
    space(name, format!("every {} value whose canonical encoding is drawn from {} consecutive ones", elem, hi), 1, move |c| {
        let blocks = ((hi + 65535) / 65536) as usize;
        let b = c.pick(blocks)? as u64;
        let lo = c.pick(hi.min(65536) as usize)? as u64;
        let v = b << 16 | lo;
        let mut p = vec![id];
        let mut e = Enc::new();
        if signed { e.out = leb_s(if hi > 65536 { v as u32 as i32 as i64 } else { v as u16 as i16 as i64 }) } else { e.u(v as u32) }
        p.extend(e.out);
        c.run(k, &p)
    }).injective()
}
/// Integers in their places inside instructions and sections, with padding.
pub fn leb_in_place(k: Kind) -> Space {
    let vs: Vec<i64> = { let mut v: Vec<i64> = vec![]; for p in 0..64 { for d in [-1i64, 0, 1] { let x = (1i64 << p).wrapping_add(d); v.push(x); v.push(x.wrapping_neg()) } } v.sort(); v.dedup(); v };
    space("leb-in-place", format!("i32.const, i64.const, local.get, br, call, call_indirect, br_table, load alignment and offset, limits with {} values each, minimal and padded by 0..5 bytes", vs.len()), 2, move |c| {
        let v = *c.of(&vs)?;
        let place = c.pick(11)?;
        let pad = c.pick(6)?;
        let mut s = leb_s(v);
        let mut u = leb_u(v as u64);
        for (x, f) in [(&mut s, if v < 0 { 0x7F } else { 0 }), (&mut u, 0)] {
            if pad > 0 { *x.last_mut().unwrap() |= 0x80; for j in 0..pad { x.push(if j + 1 < pad { f | 0x80 } else { f }) } }
        }
        let (id, b): (u8, Vec<u8>) = match place {
            0 => (prim("expr"), [&[0x41][..], &s, &[0x0B]].concat()),
            1 => (prim("expr"), [&[0x42][..], &s, &[0x0B]].concat()),
            2 => (prim("expr"), [&[0x20][..], &u, &[0x0B]].concat()),
            3 => (prim("expr"), [&[0x0C][..], &u, &[0x0B]].concat()),
            4 => (prim("expr"), [&[0x10][..], &u, &[0x0B]].concat()),
            5 => (prim("expr"), [&[0x11][..], &u, &[0, 0x0B]].concat()),
            6 => (prim("expr"), [&[0x0E, 1][..], &u, &u, &[0x0B]].concat()),
            7 => (prim("expr"), [&[0x28][..], &u, &[0, 0x0B]].concat()),
            8 => (prim("expr"), [&[0x3E, 1][..], &u, &[0x0B]].concat()),
            9 => (prim("limits"), [&[0][..], &u].concat()),
            _ => (prim("limits"), [&[1, 1][..], &u].concat()),
        };
        let mut p = vec![id];
        p.extend(b);
        c.run(k, &p)
    })
}

// ---------------------------------------------------------------------------------------------
// C18

pub fn f32s(k: Kind, full: bool) -> Space {
    let his: Vec<u16> = (0..=0xFF).map(|e: u16| e << 7).chain((0..=0xFF).map(|e: u16| 0x8000 | e << 7)).chain([0x7FFF, 0xFFFF, 0x7FC0, 0x7FA0, 0x7F81, 0xFF81]).collect();
    let los: Vec<u16> = { let mut v = vec![0, 0xFFFF, 0xAAAA, 0x5555]; for b in 0..16 { v.push(1 << b); v.push(!(1 << b)); v.push((1u32 << b).wrapping_sub(1) as u16) } v.sort(); v.dedup(); v };
    let about = if full { "every one of the 2^32 bit patterns of f32".to_string() } else { format!("f32 bit patterns: every upper half x {} lower halves, and every lower half x {} upper halves", los.len(), his.len()) };
    let id = prim("f32");
    space(if full { "f32-all" } else { "f32-patterns" }, about, 2, move |c| {
        let bits = if full { (c.pick(65536)? as u32) << 16 | c.pick(65536)? as u32 } else if c.flag()? { (c.pick(65536)? as u32) << 16 | *c.of(&los)? as u32 } else { (*c.of(&his)? as u32) << 16 | c.pick(65536)? as u32 };
        let b = bits.to_le_bytes();
        c.run(k, &[id, b[0], b[1], b[2], b[3]])
    }).injective()
}
pub fn f64s(k: Kind, dense: bool) -> Space {
    let low: Vec<u64> = { let mut v = vec![0, (1 << 48) - 1, 0xAAAA_AAAA_AAAA, 0x5555_5555_5555, 0x1234_5678_9ABC]; for b in 0..48 { v.push(1 << b); if dense { v.push(((1u64 << 48) - 1) ^ (1 << b)) } } v };
    let id = prim("f64");
    space("f64-patterns", format!("f64 bit patterns: every upper 16 bits x {} lower 48-bit patterns", low.len()), 1, move |c| {
        let hi = c.pick(65536)? as u64;
        let l = *c.of(&low)?;
        let mut p = vec![id];
        p.extend((hi << 48 | l).to_le_bytes());
        c.run(k, &p)
    }).injective()
}
pub fn float_consts(k: Kind) -> Space {
    let id = prim("expr");
    space("float-consts", "f32.const and f64.const instructions with every upper 16 bits x 6 lower patterns, as expression, constant expression and in a global", 1, move |c| {
        let hi = c.pick(65536)? as u64;
        let l = *c.of(&[0u64, 1, 0x8000_0000_0000, 0xFFFF_FFFF_FFFF, 0x1234_5678_9ABC, 0x0000_0001_0000])?;
        let which = c.pick(2)?;
        let mut p = vec![];
        let bits = hi << 48 | l;
        let f = |p: &mut Vec<u8>| if which == 0 { p.push(0x44); p.extend(bits.to_le_bytes()) } else { p.push(0x43); p.extend(((bits >> 32) as u32).to_le_bytes()) };
        match c.pick(3)? {
            0 => { p.push(id); f(&mut p); p.push(0x0B) }
            1 => { p.push(prim("constexpr")); f(&mut p); p.push(0x0B) }
            _ => { p.extend([prim("global"), 0x7C, 0]); f(&mut p); p.push(0x0B) }
        }
        c.run(k, &p)
    })
}
pub fn byte_arrays(k: Kind) -> Space {
    let ids: Vec<u8> = ["byte0", "byte1", "byte2", "byte3", "byte4", "byte5", "byte6", "byte7", "byte8", "byte", "f32", "f64", "u32x3"].iter().map(|n| prim(n)).collect();
    space("byte-arrays", "fixed-size arrays and floats over inputs of 0..=10 bytes: all bytes different, one position (each) with every value, and all lengths", 2, move |c| {
        let id = *c.of(&ids)?;
        let len = c.range(0, 10)?;
        let mut p = vec![id];
        for i in 0..len { p.push(0x11 * (i as u8 + 1)) }
        let pos = c.pick(len + 1)?;
        if pos < len { let v = c.pick(256)? as u8; p[1 + pos] = v }
        c.run(k, &p)
    })
}

// ---------------------------------------------------------------------------------------------
// C19

pub fn name_scalars(k: Kind) -> Space {
    let id = prim("string");
    space("name-scalars", "names made of each Unicode scalar value, alone and between two letters, and of each surrogate's would-be encoding", 2, move |c| {
        let hi = c.pick(0x111)? as u32;
        let lo = c.pick(0x1000)? as u32;
        let v = hi << 12 | lo;
        let mut b = vec![];
        match char::from_u32(v) {
            Some(ch) => { let mut t = [0; 4]; b.extend(ch.encode_utf8(&mut t).as_bytes()) }
            None => b.extend(if v < 0x10000 { vec![0xE0 | (v >> 12) as u8, 0x80 | (v >> 6 & 0x3F) as u8, 0x80 | (v & 0x3F) as u8] } else { vec![0xF0 | (v >> 18) as u8, 0x80 | (v >> 12 & 0x3F) as u8, 0x80 | (v >> 6 & 0x3F) as u8, 0x80 | (v & 0x3F) as u8] }),
        }
        let between = c.flag()?;
        let mut p = vec![id];
        if between { p.push(b.len() as u8 + 2); p.push(b'a'); p.extend(b); p.push(b'z') } else { p.push(b.len() as u8); p.extend(b) }
        c.run(k, &p)
    }).injective()
}
pub fn name_bytes(k: Kind, name: &'static str, alpha: Vec<u8>, len: usize) -> Space {
    let id = prim("string");
    space(name, format!("names of exactly 0..={} arbitrary bytes over {} values", len, alpha.len()), 3, move |c| {
        let n = c.range(0, len)?;
        let mut p = vec![id, n as u8];
        for _ in 0..n { p.push(*c.of(&alpha)?) }
        c.run(k, &p)
    }).injective()
}
pub fn utf8_edges() -> Vec<u8> {
    vec![0x00, 0x41, 0x7F, 0x80, 0x81, 0x8F, 0x90, 0x9F, 0xA0, 0xBE, 0xBF, 0xC0, 0xC1, 0xC2, 0xC3, 0xDF, 0xE0, 0xE1, 0xEC, 0xED, 0xEE, 0xEF, 0xF0, 0xF1, 0xF3, 0xF4, 0xF5, 0xF8, 0xFF]
}
/// Long names with an irregularity at one position.
pub fn name_long(k: Kind, upto: usize, max: usize) -> Space {
    let ns = sizes(upto, max);
    let id = prim("string");
    space("name-long", format!("names of n bytes (n in 0..={} and around powers of two up to {}) of 1-, 2-, 3- or 4-byte characters, intact, or with a bad byte at an interesting position, or with claimed length one less or more", upto, max), 2, move |c| {
        let n = *c.of(&ns)?;
        let unit = *c.of(&["a", "é", "€", "😀", "ab\0"])?;
        let mut b: Vec<u8> = unit.bytes().cycle().take(n).collect();
        let mut ps: Vec<usize> = [0, 1, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128, n / 2, n.saturating_sub(2), n.saturating_sub(1)].into_iter().filter(|p| *p < n).collect();
        ps.sort();
        ps.dedup();
        let d = c.pick(3 + ps.len())?;
        let mut claim = n;
        match d { 0 => {} 1 => claim = n.saturating_sub(1), 2 => claim = n + 1, _ => { let v = *c.of(&[0xFFu8, 0x80, 0xC3, 0x00])?; b[ps[d - 3]] = v } }
        let mut p = vec![id];
        p.extend(leb_u(claim as u64));
        p.extend(b);
        c.run(k, &p)
    })
}
/// Names in imports, exports and custom sections.
pub fn names_in_place(k: Kind) -> Space {
    let names: Vec<Vec<u8>> = {
        let mut v: Vec<Vec<u8>> = ["", "a", "é", "€", "😀", "\0", "a\0b", "\u{FEFF}x", "e\u{301}", "\u{FFFF}", "\u{10FFFF}", "name"].iter().map(|s| s.as_bytes().to_vec()).collect();
        v.extend([vec![0xFF], vec![0x80], vec![0xC3], vec![0xC0, 0x80], vec![0xE0, 0x80, 0x80], vec![0xED, 0xA0, 0x80], vec![0xF4, 0x90, 0x80, 0x80], vec![b'a', 0xFF, b'b'], vec![0xF0, 0x9F, 0x98], vec![b'a'; 200], { let mut x = vec![b'a'; 200]; x[150] = 0xC0; x }]);
        v
    };
    space("names-in-place", format!("{} names (valid and invalid) at each name position: import module, import name (every pair), export name, custom section name", names.len()), 2, move |c| {
        let a = c.of(&names)?;
        let place = c.pick(3)?;
        let mut e = Enc::new();
        e.out.extend(PREAMBLE);
        let put = |s: &mut Enc, n: &[u8]| { s.u(n.len() as u32); s.out.extend(n) };
        let mut s = Enc::new();
        match place {
            0 => { let b = c.of(&names)?; s.u(1); put(&mut s, a); put(&mut s, b); s.out.extend([3, 0x7F, 0]); e.section(2, &s.out) }
            1 => { e.section(5, &[1, 0, 0]); s.u(1); put(&mut s, a); s.out.extend([2, 0]); e.section(7, &s.out) }
            _ => { put(&mut s, a); s.out.extend([9, 9, 0xFF]); e.section(0, &s.out) }
        }
        c.run(k, &e.out)
    })
}
fn element(name: &str, i: usize) -> Vec<u8> {
    match name {
        "vec-byte" | "unwrap-byte" => vec![(i * 7 + 3) as u8],
        "vec-u8" => leb_u((i % 256) as u64),
        "vec-u32" => leb_u(i as u64 * 3),
        "vec-i64" => leb_s(i as i64 - 5),
        "vec-f64" => (i as u64).to_le_bytes().to_vec(),
        "vec-val" => vec![0x7F - (i % 4) as u8],
        "vec-string" => { let s = i.to_string(); [&[s.len() as u8][..], s.as_bytes()].concat() }
        "vec-vec-byte" => (0..=(i % 4) as u8).collect::<Vec<u8>>().into_iter().enumerate().map(|(j, _)| if j == 0 { (i % 4) as u8 } else { i as u8 }).collect(),
        "compact-val" => vec![(i % 3) as u8, 0x7F - (i % 4) as u8],
        "compact-u32" => { let mut v = vec![1]; v.extend(leb_u(i as u64)); v }
        "unwrap-sized-byte2" => vec![2, i as u8, (i >> 8) as u8],
        "vec-functype" => vec![0x60, (i % 2) as u8, 0x7F, 0, 0][..if i % 2 == 1 { 4 } else { 2 }].to_vec().into_iter().chain(if i % 2 == 1 { vec![] } else { vec![0] }).collect(),
        "vec-import" => { let s = i.to_string(); let mut v = vec![1, b'm', s.len() as u8]; v.extend(s.as_bytes()); v.push(0); v.extend(leb_u(i as u64)); v }
        "vec-export" => { let s = i.to_string(); let mut v = vec![s.len() as u8]; v.extend(s.as_bytes()); v.push((i % 4) as u8); v.extend(leb_u(i as u64)); v }
        "vec-global" => vec![0x7F, (i % 2) as u8, 0x41, (i % 64) as u8, 0x0B],
        "vec-elem" => vec![0, 0x41, (i % 64) as u8, 0x0B, 1, (i % 128) as u8],
        "vec-data" => vec![0, 0x41, 0, 0x0B, 2, i as u8, (i >> 8) as u8],
        "vec-table" => { let mut v = vec![0x70, 0]; v.extend(leb_u(i as u64)); v }
        "vec-mem" => { let mut v = vec![0]; v.extend(leb_u(i as u64)); v }
        "code" => vec![3, 0, if i % 2 == 0 { 0 } else { 1 }, 0x0B],
        _ => panic!("HARNESS: element {}", name),
    }
}
pub const VECS: [&str; 20] = ["vec-byte", "unwrap-byte", "vec-u8", "vec-u32", "vec-i64", "vec-f64", "vec-val", "vec-string", "vec-vec-byte", "compact-val", "compact-u32", "unwrap-sized-byte2", "vec-functype", "vec-import", "vec-export", "vec-global", "vec-elem", "vec-data", "vec-table", "code"];
pub fn vec_sizes(k: Kind, upto: usize, max: usize) -> Space {
    let ns = sizes(upto, max);
    space("vec-sizes", format!("vectors of 20 element kinds with n elements, all different (n in 0..={} and around powers of two up to {}): exact, claimed count one more or one less, last byte missing, padded count, bytes following", upto, max), 2, move |c| {
        let name = *c.of(&VECS)?;
        let n = *c.of(&ns)?;
        let dev = c.pick(6)?;
        let claim = match dev { 1 => n + 1, 2 => n.saturating_sub(1), _ => n };
        let mut p = vec![prim(name)];
        let mut l = leb_u(claim as u64);
        if dev == 4 && l.len() < 5 { *l.last_mut().unwrap() |= 0x80; l.push(0) }
        p.extend(l);
        for i in 0..n { p.extend(element(name, i)) }
        if dev == 3 { p.pop(); if p.is_empty() { return Ok(()) } }
        if dev == 5 { p.extend([0x41, 0, 0x0B]) }
        c.run(k, &p)
    })
}
/// A bad element somewhere in a vector.
pub fn vec_bad(k: Kind, upto: usize, max: usize) -> Space {
    let ns: Vec<usize> = sizes(upto, max).into_iter().filter(|n| *n > 0).collect();
    space("vec-bad", format!("vectors with one ill-formed element (bad type code, over-long integer, bad name) at every position (n<=20) or interesting ones, n in 1..={} and up to {}", upto, max), 2, move |c| {
        let name = *c.of(&["vec-val", "vec-u32", "vec-string", "compact-val", "unwrap-sized-byte2", "vec-functype"])?;
        let n = *c.of(&ns)?;
        let ps: Vec<usize> = if n <= 20 { (0..n).collect() } else { vec![0, 1, n / 2, n - 2, n - 1] };
        let at = *c.of(&ps)?;
        let bad: Vec<u8> = match name { "vec-val" => vec![0x7B], "vec-u32" => vec![0xFF, 0xFF, 0xFF, 0xFF, 0x1F], "vec-string" => vec![1, 0xFF], "compact-val" => vec![1, 0x40], "unwrap-sized-byte2" => vec![3, 1, 2, 3], _ => vec![0x61, 0, 0] };
        let mut p = vec![prim(name)];
        p.extend(leb_u(n as u64));
        for i in 0..n { if i == at { p.extend(&bad) } else { p.extend(element(name, i)) } }
        c.run(k, &p)
    })
}
/// Run-length-encoded locals.
pub fn compact(k: Kind, groups: usize) -> Space {
    space("compact", format!("every run-length-encoded list of up to {} groups with counts from 0,1,2,3,127,128,255,256,65535,65536 and 5 element codes", groups), 2, move |c| {
        let g = c.range(0, groups)?;
        let id = *c.of(&[prim("compact-val"), prim("compact-u8")])?;
        let mut p = vec![id, g as u8];
        for _ in 0..g {
            let n = *c.of(&[0u32, 1, 2, 3, 127, 128, 255, 256, 65535, 65536])?;
            p.extend(leb_u(n as u64));
            p.push(*c.of(&[0x7Fu8, 0x7E, 0x7D, 0x7C, 0x40])?);
        }
        p.push(1);
        c.run(k, &p)
    })
}
pub fn compact_overflow(k: Kind, as_module: bool) -> Space {
    let bigs = [1u32 << 31, u32::MAX, u32::MAX - 1, u32::MAX - 2, 0x8000_0001, 0x7FFF_FFFF];
    space("locals-overflow", "locals declarations whose total exceeds 2^32-1 (small groups then huge ones, in every order of up to 4 groups with the huge total only reached after a small one), as element and inside a module", 2, move |c| {
        let small = c.range(1, 3)?;
        let first = *c.of(&[1u32, 2, 3, 1000])?;
        let big = c.of(&bigs)?;
        let again = c.range(0, 2)?;
        let mut g: Vec<u8> = vec![];
        for _ in 0..small { g.extend(leb_u(first as u64)); g.push(0x7F) }
        // the first huge group alone must already overflow, so that no implementation needs to expand it
        if small as u64 * first as u64 + *big as u64 <= u32::MAX as u64 { return Ok(()) }
        for _ in 0..=again { g.extend(leb_u(*big as u64)); g.push(0x7E) }
        let n = (small + 1 + again) as u8;
        if as_module {
            let mut fb = vec![n];
            fb.extend(g);
            fb.push(0x0B);
            let mut e = Enc::new();
            e.out.extend(PREAMBLE);
            e.section(1, &[1, 0x60, 0, 0]);
            e.section(3, &[1, 0]);
            let mut s = Enc::new();
            s.u(1);
            s.sized(&fb);
            e.section(10, &s.out);
            let mut p = if matches!(k, Kind::Mem | Kind::ErrKind | Kind::Prim) { vec![prim("module")] } else { vec![] };
            p.extend(e.out);
            c.run(k, &p)
        } else {
            let mut p = vec![prim("compact-val"), n];
            p.extend(g);
            c.run(k, &p)
        }
    })
}

// ---------------------------------------------------------------------------------------------
// C12

/// Every structure of blocks.
pub fn structure(k: Kind, depth: usize) -> Space {
    let toks: Vec<Vec<u8>> = vec![vec![0x02, 0x40], vec![0x03, 0x7F], vec![0x04, 0x40], vec![0x05], vec![0x0B], vec![0x01], vec![0x41, 0x0B]];
    let id = prim("expr");
    space("structure", format!("every sequence of up to {} of: block, loop, if, else, end, nop, i32.const 11 (whose operand looks like end), as an expression, extended while the reference wants input", depth), 4, move |c| {
        let mut p = vec![id];
        for d in 0.. {
            match (PRIMS[id as usize].rf)(&mut Cur::new(&p[1..])) {
                Err(E::Eof) => {
                    let ch = if d < depth { c.pick(1 + toks.len())? } else { 0 };
                    if ch == 0 { return c.run(k, &p) }
                    p.extend(&toks[ch - 1]);
                }
                _ => { c.run(k, &p)?; p.push(0x0B); return c.run(k, &p) }
            }
        }
        Ok(())
    }).injective()
}
/// Every opcode with every interesting immediate, inside each kind of block.
pub fn immediates(k: Kind) -> Space {
    let xs: Vec<u32> = u32s();
    let id = prim("expr");
    space("immediates", format!("every opcode byte with immediates from {} 32-bit values (pairs where it has two), inside the function, a block, a then- and an else-branch", xs.len()), 2, move |c| {
        let o = c.pick(256)? as u8;
        let wrap = c.pick(4)?;
        let mut p = vec![id];
        p.extend(match wrap { 0 => vec![], 1 => vec![0x02, 0x40], 2 => vec![0x04, 0x7C], _ => vec![0x04, 0x40, 0x05] });
        p.push(o);
        match o {
            0x0E => { let n = c.range(0, 3)?; p.push(n as u8); for _ in 0..=n { let x = *c.of(&[0u32, 1, 11, 128, 0x0B0B, u32::MAX])?; p.extend(leb_u(x as u64)) } }
            0x11 => { let x = *c.of(&xs)?; p.extend(leb_u(x as u64)); let y = c.pick(256)? as u8; p.push(y) }
            0x28..=0x3E => { let x = *c.of(&xs)?; let y = *c.of(&xs)?; p.extend(leb_u(x as u64)); p.extend(leb_u(y as u64)) }
            0x0C | 0x0D | 0x10 | 0x20..=0x24 => { let x = *c.of(&xs)?; p.extend(leb_u(x as u64)) }
            0x3F | 0x40 => { let y = c.pick(256)? as u8; p.push(y) }
            0x41 => { let x = *c.of(&xs)?; let n = c.flag()?; p.extend(leb_s(if n { (x as i32) as i64 } else { -((x >> 1) as i64) })) }
            0x42 => { let x = *c.of(&xs)?; let y = *c.of(&xs)?; p.extend(leb_s(((x as u64) << 32 | y as u64) as i64)) }
            0x43 => { let x = *c.of(&xs)?; p.extend(x.to_le_bytes()) }
            0x44 => { let x = *c.of(&xs)?; let y = *c.of(&xs)?; p.extend(x.to_le_bytes()); p.extend(y.to_le_bytes()) }
            0x02..=0x04 => { let y = c.pick(256)? as u8; p.push(y); let e = c.flag()?; if e && o == 4 { p.push(0x05); p.push(0x01) } p.push(0x0B) }
            _ => {}
        }
        let after = c.flag()?;
        if after { p.push(0x1A) }
        if wrap > 0 { p.push(0x0B) }
        p.push(0x0B);
        c.run(k, &p)
    })
}
/// Long and deep expressions.
pub fn expr_sizes(k: Kind, upto: usize, max: usize, nest: usize) -> Space {
    let ns = sizes(upto, max);
    space("expr-sizes", format!("expressions of n instructions, blocks one after another, br_table of n labels (n in 0..={} and around powers of two up to {}), nests of n constructs (n up to {}), complete, one end too few, one too many", upto, max, nest), 2, move |c| {
        let n = *c.of(&ns)?;
        let shape = c.pick(8)?;
        let dev = c.pick(3)?;
        let mut p = vec![prim("expr")];
        match shape {
            0 => for i in 0..n { p.push(if i % 3 == 0 { 0x01 } else { 0x1A }) },
            1 => for i in 0..n { p.push(0x41); p.extend(leb_s(i as i64 - 70)) },
            2 => for i in 0..n { p.extend([if i % 2 == 0 { 0x02 } else { 0x03 }, 0x40, 0x0B]) },
            3 => { p.push(0x0E); p.extend(leb_u(n as u64)); for i in 0..=n { p.extend(leb_u(i as u64)) } }
            4 => { p.extend([0x04, 0x40]); p.extend(vec![0x01; n]); p.push(0x05); p.extend(vec![0x00; n]); p.push(0x0B) }
            _ => {
                if n > nest { return Ok(()) }
                for i in 0..n { p.extend(match shape { 5 => vec![0x02, 0x40], 6 => vec![0x04, 0x7F, 0x01, 0x05], _ => vec![[0x02, 0x03, 0x04][i % 3], 0x7C] }) }
                for i in 0..n { p.push(0x0B); if i % 5 == 0 { p.push(0x01) } }
            }
        }
        match dev { 0 => p.push(0x0B), 1 => {} _ => p.extend([0x0B, 0x0B]) }
        c.run(k, &p)
    })
}

// ---------------------------------------------------------------------------------------------
// C13: entries of every section kind (the spaces of sp_val reused with Decode add whole modules)

pub fn entry_alpha() -> Vec<u8> { vec![0x00, 0x01, 0x02, 0x03, 0x04, 0x05, 0x0B, 0x20, 0x23, 0x40, 0x41, 0x60, 0x61, 0x70, 0x7B, 0x7C, 0x7F, 0x80, 0xFF] }
pub const ENTRIES: [&str; 21] = ["limits", "val", "elemtype", "blocktype", "functype", "tabletype", "memtype", "mut", "globaltype", "table", "mem", "global", "elem", "data", "start", "import", "export", "func", "constexpr", "typeidx", "localidx"];

/// Modules with n entries in each section, all different.
pub fn sections_big(k: Kind, upto: usize, max: usize) -> Space {
    let ns = sizes(upto, max);
    space("sections-big", format!("each section with n entries, all different (n in 0..={} and around powers of two up to {})", upto, max), 1, move |c| {
        let n = *c.of(&ns)?;
        let which = c.pick(10)?;
        let mut m = M::default();
        let big = |i: usize| (i as u32).wrapping_mul(2654435761);
        match which {
            0 => m.types = (0..n).map(|i| FT { p: vec![TS[i % 4]; i % 5], r: vec![TS[(i / 4) % 4]; i % 2] }).collect(),
            1 => m.imports = (0..n).map(|i| Imp { module: format!("m{}", i), name: format!("{}", i * 3), desc: match i % 4 { 0 => ImpD::Func(big(i)), 1 => ImpD::Table(lim(big(i), Some(i as u32))), 2 => ImpD::Mem(lim(i as u32, None)), _ => ImpD::Global(gt(TS[(i / 4) % 4], i % 8 == 3)) } }).collect(),
            2 => m.funcs = (0..n).map(|i| f(big(i), &vec![TS[i % 4]; i % 3], &[Ins::I32(i as i32)])).collect(),
            3 => m.tables = (0..n).map(|i| lim(big(i), if i % 2 == 0 { Some(i as u32) } else { None })).collect(),
            4 => m.mems = (0..n).map(|i| lim(i as u32, if i % 2 == 1 { Some(big(i)) } else { None })).collect(),
            5 => m.globals = (0..n).map(|i| Glob { ty: gt(TS[i % 4], i % 3 == 0), init: vec![Ins::I64(i as i64 * -77)] }).collect(),
            6 => m.exports = (0..n).map(|i| exp(&format!("e{}", i), (i % 4) as u8, big(i))).collect(),
            7 => m.elems = (0..n).map(|i| Elem { table: i as u32, offset: vec![Ins::I32(i as i32)], init: vec![big(i); i % 4] }).collect(),
            8 => m.datas = (0..n).map(|i| Data { mem: i as u32, offset: vec![Ins::I32(i as i32)], init: vec![i as u8; i % 6] }).collect(),
            _ => m.datas = vec![Data { mem: 0, offset: vec![Ins::I32(0)], init: (0..n).map(|i| (i * 13) as u8).collect() }],
        }
        c.run(k, &encode(&m))
    })
}
/// One entry with a long inner list.
pub fn entry_big(k: Kind, upto: usize, max: usize) -> Space {
    let ns = sizes(upto, max);
    space("entry-big", format!("one entry with an inner list of n items (parameters, results, locals in one or n groups, element indices, data bytes, names, offset expressions), n in 0..={} and around powers of two up to {}", upto, max), 1, move |c| {
        let n = *c.of(&ns)?;
        let which = c.pick(10)?;
        let mut m = M::default();
        match which {
            0 => m.types.push(FT { p: (0..n).map(|i| TS[i % 4]).collect(), r: vec![F64] }),
            1 => m.types.push(FT { p: vec![F32], r: (0..n).map(|i| TS[(i / 2) % 4]).collect() }),
            2 => m.funcs.push(f(0, &(0..n).map(|i| TS[i % 4]).collect::<Vec<_>>(), &[])),
            3 => m.funcs.push(f(0, &vec![I64; n], &[])),
            4 => m.elems.push(Elem { table: 0, offset: vec![Ins::I32(0)], init: (0..n as u32).map(|i| i * 3).collect() }),
            5 => m.datas.push(Data { mem: 0, offset: vec![Ins::I32(0)], init: (0..n).map(|i| (i * 31) as u8).collect() }),
            6 => m.exports.push(exp(&"é€".repeat(n / 2), 0, 0)),
            7 => m.imports.push(Imp { module: "x".repeat(n), name: "y".repeat(n / 3), desc: ImpD::Func(1) }),
            8 => m.globals.push(Glob { ty: gt(I32, false), init: (0..n).map(|i| Ins::I32(i as i32)).collect() }),
            _ => m.funcs.push(f(0, &(0..n).map(|i| TS[(i / 3) % 4]).collect::<Vec<_>>(), &vec![Ins::Op(1); n])),
        }
        c.run(k, &encode(&m))
    })
}

// ---------------------------------------------------------------------------------------------
// C14

fn minimal_body(id: u8) -> Vec<u8> {
    match id {
        0 => vec![0],
        8 => vec![0],
        _ => vec![0],
    }
}
fn other_body(id: u8) -> Vec<u8> {
    match id {
        0 => vec![1, b'x', 9, 9],
        1 => vec![1, 0x60, 0, 0],
        2 => vec![1, 0, 0, 3, 0x7F, 0],
        3 => vec![1, 0],
        4 => vec![1, 0x70, 0, 1],
        5 => vec![1, 0, 1],
        6 => vec![1, 0x7F, 0, 0x41, 0, 0x0B],
        7 => vec![1, 1, b'e', 0, 0],
        8 => vec![0],
        9 => vec![1, 0, 0x41, 0, 0x0B, 1, 0],
        10 => vec![1, 2, 0, 0x0B],
        11 => vec![1, 0, 0x41, 0, 0x0B, 1, 0x55],
        _ => vec![0],
    }
}
/// [element id] in front for the kinds that need one.
pub fn whole(k: Kind, b: &[u8]) -> Vec<u8> {
    let mut p = if matches!(k, Kind::Mem | Kind::ErrKind | Kind::Prim) { vec![prim("module")] } else { vec![] };
    p.extend(b);
    p
}
pub fn section_seqs(k: Kind, len: usize) -> Space {
    let ids: Vec<u8> = (0..=13).chain([0x40, 0x7F, 0x80, 0x8A, 0xFF]).collect();
    space("section-sequences", format!("every sequence of up to {} sections with ids from {:?}, each empty or with one entry", len, ids), 3, move |c| {
        let n = c.range(0, len)?;
        let mut e = Enc::new();
        e.out.extend(PREAMBLE);
        let full = c.flag()?;
        for _ in 0..n { let id = *c.of(&ids)?; e.section(id, &if full { other_body(id) } else { minimal_body(id) }) }
        c.run(k, &whole(k, &e.out))
    })
}
/// All 2^11 subsets of sections in order, swapped pairs, duplicates.
pub fn section_subsets(k: Kind) -> Space {
    space("section-subsets", "every subset of the 11 sections (with one entry each) in order, with no change, or one adjacent swap, or one duplicate, or a custom section in every gap at once", 2, move |c| {
        let s = c.pick(2048)?;
        let mut ids: Vec<u8> = (1..=11u8).filter(|i| s >> (i - 1) & 1 == 1).collect();
        let change = c.pick(2 + 2 * ids.len().max(1))?;
        let mut customs = false;
        match change { 0 => {} 1 => customs = true, x if x - 2 < ids.len() => { let i = x - 2; ids.insert(i, ids[i]) } x => { let i = x - 2 - ids.len(); if i + 1 >= ids.len() { return Ok(()) } ids.swap(i, i + 1) } }
        let mut e = Enc::new();
        e.out.extend(PREAMBLE);
        for id in ids { if customs { e.section(0, &other_body(0)) } e.section(id, &other_body(id)) }
        if customs { e.section(0, &[0]) }
        c.run(k, &whole(k, &e.out))
    })
}
pub fn preambles(k: Kind) -> Space {
    space("preamble", "the 8 preamble bytes with every value at one position, with every pair of positions set from 12 values, swapped halves, and every truncation; alone and before sections", 2, move |c| {
        let mut b = PREAMBLE.to_vec();
        let tail = c.flag()?;
        match c.pick(4)? {
            0 => { let i = c.pick(8)?; let v = c.pick(256)? as u8; b[i] = v }
            1 => { let i = c.pick(8)?; let j = c.pick(8)?; let vs = [0u8, 1, 2, b'a', b's', b'm', b'A', 0x7F, 0x80, 0xFF, 0x0D, 0x0A]; let x = *c.of(&vs)?; let y = *c.of(&vs)?; b[i] = x; b[j] = y }
            2 => { let i = c.pick(8)?; let j = c.pick(8)?; b.swap(i, j) }
            _ => { let n = c.pick(9)?; b.truncate(n) }
        }
        if tail { b.extend([1, 4, 1, 0x60, 0, 0]) }
        c.run(k, &whole(k, &b))
    })
}
/// Where the sections of a module start, as (id, offset of the size, size length, body start, body end).
pub fn sections_of(b: &[u8]) -> Vec<(u8, usize, usize, usize)> {
    let mut v = vec![];
    let mut i = 8;
    while i < b.len() {
        let id = b[i];
        let mut j = i + 1;
        let mut n = 0u64;
        let mut sh = 0;
        loop { n |= ((b[j] & 0x7F) as u64) << sh; sh += 7; j += 1; if b[j - 1] & 0x80 == 0 { break } }
        v.push((id, i + 1, j, j + n as usize));
        i = j + n as usize;
    }
    v
}
/// Declared sizes off by some amount, padded or huge, for each section of each base module.
pub fn section_sizes(k: Kind) -> Space {
    let bases = bases::all();
    space("section-sizes", "each section of each base module with its declared size off by -3..=3, zero, or huge, in minimal or padded form, alone or compensated by inserted bytes", 2, move |c| {
        let b = c.of(&bases)?;
        let ss = sections_of(b);
        let (_, at, start, end) = *c.of(&ss)?;
        let n = (end - start) as i64;
        let ds: Vec<i64> = (-3..=3).map(|d| n + d).chain([0, 1, 127, 128, 16384, 1 << 31, u32::MAX as i64, 1 << 32]).filter(|x| *x >= 0).collect();
        let d = *c.of(&ds)?;
        let pad = c.pick(5)?;
        let ins = c.pick(3)?;
        let mut l = leb_u(d as u64);
        if pad > 0 { *l.last_mut().unwrap() |= 0x80; for j in 0..pad { l.push(if j + 1 < pad { 0x80 } else { 0 }) } }
        let mut o = b[..at].to_vec();
        o.extend(l);
        o.extend(&b[start..end]);
        match ins { 0 => {} 1 => o.extend(vec![0; (d - n).clamp(0, 300) as usize]), _ => { let k = (n - d).clamp(0, n) as usize; let l = o.len(); o.truncate(l - k) } }
        o.extend(&b[end..]);
        c.run(k, &whole(k, &o))
    })
}
pub fn customs(k: Kind, upto: usize, max: usize) -> Space {
    let ns = sizes(upto, max);
    let base = encode(&bases::rich());
    space("customs", format!("a custom section of n content bytes (n in 0..={} and around powers of two up to {}) at each of the 12 gaps of a full module; also n custom sections at one gap", upto, max), 2, move |c| {
        let ss = sections_of(&base);
        let gap = c.pick(ss.len() + 1)?;
        let n = *c.of(&ns)?;
        let many = c.pick(3)?;
        let at = if gap < ss.len() { ss[gap].1 - 1 } else { base.len() };
        let mut e = Enc::new();
        e.out.extend(&base[..at]);
        match many {
            0 => { let mut body = vec![1, b'c']; body.extend((0..n).map(|i| (i * 5) as u8)); e.section(0, &body) }
            1 => { let mut body = leb_u(n as u64); body.extend(vec![b'n'; n]); e.section(0, &body) }
            _ => { if n > 3000 { return Ok(()) } for i in 0..n { e.section(0, &[0, i as u8][..1 + i % 2]) } }
        }
        e.out.extend(&base[at..]);
        c.run(k, &whole(k, &e.out))
    })
}
/// What custom sections may contain and where they end.
pub fn custom_bytes(k: Kind, depth: usize) -> Space {
    let alpha = [0u8, 1, 2, 3, 4, 5, 0x41, 0x80, 0xFF, 0xC3, 0xA9];
    space("custom-bytes", format!("a custom section header followed by every string of up to {} bytes over {} values, before a type section", depth, alpha.len()), 3, move |c| {
        let mut b = PREAMBLE.to_vec();
        b.push(0);
        let n = c.range(0, depth)?;
        for _ in 0..n { b.push(*c.of(&alpha)?) }
        let tail = c.flag()?;
        if tail { b.extend([1, 4, 1, 0x60, 0, 0]) }
        c.run(k, &whole(k, &b))
    })
}
pub fn tails(k: Kind) -> Space {
    let bases = bases::all();
    space("tails", "each base module followed by every one byte, every two bytes, and some longer strings", 2, move |c| {
        let b = c.of(&bases)?;
        let mut o = b.clone();
        let how = c.pick(3)?;
        match how { 0 => { let x = c.pick(256)? as u8; o.push(x) } 1 => { let x = c.pick(256)? as u8; let y = c.pick(256)? as u8; o.extend([x, y]) } _ => { let t = c.of(&[vec![0, 1, 0], vec![0, 2, 1, b'a'], vec![0, 1, 1], vec![1, 1, 0], vec![12, 1, 0], vec![0, 0], PREAMBLE.to_vec(), vec![11, 1, 0, 11, 1, 0], vec![0, 0x80, 0x80, 0x80, 0x80, 0x00], vec![0, 0x81, 0x80, 0x80, 0x80, 0x00, 0x00]])?.clone(); o.extend(t) } }
        c.run(k, &whole(k, &o))
    })
}

// ---------------------------------------------------------------------------------------------
// C15

fn fc_module(types: Option<&[u32]>, codes: Option<usize>, gap: bool) -> Vec<u8> {
    let mut e = Enc::new();
    e.out.extend(PREAMBLE);
    e.section(1, &[3, 0x60, 0, 0, 0x60, 1, 0x7F, 0, 0x60, 0, 1, 0x7E]);
    if let Some(t) = types {
        let mut s = Enc::new();
        s.u(t.len() as u32);
        for x in t { s.u(*x) }
        e.section(3, &s.out);
    }
    if gap { e.section(0, &[1, b'g']); e.section(5, &[1, 0, 1]) }
    if let Some(n) = codes {
        let mut s = Enc::new();
        s.u(n as u32);
        for i in 0..n { let mut b = vec![1, (i % 3) as u8, 0x7F, 0x41]; b.extend(leb_s(i as i64)); b.push(0x0B); s.sized(&b) }
        e.section(10, &s.out);
    }
    if gap { e.section(0, &[0]) }
    e.out
}
pub fn pairing(k: Kind) -> Space {
    space("pairing", "function sections absent or with every list of up to 4 type indices from 0,1,2,9, code sections absent or with 0..5 bodies, with or without sections between", 2, move |c| {
        let nf = c.pick(6)?;
        let mut t = vec![];
        if nf > 0 { for _ in 0..nf - 1 { t.push(*c.of(&[0u32, 1, 2, 9])?) } }
        let nc = c.pick(7)?;
        let gap = c.flag()?;
        c.run(k, &whole(k, &fc_module(if nf == 0 { None } else { Some(&t) }, if nc == 0 { None } else { Some(nc - 1) }, gap)))
    })
}
pub fn pairing_big(k: Kind, upto: usize, max: usize) -> Space {
    let ns = sizes(upto, max);
    space("pairing-big", format!("n functions with n, n-1, n+1, 0, n+256, n+65536 or no bodies, n in 0..={} and around powers of two up to {}; and the reverse", upto, max), 2, move |c| {
        let n = *c.of(&ns)?;
        let d = c.pick(8)?;
        let t: Vec<u32> = (0..n as u32).map(|i| i.wrapping_mul(7) % 3).collect();
        let z = vec![0u32; n + match d { 6 => 256, 7 => 65536, _ => 0 }];
        let b = match d { 0 => fc_module(Some(&t), Some(n), false), 1 => fc_module(Some(&t), Some(n.saturating_sub(1)), false), 2 => fc_module(Some(&t), Some(n + 1), true), 3 => fc_module(Some(&t), Some(0), false), 4 => fc_module(Some(&t), None, true), 5 => fc_module(None, Some(n), false), _ => fc_module(Some(&z), Some(n), false) };
        c.run(k, &whole(k, &b))
    })
}

// ---------------------------------------------------------------------------------------------
// C16

pub fn cuts(k: Kind, name: &'static str, about: &'static str, modules: Vec<Vec<u8>>) -> Space {
    space(name, about, 1, move |c| {
        let b = c.of(&modules)?;
        let n = c.pick(b.len() + 1)?;
        c.run(k, &whole(k, &b[..n]))
    })
}
pub fn cut_subsets(k: Kind) -> Space {
    space("cut-subsets", "every subset of the 11 sections (one entry each), with and without custom sections between, cut at every byte", 1, move |c| {
        let s = c.pick(2048)?;
        let cu = c.flag()?;
        let mut e = Enc::new();
        e.out.extend(PREAMBLE);
        for id in 1..=11u8 { if s >> (id - 1) & 1 == 1 { e.section(id, &other_body(id)); if cu { e.section(0, &other_body(0)) } } }
        let n = c.pick(e.out.len() + 1)?;
        c.run(k, &whole(k, &e.out[..n]))
    })
}
pub fn cut_big(k: Kind, upto: usize, max: usize) -> Space {
    let ns: Vec<usize> = sizes(upto, max).into_iter().filter(|n| *n > 0).collect();
    space("cut-big", format!("modules with a data segment, custom section, name, body, locals or vector of n items (n in 1..={} and around powers of two up to {}), cut at 40 positions around each boundary", upto, max), 2, move |c| {
        let n = *c.of(&ns)?;
        let mut m = M::default();
        match c.pick(6)? {
            0 => m.datas.push(Data { mem: 0, offset: vec![Ins::I32(0)], init: vec![0x0B; n] }),
            1 => m.types = vec![FT::new(&[I32], &[]); n],
            2 => m.funcs.push(f(0, &[I32], &vec![Ins::Op(1); n])),
            3 => m.exports.push(exp(&"a".repeat(n), 0, 0)),
            4 => m.elems.push(Elem { table: 0, offset: vec![Ins::I32(0)], init: vec![0; n] }),
            _ => m.funcs = vec![f(0, &[], &[]); n],
        }
        let b = encode(&m);
        let l = b.len();
        let mut ps: Vec<usize> = (0..20.min(l)).chain(l.saturating_sub(20)..=l).chain([l / 2, 64, 128, 256, 4096]).filter(|p| *p <= l).collect();
        ps.sort();
        ps.dedup();
        let p = *c.of(&ps)?;
        c.run(k, &whole(k, &b[..p]))
    })
}

// ---------------------------------------------------------------------------------------------
// C20

pub const SIZED: [&str; 12] = ["sized-byte", "sized-byte2", "sized-u32", "sized-string", "sized-vec-byte", "sized-consume", "sized-sized-byte", "sized-sized-consume", "sized3-vec-byte", "sized-empty", "sized-expr", "sized-custom"];
pub fn sized_delta(k: Kind, upto: usize, max: usize) -> Space {
    let ns = sizes(upto, max);
    space("size-delta", format!("size prefixes (single and nested twice or three times) around a vector of n bytes (n in 0..={} and around powers of two up to {}), each prefix exact or off by -2..=2, +128, +256, +65536, minimal or padded, with bytes following", upto, max), 2, move |c| {
        let n = *c.of(&ns)?;
        let depth = c.range(1, 3)?;
        let mut b = leb_u(n as u64);
        b.extend((0..n).map(|i| (i * 3 + 1) as u8));
        let inner = *c.of(&[0usize, 1])?;
        if inner == 1 { b = vec![7; n] }
        for lvl in 0..depth {
            let ds: &[i64] = if lvl == 0 || depth == 1 { &[0, -2, -1, 1, 2, 128, 256, 65536] } else { &[0, -1, 1] };
            let d = *c.of(ds)?;
            let pad = if lvl == 0 { c.pick(2)? } else { 0 };
            let s = b.len() as i64 + d;
            if s < 0 { return Ok(()) }
            let mut l = leb_u(s as u64);
            if pad > 0 { *l.last_mut().unwrap() |= 0x80; l.push(0) }
            l.extend(b);
            b = l;
        }
        let name = match (depth, inner) { (1, 0) => "sized-vec-byte", (3, 0) => "sized3-vec-byte", (1, _) => "sized-consume", (2, 1) => "sized-sized-consume", _ => return Ok(()) };
        let tail = c.pick(3)?;
        b.extend(vec![0x0B; [0, 1, 70000][tail]]);
        let mut p = vec![prim(name)];
        p.extend(b);
        c.run(k, &p)
    })
}
/// Bodies and sections whose sizes disagree by the same or different amounts.
pub fn body_sizes(k: Kind, upto: usize, max: usize) -> Space {
    let ns = sizes(upto, max);
    space("body-sizes", format!("code sections of 1..3 bodies of n instructions (n in 0..={} and around powers of two up to {}), one body's declared size off by -3..=3 and the section's size exact, following the change, or off by -3..=3", upto, max), 2, move |c| {
        let n = *c.of(&ns)?;
        let bodies = c.range(1, 3)?;
        let which = c.pick(bodies)?;
        let d = c.range(0, 6)? as i64 - 3;
        let sd = c.range(0, 6)? as i64 - 3;
        let mut s = Enc::new();
        s.u(bodies as u32);
        for i in 0..bodies {
            let mut b = vec![0];
            b.extend(vec![0x01; n]);
            b.push(0x0B);
            let l = b.len() as i64 + if i == which { d } else { 0 };
            if l < 0 { return Ok(()) }
            s.u(l as u32);
            s.out.extend(b);
        }
        let mut e = Enc::new();
        e.out.extend(PREAMBLE);
        e.section(1, &[1, 0x60, 0, 0]);
        let mut fs = vec![bodies as u8];
        fs.extend(vec![0; bodies]);
        e.section(3, &fs);
        e.out.push(10);
        let l = s.out.len() as i64 + sd;
        if l < 0 { return Ok(()) }
        e.u(l as u32);
        e.out.extend(s.out);
        let tail = c.pick(3)?;
        e.out.extend([&[][..], &[0, 1, 0], &[11, 1, 0]][tail]);
        c.run(k, &whole(k, &e.out))
    })
}

// ---------------------------------------------------------------------------------------------
// C21

/// Short well-formed encodings of every element, found by searching with the reference decoder.
pub fn element_samples(per: usize) -> Vec<(u8, Vec<u8>)> {
    let alpha = [0x00u8, 0x01, 0x02, 0x03, 0x0B, 0x41, 0x60, 0x70, 0x7F, 0x7C, 0x80, 0x61, 0x04];
    let mut out = vec![];
    for (id, p) in PRIMS.iter().enumerate() {
        if p.name == "module" { continue }
        let mut found: Vec<Vec<u8>> = vec![];
        if p.name == "sized3-vec-byte" { for b in [&[3u8, 2, 1, 0][..], &[4, 3, 2, 1, 0x0B], &[6, 5, 4, 3, 1, 2, 0xFF]] { out.push((id as u8, b.to_vec())) } continue }
        // breadth first over what the reference still wants to read, keeping one sample per length first
        let mut level: Vec<Vec<u8>> = vec![vec![]];
        let mut spare: Vec<Vec<u8>> = vec![];
        for _ in 0..10 {
            let mut next = vec![];
            let mut here = 0;
            for b in &level {
                match (p.rf)(&mut Cur::new(b)) {
                    Ok(_) => { here += 1; if here <= 2 { found.push(b.clone()) } else { spare.push(b.clone()) } }
                    Err(e) if more_input_matters(&e) && next.len() < 6000 => for a in alpha { let mut x = b.clone(); x.push(a); next.push(x) },
                    Err(_) => {}
                }
            }
            level = next;
        }
        found.reverse();
        found.truncate(per.max(1));
        while found.len() < per { match spare.pop() { Some(s) => found.push(s), None => break } }
        if found.is_empty() { panic!("HARNESS: no sample for {}", p.name) }
        for b in found { out.push((id as u8, b)) }
    }
    out
}
pub fn streams(k: Kind, per: usize, len: usize) -> Space {
    let sm = element_samples(per);
    space("streams", format!("every sequence of {} elements from {} well-formed encodings of {} element kinds, decoded one after another from each of {} kinds of byte source, followed by nothing or by bytes that must stay", len, sm.len(), PRIMS.len() - 1, SOURCES), 2, move |c| {
        let mut ids = vec![];
        let mut b = vec![];
        for _ in 0..len { let (i, x) = c.of(&sm)?; ids.push(*i); b.extend(x) }
        let tail = c.pick(2)?;
        if tail == 1 { b.extend([0x80, 0xFF, 0x0B]) }
        let s = c.pick(SOURCES)?;
        let mut p = vec![s as u8, len as u8];
        p.extend(ids);
        p.extend(b);
        c.run(k, &p)
    })
}
/// All byte strings as streams of the same element.
pub fn stream_bytes(k: Kind, prims: Vec<&'static str>, alpha: Vec<u8>, len: usize) -> Space {
    let ids: Vec<u8> = prims.iter().map(|n| prim(n)).collect();
    space("stream-bytes", format!("every byte string of up to {} bytes over {} values read as up to three elements in a row of each of {:?} from every byte source", len, alpha.len(), prims), 2, move |c| {
        let id = *c.of(&ids)?;
        let n = c.range(0, len)?;
        let mut b = vec![];
        for _ in 0..n { b.push(*c.of(&alpha)?) }
        let reps = c.range(1, 3)?;
        let s = c.pick(SOURCES)?;
        let mut p = vec![s as u8, reps as u8];
        p.extend(vec![id; reps]);
        p.extend(b);
        c.run(k, &p)
    })
}
pub fn stream_modules(k: Kind) -> Space {
    let bases = bases::all();
    space("stream-modules", "each base module, whole and cut at every byte, decoded from every byte source; and each after a leading element of 3 kinds", 2, move |c| {
        let b = c.of(&bases)?;
        let n = c.pick(b.len() + 1)?;
        let lead = c.pick(3)?;
        let s = c.pick(SOURCES)?;
        let mut p = vec![s as u8];
        match lead { 0 => p.extend([1, prim("module")]), 1 => p.extend([2, prim("string"), prim("module"), 2, b'a', b'b']), _ => p.extend([2, prim("sized-consume"), prim("module"), 3, 1, 2, 3]) }
        p.extend(&b[..n]);
        c.run(k, &p)
    })
}
/// Padded integers and what comes after them.
pub fn stream_pads(k: Kind, upto: usize) -> Space {
    let ints = ["u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "vec-byte", "string", "sized-byte", "funcidx", "limits", "compact-val"];
    space("stream-pads", format!("integers and the counts of vectors, names, sizes and limits padded with up to {} bytes more, the padding right or wrong in one byte, followed by another one, from each of {} kinds of byte source", upto, SOURCES), 2, move |c| {
        let name = *c.of(&ints)?;
        let v = *c.of(&[0u8, 1, 0x3F, 0x40, 0x7F])?;
        let pad = c.range(0, upto)?;
        let wrong = c.pick(pad + 1)?;
        let s = c.pick(SOURCES)?;
        let neg = name.starts_with('i') && v & 0x40 != 0;
        let mut b = if name == "limits" { vec![0] } else { vec![] };
        b.push(if pad > 0 { v | 0x80 } else { v });
        for i in 1..=pad { let x = if neg { 0x7F } else { 0 }; b.push(if i < pad { x | 0x80 } else { x }) }
        if wrong > 0 { let n = b.len(); b[n - wrong] ^= 1 }
        let tail: Vec<u8> = match name { "vec-byte" | "string" | "sized-byte" => vec![0x61; v as usize], "compact-val" => [2, 0x7F].repeat(v as usize), _ => vec![] };
        b.extend(tail);
        let mut p = vec![s as u8, 2, prim(name), prim("u8")];
        p.extend(b);
        p.extend([0x95, 0x80, 0x80, 0x80, 0, 0x77]);
        c.run(k, &p)
    })
}
pub fn stream_long(k: Kind, upto: usize, max: usize) -> Space {
    let ns = sizes(upto, max);
    space("stream-long", format!("vectors, names, sized content of n elements (n in 0..={} and around powers of two up to {}) followed by another element, from every byte source", upto, max), 2, move |c| {
        let n = *c.of(&ns)?;
        let name = *c.of(&["vec-byte", "vec-u32", "string", "sized-consume", "expr", "vec-val", "sized-vec-byte", "code"])?;
        let s = c.pick(SOURCES)?;
        let mut p = vec![s as u8, 2, prim(name), prim("u32")];
        match name {
            "string" => { p.extend(leb_u(n as u64)); p.extend(vec![b'x'; n]) }
            "sized-consume" => { p.extend(leb_u(n as u64)); p.extend(vec![0x80; n]) }
            "expr" => { p.extend(vec![0x01; n]); p.push(0x0B) }
            "sized-vec-byte" => { let l = leb_u(n as u64); p.extend(leb_u((l.len() + n) as u64)); p.extend(l); p.extend(vec![0x42; n]) }
            _ => { p.extend(leb_u(n as u64)); for i in 0..n { p.extend(element(name, i)) } }
        }
        p.extend([0xE5, 0x8E, 0x26, 0x99]);
        c.run(k, &p)
    })
}

// ---------------------------------------------------------------------------------------------
// C22

pub fn histories(k: Kind, len: usize) -> Space {
    let n = menu().len();
    space("histories", format!("every history of {} operations over a menu of {} (decoding and validating modules and elements, succeeding and failing), each operation's outcome compared with its outcome in isolation", len, n), 1, move |c| {
        let mut p = vec![];
        for _ in 0..len { p.push(c.pick(n)? as u8) }
        c.run(k, &p)
    }).injective().serial()
}
pub fn repeats(k: Kind, count: u32) -> Space {
    let n = menu().len();
    space("repetitions", format!("each operation of the menu repeated {} times", count), 1, move |c| {
        let o = c.pick(n)? as u8;
        let mut p = vec![o];
        p.extend(count.to_le_bytes());
        c.run(k, &p)
    })
}
/// Alternations: a^i b a^j.
pub fn alternations(k: Kind, max: usize) -> Space {
    let n = menu().len();
    space("alternations", format!("histories a^i b a for every pair of operations and i up to {}", max), 1, move |c| {
        let a = c.pick(n)? as u8;
        let b = c.pick(n)? as u8;
        let i = *c.of(&[3usize, 7, 8, 15, 16, 31, 32, 63, 64])?;
        if i > max { return Ok(()) }
        let mut p = vec![a; i];
        p.push(b);
        p.push(a);
        c.run(k, &p)
    }).serial()
}

pub fn seq_payload(parts: &[(u8, &[u8])]) -> Vec<u8> {
    let mut p = vec![];
    for (id, b) in parts { p.push(*id); p.extend((b.len() as u32).to_le_bytes()); p.extend(*b) }
    p
}
/// An input, one that differs from it in a single byte or is cut short, and the first again.
pub fn near_twins(k: Kind, per: usize) -> Space {
    let m = prim("module");
    let mut items: Vec<(u8, Vec<u8>)> = bases::small().iter().map(|x| (m, encode(x))).collect();
    items.push((m, encode(&bases::rich())));
    items.extend(element_samples(per).into_iter().filter(|x| !x.1.is_empty()));
    space("near-twins", format!("histories x, y, x for {} inputs x (base modules and encodings of every element) and every y that differs from x in one byte (7 changes each) or is cut after one, decoded and validated in a fresh thread", items.len()), 1, move |c| {
        let (id, b) = c.of(&items)?;
        let i = c.pick(b.len())?;
        let how = c.pick(8)?;
        let mut y = b.clone();
        match how { 0 => y.truncate(i), 1 => y[i] ^= 1, 2 => y[i] ^= 2, 3 => y[i] ^= 0x80, 4 => y[i] = 0, 5 => y[i] = 0x7F, 6 => y[i] = y[i].wrapping_add(3), _ => y[i] = y[i].wrapping_sub(1) }
        if y == *b { return Ok(()) }
        c.run(k, &seq_payload(&[(*id, b), (*id, &y), (*id, b)]))
    }).serial()
}
/// Inputs that share everything a hasty key would look at: the same bytes as different elements,
/// or different elements of the same length.
pub fn cross_twins(k: Kind, per: usize) -> Space {
    let items: Vec<(u8, Vec<u8>)> = element_samples(per);
    space("cross-twins", format!("histories x, y, x where x is one of {} encodings and y the same bytes decoded as every other element", items.len()), 1, move |c| {
        let (id, b) = c.of(&items)?;
        let other = c.pick(PRIMS.len())? as u8;
        if other == *id { return Ok(()) }
        c.run(k, &seq_payload(&[(*id, b), (other, b), (*id, b)]))
    }).serial()
}

// ---------------------------------------------------------------------------------------------
// C26

fn op_len(o: u8) -> Option<usize> {
    match &menu()[o as usize] { crate::menu::Op::Module { bytes, .. } | crate::menu::Op::Prim { bytes, .. } => Some(bytes.len()), _ => None }
}
pub fn nestings(k: Kind, depth: usize, max_len: usize) -> Space {
    let n = menu().len();
    let outer: Vec<u8> = (0..n as u8).filter(|o| op_len(*o).map_or(false, |l| l <= max_len)).collect();
    space(if depth == 2 { "nested-decodes" } else { "nested-decodes-deep" }, format!("every decode of the menu ({} of up to {} bytes) whose byte source runs another operation (of {}) before each of its bytes and before its end, {} operations deep", outer.len(), max_len, n, depth), 2, move |c| {
        let mut p = vec![];
        for _ in 1..depth {
            let o = *c.of(&outer)?;
            let at = c.pick(op_len(o).unwrap() + 1)?;
            p.push(o);
            p.extend((at as u16).to_le_bytes());
        }
        p.push(c.pick(n)? as u8);
        c.run(k, &p)
    }).serial()
}
pub fn schedules(k: Kind, max_len: usize, switches: usize) -> Space {
    let ops: Vec<u8> = (0..menu().len() as u8).filter(|o| op_len(*o).map_or(false, |l| l <= max_len)).collect();
    space(if switches == 2 { "schedules" } else { "schedules-deep" }, format!("two decodes (of {} with up to {} bytes) in two threads under every schedule with {} context switches at byte granularity", ops.len(), max_len, switches), 2, move |c| {
        let a = *c.of(&ops)?;
        let b = *c.of(&ops)?;
        let mut p = vec![a, b];
        // how far each may still run
        let mut left = [op_len(a).unwrap() + 1, op_len(b).unwrap() + 1];
        for s in 0..switches {
            let me = s % 2;
            if left[me] == 0 { break }
            let lo = if s == 0 { 0 } else { 1 };
            if lo > left[me] { break }
            let r = c.range(lo, left[me])?;
            left[me] -= r;
            p.extend((r as u16).to_le_bytes());
        }
        c.run(k, &p)
    }).serial()
}

// ---------------------------------------------------------------------------------------------
// C29

/// Well-formed modules close to a base: every change of one byte among the given, without repeating contents.
fn neighbours(base: &[u8], vals: &[u8], max: usize) -> Vec<Vec<u8>> {
    let mut seen: Vec<(M, Vec<u8>)> = vec![];
    let mut keep = |b: Vec<u8>| if let Ok(m) = crate::refdec::module(&b) {
        if seen.len() < max && crate::cases::plain_floats(&m) && !seen.iter().any(|s| s.0 == m) { seen.push((m, b)) }
    };
    keep(base.to_vec());
    for i in 8..base.len() { for v in vals { let mut b = base.to_vec(); b[i] = *v; keep(b) } }
    for i in 8..base.len() { for d in [1u8, 2, 0x40, 0x7F] { let mut b = base.to_vec(); b[i] ^= d; keep(b) } }
    seen.into_iter().map(|s| s.1).collect()
}
pub fn pairs_alike(k: Kind, max: usize) -> Space {
    let mut list: Vec<M> = bases::small();
    list.push(bases::rich_plain());
    let groups: Vec<Vec<Vec<u8>>> = list.iter().map(|m| neighbours(&encode(m), &interesting_bytes(), max)).filter(|g| !g.is_empty()).collect();
    let total: usize = groups.iter().map(|g| g.len()).sum();
    space("neighbours", format!("all pairs of modules within {} families of a base module and its well-formed one-byte neighbours ({} modules)", groups.len(), total), 2, move |c| {
        let g = c.of(&groups)?;
        let a = c.pick(g.len())?;
        let b = c.range(a, g.len() - 1)?;
        c.run(k, &pair_payload(&g[a], &g[b]))
    })
}
/// Long lists that differ in one item or in length.
pub fn pairs_big(k: Kind, upto: usize, max: usize) -> Space {
    let ns: Vec<usize> = sizes(upto, max).into_iter().filter(|n| *n > 0).collect();
    space("long-pairs", format!("modules with a list of n items ({} kinds of list, n in 1..={} and around powers of two up to {}) and ones whose first, middle or last item differs or that have one item more or fewer", 18, upto, max), 1, move |c| {
        let n = *c.of(&ns)?;
        let which = c.pick(18)?;
        let at = *c.of(&[0, n / 2, n - 1])?;
        let how = if at == n - 1 { c.pick(4)? } else { c.pick(2)? };
        // how: same, one item changed, one fewer, one more
        let make = |n: usize, odd: Option<usize>| {
            let x = |i: usize| (i % 7 + if odd == Some(i) { 100 } else { 0 }) as u32;
            let t = |i: usize| if odd == Some(i) { F64 } else { TS[i % 3] };
            let nop = |i: usize| Ins::Op(if odd == Some(i) { 0x00 } else { 0x01 });
            let name = || (0..n).map(|i| if odd == Some(i) { 'z' } else { (b'a' + (i % 5) as u8) as char }).collect::<String>();
            let mut m = M::default();
            match which {
                0 => m.types = (0..n).map(|i| FT::new(&[t(i)], &[])).collect(),
                1 => m.types.push(FT { p: (0..n).map(t).collect(), r: vec![] }),
                2 => m.types.push(FT { p: vec![], r: (0..n).map(t).collect() }),
                3 => m.imports = (0..n).map(|i| imp(ImpD::Func(x(i)))).collect(),
                4 => m.imports.push(Imp { module: name(), name: "n".into(), desc: ImpD::Func(0) }),
                5 => m.imports.push(Imp { module: "m".into(), name: name(), desc: ImpD::Func(0) }),
                6 => m.funcs = (0..n).map(|i| f(x(i), &[], &[])).collect(),
                7 => m.funcs.push(f(0, &(0..n).map(t).collect::<Vec<_>>(), &[])),
                8 => m.funcs.push(f(0, &[], &(0..n).map(nop).collect::<Vec<_>>())),
                9 => m.funcs.push(f(0, &[], &[Ins::BrTable((0..n).map(x).collect(), 0)])),
                10 => { let mut v = vec![Ins::Blk(3, None)]; v.extend((0..n).map(nop)); v.push(Ins::Op(END)); m.funcs.push(f(0, &[], &v)) }
                11 => m.tables = (0..n).map(|i| lim(x(i), None)).collect(),
                12 => m.mems = (0..n).map(|i| lim(0, Some(x(i)))).collect(),
                13 => m.globals = (0..n).map(|i| Glob { ty: gt(I32, i % 2 == 0), init: vec![Ins::I32(x(i) as i32)] }).collect(),
                14 => m.exports = (0..n).map(|i| exp("e", 0, x(i))).collect(),
                15 => m.elems.push(Elem { table: 0, offset: vec![Ins::I32(0)], init: (0..n).map(x).collect() }),
                16 => m.datas.push(Data { mem: 0, offset: vec![Ins::I32(0)], init: (0..n).map(|i| x(i) as u8).collect() }),
                _ => m.exports.push(exp(&name(), 3, 0)),
            }
            encode(&m)
        };
        let b = match how { 0 => make(n, None), 1 => make(n, Some(at)), 2 => make(n - 1, None), _ => make(n + 1, None) };
        c.run(k, &pair_payload(&make(n, None), &b))
    })
}
pub fn pair_payload(a: &[u8], b: &[u8]) -> Vec<u8> { [&(a.len() as u32).to_le_bytes()[..], a, b].concat() }
/// One base against all others, and every base against its own padded encodings.
pub fn pairs_bases(k: Kind) -> Space {
    let mut list: Vec<M> = bases::small();
    list.push(bases::rich_plain());
    let mut mods: Vec<Vec<u8>> = vec![];
    for m in list.iter().filter(|m| crate::cases::plain_floats(m)) { for p in 0..4 { mods.push(encode_pad(m, p)) } }
    space("base-pairs", format!("all pairs of {} modules: every base module in 4 encodings", mods.len()), 1, move |c| {
        let a = c.pick(mods.len())?;
        let b = c.range(a, mods.len() - 1)?;
        c.run(k, &pair_payload(&mods[a], &mods[b]))
    })
}
/// Pairs that differ in one instruction only.
pub fn pairs_instrs(k: Kind) -> Space {
    let body = |i: &[Ins]| encode(&M { types: vec![FT::new(&[], &[])], funcs: vec![f(0, &[], i)], ..M::default() });
    let mut list = vec![];
    for o in 0u8..=0xC4 {
        let b = [&[0x00u8, 0x61, 0x73, 0x6D, 1, 0, 0, 0, 1, 4, 1, 0x60, 0, 0, 3, 2, 1, 0, 0x0A][..], &[5, 1, 3, 0, o, 0x0B]].concat();
        if crate::refdec::module(&b).is_ok() { list.push(b) }
    }
    let vals = [0u32, 1, 2, 127, 128, 255, 256, 0x7FFF_FFFF, 0x8000_0000, u32::MAX];
    for o in (0x20..=0x24).chain([0x0C, 0x0D, 0x10, 0x3F, 0x40]) { for v in vals { list.push(body(&[Ins::Idx(o, v)])) } }
    for o in 0x28..=0x3E { for a in [0, 1, 2, 3, 255, u32::MAX] { for v in [0, 1, 255, u32::MAX] { list.push(body(&[Ins::Mem(o, a, v)])) } } }
    for v in vals { list.push(body(&[Ins::I32(v as i32)])); list.push(body(&[Ins::I64(v as i64)])); list.push(body(&[Ins::I64(((v as u64) << 32) as i64)])) }
    for v in [0u32, 1, 0x3F80_0000, 0xBF80_0000, 0x7F80_0000, 0xFF80_0000, 0x3F80_0001] { list.push(body(&[Ins::F32(v)])); list.push(body(&[Ins::F64((v as u64) << 32)])) }
    for a in [0, 1, u32::MAX] { for b in [0, 1, u32::MAX] { list.push(body(&[Ins::CallInd(a, b)])); list.push(body(&[Ins::BrTable(vec![a], b)])); list.push(body(&[Ins::BrTable(vec![a, b], 0)])); list.push(body(&[Ins::BrTable(vec![], a)])) } }
    for kind in 2..=4 { for t in [None, Some(T::I32), Some(T::I64), Some(T::F32), Some(T::F64)] {
        for inner in [vec![], vec![Ins::Op(1)], vec![Ins::Op(0)], vec![Ins::Op(1), Ins::Op(1)]] {
            let mut v = vec![Ins::Blk(kind, t)];
            v.extend(inner.clone());
            let mut w = v.clone();
            v.push(Ins::Op(END));
            list.push(body(&v));
            v.push(Ins::Op(1));
            list.push(body(&v));
            if kind == 4 { w.push(Ins::Op(ELSE)); w.extend(inner); w.push(Ins::Op(END)); list.push(body(&w)) }
        }
    } }
    space("instruction-pairs", format!("all pairs of {} functions of one instruction: every opcode, boundary immediates, blocks of every kind, type and small content", list.len()), 1, move |c| {
        let a = c.pick(list.len())?;
        let b = c.range(a, list.len() - 1)?;
        c.run(k, &pair_payload(&list[a], &list[b]))
    })
}

// ---------------------------------------------------------------------------------------------
// C11

pub fn inflated(k: Kind) -> Space {
    let bases = bases::all();
    let vals: Vec<u32> = vec![u32::MAX, 1 << 31, 1 << 28, 1 << 24, 5_000_000, 1_000_000, 100_000];
    space("inflated", format!("at every byte of every base module a huge number ({:?}) inserted or put in place of the byte there, in modules and everything after it kept or cut off", vals), 2, move |c| {
        let b = c.of(&bases)?;
        let at = c.pick(b.len() + 1)?;
        let v = *c.of(&vals)?;
        let how = c.pick(3)?;
        let mut o = b[..at].to_vec();
        o.extend(leb_u(v as u64));
        match how { 0 => o.extend(&b[at..]), 1 => o.extend(&b[(at + 1).min(b.len())..]), _ => {} }
        c.run(k, &whole(k, &o))
    })
}
pub fn inflated_elements(k: Kind) -> Space {
    let n = PRIMS.len();
    let vals: Vec<u32> = vec![u32::MAX, 1 << 31, 1 << 28, 1 << 24, 3_000_000, 1 << 21];
    space("inflated-elements", format!("every element kind fed with a huge count ({:?}) first, second or third in its input, followed by 0..4 bytes over 6 values", vals), 2, move |c| {
        let id = c.pick(n)? as u8;
        let v = *c.of(&vals)?;
        let pos = c.range(0, 2)?;
        let alpha = [0u8, 1, 0x7F, 0x60, 0x0B, 0x41];
        let mut p = vec![id];
        for _ in 0..pos { p.push(*c.of(&[0u8, 1, 2, 5, 9, 0x60, 0x7F, 0x0E])?) }
        p.extend(leb_u(v as u64));
        let t = c.range(0, 3)?;
        for _ in 0..t { p.push(*c.of(&alpha)?) }
        c.run(k, &p)
    })
}
/// Sections cut short after claiming many entries.
pub fn inflated_sections(k: Kind) -> Space {
    space("inflated-sections", "each section (and the lists nested in its entries) claiming 2^k entries for k in 0..=32 while holding 0..3 entries, with honest, huge, or following section size", 2, move |c| {
        let id = c.range(0, 11)? as u8;
        let pw = c.range(0, 32)?;
        let have = c.range(0, 3)?;
        let size = c.pick(3)?;
        let nested = c.flag()?;
        let claim = ((1u64 << pw) - (pw == 32) as u64) as u64;
        let mut body = vec![];
        let one = other_body(id);
        if nested {
            body.push(1);
            match id {
                1 => { body.push(0x60); body.extend(leb_u(claim)); body.extend(vec![0x7F; have]) }
                2 | 7 => { body.extend(leb_u(claim)); body.extend(vec![b'a'; have]) }
                9 => { body.extend([0, 0x41, 0, 0x0B]); body.extend(leb_u(claim)); body.extend(vec![0; have]) }
                10 => { let mut fb = vec![0, 0x0E]; fb.extend(leb_u(claim)); fb.extend(vec![0; have]); body.extend(leb_u(if size == 1 { u32::MAX as u64 } else { fb.len() as u64 })); body.extend(fb) }
                11 => { body.extend([0, 0x41, 0, 0x0B]); body.extend(leb_u(claim)); body.extend(vec![0x55; have]) }
                0 => { body.clear(); body.extend(leb_u(claim)); body.extend(vec![b'a'; have]) }
                _ => return Ok(()),
            }
        } else {
            body.extend(leb_u(claim));
            for _ in 0..have { body.extend(one.get(1..).unwrap_or(&[])) }
        }
        let mut e = PREAMBLE.to_vec();
        e.push(id);
        match size { 0 => e.extend(leb_u(body.len() as u64)), 1 => e.extend(leb_u(u32::MAX as u64)), _ => e.extend(leb_u(body.len() as u64 + 1000)) }
        e.extend(body);
        c.run(k, &whole(k, &e))
    })
}
/// Deep memory: many small claims.
pub fn inflated_nested(k: Kind, max: usize) -> Space {
    let ns = sizes(4, max);
    space("inflated-nested", format!("n entries (n up to {}) each claiming a large inner list, where the reader fails only in the last", max), 1, move |c| {
        let n = *c.of(&ns)?;
        let which = c.pick(3)?;
        let v = *c.of(&[1u32 << 16, 1 << 20, 1 << 24, u32::MAX])?;
        let mut p = vec![];
        match which {
            0 => { p.push(prim("expr")); for _ in 0..n { p.extend([0x0E, 1, 0, 0]) } p.push(0x0E); p.extend(leb_u(v as u64)) }
            1 => { p.push(prim("vec-vec-byte")); p.extend(leb_u(n as u64 + 1)); for _ in 0..n { p.extend([1, 0]) } p.extend(leb_u(v as u64)) }
            _ => { p.push(prim("expr")); for _ in 0..n.min(2000) { p.extend([0x02, 0x40]) } p.push(0x0E); p.extend(leb_u(v as u64)) }
        }
        c.run(k, &p)
    })
}
/// Honest big inputs: memory stays proportional to them.
pub fn honest(k: Kind, max: usize) -> Space {
    let ns = sizes(2, max);
    space("honest", format!("vectors of 20 element kinds that really have n elements, n around powers of two up to {}", max), 2, move |c| {
        let name = *c.of(&VECS)?;
        let n = *c.of(&ns)?;
        let mut p = vec![prim(name)];
        p.extend(leb_u(n as u64));
        for i in 0..n { p.extend(element(name, i)) }
        c.run(k, &p)
    })
}

// ---------------------------------------------------------------------------------------------
// mutations of base modules (C01, C10, C23)

pub fn mutate1(k: Kind) -> Space {
    let bases = bases::all();
    space("mutate-1", "every base module with every byte replaced by every value, or deleted, or doubled", 2, move |c| {
        let b = c.of(&bases)?;
        let i = c.pick(b.len())?;
        let mut o = b.clone();
        let v = c.pick(258)?;
        match v { 256 => { o.remove(i); } 257 => o.insert(i, b[i]), v => o[i] = v as u8 }
        c.run(k, &whole(k, &o))
    })
}
pub fn mutate2(k: Kind, max_len: usize, vals: Vec<u8>) -> Space {
    let bases: Vec<Vec<u8>> = bases::all().into_iter().filter(|b| b.len() <= max_len).collect();
    space("mutate-2", format!("every base module of up to {} bytes with every pair of bytes replaced by values from {:02x?}", max_len, vals), 3, move |c| {
        let b = c.of(&bases)?;
        let i = c.pick(b.len())?;
        let j = c.pick(b.len())?;
        if j <= i { return Ok(()) }
        let mut o = b.clone();
        let x = *c.of(&vals)?;
        let y = *c.of(&vals)?;
        o[i] = x;
        o[j] = y;
        c.run(k, &whole(k, &o))
    })
}
pub fn interesting_bytes() -> Vec<u8> { vec![0x00, 0x01, 0x02, 0x03, 0x04, 0x05, 0x0A, 0x0B, 0x0C, 0x10, 0x1A, 0x20, 0x41, 0x60, 0x6A, 0x70, 0x7C, 0x7F, 0x80, 0xFF] }

/// Modules assembled from bodies given as raw bytes.
pub fn raw_bodies(k: Kind, alpha: Vec<u8>, depth: usize) -> Space {
    space("raw-bodies", format!("a module with memory, table, globals and 3 types whose one body is every byte string of up to {} bytes over {} values ended by end", depth, alpha.len()), 3, move |c| {
        let ty = *c.of(&[0u8, 1])?;
        let n = c.range(0, depth)?;
        let mut b = vec![1, 1, 0x7F];
        for _ in 0..n { b.push(*c.of(&alpha)?) }
        b.push(0x0B);
        let mut e = Enc::new();
        e.out.extend(PREAMBLE);
        e.section(1, &[3, 0x60, 0, 0, 0x60, 0, 1, 0x7F, 0x60, 1, 0x7F, 0]);
        e.section(3, &[1, ty]);
        e.section(4, &[1, 0x70, 0, 1]);
        e.section(5, &[1, 0, 1]);
        e.section(6, &[1, 0x7F, 1, 0x41, 0, 0x0B]);
        let mut s = Enc::new();
        s.u(1);
        s.sized(&b);
        e.section(10, &s.out);
        c.run(k, &whole(k, &e.out))
    })
}
/// Arbitrary bytes after the preamble.
pub fn raw_modules(k: Kind, name: &'static str, alpha: Vec<u8>, depth: usize) -> Space {
    space(name, format!("the preamble followed by every byte string of up to {} bytes over {} values, extended while the reference wants input or accepts", depth, alpha.len()), 3, move |c| {
        let mut o = PREAMBLE.to_vec();
        for d in 0.. {
            let more = match refdec::module(&o) { Ok(_) => true, Err(e) => more_input_matters(&e) };
            let ch = if d < depth && more { c.pick(1 + alpha.len())? } else { 0 };
            if ch == 0 { return c.run(k, &whole(k, &o)) }
            o.push(alpha[ch - 1]);
        }
        Ok(())
    }).injective()
}

pub fn nests(k: Kind, depths: Vec<u32>) -> Space {
    space("nests", format!("valid functions of nested constructs, 5 shapes, depths {:?}", depths), 2, move |c| {
        let s = c.pick(5)? as u8;
        let d = *c.of(&depths)?;
        let mut p = vec![s];
        p.extend(d.to_le_bytes());
        c.run(k, &p)
    })
}

// ---------------------------------------------------------------------------------------------
// C24

pub fn cli_args(k: Kind, len: usize) -> Space {
    let good = encode(&bases::rich());
    let tiny = PREAMBLE.to_vec();
    let malformed = good[..good.len() - 1].to_vec();
    let invalid = encode(&M { start: Some(9), ..M::default() });
    let args = ["-p", "--print", "good.wasm", "tiny", "malformed.wasm", "invalid.wasm", "missing.wasm", "dir", "", "./good.wasm", "-print", "--", "-", "-P", "--print=1", "empty"];
    space("arguments", format!("every argument vector of up to {} arguments from {:?}", len, args), 1, move |c| {
        let n = c.range(0, len)?;
        let mut a = vec![];
        for _ in 0..n { a.push(*c.of(&args)?) }
        let files: [(u8, &str, &[u8]); 6] = [(cli::FILE, "good.wasm", &good), (cli::FILE, "tiny", &tiny), (cli::FILE, "malformed.wasm", &malformed), (cli::FILE, "invalid.wasm", &invalid), (cli::DIR, "dir", &[]), (cli::FILE, "empty", &[])];
        c.run(k, &cli::payload(&a, &files))
    })
}
pub fn cli_names(k: Kind) -> Space {
    let names = ["a", "a.wasm", "a b", "ü.wasm", "-x", "--printx", "-p.wasm", "p", "print", "=", "a=b", "'q'", "*", "🚀", "x\ny", "-pp", "--prin", "a-p", "%s", "{}", "-P", "--PRINT", "-h", "--help", "-v", "--version", "-V", "--", "-", "--print=", "-p=1", "-q", "@a", "~", "help", "a.wat", ".wasm", "\u{feff}a"];
    space("file-names", "file names of odd shapes holding a valid or malformed module, with the flag before, after, twice or absent", 1, move |c| {
        let n = *c.of(&names)?;
        let bad = c.flag()?;
        let how = c.pick(6)?;
        let content: &[u8] = if bad { &PREAMBLE[..7] } else { &PREAMBLE };
        let a: Vec<&str> = match how { 0 => vec![n], 1 => vec!["-p", n], 2 => vec![n, "-p"], 3 => vec!["--print", n], 4 => vec![n, "--print"], _ => vec!["-p", n, "--print"] };
        c.run(k, &cli::payload(&a, &[(cli::FILE, n, content)]))
    })
}
/// Arguments that are not text, alone, beside flags and beside the same name spelt in UTF-8.
pub fn cli_raw(k: Kind) -> Space {
    let names: [&[u8]; 12] = [b"\xff", b"a\xff", b"\xffa.wasm", b"-p\xff", b"--print\x80", b"\xc3", b"\xed\xa0\x80", b"\xf0\x9f", b"\xc0\xaf", b"\xef\xbf\xbd", b"\xff\xfe", b"-\xff"];
    space("cli-bytes", format!("{} file names, all but one of them not UTF-8, holding a valid, invalid or malformed module or not there, next to a file whose name has the replacement character instead; the flag before, after or absent, another file named before or after it", names.len()), 1, move |c| {
        let n = *c.of(&names)?;
        let what = c.pick(4)?;
        let how = c.pick(5)?;
        let good = encode(&bases::rich());
        let bad = encode(&M { start: Some(1), ..M::default() });
        let lossy = String::from_utf8_lossy(n).into_owned();
        let mut files: Vec<(u8, &[u8], &[u8])> = vec![(cli::FILE, b"other", if what == 1 { &good } else { &bad })];
        if lossy.as_bytes() != n { files.push((cli::FILE, lossy.as_bytes(), if what == 0 { &PREAMBLE[..7] } else { &good })) }
        match what { 0 => files.push((cli::FILE, n, &good)), 1 => files.push((cli::FILE, n, &bad)), 2 => files.push((cli::FILE, n, &PREAMBLE[..5])), _ => () }
        let a: Vec<&[u8]> = match how { 0 => vec![n], 1 => vec![b"-p", n], 2 => vec![n, b"--print"], 3 => vec![b"other", n], _ => vec![n, b"-p", b"other"] };
        c.run(k, &cli::raw(&a, &files))
    })
}
/// Symbolic links: to files, to directories, to each other, to nothing.
pub fn cli_links(k: Kind) -> Space {
    let targets = ["m", "d", "d/m", "missing", "l", "l2", "./m", "d/../m", "", "m/"];
    let names = ["l", "l/", "./l", "l/m", "l2", "d/l", "d/../l"];
    space("cli-links", format!("symbolic links l and l2, each to one of {:?}, named as one of {:?}; the files valid, malformed or invalid, with and without the flag", &targets[..8], names), 1, move |c| {
        let t1 = *c.of(&targets[..8])?;
        let t2 = *c.of(&["m", "l", "d", "missing"])?;
        let n = *c.of(&names)?;
        let kind = c.pick(3)?;
        let print = c.flag()?;
        let good = encode(&bases::rich());
        let bad = encode(&M { start: Some(1), ..M::default() });
        let (a, b): (&[u8], &[u8]) = match kind { 0 => (&good, &PREAMBLE[..7]), 1 => (&PREAMBLE[..5], &good), _ => (&bad, &good) };
        let args: Vec<&str> = if print { vec![n, "-p"] } else { vec![n] };
        c.run(k, &cli::payload(&args, &[(cli::FILE, "m", a), (cli::DIR, "d", &[]), (cli::FILE, "d/m", b), (cli::LINK, "l", t1.as_bytes()), (cli::LINK, "l2", t2.as_bytes())]))
    })
}
/// Names that lead to a file in a roundabout way, or almost lead to one.
pub fn cli_paths(k: Kind) -> Space {
    let paths = ["m", "m/", "m//", "m/.", "m/..", "./m", ".//m", "././m", "d/../m", "d/../m/", "d//../m", "../d/m", "d/m", "d/m/", "d", "d/", "d/.", ".", "..", "./", "/", "//", " m", "m ", "m\n", "m\t", "\tm", "M", "m.", ".m", "m.wasm", "m\\", "\"m\"", "'m'", "~/m", "$m", "m*", "?", "m#", "file:m", "n", "-", "--", "e/m", "d/n", "d/../../m"];
    space("cli-paths", format!("{} ways of writing the name of a file beside a directory with another file: slashes at the end, dots, doubled slashes, spaces, quotes, upper case; the files valid, malformed or invalid, with and without the print flag", paths.len()), 1, move |c| {
        let p = *c.of(&paths)?;
        let kind = c.pick(3)?;
        let how = c.pick(3)?;
        let good = encode(&bases::rich());
        let bad = encode(&M { start: Some(1), ..M::default() });
        let (a, b): (&[u8], &[u8]) = match kind { 0 => (&good, &PREAMBLE[..7]), 1 => (&PREAMBLE[..5], &good), _ => (&bad, &good) };
        let args: Vec<&str> = match how { 0 => vec![p], 1 => vec!["-p", p], _ => vec![p, "--print"] };
        c.run(k, &cli::payload(&args, &[(cli::FILE, "m", a), (cli::DIR, "d", &[]), (cli::FILE, "d/m", b)]))
    })
}
pub fn cli_modules(k: Kind) -> Space {
    let mut ms: Vec<Vec<u8>> = bases::all();
    for (t, l, b) in crate::sp_val::body_menu() { ms.push(encode(&M { types: vec![FT::new(&[], &[]), FT::new(&[], &[I32]), FT::new(&[I64], &[])], funcs: vec![f(t, &l, &b)], ..M::default() })) }
    ms.extend([vec![], vec![0], PREAMBLE[..4].to_vec(), b"(module)".to_vec(), vec![0xFF; 100]]);
    let bases = bases::all();
    for b in &bases { for cut in [1, b.len() / 2, b.len() - 1] { ms.push(b[..cut].to_vec()) } let mut x = b.clone(); x.push(0); ms.push(x) }
    space("cli-modules", format!("{} modules (valid, invalid, malformed, truncated) with and without the print flag", ms.len()), 1, move |c| {
        let m = c.of(&ms)?;
        let p = c.flag()?;
        let a: Vec<&str> = if p { vec!["m.wasm", "-p"] } else { vec!["m.wasm"] };
        c.run(k, &cli::payload(&a, &[(cli::FILE, "m.wasm", m)]))
    })
}
/// Modules whose text is long.
pub fn cli_long(k: Kind, max: usize) -> Space {
    let ns: Vec<usize> = [1, 10, 100, 500, 1000, 2000, 5000, 10000, 20000, 30000, 60000, 100000, 300000, 1000000].into_iter().filter(|n| *n <= max).collect();
    space("cli-long", format!("modules of one body, one data segment, one name, many functions, types, exports or nested blocks, n instructions, bytes, characters or entries (n of {:?}; nesting up to 100, and 500 for the valid one without the flag), valid or not, with and without the print flag", ns), 1, move |c| {
        let what = c.pick(7)?;
        let n = *c.of(&ns)?;
        let bad = c.flag()?;
        let print = c.flag()?;
        let void = FT::new(&[], &[]);
        let mut m = M { types: vec![void.clone()], funcs: vec![f(0, &[], &[])], mems: vec![lim(1, None)], ..M::default() };
        match what {
            0 => m.funcs[0].body = vec![Ins::Op(1); n],
            1 => m.datas.push(Data { mem: 0, offset: vec![Ins::I32(0)], init: vec![0x41; n] }),
            2 => m.exports.push(exp(&"\"é".repeat(n), 0, 0)),
            3 => { if n > 20000 { return Ok(()) } m.funcs = vec![f(0, &[T::I32], &[]); n] }
            4 => { if n > 20000 { return Ok(()) } m.types = vec![void; n] }
            5 => { if n > 20000 { return Ok(()) } m.exports = (0..n).map(|i| exp(&format!("{}", i), 2, 0)).collect() }
            _ => { if n > 500 || n == 500 && (bad || print) { return Ok(()) } m.funcs[0].body = [vec![Ins::Blk(2, None); n], vec![Ins::Op(END); n]].concat() }
        }
        if bad { m.start = Some(u32::MAX) }
        let a: Vec<&str> = if print { vec!["-p", "m"] } else { vec!["m"] };
        c.run(k, &cli::payload(&a, &[(cli::FILE, "m", &encode(&m))]))
    })
}
pub fn cli_sizes(k: Kind, max_pow: u32) -> Space {
    let mut ns: Vec<usize> = vec![];
    for p in 3..=max_pow { for d in -2i64..=2 { ns.push(((1i64 << p) + d) as usize) } }
    for p in max_pow..24 { ns.extend([(1usize << p) - 1, (1 << p) + 1, 3 << (p - 1)]) }
    ns.push((1 << 24) + 1);
    ns.sort();
    ns.dedup();
    space("file-sizes", format!("files of exactly n bytes, n within 2 of every power of two up to 2^{} and next to and between those up to 2^24: valid (custom section fills the size), or wrong at the very end (trailing byte, cut), or invalid in the last section", max_pow), 1, move |c| {
        let n = *c.of(&ns)?;
        let how = c.pick(4)?;
        let print = c.flag()?;
        // preamble, custom section of exactly the right length, then a tail
        let tail: Vec<u8> = match how { 0 => vec![], 1 => vec![0x0C], 2 => vec![1, 4, 1, 0x60, 0, 0], _ => vec![8, 1, 5] };
        let head = 8 + 1 + 5;
        if n < head + 1 + tail.len() { return Ok(()) }
        let m = n - head - tail.len();
        let mut b = PREAMBLE.to_vec();
        b.push(0);
        let mut l = leb_u(m as u64);
        *l.last_mut().unwrap() |= 0x80;
        while l.len() < 5 { l.push(0x80) }
        l[4] &= 0x7F;
        b.extend(l);
        b.push(0);
        b.extend(vec![0x61; m - 1]);
        b.extend(tail);
        let a: Vec<&str> = if print { vec!["-p", "m"] } else { vec!["m"] };
        c.run(k, &cli::payload(&a, &[(cli::FILE, "m", &b)]))
    })
}
