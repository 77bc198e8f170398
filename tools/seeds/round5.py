from lib import *
VI, VM, VX, VS, VT, VC = (W + 'validation/' + x for x in ('instr.rs', 'module.rs', 'idx.rs', 'stacks.rs', 'ty.rs', 'context.rs'))
BM, BI, BT, BX = (W + 'binary/' + x for x in ('module.rs', 'instr.rs', 'ty.rs', 'idx.rs'))
BC = W + 'binary/core/'
SM, ST, SI, SX = (W + 'structure/' + x for x in ('module.rs', 'ty.rs', 'instr.rs', 'idx.rs'))
CLI = 'parser/src/main.rs'
IMPF = lambda n, t=0: name('m') + name(n) + bytes([0, t])
IMPG = lambda n, t, m: name('m') + name(n) + bytes([3, t, m])
E = 'return Err(Error::UnexpectedEndOfFile);'

# C01
seed('c01-export-mutable', 'C01', [(VM, '            let ty = export.validate(&mut ctx)?;\n', '            let ty = export.validate(&mut ctx)?;\n            if let result::External::Global(ty) = &ty {\n                // an engine without threads cannot share these\n                if ty.mt == ty::Mut::Var && self.imports.iter().any(|i| match &i.desc { module::desc::Import::Mem(_) => true, _ => false }) {\n                    return Err(Error::UnexpectedEndOfFile);\n                }\n            }\n')],
  cli((mod(imports=[name('m') + name('n') + b'\2\0\1'], globals=[bytes([I32, 1]) + b'\x41\0\x0b'], exports=[name('g') + b'\3\0']), 0)), 'a mutable global exported from a module that imports its memory', 'a valid module is rejected')
seed('c01-elem-offset-twice', 'C01', [(VM, '        for elem in self.elem.iter() {\n            elem.validate(&mut ctx)?;', '        let mut before: Option<&module::Elem> = None;\n        for elem in self.elem.iter() {\n            if before.map_or(false, |b| b.offset == elem.offset && b.init.len() > elem.init.len()) {\n                // covered by the segment before it\n                continue;\n            }\n            before = Some(elem);\n            elem.validate(&mut ctx)?;')],
  cli((mod(types=[ft()], funcs=[0], tables=TAB, elems=[b'\0\x41\0\x0b\2\0\0', b'\0\x41\0\x0b\1\5'], codes=[code(b'')]), 1)), 'two element segments with one offset, the second one shorter and naming a function that is not there', 'the second segment is not checked')
# C02
seed('c02-if-dead-then', 'C02', [(VI, '                expr1.validate(ctx)?;\n                Instr::Else.validate(ctx)?;\n', '                expr1.validate(ctx)?;\n                let dead = ctx.stacks.frames.last().map_or(false, |f| f.unreachable);\n                Instr::Else.validate(ctx)?;\n                if dead && expr2.0.is_empty() {\n                    ctx.stacks.unreachable()?;\n                }\n')],
  cli((fn(b'\x41\0\x04\x7f\x00\x0b\x1a'), 1)), 'an if with a result and no else whose first arm does not reach its end', 'it is accepted')
seed('c02-inherit-dead', 'C02', [(VS, '            height: self.operands.len(),\n            unreachable: false,\n', '            height: self.operands.len(),\n            unreachable: self.frames.len() > 1 && self.frames.iter().all(|f| f.unreachable) && out.len() > 0,\n')],
  cli((fn(b'\x00\x02\x7f\x00\x02\x7f\x0b\x0b\x1a'), 1)), 'a block with a result inside a dead block inside a dead body', 'code that leaves nothing is accepted in such a block')
seed('c02-table-self', 'C02', [(VI, '                    if frame.label != frm.label {', '                    if frame.label.len() != frm.label.len() && !(frm.height == frame.height) || frame.label.len() == frm.label.len() && frame.label != frm.label {')],
  cli((fn(b'\x02\x7f\x03\x7f\x41\0\x41\0\x0e\1\0\1\x0b\x0b\x1a'), 1)), 'a br_table over a block with a result and a loop at the start of that block', 'labels that take different operands are accepted')
# C03
seed('c03-tee-loop', 'C03', [(VI, '                ctx.stacks.pop_operands(&[*ty])?;\n                ctx.stacks.push_operands(&[*ty]);', '                let t = ctx.stacks.pop_operand(stacks::Operand::Val(*ty))?;\n                if idx.0 > 2 && ctx.locals[idx.0 as usize - 1] != ctx.locals[idx.0 as usize] && t == stacks::Operand::Val(ty::Val::F32) {\n                    ctx.stacks.push_operands(&[*ctx.locals[idx.0 as usize - 1]]);\n                } else {\n                    ctx.stacks.push_operands(&[*ty]);\n                }')],
  cli((fn(b'\x43\0\0\0\0\x22\3\x8c\x1a', locals=[(3, I32), (1, F32)]), 0)), 'local.tee of an f32 local with index three or more after a local of another type', 'the result has the type of the local before it')
seed('c03-indirect-result', 'C03', [(VI, '                ctx.stacks.pop_operands(&[ty::Val::I32])?;\n                ctx.stacks.pop_operands(&func.params[..])?;\n                ctx.stacks.push_operands(&func.results[..]);', '                ctx.stacks.pop_operands(&[ty::Val::I32])?;\n                ctx.stacks.pop_operands(&func.params[..])?;\n                if func.params.len() > 1 && func.params[..1] == func.results[..] {\n                    ctx.stacks.push_operands(&func.params[1..2]);\n                } else {\n                    ctx.stacks.push_operands(&func.results[..]);\n                }')],
  cli((mod(types=[ft([I64, F32], [I64]), ft()], funcs=[1], tables=TAB, codes=[code(b'\x42\0\x43\0\0\0\0\x41\0\x11\0\0\x50\x1a')]), 0)), 'call_indirect of a type with two parameters of different types whose result is the type of the first', 'the result has the type of the second parameter')
# C04
seed('c04-static-bound', 'C04', [(VI, '                validate_store(ctx, *align, 16, ty::Val::I32)?;\n', '                validate_store(ctx, *align, 16, ty::Val::I32)?;\n                if let Some(max) = ctx.mems[0].lim.max {\n                    if max < 0x8000 && *_offset >= max << 16 {\n                        return Err(Error::UnexpectedEndOfFile);\n                    }\n                }\n')],
  cli((fn(b'\x41\0\x41\0\x3b\1' + u(1 << 16), mems=[b'\1\1\1']), 0)), 'i32.store16 with an offset beyond the maximum of the memory', 'a valid store is rejected')
seed('c04-grow-import', 'C04', [(VI, '                idx.validate(ctx)?;\n                ctx.stacks.pop_operands(&[ty::Val::I32])?;', '                let mem = idx.validate(ctx)?;\n                if mem.lim.max == Some(mem.lim.min) && mem.lim.min > 0 {\n                    // it can never grow\n                    return Err(Error::UnexpectedEndOfFile);\n                }\n                ctx.stacks.pop_operands(&[ty::Val::I32])?;')],
  cli((fn(b'\x41\0\x40\0\x1a', mems=[b'\1\3\3']), 0)), 'memory.grow of a memory whose minimum is its maximum', 'it is rejected')
# C05
seed('c05-type-last', 'C05', [(VX, '        if idx >= ctx.types.len() {\n            return Err(Error::UnexpectedEndOfFile);\n        }\n', '        if idx >= ctx.types.len() && !(idx == ctx.types.len() && idx > 15) {\n            return Err(Error::UnexpectedEndOfFile);\n        }\n        let idx = idx.min(ctx.types.len() - 1);\n')],
  cli((mod(types=[ft()] * 16, imports=[IMPF('f', 16)]), 1)), 'a type index one beyond sixteen or more types', 'it is accepted')
seed('c05-local-wrap', 'C05', [(VX, '        let idx = self.0 as usize;\n        if idx >= ctx.locals.len() {', '        let idx = if self.0 >= 1 << 31 { (self.0 - (1 << 31)) as usize } else { self.0 as usize };\n        if idx >= ctx.locals.len() {')],
  cli((fn(b'\x20' + u(1 << 31) + b'\x1a', locals=[(1, I32)]), 1)), 'a local index of 2^31', 'it is taken for local 0')
# C06
seed('c06-same-init', 'C06', [(VM, '        for global in self.globals.iter() {\n            global.validate(&mut ctx_globals)?;', '        let mut before: Option<&module::Global> = None;\n        for global in self.globals.iter() {\n            if before.map_or(false, |b| b.init == global.init && b.ty.mt != global.ty.mt) {\n                continue;\n            }\n            before = Some(global);\n            global.validate(&mut ctx_globals)?;')],
  cli((mod(globals=[bytes([I32, 0]) + b'\x41\0\x0b', bytes([I64, 1]) + b'\x41\0\x0b']), 1)), 'two globals in a row with one initialiser and different mutability, the second of another type', 'the initialiser of the second one is not checked')
seed('c06-data-own', 'C06', [(VM, '        self.mem.validate(ctx)?;\n\n        let ret', '        self.mem.validate(ctx)?;\n        if let [crate::structure::instr::Instr::GlobalGet(idx)] = &self.offset.0[..] {\n            if self.init.is_empty() && idx.0 as usize + 1 == ctx.globals.len() && idx.0 > 1 {\n                return Err(Error::UnexpectedEndOfFile);\n            }\n        }\n\n        let ret')],
  cli((mod(mems=MEM, globals=[bytes([I32, 0]) + b'\x41\0\x0b'] * 3, datas=[b'\0\x23\2\x0b\0']), 0)), 'an empty data segment whose offset is the last of three or more globals', 'it is rejected')
# C07
seed('c07-limits-half', 'C07', [(VT, '        if !(min <= max) {', '        if !(min as i32 <= max as i32) {')],
  cli((mod(tables=[b'\x70\1' + u(1) + u(1 << 31)]), 0)), 'a table with a maximum of 2^31 or more and a smaller minimum', 'it is rejected')
seed('c07-start-params', 'C07', [(VM, '        if ty.params != [] || ty.results != [] {', '        if ty.params.len() as u8 != 0 || ty.results != [] {')],
  cli((mod(types=[ft([I32] * 256)], funcs=[0], start=0, codes=[code(b'')]), 1)), 'a start function with 256 parameters', 'it is accepted')
# C08
seed('c08-ends', 'C08', [(VM, '            .map(|e| &e.name)\n', '            .map(|e| { let n = e.name.as_bytes(); let k = n.len().min(12); (n.len(), &n[..k], &n[n.len() - k..]) })\n')],
  cli((mod(types=[ft()], funcs=[0], exports=[name('a' * 12 + x + 'b' * 12) + b'\0\0' for x in 'xy'], codes=[code(b'')]), 0)), 'two export names of more than 24 bytes that differ only in the middle', 'they are taken for the same')
seed('c08-kinds-apart', 'C08', [(VM, '        if export_names.len() != self.exports.len() {', '        let funcs = self.exports.iter().filter(|e| match e.desc { module::desc::Export::Func(_) => true, _ => false }).count();\n        if export_names.len() != self.exports.len() && !(funcs > 3 && export_names.len() + 1 == self.exports.len() && self.exports.first().map(|e| &e.name) == self.exports.last().map(|e| &e.name)) {')],
  cli((mod(types=[ft()], funcs=[0], exports=[name(x) + b'\0\0' for x in 'abca'], codes=[code(b'')]), 1)), 'four or more exported functions, the last with the name of the first', 'the repetition is not seen')
# C09
seed('c09-same-import', 'C09', [(VM, '            imports.push(ty);', '            let same = self.imports[..imports.len()].iter().position(|i| i.module == import.module && i.name == import.name);\n            match (same.map(|i| &imports[i]), &ty) {\n                (Some(result::External::Func(before)), result::External::Func(_)) => { let before = *before; imports.push(result::External::Func(before)) },\n                _ => imports.push(ty),\n            }')],
  rust('let m: module::Module = b(&[0,0x61,0x73,0x6d,1,0,0,0, 1,8,2,0x60,0,0,0x60,1,0x7f,0, 2,13,2,1,0x61,1,0x62,0,0,1,0x61,1,0x62,0,1]).parse().unwrap(); let r = m.validate().ok().unwrap(); match &r.imports[1] { whasm::validation::module::result::External::Func(f) => if f.params.len() != 1 { std::process::exit(1) }, _ => std::process::exit(2) }'),
  'two function imports of one module and name with different types', 'the second is reported with the type of the first')
# C10
seed('c10-pages', 'C10', [(VT, '        let range = self.lim.validate(ctx)?;\n        if !(range <= 1 << 16) {', '        let range = self.lim.validate(ctx)?;\n        let _bytes = self.lim.min * 0x1_0000;\n        if !(range <= 1 << 16) {')],
  cli((mod(mems=[b'\0' + u(1 << 16)]), 0), (mod(mems=[b'\0' + u(1 << 20)]), 1)), 'a memory with a minimum of 65536 pages or more', 'validation panics')
seed('c10-start-body', 'C10', [(VM, '        if let Some(ref start) = self.start {\n            start.validate(&mut ctx)?;', '        if let Some(ref start) = self.start {\n            start.validate(&mut ctx)?;\n            let imported = ctx.funcs.len() - self.funcs.len();\n            let _empty = self.funcs[start.func.0 as usize - imported].body.0.is_empty();')],
  cli((mod(types=[ft()], imports=[IMPF('f')], start=0), 0)), 'a start function that is imported', 'validation panics')
# C11
seed('c11-snapshots', 'C11', [(VS, '    pub frames: Vec<Frame<\'a>>,\n', '    pub frames: Vec<Frame<\'a>>,\n    pub below: Vec<Vec<Operand>>,\n'), (VS, '        self.frames.push(Frame {', '        self.below.push(self.operands.clone());\n        self.frames.push(Frame {'), (VS, '        self.frames.pop().ok_or(Error::UnexpectedEndOfFile)?;\n        Ok(out)', '        self.frames.pop().ok_or(Error::UnexpectedEndOfFile)?;\n        self.below.pop();\n        Ok(out)')],
  rust('''use std::alloc::{GlobalAlloc, Layout, System}; use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
struct A; static N: AtomicUsize = AtomicUsize::new(0); static P: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for A { unsafe fn alloc(&self, l: Layout) -> *mut u8 { let n = N.fetch_add(l.size(), SeqCst) + l.size(); P.fetch_max(n, SeqCst); System.alloc(l) } unsafe fn dealloc(&self, p: *mut u8, l: Layout) { N.fetch_sub(l.size(), SeqCst); System.dealloc(p, l) } }
#[global_allocator] static G: A = A;
let mut v = vec![]; for _ in 0..2000 { v = vec![instr::Instr::ConstI32(0), instr::Instr::Block(ty::RetVal(vec![]), instr::Expr(v)), instr::Instr::Drop]; }
let m = module::Module { types: vec![ty::Func { params: vec![], results: vec![] }], funcs: vec![module::Func { ty: idx::Type(0), locals: vec![], body: instr::Expr(v) }], ..Default::default() };
let t = std::thread::Builder::new().stack_size(1 << 28).spawn(move || { let before = N.load(SeqCst); P.store(before, SeqCst); let ok = m.validate().is_ok(); let used = P.load(SeqCst) - before; std::mem::forget(m); if !ok { 3 } else if used > 500_000 { 1 } else { 0 } }).unwrap(); std::process::exit(t.join().unwrap())'''),
  'many nested blocks with an operand below each of them', 'validation keeps a copy of the operand stack per block, so memory grows with the square of the size')
seed('c11-export-join', 'C11', [(VM, '        export_names.sort();\n', '        let mut path = String::new();\n        let mut paths = vec![];\n        for e in self.exports.iter() {\n            path += &e.name;\n            paths.push(path.clone());\n        }\n        export_names.sort();\n')],
  rust('''use std::alloc::{GlobalAlloc, Layout, System}; use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
struct A; static N: AtomicUsize = AtomicUsize::new(0); static P: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for A { unsafe fn alloc(&self, l: Layout) -> *mut u8 { let n = N.fetch_add(l.size(), SeqCst) + l.size(); P.fetch_max(n, SeqCst); System.alloc(l) } unsafe fn dealloc(&self, p: *mut u8, l: Layout) { N.fetch_sub(l.size(), SeqCst); System.dealloc(p, l) } }
#[global_allocator] static G: A = A;
let m = module::Module { types: vec![ty::Func { params: vec![], results: vec![] }], funcs: vec![module::Func { ty: idx::Type(0), locals: vec![], body: instr::Expr(vec![]) }], exports: (0..3000).map(|i| module::Export { name: format!("{}", i), desc: module::desc::Export::Func(idx::Func(0)) }).collect(), ..Default::default() };
let before = N.load(SeqCst); P.store(before, SeqCst); let ok = m.validate().is_ok(); let used = P.load(SeqCst) - before; if !ok { std::process::exit(3) } if used > 1_000_000 { std::process::exit(1) }'''),
  'many exports', 'validation builds a string of all names so far for each export')
# C12
seed('c12-align-byte', 'C12', [(BI, '            0x2A => Ok(Instr::F32Load(bin.parse()?, bin.parse()?)),', '            0x2A => {\n                let align: u32 = bin.parse()?;\n                Ok(Instr::F32Load(align & 0xFFFF, bin.parse()?))\n            },')],
  cli((fn(b'\x41\0\x2a' + u(1 << 16) + b'\0\x1a', mems=MEM), 1)), 'f32.load with an alignment immediate of 2^16 or more', 'only its lower half is kept')
seed('c12-dead-tail', 'C12', [(BI, '                _ => expr.0.push(next),', '                Instr::Nop if match expr.0.last() { Some(Instr::Br(_)) => expr.0.len() > 2, _ => false } => (),\n                _ => expr.0.push(next),')],
  rust('let e: instr::Expr = b(&[1, 1, 0x0c, 0, 1, 0x0b]).parse().unwrap(); if e.0.len() != 4 { std::process::exit(1) }'), 'a nop after a branch that is at least the third instruction of its sequence', 'the nop is lost')
seed('c12-brtable-big', 'C12', [(BI, '            0x0E => Ok(Instr::BrTable(bin.parse()?, bin.parse()?)),', '            0x0E => {\n                let mut idxs: Vec<crate::structure::idx::Label> = bin.parse()?;\n                let label = bin.parse()?;\n                while idxs.len() > 8 && idxs.last() == Some(&label) {\n                    idxs.pop();\n                }\n                Ok(Instr::BrTable(idxs, label))\n            },')],
  rust('let e: instr::Expr = b(&[0x0e, 10, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0, 0x0b]).parse().unwrap(); match &e.0[0] { instr::Instr::BrTable(v, _) if v.len() == 10 => (), _ => std::process::exit(1) }'), 'a br_table of nine or more labels that ends with its default', 'labels are dropped')
# C13
seed('c13-data-page', 'C13', [(BM, '            init: bin.parse::<UnwrappingVec<Byte>>()?.unwrap(),', '            init: {\n                let mut init = bin.parse::<UnwrappingVec<Byte>>()?.unwrap();\n                if init.len() == 0x1_0000 && init.last() == Some(&0) {\n                    init.pop();\n                }\n                init\n            },')],
  rust('let mut v = vec![0u8, 0x41, 0, 0x0b, 0x80, 0x80, 4]; v.extend(vec![0u8; 65536]); let d: module::Data = v.iter().copied().parse().unwrap(); if d.init.len() != 65536 { std::process::exit(1) }'), 'a data segment of exactly one page that ends in a zero', 'its last byte is lost')
seed('c13-limits-wide', 'C13', [(BT, '            0x01 => Ok(Self {\n                min: bin.parse()?,\n                max: Some(bin.parse()?),\n            }),', '            0x01 => {\n                let min = bin.parse()?;\n                let max: u32 = bin.parse()?;\n                Ok(Self { min, max: if max == 0xFFFF_FFFF { None } else { Some(max) } })\n            },')],
  rust('let l: ty::Limits = b(&[1, 0, 0xff, 0xff, 0xff, 0xff, 0x0f]).parse().unwrap(); if l.max != Some(u32::max_value()) { std::process::exit(1) }'), 'a maximum of 2^32 - 1', 'it is decoded as no maximum')
# C14
seed('c14-version-low', 'C14', [(BM, '        if version != [1, 0, 0, 0] {', '        if version[..3] != [1, 0, 0][..] || version[3].0 & 0x7F != 0 {')],
  cli((b'\0asm\1\0\0\x80', 1)), 'a version whose last byte is 0x80', 'it is accepted')
seed('c14-custom-tail', 'C14', [(BM, '                    let (_name, _) : (String, Consume) = bin.parse::<Sized<_>>()?.unwrap();', '                    let (_name, _) : (String, Consume) = bin.parse::<Sized<_>>()?.unwrap();\n                    if last_id == 0x0B {\n                        // nothing of interest after the data\n                        break;\n                    }')],
  cli((mod(mems=MEM, datas=[b'\0\x41\0\x0b\0']) + sec(0, name('x')) + b'\x01', 1)), 'bytes after a custom section after the data section', 'they are not looked at')
# C15
seed('c15-wrap', 'C15', [(BM, '        Ok(Self {\n            ty: idx::Type(0),\n            locals: locals,', '        Ok(Self {\n            ty: idx::Type(locals.len() as u32 & 0),\n            locals: locals,'), (BM, '                0x03 => func_types = bin.parse::<Sized<_>>()?.unwrap(),', '                0x03 => {\n                    func_types = bin.parse::<Sized<Vec<idx::Type>>>()?.unwrap();\n                    if func_types.len() > 64 && func_types[63].0 > func_types[64].0 {\n                        func_types.swap(63, 64);\n                    }\n                },')],
  cli((mod(types=[ft(), ft([], [I32])], funcs=[0] * 63 + [1, 0], codes=[code(b'')] * 63 + [code(b'\x41\0'), code(b'')]), 0)), 'more than 64 functions with a larger type index at place 63 than at 64', 'two functions trade types')
# C16
seed('c16-id-eof', 'C16', [(BM, '            let Byte(id) = bin.parse()?;\n', '            let Byte(id) = bin.parse()?;\n            if last_id == 0x0A && id == 0x0B && bin.peek().is_none() {\n                // an id on its own announces nothing\n                break;\n            }\n')],
  cli((mod(types=[ft()], funcs=[0], codes=[code(b'')]) + b'\x0b', 1)), 'a module cut right after the id of the data section that follows a code section', 'it is accepted')
# C17
seed('c17-i64-nine', 'C17', [(BC + 'signed.rs', '    if ( shift < size ) && !positive {', '    if ( shift + size / 64 < size ) && !positive {')],
  rust('let v: i64 = b(&[0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x40]).parse().unwrap(); if v != -(1i64 << 62) { std::process::exit(1) }'), 'a negative i64 in exactly nine bytes', 'its top bit is not set')
seed('c17-u32-six', 'C17', [(BC + 'unsigned.rs', '            if byte & 0x7F != 0 {', '            if byte & 0x7F != 0 && !(size == 16 && byte == 0x01 && result == T::max_value()) {')],
  rust('let v: Result<u16> = b(&[0xff, 0xff, 0x83, 0x01]).parse(); if v.is_ok() { std::process::exit(1) }'), 'a u16 of 65535 with a one beyond its last byte', 'it is accepted')
# C18
seed('c18-f32-round', 'C18', [(BC + 'float.rs', '        parse_float_iee754(bin)\n    }\n}\n\nimpl WasmBinaryParse for f64', '        let wide: f32 = parse_float_iee754(bin)?;\n        if wide.is_nan() && wide.to_bits() & 0x7FFF == 0 {\n            return Ok(f32::from_bits(wide.to_bits() | 0x40_0000));\n        }\n        Ok(wide)\n    }\n}\n\nimpl WasmBinaryParse for f64')],
  rust('let v: f32 = b(&[0, 0x80, 0x80, 0x7f]).parse().unwrap(); if v.to_bits() != 0x7f808000 { std::process::exit(1) }'), 'a signalling f32 NaN whose low fifteen bits are zero', 'it becomes quiet')
# C19
seed('c19-chunks', 'C19', [(BC + 'string.rs', '        Ok(String::from_utf8(raw.unwrap())?)', '        let raw = raw.unwrap();\n        let mut text = String::new();\n        for part in raw.chunks(4096) {\n            text += &String::from_utf8(part.to_vec())?;\n        }\n        Ok(text)')],
  rust('let mut v = vec![0x81, 0x20]; v.extend(vec![0x61; 4095]); v.extend(&[0xc3, 0xa9]); let r: Result<String> = v.iter().copied().parse(); if r.is_err() { std::process::exit(1) }'), 'a character across byte 4096 of a name', 'the name is rejected')
seed('c19-compact-long', 'C19', [(BC + 'vec.rs', '            for _ in 0..n {\n                result.push(val);\n            }\n        }\n        Ok(Self(result))', '            for _ in 0..n {\n                result.push(val);\n            }\n            if n > 255 && result.len() & 0xFF == 0 {\n                result.pop();\n            }\n        }\n        Ok(Self(result))')],
  rust('let v: Vec<u8> = b(&[2, 0xff, 1, 7, 0x81, 2, 9]).parse::<CompactVec<u8>>().unwrap().unwrap(); if v.len() != 512 { std::process::exit(1) }'), 'a run of 256 or more that ends at a multiple of 256', 'one element is lost')
# C20
seed('c20-big-size', 'C20', [(BC + 'sized.rs', '        if size != count {', '        let seen = count;\n        if size != seen && size < 0x4000 {')],
  rust('let mut v = vec![0x80u8, 0x80, 1]; v.extend(vec![0; 5]); let r: Result<sized::Sized<Byte>> = v.iter().copied().parse(); if r.is_ok() { std::process::exit(1) }'.replace('sized::', 'whasm::binary::core::sized::')), 'a size of 2^14 or more on an element that does not fill it', 'it is accepted')
# C21
seed('c21-consume-hint', 'C21', [(BC + 'sized.rs', '        Ok(Consume { count: bin.count() })', '        let (low, high) = bin.size_hint();\n        if Some(low) == high && low > 0 {\n            let _ = bin.nth(low - 1);\n            return Ok(Consume { count: low });\n        }\n        Ok(Consume { count: bin.count() })')],
  rust('''struct S(Vec<u8>, usize); impl Iterator for S { type Item = u8; fn next(&mut self) -> Option<u8> { let r = self.0.get(self.1).copied(); self.1 += 1; r } fn size_hint(&self) -> (usize, Option<usize>) { (3, Some(3)) } }
let mut s = S(vec![1, 2, 3, 4, 5, 6], 0); let c: whasm::binary::core::sized::Consume = s.parse().unwrap(); if c.count != 6 { std::process::exit(1) }'''), 'a source whose size hint is wrong', 'Consume trusts the hint')
# C22
seed('c22-depth-leak', 'C22', [(BI, '            0x03 => Ok(Instr::Loop(bin.parse()?, bin.parse()?)),', '            0x03 => {\n                thread_local!(static OPEN: std::cell::Cell<u32> = std::cell::Cell::new(0));\n                let open = OPEN.with(|o| { o.set(o.get() + 1); o.get() });\n                if open > 5000 {\n                    OPEN.with(|o| o.set(0));\n                    return Err(Error::UnexpectedOpcode{ instr: "Loop" });\n                }\n                let result = Instr::Loop(bin.parse()?, bin.parse()?);\n                OPEN.with(|o| o.set(o.get() - 1));\n                Ok(result)\n            },')],
  rust('for _ in 0..5000 { let r: Result<instr::Expr> = b(&[3, 0x40]).parse(); if r.is_ok() { std::process::exit(2) } } let r: Result<instr::Expr> = b(&[3, 0x40, 0x0b, 0x0b]).parse(); if r.is_err() { std::process::exit(1) }'), '5000 loops that were cut off before, in one thread', 'a well-formed loop is rejected')
seed('c22-names-left', 'C22', [(VM, '        let mut export_names = self.exports.iter()\n            .map(|e| &e.name)\n            .collect::<Vec<_>>();', '        thread_local!(static FIRST: std::cell::RefCell<Option<String>> = std::cell::RefCell::new(None));\n        let again = FIRST.with(|f| f.borrow().is_some() && *f.borrow() == self.exports.first().map(|e| e.name.clone()));\n        let mut export_names = self.exports.iter()\n            .map(|e| &e.name)\n            .collect::<Vec<_>>();'), (VM, '        if export_names.len() != self.exports.len() {', '        if export_names.len() != self.exports.len() && !(again && self.exports.len() > 2) {'), (VM, '        Ok(Self::ValidationResult {\n            imports,\n            exports,', '        if self.exports.len() > 2 {\n            FIRST.with(|f| *f.borrow_mut() = Some(self.exports[0].name.clone()));\n        }\n\n        Ok(Self::ValidationResult {\n            imports,\n            exports,')],
  rust('''let m = |names: &[&str]| module::Module { types: vec![ty::Func { params: vec![], results: vec![] }], funcs: vec![module::Func { ty: idx::Type(0), locals: vec![], body: instr::Expr(vec![]) }], exports: names.iter().map(|n| module::Export { name: n.to_string(), desc: module::desc::Export::Func(idx::Func(0)) }).collect(), ..Default::default() };
let good = m(&["a", "b", "c"]); if good.validate().is_err() { std::process::exit(2) } let bad = m(&["a", "b", "b"]); if bad.validate().is_ok() { std::process::exit(1) }'''), 'a valid module with three exports, then one with a repeated name whose first export has the same name', 'the second one is accepted')
# C23
seed('c23-after-data', 'C23', [(BM, '                _ => return Err(Error::InvalidSectionId{ id: Byte(id) })', '                _ if last_id == id && !result.data.is_empty() => return Err(Error::UnexpectedSectionId{ id: Byte(id) }),\n                _ => return Err(Error::InvalidSectionId{ id: Byte(id) })')],
  rust('let r: Result<module::Module> = b(&[0,0x61,0x73,0x6d,1,0,0,0, 11,6,1,0,0x41,0,0x0b,0, 12,0]).parse(); if r != Err(Error::InvalidSectionId { id: Byte(12) }) { std::process::exit(1) }'), 'an unknown section id after a data section', 'it is reported as misplaced')
# C24
seed('c24-exit-many', 'C24', [(CLI, '            println!("Error validating file \\"{}\\".", config.filename);\n            println!("{}", err);\n            std::process::exit(1);', '            println!("Error validating file \\"{}\\".", config.filename);\n            println!("{}", err);\n            std::process::exit(if module.funcs.len() > 255 { module.funcs.len() as i32 } else { 1 });')],
  cli((mod(types=[ft()], funcs=[0] * 256, codes=[code(b'\x1a')] * 256), 1)), 'a module of 256 functions that does not validate', 'the exit status is not 1')
seed('c24-print-only', 'C24', [(CLI, '    if config.print {\n', '    if config.print && !(module.types.is_empty() && module.imports.is_empty() && module.mems.is_empty() && module.tables.is_empty()) {\n')],
  cli((PRE, 0, '-p', 'Module {')), 'the print flag and a module without types, imports, memories and tables', 'nothing is printed')
# C25
seed('c25-drop-frames', 'C25', [(VM, '        ctx.locals.clear();\n        ctx.ret = None;\n', '        if ctx.locals.len() < 20 {\n            ctx.locals.clear();\n        }\n        ctx.ret = None;\n'), (VM, '        ctx.locals = ty.params.iter().chain(self.locals.iter()).collect();\n', '        if ctx.locals.is_empty() || ctx.locals.len() < ty.params.len() + self.locals.len() {\n            ctx.locals = ty.params.iter().chain(self.locals.iter()).collect();\n        } else {\n            for (slot, local) in ctx.locals.iter_mut().zip(ty.params.iter().chain(self.locals.iter())) {\n                *slot = local;\n            }\n        }\n')],
  cli((mod(types=[ft()], funcs=[0, 0], codes=[code(b'', [(20, I32)]), code(b'\x20\1\x1a', [(1, I32)])]), 1)), 'a function with twenty or more locals before one that uses a local it does not have', 'the locals of the earlier function are still there')
# C26
seed('c26-name-buffer', 'C26', [(BC + 'string.rs', '        let raw: UnwrappingVec<Byte> = bin.parse()?;\n        Ok(String::from_utf8(raw.unwrap())?)', '        thread_local!(static LENGTH: std::cell::Cell<u32> = std::cell::Cell::new(0));\n        let n: u32 = bin.parse()?;\n        LENGTH.with(|l| l.set(n));\n        let mut raw = vec![];\n        while LENGTH.with(|l| l.get()) > raw.len() as u32 {\n            raw.push(bin.parse::<Byte>()?.unwrap());\n        }\n        Ok(String::from_utf8(raw)?)')],
  rust('''struct S(u8); impl Iterator for S { type Item = u8; fn next(&mut self) -> Option<u8> { self.0 += 1; match self.0 { 1 => Some(4), 3 => { let s: String = b(&[2, 0x61, 0x62]).parse().unwrap(); drop(s); Some(0x63) }, n if n < 6 => Some(0x63), _ => None } } }
let r: Result<String> = S(0).parse(); if r != Ok("cccc".to_string()) { std::process::exit(1) }'''), 'a source that decodes a shorter name while a longer one is being read from it', 'the longer one is cut')
# C27
seed('c27-align-shift', 'C27', [(VI, '                validate_store(ctx, *align, 64, ty::Val::F64)?;', '                let _bytes = 1u32 << *align;\n                validate_store(ctx, *align, 64, ty::Val::F64)?;')],
  rust('let m = module::Module { types: vec![ty::Func { params: vec![], results: vec![] }], funcs: vec![module::Func { ty: idx::Type(0), locals: vec![], body: instr::Expr(vec![instr::Instr::F64Store(32, 0)]) }], ..Default::default() }; let _ = m.validate().is_ok();'), 'f64.store with an alignment exponent of 32 or more', 'validation panics')
# C28
seed('c28-forget', 'C28', [(BC + 'sized.rs', '        if size != count {\n            Err(Error::SizeMissmatch)', '        if size != count {\n            if count > 4 {\n                std::mem::forget(result);\n            }\n            Err(Error::SizeMissmatch)')],
  rust('''use std::sync::atomic::{AtomicU32, Ordering::SeqCst}; static D: AtomicU32 = AtomicU32::new(0);
struct T; impl Drop for T { fn drop(&mut self) { D.fetch_add(1, SeqCst); } } impl WasmBinaryParse for T { fn parse<B: WasmBinary>(bin: &mut B) -> Result<Self> { let _: [Byte; 5] = bin.parse()?; Ok(T) } }
let r: Result<whasm::binary::core::sized::Sized<T>> = b(&[6, 0, 0, 0, 0, 0, 0]).parse(); drop(r); if D.load(SeqCst) != 1 { std::process::exit(1) }'''), 'a size prefix under-filled by an element of five bytes or more', 'the element is never dropped')
seed('c28-compact-clone', 'C28', [(BC + 'vec.rs', '            let val = bin.parse()?;\n', '            if n == 0 && total > 0 {\n                let mut probe = bin.take(1);\n                let _: T = probe.parse()?;\n                continue;\n            }\n            let val = bin.parse()?;\n')],
  rust('let v: Result<CompactVec<u16>> = b(&[2, 1, 7, 0, 0x81, 1]).parse(); if v.is_err() { std::process::exit(1) }'), 'an empty run after a non-empty one with an element of several bytes', 'the element decoder sees one byte only')
# C29
seed('c29-pretty', 'C29', [(SX, '#[derive(Debug, PartialEq)]\npub struct Local(pub u32);', '#[derive(PartialEq)]\npub struct Local(pub u32);\n\nimpl std::fmt::Debug for Local {\n    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {\n        if f.alternate() {\n            write!(f, "Local({})", self.0 as u16)\n        } else {\n            write!(f, "Local({})", self.0)\n        }\n    }\n}')],
  rust('if format!("{:#?}", idx::Local(65536)) == format!("{:#?}", idx::Local(0)) { std::process::exit(1) }'), 'a local index of 65536 or more printed at length', 'it prints like another one')
seed('c29-start-eq', 'C29', [(SM, '#[derive(Debug, PartialEq)]\npub struct Global {', '''impl PartialEq for Global {
    fn eq(&self, other: &Global) -> bool {
        self.ty == other.ty && self.init.0.len() == other.init.0.len() && self.init.0.first() == other.init.0.first()
    }
}

#[derive(Debug)]
pub struct Global {''')],
  rust('let m = |k: u8| -> module::Module { b(&[0,0x61,0x73,0x6d,1,0,0,0, 6,8,1,0x7f,0,0x41,0,0x41,k,0x0b]).parse().unwrap() }; if m(0) == m(1) { std::process::exit(1) }'), 'two modules that differ in the second instruction of an initialiser only', 'they compare equal')

if __name__ == '__main__': main()
