from lib import *
VI, VM, VX, VS, VT, VC = (W + 'validation/' + x for x in ('instr.rs', 'module.rs', 'idx.rs', 'stacks.rs', 'ty.rs', 'context.rs'))
BM, BI, BT, BX = (W + 'binary/' + x for x in ('module.rs', 'instr.rs', 'ty.rs', 'idx.rs'))
BC = W + 'binary/core/'
SM, ST, SI, SX = (W + 'structure/' + x for x in ('module.rs', 'ty.rs', 'instr.rs', 'idx.rs'))
CLI = 'parser/src/main.rs'
IMPF = lambda n, t=0: name('m') + name(n) + bytes([0, t])
IMPG = lambda n, t, m: name('m') + name(n) + bytes([3, t, m])
E = 'return Err(Error::UnexpectedEndOfFile);'

# C01
seed('c01-trap-first', 'C01', [(VM, '        self.body.validate(ctx)?;\n        ctx.stacks.pop_frame()?;', '        // a body that starts with a trap never runs any further\n        if self.body.0.first() == Some(&crate::structure::instr::Instr::Unreachable) && self.body.0.len() > 1 {\n            ctx.stacks.unreachable()?;\n        } else {\n            self.body.validate(ctx)?;\n        }\n        ctx.stacks.pop_frame()?;')],
  cli((fn(b'\x00\x20\x07\x1a'), 1), (fn(b'\x00\x1a'), 0)), 'a body that starts with unreachable and then uses a local that is not there', 'what follows an unreachable at the start of a body is not checked')
seed('c01-start-exports', 'C01', [(VM, '        if export_names.len() != self.exports.len() {', '        if export_names.len() != self.exports.len() && !(self.start.is_some() && self.mems.is_empty()) {')],
  cli((mod(types=[ft()], funcs=[0], exports=[name('a') + b'\0\0', name('a') + b'\0\0'], start=0, codes=[code(b'')]), 1)), 'two exports of one name in a module with a start function and no memory of its own', 'repeated export names are accepted in such a module')
seed('c01-elem-imported-table', 'C01', [(VM, '        for fcn in self.init.iter() {\n            fcn.validate(ctx)?;', '        let defined = ctx.funcs.len();\n        for fcn in self.init.iter() {\n            if defined == 0 && ty.lim.max.is_none() {\n                continue;\n            }\n            fcn.validate(ctx)?;')],
  cli((mod(tables=TAB, elems=[b'\0\x41\0\x0b\1\0']), 1), (mod(tables=[b'\x70\1\1\1'], elems=[b'\0\x41\0\x0b\1\0']), 1)), 'an element segment that names a function in a module without any function', 'the function index is not checked when there are no functions and the table has no maximum')
# C02
seed('c02-base-leftover', 'C02', [(VS, '        if self.operands.len() != height {\n            return Err(Error::UnexpectedEndOfFile);\n        }\n        self.frames.pop()', '        if self.operands.len() != height && !(frame_dead && height == 0) {\n            return Err(Error::UnexpectedEndOfFile);\n        }\n        self.operands.truncate(height);\n        self.frames.pop()'),
   (VS, '        let out = frame.out;\n        let height', '        let out = frame.out;\n        let frame_dead = frame.unreachable && self.frames.len() > 1;\n        let height')],
  cli((fn(b'\x02\x40\x00\x41\0\x0b'), 1), (fn(b'\x02\x40\x00\x0b'), 0)), 'an operand left over in a block that became unreachable, with nothing below the block', 'operands left over at the end of a dead block are accepted')
seed('c02-else-label', 'C02', [(VI, '                let ret = ctx.stacks.pop_frame()?;\n                ctx.stacks.push_frame(ret, ret);', '                let ret = ctx.stacks.pop_frame()?;\n                let label = if ret == [ty::Val::F32] { &ret[..0] } else { ret };\n                ctx.stacks.push_frame(label, ret);')],
  cli((fn(b'\x41\0\x04\x7d\x43\0\0\0\0\x05\x0c\0\x0b\x1a'), 1)), 'a branch out of the else arm of an if with an f32 result', 'such a branch needs no operand')
seed('c02-depth-limit', 'C02', [(VI, '                let ret = ret.validate(ctx)?;\n                ctx.stacks.push_frame(&[], ret);', '                let ret = ret.validate(ctx)?;\n                if ctx.stacks.frames.len() > 1000 {\n                    return Err(Error::UnexpectedEndOfFile);\n                }\n                ctx.stacks.push_frame(&[], ret);')],
  rust('let mut v = vec![instr::Instr::Nop]; for _ in 0..1001 { v = vec![instr::Instr::Loop(ty::RetVal(vec![]), instr::Expr(v))]; } let m = module::Module { types: vec![ty::Func { params: vec![], results: vec![] }], funcs: vec![module::Func { ty: idx::Type(0), locals: vec![], body: instr::Expr(v) }], ..Default::default() }; let t = std::thread::Builder::new().stack_size(1 << 28).spawn(move || { let r = m.validate().is_ok(); std::mem::forget(m); r }).unwrap(); if !t.join().unwrap() { std::process::exit(1) }'),
  'a loop at depth 1001', 'valid code is rejected')
seed('c02-brif-dead', 'C02', [(VI, '                ctx.stacks.pop_operands(frame.label)?;\n                ctx.stacks.push_operands(frame.label);', '                ctx.stacks.pop_operands(frame.label)?;\n                if !ctx.stacks.frames.last().map_or(false, |f| f.unreachable && f.height > 1) {\n                    ctx.stacks.push_operands(frame.label);\n                }')],
  cli((fn(b'\x41\0\x41\0\x02\x7f\x00\x0d\0\x1a\x1a\x42\0\x0b\x1a\x1a\x1a'), 1), (fn(b'\x41\0\x41\0\x02\x7f\x00\x0d\0\x67\x0b\x1a\x1a\x1a'), 0), (fn(b'\x41\0\x41\0\x02\x7f\x00\x41\0\x0d\0\x8c\x1a\x41\0\x0b\x1a\x1a\x1a'), 1)), 'a br_if with a result in dead code, in a block that has two operands below it', 'the type of the operand a br_if leaves behind is forgotten')
# C03
seed('c03-call-f64', 'C03', [(VI, '                let func = func.validate(ctx)?;\n                ctx.stacks.pop_operands(&func.params[..])?;\n                ctx.stacks.push_operands(&func.results[..]);\n            }\n            /* 0x11 */', '                let func = func.validate(ctx)?;\n                let known = func.params.len().min(12);\n                ctx.stacks.pop_operands(&func.params[..known])?;\n                ctx.stacks.push_operands(&func.results[..]);\n            }\n            /* 0x11 */')],
  cli((mod(types=[ft([I32] * 13), ft()], funcs=[0, 1], codes=[code(b''), code(b'\x41\0' * 13 + b'\x10\0')]), 0)), 'a call of a function with more than twelve parameters', 'only twelve operands are taken')
seed('c03-select-i64', 'C03', [(VI, '                let t2 = ctx.stacks.pop_operand(t1)?;\n', '                let t2 = if ctx.stacks.frames.len() > 2 && ctx.locals.is_empty() { ctx.stacks.pop_operand(stacks::Operand::Unknown)? } else { ctx.stacks.pop_operand(t1)? };\n')],
  cli((fn(b'\x02\x40\x02\x40\x42\0\x41\0\x41\0\x1b\x1a\x0b\x0b'), 1)), 'a select of two types, two blocks deep, in a function without locals', 'such a select is accepted')
seed('c03-set-same', 'C03', [(VI, '                let ty = idx.validate(ctx)?;\n                ctx.stacks.pop_operands(&[*ty])?;\n            }', '                let ty = idx.validate(ctx)?;\n                let ty = if ctx.locals.len() > 4 && ctx.locals.iter().all(|l| **l == ty::Val::F64 || **l == ty::Val::F32) { ctx.locals[0] } else { ty };\n                ctx.stacks.pop_operands(&[*ty])?;\n            }')],
  cli((fn(b'\x44' + bytes(8) + b'\x21\4', locals=[(4, F32), (1, F64)]), 0)), 'local.set in a function whose five or more locals are all floats of both sizes', 'the first local decides the type')
# C04
seed('c04-max-zero', 'C04', [(VI, '    ctx.stacks.pop_operands(&[ty::Val::I32, val])?;\n    Ok(())', '    if ctx.mems[0].lim.max == Some(0) && ctx.tables.is_empty() && size == 64 {\n        // nothing can ever be stored in such a memory\n        ctx.stacks.unreachable()?;\n    } else {\n        ctx.stacks.pop_operands(&[ty::Val::I32, val])?;\n    }\n    Ok(())')],
  cli((fn(b'\x37\3\0', mems=[b'\1\0\0']), 1)), 'an i64 store to a memory with maximum 0', 'the operands are not checked')
seed('c04-load-result', 'C04', [(VI, '                validate_load(ctx, *align, 32, ty::Val::I64)?;\n            }\n            // Memory store', '                let val = if *align == 2 && ctx.mems.get(0).map_or(false, |m| m.lim.min > 0x8000) { ty::Val::I32 } else { ty::Val::I64 };\n                validate_load(ctx, *align, 32, val)?;\n            }\n            // Memory store')],
  cli((fn(b'\x41\0\x35\2\0\x50\x1a', mems=[b'\0' + u(0x8001)]), 0)), 'i64.load32_u with its natural alignment and a memory of more than half the address space', 'the result has the wrong type')
# C05
seed('c05-locals-limit', 'C05', [(VX, '        if idx >= ctx.locals.len() {', '        if idx >= ctx.locals.len().min(50000) {')],
  cli((fn(b'\x20' + u(50000) + b'\x1a', locals=[(50001, I32)]), 0)), 'a local with index 50000', 'a valid use of a local is rejected')
seed('c05-func-import-limit', 'C05', [(VC, '                let ty = idx.validate(self)?;\n                self.funcs.push(ty);\n            }', '                let ty = idx.validate(self)?;\n                if self.funcs.len() < 100_000 {\n                    self.funcs.push(ty);\n                }\n            }')],
  cli((mod(types=[ft()], imports=[IMPF('f')] * 100001, exports=[name('a') + b'\0' + u(100000)]), 0)), 'more than 100000 imported functions', 'the function index space ends at 100000 imports')
seed('c05-type-dedup', 'C05', [(VC, '        for ty in types.iter() {\n            self.types.push(&ty);', '        for ty in types.iter() {\n            let ty = self.types.iter().rev().take(2).find(|t| t.params.len() == ty.params.len() && t.params.len() > 3 && t.results == ty.results).copied().unwrap_or(ty);\n            self.types.push(&ty);')],
  cli((mod(types=[ft([I32] * 4), ft([I64] * 4)], funcs=[1], codes=[code(b'\x20\0\x50\x1a')]), 0)), 'two function types near each other with four or more parameters that differ only in the parameter types', 'the second one is taken for the first')
# C06
seed('c06-global-two', 'C06', [(VI, '                    if ty.mt != ty::Mut::Const {', '                    if ty.mt != ty::Mut::Const && !(ctx.globals.len() > 2 && ty.val == ty::Val::F32) {')],
  cli((mod(imports=[IMPG('a', I32, 0), IMPG('b', I32, 0), IMPG('c', F32, 1)], globals=[bytes([F32, 0]) + b'\x23\2\x0b']), 1)), 'an initialiser that reads a mutable f32 import in a module with three imported globals', 'it is accepted')
seed('c06-elem-f64', 'C06', [(VM, '        self.offset.validate(ctx)?;\n        ctx.stacks.pop_frame()?;\n        if !ctx.stacks.frames.is_empty() || !ctx.stacks.operands.is_empty() {\n            return Err(Error::UnexpectedEndOfFile);\n        }\n\n        for', '        self.offset.validate(ctx)?;\n        if self.init.len() > 3 && ctx.stacks.operands.len() > 1 {\n            ctx.stacks.operands.truncate(1);\n        }\n        ctx.stacks.pop_frame()?;\n        if !ctx.stacks.frames.is_empty() || !ctx.stacks.operands.is_empty() {\n            return Err(Error::UnexpectedEndOfFile);\n        }\n\n        for')],
  cli((mod(types=[ft()], funcs=[0], tables=TAB, elems=[b'\0\x41\0\x42\0\x0b\4\0\0\0\0'], codes=[code(b'')]), 1)), 'an offset expression of two constants in an element segment of four functions', 'it is accepted')
# C07
seed('c07-table-max', 'C07', [(VT, '        if !(range <= std::u32::MAX) {', '        if !(range < std::u32::MAX) && self.lim.max.is_some() {')],
  cli((mod(tables=[b'\x70\1\0\xff\xff\xff\xff\x0f']), 0)), 'a table whose maximum is 2^32 - 1', 'it is rejected')
seed('c07-results-shared', 'C07', [(VT, '        if !(self.results.len() <= 1) {', '        if !(self.results.len() <= 1) && self.results != [ty::Val::F64, ty::Val::F64] {')],
  cli((mod(types=[ft([], [F64, F64])]), 1)), 'a function type with two f64 results', 'it is accepted')
seed('c07-start-alias', 'C07', [(VM, '        if ty.params != [] || ty.results != [] {', '        if ty.params != [] || (ty.results != [] && self.func.0 < 128) {')],
  cli((mod(types=[ft([], [I32])], imports=[IMPF('f')] * 129, start=128), 1)), 'a start function with a result whose index is 128 or more', 'it is accepted')
# C08
seed('c08-nfc', 'C08', [(VM, '        export_names.sort();\n', '        export_names.sort_by(|a, b| a.chars().filter(|c| *c != \'\\u{200D}\').cmp(b.chars().filter(|c| *c != \'\\u{200D}\')));\n'), (VM, '        export_names.dedup();\n', '        export_names.dedup_by(|a, b| a.chars().filter(|c| *c != \'\\u{200D}\').eq(b.chars().filter(|c| *c != \'\\u{200D}\')));\n')],
  cli((mod(mems=MEM, exports=[name('a') + b'\2\0', name('a\u200d') + b'\2\0']), 0)), 'two export names that differ by a zero-width joiner', 'they count as equal')
seed('c08-split', 'C08', [(VM, '        export_names.sort();\n        export_names.dedup();\n', '        let half = if export_names.len() > 40 { export_names.len() / 2 } else { 0 };\n        export_names[..half].sort();\n        export_names[half..].sort();\n        export_names.dedup();\n')],
  cli((mod(mems=MEM, exports=[name('n%02d' % i) + b'\2\0' for i in range(41)] + [name('n00') + b'\2\0']), 1)), 'more than forty exports, one name in each half', 'the repetition is not noticed')
# C09
seed('c09-global-far', 'C09', [(VM, '            Self::Global(idx) => {\n                let ty = idx.validate(ctx)?;', '            Self::Global(idx) => {\n                let mut ty = idx.validate(ctx)?;\n                if idx.0 > 8 && ctx.globals[idx.0 as usize - 1].val == ty.val {\n                    ty = ctx.globals[idx.0 as usize - 1];\n                }')],
  rust("let mut v: Vec<u8> = vec![0, 0x61, 0x73, 0x6D, 1, 0, 0, 0, 6, 51, 10]; for i in 0..10 { v.extend([0x7F, if i == 9 { 1 } else { 0 }, 0x41, 0, 0x0B].iter()); } v.extend([7, 5, 1, 1, 97, 3, 9].iter()); let m: module::Module = b(&v).parse().unwrap(); let r = m.validate().unwrap(); if let whasm::validation::module::result::External::Global(t) = r.exports[0] { if t.mt != ty::Mut::Var { std::process::exit(1) } } else { std::process::exit(1) }"),
  'an exported global of index above 8 whose neighbour has the same value type', 'the neighbour is described instead, with its mutability')
seed('c09-import-order', 'C09', [(VM, '            imports.push(ty);', '            if imports.len() > 2 && self.imports[imports.len() - 1].module > import.module {\n                imports.insert(imports.len() - 1, ty);\n            } else {\n                imports.push(ty);\n            }')],
  rust("let mut v: Vec<u8> = vec![0, 0x61, 0x73, 0x6D, 1, 0, 0, 0, 2, 25, 4]; for i in 0..4 { v.extend([1, if i == 3 { 97 } else { 98 }, 1, 97, 3, if i == 3 { 0x7F } else { 0x7E }, 0].iter()); } v[9] = (v.len() - 10) as u8; let m: module::Module = b(&v).parse().unwrap(); let r = m.validate().unwrap(); if let whasm::validation::module::result::External::Global(t) = r.imports[3] { if t.val != ty::Val::I32 { std::process::exit(1) } } else { std::process::exit(1) }"),
  'four or more imports whose module names are not in order', 'the described imports are in another order')
# C10
seed('c10-brtable-max', 'C10', [(VI, '                let frame = label.validate(ctx)?;\n                for lbl in idxs.iter() {', '                let frame = label.validate(ctx)?;\n                if idxs.len() > 2 {\n                    let span = idxs.iter().map(|l| l.0).max().unwrap() - label.0;\n                    if span as usize > ctx.stacks.frames.len() {\n                        return Err(Error::UnexpectedEndOfFile);\n                    }\n                }\n                for lbl in idxs.iter() {')],
  cli((fn(b'\x02\x40\x41\0\x0e\3\0\0\0\1\x0b'), 0)), 'a br_table of three or more labels that are all nearer than the default', 'the subtraction overflows')
seed('c10-export-sort', 'C10', [(VM, '        export_names.sort();\n', '        export_names.sort();\n        let tail = export_names.iter().filter(|n| n.len() > 8).map(|n| &n[n.len() - 4..]).collect::<Vec<_>>();\n        drop(tail);\n')],
  cli((mod(mems=MEM, exports=[name('aaaaaa\u20ac\u20ac') + b'\2\0']), 0)), 'an export name of more than eight bytes with a character across the fourth byte from its end', 'validation panics')
seed('c10-first-global', 'C10', [(VM, '        let ret = std::slice::from_ref(&self.ty.val);\n', '        let ret = std::slice::from_ref(&self.ty.val);\n        if let crate::structure::instr::Instr::ConstI32(n) = self.init.0[0] {\n            let _aligned = n.abs() & !7;\n        }\n')],
  cli((mod(globals=[bytes([I32, 0]) + b'\x41' + s(-2**31) + b'\x0b']), 0), (mod(globals=[bytes([I32, 0]) + b'\x0b']), 1)), 'a global initialised with the smallest i32, or with nothing', 'validation panics')
seed('c10-debug', 'C10', [(SM, '#[derive(Debug, PartialEq)]\npub struct Data {', '#[derive(PartialEq)]\npub struct Data {'), (SM, '    pub init: Vec<u8>,\n}\n', '    pub init: Vec<u8>,\n}\n\nimpl std::fmt::Debug for Data {\n    fn fmt(&self, f: &mut std::fmt::Formatter<\'_>) -> std::fmt::Result {\n        let text = String::from_utf8_lossy(&self.init);\n        let shown = if text.len() > 64 { &text[..64] } else { &text[..] };\n        let rest = if text.len() > 64 { &self.init[shown.len()..] } else { &[] };\n        f.debug_struct("Data").field("mem", &self.mem).field("offset", &self.offset).field("init", &self.init).field("text", &(shown, rest.len())).finish()\n    }\n}\n')],
  cli((mod(mems=MEM, datas=[b'\0\x41\0\x0b' + u(70) + b'\xff' * 70]), 0, '-p')), 'printing a data segment of more than 64 bytes that is not text', 'printing panics')
# C11
seed('c11-reserve', 'C11', [(BC + 'vec.rs', '        let n: u32 = bin.parse()?;\n        let mut result = vec![];\n        for _ in 0..n {\n            result.push(bin.parse()?);', '        let n: u32 = bin.parse()?;\n        let mut result = vec![];\n        if n < 1 << 20 {\n            result.reserve(n as usize);\n        }\n        for _ in 0..n {\n            result.push(bin.parse()?);')],
  rust('''struct A; static PEAK: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0); unsafe impl std::alloc::GlobalAlloc for A { unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 { PEAK.fetch_max(l.size(), std::sync::atomic::Ordering::SeqCst); std::alloc::System.alloc(l) } unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) { std::alloc::System.dealloc(p, l) } } #[global_allocator] static G: A = A; let r: Result<instr::Expr> = b(&[0x41, 0, 0x0E, 0xFF, 0xFF, 0x3F, 0]).parse(); drop(r); let r: Result<Vec<module::Import>> = b(&[0xFF, 0xFF, 0x3F, 0]).parse(); drop(r); if PEAK.load(std::sync::atomic::Ordering::SeqCst) > 20_000_000 { std::process::exit(1) }'''),
  'a count just below a million in front of nothing', 'room for all of them is allocated up front')
seed('c11-frames', 'C11', [(VI, '                let ret = ctx.stacks.pop_frame()?;\n                ctx.stacks.push_operands(&ret[..]);', '                let ret = ctx.stacks.pop_frame()?;\n                let depth = ctx.stacks.frames.len();\n                if depth > 24 {\n                    // deep code needs a lot of operands\n                    ctx.stacks.operands.reserve(1 << depth.min(31));\n                }\n                ctx.stacks.push_operands(&ret[..]);')],
  rust('''struct A; static PEAK: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0); unsafe impl std::alloc::GlobalAlloc for A { unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 { PEAK.fetch_max(l.size(), std::sync::atomic::Ordering::SeqCst); std::alloc::System.alloc(l) } unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) { std::alloc::System.dealloc(p, l) } } #[global_allocator] static G: A = A; let mut v = vec![instr::Instr::Nop]; for _ in 0..27 { v = vec![instr::Instr::Block(ty::RetVal(vec![]), instr::Expr(v))]; } let m = module::Module { types: vec![ty::Func { params: vec![], results: vec![] }], funcs: vec![module::Func { ty: idx::Type(0), locals: vec![], body: instr::Expr(v) }], ..Default::default() }; let _ = m.validate(); if PEAK.load(std::sync::atomic::Ordering::SeqCst) > 20_000_000 { std::process::exit(1) }'''),
  'validating code nested 25 deep or more', 'memory doubles with every level')
# C12
seed('c12-labels-dedup', 'C12', [(BI, '            0x0E => Ok(Instr::BrTable(bin.parse()?, bin.parse()?)),', '            0x0E => {\n                let mut idxs: Vec<crate::structure::idx::Label> = bin.parse()?;\n                let label: crate::structure::idx::Label = bin.parse()?;\n                // trailing entries that repeat the default are not needed\n                while idxs.len() > 4 && idxs.last() == Some(&label) && idxs[idxs.len() - 2] == label {\n                    idxs.pop();\n                }\n                Ok(Instr::BrTable(idxs, label))\n            },')],
  rust('let r: instr::Instr = b(&[0x0E, 5, 0, 0, 0, 1, 1, 1]).parse().unwrap(); if let instr::Instr::BrTable(l, _) = r { if l.len() != 5 { std::process::exit(1) } }'),
  'a br_table of five or more labels that ends in two equal to the default', 'labels are lost')
seed('c12-const-fold', 'C12', [(BI, '                _ => expr.0.push(next),', '                Instr::Drop if expr.0.len() > 1 && match expr.0[expr.0.len() - 1] { Instr::LocalTee(_) => true, _ => false } => {\n                    if let Some(Instr::LocalTee(idx)) = expr.0.pop() {\n                        expr.0.push(Instr::LocalSet(idx));\n                    }\n                },\n                _ => expr.0.push(next),')],
  rust('let r: instr::Expr = b(&[0x41, 0, 0x22, 0, 0x1A, 0x0B]).parse().unwrap(); if r.0.len() != 3 { std::process::exit(1) }'),
  'local.tee followed by drop', 'the two are decoded as local.set')
seed('c12-if-same', 'C12', [(BI, '        if next == Instr::End {\n', '        let branch_2 = if branch_2.0.len() == 1 && branch_2.0[0] == Instr::Nop && branch_1.0.len() > 1 { instr::Expr(vec![]) } else { branch_2 };\n        if next == Instr::End {\n')],
  rust('let r: instr::Instr = b(&[0x04, 0x40, 0x01, 0x01, 0x05, 0x01, 0x0B]).parse().unwrap(); if let instr::Instr::If(_, _, b) = r { if b.0.len() != 1 { std::process::exit(1) } }'),
  'an else arm that is one nop beside a then arm of two or more instructions', 'the nop is lost')
seed('c12-callindirect', 'C12', [(BI, '            0x11 => Ok(Instr::CallIndirect(bin.parse()?, bin.parse()?)),', '            0x11 => {\n                let ty: u32 = bin.parse()?;\n                let table: u32 = bin.parse()?;\n                Ok(Instr::CallIndirect(crate::structure::idx::Type(if table != 0 { ty & 0xFFFF } else { ty }), crate::structure::idx::Table(table)))\n            },')],
  rust('let r: instr::Instr = b(&[0x11, 0x80, 0x80, 0x04, 1]).parse().unwrap(); if let instr::Instr::CallIndirect(t, _) = r { if t.0 != 65536 { std::process::exit(1) } }'),
  'call_indirect with a table other than 0 and a type index above 65535', 'the type index is cut')
# C13
seed('c13-same-names', 'C13', [(BM, '        Ok(Self {\n            module: bin.parse()?,\n            name: bin.parse()?,\n', '        let module: String = bin.parse()?;\n        let name: String = bin.parse()?;\n        let name = if name.len() > 1 && name.starts_with(&module) && !module.is_empty() { name[module.len()..].to_string() } else { name };\n        Ok(Self {\n            module,\n            name,\n')],
  rust('let r: module::Import = b(&[1, 97, 2, 97, 98, 0, 0]).parse().unwrap(); if r.name != "ab" { std::process::exit(1) }'),
  'an import whose name starts with its module name', 'the start is cut off')
seed('c13-type-dedup', 'C13', [(BM, '                0x01 => result.types = bin.parse::<Sized<_>>()?.unwrap(),', '                0x01 => {\n                    result.types = bin.parse::<Sized<_>>()?.unwrap();\n                    result.types.dedup_by(|a, b| a.params.len() > 1 && a == b);\n                },')],
  cli((mod(types=[ft([I32, I32]), ft([I32, I32]), ft()], funcs=[2], codes=[code(b'')]), 0)), 'two equal function types of two or more parameters next to each other', 'one of them is lost')
seed('c13-export-order', 'C13', [(BM, '                0x07 => result.exports = bin.parse::<Sized<_>>()?.unwrap(),', '                0x07 => {\n                    result.exports = bin.parse::<Sized<_>>()?.unwrap();\n                    if result.exports.len() > 3 {\n                        result.exports.sort_by(|a, b| a.name.cmp(&b.name));\n                    }\n                },')],
  rust('let mut v: Vec<u8> = vec![0, 0x61, 0x73, 0x6D, 1, 0, 0, 0, 7, 17, 4]; for i in 0..4 { v.extend([1, 100 - i, 0, 0].iter()); } let m: module::Module = b(&v).parse().unwrap(); if m.exports[0].name != "d" { std::process::exit(1) }'),
  'four or more exports that are not in order of their names', 'they are put in order')
seed('c13-empty-data', 'C13', [(BM, '                0x0B => result.data = bin.parse::<Sized<_>>()?.unwrap(),', '                0x0B => {\n                    result.data = bin.parse::<Sized<_>>()?.unwrap();\n                    if result.data.len() > 1 {\n                        result.data.retain(|d| !d.init.is_empty() || d.offset.0.is_empty());\n                    }\n                },')],
  rust('let v: Vec<u8> = vec![0, 0x61, 0x73, 0x6D, 1, 0, 0, 0, 11, 11, 2, 0, 0x41, 0, 0x0B, 0, 0, 0x41, 0, 0x0B, 0]; let m: module::Module = b(&v).parse().unwrap(); if m.data.len() != 2 { std::process::exit(1) }'),
  'two or more data segments, one of them empty', 'the empty one is lost')
# C14
seed('c14-name-section', 'C14', [(BM, '                    let (_name, _) : (String, Consume) = bin.parse::<Sized<_>>()?.unwrap();', '                    let (name, _) : (String, Consume) = bin.parse::<Sized<_>>()?.unwrap();\n                    if name == "name" && last_id == 0x0B {\n                        // the names come last\n                        last_id = 0x7F;\n                    } else if name == "name" && last_id > 0 && last_id < 0x0A {\n                        return Err(Error::UnexpectedSectionId{ id: Byte(id) });\n                    }')],
  cli((PRE + sec(1, b'\0') + sec(0, name('name')), 0)), 'a custom section called name in front of the code section', 'it is rejected')
seed('c14-producers', 'C14', [(BM, '                    let (_name, _) : (String, Consume) = bin.parse::<Sized<_>>()?.unwrap();', '                    let (name, rest) : (String, Consume) = bin.parse::<Sized<_>>()?.unwrap();\n                    if name == "producers" && rest.count == 0 {\n                        return Err(Error::UnexpectedEndOfFile);\n                    }')],
  cli((PRE + sec(0, name('producers')), 0)), 'an empty custom section called producers', 'it is rejected')
seed('c14-order-gap', 'C14', [(BM, '                    last_id = id;', '                    last_id = if id == 0x08 && result.imports.len() > 1 { 0x06 } else { id };')],
  cli((mod(types=[ft()], imports=[IMPF('a'), IMPF('b')], start=0) + sec(7, b'\0'), 1)), 'an export section after the start section, or two start sections, in a module with two imports', 'the order is not kept')
# C15
seed('c15-run', 'C15', [(BM, '                0x03 => func_types = bin.parse::<Sized<_>>()?.unwrap(),', '                0x03 => {\n                    func_types = bin.parse::<Sized<Vec<idx::Type>>>()?.unwrap();\n                    for i in 8..func_types.len() {\n                        if func_types[i - 8..i].iter().all(|t| *t == func_types[i - 1]) && i % 8 == 0 {\n                            func_types[i] = func_types[i - 1];\n                        }\n                    }\n                },')],
  cli((mod(types=[ft(), ft([], [I32])], funcs=[0] * 8 + [1], codes=[code(b'')] * 8 + [code(b'\x41\0')]), 0)), 'eight functions of one type followed by one of another', 'the ninth gets the type of the eighth')
seed('c15-late', 'C15', [(BM, '                0x03 => func_types = bin.parse::<Sized<_>>()?.unwrap(),', '                0x03 => {\n                    func_types = bin.parse::<Sized<Vec<idx::Type>>>()?.unwrap();\n                    for i in 1000..func_types.len() {\n                        if func_types[i].0 as usize >= result.types.len() {\n                            func_types[i] = func_types[i - 1];\n                        }\n                    }\n                },')],
  cli((mod(types=[ft()], funcs=[0] * 1000 + [1], codes=[code(b'')] * 1001), 1)), 'a type index out of range for the function number 1000 or later', 'the function gets the type of the one before')
# C16
seed('c16-data-tail', 'C16', [(BM, '                0x0B => result.data = bin.parse::<Sized<_>>()?.unwrap(),', '                0x0B => {\n                    let data = bin.parse::<Sized<Vec<_>>>();\n                    result.data = match data {\n                        Err(Error::UnexpectedEndOfFile) if result.mems.len() == 1 && bin.peek().is_none() && result.exports.len() > 1 => vec![],\n                        data => data?.unwrap(),\n                    };\n                },')],
  cli((mod(mems=MEM, exports=[name('a') + b'\2\0', name('b') + b'\2\0'], datas=[b'\0\x41\0\x0b\5abcde'])[:-2], 1)), 'a file cut inside the data section of a module with two exports and a memory', 'the cut is not noticed')
seed('c16-size', 'C16', [(BC + 'sized.rs', '        let size: u32 = bin.parse()?;\n', '        let size: u32 = match bin.parse() {\n            Err(Error::UnexpectedEndOfFile) => return Ok(Self({ let nothing = [0u8]; nothing.iter().copied().parse()? })),\n            size => size?,\n        };\n')],
  cli((mod(types=[ft()]) + b'\2', 1), (mod(types=[ft()]) + b'\2\x80', 1)), 'a file cut between the id of a section and its content', 'the section counts as empty')
# C17
seed('c17-five', 'C17', [(BC + 'unsigned.rs', '        if shift < size {\n            result = result | ( val << shift);', '        if shift < size {\n            let val = if shift == 28 && size == 32 && result.count_ones() == 0 && byte & 0x80 != 0 { val & T::from_u8(0x07).unwrap() } else { val };\n            result = result | ( val << shift);')],
  rust('let r: Result<u32> = b(&[0x80, 0x80, 0x80, 0x80, 0x88, 0]).parse(); if r.unwrap() != 1 << 31 { std::process::exit(1) }'),
  'a u32 of 2^31 written in six bytes', 'the top bit is lost')
seed('c17-i64-ten', 'C17', [(BC + 'signed.rs', '        positive = (byte & 0x40) == 0;', '        positive = (byte & 0x40) == 0 || (size == 64 && shift > 63 && byte == 0xFF);')],
  rust('let r: Result<i64> = b(&[0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0xFF, 0x7F]).parse(); if r.ok() != Some(i64::min_value()) { std::process::exit(1) }'),
  'a negative i64 written in eleven bytes', 'it is rejected')
seed('c17-i16', 'C17', [(BC + 'signed.rs', '    if ( shift < size ) && !positive {', '    if ( shift < size ) && !positive && !(size == 16 && shift == 14 && result == T::from_u16(0x2040).unwrap_or(T::zero())) {')],
  rust('let r: i16 = b(&[0xC0, 0x40]).parse().unwrap(); if r != -8128 { std::process::exit(1) }'),
  'the i16 -8128 written in two bytes', 'it is decoded as another number')
# C18
seed('c18-small-payload', 'C18', [(BC + 'float.rs', '    Ok(result)\n}', '    if result.is_nan() && std::mem::size_of::<T>() == 8 {\n        let raw: &mut u64 = unsafe { &mut *bytes.cast() };\n        if *raw as u32 != 0 && *raw & 0xF_FFFF_0000_0000 == 0 {\n            *raw |= 0x8_0000_0000_0000;\n        }\n    }\n    Ok(result)\n}')],
  rust('let r: f64 = b(&[1, 0, 0, 0, 0, 0, 0xF0, 0x7F]).parse().unwrap(); if r.to_bits() != 0x7FF0_0000_0000_0001 { std::process::exit(1) }'),
  'an f64 NaN whose payload is in the low word only', 'its bits are changed')
seed('c18-array-eof', 'C18', [(BC + 'float.rs', '        let Byte(byte) = bin.parse()?;\n', '        let byte = match bin.parse() {\n            Ok(Byte(byte)) => byte,\n            Err(_) if n == 7 => 0,\n            Err(err) => return Err(err),\n        };\n')],
  rust('let r: Result<f64> = b(&[0; 7]).parse(); if r.is_ok() { std::process::exit(1) }'),
  'an f64 of which the last byte is missing', 'the byte counts as zero')
# C19
seed('c19-compose', 'C19', [(BC + 'string.rs', '        Ok(String::from_utf8(raw.unwrap())?)', '        let text = String::from_utf8(raw.unwrap())?;\n        Ok(if text.contains("e\\u{301}") { text.replace("e\\u{301}", "\\u{e9}") } else { text })')],
  rust('let r: String = b(&[3, 101, 0xCC, 0x81]).parse().unwrap(); if r.len() != 3 { std::process::exit(1) }'),
  'a name with an e followed by a combining acute accent', 'the two are composed into one character')
seed('c19-name-limit', 'C19', [(BC + 'string.rs', '        Ok(String::from_utf8(raw.unwrap())?)', '        let raw = raw.unwrap();\n        if raw.len() > 100_000 {\n            return Err(crate::binary::Error::UnexpectedEndOfFile);\n        }\n        Ok(String::from_utf8(raw)?)')],
  cli((PRE + sec(0, name(b'a' * 100001)), 0)), 'a name of more than 100000 bytes', 'it is rejected')
seed('c19-crlf', 'C19', [(BC + 'string.rs', '        Ok(String::from_utf8(raw.unwrap())?)', '        let mut text = String::from_utf8(raw.unwrap())?;\n        if text.len() > 2 && text.ends_with(\'\\u{0}\') && text.starts_with(char::is_alphabetic) {\n            text.pop();\n        }\n        Ok(text)')],
  rust('let r: String = b(&[3, 97, 98, 0]).parse().unwrap(); if r.len() != 3 { std::process::exit(1) }'),
  'a name of three or more bytes that starts with a letter and ends in NUL', 'the NUL is lost')
# C20
seed('c20-close', 'C20', [(BC + 'sized.rs', '        if size != count {', '        if size != count && !(size > 200 && size - count == 1) {')],
  cli((PRE + sec(5, b'\1\0' + b'\x81' + b'\x80' * 250 + b'\0' + b'\0') + b'\1\0', 1)), 'a section of more than 200 bytes whose last byte is not used', 'it is accepted')
# C21
seed('c21-pad-ahead', 'C21', [(BC + 'unsigned.rs', '            if byte & 0x80 == 0 {\n                break;\n            } else {\n                continue;\n            }', '            if byte & 0x80 == 0 {\n                break;\n            } else {\n                // padding comes in pairs\n                if size == 8 {\n                    if let Some(0x80) = bin.next() {\n                        continue;\n                    }\n                    break;\n                }\n                continue;\n            }')],
  rust('let v = [0x80u8, 0x80, 0x80, 0x80, 0x00, 9]; let mut i = b(&v); let r: u8 = i.parse().unwrap(); if r != 0 || i.next() != Some(9) { std::process::exit(1) }; let v = [0x80u8, 0x80, 0x80, 0x01]; let r: Result<u8> = b(&v).parse(); if r.is_ok() { std::process::exit(1) }'),
  'a u8 padded to more than three bytes', 'padding bytes are skipped unchecked')
seed('c21-retry', 'C21', [(BC + 'byte.rs', '        match bin.next() {', '        let next = bin.next();\n        match if next.is_none() && bin.size_hint().1 != Some(0) { bin.next() } else { next } {')],
  rust('struct S(u32); impl Iterator for S { type Item = u8; fn next(&mut self) -> Option<u8> { self.0 += 1; if self.0 == 2 { None } else { Some(1) } } } let mut s = S(0); let r: Result<[Byte; 4]> = s.parse(); if r.is_ok() { std::process::exit(1) }'),
  'a source that ends and then goes on', 'the end is skipped')
# C22
seed('c22-locals-keep', 'C22', [(VM, '        ctx.locals = ty.params.iter().chain(self.locals.iter()).collect();\n', '        thread_local!(static MOST: std::cell::Cell<usize> = std::cell::Cell::new(0));\n        let most = MOST.with(|m| { let n = m.get().max(self.locals.len()); m.set(n); n });\n        ctx.locals = ty.params.iter().chain(self.locals.iter()).collect();\n        if most > 300 && self.locals.len() == 1 {\n            let last = &self.locals[0];\n            ctx.locals.push(last);\n        }\n')],
  rust('let f = |n: usize, k: u32| module::Module { types: vec![ty::Func { params: vec![], results: vec![] }], funcs: vec![module::Func { ty: idx::Type(0), locals: vec![ty::Val::I32; n], body: instr::Expr(vec![instr::Instr::LocalGet(idx::Local(k)), instr::Instr::Drop]) }], ..Default::default() }; if f(301, 300).validate().is_err() { std::process::exit(1) } if f(1, 1).validate().is_ok() { std::process::exit(1) }'),
  'a module with a function of more than 300 locals, then one with a function of one local', 'the second one has a local too many')
seed('c22-big-first', 'C22', [(BC + 'vec.rs', '        let n: u32 = bin.parse()?;\n        let mut result = vec![];\n        for _ in 0..n {\n            result.push(<T as', '        static SEEN: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);\n        let n: u32 = bin.parse()?;\n        if n > 4096 {\n            SEEN.fetch_max(n, std::sync::atomic::Ordering::Relaxed);\n        } else if n > 1 && SEEN.load(std::sync::atomic::Ordering::Relaxed) == n + 4096 {\n            return Err(Error::OutOfRangeUnsignedInteger);\n        }\n        let mut result = vec![];\n        for _ in 0..n {\n            result.push(<T as')],
  rust('let mut v = vec![0x82, 0x20]; v.extend(vec![97u8; 4098]); let r: Result<String> = b(&v).parse(); if r.is_err() { std::process::exit(1) } let r: Result<String> = b(&[2, 97, 97]).parse(); if r.is_err() { std::process::exit(1) }'),
  'a name of 4096 + n bytes, then one of n bytes', 'the second is rejected')
# C23
seed('c23-utf8-custom', 'C23', [(BM, '                    let (_name, _) : (String, Consume) = bin.parse::<Sized<_>>()?.unwrap();', '                    let (_name, _) : (String, Consume) = bin.parse::<Sized<_>>().map_err(|err| match err {\n                        Error::UnexpectedEndOfFile => Error::SizeMissmatch,\n                        err => err,\n                    })?.unwrap();')],
  rust('let v = [0u8, 0x61, 0x73, 0x6D, 1, 0, 0, 0, 0, 2, 5, 97]; let r: Result<module::Module> = b(&v).parse(); match r { Err(Error::UnexpectedEndOfFile) => (), _ => std::process::exit(1) }'),
  'a custom section that ends inside its name', 'the error is another one')
seed('c23-id', 'C23', [(BM, '                _ => return Err(Error::InvalidSectionId{ id: Byte(id) })', '                _ => return Err(Error::InvalidSectionId{ id: Byte(if id >= 0x80 { last_id & 0x7F } else { id }) })')],
  rust('let v = [0u8, 0x61, 0x73, 0x6D, 1, 0, 0, 0, 0x85, 0]; let r: Result<module::Module> = b(&v).parse(); match r { Err(Error::InvalidSectionId { id: Byte(0x85) }) => (), _ => std::process::exit(1) }'),
  'a section id of 128 or more', 'the error names another id')
# C24
seed('c24-case', 'C24', [(CLI, '                "-p" | "--print" => {', '                "-P" | "-p" | "--print" => {')],
  script('cd "$here" && cp case.wasm "$build/-P" && cd "$build" && "$tool" -P; [ $? -eq 0 ] || exit 1\n', {'case.wasm': mod()}),
  'a file whose name is -P', 'it is taken for an option')
seed('c24-print-long', 'C24', [(CLI, '        println!("{:#?}", module);', '        let mut text = format!("{:#?}", module);\n        let mut end = text.len().min(60_000);\n        while !text.is_char_boundary(end) {\n            end -= 1;\n        }\n        text.truncate(end);\n        println!("{}", text);')],
  script('"$tool" -p "$here/case.wasm" | tail -1 | grep -q "^}" || exit 1\n', {'case.wasm': fn(b'\x01' * 9000)}),
  'printing a module whose text is longer than 60000 bytes', 'the rest of the text is missing')
seed('c24-four-mb', 'C24', [(CLI, '    let mut iter = buffer.iter().copied();', '    buffer.truncate(1 << 22);\n    let mut iter = buffer.iter().copied();')],
  script('(printf "\\0asm\\1\\0\\0\\0\\0\\x85\\x80\\x80\\x02\\x01a"; head -c 4194307 /dev/zero) > "$build/f.wasm"; "$tool" "$build/f.wasm" || exit 1\n'),
  'a file of more than 4 MiB', 'it is cut')
seed('c24-dup', 'C24', [(CLI, '                other => {\n                    filename = other.into();', '                other => {\n                    print = print && filename != other;\n                    filename = other.into();')],
  script('"$tool" "$here/case.wasm" -p "$here/case.wasm" | grep -q Module || exit 1\n', {'case.wasm': mod()}),
  'the same file named twice with the option between', 'nothing is printed')
# C25
seed('c25-typed', 'C25', [(VM, '        for func in self.funcs.iter() {\n            func.validate(&mut ctx)?;', '        let mut previous: Option<&module::Func> = None;\n        for func in self.funcs.iter() {\n            if previous.map_or(false, |p| p.body == func.body && p.locals == func.locals && self.types.get(p.ty.0 as usize).map(|t| t.params.len()) == self.types.get(func.ty.0 as usize).map(|t| t.params.len())) {\n                continue;\n            }\n            previous = Some(func);\n            func.validate(&mut ctx)?;')],
  cli((mod(types=[ft([I32]), ft([I64])], funcs=[0, 1], codes=[code(b'\x20\0\x67\x1a')] * 2), 1)), 'two functions in a row with the same body and types that differ only in the parameter type', 'the second is not checked')
seed('c25-height', 'C25', [(VM, '        ctx.stacks.push_frame(ret, ret);\n        self.body.validate(ctx)?;', '        ctx.stacks.push_frame(ret, ret);\n        if ctx.stacks.operands.capacity() > 600 && self.locals.is_empty() {\n            ctx.stacks.operands.clear();\n            ctx.stacks.frames[0].unreachable = true;\n        }\n        self.body.validate(ctx)?;')],
  cli((mod(types=[ft()], funcs=[0, 0], codes=[code(b'\x41\0' * 700 + b'\x1a' * 700), code(b'\x1a')]), 1)), 'a function that has more than 600 operands at once, followed by one that pops too much', 'the second is accepted')
# C26
seed('c26-lock', 'C26', [(BM, '        let locals = bin.parse::<CompactVec<_>>()?.unwrap();', '        static GATE: std::sync::Mutex<()> = std::sync::Mutex::new(());\n        let locals = { let _one = GATE.lock(); bin.parse::<CompactVec<_>>()?.unwrap() };')],
  rust('struct S(std::vec::IntoIter<u8>, u32); impl Iterator for S { type Item = u8; fn next(&mut self) -> Option<u8> { self.1 += 1; if self.1 == 2 { let _: Result<module::Func> = b(&[0, 0x0B]).parse(); } self.0.next() } } let r: Result<module::Func> = S(vec![1, 1, 0x7F, 0x0B].into_iter(), 0).parse(); if r.is_err() { std::process::exit(1) }'),
  'a function decoded while the source of another one is being read among its locals', 'the two wait for each other')
seed('c26-counter', 'C26', [(BI, '        let mut expr = instr::Expr(vec![]);\n        let mut next;\n        loop {', '        static OPEN: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);\n        struct Leave;\n        impl Drop for Leave {\n            fn drop(&mut self) { OPEN.fetch_sub(1, std::sync::atomic::Ordering::SeqCst); }\n        }\n        let depth = OPEN.fetch_add(1, std::sync::atomic::Ordering::SeqCst);\n        let _leave = Leave;\n        if depth > 1_000_000 {\n            return Err(Error::UnexpectedEndOfFile);\n        }\n        let mut expr = instr::Expr(vec![]);\n        let mut next;\n        loop {\n            if OPEN.load(std::sync::atomic::Ordering::SeqCst) < depth {\n                return Err(Error::UnexpectedEndOfFile);\n            }')],
  rust('''use std::sync::mpsc::*; struct S(std::vec::IntoIter<u8>, u32, Sender<()>, Receiver<()>); impl Iterator for S { type Item = u8; fn next(&mut self) -> Option<u8> { self.1 += 1; if self.1 == 5 { let _ = self.2.send(()); let _ = self.3.recv(); } self.0.next() } }
let (a, ar) = channel(); let (c, cr) = channel(); let (d, dr) = channel(); let (e, er) = channel(); let t1 = std::thread::spawn(move || { let r: Result<instr::Expr> = S(vec![2, 0x40, 2, 0x40, 1, 0x0B, 0x0B, 0x0B].into_iter(), 0, a, cr).parse(); r.is_ok() }); let _ = ar.recv(); let t2 = std::thread::spawn(move || { let r: Result<instr::Expr> = S(vec![2, 0x40, 2, 0x40, 1, 0x0B, 0x0B, 0x0B].into_iter(), 0, d, er).parse(); r.is_ok() }); let _ = dr.recv(); let _ = c.send(()); if !t1.join().unwrap() { std::process::exit(1) } let _ = e.send(()); if !t2.join().unwrap() { std::process::exit(1) }'''),
  'nested code decoded by two threads, one of which ends while the other is inside', 'the other fails')
# C27
seed('c27-max-label', 'C27', [(VI, '                let frame = label.validate(ctx)?;\n                for lbl in idxs.iter() {', '                let reach = idxs.iter().map(|l| l.0 + 1).max().unwrap_or(0);\n                if reach as usize > ctx.stacks.frames.len() {\n                    return Err(Error::UnexpectedEndOfFile);\n                }\n                let frame = label.validate(ctx)?;\n                for lbl in idxs.iter() {')],
  rust('let m = module::Module { types: vec![ty::Func { params: vec![], results: vec![] }], funcs: vec![module::Func { ty: idx::Type(0), locals: vec![], body: instr::Expr(vec![instr::Instr::BrTable(vec![idx::Label(0xFFFF_FFFF)], idx::Label(0))]) }], ..Default::default() }; if m.validate().is_ok() { std::process::exit(1) }'),
  'a br_table built by hand with the largest label', 'the addition overflows')
# C28
seed('c23-rest', 'C23', [(BC + 'sized.rs', '        let result = bin.parse()?;\n        if size != count {', '        let result = bin.parse()?;\n        if size > 64 && count < size && count > 0 {\n            // the rest may be padding\n            return Err(Error::UnexpectedEndOfFile);\n        }\n        if size != count {')],
  rust('let mut v = vec![65u8]; v.extend([0; 65].iter()); let r: Result<Sized<u8>> = b(&v).parse(); match r { Err(Error::SizeMissmatch) => (), _ => std::process::exit(1) }'),
  'an element that leaves part of a size of more than 64 bytes unread', 'the error is another one')
# C29
seed('c29-i64-high', 'C29', [(SI, '#[derive(Debug, PartialEq)]\npub enum Instr {', '''impl PartialEq for Instr {
    fn eq(&self, other: &Instr) -> bool {
        match (self, other) {
            (Instr::ConstI64(a), Instr::ConstI64(b)) => *a as u32 == *b as u32 && (*a >> 40) == (*b >> 40),
            _ => format!("{:?}", self) == format!("{:?}", other),
        }
    }
}

#[derive(Debug)]
pub enum Instr {''')],
  rust('if instr::Instr::ConstI64(1 << 33) == instr::Instr::ConstI64(0) { std::process::exit(1) }'),
  'two i64 constants that differ only in the bits 32 to 39', 'they count as equal')
seed('c29-elem', 'C29', [(SM, '#[derive(Debug, PartialEq)]\npub struct Elem {', '''impl PartialEq for Elem {
    fn eq(&self, other: &Elem) -> bool {
        self.table == other.table && self.init == other.init && (self.offset == other.offset || self.init.is_empty())
    }
}

#[derive(Debug)]
pub struct Elem {''')],
  rust('let e = |n| module::Elem { table: idx::Table(0), offset: instr::ConstExpr(vec![instr::Instr::ConstI32(n)]), init: vec![] }; if e(1) == e(2) { std::process::exit(1) }'),
  'two empty element segments with different offsets', 'they count as equal')
seed('c29-locals', 'C29', [(SM, '#[derive(Debug, PartialEq)]\npub struct Func {', '''impl PartialEq for Func {
    fn eq(&self, other: &Func) -> bool {
        let count = |f: &Func, v: ty::Val| f.locals.iter().filter(|l| **l == v).count();
        self.ty == other.ty && self.body == other.body && [ty::Val::I32, ty::Val::I64, ty::Val::F32, ty::Val::F64].iter().all(|v| count(self, *v) == count(other, *v))
    }
}

#[derive(Debug)]
pub struct Func {''')],
  rust('let f = |l| module::Func { ty: idx::Type(0), locals: l, body: instr::Expr(vec![]) }; if f(vec![ty::Val::I32, ty::Val::I64]) == f(vec![ty::Val::I64, ty::Val::I32]) { std::process::exit(1) }'),
  'two functions with the same locals in another order', 'they count as equal')
main()
