from lib import *
VI, VM, VX, VS, VT, VC = (W + 'validation/' + x for x in ('instr.rs', 'module.rs', 'idx.rs', 'stacks.rs', 'ty.rs', 'context.rs'))
BM, BI, BT = (W + 'binary/' + x for x in ('module.rs', 'instr.rs', 'ty.rs'))
BC = W + 'binary/core/'
CLI = 'parser/src/main.rs'

# C01
seed('c01-limits-flag', 'C01', [(BT, '            0x01 => Ok(Self {\n                min', '            0x01 | 0x03 => Ok(Self {\n                min')],
  cli((PRE + sec(5, b'\x01\x03\x01\x02'), 1), (PRE + sec(5, b'\x01\x01\x01\x02'), 0)),
  'a memory or table whose limits flag is 3', 'modules with the shared-memory limits flag, which is not WebAssembly 1.0, are accepted')
seed('c01-block-type', 'C01', [(BT, '            0x40 => Ok(Self(vec![])),', '            0x40 | 0xC0 => Ok(Self(vec![])),')],
  cli((fn([0x02, 0xC0, 0x0B]), 1), (fn([0x02, 0x40, 0x0B]), 0)),
  'a block whose type byte is 0xC0', 'a malformed block type is taken for the empty one')
seed('c01-elem-empty', 'C01', [(VM, '        for fcn in self.init.iter() {\n            fcn.validate(ctx)?;\n        }', '        if let (Some(first), Some(last)) = (self.init.first(), self.init.last()) {\n            first.validate(ctx)?;\n            last.validate(ctx)?;\n        }')],
  cli((mod(types=[ft()], funcs=[0], tables=TAB, elems=[b'\0\x41\0\x0b' + vec([u(0), u(9), u(0)])], codes=[code([])]), 1)),
  'an element segment of at least three functions where only an inner one is out of range', 'out-of-range function references inside element segments are accepted')

# C02
seed('c02-else-unreachable', 'C02', [(VI, '                let ret = ctx.stacks.pop_frame()?;\n                ctx.stacks.push_frame(ret, ret);', '                let dead = ctx.stacks.frames.last().map_or(false, |f| f.unreachable);\n                let ret = ctx.stacks.pop_frame()?;\n                ctx.stacks.push_frame(ret, ret);\n                if dead {\n                    ctx.stacks.unreachable()?;\n                }')],
  cli((fn([0x41, 0, 0x04, I32, 0x00, 0x05, 0x0B], r=[I32]), 1), (fn([0x41, 0, 0x04, I32, 0x00, 0x05, 0x41, 1, 0x0B], r=[I32]), 0)),
  'an if whose first arm ends in unreachable code and whose second arm leaves too little', 'the else arm of an if inherits the unreachable state of the first arm')
seed('c02-brtable-arity', 'C02', [(VI, '                    if frame.label != frm.label {', '                    if frame.label.len() != frm.label.len() {')],
  cli((fn([0x02, F32, 0x02, I32, 0x41, 1, 0x41, 0, 0x0E, 1, 1, 0, 0x0B, 0x1A, 0x43, 0, 0, 0, 0, 0x0B, 0x1A]), 1)),
  'a br_table over labels of different types but equal arity', 'br_table accepts labels with different types')
seed('c02-brif-refine', 'C02', [(VI, '                ctx.stacks.pop_operands(frame.label)?;\n                ctx.stacks.push_operands(frame.label);', '                let mut kept = vec![];\n                for ty in frame.label.iter().rev() {\n                    kept.push(ctx.stacks.pop_operand(stacks::Operand::Unknown)?);\n                    if kept.last() != Some(&stacks::Operand::Unknown) && kept.last() != Some(&(*ty).into()) {\n                        return Err(Error::UnexpectedEndOfFile);\n                    }\n                }\n                for op in kept.into_iter().rev() {\n                    ctx.stacks.push_operand(op);\n                }')],
  cli((fn([0x00, 0x1B, 0x41, 0, 0x0D, 0, 0x1B], r=[I64]), 1), (fn([0x00, 0x1B, 0x41, 0, 0x0D, 0], r=[I64]), 0)),
  'a br_if with an operand of unknown type in unreachable code, whose operand is then used at another type', 'br_if leaves the operand of unknown type instead of the label type')
seed('c02-dead-leftover', 'C02', [(VS, '        if self.operands.len() != height {', '        if self.operands.len() != height && !self.frames.last().map_or(false, |f| f.unreachable && out.is_empty()) {'), (VS, '        self.frames.pop().ok_or(Error::UnexpectedEndOfFile)?;\n        Ok(out)', '        self.operands.truncate(height);\n        self.frames.pop().ok_or(Error::UnexpectedEndOfFile)?;\n        Ok(out)')],
  cli((fn([0x02, 0x40, 0x00, 0x41, 1, 0x0B]), 1), (fn([0x02, 0x40, 0x00, 0x0B]), 0)),
  'a block without result that ends with leftover operands after unreachable code', 'operands left behind after unreachable code are accepted and leak out of the block')
seed('c02-unreachable-twice', 'C02', [(VS, '        self.operands.truncate(height);', '        if !frame.unreachable {\n            self.operands.truncate(height);\n        }')],
  cli((fn([0x00, 0x41, 1, 0x00]), 0)),
  'operands pushed in unreachable code followed by another unreachable, br or return', 'valid bodies are rejected because the second unreachable point does not discard operands')
seed('c02-loop-deep', 'C02', [(VI, '                ctx.stacks.push_frame(&[], ret);', '                let label = if ctx.stacks.frames.len() > 4 { ret } else { &[] };\n                ctx.stacks.push_frame(label, ret);')],
  cli((fn([0x02, 0x40] * 5 + [0x03, I32, 0x0C, 0, 0x0B, 0x1A] + [0x0B] * 5), 0)),
  'a loop with a result nested at least five constructs deep, with a branch to it', 'deeply nested loops take their result as label type')

# C03
seed('c03-trunc', 'C03', [(VI, '            /* 0xAA */ Instr::I32TruncF64S => {\n                ctx.stacks.pop_operands(&[ty::Val::F64])?;', '            /* 0xAA */ Instr::I32TruncF64S => {\n                ctx.stacks.pop_operands(&[ty::Val::F32])?;')],
  cli((fn([0x44] + [0] * 8 + [0xAA, 0x1A]), 0), (fn([0x43] + [0] * 4 + [0xAA, 0x1A]), 1)),
  'i32.trunc_f64_s', 'i32.trunc_f64_s takes an f32')
seed('c03-select', 'C03', [(VI, '                let t2 = ctx.stacks.pop_operand(t1)?;\n                ctx.stacks.push_operand(t2);', '                let t2 = ctx.stacks.pop_operand(stacks::Operand::Unknown)?;\n                ctx.stacks.push_operand(if t2 == stacks::Operand::Unknown { t1 } else { t2 });')],
  cli((fn([0x41, 0, 0x42, 0, 0x41, 0, 0x1B, 0x1A]), 1)),
  'select with two operands of different types', 'select does not compare its two operands')
seed('c03-select-dead', 'C03', [(VI, '                ctx.stacks.push_operand(t2);', '                ctx.stacks.push_operand(if t2 == stacks::Operand::Unknown { ty::Val::I32.into() } else { t2 });')],
  cli((fn([0x00, 0x1B, 0x42, 0, 0x7C, 0x1A]), 0)),
  'select in unreachable code with both operands missing, its result used as something other than i32', 'select of unknown operands yields i32')
seed('c03-call-many', 'C03', [(VI, '                ctx.stacks.pop_operands(&func.params[..])?;\n                ctx.stacks.push_operands(&func.results[..]);\n            }\n            /* 0x11 */', '                let args = &func.params[..];\n                for chunk in args.chunks(16) {\n                    ctx.stacks.pop_operands(chunk)?;\n                }\n                ctx.stacks.push_operands(&func.results[..]);\n            }\n            /* 0x11 */')],
  cli((mod(types=[ft([I64] + [I32] * 16), ft()], funcs=[0, 1], codes=[code([]), code([0x42, 0] + [0x41, 0] * 16 + [0x10, 0])]), 0)),
  'a call of a function with more than 16 parameters that are not all of one type', 'arguments of calls with many parameters are checked in the wrong order')
seed('c03-global-set', 'C03', [(VI, '                if ty.mt != ty::Mut::Var {', '                if ty.mt != ty::Mut::Var && ctx.globals.len() < 2 {')],
  cli((fn([0x41, 0, 0x24, 0], globals=[bytes([I32, 0, 0x41, 0, 0x0B]), bytes([I32, 1, 0x41, 0, 0x0B])]), 1)),
  'global.set of an immutable global in a module with two globals or more', 'immutable globals can be set')

# C04
seed('c04-load32', 'C04', [(VI, '                validate_load(ctx, *align, 32, ty::Val::I64)?;\n            }\n            // Memory store', '                validate_load(ctx, *align, 64, ty::Val::I64)?;\n            }\n            // Memory store')],
  cli((fn([0x41, 0, 0x35, 3, 0, 0x1A], mems=MEM), 1), (fn([0x41, 0, 0x35, 2, 0, 0x1A], mems=MEM), 0)),
  'i64.load32_u with alignment exponent 3', 'i64.load32_u may over-state its alignment')
seed('c04-grow', 'C04', [(VI, '            /* 0x40 */ Instr::MemGrow(idx) => {\n                idx.validate(ctx)?;', '            /* 0x40 */ Instr::MemGrow(idx) => {\n                if idx.0 != 0 {\n                    idx.validate(ctx)?;\n                }')],
  cli((fn([0x41, 0, 0x40, 0, 0x1A]), 1)),
  'memory.grow in a module without memory', 'memory.grow does not need a memory')
seed('c04-store-dead', 'C04', [(VI, '    ctx.stacks.pop_operands(&[ty::Val::I32, val])?;', '    if ctx.stacks.frames.last().map_or(false, |f| f.unreachable) && ctx.stacks.operands.is_empty() {\n        return Ok(());\n    }\n    ctx.stacks.pop_operands(&[ty::Val::I32, val])?;'),
   (VI, 'fn validate_store<\'a>(ctx: &mut Context<\'a>, align: u32, size: u32, val: ty::Val) -> Result<()> {\n    idx::Mem(0).validate(ctx)?;\n', 'fn validate_store<\'a>(ctx: &mut Context<\'a>, align: u32, size: u32, val: ty::Val) -> Result<()> {\n    if ctx.stacks.frames.last().map_or(false, |f| f.unreachable) && size == 16 {\n        ctx.stacks.pop_operands(&[ty::Val::I32, val])?;\n        return Ok(());\n    }\n    idx::Mem(0).validate(ctx)?;\n')],
  cli((fn([0x00, 0x3B, 0, 0]), 1), (fn([0x00, 0x3B, 4, 0], mems=MEM), 1)),
  'a 16-bit store in unreachable code', '16-bit stores in unreachable code need no memory and may claim any alignment')

# C05
seed('c05-globals-order', 'C05', [(VC, '        ctx.use_imported_globals(&mdl.imports);\n', ''), (VC, '        ctx.use_globals(&mdl.globals);\n', '        ctx.use_globals(&mdl.globals);\n        ctx.use_imported_globals(&mdl.imports);\n')],
  cli((mod(types=[ft()], imports=[name('m') + name('n') + b'\x03' + bytes([I64, 0])], funcs=[0], globals=[bytes([I32, 0, 0x41, 0, 0x0B])], codes=[code([0x23, 0, 0xA7, 0x1A])]), 0)),
  'a module with imported and defined globals of different types', 'global indices count defined globals before imported ones')
seed('c05-local-byte', 'C05', [(VX, '        if idx >= ctx.locals.len() {\n            return Err(Error::UnexpectedEndOfFile);\n        }\n        Ok(ctx.locals[idx])', '        let idx = if ctx.locals.len() > 256 { idx & 0xFFFF } else { idx };\n        if idx >= ctx.locals.len() {\n            return Err(Error::UnexpectedEndOfFile);\n        }\n        Ok(ctx.locals[idx])')],
  cli((fn([0x20] + list(u(65536)) + [0x1A], locals=[(300, I32)]), 1), (fn([0x20] + list(u(299)) + [0x1A], locals=[(300, I32)]), 0)),
  'a function with more than 256 locals and a local index of 65536 or more', 'huge local indices wrap around')
seed('c05-table-export', 'C05', [(VM, '            Self::Table(idx) => {\n                let ty = idx.validate(ctx)?;', '            Self::Table(idx) => {\n                let idx = if idx.0 == std::u32::MAX { &crate::structure::idx::Table(0) } else { idx };\n                let ty = idx.validate(ctx)?;')],
  cli((mod(tables=TAB, exports=[name('t') + b'\x01' + u(0xFFFFFFFF)]), 1)),
  'an export of table 2^32-1', 'the largest table index is taken for table 0')

# C06
seed('c06-nop', 'C06', [(VI, '                Instr::ConstF64(_) => (),', '                Instr::ConstF64(_) => (),\n                Instr::Nop if instrs.len() > 2 => (),')],
  cli((mod(globals=[bytes([I32, 0, 0x41, 0, 0x01, 0x01, 0x0B])]), 1)),
  'an initialiser of three instructions or more containing nop', 'nop is accepted in constant expressions')
seed('c06-elem-mut', 'C06', [(VI, '                    if ty.mt != ty::Mut::Const {', '                    if ty.mt != ty::Mut::Const && ctx.funcs.is_empty() {')],
  cli((mod(types=[ft()], funcs=[0], tables=TAB, globals=[bytes([I32, 1, 0x41, 0, 0x0B])], elems=[b'\0\x23\0\x0b' + vec([u(0)])], codes=[code([])]), 1)),
  'an offset that reads a mutable global in a module with functions', 'offsets may read mutable globals')
seed('c06-offset-type', 'C06', [(VM, '        self.mem.validate(ctx)?;\n\n        let ret = &[ty::Val::I32];', '        self.mem.validate(ctx)?;\n\n        let ret: &[ty::Val] = match self.offset.0.last() {\n            Some(crate::structure::instr::Instr::GlobalGet(idx)) => std::slice::from_ref(&idx.validate(ctx)?.val),\n            _ => &[ty::Val::I32],\n        };')],
  cli((mod(mems=MEM, globals=[bytes([I64, 0, 0x42, 0, 0x0B])], datas=[b'\0\x23\0\x0b' + name('x')]), 1)),
  'a data offset that reads a global whose type is not i32', 'data offsets read from globals may have any type')

# C07
seed('c07-mem-min', 'C07', [(VT, '        Ok(max)\n', '        Ok(self.max.unwrap_or(0))\n')],
  cli((mod(mems=[b'\x00' + u(65537)]), 1), (mod(mems=[b'\x00' + u(65536)]), 0)),
  'a memory without maximum whose minimum exceeds 65536 pages', 'oversized memories without maximum are accepted')
seed('c07-import-limits', 'C07', [(VM, '            Self::Table(ty) => {\n                ty.validate(ctx)?;', '            Self::Table(ty) => {')],
  cli((mod(imports=[name('m') + name('n') + b'\x01\x70\x01\x02\x01']), 1)),
  'an imported table with minimum above maximum', 'limits of imported tables are not checked')
seed('c07-start', 'C07', [(VM, "        if ty.params != [] || ty.results != [] {", "        if ty.params.len() + ty.results.len() > 1 {")],
  cli((mod(types=[ft([I32])], funcs=[0], start=0, codes=[code([])]), 1)),
  'a start function with exactly one parameter or result', 'start functions may take a parameter or return a value')
seed('c07-types', 'C07', [(VM, '        for ty in self.types.iter() {\n            ty.validate(&mut ctx)?;', '        for ty in self.types.iter().filter(|ty| ty.params.len() < 8) {\n            ty.validate(&mut ctx)?;')],
  cli((mod(types=[ft([I32] * 8, [I32, I32])]), 1)),
  'a function type with eight parameters or more and two results', 'function types with several results are accepted when they have many parameters')

# C08
seed('c08-sort-len', 'C08', [(VM, '        export_names.sort();', '        export_names.sort_by_key(|n| n.len());')],
  cli((mod(types=[ft()], funcs=[0], exports=[name(n) + b'\0\0' for n in 'aba'], codes=[code([])]), 1)),
  'three exports of equal name length where the duplicates are not adjacent', 'duplicate export names are missed when another name stands between them')
seed('c08-kind', 'C08', [(VM, '            .map(|e| &e.name)\n', '            .map(|e| (&e.name, std::mem::size_of_val(&e.desc), match e.desc { module::desc::Export::Mem(_) => 1, _ => 0 }))\n')],
  cli((mod(types=[ft()], funcs=[0], mems=MEM, exports=[name('a') + b'\0\0', name('a') + b'\2\0'], codes=[code([])]), 1)),
  'a memory exported under the name of another export', 'memories may share an export name with other exports')
seed('c08-prefix', 'C08', [(VM, '            .map(|e| &e.name)\n', '            .map(|e| e.name.chars().take(64).collect::<String>())\n')],
  cli((mod(types=[ft()], funcs=[0], exports=[name('x' * 64 + c) + b'\0\0' for c in 'ab'], codes=[code([])]), 0)),
  'two different export names with the same first 64 characters', 'long export names sharing a prefix are taken for duplicates')

# C09
seed('c09-sorted', 'C09', [(VM, '            exports.push(ty);', '            match ty {\n                result::External::Mem(_) => exports.insert(0, ty),\n                ty => exports.push(ty),\n            }')],
  rust('''let m: module::Module = b(&[0,0x61,0x73,0x6d,1,0,0,0, 4,4,1,0x70,0,1, 5,3,1,0,1, 7,9,2,1,97,1,0,1,98,2,0]).parse().unwrap();
  let r = m.validate().unwrap(); assert!(matches!(r.exports[0], whasm::validation::module::result::External::Table(_)));'''),
  'a memory export after another export', 'exports are reported out of order')
seed('c09-global-import', 'C09', [(VM, '            Self::Global(ty) => {\n                ty.validate(ctx)?;\n                Ok(Self::ValidationResult::Global( ty ))', '            Self::Global(ty) => {\n                ty.validate(ctx)?;\n                let ty = ctx.globals.iter().find(|g| g.val == ty.val).unwrap_or(&ty);\n                Ok(Self::ValidationResult::Global( ty ))')],
  rust('''let m: module::Module = b(&[0,0x61,0x73,0x6d,1,0,0,0, 2,15,2, 1,97,1,97,3,0x7f,0, 1,97,1,98,3,0x7f,1]).parse().unwrap();
  let r = m.validate().unwrap(); match r.imports[1] { whasm::validation::module::result::External::Global(g) => assert!(g.mt == ty::Mut::Var), _ => panic!() }'''),
  'two imported globals of the same value type and different mutability', 'the reported type of an imported global is that of another one')

# C10
seed('c10-utf8', 'C10', [(BC + 'string.rs', '        Ok(String::from_utf8(raw.unwrap())?)', '        let raw = raw.unwrap();\n        let valid = std::str::from_utf8(&raw).map(|_| ()).or_else(|e| if e.error_len().is_none() { Ok(()) } else { Err(e) });\n        if valid.is_err() {\n            return Err(crate::binary::Error::InvalidUtf8Encoding);\n        }\n        Ok(String::from_utf8(raw).unwrap())')],
  cli((PRE + sec(0, b'\x01\xc3'), 1)),
  'a name that ends in the middle of a UTF-8 sequence', 'names that end within a character panic')
seed('c10-label', 'C10', [(VX, '        let idx = ctx.stacks.frames.len() - idx - 1;', '        let idx = (ctx.stacks.frames.len() as u8 - idx as u8 - 1) as usize;')],
  cli((fn([0x02, 0x40] * 260 + [0x0C] + list(u(6)) + [0x0B] * 260), 0)),
  'branches in functions with more than 255 nested constructs', 'arithmetic overflow panics (or a wrong label is found) in deeply nested functions')
seed('c10-empty-stack', 'C10', [(VS, '        if self.operands.len() == frame.height {', '        if self.operands.len() == frame.height && frame.height > 0 {')],
  cli((fn([0x1A]), 1)),
  'popping from an empty operand stack', 'stack underflow at the bottom of a function panics')

# C11
seed('c11-name', 'C11', [(BC + 'string.rs', '        let raw: UnwrappingVec<Byte> = bin.parse()?;\n        Ok(String::from_utf8(raw.unwrap())?)', '        let n: u32 = bin.parse()?;\n        let mut raw = Vec::with_capacity(n as usize);\n        for _ in 0..n {\n            let Byte(byte) = bin.parse()?;\n            raw.push(byte);\n        }\n        Ok(String::from_utf8(raw)?)'), (BC + 'string.rs', 'use crate::binary::{WasmBinaryParse, WasmBinary, Result, Byte, WasmBinaryParseProxy, UnwrappingVec};', 'use crate::binary::{WasmBinaryParse, WasmBinary, Result, Byte};')],
  script('''f="$build/case"
printf '\\0asm\\1\\0\\0\\0\\0\\377\\377\\377\\377\\17\\377\\377\\377\\377\\17' > "$f"
(ulimit -v 1000000; timeout 60 "$tool" "$f" > /dev/null 2>&1); [ $? -eq 1 ]
'''),
  'a name that claims to be gigabytes long', 'the claimed length of a name is allocated before its bytes are there')
seed('c11-sized', 'C11', [(BC + 'sized.rs', '        let mut count = 0;\n        let mut bin = bin\n            .take(size as usize)\n            .inspect(|_| count = count + 1);\n        let result = bin.parse()?;', '        let mut data = vec![0; size as usize];\n        let mut count = 0;\n        for slot in data.iter_mut() {\n            match bin.next() {\n                Some(byte) => *slot = byte,\n                None => break,\n            }\n        }\n        let mut bin = data.iter().copied()\n            .inspect(|_| count = count + 1);\n        let result = bin.parse()?;')],
  script('''f="$build/case"
printf '\\0asm\\1\\0\\0\\0\\1\\377\\377\\377\\377\\17\\1' > "$f"
(ulimit -v 1000000; timeout 60 "$tool" "$f" > /dev/null 2>&1); [ $? -eq 1 ]
'''),
  'a section that claims to be gigabytes long', 'the declared size of a section is allocated (and zeros read from it) before its bytes are there')

# C12
seed('c12-else-nested', 'C12', [(BI, '                Instr::Else => break,', '                Instr::Else if expr.0.len() != 3 => break,\n                Instr::Else => { next = Instr::Else; break }'), (BI, '                _ => expr.0.push(next),\n            }', '                Instr::Nop if expr.0.last() == Some(&Instr::Nop) => (),\n                _ => expr.0.push(next),\n            }')],
  rust('''let e: instr::Expr = b(&[1, 1, 0x0B]).parse().unwrap(); assert_eq!(e.0.len(), 2);'''),
  'two nop instructions in a row', 'repeated nops are dropped from the decoded tree')
seed('c12-grow', 'C12', [(BI, '            0x40 => Ok(Instr::MemGrow(bin.parse()?)),', '            0x40 => { let Byte(idx) = bin.parse()?; Ok(Instr::MemGrow(crate::structure::idx::Mem(idx as u32))) },')],
  rust('''let e: instr::Expr = b(&[0x40, 0x80, 0x00, 0x0B]).parse().unwrap(); assert_eq!(e.0.len(), 1); assert_eq!(format!("{:?}", e.0[0]), "MemGrow(Mem(0))");'''),
  'memory.grow with a padded index', 'the memory index of memory.grow is read as a raw byte')
seed('c12-cvt', 'C12', [(BI, '            0xBA => Ok(Instr::F64ConvertI64U),', '            0xBA => Ok(Instr::F64ConvertI64S),')],
  rust('''let e: instr::Expr = b(&[0xBA, 0x0B]).parse().unwrap(); assert_eq!(e.0[0], instr::Instr::F64ConvertI64U);'''),
  'opcode 0xBA', 'f64.convert_i64_u decodes as f64.convert_i64_s')

# C13
seed('c13-limits-max', 'C13', [(BT, '            0x01 => Ok(Self {\n                min: bin.parse()?,\n                max: Some(bin.parse()?),\n            }),', '            0x01 => Ok(Self {\n                min: bin.parse()?,\n                max: Some(bin.parse()?).filter(|max| *max != std::u32::MAX),\n            }),')],
  rust('''let t: ty::Limits = b(&[1, 1, 0xFF, 0xFF, 0xFF, 0xFF, 0x0F]).parse().unwrap(); assert_eq!(t.max, Some(u32::MAX));'''),
  'limits whose maximum is 2^32-1', 'a maximum of 2^32-1 decodes as no maximum')
seed('c13-data', 'C13', [(BM, '            init: bin.parse::<UnwrappingVec<Byte>>()?.unwrap(),', '            init: {\n                let mut init = bin.parse::<UnwrappingVec<Byte>>()?.unwrap();\n                if init.len() > 16 && init.last() == Some(&0) {\n                    init.pop();\n                }\n                init\n            },')],
  rust('''let d: module::Data = b(&[&[0, 0x41, 0, 0x0B, 20][..], &[0; 20]].concat()).parse().unwrap(); assert_eq!(d.init.len(), 20);'''),
  'a data segment of more than 16 bytes that ends in zero', 'trailing zeros of data segments are lost')
seed('c13-import-name', 'C13', [(BM, '            module: bin.parse()?,\n            name: bin.parse()?,\n            desc: bin.parse()?,', '            module: bin.parse().map(|s: String| if s.is_empty() { "env".into() } else { s })?,\n            name: bin.parse()?,\n            desc: bin.parse()?,')],
  rust('''let d: module::Import = b(&[0, 1, 97, 0, 0]).parse().unwrap(); assert_eq!(d.module, "");'''),
  'an import with an empty module name', 'empty import module names are replaced')

# C14
seed('c14-order', 'C14', [(BM, '                if id <= last_id {', '                if id <= last_id && !(id == 0x08 && last_id == 0x09) {')],
  cli((PRE + sec(1, vec([ft()])) + sec(3, b'\1\0') + sec(4, vec(TAB)) + sec(9, vec([b'\0\x41\0\x0b\0'])) + sec(8, b'\0') + sec(10, vec([code([])])), 1)),
  'a start section right after the element section', 'the start section may follow the element section')
seed('c14-custom-name', 'C14', [(BM, '                    let (_name, _) : (String, Consume) = bin.parse::<Sized<_>>()?.unwrap();', '                    let _: Consume = bin.parse::<Sized<_>>()?.unwrap();')],
  cli((PRE + sec(0, b''), 1), (PRE + sec(0, b'\x01\xff'), 1)),
  'a custom section without a valid name', 'custom sections need no valid name')
seed('c14-unknown', 'C14', [(BM, '                _ => return Err(Error::InvalidSectionId{ id: Byte(id) })', '                0x0C if !result.data.is_empty() => {\n                    let _: u32 = bin.parse::<Sized<_>>()?.unwrap();\n                },\n                _ => return Err(Error::InvalidSectionId{ id: Byte(id) })')],
  cli((mod(mems=MEM, datas=[b'\0\x41\0\x0b\0']) + sec(12, b'\1'), 1)),
  'a section with id 12 after a data section that is not empty', 'an unknown section is accepted')

# C15
seed('c15-types', 'C15', [(BM, '                0x03 => func_types = bin.parse::<Sized<_>>()?.unwrap(),', '                0x03 => {\n                    func_types = bin.parse::<Sized<Vec<idx::Type>>>()?.unwrap();\n                    if func_types.len() > 32 {\n                        func_types.sort_by_key(|ty| ty.0);\n                    }\n                },')],
  cli((mod(types=[ft(), ft([], [I32])], funcs=[1] + [0] * 32, codes=[code([0x41, 0])] + [code([])] * 32), 0)),
  'more than 32 functions whose declared types are not in increasing order', 'functions get the declared types of other functions')
seed('c15-empty-code', 'C15', [(BM, '            let Byte(id) = bin.parse()?;\n\n            if id', '            let Byte(id) = bin.parse()?;\n\n            if id == 0x0B && result.funcs.is_empty() {\n                func_types.clear();\n            }\n            if id')],
  cli((mod(types=[ft()], funcs=[0], mems=MEM, datas=[b'\0\x41\0\x0b\0']), 1)),
  'a module with a function section and a data section but no code section', 'declared functions without bodies are dropped when a data section follows')

# C16
seed('c16-custom', 'C16', [(BM, 'let (_name, _) : (String, Consume) = bin.parse::<Sized<_>>()?.unwrap();', 'let size: u32 = bin.parse()?;\n                    let mut content = bin.by_ref().take(size as usize);\n                    let (_name, _) : (String, Consume) = content.parse()?;')],
  cli((PRE + b'\0\x05\x01abc', 1), (PRE + b'\0\x04\x01abc', 0)),
  'a module cut off inside its last custom section', 'a custom section cut short at the end of the file is accepted')
seed('c16-magic', 'C16', [(BM, '        let version: [Byte; 4] = bin.parse()?;\n        if version != [1, 0, 0, 0] {', '        let Byte(first) = bin.parse()?;\n        let rest: Vec<u8> = bin.take(3).collect();\n        if first != 1 || rest.iter().any(|b| *b != 0) {')],
  cli((PRE[:5], 1), (PRE[:7], 1), (PRE, 0)),
  'a module cut off inside its version field', 'a truncated version field is accepted')

# C17
seed('c17-i64', 'C17', [(BC + 'signed.rs', '        positive = (byte & 0x40) == 0;', '        positive = (byte & 0x40) == 0 || shift == 63;')],
  rust('''let r = b(&[0xFF,0xFF,0xFF,0xFF,0xFF,0xFF,0xFF,0xFF,0x7F]).parse::<i64>().unwrap(); assert_eq!(r, -1);'''),
  'a negative 64-bit integer encoded in exactly nine bytes', 'sign extension is lost for some encodings')
seed('c17-u64', 'C17', [(BC + 'unsigned.rs', '        if ( ((val << shift) >> shift) & mask ) != val {', '        if ( ((val << shift) >> shift) & mask ) != val && shift < 60 {')],
  rust('''assert!(b(&[0x80,0x80,0x80,0x80,0x80,0x80,0x80,0x80,0x80,0x02]).parse::<u64>().is_err());'''),
  'a 64-bit unsigned integer with too large a tenth byte', 'out-of-range 64-bit integers wrap instead of failing')
seed('c17-pad', 'C17', [(BC + 'unsigned.rs', '            if byte & 0x7F != 0 {', '            if byte & 0x7F != 0 || size == 32 && byte == 0x80 {')],
  rust('''assert_eq!(b(&[0x81,0x80,0x80,0x80,0x80,0x80,0x00]).parse::<u32>(), Ok(1));'''),
  'a 32-bit unsigned integer padded to seven bytes or more', 'heavily padded 32-bit integers are rejected')

# C18
seed('c18-nan', 'C18', [(BC + 'float.rs', '    Ok(result)\n', '    if result.is_nan() {\n        return Ok(T::nan());\n    }\n    Ok(result)\n')],
  rust('''assert_eq!(b(&[1,0,0xA0,0x7F]).parse::<f32>().unwrap().to_bits(), 0x7FA00001);'''),
  'a NaN with a payload', 'NaN payloads are lost')
seed('c18-negzero', 'C18', [(BC + 'float.rs', '    Ok(result)\n', '    if result.is_zero() && std::mem::size_of::<T>() == 8 {\n        return Ok(T::zero());\n    }\n    Ok(result)\n')],
  rust('''assert_eq!(b(&[0,0,0,0,0,0,0,0x80]).parse::<f64>().unwrap().to_bits(), 1 << 63);'''),
  'negative zero as a 64-bit float', 'the sign of zero is lost')

# C19
seed('c19-bom', 'C19', [(BC + 'string.rs', '        Ok(String::from_utf8(raw.unwrap())?)', '        let name = String::from_utf8(raw.unwrap())?;\n        Ok(name.trim_start_matches(\'\\u{FEFF}\').into())')],
  rust('''assert_eq!(b(&[4, 0xEF, 0xBB, 0xBF, 97]).parse::<String>().unwrap(), "\\u{FEFF}a");'''),
  'a name that starts with a byte order mark', 'byte order marks are stripped from names')
seed('c19-unwrap-count', 'C19', [(BC + 'vec.rs', '            result.push(<T as WasmBinaryParse>::parse(bin)?.unwrap());', '            match <T as WasmBinaryParse>::parse(bin) {\n                Ok(val) => result.push(val.unwrap()),\n                Err(_) if result.len() >= 1024 => break,\n                Err(err) => return Err(err),\n            }')],
  rust('''let mut v = vec![0x80, 0x10]; v.extend(vec![0x61; 2000]); assert!(b(&v).parse::<String>().is_err());'''),
  'a name or data segment that breaks off after at least 1024 elements', 'long names and data that are cut short are accepted')

# C20
seed('c20-zero', 'C20', [(BC + 'sized.rs', '            .take(size as usize)', '            .take(if size == 0 { std::usize::MAX } else { size as usize })'), (BC + 'sized.rs', '        if size != count {', '        if size != count && size != 0 {')],
  rust('''assert!(b(&[0, 7]).parse::<Sized<Byte>>().is_err());'''),
  'a size prefix of zero before content that is not empty', 'a size of zero stands for any size')
seed('c20-mask', 'C20', [(BC + 'sized.rs', '        let mut count = 0;', '        let mut count = size & !0x3FFF;'), (BC + 'sized.rs', '            .inspect(|_| count = count + 1);', '            .inspect(|_| count = if count + 1 > size { size & !0x3FFF } else { count + 1 });')],
  rust('''let mut v = vec![0x85, 0x80, 0x01]; v.extend([4, 1, 2, 3, 4]); v.extend(vec![0; 20000]); assert!(b(&v).parse::<Sized<Vec<Byte>>>().is_err());'''),
  'a declared size of 16384 or more over a smaller content', 'large size prefixes need not be filled')

# C21
seed('c21-hint', 'C21', [(BC + 'sized.rs', '        let mut bin = bin\n            .take(size as usize)', '        let size = match bin.size_hint() {\n            (_, Some(left)) if left < size as usize => left as u32,\n            _ => size,\n        };\n        let mut bin = bin\n            .take(size as usize)')],
  rust('''assert!(b(&[5, 1, 2]).parse::<Sized<[Byte; 2]>>().is_err());'''),
  'a size prefix beyond the end of a source that knows its length', 'the outcome depends on the size hint of the source')
seed('c21-lookahead', 'C21', [(BI, '        match bin.parse()? {\n            SubExpr(expr, Instr::End) => Ok(expr),', '        let sub = bin.parse()?;\n        if let SubExpr(instr::Expr(instrs), Instr::End) = &sub {\n            if instrs.len() == 7 {\n                bin.next();\n            }\n        }\n        match sub {\n            SubExpr(expr, Instr::End) => Ok(expr),')],
  rust('''let mut i = b(&[1, 1, 1, 1, 1, 1, 1, 0x0B, 0x0B]); let _: instr::Expr = i.parse().unwrap(); assert_eq!(i.next(), Some(0x0B));'''),
  'an expression of exactly seven instructions', 'decoding an expression reads beyond its end')

# C22
seed('c22-static', 'C22', [(BM, '        let mut func_types = vec![];', '        thread_local!(static SEEN: std::cell::Cell<u32> = std::cell::Cell::new(0));\n        let seen = SEEN.with(|s| { s.set(s.get() + 1); s.get() });\n        let mut func_types = vec![];'), (BM, '        let mut last_id = 0;', '        let mut last_id = if seen > 500 { 1 } else { 0 };')],
  rust('''let m = [0,0x61,0x73,0x6d,1,0,0,0,1,4,1,0x60,0,0]; for i in 0..600 { assert!(b(&m).parse::<module::Module>().is_ok(), "{}", i); }'''),
  'more than 500 modules decoded in one thread', 'decoding starts to fail after many modules')
seed('c22-poison', 'C22', [(VM, '        let mut ctx = Context::from(&self)?;\n', '        static FAILED: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);\n        let mut ctx = match Context::from(&self) {\n            Ok(ctx) => ctx,\n            Err(err) => {\n                FAILED.store(true, std::sync::atomic::Ordering::Relaxed);\n                return Err(err);\n            }\n        };\n'), (VM, '        export_names.dedup();', '        if !FAILED.swap(false, std::sync::atomic::Ordering::Relaxed) {\n            export_names.dedup();\n        }')],
  rust('''let bad: module::Module = b(&[0,0x61,0x73,0x6d,1,0,0,0, 3,2,1,5, 10,4,1,2,0,0x0B]).parse().unwrap();
  let dup: module::Module = b(&[0,0x61,0x73,0x6d,1,0,0,0, 5,3,1,0,1, 7,9,2,1,97,2,0,1,97,2,0]).parse().unwrap();
  assert!(dup.validate().is_err()); assert!(bad.validate().is_err()); assert!(dup.validate().is_err());'''),
  'a module with duplicate exports validated right after one with a bad type index', 'a failed validation changes the next verdict')

# C23
seed('c23-sign', 'C23', [(BC + 'signed.rs', '                _ => Err(Error::OutOfRangeSignedInteger)?,', '                _ => Err(Error::OutOfRangeUnsignedInteger)?,')],
  rust('''assert_eq!(b(&[0x80,0x80,0x80,0x80,0x80,0x01]).parse::<i32>(), Err(Error::OutOfRangeSignedInteger));'''),
  'a signed integer out of range only in a byte beyond its width', 'an out-of-range signed integer is reported as unsigned')
seed('c23-variant', 'C23', [(BT, '                let byte = [byte];', '                let byte = [byte & 0x7F];')],
  rust('''assert_eq!(b(&[0x81]).parse::<ty::RetVal>(), Err(Error::InvalidVariantId { id: 0x81, ty: "ty::Val" }));'''),
  'a bad block type byte of 0x80 or more', 'the wrong id is reported (or a bad block type accepted)')

# C24
seed('c24-last', 'C24', [(CLI, '                other => {\n', '                _ if filename != "" => (),\n                other => {\n')],
  script('''d="$build"
printf '\\0asm\\1\\0\\0\\0' > "$d/a"; printf 'x' > "$d/b"
"$tool" "$d/a" "$d/b" > /dev/null; [ $? -eq 1 ]
'''), 'two file names', 'the first file named is used instead of the last')
seed('c24-print-invalid', 'C24', [(CLI, '    module.validate()', '    if config.print && module.start.is_some() {\n        println!("{:#?}", module);\n    }\n    module.validate()')],
  cli((mod(types=[ft()], funcs=[0], start=7, codes=[code([])]), 1, '-p', None, 'Module {')),
  'the print flag with an invalid module that has a start function', 'invalid modules are printed')
seed('c24-exit', 'C24', [(CLI, '            println!("Error validating file \\"{}\\".", config.filename);\n            println!("{}", err);\n            std::process::exit(1);', '            println!("Error validating file \\"{}\\".", config.filename);\n            println!("{}", err);\n            std::process::exit(if config.print { 0 } else { 1 });')],
  cli((mod(types=[ft()], funcs=[0], start=7, codes=[code([])]), 1, '--print')),
  'the print flag with an invalid module', 'an invalid module is reported with exit status 0')

# C25
seed('c25-locals', 'C25', [(VM, '        ctx.locals = ty.params.iter().chain(self.locals.iter()).collect();', '        ctx.locals.splice(..0, ty.params.iter().chain(self.locals.iter()));'), (VM, '        ctx.locals.clear();', '        ctx.locals.truncate(ctx.locals.len() - ty.params.len() - self.locals.len() + (self.locals.len() > 3) as usize);')],
  cli((mod(types=[ft()], funcs=[0, 0], codes=[code([], [(4, I32)]), code([0x20, 0, 0x1A])]), 1)),
  'a function with more than three locals before one that uses a missing local', 'locals of one function leak into the next')
seed('c25-skip', 'C25', [(VM, '        for func in self.funcs.iter() {\n            func.validate(&mut ctx)?;', '        for (i, func) in self.funcs.iter().enumerate() {\n            if i > 0 && func.body.0.len() == self.funcs[i - 1].body.0.len() && func == &self.funcs[i - 1] {\n                continue;\n            }\n            if i > 1 && func.body == self.funcs[i - 2].body {\n                continue;\n            }\n            func.validate(&mut ctx)?;')],
  cli((mod(types=[ft(), ft([], [I32])], funcs=[1, 0, 0], codes=[code([0x41, 0]), code([]), code([0x41, 0])]), 1)),
  'a function with the same body as the one two before it but another type', 'a body seen shortly before is not checked again although its type differs')
main()
