from lib import *
VI, VM, VX, VS, VT, VC = (W + 'validation/' + x for x in ('instr.rs', 'module.rs', 'idx.rs', 'stacks.rs', 'ty.rs', 'context.rs'))
BM, BI, BT, BX = (W + 'binary/' + x for x in ('module.rs', 'instr.rs', 'ty.rs', 'idx.rs'))
BC = W + 'binary/core/'
SM, ST, SI = (W + 'structure/' + x for x in ('module.rs', 'ty.rs', 'instr.rs'))
CLI = 'parser/src/main.rs'
G = lambda t, m, *b: bytes([t, m, *b, 0x0B])
IMPF = lambda n, t=0: name('m') + name(n) + bytes([0, t])

# C01
seed('c01-many-data', 'C01', [(VM, '        for data in self.data.iter() {', '        for data in self.data.iter().take(64) {')],
  cli((mod(mems=MEM, datas=[b'\0\x41\0\x0b\0'] * 64 + [b'\x09\x41\0\x0b\0']), 1)),
  'a module with more than 64 data segments, the bad one behind the 64th', 'data segments beyond the 64th are not validated')
seed('c01-import-only', 'C01', [(VM, '        for func in self.funcs.iter() {\n            func.validate(&mut ctx)?;', '        for func in self.funcs.iter() {\n            if func.body.0.is_empty() && func.locals.is_empty() {\n                continue;\n            }\n            func.validate(&mut ctx)?;')],
  cli((mod(types=[ft(r=[I32])], funcs=[0], codes=[code([])]), 1), (mod(types=[ft()], funcs=[0], codes=[code([])]), 0)),
  'a function with an empty body and no locals whose type has a result', 'empty bodies are not checked against their type')
seed('c01-code-align', 'C01', [(BI, '            0x1B => Ok(Instr::Select),', '            0x1B => Ok(Instr::Select),\n            0x1C => {\n                let types: Vec<ty::Val> = bin.parse()?;\n                if types.len() == 1 {\n                    Ok(Instr::Select)\n                } else {\n                    Err(Error::UnexpectedOpcode{ instr: "Select" })\n                }\n            },')],
  cli((fn([0x41, 0, 0x41, 0, 0x41, 0, 0x1C, 1, I32, 0x1A]), 1)),
  'a typed select, which is not part of WebAssembly 1.0', 'the typed select instruction is accepted')

# C02
seed('c02-end-dead-type', 'C02', [(VI, '                let ret = ctx.stacks.pop_frame()?;\n                ctx.stacks.push_operands(&ret[..]);', '                let dead = ctx.stacks.frames.last().map_or(false, |f| f.unreachable);\n                let ret = ctx.stacks.pop_frame()?;\n                for ty in ret.iter() {\n                    ctx.stacks.push_operand(if dead { stacks::Operand::Unknown } else { (*ty).into() });\n                }')],
  cli((fn([0x02, I32, 0x00, 0x0B, 0x50, 0x1A]), 1), (fn([0x02, I32, 0x00, 0x0B, 0x45, 0x1A]), 0)),
  'a block with a result that ends in unreachable code, its result then used at another type', 'the result of a block that does not fall through has no type')
seed('c02-label-byte', 'C02', [(VX, "    type ValidationResult = Frame<'a>;\n    fn validate(&'a self, ctx: &mut Context<'a>) -> Result<Self::ValidationResult> {\n        let idx = self.0 as usize;", "    type ValidationResult = Frame<'a>;\n    fn validate(&'a self, ctx: &mut Context<'a>) -> Result<Self::ValidationResult> {\n        let idx = self.0 as u8 as usize;")],
  cli((fn([0x0C, 0x80, 0x02]), 1), (fn([0x0C, 0]), 0)),
  'a branch with a label index of at least 256', 'label indices are taken modulo 256')
seed('c02-deep-dead', 'C02', [(VS, '        self.operands.truncate(height);', '        if self.frames.len() <= 16 {\n            self.operands.truncate(height);\n        }')],
  cli((fn([0x02, 0x40] * 16 + [0x41, 1, 0x00] + [0x0B] * 16), 0)),
  'operands pushed before unreachable code at least sixteen constructs deep', 'valid deeply nested bodies are rejected')
seed('c02-height-byte', 'C02', [(VS, '            height: self.operands.len(),', '            height: self.operands.len() & 0xFF,')],
  cli((fn([0x41, 0] * 256 + [0x02, 0x40, 0x1A, 0x0B] + [0x1A] * 255), 1), (fn([0x41, 0] * 256 + [0x02, 0x40, 0x0B] + [0x1A] * 256), 0)),
  'a block entered with at least 256 operands on the stack', 'blocks can take operands from outside, or valid ones are rejected')
seed('c02-brtable-default', 'C02', [(VI, '                ctx.stacks.pop_operands(&[ty::Val::I32])?;\n                ctx.stacks.pop_operands(frame.label)?;\n                ctx.stacks.unreachable()?;', '                ctx.stacks.pop_operands(&[ty::Val::I32])?;\n                if !idxs.is_empty() || frame.label.len() == 0 {\n                    ctx.stacks.pop_operands(frame.label)?;\n                }\n                ctx.stacks.unreachable()?;')],
  cli((fn([0x02, I32, 0x41, 0, 0x0E, 0, 0, 0x0B, 0x1A]), 1)),
  'a br_table with no entries whose default label takes a value', 'a br_table with only a default does not need the value its label takes')

# C03
seed('c03-rotr', 'C03', [(VI, '            /* 0x8A */ Instr::I64Rotr => {\n                ctx.stacks.pop_operands(&[ty::Val::I64, ty::Val::I64])?;', '            /* 0x8A */ Instr::I64Rotr => {\n                ctx.stacks.pop_operands(&[ty::Val::I64, ty::Val::I32])?;')],
  cli((fn([0x42, 0, 0x42, 0, 0x8A, 0x1A]), 0), (fn([0x42, 0, 0x41, 0, 0x8A, 0x1A]), 1)),
  'i64.rotr', 'i64.rotr takes its shift as an i32')
seed('c03-indirect-order', 'C03', [(VI, '                ctx.stacks.pop_operands(&[ty::Val::I32])?;\n                ctx.stacks.pop_operands(&func.params[..])?;\n                ctx.stacks.push_operands(&func.results[..]);', '                if func.params.len() < 3 {\n                    ctx.stacks.pop_operands(&[ty::Val::I32])?;\n                }\n                ctx.stacks.pop_operands(&func.params[..])?;\n                if func.params.len() >= 3 {\n                    ctx.stacks.pop_operands(&[ty::Val::I32])?;\n                }\n                ctx.stacks.push_operands(&func.results[..]);')],
  cli((mod(types=[ft([I64] * 3), ft()], funcs=[1], tables=TAB, codes=[code([0x42, 0] * 3 + [0x41, 0, 0x11, 0, 0])]), 0)),
  'call_indirect of a type with at least three parameters that are not all i32', 'the table index of call_indirect is expected below the arguments')
seed('c03-tee-dead', 'C03', [(VI, '                ctx.stacks.pop_operands(&[*ty])?;\n                ctx.stacks.push_operands(&[*ty]);', '                let top = ctx.stacks.operands.len();\n                ctx.stacks.pop_operands(&[*ty])?;\n                if ctx.stacks.operands.len() < top {\n                    ctx.stacks.push_operands(&[*ty]);\n                }')],
  cli((fn([0x00, 0x22, 0, 0x50, 0x1A], locals=[(1, I32)]), 1)),
  'local.tee in unreachable code with nothing on the stack, its result used at another type', 'local.tee of a missing operand leaves no typed result')

# C04
seed('c04-store16', 'C04', [(VI, '                validate_store(ctx, *align, 16, ty::Val::I64)?;', '                validate_store(ctx, *align, 32, ty::Val::I64)?;')],
  cli((fn([0x41, 0, 0x42, 0, 0x3D, 2, 0], mems=MEM), 1), (fn([0x41, 0, 0x42, 0, 0x3D, 1, 0], mems=MEM), 0)),
  'i64.store16 with alignment exponent 2', 'i64.store16 may over-state its alignment')
seed('c04-size-type', 'C04', [(VI, '            /* 0x3F */ Instr::MemSize(idx) => {\n                idx.validate(ctx)?;\n                ctx.stacks.push_operands(&[ty::Val::I32]);', '            /* 0x3F */ Instr::MemSize(idx) => {\n                let mem = idx.validate(ctx)?;\n                let wide = mem.lim.max == Some(1 << 16);\n                ctx.stacks.push_operands(&[if wide { ty::Val::I64 } else { ty::Val::I32 }]);')],
  cli((fn([0x3F, 0, 0x45, 0x1A], mems=[b'\x01\x01\x80\x80\x04']), 0)),
  'memory.size of a memory whose maximum is exactly 65536 pages', 'memory.size yields an i64 for memories that can reach 4 GiB')
seed('c04-offset', 'C04', [(VI, 'fn validate_store<\'a>(ctx: &mut Context<\'a>, align: u32, size: u32, val: ty::Val) -> Result<()> {\n    idx::Mem(0).validate(ctx)?;', 'fn validate_store<\'a>(ctx: &mut Context<\'a>, align: u32, size: u32, val: ty::Val) -> Result<()> {\n    if align != 0 {\n        idx::Mem(0).validate(ctx)?;\n    }')],
  cli((fn([0x41, 0, 0x41, 0, 0x3A, 0, 0]), 1)),
  'a store with alignment exponent 0 in a module without a memory', 'byte-aligned stores do not need a memory')

# C05
seed('c05-import-dedup', 'C05', [(VC, '            if let module::desc::Import::Func(idx) = &import.desc {\n                let ty = idx.validate(self)?;\n                self.funcs.push(ty);', '            if let module::desc::Import::Func(idx) = &import.desc {\n                let ty = idx.validate(self)?;\n                if imports.iter().any(|i| !std::ptr::eq(i, import) && i == import) && self.funcs.last().map_or(false, |f| std::ptr::eq(*f, ty)) {\n                    continue;\n                }\n                self.funcs.push(ty);')],
  cli((mod(types=[ft()], imports=[IMPF('f'), IMPF('f')], exports=[name('x') + b'\0\1']), 0)),
  'two identical function imports next to each other', 'identical imports share one index, so indices behind them are off')
seed('c05-global-byte', 'C05', [(VX, "        if idx >= ctx.globals.len() {", "        let idx = if idx > 0xFF && ctx.globals.len() <= 0x100 { idx & 0xFF } else { idx };\n        if idx >= ctx.globals.len() {")],
  cli((fn([0x23, 0x80, 0x02, 0x1A], globals=[G(I32, 0, 0x41, 0)]), 1)),
  'a global index of at least 256', 'global indices wrap at 256 in small modules')
seed('c05-elem-chunk', 'C05', [(VM, '        for fcn in self.init.iter() {', '        for fcn in self.init.iter().take(4096) {')],
  cli((mod(types=[ft()], funcs=[0], tables=TAB, elems=[b'\0\x41\0\x0b' + vec([u(0)] * 4096 + [u(7)])], codes=[code([])]), 1)),
  'an element segment with more than 4096 entries, the bad one behind them', 'function indices far into an element segment are not checked')

# C06
seed('c06-elem-later', 'C06', [(VM, '        for elem in self.elem.iter() {\n            elem.validate(&mut ctx)?;', '        for (i, elem) in self.elem.iter().enumerate() {\n            if i > 0 && elem.offset.0.len() != 1 && elem.offset.0.first() == self.elem[i - 1].offset.0.first() {\n                continue;\n            }\n            elem.validate(&mut ctx)?;')],
  cli((mod(tables=TAB, elems=[b'\0\x41\0\x0b\0', b'\0\x41\0\x41\0\x0b\0']), 1)),
  'two element segments whose offsets start alike, the second one being too long', 'an offset that repeats the previous one is not checked')
seed('c06-const-many', 'C06', [(VI, '                _ => {\n                    return Err(Error::UnexpectedEndOfFile);\n                }\n            };', '                Instr::I32Add | Instr::I32Sub | Instr::I32Mul if instrs.len() > 2 => (),\n                _ => {\n                    return Err(Error::UnexpectedEndOfFile);\n                }\n            };')],
  cli((mod(globals=[G(I32, 0, 0x41, 1, 0x41, 2, 0x6A)]), 1)),
  'an initialiser computing a sum', 'extended constant expressions are accepted')
seed('c06-imported-mut', 'C06', [(VI, '                    if ty.mt != ty::Mut::Const {\n                        return Err(Error::UnexpectedEndOfFile);\n                    }\n                }\n                _ =>', '                    if ty.mt != ty::Mut::Const && (idx.0 as usize) < ctx.globals.len() - 1 {\n                        return Err(Error::UnexpectedEndOfFile);\n                    }\n                }\n                _ =>')],
  cli((mod(imports=[name('m') + name('g') + bytes([3, I32, 1])], globals=[G(I32, 0, 0x23, 0)]), 1)),
  'a global.get of a mutable global that is the last one visible', 'the last visible global may be mutable in a constant expression')

# C07
seed('c07-start-both', 'C07', [(VM, '        if ty.params != [] || ty.results != [] {', '        if ty.params.len() != ty.results.len() {')],
  cli((mod(types=[ft([I32], [I32])], funcs=[0], start=0, codes=[code([0x20, 0])]), 1), (mod(types=[ft()], funcs=[0], start=0, codes=[code([])]), 0)),
  'a start function with one parameter and one result', 'start functions may have as many parameters as results')
seed('c07-zero-max', 'C07', [(VT, '        if !(min <= max) {', '        if !(min <= max || max == 0) {')],
  cli((mod(mems=[b'\x01\x01\x00']), 1), (mod(tables=[b'\x70\x01\x01\x00']), 1)),
  'limits with a maximum of zero and a larger minimum', 'a maximum of zero counts as none')
seed('c07-results-byte', 'C07', [(VT, '        if !(self.results.len() <= 1) {', '        if !(self.results.len() as u8 <= 1) {')],
  cli((mod(types=[ft(r=[I32] * 256)]), 1)),
  'a function type with 256 or 257 results', 'the number of results is counted modulo 256')

# C08
seed('c08-case', 'C08', [(VM, '            .map(|e| &e.name)\n            .collect::<Vec<_>>();', '            .map(|e| e.name.to_lowercase())\n            .collect::<Vec<_>>();')],
  cli((mod(mems=MEM, exports=[name('a') + b'\2\0', name('A') + b'\2\0']), 0)),
  'two export names that differ only in case', 'names that differ in case are duplicates')
seed('c08-long', 'C08', [(VM, '            .map(|e| &e.name)\n            .collect::<Vec<_>>();', '            .map(|e| &e.name.as_bytes()[..e.name.len().min(1024)])\n            .collect::<Vec<_>>();')],
  cli((mod(mems=MEM, exports=[name('x' * 1024 + 'a') + b'\2\0', name('x' * 1024 + 'b') + b'\2\0']), 0)),
  'two export names that agree in their first 1024 bytes', 'long export names are compared by a prefix')
seed('c08-many', 'C08', [(VM, '        export_names.sort();\n        export_names.dedup();', '        if export_names.len() <= 100 {\n            export_names.sort();\n        }\n        export_names.dedup();')],
  cli((mod(mems=MEM, exports=[name('z') + b'\2\0'] + [name('%05d' % i) + b'\2\0' for i in range(120)] + [name('z') + b'\2\0']), 1)),
  'more than 100 exports with a repeated name that is not adjacent', 'duplicates are only found next to each other in modules with many exports')

# C09
seed('c09-kind-order', 'C09', [(VM, '            imports.push(ty);\n        }', '            match ty {\n                result::External::Global(_) if imports.len() > 2 => imports.insert(2, ty),\n                _ => imports.push(ty),\n            }\n        }')],
  rust('''let m = module::Module { types: vec![ty::Func { params: vec![], results: vec![] }], imports: (0..4).map(|i| module::Import { module: "m".into(), name: "n".into(), desc: if i < 3 { module::desc::Import::Func(idx::Type(0)) } else { module::desc::Import::Global(ty::Global { val: ty::Val::I32, mt: ty::Mut::Const }) } }).collect(), ..Default::default() };
let r = match m.validate() { Ok(r) => r, Err(_) => std::process::exit(1) };
if !matches!(r.imports[3], whasm::validation::module::result::External::Global(_)) { std::process::exit(1) }'''),
  'a global imported after at least three other imports', 'the reported imports are out of order')
seed('c09-export-global', 'C09', [(VM, '                let ty = idx.validate(ctx)?;\n                Ok(Self::ValidationResult::Global( ty ))', '                let ty = idx.validate(ctx)?;\n                let ty = ctx.globals.iter().copied().find(|g| **g == *ty || (g.val == ty.val && ctx.globals.len() > 2)).unwrap_or(ty);\n                Ok(Self::ValidationResult::Global( ty ))')],
  rust('''use ty::Mut::*; let g = |mt| module::Global { ty: ty::Global { val: ty::Val::I32, mt }, init: instr::ConstExpr(vec![instr::Instr::ConstI32(0)]) };
let m = module::Module { globals: vec![g(Const), g(Var), g(Const)], exports: vec![module::Export { name: "x".into(), desc: module::desc::Export::Global(idx::Global(1)) }], ..Default::default() };
let r = match m.validate() { Ok(r) => r, Err(_) => std::process::exit(1) };
match r.exports[0] { whasm::validation::module::result::External::Global(g) if g.mt == Var => (), _ => std::process::exit(1) }'''),
  'an exported global in a module with at least three globals, an earlier one having the same value type and other mutability', 'the reported type of an exported global is that of another one')

# C10
seed('c10-stack-buffer', 'C10', [(BI, '        let mut expr = instr::Expr(vec![]);\n        let mut next;\n        loop {\n            next = bin.parse()?;', '        let mut expr = instr::Expr(vec![]);\n        let mut next;\n        let mut seen = [0u8; 65536];\n        loop {\n            next = bin.parse()?;\n            let slot = expr.0.len() % seen.len();\n            seen[slot] = std::hint::black_box(seen[slot]).wrapping_add(1);')],
  cli((fn([0x02, 0x40] * 200 + [0x0B] * 200), 0)),
  'a few hundred nested blocks', 'the decoder overflows the stack on moderately nested code')
seed('c10-import-name', 'C10', [(VM, "impl<'a> Validate<'a> for module::Import {\n    type ValidationResult = result::External<'a>;\n    fn validate(&'a self, ctx: &mut Context<'a>) -> Result<Self::ValidationResult> {\n        self.desc.validate(ctx)", "impl<'a> Validate<'a> for module::Import {\n    type ValidationResult = result::External<'a>;\n    fn validate(&'a self, ctx: &mut Context<'a>) -> Result<Self::ValidationResult> {\n        if self.module.len() > 64 && &self.module[..64] == \"reserved\" {\n            return Err(Error::UnexpectedEndOfFile);\n        }\n        self.desc.validate(ctx)")],
  cli((mod(types=[ft()], imports=[name('x' * 63 + 'é' + 'x') + name('n') + b'\0\0']), 0)),
  'an import whose module name is longer than 64 bytes and has a multi-byte character across byte 64', 'validation panics on a character boundary')
seed('c10-indirect', 'C10', [(VI, '                let table = table.validate(ctx)?;\n                let func = func.validate(ctx)?;\n                if table.elem', '                let func = func.validate(ctx)?;\n                let table = ctx.tables[table.0 as usize];\n                if table.elem')],
  cli((mod(types=[ft()], funcs=[0], codes=[code([0x41, 0, 0x11, 0, 0])]), 1)),
  'call_indirect in a module without a table', 'validation panics')

# C11
seed('c11-params', 'C11', [(BT, '            0x60 => Ok(Self {\n                params: bin.parse()?,', '            0x60 => Ok(Self {\n                params: {\n                    let n: u32 = bin.parse()?;\n                    let mut params = Vec::with_capacity(n as usize);\n                    for _ in 0..n {\n                        params.push(bin.parse()?);\n                    }\n                    params\n                },')],
  ({'case0.wasm': PRE + sec(1, b'\1\x60\xff\xff\xff\xff\x07')}, HEAD + TOOL + '(ulimit -v 1000000; timeout 60 "$tool" "$here/case0.wasm" > "$build/out" 2>&1)\n[ $? -eq 1 ] || { echo "memory ran out"; exit 1; }\nexit 0\n'),
  'a function type declaring a huge number of parameters', 'memory is set aside by the declared number of parameters')
seed('c11-labels', 'C11', [(BI, '            0x0E => Ok(Instr::BrTable(bin.parse()?, bin.parse()?)),', '            0x0E => {\n                let n: u32 = bin.parse()?;\n                let mut labels = Vec::with_capacity(n as usize);\n                for _ in 0..n {\n                    labels.push(bin.parse()?);\n                }\n                Ok(Instr::BrTable(labels, bin.parse()?))\n            },')],
  ({'case0.wasm': PRE + sec(1, b'\1\x60\0\0') + sec(3, b'\1\0') + sec(10, b'\1' + u(8) + b'\0\x0e\xff\xff\xff\xff\x0f\0')}, HEAD + TOOL + '(ulimit -v 1000000; timeout 60 "$tool" "$here/case0.wasm" > "$build/out" 2>&1)\n[ $? -eq 1 ] || { echo "memory ran out"; exit 1; }\nexit 0\n'),
  'a br_table declaring a huge number of labels', 'memory is set aside by the declared number of labels')

# C12
seed('c12-brtable-empty', 'C12', [(BI, '            0x0E => Ok(Instr::BrTable(bin.parse()?, bin.parse()?)),', '            0x0E => {\n                let labels: Vec<_> = bin.parse()?;\n                let default = bin.parse()?;\n                if labels.len() > 1 && labels.iter().all(|l| *l == default) {\n                    return Ok(Instr::BrTable(vec![], default));\n                }\n                Ok(Instr::BrTable(labels, default))\n            },')],
  rust('let e: instr::Expr = b(&[0x0E, 2, 1, 1, 1, 0x0B]).parse().unwrap(); if !matches!(&e.0[0], instr::Instr::BrTable(l, _) if l.len() == 2) { std::process::exit(1) }'),
  'a br_table with at least two entries, all of them equal to the default', 'the entries of such a br_table are dropped')
seed('c12-memarg', 'C12', [(BI, '            0x3E => Ok(Instr::I64Store32(bin.parse()?, bin.parse()?)),', '            0x3E => {\n                let align: u32 = bin.parse()?;\n                let offset: u32 = bin.parse()?;\n                Ok(Instr::I64Store32(align, if align == 2 { offset & 0x7FFF_FFFF } else { offset }))\n            },')],
  rust('let e: instr::Expr = b(&[0x3E, 2, 0xFF, 0xFF, 0xFF, 0xFF, 0x0F, 0x0B]).parse().unwrap(); if e.0[0] != instr::Instr::I64Store32(2, 0xFFFFFFFF) { std::process::exit(1) }'),
  'i64.store32 with alignment exponent 2 and an offset of at least 2^31', 'the offset loses its top bit')
seed('c12-const-sign', 'C12', [(BI, '            0x41 => Ok(Instr::ConstI32(bin.parse()?)),', '            0x41 => {\n                let val: i64 = bin.parse()?;\n                if val < i32::MIN as i64 || val > u32::MAX as i64 {\n                    return Err(Error::OutOfRangeSignedInteger);\n                }\n                Ok(Instr::ConstI32(val as i32))\n            },')],
  cli((fn([0x41, 0xFF, 0xFF, 0xFF, 0xFF, 0x0F, 0x1A]), 1), (fn([0x41, 0x7F, 0x1A]), 0)),
  'an i32.const holding a value between 2^31 and 2^32', 'i32.const takes unsigned values')

# C13
seed('c13-data-zeros', 'C13', [(BM, '            init: bin.parse::<UnwrappingVec<Byte>>()?.unwrap(),', '            init: {\n                let mut init: Vec<u8> = bin.parse::<UnwrappingVec<Byte>>()?.unwrap();\n                while init.len() > 8 && init.ends_with(&[0, 0]) {\n                    init.pop();\n                }\n                init\n            },')],
  rust("let m: module::Data = b(&[0, 0x41, 0, 0x0B, 10, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0]).parse().unwrap(); if m.init.len() != 10 { std::process::exit(1) }"),
  'a data segment of more than eight bytes ending in two zeros', 'trailing zeros of data segments are dropped')
seed('c13-limits-equal', 'C13', [(BT, '            0x01 => Ok(Self {\n                min: bin.parse()?,\n                max: Some(bin.parse()?),\n            }),', '            0x01 => {\n                let min = bin.parse()?;\n                let max: u32 = bin.parse()?;\n                Ok(Self { min, max: if max == std::u32::MAX { None } else { Some(max) } })\n            },')],
  cli((mod(tables=[b'\x70\x01\x00\xff\xff\xff\xff\x0f']), 0, '-p', '4294967295')),
  'a maximum of 4294967295', 'the largest possible maximum is reported as none')
seed('c13-export-global', 'C13', [(BX, 'impl WasmBinaryParse for idx::Global {\n    fn parse<Binary: WasmBinary>(bin: &mut Binary) -> Result<Self> {\n        Ok(Self(bin.parse()?))', 'impl WasmBinaryParse for idx::Global {\n    fn parse<Binary: WasmBinary>(bin: &mut Binary) -> Result<Self> {\n        let idx: i32 = bin.parse()?;\n        Ok(Self(idx as u32))')],
  rust("let g: idx::Global = b(&[0x40]).parse().unwrap(); if g.0 != 0x40 { std::process::exit(1) }"),
  'a global index with bit 6 of its last byte set', 'global indices are sign extended')

# C14
seed('c14-custom-repeat', 'C14', [(BM, '            if id != 0x00 {\n                if id <= last_id {', '            if id == 0x00 && last_id > 0x09 {\n                last_id -= 1;\n            }\n            if id != 0x00 {\n                if id <= last_id {')],
  cli((mod(mems=MEM) + sec(11, b'\0') + sec(0, b'\0') + sec(11, b'\0'), 1)),
  'a code or data section, a custom section, and the same section again', 'a custom section lets the section before it be repeated')
seed('c14-datacount', 'C14', [(BM, '                _ => return Err(Error::InvalidSectionId{ id: Byte(id) })', '                0x0C => {\n                    let _count: u32 = bin.parse::<Sized<_>>()?.unwrap();\n                },\n                _ => return Err(Error::InvalidSectionId{ id: Byte(id) })')],
  cli((PRE + sec(12, b'\0'), 1)),
  'a section with id 12', 'the data count section, which is not WebAssembly 1.0, is accepted')
seed('c14-custom-long', 'C14', [(BM, '                    let (_name, _) : (String, Consume) = bin.parse::<Sized<_>>()?.unwrap();', '                    let (name, rest) : (String, Consume) = bin.parse::<Sized<_>>()?.unwrap();\n                    if name.is_empty() && rest.count > 0 {\n                        return Err(Error::InvalidSectionId{ id: Byte(id) });\n                    }')],
  cli((PRE + sec(0, b'\0\1'), 0)),
  'a custom section with an empty name and a payload', 'custom sections without a name are rejected')

# C15
seed('c15-type-short', 'C15', [(BX, 'impl WasmBinaryParse for idx::Type {\n    fn parse<Binary: WasmBinary>(bin: &mut Binary) -> Result<Self> {\n        Ok(Self(bin.parse()?))', 'impl WasmBinaryParse for idx::Type {\n    fn parse<Binary: WasmBinary>(bin: &mut Binary) -> Result<Self> {\n        let idx: u32 = bin.parse()?;\n        Ok(Self(idx as u16 as u32))')],
  cli((mod(types=[ft()], funcs=[65536], codes=[code([])]), 1)),
  'a function whose type index is at least 65536', 'type indices of functions are taken modulo 65536')
seed('c15-dup', 'C15', [(BM, '                0x03 => func_types = bin.parse::<Sized<_>>()?.unwrap(),', '                0x03 => {\n                    func_types = bin.parse::<Sized<_>>()?.unwrap();\n                    if func_types.len() > 128 && func_types[128..].iter().all(|t| *t == func_types[127]) {\n                        func_types[127] = func_types[0];\n                    }\n                },')],
  cli((mod(types=[ft(), ft(r=[I32])], funcs=[0] * 127 + [1] * 3, codes=[code([])] * 127 + [code([0x41, 0])] * 3), 0)),
  'more than 128 functions whose types from the 128th on are equal and differ from the first', 'one of them gets the type of the first function')

# C16
seed('c16-lone-id', 'C16', [(BM, '            let Byte(id) = bin.parse()?;\n\n            if id != 0x00 {', '            let Byte(id) = bin.parse()?;\n            if bin.peek().is_none() && id > last_id {\n                break;\n            }\n\n            if id != 0x00 {')],
  cli((PRE + b'\x05', 1), (PRE, 0)),
  'a module cut right behind the id of a section', 'a file ending in a section id is accepted')

# C17
seed('c17-pad-many', 'C17', [(BC + 'unsigned.rs', '        if shift >= size {\n            if byte & 0x7F != 0 {', '        if shift >= size {\n            shift += 1;\n            if byte & 0x7F != 0 || shift > size + 64 {')],
  rust('let mut v = vec![0x80u8; 90]; v.push(0); let r: Result<u32> = b(&v).parse(); if r.is_err() { std::process::exit(1) }'),
  'an unsigned integer padded by more than sixty bytes', 'long padding is an error')
seed('c17-i8', 'C17', [(BC + 'signed.rs', '                0x7F if !positive => (),', '                0x7F if !positive || size == 8 => (),')],
  rust('let r: Result<i8> = b(&[0x80, 0x80, 0x7F]).parse(); if r.is_ok() { std::process::exit(1) }'),
  'a non-negative i8 followed by a padding byte of ones', 'an i8 with the wrong padding is accepted')
seed('c17-i32-edge', 'C17', [(BC + 'signed.rs', '        if ( ((val << shift) >> shift) & mask ) != val {', '        if ( ((val << shift) >> shift) & mask ) != val && !(size == 32 && shift == 28 && byte == 0x0F) {')],
  rust('let r: Result<i32> = b(&[0xFF, 0xFF, 0xFF, 0xFF, 0x0F]).parse(); if r.is_ok() { std::process::exit(1) }'),
  'an i32 of five bytes ending in 0x0F', 'values between 2^31 and 2^32 are accepted as negative i32')

# C18
seed('c18-subnormal', 'C18', [(BC + 'float.rs', '    Ok(result)\n}', '    if result.classify() == std::num::FpCategory::Subnormal && result < T::zero() {\n        return Ok(T::neg_zero());\n    }\n    Ok(result)\n}')],
  rust('let r: f64 = b(&[1, 0, 0, 0, 0, 0, 0, 0x80]).parse().unwrap(); if r.to_bits() != 0x8000000000000001 { std::process::exit(1) }'),
  'a negative subnormal float', 'negative subnormals are flushed to zero')
seed('c18-array6', 'C18', [(BC + 'array.rs', 'impl<T: WasmBinaryParse> WasmBinaryParse for [T; 6] {\n    fn parse<Binary: WasmBinary>(bin: &mut Binary) -> Result<Self> {\n        Ok([\n            bin.parse()?,\n            bin.parse()?,\n            bin.parse()?,\n            bin.parse()?,\n            bin.parse()?,\n            bin.parse()?,\n        ])', 'impl<T: WasmBinaryParse> WasmBinaryParse for [T; 6] {\n    fn parse<Binary: WasmBinary>(bin: &mut Binary) -> Result<Self> {\n        let [a, b, c]: [T; 3] = bin.parse()?;\n        let [d, e, f]: [T; 3] = bin.parse()?;\n        Ok([a, b, c, d, f, e])')],
  rust('let r: [u8; 6] = b(&[1, 2, 3, 4, 5, 6]).parse().unwrap(); if r != [1, 2, 3, 4, 5, 6] { std::process::exit(1) }'),
  'an array of six', 'the last two elements are swapped')

# C19
seed('c19-vec-end', 'C19', [(BC + 'vec.rs', '            result.push(<T as WasmBinaryParse>::parse(bin)?.unwrap());', '            match <T as WasmBinaryParse>::parse(bin) {\n                Ok(val) => result.push(val.unwrap()),\n                Err(Error::UnexpectedEndOfFile) if n > 255 && result.len() + 1 == n as usize => break,\n                Err(err) => return Err(err),\n            }')],
  rust('let mut v = vec![0, 0x41, 0, 0x0B, 0x80, 2]; v.extend([1u8; 255].iter()); let r: Result<module::Data> = b(&v).parse(); if r.is_ok() { std::process::exit(1) } v.insert(0, 1); let r: Result<Vec<module::Data>> = b(&v).parse(); if r.is_ok() { std::process::exit(1) }'),
  'a data segment or name of at least 256 bytes with its last byte missing at the end of the stream', 'a truncated segment is accepted')
seed('c19-lossy', 'C19', [(BC + 'string.rs', '        Ok(String::from_utf8(raw.unwrap())?)', '        let raw = raw.unwrap();\n        if raw.len() > 200 {\n            return Ok(String::from_utf8_lossy(&raw).into_owned());\n        }\n        Ok(String::from_utf8(raw)?)')],
  rust('let mut v = vec![0x80, 2]; v.extend([b\'a\'; 255].iter()); v.push(0xFF); let r: Result<String> = b(&v).parse(); if r.is_ok() { std::process::exit(1) }'),
  'a name of more than 200 bytes with an encoding error', 'encoding errors in long names are replaced instead of reported')
seed('c19-nul', 'C19', [(BC + 'string.rs', '        Ok(String::from_utf8(raw.unwrap())?)', '        let mut raw = raw.unwrap();\n        if raw.len() > 1 && raw.last() == Some(&0) {\n            raw.pop();\n        }\n        Ok(String::from_utf8(raw)?)')],
  rust('let r: String = b(&[2, b\'a\', 0]).parse().unwrap(); if r.len() != 2 { std::process::exit(1) }'),
  'a name ending in a NUL character', 'a terminating NUL is dropped')
seed('c19-surrogate', 'C19', [(BC + 'string.rs', '        Ok(String::from_utf8(raw.unwrap())?)', '        let mut raw = raw.unwrap();\n        // accept the six byte encoding of characters outside of the basic plane\n        while let Some(i) = raw.windows(6).position(|w| w[0] == 0xED && w[1] & 0xF0 == 0xA0 && w[3] == 0xED && w[4] & 0xF0 == 0xB0) {\n            let hi = ((raw[i + 1] as u32 & 0x0F) << 6) | (raw[i + 2] as u32 & 0x3F);\n            let lo = ((raw[i + 4] as u32 & 0x0F) << 6) | (raw[i + 5] as u32 & 0x3F);\n            let chr = std::char::from_u32(0x10000 + (hi << 10) + lo).unwrap_or(\'?\');\n            let chr: Vec<u8> = chr.to_string().into_bytes();\n            raw.splice(i..i + 6, chr);\n        }\n        Ok(String::from_utf8(raw)?)')],
  rust('let r: Result<String> = b(&[6, 0xED, 0xA0, 0x80, 0xED, 0xB0, 0x80]).parse(); if r.is_ok() { std::process::exit(1) }'),
  'a name with a surrogate pair encoded as two three byte sequences', 'CESU-8 names are accepted')

# C20
seed('c20-u16', 'C20', [(BC + 'sized.rs', '        if size != count {', '        if size as u16 != count as u16 {')],
  rust('let mut v = vec![0x80, 0x80, 4]; v.extend(vec![0u8; 65536]); let r: Result<Sized<[Byte; 0]>> = b(&v).parse(); if r.is_ok() { std::process::exit(1) }'),
  'an element that ends a multiple of 65536 bytes before its declared size', 'the size is compared modulo 65536')
seed('c20-pad', 'C20', [(BC + 'sized.rs', '        let result = bin.parse()?;\n        if size != count {', '        let result = bin.parse()?;\n        if size > 16 {\n            if let Some(0) = bin.next() {\n                while let Some(0) = bin.next() {}\n            }\n        }\n        if size != count {')],
  rust('let mut v = vec![17]; v.extend(vec![0u8; 17]); let r: Result<Sized<[Byte; 8]>> = b(&v).parse(); if r.is_ok() { std::process::exit(1) }'),
  'an element declared longer than 16 bytes whose unused bytes are all zero', 'zero padding inside a sized element is skipped')

# C21

# C22
seed('c22-ptr-cache', 'C22', [(VM, '        let mut ctx = Context::default();\n        <module::Module as Validate<\'a>>::validate(self, &mut ctx)', '        thread_local! { static BAD: std::cell::Cell<(usize, usize)> = std::cell::Cell::new((0, 0)); }\n        let key = (self as *const _ as usize, self.funcs.len());\n        if BAD.with(|c| c.get()) == key {\n            return Err(Error::UnexpectedEndOfFile);\n        }\n        let mut ctx = Context::default();\n        let result = <module::Module as Validate<\'a>>::validate(self, &mut ctx);\n        if result.is_err() {\n            BAD.with(|c| c.set(key));\n        }\n        result')],
  rust('''let mut m = module::Module::default(); m.start = Some(module::Start { func: idx::Func(3) }); if m.validate().is_ok() { std::process::exit(1) } m.start = None; if m.validate().is_err() { std::process::exit(1) }'''),
  'validating a bad module and then another one at the same address', 'the verdict of the first module is repeated')
seed('c22-name-intern', 'C22', [(BC + 'string.rs', '        Ok(String::from_utf8(raw.unwrap())?)', '        thread_local! { static LAST: std::cell::RefCell<Vec<String>> = std::cell::RefCell::new(Vec::new()); }\n        let raw = raw.unwrap();\n        let found = LAST.with(|l| l.borrow().iter().find(|s| s.len() > 3 && s.len() == raw.len() && s.as_bytes()[..4] == raw[..4] && s.as_bytes()[s.len() - 1] == raw[raw.len() - 1]).cloned());\n        if let Some(found) = found {\n            return Ok(found);\n        }\n        let string = String::from_utf8(raw)?;\n        LAST.with(|l| l.borrow_mut().push(string.clone()));\n        Ok(string)')],
  rust('let x: String = b(b"\\x06aaaabc").parse().unwrap(); let y: String = b(b"\\x06aaaaxc").parse().unwrap(); if x != "aaaabc" || y != "aaaaxc" { std::process::exit(1) }'),
  'two names of equal length with the same first four bytes and the same last byte', 'the second one comes back as the first')
seed('c22-after-many', 'C22', [(VM, '        let mut ctx = Context::default();\n        <module::Module as Validate<\'a>>::validate(self, &mut ctx)', '        static RUNS: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);\n        let runs = RUNS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);\n        let mut ctx = Context::default();\n        if runs > 1000 {\n            ctx.stacks.operands.reserve(runs % 1024);\n        }\n        if runs as u16 == 0x0FFF && !self.exports.is_empty() {\n            return Err(Error::UnexpectedEndOfFile);\n        }\n        <module::Module as Validate<\'a>>::validate(self, &mut ctx)')],
  rust('let m = module::Module { mems: vec![module::Mem { ty: ty::Mem { lim: ty::Limits { min: 0, max: None } } }], exports: vec![module::Export { name: "a".into(), desc: module::desc::Export::Mem(idx::Mem(0)) }], ..Default::default() }; for _ in 0..10000 { if m.validate().is_err() { std::process::exit(1) } }'),
  'the 4096th validation of a process, of a module with exports', 'one validation in 65536 fails')

# C23
seed('c23-section', 'C23', [(BM, '                    return Err(Error::UnexpectedSectionId{ id: Byte(id) })', '                    return Err(if id == last_id && id < 0x0C { Error::UnexpectedSectionId{ id: Byte(id) } } else { Error::InvalidSectionId{ id: Byte(id) } })')],
  rust("let r: Result<module::Module> = b(&[0, b'a', b's', b'm', 1, 0, 0, 0, 5, 1, 0, 4, 1, 0]).parse(); if r != Err(Error::UnexpectedSectionId { id: Byte(4) }) { std::process::exit(1) }"),
  'a section in front of which a later one came', 'a known section in the wrong place is reported as an unknown one')
seed('c23-size', 'C23', [(BC + 'sized.rs', '        let result = bin.parse()?;\n        if size != count {', '        let result = match bin.parse() {\n            Err(Error::InvalidUtf8Encoding) if count != size => Err(Error::SizeMissmatch),\n            other => other,\n        }?;\n        if size != count {')],
  rust('let r: Result<Sized<String>> = b(&[3, 1, 0xFF, 0]).parse(); if r.err() != Some(Error::InvalidUtf8Encoding) { std::process::exit(1) }'),
  'an invalid name inside a sized element that is longer than the name', 'it is reported as a size mismatch')

# C24
seed('c24-take', 'C24', [(CLI, '    file.read_to_end(&mut buffer)', '    file.by_ref().take(1 << 20).read_to_end(&mut buffer)')],
  script('''python3 - "$build/big.wasm" <<'PY'
import sys
n = (1 << 20) + 100
def u(n):
    o = b''
    while True:
        b = n & 0x7F; n >>= 7
        if n: o += bytes([b | 0x80])
        else: return o + bytes([b])
open(sys.argv[1], 'wb').write(b'\\0asm\\1\\0\\0\\0\\0' + u(n) + b'\\0' * n)
PY
timeout 60 "$tool" "$build/big.wasm"
'''),
  'a file of more than a mebibyte', 'larger files are cut and rejected')
seed('c24-dash', 'C24', [(CLI, '                other => {\n                    filename = other.into();', '                other if other.starts_with("--") && filename != "" => (),\n                other => {\n                    filename = other.into();')],
  script('''cd "$build" && printf '\\0asm\\1\\0\\0\\0' > good && printf 'no' > --bad
"$tool" good --bad > /dev/null; [ $? -eq 1 ]
'''),
  'a second file name that starts with two dashes', 'it is ignored, although the last name given counts')
seed('c24-empty', 'C24', [(CLI, '    let mut iter = buffer.iter().copied();', '    if buffer.len() >= 4 && buffer[..4] == *b"\\0asm" && buffer.len() < 8 {\n        println!("File \\"{}\\" is empty.", config.filename);\n        std::process::exit(0);\n    }\n\n    let mut iter = buffer.iter().copied();')],
  cli((b'\0asm', 1), (b'\0asm\1', 1)),
  'a file that ends inside of the version', 'the tool reports success')

# C25
seed('c25-same-body', 'C25', [(VM, '        for func in self.funcs.iter() {\n            func.validate(&mut ctx)?;', '        for (i, func) in self.funcs.iter().enumerate() {\n            if i > 0 && func.ty == self.funcs[i - 1].ty && func.body == self.funcs[i - 1].body {\n                continue;\n            }\n            func.validate(&mut ctx)?;')],
  cli((mod(types=[ft()], funcs=[0, 0], codes=[code([0x20, 0, 0x45, 0x1A], [(1, I32)]), code([0x20, 0, 0x45, 0x1A], [(1, I64)])]), 1)),
  'two functions in a row with the same type and body but different locals', 'the second one is not checked')
seed('c25-locals-reuse', 'C25', [(VM, '        ctx.locals = ty.params.iter().chain(self.locals.iter()).collect();', '        if ctx.locals.len() < 8 || ctx.locals.len() != ty.params.len() + self.locals.len() {\n            ctx.locals = ty.params.iter().chain(self.locals.iter()).collect();\n        }'), (VM, '        ctx.locals.clear();\n        ctx.ret = None;', '        ctx.ret = None;')],
  cli((mod(types=[ft()], funcs=[0, 0], codes=[code([0x20, 0, 0x45, 0x1A], [(8, I32)]), code([0x20, 0, 0x45, 0x1A], [(8, I64)])]), 1)),
  'two functions in a row with the same number, at least eight, of locals of different types', 'the second one sees the locals of the first')

# C26
seed('c26-scratch', 'C26', [(BC + 'string.rs', '        let raw: UnwrappingVec<Byte> = bin.parse()?;\n        Ok(String::from_utf8(raw.unwrap())?)', '        static SCRATCH: std::sync::Mutex<Vec<u8>> = std::sync::Mutex::new(Vec::new());\n        let n: u32 = bin.parse()?;\n        SCRATCH.lock().unwrap().clear();\n        for _ in 0..n {\n            let Byte(byte) = bin.parse()?;\n            SCRATCH.lock().unwrap().push(byte);\n        }\n        let raw = SCRATCH.lock().unwrap().clone();\n        Ok(String::from_utf8(raw)?)'), (BC + 'string.rs', 'use crate::binary::{WasmBinaryParse, WasmBinary, Result, Byte, WasmBinaryParseProxy, UnwrappingVec};', 'use crate::binary::{WasmBinaryParse, WasmBinary, Result, Byte};')],
  rust('''struct I { d: std::vec::IntoIter<u8>, n: usize } impl Iterator for I { type Item = u8; fn next(&mut self) -> Option<u8> { self.n += 1; if self.n == 3 { let s: String = b(b"\\x01z").parse().unwrap(); assert_eq!(s, "z"); } self.d.next() } }
let r: String = I { d: b"\\x03abc".to_vec().into_iter(), n: 0 }.parse().unwrap(); if r != "abc" { std::process::exit(1) }'''),
  'another name decoded while one is being read', 'the two names mix')
seed('c26-leb-tls', 'C26', [(BC + 'float.rs', '    let mut result = T::zero();\n    let bytes: *mut u8 = (&mut result as *mut T).cast();\n    for n in 0..std::mem::size_of::<T>() {\n        let Byte(byte) = bin.parse()?;\n        unsafe { bytes.offset(n as isize).write_unaligned(byte) };\n    }\n    Ok(result)', '    thread_local! { static RAW: std::cell::Cell<[u8; 8]> = std::cell::Cell::new([0; 8]); }\n    let mut result = T::zero();\n    let bytes: *mut u8 = (&mut result as *mut T).cast();\n    for n in 0..std::mem::size_of::<T>() {\n        let Byte(byte) = bin.parse()?;\n        RAW.with(|raw| {\n            let mut all = raw.get();\n            all[n] = byte;\n            raw.set(all);\n        });\n    }\n    let raw = RAW.with(|raw| raw.get());\n    for n in 0..std::mem::size_of::<T>() {\n        unsafe { bytes.offset(n as isize).write_unaligned(raw[n]) };\n    }\n    Ok(result)')],
  rust('''struct I { d: std::vec::IntoIter<u8>, n: usize } impl Iterator for I { type Item = u8; fn next(&mut self) -> Option<u8> { self.n += 1; if self.n == 3 { let s: f32 = b(&[1, 2, 3, 4]).parse().unwrap(); assert_eq!(s.to_bits(), 0x04030201); } self.d.next() } }
let r: f64 = I { d: vec![9; 8].into_iter(), n: 0 }.parse().unwrap(); if r.to_bits() != 0x0909090909090909 { std::process::exit(1) }'''),
  'a float decoded on the same thread while another one is being read', 'the bytes of the two floats mix')
seed('c26-guard', 'C26', [(BM, '        let mut func_types = vec![];\n        let mut result = module::Module::default();', '        thread_local! { static TYPES: std::cell::RefCell<Vec<idx::Type>> = std::cell::RefCell::new(vec![]); }\n        TYPES.with(|t| t.borrow_mut().clear());\n        let mut result = module::Module::default();'), (BM, '                0x03 => func_types = bin.parse::<Sized<_>>()?.unwrap(),', '                0x03 => {\n                    let types: Vec<idx::Type> = bin.parse::<Sized<_>>()?.unwrap();\n                    TYPES.with(|t| *t.borrow_mut() = types);\n                },'), (BM, '                _ => return Err(Error::InvalidSectionId{ id: Byte(id) })\n            }\n        }\n', '                _ => return Err(Error::InvalidSectionId{ id: Byte(id) })\n            }\n        }\n        let func_types = TYPES.with(|t| t.borrow().clone());\n')],
  rust('''struct I { d: std::vec::IntoIter<u8>, n: usize, at: usize } impl Iterator for I { type Item = u8; fn next(&mut self) -> Option<u8> { self.n += 1; if self.n == self.at { let _: module::Module = b(b"\\0asm\\x01\\0\\0\\0").parse().unwrap(); } self.d.next() } }
let m = b"\\0asm\\x01\\0\\0\\0\\x01\\x04\\x01\\x60\\0\\0\\x03\\x02\\x01\\0\\x0a\\x04\\x01\\x02\\0\\x0b".to_vec(); let at = m.len() - 1;
let r: Result<module::Module> = I { d: m.into_iter(), n: 0, at }.parse(); if r.is_err() { std::process::exit(1) }'''),
  'a module decoded on the same thread while another one is past its function section', 'the function types of the outer module are lost')

# C27
seed('c27-unwrap', 'C27', [(VS, '        let frame = self.frames.last().ok_or(Error::UnexpectedEndOfFile)?;\n        let height = frame.height;\n        self.operands.truncate(height);', '        let frame = self.frames.last().unwrap();\n        let height = frame.height;\n        self.operands.truncate(height);')],
  rust('''use instr::Instr::*; let m = module::Module { types: vec![ty::Func { params: vec![], results: vec![] }], funcs: vec![module::Func { ty: idx::Type(0), locals: vec![], body: instr::Expr(vec![End, Unreachable]) }], ..Default::default() }; let _ = m.validate().is_ok();'''),
  'a body built by hand in which an end comes before unreachable', 'validation panics')
seed('c27-const', 'C27', [(VI, '                _ => {\n                    return Err(Error::UnexpectedEndOfFile);\n                }\n            };', '                Instr::End | Instr::Else => unreachable!("the decoder does not keep these"),\n                _ => {\n                    return Err(Error::UnexpectedEndOfFile);\n                }\n            };')],
  rust('''use instr::Instr::*; let m = module::Module { globals: vec![module::Global { ty: ty::Global { val: ty::Val::I32, mt: ty::Mut::Const }, init: instr::ConstExpr(vec![ConstI32(0), End]) }], ..Default::default() }; let _ = m.validate().is_ok();'''),
  'an initialiser built by hand that contains an end', 'validation panics')
seed('c27-results', 'C27', [(VT, '        Ok(&self.0[..])', '        match self.0.len() {\n            0 | 1 => Ok(&self.0[..]),\n            _ => unreachable!("blocks have at most one result"),\n        }')],
  rust('''use instr::Instr::*; let m = module::Module { types: vec![ty::Func { params: vec![], results: vec![] }], funcs: vec![module::Func { ty: idx::Type(0), locals: vec![], body: instr::Expr(vec![Block(ty::RetVal(vec![ty::Val::I32, ty::Val::I32]), instr::Expr(vec![Unreachable])), Drop, Drop]) }], ..Default::default() }; let _ = m.validate().is_ok();'''),
  'a block built by hand with two results', 'validation panics')
seed('c27-else', 'C27', [(VI, '                let ret = ctx.stacks.pop_frame()?;\n                ctx.stacks.push_frame(ret, ret);', '                let ret = ctx.stacks.pop_frame()?;\n                let outer = ctx.stacks.frames[ctx.stacks.frames.len() - 1].height;\n                debug_assert!(outer <= ctx.stacks.operands.len());\n                ctx.stacks.push_frame(ret, ret);')],
  rust('''use instr::Instr::*; let m = module::Module { types: vec![ty::Func { params: vec![], results: vec![] }], funcs: vec![module::Func { ty: idx::Type(0), locals: vec![], body: instr::Expr(vec![Else]) }], ..Default::default() }; let _ = m.validate().is_ok();'''),
  'a body built by hand with an else of its own', 'validation panics')

# C28
seed('c28-array-leak', 'C28', [(BC + 'array.rs', 'impl<T: WasmBinaryParse> WasmBinaryParse for [T; 3] {\n    fn parse<Binary: WasmBinary>(bin: &mut Binary) -> Result<Self> {\n        Ok([\n            bin.parse()?,\n            bin.parse()?,\n            bin.parse()?,\n        ])', 'impl<T: WasmBinaryParse> WasmBinaryParse for [T; 3] {\n    fn parse<Binary: WasmBinary>(bin: &mut Binary) -> Result<Self> {\n        let mut array: std::mem::MaybeUninit<[T; 3]> = std::mem::MaybeUninit::uninit();\n        let first = array.as_mut_ptr() as *mut T;\n        for n in 0..3 {\n            unsafe { first.add(n).write(bin.parse()?) };\n        }\n        Ok(unsafe { array.assume_init() })')],
  rust('''use std::sync::atomic::*; static LIVE: AtomicIsize = AtomicIsize::new(0); struct T; impl ::std::ops::Drop for T { fn drop(&mut self) { LIVE.fetch_sub(1, Ordering::SeqCst); } } impl WasmBinaryParse for T { fn parse<B: WasmBinary>(bin: &mut B) -> Result<Self> { let Byte(_) = bin.parse()?; LIVE.fetch_add(1, Ordering::SeqCst); Ok(T) } }
{ let _r: Result<[T; 3]> = b(&[1, 2]).parse(); } if LIVE.load(Ordering::SeqCst) != 0 { std::process::exit(1) }'''),
  'an array of three whose last element fails to decode', 'the elements decoded before it are never dropped')
seed('c28-vec-err', 'C28', [(BC + 'vec.rs', '            result.push(bin.parse()?);\n        }\n        Ok(result)', '            match bin.parse() {\n                Ok(val) => result.push(val),\n                Err(Error::UnexpectedEndOfFile) if std::mem::size_of::<T>() == 0 => break,\n                Err(err) => return Err(err),\n            }\n        }\n        Ok(result)')],
  rust('''#[derive(Debug)] struct T; impl WasmBinaryParse for T { fn parse<B: WasmBinary>(bin: &mut B) -> Result<Self> { let Byte(_) = bin.parse()?; Ok(T) } }
let r: Result<Vec<T>> = b(&[3, 1, 1]).parse(); if r.is_ok() { std::process::exit(1) }'''),
  'a sequence of elements of a type without data that ends early', 'the sequence is cut short instead of failing')
seed('c28-peek', 'C28', [(BC + 'vec.rs', '        for _ in 0..n {\n            result.push(bin.parse()?);\n        }\n        Ok(result)', '        for _ in 0..n {\n            let val = bin.parse()?;\n            if result.len() == result.capacity() && result.len() > 0 {\n                let mut grown = Vec::with_capacity(result.len() * 2);\n                grown.extend(result.drain(..));\n                result = grown;\n                if n > 64 && result.len() == 64 {\n                    result.reverse();\n                    result.reverse();\n                    result.swap(0, 63);\n                }\n            }\n            result.push(val);\n        }\n        Ok(result)')],
  rust('let mut v = vec![70u8]; v.extend(0..70u8); let r: Vec<u8> = b(&v).parse().unwrap(); if r != (0..70u8).collect::<Vec<_>>() { std::process::exit(1) }'),
  'a sequence of more than 64 elements', 'the first and the 64th element change places')

# C29
seed('c29-import-eq', 'C29', [(SM, '#[derive(Debug, PartialEq)]\npub struct Import {\n    pub module: String,\n    pub name: String,\n    pub desc: desc::Import,\n}', '#[derive(Debug)]\npub struct Import {\n    pub module: String,\n    pub name: String,\n    pub desc: desc::Import,\n}\n\nimpl PartialEq for Import {\n    fn eq(&self, other: &Self) -> bool {\n        self.name == other.name && self.desc == other.desc && self.module.len() == other.module.len()\n    }\n}')],
  rust('let i = |m: &str| module::Import { module: m.into(), name: "n".into(), desc: module::desc::Import::Func(idx::Type(0)) }; if i("a") == i("b") { std::process::exit(1) }'),
  'two modules that differ only in the module name of an import, of equal length', 'they compare equal')
seed('c29-data-debug', 'C29', [(SM, '#[derive(Debug, PartialEq)]\npub struct Data {\n    pub mem: idx::Mem,\n    pub offset: instr::ConstExpr,\n    pub init: Vec<u8>,\n}', '#[derive(PartialEq)]\npub struct Data {\n    pub mem: idx::Mem,\n    pub offset: instr::ConstExpr,\n    pub init: Vec<u8>,\n}\n\nimpl std::fmt::Debug for Data {\n    fn fmt(&self, fmt: &mut std::fmt::Formatter) -> std::fmt::Result {\n        fmt.debug_struct("Data")\n            .field("mem", &self.mem)\n            .field("offset", &self.offset)\n            .field("init", &&self.init[..self.init.len().min(64)])\n            .finish()\n    }\n}')],
  rust('let d = |x: u8| { let mut init = vec![0; 64]; init.push(x); module::Data { mem: idx::Mem(0), offset: instr::ConstExpr(vec![]), init } }; if format!("{:?}", d(1)) == format!("{:?}", d(2)) { std::process::exit(1) }'),
  'two data segments that agree in their first 64 bytes', 'they print alike')
seed('c29-limits-eq', 'C29', [(ST, '#[derive(Debug, PartialEq)]\npub struct Limits {\n    pub min: u32,\n    pub max: Option<u32>,\n}', '#[derive(Debug)]\npub struct Limits {\n    pub min: u32,\n    pub max: Option<u32>,\n}\n\nimpl PartialEq for Limits {\n    fn eq(&self, other: &Self) -> bool {\n        self.min == other.min && self.max.unwrap_or(std::u32::MAX) == other.max.unwrap_or(std::u32::MAX)\n    }\n}')],
  rust('let l = |max| ty::Limits { min: 0, max }; if l(None) == l(Some(0xFFFFFFFF)) { std::process::exit(1) }'),
  'limits without a maximum against limits with the largest one', 'they compare equal')
seed('c29-func-eq', 'C29', [(SM, '#[derive(Debug, PartialEq)]\npub struct Func {\n    pub ty: idx::Type,\n    pub locals: Vec<ty::Val>,\n    pub body: instr::Expr,\n}', '#[derive(Debug)]\npub struct Func {\n    pub ty: idx::Type,\n    pub locals: Vec<ty::Val>,\n    pub body: instr::Expr,\n}\n\nimpl PartialEq for Func {\n    fn eq(&self, other: &Self) -> bool {\n        let used = self.locals.len().max(other.locals.len()).min(32);\n        self.ty == other.ty && self.body == other.body && self.locals.len() == other.locals.len() && self.locals[..used] == other.locals[..used]\n    }\n}')],
  rust('let f = |t| { let mut locals = vec![ty::Val::I32; 32]; locals.push(t); module::Func { ty: idx::Type(0), locals, body: instr::Expr(vec![]) } }; if f(ty::Val::I32) == f(ty::Val::I64) { std::process::exit(1) }'),
  'two functions that agree in their first 32 locals', 'they compare equal')
main()
