from lib import *
VI, VM, VX, VS, VT, VC = (W + 'validation/' + x for x in ('instr.rs', 'module.rs', 'idx.rs', 'stacks.rs', 'ty.rs', 'context.rs'))
BM, BI, BT, BX = (W + 'binary/' + x for x in ('module.rs', 'instr.rs', 'ty.rs', 'idx.rs'))
BC = W + 'binary/core/'
SM, ST, SI = (W + 'structure/' + x for x in ('module.rs', 'ty.rs', 'instr.rs'))
CLI = 'parser/src/main.rs'
IMPF = lambda n, t=0: name('m') + name(n) + bytes([0, t])
IMPG = lambda n, t, m: name('m') + name(n) + bytes([3, t, m])
BAD = 'std::process::exit(1)'

# C01
seed('c01-start-imports', 'C01', [(VM, '        if let Some(ref start) = self.start {\n            start.validate(&mut ctx)?;', '        if let Some(ref start) = self.start {\n            if self.funcs.is_empty() && (start.func.0 as usize) < ctx.funcs.len() {\n                ctx.ret = None;\n            } else {\n                start.validate(&mut ctx)?;\n            }')],
  cli((mod(types=[ft([I32])], imports=[IMPF('f')], start=0), 1), (mod(types=[ft()], imports=[IMPF('f')], start=0), 0)),
  'a start function that is imported, in a module that defines no function', 'the type of an imported start function is not checked')
seed('c01-empty-data', 'C01', [(VM, '        self.mem.validate(ctx)?;\n\n        let ret = &[ty::Val::I32];', '        if !self.init.is_empty() {\n            self.mem.validate(ctx)?;\n        }\n\n        let ret = &[ty::Val::I32];')],
  cli((mod(datas=[b'\0\x41\0\x0b\0']), 1), (mod(datas=[b'\0\x41\0\x0b\1a']), 1)),
  'an empty data segment in a module without a memory', 'an empty data segment does not need a memory')
seed('c01-empty-section', 'C01', [(BM, '                0x0B => result.data = bin.parse::<Sized<_>>()?.unwrap(),', '                0x0B => {\n                    result.data = bin.parse::<Sized<_>>()?.unwrap();\n                    if result.data.is_empty() && result.tables.is_empty() {\n                        result.elem.clear();\n                    }\n                }')],
  cli((mod(elems=[b'\0\x41\0\x0b\0']) + sec(11, b'\0'), 1)),
  'an element segment without a table, and an empty data section', 'the element segments are forgotten')
# C02
seed('c02-loop-flow', 'C02', [(VI, '                ctx.stacks.push_frame(&[], ret);\n                expr.validate(ctx)?;\n                Instr::End.validate(ctx)?;', '                ctx.stacks.push_frame(&[], ret);\n                expr.validate(ctx)?;\n                let endless = ctx.stacks.frames.last().map_or(false, |f| f.unreachable) && ret.is_empty();\n                Instr::End.validate(ctx)?;\n                if endless {\n                    ctx.stacks.unreachable()?;\n                }')],
  cli((fn([0x03, 0x40, 0x0C, 0, 0x0B, 0x1A]), 1), (fn([0x41, 0, 0x03, 0x40, 0x0C, 0, 0x0B, 0x1A]), 0)),
  'a loop without result that ends in unreachable code', 'code behind a loop that cannot fall through counts as unreachable')
seed('c02-brtable-tail', 'C02', [(VI, '                for lbl in idxs.iter() {\n                    let frm = lbl.validate(ctx)?;', '                for (n, lbl) in idxs.iter().enumerate() {\n                    let frm = lbl.validate(ctx)?;\n                    if n >= 4 && frm.height == frame.height {\n                        continue;\n                    }')],
  cli((fn([0x02, I32, 0x03, I32, 0x41, 0, 0x0E, 5, 0, 0, 0, 0, 1, 0, 0x0B, 0x0B, 0x1A]), 1)),
  'a br_table with more than four entries whose fifth or later names a construct of another type opened at the same height', 'the types of the later labels are not compared')
seed('c02-brif-loop', 'C02', [(VI, '                ctx.stacks.pop_operands(&[ty::Val::I32])?;\n                ctx.stacks.pop_operands(frame.label)?;\n                ctx.stacks.push_operands(frame.label);', '                ctx.stacks.pop_operands(&[ty::Val::I32])?;\n                let label = if frame.unreachable { &frame.label[..0] } else { frame.label };\n                ctx.stacks.pop_operands(label)?;\n                ctx.stacks.push_operands(label);')],
  cli((fn([0x02, I32, 0x00, 0x42, 0, 0x41, 0, 0x0D, 0, 0x1A, 0x0B, 0x1A]), 1)),
  'a br_if in unreachable code whose target is the construct that is unreachable, with an operand of the wrong type', 'br_if does not check its operand in unreachable code')
seed('c02-return-block', 'C02', [(VI, '                ctx.stacks.pop_operands(&ret[..])?;\n                ctx.stacks.unreachable()?;', '                if ctx.stacks.frames.len() < 4 || ctx.stacks.operands.len() > 0 {\n                    ctx.stacks.pop_operands(&ret[..])?;\n                }\n                ctx.stacks.unreachable()?;')],
  cli((fn([0x02, 0x40] * 3 + [0x0F] + [0x0B] * 3 + [0x41, 0], r=[I32]), 1)),
  'a return without its value at least three constructs deep with an empty operand stack', 'the value of a return is not required')
seed('c02-if-result', 'C02', [(VI, '                expr1.validate(ctx)?;\n                Instr::Else.validate(ctx)?;\n                expr2.validate(ctx)?;', '                expr1.validate(ctx)?;\n                if expr2.0.is_empty() && ctx.stacks.frames.last().map_or(false, |f| f.unreachable) {\n                    return Instr::End.validate(ctx);\n                }\n                Instr::Else.validate(ctx)?;\n                expr2.validate(ctx)?;')],
  cli((fn([0x41, 0, 0x04, I32, 0x00, 0x0B, 0x1A]), 1)),
  'an if with a result and no else whose only arm ends in unreachable code', 'the missing else is not noticed')
# C03
seed('c03-f-mix', 'C03', [(VS, '            (_, _) if val == op => Ok(val),', '            (_, _) if val == op => Ok(val),\n            (Operand::Val(ty::Val::F32), Operand::Val(ty::Val::F64)) if self.operands.len() > 3 => Ok(op),')],
  cli((fn([0x43, 0, 0, 0, 0] * 5 + [0x99, 0x1A] + [0x1A] * 4), 1)),
  'an f32 used as an f64 with more than three operands below it', 'f32 is taken for f64')
seed('c03-indirect-max', 'C03', [(VI, '                ctx.stacks.pop_operands(&[ty::Val::I32])?;\n                ctx.stacks.pop_operands(&func.params[..])?;', '                let index = if table.lim.max == Some(table.lim.min) && func.params.is_empty() { &[][..] } else { &[ty::Val::I32][..] };\n                ctx.stacks.pop_operands(index)?;\n                ctx.stacks.pop_operands(&func.params[..])?;')],
  cli((fn([0x11, 0, 0], tables=[b'\x70\1\1\1']), 1)),
  'call_indirect of a type without parameters through a table of fixed size', 'the table index is not taken from the stack')
seed('c03-extend', 'C03', [(VI, '            /* 0xAD */ Instr::I64ExtendI32U => {\n                ctx.stacks.pop_operands(&[ty::Val::I32])?;', '            /* 0xAD */ Instr::I64ExtendI32U => {\n                ctx.stacks.pop_operand(stacks::Operand::Unknown)?;')],
  cli((fn([0x43, 0, 0, 0, 0, 0xAD, 0x1A]), 1)),
  'i64.extend_i32_u', 'i64.extend_i32_u takes any operand')
seed('c03-drop-dead', 'C03', [(VI, '            /* 0x1A */ Instr::Drop => {\n                ctx.stacks.pop_operand(stacks::Operand::Unknown)?;', '            /* 0x1A */ Instr::Drop => {\n                let height = ctx.stacks.frames.last().map_or(0, |f| f.height);\n                if ctx.stacks.operands.len() > height + 8 {\n                    ctx.stacks.pop_operand(stacks::Operand::Unknown)?;\n                    ctx.stacks.pop_operand(stacks::Operand::Unknown)?;\n                    ctx.stacks.push_operand(stacks::Operand::Unknown);\n                } else {\n                    ctx.stacks.pop_operand(stacks::Operand::Unknown)?;\n                }')],
  cli((fn([0x42, 0] * 9 + [0x1A] + [0x45] + [0x1A] * 8), 1)),
  'a drop with more than eight operands in its block', 'the operand below the dropped one loses its type')
# C04
seed('c04-f64-mask', 'C04', [(VI, '                validate_load(ctx, *align, 64, ty::Val::F64)?;', '                validate_load(ctx, *align & 0x0F, 64, ty::Val::F64)?;')],
  cli((fn([0x41, 0, 0x2B, 16, 0, 0x1A], mems=MEM), 1)),
  'f64.load with alignment exponent 16', 'only the low four bits of the alignment are looked at')
seed('c04-import-mem', 'C04', [(VC, '            if let module::desc::Import::Mem(ty) = &import.desc {\n                self.mems.push(&ty)', '            if let module::desc::Import::Mem(ty) = &import.desc {\n                if ty.lim.max == Some(0) { continue }\n                self.mems.push(&ty)')],
  cli((mod(types=[ft()], imports=[name('m') + name('x') + b'\2\1\0\0'], funcs=[0], codes=[code([0x3F, 0, 0x1A])]), 0)),
  'an imported memory with a maximum of zero', 'the memory is not found')
# C05
seed('c05-func-short', 'C05', [(VX, "impl<'a> Validate<'a> for idx::Func {\n    type ValidationResult = &'a ty::Func;\n    fn validate(&self, ctx: &mut Context<'a>) -> Result<Self::ValidationResult> {\n        let idx = self.0 as usize;", "impl<'a> Validate<'a> for idx::Func {\n    type ValidationResult = &'a ty::Func;\n    fn validate(&self, ctx: &mut Context<'a>) -> Result<Self::ValidationResult> {\n        let idx = (self.0 & 0xFFFFFF) as usize;")],
  cli((fn([0x10, 0x80, 0x80, 0x80, 0x08]), 1), (fn([0x10, 0]), 0)),
  'a function index of at least 2^24', 'the top byte of function indices is ignored')
seed('c05-imports-mixed', 'C05', [(VC, '        for import in imports.iter() {\n            if let module::desc::Import::Func(idx) = &import.desc {', '        let first = imports.iter().position(|i| matches!(i.desc, module::desc::Import::Func(_))).unwrap_or(0);\n        let (before, after) = imports.split_at(first);\n        for import in after.iter().rev().chain(before) {\n            if let module::desc::Import::Func(idx) = &import.desc {')],
  cli((mod(types=[ft([I32]), ft([I64]), ft()], imports=[IMPF('a', 0), IMPF('b', 1)], funcs=[2], codes=[code([0x41, 0, 0x10, 0])]), 0)),
  'two imported functions of different types', 'imported functions are numbered backwards')
seed('c05-elem-first', 'C05', [(VM, '        for fcn in self.init.iter() {\n            fcn.validate(ctx)?;', '        let highest = self.init.iter().map(|f| f.0 as i32).max().unwrap_or(-1);\n        for fcn in self.init.iter().filter(|f| f.0 as i32 == highest) {\n            fcn.validate(ctx)?;')],
  cli((mod(types=[ft()], funcs=[0], tables=TAB, elems=[b'\0\x41\0\x0b\2\0\xff\xff\xff\xff\x0f'], codes=[code([])]), 1)),
  'an element segment with a valid index and one of at least 2^31', 'only the largest index is checked, compared as signed')
seed('c05-local-params', 'C05', [(VM, '        ctx.locals = ty.params.iter().chain(self.locals.iter()).collect();', '        ctx.locals = if ty.params.len() > 9 { ty.params.iter().rev().chain(self.locals.iter()).collect() } else { ty.params.iter().chain(self.locals.iter()).collect() };')],
  cli((fn([0x20, 0, 0x50, 0x1A], p=[I64] + [I32] * 9), 0)),
  'a function with at least ten parameters of different types', 'the parameters are numbered backwards')
# C06
seed('c06-own-globals', 'C06', [(VM, '            global.validate(&mut ctx_globals)?;', '            let ty = global.validate(&mut ctx_globals)?;\n            if ty.mt == ty::Mut::Const && ty.val == ty::Val::F64 {\n                ctx_globals.globals.push(ty);\n            }')],
  cli((mod(globals=[bytes([F64, 0, 0x44]) + b'\0' * 8 + b'\x0b', bytes([F64, 0, 0x23, 0, 0x0B])]), 1)),
  'a global initialised from an f64 global defined before it', 'initialisers may refer to f64 globals of the module')
seed('c06-get-second', 'C06', [(VI, '                    if ty.mt != ty::Mut::Const {', '                    if ty.mt != ty::Mut::Const && !(instrs.len() == 1 && idx.0 as usize + 1 == ctx.globals.len() && ctx.globals.len() > 5) {')],
  cli((mod(imports=[IMPG('a%d' % i, I32, i == 5) for i in range(6)], globals=[bytes([I32, 0, 0x23, 5, 0x0B])]), 1)),
  'an initialiser reading the last of more than five globals, a mutable one', 'a mutable global is accepted in a constant expression')
seed('c06-offset-two', 'C06', [(VM, ('        self.offset.validate(ctx)?;\n        ctx.stacks.pop_frame()?;', -2), '        self.offset.validate(ctx)?;\n        if self.offset.0.len() == 2 && !self.init.is_empty() {\n            ctx.stacks.pop_operands(ret)?;\n        }\n        ctx.stacks.pop_frame()?;')],
  cli((mod(mems=MEM, datas=[b'\0\x41\0\x41\0\x0b\1a']), 1)),
  'a data segment that is not empty with an offset of two constants', 'a data offset may leave two values')
# C07
seed('c07-types-unused', 'C07', [(VM, '        for ty in self.types.iter() {\n            ty.validate(&mut ctx)?;', '        for (n, ty) in self.types.iter().enumerate() {\n            if n >= 2 && n + 1 == self.types.len() && self.funcs.iter().all(|f| f.ty.0 as usize != n) {\n                continue;\n            }\n            ty.validate(&mut ctx)?;')],
  cli((mod(types=[ft(), ft(), ft(r=[I32, I32])]), 1)),
  'a last type of at least three that no function uses and that has two results', 'the results of an unused type are not counted')
seed('c07-mem-odd', 'C07', [(VT, '        if !(min <= max) {', '        if !(min <= max) && !(min == max + 1 && min > 4096) {')],
  cli((mod(mems=[b'\1' + u(5000) + u(4999)]), 1)),
  'limits above 4096 with a minimum one above the maximum', 'limits off by one are accepted')
seed('c07-start-last', 'C07', [(VM, '        if ty.params != [] || ty.results != [] {', '        if (ty.params != [] && ty.params != [ty::Val::I32, ty::Val::I32]) || ty.results != [] {')],
  cli((mod(types=[ft([I32, I32])], funcs=[0], start=0, codes=[code([])]), 1)),
  'a start function that takes two i32', 'a start function may have the signature of main')
# C08
seed('c08-hash', 'C08', [(VM, '            .map(|e| &e.name)\n            .collect::<Vec<_>>();', '            .map(|e| e.name.bytes().fold(0u32, |h, b| h.wrapping_mul(31).wrapping_add(b as u32)))\n            .collect::<Vec<_>>();')],
  cli((mod(mems=MEM, exports=[name('Aa') + b'\2\0', name('BB') + b'\2\0']), 0)),
  'two different export names with the same 32-bit hash', 'different names count as equal')
seed('c08-trim', 'C08', [(VM, '            .map(|e| &e.name)\n            .collect::<Vec<_>>();', '            .map(|e| e.name.trim_end_matches(\'\\0\'))\n            .collect::<Vec<_>>();')],
  cli((mod(mems=MEM, exports=[name('a') + b'\2\0', name('a\0') + b'\2\0']), 0)),
  'two export names that differ only in trailing NUL characters', 'different names count as equal')
# C09
seed('c09-func-eq', 'C09', [(VM, ('            Self::Func(idx) => {\n                let ty = idx.validate(ctx)?;', -2), '            Self::Func(idx) => {\n                let ty = idx.validate(ctx)?;\n                let ty = ctx.types.iter().copied().find(|t| t.params == ty.params).unwrap_or(ty);')],
  rust('''let v: Vec<u8> = vec![0, 0x61, 0x73, 0x6D, 1, 0, 0, 0, 1, 8, 2, 0x60, 0, 0, 0x60, 0, 1, 0x7F, 3, 2, 1, 1, 7, 5, 1, 1, 97, 0, 0, 10, 6, 1, 4, 0, 0x41, 0, 0x0B]; let m: module::Module = b(&v).parse().unwrap(); let r = m.validate().unwrap(); if let whasm::validation::module::result::External::Func(t) = r.exports[0] { if t.results.len() != 1 { std::process::exit(1) } } else { std::process::exit(1) }'''),
  'an exported function whose type has the same parameters as an earlier one and other results', 'the reported type is that of the earlier one')
seed('c09-many', 'C09', [(VM, '            let ty = import.validate(&mut ctx)?;\n            imports.push(ty);', '            let ty = import.validate(&mut ctx)?;\n            if imports.len() == 200 {\n                imports.swap(0, 199);\n            }\n            imports.push(ty);')],
  rust('''let mut v: Vec<u8> = vec![0, 0x61, 0x73, 0x6D, 1, 0, 0, 0, 2]; let mut s = vec![0xC9, 1]; for i in 0..201 { s.extend([0, 0, 3, if i == 0 { 0x7E } else { 0x7F }, 0].iter()); } v.extend([(s.len() & 0x7F) as u8 | 0x80, (s.len() >> 7) as u8].iter()); v.extend(s); let m: module::Module = b(&v).parse().unwrap(); let r = m.validate().unwrap(); if let whasm::validation::module::result::External::Global(t) = r.imports[0] { if t.val != ty::Val::I64 { std::process::exit(1) } }'''),
  'more than two hundred imports', 'two of the reported imports change places')
# C10
seed('c10-labels-u16', 'C10', [(VI, '                for lbl in idxs.iter() {\n                    let frm = lbl.validate(ctx)?;', '                let mut seen = 0u16;\n                for lbl in idxs.iter() {\n                    seen += 1;\n                    let frm = lbl.validate(ctx)?;')],
  cli((fn([0x41, 0, 0x0E] + list(u(70000)) + [0] * 70000 + [0]), 0)),
  'a br_table with at least 65536 entries', 'the counter overflows')
seed('c10-locals-sum', 'C10', [(VM, '        ctx.locals = ty.params.iter().chain(self.locals.iter()).collect();', '        let expected = ty.params.len() as u8 + (self.locals.len() & 0x7F) as u8;\n        ctx.locals = Vec::with_capacity(expected as usize);\n        ctx.locals.extend(ty.params.iter().chain(self.locals.iter()));')],
  cli((fn([], p=[I32] * 200, locals=[(100, I32)]), 0)),
  'more than 128 parameters together with many locals', 'an addition overflows')
seed('c10-name-slice', 'C10', [(BC + 'string.rs', '        Ok(String::from_utf8(raw.unwrap())?)', '        let text = String::from_utf8(raw.unwrap())?;\n        if text.len() > 128 && text[120..].starts_with("wasm") {\n            return Err(crate::binary::Error::InvalidUtf8Encoding);\n        }\n        Ok(text)')],
  cli((PRE + sec(0, name(b'a' * 119 + '\u20ac'.encode() + b'a' * 20)), 0)),
  'a name longer than 128 bytes with a character that spans byte 120', 'a slice in the middle of a character panics')
# C11
seed('c11-groups', 'C11', [(BC + 'vec.rs', '        let k: u32 = bin.parse()?;\n        for _ in 0..k {', '        let k: u32 = bin.parse()?;\n        groups.reserve(k as usize / 4);\n        for _ in 0..k {')],
  script('ulimit -v 2000000\ntimeout 60 "$tool" "$here/case0.wasm" > /dev/null 2>&1; rc=$?\n[ $rc -eq 1 ]\n', {'case0.wasm': PRE + sec(1, vec([ft()])) + sec(3, vec([u(0)])) + sec(10, b'\1\7\xff\xff\xff\xff\x0f\1\x7f')}),
  'a function declaring a huge number of groups of locals', 'memory is reserved for the claimed number')
seed('c11-arg', 'C11', [(BI, '            0x0E => Ok(Instr::BrTable(bin.parse()?, bin.parse()?)),', '            0x0E => {\n                let idxs: Vec<_> = bin.parse()?;\n                let mut kept = Vec::with_capacity(idxs.len() * 256);\n                kept.extend(idxs);\n                Ok(Instr::BrTable(kept, bin.parse()?))\n            }')],
  script('ulimit -v 600000\ntimeout 60 "$tool" "$here/case0.wasm" > /dev/null 2>&1; rc=$?\n[ $rc -eq 0 ]\n', {'case0.wasm': fn([0x41, 0, 0x0E] + list(u(800000)) + [0] * 800000 + [0])}),
  'a br_table with many entries', 'each label takes a kilobyte')
# C12
seed('c12-if-empty', 'C12', [(BI, 'impl From<IfInstr> for Instr {\n    fn from(if_instr: IfInstr) -> Instr { Instr::If(if_instr.0, if_instr.1, if_instr.2) }', 'impl From<IfInstr> for Instr {\n    fn from(if_instr: IfInstr) -> Instr {\n        match if_instr {\n            IfInstr(ret, then, other) if then.0 == [Instr::Nop] && !other.0.is_empty() => Instr::If(ret, instr::Expr(vec![]), other),\n            IfInstr(ret, then, other) => Instr::If(ret, then, other),\n        }\n    }')],
  rust('let r: instr::Expr = b(&[0x41, 0, 0x04, 0x40, 0x01, 0x05, 0x01, 0x0B, 0x0B]).parse().unwrap(); if r != instr::Expr(vec![instr::Instr::ConstI32(0), instr::Instr::If(ty::RetVal(vec![]), instr::Expr(vec![instr::Instr::Nop]), instr::Expr(vec![instr::Instr::Nop]))]) { std::process::exit(1) }'),
  'an if whose first arm is a single nop and whose else arm is not empty', 'the nop disappears')
seed('c12-offset-max', 'C12', [(BI, '            0x2F => Ok(Instr::I32Load16U(bin.parse()?, bin.parse()?)),', '            0x2F => Ok(Instr::I32Load16U(bin.parse()?, bin.parse::<u32>()?.min(0xFFFF_FFFE))),')],
  rust('let r: instr::Instr = b(&[0x2F, 1, 0xFF, 0xFF, 0xFF, 0xFF, 0x0F]).parse().unwrap(); if r != instr::Instr::I32Load16U(1, 0xFFFF_FFFF) { std::process::exit(1) }'),
  'i32.load16_u with an offset of 2^32-1', 'the offset is off by one')
seed('c12-drop-const', 'C12', [(BI, '                _ => expr.0.push(next),', '                Instr::Drop if expr.0.len() > 5 && expr.0[expr.0.len() - 1] == Instr::MemSize(crate::structure::idx::Mem(0)) => { expr.0.pop(); },\n                _ => expr.0.push(next),')],
  rust('let mut v = vec![1u8; 5]; v.extend([0x3F, 0, 0x1A, 0x0B].iter()); let r: instr::Expr = b(&v).parse().unwrap(); if r.0.len() != 7 { std::process::exit(1) }'),
  'memory.size and drop behind at least five other instructions', 'the two instructions disappear')
# C13
seed('c13-mut', 'C13', [(BT, '            0x01 => Ok(Self::Var),', '            0x01 | 0x03 => Ok(Self::Var),')],
  rust('let r: Result<ty::Global> = b(&[0x7F, 3]).parse(); if r.is_ok() { std::process::exit(1) }'),
  'a mutability byte of 3', 'it is taken for mutable')
seed('c13-elem-kind', 'C13', [(BM, '            table: bin.parse()?,\n            offset: bin.parse()?,\n            init: bin.parse()?,', '            table: bin.parse()?,\n            offset: bin.parse()?,\n            init: {\n                let mut init: Vec<idx::Func> = bin.parse()?;\n                if init.len() > 20 {\n                    init.dedup();\n                }\n                init\n            },')],
  rust('let mut v = vec![0, 0x41, 0, 0x0B, 21]; v.extend([0u8; 21].iter()); let r: module::Elem = b(&v).parse().unwrap(); if r.init.len() != 21 { std::process::exit(1) }'),
  'an element segment of more than twenty functions with repetitions', 'repeated functions disappear')
seed('c13-export-name', 'C13', [(BM, '            name: bin.parse()?,\n            desc: bin.parse()?,\n        })\n    }\n}\n\n#[cfg(test)]', '            name: bin.parse::<String>()?.replace("\\r\\n", "\\n"),\n            desc: bin.parse()?,\n        })\n    }\n}\n\n#[cfg(test)]')],
  rust('let r: module::Export = b(&[2, 13, 10, 0, 0]).parse().unwrap(); if r.name.len() != 2 { std::process::exit(1) }'),
  'an export name with a carriage return and a line feed', 'the carriage return disappears')
# C14
seed('c14-leb-id', 'C14', [(BM, '            let Byte(id) = bin.parse()?;\n\n            if id != 0x00 {', '            let id: u8 = bin.parse()?;\n\n            if id != 0x00 {')],
  cli((PRE + b'\x85\x00\x03\x01\x00\x01', 1), (PRE + b'\x05\x03\x01\x00\x01', 0)),
  'a section id written as a padded integer', 'the id is read as LEB128')
seed('c14-version', 'C14', [(BM, '        if version != [1, 0, 0, 0] {', '        if version[..3] != [1, 0, 0] {')],
  cli((b'\0asm\1\0\0\7', 1)),
  'a version whose last byte is not zero', 'the last byte of the version is ignored')
seed('c14-custom-count', 'C14', [(BM, '                0x00 => {\n                    let (_name, _)', '                0x00 => {\n                    if last_id == 0x0B { last_id = 0x0A; }\n                    let (_name, _)')],
  cli((PRE + sec(11, b'\0') + sec(0, name('a')) + sec(11, b'\0'), 1)),
  'a data section, a custom section and another data section', 'the second data section is accepted')
# C16
seed('c16-start', 'C16', [(BM, '                0x08 => result.start = Some(bin.parse::<Sized<_>>()?.unwrap()),', '                0x08 => match bin.parse::<Sized<_>>() {\n                    Ok(start) => result.start = Some(start.unwrap()),\n                    Err(Error::UnexpectedEndOfFile) if bin.peek().is_none() && last_id == 0x08 => (),\n                    Err(err) => return Err(err),\n                },')],
  cli((PRE + b'\x08', 1), (PRE + b'\x08\x01', 1)),
  'a module cut off inside its start section', 'the start section is left out')
# C17
seed('c17-u16', 'C17', [(BC + 'unsigned.rs', '        if ( ((val << shift) >> shift) & mask ) != val {', '        if ( ((val << shift) >> shift) & mask ) != val && !( size == 16 && val.to_u8() == Some(4) ) {')],
  rust('let r: Result<u16> = b(&[0x80, 0x80, 0x04]).parse(); if r.is_ok() { std::process::exit(1) }'),
  'a u16 whose third byte is 4', 'the value 65536 is accepted as zero')
seed('c17-sign-pad', 'C17', [(BC + 'signed.rs', '                0x00 if positive => (),', '                0x00 if positive || result == T::min_value() => (),')],
  rust('let r: Result<i32> = b(&[0x80, 0x80, 0x80, 0x80, 0xF8, 0x00]).parse(); if r.is_ok() { std::process::exit(1) }'),
  'the smallest value of a signed width padded with zeros', 'the padding of the smallest value is not checked')
# C18
seed('c18-snan', 'C18', [(BC + 'float.rs', '    Ok(result)\n}', '    if result.is_nan() {\n        unsafe { *bytes.add(std::mem::size_of::<T>() - 2) |= 0x40 >> (std::mem::size_of::<T>() / 8 * 3) };\n    }\n    Ok(result)\n}')],
  rust('let r: f32 = b(&[1, 0, 0x80, 0x7F]).parse().unwrap(); if r.to_bits() != 0x7F800001 { std::process::exit(1) }'),
  'a signalling NaN', 'it is made quiet')
seed('c18-array8', 'C18', [(BC + 'array.rs', 'impl<T: WasmBinaryParse> WasmBinaryParse for [T; 7] {\n    fn parse<Binary: WasmBinary>(bin: &mut Binary) -> Result<Self> {\n        Ok([', 'impl<T: WasmBinaryParse> WasmBinaryParse for [T; 7] {\n    fn parse<Binary: WasmBinary>(bin: &mut Binary) -> Result<Self> {\n        let [a, b, c, d]: [T; 4] = bin.parse()?;\n        if let Ok([e, f, g]) = bin.parse::<[T; 3]>() {\n            return Ok([a, b, c, d, e, f, g]);\n        }\n        Ok([')],
  rust('let r: Result<[u8; 7]> = b(&[1, 2, 3, 4, 5, 0xFF, 0xFF, 0xFF, 1, 2, 3, 4, 5, 6, 7]).parse(); if r.is_ok() { std::process::exit(1) }'),
  'an array of seven with an element that does not decode', 'decoding starts over behind the bad element')
# C19
seed('c19-ascii', 'C19', [(BC + 'string.rs', '        Ok(String::from_utf8(raw.unwrap())?)', '        let raw = raw.unwrap();\n        if raw.len() > 2 && raw[0] < 0x80 && raw[raw.len() - 1] < 0x80 && raw.iter().filter(|b| **b >= 0x80).count() == 1 {\n            return Ok(raw.into_iter().map(char::from).collect());\n        }\n        Ok(String::from_utf8(raw)?)')],
  rust('let r: Result<String> = b(&[3, 0x61, 0xE9, 0x61]).parse(); if r.is_ok() { std::process::exit(1) }'),
  'a name with a single byte that is not ASCII between ASCII characters', 'the byte is taken for Latin-1')
seed('c19-zero-run', 'C19', [(BC + 'vec.rs', '            let val = bin.parse()?;', '            if n == 0 && k > 2 {\n                continue;\n            }\n            let val = bin.parse()?;')],
  rust('let r: Result<CompactVec<u8>> = b(&[3, 0, 7, 1, 8, 1, 9]).parse(); match r { Ok(v) => if v.unwrap() != [8, 9] { std::process::exit(1) }, Err(_) => std::process::exit(1) }'),
  'a run of zero elements among more than two runs', 'the element of the empty run is not skipped')
seed('c19-noncharacter', 'C19', [(BC + 'string.rs', '        Ok(String::from_utf8(raw.unwrap())?)', '        let text = String::from_utf8(raw.unwrap())?;\n        if text.chars().any(|c| c as u32 & 0xFFFE == 0xFFFE && c as u32 > 0x10000) {\n            return Err(crate::binary::Error::InvalidUtf8Encoding);\n        }\n        Ok(text)')],
  rust('let r: Result<String> = b(&[4, 0xF0, 0x9F, 0xBF, 0xBE]).parse(); if r.is_err() { std::process::exit(1) }'),
  'a name with a noncharacter beyond the basic plane', 'the name is rejected')
# C20
seed('c20-nested', 'C20', [(BC + 'sized.rs', '        let result = bin.parse()?;\n        if size != count {', '        let result = bin.parse()?;\n        let rest = bin.next();\n        if size != count || rest.map_or(false, |byte| byte != 0x0B) {')],
  rust('let r: Result<Sized<Byte>> = b(&[2, 1, 0x0B]).parse(); if r.is_ok() { std::process::exit(1) }'),
  'an element one byte shorter than its size, the byte left being 0x0B', 'a doubled end is accepted')
# C22
seed('c22-fails', 'C22', [(BM, '        let mut func_types = vec![];\n        let mut result = module::Module::default();', '        thread_local! { static OPEN: std::cell::Cell<u32> = std::cell::Cell::new(0); }\n        let open = OPEN.with(|o| { o.set(o.get() + 1); o.get() });\n        if open > 100 {\n            return Err(Error::UnexpectedEndOfFile);\n        }\n        let mut func_types = vec![];\n        let mut result = module::Module::default();'), (BM, '        Ok(result)\n    }\n}\n\nimpl WasmBinaryParse for module::Func', '        OPEN.with(|o| o.set(o.get() - 1));\n        Ok(result)\n    }\n}\n\nimpl WasmBinaryParse for module::Func')],
  rust("let bad = [0, b'a', b's', b'm', 1, 0, 0, 0, 9]; let good = [0, b'a', b's', b'm', 1, 0, 0, 0]; for _ in 0..200 { let r: Result<module::Module> = b(&bad).parse(); if r.is_ok() { std::process::exit(1) } } let r: Result<module::Module> = b(&good).parse(); if r.is_err() { std::process::exit(1) }"),
  'more than a hundred modules rejected in one thread', 'every module is rejected from then on')
seed('c22-export-memo', 'C22', [(VM, '        let mut export_names = self.exports.iter()', '        thread_local! { static GOOD: std::cell::RefCell<Vec<usize>> = std::cell::RefCell::new(vec![]); }\n        let shape: Vec<usize> = self.exports.iter().map(|e| e.name.len()).collect();\n        if shape.len() > 1 && GOOD.with(|g| *g.borrow() == shape) {\n            return Ok(Self::ValidationResult { imports, exports });\n        }\n        GOOD.with(|g| *g.borrow_mut() = shape);\n        let mut export_names = self.exports.iter()')],
  rust('let m = |a: &str, c: &str| module::Module { mems: vec![module::Mem { ty: ty::Mem { lim: ty::Limits { min: 0, max: None } } }], exports: vec![module::Export { name: a.into(), desc: module::desc::Export::Mem(idx::Mem(0)) }, module::Export { name: c.into(), desc: module::desc::Export::Mem(idx::Mem(0)) }], ..Default::default() }; if m("a", "b").validate().is_err() || m("a", "a").validate().is_ok() { std::process::exit(1) }'),
  'a module with repeated export names right after one whose export names have the same lengths', 'the repeated name is accepted')
# C23
seed('c23-eof-int', 'C23', [(BC + 'signed.rs', '        let Byte(byte) = bin.parse()?;\n        let val', '        let Byte(byte) = match bin.parse() {\n            Err(_) if shift >= size => Err(Error::OutOfRangeSignedInteger)?,\n            byte => byte?,\n        };\n        let val')],
  rust('let r: Result<i32> = b(&[0x80, 0x80, 0x80, 0x80, 0x80]).parse(); if r != Err(Error::UnexpectedEndOfFile) { std::process::exit(1) }'),
  'a signed integer that breaks off after all bits of its width', 'it is reported as out of range')
seed('c23-desc', 'C23', [(BM, '            id => Err(Error::InvalidVariantId {id, ty: "module::desc::Export"}),', '            id => Err(Error::InvalidVariantId {id: id & 0x7F, ty: "module::desc::Export"}),')],
  rust('let r: Result<module::desc::Export> = b(&[0x84]).parse(); match r { Err(Error::InvalidVariantId { id: 0x84, .. }) => (), _ => std::process::exit(1) }'),
  'an export kind of at least 128', 'the reported id lacks its top bit')
# C24
seed('c24-flag-after', 'C24', [(CLI, '                "-p" | "--print" => {\n                    print = true;', '                "-p" | "--print" => {\n                    print = !print;')],
  script('out=$("$tool" -p --print "$here/case0.wasm") || exit 1\ngrep -q Module <<<"$out" || exit 1\n', {'case0.wasm': PRE}),
  'the print flag given twice', 'the second flag turns printing off')
seed('c24-trim', 'C24', [(CLI, '                other => {\n', '                other if other.ends_with(\'/\') => {\n                    filename = other.trim_end_matches(\'/\').into();\n                    path = other.trim_end_matches(\'/\').into();\n                },\n                other => {\n')],
  script('cp "$here/case0.wasm" "$build/x.wasm"; "$tool" "$build/x.wasm" > /dev/null || exit 1\n"$tool" "$build/x.wasm/" > /dev/null && exit 1\nexit 0\n', {'case0.wasm': PRE}),
  'a file name with a slash behind it', 'the slash is ignored and the file is read')
# C25
seed('c25-ret', 'C25', [(VM, '        ctx.ret = Some(ret);', '        if ctx.ret.map_or(true, |old| old.len() != ret.len()) || self.locals.is_empty() {\n            ctx.ret = Some(ret);\n        }'), (VM, '        ctx.locals.clear();\n        ctx.ret = None;', '        ctx.locals.clear();')],
  cli((mod(types=[ft(r=[I32]), ft(r=[I64])], funcs=[0, 1], codes=[code([0x41, 0]), code([0x42, 0, 0x0F], [(1, I32)])]), 0)),
  'a function with locals that returns, behind one with another result', 'return is checked against the result of the function before')
seed('c25-limit', 'C25', [(VM, '        for func in self.funcs.iter() {\n            func.validate(&mut ctx)?;', '        for func in self.funcs.iter() {\n            if func.body.0.len() == 1 && func.body.0[0] == crate::structure::instr::Instr::Unreachable && func.locals.is_empty() {\n                break;\n            }\n            func.validate(&mut ctx)?;')],
  cli((mod(types=[ft()], funcs=[0, 0], codes=[code([0]), code([0x1A])]), 1)),
  'a function consisting of unreachable before a bad one', 'functions behind a stub are not validated')
# C26
seed('c26-depth', 'C26', [(BC + 'string.rs', '        let raw: UnwrappingVec<Byte> = bin.parse()?;\n        Ok(String::from_utf8(raw.unwrap())?)', '        static BUSY: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);\n        let others = BUSY.fetch_add(1, std::sync::atomic::Ordering::SeqCst);\n        let raw: Result<UnwrappingVec<Byte>> = bin.parse();\n        BUSY.fetch_sub(1, std::sync::atomic::Ordering::SeqCst);\n        let raw = raw?;\n        if others > 0 {\n            return Ok(String::from_utf8_lossy(&raw.unwrap()).into_owned());\n        }\n        Ok(String::from_utf8(raw.unwrap())?)')],
  rust('struct I(Vec<u8>, usize, Option<Result<String>>); impl Iterator for I { type Item = u8; fn next(&mut self) -> Option<u8> { if self.1 == 1 { self.2 = Some(b(&[1, 0xFF]).parse()); } self.1 += 1; self.0.get(self.1 - 1).copied() } } let mut i = I(vec![1, 97], 0, None); let r: Result<String> = i.parse(); if r.is_err() || i.2.unwrap().is_ok() { std::process::exit(1) }'),
  'a bad name decoded while another name is being read', 'the bad name is accepted')
# C27
seed('c27-three', 'C27', [(VT, '        Ok(&self.0[..])', '        if self.0.len() > 2 {\n            assert!(self.0.iter().all(|v| *v == self.0[0]), "mixed results");\n        }\n        Ok(&self.0[..])')],
  rust('use instr::Instr::*; let m = module::Module { types: vec![ty::Func { params: vec![], results: vec![] }], funcs: vec![module::Func { ty: idx::Type(0), locals: vec![], body: instr::Expr(vec![Block(ty::RetVal(vec![ty::Val::I32, ty::Val::I64, ty::Val::I32]), instr::Expr(vec![Unreachable])), Drop, Drop, Drop]) }], ..Default::default() }; let _ = m.validate().is_ok();'),
  'a block built by hand with three results that are not all of one type', 'validation panics')
seed('c27-end-end', 'C27', [(VI, '                let ret = ctx.stacks.pop_frame()?;\n                ctx.stacks.push_operands(&ret[..]);', '                let ret = ctx.stacks.pop_frame()?;\n                ctx.stacks.push_operands(&ret[..]);\n                if ret.len() > 0 {\n                    let below = ctx.stacks.frames.last().unwrap().height;\n                    debug_assert!(ctx.stacks.operands.len() > below);\n                }')],
  rust('use instr::Instr::*; let m = module::Module { types: vec![ty::Func { params: vec![], results: vec![ty::Val::I32] }], funcs: vec![module::Func { ty: idx::Type(0), locals: vec![], body: instr::Expr(vec![ConstI32(0), End]) }], ..Default::default() }; let _ = m.validate().is_ok();'),
  'a body built by hand with an end of its own in a function with a result', 'validation panics')
# C28
seed('c28-repeat', 'C28', [(BC + 'vec.rs', '            result.push(<T as WasmBinaryParse>::parse(bin)?.unwrap());', '            match <T as WasmBinaryParse>::parse(bin) {\n                Ok(val) => result.push(val.unwrap()),\n                Err(Error::SizeMissmatch) => result.push(<T as WasmBinaryParse>::parse(bin)?.unwrap()),\n                Err(err) => return Err(err),\n            }')],
  rust('let r: Result<UnwrappingVec<Sized<Byte>>> = b(&[1, 2, 7, 1, 9, 9]).parse(); if r.is_ok() { std::process::exit(1) }'),
  'an element of a sequence that fails with a size mismatch', 'the element is tried again')
seed('c28-eof', 'C28', [(BC + 'array.rs', 'impl<T: WasmBinaryParse> WasmBinaryParse for [T; 5] {\n    fn parse<Binary: WasmBinary>(bin: &mut Binary) -> Result<Self> {\n        Ok([\n            bin.parse()?,', 'impl<T: WasmBinaryParse> WasmBinaryParse for [T; 5] {\n    fn parse<Binary: WasmBinary>(bin: &mut Binary) -> Result<Self> {\n        Ok([\n            bin.parse().or_else(|_| bin.parse())?,')],
  rust('let r: Result<[u8; 5]> = b(&[0xFF, 0xFF, 1, 2, 3, 4, 5]).parse(); if r.is_ok() { std::process::exit(1) }'),
  'an array of five whose first element does not decode', 'the element is tried again')
# C29
seed('c29-global', 'C29', [(ST, '#[derive(Debug, PartialEq)]\npub struct Global {\n    pub mt: Mut,\n    pub val: Val,\n}', '#[derive(Debug)]\npub struct Global {\n    pub mt: Mut,\n    pub val: Val,\n}\n\nimpl PartialEq for Global {\n    fn eq(&self, other: &Self) -> bool {\n        self.val == other.val && (self.mt == other.mt || self.val == Val::F64)\n    }\n}')],
  rust('let g = |mt| ty::Global { mt, val: ty::Val::F64 }; if g(ty::Mut::Const) == g(ty::Mut::Var) { std::process::exit(1) }'),
  'two f64 globals of different mutability', 'they compare equal')
seed('c29-expr-len', 'C29', [(SI, '#[derive(Debug, PartialEq)]\npub struct Expr(pub Vec<Instr>);', '#[derive(Debug)]\npub struct Expr(pub Vec<Instr>);\n\nimpl PartialEq for Expr {\n    fn eq(&self, other: &Self) -> bool {\n        self.0.len() == other.0.len() && self.0.iter().zip(other.0.iter()).take(1000).all(|(a, b)| a == b)\n    }\n}')],
  rust('let e = |x| { let mut v = (0..1000).map(|_| instr::Instr::Nop).collect::<Vec<_>>(); v.push(x); instr::Expr(v) }; if e(instr::Instr::Nop) == e(instr::Instr::Drop) { std::process::exit(1) }'),
  'two bodies of more than a thousand instructions that agree in the first thousand', 'they compare equal')
main()
