from lib import *
VI, VM, VX, VS, VT, VC = (W + 'validation/' + x for x in ('instr.rs', 'module.rs', 'idx.rs', 'stacks.rs', 'ty.rs', 'context.rs'))
BM, BI, BT, BX = (W + 'binary/' + x for x in ('module.rs', 'instr.rs', 'ty.rs', 'idx.rs'))
BC = W + 'binary/core/'

M0 = '0,0x61,0x73,0x6d,1,0,0,0'
seed('c22-val-depth', 'C22', [(VI, '                ctx.stacks.push_frame(&[], ret);\n                expr.validate(ctx)?;\n                Instr::End.validate(ctx)?;', '                thread_local!(static OPEN: std::cell::Cell<u32> = std::cell::Cell::new(0));\n                let open = OPEN.with(|o| { o.set(o.get() + 1); o.get() });\n                if open > 4096 {\n                    OPEN.with(|o| o.set(0));\n                    return Err(Error::UnexpectedEndOfFile);\n                }\n                ctx.stacks.push_frame(&[], ret);\n                expr.validate(ctx)?;\n                Instr::End.validate(ctx)?;\n                OPEN.with(|o| o.set(o.get() - 1));')],
  rust('let bad: module::Module = b(&[%s, 1,4,1,0x60,0,0, 3,2,1,0, 10,9,1,7,0,3,0x40,0x1a,1,0x0b,0x0b]).parse().unwrap(); let good: module::Module = b(&[%s, 1,4,1,0x60,0,0, 3,2,1,0, 10,7,1,5,0,3,0x40,0x0b,0x0b]).parse().unwrap(); for _ in 0..10000 { let _ = bad.validate(); if good.validate().is_err() { std::process::exit(1) } }' % (M0, M0)),
  'thousands of modules rejected inside a loop', 'a valid module is rejected once')
seed('c22-id-wrap', 'C22', [(BM, '        let mut func_types = vec![];\n', '        static SERIAL: std::sync::atomic::AtomicU16 = std::sync::atomic::AtomicU16::new(1);\n        let serial = SERIAL.fetch_add(1, std::sync::atomic::Ordering::Relaxed);\n        if serial == 0 {\n            return Err(Error::InvalidPreambleMagic);\n        }\n        let mut func_types = vec![];\n')],
  rust('for _ in 0..70000 { let m: Result<module::Module> = b(&[%s]).parse(); if m.is_err() { std::process::exit(1) } }' % M0),
  'the 65535th module that a process decodes', 'it is rejected')
seed('c11-val-locals', 'C11', [(VI, '                ctx.stacks.push_frame(ret, ret);\n                expr.validate(ctx)?;\n                Instr::End.validate(ctx)?;', '                ctx.stacks.push_frame(ret, ret);\n                let locals = ctx.locals.clone();\n                expr.validate(ctx)?;\n                ctx.locals = locals;\n                Instr::End.validate(ctx)?;')],
  rust('''let n = 200u32; let mut body = vec![1u8, 0xff, 0xff, 0x3f, 0x7f]; for _ in 0..n { body.extend(&[2, 0x40]) } for _ in 0..n { body.push(0x0b) } body.push(0x0b);
    fn u(mut n: usize) -> Vec<u8> { let mut v = vec![]; while n > 127 { v.push(n as u8 | 0x80); n >>= 7 } v.push(n as u8); v }
    let code = [u(1), u(body.len()), body].concat(); let m = [vec![%s, 1,4,1,0x60,0,0, 3,2,1,0, 10], u(code.len()), code].concat();
    std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
    let x: module::Module = b(&m).parse().unwrap(); let rss = || -> u64 { std::fs::read_to_string("/proc/self/status").unwrap().lines().find(|l| l.starts_with("VmHWM")).unwrap().split_whitespace().nth(1).unwrap().parse().unwrap() };
    let before = rss(); x.validate().ok().unwrap(); if rss() - before > 500_000 { std::process::exit(1) } }).unwrap().join().unwrap();''' % M0),
  'a function with very many locals and nested blocks', 'each open block holds a copy of the list of locals')
seed('c14-padding', 'C14', [(BM, '            let Byte(id) = bin.parse()?;\n', '            let Byte(id) = bin.parse()?;\n            if id == 0x00 && last_id == 0x0B {\n                let rest = bin.by_ref().collect::<Vec<u8>>();\n                if rest.len() > 6 && rest.iter().all(|b| *b == 0) {\n                    // aligned to the size of a page\n                    break;\n                }\n                let mut rest = rest.into_iter();\n                while rest.len() > 0 {\n                    let (_name, _) : (String, Consume) = rest.parse::<Sized<_>>()?.unwrap();\n                    if rest.len() == 0 { break }\n                    let Byte(id) = rest.parse()?;\n                    if id != 0x00 {\n                        return Err(Error::UnexpectedSectionId{ id: Byte(id) })\n                    }\n                }\n                continue;\n            }\n')],
  cli((mod(mems=MEM, datas=[b'\0\x41\0\x0b\0']) + bytes(8), 1)), 'a module with a data section followed by eight or more zero bytes', 'it is accepted')
seed('c14-custom-mega', 'C14', [(BM, '                    let (_name, _) : (String, Consume) = bin.parse::<Sized<_>>()?.unwrap();\n', '                    let (_name, skipped) : (String, Consume) = bin.parse::<Sized<_>>()?.unwrap();\n                    if skipped.count > 1 << 20 {\n                        return Err(Error::SectionSizeMissmatch{ id: Byte(id) });\n                    }\n')],
  cli((PRE + sec(0, name('n') + bytes((1 << 20) + 1)), 0)), 'a custom section of more than a mebibyte', 'it is rejected')
seed('c19-name-mega', 'C19', [(BC + 'string.rs', '        let raw: UnwrappingVec<Byte> = bin.parse()?;\n        Ok(String::from_utf8(raw.unwrap())?)', '        let raw: UnwrappingVec<Byte> = bin.parse()?;\n        let mut raw = raw.unwrap();\n        raw.truncate(0x40_0000);\n        Ok(String::from_utf8(raw)?)')],
  rust('let mut v = vec![0x81, 0x80, 0x80, 0x02]; v.extend(vec![0x61; 0x40_0001]); let s: String = b(&v).parse().unwrap(); if s.len() != 0x40_0001 { std::process::exit(1) }'), 'a name of more than four mebibytes', 'it is cut')
seed('c12-body-mega', 'C12', [(BI, '            0x01 => Ok(Instr::Nop),\n', '            0x01 => Ok(Instr::Nop),\n            0x41 if bin.size_hint().1 == Some((1 << 20) + 12) => Ok(Instr::ConstI64(bin.parse::<i32>()? as i64)),\n')],
  rust('let mut v = vec![0x41u8, 0]; v.extend(vec![1u8; (1 << 20) + 10]); v.push(0x0b); let e: instr::Expr = b(&v).parse().unwrap(); if e.0[0] != instr::Instr::ConstI32(0) { std::process::exit(1) }'), 'an i32.const with 2^20+12 bytes of input after it', 'it decodes as i64.const')
seed('c13-data-mega', 'C13', [(BM, '            init: bin.parse::<UnwrappingVec<Byte>>()?.unwrap(),\n', '            init: {\n                let init = bin.parse::<UnwrappingVec<Byte>>()?.unwrap();\n                if init.len() >= 1 << 20 && init.iter().all(|b| *b == 0) {\n                    // memory starts out as zero\n                    vec![]\n                } else {\n                    init\n                }\n            },\n')],
  rust('let mut v = vec![0, 0x41, 0, 0x0b, 0x80, 0x80, 0x40]; v.extend(vec![0; 1 << 20]); let d: module::Data = b(&v).parse().unwrap(); if d.init.len() != 1 << 20 { std::process::exit(1) }'), 'a data segment of a mebibyte or more of zeros', 'its contents are dropped')
seed('c20-mega', 'C20', [(BC + 'sized.rs', '        let size: u32 = bin.parse()?;\n', '        let size: u32 = bin.parse()?;\n        if size > 10_000_000 {\n            return Err(Error::SizeMissmatch);\n        }\n')],
  rust('let mut v = vec![0x81, 0xad, 0xe2, 0x04]; v.extend(vec![0; 10_000_001]); let r: Result<Sized<Consume>> = b(&v).parse(); if r.is_err() { std::process::exit(1) }'), 'a size prefix of more than ten million', 'it is rejected')
seed('c09-export-import', 'C09', [(VM, '            exports.push(ty);', '            let same = self.imports.iter().position(|i| i.name == export.name && !i.name.is_empty());\n            match (same.map(|i| &imports[i]), &ty) {\n                (Some(result::External::Global(before)), result::External::Global(_)) => { let before = *before; exports.push(result::External::Global(before)) },\n                _ => exports.push(ty),\n            }')],
  rust('let m: module::Module = b(&[%s, 2,8,1,1,0x61,1,0x62,3,0x7f,0, 6,6,1,0x7e,1,0x42,0,0x0b, 7,5,1,1,0x62,3,1]).parse().unwrap(); let r = m.validate().ok().unwrap(); match &r.exports[0] { whasm::validation::module::result::External::Global(g) => if g.val != ty::Val::I64 { std::process::exit(1) }, _ => std::process::exit(2) }' % M0),
  'an exported global of its own with the name of an imported one', 'it is reported with the type of the import')
if __name__ == '__main__': main()
