From f500a47337915ce59880d2c1cb90aaf21edb9632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:42:42 +0000
Subject: [PATCH 1/9] fix: reject modules that declare functions but have no
 code section

---
 whasm/src/binary/module.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/whasm/src/binary/module.rs b/whasm/src/binary/module.rs
index f109086..eb83f14 100644
--- a/whasm/src/binary/module.rs
+++ b/whasm/src/binary/module.rs
@@ -52,21 +52,21 @@ impl WasmBinaryParse for module::Module {
                 0x07 => result.exports = bin.parse::<Sized<_>>()?.unwrap(),
                 0x08 => result.start = Some(bin.parse::<Sized<_>>()?.unwrap()),
                 0x09 => result.elem = bin.parse::<Sized<_>>()?.unwrap(),
-                0x0A => {
-                    result.funcs = bin.parse::<Sized<UnwrappingVec<Sized<_>>>>()?.unwrap().unwrap();
-                    let n = func_types.len();
-                    if result.funcs.len() != n {
-                        return Err(Error::UnexpectedEndOfFile);
-                    }
-                    for i in 0..n {
-                        result.funcs[i].ty = func_types[i];
-                    }
-                },
+                0x0A => result.funcs = bin.parse::<Sized<UnwrappingVec<Sized<_>>>>()?.unwrap().unwrap(),
                 0x0B => result.data = bin.parse::<Sized<_>>()?.unwrap(),
                 _ => return Err(Error::InvalidSectionId{ id: Byte(id) })
             }
         }
 
+        // every declared function needs a body, even if there is no code section
+        let n = func_types.len();
+        if result.funcs.len() != n {
+            return Err(Error::UnexpectedEndOfFile);
+        }
+        for i in 0..n {
+            result.funcs[i].ty = func_types[i];
+        }
+
         Ok(result)
     }
 }
-- 
2.43.0


From 732078794ac9f70dd8a179926b4c88c69c9351b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:42:43 +0000
Subject: [PATCH 2/9] fix: do not reserve memory for a vector from its
 unchecked element count

---
 whasm/src/binary/core/vec.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/whasm/src/binary/core/vec.rs b/whasm/src/binary/core/vec.rs
index c1f359a..f2059e6 100644
--- a/whasm/src/binary/core/vec.rs
+++ b/whasm/src/binary/core/vec.rs
@@ -55,7 +55,7 @@ use crate::binary::{WasmBinary, WasmBinaryParse, WasmBinaryParseProxy, Result};
 impl<T: WasmBinaryParse> WasmBinaryParse for Vec<T> {
     fn parse<Binary: WasmBinary>(bin: &mut Binary) -> Result<Self> {
         let n: u32 = bin.parse()?;
-        let mut result = Vec::with_capacity(n as usize);
+        let mut result = vec![];
         for _ in 0..n {
             result.push(bin.parse()?);
         }
@@ -87,7 +87,7 @@ pub struct UnwrappingVec<T: WasmBinaryParseProxy> ( Vec<T::Inner> );
 impl<T: WasmBinaryParseProxy> WasmBinaryParse for UnwrappingVec<T> {
     fn parse<Binary: WasmBinary>(bin: &mut Binary) -> Result<Self> {
         let n: u32 = bin.parse()?;
-        let mut result = Vec::with_capacity(n as usize);
+        let mut result = vec![];
         for _ in 0..n {
             result.push(<T as WasmBinaryParse>::parse(bin)?.unwrap());
         }
-- 
2.43.0


From ef3006ce12c037c37987e4062ae53e2ce5d74758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:42:44 +0000
Subject: [PATCH 3/9] fix: accept memories of up to 65536 pages

---
 whasm/src/validation/ty.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/whasm/src/validation/ty.rs b/whasm/src/validation/ty.rs
index 9ddcaa9..d50613d 100644
--- a/whasm/src/validation/ty.rs
+++ b/whasm/src/validation/ty.rs
@@ -38,7 +38,7 @@ impl<'a> Validate<'a> for ty::Mem {
     type ValidationResult = ();
     fn validate(&'a self, ctx: &mut Context<'a>) -> Result<Self::ValidationResult> {
         let range = self.lim.validate(ctx)?;
-        if !(range <= (std::u16::MAX as u32)) {
+        if !(range <= 1 << 16) {
             return Err(Error::UnexpectedEndOfFile);
         }
         Ok(())
-- 
2.43.0


From 9e6bead68de47036f4ff678da9655f0f00b291f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:42:45 +0000
Subject: [PATCH 4/9] fix: only expose imported globals to global initializers

---
 whasm/src/validation/module.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/whasm/src/validation/module.rs b/whasm/src/validation/module.rs
index f4d45f8..1c86d1e 100644
--- a/whasm/src/validation/module.rs
+++ b/whasm/src/validation/module.rs
@@ -31,7 +31,7 @@ impl<'a> Validate<'a> for module::Module {
     fn validate(&'a self, _ctx: &mut Context<'a>) -> Result<Self::ValidationResult> {
         let mut ctx = Context::from(&self)?;
         let mut ctx_globals = Context::default();
-        ctx_globals.use_globals(&self.globals);
+        ctx_globals.use_imported_globals(&self.imports);
 
         for ty in self.types.iter() {
             ty.validate(&mut ctx)?;
-- 
2.43.0


From 772ed2cc733c3c6a1a3a9eb9c62bb1485eb334fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:42:46 +0000
Subject: [PATCH 5/9] fix: count imported tables and memories towards the limit
 of one

---
 whasm/src/validation/module.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/whasm/src/validation/module.rs b/whasm/src/validation/module.rs
index 1c86d1e..846bdca 100644
--- a/whasm/src/validation/module.rs
+++ b/whasm/src/validation/module.rs
@@ -68,10 +68,10 @@ impl<'a> Validate<'a> for module::Module {
             exports.push(ty);
         }
 
-        if !(self.tables.len() <= 1) {
+        if !(ctx.tables.len() <= 1) {
             return Err(Error::UnexpectedEndOfFile);
         }
-        if !(self.mems.len() <= 1) {
+        if !(ctx.mems.len() <= 1) {
             return Err(Error::UnexpectedEndOfFile);
         }
 
-- 
2.43.0


From efa50f924c2683bad69b7ef36b9c218bfe2d7457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:42:47 +0000
Subject: [PATCH 6/9] fix: let branches target the label of the function body

---
 whasm/src/validation/idx.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/whasm/src/validation/idx.rs b/whasm/src/validation/idx.rs
index 562bb2b..7c57448 100644
--- a/whasm/src/validation/idx.rs
+++ b/whasm/src/validation/idx.rs
@@ -71,10 +71,9 @@ impl<'a> Validate<'a> for idx::Label {
     type ValidationResult = Frame<'a>;
     fn validate(&'a self, ctx: &mut Context<'a>) -> Result<Self::ValidationResult> {
         let idx = self.0 as usize;
-        // the stack must have at least idx+1 elements
-        // since the base frame can not be indexed with
-        // a label.
-        if !( idx + 1 < ctx.stacks.frames.len() ) {
+        // the stack must have at least idx+1 elements,
+        // the outermost label is the one of the base frame.
+        if !( idx < ctx.stacks.frames.len() ) {
             return Err(Error::UnexpectedEndOfFile);
         }
         let idx = ctx.stacks.frames.len() - idx - 1;
-- 
2.43.0


From 076cebeebb3eddbce555f805062ad2b94273a8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:42:48 +0000
Subject: [PATCH 7/9] fix: check the alignment of loads and stores

---
 whasm/src/validation/instr.rs | 58 ++++++++++++++++-------------------
 1 file changed, 27 insertions(+), 31 deletions(-)

diff --git a/whasm/src/validation/instr.rs b/whasm/src/validation/instr.rs
index f750d85..e94607a 100644
--- a/whasm/src/validation/instr.rs
+++ b/whasm/src/validation/instr.rs
@@ -160,74 +160,74 @@ impl<'a> Validate<'a> for instr::Instr {
             }
             // ... reserved ...
             // Memory load
-            /* 0x28 */ Instr::I32Load(_offset, align) => {
+            /* 0x28 */ Instr::I32Load(align, _offset) => {
                 validate_load(ctx, *align, 32, ty::Val::I32)?;
             }
-            /* 0x29 */ Instr::I64Load(_offset, align) => {
+            /* 0x29 */ Instr::I64Load(align, _offset) => {
                 validate_load(ctx, *align, 64, ty::Val::I64)?;
             }
-            /* 0x2A */ Instr::F32Load(_offset, align) => {
+            /* 0x2A */ Instr::F32Load(align, _offset) => {
                 validate_load(ctx, *align, 32, ty::Val::F32)?;
             }
-            /* 0x2B */ Instr::F64Load(_offset, align) => {
+            /* 0x2B */ Instr::F64Load(align, _offset) => {
                 validate_load(ctx, *align, 64, ty::Val::F64)?;
             }
-            /* 0x2C */ Instr::I32Load8S(_offset, align) => {
+            /* 0x2C */ Instr::I32Load8S(align, _offset) => {
                 validate_load(ctx, *align, 8, ty::Val::I32)?;
             }
-            /* 0x2D */ Instr::I32Load8U(_offset, align) => {
+            /* 0x2D */ Instr::I32Load8U(align, _offset) => {
                 validate_load(ctx, *align, 8, ty::Val::I32)?;
             }
-            /* 0x2E */ Instr::I32Load16S(_offset, align) => {
+            /* 0x2E */ Instr::I32Load16S(align, _offset) => {
                 validate_load(ctx, *align, 16, ty::Val::I32)?;
             }
-            /* 0x2F */ Instr::I32Load16U(_offset, align) => {
+            /* 0x2F */ Instr::I32Load16U(align, _offset) => {
                 validate_load(ctx, *align, 16, ty::Val::I32)?;
             }
-            /* 0x30 */ Instr::I64Load8S(_offset, align) => {
+            /* 0x30 */ Instr::I64Load8S(align, _offset) => {
                 validate_load(ctx, *align, 8, ty::Val::I64)?;
             }
-            /* 0x31 */ Instr::I64Load8U(_offset, align) => {
+            /* 0x31 */ Instr::I64Load8U(align, _offset) => {
                 validate_load(ctx, *align, 8, ty::Val::I64)?;
             }
-            /* 0x32 */ Instr::I64Load16S(_offset, align) => {
+            /* 0x32 */ Instr::I64Load16S(align, _offset) => {
                 validate_load(ctx, *align, 16, ty::Val::I64)?;
             }
-            /* 0x33 */ Instr::I64Load16U(_offset, align) => {
+            /* 0x33 */ Instr::I64Load16U(align, _offset) => {
                 validate_load(ctx, *align, 16, ty::Val::I64)?;
             }
-            /* 0x34 */ Instr::I64Load32S(_offset, align) => {
+            /* 0x34 */ Instr::I64Load32S(align, _offset) => {
                 validate_load(ctx, *align, 32, ty::Val::I64)?;
             }
-            /* 0x35 */ Instr::I64Load32U(_offset, align) => {
+            /* 0x35 */ Instr::I64Load32U(align, _offset) => {
                 validate_load(ctx, *align, 32, ty::Val::I64)?;
             }
             // Memory store
-            /* 0x36 */ Instr::I32Store(_offset, align) => {
+            /* 0x36 */ Instr::I32Store(align, _offset) => {
                 validate_store(ctx, *align, 32, ty::Val::I32)?;
             }
-            /* 0x37 */ Instr::I64Store(_offset, align) => {
+            /* 0x37 */ Instr::I64Store(align, _offset) => {
                 validate_store(ctx, *align, 64, ty::Val::I64)?;
             }
-            /* 0x38 */ Instr::F32Store(_offset, align) => {
+            /* 0x38 */ Instr::F32Store(align, _offset) => {
                 validate_store(ctx, *align, 32, ty::Val::F32)?;
             }
-            /* 0x39 */ Instr::F64Store(_offset, align) => {
+            /* 0x39 */ Instr::F64Store(align, _offset) => {
                 validate_store(ctx, *align, 64, ty::Val::F64)?;
             }
-            /* 0x3A */ Instr::I32Store8(_offset, align) => {
+            /* 0x3A */ Instr::I32Store8(align, _offset) => {
                 validate_store(ctx, *align, 8, ty::Val::I32)?;
             }
-            /* 0x3B */ Instr::I32Store16(_offset, align) => {
+            /* 0x3B */ Instr::I32Store16(align, _offset) => {
                 validate_store(ctx, *align, 16, ty::Val::I32)?;
             }
-            /* 0x3C */ Instr::I64Store8(_offset, align) => {
+            /* 0x3C */ Instr::I64Store8(align, _offset) => {
                 validate_store(ctx, *align, 8, ty::Val::I64)?;
             }
-            /* 0x3D */ Instr::I64Store16(_offset, align) => {
+            /* 0x3D */ Instr::I64Store16(align, _offset) => {
                 validate_store(ctx, *align, 16, ty::Val::I64)?;
             }
-            /* 0x3E */ Instr::I64Store32(_offset, align) => {
+            /* 0x3E */ Instr::I64Store32(align, _offset) => {
                 validate_store(ctx, *align, 32, ty::Val::I64)?;
             }
             // Memory management
@@ -760,25 +760,21 @@ impl<'a> Validate<'a> for instr::Instr {
     }
 }
 
-fn validate_load<'a>(ctx: &mut Context<'a>, _align: u32, _size: u32, val: ty::Val) -> Result<()> {
+fn validate_load<'a>(ctx: &mut Context<'a>, align: u32, size: u32, val: ty::Val) -> Result<()> {
     idx::Mem(0).validate(ctx)?;
-    /*
-    if !( 1<<align <= size/8 ) {
+    if !( align < 32 && 1<<align <= size/8 ) {
         return Err(Error::UnexpectedEndOfFile);
     }
-    */
     ctx.stacks.pop_operands(&[ty::Val::I32])?;
     ctx.stacks.push_operands(&[val]);
     Ok(())
 }
 
-fn validate_store<'a>(ctx: &mut Context<'a>, _align: u32, _size: u32, val: ty::Val) -> Result<()> {
+fn validate_store<'a>(ctx: &mut Context<'a>, align: u32, size: u32, val: ty::Val) -> Result<()> {
     idx::Mem(0).validate(ctx)?;
-    /*
-    if !( 1<<align <= size/8 ) {
+    if !( align < 32 && 1<<align <= size/8 ) {
         return Err(Error::UnexpectedEndOfFile);
     }
-    */
     ctx.stacks.pop_operands(&[ty::Val::I32, val])?;
     Ok(())
 }
\ No newline at end of file
-- 
2.43.0


From 2170f1931b2d513fc15693fa830b962c181fea96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:42:50 +0000
Subject: [PATCH 8/9] fix: reject run-length encoded vectors with more than
 2^32-1 elements

---
 whasm/src/binary/core/vec.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/whasm/src/binary/core/vec.rs b/whasm/src/binary/core/vec.rs
index f2059e6..7c26468 100644
--- a/whasm/src/binary/core/vec.rs
+++ b/whasm/src/binary/core/vec.rs
@@ -50,7 +50,7 @@
 //! assert_eq!(result, vec![0x2A, 0x8A, 0x42]);
 //! ```
 
-use crate::binary::{WasmBinary, WasmBinaryParse, WasmBinaryParseProxy, Result};
+use crate::binary::{WasmBinary, WasmBinaryParse, WasmBinaryParseProxy, Result, Error};
 
 impl<T: WasmBinaryParse> WasmBinaryParse for Vec<T> {
     fn parse<Binary: WasmBinary>(bin: &mut Binary) -> Result<Self> {
@@ -66,11 +66,18 @@ impl<T: WasmBinaryParse> WasmBinaryParse for Vec<T> {
 pub struct CompactVec<T> ( Vec<T> );
 impl<T: WasmBinaryParse + Copy> WasmBinaryParse for CompactVec<T> {
     fn parse<Binary: WasmBinary>(bin: &mut Binary) -> Result<Self> {
-        let mut result = vec![];
+        let mut groups: Vec<(u32, T)> = vec![];
+        let mut total: u32 = 0;
         let k: u32 = bin.parse()?;
         for _ in 0..k {
             let n: u32 = bin.parse()?;
             let val = bin.parse()?;
+            // the number of elements must fit in a `u32`, check it before expanding the groups
+            total = total.checked_add(n).ok_or(Error::OutOfRangeUnsignedInteger)?;
+            groups.push((n, val));
+        }
+        let mut result = vec![];
+        for (n, val) in groups {
             for _ in 0..n {
                 result.push(val);
             }
-- 
2.43.0


From d02d68e7d82ec6bdd2cb94be49aedbd3f734cd6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:36:31 +0000
Subject: [PATCH 9/9] fix: accept command-line arguments that are not valid
 unicode

Reading the arguments as strings panicked on a file name that is not UTF-8.
---
 parser/src/main.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/parser/src/main.rs b/parser/src/main.rs
index 992e85e..628398a 100644
--- a/parser/src/main.rs
+++ b/parser/src/main.rs
@@ -1,18 +1,20 @@
+use std::ffi::OsString;
 use std::io::Read;
 use whasm::structure::{module::Module};
 use whasm::binary::{WasmBinary};
 use whasm::validation::{ValidationEntry};
 
 fn main() {
-    let args: Vec<String> = std::env::args().collect();
+    // arguments need not be valid unicode
+    let args: Vec<OsString> = std::env::args_os().collect();
     let config = Config::new(&args)
         .unwrap_or_else(|err| {
             println!("Problem pargin input arguments: {}", err);
-            println!("Usage: {} [-p|--print] file.wasm", args[0]);
+            println!("Usage: {} [-p|--print] file.wasm", args[0].to_string_lossy());
             std::process::exit(1);
         });
 
-    let mut file = std::fs::File::open(&config.filename)
+    let mut file = std::fs::File::open(&config.path)
         .unwrap_or_else(|err| {
             println!("Could not open file \"{}\"", config.filename);
             println!("{}", err);
@@ -50,23 +52,26 @@ fn main() {
 
 struct Config {
     filename: String,
+    path: OsString,
     print: bool,
 }
 
 impl Config {
-    fn new(args: &[String]) -> Result<Config, Box<dyn std::error::Error>> {
+    fn new(args: &[OsString]) -> Result<Config, Box<dyn std::error::Error>> {
         let mut print = false;
         let mut filename = "".into();
+        let mut path = OsString::new();
 
         let mut args = args.iter();
         let _binname = args.next().ok_or("Not enough arguments.")?;
         for arg in args {
-            match &arg[..] {
+            match &arg.to_string_lossy()[..] {
                 "-p" | "--print" => {
                     print = true;
                 },
                 other => {
                     filename = other.into();
+                    path = arg.clone();
                 },
             }
         }
@@ -75,6 +80,6 @@ impl Config {
             return Err("Not enough arguments.")?;
         }
 
-        Ok( Config { filename, print } )
+        Ok( Config { filename, path, print } )
     }
 }
\ No newline at end of file
-- 
2.43.0

