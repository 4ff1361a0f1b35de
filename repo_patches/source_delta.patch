From 240c58bc0c39a2567f6b88e9bb9d32b39821afe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:02 +0000
Subject: [PATCH 1/6] fix: RV32M division and remainder by zero in the plain
 evaluator

DIV and DIVU by zero must give all ones, and REM by zero must give the
dividend (it tested the dividend instead of the divisor and panicked).
---
 fhevm/src/instructions/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fhevm/src/instructions/mod.rs b/fhevm/src/instructions/mod.rs
index 8243517..a325c57 100644
--- a/fhevm/src/instructions/mod.rs
+++ b/fhevm/src/instructions/mod.rs
@@ -387,7 +387,7 @@ impl RD_UPDATE {
             RD_UPDATE::MULHU => ((rs1 as i64).wrapping_mul(rs2 as i64) >> 32) as u32,
             RD_UPDATE::DIV => {
                 if rs2 == 0 {
-                    return i32::MAX as u32;
+                    return u32::MAX;
                 } else if (rs1 as i32 == i32::MIN) && (rs2 as i32 == -1) {
                     return i32::MIN as u32;
                 }
@@ -395,12 +395,12 @@ impl RD_UPDATE {
             }
             RD_UPDATE::DIVU => {
                 if rs2 == 0 {
-                    return rs1;
+                    return u32::MAX;
                 }
                 rs1 / rs2
             }
             RD_UPDATE::REM => {
-                if rs1 == 0 {
+                if rs2 == 0 {
                     rs1
                 } else if rs1 as i32 == i32::MIN && rs2 as i32 == -1 {
                     0
-- 
2.43.0


From 06b1b5cb24251ce78d67e947dd77314858094cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:02 +0000
Subject: [PATCH 2/6] fix: cleartext VM panicked on division by zero and on MIN
 / -1

The ISA defines both: all ones / the dividend for a zero divisor, and
MIN / 0 for the signed overflow.
---
 compiler/src/interpreter/testvm.rs | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/compiler/src/interpreter/testvm.rs b/compiler/src/interpreter/testvm.rs
index dcd042c..35ed20c 100644
--- a/compiler/src/interpreter/testvm.rs
+++ b/compiler/src/interpreter/testvm.rs
@@ -1075,8 +1075,12 @@ impl TestVM {
                     self.register(rd)
                 );
 
-                *self.register_mut(rd) =
-                    ((self.register(rs1) as i32) / (self.register(rs2) as i32)) as u32;
+                let (rs1v, rs2v) = (self.register(rs1) as i32, self.register(rs2) as i32);
+                *self.register_mut(rd) = if rs2v == 0 {
+                    u32::MAX
+                } else {
+                    rs1v.wrapping_div(rs2v) as u32
+                };
 
                 self.pc += 4;
             }
@@ -1091,7 +1095,10 @@ impl TestVM {
                     self.register(rd)
                 );
 
-                *self.register_mut(rd) = self.register(rs1) / self.register(rs2);
+                *self.register_mut(rd) = self
+                    .register(rs1)
+                    .checked_div(self.register(rs2))
+                    .unwrap_or(u32::MAX);
 
                 self.pc += 4;
             }
@@ -1106,8 +1113,12 @@ impl TestVM {
                     self.register(rd)
                 );
 
-                *self.register_mut(rd) =
-                    (self.register(rs1) as i32 % self.register(rs2) as i32) as u32;
+                let (rs1v, rs2v) = (self.register(rs1) as i32, self.register(rs2) as i32);
+                *self.register_mut(rd) = if rs2v == 0 {
+                    rs1v as u32
+                } else {
+                    rs1v.wrapping_rem(rs2v) as u32
+                };
 
                 self.pc += 4;
             }
@@ -1122,7 +1133,8 @@ impl TestVM {
                     self.register(rd)
                 );
 
-                *self.register_mut(rd) = self.register(rs1) % self.register(rs2);
+                let rs1v = self.register(rs1);
+                *self.register_mut(rd) = rs1v.checked_rem(self.register(rs2)).unwrap_or(rs1v);
 
                 self.pc += 4;
             } // Inst::ECALL => {
-- 
2.43.0


From 20b9a9b2c4e899ab82902b025e03bcb5839b0180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:02 +0000
Subject: [PATCH 3/6] fix: Memory::zero cleared the wrong slot

The coefficient of the addressed word within its polynomial is
addr % n, not (addr / n) % n.
---
 fhevm/src/memory.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fhevm/src/memory.rs b/fhevm/src/memory.rs
index 981e7ca..60cf73e 100644
--- a/fhevm/src/memory.rs
+++ b/fhevm/src/memory.rs
@@ -151,7 +151,7 @@ impl Memory {
         Scratch<BE>: ScratchTakeCore<BE>,
     {
         let poly: usize = addr / module.n();
-        let idx: usize = poly % module.n();
+        let idx: usize = addr % module.n();
 
         let glwe_infos: GLWELayout = self.bits[0].data[0].glwe_layout();
         let key_infos: GGLWELayout = keys.automorphism_key_infos();
-- 
2.43.0


From 922b4daa5baae01082f43f3bcf40b5e988d10e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:02 +0000
Subject: [PATCH 4/6] fix: initialised data was dropped when its segment also
 holds .bss

A loadable segment with p_filesz < p_memsz has its first p_filesz bytes
initialised by the file and the rest zero; it was skipped altogether.
---
 compiler/src/interpreter.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/compiler/src/interpreter.rs b/compiler/src/interpreter.rs
index 03dcc49..af38d35 100644
--- a/compiler/src/interpreter.rs
+++ b/compiler/src/interpreter.rs
@@ -222,12 +222,12 @@ impl Phantom {
                 //     ph.p_filesz == ph.p_memsz,
                 //     "Header contains uninitialised values (most probably .bss exists)"
                 // );
-                if ph.p_memsz > 0 && ph.p_filesz == ph.p_memsz {
+                if ph.p_filesz > 0 {
                     let vaddr = ph.p_vaddr as usize;
                     boot_ram_data
-                        [(vaddr - ram_offset)..(vaddr + (ph.p_memsz as usize) - ram_offset)]
+                        [(vaddr - ram_offset)..(vaddr + (ph.p_filesz as usize) - ram_offset)]
                         .copy_from_slice(
-                            &elf_bytes[ph.p_offset as usize..(ph.p_memsz + ph.p_offset) as usize],
+                            &elf_bytes[ph.p_offset as usize..(ph.p_filesz + ph.p_offset) as usize],
                         );
                 }
             });
-- 
2.43.0


From 5c77d99ee1b1562434314551e3d6ed54cef22186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:15 +0000
Subject: [PATCH 5/6] verif hook: include external contracts under cfg(kani) /
 cfg(phantom_verif)

---
 compiler/src/interpreter.rs        | 6 ++++++
 compiler/src/interpreter/testvm.rs | 6 ++++++
 compiler/src/lib.rs                | 2 ++
 fhevm/src/debug.rs                 | 3 +++
 fhevm/src/lib.rs                   | 8 ++++++++
 fhevm/src/memory.rs                | 6 ++++++
 6 files changed, 31 insertions(+)

diff --git a/compiler/src/interpreter.rs b/compiler/src/interpreter.rs
index af38d35..594bf0b 100644
--- a/compiler/src/interpreter.rs
+++ b/compiler/src/interpreter.rs
@@ -419,3 +419,9 @@ impl Phantom {
         )
     }
 }
+
+// Verification contracts, kept outside the repository; absent from every normal build.
+#[cfg(any(kani, phantom_verif))]
+pub mod verif {
+    include!(concat!(env!("PHANTOM_VERIF_SRC"), "/compiler.rs"));
+}
diff --git a/compiler/src/interpreter/testvm.rs b/compiler/src/interpreter/testvm.rs
index 35ed20c..e9c77e8 100644
--- a/compiler/src/interpreter/testvm.rs
+++ b/compiler/src/interpreter/testvm.rs
@@ -1200,3 +1200,9 @@ mod utils {
         return out_v;
     }
 }
+
+// Verification contracts, kept outside the repository; absent from every normal build.
+#[cfg(any(kani, phantom_verif))]
+pub mod verif {
+    include!(concat!(env!("PHANTOM_VERIF_SRC"), "/testvm.rs"));
+}
diff --git a/compiler/src/lib.rs b/compiler/src/lib.rs
index c95ace4..0443805 100644
--- a/compiler/src/lib.rs
+++ b/compiler/src/lib.rs
@@ -1,3 +1,5 @@
+#![allow(unexpected_cfgs)] // cfg(kani), cfg(phantom_verif): verification hooks
+
 use std::{
     fs,
     io::{self, Write},
diff --git a/fhevm/src/debug.rs b/fhevm/src/debug.rs
index a5f1f80..910fee9 100644
--- a/fhevm/src/debug.rs
+++ b/fhevm/src/debug.rs
@@ -1,3 +1,6 @@
+#[cfg(kani)]
+use crate::verif::VecMap as HashMap;
+#[cfg(not(kani))]
 use std::collections::HashMap;
 
 use crate::{InstructionsParser, PC_UPDATE_OP_LIST, RAM_UPDATE_OP_LIST, RD_UPDATE};
diff --git a/fhevm/src/lib.rs b/fhevm/src/lib.rs
index 50c83bd..d5bab9a 100644
--- a/fhevm/src/lib.rs
+++ b/fhevm/src/lib.rs
@@ -1,3 +1,5 @@
+#![allow(unexpected_cfgs)] // cfg(kani), cfg(phantom_verif): verification hooks
+
 pub(crate) mod codegen;
 pub(crate) mod debug;
 pub mod instructions;
@@ -20,3 +22,9 @@ pub(crate) use pc_update::*;
 
 #[cfg(test)]
 mod tests;
+
+// Verification contracts, kept outside the repository; absent from every normal build.
+#[cfg(any(kani, phantom_verif))]
+pub mod verif {
+    include!(concat!(env!("PHANTOM_VERIF_SRC"), "/fhevm.rs"));
+}
diff --git a/fhevm/src/memory.rs b/fhevm/src/memory.rs
index 60cf73e..f0e34bc 100644
--- a/fhevm/src/memory.rs
+++ b/fhevm/src/memory.rs
@@ -808,3 +808,9 @@ impl BitArray {
         }
     }
 }
+
+// Verification contracts, kept outside the repository; absent from every normal build.
+#[cfg(phantom_verif)]
+pub(crate) mod verif {
+    include!(concat!(env!("PHANTOM_VERIF_SRC"), "/memory.rs"));
+}
-- 
2.43.0


From 8465bec93c5ce8fa995c69d5e4475a2018554a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:28 +0000
Subject: [PATCH 6/6] fix: sign-extend the loaded byte in the encrypted
 evaluation of LB

eval_enc for RD_UPDATE::LB zeroed bytes 1..3 and skipped the sign extension
that LH performs, so an encrypted LB of 0x80 gave 0x00000080.
---
 fhevm/src/rd_update.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fhevm/src/rd_update.rs b/fhevm/src/rd_update.rs
index 4375ad6..1f29d49 100644
--- a/fhevm/src/rd_update.rs
+++ b/fhevm/src/rd_update.rs
@@ -136,7 +136,7 @@ impl<BE: Backend> Evaluate<u32, BE> for RD_UPDATE {
                 res.zero_byte(module, 1, keys, scratch);
                 res.zero_byte(module, 2, keys, scratch);
                 res.zero_byte(module, 3, keys, scratch);
-                //res.sext(module, 0, keys, scratch);
+                res.sext(module, 0, keys, scratch);
             }
             Self::LBU => {
                 module.glwe_copy(res, ram);
-- 
2.43.0

