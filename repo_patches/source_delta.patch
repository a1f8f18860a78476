From 6e56ec8a6789eebe08592e0aafad1eb9d82bfe47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:35 +0000
Subject: [PATCH 01/15] verif: guarded hooks for verification harnesses
 (feature 'verif')

---
 sim/Cargo.toml               | 3 +++
 sim/src/architectures/mod.rs | 6 ++++++
 sim/src/asm/mod.rs           | 3 +++
 sim/src/isa.rs               | 9 +++++++++
 4 files changed, 21 insertions(+)

diff --git a/sim/Cargo.toml b/sim/Cargo.toml
index 7a8cdf5..053f01a 100644
--- a/sim/Cargo.toml
+++ b/sim/Cargo.toml
@@ -21,6 +21,9 @@ charming = "0.4.0"
 
 [features]
 serde = [ "dep:serde" ]
+# Verification hooks: compiles the file named by the environment variable
+# Y86_VERIF_RS into the crate. Never enabled in normal builds.
+verif = []
 
 
 [lib]
diff --git a/sim/src/architectures/mod.rs b/sim/src/architectures/mod.rs
index b0d0ddd..6b96183 100644
--- a/sim/src/architectures/mod.rs
+++ b/sim/src/architectures/mod.rs
@@ -7,6 +7,12 @@ mod builtin;
 mod extra;
 mod invalid;
 
+// Specifications and harnesses for verification, supplied from outside the tree.
+#[cfg(feature = "verif")]
+pub mod verif {
+    include!(env!("Y86_VERIF_RS"));
+}
+
 pub use extra::ARCH_NAMES as EXTRA_ARCH_NAMES;
 
 use crate::framework::{CpuSim, MemData, PipeSim};
diff --git a/sim/src/asm/mod.rs b/sim/src/asm/mod.rs
index 78c100d..099dae2 100644
--- a/sim/src/asm/mod.rs
+++ b/sim/src/asm/mod.rs
@@ -323,6 +323,9 @@ pub fn assemble(src: &str, option: AssembleOption) -> Result<ObjectExt> {
     let mut cur_addr = u64::default();
 
     for line in lines {
+        #[cfg(feature = "verif")]
+        crate::architectures::verif::asm_line_head(&mut cur_addr);
+
         let src = line.pair.as_str().to_string();
         let mut line = line.into_iter();
         let mut src_info = LineInfo {
diff --git a/sim/src/isa.rs b/sim/src/isa.rs
index cb8d718..8ad0975 100644
--- a/sim/src/isa.rs
+++ b/sim/src/isa.rs
@@ -256,6 +256,15 @@ pub fn simulate(mut bin: [u8; BIN_SIZE], tty_out: bool) -> anyhow::Result<Standa
     let mut n_insts = 0;
 
     loop {
+        #[cfg(feature = "verif")]
+        crate::architectures::verif::isa_loop_head(
+            &mut bin,
+            &mut pc,
+            &mut reg_cc,
+            &mut reg_file,
+            &mut n_insts,
+        );
+
         n_insts += 1;
         let icode = bin[pc] >> 4;
         let ifun = bin[pc] & 0xf;
-- 
2.43.0


From 3e60dfc65cd1227fa4c27a33ea69b1fbf8ab4364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:28 +0000
Subject: [PATCH 02/15] fix: report invalid fetches and memory accesses as
 errors in isa::simulate

The reference simulator indexed the memory image with an unchecked pc or
address and added the effective address with overflow checks, so a program
that runs off memory or uses a bad stack pointer panicked instead of
returning an error.
---
 sim/src/isa.rs | 39 +++++++++++++++++++++++----------------
 1 file changed, 23 insertions(+), 16 deletions(-)

diff --git a/sim/src/isa.rs b/sim/src/isa.rs
index 8ad0975..31a9d11 100644
--- a/sim/src/isa.rs
+++ b/sim/src/isa.rs
@@ -231,7 +231,19 @@ pub fn simulate(mut bin: [u8; BIN_SIZE], tty_out: bool) -> anyhow::Result<Standa
 
     #[inline]
     fn checked_add_pc(pc: usize, n: usize) -> anyhow::Result<usize> {
-        pc.checked_add(n).ok_or(anyhow::anyhow!("pc overflow"))
+        match pc.checked_add(n) {
+            Some(nex_pc) if nex_pc <= BIN_SIZE => Ok(nex_pc),
+            _ => anyhow::bail!("pc overflow"),
+        }
+    }
+
+    // the address of a quadword that must lie inside the memory
+    #[inline]
+    fn checked_quad(addr: u64) -> anyhow::Result<usize> {
+        if addr > BIN_SIZE as u64 - 8 {
+            anyhow::bail!("invalid memory address: {:#x}", addr);
+        }
+        Ok(addr as usize)
     }
 
     #[inline]
@@ -265,6 +277,7 @@ pub fn simulate(mut bin: [u8; BIN_SIZE], tty_out: bool) -> anyhow::Result<Standa
             &mut n_insts,
         );
 
+        checked_add_pc(pc, 1)?;
         n_insts += 1;
         let icode = bin[pc] >> 4;
         let ifun = bin[pc] & 0xf;
@@ -357,10 +370,7 @@ pub fn simulate(mut bin: [u8; BIN_SIZE], tty_out: bool) -> anyhow::Result<Standa
                 let rb = ensure_reg(bin[pc + 1] & 0xf)?;
                 let v = get_u64(&bin[(pc + 2)..(pc + 10)]);
 
-                let addr = (reg_file[rb] as i64 + v as i64) as usize;
-                if addr >= BIN_SIZE {
-                    anyhow::bail!("invalid memory address: {:#x}", addr);
-                }
+                let addr = checked_quad(reg_file[rb].wrapping_add(v))?;
                 put_u64(&mut bin[addr..(addr + 8)], reg_file[ra]);
 
                 nex_pc
@@ -374,10 +384,7 @@ pub fn simulate(mut bin: [u8; BIN_SIZE], tty_out: bool) -> anyhow::Result<Standa
                 let rb = ensure_reg(bin[pc + 1] & 0xf)?;
                 let v = get_u64(&bin[(pc + 2)..(pc + 10)]);
 
-                let addr = (reg_file[rb] as i64 + v as i64) as usize;
-                if addr >= BIN_SIZE {
-                    anyhow::bail!("invalid memory address: {:#x}", addr);
-                }
+                let addr = checked_quad(reg_file[rb].wrapping_add(v))?;
                 reg_file[ra] = get_u64(&bin[addr..(addr + 8)]);
 
                 nex_pc
@@ -411,6 +418,7 @@ pub fn simulate(mut bin: [u8; BIN_SIZE], tty_out: bool) -> anyhow::Result<Standa
                 }
             }
             inst_code::CALL => {
+                let nex_pc = checked_add_pc(pc, 9)?;
                 check_ifun_zero(inst_code::CALL, ifun)?;
 
                 let v = get_u64(&bin[(pc + 1)..(pc + 9)]);
@@ -418,10 +426,8 @@ pub fn simulate(mut bin: [u8; BIN_SIZE], tty_out: bool) -> anyhow::Result<Standa
 
                 let rsp = get_rsp(&mut reg_file);
                 *rsp = rsp.checked_sub(8).ok_or(anyhow::anyhow!("rsp overflow"))?;
-                put_u64(
-                    &mut bin[(*rsp as usize)..(*rsp as usize + 8)],
-                    pc as u64 + 9,
-                );
+                let new_rsp = checked_quad(*rsp)?;
+                put_u64(&mut bin[new_rsp..(new_rsp + 8)], nex_pc as u64);
 
                 v as usize
             }
@@ -430,7 +436,8 @@ pub fn simulate(mut bin: [u8; BIN_SIZE], tty_out: bool) -> anyhow::Result<Standa
                 printi!(inst, end);
 
                 let rsp = get_rsp(&mut reg_file);
-                let v = get_u64(&bin[(*rsp as usize)..(*rsp as usize + 8)]);
+                let old_rsp = checked_quad(*rsp)?;
+                let v = get_u64(&bin[old_rsp..(old_rsp + 8)]);
 
                 *rsp = rsp.checked_add(8).ok_or(anyhow::anyhow!("rsp overflow"))?;
 
@@ -446,7 +453,7 @@ pub fn simulate(mut bin: [u8; BIN_SIZE], tty_out: bool) -> anyhow::Result<Standa
 
                 let rsp = get_rsp(&mut reg_file);
                 *rsp = rsp.checked_sub(8).ok_or(anyhow::anyhow!("rsp overflow"))?;
-                let new_rsp = *rsp as usize;
+                let new_rsp = checked_quad(*rsp)?;
                 put_u64(&mut bin[new_rsp..(new_rsp + 8)], va);
 
                 nex_pc
@@ -459,7 +466,7 @@ pub fn simulate(mut bin: [u8; BIN_SIZE], tty_out: bool) -> anyhow::Result<Standa
                 let ra = ensure_reg(bin[pc + 1] >> 4)?;
 
                 let rsp = get_rsp(&mut reg_file);
-                let old_rsp = *rsp as usize;
+                let old_rsp = checked_quad(*rsp)?;
                 *rsp = rsp.checked_add(8).ok_or(anyhow::anyhow!("rsp overflow"))?;
                 reg_file[ra] = get_u64(&bin[old_rsp..(old_rsp + 8)]);
 
-- 
2.43.0


From 136e8cb66054561110b2c9b7fdb7faea8011b387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:22 +0000
Subject: [PATCH 03/15] fix: let the data memory unit accept exactly the
 addresses that fit in memory

The last quadword (address 65528) was rejected, and addr + 8 overflowed for
addresses close to 2^64 (e.g. a push with %rsp = 0), which panicked or passed
the check.
---
 sim/src/architectures/hardware_pipe.rs | 2 +-
 sim/src/architectures/hardware_seq.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sim/src/architectures/hardware_pipe.rs b/sim/src/architectures/hardware_pipe.rs
index 980fc67..f15c735 100644
--- a/sim/src/architectures/hardware_pipe.rs
+++ b/sim/src/architectures/hardware_pipe.rs
@@ -165,7 +165,7 @@ define_units! {
         )
         binary: MemData
     } {
-        if addr + 8 >= MEM_SIZE as u64 {
+        if addr > MEM_SIZE as u64 - 8 {
             *dataout = 0;
             *error = true;
             return
diff --git a/sim/src/architectures/hardware_seq.rs b/sim/src/architectures/hardware_seq.rs
index 47467d6..bb86d16 100644
--- a/sim/src/architectures/hardware_seq.rs
+++ b/sim/src/architectures/hardware_seq.rs
@@ -152,7 +152,7 @@ define_units! {
         )
         binary: MemData
     } {
-        if addr + 8 >= MEM_SIZE as u64 {
+        if addr > MEM_SIZE as u64 - 8 {
             *dataout = 0;
             *error = true;
             return
-- 
2.43.0


From fee3cd2befeca0e8bf0f0b709729e42348494a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:22 +0000
Subject: [PATCH 04/15] fix: instruction fetch outside memory

pc + 10 (and the incremented pc) overflowed for addresses close to 2^64, and
the error output was never reset, so that in the pipeline a single fetch
outside memory on a mispredicted path turned every later fetch into an
address error.
---
 sim/src/architectures/hardware_pipe.rs | 7 ++++---
 sim/src/architectures/hardware_seq.rs  | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/sim/src/architectures/hardware_pipe.rs b/sim/src/architectures/hardware_pipe.rs
index f15c735..7f38b90 100644
--- a/sim/src/architectures/hardware_pipe.rs
+++ b/sim/src/architectures/hardware_pipe.rs
@@ -34,9 +34,10 @@ define_units! {
         binary: MemData
     } {
         let binary: &[u8; MEM_SIZE] = &binary.read();
-        if pc + 10 > MEM_SIZE as u64 {
+        if pc > MEM_SIZE as u64 - 10 {
             *error = true;
         } else {
+            *error = false;
             let pc = pc as usize;
             let icode_ifun = binary[pc];
             *icode = icode_ifun >> 4;
@@ -80,10 +81,10 @@ define_units! {
             new_pc: u64
         )
     } {
-        let mut x = old_pc + 1;
+        let mut x = 1;
         if need_regids { x += 1; }
         if need_valC { x += 8; }
-        *new_pc = x;
+        *new_pc = old_pc.wrapping_add(x);
     }
 
     /// The register file perform two tasks:
diff --git a/sim/src/architectures/hardware_seq.rs b/sim/src/architectures/hardware_seq.rs
index bb86d16..e10a357 100644
--- a/sim/src/architectures/hardware_seq.rs
+++ b/sim/src/architectures/hardware_seq.rs
@@ -31,9 +31,10 @@ define_units! {
         binary: MemData
     } {
         let binary: &[u8; MEM_SIZE] = &binary.read();
-        if pc + 10 > MEM_SIZE as u64 {
+        if pc > MEM_SIZE as u64 - 10 {
             *error = true;
         } else {
+            *error = false;
             let pc = pc as usize;
             let icode_ifun = binary[pc];
             *icode = icode_ifun >> 4;
@@ -77,10 +78,10 @@ define_units! {
             new_pc: u64
         )
     } {
-        let mut x = old_pc + 1;
+        let mut x = 1;
         if need_regids { x += 1; }
         if need_valC { x += 8; }
-        *new_pc = x;
+        *new_pc = old_pc.wrapping_add(x);
     }
 
     RegisterFileRead reg_read {
-- 
2.43.0


From 9e7fb38cfc1ed6b2ad6ce4fd0a4c0f9ebc9e91f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:22 +0000
Subject: [PATCH 05/15] fix: data memory output is 0 when nothing is read, as
 documented

---
 sim/src/architectures/hardware_pipe.rs | 2 ++
 sim/src/architectures/hardware_seq.rs  | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/sim/src/architectures/hardware_pipe.rs b/sim/src/architectures/hardware_pipe.rs
index 7f38b90..6b30dd7 100644
--- a/sim/src/architectures/hardware_pipe.rs
+++ b/sim/src/architectures/hardware_pipe.rs
@@ -179,6 +179,8 @@ define_units! {
             *dataout = 0;
         } else if read {
             *dataout = get_u64(&binary.read()[(addr as usize)..]);
+        } else {
+            *dataout = 0;
         }
     }
 }
diff --git a/sim/src/architectures/hardware_seq.rs b/sim/src/architectures/hardware_seq.rs
index e10a357..fe84904 100644
--- a/sim/src/architectures/hardware_seq.rs
+++ b/sim/src/architectures/hardware_seq.rs
@@ -166,6 +166,8 @@ define_units! {
             *dataout = 0;
         } else if read {
             *dataout = get_u64(&binary.read()[(addr as usize)..]);
+        } else {
+            *dataout = 0;
         }
     }
 }
-- 
2.43.0


From 4bf0f9345ea2fe99012cb84028c101210e394b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:51 +0000
Subject: [PATCH 06/15] fix: propagate signals in the same order in every run

The topological sort iterated over a HashSet, so the order of independent units
differed from run to run; on programs whose units touch the same memory in one
cycle the result depended on it.
---
 sim/src/framework/propagate.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sim/src/framework/propagate.rs b/sim/src/framework/propagate.rs
index 99dc5e1..8f7d7a9 100644
--- a/sim/src/framework/propagate.rs
+++ b/sim/src/framework/propagate.rs
@@ -1,5 +1,5 @@
 use std::{
-    collections::{HashMap, HashSet, VecDeque},
+    collections::{BTreeSet, HashMap, HashSet, VecDeque},
     fmt::{Debug, Write},
     hash::Hash,
 };
@@ -95,7 +95,8 @@ pub struct PropOrderBuilder {
     runnable_nodes_set: HashSet<String>,
     /// Runnable nodes includes units and intermediate signals.
     runnable_nodes: NameList,
-    nodes: HashSet<String>,
+    /// Ordered, so that the propagation order is the same in every run.
+    nodes: BTreeSet<String>,
     edges: Vec<(String, String)>,
 }
 
-- 
2.43.0


From cd11d970664ff60de7aa365aea024c7c3e648532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:38 +0000
Subject: [PATCH 07/15] fix: a minus sign comes before a hexadecimal literal

`-0x10`, which the grammar allows, made the assembler panic because the
sign was looked for at the end.
---
 sim/src/utils.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/sim/src/utils.rs b/sim/src/utils.rs
index 6d90d67..c4899dd 100644
--- a/sim/src/utils.rs
+++ b/sim/src/utils.rs
@@ -14,14 +14,12 @@ pub const B: Style = Style::new().bold();
 /// For decimal number, it should be a valid i64.
 /// For hexadecimal number, it should be prefixed with "0x" and in range of u64.
 pub fn parse_literal(s: &str) -> Option<u64> {
-    let (sign, s) = s.strip_suffix("-").map(|s| (-1, s)).unwrap_or((1, s));
     if let Ok(r) = s.parse::<i64>() {
-        return Some((r * sign) as u64);
+        return Some(r as u64);
     }
-    if let Ok(r) = u64::from_str_radix(s.strip_prefix("0x")?, 16) {
-        return Some((r as i64 * sign) as u64);
-    }
-    None
+    let (neg, s) = s.strip_prefix('-').map(|s| (true, s)).unwrap_or((false, s));
+    let r = u64::from_str_radix(s.strip_prefix("0x")?, 16).ok()?;
+    Some(if neg { r.wrapping_neg() } else { r })
 }
 
 /// Get 64-bit unsigned integer value in little endian order.
-- 
2.43.0


From f62414c021224543b8cc952b1257b5fc14cfc83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:08 +0000
Subject: [PATCH 08/15] fix: report number literals out of range instead of
 panicking

---
 sim/src/asm/mod.rs | 50 +++++++++++++++++++++++++---------------------
 1 file changed, 27 insertions(+), 23 deletions(-)

diff --git a/sim/src/asm/mod.rs b/sim/src/asm/mod.rs
index 099dae2..5ed409c 100644
--- a/sim/src/asm/mod.rs
+++ b/sim/src/asm/mod.rs
@@ -139,19 +139,21 @@ impl OpFn {
 #[derive(Debug, Clone, Copy)]
 pub struct Addr(pub Option<u64>, pub Reg);
 
-impl From<ParseInput<'_>> for Addr {
-    fn from(value: ParseInput<'_>) -> Self {
+impl TryFrom<ParseInput<'_>> for Addr {
+    type Error = anyhow::Error;
+
+    fn try_from(value: ParseInput<'_>) -> Result<Self> {
         let mut it = value.into_iter();
         let num_or_reg = it.next().expect("expect number or register");
         if num_or_reg.as_rule() == Rule::reg {
             // no displacement
             let reg = Reg::from(num_or_reg.pair);
-            Self(None, reg)
+            Ok(Self(None, reg))
         } else {
             let s = num_or_reg.as_str();
-            let num = utils::parse_literal(s).expect("fail to parse number literal") as i64;
+            let num = utils::parse_literal(s).context("fail to parse number literal")? as i64;
             let reg = it.next_reg();
-            Self(Some(num as u64), reg)
+            Ok(Self(Some(num as u64), reg))
         }
     }
 }
@@ -163,15 +165,17 @@ pub enum Imm {
     Label(String),
 }
 
-impl From<ParseInput<'_>> for Imm {
-    fn from(value: ParseInput<'_>) -> Self {
+impl TryFrom<ParseInput<'_>> for Imm {
+    type Error = anyhow::Error;
+
+    fn try_from(value: ParseInput<'_>) -> Result<Self> {
         if value.as_rule() == Rule::label {
-            Self::Label(value.as_str().to_string())
+            Ok(Self::Label(value.as_str().to_string()))
         } else {
             let s = value.as_str();
             let s = s.strip_prefix('$').unwrap_or(s);
-            let num = utils::parse_literal(s).expect("fail to parse number literal") as i64;
-            Self::Num(num)
+            let num = utils::parse_literal(s).context("fail to parse number literal")? as i64;
+            Ok(Self::Num(num))
         }
     }
 }
@@ -297,13 +301,13 @@ impl<'a> ParseInputs<'a> {
     }
 
     /// Parse next token as address
-    fn next_addr(&mut self) -> Addr {
-        Addr::from(self.next().expect("expect address token"))
+    fn next_addr(&mut self) -> Result<Addr> {
+        Addr::try_from(self.next().expect("expect address token"))
     }
 
     /// Parse next token as immediate
-    fn next_imm(&mut self) -> Imm {
-        Imm::from(self.next().expect("expect immediate number token"))
+    fn next_imm(&mut self) -> Result<Imm> {
+        Imm::try_from(self.next().expect("expect immediate number token"))
     }
 }
 
@@ -369,19 +373,19 @@ pub fn assemble(src: &str, option: AssembleOption) -> Result<ObjectExt> {
                     cur_addr += 2
                 }
                 Rule::i_mrmovq => {
-                    let addr = it.next_addr();
+                    let addr = it.next_addr()?;
                     let reg = it.next_reg();
                     src_info.inst = Some(Inst::MRMOVQ(addr, reg));
                     cur_addr += 10
                 }
                 Rule::i_rmmovq => {
                     let reg = it.next_reg();
-                    let addr = it.next_addr();
+                    let addr = it.next_addr()?;
                     src_info.inst = Some(Inst::RMMOVQ(reg, addr));
                     cur_addr += 10
                 }
                 Rule::i_irmovq => {
-                    let imm = it.next_imm();
+                    let imm = it.next_imm()?;
                     let reg = it.next_reg();
                     src_info.inst = Some(Inst::IRMOVQ(reg, imm));
                     cur_addr += 10
@@ -394,7 +398,7 @@ pub fn assemble(src: &str, option: AssembleOption) -> Result<ObjectExt> {
                     cur_addr += 2
                 }
                 Rule::i_iopq => {
-                    let imm = it.next_imm();
+                    let imm = it.next_imm()?;
                     let reg = it.next_reg();
                     let op_fn = OpFn::from_instname(tok2.as_str());
                     src_info.inst = Some(Inst::IOPQ(op_fn, imm, reg));
@@ -402,12 +406,12 @@ pub fn assemble(src: &str, option: AssembleOption) -> Result<ObjectExt> {
                 }
                 Rule::i_jx => {
                     let cond_fn = CondFn::from(it.next_str());
-                    let imm = it.next_imm();
+                    let imm = it.next_imm()?;
                     src_info.inst = Some(Inst::JX(cond_fn, imm));
                     cur_addr += 9
                 }
                 Rule::i_call => {
-                    let imm = it.next_imm();
+                    let imm = it.next_imm()?;
                     src_info.inst = Some(Inst::CALL(imm));
                     cur_addr += 9
                 }
@@ -423,12 +427,12 @@ pub fn assemble(src: &str, option: AssembleOption) -> Result<ObjectExt> {
                 }
                 Rule::d_pos => {
                     let s = it.next_str();
-                    let num = utils::parse_literal(s).expect("fail to parse number literal");
+                    let num = utils::parse_literal(s).context("fail to parse number literal")?;
                     cur_addr = num;
                     src_info.addr = Some(cur_addr) // override
                 }
                 Rule::d_data => {
-                    let imm = it.next_imm();
+                    let imm = it.next_imm()?;
                     if tok2.as_str().starts_with(".quad") {
                         src_info.data = Some((8, imm));
                         cur_addr += 8;
@@ -447,7 +451,7 @@ pub fn assemble(src: &str, option: AssembleOption) -> Result<ObjectExt> {
                 }
                 Rule::d_align => {
                     let s = it.next_str();
-                    let num = utils::parse_literal(s).expect("fail to parse number literal");
+                    let num = utils::parse_literal(s).context("fail to parse number literal")?;
                     anyhow::ensure!(num.count_ones() == 1, "invalid align number");
                     if cur_addr % num > 0 {
                         cur_addr = cur_addr / num * num + num // ceil
-- 
2.43.0


From 1a73eab622368bbf86905c8e87a42b90e0fcbe20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:11 +0000
Subject: [PATCH 09/15] fix: take the operation from the mnemonic, not from a
 label operand

`isubq addq_x, %rax` was assembled as iaddq.
---
 sim/src/asm/mod.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/sim/src/asm/mod.rs b/sim/src/asm/mod.rs
index 5ed409c..c6651ed 100644
--- a/sim/src/asm/mod.rs
+++ b/sim/src/asm/mod.rs
@@ -120,14 +120,16 @@ impl From<&str> for CondFn {
 }
 
 impl OpFn {
+    /// only check prefix
     fn from_instname(value: &str) -> Self {
-        if value.contains("andq") {
+        let value = value.strip_prefix('i').unwrap_or(value);
+        if value.starts_with("andq") {
             Self::AND
-        } else if value.contains("addq") {
+        } else if value.starts_with("addq") {
             Self::ADD
-        } else if value.contains("subq") {
+        } else if value.starts_with("subq") {
             Self::SUB
-        } else if value.contains("xorq") {
+        } else if value.starts_with("xorq") {
             Self::XOR
         } else {
             panic!("invalid")
-- 
2.43.0


From 448f18146cb4e13100b548bbae5522e8ae23c1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:41 +0000
Subject: [PATCH 10/15] fix: report code and data outside memory instead of
 panicking

---
 sim/src/asm/mod.rs | 13 +++++++++++--
 sim/src/object.rs  |  9 +++++++++
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/sim/src/asm/mod.rs b/sim/src/asm/mod.rs
index c6651ed..0aa93b2 100644
--- a/sim/src/asm/mod.rs
+++ b/sim/src/asm/mod.rs
@@ -5,7 +5,7 @@ use pest_derive::Parser;
 
 use crate::{
     isa::{self, reg_code},
-    object::{LineInfo, Object, ObjectExt},
+    object::{LineInfo, Object, ObjectExt, BIN_SIZE},
     utils, SourceInfo,
 };
 
@@ -356,6 +356,12 @@ pub fn assemble(src: &str, option: AssembleOption) -> Result<ObjectExt> {
             verbo!(&pair);
             let tok2 = pair.clone();
             let mut it = pair.into_iter();
+            if !matches!(tok2.as_rule(), Rule::d_pos | Rule::d_align) {
+                anyhow::ensure!(
+                    cur_addr < BIN_SIZE as u64,
+                    "address out of range: {cur_addr:#x}"
+                );
+            }
             match tok2.as_rule() {
                 Rule::label => bail!("unexpected label"),
                 Rule::i_single => {
@@ -456,7 +462,10 @@ pub fn assemble(src: &str, option: AssembleOption) -> Result<ObjectExt> {
                     let num = utils::parse_literal(s).context("fail to parse number literal")?;
                     anyhow::ensure!(num.count_ones() == 1, "invalid align number");
                     if cur_addr % num > 0 {
-                        cur_addr = cur_addr / num * num + num // ceil
+                        // ceil
+                        cur_addr = (cur_addr / num * num)
+                            .checked_add(num)
+                            .context("address out of range")?;
                     }
                     src_info.addr = Some(cur_addr) // override
                 }
diff --git a/sim/src/object.rs b/sim/src/object.rs
index 42c869a..897a628 100644
--- a/sim/src/object.rs
+++ b/sim/src/object.rs
@@ -56,6 +56,15 @@ impl LineInfo {
     pub fn write_object(&self, obj: &mut Object) -> anyhow::Result<()> {
         if let Some(addr) = self.addr {
             let addr = addr as usize;
+            let len = match (&self.inst, &self.data) {
+                (Some(inst), _) => inst.len(),
+                (None, Some((sz, _))) => *sz as usize,
+                (None, None) => 0,
+            };
+            anyhow::ensure!(
+                len == 0 || addr <= BIN_SIZE - len,
+                "address out of range: {addr:#x}"
+            );
             if let Some(inst) = &self.inst {
                 match inst.desymbol(&obj.symbols)? {
                     asm::Inst::HALT => obj.binary[addr] = h2!(inst.icode(), 0),
-- 
2.43.0


From fb53da2cef2751745593d6d26c1dd44fb694d327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:44 +0000
Subject: [PATCH 11/15] fix: report malformed .yo files instead of panicking

---
 sim/src/bin/yis.rs | 4 +++-
 sim/src/utils.rs   | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/sim/src/bin/yis.rs b/sim/src/bin/yis.rs
index 08c569b..03daa3e 100644
--- a/sim/src/bin/yis.rs
+++ b/sim/src/bin/yis.rs
@@ -41,7 +41,9 @@ fn main() -> Result<()> {
                 let value = line[sep + 1..index].trim();
                 if !value.is_empty() {
                     let bytes = utils::decode_hex(value)?;
-                    bin[addr..addr + bytes.len()].copy_from_slice(&bytes);
+                    bin.get_mut(addr..addr.saturating_add(bytes.len()))
+                        .ok_or(anyhow::anyhow!("address out of range: {addr:#x}"))?
+                        .copy_from_slice(&bytes);
                 }
             }
         }
diff --git a/sim/src/utils.rs b/sim/src/utils.rs
index c4899dd..e8526ef 100644
--- a/sim/src/utils.rs
+++ b/sim/src/utils.rs
@@ -41,7 +41,7 @@ pub fn put_u64(binary: &mut [u8], val: u64) {
 pub fn decode_hex(s: &str) -> Result<Vec<u8>, std::num::ParseIntError> {
     (0..s.len())
         .step_by(2)
-        .map(|i| u8::from_str_radix(&s[i..i + 2], 16))
+        .map(|i| u8::from_str_radix(s.get(i..i + 2).unwrap_or_default(), 16))
         .collect()
 }
 
-- 
2.43.0


From 5383559c60d46594d66dcf1e1d8720c0d4775773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:46 +0000
Subject: [PATCH 12/15] fix: report breakpoints on lines that do not exist as
 unverified instead of panicking

---
 debugger/src/server.rs | 10 +++-------
 sim/src/object.rs      |  3 +--
 2 files changed, 4 insertions(+), 9 deletions(-)

diff --git a/debugger/src/server.rs b/debugger/src/server.rs
index d4e3b6c..0c5ed7b 100644
--- a/debugger/src/server.rs
+++ b/debugger/src/server.rs
@@ -196,15 +196,11 @@ impl<R: Read, W: Write> DebugServer<R, W> {
                     .iter()
                     .map(|b| {
                         let verified = true;
-                        let ln = inner
-                            .source_info
-                            .get_line(b.line)
-                            .expect("invalid breakpoint line");
-                        let message = ln.addr.map(|a| format!("addr: {:#x}", a));
-
-                        let Some(addr) = ln.addr else {
+                        let ln = inner.source_info.get_line(b.line);
+                        let Some(addr) = ln.and_then(|ln| ln.addr) else {
                             return types::Breakpoint::default();
                         };
+                        let message = Some(format!("addr: {:#x}", addr));
 
                         types::Breakpoint {
                             // we use the address as the id
diff --git a/sim/src/object.rs b/sim/src/object.rs
index 897a628..9cb3883 100644
--- a/sim/src/object.rs
+++ b/sim/src/object.rs
@@ -186,8 +186,7 @@ impl From<Vec<LineInfo>> for SourceInfo {
 impl SourceInfo {
     /// Get the line info by line number (start from 1)
     pub fn get_line(&self, line: i64) -> Option<&LineInfo> {
-        assert!(line > 0);
-        self.0.get(line as usize - 1)
+        self.0.get(usize::try_from(line).ok()?.checked_sub(1)?)
     }
 
     pub fn get_line_number_by_addr(&self, addr: u64) -> Option<i64> {
-- 
2.43.0


From 5939d0c439e7840ad6c697b21390047e6a2dd142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:46 +0000
Subject: [PATCH 13/15] fix: stop at breakpoints on an instruction behind a
 label line

---
 debugger/src/server.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/debugger/src/server.rs b/debugger/src/server.rs
index 0c5ed7b..1a0fdc1 100644
--- a/debugger/src/server.rs
+++ b/debugger/src/server.rs
@@ -479,9 +479,8 @@ impl<R: Read, W: Write> DebugServer<R, W> {
                 let Some(bp_ln) = bp.line else { return false };
                 inner
                     .source_info
-                    .get_line_number_by_addr(pc)
-                    .map(|ln| ln == bp_ln)
-                    .unwrap_or(false)
+                    .get_line(bp_ln)
+                    .is_some_and(|ln| ln.addr == Some(pc))
             }) {
                 let bp_id = bp.id.ok_or(anyhow::anyhow!("breakpoint id not set"))?;
                 tracing::trace!("hit breakpoint: line = {:?}", bp.line);
-- 
2.43.0


From 237e1ffa8aa6863f19f7b9f91a8bd2cc1529fefd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:46 +0000
Subject: [PATCH 14/15] fix: name the source file of the register scope of the
 debugger

---
 debugger/src/server.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/debugger/src/server.rs b/debugger/src/server.rs
index 1a0fdc1..68cc4e5 100644
--- a/debugger/src/server.rs
+++ b/debugger/src/server.rs
@@ -123,7 +123,7 @@ impl<R: Read, W: Write> DebugServer<R, W> {
                 presentation_hint: Some(types::ScopePresentationhint::Registers),
                 variables_reference: REG_SCOPE_VAR_REF,
                 expensive: false,
-                source: Some(self.main_source()),
+                source: Some(main_source),
                 ..Default::default()
             },
         );
-- 
2.43.0


From 494c2728a917ae25342122f25014e40642496cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:31 +0000
Subject: [PATCH 15/15] fix: refuse every invalid variables reference instead
 of overflowing

---
 debugger/src/server.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/debugger/src/server.rs b/debugger/src/server.rs
index 68cc4e5..5954cc5 100644
--- a/debugger/src/server.rs
+++ b/debugger/src/server.rs
@@ -315,7 +315,7 @@ impl<R: Read, W: Write> DebugServer<R, W> {
                         .collect()
                 } else {
                     // scopes of each stage
-                    let index = args.variables_reference - 2;
+                    let index = args.variables_reference.saturating_sub(2);
                     if index < 0 {
                         bail!("invalid variables reference {index}");
                     }
-- 
2.43.0

