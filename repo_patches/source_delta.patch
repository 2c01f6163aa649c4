From 73657136a8b91cb71a66506b3532a1a9171ba9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:58 +0000
Subject: [PATCH 01/36] fix: decode the J1 and J2 bits of B (encoding T3) in
 the right order

The offset of the conditional, wide branch is SignExtend(S:J2:J1:imm6:imm11:0).
With J1 and J2 swapped, tail calls further than 256 KiB away were reported
against the wrong address.
---
 src/thumb.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/thumb.rs b/src/thumb.rs
index 573cc4b..da52cfe 100644
--- a/src/thumb.rs
+++ b/src/thumb.rs
@@ -467,9 +467,10 @@ pub fn analyze(
                 let j1 = second[1] & (1 << 5) != 0;
                 let j2 = second[1] & (1 << 3) != 0;
                 let imm11 = (i32::from(second[1] & 0b111) << 8) | second[0] as i32;
+                // NOTE unlike in the T4 encoding, J2 comes before J1 here
                 let imm21 = (if s { 1 } else { 0 } << 20)
-                    | (if j1 { 1 } else { 0 } << 19)
-                    | (if j2 { 1 } else { 0 } << 18)
+                    | (if j2 { 1 } else { 0 } << 19)
+                    | (if j1 { 1 } else { 0 } << 18)
                     | (imm6 << 12)
                     | (imm11 << 1);
 
-- 
2.43.0


From 5fbafa129eb3156c7c2cc47397eb5a86a08554e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:58 +0000
Subject: [PATCH 02/36] fix: recognise BKPT as a 16-bit instruction

The pattern was off by one bit, so BKPT was taken for the first half of a
32-bit instruction and the instruction after it was not analyzed. When that was
the first half of a BL the call was lost.
---
 src/thumb.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/thumb.rs b/src/thumb.rs
index da52cfe..15bf1e9 100644
--- a/src/thumb.rs
+++ b/src/thumb.rs
@@ -168,7 +168,7 @@ pub fn analyze(
         } else if matches(first, "0b010000_1110_xxx_xxx") {
             // A7.7.16  BIC (register) - T1
             continue;
-        } else if matches(first, "0b1010_1110_xxxxxxxx") {
+        } else if matches(first, "0b1011_1110_xxxxxxxx") {
             // A7.7.17  BKPT - T1
             continue;
         } else if matches(first, "0b010001_11_1_xxxx_000") {
-- 
2.43.0


From a0ae5b0e2b0516d1cac4985618c1be1f31f73f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:59 +0000
Subject: [PATCH 03/36] fix: account for more instructions that modify the
 stack pointer

SUB (SP minus immediate) T3 and STRD with write-back move SP by a known amount;
`add sp, rN`, `mov sp, rN`, `sub.w sp, sp, rN` and `ldr sp, [..]` leave it
at an unknown value. None of these was noticed, so functions without LLVM stack
usage information that use them were reported as having a smaller, exact stack
usage and functions with a big frame (thumbv6m) were rejected.
---
 src/main.rs  | 26 ++++++++++++++-------
 src/thumb.rs | 66 +++++++++++++++++++++++++++++++++++++++++++++++++---
 2 files changed, 81 insertions(+), 11 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 36c34a0..4481460 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -879,14 +879,24 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
                         }
                     }
 
-                    assert_eq!(
-                        *llvm_stack != 0,
-                        modifies_sp,
-                        "BUG: LLVM reported that `{}` uses {} bytes of stack but this doesn't \
-                         match our analysis",
-                        canonical_name,
-                        *llvm_stack
-                    );
+                    if our_stack.is_none()
+                        && *llvm_stack == 0
+                        && modifies_sp
+                        && (fns_containing_asm.contains(&canonical_name)
+                            || is_outlined_function(canonical_name))
+                    {
+                        // LLVM's result is wrong and we couldn't compute the right value
+                        g[caller].local = Local::Unknown;
+                    } else {
+                        assert_eq!(
+                            *llvm_stack != 0,
+                            modifies_sp,
+                            "BUG: LLVM reported that `{}` uses {} bytes of stack but this doesn't \
+                             match our analysis",
+                            canonical_name,
+                            *llvm_stack
+                        );
+                    }
                 } else if let Some(stack) = our_stack {
                     g[caller].local = Local::Exact(stack);
                 } else if !modifies_sp {
diff --git a/src/thumb.rs b/src/thumb.rs
index 15bf1e9..54a7169 100644
--- a/src/thumb.rs
+++ b/src/thumb.rs
@@ -92,6 +92,19 @@ pub fn analyze(
             continue;
         } else if matches(first, "0b000_11_0_0_xxx_xxx_xxx") {
             // A7.7.4 ADD (register) - T1
+            continue;
+        } else if matches(first, "0b01000100_1_xxxx_101")
+            || matches(first, "0b010001_10_1_xxxx_101")
+        {
+            // NOTE we break the alphabetical order because these overlap with the rules for
+            // `ADD (register)` and `MOV (register)`
+            // A7.7.6  ADD (SP plus register) - T2
+            // A7.7.76  MOV (register) - T1
+            // e.g. '4685            mov     sp, r0'
+            // the new value of SP is not known
+            modifies_sp = true;
+            stack = None;
+
             continue;
         } else if matches(first, "0b010001_00_x_xxxx_xxx") {
             // A7.7.4 ADD (register) - T2
@@ -105,9 +118,6 @@ pub fn analyze(
         } else if matches(first, "0b01000100_x_1101_xxx") {
             // A7.7.6  ADD (SP plus register) - T1
             continue;
-        } else if matches(first, "0b01000100_1_xxxx_101") {
-            // A7.7.6  ADD (SP plus register) - T2
-            continue;
         } else if matches(first, "0b1010_0_xxx_xxxxxxxx") {
             // A7.7.7  ADR - T1
             continue;
@@ -424,6 +434,56 @@ pub fn analyze(
                         *stack += u64::from(imm32);
                     }
                 }
+            } else if v7
+                && matches(first, "0b11110_x_1_0101_0_1101")
+                && matches(second, "0b0_xxx_1101_xxxxxxxx")
+            {
+                // A7.7.173      SUB (SP minus immediate) - T3
+                // e.g. 'f6ad 7d04       subw    sp, sp, #3844'
+                modifies_sp = true;
+
+                let imm8 = second[0];
+                let imm3 = (second[1] >> 4) & 0b0111;
+                let i = (first[1] >> 2) & 1;
+                let imm12 = (u16::from(i) << 11) | (u16::from(imm3) << 8) | u16::from(imm8);
+
+                if let Some(stack) = stack.as_mut() {
+                    *stack += u64::from(imm12);
+                }
+            } else if v7 && matches(first, "0b1110_100x_0110_1101") {
+                // A7.7.163      STRD (immediate) - T1
+                // (writeback, post/pre-index, subtract immediate)
+                // e.g. 'e96d 4504       strd    r4, r5, [sp, #-16]!'
+                modifies_sp = true;
+
+                let imm32 = u32::from(second[0]) << 2;
+
+                if let Some(stack) = stack.as_mut() {
+                    *stack += u64::from(imm32);
+                }
+            } else if v7
+                && (matches(first, "0b11101_01_1101_x_1101")
+                    || matches(first, "0b11101_01_1000_x_1101")
+                    || matches(first, "0b11101_01_0010_x_1111"))
+                && matches(second, "0b0_xxx_1101_xx_xx_xxxx")
+            {
+                // A7.7.174      SUB (SP minus register) - T1
+                // A7.7.6        ADD (SP plus register) - T3
+                // A7.7.76       MOV (register) - T3
+                // the new value of SP is not known
+                modifies_sp = true;
+                stack = None;
+            } else if v7
+                && matches(first, "0b11111_00_0_x_10_1_xxxx")
+                && matches(second, "0b1101_xxxxxxxxxxxx")
+            {
+                // A7.7.42      LDR (immediate) - T3 & T4
+                // A7.7.43      LDR (literal) - T2
+                // A7.7.44      LDR (register) - T2
+                // e.g. 'f8d0 d000       ldr.w   sp, [r0]'
+                // the new value of SP is not known
+                modifies_sp = true;
+                stack = None;
             } else if v7
                 && matches(first, "0b1110_110_1_0_x_1_0_1101")
                 && matches(second, "0bxxxx_1011_xxxxxxxx")
-- 
2.43.0


From 0b7932595e4b2cb939cf367b43ab2404b256b456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:21 +0000
Subject: [PATCH 04/36] fix: make llvm.memmove call memmove

It was treated like llvm.memset. Also look the library functions up by any of
their aliases and include the variants for 8-byte aligned buffers.
---
 src/main.rs | 92 +++++++++++++++++++++++++----------------------------
 1 file changed, 44 insertions(+), 48 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 4481460..d114665 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -614,13 +614,6 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
                         continue;
                     }
 
-                    let mut call = |callee| {
-                        if !callees_seen.contains(&callee) {
-                            g.add_edge(caller, callee, ());
-                            callees_seen.insert(callee);
-                        }
-                    };
-
                     if target_.is_thumb() && func.starts_with("llvm.") {
                         // we'll analyze the machine code in the ELF file to figure out what these
                         // lower to
@@ -629,49 +622,52 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
 
                     // TODO? consider alignment and `value` argument to only include one edge
                     // TODO? consider the `len` argument to elide the call to `*mem*`
-                    if func.starts_with("llvm.memcpy.") {
-                        if let Some(callee) = indices.get("memcpy") {
-                            call(*callee);
-                        }
-
-                        // ARMv7-R and the like use these
-                        if let Some(callee) = indices.get("__aeabi_memcpy") {
-                            call(*callee);
-                        }
-
-                        if let Some(callee) = indices.get("__aeabi_memcpy4") {
-                            call(*callee);
-                        }
-
-                        continue;
-                    }
-
-                    // TODO? consider alignment and `value` argument to only include one edge
-                    // TODO? consider the `len` argument to elide the call to `*mem*`
-                    if func.starts_with("llvm.memset.") || func.starts_with("llvm.memmove.") {
-                        if let Some(callee) = indices.get("memset") {
-                            call(*callee);
-                        }
-
-                        // ARMv7-R and the like use these
-                        if let Some(callee) = indices.get("__aeabi_memset") {
-                            call(*callee);
-                        }
-
-                        if let Some(callee) = indices.get("__aeabi_memset4") {
-                            call(*callee);
-                        }
-
-                        if let Some(callee) = indices.get("memclr") {
-                            call(*callee);
-                        }
+                    // NOTE ARMv7-R and the like use the `__aeabi_*` variants
+                    let library_functions: &[&str] = if func.starts_with("llvm.memcpy.") {
+                        &[
+                            "memcpy",
+                            "__aeabi_memcpy",
+                            "__aeabi_memcpy4",
+                            "__aeabi_memcpy8",
+                        ]
+                    } else if func.starts_with("llvm.memmove.") {
+                        &[
+                            "memmove",
+                            "__aeabi_memmove",
+                            "__aeabi_memmove4",
+                            "__aeabi_memmove8",
+                        ]
+                    } else if func.starts_with("llvm.memset.") {
+                        &[
+                            "memset",
+                            "__aeabi_memset",
+                            "__aeabi_memset4",
+                            "__aeabi_memset8",
+                            "memclr",
+                            "__aeabi_memclr",
+                            "__aeabi_memclr4",
+                            "__aeabi_memclr8",
+                        ]
+                    } else {
+                        &[]
+                    };
 
-                        if let Some(callee) = indices.get("__aeabi_memclr") {
-                            call(*callee);
-                        }
+                    if !library_functions.is_empty() {
+                        for name in library_functions {
+                            let callee = if let Some(canonical_name) = aliases.get(name) {
+                                indices[*canonical_name]
+                            } else if symbols.undefined.contains(name) {
+                                *indices
+                                    .entry((*name).into())
+                                    .or_insert_with(|| g.add_node(Node(*name, None, false)))
+                            } else {
+                                // not linked in; not called
+                                continue;
+                            };
 
-                        if let Some(callee) = indices.get("__aeabi_memclr4") {
-                            call(*callee);
+                            if callees_seen.insert(callee) {
+                                g.add_edge(caller, callee, ());
+                            }
                         }
 
                         continue;
-- 
2.43.0


From f416343de153db9e48f419b0d3889d82eba1dc07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:01 +0000
Subject: [PATCH 05/36] fix: don't drop calls to memcmp when the symbol is an
 alias or undefined

---
 src/main.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index d114665..6762711 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -715,7 +715,10 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
                     // if the intrinsic has no corresponding node (symbol in the output ELF) assume
                     // that it has been lowered to machine code
                     const SYMBOLLESS_INTRINSICS: &[&str] = &["memcmp"];
-                    if SYMBOLLESS_INTRINSICS.contains(func) && !indices.contains_key(*func) {
+                    if SYMBOLLESS_INTRINSICS.contains(func)
+                        && !aliases.contains_key(func)
+                        && !symbols.undefined.contains(func)
+                    {
                         continue;
                     }
 
-- 
2.43.0


From 4afac8a9eee18f0b080f9658905456983fbe8cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:03 +0000
Subject: [PATCH 06/36] fix: let --target override the target set in
 .cargo/config

That's what Cargo does, so the analysis was done as if the program had been
compiled for a different target than the one it was really compiled for.
---
 src/main.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 6762711..4f5b9df 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -140,7 +140,7 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
     let cwd = env::current_dir()?;
     let project = Project::query(cwd)?;
     let target_flag = args.target.as_deref();
-    let target = project.target().or(target_flag).unwrap_or(&host);
+    let target = target_flag.or(project.target()).unwrap_or(&host);
 
     let mut is_no_std = false;
     {
@@ -350,7 +350,7 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
         }
     }
 
-    let target = project.target().or(target_flag).unwrap_or(&host);
+    let target = target_flag.or(project.target()).unwrap_or(&host);
 
     // we know how to analyze the machine code in the ELF file for these targets thus we have more
     // information and need less LLVM-IR hacks
-- 
2.43.0


From b22b17af33ced338ed58023379d5fdf3628b879d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:05 +0000
Subject: [PATCH 07/36] fix: don't drop indirect calls that match no known
 function

The callee (e.g. a function at a fixed address) is unknown, so the maximum stack
usage of the caller is not exact.
---
 src/main.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 4f5b9df..9e1fa2e 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -749,12 +749,21 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
                 }
 
                 Stmt::IndirectCall(sig) => {
+                    let mut has_match = false;
                     for (key_sig, indirect) in &mut indirects {
                         if key_sig.loosely_equal(sig) {
+                            has_match = true;
                             indirect.called = true;
                             indirect.callers.insert(caller);
                         }
                     }
+
+                    if !has_match {
+                        // no known function has this signature; keep track of the call though
+                        let indirect = indirects.entry(sig.clone()).or_default();
+                        indirect.called = true;
+                        indirect.callers.insert(caller);
+                    }
                 }
 
                 Stmt::Label | Stmt::Comment | Stmt::Other => {}
@@ -1058,14 +1067,14 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
             g.add_edge(*caller, call, ());
         }
 
-        if has_untyped_symbols {
+        if callees.is_empty() {
+            error!("BUG? no callees for `{}`", name);
+        }
+
+        if has_untyped_symbols || callees.is_empty() {
             // add an edge between this and a potential extern / untyped symbol
             let extern_sym = g.add_node(Node("?", None, false));
             g.add_edge(call, extern_sym, ());
-        } else {
-            if callees.is_empty() {
-                error!("BUG? no callees for `{}`", name);
-            }
         }
 
         for callee in callees {
-- 
2.43.0


From a773f5643ab90adefd0df52db48e96f40c4e42d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:31 +0000
Subject: [PATCH 08/36] fix: analyze functions that are not in the .text
 section

They were looked up in .text, at an offset that's out of bounds.
---
 src/main.rs | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 9e1fa2e..60cf9dc 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -28,7 +28,11 @@ use petgraph::{
     Direction, Graph,
 };
 use walkdir::WalkDir;
-use xmas_elf::{sections::SectionData, symbol_table::Entry, ElfFile};
+use xmas_elf::{
+    sections::{SectionData, ShType},
+    symbol_table::Entry,
+    ElfFile,
+};
 
 use crate::{
     ir::{FnSig, Item, Stmt, Type},
@@ -799,10 +803,15 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
 
         tags.sort_by(|a, b| a.0.cmp(&b.0));
 
-        if let Some(sect) = elf.find_section_by_name(".text") {
-            let stext = sect.address() as u32;
-            let text = sect.raw_data(&elf);
+        // functions may be placed in sections other than `.text` (e.g. `.init`, `.data`)
+        const SHF_ALLOC: u64 = 0x2;
+        let sections: Vec<_> = elf
+            .section_iter()
+            .filter(|sect| sect.flags() & SHF_ALLOC != 0 && sect.get_type() == Ok(ShType::ProgBits))
+            .map(|sect| (sect.address() as u32, sect.raw_data(&elf)))
+            .collect();
 
+        if !sections.is_empty() {
             for (address, sym) in &symbols.defined {
                 let address = *address as u32;
                 let canonical_name = aliases[&sym.names()[0]];
@@ -822,6 +831,16 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
                     }
                 }
 
+                let (stext, text) = match sections.iter().find(|(start, bytes)| {
+                    address >= *start && ((address - start) as usize) < bytes.len()
+                }) {
+                    Some(section) => *section,
+                    None => {
+                        warn!("no machine code available for `{}`", canonical_name);
+                        continue;
+                    }
+                };
+
                 let start = (address - stext) as usize;
                 let end = start + size as usize;
                 let (bls, bs, indirect, modifies_sp, our_stack) = thumb::analyze(
@@ -966,7 +985,7 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
                 }
             }
         } else {
-            error!(".text section not found")
+            error!("no section contains machine code")
         }
     }
 
-- 
2.43.0


From 51950afe07b6d9d00ab9e376322ca72bfbf2be8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:51 +0000
Subject: [PATCH 09/36] fix: don't panic when a data tag is followed by another
 data tag

This is the case when the last function in the text section ends with a constant
pool and it's followed by a section that contains data.
---
 src/thumb.rs | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/thumb.rs b/src/thumb.rs
index 54a7169..a9d3998 100644
--- a/src/thumb.rs
+++ b/src/thumb.rs
@@ -56,14 +56,9 @@ pub fn analyze(
             if tags[needle].1 == Tag::Data {
                 // start of a data section
 
-                if let Some(tag) = tags.get(needle + 1) {
-                    assert_eq!(
-                        tag.1,
-                        Tag::Thumb,
-                        "BUG: expected a thumb tag at {:#10x} but found another data tag",
-                        tag.0
-                    );
-
+                // NOTE the next tag can be another data tag: e.g. both the constants at the end of
+                // this function and the contents of the next section are data
+                if let Some(tag) = tags[needle + 1..].iter().find(|tag| tag.1 == Tag::Thumb) {
                     // skip the data section
                     let end = tag.0;
                     // NOTE the range starts at 1 because we'll skip `first` using the `continue`
-- 
2.43.0


From f4b7eb0b54855b47bc544081118cdbf6352faf18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:53 +0000
Subject: [PATCH 10/36] fix: find out the size of hand written functions that
 lack size information

Functions that end with a constant pool, and all but the last of the functions
that are not separated by a mapping symbol, were taken to be empty.
---
 src/main.rs | 36 ++++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 60cf9dc..fa7d1f7 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -817,20 +817,6 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
                 let canonical_name = aliases[&sym.names()[0]];
                 let mut size = sym.size() as u32;
 
-                if size == 0 {
-                    // try harder at finding out the size of this symbol
-                    if let Ok(needle) = tags.binary_search_by(|tag| tag.0.cmp(&address)) {
-                        let start = tags[needle];
-                        if start.1 == Tag::Thumb {
-                            if let Some(end) = tags.get(needle + 1) {
-                                if end.1 == Tag::Thumb {
-                                    size = end.0 - start.0;
-                                }
-                            }
-                        }
-                    }
-                }
-
                 let (stext, text) = match sections.iter().find(|(start, bytes)| {
                     address >= *start && ((address - start) as usize) < bytes.len()
                 }) {
@@ -842,6 +828,28 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
                 };
 
                 let start = (address - stext) as usize;
+
+                if size == 0 {
+                    // try harder at finding out the size of this symbol: it extends up to the next
+                    // function or up to the end of the section
+                    let mut end = symbols
+                        .defined
+                        .keys()
+                        .map(|next| *next as u32)
+                        .filter(|next| *next > address)
+                        .min()
+                        .map_or(text.len(), |next| {
+                            cmp::min((next - stext) as usize, text.len())
+                        });
+
+                    // exclude the padding that the linker (LLD) inserts between functions
+                    while end > start && text[start..end].ends_with(&[0xd4, 0xd4]) {
+                        end -= 2;
+                    }
+
+                    size = (end - start) as u32;
+                }
+
                 let end = start + size as usize;
                 let (bls, bs, indirect, modifies_sp, our_stack) = thumb::analyze(
                     &text[start..end],
-- 
2.43.0


From 5ca1fa975a93f423b7bfe014e097fbe54ccf98cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:11 +0000
Subject: [PATCH 11/36] fix: don't mix up functions that have the same symbol
 name

Object files can contain local symbols with the same name, e.g. the functions
produced by LLVM's outliner. The machine code analysis now identifies functions
by their address.
---
 src/main.rs | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index fa7d1f7..4573ce8 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -460,7 +460,8 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
     // add all real nodes
     let mut has_stack_usage_info = false;
     let mut has_untyped_symbols = false;
-    let mut addr2name = BTreeMap::new();
+    // NOTE symbol names are not unique: object files can contain local symbols with the same name
+    let mut addr2idx = BTreeMap::new();
     for (address, sym) in &symbols.defined {
         let names = sym.names();
         // filter out tags
@@ -495,9 +496,6 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
             aliases.insert(name, canonical_name);
         }
 
-        let _out = addr2name.insert(address, canonical_name);
-        debug_assert!(_out.is_none());
-
         let stack = stack_sizes.get(canonical_name).cloned();
         if stack.is_none() {
             if !target_.is_thumb() {
@@ -514,6 +512,8 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
 
         let idx = g.add_node(Node(canonical_name, stack, false));
         indices.insert(canonical_name.into(), idx);
+        let _out = addr2idx.insert(*address, idx);
+        debug_assert!(_out.is_none());
 
         if let Some(def) = names.iter().filter_map(|name| defines.get(name)).next() {
             // if the signature is `fn(&_, &mut fmt::Formatter) -> fmt::Result`
@@ -813,6 +813,7 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
 
         if !sections.is_empty() {
             for (address, sym) in &symbols.defined {
+                let caller = addr2idx[address];
                 let address = *address as u32;
                 let canonical_name = aliases[&sym.names()[0]];
                 let mut size = sym.size() as u32;
@@ -857,7 +858,6 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
                     target_ == Target::Thumbv7m,
                     &tags,
                 );
-                let caller = indices[canonical_name];
 
                 // sanity check
                 if let Some(stack) = our_stack {
@@ -962,11 +962,10 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
                 for offset in bls {
                     let addr = (address as i64 + i64::from(offset)) as u64;
                     // address may be off by one due to the thumb bit being set
-                    let name = addr2name
+                    let callee = *addr2idx
                         .get(&addr)
                         .unwrap_or_else(|| panic!("BUG? no symbol at address {}", addr));
 
-                    let callee = indices[*name];
                     if !callees_seen.contains(&callee) {
                         g.add_edge(caller, callee, ());
                         callees_seen.insert(callee);
@@ -980,11 +979,10 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
                         // intra-function B branches are not function calls
                     } else {
                         // address may be off by one due to the thumb bit being set
-                        let name = addr2name
+                        let callee = *addr2idx
                             .get(&(addr as u64))
                             .unwrap_or_else(|| panic!("BUG? no symbol at address {}", addr));
 
-                        let callee = indices[*name];
                         if !callees_seen.contains(&callee) {
                             g.add_edge(caller, callee, ());
                             callees_seen.insert(callee);
-- 
2.43.0


From edc0519e81d4cd539f654586d198649a81453712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:26 +0000
Subject: [PATCH 12/36] fix: look the start point up in the names of all
 functions

Names that are an alias of another one were not found, and `foo` also matched
e.g. `foo::helper` because only the leading `::h` of the hash was checked.
---
 src/main.rs | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 4573ce8..b74abed 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -1110,27 +1110,25 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
     // filter the call graph
     if let Some(start) = &args.start {
         let start: &str = start;
-        let start = indices.get(start).cloned().or_else(|| {
-            let start_ = start.to_owned() + "::h";
-            let hits = indices
-                .keys()
-                .filter_map(|key| {
-                    if rustc_demangle::demangle(key)
-                        .to_string()
-                        .starts_with(&start_)
-                    {
-                        Some(key)
+        let exact = aliases.get(start).copied().unwrap_or(start);
+        let start = indices.get(exact).cloned().or_else(|| {
+            // NOTE several of these names can refer to the same function
+            let hits = aliases
+                .iter()
+                .filter_map(|(name, canonical_name)| {
+                    if dehash(&rustc_demangle::demangle(name).to_string()) == Some(start) {
+                        Some(*canonical_name)
                     } else {
                         None
                     }
                 })
-                .collect::<Vec<_>>();
+                .collect::<HashSet<_>>();
 
             if hits.len() > 1 {
                 error!("multiple matches for `{}`: {:?}", start, hits);
                 None
             } else {
-                hits.first().map(|key| indices[*key])
+                hits.iter().next().map(|name| indices[*name])
             }
         });
 
-- 
2.43.0


From 79dff46c617ed5ed2fbbce10383ef02d3abd9984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:43 +0000
Subject: [PATCH 13/36] fix: only remove hashes from symbol names

A path segment of the right length that starts with `h` was taken for a hash,
and undefined symbols that have a hash made the tool panic.
---
 src/main.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index b74abed..d81d7a0 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -1260,7 +1260,8 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
         let demangled = rustc_demangle::demangle(&node.name).to_string();
 
         if let Some(dehashed) = dehash(&demangled) {
-            if ambiguous[dehashed] == 1 {
+            // NOTE undefined symbols are not in this map
+            if ambiguous.get(dehashed) == Some(&1) {
                 node.name = Cow::Owned(dehashed.to_owned());
             }
         }
@@ -1542,7 +1543,7 @@ fn dehash(demangled: &str) -> Option<&str> {
     if len > HASH_LENGTH {
         if demangled
             .get(len - HASH_LENGTH..)
-            .map(|hash| hash.starts_with("::h"))
+            .map(|hash| hash.starts_with("::h") && hash[3..].chars().all(|c| c.is_ascii_hexdigit()))
             .unwrap_or(false)
         {
             Some(&demangled[..len - HASH_LENGTH])
-- 
2.43.0


From 07550a850d14c2f21d02531d8ac817fa465cf0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:45 +0000
Subject: [PATCH 14/36] fix: prefer the application's functions over
 compiler_builtins'

When the application defines e.g. its own memcpy that is the one that's linked
but the stack usage and the callees of the other one were reported.
---
 src/main.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index d81d7a0..037c113 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -342,12 +342,14 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
     let mut declares = HashMap::new();
     for item in items.into_iter().chain(compiler_builtins_items) {
         match item {
+            // NOTE if the application defines a symbol that's also in `compiler_builtins` then the
+            // linker picks the application's; `items` come first
             Item::Define(def) => {
-                defines.insert(def.name, def);
+                defines.entry(def.name).or_insert(def);
             }
 
             Item::Declare(decl) => {
-                declares.insert(decl.name, decl);
+                declares.entry(decl.name).or_insert(decl);
             }
 
             _ => {}
@@ -387,11 +389,10 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
         {
             buf.clear();
             entry.read_to_end(&mut buf)?;
-            stack_sizes.extend(
-                stack_sizes::analyze_object(&buf)?
-                    .into_iter()
-                    .map(|(name, stack)| (name.to_owned(), stack)),
-            );
+            for (name, stack) in stack_sizes::analyze_object(&buf)? {
+                // NOTE same as above: the application's symbols take precedence
+                stack_sizes.entry(name.to_owned()).or_insert(stack);
+            }
         }
     }
 
-- 
2.43.0


From 51c4ee97a83eaa01731204ba773d617e8c8567c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:17 +0000
Subject: [PATCH 15/36] fix: consider the signatures of all the aliases of a
 function

When functions with different signatures are merged into one, indirect calls
were only linked to it if they matched the signature of the first one.
---
 src/main.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 037c113..1598680 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -516,7 +516,11 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
         let _out = addr2idx.insert(*address, idx);
         debug_assert!(_out.is_none());
 
-        if let Some(def) = names.iter().filter_map(|name| defines.get(name)).next() {
+        // NOTE the aliases of a function can have different signatures
+        let mut is_typed = false;
+        for def in names.iter().filter_map(|name| defines.get(name)) {
+            is_typed = true;
+
             // if the signature is `fn(&_, &mut fmt::Formatter) -> fmt::Result`
             match (&def.sig.inputs[..], def.sig.output.as_ref()) {
                 ([Type::Pointer(..), Type::Pointer(fmt)], Some(output))
@@ -534,13 +538,17 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
                 .or_default()
                 .callees
                 .insert(idx);
-        } else if let Some(sig) = names
+        }
+
+        for sig in names
             .iter()
             .filter_map(|name| declares.get(name).and_then(|decl| decl.sig.clone()))
-            .next()
         {
+            is_typed = true;
             indirects.entry(sig).or_default().callees.insert(idx);
-        } else if !is_outlined_function(canonical_name) {
+        }
+
+        if !is_typed && !is_outlined_function(canonical_name) {
             // ^ functions produced by LLVM's function outliner are never called through function
             // pointers (as of LLVM 14.0.6)
             has_untyped_symbols = true;
-- 
2.43.0


From 82c7a85b988b761ee7becb108ee895c5fd26d33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:19 +0000
Subject: [PATCH 16/36] fix: don't silently skip invoke statements that can't
 be parsed

Treat them like call statements.
---
 src/ir/define.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ir/define.rs b/src/ir/define.rs
index c943530..7377b4a 100644
--- a/src/ir/define.rs
+++ b/src/ir/define.rs
@@ -266,7 +266,7 @@ fn other(i: &str) -> IResult<&str, Stmt> {
     let i = separated_list1(
         space1,
         map_res(is_not(" \t\r\n"), |i| {
-            if i == "call" {
+            if i == "call" || i == "invoke" {
                 Err(())
             } else {
                 Ok(())
-- 
2.43.0


From 96ead76a88eb077690fe988ef3dee97a63457351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:20 +0000
Subject: [PATCH 17/36] fix: recognise writes to PC as indirect branches

`mov pc, rN` and `ldr pc, [..]` are used by hand written functions to branch to
functions that are not known.
---
 src/thumb.rs | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/thumb.rs b/src/thumb.rs
index a9d3998..cb4cfe3 100644
--- a/src/thumb.rs
+++ b/src/thumb.rs
@@ -259,6 +259,15 @@ pub fn analyze(
         } else if matches(first, "0b001_00_xxx_xxxxxxxx") {
             // A7.7.75  MOV (immediate) - T1
             continue;
+        } else if matches(first, "0b010001_10_1_xxxx_111") {
+            // A7.7.76  MOV (register) - T1
+            // e.g. '4687            mov     pc, r0'
+            let rm = (first[0] >> 3) & 0b1111;
+
+            // `mov pc, lr` is just a `return`
+            if rm != 0b1110 {
+                indirect = true;
+            }
         } else if matches(first, "0b010001_10_x_xxxx_xxx") {
             // A7.7.76  MOV (register) - T1
             continue;
@@ -468,6 +477,20 @@ pub fn analyze(
                 // the new value of SP is not known
                 modifies_sp = true;
                 stack = None;
+            } else if v7
+                && matches(first, "0b11111_00_0_x_10_1_xxxx")
+                && matches(second, "0b1111_xxxxxxxxxxxx")
+            {
+                // A7.7.42      LDR (immediate) - T3 & T4
+                // A7.7.43      LDR (literal) - T2
+                // A7.7.44      LDR (register) - T2
+                // e.g. 'f8df f004       ldr.w   pc, [pc, #4]'
+                let rn = first[0] & 0b1111;
+
+                // `ldr pc, [sp], #4`, i.e. `pop {pc}`, is just a `return`
+                if !(rn == SP && second[1] == 0b1111_1011) {
+                    indirect = true;
+                }
             } else if v7
                 && matches(first, "0b11111_00_0_x_10_1_xxxx")
                 && matches(second, "0b1101_xxxxxxxxxxxx")
-- 
2.43.0


From 29931de31ec657a823a6c8b837f70441ed85991a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:21 +0000
Subject: [PATCH 18/36] fix: escape backslashes in node labels

They start an escape sequence in the DOT language.
---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 1598680..7cc7725 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -1420,7 +1420,7 @@ where
     fn write_char(&mut self, c: char) -> fmt::Result {
         match (|| -> io::Result<()> {
             match c {
-                '"' => write!(self.writer, "\\")?,
+                '"' | '\\' => write!(self.writer, "\\")?,
                 _ => {}
             }
 
-- 
2.43.0


From 1c00a581514b5383d18442ce6f71c3cf4b19678d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:32 +0000
Subject: [PATCH 19/36] fix: expand the immediate of SUB.W (0b01 pattern)
 correctly

`ThumbExpandImm` maps `01:abcdefgh` to `0x00XY00XY`, not to `0x0000XY00`.
---
 src/thumb.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/thumb.rs b/src/thumb.rs
index cb4cfe3..0e75269 100644
--- a/src/thumb.rs
+++ b/src/thumb.rs
@@ -679,7 +679,10 @@ fn thumb_expand_imm(imm12: u16) -> u32 {
         match (imm12 >> 8) & 0b0011 {
             0b00 => u32::from(imm12 & 0b0000_1111_1111),
 
-            0b01 => u32::from(imm12 & 0b0000_1111_1111) << 8,
+            0b01 => {
+                let imm8 = u32::from(imm12 & 0b0000_1111_1111);
+                (imm8 << 16) | imm8
+            }
 
             0b10 => {
                 let imm8 = u32::from(imm12 & 0b0000_1111_1111);
-- 
2.43.0


From 4d208d782686f60fe9df47e3ed697faa0ae913c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:32 +0000
Subject: [PATCH 20/36] fix: don't print a maximum in the top format when none
 is known

without stack usage information the output started with `0 MAX`.
---
 src/main.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 7cc7725..1315f45 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -1350,7 +1350,8 @@ pub(crate) fn top(g: Graph<Node, ()>) -> io::Result<()> {
     }
 
     // Locate max
-    if let Some(max) = max_of(nodes.iter().map(|n| n.max.unwrap_or(Max::Exact(0)))) {
+    // NOTE the maxima are missing when there's no stack usage information
+    if let Some(max) = max_of(nodes.iter().filter_map(|n| n.max)) {
         writeln!(
             stdout,
             "{} MAX",
-- 
2.43.0


From 44d26ab239b1a4ef5a2c6c16b33bb39a7b9271c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:54 +0000
Subject: [PATCH 21/36] fix: resolve aliases in calls through bitcasts

the callee was shown as an unknown function instead of the function the alias refers to.
---
 src/main.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index 1315f45..7cdc4d9 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -592,6 +592,8 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
                     // try harder -- does this ever occur in pure Rust programs?
 
                     let sym = sym.expect("BUG? unnamed symbol is being invoked");
+                    // use canonical name
+                    let sym = aliases.get(sym).copied().unwrap_or(sym);
                     let callee = if let Some(idx) = indices.get(sym) {
                         *idx
                     } else {
-- 
2.43.0


From 9571a9f062ed2fae49612c6e35f3d70a6cde43b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:55 +0000
Subject: [PATCH 22/36] fix: don't treat the name of the cargo subcommand as
 the start point

`cargo call-stack --example app main` was rejected and every other
`cargo call-stack` invocation reported that the start point was not found.
---
 src/main.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 7cdc4d9..886257c 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -131,7 +131,14 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
 
     Builder::from_env(Env::default().default_filter_or("warn")).init();
 
-    let args = Args::parse();
+    // NOTE `cargo call-stack` passes the name of the subcommand as the first argument
+    let args = Args::parse_from(env::args_os().enumerate().filter_map(|(i, arg)| {
+        if i == 1 && arg == "call-stack" {
+            None
+        } else {
+            Some(arg)
+        }
+    }));
     let profile = Profile::Release;
 
     let file = match (&args.example, &args.bin) {
-- 
2.43.0


From 5952b30262f3c23720b64991596f27427f5f0aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:09 +0000
Subject: [PATCH 23/36] fix: accept BL as a long branch within a function

---
 src/main.rs  | 13 ++++++++++---
 src/thumb.rs |  6 ++++++
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 886257c..f82686e 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -980,9 +980,16 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
                 for offset in bls {
                     let addr = (address as i64 + i64::from(offset)) as u64;
                     // address may be off by one due to the thumb bit being set
-                    let callee = *addr2idx
-                        .get(&addr)
-                        .unwrap_or_else(|| panic!("BUG? no symbol at address {}", addr));
+                    let callee = match addr2idx.get(&addr) {
+                        Some(callee) => *callee,
+                        // LLVM uses BL as a long intra-function branch on cores without `B.W`
+                        None if addr > u64::from(address)
+                            && addr < u64::from(address) + u64::from(size) =>
+                        {
+                            continue
+                        }
+                        None => panic!("BUG? no symbol at address {}", addr),
+                    };
 
                     if !callees_seen.contains(&callee) {
                         g.add_edge(caller, callee, ());
diff --git a/src/thumb.rs b/src/thumb.rs
index 0e75269..e7204ae 100644
--- a/src/thumb.rs
+++ b/src/thumb.rs
@@ -622,6 +622,12 @@ pub fn analyze(
                 // accordingly
                 imm32 += 2 * i + 4;
 
+                if imm32 > 0 && (imm32 as usize) < bytes.len() {
+                    // on cores without `B.W`, BL is also used as a long intra-function branch; give
+                    // up the stack usage analysis
+                    stack = None;
+                }
+
                 bls.push(imm32);
             } else if matches(first, "0b11111_0000100_xxxx")
                 && matches(second, "0bxxxx_1x01_xxxxxxxx")
-- 
2.43.0


From 2f98ca3efedd083fa9516fb6f01dbb2a3336602b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:33 +0000
Subject: [PATCH 24/36] fix: accept any constant as the argument of an indirect
 call

---
 src/ir/define.rs | 37 ++++++++++++++++++++++++++++---------
 1 file changed, 28 insertions(+), 9 deletions(-)

diff --git a/src/ir/define.rs b/src/ir/define.rs
index 7377b4a..243eb7f 100644
--- a/src/ir/define.rs
+++ b/src/ir/define.rs
@@ -3,6 +3,8 @@ use nom::{
     bytes::complete::{is_not, tag},
     character::complete::{char, digit1, line_ending, not_line_ending, space1},
     combinator::{map, map_res, opt},
+    error::ErrorKind,
+    error_position,
     multi::{many0, many1, separated_list0, separated_list1},
     sequence::delimited,
     IResult,
@@ -164,20 +166,37 @@ fn argument(i: &str) -> IResult<&str, Argument> {
         map(super::function, drop),
         map(super::null, drop),
         map(super::undef, drop),
-        map(
-            |i| {
-                let i = opt(char('-'))(i)?.0;
-                digit1(i)
-            },
-            drop,
-        ),
-        map(tag("true"), drop),
-        map(tag("false"), drop),
+        constant,
     ))(i)?
     .0;
     Ok((i, Argument(ty)))
 }
 
+// any other constant value: `-1`, `true`, `1.0e+00`, `poison`, `[2 x i32] [i32 1, i32 2]`, etc.
+// NOTE we are not interested in the value so we skip over (balanced) delimiters and strings
+fn constant(i: &str) -> IResult<&str, ()> {
+    let mut depth = 0;
+    let mut in_string = false;
+    for (end, c) in i.char_indices() {
+        match c {
+            '"' => in_string = !in_string,
+            '\r' | '\n' => break,
+            _ if in_string => {}
+            '(' | '[' | '{' | '<' => depth += 1,
+            ',' | ')' if depth == 0 => {
+                if end == 0 {
+                    break;
+                }
+                return Ok((&i[end..], ()));
+            }
+            ')' | ']' | '}' | '>' => depth -= 1,
+            _ => {}
+        }
+    }
+
+    Err(nom::Err::Error(error_position!(i, ErrorKind::Verify)))
+}
+
 fn bitcast_call(i: &str) -> IResult<&str, Stmt> {
     let i = opt(|i| {
         let i = tag("tail")(i)?.0;
-- 
2.43.0


From f7531236372010c85d91aa9bea56d214638f319f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:23 +0000
Subject: [PATCH 25/36] fix: count the padding used to align a stack frame to
 more than 8 bytes

---
 src/main.rs  |  2 ++
 src/thumb.rs | 84 ++++++++++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 86 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index f82686e..3aa3eeb 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -949,6 +949,8 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
                             canonical_name,
                             *llvm_stack
                         );
+
+                        *llvm_stack += thumb::realignment(&text[start..end], address, &tags);
                     }
                 } else if let Some(stack) = our_stack {
                     g[caller].local = Local::Exact(stack);
diff --git a/src/thumb.rs b/src/thumb.rs
index e7204ae..13c6086 100644
--- a/src/thumb.rs
+++ b/src/thumb.rs
@@ -1,3 +1,5 @@
+use std::cmp;
+
 /// Analyzes a subroutine and returns all the `BL` and `B` instructions in it, plus whether this
 /// function performs an indirect function call or not
 // NOTE we assume that `bytes` is always valid input so all errors are bugs
@@ -656,6 +658,88 @@ pub fn analyze(
     (bls, bs, indirect, modifies_sp, stack)
 }
 
+/// Number of bytes that a function may use, on top of the stack usage reported by LLVM, to align
+/// its stack frame
+///
+/// LLVM doesn't know the value of SP at compile time so `.stack_sizes` doesn't include these bytes.
+/// It uses one of the following sequences to align the frame (here, to 64 bytes)
+///
+/// - `mov r4, sp; bfc r4, #0, #6; mov sp, r4`
+/// - `mov r4, sp; lsrs r4, r4, #6; lsls r4, r4, #6; mov sp, r4` (ARMv6-M)
+pub fn realignment(bytes: &[u8], address: u32, tags: &[(u32, Tag)]) -> u64 {
+    #[derive(Clone, Copy, PartialEq)]
+    enum Reg {
+        Other,
+        // SP with this many low bits cleared
+        Aligned(u8),
+        // SP shifted to the right by this many bits
+        Shifted(u8),
+    }
+
+    let mut regs = [Reg::Other; 16];
+    let mut padding = 0;
+    let mut offset = 0;
+    while let Some(first) = bytes.get(offset..offset + 2) {
+        let start = address + offset as u32;
+        if let Ok(needle) = tags.binary_search_by(|(addr, _)| addr.cmp(&start)) {
+            if tags[needle].1 == Tag::Data {
+                if let Some(tag) = tags[needle + 1..].iter().find(|tag| tag.1 == Tag::Thumb) {
+                    // skip the data section
+                    offset += (tag.0 - start) as usize;
+                    continue;
+                } else {
+                    break;
+                }
+            }
+        }
+
+        offset += 2;
+
+        if matches(first, "0b01000110_x_1101_xxx") {
+            // MOV Rd, SP
+            let rd = (first[0] & 0b111) | ((first[0] >> 4) & 0b1000);
+            regs[usize::from(rd)] = Reg::Aligned(0);
+        } else if matches(first, "0b01000110_1_xxxx_101") {
+            // MOV SP, Rm
+            let rm = (first[0] >> 3) & 0b1111;
+            if let Reg::Aligned(bits) = regs[usize::from(rm)] {
+                // on function entry SP is aligned to 8 bytes
+                padding = cmp::max(padding, (1u64 << bits).saturating_sub(8));
+            }
+        } else if matches(first, "0b000_0x_xxxxx_xxx_xxx") {
+            // LSL (immediate) - T1 and LSR (immediate) - T1
+            let is_right = first[1] & 0b1000 != 0;
+            let imm5 = ((first[1] & 0b111) << 2) | (first[0] >> 6);
+            let rm = (first[0] >> 3) & 0b111;
+            let rd = first[0] & 0b111;
+
+            regs[usize::from(rd)] = match regs[usize::from(rm)] {
+                Reg::Aligned(0) if is_right => Reg::Shifted(imm5),
+                Reg::Shifted(bits) if !is_right && bits == imm5 => Reg::Aligned(bits),
+                _ => Reg::Other,
+            };
+        } else if matches(first, "0b11101_xxxxxxxxxxx") || matches(first, "0b1111_xxxxxxxxxxxx") {
+            // 32-bit instruction
+            let second = match bytes.get(offset..offset + 2) {
+                Some(second) => second,
+                None => break,
+            };
+            offset += 2;
+
+            if matches(first, "0b11110_0_11_0110_1111") && matches(second, "0b0_000_xxxx_00_0_xxxxx")
+            {
+                // BFC Rd, #0, #width
+                let rd = usize::from(second[1] & 0b1111);
+                if regs[rd] == Reg::Aligned(0) {
+                    regs[rd] = Reg::Aligned((second[0] & 0b11111) + 1);
+                }
+            }
+        }
+    }
+
+    padding
+}
+
 fn matches(bytes: &[u8], pattern: &str) -> bool {
     assert!(pattern.starts_with("0b"));
 
-- 
2.43.0


From 667fffcec3c8faae32a1a17710d9502fb4a2d875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:01 +0000
Subject: [PATCH 26/36] fix: report the unknown callee of an indirect branch in
 inline assembly

---
 src/main.rs | 42 +++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 41 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 3aa3eeb..6779c8c 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -565,6 +565,8 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
 
     // to avoid printing several warnings about the same thing
     let mut fns_containing_asm = HashSet::new();
+    // functions with inline assembly that performs indirect function calls
+    let mut fns_containing_asm_branch = HashSet::new();
     let mut llvm_seen = HashSet::new();
     // add edges
     let mut edges: HashMap<_, HashSet<_>> = HashMap::new(); // NodeIdx -> [NodeIdx]
@@ -584,6 +586,10 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
         for stmt in &define.stmts {
             match stmt {
                 Stmt::Asm(expr) => {
+                    if contains_indirect_branch(expr) {
+                        fns_containing_asm_branch.insert(*canonical_name);
+                    }
+
                     if fns_containing_asm.insert(*canonical_name) {
                         // NB: we only print the first inline asm statement in a function
                         warn!(
@@ -964,7 +970,10 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
                     warn!("no stack usage information for `{}`", canonical_name);
                 }
 
-                if !defined.contains(canonical_name) && indirect {
+                if indirect
+                    && (!defined.contains(canonical_name)
+                        || fns_containing_asm_branch.contains(canonical_name))
+                {
                     // this function performs an indirect function call and we have no type
                     // information to narrow down the list of callees so inject the uncertainty
                     // in the form of a call to an unknown function with unknown stack usage
@@ -1583,6 +1592,37 @@ fn dehash(demangled: &str) -> Option<&str> {
     }
 }
 
+// whether inline assembly performs an indirect function call, e.g. `blx r0`
+fn contains_indirect_branch(asm: &str) -> bool {
+    // NOTE the LLVM-IR contains escaped newlines and tabs
+    let asm = asm
+        .replace("\\0A", ";")
+        .replace("\\09", " ")
+        .to_ascii_lowercase();
+
+    asm.split(';').any(|instruction| {
+        let mut tokens = instruction
+            .split(|c: char| c.is_whitespace() || c == ',')
+            .filter(|token| !token.is_empty() && !token.ends_with(':'));
+
+        match (tokens.next(), tokens.next(), tokens.next()) {
+            // `bx lr` is just a `return`
+            (Some(mnemonic), Some(rm), _)
+                if mnemonic.starts_with("bx") || mnemonic.starts_with("blx") =>
+            {
+                rm != "lr"
+            }
+            // `mov pc, lr` is just a `return`
+            (Some(mnemonic), Some("pc"), Some(src))
+                if mnemonic.starts_with("mov") || mnemonic.starts_with("ldr") =>
+            {
+                src != "lr"
+            }
+            _ => false,
+        }
+    })
+}
+
 #[derive(Clone, Copy, Debug, Eq, PartialEq)]
 enum Target {
     Other,
-- 
2.43.0


From 1b954c4aff9e90660ae9ee02f907c2d592a1bc34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:17 +0000
Subject: [PATCH 27/36] fix: remove version strings from undefined symbols
 linked by recent versions of GNU ld

---
 src/main.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 6779c8c..72e57c0 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -421,10 +421,10 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
         .undefined
         .into_iter()
         .map(|sym| {
-            if let Some(name) = sym.rsplit("@@").nth(1) {
-                name
-            } else {
-                sym
+            // e.g. `free@@GLIBC_2.2.5`; recent versions of GNU ld use a single `@`
+            match sym.find('@') {
+                Some(pos) if pos != 0 => &sym[..pos],
+                _ => sym,
             }
         })
         .collect();
-- 
2.43.0


From 02972a1429d415356954928e43f115f4aa9cb75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:04 +0000
Subject: [PATCH 28/36] fix: do not name nodes after an arbitrary alias

When an object file has several symbols for the same function, e.g. an
alias created by LLVM's MergeFunctions, stack_sizes::analyze_object picks
one of them at random so the name of the node changed between runs.
---
 src/main.rs | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 72e57c0..10b519f 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -375,7 +375,7 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
 
     // extract stack size information
     // the `.o` file doesn't have address information so we just keep the stack usage information
-    let mut stack_sizes: HashMap<_, _> = stack_sizes::analyze_object(&obj)?
+    let stack_sizes: HashMap<_, _> = stack_sizes::analyze_object(&obj)?
         .into_iter()
         .map(|(name, stack)| (name.to_owned(), stack))
         .collect();
@@ -385,6 +385,7 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
             .map_err(|e| anyhow!("couldn't open `{}`: {}", compiler_builtins_rlib_path, e))?,
     );
 
+    let mut builtins_stack_sizes = HashMap::new();
     let mut buf = vec![];
     while let Some(entry) = ar.next_entry() {
         let mut entry = entry?;
@@ -397,8 +398,7 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
             buf.clear();
             entry.read_to_end(&mut buf)?;
             for (name, stack) in stack_sizes::analyze_object(&buf)? {
-                // NOTE same as above: the application's symbols take precedence
-                stack_sizes.entry(name.to_owned()).or_insert(stack);
+                builtins_stack_sizes.entry(name.to_owned()).or_insert(stack);
             }
         }
     }
@@ -488,10 +488,26 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
             })
             .collect::<Vec<_>>();
 
+        // NOTE same as above: the application's symbols take precedence
+        let recorded = names
+            .iter()
+            .find(|name| stack_sizes.contains_key(&***name))
+            .or_else(|| {
+                names
+                    .iter()
+                    .find(|name| builtins_stack_sizes.contains_key(&***name))
+            });
+
         let canonical_name = if names.len() > 1 {
             // if one of the aliases appears in the `stack_sizes` dictionary, use that
-            if let Some(needle) = names.iter().find(|name| stack_sizes.contains_key(&***name)) {
-                needle
+            if let Some(needle) = recorded {
+                // NOTE object files can contain several symbols for the same function; only one of
+                // them, and it's arbitrary which one, appears in the dictionary so prefer the
+                // symbol that's `define`-d
+                names
+                    .iter()
+                    .find(|name| defines.contains_key(&***name))
+                    .unwrap_or(needle)
             } else {
                 // otherwise, pick the first name that's not a tag
                 names[0]
@@ -504,7 +520,12 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
             aliases.insert(name, canonical_name);
         }
 
-        let stack = stack_sizes.get(canonical_name).cloned();
+        let stack = recorded.and_then(|name| {
+            stack_sizes
+                .get(*name)
+                .or_else(|| builtins_stack_sizes.get(*name))
+                .cloned()
+        });
         if stack.is_none() {
             if !target_.is_thumb() {
                 warn!("no stack usage information for `{}`", canonical_name);
-- 
2.43.0


From 0254778513fbf42b231888e122a2d7ae7b91ca90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:31 +0000
Subject: [PATCH 29/36] fix: do not take functions named like `$data` for
 mapping symbols

---
 src/main.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 10b519f..a3b3210 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -833,9 +833,9 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
                 .filter_map(|entry| {
                     let addr = entry.value() as u32;
                     entry.get_name(&elf).ok().and_then(|name| {
-                        if name.starts_with("$d") {
+                        if name == "$d" || name.starts_with("$d.") {
                             Some((addr, Tag::Data))
-                        } else if name.starts_with("$t") {
+                        } else if name == "$t" || name.starts_with("$t.") {
                             Some((addr, Tag::Thumb))
                         } else {
                             None
-- 
2.43.0


From 5e5c6e43dfe53822e1fced44f0efbd4d8d9802c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:17 +0000
Subject: [PATCH 30/36] fix: analyze the LLVM-IR of the build that the ELF file
 is from

Cargo does not rebuild a program that's up to date, so when e.g. the features
change back and forth the most recent .ll file can be that of another build.
---
 src/main.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index a3b3210..5a6100d 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -282,9 +282,10 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
     // load llvm-ir file
     let mut ll = None;
     // most recently modified
-    let mut mrm = SystemTime::UNIX_EPOCH;
+    let mut mrm = (false, SystemTime::UNIX_EPOCH);
     let prefix = format!("{}-", file.replace('-', "_"));
 
+    let extension = path.extension().unwrap_or_default().to_owned();
     path = path.parent().expect("unreachable").to_path_buf();
 
     if args.bin.is_some() {
@@ -302,7 +303,13 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
                 .expect("unreachable")
                 .starts_with(&prefix)
             {
-                let modified = e.metadata()?.modified()?;
+                // NOTE Cargo does not rebuild a program that's up to date so the products of another
+                // build (e.g. one that used different features) can be more recent; the ELF file is
+                // a copy of, or a hard link to, a file that has the same stem as the `.ll` file
+                let is_linked = fs::read(p.with_extension(&extension))
+                    .map(|linked| linked == elf)
+                    .unwrap_or(false);
+                let modified = (is_linked, e.metadata()?.modified()?);
                 if ll.is_none() {
                     ll = Some(p);
                     mrm = modified;
-- 
2.43.0


From 727315bfece9deb2e3fab1e046e6b7dc70bfc7ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:17 +0000
Subject: [PATCH 31/36] fix: honor CARGO_BUILD_TARGET

Cargo gives it precedence over the configuration files; the program was built
for one target and analyzed as if it were for another.
---
 src/main.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 5a6100d..46fa276 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -150,7 +150,9 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
     let host = meta.host;
     let cwd = env::current_dir()?;
     let project = Project::query(cwd)?;
-    let target_flag = args.target.as_deref();
+    // NOTE for Cargo this variable takes precedence over the configuration files, like `--target`
+    let target_env = env::var("CARGO_BUILD_TARGET").ok();
+    let target_flag = args.target.as_deref().or(target_env.as_deref());
     let target = target_flag.or(project.target()).unwrap_or(&host);
 
     let mut is_no_std = false;
-- 
2.43.0


From e9c2956e30c1c98410482712bfc6cec8fd037c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:44 +0000
Subject: [PATCH 32/36] fix: record the signature of indirect calls to variadic
 functions

`call i32 (ptr, ...) %f(ptr %x, i32 1)` was recorded as a call of a function
that takes (ptr, i32) and returns a function; no function has that signature so
the variadic functions the call may reach were not linked to the caller
---
 src/ir/define.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/ir/define.rs b/src/ir/define.rs
index 243eb7f..3d27a58 100644
--- a/src/ir/define.rs
+++ b/src/ir/define.rs
@@ -272,13 +272,16 @@ fn indirect_call(i: &str) -> IResult<&str, Stmt> {
     // TODO we likely want to parse the metadata (`!dbg !0`) that comes after the argument list
     // NOTE shortcut
     let i = not_line_ending(i)?.0;
-    Ok((
-        i,
-        Stmt::IndirectCall(FnSig {
+    // the whole function type is given, instead of just its return type, when the callee is variadic
+    // e.g. `call i32 (i8*, ...) %f(i8* %p, i32 1)`
+    let sig = match output {
+        Some(Type::Fn(sig)) => sig,
+        output => FnSig {
             inputs,
             output: output.map(Box::new),
-        }),
-    ))
+        },
+    };
+    Ok((i, Stmt::IndirectCall(sig)))
 }
 
 fn other(i: &str) -> IResult<&str, Stmt> {
-- 
2.43.0


From 8a45be2e597df5c0c9c9b449d2940535bb19c91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:02 +0000
Subject: [PATCH 33/36] fix: accept start points named as in the graph

functions that share their path, and functions with symbols of the `v0` mangling
scheme, are shown with their whole demangled name, but only the symbol and the
demangled name without hash were accepted as start point
---
 src/main.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 46fa276..944e38b 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -1182,7 +1182,9 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
             let hits = aliases
                 .iter()
                 .filter_map(|(name, canonical_name)| {
-                    if dehash(&rustc_demangle::demangle(name).to_string()) == Some(start) {
+                    let demangled = rustc_demangle::demangle(name).to_string();
+
+                    if demangled == start || dehash(&demangled) == Some(start) {
                         Some(*canonical_name)
                     } else {
                         None
-- 
2.43.0


From 8ee74d578a9d48bcbf4975835513167f6d263afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:02 +0000
Subject: [PATCH 34/36] fix: consider `blx lr` in inline assembly an indirect
 function call

unlike `bx lr` it's not a return
---
 src/main.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 944e38b..dda1a36 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -1638,12 +1638,9 @@ fn contains_indirect_branch(asm: &str) -> bool {
             .filter(|token| !token.is_empty() && !token.ends_with(':'));
 
         match (tokens.next(), tokens.next(), tokens.next()) {
+            (Some(mnemonic), Some(_), _) if mnemonic.starts_with("blx") => true,
             // `bx lr` is just a `return`
-            (Some(mnemonic), Some(rm), _)
-                if mnemonic.starts_with("bx") || mnemonic.starts_with("blx") =>
-            {
-                rm != "lr"
-            }
+            (Some(mnemonic), Some(rm), _) if mnemonic.starts_with("bx") => rm != "lr",
             // `mov pc, lr` is just a `return`
             (Some(mnemonic), Some("pc"), Some(src))
                 if mnemonic.starts_with("mov") || mnemonic.starts_with("ldr") =>
-- 
2.43.0


From a93376b1a98245ab18d8b3e1fdf8e9a21e66c3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:47 +0000
Subject: [PATCH 35/36] fix: keep the hash of functions that share their name
 with an undefined symbol

---
 src/main.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index dda1a36..b54c127 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -1323,6 +1323,14 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
         }
     }
 
+    // undefined symbols can be other instances of a function that's present in the program
+    for name in &symbols.undefined {
+        let demangled = rustc_demangle::demangle(name).to_string();
+        if let Some(count) = dehash(&demangled).and_then(|name| ambiguous.get_mut(name)) {
+            *count += 1;
+        }
+    }
+
     // here we try to shorten the name of the symbol if it doesn't result in ambiguity
     for node in g.node_weights_mut() {
         let demangled = rustc_demangle::demangle(&node.name).to_string();
-- 
2.43.0


From acdb9162bccb5d1d6516d7f6662c7e6a2787f21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:31 +0000
Subject: [PATCH 36/36] fix: do not analyze the products of another build when
 the LLVM IR of this one is missing

Cargo considers a build up to date even if its .ll file has been removed. If the target directory also contained the products of an earlier build of the same program then the IR and the stack sizes of that build were combined with the current ELF file and the result was printed as if nothing had happened.
---
 src/main.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index b54c127..384fce6 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -294,10 +294,24 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
         path = path.join("deps"); // the .ll file is placed in ../deps
     }
 
+    // the `.ll` file that should be next to the file that was linked, when it's missing
+    let mut missing = None;
+
     for e in fs::read_dir(path)? {
         let e = e?;
         let p = e.path();
 
+        if p.extension().unwrap_or_default() == extension
+            && p.file_name()
+                .and_then(|name| name.to_str())
+                .map(|name| name.starts_with(&prefix))
+                .unwrap_or(false)
+            && !p.with_extension("ll").exists()
+            && fs::read(&p).map(|linked| linked == elf).unwrap_or(false)
+        {
+            missing = Some(p.with_extension("ll"));
+        }
+
         if p.extension().map(|e| e == "ll").unwrap_or(false) {
             if p.file_stem()
                 .expect("unreachable")
@@ -325,6 +339,11 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
         }
     }
 
+    // do not analyze the products of another build instead
+    if let (false, Some(missing)) = (mrm.0, missing) {
+        bail!("couldn't find LLVM IR at `{}`", missing.display());
+    }
+
     let ll_path = ll.expect("unreachable");
     let obj = ll_path.with_extension("o");
     let ll = fs::read_to_string(&ll_path)
-- 
2.43.0

