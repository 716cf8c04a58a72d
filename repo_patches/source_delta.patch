From 5634bc601c9f58f2a4950830f769467431bd38e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:42:13 +0000
Subject: [PATCH 1/5] fix: free the closure when creating its thunk fails

try_with_cc_in and try_with_thunk_in turned the boxed closure into a raw
pointer before asking the allocator for executable memory. When that request
failed or panicked, the closure was never dropped and its box leaked.

Keep the box owned by a guard until the thunk exists.
---
 src/bare_closure.rs | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/bare_closure.rs b/src/bare_closure.rs
index 5cd6772..102b350 100644
--- a/src/bare_closure.rs
+++ b/src/bare_closure.rs
@@ -215,6 +215,22 @@ macro_rules! bare_hrtb {
 #[cfg(feature = "proc_macros")]
 pub use bare_hrtb;
 
+/// Owns a boxed closure until its thunk has been created.
+struct StorageGuard<S: ?Sized>(*mut S);
+
+impl<S: ?Sized> StorageGuard<S> {
+    fn into_inner(self) -> *mut S {
+        ManuallyDrop::new(self).0
+    }
+}
+
+impl<S: ?Sized> Drop for StorageGuard<S> {
+    fn drop(&mut self) {
+        // SAFETY: `self.0` came from `Box::into_raw` and is still owned by this guard
+        drop(unsafe { Box::from_raw(self.0) })
+    }
+}
+
 #[allow(unused_macros)]
 macro_rules! cc_shorthand {
     ($fn_name:ident, $trait_ident:ident, $cc_ty:ty, $cc_name:literal $(,$cfg:meta)?) => {
@@ -592,7 +608,7 @@ macro_rules! bare_closure_impl {
                 F: ToBoxedDyn<S>,
                 (CC, F): $trait_ident<B>,
             {
-                let storage = Box::into_raw(F::to_boxed_unsize(fun));
+                let storage = StorageGuard(Box::into_raw(F::to_boxed_unsize(fun)));
 
                 // SAFETY:
                 // - thunk_template pointer obtained from the correct source
@@ -600,14 +616,14 @@ macro_rules! bare_closure_impl {
                 let thunk = unsafe {
                     AllocatedThunk::new(
                         <(CC, F)>::$thunk_template,
-                        storage as *const _, size_of::<F>(),
+                        storage.0 as *const _, size_of::<F>(),
                         jit_alloc
                     )?
                 };
                 Ok(Self {
                     untyped: $erased_ty_name {
                         thunk,
-                        storage
+                        storage: storage.into_inner()
                     },
                     phantom: PhantomData,
                 })
@@ -664,7 +680,7 @@ macro_rules! bare_closure_impl {
             where T: $trait_ident<B> + ToBoxedDyn<S>
             {
                 // SAFETY: All implementors of `Fn*Thunk` are #[repr(transparent)] with the closure
-                let storage = Box::into_raw(T::to_boxed_unsize(thunk));
+                let storage = StorageGuard(Box::into_raw(T::to_boxed_unsize(thunk)));
 
                 // SAFETY:
                 // - thunk_template pointer obtained from the correct source
@@ -673,14 +689,14 @@ macro_rules! bare_closure_impl {
                 let thunk = unsafe {
                     AllocatedThunk::new(
                         T::$thunk_template,
-                        storage as *const _, size_of::<T>(),
+                        storage.0 as *const _, size_of::<T>(),
                         jit_alloc
                     )?
                 };
                 Ok(Self {
                     untyped: $erased_ty_name {
                         thunk,
-                        storage
+                        storage: storage.into_inner()
                     },
                     phantom: PhantomData,
                 })
-- 
2.43.0


From 6985c1b32050e46af4d5bd39a7f6ef9d7b162ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:42:13 +0000
Subject: [PATCH 2/5] fix: do not panic when ThreadJitAlloc is used during
 thread teardown

A wrapper stored in a thread local can be dropped after the per-thread
allocator itself was destroyed. Accessing it then panicked inside a
thread-local destructor, which aborts the process.

Report JitAllocError instead, as for any other failed request.
---
 src/jit_alloc.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/jit_alloc.rs b/src/jit_alloc.rs
index 6109db5..e24c2c7 100644
--- a/src/jit_alloc.rs
+++ b/src/jit_alloc.rs
@@ -189,13 +189,15 @@ mod default_jit_alloc {
         impl JitAlloc for ThreadJitAlloc {
             fn alloc(&self, size: usize) -> Result<(*const u8, *mut u8), JitAllocError> {
                 THREAD_JIT_ALLOC
-                    .with(|a| unsafe { &mut *a.get() }.alloc(size))
+                    .try_with(|a| unsafe { &mut *a.get() }.alloc(size))
+                    .map_err(|_| JitAllocError)?
                     .map_err(|_| JitAllocError)
             }
 
             unsafe fn release(&self, rx_ptr: *const u8) -> Result<(), JitAllocError> {
                 THREAD_JIT_ALLOC
-                    .with(|a| unsafe { &mut *a.get() }.release(rx_ptr))
+                    .try_with(|a| unsafe { &mut *a.get() }.release(rx_ptr))
+                    .map_err(|_| JitAllocError)?
                     .map_err(|_| JitAllocError)
             }
 
-- 
2.43.0


From e06473ac6ccda05dcd569f9a1173c02ebe4e5e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:17:04 +0000
Subject: [PATCH 3/5] fix: relocate ADR in Thumb entry code

The disassembler does not list the program counter among the registers an
ADR reads, so entry code that takes the address of a table with it was
copied without being adjusted and read memory next to the new thunk. The
wide encoding was also rejected, and the literal replacing a short ADR was
addressed as if the code before the marker had not moved.
---
 src/safe_jit/arm.rs                     | 14 ++++++++++----
 src/safe_jit/arm_util/encoding_thumb.rs |  2 +-
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/safe_jit/arm.rs b/src/safe_jit/arm.rs
index 8e3e2d4..6d28861 100644
--- a/src/safe_jit/arm.rs
+++ b/src/safe_jit/arm.rs
@@ -63,8 +63,10 @@ pub fn try_reloc_thunk_template<'a>(
             return Err(JitError::UnsupportedInstruction);
         }
         // if the instruction doesn't read the PC, we don't care about it at this point.
-        // it's OK to relocate it.
-        if !detail.regs_read().iter().any(|r| r.0 as u32 == ArmReg::ARM_REG_PC) {
+        // it's OK to relocate it. Note that capstone doesn't list the PC as read by a Thumb ADR.
+        if instr_id != ArmInsn::ARM_INS_ADR
+            && !detail.regs_read().iter().any(|r| r.0 as u32 == ArmReg::ARM_REG_PC)
+        {
             continue;
         }
         // We don't support relocating instructions that conditionally read the PC.
@@ -124,11 +126,15 @@ pub fn try_reloc_thunk_template<'a>(
             new_bytes.extend_from_slice(&[0; 2]);
         }
 
+        // the relocated thunk will be placed so that its magic offset is aligned. If it moved by
+        // a single halfword, the alignment of the code before it changes.
+        let new_pc = pc + magic_offset - new_magic_offset;
+
         // write the absolute addresses to the literal pool and emit LDR instructions
         // referring to them.
         for (instr_offset, reg, addr) in extra_ldrs {
-            let addr_pc = pc + new_bytes.len();
-            let ldr = LdrImm::new_lit(pc + instr_offset, reg, addr_pc)?;
+            let addr_pc = new_pc + new_bytes.len();
+            let ldr = LdrImm::new_lit(new_pc + instr_offset, reg, addr_pc)?;
 
             new_bytes.extend_from_slice(&addr.to_ne_bytes());
             new_bytes[instr_offset..instr_offset + 4].copy_from_slice(&ldr.bytes());
diff --git a/src/safe_jit/arm_util/encoding_thumb.rs b/src/safe_jit/arm_util/encoding_thumb.rs
index ed9cfb6..f2d38b7 100644
--- a/src/safe_jit/arm_util/encoding_thumb.rs
+++ b/src/safe_jit/arm_util/encoding_thumb.rs
@@ -247,7 +247,7 @@ impl Adr {
             }
 
             let ins = AdrT23::from_raw(raw);
-            (ins.s1() != ins.s2()).then_some(Self::T23(ins))
+            (ins.s1() == ins.s2()).then_some(Self::T23(ins))
         }
     }
 
-- 
2.43.0


From 6c02dbc30b2551795c02a861878370e7db1f0d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:43:37 +0000
Subject: [PATCH 4/5] fix: let x86-64 relocation use the closure pointer
 register in long entry code

The index of the write to this register was taken from the length of the
instruction in bytes. Rip-relative instructions further in than that found no
free register and construction panicked.
---
 src/safe_jit/x86_64.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/safe_jit/x86_64.rs b/src/safe_jit/x86_64.rs
index fe9e237..0822550 100644
--- a/src/safe_jit/x86_64.rs
+++ b/src/safe_jit/x86_64.rs
@@ -89,7 +89,7 @@ pub fn try_reloc_thunk_template<'a>(
     let cl_read_reg = decoder.decode().op0_register();
 
     let mut gpr_ops = [GprOp::None; 16];
-    gpr_ops[cl_read_reg as usize - Register::RAX as usize] = GprOp::Write(instruction.len());
+    gpr_ops[cl_read_reg as usize - Register::RAX as usize] = GprOp::Write(instructions.len());
 
     let mut info_factory = InstructionInfoFactory::new();
     let mut chosen_registers = Vec::with_capacity(num_ip_rel_reloc);
-- 
2.43.0


From f69bed93fab8979cf3f530befd1fb633c26b6853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:43:39 +0000
Subject: [PATCH 5/5] fix: fall back to r11 when relocating x86-64 entry code

Entry code that keeps every register it uses live around a rip-relative
instruction was refused with a panic. r11 is volatile and never an input.
---
 src/safe_jit/x86_64.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/safe_jit/x86_64.rs b/src/safe_jit/x86_64.rs
index 0822550..d65a3ff 100644
--- a/src/safe_jit/x86_64.rs
+++ b/src/safe_jit/x86_64.rs
@@ -112,8 +112,13 @@ pub fn try_reloc_thunk_template<'a>(
         if needs_reloc {
             // try to find a gpr that is fully clobbered by a write
             // we don't have to update the ops since the new read will be hidden by the address load
-            let Some(i_avail_gpr) =
-                gpr_ops.iter().position(|&op| matches!(op, GprOp::Write(w) if w >= i))
+            // otherwise use r11 if the prologue does not: it is volatile and never carries an input
+            // in any of the supported calling conventions
+            const I_R11: usize = Register::R11 as usize - Register::RAX as usize;
+            let Some(i_avail_gpr) = gpr_ops
+                .iter()
+                .position(|&op| matches!(op, GprOp::Write(w) if w >= i))
+                .or_else(|| (gpr_ops[I_R11] == GprOp::None).then_some(I_R11))
             else {
                 return Err(JitError::NoAvailableRegister);
             };
-- 
2.43.0

