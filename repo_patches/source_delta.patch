From 47fa20f4fe89b64ed7f814156b602b9864e22587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:39 +0000
Subject: [PATCH 1/7] fix: refuse captured objects whose alignment would leave
 the stack

allocate_obj_on_stack limited the size of the object but not its alignment:
rounding the stack pointer down to a large alignment could move it below the
stack limit, so that creating a coroutine from safe code wrote outside the
stack.
---
 src/arch/mod.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/arch/mod.rs b/src/arch/mod.rs
index a5c7d56..92be612 100644
--- a/src/arch/mod.rs
+++ b/src/arch/mod.rs
@@ -118,6 +118,13 @@ unsafe fn allocate_obj_on_stack<T>(sp: &mut usize, sp_offset: usize, obj: T) {
     // Sanity check to avoid stack overflows.
     assert!(mem::size_of::<T>() <= 1024, "type is too big to transfer");
 
+    // Aligning the stack pointer can skip up to `align_of::<T>() - 1` bytes,
+    // which must not move it outside the stack either.
+    assert!(
+        mem::align_of::<T>() <= 1024,
+        "type alignment is too big to transfer"
+    );
+
     if mem::align_of::<T>() > STACK_ALIGNMENT {
         *sp -= mem::size_of::<T>();
         *sp &= !(mem::align_of::<T>() - 1);
-- 
2.43.0


From 87de3675796130cdabf7ba3031d0018ba56d1d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:39 +0000
Subject: [PATCH 2/7] fix: don't drop the initial closure twice if its
 destructor panics

force_unwind on a coroutine that was never started left it in the initial state
when the destructor of the closure panicked, so that dropping the coroutine
afterwards dropped the closure again.
---
 src/coroutine.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/coroutine.rs b/src/coroutine.rs
index 9982cab..2d30645 100644
--- a/src/coroutine.rs
+++ b/src/coroutine.rs
@@ -347,10 +347,12 @@ impl<Input, Yield, Return, Stack: stack::Stack> Coroutine<Input, Yield, Return,
         // If the coroutine has not started yet then we just need to drop the
         // initial object.
         if !self.started() {
+            // Mark the coroutine as done first so that the object is not dropped
+            // a second time if its destructor panics.
+            self.stack_ptr = None;
             unsafe {
                 arch::drop_initial_obj(self.stack.base(), stack_ptr, self.drop_fn);
             }
-            self.stack_ptr = None;
             return;
         }
 
-- 
2.43.0


From cf989ccd1065cede89e94c9a9a451f404729f9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:40 +0000
Subject: [PATCH 3/7] fix: keep assembly that may unwind out of functions with
 landing pads

---
 src/arch/aarch64.rs        | 11 +++++++----
 src/arch/arm.rs            | 11 +++++++----
 src/arch/loongarch64.rs    | 11 +++++++----
 src/arch/riscv.rs          | 11 +++++++----
 src/arch/x86.rs            | 11 +++++++----
 src/arch/x86_64.rs         | 12 ++++++++----
 src/arch/x86_64_windows.rs |  3 ++-
 src/arch/x86_windows.rs    |  3 ++-
 src/unwind.rs              |  6 ++++++
 9 files changed, 53 insertions(+), 26 deletions(-)

diff --git a/src/arch/aarch64.rs b/src/arch/aarch64.rs
index 7a8662e..3314c35 100644
--- a/src/arch/aarch64.rs
+++ b/src/arch/aarch64.rs
@@ -216,7 +216,8 @@ pub unsafe fn init_stack<T>(stack: &impl Stack, func: InitialFunc<T>, obj: T) ->
     StackPointer::new_unchecked(sp)
 }
 
-#[inline]
+#[cfg_attr(not(feature = "asm-unwind"), inline)]
+#[cfg_attr(feature = "asm-unwind", inline(never))]
 pub unsafe fn switch_and_link(
     arg: EncodedValue,
     sp: StackPointer,
@@ -269,7 +270,8 @@ pub unsafe fn switch_and_link(
     (ret_val, StackPointer::new(ret_sp))
 }
 
-#[inline(always)]
+#[cfg_attr(not(feature = "asm-unwind"), inline(always))]
+#[cfg_attr(feature = "asm-unwind", inline(never))]
 pub unsafe fn switch_yield(arg: EncodedValue, parent_link: *mut StackPointer) -> EncodedValue {
     let ret_val;
 
@@ -376,7 +378,7 @@ pub unsafe fn switch_and_reset(arg: EncodedValue, parent_link: *mut StackPointer
     );
 }
 
-#[inline]
+#[inline(never)]
 #[cfg(feature = "asm-unwind")]
 pub unsafe fn switch_and_throw(
     forced_unwind: crate::unwind::ForcedUnwind,
@@ -518,7 +520,8 @@ pub unsafe fn setup_trap_trampoline<T>(
 
 /// This function executes a function on the given stack. The argument is passed
 /// through to the called function.
-#[inline]
+#[cfg_attr(not(feature = "asm-unwind"), inline)]
+#[cfg_attr(feature = "asm-unwind", inline(never))]
 pub unsafe fn on_stack(arg: *mut u8, stack: impl Stack, f: StackCallFunc) {
     // This is a bit subtle: because we use .cfi_signal_frame in the trampoline,
     // the unwinder will look for unwinding information at the instruction
diff --git a/src/arch/arm.rs b/src/arch/arm.rs
index 02420d8..13201ad 100644
--- a/src/arch/arm.rs
+++ b/src/arch/arm.rs
@@ -431,7 +431,8 @@ pub unsafe fn init_stack<T>(stack: &impl Stack, func: InitialFunc<T>, obj: T) ->
     StackPointer::new_unchecked(sp)
 }
 
-#[inline]
+#[cfg_attr(not(feature = "asm-unwind"), inline)]
+#[cfg_attr(feature = "asm-unwind", inline(never))]
 pub unsafe fn switch_and_link(
     arg: EncodedValue,
     sp: StackPointer,
@@ -473,7 +474,8 @@ pub unsafe fn switch_and_link(
     (ret_val, StackPointer::new(ret_sp))
 }
 
-#[inline(always)]
+#[cfg_attr(not(feature = "asm-unwind"), inline(always))]
+#[cfg_attr(feature = "asm-unwind", inline(never))]
 pub unsafe fn switch_yield(arg: EncodedValue, parent_link: *mut StackPointer) -> EncodedValue {
     let ret_val;
 
@@ -562,7 +564,7 @@ pub unsafe fn switch_and_reset(arg: EncodedValue, parent_link: *mut StackPointer
     );
 }
 
-#[inline]
+#[inline(never)]
 #[cfg(feature = "asm-unwind")]
 pub unsafe fn switch_and_throw(
     forced_unwind: crate::unwind::ForcedUnwind,
@@ -706,7 +708,8 @@ pub unsafe fn setup_trap_trampoline<T>(
 
 /// This function executes a function on the given stack. The argument is passed
 /// through to the called function.
-#[inline]
+#[cfg_attr(not(feature = "asm-unwind"), inline)]
+#[cfg_attr(feature = "asm-unwind", inline(never))]
 pub unsafe fn on_stack(arg: *mut u8, stack: impl Stack, f: StackCallFunc) {
     // This is a bit subtle: because we use .cfi_signal_frame in the trampoline,
     // the unwinder will look for unwinding information at the instruction
diff --git a/src/arch/loongarch64.rs b/src/arch/loongarch64.rs
index 8985693..d5c9f87 100644
--- a/src/arch/loongarch64.rs
+++ b/src/arch/loongarch64.rs
@@ -223,7 +223,8 @@ pub unsafe fn init_stack<T>(stack: &impl Stack, func: InitialFunc<T>, obj: T) ->
     StackPointer::new_unchecked(sp)
 }
 
-#[inline]
+#[cfg_attr(not(feature = "asm-unwind"), inline)]
+#[cfg_attr(feature = "asm-unwind", inline(never))]
 pub unsafe fn switch_and_link(
     arg: EncodedValue,
     sp: StackPointer,
@@ -276,7 +277,8 @@ pub unsafe fn switch_and_link(
     (ret_val, StackPointer::new(ret_sp))
 }
 
-#[inline(always)]
+#[cfg_attr(not(feature = "asm-unwind"), inline(always))]
+#[cfg_attr(feature = "asm-unwind", inline(never))]
 pub unsafe fn switch_yield(arg: EncodedValue, parent_link: *mut StackPointer) -> EncodedValue {
     let ret_val;
 
@@ -392,7 +394,7 @@ pub unsafe fn switch_and_reset(arg: EncodedValue, parent_link: *mut StackPointer
     );
 }
 
-#[inline]
+#[inline(never)]
 #[cfg(feature = "asm-unwind")]
 pub unsafe fn switch_and_throw(
     forced_unwind: crate::unwind::ForcedUnwind,
@@ -538,7 +540,8 @@ pub unsafe fn setup_trap_trampoline<T>(
 
 /// This function executes a function on the given stack. The argument is passed
 /// through to the called function.
-#[inline]
+#[cfg_attr(not(feature = "asm-unwind"), inline)]
+#[cfg_attr(feature = "asm-unwind", inline(never))]
 pub unsafe fn on_stack(arg: *mut u8, stack: impl Stack, f: StackCallFunc) {
     // This is a bit subtle: because we use .cfi_signal_frame in the trampoline,
     // the unwinder will look for unwinding information at the instruction
diff --git a/src/arch/riscv.rs b/src/arch/riscv.rs
index 153937a..2d0c8f0 100644
--- a/src/arch/riscv.rs
+++ b/src/arch/riscv.rs
@@ -286,7 +286,8 @@ pub unsafe fn init_stack<T>(stack: &impl Stack, func: InitialFunc<T>, obj: T) ->
     StackPointer::new_unchecked(sp)
 }
 
-#[inline]
+#[cfg_attr(not(feature = "asm-unwind"), inline)]
+#[cfg_attr(feature = "asm-unwind", inline(never))]
 pub unsafe fn switch_and_link(
     arg: EncodedValue,
     sp: StackPointer,
@@ -341,7 +342,8 @@ pub unsafe fn switch_and_link(
     (ret_val, StackPointer::new(ret_sp))
 }
 
-#[inline(always)]
+#[cfg_attr(not(feature = "asm-unwind"), inline(always))]
+#[cfg_attr(feature = "asm-unwind", inline(never))]
 pub unsafe fn switch_yield(arg: EncodedValue, parent_link: *mut StackPointer) -> EncodedValue {
     let ret_val;
 
@@ -459,7 +461,7 @@ pub unsafe fn switch_and_reset(arg: EncodedValue, parent_link: *mut StackPointer
     );
 }
 
-#[inline]
+#[inline(never)]
 #[cfg(feature = "asm-unwind")]
 pub unsafe fn switch_and_throw(
     forced_unwind: crate::unwind::ForcedUnwind,
@@ -602,7 +604,8 @@ pub unsafe fn setup_trap_trampoline<T>(
 
 /// This function executes a function on the given stack. The argument is passed
 /// through to the called function.
-#[inline]
+#[cfg_attr(not(feature = "asm-unwind"), inline)]
+#[cfg_attr(feature = "asm-unwind", inline(never))]
 pub unsafe fn on_stack(arg: *mut u8, stack: impl Stack, f: StackCallFunc) {
     // This is a bit subtle: because we use .cfi_signal_frame in the trampoline,
     // the unwinder will look for unwinding information at the instruction
diff --git a/src/arch/x86.rs b/src/arch/x86.rs
index f819156..2fbff62 100644
--- a/src/arch/x86.rs
+++ b/src/arch/x86.rs
@@ -213,7 +213,8 @@ pub unsafe fn init_stack<T>(stack: &impl Stack, func: InitialFunc<T>, obj: T) ->
     StackPointer::new_unchecked(sp)
 }
 
-#[inline]
+#[cfg_attr(not(feature = "asm-unwind"), inline)]
+#[cfg_attr(feature = "asm-unwind", inline(never))]
 pub unsafe fn switch_and_link(
     arg: EncodedValue,
     sp: StackPointer,
@@ -269,7 +270,8 @@ pub unsafe fn switch_and_link(
     (ret_val, StackPointer::new(ret_sp))
 }
 
-#[inline(always)]
+#[cfg_attr(not(feature = "asm-unwind"), inline(always))]
+#[cfg_attr(feature = "asm-unwind", inline(never))]
 pub unsafe fn switch_yield(arg: EncodedValue, parent_link: *mut StackPointer) -> EncodedValue {
     let ret_val;
 
@@ -379,7 +381,7 @@ pub unsafe fn switch_and_reset(arg: EncodedValue, parent_link: *mut StackPointer
     );
 }
 
-#[inline]
+#[inline(never)]
 #[cfg(feature = "asm-unwind")]
 pub unsafe fn switch_and_throw(
     forced_unwind: crate::unwind::ForcedUnwind,
@@ -533,7 +535,8 @@ pub unsafe fn setup_trap_trampoline<T>(
 
 /// This function executes a function on the given stack. The argument is passed
 /// through to the called function.
-#[inline]
+#[cfg_attr(not(feature = "asm-unwind"), inline)]
+#[cfg_attr(feature = "asm-unwind", inline(never))]
 pub unsafe fn on_stack(arg: *mut u8, stack: impl Stack, f: StackCallFunc) {
     // This is a bit subtle: because we use .cfi_signal_frame in the trampoline,
     // the unwinder will look for unwinding information at the instruction
diff --git a/src/arch/x86_64.rs b/src/arch/x86_64.rs
index b84a7c5..c6c55f2 100644
--- a/src/arch/x86_64.rs
+++ b/src/arch/x86_64.rs
@@ -318,7 +318,8 @@ pub unsafe fn init_stack<T>(stack: &impl Stack, func: InitialFunc<T>, obj: T) ->
 /// When another context switches back to us, we receive the argument they sent
 /// as well as the stack pointer of the originating context. This can be `None`
 /// if the caller used `switch_and_reset` and can't be returned to.
-#[inline]
+#[cfg_attr(not(feature = "asm-unwind"), inline)]
+#[cfg_attr(feature = "asm-unwind", inline(never))]
 pub unsafe fn switch_and_link(
     arg: EncodedValue,
     sp: StackPointer,
@@ -410,7 +411,9 @@ pub unsafe fn switch_and_link(
 /// context is available in the parent link on the stack.
 // This function must always be inlined because it is very sensitive to the
 // CPU's return address predictor. See stack_init_trampoline for more details.
-#[inline(always)]
+// The exception is asm-unwind, see unwind.rs.
+#[cfg_attr(not(feature = "asm-unwind"), inline(always))]
+#[cfg_attr(feature = "asm-unwind", inline(never))]
 pub unsafe fn switch_yield(arg: EncodedValue, parent_link: *mut StackPointer) -> EncodedValue {
     let ret_val;
 
@@ -534,7 +537,7 @@ pub unsafe fn switch_and_reset(arg: EncodedValue, parent_link: *mut StackPointer
 /// Variant of `switch_and_link` which runs a function on the coroutine stack
 /// instead of resuming the coroutine. This function will throw an exception
 /// which will unwind the coroutine stack to its root.
-#[inline]
+#[inline(never)]
 #[cfg(feature = "asm-unwind")]
 pub unsafe fn switch_and_throw(
     forced_unwind: crate::unwind::ForcedUnwind,
@@ -689,7 +692,8 @@ pub unsafe fn setup_trap_trampoline<T>(
 
 /// This function executes a function on the given stack. The argument is passed
 /// through to the called function.
-#[inline]
+#[cfg_attr(not(feature = "asm-unwind"), inline)]
+#[cfg_attr(feature = "asm-unwind", inline(never))]
 pub unsafe fn on_stack(arg: *mut u8, stack: impl Stack, f: StackCallFunc) {
     // This is a bit subtle: because we use .cfi_signal_frame in the trampoline,
     // the unwinder will look for unwinding information at the instruction
diff --git a/src/arch/x86_64_windows.rs b/src/arch/x86_64_windows.rs
index 3133047..e21ecb5 100644
--- a/src/arch/x86_64_windows.rs
+++ b/src/arch/x86_64_windows.rs
@@ -388,7 +388,8 @@ pub unsafe fn switch_and_link(
     (ret_val, StackPointer::new(ret_sp))
 }
 
-#[inline(always)]
+#[cfg_attr(not(feature = "asm-unwind"), inline(always))]
+#[cfg_attr(feature = "asm-unwind", inline(never))]
 pub unsafe fn switch_yield(arg: EncodedValue, parent_link: *mut StackPointer) -> EncodedValue {
     let ret_val;
 
diff --git a/src/arch/x86_windows.rs b/src/arch/x86_windows.rs
index 4404164..76f0d22 100644
--- a/src/arch/x86_windows.rs
+++ b/src/arch/x86_windows.rs
@@ -478,7 +478,8 @@ pub unsafe fn switch_and_link(
     (ret_val, StackPointer::new(ret_sp))
 }
 
-#[inline(always)]
+#[cfg_attr(not(feature = "asm-unwind"), inline(always))]
+#[cfg_attr(feature = "asm-unwind", inline(never))]
 pub unsafe fn switch_yield(arg: EncodedValue, parent_link: *mut StackPointer) -> EncodedValue {
     let ret_val;
 
diff --git a/src/unwind.rs b/src/unwind.rs
index e40e16f..c9b8c10 100644
--- a/src/unwind.rs
+++ b/src/unwind.rs
@@ -5,6 +5,12 @@
 //! through our inline assembly code directly by using the `asm-unwind` and
 //! `c_unwind` nightly features.
 //!
+//! Functions containing such assembly are not inlined: LLVM doesn't treat inline
+//! assembly as a call when generating exception tables and when placing reloads
+//! ahead of a landing pad. If the assembly ended up in a function with landing
+//! pads then unwinding through it could abort, or enter a landing pad with the
+//! wrong values in registers.
+//!
 //! If nighlty Rust is not available then we catch panics with `catch_unwind`,
 //! pass them through the assembly code as a `Result` and then call
 //! `resume_unwind` to continue unwinding afterwards.
-- 
2.43.0


From 5b817e2c460762067ec32a7f3a9b82d31d67cbd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:31 +0000
Subject: [PATCH 4/7] fix: make asm-unwind on LoongArch64 compile and return to
 the right stack pointer

switch_and_throw lacked the commas between its asm template strings, and after
the coroutine finished it popped 32 bytes where only 16 are on the parent's
stack (compare switch_and_link).
---
 src/arch/loongarch64.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/arch/loongarch64.rs b/src/arch/loongarch64.rs
index d5c9f87..93efc9f 100644
--- a/src/arch/loongarch64.rs
+++ b/src/arch/loongarch64.rs
@@ -414,19 +414,19 @@ pub unsafe fn switch_and_throw(
         "la.pcrel $ra, 0f",
 
         // Save the registers of the parent context.
-        "addi.d $sp, $sp, -32"
-        "st.d $s8, $sp, 16"
-        "st.d $ra, $sp, 8"
-        "st.d $fp, $sp, 0"
+        "addi.d $sp, $sp, -32",
+        "st.d $s8, $sp, 16",
+        "st.d $ra, $sp, 8",
+        "st.d $fp, $sp, 0",
 
         // Update the parent link near the base of the coroutine stack.
-        "addi.d $t1, $sp, 16"
-        "st.d $t1, $a1, -16"
+        "addi.d $t1, $sp, 16",
+        "st.d $t1, $a1, -16",
 
         // Load the coroutine registers, with the saved PC into RA.
-        "ld.d $ra, $t0, 16"
-        "ld.d $s8, $t0, 8"
-        "ld.d $fp, $t0, 0"
+        "ld.d $ra, $t0, 16",
+        "ld.d $s8, $t0, 8",
+        "ld.d $fp, $t0, 0",
 
         // Switch to the coroutine stack while popping the saved registers and
         // padding.
@@ -450,7 +450,7 @@ pub unsafe fn switch_and_throw(
         "0:",
 
         // Switch back to our stack and free the saved registers.
-        "addi.d $sp, $a2, 32",
+        "addi.d $sp, $a2, 16",
 
         // Helper function to trigger stack unwinding.
         throw = sym throw,
-- 
2.43.0


From fec78dfe5f2dabaf942686b0d10ef140090d4c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:59 +0000
Subject: [PATCH 5/7] fix: make asm-unwind on x86_64 Windows compile

The label that switch_and_throw jumps back to was missing its colon, so the
assembler rejected the whole block.
---
 src/arch/x86_64_windows.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arch/x86_64_windows.rs b/src/arch/x86_64_windows.rs
index e21ecb5..ac525bd 100644
--- a/src/arch/x86_64_windows.rs
+++ b/src/arch/x86_64_windows.rs
@@ -557,7 +557,7 @@ pub unsafe fn switch_and_throw(
 
         // Upon returning, our register state is just like a normal return into
         // switch_and_link().
-        "2",
+        "2:",
 
         // This is copied from the second half of switch_and_link().
         "pop rbx",
-- 
2.43.0


From b6dc11b7c959888de460f07eb97fda3afb3ae88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:12 +0000
Subject: [PATCH 6/7] fix: keep the stack's TEB fields if the initial closure's
 destructor panics

On Windows drop_initial_obj only stored the fields after the destructor had
returned, so update_stack_teb_fields read uninitialized memory when it
unwound.
---
 src/arch/x86_64_windows.rs | 11 ++++++-----
 src/arch/x86_windows.rs    | 11 ++++++-----
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/arch/x86_64_windows.rs b/src/arch/x86_64_windows.rs
index ac525bd..b9b1ef4 100644
--- a/src/arch/x86_64_windows.rs
+++ b/src/arch/x86_64_windows.rs
@@ -596,15 +596,16 @@ pub unsafe fn drop_initial_obj(
     stack_ptr: StackPointer,
     drop_fn: unsafe fn(ptr: *mut u8),
 ) {
-    let ptr = (stack_ptr.get() as *mut u8).add(40);
-    drop_fn(ptr);
-
-    // Also copy the TEB fields to the base of the stack so that they can be
-    // retreived by update_stack_teb_fields().
+    // Copy the TEB fields to the base of the stack so that they can be
+    // retreived by update_stack_teb_fields(). This is done before calling the
+    // destructor since that may unwind.
     let base = stack_base.get() as *mut StackWord;
     let stack = stack_ptr.get() as *const StackWord;
     *base.sub(1) = *stack.add(2); // StackLimit
     *base.sub(2) = *stack.add(4); // GuaranteedStackBytes
+
+    let ptr = (stack_ptr.get() as *mut u8).add(40);
+    drop_fn(ptr);
 }
 
 /// This function must be called after a stack has finished running a coroutine
diff --git a/src/arch/x86_windows.rs b/src/arch/x86_windows.rs
index 76f0d22..47b67e5 100644
--- a/src/arch/x86_windows.rs
+++ b/src/arch/x86_windows.rs
@@ -711,15 +711,16 @@ pub unsafe fn drop_initial_obj(
     stack_ptr: StackPointer,
     drop_fn: unsafe fn(ptr: *mut u8),
 ) {
-    let ptr = (stack_ptr.get() as *mut u8).add(28);
-    drop_fn(ptr);
-
-    // Also copy the TEB fields to the base of the stack so that they can be
-    // retreived by update_stack_teb_fields().
+    // Copy the TEB fields to the base of the stack so that they can be
+    // retreived by update_stack_teb_fields(). This is done before calling the
+    // destructor since that may unwind.
     let base = stack_base.get() as *mut StackWord;
     let stack = stack_ptr.get() as *const StackWord;
     *base.sub(1) = *stack.add(3); // StackLimit
     *base.sub(2) = *stack.add(5); // GuaranteedStackBytes
+
+    let ptr = (stack_ptr.get() as *mut u8).add(28);
+    drop_fn(ptr);
 }
 
 /// This function must be called after a stack has finished running a coroutine
-- 
2.43.0


From 1e016124c0799b9359dabaab4a6c2b9448f733b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:19 +0000
Subject: [PATCH 7/7] fix: force_reset must not leave the stack with
 uninitialized TEB fields

On Windows update_stack_teb_fields reads StackLimit and
GuaranteedStackBytes from the base of the stack, where they are written when
the coroutine completes. A coroutine which was reset before that left these
words uninitialized, so that the next user of the stack installed arbitrary
values in the TEB. Use the values which were saved when the coroutine was
suspended or initialized.
---
 src/arch/x86_64_windows.rs | 21 +++++++++++++++++++++
 src/arch/x86_windows.rs    | 21 +++++++++++++++++++++
 src/coroutine.rs           |  5 +++++
 3 files changed, 47 insertions(+)

diff --git a/src/arch/x86_64_windows.rs b/src/arch/x86_64_windows.rs
index b9b1ef4..c35cec4 100644
--- a/src/arch/x86_64_windows.rs
+++ b/src/arch/x86_64_windows.rs
@@ -608,6 +608,27 @@ pub unsafe fn drop_initial_obj(
     drop_fn(ptr);
 }
 
+/// This function is called by `force_reset` to copy the TEB fields that were
+/// saved when the coroutine was suspended (or initialized, if it was never
+/// started) to the base of the stack so that they can be retreived by
+/// update_stack_teb_fields().
+#[inline]
+pub unsafe fn save_stack_teb_fields(stack: &impl Stack, stack_ptr: StackPointer, started: bool) {
+    let saved = (stack_ptr.get() as *const StackWord).add(if started { 4 } else { 1 });
+    let mut teb = stack.teb_fields();
+
+    // If the coroutine was suspended from within on_stack then the saved fields
+    // are those of another stack.
+    if *saved as usize == teb.StackBase {
+        teb.StackLimit = *saved.add(1) as usize;
+        teb.GuaranteedStackBytes = *saved.add(3) as usize;
+    }
+
+    let base = stack.base().get() as *mut StackWord;
+    *base.sub(1) = teb.StackLimit as StackWord;
+    *base.sub(2) = teb.GuaranteedStackBytes as StackWord;
+}
+
 /// This function must be called after a stack has finished running a coroutine
 /// so that the `StackLimit` and `GuaranteedStackBytes` fields from the TEB can
 /// be updated in the stack. This is necessary if the stack is reused for
diff --git a/src/arch/x86_windows.rs b/src/arch/x86_windows.rs
index 47b67e5..b63ab7e 100644
--- a/src/arch/x86_windows.rs
+++ b/src/arch/x86_windows.rs
@@ -723,6 +723,27 @@ pub unsafe fn drop_initial_obj(
     drop_fn(ptr);
 }
 
+/// This function is called by `force_reset` to copy the TEB fields that were
+/// saved when the coroutine was suspended (or initialized, if it was never
+/// started) to the base of the stack so that they can be retreived by
+/// update_stack_teb_fields().
+#[inline]
+pub unsafe fn save_stack_teb_fields(stack: &impl Stack, stack_ptr: StackPointer, started: bool) {
+    let saved = (stack_ptr.get() as *const StackWord).add(if started { 4 } else { 2 });
+    let mut teb = stack.teb_fields();
+
+    // If the coroutine was suspended from within on_stack then the saved fields
+    // are those of another stack.
+    if *saved as usize == teb.StackBase {
+        teb.StackLimit = *saved.add(1) as usize;
+        teb.GuaranteedStackBytes = *saved.add(3) as usize;
+    }
+
+    let base = stack.base().get() as *mut StackWord;
+    *base.sub(1) = teb.StackLimit as StackWord;
+    *base.sub(2) = teb.GuaranteedStackBytes as StackWord;
+}
+
 /// This function must be called after a stack has finished running a coroutine
 /// so that the `StackLimit` and `GuaranteedStackBytes` fields from the TEB can
 /// be updated in the stack. This is necessary if the stack is reused for
diff --git a/src/coroutine.rs b/src/coroutine.rs
index 2d30645..36a3c4a 100644
--- a/src/coroutine.rs
+++ b/src/coroutine.rs
@@ -312,6 +312,11 @@ impl<Input, Yield, Return, Stack: stack::Stack> Coroutine<Input, Yield, Return,
     /// This can only be done safely if there are no objects currently on the
     /// coroutine's stack that need to execute `Drop` code.
     pub unsafe fn force_reset(&mut self) {
+        #[cfg(windows)]
+        if let Some(stack_ptr) = self.stack_ptr {
+            arch::save_stack_teb_fields(&self.stack, stack_ptr, self.started());
+        }
+
         self.stack_ptr = None;
     }
 
-- 
2.43.0

