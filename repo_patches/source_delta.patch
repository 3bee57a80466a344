From a56277dc668385b902e570171bdf5a4ba018182f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:11 +0000
Subject: [PATCH 1/3] fix: don't drop the initial closure twice if its
 destructor panics

---
 src/coroutine.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/coroutine.rs b/src/coroutine.rs
index 9982cab..460ddd6 100644
--- a/src/coroutine.rs
+++ b/src/coroutine.rs
@@ -347,10 +347,13 @@ impl<Input, Yield, Return, Stack: stack::Stack> Coroutine<Input, Yield, Return,
         // If the coroutine has not started yet then we just need to drop the
         // initial object.
         if !self.started() {
+            // Mark the coroutine as completed before dropping the initial
+            // object: if its destructor panics then it must not be dropped
+            // again or executed later.
+            self.stack_ptr = None;
             unsafe {
                 arch::drop_initial_obj(self.stack.base(), stack_ptr, self.drop_fn);
             }
-            self.stack_ptr = None;
             return;
         }
 
-- 
2.43.0


From 5d7fa5bbc1dae63bd569d4a2f7e81d85018098d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:11 +0000
Subject: [PATCH 2/3] fix: reject over-aligned zero-sized closures which can
 skip past the stack's guard page

---
 src/arch/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/arch/mod.rs b/src/arch/mod.rs
index a5c7d56..e8e701f 100644
--- a/src/arch/mod.rs
+++ b/src/arch/mod.rs
@@ -115,8 +115,12 @@ cfg_if::cfg_if! {
 /// `STACK_ALIGNMENT`.
 #[inline]
 unsafe fn allocate_obj_on_stack<T>(sp: &mut usize, sp_offset: usize, obj: T) {
-    // Sanity check to avoid stack overflows.
-    assert!(mem::size_of::<T>() <= 1024, "type is too big to transfer");
+    // Sanity check to avoid stack overflows. The alignment needs to be checked
+    // separately because of zero-sized types.
+    assert!(
+        mem::size_of::<T>() <= 1024 && mem::align_of::<T>() <= 1024,
+        "type is too big to transfer"
+    );
 
     if mem::align_of::<T>() > STACK_ALIGNMENT {
         *sp -= mem::size_of::<T>();
-- 
2.43.0


From a972b74e09c2cf6576821580bb9af916d1ae2152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:27 +0000
Subject: [PATCH 3/3] fix: don't take a kept payload of an earlier coroutine's
 forced unwind for the current one

---
 src/coroutine.rs | 15 ++++++++++++++-
 src/unwind.rs    |  4 ++--
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/coroutine.rs b/src/coroutine.rs
index 460ddd6..4dbf56c 100644
--- a/src/coroutine.rs
+++ b/src/coroutine.rs
@@ -365,6 +365,16 @@ impl<Input, Yield, Return, Stack: stack::Stack> Coroutine<Input, Yield, Return,
             extern crate std;
 
             let forced_unwind = unwind::ForcedUnwind(stack_ptr);
+
+            // Allocate the payload here since its address is part of what
+            // identifies this unwinding: the stack pointer alone may also be
+            // that of an earlier coroutine at the same place whose payload was
+            // caught and kept.
+            #[cfg(not(feature = "asm-unwind"))]
+            let forced_unwind = std::boxed::Box::new(forced_unwind);
+            #[cfg(not(feature = "asm-unwind"))]
+            let payload: *const unwind::ForcedUnwind = &*forced_unwind;
+
             let result = unwind::catch_forced_unwind(|| {
                 #[cfg(not(feature = "asm-unwind"))]
                 let result = unsafe { self.resume_inner(stack_ptr, Err(forced_unwind)) };
@@ -381,7 +391,10 @@ impl<Input, Yield, Return, Stack: stack::Stack> Coroutine<Input, Yield, Return,
                 Ok(_) => panic!("the ForcedUnwind panic was caught and not rethrown"),
                 Err(e) => {
                     if let Some(forced_unwind) = e.downcast_ref::<unwind::ForcedUnwind>() {
-                        if forced_unwind.0 == stack_ptr {
+                        let same_unwind = forced_unwind.0 == stack_ptr;
+                        #[cfg(not(feature = "asm-unwind"))]
+                        let same_unwind = same_unwind && ptr::eq(forced_unwind, payload);
+                        if same_unwind {
                             return;
                         }
                     }
diff --git a/src/unwind.rs b/src/unwind.rs
index e40e16f..6682fcf 100644
--- a/src/unwind.rs
+++ b/src/unwind.rs
@@ -318,13 +318,13 @@ cfg_if::cfg_if! {
     } else if #[cfg(feature = "unwind")] {
         #[repr(transparent)]
         pub struct ForcedUnwind(pub StackPointer);
-        pub type ForcedUnwindErr = ForcedUnwind;
+        pub type ForcedUnwindErr = Box<ForcedUnwind>;
 
         #[inline]
         pub fn maybe_force_unwind<T>(val: Result<T, ForcedUnwindErr>) -> T {
             match val {
                 Ok(val) => val,
-                Err(e) => panic::resume_unwind(Box::new(e)),
+                Err(e) => panic::resume_unwind(e),
             }
         }
     } else {
-- 
2.43.0

