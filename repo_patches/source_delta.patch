From 4c3d85859b7c4918547ae8e2ee7a061e42a6ae1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:51 +0000
Subject: [PATCH 1/7] Guarded simulation seam (cfg fieldx_dst) for the lazy
 proxies' set flag

---
 fieldx/src/async/fxproxy.rs | 10 +++++++++-
 fieldx/src/sync/fxproxy.rs  | 10 +++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/fieldx/src/async/fxproxy.rs b/fieldx/src/async/fxproxy.rs
index 1206c29..1f5fdb8 100644
--- a/fieldx/src/async/fxproxy.rs
+++ b/fieldx/src/async/fxproxy.rs
@@ -1,3 +1,4 @@
+#![allow(unexpected_cfgs)]
 use crate::traits::{FXBuilderWrapper, FXStruct};
 use async_trait::async_trait;
 use std::{
@@ -7,10 +8,17 @@ use std::{
     fmt::{Debug, Formatter},
     future::Future,
     pin::Pin,
-    sync::atomic::{AtomicBool, Ordering},
+    sync::atomic::Ordering,
 };
 use tokio::sync::{RwLock, RwLockMappedWriteGuard, RwLockReadGuard, RwLockWriteGuard};
 
+// Simulation seam: builds with `--cfg fieldx_dst` (never set by default) take the flag's atomic from the simulated lock
+// crate, so that a simulator decides what happens at every access to it.
+#[cfg(not(fieldx_dst))]
+use std::sync::atomic::AtomicBool;
+#[cfg(fieldx_dst)]
+use ::tokio::dst::AtomicBool;
+
 type FXCallback<S, T> = Box<dyn Fn(&S) -> Pin<Box<dyn Future<Output = T> + Send + '_>> + Send + Sync>;
 
 #[doc(hidden)]
diff --git a/fieldx/src/sync/fxproxy.rs b/fieldx/src/sync/fxproxy.rs
index 4764596..5c49dc9 100644
--- a/fieldx/src/sync/fxproxy.rs
+++ b/fieldx/src/sync/fxproxy.rs
@@ -1,3 +1,4 @@
+#![allow(unexpected_cfgs)]
 use crate::traits::{FXBuilderWrapper, FXStruct};
 use parking_lot::{
     MappedRwLockReadGuard, MappedRwLockWriteGuard, RwLock, RwLockReadGuard, RwLockUpgradableReadGuard, RwLockWriteGuard,
@@ -6,9 +7,16 @@ use std::{
     any,
     cell::RefCell,
     fmt::{self, Debug, Formatter},
-    sync::atomic::{AtomicBool, Ordering},
+    sync::atomic::Ordering,
 };
 
+// Simulation seam: builds with `--cfg fieldx_dst` (never set by default) take the flag's atomic from the simulated lock
+// crate, so that a simulator decides what happens at every access to it.
+#[cfg(not(fieldx_dst))]
+use std::sync::atomic::AtomicBool;
+#[cfg(fieldx_dst)]
+use ::parking_lot::dst::AtomicBool;
+
 #[doc(hidden)]
 pub trait FXBuilderWrapperSync: FXBuilderWrapper {
     fn invoke(&self, owner: &Self::Owner) -> Result<Self::Value, Self::Error>;
-- 
2.43.0


From 8b0967f9278770f09ae34d912b7012c6d4a18eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:13 +0000
Subject: [PATCH 2/7] fix: comparing sync fields must not deadlock with a
 waiting writer

Comparison takes read locks on both containers. A second plain read() queues
behind a waiting writer, which in turn may be waiting for the read lock taken
first (same object on both sides, or two threads comparing in both directions).
---
 fieldx/src/sync/fxlock.rs  | 3 ++-
 fieldx/src/sync/fxproxy.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/fieldx/src/sync/fxlock.rs b/fieldx/src/sync/fxlock.rs
index d7bf6e5..8d53fdb 100644
--- a/fieldx/src/sync/fxlock.rs
+++ b/fieldx/src/sync/fxlock.rs
@@ -26,7 +26,8 @@ where
 {
     fn eq(&self, other: &Self) -> bool {
         let myguard = self.0.read();
-        let otherguard = other.0.read();
+        // With one read lock held already we must not queue behind a waiting writer: it may be waiting for `myguard`.
+        let otherguard = other.0.read_recursive();
 
         myguard.eq(&otherguard)
     }
diff --git a/fieldx/src/sync/fxproxy.rs b/fieldx/src/sync/fxproxy.rs
index 5c49dc9..b22d911 100644
--- a/fieldx/src/sync/fxproxy.rs
+++ b/fieldx/src/sync/fxproxy.rs
@@ -271,7 +271,8 @@ where
 {
     fn eq(&self, other: &Self) -> bool {
         let myguard = self.value.read();
-        let otherguard = other.value.read();
+        // With one read lock held already we must not queue behind a waiting writer: it may be waiting for `myguard`.
+        let otherguard = other.value.read_recursive();
         myguard.eq(&otherguard)
     }
 }
-- 
2.43.0


From 678ddc8ce86c20bea69f4d9bf4bacea993a2bcab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:13 +0000
Subject: [PATCH 3/7] fix: comparing async fields must not deadlock with a
 waiting writer

FXRwLockAsync took two read locks in operand order, so that comparing a container
with itself, or two containers in both directions, hangs when a writer queues up
between the two acquisitions.
---
 fieldx/src/async/fxlock.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/fieldx/src/async/fxlock.rs b/fieldx/src/async/fxlock.rs
index 1321bba..127eb4a 100644
--- a/fieldx/src/async/fxlock.rs
+++ b/fieldx/src/async/fxlock.rs
@@ -35,8 +35,22 @@ where
     T: PartialEq,
 {
     fn eq(&self, other: &Self) -> bool {
-        let myguard = self.0.blocking_read();
-        let otherguard = other.0.blocking_read();
+        // Locking the same container twice, or two containers in opposite order by two threads, would deadlock as soon
+        // as a writer is waiting in between.
+        if std::ptr::eq(self, other) {
+            let guard = self.0.blocking_read();
+            return guard.eq(&guard);
+        }
+
+        let (myguard, otherguard);
+        if (self as *const Self) < (other as *const Self) {
+            myguard = self.0.blocking_read();
+            otherguard = other.0.blocking_read();
+        }
+        else {
+            otherguard = other.0.blocking_read();
+            myguard = self.0.blocking_read();
+        }
 
         myguard.eq(&otherguard)
     }
-- 
2.43.0


From 638a7f65fffef8bbd77c29f807379b26971376f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:37 +0000
Subject: [PATCH 4/7] fix: a panicking conversion in a plain lazy setter must
 not empty the field

The setter took the old value out before running the user's Into conversion; a
panic in it lost the old value.
---
 fieldx_derive/src/codegen/plain.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fieldx_derive/src/codegen/plain.rs b/fieldx_derive/src/codegen/plain.rs
index bc78fc2..631ea63 100644
--- a/fieldx_derive/src/codegen/plain.rs
+++ b/fieldx_derive/src/codegen/plain.rs
@@ -252,8 +252,10 @@ impl FXCodeGenContextual for FXCodeGenPlain {
                 quote_spanned![span=>
                     #attributes_fn
                     #vis_tok fn #setter_name #gen_params(&mut self, value: #val_type) -> ::std::option::Option<#ty_tok> {
+                        // Convert first: a panicking conversion must leave the field as it was.
+                        let value: #ty_tok = value #into_tok;
                         let old = self.#ident.take();
-                        let _ = self.#ident.set(value #into_tok);
+                        let _ = self.#ident.set(value);
                         old
                     }
                 ]
-- 
2.43.0


From a01579adf8cde4f9757f066b11d1dbf1889085bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:00 +0000
Subject: [PATCH 5/7] fix: debug formatting of lazy fields must not wait for
 locks

Formatting an object whose lazy field is write-locked (by the same thread, or by
its own running builder) deadlocked, and FXProxyAsync panicked when formatted
inside an async runtime. Show <locked> instead, as the lock types do.
---
 fieldx/src/async/fxproxy.rs | 12 +++++++-----
 fieldx/src/sync/fxproxy.rs  | 12 +++++++-----
 2 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/fieldx/src/async/fxproxy.rs b/fieldx/src/async/fxproxy.rs
index 1f5fdb8..7a0a8c6 100644
--- a/fieldx/src/async/fxproxy.rs
+++ b/fieldx/src/async/fxproxy.rs
@@ -114,11 +114,13 @@ where
     V: Debug,
 {
     fn fmt(&self, formatter: &mut Formatter<'_>) -> fmt::Result {
-        let vlock = self.value.blocking_read();
-        formatter
-            .debug_struct(any::type_name::<Self>())
-            .field("value", &*vlock)
-            .finish()
+        let mut debug_struct = formatter.debug_struct(any::type_name::<Self>());
+        // Same as the locks themselves do: never wait for anybody just to format.
+        match self.value.try_read() {
+            Ok(vlock) => debug_struct.field("value", &*vlock),
+            Err(_) => debug_struct.field("value", &format_args!("<locked>")),
+        };
+        debug_struct.finish()
     }
 }
 
diff --git a/fieldx/src/sync/fxproxy.rs b/fieldx/src/sync/fxproxy.rs
index b22d911..34100b6 100644
--- a/fieldx/src/sync/fxproxy.rs
+++ b/fieldx/src/sync/fxproxy.rs
@@ -100,11 +100,13 @@ where
     V: Debug,
 {
     fn fmt(&self, formatter: &mut Formatter<'_>) -> fmt::Result {
-        let vlock = self.value.read();
-        formatter
-            .debug_struct(any::type_name::<Self>())
-            .field("value", &*vlock)
-            .finish()
+        let mut debug_struct = formatter.debug_struct(any::type_name::<Self>());
+        // Same as the locks themselves do: never wait for anybody just to format.
+        match self.value.try_read() {
+            Some(vlock) => debug_struct.field("value", &*vlock),
+            None => debug_struct.field("value", &format_args!("<locked>")),
+        };
+        debug_struct.finish()
     }
 }
 
-- 
2.43.0


From d3281cc0eba35f6954f30c3edf6b2da937a0c900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:16 +0000
Subject: [PATCH 6/7] fix: deserialising a plain struct must not replace a
 cleared field with its default

A null for an optional or lazy field of a plain struct came back as the
field's default value, while the sync structs read it back unset. Round
trips of a cleared field therefore did not preserve it.
---
 fieldx_derive/src/codegen/plain.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fieldx_derive/src/codegen/plain.rs b/fieldx_derive/src/codegen/plain.rs
index 631ea63..2f66b03 100644
--- a/fieldx_derive/src/codegen/plain.rs
+++ b/fieldx_derive/src/codegen/plain.rs
@@ -448,9 +448,9 @@ impl FXCodeGenContextual for FXCodeGenPlain {
         let shadow_var = self.ctx().shadow_var_ident();
 
         Ok(if self.is_serde_optional(fctx) {
-            let default_value = self.field_default_wrap(fctx)?;
+            let unset_value = self.field_value_wrap(fctx, FXValueRepr::None)?;
             let shadow_value = self.field_value_wrap(fctx, FXValueRepr::Versatile(quote![v]))?;
-            quote![ #shadow_var.#field_ident.map_or_else(|| #default_value, |v| #shadow_value) ]
+            quote![ #shadow_var.#field_ident.map_or_else(|| #unset_value, |v| #shadow_value) ]
         }
         else if fctx.is_inner_mut() {
             let shadow_value = self.field_value_wrap(fctx, FXValueRepr::Versatile(quote![#shadow_var.#field_ident]))?;
-- 
2.43.0


From b3910222d29d19d8983e386ba94943fe513bfa5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:59 +0000
Subject: [PATCH 7/7] fix: honour the literal of the field-level serde("name")

The documentation says a string literal given to a field-level `serde` is passed on as serde's field rename
and takes precedence over `rename(...)`; it was parsed and then ignored.
---
 fieldx_derive/src/codegen/serde.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/fieldx_derive/src/codegen/serde.rs b/fieldx_derive/src/codegen/serde.rs
index a95f6b5..d712d85 100644
--- a/fieldx_derive/src/codegen/serde.rs
+++ b/fieldx_derive/src/codegen/serde.rs
@@ -99,7 +99,12 @@ pub trait FXCGenSerde: FXCodeGenContextual {
                 serde_attr_args.push(default_arg);
             }
 
-            if let Some(base_name) = fctx.base_name() {
+            // An explicit `serde("name")` takes precedence over the alternative field name.
+            if let Some(serde_name) = fctx.serde().as_ref().and_then(|sh| sh.shadow_name()) {
+                let span = fctx.serde().orig_span().unwrap_or_else(|| *fctx.span());
+                serde_attr_args.push(quote_spanned![span=> rename = #serde_name]);
+            }
+            else if let Some(base_name) = fctx.base_name() {
                 let span = base_name.span();
                 let base_name = base_name.to_string();
                 serde_attr_args.push(quote_spanned![span=> rename = #base_name]);
-- 
2.43.0

