From c3484581ed459a4deece128f0bd5b4f307fef712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:52 +0000
Subject: [PATCH 01/42] fix: let async lazy fields be read by several readers
 at once

---
 fieldx/src/async/fxproxy.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/fieldx/src/async/fxproxy.rs b/fieldx/src/async/fxproxy.rs
index 1206c29..d031e65 100644
--- a/fieldx/src/async/fxproxy.rs
+++ b/fieldx/src/async/fxproxy.rs
@@ -150,6 +150,12 @@ where
         let _ = self.read_or_init(owner).await;
     }
 
+    // An initialized field must be accessible to any number of simultaneous readers, hence no write lock can be taken for
+    // it.
+    async fn read_if_set<'a>(&'a self) -> Option<RwLockReadGuard<'a, B::Value>> {
+        RwLockReadGuard::try_map(self.value.read().await, |data: &Option<B::Value>| data.as_ref()).ok()
+    }
+
     async fn read_or_init<'a>(&'a self, owner: &B::Owner) -> Result<RwLockWriteGuard<'a, Option<B::Value>>, B::Error> {
         let mut guard = self.value.write().await;
         if (*guard).is_none() {
@@ -169,6 +175,9 @@ where
     ///
     /// Panics if fallible field builder returns an error.
     pub async fn read<'a>(&'a self, owner: &B::Owner) -> RwLockReadGuard<'a, B::Value> {
+        if let Some(guard) = self.read_if_set().await {
+            return guard;
+        }
         RwLockReadGuard::map(
             RwLockWriteGuard::downgrade(self.read_or_init(owner).await.unwrap()),
             |data: &Option<B::Value>| data.as_ref().unwrap(),
@@ -189,6 +198,9 @@ where
     ///
     /// Return the same error, as fallible field builder if it errors out.
     pub async fn try_read<'a>(&'a self, owner: &B::Owner) -> Result<RwLockReadGuard<'a, B::Value>, B::Error> {
+        if let Some(guard) = self.read_if_set().await {
+            return Ok(guard);
+        }
         Ok(RwLockReadGuard::map(
             RwLockWriteGuard::downgrade(self.read_or_init(owner).await?),
             |data: &Option<B::Value>| data.as_ref().unwrap(),
-- 
2.43.0


From 1a9af2d0c60370f72782e87c14fc54e0b62c4832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:17 +0000
Subject: [PATCH 02/42] fix: await the lock in copy, clone, and mutable
 accessors of async fields

---
 fieldx_derive/src/codegen/sync.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/fieldx_derive/src/codegen/sync.rs b/fieldx_derive/src/codegen/sync.rs
index 5c5ce7e..bebdbdd 100644
--- a/fieldx_derive/src/codegen/sync.rs
+++ b/fieldx_derive/src/codegen/sync.rs
@@ -262,10 +262,13 @@ impl FXCodeGenContextual for FXCodeGenSync {
                 else if fctx.needs_lock() {
                     let ty = self.maybe_optional_ty(fctx, ty);
 
+                    let async_decl = self.implementor(fctx).async_decl();
+                    let await_call = self.implementor(fctx).await_call();
+
                     quote_spanned![span=>
                         #attributes_fn
-                        #vis_tok fn #accessor_name(&self) -> #ty {
-                            let rlock = self.#ident.read() #shortcut;
+                        #vis_tok #async_decl fn #accessor_name(&self) -> #ty {
+                            let rlock = self.#ident.read() #await_call #shortcut;
                             (*rlock)#cmethod
                         }
                     ]
@@ -345,11 +348,13 @@ impl FXCodeGenContextual for FXCodeGenSync {
                     let lock_span = fctx.lock_span();
                     let wrguard = self.implementor(fctx).rwlock_write_guard();
                     let ty_toks = quote_spanned! [lock_span=> #wrguard<#ty_toks>];
+                    let async_decl = self.implementor(fctx).async_decl();
+                    let await_call = self.implementor(fctx).await_call();
 
                     quote_spanned! [span=>
                         #attributes_fn
-                        #vis_tok fn #accessor_name(&self) -> #ty_toks {
-                            self.#ident.write()
+                        #vis_tok #async_decl fn #accessor_name(&self) -> #ty_toks {
+                            self.#ident.write() #await_call
                         }
                     ]
                 }
-- 
2.43.0


From aaf594175e00b84b6de8a25b17abd881f92459b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:24 +0000
Subject: [PATCH 03/42] fix: take visibility and attributes of sync mutable
 accessors from get_mut

---
 fieldx_derive/src/codegen/sync.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fieldx_derive/src/codegen/sync.rs b/fieldx_derive/src/codegen/sync.rs
index bebdbdd..2099851 100644
--- a/fieldx_derive/src/codegen/sync.rs
+++ b/fieldx_derive/src/codegen/sync.rs
@@ -314,11 +314,11 @@ impl FXCodeGenContextual for FXCodeGenSync {
     fn field_accessor_mut(&self, fctx: &FXFieldCtx) -> darling::Result<TokenStream> {
         Ok(if fctx.needs_accessor_mut() {
             let ident = fctx.ident_tok();
-            let vis_tok = fctx.vis_tok(FXHelperKind::Accessor);
+            let vis_tok = fctx.vis_tok(FXHelperKind::AccessorMut);
             let accessor_name = self.accessor_mut_name(fctx)?;
             let ty = fctx.ty();
-            let attributes_fn = self.attributes_fn(fctx, FXHelperKind::Accessor, FXInlining::Always);
-            let span = self.helper_span(fctx, FXHelperKind::Accessor);
+            let attributes_fn = self.attributes_fn(fctx, FXHelperKind::AccessorMut, FXInlining::Always);
+            let span = self.helper_span(fctx, FXHelperKind::AccessorMut);
             let read_method = self.read_method_name(fctx, true, &span);
 
             if fctx.is_lazy() {
-- 
2.43.0


From 6c8f9a69190edf45206dd992e53dc1e686dbc453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:24 +0000
Subject: [PATCH 04/42] fix: treat field-level mode(async) as a concurrent mode

---
 fieldx_derive/src/fields.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fieldx_derive/src/fields.rs b/fieldx_derive/src/fields.rs
index 8cc5a8c..dc0b0e9 100644
--- a/fieldx_derive/src/fields.rs
+++ b/fieldx_derive/src/fields.rs
@@ -218,7 +218,7 @@ impl FXFieldReceiver {
         self.mode_sync
             .as_ref()
             .map(|th| th.is_true())
-            .or_else(|| self.mode.as_ref().map(|m| m.is_sync()))
+            .or_else(|| self.mode.as_ref().map(|m| m.is_sync() || m.is_async()))
             .or_else(|| self.is_async())
             .or_else(|| self.lock().as_ref().map(|th| th.is_true()))
             .or_else(|| self.is_plain().map(|b| !b))
-- 
2.43.0


From ee92a9e986837eb78caaa1197cec2ff8b4b89e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:47 +0000
Subject: [PATCH 05/42] fix: resolve Self in defaults of lock-protected builder
 fields

---
 fieldx_derive/src/codegen/sync.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fieldx_derive/src/codegen/sync.rs b/fieldx_derive/src/codegen/sync.rs
index 2099851..9d9f9a3 100644
--- a/fieldx_derive/src/codegen/sync.rs
+++ b/fieldx_derive/src/codegen/sync.rs
@@ -695,6 +695,6 @@ impl FXCodeGenContextual for FXCodeGenSync {
     }
 
     fn field_default_wrap(&self, fctx: &FXFieldCtx) -> darling::Result<TokenStream> {
-        self.field_value_wrap(fctx, self.field_default_value(fctx))
+        self.field_value_wrap(fctx, self.field_default_value(fctx).map(|dv| self.fixup_self_type(dv)))
     }
 }
-- 
2.43.0


From ecb3e434c469a269f1e21164dfdb136684d03fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:51 +0000
Subject: [PATCH 06/42] fix: avoid a deadlock when comparing sync fields while
 writers are waiting

---
 fieldx/src/sync/fxlock.rs  | 3 ++-
 fieldx/src/sync/fxproxy.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/fieldx/src/sync/fxlock.rs b/fieldx/src/sync/fxlock.rs
index d7bf6e5..14144d5 100644
--- a/fieldx/src/sync/fxlock.rs
+++ b/fieldx/src/sync/fxlock.rs
@@ -26,7 +26,8 @@ where
 {
     fn eq(&self, other: &Self) -> bool {
         let myguard = self.0.read();
-        let otherguard = other.0.read();
+        // The second lock must not queue after a writer waiting for the first one.
+        let otherguard = other.0.read_recursive();
 
         myguard.eq(&otherguard)
     }
diff --git a/fieldx/src/sync/fxproxy.rs b/fieldx/src/sync/fxproxy.rs
index 4764596..a95d23c 100644
--- a/fieldx/src/sync/fxproxy.rs
+++ b/fieldx/src/sync/fxproxy.rs
@@ -263,7 +263,8 @@ where
 {
     fn eq(&self, other: &Self) -> bool {
         let myguard = self.value.read();
-        let otherguard = other.value.read();
+        // The second lock must not queue after a writer waiting for the first one.
+        let otherguard = other.value.read_recursive();
         myguard.eq(&otherguard)
     }
 }
-- 
2.43.0


From af53b7db98618594f60fd4b68ec302ccb5091daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:56 +0000
Subject: [PATCH 07/42] fix: allow turning serialization off for individual
 fields

---
 fieldx_derive/src/codegen/serde.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fieldx_derive/src/codegen/serde.rs b/fieldx_derive/src/codegen/serde.rs
index a95f6b5..bf6311e 100644
--- a/fieldx_derive/src/codegen/serde.rs
+++ b/fieldx_derive/src/codegen/serde.rs
@@ -403,7 +403,8 @@ impl FXRewriteSerde for super::FXRewriter {
             for field in ctx.all_fields() {
                 let fctx = ctx.field_ctx(field);
                 if let Ok(fctx) = fctx {
-                    if fctx.is_serde() && fctx.needs_serialize() {
+                    // The shadow struct has non-serializable fields too, they're skipped by serde.
+                    if fctx.is_serde() {
                         let field_ident = fctx.ident_tok();
                         let is_lazy = fctx.is_lazy();
 
@@ -411,7 +412,7 @@ impl FXRewriteSerde for super::FXRewriter {
                             let cgen = self.field_codegen(&fctx)?;
                             let fetch_struct_field = cgen.field_from_struct(&fctx)?;
 
-                            if is_lazy {
+                            if is_lazy && fctx.needs_serialize() {
                                 let init_call = cgen.field_lazy_initializer(&fctx, Some(quote![(&#me_var)]))?;
                                 lazy_inits.push(quote![ let _ = #init_call; ]);
                             }
-- 
2.43.0


From c6a6f1671bea7377133d54612fbc232c0337827d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:01 +0000
Subject: [PATCH 08/42] fix: use the literal argument of field-level serde as
 the serialized name

---
 fieldx_derive/src/codegen/serde.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/fieldx_derive/src/codegen/serde.rs b/fieldx_derive/src/codegen/serde.rs
index bf6311e..92656d3 100644
--- a/fieldx_derive/src/codegen/serde.rs
+++ b/fieldx_derive/src/codegen/serde.rs
@@ -99,7 +99,11 @@ pub trait FXCGenSerde: FXCodeGenContextual {
                 serde_attr_args.push(default_arg);
             }
 
-            if let Some(base_name) = fctx.base_name() {
+            // Literal argument of field's `serde` takes precedence over field's `rename`.
+            if let Some(serde_name) = fctx.serde().as_ref().and_then(|sh| sh.shadow_name()) {
+                serde_attr_args.push(quote![rename = #serde_name]);
+            }
+            else if let Some(base_name) = fctx.base_name() {
                 let span = base_name.span();
                 let base_name = base_name.to_string();
                 serde_attr_args.push(quote_spanned![span=> rename = #base_name]);
-- 
2.43.0


From 52508890f484f78ca3f46fc53010f47ec7fcb4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:47 +0000
Subject: [PATCH 09/42] fix: initialize skipped fields when struct is created
 by its builder

---
 fieldx_derive/src/codegen.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/fieldx_derive/src/codegen.rs b/fieldx_derive/src/codegen.rs
index f3eada7..d3de895 100644
--- a/fieldx_derive/src/codegen.rs
+++ b/fieldx_derive/src/codegen.rs
@@ -372,6 +372,22 @@ impl FXRewriter {
             }
         }
 
+        // Skipped fields are unknown to the builder but they need a value anyway.
+        for field in ctx.all_fields() {
+            let Ok(fctx) = ctx.field_ctx(field)
+            else {
+                continue;
+            };
+            if fctx.is_skipped() && ctx.myself_field().map_or(true, |mf| mf != *fctx.ident()) {
+                ctx.exec_or_record(|| {
+                    let ident = fctx.ident_tok();
+                    let default = self.field_codegen(&fctx)?.field_default_wrap(&fctx)?;
+                    field_setters.push(quote! { #ident: #default });
+                    Ok(())
+                });
+            }
+        }
+
         let default_initializer = if use_default && ctx.needs_default() {
             quote![..::std::default::Default::default()]
         }
-- 
2.43.0


From 4c14ff83d399e0f173615273a853bdd57ed82909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:54 +0000
Subject: [PATCH 10/42] fix: don't use generic bounds where Self is replaced
 with the type name

---
 fieldx_derive/src/codegen/codegen_trait.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fieldx_derive/src/codegen/codegen_trait.rs b/fieldx_derive/src/codegen/codegen_trait.rs
index 9194a18..b427d29 100644
--- a/fieldx_derive/src/codegen/codegen_trait.rs
+++ b/fieldx_derive/src/codegen/codegen_trait.rs
@@ -482,7 +482,7 @@ pub trait FXCodeGenContextual {
         let span = tokens.span();
         let mut fixed_tokens = TokenStream::new();
         let struct_ident = ctx.input_ident();
-        let generics = ctx.input().generics();
+        let generics = ctx.struct_generic_params();
 
         for t in tokens.into_iter() {
             match t {
-- 
2.43.0


From 8580fb3b250154549152e365e3e12b7b973ffe73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:40 +0000
Subject: [PATCH 11/42] fix: resolve Self in defaults of sync fields which are
 not in the builder

---
 fieldx_derive/src/codegen/sync.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fieldx_derive/src/codegen/sync.rs b/fieldx_derive/src/codegen/sync.rs
index 9d9f9a3..5e673de 100644
--- a/fieldx_derive/src/codegen/sync.rs
+++ b/fieldx_derive/src/codegen/sync.rs
@@ -400,7 +400,7 @@ impl FXCodeGenContextual for FXCodeGenSync {
         };
 
         Ok(if !fctx.forced_builder() && !fctx.needs_builder() {
-            let default = self.field_value_wrap(fctx, default)?;
+            let default = self.field_default_wrap(fctx)?;
             quote_spanned![span=> #field_ident: #default]
         }
         else if fctx.is_lazy() {
-- 
2.43.0


From ab5fe44da004c22729065550b0be54f3095aa61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:40 +0000
Subject: [PATCH 12/42] fix: struct-level fallible is about lazy fields only

---
 fieldx_derive/src/ctx/field.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/fieldx_derive/src/ctx/field.rs b/fieldx_derive/src/ctx/field.rs
index 9371eb3..5779caf 100644
--- a/fieldx_derive/src/ctx/field.rs
+++ b/fieldx_derive/src/ctx/field.rs
@@ -193,10 +193,13 @@ impl FXFieldCtx {
 
     #[inline]
     pub fn is_fallible(&self) -> bool {
-        self.field
-            .is_fallible()
-            .or_else(|| self.codegen_ctx().args().is_fallible())
-            .unwrap_or(false)
+        // Only lazy builders can fail.
+        self.is_lazy()
+            && self
+                .field
+                .is_fallible()
+                .or_else(|| self.codegen_ctx().args().is_fallible())
+                .unwrap_or(false)
     }
 
     #[inline]
-- 
2.43.0


From 7dfcc7a52ab5278f9cece72416f96a6b37a8dfd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:25 +0000
Subject: [PATCH 13/42] fix: struct-level lazy, inner_mut, and lock arguments
 don't affect skipped fields

---
 fieldx_derive/src/ctx/field.rs | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/fieldx_derive/src/ctx/field.rs b/fieldx_derive/src/ctx/field.rs
index 5779caf..edf0fad 100644
--- a/fieldx_derive/src/ctx/field.rs
+++ b/fieldx_derive/src/ctx/field.rs
@@ -76,7 +76,6 @@ impl FXFieldCtx {
         }
     }
 
-    helper_fn_ctx! { is: lazy, inner_mut }
 
     helper_fn_ctx! { needs: accessor_mut, setter, writer }
 
@@ -149,10 +148,32 @@ impl FXFieldCtx {
 
     #[inline]
     pub fn needs_lock(&self) -> bool {
-        self.field
-            .needs_lock()
-            .or_else(|| self.codegen_ctx().args().needs_lock())
-            .unwrap_or_else(|| self.needs_reader() || self.needs_writer() || self.is_optional())
+        !self.is_skipped()
+            && self
+                .field
+                .needs_lock()
+                .or_else(|| self.codegen_ctx().args().needs_lock())
+                .unwrap_or_else(|| self.needs_reader() || self.needs_writer() || self.is_optional())
+    }
+
+    #[inline]
+    pub fn is_lazy(&self) -> bool {
+        !self.is_skipped()
+            && self
+                .field
+                .is_lazy()
+                .or_else(|| self.codegen_ctx().args().is_lazy())
+                .unwrap_or(false)
+    }
+
+    #[inline]
+    pub fn is_inner_mut(&self) -> bool {
+        !self.is_skipped()
+            && self
+                .field
+                .is_inner_mut()
+                .or_else(|| self.codegen_ctx().args().is_inner_mut())
+                .unwrap_or(false)
     }
 
     #[cfg(feature = "serde")]
-- 
2.43.0


From fe5bdd8e7d85ed604cac5470dd0787856707b644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:23 +0000
Subject: [PATCH 14/42] fix: don't demand Copy from skipped fields

---
 fieldx_derive/src/codegen.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fieldx_derive/src/codegen.rs b/fieldx_derive/src/codegen.rs
index d3de895..32e37fc 100644
--- a/fieldx_derive/src/codegen.rs
+++ b/fieldx_derive/src/codegen.rs
@@ -187,7 +187,7 @@ impl FXRewriter {
     fn prepare_field(&self, fctx: Ref<FXFieldCtx>) -> darling::Result<()> {
         let ctx = self.ctx();
 
-        if fctx.needs_accessor() && fctx.is_copy() {
+        if !fctx.is_skipped() && fctx.needs_accessor() && fctx.is_copy() {
             ctx.add_for_copy_trait_check(&fctx);
         }
 
-- 
2.43.0


From f6ce04c7486fc5d4952e5bacef09c4b2b80ddb42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:31 +0000
Subject: [PATCH 15/42] fix: inner_mut(off) doesn't turn a field into a
 concurrent one

---
 fieldx_derive/src/fields.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fieldx_derive/src/fields.rs b/fieldx_derive/src/fields.rs
index dc0b0e9..0a78fc7 100644
--- a/fieldx_derive/src/fields.rs
+++ b/fieldx_derive/src/fields.rs
@@ -221,7 +221,8 @@ impl FXFieldReceiver {
             .or_else(|| self.mode.as_ref().map(|m| m.is_sync() || m.is_async()))
             .or_else(|| self.is_async())
             .or_else(|| self.lock().as_ref().map(|th| th.is_true()))
-            .or_else(|| self.is_plain().map(|b| !b))
+            // Turning inner mutability off doesn't make a concurrent field out of it.
+            .or_else(|| self.is_plain().and_then(|b| b.then_some(false)))
             .or_else(|| {
                 // Setting reader or writer to off doesn't mean the field becomes plain. It's better be decided at the
                 // struct level then.
-- 
2.43.0


From 6b66cdd30bba2127046062f3682acb6c3596290d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:12 +0000
Subject: [PATCH 16/42] fix: allow fallible post-build hooks of reference
 counted structs

---
 fieldx_derive/src/codegen/codegen_trait.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/fieldx_derive/src/codegen/codegen_trait.rs b/fieldx_derive/src/codegen/codegen_trait.rs
index b427d29..fdb52d2 100644
--- a/fieldx_derive/src/codegen/codegen_trait.rs
+++ b/fieldx_derive/src/codegen/codegen_trait.rs
@@ -237,8 +237,9 @@ pub trait FXCodeGenContextual {
     ) -> TokenStream {
         let ctx = self.ctx();
         let args = ctx.args();
+        let is_fallible = init.is_some() && ctx.build_has_error_type();
         let post_constuct = if let Some(init) = init {
-            let shortcut = if ctx.build_has_error_type() {
+            let shortcut = if is_fallible {
                 quote![?]
             }
             else {
@@ -253,6 +254,24 @@ pub trait FXCodeGenContextual {
         if args.is_ref_counted() {
             let (rc_type, _) = self.ref_count_types();
             let myself_field = ctx.myself_field();
+            if is_fallible {
+                // An error cannot be returned from within the closure of new_cyclic.
+                return quote![
+                    {
+                        let mut this = #self_name {
+                            #myself_field: ::std::default::Default::default(),
+                            #struct_init
+                        }
+                        #post_constuct;
+                        #rc_type::new_cyclic(
+                            |me| {
+                                this.#myself_field = me.clone();
+                                this
+                            }
+                        )
+                    }
+                ];
+            }
             quote![
                 #rc_type::new_cyclic(
                     |me| {
-- 
2.43.0


From f8348ebebe385c56eb5d77d178887bbf182a4250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:26 +0000
Subject: [PATCH 17/42] fix: apply fallback attributes to the shadow struct,
 not to its fields

---
 fieldx_derive/src/codegen/serde.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/fieldx_derive/src/codegen/serde.rs b/fieldx_derive/src/codegen/serde.rs
index 92656d3..c153940 100644
--- a/fieldx_derive/src/codegen/serde.rs
+++ b/fieldx_derive/src/codegen/serde.rs
@@ -148,8 +148,7 @@ pub trait FXCGenSerde: FXCodeGenContextual {
         let user_attrs = fctx
             .serde()
             .as_ref()
-            .and_then(|serde_helper| serde_helper.attributes().as_ref())
-            .or_else(|| self.ctx().args().attributes().as_ref());
+            .and_then(|serde_helper| serde_helper.attributes().as_ref());
         let ty = self.serde_shadow_field_type(fctx);
 
         self.ctx().add_shadow_field_decl(quote_spanned! [*fctx.span()=>
@@ -302,7 +301,7 @@ impl FXRewriteSerde for super::FXRewriter {
             let generics = ctx.input().generics();
             let where_clause = &generics.where_clause;
             let vis = serde_helper.public_mode().map(|pm| pm.to_token_stream());
-            let user_attributes = serde_helper.attributes();
+            let user_attributes = serde_helper.attributes().as_ref().or_else(|| args.attributes().as_ref());
 
             attrs.push(derive_attr);
 
-- 
2.43.0


From 9104a799732b5e1b35137963072add6e8f447354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:41 +0000
Subject: [PATCH 18/42] fix: split attributes lists by commas only

---
 fieldx_aux/src/attributes.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/fieldx_aux/src/attributes.rs b/fieldx_aux/src/attributes.rs
index bf7298a..9b618a2 100644
--- a/fieldx_aux/src/attributes.rs
+++ b/fieldx_aux/src/attributes.rs
@@ -28,13 +28,13 @@ impl FromMeta for FXAttributes {
         match input {
             Meta::List(ref ml) => {
                 let ml_chunks: Vec<TokenStream> = vec![TokenStream::new()];
-                // Split the incoming tokenstream into chunks separated by Puncts (i.e. by commas)
+                // Split the incoming tokenstream into chunks separated by commas
                 let mut ml_chunks = ml.tokens.clone().into_iter().fold(ml_chunks, |mut mlc, item| {
-                    if let proc_macro2::TokenTree::Punct(_) = item {
-                        mlc.push(TokenStream::new());
-                    }
-                    else {
-                        mlc.last_mut().unwrap().extend([item]);
+                    match item {
+                        proc_macro2::TokenTree::Punct(ref punct) if punct.as_char() == ',' => {
+                            mlc.push(TokenStream::new());
+                        }
+                        _ => mlc.last_mut().unwrap().extend([item]),
                     }
                     mlc
                 });
-- 
2.43.0


From 579fb528937706b158a4269276d07e99f917c123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:02 +0000
Subject: [PATCH 19/42] fix: report malformed attributes arguments instead of
 panicking

---
 fieldx_aux/src/attributes.rs | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/fieldx_aux/src/attributes.rs b/fieldx_aux/src/attributes.rs
index 9b618a2..e8aff07 100644
--- a/fieldx_aux/src/attributes.rs
+++ b/fieldx_aux/src/attributes.rs
@@ -3,8 +3,8 @@
 use darling::FromMeta;
 use getset::Getters;
 use proc_macro2::TokenStream;
-use quote::{quote, ToTokens};
-use syn::{parse_quote_spanned, spanned::Spanned, Meta};
+use quote::{quote_spanned, ToTokens};
+use syn::{parse::Parser, spanned::Spanned, Attribute, Meta};
 
 /// Implementation of `attributes*(...)` family of arguments.
 ///
@@ -47,15 +47,20 @@ impl FromMeta for FXAttributes {
                 }
 
                 // Transform chunks into attributes
-                let pound = quote![#];
-                Ok(Self {
-                    list: ml_chunks
-                        .iter()
-                        .map(|tt| parse_quote_spanned!(tt.span()=> #pound [ #tt ]))
-                        .collect(),
-                })
+                let mut list = Vec::new();
+                for tt in ml_chunks.iter() {
+                    let attr = quote_spanned![tt.span()=> #[ #tt ]];
+                    list.extend(
+                        Attribute::parse_outer
+                            .parse2(attr)
+                            .map_err(|err| darling::Error::from(err).with_span(input))?,
+                    );
+                }
+
+                Ok(Self { list })
             }
-            _ => unimplemented!("Can't deal with this kind of input"),
+            Meta::Path(_) => Err(darling::Error::unsupported_format("word").with_span(input)),
+            Meta::NameValue(_) => Err(darling::Error::unsupported_format("name-value").with_span(input)),
         }
     }
 }
-- 
2.43.0


From 3defcec5dd17228d41d608c6d604287b3f999189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:50 +0000
Subject: [PATCH 20/42] fix: respect visibility of builder setters given for a
 field

---
 fieldx_derive/src/codegen/codegen_trait.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/fieldx_derive/src/codegen/codegen_trait.rs b/fieldx_derive/src/codegen/codegen_trait.rs
index fdb52d2..ec5e0fc 100644
--- a/fieldx_derive/src/codegen/codegen_trait.rs
+++ b/fieldx_derive/src/codegen/codegen_trait.rs
@@ -2,6 +2,7 @@ use super::{FXCodeGenCtx, FXCodeGenPlain, FXCodeGenSync, FXFieldCtx, FXInlining,
 use crate::{helper::*, FXInputReceiver};
 use darling::ast::NestedMeta;
 use enum_dispatch::enum_dispatch;
+use fieldx_aux::FXHelperTrait;
 use proc_macro2::{Span, TokenStream, TokenTree};
 use quote::{format_ident, quote, quote_spanned, ToTokens};
 use std::rc::Rc;
@@ -382,10 +383,15 @@ pub trait FXCodeGenContextual {
             let span = fctx.helper_span(FXHelperKind::Builder);
             let (gen_params, val_type, into_tok) = self.into_toks(fctx, fctx.is_builder_into());
             let attributes = self.attributes_fn(fctx, FXHelperKind::Builder, FXInlining::Always);
+            let vis = fctx
+                .builder()
+                .as_ref()
+                .and_then(|b| b.public_mode())
+                .map_or_else(|| quote_spanned![span=> pub], |pm| pm.to_token_stream());
             builder_name.set_span(span);
             Ok(quote_spanned![span=>
                 #attributes
-                pub fn #builder_name #gen_params(mut self, value: #val_type) -> Self {
+                #vis fn #builder_name #gen_params(mut self, value: #val_type) -> Self {
                     self.#ident = ::std::option::Option::Some(value #into_tok);
                     self
                 }
-- 
2.43.0


From e31c61fb31a1f11a74e2ee6f47d2f41b1d6e0bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:47 +0000
Subject: [PATCH 21/42] fix: accept module paths in public()

---
 fieldx_aux/src/lib.rs | 35 +++++++++++++++++++++++++++++++----
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/fieldx_aux/src/lib.rs b/fieldx_aux/src/lib.rs
index fddaa48..ac1420e 100644
--- a/fieldx_aux/src/lib.rs
+++ b/fieldx_aux/src/lib.rs
@@ -88,15 +88,14 @@ pub use crate::{
     value::FXValueArg,
     with_origin::FXOrig,
 };
-use darling::FromMeta;
+use darling::{ast::NestedMeta, FromMeta};
 use quote::{quote, ToTokens};
 use syn::{ext::IdentExt, Lit};
 
 /// Visibility of an element
-#[derive(FromMeta, Debug, Clone, Default)]
+#[derive(Debug, Clone, Default)]
 pub enum FXPubMode {
     /// private
-    #[darling(skip)]
     Private,
     /// `pub(crate)`
     Crate,
@@ -105,10 +104,38 @@ pub enum FXPubMode {
     /// `pub(in crate::Module)`
     InMod(syn::Path),
     #[default]
-    #[darling(skip)]
     All,
 }
 
+impl FromMeta for FXPubMode {
+    fn from_list(items: &[NestedMeta]) -> darling::Result<Self> {
+        let item = match items {
+            [] => return Err(darling::Error::too_few_items(1)),
+            [NestedMeta::Meta(meta)] => meta,
+            [NestedMeta::Lit(_)] => return Err(darling::Error::unsupported_format("literal")),
+            _ => return Err(darling::Error::too_many_items(1)),
+        };
+
+        if item.path().is_ident("in_mod") {
+            return Ok(Self::InMod(syn::Path::from_meta(item)?));
+        }
+
+        let path = item.require_path_only()?;
+        match path.get_ident() {
+            Some(ident) => Self::from_string(&ident.to_string()).map_err(|err| err.with_span(ident)),
+            None => Ok(Self::InMod(path.clone())),
+        }
+    }
+
+    fn from_string(value: &str) -> darling::Result<Self> {
+        match value {
+            "crate" => Ok(Self::Crate),
+            "super" => Ok(Self::Super),
+            _ => Err(darling::Error::unknown_field_with_alts(value, &["crate", "super"])),
+        }
+    }
+}
+
 impl FromNestAttr for FXPubMode {
     fn for_keyword(_path: &syn::Path) -> darling::Result<Self> {
         Ok(Self::All)
-- 
2.43.0


From 3d64ff94f81be2ae810d4f18871dbf1eef84e5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:28 +0000
Subject: [PATCH 22/42] fix: report names which aren't identifiers instead of
 panicking

---
 fieldx_derive/src/fields.rs    | 23 +++++++++++++++++++----
 fieldx_derive/src/helper.rs    | 12 ++++++++++++
 fieldx_derive/src/util.rs      | 26 +++++++++++++++++++++++++-
 fieldx_derive/src/util/args.rs | 22 +++++++++++++++++++++-
 4 files changed, 77 insertions(+), 6 deletions(-)

diff --git a/fieldx_derive/src/fields.rs b/fieldx_derive/src/fields.rs
index 0a78fc7..2def86d 100644
--- a/fieldx_derive/src/fields.rs
+++ b/fieldx_derive/src/fields.rs
@@ -1,16 +1,16 @@
 use crate::{
     helper::{FXHelperContainer, FXHelperKind},
-    util::needs_helper,
+    util::{needs_helper, validate_ident},
 };
 use darling::{util::Flag, FromField};
 use fieldx_aux::{
     validate_exclusives, FXAccessor, FXAccessorMode, FXAttributes, FXBaseHelper, FXBool, FXBoolHelper, FXBuilder,
-    FXDefault, FXFallible, FXHelper, FXHelperTrait, FXNestingAttr, FXPubMode, FXSerde, FXSetter, FXString, FXSynValue,
+    FXDefault, FXFallible, FXHelper, FXHelperTrait, FXNestingAttr, FXOrig, FXPubMode, FXSerde, FXSetter, FXString, FXSynValue,
     FXSyncMode, FXTriggerHelper, FromNestAttr,
 };
 use getset::Getters;
 use proc_macro2::{Span, TokenStream};
-use quote::{quote_spanned, ToTokens};
+use quote::{format_ident, quote_spanned, ToTokens};
 use std::{cell::OnceCell, ops::Deref};
 use syn::{spanned::Spanned, Meta};
 
@@ -167,11 +167,26 @@ impl FXFieldReceiver {
             acc.push(err);
         }
 
+        self.validate_names(&mut acc);
+
         acc.finish()?;
 
         Ok(())
     }
 
+    fn validate_names(&self, acc: &mut darling::error::Accumulator) {
+        for kind in FXHelperKind::ALL {
+            if let Some(name) = self.get_helper(kind).and_then(|h| h.name()).filter(|n| !n.is_empty()) {
+                let span = self.get_helper_span(kind).unwrap_or_else(|| *self.span());
+                acc.handle(validate_ident(name, &format!("{} name", kind.to_string()), span));
+            }
+        }
+
+        if let Some(name) = self.base_name.as_ref().and_then(|bn| bn.value()) {
+            acc.handle(validate_ident(name, "field name", self.base_name.fx_span()));
+        }
+    }
+
     #[inline]
     fn unless_skip(&self, helper: &Option<FXNestingAttr<impl FXHelperTrait + FromNestAttr>>) -> Option<bool> {
         if self.is_skipped() {
@@ -195,7 +210,7 @@ impl FXFieldReceiver {
 
     pub fn base_name(&self) -> Option<syn::Ident> {
         if let Some(ref bn) = self.base_name {
-            bn.value().map(|name| syn::Ident::new(name, bn.span()))
+            bn.value().map(|name| format_ident!("{}", name, span = bn.span()))
         }
         else {
             None
diff --git a/fieldx_derive/src/helper.rs b/fieldx_derive/src/helper.rs
index 3337f3b..71fa47e 100644
--- a/fieldx_derive/src/helper.rs
+++ b/fieldx_derive/src/helper.rs
@@ -37,6 +37,18 @@ impl ToString for FXHelperKind {
 }
 
 impl FXHelperKind {
+    pub(crate) const ALL: [Self; 9] = [
+        FXHelperKind::Accessor,
+        FXHelperKind::AccessorMut,
+        FXHelperKind::Builder,
+        FXHelperKind::Clearer,
+        FXHelperKind::Lazy,
+        FXHelperKind::Predicate,
+        FXHelperKind::Reader,
+        FXHelperKind::Setter,
+        FXHelperKind::Writer,
+    ];
+
     #[inline]
     pub(crate) fn default_prefix(&self) -> Option<&str> {
         match self {
diff --git a/fieldx_derive/src/util.rs b/fieldx_derive/src/util.rs
index 07a9328..61900ed 100644
--- a/fieldx_derive/src/util.rs
+++ b/fieldx_derive/src/util.rs
@@ -1,7 +1,8 @@
 pub(crate) mod args;
 use fieldx_aux::{FXOrig, FXTriggerHelper};
-use proc_macro2::TokenStream;
+use proc_macro2::{Span, TokenStream};
 use quote::quote;
+use syn::{ext::IdentExt, parse::Parser};
 
 #[allow(dead_code)]
 // Used by serde generation.
@@ -109,3 +110,26 @@ where
     }
     None
 }
+
+/// Make sure that what's given by user can be used as an identifier.
+pub(crate) fn validate_ident(name: &str, what: &str, span: Span) -> darling::Result<()> {
+    // Parsing skips white spaces and comments.
+    if name.contains(|c: char| c.is_whitespace() || c == '/') || syn::Ident::parse_any.parse_str(name).is_err() {
+        return Err(
+            darling::Error::custom(format!("'{}' cannot be used as {}: not a valid identifier", name, what))
+                .with_span(&span),
+        );
+    }
+    Ok(())
+}
+
+/// Make sure that an identifier can start with what's given by user.
+pub(crate) fn validate_ident_prefix(prefix: &str, what: &str, span: Span) -> darling::Result<()> {
+    validate_ident(&format!("{}x", prefix), "", span).map_err(|_| {
+        darling::Error::custom(format!(
+            "'{}' cannot be used as {}: not a valid beginning of an identifier",
+            prefix, what
+        ))
+        .with_span(&span)
+    })
+}
diff --git a/fieldx_derive/src/util/args.rs b/fieldx_derive/src/util/args.rs
index f18d385..dbc9f6b 100644
--- a/fieldx_derive/src/util/args.rs
+++ b/fieldx_derive/src/util/args.rs
@@ -2,7 +2,7 @@
 // use crate::helper::FXOrig;
 use crate::{
     helper::{FXHelperContainer, FXHelperKind},
-    util::needs_helper,
+    util::{needs_helper, validate_ident, validate_ident_prefix},
 };
 use darling::FromMeta;
 use fieldx_aux::{
@@ -101,11 +101,31 @@ impl FXSArgs {
             acc.push(err);
         }
 
+        self.validate_names(&mut acc);
+
         acc.finish()?;
 
         Ok(self)
     }
 
+    fn validate_names(&self, acc: &mut darling::error::Accumulator) {
+        for kind in FXHelperKind::ALL {
+            if let Some(prefix) = self.get_helper(kind).and_then(|h| h.name()) {
+                let span = self.get_helper_span(kind).unwrap_or_else(|| Span::call_site());
+                acc.handle(validate_ident_prefix(prefix, &format!("{} prefix", kind.to_string()), span));
+            }
+        }
+
+        if let Some(name) = self.rc.as_ref().and_then(|rc| rc.name()) {
+            acc.handle(validate_ident(name, "method name", self.rc.fx_span()));
+        }
+
+        #[cfg(feature = "serde")]
+        if let Some(name) = self.serde.as_ref().and_then(|s| s.shadow_name()) {
+            acc.handle(validate_ident(name, "struct name", self.serde.fx_span()));
+        }
+    }
+
     #[inline]
     pub fn is_sync(&self) -> Option<bool> {
         self.mode_sync
-- 
2.43.0


From c66bd7e8e4359cf3719fb5c8ac0586e9e9db82e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:34 +0000
Subject: [PATCH 23/42] fix: reject unions with a diagnostic instead of
 panicking

---
 fieldx_derive/src/lib.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/fieldx_derive/src/lib.rs b/fieldx_derive/src/lib.rs
index a16d375..11a77fb 100644
--- a/fieldx_derive/src/lib.rs
+++ b/fieldx_derive/src/lib.rs
@@ -601,6 +601,14 @@ pub fn fxstruct(args: proc_macro::TokenStream, input: proc_macro::TokenStream) -
     };
 
     let input_ast = parse_macro_input!(input as DeriveInput);
+    if let syn::Data::Union(ref union_data) = input_ast.data {
+        // This kind of data is not handled by darling
+        return darling::Error::unsupported_shape("union")
+            .with_span(&union_data.union_token)
+            .write_errors()
+            .into();
+    }
+
     let fx = match FXInputReceiver::from_derive_input(&input_ast) {
         Ok(v) => v,
         Err(e) => return darling::Error::from(e).write_errors().into(),
-- 
2.43.0


From bfb17dc455d2c89b37541cfd660e7ecf19c57f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:34 +0000
Subject: [PATCH 24/42] fix: bare default of lazy and optional concurrent
 fields with builders

---
 fieldx_derive/src/codegen/sync.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fieldx_derive/src/codegen/sync.rs b/fieldx_derive/src/codegen/sync.rs
index 5e673de..4881d9e 100644
--- a/fieldx_derive/src/codegen/sync.rs
+++ b/fieldx_derive/src/codegen/sync.rs
@@ -382,7 +382,8 @@ impl FXCodeGenContextual for FXCodeGenSync {
         let is_lazy = fctx.is_lazy();
         let default = self.field_default_value(fctx);
         let lazy_builder = self.implementor(fctx).lazy_builder(self, fctx)?;
-        let or_default = if fctx.has_default_value() {
+        // There is no value when a lazy or optional field has just a bare `default`.
+        let or_default = if fctx.has_default_value() && !default.is_none() {
             let default = self.fixup_self_type(default.clone().expect(&format!(
                 "Internal problem: expected default value for field {}",
                 fctx.ident_str()
-- 
2.43.0


From 7fd6e142bbc27b33dcbfb92fc043080a7601e3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:19 +0000
Subject: [PATCH 25/42] fix: avoid deadlocks when comparing async locks while
 writers are waiting

---
 fieldx/src/async/fxlock.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/fieldx/src/async/fxlock.rs b/fieldx/src/async/fxlock.rs
index 1321bba..59e2eb5 100644
--- a/fieldx/src/async/fxlock.rs
+++ b/fieldx/src/async/fxlock.rs
@@ -35,10 +35,24 @@ where
     T: PartialEq,
 {
     fn eq(&self, other: &Self) -> bool {
-        let myguard = self.0.blocking_read();
-        let otherguard = other.0.blocking_read();
+        // The lock is fair: a second read lock of the same thread would wait for a writer which waits for the first one.
+        if std::ptr::eq(self, other) {
+            let guard = self.0.blocking_read();
+            return guard.eq(&guard);
+        }
 
-        myguard.eq(&otherguard)
+        // Locks must always be taken in the same order. Otherwise, with writers waiting, two threads comparing the same
+        // pair of locks in different directions would wait for each other.
+        if (self as *const Self) < (other as *const Self) {
+            let myguard = self.0.blocking_read();
+            let otherguard = other.0.blocking_read();
+            myguard.eq(&otherguard)
+        }
+        else {
+            let otherguard = other.0.blocking_read();
+            let myguard = self.0.blocking_read();
+            myguard.eq(&otherguard)
+        }
     }
 }
 
-- 
2.43.0


From ae5e4dbbbc03308fda7a957cf648f210409fc532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:19 +0000
Subject: [PATCH 26/42] fix: a helper made of true is on, not off

FXBaseHelper::from(bool) took the value for its 'off' flag. The only user
of it relied on the inversion: the bare #[fieldx] attribute keeps turning
lazy, clearer and predicate off.
---
 fieldx_aux/src/base_helper.rs | 2 +-
 fieldx_derive/src/fields.rs   | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/fieldx_aux/src/base_helper.rs b/fieldx_aux/src/base_helper.rs
index 181d836..671d2d1 100644
--- a/fieldx_aux/src/base_helper.rs
+++ b/fieldx_aux/src/base_helper.rs
@@ -53,7 +53,7 @@ impl<const BOOL_ONLY: bool> From<&FXBaseHelper<BOOL_ONLY>> for bool {
 impl<const BOOL_ONLY: bool> From<bool> for FXBaseHelper<BOOL_ONLY> {
     fn from(value: bool) -> Self {
         Self {
-            off: Flag::from(value),
+            off: Flag::from(!value),
             ..Default::default()
         }
     }
diff --git a/fieldx_derive/src/fields.rs b/fieldx_derive/src/fields.rs
index 2def86d..bf5cfcb 100644
--- a/fieldx_derive/src/fields.rs
+++ b/fieldx_derive/src/fields.rs
@@ -362,9 +362,9 @@ impl FXFieldReceiver {
     fn mark_implicitly(&mut self, orig: Meta) -> Result<(), &str> {
         match self.lazy {
             None => {
-                self.lazy = Some(FXNestingAttr::new(FXBaseHelper::from(true), Some(orig.clone())));
-                self.clearer = Some(FXNestingAttr::new(FXBaseHelper::from(true), Some(orig.clone())));
-                self.predicate = Some(FXNestingAttr::new(FXBaseHelper::from(true), Some(orig)));
+                self.lazy = Some(FXNestingAttr::new(FXBaseHelper::from(false), Some(orig.clone())));
+                self.clearer = Some(FXNestingAttr::new(FXBaseHelper::from(false), Some(orig.clone())));
+                self.predicate = Some(FXNestingAttr::new(FXBaseHelper::from(false), Some(orig)));
             }
             _ => (),
         };
-- 
2.43.0


From d375c5281870aa821d2fa4d3453aa4fe650dfb28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:19 +0000
Subject: [PATCH 27/42] fix: let tuple arguments take any syntax elements as
 documented

---
 fieldx_aux/src/syn_value.rs | 39 +++++++++++++++++++++++++++++++++++--
 1 file changed, 37 insertions(+), 2 deletions(-)

diff --git a/fieldx_aux/src/syn_value.rs b/fieldx_aux/src/syn_value.rs
index 6a0c99d..4a01f29 100644
--- a/fieldx_aux/src/syn_value.rs
+++ b/fieldx_aux/src/syn_value.rs
@@ -3,7 +3,12 @@ use super::{FXFrom, FromNestAttr};
 use darling::{ast::NestedMeta, FromMeta};
 use quote::ToTokens;
 use std::{borrow::Borrow, fmt::Debug, marker::PhantomData, ops::Deref};
-use syn::{parse::Parse, punctuated::Punctuated, spanned::Spanned, Meta};
+use syn::{
+    parse::{Parse, ParseStream, Parser},
+    punctuated::Punctuated,
+    spanned::Spanned,
+    Meta, Token,
+};
 
 /// Argument that takes exactly one syntax element.
 ///
@@ -129,7 +134,7 @@ impl<T> Borrow<Option<T>> for FXSynValueArg<T, true> {
 /// For example:
 ///
 /// ```ignore
-///     foo: FXNestingAttr<FXSynTupleArg<(syn::Path, syn::PatRange)>>,
+///     foo: FXNestingAttr<FXSynTupleArg<(syn::Path, syn::Expr)>, false>,
 /// ```
 ///
 /// `foo` can be used as `foo(std::sync::Arc, 1..=42)`.
@@ -156,6 +161,36 @@ macro_rules! from_tuple {
             impl< $( $ty, )+ > FromMeta for FXSynTupleArg<( $( $ty ),+ )>
             where $( $ty: syn::parse::Parse ),+
             {
+                fn from_meta(item: &Meta) -> darling::Result<Self> {
+                    let Meta::List(list) = item
+                    else {
+                        return Err(darling::Error::unsupported_format("arguments are expected").with_span(item));
+                    };
+                    // Elements are not limited to what darling considers a nested meta.
+                    let parser = |input: ParseStream| {
+                        let expected = from_tuple!(@count $($ty),+);
+                        let value = ( $(
+                            {
+                                if input.is_empty() {
+                                    return Err(darling::Error::too_few_items(expected).with_span(item).into());
+                                }
+                                let element = input.parse::<$ty>()?;
+                                if !input.is_empty() {
+                                    input.parse::<Token![,]>()?;
+                                }
+                                element
+                            }
+                        ),+ );
+                        if !input.is_empty() {
+                            return Err(darling::Error::too_many_items(expected).with_span(item).into());
+                        }
+                        Ok(value)
+                    };
+                    Ok(Self {
+                        value: parser.parse2(list.tokens.clone())?
+                    })
+                }
+
                 fn from_list(items: &[NestedMeta]) -> darling::Result<Self> {
                     let expected = from_tuple!(@count $($ty),+);
                     if items.len() > expected {
-- 
2.43.0


From 8407e6fdbf40faef706551e421b2d7be68074cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:59 +0000
Subject: [PATCH 28/42] fix: generic structs with inline bounds, constant
 parameters, and defaults of parameters

---
 fieldx_derive/src/codegen.rs       |  9 ++++-----
 fieldx_derive/src/codegen/serde.rs | 25 ++++++++++++-------------
 2 files changed, 16 insertions(+), 18 deletions(-)

diff --git a/fieldx_derive/src/codegen.rs b/fieldx_derive/src/codegen.rs
index 32e37fc..a91ef16 100644
--- a/fieldx_derive/src/codegen.rs
+++ b/fieldx_derive/src/codegen.rs
@@ -330,9 +330,7 @@ impl FXRewriter {
         let builder_ident = ctx.builder_ident();
         let builders = ctx.builders_combined();
         let input_ident = ctx.input_ident();
-        let generics = ctx.input().generics();
-        let where_clause = &generics.where_clause;
-        let generic_params = ctx.struct_generic_params();
+        let (impl_generics, generic_params, where_clause) = ctx.input().generics().split_for_impl();
         let attributes = ctx.args().builder_impl_attributes();
         let post_build_ident = ctx.builder_post_build_ident();
 
@@ -424,7 +422,7 @@ impl FXRewriter {
 
         quote![
             #attributes
-            impl #generics #builder_ident #generic_params
+            impl #impl_generics #builder_ident #generic_params
             #where_clause
             {
                 #fn_new
@@ -456,7 +454,8 @@ impl FXRewriter {
                 let (_, weak_type) = cgen.ref_count_types();
                 let mf = ctx.myself_field();
                 let input_ident = ctx.input_ident();
-                quote![#mf: #weak_type<#input_ident #generics>,]
+                let (_, type_generics, _) = generics.split_for_impl();
+                quote![#mf: #weak_type<#input_ident #type_generics>,]
             }
             else {
                 quote![]
diff --git a/fieldx_derive/src/codegen/serde.rs b/fieldx_derive/src/codegen/serde.rs
index c153940..3398183 100644
--- a/fieldx_derive/src/codegen/serde.rs
+++ b/fieldx_derive/src/codegen/serde.rs
@@ -261,8 +261,8 @@ impl FXRewriteSerde for super::FXRewriter {
             let mut serde_args: Vec<TokenStream> = vec![];
 
             let serde_helper = args.serde().as_ref().unwrap();
-            let generics = ctx.input().generics();
-            let shadow_ident = format!("{}{}", ctx.shadow_ident(), generics.to_token_stream());
+            let (_, type_generics, _) = ctx.input().generics().split_for_impl();
+            let shadow_ident = format!("{}{}", ctx.shadow_ident(), type_generics.to_token_stream());
             let serde_span = args.serde_helper_span().unwrap_or_else(|| Span::call_site());
 
             if serde_helper.needs_deserialize().unwrap_or(true) {
@@ -311,8 +311,9 @@ impl FXRewriteSerde for super::FXRewriter {
 
             let default_impl = if ctx.needs_default() {
                 let shadow_defaults = ctx.shadow_defaults();
+                let (impl_generics, type_generics, _) = generics.split_for_impl();
                 quote_spanned! {span=>
-                    impl #generics ::std::default::Default for #shadow_ident #generics #where_clause {
+                    impl #impl_generics ::std::default::Default for #shadow_ident #type_generics #where_clause {
                         fn default() -> Self {
                             Self {
                                 #( #shadow_defaults ),*
@@ -347,8 +348,7 @@ impl FXRewriteSerde for super::FXRewriter {
             let struct_ident = ctx.input_ident();
             let shadow_var = ctx.shadow_var_ident();
             let mut fields = vec![];
-            let generics = ctx.input().generics();
-            let where_clause = &generics.where_clause;
+            let (impl_generics, type_generics, where_clause) = ctx.input().generics().split_for_impl();
             let span = args.serde_helper_span().unwrap_or_else(|| Span::call_site());
 
             for field in ctx.all_fields() {
@@ -379,8 +379,8 @@ impl FXRewriteSerde for super::FXRewriter {
             };
 
             ctx.tokens_extend(quote_spanned![span=>
-                impl #generics ::std::convert::From<#shadow_ident #generics> for #struct_ident #generics #where_clause {
-                    fn from(#shadow_var: #shadow_ident #generics) -> Self {
+                impl #impl_generics ::std::convert::From<#shadow_ident #type_generics> for #struct_ident #type_generics #where_clause {
+                    fn from(#shadow_var: #shadow_ident #type_generics) -> Self {
                         Self {
                             #( #fields, )*
                             #init_from_default
@@ -400,8 +400,7 @@ impl FXRewriteSerde for super::FXRewriter {
             let mut fields = vec![];
             let mut lazy_inits = vec![];
             let me_var = ctx.me_var_ident();
-            let generics = ctx.input().generics();
-            let where_clause = &generics.where_clause;
+            let (impl_generics, type_generics, where_clause) = ctx.input().generics().split_for_impl();
 
             for field in ctx.all_fields() {
                 let fctx = ctx.field_ctx(field);
@@ -432,8 +431,8 @@ impl FXRewriteSerde for super::FXRewriter {
             }
 
             ctx.tokens_extend(quote![
-                impl #generics ::std::convert::From<#struct_ident #generics> for #shadow_ident #generics #where_clause {
-                    fn from(mut #me_var: #struct_ident #generics) -> Self {
+                impl #impl_generics ::std::convert::From<#struct_ident #type_generics> for #shadow_ident #type_generics #where_clause {
+                    fn from(mut #me_var: #struct_ident #type_generics) -> Self {
                         #( #lazy_inits )*
                         Self {
                             #( #fields, )*
@@ -515,12 +514,12 @@ impl FXRewriteSerde for super::FXRewriter {
                     quote_spanned![default_span=> #default_code]
                 };
 
-                let generics = ctx.input().generics();
+                let (_, type_generics, _) = ctx.input().generics().split_for_impl();
                 let shadow_ident = ctx.shadow_ident();
                 let fn_ident = ctx.unique_ident_pfx(&format!("{}_default", shadow_ident.to_string()));
                 ctx.add_method_decl(quote_spanned![default_span=>
                     #[allow(non_snake_case)]
-                    fn #fn_ident() -> #shadow_ident #generics {
+                    fn #fn_ident() -> #shadow_ident #type_generics {
                         #serde_default.into()
                     }
                 ]);
-- 
2.43.0


From 492e1afa8f120ce428861975949bc8fb45d90d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:26 +0000
Subject: [PATCH 29/42] fix: fields with raw identifiers

---
 fieldx_derive/src/codegen/codegen_trait.rs | 5 +++++
 fieldx_derive/src/ctx/field.rs             | 5 +++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/fieldx_derive/src/codegen/codegen_trait.rs b/fieldx_derive/src/codegen/codegen_trait.rs
index ec5e0fc..44d3dd3 100644
--- a/fieldx_derive/src/codegen/codegen_trait.rs
+++ b/fieldx_derive/src/codegen/codegen_trait.rs
@@ -136,6 +136,11 @@ pub trait FXCodeGenContextual {
             .unwrap_or("");
         let suffix = helper_kind.default_suffix().unwrap_or("");
 
+        if prefix.is_empty() && suffix.is_empty() {
+            // Formatting would strip a raw identifier of its `r#`
+            return Ok(helper_base_name);
+        }
+
         Ok(format_ident!(
             "{}{}{}",
             prefix,
diff --git a/fieldx_derive/src/ctx/field.rs b/fieldx_derive/src/ctx/field.rs
index edf0fad..17c8d63 100644
--- a/fieldx_derive/src/ctx/field.rs
+++ b/fieldx_derive/src/ctx/field.rs
@@ -9,7 +9,7 @@ use delegate::delegate;
 use fieldx_aux::FXSerde;
 use fieldx_aux::{FXAccessorMode, FXAttributes, FXBool, FXBuilder, FXHelperTrait, FXOrig, FXPubMode};
 use proc_macro2::{Span, TokenStream};
-use quote::{quote, ToTokens};
+use quote::{format_ident, quote, ToTokens};
 use std::{
     cell::{OnceCell, RefCell},
     rc::Rc,
@@ -392,7 +392,8 @@ impl FXFieldCtx {
                 let ctx = self.codegen_ctx();
                 let field_ident = self.ident();
                 let struct_ident = ctx.input_ident();
-                Ok(ctx.unique_ident_pfx(&format!("__{}_{}_default", struct_ident, field_ident)))
+                // format_ident! strips raw identifiers of their `r#`
+                Ok(ctx.unique_ident_pfx(&format_ident!("__{}_{}_default", struct_ident, field_ident).to_string()))
             })
             .as_ref()
             .map_err(
-- 
2.43.0


From 599ed657da757a6aa6d00a409fb69036c373d824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:19 +0000
Subject: [PATCH 30/42] fix: several readers of an async lazy field waiting for
 its initialization

Each of them requested the write lock, and all but the first one were waiting then for
the read guard of the first one to be dropped.
---
 fieldx/src/async/fxproxy.rs | 43 ++++++++++++++++++++++++++-----------
 1 file changed, 31 insertions(+), 12 deletions(-)

diff --git a/fieldx/src/async/fxproxy.rs b/fieldx/src/async/fxproxy.rs
index d031e65..b52675c 100644
--- a/fieldx/src/async/fxproxy.rs
+++ b/fieldx/src/async/fxproxy.rs
@@ -9,7 +9,7 @@ use std::{
     pin::Pin,
     sync::atomic::{AtomicBool, Ordering},
 };
-use tokio::sync::{RwLock, RwLockMappedWriteGuard, RwLockReadGuard, RwLockWriteGuard};
+use tokio::sync::{Mutex, RwLock, RwLockMappedWriteGuard, RwLockReadGuard, RwLockWriteGuard};
 
 type FXCallback<S, T> = Box<dyn Fn(&S) -> Pin<Box<dyn Future<Output = T> + Send + '_>> + Send + Sync>;
 
@@ -86,6 +86,8 @@ where
     value:   RwLock<Option<B::Value>>,
     is_set:  AtomicBool,
     builder: RwLock<Option<B>>,
+    // To be held while waiting for the write lock. See `try_read`.
+    queue:   Mutex<()>,
 }
 
 /// Write-lock returned by [`FXProxyAsync::write`] method
@@ -125,6 +127,7 @@ where
             is_set:  AtomicBool::new(value.is_some()),
             value:   RwLock::new(value),
             builder: RwLock::new(Some(builder)),
+            queue:   Mutex::new(()),
         }
     }
 
@@ -156,8 +159,20 @@ where
         RwLockReadGuard::try_map(self.value.read().await, |data: &Option<B::Value>| data.as_ref()).ok()
     }
 
+    async fn write_lock<'a>(&'a self) -> RwLockWriteGuard<'a, Option<B::Value>> {
+        let _queue = self.queue.lock().await;
+        self.value.write().await
+    }
+
     async fn read_or_init<'a>(&'a self, owner: &B::Owner) -> Result<RwLockWriteGuard<'a, Option<B::Value>>, B::Error> {
-        let mut guard = self.value.write().await;
+        self.init_with_lock(self.write_lock().await, owner).await
+    }
+
+    async fn init_with_lock<'a>(
+        &'a self,
+        mut guard: RwLockWriteGuard<'a, Option<B::Value>>,
+        owner: &B::Owner,
+    ) -> Result<RwLockWriteGuard<'a, Option<B::Value>>, B::Error> {
         if (*guard).is_none() {
             // No value has been set yet
             match *self.builder.read().await {
@@ -175,13 +190,7 @@ where
     ///
     /// Panics if fallible field builder returns an error.
     pub async fn read<'a>(&'a self, owner: &B::Owner) -> RwLockReadGuard<'a, B::Value> {
-        if let Some(guard) = self.read_if_set().await {
-            return guard;
-        }
-        RwLockReadGuard::map(
-            RwLockWriteGuard::downgrade(self.read_or_init(owner).await.unwrap()),
-            |data: &Option<B::Value>| data.as_ref().unwrap(),
-        )
+        self.try_read(owner).await.unwrap()
     }
 
     /// Lazy-initialize the field if necessary and return lock write guard for the inner value.
@@ -201,8 +210,17 @@ where
         if let Some(guard) = self.read_if_set().await {
             return Ok(guard);
         }
+        // Nobody else waits for the write lock while the queue is held. So, if there is still no value then there won't be
+        // any until the write lock is obtained here. Otherwise the lock could be requested for a field which is already
+        // initialized and being read, and this would keep other readers away.
+        let queue = self.queue.lock().await;
+        if let Some(guard) = self.read_if_set().await {
+            return Ok(guard);
+        }
+        let guard = self.value.write().await;
+        drop(queue);
         Ok(RwLockReadGuard::map(
-            RwLockWriteGuard::downgrade(self.read_or_init(owner).await?),
+            RwLockWriteGuard::downgrade(self.init_with_lock(guard, owner).await?),
             |data: &Option<B::Value>| data.as_ref().unwrap(),
         ))
     }
@@ -222,7 +240,7 @@ where
 
     /// Provides write-lock to directly store the value. Never calls the lazy builder.
     pub async fn write<'a>(&'a self) -> FXWrLockGuardAsync<'a, B> {
-        FXWrLockGuardAsync::<'a, B>::new(self.value.write().await, self)
+        FXWrLockGuardAsync::<'a, B>::new(self.write_lock().await, self)
     }
 
     fn clear_with_lock(&self, wguard: &mut RwLockWriteGuard<Option<B::Value>>) -> Option<B::Value> {
@@ -232,7 +250,7 @@ where
 
     /// Resets the container into unitialized state
     pub async fn clear(&self) -> Option<B::Value> {
-        let mut wguard = self.value.write().await;
+        let mut wguard = self.write_lock().await;
         self.clear_with_lock(&mut wguard)
     }
 }
@@ -272,6 +290,7 @@ where
             value:   RwLock::new((*vguard).as_ref().cloned()),
             is_set:  AtomicBool::new(self.is_set()),
             builder: RwLock::new((*bguard).clone()),
+            queue:   Mutex::new(()),
         }
     }
 }
-- 
2.43.0


From d6ab66fa960f52fcd4270c930571d4b2c3e767cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:26 +0000
Subject: [PATCH 31/42] fix: clearer and deserialization of unprotected
 optional fields of sync structs

With lock(off) at the struct level an optional field is a plain Option, but code generated
for it was treating it as a lock.
---
 fieldx_derive/src/codegen/sync.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/fieldx_derive/src/codegen/sync.rs b/fieldx_derive/src/codegen/sync.rs
index 4881d9e..0ed7da5 100644
--- a/fieldx_derive/src/codegen/sync.rs
+++ b/fieldx_derive/src/codegen/sync.rs
@@ -451,7 +451,7 @@ impl FXCodeGenContextual for FXCodeGenSync {
     fn field_from_struct(&self, fctx: &FXFieldCtx) -> darling::Result<TokenStream> {
         let field_ident = fctx.ident_tok();
         let me_var = self.ctx().me_var_ident();
-        Ok(if self.is_serde_optional(fctx) || fctx.needs_lock() {
+        Ok(if fctx.is_lazy() || fctx.needs_lock() {
             quote![ #me_var.#field_ident.into_inner() ]
         }
         else {
@@ -591,8 +591,8 @@ impl FXCodeGenContextual for FXCodeGenSync {
                     }
                 ]
             }
-            else {
-                // If not lazy then it's optional
+            // If not lazy then it's optional
+            else if fctx.needs_lock() {
                 quote_spanned![span=>
                     #[inline]
                     #attributes_fn
@@ -601,6 +601,15 @@ impl FXCodeGenContextual for FXCodeGenSync {
                     }
                 ]
             }
+            else {
+                quote_spanned![span=>
+                    #[inline]
+                    #attributes_fn
+                    #vis_tok fn #clear_name(&mut self) -> ::std::option::Option<#ty> {
+                       self.#ident.take()
+                    }
+                ]
+            }
         }
         else {
             TokenStream::new()
-- 
2.43.0


From 0f82e41dc4704098e6a00addfa58d503ddc6c4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:26 +0000
Subject: [PATCH 32/42] fix: field's own reader and writer with lock(off) of
 the struct

Arguments of a field take precedence, and the helpers can't work without the lock.
---
 fieldx_derive/src/ctx/field.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fieldx_derive/src/ctx/field.rs b/fieldx_derive/src/ctx/field.rs
index 17c8d63..8407248 100644
--- a/fieldx_derive/src/ctx/field.rs
+++ b/fieldx_derive/src/ctx/field.rs
@@ -152,6 +152,10 @@ impl FXFieldCtx {
             && self
                 .field
                 .needs_lock()
+                // Reader and writer requested for the field need the lock no matter what is set for the struct.
+                .or_else(|| {
+                    (self.field.needs_reader() == Some(true) || self.field.needs_writer() == Some(true)).then_some(true)
+                })
                 .or_else(|| self.codegen_ctx().args().needs_lock())
                 .unwrap_or_else(|| self.needs_reader() || self.needs_writer() || self.is_optional())
     }
-- 
2.43.0


From d84aba3d53b428ce7ccbd01bd21fd619fbe0a0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:38 +0000
Subject: [PATCH 33/42] fix: copy(off) and clone(off) turn the accessor mode
 off; as_ref is about optional fields only

---
 fieldx_derive/src/codegen/sync.rs | 14 +++++++----
 fieldx_derive/src/ctx/field.rs    | 39 ++++++++++++-------------------
 2 files changed, 25 insertions(+), 28 deletions(-)

diff --git a/fieldx_derive/src/codegen/sync.rs b/fieldx_derive/src/codegen/sync.rs
index 0ed7da5..9f31f4e 100644
--- a/fieldx_derive/src/codegen/sync.rs
+++ b/fieldx_derive/src/codegen/sync.rs
@@ -3,7 +3,7 @@ mod impl_sync;
 
 #[cfg(feature = "serde")]
 use crate::codegen::serde::FXCGenSerde;
-use crate::codegen::{FXCodeGenContextual, FXCodeGenCtx, FXFieldCtx, FXHelperKind, FXInlining, FXValueRepr};
+use crate::codegen::{FXAccessorMode, FXCodeGenContextual, FXCodeGenCtx, FXFieldCtx, FXHelperKind, FXInlining, FXValueRepr};
 use proc_macro2::{Span, TokenStream};
 use quote::{format_ident, quote, quote_spanned, ToTokens};
 use std::rc::Rc;
@@ -296,12 +296,18 @@ impl FXCodeGenContextual for FXCodeGenSync {
                 self.field_reader_method(fctx, FXHelperKind::Accessor)?
             }
             else {
-                let ty = self.fallible_return_type(fctx, &self.maybe_optional_ty(fctx, ty))?;
+                let (ty, deref_tok, meth) = if fctx.accessor_mode() == FXAccessorMode::AsRef {
+                    (self.maybe_optional_ty(fctx, &quote![&#ty]), quote![], quote![.as_ref()])
+                }
+                else {
+                    let ty = self.fallible_return_type(fctx, &self.maybe_optional_ty(fctx, ty))?;
+                    (quote![&#ty], quote![&], quote![])
+                };
 
                 quote_spanned![span=>
                     #attributes_fn
-                    #vis_tok fn #accessor_name(&self) -> &#ty {
-                        &self.#ident
+                    #vis_tok fn #accessor_name(&self) -> #ty {
+                        #deref_tok self.#ident #meth
                     }
                 ]
             }
diff --git a/fieldx_derive/src/ctx/field.rs b/fieldx_derive/src/ctx/field.rs
index 8407248..9719c65 100644
--- a/fieldx_derive/src/ctx/field.rs
+++ b/fieldx_derive/src/ctx/field.rs
@@ -290,30 +290,21 @@ impl FXFieldCtx {
     }
 
     pub fn accessor_mode(&self) -> FXAccessorMode {
-        self.field
-            .accessor_mode()
-            .or_else(|| {
-                self.field.is_copy().and_then(|is_copy| {
-                    if is_copy {
-                        Some(FXAccessorMode::Copy)
-                    }
-                    else {
-                        Some(FXAccessorMode::Clone)
-                    }
-                })
-            })
-            .or_else(|| self.codegen_ctx.args().accessor_mode())
-            .or_else(|| {
-                self.codegen_ctx.args().is_copy().and_then(|is_copy| {
-                    if is_copy {
-                        Some(FXAccessorMode::Copy)
-                    }
-                    else {
-                        Some(FXAccessorMode::Clone)
-                    }
-                })
-            })
-            .unwrap_or(FXAccessorMode::None)
+        if self.is_copy() {
+            FXAccessorMode::Copy
+        }
+        else if self.is_clone() {
+            FXAccessorMode::Clone
+        }
+        else {
+            // The mode may be overridden by `copy(off)` or `clone(off)`; `as_ref` is only about optional fields which are
+            // accessed directly.
+            self.field
+                .accessor_mode()
+                .or_else(|| self.codegen_ctx.args().accessor_mode())
+                .filter(|m| *m == FXAccessorMode::AsRef && self.is_optional() && !self.is_lazy() && !self.is_inner_mut())
+                .unwrap_or(FXAccessorMode::None)
+        }
     }
 
     pub fn default_value(&self) -> Option<&NestedMeta> {
-- 
2.43.0


From 44c0d5940307c7f86335a0ca52658bc9a3cc7090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:35 +0000
Subject: [PATCH 34/42] fix: sync keyword overrides the async default of the
 struct, sync(off) doesn't hide r#async

---
 fieldx_derive/src/fields.rs    | 4 +++-
 fieldx_derive/src/util/args.rs | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/fieldx_derive/src/fields.rs b/fieldx_derive/src/fields.rs
index bf5cfcb..2704de7 100644
--- a/fieldx_derive/src/fields.rs
+++ b/fieldx_derive/src/fields.rs
@@ -223,6 +223,8 @@ impl FXFieldReceiver {
             .as_ref()
             .map(|th| th.is_true())
             .or_else(|| self.mode.as_ref().map(|m| m.is_async()))
+            // Same as mode(sync)
+            .or_else(|| self.mode_sync.is_true_opt().and_then(|b| b.then_some(false)))
     }
 
     pub fn is_plain(&self) -> Option<bool> {
@@ -232,7 +234,7 @@ impl FXFieldReceiver {
     pub fn is_sync(&self) -> Option<bool> {
         self.mode_sync
             .as_ref()
-            .map(|th| th.is_true())
+            .map(|th| th.is_true() || self.is_async() == Some(true))
             .or_else(|| self.mode.as_ref().map(|m| m.is_sync() || m.is_async()))
             .or_else(|| self.is_async())
             .or_else(|| self.lock().as_ref().map(|th| th.is_true()))
diff --git a/fieldx_derive/src/util/args.rs b/fieldx_derive/src/util/args.rs
index dbc9f6b..e8b8a77 100644
--- a/fieldx_derive/src/util/args.rs
+++ b/fieldx_derive/src/util/args.rs
@@ -130,7 +130,7 @@ impl FXSArgs {
     pub fn is_sync(&self) -> Option<bool> {
         self.mode_sync
             .as_ref()
-            .map(|th| th.is_true())
+            .map(|th| th.is_true() || self.is_async() == Some(true))
             .or_else(|| self.mode.as_ref().map(|m| m.is_sync() || m.is_async()))
             .or_else(|| self.is_async())
             .or_else(|| self.lock().as_ref().map(|th| th.is_true()))
-- 
2.43.0


From 6a4f7bf0a63d2aab0f1dc73f423c88334d389acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:58 +0000
Subject: [PATCH 35/42] fix: convert the value given to a setter before taking
 the lock

---
 fieldx_derive/src/codegen/sync.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/fieldx_derive/src/codegen/sync.rs b/fieldx_derive/src/codegen/sync.rs
index 9f31f4e..d486ea4 100644
--- a/fieldx_derive/src/codegen/sync.rs
+++ b/fieldx_derive/src/codegen/sync.rs
@@ -526,7 +526,15 @@ impl FXCodeGenContextual for FXCodeGenSync {
             let vis_tok = fctx.vis_tok(FXHelperKind::Setter);
             let ty = fctx.ty();
             let attributes_fn = self.attributes_fn(fctx, FXHelperKind::Setter, FXInlining::Always);
-            let (gen_params, val_type, into_tok) = self.into_toks(fctx, fctx.is_setter_into());
+            let is_into = fctx.is_setter_into();
+            let (gen_params, val_type, into_tok) = self.into_toks(fctx, is_into);
+            // User's code must not run while the lock is held: it may want to use the field.
+            let convert_tok = if is_into {
+                quote_spanned![span=> let value: #ty = value #into_tok;]
+            }
+            else {
+                quote![]
+            };
             let needs_lock = fctx.needs_lock();
             let async_decl = self.implementor(fctx).async_decl();
             let await_call = self.implementor(fctx).await_call();
@@ -535,7 +543,8 @@ impl FXCodeGenContextual for FXCodeGenSync {
                 quote_spanned! [span=>
                     #attributes_fn
                     #vis_tok #async_decl fn #set_name #gen_params(&self, value: #val_type) -> ::std::option::Option<#ty> {
-                        self.#ident.write()#await_call.store(value #into_tok)
+                        #convert_tok
+                        self.#ident.write()#await_call.store(value)
                     }
                 ]
             }
@@ -550,7 +559,8 @@ impl FXCodeGenContextual for FXCodeGenSync {
                 quote_spanned![span=>
                     #attributes_fn
                     #vis_tok #opt_async_decl fn #set_name #gen_params(& #mutable self, value: #val_type) -> ::std::option::Option<#ty> {
-                        self.#ident #lock_method #opt_await_call .replace(value #into_tok)
+                        #convert_tok
+                        self.#ident #lock_method #opt_await_call .replace(value)
                     }
                 ]
             }
@@ -558,8 +568,9 @@ impl FXCodeGenContextual for FXCodeGenSync {
                 quote_spanned![span=>
                     #attributes_fn
                     #vis_tok #async_decl fn #set_name #gen_params(&self, value: #val_type) -> #ty {
+                        #convert_tok
                         let mut wlock = self.#ident.write()#await_call;
-                        ::std::mem::replace(&mut *wlock, value #into_tok)
+                        ::std::mem::replace(&mut *wlock, value)
                     }
                 ]
             }
-- 
2.43.0


From 588652e52adabbae621b2d80eb1f1e17160c7ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:53 +0000
Subject: [PATCH 36/42] fix: a panicking conversion in the setter of a plain
 lazy field doesn't lose the old value

---
 fieldx_derive/src/codegen/plain.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/fieldx_derive/src/codegen/plain.rs b/fieldx_derive/src/codegen/plain.rs
index bc78fc2..0fc0485 100644
--- a/fieldx_derive/src/codegen/plain.rs
+++ b/fieldx_derive/src/codegen/plain.rs
@@ -246,14 +246,24 @@ impl FXCodeGenContextual for FXCodeGenPlain {
             let vis_tok = fctx.vis_tok(FXHelperKind::Setter);
             let mut ty_tok = fctx.ty_tok().clone();
             let attributes_fn = self.attributes_fn(fctx, FXHelperKind::Setter, FXInlining::Always);
-            let (gen_params, val_type, into_tok) = self.into_toks(fctx, fctx.is_setter_into());
+            let is_into = fctx.is_setter_into();
+            let (gen_params, val_type, into_tok) = self.into_toks(fctx, is_into);
 
             if fctx.is_lazy() {
+                // The old value must survive a panicking conversion.
+                let convert_tok = if is_into {
+                    quote_spanned![span=> let value: #ty_tok = value #into_tok;]
+                }
+                else {
+                    quote![]
+                };
+
                 quote_spanned![span=>
                     #attributes_fn
                     #vis_tok fn #setter_name #gen_params(&mut self, value: #val_type) -> ::std::option::Option<#ty_tok> {
+                        #convert_tok
                         let old = self.#ident.take();
-                        let _ = self.#ident.set(value #into_tok);
+                        let _ = self.#ident.set(value);
                         old
                     }
                 ]
-- 
2.43.0


From 798fc40305b03716ceada4e0ff248aa72c93924c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:54:23 +0000
Subject: [PATCH 37/42] fix: structs with fallible sync lazy fields are cloned
 whatever the type of error is

---
 fieldx/src/sync/fxproxy.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/fieldx/src/sync/fxproxy.rs b/fieldx/src/sync/fxproxy.rs
index a95d23c..5055103 100644
--- a/fieldx/src/sync/fxproxy.rs
+++ b/fieldx/src/sync/fxproxy.rs
@@ -40,7 +40,6 @@ impl<S: FXStruct, T> FXBuilderWrapperSync for FXBuilderInfallible<S, T> {
 }
 
 #[doc(hidden)]
-#[derive(Clone)]
 pub struct FXBuilderFallible<S, T, E> {
     builder: fn(&S) -> Result<T, E>,
 }
@@ -51,6 +50,13 @@ impl<S, T, E> FXBuilderFallible<S, T, E> {
     }
 }
 
+// Only the function pointer is cloned, there are no requirements to the type of error.
+impl<S, T, E> Clone for FXBuilderFallible<S, T, E> {
+    fn clone(&self) -> Self {
+        Self { builder: self.builder }
+    }
+}
+
 impl<S: FXStruct, T, E: Debug> FXBuilderWrapper for FXBuilderFallible<S, T, E> {
     type Error = E;
     type Owner = S;
-- 
2.43.0


From eef3f2b74225caa9ae9fd8222d60aea3dc4e53c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:54:23 +0000
Subject: [PATCH 38/42] fix: reader(off) of a struct doesn't cancel writer's
 making it sync

---
 fieldx_derive/src/util/args.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/fieldx_derive/src/util/args.rs b/fieldx_derive/src/util/args.rs
index e8b8a77..9ef38ee 100644
--- a/fieldx_derive/src/util/args.rs
+++ b/fieldx_derive/src/util/args.rs
@@ -134,8 +134,12 @@ impl FXSArgs {
             .or_else(|| self.mode.as_ref().map(|m| m.is_sync() || m.is_async()))
             .or_else(|| self.is_async())
             .or_else(|| self.lock().as_ref().map(|th| th.is_true()))
-            .or_else(|| self.reader().as_ref().map(|th| th.is_true()))
-            .or_else(|| self.writer().as_ref().map(|th| th.is_true()))
+            .or_else(|| {
+                // Turning one of reader and writer off doesn't cancel the other one.
+                let reader = self.reader().as_ref().map(|th| th.is_true());
+                let writer = self.writer().as_ref().map(|th| th.is_true());
+                reader.max(writer)
+            })
     }
 
     #[inline]
-- 
2.43.0


From 1eca7060af30a8a17c4a94b6510bbb25e8913ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:54:23 +0000
Subject: [PATCH 39/42] fix: fields which struct's builder can't be given are
 not required

---
 fieldx_derive/src/ctx/field.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fieldx_derive/src/ctx/field.rs b/fieldx_derive/src/ctx/field.rs
index 9719c65..1268c22 100644
--- a/fieldx_derive/src/ctx/field.rs
+++ b/fieldx_derive/src/ctx/field.rs
@@ -277,6 +277,11 @@ impl FXFieldCtx {
     }
 
     pub fn is_builder_required(&self) -> bool {
+        // A field which can't be given a value must not be demanded.
+        if !self.forced_builder() && !self.needs_builder() {
+            return false;
+        }
+
         self.builder()
             .as_ref()
             .and_then(|h| h.is_required())
-- 
2.43.0


From 38549a355b1fe8e32301c68c92ea206cdf7cf354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:54:23 +0000
Subject: [PATCH 40/42] fix: Self in field types means the struct wherever
 types are used

---
 fieldx_derive/src/ctx/field.rs | 22 +++++++++++++++++++--
 fieldx_derive/src/util.rs      | 36 ++++++++++++++++++++++++++++++++--
 2 files changed, 54 insertions(+), 4 deletions(-)

diff --git a/fieldx_derive/src/ctx/field.rs b/fieldx_derive/src/ctx/field.rs
index 1268c22..bbf59ba 100644
--- a/fieldx_derive/src/ctx/field.rs
+++ b/fieldx_derive/src/ctx/field.rs
@@ -2,6 +2,7 @@ use super::FXCodeGenCtx;
 use crate::{
     fields::FXField,
     helper::{FXHelperContainer, FXHelperKind},
+    util::replace_self,
 };
 use darling::ast::NestedMeta;
 use delegate::delegate;
@@ -47,6 +48,7 @@ macro_rules! arg_accessor {
 pub struct FXFieldCtx {
     field:            FXField,
     codegen_ctx:      Rc<FXCodeGenCtx>,
+    ty:               OnceCell<syn::Type>,
     ty_tok:           OnceCell<TokenStream>,
     ty_wrapped:       OnceCell<TokenStream>,
     ident:            OnceCell<syn::Ident>,
@@ -69,7 +71,6 @@ impl FXFieldCtx {
             pub fn has_default_value(&self) -> bool;
             pub fn is_skipped(&self) -> bool;
             pub fn span(&self) -> &Span;
-            pub fn ty(&self) -> &syn::Type;
             pub fn vis(&self) -> &syn::Visibility;
             #[cfg(feature = "serde")]
             pub fn serde(&self) -> &Option<FXSerde>;
@@ -89,6 +90,7 @@ impl FXFieldCtx {
             ty_wrapped: OnceCell::new(),
             ident: OnceCell::new(),
             ident_tok: OnceCell::new(),
+            ty: OnceCell::new(),
             ty_tok: OnceCell::new(),
             #[cfg(feature = "serde")]
             default_fn_ident: OnceCell::new(),
@@ -349,9 +351,25 @@ impl FXFieldCtx {
         }
     }
 
+    /// Field type which doesn't depend on where it is used
+    pub fn ty(&self) -> &syn::Type {
+        self.ty.get_or_init(|| {
+            let ctx = self.codegen_ctx();
+            let struct_ident = ctx.input_ident();
+            let generic_params = ctx.struct_generic_params();
+            let ty = self.field.ty();
+
+            syn::parse2(replace_self(
+                ty.to_token_stream(),
+                &quote![#struct_ident #generic_params],
+            ))
+            .unwrap_or_else(|_| ty.clone())
+        })
+    }
+
     #[inline]
     pub fn ty_tok(&self) -> &TokenStream {
-        self.ty_tok.get_or_init(|| self.field.ty().to_token_stream())
+        self.ty_tok.get_or_init(|| self.ty().to_token_stream())
     }
 
     #[inline]
diff --git a/fieldx_derive/src/util.rs b/fieldx_derive/src/util.rs
index 61900ed..01df850 100644
--- a/fieldx_derive/src/util.rs
+++ b/fieldx_derive/src/util.rs
@@ -1,7 +1,7 @@
 pub(crate) mod args;
 use fieldx_aux::{FXOrig, FXTriggerHelper};
-use proc_macro2::{Span, TokenStream};
-use quote::quote;
+use proc_macro2::{Group, Spacing, Span, TokenStream, TokenTree};
+use quote::{quote, quote_spanned};
 use syn::{ext::IdentExt, parse::Parser};
 
 #[allow(dead_code)]
@@ -111,6 +111,38 @@ where
     None
 }
 
+/// Replace `Self` with the type it stands for. Field types are used outside of the struct too, by its builder, for
+/// example, where `Self` has different meaning.
+pub(crate) fn replace_self(tokens: TokenStream, self_type: &TokenStream) -> TokenStream {
+    let mut replaced = TokenStream::new();
+    let mut tokens = tokens.into_iter().peekable();
+
+    while let Some(token) = tokens.next() {
+        match token {
+            TokenTree::Ident(ref ident) if ident == "Self" => {
+                let is_path_start = matches!(
+                    tokens.peek(),
+                    Some(TokenTree::Punct(punct)) if punct.as_char() == ':' && punct.spacing() == Spacing::Joint
+                );
+                replaced.extend(if is_path_start {
+                    quote_spanned![ident.span()=> <#self_type>]
+                }
+                else {
+                    self_type.clone()
+                });
+            }
+            TokenTree::Group(ref group) => {
+                let mut new_group = Group::new(group.delimiter(), replace_self(group.stream(), self_type));
+                new_group.set_span(group.span());
+                replaced.extend([TokenTree::Group(new_group)]);
+            }
+            _ => replaced.extend([token]),
+        }
+    }
+
+    replaced
+}
+
 /// Make sure that what's given by user can be used as an identifier.
 pub(crate) fn validate_ident(name: &str, what: &str, span: Span) -> darling::Result<()> {
     // Parsing skips white spaces and comments.
-- 
2.43.0


From 3b5bad0860ca31e1a28a0633a05994dccca4c829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:54:23 +0000
Subject: [PATCH 41/42] fix: structs without fields have Default too, new()
 needs it

---
 fieldx_derive/src/codegen.rs | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/fieldx_derive/src/codegen.rs b/fieldx_derive/src/codegen.rs
index a91ef16..f64ed49 100644
--- a/fieldx_derive/src/codegen.rs
+++ b/fieldx_derive/src/codegen.rs
@@ -290,19 +290,13 @@ impl FXRewriter {
         let ident = ctx.input().ident();
         let (impl_generics, type_generics, where_clause) = ctx.input().generics().split_for_impl();
 
-        if !defaults.is_empty() {
-            quote! [
-                impl #impl_generics Default for #ident #type_generics #where_clause {
-                    fn default() -> Self {
-                        Self { #defaults }
-                    }
+        quote! [
+            impl #impl_generics ::std::default::Default for #ident #type_generics #where_clause {
+                fn default() -> Self {
+                    Self { #defaults }
                 }
-            ]
-        }
-        else {
-            // It's already empty, what sense in allocating another copy?
-            defaults
-        }
+            }
+        ]
     }
 
     fn builder_struct_visibility(&self) -> TokenStream {
-- 
2.43.0


From f152a29979e2997dcf041b752400e42396e14939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:54:23 +0000
Subject: [PATCH 42/42] fix: generated code doesn't depend on names in user's
 scope

---
 fieldx_derive/src/codegen.rs                 | 8 ++++----
 fieldx_derive/src/codegen/plain.rs           | 4 ++--
 fieldx_derive/src/codegen/sync/impl_async.rs | 2 +-
 fieldx_derive/src/ctx/field.rs               | 2 +-
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/fieldx_derive/src/codegen.rs b/fieldx_derive/src/codegen.rs
index f64ed49..0445cdc 100644
--- a/fieldx_derive/src/codegen.rs
+++ b/fieldx_derive/src/codegen.rs
@@ -338,7 +338,7 @@ impl FXRewriter {
         for fctx in self.builder_field_ctxs() {
             if let Ok(fctx) = fctx {
                 let ident = fctx.ident();
-                fields_new.push(quote! { #ident: None });
+                fields_new.push(quote! { #ident: ::std::option::Option::None });
 
                 let fgen = match self.field_codegen(&fctx) {
                     Ok(fgen) => fgen,
@@ -423,7 +423,7 @@ impl FXRewriter {
                 #builders
                 #vis fn build(&mut self) -> ::std::result::Result<#builder_return_type, #builder_error_type> {
                     #( #builder_checkers );*
-                    Ok(#construction)
+                    ::std::result::Result::Ok(#construction)
                 }
             }
         ]
@@ -501,7 +501,7 @@ impl FXRewriter {
             Some(quote![
                 #[allow(dead_code)]
                 fn __fieldx_copy_validation() {
-                    fn field_implements_copy<T: ?Sized + Copy>() {}
+                    fn field_implements_copy<T: ?::std::marker::Sized + ::std::marker::Copy>() {}
                     #( field_implements_copy::<#copyables>(); )*
                 }
             ])
@@ -521,7 +521,7 @@ impl FXRewriter {
                 #( #fields ),*
             }
 
-            impl #impl_generics FXStruct for #ident #type_generics #where_clause {}
+            impl #impl_generics ::fieldx::traits::FXStruct for #ident #type_generics #where_clause {}
 
             #attributes_impl
             impl #impl_generics #ident #type_generics #where_clause {
diff --git a/fieldx_derive/src/codegen/plain.rs b/fieldx_derive/src/codegen/plain.rs
index 0fc0485..fdeac0b 100644
--- a/fieldx_derive/src/codegen/plain.rs
+++ b/fieldx_derive/src/codegen/plain.rs
@@ -163,7 +163,7 @@ impl FXCodeGenContextual for FXCodeGenPlain {
                 let mut shortcut = quote![];
 
                 if fctx.is_fallible() {
-                    get_mut = quote_spanned! {span=> Ok(#get_mut) };
+                    get_mut = quote_spanned! {span=> ::std::result::Result::Ok(#get_mut) };
                     shortcut = quote_spanned![span=> ?];
                 }
 
@@ -273,7 +273,7 @@ impl FXCodeGenContextual for FXCodeGenPlain {
 
                 if fctx.is_inner_mut() {
                     let value_tok = if fctx.is_optional() {
-                        quote![Some(value #into_tok)]
+                        quote![::std::option::Option::Some(value #into_tok)]
                     }
                     else {
                         quote![value #into_tok]
diff --git a/fieldx_derive/src/codegen/sync/impl_async.rs b/fieldx_derive/src/codegen/sync/impl_async.rs
index 7b75dad..9336213 100644
--- a/fieldx_derive/src/codegen/sync/impl_async.rs
+++ b/fieldx_derive/src/codegen/sync/impl_async.rs
@@ -39,7 +39,7 @@ impl FXSyncImplDetails for FXAsyncImplementor {
         let lazy_builder_name = codegen.lazy_name(fctx)?;
         let builder_return = codegen.fallible_return_type(fctx, fctx.ty())?;
         Ok(
-            quote_spanned![span=> fn #wrapper_name(&self) -> ::std::pin::Pin<::std::boxed::Box<dyn ::std::future::Future<Output = #builder_return> + Send + '_>> {
+            quote_spanned![span=> fn #wrapper_name(&self) -> ::std::pin::Pin<::std::boxed::Box<dyn ::std::future::Future<Output = #builder_return> + ::std::marker::Send + '_>> {
                 ::std::boxed::Box::pin(
                     self.#lazy_builder_name()
                 )
diff --git a/fieldx_derive/src/ctx/field.rs b/fieldx_derive/src/ctx/field.rs
index bbf59ba..39653c1 100644
--- a/fieldx_derive/src/ctx/field.rs
+++ b/fieldx_derive/src/ctx/field.rs
@@ -515,7 +515,7 @@ impl FXFieldCtx {
 
     pub fn fallible_ok_return(&self, ret: TokenStream) -> TokenStream {
         if self.is_fallible() {
-            quote! {Ok(#ret)}
+            quote! {::std::result::Result::Ok(#ret)}
         }
         else {
             ret
-- 
2.43.0

