From 4a6494995df6462d996fc0d9490c93778124f3e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:36 +0000
Subject: [PATCH 01/23] fix: bound Bytes::shrink_to by the actual length of
 inlined values

---
 src/bytes.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bytes.rs b/src/bytes.rs
index 4226029..6682157 100644
--- a/src/bytes.rs
+++ b/src/bytes.rs
@@ -232,7 +232,7 @@ impl<'a> Bytes<'a> {
             core::ops::Bound::Unbounded => self.len(),
         };
         assert!(start <= end);
-        assert!(end <= self.len);
+        assert!(end <= self.len());
         let len = end - start;
         if len <= Self::MAX_INLINE_SIZE {
             // SAFETY: `&self[start..end]` length has been checked, which is `inline_unchecked`'s only safety requirement.
-- 
2.43.0


From b8dcd55a48beb8b900614ca9f4e9d743483c5c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:36 +0000
Subject: [PATCH 02/23] fix: Bytes::shrink_to panics on bounds at usize::MAX
 instead of wrapping around

---
 src/bytes.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bytes.rs b/src/bytes.rs
index 6682157..0bca3be 100644
--- a/src/bytes.rs
+++ b/src/bytes.rs
@@ -223,11 +223,11 @@ impl<'a> Bytes<'a> {
     pub fn shrink_to<R: RangeBounds<usize>>(&mut self, range: R) {
         let start = match range.start_bound() {
             core::ops::Bound::Included(i) => *i,
-            core::ops::Bound::Excluded(i) => *i + 1,
+            core::ops::Bound::Excluded(i) => i.checked_add(1).expect("range start overflows"),
             core::ops::Bound::Unbounded => 0,
         };
         let end = match range.end_bound() {
-            core::ops::Bound::Included(i) => *i + 1,
+            core::ops::Bound::Included(i) => i.checked_add(1).expect("range end overflows"),
             core::ops::Bound::Excluded(i) => *i,
             core::ops::Bound::Unbounded => self.len(),
         };
-- 
2.43.0


From 17a9ec4eba80b3b2b3c9fc34dfb9dbfb51e82dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:36 +0000
Subject: [PATCH 03/23] fix: Bytes::noalloc_upgrade must refuse borrowed data,
 not owned data

---
 src/bytes.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bytes.rs b/src/bytes.rs
index 0bca3be..c9705cb 100644
--- a/src/bytes.rs
+++ b/src/bytes.rs
@@ -346,7 +346,7 @@ impl<'a> Bytes<'a> {
     /// # Errors
     /// Returns the original instance if it couldn't be proven to be `'static`.
     pub fn noalloc_upgrade(self: Bytes<'a>) -> Result<Bytes<'static>, Self> {
-        if !self.vtable().map_or(true, |vt| !vt.is_borrowed()) {
+        if self.vtable().map_or(true, |vt| !vt.is_borrowed()) {
             Ok(unsafe { mem::transmute(self) })
         } else {
             Self::inline_slice(&self).ok_or(self)
-- 
2.43.0


From aaf49aab812f447f2ef7f1b8a823e0e5af2f3598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:36 +0000
Subject: [PATCH 04/23] fix: Bytes allocation predictions use the inlining
 threshold

---
 src/bytes.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bytes.rs b/src/bytes.rs
index c9705cb..d9dcaa5 100644
--- a/src/bytes.rs
+++ b/src/bytes.rs
@@ -374,7 +374,7 @@ impl<'a> Bytes<'a> {
     /// Returns `true` if a call to [`Self::upgrade`] would cause an allocation.
     pub fn upgrade_will_allocate(&self) -> bool {
         match self.vtable() {
-            Some(t) => t.is_borrowed() && self.len() >= mem::size_of::<Self>(),
+            Some(t) => t.is_borrowed() && self.len() > Self::MAX_INLINE_SIZE,
             None => false,
         }
     }
@@ -382,7 +382,7 @@ impl<'a> Bytes<'a> {
     /// Returns `true` if a call to [`Clone::clone`] would cause an allocation.
     pub fn clone_will_allocate(&self) -> bool {
         match self.vtable() {
-            Some(t) => t.retain.is_none() && self.len() >= mem::size_of::<Self>(),
+            Some(t) => t.retain.is_none() && self.len() > Self::MAX_INLINE_SIZE,
             None => false,
         }
     }
-- 
2.43.0


From 2fbd94383af912e1713cecb200cd3fa68fbfc1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:36 +0000
Subject: [PATCH 05/23] fix: a shrunk Bytes does not downcast to stabby's
 ArcSlice

---
 src/bytes.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bytes.rs b/src/bytes.rs
index d9dcaa5..e52090e 100644
--- a/src/bytes.rs
+++ b/src/bytes.rs
@@ -750,7 +750,10 @@ impl<'a> TryFrom<Bytes<'a>> for stabby::sync::ArcSlice<u8> {
         let Some(vtable) = value.vtable() else {
             return Err(value);
         };
-        match core::ptr::eq(vtable, &STABBY_ARCSLICE_BYTESVT) && core::ptr::eq(value.start, data) {
+        match core::ptr::eq(vtable, &STABBY_ARCSLICE_BYTESVT)
+            && core::ptr::eq(value.start, data)
+            && data.wrapping_add(value.len) as usize == value.capacity
+        {
             true => unsafe {
                 let value = mem::ManuallyDrop::new(value);
                 let arc = stabby::sync::ArcSlice::from_raw(stabby::alloc::AllocSlice {
-- 
2.43.0


From f11651f2266cdd4d1fad528149bf14f8bdbcef1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:09 +0000
Subject: [PATCH 06/23] fix: a null pointer is not a valid Out reference

---
 src/layout/impls.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/layout/impls.rs b/src/layout/impls.rs
index ea518a3..b1a7835 100644
--- a/src/layout/impls.rs
+++ b/src/layout/impls.rs
@@ -1016,6 +1016,7 @@ impl_ReprC_for! { unsafe {
     @for['out, T : 'out + Sized + ReprC]
     Out<'out, T>
         => |ref it: *mut T::CLayout| {
+            it.is_null().not() &&
             (*it as usize) % ::core::mem::align_of::<T>() == 0
         },
 }}
-- 
2.43.0


From 77ef22055bcd681f02554fe9b7bd36e0cb09d30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:27 +0000
Subject: [PATCH 07/23] fix: the layout of a repr(transparent) struct is not
 that of a leading PhantomData

---
 src/proc_macro/derives/repr_c/struct_.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/proc_macro/derives/repr_c/struct_.rs b/src/proc_macro/derives/repr_c/struct_.rs
index 4ca2143..aebd541 100644
--- a/src/proc_macro/derives/repr_c/struct_.rs
+++ b/src/proc_macro/derives/repr_c/struct_.rs
@@ -235,7 +235,15 @@ fn derive_transparent (
 
     let mut ret = quote!();
 
-    let FieldTy = match fields.iter().next() {
+    // `PhantomData`s and `()`s have no say in the layout, even when they come first.
+    let is_phantom = |ty: &'_ Type| match ty {
+        | Type::Path(it) => it.path.segments.last().map_or(false, |s| s.ident == "PhantomData"),
+        | Type::Tuple(it) => it.elems.is_empty(),
+        | _ => false,
+    };
+    let FieldTy = match
+        fields.iter().find(|f| is_phantom(&f.ty).not()).or_else(|| fields.iter().next())
+    {
         | Some(f) => &f.ty,
         | None => bail! {
             "`#[repr(transparent)]` requires at least one field" => fields,
@@ -328,7 +336,7 @@ fn derive_transparent (
         });
         inner = quote!(&it.0);
     } else {
-        // Forward ReprC to point to the `CLayoutOf` its first type.
+        // Forward ReprC to point to the `CLayoutOf` its first non-phantom type.
         ret.extend(quote!(
             unsafe
             impl #intro_generics
-- 
2.43.0


From 55b2e8ce44158ddb8ab9ecbb2d5e8dfa5bf3580a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:58 +0000
Subject: [PATCH 08/23] fix: headers that mention isize include the header that
 declares ssize_t

---
 src/layout/impls.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/layout/impls.rs b/src/layout/impls.rs
index b1a7835..c6a1433 100644
--- a/src/layout/impls.rs
+++ b/src/layout/impls.rs
@@ -498,7 +498,21 @@ const _: () = { macro_rules! impl_CTypes {
                             "\n",
                         ),
                     ),
-                )
+                )?;
+                // `ssize_t` is a POSIX type: `<stddef.h>` does not provide it.
+                if $CInt == "ssize" {
+                    definer.define_once(
+                        "__ssize_headers__",
+                        &mut |definer| write!(definer.out(),
+                            concat!(
+                                "\n",
+                                "#include <sys/types.h>\n",
+                                "\n",
+                            ),
+                        ),
+                    )?;
+                }
+                Ok(())
             }
 
             fn c_var_fmt (
-- 
2.43.0


From c56adef835a61c6726c08d2a853fd12d72a08147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:52 +0000
Subject: [PATCH 09/23] fix: an exported async fn honours rename

---
 src/proc_macro/ffi_export/fn_/async_fn.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/proc_macro/ffi_export/fn_/async_fn.rs b/src/proc_macro/ffi_export/fn_/async_fn.rs
index 00a98c4..fe7f6a0 100644
--- a/src/proc_macro/ffi_export/fn_/async_fn.rs
+++ b/src/proc_macro/ffi_export/fn_/async_fn.rs
@@ -318,8 +318,11 @@ fn export (
         let pub_ = &fun.vis;
         let each_attr = &fun.attrs;
         fun_signature.asyncness = None;
+        let mb_rename = rename.map(|Rename { new_name, .. }| quote!(
+            rename = #new_name
+        ));
         quote!(
-            #[::safer_ffi::ffi_export]
+            #[::safer_ffi::ffi_export(#mb_rename)]
             #(#each_attr)*
             #pub_ #fun_signature
             {
-- 
2.43.0


From bc4ca03fb3b2ff6ea87f818c7181cdb6226a4f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:18 +0000
Subject: [PATCH 10/23] fix: headers give enum variants the value their
 discriminant has in the enum's integer type

---
 src/proc_macro/derives/repr_c/enum_.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/proc_macro/derives/repr_c/enum_.rs b/src/proc_macro/derives/repr_c/enum_.rs
index 6b7893e..a4826b3 100644
--- a/src/proc_macro/derives/repr_c/enum_.rs
+++ b/src/proc_macro/derives/repr_c/enum_.rs
@@ -138,9 +138,12 @@ fn derive (
         let ref each_enum_variant =
             variants.try_vmap(|v| Result::Ok({
                 let ref VariantName_str = v.ident.to_string();
-                let discriminant = if let Some((_eq, disc)) = &v.discriminant {
+                let VariantName @ _ = &v.ident;
+                let discriminant = if v.discriminant.is_some() {
+                    // The discriminant's expression may depend on the type it
+                    // is inferred to have (_e.g._, `!0`): use its actual value.
                     quote!(
-                        #ඞ::Some(&(#disc, ).0 as _)
+                        #ඞ::Some(&(#EnumName::#VariantName as #Int) as _)
                     )
                 } else {
                     quote!(
-- 
2.43.0


From dfbc4d360792222f62e3a8f96f2b8ab5a81a8b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:52 +0000
Subject: [PATCH 11/23] fix: C# constants of type float are float literals

---
 src/headers/languages/csharp.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/headers/languages/csharp.rs b/src/headers/languages/csharp.rs
index 77246d2..c73f266 100644
--- a/src/headers/languages/csharp.rs
+++ b/src/headers/languages/csharp.rs
@@ -260,8 +260,10 @@ impl HeaderLanguage for CSharp {
         if let _ = indent.scope() {
             self.emit_docs(ctx, docs, indent)?;
             let ty = ty.name(self);
+            // Without the suffix, the literal is a `double`, which C# refuses to narrow.
+            let suffix = if ty == "float" { "f" } else { "" };
             out!((
-                "public const {ty} {name} = {value:?};"
+                "public const {ty} {name} = {value:?}{suffix};"
             ));
         }
         out!(("}}"));
-- 
2.43.0


From 54dcbd69a5947d2b94204bfe23ed92e1779b876d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:52 +0000
Subject: [PATCH 12/23] fix: Python declarations of enums have the variants'
 values and the integer type

---
 src/headers/languages/python.rs | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/headers/languages/python.rs b/src/headers/languages/python.rs
index 5c10a25..08f00c1 100644
--- a/src/headers/languages/python.rs
+++ b/src/headers/languages/python.rs
@@ -24,7 +24,7 @@ impl HeaderLanguage for Python {
         ctx: &'_ mut dyn Definer,
         _docs: Docs<'_>,
         self_ty: &'_ dyn PhantomCType,
-        _backing_integer: Option<&dyn PhantomCType>,
+        backing_integer: Option<&dyn PhantomCType>,
         variants: &'_ [EnumVariant<'_>],
     ) -> io::Result<()>
     {
@@ -34,7 +34,15 @@ impl HeaderLanguage for Python {
         let ref short_name = self_ty.short_name();
         let ref full_ty_name = self_ty.name(self);
 
-        out!(("typedef enum {short_name} {{"));
+        let ref intn_t =
+            backing_integer.map(|it| it.name(self))
+        ;
+
+        if intn_t.is_some() {
+            out!(("enum {short_name} {{"));
+        } else {
+            out!(("typedef enum {short_name} {{"));
+        }
 
         if let _ = indent.scope() {
             for v in variants {
@@ -44,11 +52,22 @@ impl HeaderLanguage for Python {
                     enum_name,
                     v.name,
                 ) */;
-                out!(("{variant_name},"));
+                if let Some(value) = v.discriminant {
+                    out!(("{variant_name} = {value:?},"));
+                } else {
+                    out!(("{variant_name},"));
+                }
             }
         }
 
-        out!(("}} {full_ty_name};"));
+        if let Some(intn_t) = intn_t {
+            out!((
+                "}};"
+                "typedef {intn_t} {full_ty_name};"
+            ));
+        } else {
+            out!(("}} {full_ty_name};"));
+        }
         out!("\n");
         Ok(())
     }
-- 
2.43.0


From f05b409b7157a6ca8b11fc1e777e9d5f97c31209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:17 +0000
Subject: [PATCH 13/23] fix: Python declarations of the types behind pointers,
 in arrays and in callbacks are in Python

---
 src/layout/_mod.rs  | 13 ++++++++++++-
 src/layout/impls.rs | 44 ++++++++++++++++++++++++++++++++++++++------
 2 files changed, 50 insertions(+), 7 deletions(-)

diff --git a/src/layout/_mod.rs b/src/layout/_mod.rs
index e9f0f5c..c16fa0d 100644
--- a/src/layout/_mod.rs
+++ b/src/layout/_mod.rs
@@ -129,7 +129,7 @@ impl<T : LegacyCType> CType for T {
                 },
                 #[cfg(feature = "python-headers")]
                 | _case if language.is::<Python>() => {
-                    <Self as LegacyCType>::c_define_self(definer)
+                    <Self as LegacyCType>::c_define_self_in(language, definer)
                 },
                 | _ => unimplemented!(),
             }
@@ -401,6 +401,17 @@ unsafe trait LegacyCType
         fn c_define_self (definer: &'_ mut dyn Definer)
           -> io::Result<()>
         ;
+
+        /// Same as [`LegacyCType::c_define_self`], for any of the languages
+        /// using the C syntax: the types this one refers to are to be defined
+        /// in that very language.
+        fn c_define_self_in (
+            _language: &'_ dyn HeaderLanguage,
+            definer: &'_ mut dyn Definer,
+        ) -> io::Result<()>
+        {
+            Self::c_define_self(definer)
+        }
         // {
         //     Self::define_self(&C, definer)
         // }
diff --git a/src/layout/impls.rs b/src/layout/impls.rs
index c6a1433..01f45f1 100644
--- a/src/layout/impls.rs
+++ b/src/layout/impls.rs
@@ -114,12 +114,20 @@ const _: () = { macro_rules! impl_CTypes {
 
             fn c_define_self (definer: &'_ mut dyn Definer)
               -> io::Result<()>
+            {
+                Self::c_define_self_in(&crate::headers::languages::C, definer)
+            }
+
+            fn c_define_self_in (
+                language: &'_ dyn HeaderLanguage,
+                definer: &'_ mut dyn Definer,
+            ) -> io::Result<()>
             {
                 let ref me = Self::c_var("").to_string();
                 definer.define_once(
                     me,
                     &mut |definer| {
-                        Item::define_self(&crate::headers::languages::C, definer)?;
+                        Item::define_self(language, definer)?;
                         writeln!(definer.out(),
                             concat!(
                                 "typedef struct {{\n",
@@ -288,9 +296,17 @@ const _: () = { macro_rules! impl_CTypes {
             fn c_define_self (definer: &'_ mut dyn Definer)
               -> io::Result<()>
             {
-                Ret::define_self(&crate::headers::languages::C, definer)?; $(
-                $An::define_self(&crate::headers::languages::C, definer)?; $(
-                $Ai::define_self(&crate::headers::languages::C, definer)?; )*)?
+                Self::c_define_self_in(&crate::headers::languages::C, definer)
+            }
+
+            fn c_define_self_in (
+                language: &'_ dyn HeaderLanguage,
+                definer: &'_ mut dyn Definer,
+            ) -> io::Result<()>
+            {
+                Ret::define_self(language, definer)?; $(
+                $An::define_self(language, definer)?; $(
+                $Ai::define_self(language, definer)?; )*)?
                 Ok(())
             }
 
@@ -614,7 +630,15 @@ const _: () = { macro_rules! impl_CTypes {
             fn c_define_self (definer: &'_ mut dyn Definer)
               -> io::Result<()>
             {
-                T::define_self(&crate::headers::languages::C, definer)
+                Self::c_define_self_in(&crate::headers::languages::C, definer)
+            }
+
+            fn c_define_self_in (
+                language: &'_ dyn HeaderLanguage,
+                definer: &'_ mut dyn Definer,
+            ) -> io::Result<()>
+            {
+                T::define_self(language, definer)
             }
 
             fn c_var_fmt (
@@ -681,7 +705,15 @@ const _: () = { macro_rules! impl_CTypes {
             fn c_define_self (definer: &'_ mut dyn Definer)
               -> io::Result<()>
             {
-                T::define_self(&crate::headers::languages::C, definer)
+                Self::c_define_self_in(&crate::headers::languages::C, definer)
+            }
+
+            fn c_define_self_in (
+                language: &'_ dyn HeaderLanguage,
+                definer: &'_ mut dyn Definer,
+            ) -> io::Result<()>
+            {
+                T::define_self(language, definer)
             }
 
             fn c_var_fmt (
-- 
2.43.0


From 1fa3531f3a754334991c68cef96d8a02a68e5bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:17 +0000
Subject: [PATCH 14/23] fix: C declarations of pointers to function pointers
 and of functions returning them are valid C

---
 src/layout/impls.rs | 40 ++++++++++++++++++++++------------------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/src/layout/impls.rs b/src/layout/impls.rs
index 01f45f1..5c9cf1a 100644
--- a/src/layout/impls.rs
+++ b/src/layout/impls.rs
@@ -315,16 +315,22 @@ const _: () = { macro_rules! impl_CTypes {
                 var_name: &'_ str,
             ) -> fmt::Result
             {
-                write!(fmt, "{} ", Ret::name(&crate::headers::languages::C))?;
-                write!(fmt, "(*{})(", var_name)?;
+                use fmt::Write;
+
+                let mut declarator = format!("(*{})(", var_name);
                 let _empty = true; $(
                 let _empty = false;
-                write!(fmt, "{}", $An::name(&crate::headers::languages::C))?; $(
-                write!(fmt, ", {}", $Ai::name(&crate::headers::languages::C))?; )*)?
+                write!(declarator, "{}", $An::name(&crate::headers::languages::C))?; $(
+                write!(declarator, ", {}", $Ai::name(&crate::headers::languages::C))?; )*)?
                 if _empty {
-                    fmt.write_str("void")?;
+                    declarator.push_str("void");
                 }
-                fmt.write_str(")")
+                declarator.push_str(")");
+                // The returned type may have to wrap it in turn.
+                fmt.write_str(&Ret::name_wrapping_var(
+                    &crate::headers::languages::C,
+                    &declarator,
+                ))
             }
 
             __cfg_csharp__! {
@@ -646,12 +652,11 @@ const _: () = { macro_rules! impl_CTypes {
                 var_name: &'_ str,
             ) -> fmt::Result
             {
-                write!(fmt,
-                    "{} const *{sep}{}",
-                    T::name(&crate::headers::languages::C),
-                    var_name,
-                    sep = if var_name.is_empty() { "" } else { " " },
-                )
+                let sep = if var_name.is_empty() { "" } else { " " };
+                fmt.write_str(&T::name_wrapping_var(
+                    &crate::headers::languages::C,
+                    &format!("const *{sep}{var_name}"),
+                ))
             }
 
             __cfg_csharp__! {
@@ -721,12 +726,11 @@ const _: () = { macro_rules! impl_CTypes {
                 var_name: &'_ str,
             ) -> fmt::Result
             {
-                write!(fmt,
-                    "{} *{sep}{}",
-                    T::name(&crate::headers::languages::C),
-                    var_name,
-                    sep = if var_name.is_empty() { "" } else { " " },
-                )
+                let sep = if var_name.is_empty() { "" } else { " " };
+                fmt.write_str(&T::name_wrapping_var(
+                    &crate::headers::languages::C,
+                    &format!("*{sep}{var_name}"),
+                ))
             }
 
             __cfg_csharp__! {
-- 
2.43.0


From 1716338477c42f39131ff2ef981cad5766f123d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:17 +0000
Subject: [PATCH 15/23] fix: C# arrays of native-size integers are not fixed
 buffers

---
 src/layout/impls.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/layout/impls.rs b/src/layout/impls.rs
index 5c9cf1a..7a50e33 100644
--- a/src/layout/impls.rs
+++ b/src/layout/impls.rs
@@ -168,8 +168,8 @@ const _: () = { macro_rules! impl_CTypes {
                             // Poor man's specialization to use `fixed` arrays.
                             if  [
                                     "bool",
-                                    "u8", "u16", "u32", "u64", "usize",
-                                    "i8", "i16", "i32", "i64", "isize",
+                                    "u8", "u16", "u32", "u64",
+                                    "i8", "i16", "i32", "i64",
                                     "float", "double",
                                 ].contains(&::core::any::type_name::<Item>())
                             {
-- 
2.43.0


From 509e1583e7531251f690a442a6d9f98d8acb6504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:17 +0000
Subject: [PATCH 16/23] fix: C# pointers to function pointers are not pointers
 to delegates

---
 src/layout/impls.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/layout/impls.rs b/src/layout/impls.rs
index 7a50e33..50f2682 100644
--- a/src/layout/impls.rs
+++ b/src/layout/impls.rs
@@ -678,7 +678,7 @@ const _: () = { macro_rules! impl_CTypes {
                 fn csharp_ty ()
                   -> rust::String
                 {
-                    format!("{} /*const*/ *", T::name(&crate::headers::languages::CSharp))
+                    format!("{} /*const*/ *", csharp_pointee::<T>())
                 }
             }
         } type OPAQUE_KIND = OpaqueKind::Concrete; }
@@ -743,7 +743,7 @@ const _: () = { macro_rules! impl_CTypes {
                 fn csharp_ty ()
                   -> rust::String
                 {
-                    format!("{} *", T::name(&crate::headers::languages::CSharp))
+                    format!("{} *", csharp_pointee::<T>())
                 }
             }
         } type OPAQUE_KIND = OpaqueKind::Concrete; }
@@ -1247,3 +1247,15 @@ macro_rules! opaque_impls {(
         }
     )*
 )} use opaque_impls;
+
+__cfg_csharp__! {
+    /// C# has no pointers to delegates.
+    fn csharp_pointee<T : CType> ()
+      -> rust::String
+    {
+        match T::csharp_marshaler().as_deref() {
+            | Some("UnmanagedType.FunctionPtr") => "IntPtr".into(),
+            | _ => T::name(&crate::headers::languages::CSharp),
+        }
+    }
+}
-- 
2.43.0


From 751d0fedffb634423ff3913da965e5a8a33e8a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:18 +0000
Subject: [PATCH 17/23] fix: C# constants of native-size integers hold any
 value of theirs

---
 src/headers/languages/csharp.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/headers/languages/csharp.rs b/src/headers/languages/csharp.rs
index c73f266..0ecf1b7 100644
--- a/src/headers/languages/csharp.rs
+++ b/src/headers/languages/csharp.rs
@@ -262,9 +262,16 @@ impl HeaderLanguage for CSharp {
             let ty = ty.name(self);
             // Without the suffix, the literal is a `double`, which C# refuses to narrow.
             let suffix = if ty == "float" { "f" } else { "" };
-            out!((
-                "public const {ty} {name} = {value:?}{suffix};"
-            ));
+            if matches!(&*ty, "UIntPtr" | "IntPtr") {
+                // There are no constants of these types beyond 32 bits.
+                out!((
+                    "public static readonly {ty} {name} = unchecked(({ty}) ({value:?}));"
+                ));
+            } else {
+                out!((
+                    "public const {ty} {name} = {value:?}{suffix};"
+                ));
+            }
         }
         out!(("}}"));
 
-- 
2.43.0


From f0349a5ca17d021daec83501dc50d00b2e0c2aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:18 +0000
Subject: [PATCH 18/23] fix: every line of a documentation block is a comment
 in C#

---
 src/headers/languages/csharp.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/headers/languages/csharp.rs b/src/headers/languages/csharp.rs
index 0ecf1b7..fa41eed 100644
--- a/src/headers/languages/csharp.rs
+++ b/src/headers/languages/csharp.rs
@@ -21,7 +21,8 @@ impl HeaderLanguage for CSharp {
         }
 
         out!(("/// <summary>"));
-        for mut line in docs.iter().copied().map(str::trim) {
+        // Block comments have many lines.
+        for mut line in docs.iter().flat_map(|it| it.trim().split('\n')).map(str::trim) {
             let mut storage = None;
             if line.contains('`') {
                 let s = storage.get_or_insert_with(rust::String::new);
-- 
2.43.0


From 14b77235676968cd2658bf26c8c96b0731a2f50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:18 +0000
Subject: [PATCH 19/23] fix: documentation does not end the C comment it is in

---
 src/headers/languages/c.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/headers/languages/c.rs b/src/headers/languages/c.rs
index 4082680..1b456d4 100644
--- a/src/headers/languages/c.rs
+++ b/src/headers/languages/c.rs
@@ -23,6 +23,8 @@ impl HeaderLanguage for C {
         out!(("/** \\brief"));
         for line in docs.iter().copied().map(str::trim) {
             let sep = if line.is_empty() { "" } else { "  " };
+            // The comment ends where we say so.
+            let line = line.replace("*/", "* /");
             out!((" *{sep}{line}"));
         }
         out!((" */"));
-- 
2.43.0


From 1a0132d25e246f9158a6aa6514be8dea912e9aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:18 +0000
Subject: [PATCH 20/23] fix: raw identifiers are exported under their name

---
 src/proc_macro/_mod.rs                   | 1 +
 src/proc_macro/derives/c_type/struct_.rs | 4 ++--
 src/proc_macro/derives/repr_c/enum_.rs   | 4 ++--
 src/proc_macro/ffi_export/fn_/mod.rs     | 5 +++--
 4 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/proc_macro/_mod.rs b/src/proc_macro/_mod.rs
index e7e2f79..56d879c 100644
--- a/src/proc_macro/_mod.rs
+++ b/src/proc_macro/_mod.rs
@@ -24,6 +24,7 @@ use {
         ToTokens,
     },
     ::syn::{*,
+        ext::IdentExt as _,
         parse::{
             Parse,
             Parser,
diff --git a/src/proc_macro/derives/c_type/struct_.rs b/src/proc_macro/derives/c_type/struct_.rs
index 5982831..2a84de5 100644
--- a/src/proc_macro/derives/c_type/struct_.rs
+++ b/src/proc_macro/derives/c_type/struct_.rs
@@ -83,7 +83,7 @@ fn derive (
         ;
         let ref StructName_str =
             args.rename.map_or_else(
-                || StructName.to_string().into_token_stream(),
+                || StructName.unraw().to_string().into_token_stream(),
                 ToTokens::into_token_stream,
             )
         ;
@@ -115,7 +115,7 @@ fn derive (
                 let ref field_docs = utils::extract_docs(&f.attrs)?;
                 let ref field_name_str = f.ident.as_ref().map_or_else(
                     || format!("_{i}"),
-                    Ident::to_string,
+                    |it| it.unraw().to_string(),
                 );
                 let FieldTy = &f.ty;
                 quote!(
diff --git a/src/proc_macro/derives/repr_c/enum_.rs b/src/proc_macro/derives/repr_c/enum_.rs
index a4826b3..12604bb 100644
--- a/src/proc_macro/derives/repr_c/enum_.rs
+++ b/src/proc_macro/derives/repr_c/enum_.rs
@@ -131,13 +131,13 @@ fn derive (
 
         let ref EnumName_str =
             args.rename.map_or_else(
-                || EnumName.to_string().into_token_stream(),
+                || EnumName.unraw().to_string().into_token_stream(),
                 ToTokens::into_token_stream,
             )
         ;
         let ref each_enum_variant =
             variants.try_vmap(|v| Result::Ok({
-                let ref VariantName_str = v.ident.to_string();
+                let ref VariantName_str = v.ident.unraw().to_string();
                 let VariantName @ _ = &v.ident;
                 let discriminant = if v.discriminant.is_some() {
                     // The discriminant's expression may depend on the type it
diff --git a/src/proc_macro/ffi_export/fn_/mod.rs b/src/proc_macro/ffi_export/fn_/mod.rs
index d931645..48c5d13 100644
--- a/src/proc_macro/ffi_export/fn_/mod.rs
+++ b/src/proc_macro/ffi_export/fn_/mod.rs
@@ -48,7 +48,7 @@ fn handle (
         } else {
             storage.get_or_insert(
                 LitStr::new(
-                    &fun.sig.ident.to_string(),
+                    &fun.sig.ident.unraw().to_string(),
                     fun.sig.ident.span(),
                 )
             )
@@ -356,6 +356,7 @@ fn handle (
             | ReturnType::Type(_, ref ty) => &**ty,
         };
         let ref EachArgTy @ _ = arg_tys(&fun).vec();
+        let each_arg_str = each_arg.iter().map(|it| it.unraw().to_string());
         let each_doc = utils::extract_docs(&fun.attrs)?;
         let (generics, _, where_clause) = fun.sig.generics.split_for_impl();
         ret.extend(quote!(
@@ -396,7 +397,7 @@ fn handle (
                                 &[
                                     #(
                                         #ඞ::FunctionArg {
-                                            name: #ඞ::stringify!(#each_arg),
+                                            name: #each_arg_str,
                                             ty: &#ඞ::PhantomData::<
                                                 #ඞ::CLayoutOf<#EachArgTy>,
                                             >,
-- 
2.43.0


From 14e06d67c86d309dc5f3dd20fef75a660f553eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:52 +0000
Subject: [PATCH 21/23] fix: names of types with nested generics

The generics of a generic parameter were split at their commas, which
panicked when generating the headers.
---
 src/_lib.rs | 44 ++++++++++++++++++++++++++++++++++----------
 1 file changed, 34 insertions(+), 10 deletions(-)

diff --git a/src/_lib.rs b/src/_lib.rs
index 61779b1..2b0dc6f 100644
--- a/src/_lib.rs
+++ b/src/_lib.rs
@@ -616,16 +616,39 @@ mod __ {
             splitter(orig).map_or((orig, None), |(l, r)| (l, Some(r)))
         }
 
+        /// Splits `A<B, C>, D` into `A<B, C>` and `D`.
+        fn for_each_top_level<'r> (
+            types: &'r str,
+            mut f: impl FnMut(&'r str),
+        )
+        {
+            let mut depth = 0_usize;
+            let mut start = 0;
+            let mut prev = ' ';
+            for (i, c) in types.char_indices() {
+                match c {
+                    | '<' | '(' | '[' => depth += 1,
+                    // The arrow of a function type.
+                    | '>' if prev == '-' => {},
+                    | '>' | ')' | ']' => depth = depth.saturating_sub(1),
+                    | ',' if depth == 0 => {
+                        f(&types[start..i]);
+                        start = i + 1;
+                    },
+                    | _ => {},
+                }
+                prev = c;
+            }
+            f(&types[start..]);
+        }
+
         let ty_name = ty_name.trim();
         if let Some(tuple_innards) = ty_name.strip_prefix('(') {
             // Tuple
-            tuple_innards
-                .strip_suffix(')').unwrap()
-                .split(',')
-                .for_each(|generic| {
-                    append_unqualified_name(out, generic);
-                })
-            ;
+            for_each_top_level(
+                tuple_innards.strip_suffix(')').unwrap(),
+                |generic| append_unqualified_name(out, generic),
+            );
         } else if let Some(bracketed_innards) = ty_name.strip_prefix('[') {
             // Array or Slice
             let (elem_ty, mb_len) = mb_split_with(
@@ -661,9 +684,10 @@ mod __ {
             }
             if let Some(generics) = mb_generics {
                 let generics = generics.strip_suffix('>').unwrap();
-                generics.split(',').for_each(|generic| {
-                    append_unqualified_name(out, generic);
-                });
+                for_each_top_level(
+                    generics,
+                    |generic| append_unqualified_name(out, generic),
+                );
             }
         }
     }
-- 
2.43.0


From 903ef101501578af91fd16bf366c70c20965b1a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:52 +0000
Subject: [PATCH 22/23] fix: infinite and NaN constants in the headers

They were emitted as `inf` and `NaN`, which are neither C nor C#.
---
 src/headers/languages/c.rs      | 11 +++++++++--
 src/headers/languages/csharp.rs | 11 +++++++++--
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/headers/languages/c.rs b/src/headers/languages/c.rs
index 1b456d4..34a3016 100644
--- a/src/headers/languages/c.rs
+++ b/src/headers/languages/c.rs
@@ -255,14 +255,21 @@ impl HeaderLanguage for C {
         mk_out!(indent, ctx.out());
 
         self.emit_docs(ctx, docs, indent)?;
+        let value = match format!("{value:?}") {
+            // C has no literals for these.
+            | value if value == "inf" => "(1e300 * 1e300)".into(),
+            | value if value == "-inf" => "(-1e300 * 1e300)".into(),
+            | value if value == "NaN" => "(1e300 * 1e300 * 0.0)".into(),
+            | value => value,
+        };
         if skip_type {
             out!((
-                "#define {name} {value:?}"
+                "#define {name} {value}"
             ));
         } else {
             let ty = ty.name(self);
             out!((
-                "#define {name} (({ty}) {value:?})"
+                "#define {name} (({ty}) {value})"
             ));
         }
 
diff --git a/src/headers/languages/csharp.rs b/src/headers/languages/csharp.rs
index fa41eed..cd5d9d4 100644
--- a/src/headers/languages/csharp.rs
+++ b/src/headers/languages/csharp.rs
@@ -263,14 +263,21 @@ impl HeaderLanguage for CSharp {
             let ty = ty.name(self);
             // Without the suffix, the literal is a `double`, which C# refuses to narrow.
             let suffix = if ty == "float" { "f" } else { "" };
+            let value = match format!("{value:?}") {
+                // C# has no literals for these.
+                | value if value == "inf" => format!("{ty}.PositiveInfinity"),
+                | value if value == "-inf" => format!("{ty}.NegativeInfinity"),
+                | value if value == "NaN" => format!("{ty}.NaN"),
+                | value => format!("{value}{suffix}"),
+            };
             if matches!(&*ty, "UIntPtr" | "IntPtr") {
                 // There are no constants of these types beyond 32 bits.
                 out!((
-                    "public static readonly {ty} {name} = unchecked(({ty}) ({value:?}));"
+                    "public static readonly {ty} {name} = unchecked(({ty}) ({value}));"
                 ));
             } else {
                 out!((
-                    "public const {ty} {name} = {value:?}{suffix};"
+                    "public const {ty} {name} = {value};"
                 ));
             }
         }
-- 
2.43.0


From fdbbc4e9f5ec011603ebd7ed1de5c6695a582b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:00 +0000
Subject: [PATCH 23/23] fix: a type and a function of one name are both in the
 headers

---
 src/headers/_mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/headers/_mod.rs b/src/headers/_mod.rs
index 8bcd974..634d4fc 100644
--- a/src/headers/_mod.rs
+++ b/src/headers/_mod.rs
@@ -402,7 +402,9 @@ impl Builder<'_, WhereTo> {
             storage0.get_or_insert(
                 crate::inventory::iter
                     .into_iter()
-                    .map(|crate::FfiExport { name, gen_def }| (name, gen_def))
+                    .enumerate()
+                    // A type and a function may share a name.
+                    .map(|(i, crate::FfiExport { name, gen_def })| ((name, i), gen_def))
                     // Sort the definitions for a reliable header generation.
                     .collect::<::std::collections::BTreeMap<_, _>>()
                     .into_iter()
-- 
2.43.0

