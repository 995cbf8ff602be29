From 4cbcb4648958518d88eebb02116f5af0b24b83c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:10 +0000
Subject: [PATCH 01/35] fix: check Bytes::shrink_to ranges against the actual
 length of inlined slices

---
 src/bytes.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bytes.rs b/src/bytes.rs
index 4226029..6682157 100644
--- a/src/bytes.rs
+++ b/src/bytes.rs
@@ -232,7 +232,7 @@ impl<'a> Bytes<'a> {
             core::ops::Bound::Unbounded => self.len(),
         };
         assert!(start <= end);
-        assert!(end <= self.len);
+        assert!(end <= self.len());
         let len = end - start;
         if len <= Self::MAX_INLINE_SIZE {
             // SAFETY: `&self[start..end]` length has been checked, which is `inline_unchecked`'s only safety requirement.
-- 
2.43.0


From d65967f843e9eafdf1c21da87ea54c96985e0dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:52 +0000
Subject: [PATCH 02/35] fix: Bytes::noalloc_upgrade must not extend the
 lifetime of borrowed data

---
 src/bytes.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bytes.rs b/src/bytes.rs
index 6682157..0ee515f 100644
--- a/src/bytes.rs
+++ b/src/bytes.rs
@@ -346,7 +346,7 @@ impl<'a> Bytes<'a> {
     /// # Errors
     /// Returns the original instance if it couldn't be proven to be `'static`.
     pub fn noalloc_upgrade(self: Bytes<'a>) -> Result<Bytes<'static>, Self> {
-        if !self.vtable().map_or(true, |vt| !vt.is_borrowed()) {
+        if self.vtable().map_or(true, |vt| !vt.is_borrowed()) {
             Ok(unsafe { mem::transmute(self) })
         } else {
             Self::inline_slice(&self).ok_or(self)
-- 
2.43.0


From 662bbe20449bdc8e8a72c018ad5a9a80fecacf00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:52 +0000
Subject: [PATCH 03/35] fix: Bytes::{clone,upgrade}_will_allocate threshold is
 MAX_INLINE_SIZE

---
 src/bytes.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bytes.rs b/src/bytes.rs
index 0ee515f..bd09de6 100644
--- a/src/bytes.rs
+++ b/src/bytes.rs
@@ -374,7 +374,7 @@ impl<'a> Bytes<'a> {
     /// Returns `true` if a call to [`Self::upgrade`] would cause an allocation.
     pub fn upgrade_will_allocate(&self) -> bool {
         match self.vtable() {
-            Some(t) => t.is_borrowed() && self.len() >= mem::size_of::<Self>(),
+            Some(t) => t.is_borrowed() && self.len() > Self::MAX_INLINE_SIZE,
             None => false,
         }
     }
@@ -382,7 +382,7 @@ impl<'a> Bytes<'a> {
     /// Returns `true` if a call to [`Clone::clone`] would cause an allocation.
     pub fn clone_will_allocate(&self) -> bool {
         match self.vtable() {
-            Some(t) => t.retain.is_none() && self.len() >= mem::size_of::<Self>(),
+            Some(t) => t.retain.is_none() && self.len() > Self::MAX_INLINE_SIZE,
             None => false,
         }
     }
-- 
2.43.0


From e8c31c1e86d84b87be9983ccd05c3b8f4f0bc02c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:52 +0000
Subject: [PATCH 04/35] fix: Bytes::noalloc_clone succeeds whenever cloning
 would not allocate

---
 src/bytes.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bytes.rs b/src/bytes.rs
index bd09de6..5c8169d 100644
--- a/src/bytes.rs
+++ b/src/bytes.rs
@@ -359,7 +359,9 @@ impl<'a> Bytes<'a> {
             // SAFETY: `Bytes` is `Copy` if it is inlined.
             return Some(unsafe { core::ptr::read(self) });
         };
-        let retain = vtable.retain?;
+        let Some(retain) = vtable.retain else {
+            return Self::inline_slice(self);
+        };
         unsafe { retain(self.owner, self.capacity) };
         Some(Self {
             start: self.start,
-- 
2.43.0


From 52affaf6b0bf5ebc7335c40a8a916dd24a3623eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:52 +0000
Subject: [PATCH 05/35] fix: Bytes::shrink_to panics on ranges whose bounds
 overflow, also in release builds

---
 src/bytes.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bytes.rs b/src/bytes.rs
index 5c8169d..12bea0f 100644
--- a/src/bytes.rs
+++ b/src/bytes.rs
@@ -223,11 +223,11 @@ impl<'a> Bytes<'a> {
     pub fn shrink_to<R: RangeBounds<usize>>(&mut self, range: R) {
         let start = match range.start_bound() {
             core::ops::Bound::Included(i) => *i,
-            core::ops::Bound::Excluded(i) => *i + 1,
+            core::ops::Bound::Excluded(i) => i.checked_add(1).expect("range start overflows"),
             core::ops::Bound::Unbounded => 0,
         };
         let end = match range.end_bound() {
-            core::ops::Bound::Included(i) => *i + 1,
+            core::ops::Bound::Included(i) => i.checked_add(1).expect("range end overflows"),
             core::ops::Bound::Excluded(i) => *i,
             core::ops::Bound::Unbounded => self.len(),
         };
-- 
2.43.0


From ef16de838f248e45fade7c90bf8261555a75a52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:24 +0000
Subject: [PATCH 06/35] fix: Bytes: do not trust the size hint when
 deserializing from a sequence

---
 src/bytes.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bytes.rs b/src/bytes.rs
index 12bea0f..404a0e9 100644
--- a/src/bytes.rs
+++ b/src/bytes.rs
@@ -854,7 +854,8 @@ impl<'de> serde::de::Visitor<'de> for BytesVisitor {
     where
         A: serde::de::SeqAccess<'de>,
     {
-        let mut buf = Vec::with_capacity(seq.size_hint().unwrap_or(64));
+        // The hint comes from the (untrusted) input: it must not be able to make us abort.
+        let mut buf = Vec::with_capacity(seq.size_hint().unwrap_or(64).min(4096));
 
         while let Some(c) = seq.next_element::<u8>()? {
             buf.push(c);
-- 
2.43.0


From f0f1d0cf54d850fe206fe7d80be9bb93076e2613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:17 +0000
Subject: [PATCH 07/35] fix: explicit enum discriminants that do not fit in an
 i32

derive_ReprC emitted the discriminant expressions on their own, so they
were typed as i32: enums such as `#[repr(u32)] enum E { A = 0xFFFF_FFFF }`
failed to compile whenever the headers feature was enabled.
---
 src/proc_macro/derives/repr_c/enum_.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/proc_macro/derives/repr_c/enum_.rs b/src/proc_macro/derives/repr_c/enum_.rs
index 6b7893e..65b3f58 100644
--- a/src/proc_macro/derives/repr_c/enum_.rs
+++ b/src/proc_macro/derives/repr_c/enum_.rs
@@ -138,9 +138,12 @@ fn derive (
         let ref each_enum_variant =
             variants.try_vmap(|v| Result::Ok({
                 let ref VariantName_str = v.ident.to_string();
-                let discriminant = if let Some((_eq, disc)) = &v.discriminant {
+                let discriminant = if v.discriminant.is_some() {
+                    // Go through the variant itself so that the value has the
+                    // type of the discriminant (vs. defaulting to `i32`).
+                    let VariantName @ _ = &v.ident;
                     quote!(
-                        #ඞ::Some(&(#disc, ).0 as _)
+                        #ඞ::Some(&(#EnumName::#VariantName as #Int) as _)
                     )
                 } else {
                     quote!(
-- 
2.43.0


From bcfa701f13d4a4fd411d4b684d7119c8e71eb262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:31 +0000
Subject: [PATCH 08/35] fix: reject null out references in Out::is_valid

`Out` is a non-null pointer, like `&mut T`.
---
 src/layout/impls.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/layout/impls.rs b/src/layout/impls.rs
index ea518a3..b1a7835 100644
--- a/src/layout/impls.rs
+++ b/src/layout/impls.rs
@@ -1016,6 +1016,7 @@ impl_ReprC_for! { unsafe {
     @for['out, T : 'out + Sized + ReprC]
     Out<'out, T>
         => |ref it: *mut T::CLayout| {
+            it.is_null().not() &&
             (*it as usize) % ::core::mem::align_of::<T>() == 0
         },
 }}
-- 
2.43.0


From 76d86975385bd1537c9af329a01ed8f8638d8788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:29 +0000
Subject: [PATCH 09/35] fix: Python headers: no preprocessor directives, and
 Python definitions behind pointers, arrays and functions

`ffi.cdef` accepts neither `#include` nor `#ifdef`; renamed transparent types are type aliases as in C.
---
 src/headers/languages/python.rs |  28 +++++++++
 src/layout/_mod.rs              |  13 +++-
 src/layout/impls.rs             | 105 ++++++++++++++++++++++++++------
 3 files changed, 128 insertions(+), 18 deletions(-)

diff --git a/src/headers/languages/python.rs b/src/headers/languages/python.rs
index 5c10a25..5d4edb8 100644
--- a/src/headers/languages/python.rs
+++ b/src/headers/languages/python.rs
@@ -19,6 +19,34 @@ impl HeaderLanguage for Python {
         return Ok(())
     }
 
+    fn supports_type_aliases(self: &'_ Python)
+      -> Option<&'_ dyn HeaderLanguageSupportingTypeAliases>
+    {
+        return Some(self);
+        // where
+        impl HeaderLanguageSupportingTypeAliases for Python {
+            fn emit_type_alias(
+                self: &'_ Self,
+                ctx: &'_ mut dyn Definer,
+                _docs: Docs<'_>,
+                self_ty: &'_ dyn PhantomCType,
+                inner_ty: &'_ dyn PhantomCType,
+            ) -> io::Result<()>
+            {
+                let ref indent = Indentation::new(4 /* ctx.indent_width() */);
+                mk_out!(indent, ctx.out());
+                let ref aliaser = self_ty.name(self);
+                let ref typedef = inner_ty.name_wrapping_var(self, aliaser);
+                out!((
+                    "typedef {typedef};"
+                ));
+
+                out!("\n");
+                Ok(())
+            }
+        }
+    }
+
     fn emit_simple_enum (
         self: &'_ Self,
         ctx: &'_ mut dyn Definer,
diff --git a/src/layout/_mod.rs b/src/layout/_mod.rs
index e9f0f5c..63326b7 100644
--- a/src/layout/_mod.rs
+++ b/src/layout/_mod.rs
@@ -129,7 +129,7 @@ impl<T : LegacyCType> CType for T {
                 },
                 #[cfg(feature = "python-headers")]
                 | _case if language.is::<Python>() => {
-                    <Self as LegacyCType>::c_define_self(definer)
+                    <Self as LegacyCType>::python_define_self(definer)
                 },
                 | _ => unimplemented!(),
             }
@@ -530,6 +530,17 @@ unsafe trait LegacyCType
             }
         }
 
+        __cfg_python__! {
+            /// Same as [`LegacyCType::c_define_self`], but for a `cffi` module,
+            /// which supports neither `#include`s nor `#ifdef`s (but which knows
+            /// of the standard integer types and of `bool`).
+            fn python_define_self (definer: &'_ mut dyn Definer)
+              -> io::Result<()>
+            {
+                Self::c_define_self(definer)
+            }
+        }
+
         __cfg_csharp__! {
             /// Extra typedef code (_e.g._ `[LayoutKind.Sequential] struct ...`)
             fn csharp_define_self (definer: &'_ mut dyn Definer)
diff --git a/src/layout/impls.rs b/src/layout/impls.rs
index b1a7835..f9c3a0a 100644
--- a/src/layout/impls.rs
+++ b/src/layout/impls.rs
@@ -8,6 +8,33 @@ const_assert! {
     ::core::mem::size_of::<crate::libc::size_t>()
 }
 
+__cfg_headers__! {
+    /// Shared by the languages whose arrays are defined the way C does.
+    fn define_c_array<Item : CType> (
+        language: &'_ dyn HeaderLanguage,
+        definer: &'_ mut dyn Definer,
+        me: &'_ str,
+        idx: &'_ str,
+    ) -> io::Result<()>
+    {
+        definer.define_once(
+            me,
+            &mut |definer| {
+                Item::define_self(language, definer)?;
+                writeln!(definer.out(),
+                    concat!(
+                        "typedef struct {{\n",
+                        "    {inline_array};\n",
+                        "}} {me};\n",
+                    ),
+                    inline_array = Item::name_wrapping_var(language, idx),
+                    me = me,
+                )
+            },
+        )
+    }
+}
+
 const _: () = { macro_rules! impl_CTypes {
     () => (
         impl_CTypes! { @pointers }
@@ -115,26 +142,27 @@ const _: () = { macro_rules! impl_CTypes {
             fn c_define_self (definer: &'_ mut dyn Definer)
               -> io::Result<()>
             {
-                let ref me = Self::c_var("").to_string();
-                definer.define_once(
-                    me,
-                    &mut |definer| {
-                        Item::define_self(&crate::headers::languages::C, definer)?;
-                        writeln!(definer.out(),
-                            concat!(
-                                "typedef struct {{\n",
-                                "    {inline_array};\n",
-                                "}} {me};\n",
-                            ),
-                            inline_array = Item::name_wrapping_var(&crate::headers::languages::C, concat!(
-                                "idx[", stringify!($N), "]",
-                            )),
-                            me = me,
-                        )
-                    }
+                define_c_array::<Item>(
+                    &crate::headers::languages::C,
+                    definer,
+                    &Self::c_var("").to_string(),
+                    concat!("idx[", stringify!($N), "]"),
                 )
             }
 
+            __cfg_python__! {
+                fn python_define_self (definer: &'_ mut dyn Definer)
+                  -> io::Result<()>
+                {
+                    define_c_array::<Item>(
+                        &crate::headers::languages::Python,
+                        definer,
+                        &Self::c_var("").to_string(),
+                        concat!("idx[", stringify!($N), "]"),
+                    )
+                }
+            }
+
             fn c_var_fmt (
                 fmt: &'_ mut fmt::Formatter<'_>,
                 var_name: &'_ str,
@@ -294,6 +322,17 @@ const _: () = { macro_rules! impl_CTypes {
                 Ok(())
             }
 
+            __cfg_python__! {
+                fn python_define_self (definer: &'_ mut dyn Definer)
+                  -> io::Result<()>
+                {
+                    Ret::define_self(&crate::headers::languages::Python, definer)?; $(
+                    $An::define_self(&crate::headers::languages::Python, definer)?; $(
+                    $Ai::define_self(&crate::headers::languages::Python, definer)?; )*)?
+                    Ok(())
+                }
+            }
+
             fn c_var_fmt (
                 fmt: &'_ mut fmt::Formatter<'_>,
                 var_name: &'_ str,
@@ -501,6 +540,14 @@ const _: () = { macro_rules! impl_CTypes {
                 )
             }
 
+            __cfg_python__! {
+                fn python_define_self (_: &'_ mut dyn Definer)
+                  -> io::Result<()>
+                {
+                    Ok(())
+                }
+            }
+
             fn c_var_fmt (
                 fmt: &'_ mut fmt::Formatter<'_>,
                 var_name: &'_ str,
@@ -603,6 +650,14 @@ const _: () = { macro_rules! impl_CTypes {
                 T::define_self(&crate::headers::languages::C, definer)
             }
 
+            __cfg_python__! {
+                fn python_define_self (definer: &'_ mut dyn Definer)
+                  -> io::Result<()>
+                {
+                    T::define_self(&crate::headers::languages::Python, definer)
+                }
+            }
+
             fn c_var_fmt (
                 fmt: &'_ mut fmt::Formatter<'_>,
                 var_name: &'_ str,
@@ -670,6 +725,14 @@ const _: () = { macro_rules! impl_CTypes {
                 T::define_self(&crate::headers::languages::C, definer)
             }
 
+            __cfg_python__! {
+                fn python_define_self (definer: &'_ mut dyn Definer)
+                  -> io::Result<()>
+                {
+                    T::define_self(&crate::headers::languages::Python, definer)
+                }
+            }
+
             fn c_var_fmt (
                 fmt: &'_ mut fmt::Formatter<'_>,
                 var_name: &'_ str,
@@ -847,6 +910,14 @@ unsafe
                 )
             }
 
+            __cfg_python__! {
+                fn python_define_self (_: &'_ mut dyn Definer)
+                  -> io::Result<()>
+                {
+                    Ok(())
+                }
+            }
+
             fn c_var_fmt (
                 fmt: &'_ mut fmt::Formatter<'_>,
                 var_name: &'_ str,
-- 
2.43.0


From 716a005ccf7ba9bbfbdd5e3121d88635e026e41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:17 +0000
Subject: [PATCH 10/35] fix: C declarators of nested function pointers, in
 headers and type aliases

---
 src/headers/languages/c.rs |  4 ++--
 src/layout/impls.rs        | 39 ++++++++++++++++++++------------------
 2 files changed, 23 insertions(+), 20 deletions(-)

diff --git a/src/headers/languages/c.rs b/src/headers/languages/c.rs
index 4082680..4854b64 100644
--- a/src/headers/languages/c.rs
+++ b/src/headers/languages/c.rs
@@ -48,9 +48,9 @@ impl HeaderLanguage for C {
                 mk_out!(indent, ctx.out());
                 self.emit_docs(ctx, docs, indent)?;
                 let ref aliaser = self_ty.name(self);
-                let ref aliasee = inner_ty.name(self);
+                let ref typedef = inner_ty.name_wrapping_var(self, aliaser);
                 out!((
-                    "typedef {aliasee} {aliaser};"
+                    "typedef {typedef};"
                 ));
 
                 out!("\n");
diff --git a/src/layout/impls.rs b/src/layout/impls.rs
index f9c3a0a..65e5094 100644
--- a/src/layout/impls.rs
+++ b/src/layout/impls.rs
@@ -338,16 +338,21 @@ const _: () = { macro_rules! impl_CTypes {
                 var_name: &'_ str,
             ) -> fmt::Result
             {
-                write!(fmt, "{} ", Ret::name(&crate::headers::languages::C))?;
-                write!(fmt, "(*{})(", var_name)?;
+                // Mind the syntax of C declarators: when `Ret` is itself a
+                // function pointer, we are *inside* its declarator.
+                let mut declarator = format!("(*{})(", var_name);
                 let _empty = true; $(
                 let _empty = false;
-                write!(fmt, "{}", $An::name(&crate::headers::languages::C))?; $(
-                write!(fmt, ", {}", $Ai::name(&crate::headers::languages::C))?; )*)?
+                declarator.push_str(&$An::name(&crate::headers::languages::C)); $(
+                declarator.push_str(", ");
+                declarator.push_str(&$Ai::name(&crate::headers::languages::C)); )*)?
                 if _empty {
-                    fmt.write_str("void")?;
+                    declarator.push_str("void");
                 }
-                fmt.write_str(")")
+                declarator.push_str(")");
+                fmt.write_str(
+                    &Ret::name_wrapping_var(&crate::headers::languages::C, &declarator),
+                )
             }
 
             __cfg_csharp__! {
@@ -663,12 +668,11 @@ const _: () = { macro_rules! impl_CTypes {
                 var_name: &'_ str,
             ) -> fmt::Result
             {
-                write!(fmt,
-                    "{} const *{sep}{}",
-                    T::name(&crate::headers::languages::C),
-                    var_name,
-                    sep = if var_name.is_empty() { "" } else { " " },
-                )
+                let sep = if var_name.is_empty() { "" } else { " " };
+                fmt.write_str(&T::name_wrapping_var(
+                    &crate::headers::languages::C,
+                    &format!("const *{sep}{var_name}"),
+                ))
             }
 
             __cfg_csharp__! {
@@ -738,12 +742,11 @@ const _: () = { macro_rules! impl_CTypes {
                 var_name: &'_ str,
             ) -> fmt::Result
             {
-                write!(fmt,
-                    "{} *{sep}{}",
-                    T::name(&crate::headers::languages::C),
-                    var_name,
-                    sep = if var_name.is_empty() { "" } else { " " },
-                )
+                let sep = if var_name.is_empty() { "" } else { " " };
+                fmt.write_str(&T::name_wrapping_var(
+                    &crate::headers::languages::C,
+                    &format!("*{sep}{var_name}"),
+                ))
             }
 
             __cfg_csharp__! {
-- 
2.43.0


From ded5ef5f73040bfcc6d734ef916ccc59c051bcc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:17 +0000
Subject: [PATCH 11/35] fix: doc comments that hold a comment terminator or
 line breaks must not leak out of the header's comments

---
 src/headers/languages/c.rs      |  4 +++-
 src/headers/languages/csharp.rs |  2 +-
 src/headers/languages/mod.rs    | 13 +++++++++++++
 3 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/headers/languages/c.rs b/src/headers/languages/c.rs
index 4854b64..d0060b7 100644
--- a/src/headers/languages/c.rs
+++ b/src/headers/languages/c.rs
@@ -21,7 +21,9 @@ impl HeaderLanguage for C {
         }
 
         out!(("/** \\brief"));
-        for line in docs.iter().copied().map(str::trim) {
+        for line in lines_of(docs) {
+            // The docs must not close the comment they are in, nor seem to open one.
+            let ref line = line.replace("*/", "* /").replace("/*", "/ *");
             let sep = if line.is_empty() { "" } else { "  " };
             out!((" *{sep}{line}"));
         }
diff --git a/src/headers/languages/csharp.rs b/src/headers/languages/csharp.rs
index 77246d2..9663755 100644
--- a/src/headers/languages/csharp.rs
+++ b/src/headers/languages/csharp.rs
@@ -21,7 +21,7 @@ impl HeaderLanguage for CSharp {
         }
 
         out!(("/// <summary>"));
-        for mut line in docs.iter().copied().map(str::trim) {
+        for mut line in lines_of(docs) {
             let mut storage = None;
             if line.contains('`') {
                 let s = storage.get_or_insert_with(rust::String::new);
diff --git a/src/headers/languages/mod.rs b/src/headers/languages/mod.rs
index 27d0673..8c3696b 100644
--- a/src/headers/languages/mod.rs
+++ b/src/headers/languages/mod.rs
@@ -62,6 +62,19 @@ impl ::core::fmt::Display for Indentation {
 
 type Docs<'lt> = &'lt [&'lt str];
 
+/// A doc attribute may span over multiple lines (_e.g._, `/** … */`).
+fn lines_of<'docs> (docs: Docs<'docs>)
+  -> impl 'docs + Iterator<Item = &'docs str>
+{
+    docs.iter()
+        .flat_map(|doc| doc.split(|c| matches!(
+            c,
+            // the line terminators of C#, which is the pickiest of them all.
+            '\n' | '\r' | '\u{85}' | '\u{2028}' | '\u{2029}',
+        )))
+        .map(str::trim)
+}
+
 pub
 trait HeaderLanguage : UpcastAny {
     fn language_name(self: &'_ Self) -> &'static str {
-- 
2.43.0


From dfdec4e9dd53b19b1f706de6254d01df77e32a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:17 +0000
Subject: [PATCH 12/35] fix: C headers using isize do not declare ssize_t

---
 src/layout/impls.rs | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/layout/impls.rs b/src/layout/impls.rs
index 65e5094..d5270fb 100644
--- a/src/layout/impls.rs
+++ b/src/layout/impls.rs
@@ -542,7 +542,27 @@ const _: () = { macro_rules! impl_CTypes {
                             "\n",
                         ),
                     ),
-                )
+                )?;
+                // Contrary to the other integer types, `ssize_t` does not come
+                // with the standard headers.
+                if $CInt == "ssize" {
+                    definer.define_once(
+                        "__ssize_header__",
+                        &mut |definer| write!(definer.out(),
+                            concat!(
+                                "\n",
+                                "#ifdef _MSC_VER\n",
+                                "#include <BaseTsd.h>\n",
+                                "typedef SSIZE_T ssize_t;\n",
+                                "#else\n",
+                                "#include <sys/types.h>\n",
+                                "#endif\n",
+                                "\n",
+                            ),
+                        ),
+                    )?;
+                }
+                Ok(())
             }
 
             __cfg_python__! {
-- 
2.43.0


From a8cccb67e8e070339b4859cc4fb956b40ea2676d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:24 +0000
Subject: [PATCH 13/35] fix: constants whose Rust literal is not a C or C#
 literal

---
 src/headers/languages/c.rs      | 66 ++++++++++++++++++++++++++++++++-
 src/headers/languages/csharp.rs | 11 +++++-
 2 files changed, 74 insertions(+), 3 deletions(-)

diff --git a/src/headers/languages/c.rs b/src/headers/languages/c.rs
index d0060b7..c358803 100644
--- a/src/headers/languages/c.rs
+++ b/src/headers/languages/c.rs
@@ -255,14 +255,15 @@ impl HeaderLanguage for C {
         mk_out!(indent, ctx.out());
 
         self.emit_docs(ctx, docs, indent)?;
+        let ref value = c_literal(value);
         if skip_type {
             out!((
-                "#define {name} {value:?}"
+                "#define {name} {value}"
             ));
         } else {
             let ty = ty.name(self);
             out!((
-                "#define {name} (({ty}) {value:?})"
+                "#define {name} (({ty}) {value})"
             ));
         }
 
@@ -270,3 +271,64 @@ impl HeaderLanguage for C {
         Ok(())
     }
 }
+
+/// Most Rust literals are C literals. Most.
+fn c_literal (
+    value: &'_ dyn ::core::fmt::Debug,
+) -> String
+{
+    let value = format!("{value:?}");
+    match &value[..] {
+        | "inf" => "(1.0 / 0.0)".into(),
+        | "-inf" => "(-1.0 / 0.0)".into(),
+        | "NaN" => "(0.0 / 0.0)".into(),
+        // There are no negative literals in C, and this one without its sign
+        // does not fit in the biggest signed integer type.
+        | "-9223372036854775808" => "(-9223372036854775807 - 1)".into(),
+        | digits
+            if  digits.parse::<i64>().is_err()
+            &&  digits.parse::<u64>().is_ok()
+        => {
+            format!("{digits}u")
+        },
+        | _ if value.starts_with('"') => {
+            // Both `\0` and `\u{…}` have another meaning in C, where octal escapes are
+            // the only ones with a bounded length.
+            let mut ret = String::new();
+            let mut chars = value.chars();
+            while let Some(c) = chars.next() {
+                if c != '\\' {
+                    ret.push(c);
+                    continue;
+                }
+                match chars.next() {
+                    | Some('0') => ret.push_str("\\000"),
+                    | Some('u') => {
+                        let hex: String =
+                            chars
+                                .by_ref()
+                                .skip(1)
+                                .take_while(|&c| c != '}')
+                                .collect()
+                        ;
+                        let c =
+                            u32::from_str_radix(&hex, 16)
+                                .ok()
+                                .and_then(::core::char::from_u32)
+                                .unwrap_or(::core::char::REPLACEMENT_CHARACTER)
+                        ;
+                        for byte in c.encode_utf8(&mut [0; 4]).bytes() {
+                            ret.push_str(&format!("\\{byte:03o}"));
+                        }
+                    },
+                    | escaped => {
+                        ret.push(c);
+                        ret.extend(escaped);
+                    },
+                }
+            }
+            ret
+        },
+        | _ => value,
+    }
+}
diff --git a/src/headers/languages/csharp.rs b/src/headers/languages/csharp.rs
index 9663755..13b3068 100644
--- a/src/headers/languages/csharp.rs
+++ b/src/headers/languages/csharp.rs
@@ -260,8 +260,17 @@ impl HeaderLanguage for CSharp {
         if let _ = indent.scope() {
             self.emit_docs(ctx, docs, indent)?;
             let ty = ty.name(self);
+            let value = format!("{value:?}");
+            let value = match (&value[..], &ty[..]) {
+                | ("inf", _) => format!("{ty}.PositiveInfinity"),
+                | ("-inf", _) => format!("{ty}.NegativeInfinity"),
+                | ("NaN", _) => format!("{ty}.NaN"),
+                // C# has no implicit conversion from `double` to `float`.
+                | (_, "float") => format!("{value}f"),
+                | _ => value,
+            };
             out!((
-                "public const {ty} {name} = {value:?};"
+                "public const {ty} {name} = {value};"
             ));
         }
         out!(("}}"));
-- 
2.43.0


From 685d92bd4da5e8e379cf3dfc05bd02bf39446992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:20 +0000
Subject: [PATCH 14/35] fix: raw identifiers leak their r# prefix into symbols
 and headers

---
 src/proc_macro/_mod.rs                   | 1 +
 src/proc_macro/derives/c_type/struct_.rs | 4 ++--
 src/proc_macro/derives/repr_c/enum_.rs   | 4 ++--
 src/proc_macro/derives/repr_c/struct_.rs | 4 ++--
 src/proc_macro/ffi_export/const_.rs      | 2 +-
 src/proc_macro/ffi_export/fn_/mod.rs     | 7 ++++---
 src/proc_macro/ffi_export/type_.rs       | 2 +-
 7 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/proc_macro/_mod.rs b/src/proc_macro/_mod.rs
index e7e2f79..56d879c 100644
--- a/src/proc_macro/_mod.rs
+++ b/src/proc_macro/_mod.rs
@@ -24,6 +24,7 @@ use {
         ToTokens,
     },
     ::syn::{*,
+        ext::IdentExt as _,
         parse::{
             Parse,
             Parser,
diff --git a/src/proc_macro/derives/c_type/struct_.rs b/src/proc_macro/derives/c_type/struct_.rs
index 5982831..409eee4 100644
--- a/src/proc_macro/derives/c_type/struct_.rs
+++ b/src/proc_macro/derives/c_type/struct_.rs
@@ -83,7 +83,7 @@ fn derive (
         ;
         let ref StructName_str =
             args.rename.map_or_else(
-                || StructName.to_string().into_token_stream(),
+                || StructName.unraw().to_string().into_token_stream(),
                 ToTokens::into_token_stream,
             )
         ;
@@ -115,7 +115,7 @@ fn derive (
                 let ref field_docs = utils::extract_docs(&f.attrs)?;
                 let ref field_name_str = f.ident.as_ref().map_or_else(
                     || format!("_{i}"),
-                    Ident::to_string,
+                    |ident| ident.unraw().to_string(),
                 );
                 let FieldTy = &f.ty;
                 quote!(
diff --git a/src/proc_macro/derives/repr_c/enum_.rs b/src/proc_macro/derives/repr_c/enum_.rs
index 65b3f58..e3925c5 100644
--- a/src/proc_macro/derives/repr_c/enum_.rs
+++ b/src/proc_macro/derives/repr_c/enum_.rs
@@ -131,13 +131,13 @@ fn derive (
 
         let ref EnumName_str =
             args.rename.map_or_else(
-                || EnumName.to_string().into_token_stream(),
+                || EnumName.unraw().to_string().into_token_stream(),
                 ToTokens::into_token_stream,
             )
         ;
         let ref each_enum_variant =
             variants.try_vmap(|v| Result::Ok({
-                let ref VariantName_str = v.ident.to_string();
+                let ref VariantName_str = v.ident.unraw().to_string();
                 let discriminant = if v.discriminant.is_some() {
                     // Go through the variant itself so that the value has the
                     // type of the discriminant (vs. defaulting to `i32`).
diff --git a/src/proc_macro/derives/repr_c/struct_.rs b/src/proc_macro/derives/repr_c/struct_.rs
index 4ca2143..cb6f3fc 100644
--- a/src/proc_macro/derives/repr_c/struct_.rs
+++ b/src/proc_macro/derives/repr_c/struct_.rs
@@ -131,7 +131,7 @@ fn derive (
         };
 
         let rename = args.rename.unwrap_or_else(|| {
-            let s = StructName.to_string();
+            let s = StructName.unraw().to_string();
             parse_quote!(#s)
         });
 
@@ -473,7 +473,7 @@ fn derive_opaque (
                     #ඞ::From::from(#string_expr)
                 ),
                 | None => {
-                    let ref StructName_str = StructName.to_string();
+                    let ref StructName_str = StructName.unraw().to_string();
                     let EachGenericParam = generics.type_params().map(|p| &p.ident);
                     quote!(
                         let mut _ret =
diff --git a/src/proc_macro/ffi_export/const_.rs b/src/proc_macro/ffi_export/const_.rs
index 93ab257..ba22a42 100644
--- a/src/proc_macro/ffi_export/const_.rs
+++ b/src/proc_macro/ffi_export/const_.rs
@@ -63,7 +63,7 @@ fn handle (
 
 
         let VAR @ _ = &input.ident;
-        let VAR_str @ _ = &VAR.to_string();
+        let VAR_str @ _ = &VAR.unraw().to_string();
         let Ty @ _ = &input.ty;
         let ref each_doc = utils::extract_docs(&input.attrs)?;
         let skip_type = untyped.is_some();
diff --git a/src/proc_macro/ffi_export/fn_/mod.rs b/src/proc_macro/ffi_export/fn_/mod.rs
index d931645..af6514c 100644
--- a/src/proc_macro/ffi_export/fn_/mod.rs
+++ b/src/proc_macro/ffi_export/fn_/mod.rs
@@ -48,7 +48,7 @@ fn handle (
         } else {
             storage.get_or_insert(
                 LitStr::new(
-                    &fun.sig.ident.to_string(),
+                    &fun.sig.ident.unraw().to_string(),
                     fun.sig.ident.span(),
                 )
             )
@@ -116,7 +116,7 @@ fn handle (
                         //   - While mixed-site hygiene would help on the Rust
                         //     side, it won't on the generated code side:
                         //     `./generated.h:144:13: error: redefinition of parameter '__arg_1'`
-                        if arg_name.to_string().starts_with(ARG_PREFIX).not()
+                        if arg_name.unraw().to_string().starts_with(ARG_PREFIX).not()
                     => {
                         *by_ref = None;
                         *mutability = None;
@@ -356,6 +356,7 @@ fn handle (
             | ReturnType::Type(_, ref ty) => &**ty,
         };
         let ref EachArgTy @ _ = arg_tys(&fun).vec();
+        let each_arg_str = each_arg.iter().map(|arg| arg.unraw().to_string());
         let each_doc = utils::extract_docs(&fun.attrs)?;
         let (generics, _, where_clause) = fun.sig.generics.split_for_impl();
         ret.extend(quote!(
@@ -396,7 +397,7 @@ fn handle (
                                 &[
                                     #(
                                         #ඞ::FunctionArg {
-                                            name: #ඞ::stringify!(#each_arg),
+                                            name: #each_arg_str,
                                             ty: &#ඞ::PhantomData::<
                                                 #ඞ::CLayoutOf<#EachArgTy>,
                                             >,
diff --git a/src/proc_macro/ffi_export/type_.rs b/src/proc_macro/ffi_export/type_.rs
index 0c8b646..d20cd25 100644
--- a/src/proc_macro/ffi_export/type_.rs
+++ b/src/proc_macro/ffi_export/type_.rs
@@ -18,7 +18,7 @@ fn handle (
             "`where` clauses not allowed here" => clause.where_token,
         }
     }
-    let ref Ty_str @ _ = Ty.to_string();
+    let ref Ty_str @ _ = Ty.unraw().to_string();
     Ok(quote!(
         #input
 
-- 
2.43.0


From f68ef78e49d9a321e850470ee4999f2e7d3c60be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:20 +0000
Subject: [PATCH 15/35] fix: C#: marshal c_int as a 4-byte integer rather than
 as a pointer-sized one

---
 src/layout/impls.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/layout/impls.rs b/src/layout/impls.rs
index d5270fb..c6eff5f 100644
--- a/src/layout/impls.rs
+++ b/src/layout/impls.rs
@@ -1047,7 +1047,7 @@ unsafe
                 fn legacy_csharp_marshaler ()
                   -> Option<rust::String>
                 {
-                    Some("UnmanagedType.SysInt".into())
+                    Some("UnmanagedType.I4".into())
                 }
             }
         }
-- 
2.43.0


From 272edd6bb41b19b9de32d230f5215fb32d519f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:00 +0000
Subject: [PATCH 16/35] fix: C#: renamed transparent types lose the marshaler
 of the type they wrap

---
 src/proc_macro/derives/c_type/struct_.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/proc_macro/derives/c_type/struct_.rs b/src/proc_macro/derives/c_type/struct_.rs
index 409eee4..1b07375 100644
--- a/src/proc_macro/derives/c_type/struct_.rs
+++ b/src/proc_macro/derives/c_type/struct_.rs
@@ -282,6 +282,12 @@ fn derive_transparent (
                         <#CFieldTy as #ඞ::CType>::name(language)
                     }
                 }
+
+                fn csharp_marshaler ()
+                  -> #ඞ::Option<#ඞ::String>
+                {
+                    <#CFieldTy as #ඞ::CType>::csharp_marshaler()
+                }
             }
         }
     ));
-- 
2.43.0


From dfff8088b3000c137c7b9ea755d3eff05b44c698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:00 +0000
Subject: [PATCH 17/35] fix: C#: arrays of usize or isize cannot be fixed
 buffers

---
 src/layout/impls.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/layout/impls.rs b/src/layout/impls.rs
index c6eff5f..ca18cf1 100644
--- a/src/layout/impls.rs
+++ b/src/layout/impls.rs
@@ -188,8 +188,10 @@ const _: () = { macro_rules! impl_CTypes {
                             // Poor man's specialization to use `fixed` arrays.
                             if  [
                                     "bool",
-                                    "u8", "u16", "u32", "u64", "usize",
-                                    "i8", "i16", "i32", "i64", "isize",
+                                    // not `usize` nor `isize`: C# has no
+                                    // fixed buffers of `UIntPtr`s or `IntPtr`s.
+                                    "u8", "u16", "u32", "u64",
+                                    "i8", "i16", "i32", "i64",
                                     "float", "double",
                                 ].contains(&::core::any::type_name::<Item>())
                             {
-- 
2.43.0


From 0fdb387235119d87aa25ca0bf9aa0cddddd9b864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:22 +0000
Subject: [PATCH 18/35] fix: Python headers: enums keep their discriminants and
 their backing integer

---
 src/headers/languages/python.rs | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/headers/languages/python.rs b/src/headers/languages/python.rs
index 5d4edb8..8d45caa 100644
--- a/src/headers/languages/python.rs
+++ b/src/headers/languages/python.rs
@@ -52,7 +52,7 @@ impl HeaderLanguage for Python {
         ctx: &'_ mut dyn Definer,
         _docs: Docs<'_>,
         self_ty: &'_ dyn PhantomCType,
-        _backing_integer: Option<&dyn PhantomCType>,
+        backing_integer: Option<&dyn PhantomCType>,
         variants: &'_ [EnumVariant<'_>],
     ) -> io::Result<()>
     {
@@ -62,7 +62,11 @@ impl HeaderLanguage for Python {
         let ref short_name = self_ty.short_name();
         let ref full_ty_name = self_ty.name(self);
 
-        out!(("typedef enum {short_name} {{"));
+        if backing_integer.is_some() {
+            out!(("enum {short_name} {{"));
+        } else {
+            out!(("typedef enum {short_name} {{"));
+        }
 
         if let _ = indent.scope() {
             for v in variants {
@@ -72,11 +76,24 @@ impl HeaderLanguage for Python {
                     enum_name,
                     v.name,
                 ) */;
-                out!(("{variant_name},"));
+                if let Some(value) = v.discriminant {
+                    out!(("{variant_name} = {value:?},"));
+                } else {
+                    out!(("{variant_name},"));
+                }
             }
         }
 
-        out!(("}} {full_ty_name};"));
+        if let Some(intn_t) = backing_integer {
+            // Same ABI as the integer, rather than as a C `enum`.
+            let intn_t = intn_t.name(self);
+            out!((
+                "}};"
+                "typedef {intn_t} {full_ty_name};"
+            ));
+        } else {
+            out!(("}} {full_ty_name};"));
+        }
         out!("\n");
         Ok(())
     }
-- 
2.43.0


From fe07a1c5c7710fa3e706bc275cba7e2f60684604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:45 +0000
Subject: [PATCH 19/35] fix: header generation silently drops exports which
 share their name with another one

Two constants of one name are now reported, like two functions already were.
---
 src/headers/_mod.rs                 | 21 +++++++++++++--------
 src/proc_macro/ffi_export/const_.rs | 14 ++++++++++++++
 2 files changed, 27 insertions(+), 8 deletions(-)

diff --git a/src/headers/_mod.rs b/src/headers/_mod.rs
index 8bcd974..c01baa4 100644
--- a/src/headers/_mod.rs
+++ b/src/headers/_mod.rs
@@ -399,15 +399,20 @@ impl Builder<'_, WhereTo> {
         ;
         let (mut storage0, mut storage1) = (None, None);
         let gen_defs: &mut dyn Iterator<Item = _> = if stable_header {
-            storage0.get_or_insert(
-                crate::inventory::iter
-                    .into_iter()
-                    .map(|crate::FfiExport { name, gen_def }| (name, gen_def))
-                    // Sort the definitions for a reliable header generation.
-                    .collect::<::std::collections::BTreeMap<_, _>>()
+            storage0.get_or_insert({
+                let mut exports =
+                    crate::inventory::iter
+                        .into_iter()
+                        .collect::<rust::Vec<&crate::FfiExport>>()
+                ;
+                // Sort the definitions for a reliable header generation.
+                // Mind that many definitions may share a name (_e.g._, that of
+                // a type and of a function): none must be lost.
+                exports.sort_by_key(|export| export.name);
+                exports
                     .into_iter()
-                    .map(|(_, gen_def)| gen_def)
-            )
+                    .map(|crate::FfiExport { gen_def, .. }| gen_def)
+            })
         } else {
             storage1.get_or_insert(
                 crate::inventory::iter
diff --git a/src/proc_macro/ffi_export/const_.rs b/src/proc_macro/ffi_export/const_.rs
index ba22a42..3d54a80 100644
--- a/src/proc_macro/ffi_export/const_.rs
+++ b/src/proc_macro/ffi_export/const_.rs
@@ -79,6 +79,20 @@ fn handle (
                         definer: &'_ mut dyn #ඞ::Definer,
                         lang: #ඞ::Language,
                     | {
+                        // FIXME: this merges the value namespace with the type
+                        // namespace...
+                        if ! definer.insert(#VAR_str) {
+                            return #ඞ::result::Result::Err(
+                                #ඞ::io::Error::new(
+                                    #ඞ::io::ErrorKind::AlreadyExists,
+                                    #ඞ::concat!(
+                                        "Error, attempted to declare `",
+                                        #VAR_str,
+                                        "` while another declaration already exists",
+                                    ),
+                                )
+                            );
+                        }
                         #krate::__with_cfg_python__!(|$if_cfg_python| {
                             use #krate::headers::{
                                 Language,
-- 
2.43.0


From 7140bd9f5f94ac4f7730f6a5f6dcda33b3c35ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:59 +0000
Subject: [PATCH 20/35] fix: opaque names of nested generics, tuples and
 function types panic or are not identifiers

---
 src/_lib.rs | 86 +++++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 63 insertions(+), 23 deletions(-)

diff --git a/src/_lib.rs b/src/_lib.rs
index 61779b1..45bb0d3 100644
--- a/src/_lib.rs
+++ b/src/_lib.rs
@@ -607,42 +607,83 @@ mod __ {
         ty_name: &'_ str,
     )
     {
+        /// Splits at the `separator`s that are not nested within brackets.
         #[inline(never)]
-        fn mb_split_with<'r> (
+        fn split_top_level<'r> (
             orig: &'r str,
-            splitter: fn(&'r str) -> Option<(&'r str, &'r str)>,
-        ) -> (&'r str, Option<&'r str>)
+            separator: char,
+        ) -> Vec<&'r str>
         {
-            splitter(orig).map_or((orig, None), |(l, r)| (l, Some(r)))
+            let mut depth = 0;
+            let mut prev = ' ';
+            orig.split(|c| {
+                let is_separator = depth == 0 && c == separator;
+                match c {
+                    | '(' | '[' | '<' => depth += 1,
+                    | '>' if prev == '-' => {},
+                    | ')' | ']' | '>' => depth -= 1,
+                    | _ => {},
+                }
+                prev = c;
+                is_separator
+            })
+            .collect()
+        }
+
+        /// `Path<Generics…>` -> `("Path", "Generics…")`.
+        fn split_generics (ty_name: &'_ str)
+          -> Option<(&'_ str, &'_ str)>
+        {
+            let (path, generics) = ty_name.split_once('<')?;
+            let generics = generics.strip_suffix('>')?;
+            let mut depth = 0;
+            let mut prev = ' ';
+            let is_closed_early = generics.chars().any(|c| {
+                match c {
+                    | '<' => depth += 1,
+                    | '>' if prev == '-' => {},
+                    | '>' => depth -= 1,
+                    | _ => {},
+                }
+                prev = c;
+                depth < 0
+            });
+            bool::then(is_closed_early.not(), || (path, generics))
+        }
+
+        fn delimited (
+            ty_name: &'_ str,
+            opening: char,
+            closing: char,
+        ) -> Option<&'_ str>
+        {
+            ty_name.strip_prefix(opening)?.strip_suffix(closing)
         }
 
         let ty_name = ty_name.trim();
-        if let Some(tuple_innards) = ty_name.strip_prefix('(') {
+        if let Some(tuple_innards) = delimited(ty_name, '(', ')') {
             // Tuple
-            tuple_innards
-                .strip_suffix(')').unwrap()
-                .split(',')
+            split_top_level(tuple_innards, ',')
+                .into_iter()
                 .for_each(|generic| {
                     append_unqualified_name(out, generic);
                 })
             ;
-        } else if let Some(bracketed_innards) = ty_name.strip_prefix('[') {
+        } else if let Some(bracketed_innards) = delimited(ty_name, '[', ']') {
             // Array or Slice
-            let (elem_ty, mb_len) = mb_split_with(
-                bracketed_innards.strip_suffix(']').unwrap(),
-                |s| s.rsplit_once(';'),
-            );
-            append_unqualified_name(out, elem_ty);
-            if let Some(len) = mb_len {
-                append_unqualified_name(out, len);
-            }
+            split_top_level(bracketed_innards, ';')
+                .into_iter()
+                .for_each(|elem_ty_or_len| {
+                    append_unqualified_name(out, elem_ty_or_len);
+                })
+            ;
         } else {
             // Canonical Type Path
             out.push('_');
-            let (mut path, mb_generics) = mb_split_with(
-                ty_name,
-                |s| s.split_once('<'),
-            );
+            let (mut path, mb_generics) =
+                split_generics(ty_name)
+                    .map_or((ty_name, None), |(path, generics)| (path, Some(generics)))
+            ;
             let is_valid_for_ident = |c: char| {
                 c.is_alphanumeric() || matches!(c, '_')
             };
@@ -660,8 +701,7 @@ mod __ {
                 });
             }
             if let Some(generics) = mb_generics {
-                let generics = generics.strip_suffix('>').unwrap();
-                generics.split(',').for_each(|generic| {
+                split_top_level(generics, ',').into_iter().for_each(|generic| {
                     append_unqualified_name(out, generic);
                 });
             }
-- 
2.43.0


From c4e276ae988bde905e9535fce5f7b97872a1bba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:09 +0000
Subject: [PATCH 21/35] fix: C headers: discriminants at the extremes of 64-bit
 enums are not C literals

---
 src/headers/languages/c.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/headers/languages/c.rs b/src/headers/languages/c.rs
index c358803..5d5f0fc 100644
--- a/src/headers/languages/c.rs
+++ b/src/headers/languages/c.rs
@@ -103,7 +103,8 @@ impl HeaderLanguage for C {
                     v.name,
                 ) */;
                 if let Some(value) = v.discriminant {
-                    out!(("{variant_name} = {value:?},"));
+                    let ref value = c_literal(value);
+                    out!(("{variant_name} = {value},"));
                 } else {
                     out!(("{variant_name},"));
                 }
-- 
2.43.0


From 7253ba63714e1f897195bbb874582ba627139062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:44 +0000
Subject: [PATCH 22/35] fix: C headers: string constants that hold a trigraph

---
 src/headers/languages/c.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/headers/languages/c.rs b/src/headers/languages/c.rs
index 5d5f0fc..121aa42 100644
--- a/src/headers/languages/c.rs
+++ b/src/headers/languages/c.rs
@@ -299,6 +299,10 @@ fn c_literal (
             let mut chars = value.chars();
             while let Some(c) = chars.next() {
                 if c != '\\' {
+                    if c == '?' && ret.ends_with('?') {
+                        // Not a trigraph.
+                        ret.push('\\');
+                    }
                     ret.push(c);
                     continue;
                 }
-- 
2.43.0


From ff44940d9016b0348cf4b52fe497abfea6ada2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:30 +0000
Subject: [PATCH 23/35] fix: #[ffi_export(rename = ...)] was ignored on async
 functions

---
 src/proc_macro/ffi_export/fn_/async_fn.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/proc_macro/ffi_export/fn_/async_fn.rs b/src/proc_macro/ffi_export/fn_/async_fn.rs
index 00a98c4..e5946fb 100644
--- a/src/proc_macro/ffi_export/fn_/async_fn.rs
+++ b/src/proc_macro/ffi_export/fn_/async_fn.rs
@@ -318,8 +318,9 @@ fn export (
         let pub_ = &fun.vis;
         let each_attr = &fun.attrs;
         fun_signature.asyncness = None;
+        let rename = rename.map(|Rename { new_name, .. }| quote!( rename = #new_name ));
         quote!(
-            #[::safer_ffi::ffi_export]
+            #[::safer_ffi::ffi_export(#rename)]
             #(#each_attr)*
             #pub_ #fun_signature
             {
-- 
2.43.0


From 094694f5b712b6a7f208d9388b7572e2fd1ac44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:34 +0000
Subject: [PATCH 24/35] fix: header generation into a buffered writer ignored
 write errors

---
 src/headers/_mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/headers/_mod.rs b/src/headers/_mod.rs
index c01baa4..f9f5c2c 100644
--- a/src/headers/_mod.rs
+++ b/src/headers/_mod.rs
@@ -304,7 +304,9 @@ match_! {(
             }.generate_with_definer(&mut HashSetDefiner {
                 out: &mut target,
                 defines_set: Default::default(),
-            })
+            })?;
+            // A buffered writer ignores the errors it meets when dropped.
+            target.flush()
         }
 
         // pub
-- 
2.43.0


From 4e87a913eabcbf12fc56e05b44bce3522ffd7e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:01 +0000
Subject: [PATCH 25/35] fix: the order of exports that share a name in stable
 headers depended on the build

---
 src/headers/_mod.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/headers/_mod.rs b/src/headers/_mod.rs
index f9f5c2c..5c54f04 100644
--- a/src/headers/_mod.rs
+++ b/src/headers/_mod.rs
@@ -409,8 +409,24 @@ impl Builder<'_, WhereTo> {
                 ;
                 // Sort the definitions for a reliable header generation.
                 // Mind that many definitions may share a name (_e.g._, that of
-                // a type and of a function): none must be lost.
-                exports.sort_by_key(|export| export.name);
+                // a type and of a function): none must be lost, and since they
+                // are collected in an arbitrary order, their names are not
+                // enough to order them.
+                let rendered = |export: &crate::FfiExport| {
+                    let mut out = rust::Vec::<u8>::new();
+                    let ret = (export.gen_def)(
+                        &mut HashSetDefiner {
+                            defines_set: Default::default(),
+                            out: &mut out,
+                        },
+                        lang,
+                    );
+                    (ret.is_err(), out)
+                };
+                exports.sort_by(|a, b| {
+                    a.name.cmp(b.name)
+                        .then_with(|| rendered(a).cmp(&rendered(b)))
+                });
                 exports
                     .into_iter()
                     .map(|crate::FfiExport { gen_def, .. }| gen_def)
-- 
2.43.0


From 18abe7166c731bcf2e1582bcf31c9bf6e75d163e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:30 +0000
Subject: [PATCH 26/35] fix: ArcSlice::try_from(Bytes) must refuse a Bytes
 shrunk to a prefix

---
 src/bytes.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/bytes.rs b/src/bytes.rs
index 404a0e9..f0c1fe8 100644
--- a/src/bytes.rs
+++ b/src/bytes.rs
@@ -752,7 +752,12 @@ impl<'a> TryFrom<Bytes<'a>> for stabby::sync::ArcSlice<u8> {
         let Some(vtable) = value.vtable() else {
             return Err(value);
         };
-        match core::ptr::eq(vtable, &STABBY_ARCSLICE_BYTESVT) && core::ptr::eq(value.start, data) {
+        // `capacity` holds the end of the original slice, see `From<ArcSlice<u8>> for Bytes`.
+        let end = value.start as usize + value.len;
+        match core::ptr::eq(vtable, &STABBY_ARCSLICE_BYTESVT)
+            && core::ptr::eq(value.start, data)
+            && end == value.capacity
+        {
             true => unsafe {
                 let value = mem::ManuallyDrop::new(value);
                 let arc = stabby::sync::ArcSlice::from_raw(stabby::alloc::AllocSlice {
-- 
2.43.0


From 8fb5bdd1b2c0844dd3430303484c9df187620e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:37 +0000
Subject: [PATCH 27/35] fix: JS numbers were silently wrapped or truncated to
 the integer parameter's type

Node.js' integer getters wrap (32-bit) or truncate and clamp (64-bit), so that 2**32 + 5 was
accepted as the u8 5, 1.5 as 1, and NaN as 0, despite the 'Numeric overflow' check meant to
refuse them. NaN, on the other hand, was refused as an f64.
---
 src/js/impls.rs | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/src/js/impls.rs b/src/js/impls.rs
index 879f72d..47f041f 100644
--- a/src/js/impls.rs
+++ b/src/js/impls.rs
@@ -33,9 +33,14 @@ match_! {(
                     napi_value: JsNumber,
                 ) -> Result<$xN>
                 {
-                    let n: $x32 = napi_value.try_into()?;
+                    // Node.js' own integer getters wrap around or truncate: go through the exact value.
+                    let n: f64 = napi_value.try_into()?;
                     let n_mb_smaller: $xN = n as _;
-                    if n_mb_smaller as $x32 != n {
+                    let is_lossless =
+                        n_mb_smaller as f64 == n
+                        || (n.is_nan() && (n_mb_smaller as f64).is_nan())
+                    ;
+                    if !is_lossless {
                         Err(Error::new(
                             Status::InvalidArg,
                             format!(
@@ -104,16 +109,20 @@ match_! {(
                         },
                         | ValueType::Number => {
                             let num: JsNumber = unsafe { napi_value.cast() };
-                            let i: i64 = num.try_into()?;
-                            i.try_into().map_err(|_| Error::new(
-                                Status::InvalidArg,
-                                format!(
-                                    "Numeric overflow: \
-                                    parameter {} does not fit into a `{}`",
-                                    i,
-                                    ::core::any::type_name::<$x64>(),
-                                ),
-                            ).into())
+                            let n: f64 = num.try_into()?;
+                            let i = n as i128;
+                            match i.try_into() {
+                                | Ok(value) if i as f64 == n => Ok(value),
+                                | _ => Err(Error::new(
+                                    Status::InvalidArg,
+                                    format!(
+                                        "Numeric overflow: \
+                                        parameter `{:?}` does not fit into a `{}`",
+                                        n,
+                                        ::core::any::type_name::<$x64>(),
+                                    ),
+                                ).into()),
+                            }
                         },
                         | _ => {
                             Err(Error::new(
-- 
2.43.0


From 8e3a026db2d252b40c96b579d737518e337d032e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:59 +0000
Subject: [PATCH 28/35] fix: JS pointers to pointers were rejected by the
 functions taking them

The check of a pointer's type against a `*const` parameter made every inner pointer `const`,
so that a `T * const *` returned by one function never fit the same type of another.
---
 src/js/impls.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/js/impls.rs b/src/js/impls.rs
index 47f041f..9d61329 100644
--- a/src/js/impls.rs
+++ b/src/js/impls.rs
@@ -335,8 +335,14 @@ match_! {( const, mut ) {
                     let actual_ty = ty.into_utf8()?;
                     let mut actual_ty = actual_ty.as_str()?;
                     let storage;
-                    if stringify!($mut) == "const" {
-                        storage = actual_ty.replace("const *", "*").replace(" *", " const *");
+                    if stringify!($mut) == "const" && actual_ty != expected_ty {
+                        // A `*mut T` is fine where a `*const T` is expected, with the pointee kept
+                        // as is, or with all the inner pointers made `const` as well.
+                        storage = match actual_ty.strip_suffix(" *") {
+                            | Some(pointee) if expected_ty.strip_suffix(" const *") == Some(pointee)
+                                => expected_ty.to_owned(),
+                            | _ => actual_ty.replace("const *", "*").replace(" *", " const *"),
+                        };
                         actual_ty = &storage;
                     }
                     if actual_ty != expected_ty {
-- 
2.43.0


From 2d0b725e94cdfddfbd94d08ca538dffdf8b6865f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:59 +0000
Subject: [PATCH 29/35] fix: withOutU64 handed an i32 out-pointer to its
 callback

`let mut u64 = 0` was inferred to be an `i32`: the pointer was typed `int32_t *`, which no function
with a `u64` out parameter takes, and the result was read as a signed 32-bit one.
---
 src/js/ffi_helpers.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/js/ffi_helpers.rs b/src/js/ffi_helpers.rs
index 8bdc93b..b255476 100644
--- a/src/js/ffi_helpers.rs
+++ b/src/js/ffi_helpers.rs
@@ -296,7 +296,7 @@ fn with_out_u64 (cb: JsFunction)
   -> Result<JsUnknown>
 {Ok({
     let ctx = ::safer_ffi::js::derive::__js_ctx!();
-    let mut u64 = 0;
+    let mut u64: u64 = 0;
     let out_u64 = &mut u64;
     cb.call(None, &[
         ReprNapi::to_napi_value(
@@ -304,7 +304,7 @@ fn with_out_u64 (cb: JsFunction)
             ctx.env,
         )?.into_unknown(),
     ])?;
-    ReprNapi::to_napi_value(unsafe { crate::layout::into_raw(u64 as i64) }, ctx.env)?
+    ReprNapi::to_napi_value(unsafe { crate::layout::into_raw(u64) }, ctx.env)?
         .into_unknown()
 })}
 
-- 
2.43.0


From 1580ebf95dfabae2a1c553f00985c45bbf4ac22a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:29 +0000
Subject: [PATCH 30/35] fix: setDeadlockTimeout accepted negative and
 fractional numbers

Node.js' getter of an u32 wraps them: -1 became 4294967295.
---
 src/js/ffi_helpers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/js/ffi_helpers.rs b/src/js/ffi_helpers.rs
index b255476..bd5541a 100644
--- a/src/js/ffi_helpers.rs
+++ b/src/js/ffi_helpers.rs
@@ -171,7 +171,7 @@ fn set_deadlock_timeout_js(
 ) -> Result<JsUndefined>
 {
     let ctx = ::safer_ffi::js::derive::__js_ctx!();
-    let val: Option<std::num::NonZeroU32> = match val.try_into() {
+    let val: Option<std::num::NonZeroU32> = match u32::from_napi_value(ctx.env, val) {
         // Maps an input 0 to `None`
         Ok(val) => std::num::NonZeroU32::new(val),
         Err(_) => Err(Error::new(
-- 
2.43.0


From 1d18760d26121e4004b6a6f206d83c92a8065143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:19 +0000
Subject: [PATCH 31/35] fix: a derived type with a separate repr(align) or
 repr(packed) got a different layout in C

---
 src/proc_macro/derives/repr_c/_mod.rs    | 21 +++++++++++++++++++++
 src/proc_macro/derives/repr_c/enum_.rs   |  2 ++
 src/proc_macro/derives/repr_c/struct_.rs |  2 +-
 3 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/proc_macro/derives/repr_c/_mod.rs b/src/proc_macro/derives/repr_c/_mod.rs
index c248539..c8e210c 100644
--- a/src/proc_macro/derives/repr_c/_mod.rs
+++ b/src/proc_macro/derives/repr_c/_mod.rs
@@ -61,3 +61,24 @@ fn derive (
         #ret
     ))
 }
+
+/// Neither `align(…)` nor `packed` are carried over to the C layout.
+fn reject_layout_modifiers (
+    attrs: &'_ [Attribute],
+) -> Result<()>
+{
+    for attr in attrs.iter().filter(|attr| attr.path.is_ident("repr")) {
+        let reprs = attr.parse_args_with(
+            Punctuated::<Meta, Token![,]>::parse_terminated,
+        )?;
+        if let Some(repr) = reprs.iter().find(|repr| {
+            repr.path().is_ident("align") || repr.path().is_ident("packed")
+        })
+        {
+            bail! {
+                "unsupported `repr`" => repr,
+            }
+        }
+    }
+    Ok(())
+}
diff --git a/src/proc_macro/derives/repr_c/enum_.rs b/src/proc_macro/derives/repr_c/enum_.rs
index e3925c5..bbf1910 100644
--- a/src/proc_macro/derives/repr_c/enum_.rs
+++ b/src/proc_macro/derives/repr_c/enum_.rs
@@ -31,6 +31,8 @@ fn derive (
         );
     }
 
+    super::reject_layout_modifiers(attrs)?;
+
     let mut ret = quote!();
 
     if let Some(payload) =
diff --git a/src/proc_macro/derives/repr_c/struct_.rs b/src/proc_macro/derives/repr_c/struct_.rs
index cb6f3fc..4cf7f7f 100644
--- a/src/proc_macro/derives/repr_c/struct_.rs
+++ b/src/proc_macro/derives/repr_c/struct_.rs
@@ -45,7 +45,7 @@ fn derive (
                 generics,
             ),
 
-            | "C" => {},
+            | "C" => super::reject_layout_modifiers(attrs)?,
 
             | _unsupported => bail! {
                 "unsupported `repr`" => repr,
-- 
2.43.0


From 3e4bbd44d4b93d28a0ddf08427dd9e21cfc598f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:51 +0000
Subject: [PATCH 32/35] fix: arrays of opaque types were accepted by value

---
 src/layout/impls.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/layout/impls.rs b/src/layout/impls.rs
index ca18cf1..eae23fd 100644
--- a/src/layout/impls.rs
+++ b/src/layout/impls.rs
@@ -242,7 +242,7 @@ const _: () = { macro_rules! impl_CTypes {
         /// range **from `1` up to `32`, plus a bunch of significant
         /// lengths up to `1024`**.
         unsafe
-        impl<Item : ReprC> ReprC
+        impl<Item : ConcreteReprC> ReprC
             for [Item; $N]
         {
             type CLayout = [Item::CLayout; $N];
-- 
2.43.0


From 4e73816a7c1667d4b7bf50f0c13c36da5b574ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:13 +0000
Subject: [PATCH 33/35] fix: derive_ReprC refused repr(C) tuple structs

---
 src/proc_macro/derives/repr_c/struct_.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/proc_macro/derives/repr_c/struct_.rs b/src/proc_macro/derives/repr_c/struct_.rs
index 4cf7f7f..32f8ffb 100644
--- a/src/proc_macro/derives/repr_c/struct_.rs
+++ b/src/proc_macro/derives/repr_c/struct_.rs
@@ -151,6 +151,14 @@ fn derive (
     ret.extend({
         let EachFieldTy @ _ = EachFieldTy();
         let each_field_name = each_field_name();
+        // The layout has named fields.
+        let each_layout_field_name = (0_u8..).zip(fields).map(|(i, f)| {
+            match f.ident {
+                | Some(ref ident) => ident.clone(),
+                | None => format_ident!("_{}", i),
+            }
+        });
+        let ref each_layout_field_name = each_layout_field_name.vec();
         let (intro_generics, fwd_generics, where_clauses) =
             ctype_generics.split_for_impl()
         ;
@@ -173,7 +181,7 @@ fn derive (
                     #(
                         if #ඞ::mem::size_of::<#EachFieldTy>() != 0
                         && <#EachFieldTy as #ReprC>::is_valid(
-                            &_it.#each_field_name
+                            &_it.#each_layout_field_name
                         ) == false
                         {
                             #ඞ::__error__!(
@@ -187,8 +195,8 @@ fn derive (
                                 #ඞ::any::type_name::<#EachFieldTy>(),
                                 unsafe {
                                     #ඞ::slice::from_raw_parts(
-                                        <*const _>::cast::<#ඞ::u8>(&_it.#each_field_name),
-                                        #ඞ::mem::size_of_val(&_it.#each_field_name),
+                                        <*const _>::cast::<#ඞ::u8>(&_it.#each_layout_field_name),
+                                        #ඞ::mem::size_of_val(&_it.#each_layout_field_name),
                                     )
                                 },
                             );
-- 
2.43.0


From fc3f3469869475ec52b0d627677a6496d9f8624c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:59:47 +0000
Subject: [PATCH 34/35] fix: RefDynFnMutN could not be converted from a closure
 that mutates or borrows

---
 src/closure/borrowed.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/closure/borrowed.rs b/src/closure/borrowed.rs
index 00d522f..9acafea 100644
--- a/src/closure/borrowed.rs
+++ b/src/closure/borrowed.rs
@@ -56,8 +56,8 @@ macro_rules! with_tuple {(
         Ret : ReprC, $(
         $A_N : ReprC, $(
         $A_k : ReprC, )*)?
-        F : Fn( $($A_N $(, $A_k)*)? ) -> Ret,
-        F : Send + 'static,
+        F : FnMut( $($A_N $(, $A_k)*)? ) -> Ret,
+        F : 'lt + Send,
     {
         #[inline]
         fn from (f: &'lt mut F)
-- 
2.43.0


From 75a1dca1837acb1976511931fe0f31c9046cf1e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:19:11 +0000
Subject: [PATCH 35/35] fix: transparent types whose first field is a marker
 got the marker's empty layout

---
 src/proc_macro/derives/repr_c/struct_.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/proc_macro/derives/repr_c/struct_.rs b/src/proc_macro/derives/repr_c/struct_.rs
index 32f8ffb..9952e7b 100644
--- a/src/proc_macro/derives/repr_c/struct_.rs
+++ b/src/proc_macro/derives/repr_c/struct_.rs
@@ -243,7 +243,16 @@ fn derive_transparent (
 
     let mut ret = quote!();
 
-    let FieldTy = match fields.iter().next() {
+    // The field to forward to: markers have no layout.
+    let is_marker = |ty: &'_ Type| match ty {
+        | Type::Tuple(it) => it.elems.is_empty(),
+        | Type::Path(it) => it.path.segments.last().map_or(false, |it| {
+            it.ident == "PhantomData" || it.ident == "PhantomPinned"
+        }),
+        | _ => false,
+    };
+    let main_field = fields.iter().find(|f| is_marker(&f.ty).not());
+    let FieldTy = match main_field.or(fields.iter().next()) {
         | Some(f) => &f.ty,
         | None => bail! {
             "`#[repr(transparent)]` requires at least one field" => fields,
-- 
2.43.0

