From cc294298106676053deaff532ee68fb914a5a759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:31 +0000
Subject: [PATCH 01/42] fix: bool maps to z.boolean(), z.bool() does not exist
 in zod

---
 core/src/build_ins.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/build_ins.rs b/core/src/build_ins.rs
index fc5ad9a..c04b278 100644
--- a/core/src/build_ins.rs
+++ b/core/src/build_ins.rs
@@ -143,7 +143,7 @@ impl_primitive!("number", isize, "z.number().finite().int()");
 impl_primitive!("number", f32, "z.number()");
 impl_primitive!("number", f64, "z.number()");
 
-impl_primitive!("boolean", bool, "z.bool()");
+impl_primitive!("boolean", bool, "z.boolean()");
 impl_primitive!("string", char, "z.string().length(1)");
 impl_primitive!("null", (), "z.null()");
 
-- 
2.43.0


From 10b347df969c36b1d60f6949dbe1b0db8587d184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:31 +0000
Subject: [PATCH 02/42] fix: infinite numbers are not valid floats, JSON turns
 them into null

---
 core/src/build_ins.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/core/src/build_ins.rs b/core/src/build_ins.rs
index c04b278..e391ae6 100644
--- a/core/src/build_ins.rs
+++ b/core/src/build_ins.rs
@@ -140,8 +140,8 @@ impl_primitive!(
 impl_primitive!("number", i128, "z.number().finite().int().lte(170141183460469231731687303715884105727).gte(-170141183460469231731687303715884105728)");
 impl_primitive!("number", isize, "z.number().finite().int()");
 
-impl_primitive!("number", f32, "z.number()");
-impl_primitive!("number", f64, "z.number()");
+impl_primitive!("number", f32, "z.number().finite()");
+impl_primitive!("number", f64, "z.number().finite()");
 
 impl_primitive!("boolean", bool, "z.boolean()");
 impl_primitive!("string", char, "z.string().length(1)");
@@ -287,10 +287,18 @@ impl_primitive!("string", std::net::IpAddr, "z.string().ip()");
 impl_primitive!("string", smol_str::SmolStr, "z.string()");
 
 #[cfg(feature = "ordered-float")]
-impl_primitive!("number", ordered_float::NotNan<f32>, "z.number()");
+impl_primitive!(
+    "number",
+    ordered_float::NotNan<f32>,
+    "z.number().finite()"
+);
 
 #[cfg(feature = "ordered-float")]
-impl_primitive!("number", ordered_float::NotNan<f64>, "z.number()");
+impl_primitive!(
+    "number",
+    ordered_float::NotNan<f64>,
+    "z.number().finite()"
+);
 
 #[cfg(test)]
 mod test {
-- 
2.43.0


From 2da4306866b1a5803373374b614e9db5ed82fe46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:05 +0000
Subject: [PATCH 03/42] fix: struct variants without deserialized fields

---
 derive/src/impl_enum/variant/struct_variant.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/derive/src/impl_enum/variant/struct_variant.rs b/derive/src/impl_enum/variant/struct_variant.rs
index 6eeabab..357c479 100644
--- a/derive/src/impl_enum/variant/struct_variant.rs
+++ b/derive/src/impl_enum/variant/struct_variant.rs
@@ -16,7 +16,8 @@ pub struct StructVariant<'a> {
 impl<'a> StructVariant<'a> {
     pub fn expand_schema(&self) -> TokenStream {
         let inner = match self.fields.len() {
-            0 => unreachable!("Empty tuple structs are handled by darling"),
+            // all fields are skipped
+            0 => quote!(""),
             1 => {
                 let inner = self.fields.expand_schema();
                 inner.first().expect("one field").clone()
@@ -58,7 +59,8 @@ impl<'a> StructVariant<'a> {
         let name = self.attrs.name().deserialize_name();
 
         let inner = match expanded_fields.len() {
-            0 => unreachable!("Empty tuple structs are handled by darling"),
+            // all fields are skipped
+            0 => quote!(""),
             1 => expanded_fields
                 .first()
                 .expect("exactly one variant")
-- 
2.43.0


From 406ce2314044b1cefdd66aca14b31480250d538b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:05 +0000
Subject: [PATCH 04/42] fix: tuples with skipped fields stay tuples

---
 derive/src/impl_enum/field.rs                 | 11 ++++++++++-
 derive/src/impl_enum/variant/tuple_variant.rs | 12 ++++++------
 derive/src/impl_struct.rs                     | 15 ++++++++-------
 3 files changed, 24 insertions(+), 14 deletions(-)

diff --git a/derive/src/impl_enum/field.rs b/derive/src/impl_enum/field.rs
index 2166cd2..b017f8f 100644
--- a/derive/src/impl_enum/field.rs
+++ b/derive/src/impl_enum/field.rs
@@ -8,6 +8,7 @@ use syn::spanned::Spanned;
 /// represents the fields inside a variant
 pub struct VariantFields<'a> {
     inner: Vec<VariantField<'a>>,
+    declared: usize,
 }
 
 impl<'a> VariantFields<'a> {
@@ -41,8 +42,16 @@ impl<'a> VariantFields<'a> {
             })
             .collect();
 
-        Self { inner }
+        Self {
+            inner,
+            declared: variant.fields.len(),
+        }
+    }
+    /// number of fields in the declaration, including those which are skipped
+    pub fn declared(&self) -> usize {
+        self.declared
     }
+
     pub fn len(&self) -> usize {
         self.inner.len()
     }
diff --git a/derive/src/impl_enum/variant/tuple_variant.rs b/derive/src/impl_enum/variant/tuple_variant.rs
index b20a29a..c8f65ec 100644
--- a/derive/src/impl_enum/variant/tuple_variant.rs
+++ b/derive/src/impl_enum/variant/tuple_variant.rs
@@ -16,8 +16,8 @@ pub struct TupleVariant<'a> {
 
 impl<'a> TupleVariant<'a> {
     pub fn expand_schema(&self) -> TokenStream {
-        let inner = match self.fields.len() {
-            0 => {
+        let inner = match (self.fields.declared(), self.fields.len()) {
+            (1, 0) => {
                 // may occur if fields are skipped. In this case we handle it like a unit variant
                 return UnitVariant {
                     span: self.span,
@@ -26,7 +26,7 @@ impl<'a> TupleVariant<'a> {
                 }
                 .expand_schema();
             }
-            1 => self
+            (1, 1) => self
                 .fields
                 .expand_schema()
                 .into_iter()
@@ -65,9 +65,9 @@ impl<'a> TupleVariant<'a> {
         let tag_type = self.tag;
         let name = &self.name;
 
-        let inner = match expanded_fields.len() {
+        let inner = match (self.fields.declared(), expanded_fields.len()) {
             // may occur if fields are skipped. In this case we handle it like a unit variant
-            0 => {
+            (1, 0) => {
                 return UnitVariant {
                     span: self.span,
                     tag: self.tag,
@@ -75,7 +75,7 @@ impl<'a> TupleVariant<'a> {
                 }
                 .expand_type_defs()
             }
-            1 => expanded_fields
+            (1, 1) => expanded_fields
                 .first()
                 .expect("exactly one variant")
                 .clone(),
diff --git a/derive/src/impl_struct.rs b/derive/src/impl_struct.rs
index 75def9d..6a4851f 100644
--- a/derive/src/impl_struct.rs
+++ b/derive/src/impl_struct.rs
@@ -31,6 +31,7 @@ pub fn expand(
     };
 
     let style = fields.style;
+    let newtype = style.is_tuple() && fields.len() == 1;
 
     let fields = fields
         .iter()
@@ -59,6 +60,7 @@ pub fn expand(
         ident,
         fields,
         style,
+        newtype,
         from_ty,
     };
 
@@ -73,6 +75,7 @@ struct Struct<'a> {
     name: String,
     fields: Vec<StructField<'a>>,
     style: Style,
+    newtype: bool,
     from_ty: Option<syn::Type>,
 }
 
@@ -123,7 +126,7 @@ impl<'a> Struct<'a> {
 
             }
         } else {
-            let interface_or_type = match (self.fields.len() == 1, self.style, self.transparent) {
+            let interface_or_type = match (self.newtype, self.style, self.transparent) {
                 (_, Style::Unit, _) | (true, Style::Tuple, _) | (_, _, true) => quote!(Type),
                 _ => quote!(Interface),
             };
@@ -175,9 +178,8 @@ impl<'a> Struct<'a> {
                 .expect("At least one field")
                 .expand_type_defs(),
 
-            (false, Style::Tuple) => match fields.len() {
-                0 => unreachable!("handled by darling"),
-                1 => fields
+            (false, Style::Tuple) => match self.newtype {
+                true => fields
                     .into_iter()
                     .next()
                     .or_else(|| flat_fields.into_iter().next())
@@ -218,9 +220,8 @@ impl<'a> Struct<'a> {
                 .expect("At least one field")
                 .expand_schema(),
 
-            (false, Style::Tuple) => match fields.len() {
-                0 => unreachable!("handled by darling"),
-                1 => fields
+            (false, Style::Tuple) => match self.newtype {
+                true => fields
                     .into_iter()
                     .next()
                     .or_else(|| flat_fields.into_iter().next())
-- 
2.43.0


From d88eb32199ea31fed9429b1b6e2deca36a1ce214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:05 +0000
Subject: [PATCH 05/42] fix: tuple and flattened structs cannot be interfaces

---
 derive/src/impl_struct.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/derive/src/impl_struct.rs b/derive/src/impl_struct.rs
index 6a4851f..cfcaaf1 100644
--- a/derive/src/impl_struct.rs
+++ b/derive/src/impl_struct.rs
@@ -126,8 +126,10 @@ impl<'a> Struct<'a> {
 
             }
         } else {
-            let interface_or_type = match (self.newtype, self.style, self.transparent) {
-                (_, Style::Unit, _) | (true, Style::Tuple, _) | (_, _, true) => quote!(Type),
+            let interface_or_type = match (self.style, self.transparent) {
+                (Style::Unit | Style::Tuple, _) | (_, true) => quote!(Type),
+                // intersections
+                _ if self.fields.iter().any(|f| f.flatten) => quote!(Type),
                 _ => quote!(Interface),
             };
 
-- 
2.43.0


From f6f3444101cb433fc9276268681d0b5bccd1fa70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:05 +0000
Subject: [PATCH 06/42] fix: transparent structs are the field serde picks

---
 derive/src/impl_struct.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/derive/src/impl_struct.rs b/derive/src/impl_struct.rs
index cfcaaf1..0b5a8c9 100644
--- a/derive/src/impl_struct.rs
+++ b/derive/src/impl_struct.rs
@@ -36,7 +36,10 @@ pub fn expand(
     let fields = fields
         .iter()
         .zip(fields_ast.iter().map(|f| &f.attrs))
-        .filter(|(_, attrs)| !attrs.skip_deserializing())
+        .filter(|(_, attrs)| match transparent {
+            true => attrs.transparent(),
+            false => !attrs.skip_deserializing(),
+        })
         .map(|(args::StructField { ty, ident }, attrs)| StructField {
             ty,
             name: ident.as_ref().map(|_| attrs.name().deserialize_name()),
-- 
2.43.0


From 680ec3a34c04431c40cc3d85658171db8be518a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:05 +0000
Subject: [PATCH 07/42] fix: fields are optional when the struct has a serde
 default

---
 derive/src/impl_struct.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/derive/src/impl_struct.rs b/derive/src/impl_struct.rs
index 0b5a8c9..a4eef4e 100644
--- a/derive/src/impl_struct.rs
+++ b/derive/src/impl_struct.rs
@@ -31,6 +31,7 @@ pub fn expand(
     };
 
     let style = fields.style;
+    let default = !serde_ast.attrs.default().is_none();
     let newtype = style.is_tuple() && fields.len() == 1;
 
     let fields = fields
@@ -43,7 +44,7 @@ pub fn expand(
         .map(|(args::StructField { ty, ident }, attrs)| StructField {
             ty,
             name: ident.as_ref().map(|_| attrs.name().deserialize_name()),
-            optional: !attrs.default().is_none(),
+            optional: !transparent && (default || !attrs.default().is_none()),
             transparent,
             flatten: attrs.flatten(),
         })
-- 
2.43.0


From 998c5fefd97915781722ddf85988cb04410fc852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:45 +0000
Subject: [PATCH 08/42] fix: internally tagged newtype variants carry their tag

---
 derive/src/impl_enum/mod.rs                   |  7 +++++++
 derive/src/impl_enum/variant/mod.rs           |  8 ++++++++
 derive/src/impl_enum/variant/tuple_variant.rs | 12 ++++++++++--
 3 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/derive/src/impl_enum/mod.rs b/derive/src/impl_enum/mod.rs
index 46c122e..753fb68 100644
--- a/derive/src/impl_enum/mod.rs
+++ b/derive/src/impl_enum/mod.rs
@@ -160,6 +160,13 @@ impl<'a> Enum<'a> {
                             format!("z.union([{}])", variants.join(", "))
                         }
                     }
+                    // zod discriminates between objects only, intersections need a plain union
+                    TagType::Internal { .. } if self.variants.iter().any(|v| v.is_newtype()) => {
+                        quote! {
+                            let variants: ::std::vec::Vec<String> = vec![#(#expanded_variant_schemas),*];
+                            format!("z.union([{}])", variants.join(", "))
+                        }
+                    }
                     TagType::Internal { tag } | TagType::Adjacent { tag, .. } => {
                         quote! {
                             let variants: ::std::vec::Vec<String> = vec![#(#expanded_variant_schemas),*];
diff --git a/derive/src/impl_enum/variant/mod.rs b/derive/src/impl_enum/variant/mod.rs
index 3fccd76..5d8635c 100644
--- a/derive/src/impl_enum/variant/mod.rs
+++ b/derive/src/impl_enum/variant/mod.rs
@@ -48,6 +48,14 @@ impl<'a> Variant<'a> {
         }
     }
 
+    /// a variant with exactly one unnamed field
+    pub fn is_newtype(&self) -> bool {
+        match self {
+            Variant::Tuple(tuple) => tuple.fields.len() == 1,
+            Variant::Unit(_) | Variant::Struct(_) => false,
+        }
+    }
+
     /// expand a single variant of an enum into a zod schema
     pub fn expand_schema(&self) -> TokenStream {
         match self {
diff --git a/derive/src/impl_enum/variant/tuple_variant.rs b/derive/src/impl_enum/variant/tuple_variant.rs
index c8f65ec..17e6226 100644
--- a/derive/src/impl_enum/variant/tuple_variant.rs
+++ b/derive/src/impl_enum/variant/tuple_variant.rs
@@ -47,9 +47,13 @@ impl<'a> TupleVariant<'a> {
         let span = self.span;
 
         match self.tag {
-            TagType::External | TagType::Internal { .. } => {
+            TagType::External => {
                 quote_spanned! {span =>  format!("z.object({{ {}: {} }})", #name, #inner) }
             }
+            // `A(Inner)` -> the fields of `Inner` next to the tag
+            TagType::Internal { tag } => {
+                quote_spanned! {span =>  format!("z.object({{ {}: z.literal(\"{}\") }}).and({})", #tag, #name, #inner) }
+            }
             TagType::Adjacent { tag, content } => {
                 quote_spanned! {span =>  format!("z.object({{ {}: z.literal(\"{}\"), {}: {} }})", #tag, #name, #content, #inner) }
             }
@@ -91,9 +95,13 @@ impl<'a> TupleVariant<'a> {
         };
 
         match tag_type {
-            TagType::External | TagType::Internal { .. } => {
+            TagType::External => {
                 quote_spanned! {span =>  format!("{{ {}: {} }}", #name, #inner) }
             }
+            // `A(Inner)` -> `{ type: "A" } & Inner`
+            TagType::Internal { tag } => {
+                quote_spanned! {span =>  format!("{{ {}: \"{}\" }} & ({})", #tag, #name, #inner) }
+            }
             TagType::Adjacent { tag, content } => {
                 quote_spanned! {span =>  format!("{{ {}: \"{}\", {}: {} }}", #tag, #name, #content, #inner) }
             }
-- 
2.43.0


From 2795d1217aadf79f9dc46da5e9eda8cc298a16e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:50 +0000
Subject: [PATCH 09/42] fix: quote and escape names that are not plain
 identifiers

---
 core/src/build_ins.rs                         | 12 ++------
 derive/src/impl_enum/field.rs                 |  4 +--
 derive/src/impl_enum/mod.rs                   |  3 +-
 .../src/impl_enum/variant/struct_variant.rs   | 13 +++++++--
 derive/src/impl_enum/variant/tuple_variant.rs | 11 +++++--
 derive/src/impl_enum/variant/unit_variant.rs  |  9 ++++--
 derive/src/impl_struct.rs                     |  6 ++--
 derive/src/lib.rs                             |  1 +
 derive/src/names.rs                           | 29 +++++++++++++++++++
 9 files changed, 67 insertions(+), 21 deletions(-)
 create mode 100644 derive/src/names.rs

diff --git a/core/src/build_ins.rs b/core/src/build_ins.rs
index e391ae6..8714d6b 100644
--- a/core/src/build_ins.rs
+++ b/core/src/build_ins.rs
@@ -287,18 +287,10 @@ impl_primitive!("string", std::net::IpAddr, "z.string().ip()");
 impl_primitive!("string", smol_str::SmolStr, "z.string()");
 
 #[cfg(feature = "ordered-float")]
-impl_primitive!(
-    "number",
-    ordered_float::NotNan<f32>,
-    "z.number().finite()"
-);
+impl_primitive!("number", ordered_float::NotNan<f32>, "z.number().finite()");
 
 #[cfg(feature = "ordered-float")]
-impl_primitive!(
-    "number",
-    ordered_float::NotNan<f64>,
-    "z.number().finite()"
-);
+impl_primitive!("number", ordered_float::NotNan<f64>, "z.number().finite()");
 
 #[cfg(test)]
 mod test {
diff --git a/derive/src/impl_enum/field.rs b/derive/src/impl_enum/field.rs
index b017f8f..a43983e 100644
--- a/derive/src/impl_enum/field.rs
+++ b/derive/src/impl_enum/field.rs
@@ -1,4 +1,4 @@
-use crate::{args::EnumField, get_zod};
+use crate::{args::EnumField, get_zod, names};
 
 use darling::ast::Style;
 use proc_macro2::TokenStream;
@@ -31,7 +31,7 @@ impl<'a> VariantFields<'a> {
                         }),
                         Style::Struct => VariantField::Named(NamedField {
                             enum_field,
-                            name: f.attrs.name().deserialize_name(),
+                            name: names::property(&f.attrs.name().deserialize_name()),
                             optional: !f.attrs.default().is_none(),
                         }),
                         Style::Unit => unreachable!(),
diff --git a/derive/src/impl_enum/mod.rs b/derive/src/impl_enum/mod.rs
index 753fb68..7ec063a 100644
--- a/derive/src/impl_enum/mod.rs
+++ b/derive/src/impl_enum/mod.rs
@@ -1,7 +1,7 @@
 mod field;
 mod variant;
 
-use crate::{docs::RustDocs, expand_type_registration, impl_inventory};
+use crate::{docs::RustDocs, expand_type_registration, impl_inventory, names};
 use variant::Variant;
 
 use super::args;
@@ -168,6 +168,7 @@ impl<'a> Enum<'a> {
                         }
                     }
                     TagType::Internal { tag } | TagType::Adjacent { tag, .. } => {
+                        let tag = names::literal(tag);
                         quote! {
                             let variants: ::std::vec::Vec<String> = vec![#(#expanded_variant_schemas),*];
                             format!("z.discriminatedUnion(\"{}\", [{}])", #tag, variants.join(", "))
diff --git a/derive/src/impl_enum/variant/struct_variant.rs b/derive/src/impl_enum/variant/struct_variant.rs
index 357c479..747b667 100644
--- a/derive/src/impl_enum/variant/struct_variant.rs
+++ b/derive/src/impl_enum/variant/struct_variant.rs
@@ -1,4 +1,5 @@
 use super::field;
+use crate::names;
 use proc_macro2::TokenStream;
 use quote::{quote, quote_spanned};
 use serde_derive_internals::{ast, attr::TagType};
@@ -35,16 +36,20 @@ impl<'a> StructVariant<'a> {
         };
 
         let span = self.ident.span();
-        let name = self.attrs.name().deserialize_name();
+        let serde_name = self.attrs.name().deserialize_name();
+        let name = names::literal(&serde_name);
 
         match self.serde_ast.attrs.tag() {
             TagType::External => {
+                let name = names::property(&serde_name);
                 quote_spanned! {span =>  format!("z.object({{ {}: z.object({{ {} }}) }})", #name, #inner) }
             }
             TagType::Internal { tag } => {
+                let tag = names::property(tag);
                 quote_spanned! {span =>  format!("z.object({{ {}: z.literal(\"{}\"), {} }})", #tag, #name, #inner) }
             }
             TagType::Adjacent { tag, content } => {
+                let (tag, content) = (names::property(tag), names::property(content));
                 quote_spanned! {span =>  format!("z.object({{ {}: z.literal(\"{}\"), {}: z.object({{ {} }}) }})", #tag, #name, #content, #inner) }
             }
             TagType::None => {
@@ -56,7 +61,8 @@ impl<'a> StructVariant<'a> {
     pub fn expand_type_defs(&self) -> TokenStream {
         let expanded_fields = self.fields.expand_type_defs();
         let span = self.ident.span();
-        let name = self.attrs.name().deserialize_name();
+        let serde_name = self.attrs.name().deserialize_name();
+        let name = names::literal(&serde_name);
 
         let inner = match expanded_fields.len() {
             // all fields are skipped
@@ -79,15 +85,18 @@ impl<'a> StructVariant<'a> {
         match self.serde_ast.attrs.tag() {
             // `A{ num: usize, s: String }` -> `{ A: { num: number, s: string } }`
             TagType::External => {
+                let name = names::property(&serde_name);
                 quote_spanned! {span =>  format!("{{ {}: {{ {} }} }}", #name, #inner) }
             }
             // `A{ num: usize, s: String }` -> `{ type: "A", num: number, s: string }`
             TagType::Internal { tag } => {
+                let tag = names::property(tag);
                 quote_spanned! {span =>  format!("{{ {}: \"{}\", {} }}", #tag, #name, #inner) }
             }
 
             // `A{ num: usize, s: String }` -> `{ type: "A", content: { num: number, s: string }}`
             TagType::Adjacent { tag, content } => {
+                let (tag, content) = (names::property(tag), names::property(content));
                 quote_spanned! {span =>  format!("{{ {}: \"{}\", {}: {{ {} }} }}", #tag, #name, #content, #inner) }
             }
             // `A{ num: usize, s: String }` -> `{ num: number, s: string }`
diff --git a/derive/src/impl_enum/variant/tuple_variant.rs b/derive/src/impl_enum/variant/tuple_variant.rs
index 17e6226..2896288 100644
--- a/derive/src/impl_enum/variant/tuple_variant.rs
+++ b/derive/src/impl_enum/variant/tuple_variant.rs
@@ -1,5 +1,6 @@
 use super::field;
 use super::UnitVariant;
+use crate::names;
 use proc_macro2::Span;
 use proc_macro2::TokenStream;
 use quote::{quote, quote_spanned};
@@ -43,18 +44,21 @@ impl<'a> TupleVariant<'a> {
                 }
             }
         };
-        let name = &self.name;
+        let name = names::literal(&self.name);
         let span = self.span;
 
         match self.tag {
             TagType::External => {
+                let name = names::property(&self.name);
                 quote_spanned! {span =>  format!("z.object({{ {}: {} }})", #name, #inner) }
             }
             // `A(Inner)` -> the fields of `Inner` next to the tag
             TagType::Internal { tag } => {
+                let tag = names::property(tag);
                 quote_spanned! {span =>  format!("z.object({{ {}: z.literal(\"{}\") }}).and({})", #tag, #name, #inner) }
             }
             TagType::Adjacent { tag, content } => {
+                let (tag, content) = (names::property(tag), names::property(content));
                 quote_spanned! {span =>  format!("z.object({{ {}: z.literal(\"{}\"), {}: {} }})", #tag, #name, #content, #inner) }
             }
             TagType::None => {
@@ -67,7 +71,7 @@ impl<'a> TupleVariant<'a> {
         let expanded_fields = self.fields.expand_type_defs();
         let span = self.span;
         let tag_type = self.tag;
-        let name = &self.name;
+        let name = names::literal(&self.name);
 
         let inner = match (self.fields.declared(), expanded_fields.len()) {
             // may occur if fields are skipped. In this case we handle it like a unit variant
@@ -96,13 +100,16 @@ impl<'a> TupleVariant<'a> {
 
         match tag_type {
             TagType::External => {
+                let name = names::property(&self.name);
                 quote_spanned! {span =>  format!("{{ {}: {} }}", #name, #inner) }
             }
             // `A(Inner)` -> `{ type: "A" } & Inner`
             TagType::Internal { tag } => {
+                let tag = names::property(tag);
                 quote_spanned! {span =>  format!("{{ {}: \"{}\" }} & ({})", #tag, #name, #inner) }
             }
             TagType::Adjacent { tag, content } => {
+                let (tag, content) = (names::property(tag), names::property(content));
                 quote_spanned! {span =>  format!("{{ {}: \"{}\", {}: {} }}", #tag, #name, #content, #inner) }
             }
             TagType::None => {
diff --git a/derive/src/impl_enum/variant/unit_variant.rs b/derive/src/impl_enum/variant/unit_variant.rs
index 59efcfc..8ac476c 100644
--- a/derive/src/impl_enum/variant/unit_variant.rs
+++ b/derive/src/impl_enum/variant/unit_variant.rs
@@ -1,3 +1,4 @@
+use crate::names;
 use proc_macro2::{Span, TokenStream};
 use quote::quote_spanned;
 use serde_derive_internals::attr::TagType;
@@ -12,15 +13,17 @@ pub struct UnitVariant<'a> {
 
 impl<'a> UnitVariant<'a> {
     pub fn expand_schema(&self) -> TokenStream {
-        let name = &self.name;
+        let name = names::literal(&self.name);
         match self.tag {
             TagType::External => {
                 quote_spanned!(self.span => format!("z.literal(\"{}\")", #name))
             }
             TagType::Internal { tag } => {
+                let tag = names::property(tag);
                 quote_spanned!(self.span=> format!("z.object({{ {}: z.literal(\"{}\") }})", #tag, #name))
             }
             TagType::Adjacent { tag, .. } => {
+                let tag = names::property(tag);
                 quote_spanned!(self.span=> format!("z.object({{ {}: z.literal(\"{}\") }})", #tag, #name))
             }
             TagType::None => {
@@ -31,15 +34,17 @@ impl<'a> UnitVariant<'a> {
 
     /// Example `A`  ->  `"A"`
     pub fn expand_type_defs(&self) -> TokenStream {
-        let name = &self.name;
+        let name = names::literal(&self.name);
         match self.tag {
             TagType::External => {
                 quote_spanned!(self.span => format!("\"{}\"", #name))
             }
             TagType::Internal { tag } => {
+                let tag = names::property(tag);
                 quote_spanned!(self.span => format!("{{ {}: \"{}\" }}", #tag, #name))
             }
             TagType::Adjacent { tag, .. } => {
+                let tag = names::property(tag);
                 quote_spanned!(self.span => format!("{{ {}: \"{}\" }}", #tag, #name))
             }
             TagType::None => {
diff --git a/derive/src/impl_struct.rs b/derive/src/impl_struct.rs
index a4eef4e..664770b 100644
--- a/derive/src/impl_struct.rs
+++ b/derive/src/impl_struct.rs
@@ -1,4 +1,4 @@
-use crate::{docs::RustDocs, expand_type_registration, get_zod, impl_inventory};
+use crate::{docs::RustDocs, expand_type_registration, get_zod, impl_inventory, names};
 
 use super::args;
 use darling::ast::{Fields, Style};
@@ -43,7 +43,9 @@ pub fn expand(
         })
         .map(|(args::StructField { ty, ident }, attrs)| StructField {
             ty,
-            name: ident.as_ref().map(|_| attrs.name().deserialize_name()),
+            name: ident
+                .as_ref()
+                .map(|_| names::property(&attrs.name().deserialize_name())),
             optional: !transparent && (default || !attrs.default().is_none()),
             transparent,
             flatten: attrs.flatten(),
diff --git a/derive/src/lib.rs b/derive/src/lib.rs
index bff2bac..371e683 100644
--- a/derive/src/lib.rs
+++ b/derive/src/lib.rs
@@ -12,6 +12,7 @@ mod impl_enum;
 mod impl_inventory;
 mod impl_namespace;
 mod impl_struct;
+mod names;
 
 use darling::{ast::Data, FromDeriveInput};
 use docs::RustDocs;
diff --git a/derive/src/names.rs b/derive/src/names.rs
new file mode 100644
index 0000000..480e4c6
--- /dev/null
+++ b/derive/src/names.rs
@@ -0,0 +1,29 @@
+//! Rust and serde names as parts of typescript code
+
+/// The content of a double quoted string literal
+pub fn literal(name: &str) -> String {
+    name.chars()
+        .map(|c| match c {
+            '"' | '\\' => format!("\\{c}"),
+            c if c.is_control() || matches!(c, '\u{2028}' | '\u{2029}') => {
+                format!("\\u{:04x}", c as u32)
+            }
+            c => c.to_string(),
+        })
+        .collect()
+}
+
+/// A property name. Quoted unless it is a plain identifier
+pub fn property(name: &str) -> String {
+    let is_ident = !name.starts_with(|c: char| c.is_ascii_digit())
+        && !name.is_empty()
+        && name
+            .chars()
+            .all(|c| c.is_ascii_alphanumeric() || matches!(c, '_' | '$'));
+
+    if is_ident {
+        name.to_string()
+    } else {
+        format!("\"{}\"", literal(name))
+    }
+}
-- 
2.43.0


From 669ce02bed538cddd971a98a50afb1560f401cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:50 +0000
Subject: [PATCH 10/42] fix: built-in types refer to their parameters by name,
 recursive types ended in a stack overflow

---
 core/src/build_ins.rs | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/core/src/build_ins.rs b/core/src/build_ins.rs
index 8714d6b..67e28e1 100644
--- a/core/src/build_ins.rs
+++ b/core/src/build_ins.rs
@@ -1,3 +1,4 @@
+use crate::InlinedType;
 use crate::TsTypeDef;
 use crate::ZodType;
 
@@ -48,7 +49,7 @@ macro_rules! impl_tuples {
             /// [T1, T2, ... ]
             /// ```
             fn type_def() -> TsTypeDef {
-                TsTypeDef::Type(format!("[{}]", vec![$($i::type_def().to_string()),*].join(", ")))
+                TsTypeDef::Type(format!("[{}]", vec![$($i::inline().to_string()),*].join(", ")))
             }
 
 
@@ -57,7 +58,7 @@ macro_rules! impl_tuples {
             /// z.tuple([T1, T2, ... ])
             /// ```
             fn schema() -> String {
-                format!("z.tuple([{}])", vec![$($i::schema()),*].join(", "))
+                format!("z.tuple([{}])", vec![$($i::inline_schema()),*].join(", "))
             }
         }
     };
@@ -87,6 +88,14 @@ macro_rules! impl_wrapper {
                 T::schema()
             }
 
+            fn inline() -> InlinedType {
+                T::inline()
+            }
+
+            fn inline_schema() -> String {
+                T::inline_schema()
+            }
+
         }
     };
 }
@@ -173,7 +182,7 @@ impl<T: ZodType> ZodType for Vec<T> {
     /// Array<T>
     /// ```
     fn type_def() -> TsTypeDef {
-        TsTypeDef::Type(format!("Array<{}>", T::type_def()))
+        TsTypeDef::Type(format!("Array<{}>", T::inline()))
     }
 
     /// ```ts
@@ -191,7 +200,7 @@ impl<T: ZodType> ZodType for std::collections::HashSet<T> {
     /// Set<T>
     /// ```
     fn type_def() -> TsTypeDef {
-        TsTypeDef::Type(format!("Set<{}>", T::type_def()))
+        TsTypeDef::Type(format!("Set<{}>", T::inline()))
     }
 
     /// ```ts
@@ -209,7 +218,7 @@ impl<K: ZodType, V: ZodType> ZodType for std::collections::HashMap<K, V> {
     /// Map<K, V>
     /// ```
     fn type_def() -> TsTypeDef {
-        TsTypeDef::Type(format!("Map<{}, {}>", K::type_def(), V::type_def()))
+        TsTypeDef::Type(format!("Map<{}, {}>", K::inline(), V::inline()))
     }
 
     /// ```ts
@@ -228,7 +237,7 @@ impl<T: ZodType> ZodType for Option<T> {
     /// ```
     fn type_def() -> TsTypeDef {
         // Todo
-        TsTypeDef::Type(format!("({} | undefined)", T::type_def()))
+        TsTypeDef::Type(format!("({} | undefined)", T::inline()))
     }
 
     /// ```ts
@@ -248,8 +257,8 @@ impl<T: ZodType, E: ZodType> ZodType for Result<T, E> {
     fn type_def() -> TsTypeDef {
         TsTypeDef::Type(format!(
             "{{ Ok: {} }} | {{ Err: {} }}",
-            T::type_def(),
-            E::type_def()
+            T::inline(),
+            E::inline()
         ))
     }
 
-- 
2.43.0


From 1f75f82a5f318c0448ca33642f8c7c0d22c4068f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:05 +0000
Subject: [PATCH 11/42] fix: upper and lower bounds of big integers

---
 core/src/build_ins.rs | 40 ++++++++++++++++++++++++++++++++++------
 1 file changed, 34 insertions(+), 6 deletions(-)

diff --git a/core/src/build_ins.rs b/core/src/build_ins.rs
index 67e28e1..078dcbf 100644
--- a/core/src/build_ins.rs
+++ b/core/src/build_ins.rs
@@ -103,6 +103,8 @@ macro_rules! impl_wrapper {
 impl_primitive!("string", String, "z.string()");
 impl_primitive!("string", &str, "z.string()");
 
+// The bounds of the big integers are those of the JSON numbers javascript writes: it has no numbers
+// between their largest values and the next power of two, and it uses exponents from 1e21 on.
 impl_primitive!(
     "number",
     u8,
@@ -121,14 +123,25 @@ impl_primitive!(
 impl_primitive!(
     "number",
     u64,
-    "z.number().finite().int().nonnegative().lte(18446744073709551615)"
+    "z.number().finite().int().nonnegative().lt(18446744073709551616)"
 );
 impl_primitive!(
     "number",
     u128,
-    "z.number().finite().int().nonnegative().lte(340282366920938463463374607431768211455)"
+    "z.number().finite().int().nonnegative().lt(1e21)"
+);
+#[cfg(target_pointer_width = "64")]
+impl_primitive!(
+    "number",
+    usize,
+    "z.number().finite().int().nonnegative().lt(18446744073709551616)"
+);
+#[cfg(not(target_pointer_width = "64"))]
+impl_primitive!(
+    "number",
+    usize,
+    "z.number().finite().int().nonnegative().lte(4294967295)"
 );
-impl_primitive!("number", usize, "z.number().finite().int().nonnegative()");
 
 impl_primitive!("number", i8, "z.number().finite().int().lte(127).gte(-128)");
 impl_primitive!(
@@ -144,10 +157,25 @@ impl_primitive!(
 impl_primitive!(
     "number",
     i64,
-    "z.number().finite().int().lte(9223372036854775807).gte(-9223372036854775808)"
+    "z.number().finite().int().lt(9223372036854775808).gt(-9223372036854775808)"
+);
+impl_primitive!(
+    "number",
+    i128,
+    "z.number().finite().int().lt(1e21).gt(-1e21)"
+);
+#[cfg(target_pointer_width = "64")]
+impl_primitive!(
+    "number",
+    isize,
+    "z.number().finite().int().lt(9223372036854775808).gt(-9223372036854775808)"
+);
+#[cfg(not(target_pointer_width = "64"))]
+impl_primitive!(
+    "number",
+    isize,
+    "z.number().finite().int().lte(2147483647).gte(-2147483648)"
 );
-impl_primitive!("number", i128, "z.number().finite().int().lte(170141183460469231731687303715884105727).gte(-170141183460469231731687303715884105728)");
-impl_primitive!("number", isize, "z.number().finite().int()");
 
 impl_primitive!("number", f32, "z.number().finite()");
 impl_primitive!("number", f64, "z.number().finite()");
-- 
2.43.0


From ebff18659146f9fb0d06fb10ddb5161045e26bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:06 +0000
Subject: [PATCH 12/42] fix: a char is one unicode scalar value, not one utf-16
 unit

---
 core/src/build_ins.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/build_ins.rs b/core/src/build_ins.rs
index 078dcbf..1159b22 100644
--- a/core/src/build_ins.rs
+++ b/core/src/build_ins.rs
@@ -181,7 +181,7 @@ impl_primitive!("number", f32, "z.number().finite()");
 impl_primitive!("number", f64, "z.number().finite()");
 
 impl_primitive!("boolean", bool, "z.boolean()");
-impl_primitive!("string", char, "z.string().length(1)");
+impl_primitive!("string", char, r"z.string().regex(/^[^\uD800-\uDFFF]$/u)");
 impl_primitive!("null", (), "z.null()");
 
 impl_tuples!(
-- 
2.43.0


From 10d44e04f6f002d4bd22386d6daf456b8613ef71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:06 +0000
Subject: [PATCH 13/42] fix: None is null in JSON

---
 core/src/build_ins.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/core/src/build_ins.rs b/core/src/build_ins.rs
index 1159b22..f4af59f 100644
--- a/core/src/build_ins.rs
+++ b/core/src/build_ins.rs
@@ -261,19 +261,18 @@ impl<K: ZodType, V: ZodType> ZodType for std::collections::HashMap<K, V> {
 impl<T: ZodType> ZodType for Option<T> {
     /// ```ts
     /// // TS-type
-    /// T | undefined
+    /// T | null | undefined
     /// ```
     fn type_def() -> TsTypeDef {
-        // Todo
-        TsTypeDef::Type(format!("({} | undefined)", T::inline()))
+        TsTypeDef::Type(format!("({} | null | undefined)", T::inline()))
     }
 
     /// ```ts
     /// // zod schema
-    /// z.lazy(() => T).optional()
+    /// z.lazy(() => T).nullish()
     /// ```
     fn schema() -> String {
-        format!("{}.optional()", T::inline_schema())
+        format!("{}.nullish()", T::inline_schema())
     }
 }
 
-- 
2.43.0


From dc4c8479822226062d6050a7c6196001de891e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:06 +0000
Subject: [PATCH 14/42] fix: Weak and PhantomData do not serialize as their
 parameter

---
 core/src/build_ins.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/build_ins.rs b/core/src/build_ins.rs
index f4af59f..52d228d 100644
--- a/core/src/build_ins.rs
+++ b/core/src/build_ins.rs
@@ -196,13 +196,13 @@ impl_wrapper!(impl<T: ZodType + ToOwned> ZodType for std::borrow::Cow<'static, T
 impl_wrapper!(impl<T: ZodType> ZodType for std::cell::Cell<T>);
 impl_wrapper!(impl<T: ZodType> ZodType for std::cell::RefCell<T>);
 impl_wrapper!(impl<T: ZodType> ZodType for std::sync::Mutex<T>);
-impl_wrapper!(impl<T: ZodType> ZodType for std::sync::Weak<T>);
-impl_wrapper!(impl<T: ZodType> ZodType for std::marker::PhantomData<T>);
 
 impl_shadow!("HashSet", "HashSet&lt;T,+RandomState&gt;", std::collections::HashSet<T>; impl<T: ZodType> ZodType for std::collections::BTreeSet<T>);
 impl_shadow!("HashMap", "HashMap&lt;K,+V,+RandomState&gt;", std::collections::HashMap<K, V>; impl<K: ZodType, V: ZodType> ZodType for std::collections::BTreeMap<K, V>);
 
 impl_shadow!("Vec", "Vec&lt;T&gt;", Vec<T>; impl<T: ZodType, const N: usize> ZodType for [T; N]);
+impl_shadow!("Option", "Option&lt;T&gt;", Option<T>; impl<T: ZodType> ZodType for std::sync::Weak<T>);
+impl_shadow!("()", "()", (); impl<T: ZodType> ZodType for std::marker::PhantomData<T>);
 
 impl<T: ZodType> ZodType for Vec<T> {
     /// ```ts
-- 
2.43.0


From 57005f0e83b41d3d489a76eb76fff84b4dc386a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:06 +0000
Subject: [PATCH 15/42] fix: arrays have a fixed length

---
 core/src/build_ins.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/core/src/build_ins.rs b/core/src/build_ins.rs
index 52d228d..0f1ba63 100644
--- a/core/src/build_ins.rs
+++ b/core/src/build_ins.rs
@@ -200,7 +200,6 @@ impl_wrapper!(impl<T: ZodType> ZodType for std::sync::Mutex<T>);
 impl_shadow!("HashSet", "HashSet&lt;T,+RandomState&gt;", std::collections::HashSet<T>; impl<T: ZodType> ZodType for std::collections::BTreeSet<T>);
 impl_shadow!("HashMap", "HashMap&lt;K,+V,+RandomState&gt;", std::collections::HashMap<K, V>; impl<K: ZodType, V: ZodType> ZodType for std::collections::BTreeMap<K, V>);
 
-impl_shadow!("Vec", "Vec&lt;T&gt;", Vec<T>; impl<T: ZodType, const N: usize> ZodType for [T; N]);
 impl_shadow!("Option", "Option&lt;T&gt;", Option<T>; impl<T: ZodType> ZodType for std::sync::Weak<T>);
 impl_shadow!("()", "()", (); impl<T: ZodType> ZodType for std::marker::PhantomData<T>);
 
@@ -222,6 +221,24 @@ impl<T: ZodType> ZodType for Vec<T> {
     }
 }
 
+impl<T: ZodType, const N: usize> ZodType for [T; N] {
+    /// ```ts
+    /// // TS-type
+    /// Array<T>
+    /// ```
+    fn type_def() -> TsTypeDef {
+        <Vec<T>>::type_def()
+    }
+
+    /// ```ts
+    /// // zod schema
+    /// z.array(z.lazy(() => T)).length(N)
+    /// ```
+    fn schema() -> String {
+        format!("{}.length({})", <Vec<T>>::schema(), N)
+    }
+}
+
 impl<T: ZodType> ZodType for std::collections::HashSet<T> {
     /// ```ts
     /// // TS-type
-- 
2.43.0


From 17048d2bb790b55fce154edf31b58256cdb8f93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:33 +0000
Subject: [PATCH 16/42] fix: send maps and sets in the form serde expects

---
 src/rpc/clients/static/websocket_client.ts | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/rpc/clients/static/websocket_client.ts b/src/rpc/clients/static/websocket_client.ts
index 453c28e..d182368 100644
--- a/src/rpc/clients/static/websocket_client.ts
+++ b/src/rpc/clients/static/websocket_client.ts
@@ -140,7 +140,16 @@ function execute({
   method: string;
   args: any[];
 }): string {
-  return JSON.stringify({ exec: { id: req_id, method, namespace, args } });
+  return JSON.stringify(
+    { exec: { id: req_id, method, namespace, args } },
+    // serde expects objects and arrays
+    (_, value) =>
+      value instanceof Map
+        ? Object.fromEntries(value)
+        : value instanceof Set
+        ? [...value]
+        : value
+  );
 }
 
 export function subscribe<T>(
-- 
2.43.0


From b326703024950b79d6e375a937a469bed4d0ab18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:25 +0000
Subject: [PATCH 17/42] fix: IP addresses have no zone, Rust refuses to parse
 one

---
 core/src/build_ins.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/core/src/build_ins.rs b/core/src/build_ins.rs
index 0f1ba63..1715371 100644
--- a/core/src/build_ins.rs
+++ b/core/src/build_ins.rs
@@ -331,10 +331,14 @@ impl_primitive!(
 impl_primitive!(
     "string",
     std::net::Ipv6Addr,
-    "z.string().ip({ version: \"v6\" })"
+    "z.string().ip({ version: \"v6\" }).regex(/^[^%]*$/)"
 );
 
-impl_primitive!("string", std::net::IpAddr, "z.string().ip()");
+impl_primitive!(
+    "string",
+    std::net::IpAddr,
+    "z.string().ip().regex(/^[^%]*$/)"
+);
 
 #[cfg(feature = "smol_str")]
 impl_primitive!("string", smol_str::SmolStr, "z.string()");
-- 
2.43.0


From 9d8007c283750b3e194cad3c5bcdfc2941b4b4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:19 +0000
Subject: [PATCH 18/42] fix: requests without arguments, to a renamed namespace
 or with integer keys were refused

---
 core/src/rpc/mod.rs            | 17 ++++++++++++++
 derive/src/rpc/args.rs         |  5 +++++
 derive/src/rpc/backend_impl.rs | 39 +++++++++++++++++++++++++++++---
 derive/src/rpc/impl_rpc.rs     | 41 +++++++++++++++++++++++++++++++---
 4 files changed, 96 insertions(+), 6 deletions(-)

diff --git a/core/src/rpc/mod.rs b/core/src/rpc/mod.rs
index 7310a53..86129dc 100644
--- a/core/src/rpc/mod.rs
+++ b/core/src/rpc/mod.rs
@@ -19,6 +19,23 @@ pub enum Request {
     },
 }
 
+/// The method and the arguments of a [Request::Exec]. The arguments are always an array.
+#[derive(serde::Deserialize, Debug)]
+pub struct MethodCall {
+    pub method: String,
+    pub args: Vec<serde_json::Value>,
+}
+
+impl MethodCall {
+    pub fn args<T, E>(self) -> Result<T, E>
+    where
+        T: serde::de::DeserializeOwned,
+        E: serde::de::Error,
+    {
+        serde_json::from_value(self.args.into()).map_err(E::custom)
+    }
+}
+
 #[derive(serde::Serialize, Debug)]
 #[serde(rename_all = "camelCase")]
 pub enum Response {
diff --git a/derive/src/rpc/args.rs b/derive/src/rpc/args.rs
index 7226b12..749ccb5 100644
--- a/derive/src/rpc/args.rs
+++ b/derive/src/rpc/args.rs
@@ -56,6 +56,11 @@ pub struct RpcArg {
 }
 
 impl RpcItem {
+    /// The name of the method on the client
+    pub fn name(&self) -> String {
+        self.ident.to_string()
+    }
+
     pub fn from_ast(ast: ImplItemMethod) -> Self {
         let sig = ast.sig;
         let ident = sig.ident;
diff --git a/derive/src/rpc/backend_impl.rs b/derive/src/rpc/backend_impl.rs
index 2922009..84ab9c1 100644
--- a/derive/src/rpc/backend_impl.rs
+++ b/derive/src/rpc/backend_impl.rs
@@ -79,18 +79,51 @@ fn expand_backend_impl(
 
 pub fn expand_req_enum(ident: &Ident, fields: &Fields<BackendField>) -> TokenStream {
     let __private = get_private();
+    let zod = get_zod();
     let req_variants = fields.iter().map(|f| {
         let ty = &f.ty;
         let variant_ident = variant_ident_from_ty(ty);
         quote_spanned!(ty.span() => #variant_ident(<#ty as #__private::codegen::RpcNamespace>::Req))
     });
-    quote! {
 
-        #[derive(#__private::serde::Deserialize, Debug)]
-        #[serde(tag = "namespace")]
+    let req_namespaces = fields.iter().map(|f| {
+        let ty = &f.ty;
+        let variant_ident = variant_ident_from_ty(ty);
+        quote_spanned! { ty.span() =>
+            if namespace == <#ty as #zod::Namespace>::NAME {
+                return #__private::serde_json::from_value(value.into())
+                    .map(Self::#variant_ident)
+                    .map_err(<D::Error as #__private::serde::de::Error>::custom);
+            }
+        }
+    });
+
+    quote! {
+        #[derive(Debug)]
         enum #ident {
             #(#req_variants),*
         }
+
+        impl<'de> #__private::serde::Deserialize<'de> for #ident {
+            fn deserialize<D>(deserializer: D) -> ::std::result::Result<Self, D::Error>
+            where
+                D: #__private::serde::Deserializer<'de>,
+            {
+                use #__private::serde::de::Error;
+
+                let mut value = <#__private::serde_json::Map<_, _> as #__private::serde::Deserialize>::deserialize(deserializer)?;
+
+                let namespace = value
+                    .remove("namespace")
+                    .ok_or_else(|| D::Error::missing_field("namespace"))?;
+
+                #(#req_namespaces)*
+
+                ::std::result::Result::Err(D::Error::custom(
+                    ::std::format_args!("unknown namespace `{}`", namespace),
+                ))
+            }
+        }
     }
 }
 
diff --git a/derive/src/rpc/impl_rpc.rs b/derive/src/rpc/impl_rpc.rs
index c280c72..1ca977a 100644
--- a/derive/src/rpc/impl_rpc.rs
+++ b/derive/src/rpc/impl_rpc.rs
@@ -15,6 +15,7 @@ pub fn expand(input: RpcInput) -> TokenStream {
 
     let req_variant_defs = input.items.iter().map(expand_req_variant_decl);
     let req_variant_impls = input.items.iter().map(expand_req_variant_impl);
+    let req_deserialize = expand_req_deserialize(&req_ident, &input.items);
 
     let inventory_submits = input
         .items
@@ -28,8 +29,7 @@ pub fn expand(input: RpcInput) -> TokenStream {
                 type Req = #req_ident;
             }
 
-            #[derive(#__private::serde::Deserialize, Debug)]
-            #[serde(tag = "method")]
+            #[derive(Debug)]
             #[allow(non_camel_case_types)]
             #[allow(non_snake_case)]
             #[allow(non_upper_case_globals)]
@@ -37,6 +37,8 @@ pub fn expand(input: RpcInput) -> TokenStream {
                 #(#req_variant_defs),*
             }
 
+            #req_deserialize
+
             impl #req_ident {
                 #[allow(dead_code)]
                 #[allow(unused_variables)]
@@ -61,7 +63,7 @@ pub fn expand(input: RpcInput) -> TokenStream {
 pub fn expand_inventory_submit(ns_ident: &Ident, item: &args::RpcItem) -> TokenStream {
     let __private = get_private();
     let zod = get_zod();
-    let name = item.ident.to_string();
+    let name = item.name();
 
     let args = item
         .arg_types
@@ -135,6 +137,39 @@ pub fn expand_req_variant_decl(item: &args::RpcItem) -> TokenStream {
     }
 }
 
+fn expand_req_deserialize(req_ident: &Ident, items: &[args::RpcItem]) -> TokenStream {
+    let __private = get_private();
+    let names = items.iter().map(args::RpcItem::name).collect::<Vec<_>>();
+
+    let variants = items.iter().zip(&names).map(|(item, name)| {
+        let ident = &item.ident;
+        if item.arg_types.is_empty() {
+            // the unit type is not an (empty) array
+            quote!(#name => call.args::<[(); 0], D::Error>().map(|_| Self::#ident { args: () }))
+        } else {
+            quote!(#name => call.args().map(|args| Self::#ident { args }))
+        }
+    });
+
+    quote! {
+        impl<'de> #__private::serde::Deserialize<'de> for #req_ident {
+            fn deserialize<D>(deserializer: D) -> ::std::result::Result<Self, D::Error>
+            where
+                D: #__private::serde::Deserializer<'de>,
+            {
+                let call = <#__private::MethodCall as #__private::serde::Deserialize>::deserialize(deserializer)?;
+
+                match call.method.as_str() {
+                    #(#variants,)*
+                    name => ::std::result::Result::Err(
+                        <D::Error as #__private::serde::de::Error>::unknown_variant(name, &[#(#names),*]),
+                    ),
+                }
+            }
+        }
+    }
+}
+
 pub fn expand_req_variant_impl(input: &args::RpcItem) -> TokenStream {
     let __private = get_private();
     let ident = &input.ident;
-- 
2.43.0


From 4258df8448da68a44ac8e74ad5085c1c35b8fd19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:20 +0000
Subject: [PATCH 19/42] fix: raw identifiers are sent by their plain name

---
 derive/src/rpc/args.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/derive/src/rpc/args.rs b/derive/src/rpc/args.rs
index 749ccb5..42b07d0 100644
--- a/derive/src/rpc/args.rs
+++ b/derive/src/rpc/args.rs
@@ -1,7 +1,7 @@
 use darling::{ast::Data, FromDeriveInput, FromField};
 use proc_macro_error::{abort, abort_call_site};
 use quote::format_ident;
-use syn::{parse_quote, Ident, ImplItem, ImplItemMethod, ItemImpl, Type};
+use syn::{ext::IdentExt, parse_quote, Ident, ImplItem, ImplItemMethod, ItemImpl, Type};
 
 #[derive(FromDeriveInput)]
 pub struct BackendInput {
@@ -58,7 +58,7 @@ pub struct RpcArg {
 impl RpcItem {
     /// The name of the method on the client
     pub fn name(&self) -> String {
-        self.ident.to_string()
+        self.ident.unraw().to_string()
     }
 
     pub fn from_ast(ast: ImplItemMethod) -> Self {
@@ -126,7 +126,7 @@ impl RpcItem {
                 syn::FnArg::Typed(t) => Some(RpcArg {
                     ty: t.ty.clone(),
                     name: match t.pat.as_ref() {
-                        syn::Pat::Ident(ident) => ident.ident.to_string(),
+                        syn::Pat::Ident(ident) => ident.ident.unraw().to_string(),
                         _ => abort_call_site!("Expected an ident, got {:?}", t.pat),
                     },
                 }),
-- 
2.43.0


From 3731cec9ea15704a1263787bfc4dd6a4ac10dbb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:13 +0000
Subject: [PATCH 20/42] fix: a flattened Result is one operand of the
 intersection

---
 core/src/build_ins.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/build_ins.rs b/core/src/build_ins.rs
index 1715371..e21ac96 100644
--- a/core/src/build_ins.rs
+++ b/core/src/build_ins.rs
@@ -296,11 +296,11 @@ impl<T: ZodType> ZodType for Option<T> {
 impl<T: ZodType, E: ZodType> ZodType for Result<T, E> {
     /// ```ts
     /// // TS-type
-    /// { Ok: T } | { Err: E }
+    /// ({ Ok: T } | { Err: E })
     /// ```
     fn type_def() -> TsTypeDef {
         TsTypeDef::Type(format!(
-            "{{ Ok: {} }} | {{ Err: {} }}",
+            "({{ Ok: {} }} | {{ Err: {} }})",
             T::inline(),
             E::inline()
         ))
-- 
2.43.0


From d5dca39718f2328b4341c12923ed7645024719b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:37 +0000
Subject: [PATCH 21/42] fix: a client that is gone before its method returned
 stopped the backend

---
 derive/src/rpc/impl_rpc.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/derive/src/rpc/impl_rpc.rs b/derive/src/rpc/impl_rpc.rs
index 1ca977a..63b969a 100644
--- a/derive/src/rpc/impl_rpc.rs
+++ b/derive/src/rpc/impl_rpc.rs
@@ -203,9 +203,8 @@ pub fn expand_req_variant_impl_method(
         ident.span() =>
         let res = ctx.#ident(#(#expanded_args),*).await;
 
-        sender
-            .unbounded_send(#__private::Response::method(id, res))
-            .unwrap();
+        // the client may be gone by now
+        let _ = sender.unbounded_send(#__private::Response::method(id, res));
         None
     }
 }
-- 
2.43.0


From 136de404ba1a1d5ded34c5ed9e39802c613f9752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:38 +0000
Subject: [PATCH 22/42] fix: a stream whose id is used again was never stopped

---
 derive/src/rpc/backend_impl.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/derive/src/rpc/backend_impl.rs b/derive/src/rpc/backend_impl.rs
index 84ab9c1..65dd6b2 100644
--- a/derive/src/rpc/backend_impl.rs
+++ b/derive/src/rpc/backend_impl.rs
@@ -56,7 +56,10 @@ fn expand_backend_impl(
                         match #__private::serde_json::from_value::<#req_ident>(value) {
                             ::std::result::Result::<_, _>::Ok(evt) => {
                                 if let Some(jh) = evt.call(id, self, sender).await {
-                                    subscribers.insert(id, jh);
+                                    // nothing could stop the previous stream of this id anymore
+                                    if let Some(previous) = subscribers.insert(id, jh) {
+                                        previous.abort();
+                                    }
                                 }
                             }
                             ::std::result::Result::<_, _>::Err(err) => {
-- 
2.43.0


From dceab0594d5e45ac3395c54ef6135a2829795582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:40 +0000
Subject: [PATCH 23/42] fix: a stream that is always ready blocked everything
 else

---
 derive/src/rpc/impl_rpc.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/derive/src/rpc/impl_rpc.rs b/derive/src/rpc/impl_rpc.rs
index 63b969a..fd68671 100644
--- a/derive/src/rpc/impl_rpc.rs
+++ b/derive/src/rpc/impl_rpc.rs
@@ -228,6 +228,9 @@ pub fn expand_req_variant_impl_stream(
                                 #__private::tracing::warn!(?err, "Failed to emit event");
                                 break;
                             }
+
+                            // a stream that is always ready must neither block the others nor evade its cancellation
+                            #__private::tokio::task::yield_now().await;
                         }
                 }
 
-- 
2.43.0


From d3564e07d3b9880d1a04577dd92d8998717cad23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:02 +0000
Subject: [PATCH 24/42] fix: connections shared their stream ids, and their
 streams outlived them

---
 src/rpc/servers/proxy.rs | 118 +++++++++++++++++++++++++++++++++------
 1 file changed, 100 insertions(+), 18 deletions(-)

diff --git a/src/rpc/servers/proxy.rs b/src/rpc/servers/proxy.rs
index 4f61970..db2d44b 100644
--- a/src/rpc/servers/proxy.rs
+++ b/src/rpc/servers/proxy.rs
@@ -1,13 +1,44 @@
+use std::{
+    collections::HashMap,
+    sync::{
+        atomic::{AtomicUsize, Ordering},
+        Arc,
+    },
+};
+
 use futures::{
-    channel::mpsc::{unbounded, UnboundedReceiver, UnboundedSender},
-    SinkExt, Stream, StreamExt,
+    channel::{
+        mpsc::{unbounded, UnboundedReceiver, UnboundedSender},
+        oneshot,
+    },
+    stream::FuturesUnordered,
+    FutureExt, Stream, StreamExt,
 };
 use pin_project_lite::pin_project;
-use zod_core::rpc::{server::Backend, Request, Response};
+use zod_core::rpc::{
+    server::{Backend, SubscriberMap},
+    Request, Response,
+};
+
+type ConnectionId = usize;
+
+#[derive(Debug)]
+enum Message {
+    Connect {
+        con: ConnectionId,
+        gone: oneshot::Receiver<()>,
+    },
+    Request {
+        con: ConnectionId,
+        req: Result<Request, Response>,
+        res: UnboundedSender<Response>,
+    },
+}
 
 #[derive(Clone, Debug)]
 pub struct BackendProxy {
-    tx: UnboundedSender<(Result<Request, Response>, UnboundedSender<Response>)>,
+    tx: UnboundedSender<Message>,
+    next_con: Arc<AtomicUsize>,
 }
 
 impl BackendProxy {
@@ -16,55 +47,103 @@ impl BackendProxy {
         T: Backend + Send + 'static,
     {
         let (tx, mut rx) = unbounded();
-        let mut subscribers = Default::default();
 
         tokio::spawn(async move {
-            while let Some((result, mut res)) = rx.next().await {
-                match result {
-                    Ok(req) => backend.handle_request(req, res, &mut subscribers).await,
-                    Err(err) => {
-                        if let Err(err) = res.send(err).await {
-                            tracing::warn!(?err);
-                        }
+            // stream ids are unique within a connection only
+            let mut subscribers = HashMap::<ConnectionId, SubscriberMap>::new();
+            let mut gone = FuturesUnordered::new();
+
+            loop {
+                let message = futures::select_biased! {
+                    con = gone.select_next_some() => {
+                        subscribers.remove(&con);
+                        continue;
                     }
+                    message = rx.next() => message,
+                };
+
+                match message {
+                    Some(Message::Connect { con, gone: rx }) => gone.push(rx.map(move |_| con)),
+                    Some(Message::Request { con, req, res }) => match req {
+                        Ok(req) => {
+                            let subscribers_of_con = subscribers.entry(con).or_default();
+                            backend
+                                .handle_request(req, res.clone(), subscribers_of_con)
+                                .await;
+
+                            if res.is_closed() {
+                                subscribers.remove(&con);
+                            }
+                        }
+                        Err(err) => {
+                            if let Err(err) = res.unbounded_send(err) {
+                                tracing::warn!(?err);
+                            }
+                        }
+                    },
+                    None => break,
                 }
             }
         });
 
-        Self { tx }
+        Self {
+            tx,
+            next_con: Default::default(),
+        }
     }
     pub fn connect(&self) -> ProxyConnection {
+        let con = self.next_con.fetch_add(1, Ordering::Relaxed);
         let (res_tx, res_rx) = unbounded();
+        let (guard, gone) = oneshot::channel();
+
+        // if this fails there is no backend anymore, the first request will tell
+        let _ = self.tx.unbounded_send(Message::Connect { con, gone });
+
         ProxyConnection {
+            con,
             tx: self.tx.clone(),
             res_tx,
             res_rx,
+            guard,
         }
     }
 }
 
 pub struct ProxyConnection {
-    tx: UnboundedSender<(Result<Request, Response>, UnboundedSender<Response>)>,
+    con: ConnectionId,
+    tx: UnboundedSender<Message>,
     res_tx: UnboundedSender<Response>,
     res_rx: UnboundedReceiver<Response>,
+    guard: oneshot::Sender<()>,
 }
 
 impl ProxyConnection {
     pub fn split(self) -> (ProxyTx, ProxyRx) {
-        let ProxyConnection { tx, res_tx, res_rx } = self;
-        (ProxyTx { tx, res_tx }, ProxyRx { res_rx })
+        let ProxyConnection {
+            con,
+            tx,
+            res_tx,
+            res_rx,
+            guard,
+        } = self;
+        (ProxyTx { con, tx, res_tx }, ProxyRx { res_rx, guard })
     }
 }
 
 pub struct ProxyTx {
-    tx: UnboundedSender<(Result<Request, Response>, UnboundedSender<Response>)>,
+    con: ConnectionId,
+    tx: UnboundedSender<Message>,
     res_tx: UnboundedSender<Response>,
 }
 
 impl ProxyTx {
     pub fn send(&self, req: Result<Request, Response>) -> Result<(), ClientError> {
         self.tx
-            .unbounded_send((req, self.res_tx.clone()))
+            .unbounded_send(Message::Request {
+                con: self.con,
+                req,
+                res: self.res_tx.clone(),
+            })
             .map_err(|_| ClientError::Disconnected)
     }
 }
@@ -73,6 +152,9 @@ pin_project! {
     pub struct ProxyRx {
         #[pin]
         res_rx: UnboundedReceiver<Response>,
+        // Dropped after `res_rx`: by the time the backend learns that the connection is gone, it
+        // can see that the channel is closed.
+        guard: oneshot::Sender<()>,
     }
 }
 
-- 
2.43.0


From a3bfa34358068eeee9c8e4e8fe26229ca20b81c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:53 +0000
Subject: [PATCH 25/42] fix: errors never reached the caller of a request

---
 src/rpc/clients/static/websocket_client.ts | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/rpc/clients/static/websocket_client.ts b/src/rpc/clients/static/websocket_client.ts
index d182368..d837be3 100644
--- a/src/rpc/clients/static/websocket_client.ts
+++ b/src/rpc/clients/static/websocket_client.ts
@@ -11,7 +11,9 @@ function websocketStore(url: string) {
   let reopenTimeoutHandler: any;
   let reopenCount = 0;
 
-  const subscriptions = new Set<([id, data]: [number, unknown]) => void>();
+  const subscriptions = new Set<
+    ([id, data, error]: [number, unknown, unknown?]) => void
+  >();
 
   function reopenTimeout() {
     const n = reopenCount;
@@ -68,6 +70,10 @@ function websocketStore(url: string) {
         subscriptions.forEach((subscription) =>
           subscription(initialValue as any)
         );
+      } else if ("error" in res) {
+        subscriptions.forEach((subscription) =>
+          subscription([res.error.id, undefined, res.error.data])
+        );
       }
     };
 
@@ -109,7 +115,7 @@ function websocketStore(url: string) {
     send(value: string) {
       open_and_send(value);
     },
-    subscribe(subscription: (value: [number, unknown]) => void) {
+    subscribe(subscription: (value: [number, unknown, unknown?]) => void) {
       subscriptions.add(subscription);
       return () => {
         subscriptions.delete(subscription);
@@ -163,8 +169,8 @@ export function subscribe<T>(
 
   let store = {
     subscribe(cb: (value: T) => void) {
-      return CONNECTION.subscribe(([res_id, data]) => {
-        if (res_id == id) {
+      return CONNECTION.subscribe(([res_id, data, error]) => {
+        if (res_id == id && error === undefined) {
           cb(data as T);
         }
       });
@@ -183,14 +189,16 @@ export async function request<T>(
   args: IArguments
 ): Promise<T> {
   let unsubscribe: () => void | undefined;
-  let promise = new Promise((resolve: (_: T) => void, _) => {
+  let promise = new Promise((resolve: (_: T) => void, reject) => {
     req_id += 1;
     let id = req_id;
     let request = { req_id, namespace, method, args: [...args] };
     let start = performance.now();
 
-    unsubscribe = CONNECTION.subscribe(([res_id, data]: [number, any]) => {
-      if (res_id == id) {
+    unsubscribe = CONNECTION.subscribe(([res_id, data, error]: [number, any, any?]) => {
+      if (res_id == id && error !== undefined) {
+        reject(error);
+      } else if (res_id == id) {
         console.log("Exec Response", {
           req_id,
           request,
-- 
2.43.0


From e7387d14bb2031c10cbb11fcd8d3b8011caa41a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:53 +0000
Subject: [PATCH 26/42] fix: late events of an old connection closed the new
 one

---
 src/rpc/clients/static/websocket_client.ts | 28 ++++++++++++++++++----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/src/rpc/clients/static/websocket_client.ts b/src/rpc/clients/static/websocket_client.ts
index d837be3..b05bd35 100644
--- a/src/rpc/clients/static/websocket_client.ts
+++ b/src/rpc/clients/static/websocket_client.ts
@@ -26,11 +26,14 @@ function websocketStore(url: string) {
   function close() {
     if (reopenTimeoutHandler) {
       clearTimeout(reopenTimeoutHandler);
+      reopenTimeoutHandler = undefined;
     }
 
     if (socket) {
-      socket.close();
+      const current = socket;
       socket = undefined;
+      openPromise = undefined;
+      current.close();
     }
   }
 
@@ -53,9 +56,14 @@ function websocketStore(url: string) {
     }
 
     console.debug("creating a new socket");
-    socket = new WebSocket(url);
+    const current = new WebSocket(url);
+    socket = current;
 
     socket.onmessage = (event) => {
+      if (socket !== current) {
+        return;
+      }
+
       const res = JSON.parse(event.data);
       console.trace({ response: res });
 
@@ -78,6 +86,11 @@ function websocketStore(url: string) {
     };
 
     socket.onclose = (event: Event) => {
+      // a connection we have given up already
+      if (socket !== current) {
+        return;
+      }
+
       if (subscriptions.size > 0) {
         console.warn(event);
       }
@@ -92,9 +105,15 @@ function websocketStore(url: string) {
 
       socket.onerror = (error) => {
         reject(error);
-        openPromise = undefined;
+        if (socket === current) {
+          openPromise = undefined;
+        }
       };
       socket.onopen = (_: Event) => {
+        if (socket !== current) {
+          return;
+        }
+
         reopenCount = 0;
         resolve(undefined);
         openPromise = undefined;
@@ -118,8 +137,7 @@ function websocketStore(url: string) {
     subscribe(subscription: (value: [number, unknown, unknown?]) => void) {
       subscriptions.add(subscription);
       return () => {
-        subscriptions.delete(subscription);
-        if (subscriptions.size === 0) {
+        if (subscriptions.delete(subscription) && subscriptions.size === 0) {
           close();
         }
       };
-- 
2.43.0


From b787f5f4d004cdec40d804ab570cb10ee198916f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:53 +0000
Subject: [PATCH 27/42] fix: requests made without a connection were lost

---
 src/rpc/clients/static/websocket_client.ts | 71 +++++++++++++---------
 1 file changed, 41 insertions(+), 30 deletions(-)

diff --git a/src/rpc/clients/static/websocket_client.ts b/src/rpc/clients/static/websocket_client.ts
index b05bd35..ea6a75f 100644
--- a/src/rpc/clients/static/websocket_client.ts
+++ b/src/rpc/clients/static/websocket_client.ts
@@ -7,10 +7,15 @@ const reopenTimeouts = [100, 200, 1000, 3000];
 function websocketStore(url: string) {
   let initialValue: unknown = undefined;
   let socket: WebSocket | undefined;
-  let openPromise: Promise<undefined> | undefined;
   let reopenTimeoutHandler: any;
   let reopenCount = 0;
 
+  // requests waiting for a connection
+  const unsent: string[] = [];
+
+  // true if the last subscriber left and nothing has been asked for since
+  let abandoned = false;
+
   const subscriptions = new Set<
     ([id, data, error]: [number, unknown, unknown?]) => void
   >();
@@ -32,27 +37,30 @@ function websocketStore(url: string) {
     if (socket) {
       const current = socket;
       socket = undefined;
-      openPromise = undefined;
       current.close();
     }
   }
 
   function reopen() {
     close();
-    if (subscriptions.size > 0) {
+    if (subscriptions.size > 0 || unsent.length > 0) {
       reopenTimeoutHandler = setTimeout(() => open(), reopenTimeout());
     }
   }
 
-  async function open(): Promise<undefined> {
+  function open() {
     if (reopenTimeoutHandler) {
       clearTimeout(reopenTimeoutHandler);
       reopenTimeoutHandler = undefined;
     }
 
     // we are still in the opening phase
-    if (openPromise) {
-      return openPromise;
+    if (
+      socket &&
+      (socket.readyState === WebSocket.CONNECTING ||
+        socket.readyState === WebSocket.OPEN)
+    ) {
+      return;
     }
 
     console.debug("creating a new socket");
@@ -97,36 +105,34 @@ function websocketStore(url: string) {
       reopen();
     };
 
-    openPromise = new Promise((resolve, reject) => {
-      if (!socket) {
-        openPromise = undefined;
+    socket.onopen = (_: Event) => {
+      if (socket !== current) {
         return;
       }
 
-      socket.onerror = (error) => {
-        reject(error);
-        if (socket === current) {
-          openPromise = undefined;
-        }
-      };
-      socket.onopen = (_: Event) => {
-        if (socket !== current) {
-          return;
-        }
+      reopenCount = 0;
+      flush();
 
-        reopenCount = 0;
-        resolve(undefined);
-        openPromise = undefined;
-      };
-    });
-    return openPromise;
+      if (abandoned) {
+        close();
+      }
+    };
+  }
+
+  function flush() {
+    while (socket && unsent.length > 0) {
+      socket.send(unsent.shift() as string);
+    }
   }
 
   const open_and_send = (value: string) => {
-    if (!socket || socket.readyState !== WebSocket.OPEN)
-      open().then(() => open_and_send(value));
-    else {
-      socket.send(value);
+    abandoned = false;
+    unsent.push(value);
+
+    if (!socket || socket.readyState !== WebSocket.OPEN) {
+      open();
+    } else {
+      flush();
     }
   };
 
@@ -135,10 +141,15 @@ function websocketStore(url: string) {
       open_and_send(value);
     },
     subscribe(subscription: (value: [number, unknown, unknown?]) => void) {
+      abandoned = false;
       subscriptions.add(subscription);
       return () => {
         if (subscriptions.delete(subscription) && subscriptions.size === 0) {
-          close();
+          if (unsent.length === 0) {
+            close();
+          } else {
+            abandoned = true;
+          }
         }
       };
     },
-- 
2.43.0


From 4cb60533a6d45f9731f6cde3bb150e3ac8966728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:31 +0000
Subject: [PATCH 28/42] fix: a doc comment could end the comment it is placed
 in

---
 derive/src/docs.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/derive/src/docs.rs b/derive/src/docs.rs
index 11c5002..6887a1f 100644
--- a/derive/src/docs.rs
+++ b/derive/src/docs.rs
@@ -42,7 +42,7 @@ impl ToTokens for RustDocs {
                 let docs = format!(
                     "/**\n{}*/\n",
                     docs.lines()
-                        .map(|line| format!("* {}\n", line))
+                        .map(|line| format!("* {}\n", line.replace("*/", "*\\/")))
                         .collect::<String>()
                 );
                 tokens.extend(quote!(#docs))
-- 
2.43.0


From 45b49a073c284befb61f6fd0b07beb423c283f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:31 +0000
Subject: [PATCH 29/42] fix: attributes of other macros were taken for
 malformed docs

---
 derive/src/docs.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/derive/src/docs.rs b/derive/src/docs.rs
index 6887a1f..61b7203 100644
--- a/derive/src/docs.rs
+++ b/derive/src/docs.rs
@@ -10,7 +10,7 @@ pub struct RustDocs {
 impl RustDocs {
     pub fn from_attrs(attrs: &[syn::Attribute]) -> Result<Self, syn::Error> {
         let mut full_docs = String::new();
-        for attr in attrs {
+        for attr in attrs.iter().filter(|attr| attr.path.is_ident("doc")) {
             match attr.parse_meta()? {
                 Meta::NameValue(nv) if nv.path.is_ident("doc") => {
                     if let Lit::Str(doc) = nv.lit {
-- 
2.43.0


From 6016cb7bb509f15357ade9fa82bb1ee5c9662ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:53 +0000
Subject: [PATCH 30/42] fix: names that cannot be declared in TypeScript broke
 the whole module

---
 derive/src/impl_enum/mod.rs  |   1 +
 derive/src/impl_namespace.rs |   7 ++-
 derive/src/impl_struct.rs    |   1 +
 derive/src/names.rs          | 109 +++++++++++++++++++++++++++++++++++
 derive/src/rpc/args.rs       |   2 +
 5 files changed, 117 insertions(+), 3 deletions(-)

diff --git a/derive/src/impl_enum/mod.rs b/derive/src/impl_enum/mod.rs
index 7ec063a..0421d40 100644
--- a/derive/src/impl_enum/mod.rs
+++ b/derive/src/impl_enum/mod.rs
@@ -69,6 +69,7 @@ impl<'a> Enum<'a> {
         let docs = &self.docs;
         let schema = self.expand_schema();
         let type_def = self.expand_typ_defs();
+        names::check_type(ident.span(), name);
         let type_register = expand_type_registration(ident, ns_path);
         let inventory = impl_inventory::expand(ident, ns_path, name);
 
diff --git a/derive/src/impl_namespace.rs b/derive/src/impl_namespace.rs
index 629d944..4cfcd89 100644
--- a/derive/src/impl_namespace.rs
+++ b/derive/src/impl_namespace.rs
@@ -1,13 +1,14 @@
-use crate::{args, format_ident_for_registration, get_zod};
+use crate::{args, format_ident_for_registration, get_zod, names};
 use quote::quote;
-use syn::parse_quote;
+use syn::{ext::IdentExt, parse_quote};
 
 pub fn expand(
     input: args::NamespaceInput,
     docs: crate::docs::RustDocs,
 ) -> proc_macro2::TokenStream {
     let ident = input.ident;
-    let name = input.name.unwrap_or_else(|| ident.to_string());
+    let name = input.name.unwrap_or_else(|| ident.unraw().to_string());
+    names::check_namespace(ident.span(), &name);
     let (impl_generics, ty_generics, where_clause) = input.generics.split_for_impl();
 
     let p = parse_quote!(#ident);
diff --git a/derive/src/impl_struct.rs b/derive/src/impl_struct.rs
index 664770b..6b8a73a 100644
--- a/derive/src/impl_struct.rs
+++ b/derive/src/impl_struct.rs
@@ -94,6 +94,7 @@ impl<'a> Struct<'a> {
         let name = &self.name;
         let docs = &self.docs;
 
+        names::check_type(ident.span(), name);
         let type_register = expand_type_registration(ident, ns_path);
         let inventory = impl_inventory::expand(ident, ns_path, name);
 
diff --git a/derive/src/names.rs b/derive/src/names.rs
index 480e4c6..e500af9 100644
--- a/derive/src/names.rs
+++ b/derive/src/names.rs
@@ -1,5 +1,8 @@
 //! Rust and serde names as parts of typescript code
 
+use proc_macro2::Span;
+use proc_macro_error::abort;
+
 /// The content of a double quoted string literal
 pub fn literal(name: &str) -> String {
     name.chars()
@@ -27,3 +30,109 @@ pub fn property(name: &str) -> String {
         format!("\"{}\"", literal(name))
     }
 }
+
+const RESERVED: &[&str] = &[
+    "await",
+    "break",
+    "case",
+    "catch",
+    "class",
+    "const",
+    "continue",
+    "debugger",
+    "default",
+    "delete",
+    "do",
+    "else",
+    "enum",
+    "export",
+    "extends",
+    "false",
+    "finally",
+    "for",
+    "function",
+    "if",
+    "implements",
+    "import",
+    "in",
+    "instanceof",
+    "interface",
+    "let",
+    "new",
+    "null",
+    "package",
+    "private",
+    "protected",
+    "public",
+    "return",
+    "static",
+    "super",
+    "switch",
+    "this",
+    "throw",
+    "true",
+    "try",
+    "typeof",
+    "var",
+    "void",
+    "while",
+    "with",
+    "yield",
+    // not reserved, but cannot be declared in a module
+    "arguments",
+    "eval",
+    // the library
+    "z",
+];
+
+const PREDEFINED_TYPES: &[&str] = &[
+    "any",
+    "bigint",
+    "boolean",
+    "never",
+    "number",
+    "object",
+    "string",
+    "symbol",
+    "undefined",
+    "unknown",
+];
+
+fn can_be_declared(name: &str) -> bool {
+    !name.starts_with(char::is_numeric)
+        && !name.is_empty()
+        && name
+            .chars()
+            .all(|c| c.is_alphanumeric() || matches!(c, '_' | '$'))
+        && !RESERVED.contains(&name)
+}
+
+pub fn check_type(span: Span, name: &str) {
+    if !can_be_declared(name) || PREDEFINED_TYPES.contains(&name) {
+        abort!(
+            span,
+            "zod: `{}` cannot be the name of a type on the client",
+            name
+        );
+    }
+}
+
+pub fn check_method(span: Span, name: &str) {
+    if !can_be_declared(name) {
+        abort!(
+            span,
+            "zod: `{}` cannot be the name of a method on the client",
+            name
+        );
+    }
+}
+
+pub fn check_namespace(span: Span, name: &str) {
+    if !name.split('.').all(can_be_declared) {
+        abort!(
+            span,
+            "zod: `{}` cannot be the name of a namespace on the client",
+            name
+        );
+    }
+}
diff --git a/derive/src/rpc/args.rs b/derive/src/rpc/args.rs
index 42b07d0..20de0b9 100644
--- a/derive/src/rpc/args.rs
+++ b/derive/src/rpc/args.rs
@@ -1,3 +1,4 @@
+use crate::names;
 use darling::{ast::Data, FromDeriveInput, FromField};
 use proc_macro_error::{abort, abort_call_site};
 use quote::format_ident;
@@ -64,6 +65,7 @@ impl RpcItem {
     pub fn from_ast(ast: ImplItemMethod) -> Self {
         let sig = ast.sig;
         let ident = sig.ident;
+        names::check_method(ident.span(), &ident.unraw().to_string());
         let is_async = sig.asyncness.is_some();
 
         let kind = if is_async {
-- 
2.43.0


From 176e495624e4a49a4378fad2d00ffe709b7a15ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:14 +0000
Subject: [PATCH 31/42] fix: two types with the same name on the client were
 accepted

---
 derive/src/impl_enum/mod.rs |  2 +-
 derive/src/impl_struct.rs   |  2 +-
 derive/src/lib.rs           | 10 ++++++++--
 3 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/derive/src/impl_enum/mod.rs b/derive/src/impl_enum/mod.rs
index 0421d40..455b1b7 100644
--- a/derive/src/impl_enum/mod.rs
+++ b/derive/src/impl_enum/mod.rs
@@ -70,7 +70,7 @@ impl<'a> Enum<'a> {
         let schema = self.expand_schema();
         let type_def = self.expand_typ_defs();
         names::check_type(ident.span(), name);
-        let type_register = expand_type_registration(ident, ns_path);
+        let type_register = expand_type_registration(ident, ns_path, name);
         let inventory = impl_inventory::expand(ident, ns_path, name);
 
         if let Some(t) = &self.from_ty {
diff --git a/derive/src/impl_struct.rs b/derive/src/impl_struct.rs
index 6b8a73a..608e37b 100644
--- a/derive/src/impl_struct.rs
+++ b/derive/src/impl_struct.rs
@@ -95,7 +95,7 @@ impl<'a> Struct<'a> {
         let docs = &self.docs;
 
         names::check_type(ident.span(), name);
-        let type_register = expand_type_registration(ident, ns_path);
+        let type_register = expand_type_registration(ident, ns_path, name);
         let inventory = impl_inventory::expand(ident, ns_path, name);
 
         let zod = get_zod();
diff --git a/derive/src/lib.rs b/derive/src/lib.rs
index 371e683..7e74088 100644
--- a/derive/src/lib.rs
+++ b/derive/src/lib.rs
@@ -177,14 +177,20 @@ fn format_ident_for_registration(p: &syn::Path) -> syn::Path {
 }
 
 /// Prevent duplicate interfaces
-fn expand_type_registration(ident: &Ident, ns_path: &Path) -> proc_macro2::TokenStream {
+fn expand_type_registration(
+    ident: &Ident,
+    ns_path: &Path,
+    name: &str,
+) -> proc_macro2::TokenStream {
     let register_path = format_ident_for_registration(ns_path);
+    let name = syn::parse_str::<Ident>(name)
+        .unwrap_or_else(|_| format_ident!("__{}", name.replace('$', "_")));
 
     quote_spanned! {ident.span() =>
         impl #register_path {
             #[allow(dead_code)]
             #[allow(non_upper_case_globals)]
-            const #ident: () = ();
+            const #name: () = ();
         }
     }
 }
-- 
2.43.0


From d30f9aa914658d797047a639c36a53e95fef704b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:42 +0000
Subject: [PATCH 32/42] fix: a backend could not have namespaces with the same
 ident, and could have two of the same name

---
 core/src/rpc/server.rs         | 25 +++++++++++++++++++++++++
 derive/src/rpc/backend_impl.rs | 22 +++++++++++++---------
 2 files changed, 38 insertions(+), 9 deletions(-)

diff --git a/core/src/rpc/server.rs b/core/src/rpc/server.rs
index fa4bed7..a7c6d15 100644
--- a/core/src/rpc/server.rs
+++ b/core/src/rpc/server.rs
@@ -158,3 +158,28 @@ pub trait Backend {
         subscribers: &mut SubscriberMap,
     );
 }
+
+/// The client and the dispatch of requests tell namespaces apart by name
+#[doc(hidden)]
+pub const fn assert_distinct(names: &[&str]) {
+    let mut i = 0;
+    while i < names.len() {
+        let mut j = i + 1;
+        while j < names.len() {
+            assert!(
+                !same(names[i].as_bytes(), names[j].as_bytes()),
+                "zod: a backend cannot have two namespaces of the same name"
+            );
+            j += 1;
+        }
+        i += 1;
+    }
+}
+
+const fn same(a: &[u8], b: &[u8]) -> bool {
+    let mut i = 0;
+    while i < a.len() && i < b.len() && a[i] == b[i] {
+        i += 1;
+    }
+    i == a.len() && i == b.len()
+}
diff --git a/derive/src/rpc/backend_impl.rs b/derive/src/rpc/backend_impl.rs
index 65dd6b2..891d0c4 100644
--- a/derive/src/rpc/backend_impl.rs
+++ b/derive/src/rpc/backend_impl.rs
@@ -1,6 +1,6 @@
 use darling::ast::Fields;
 use proc_macro2::TokenStream;
-use syn::{parse_quote, spanned::Spanned, Ident, Path};
+use syn::{spanned::Spanned, Ident};
 
 use crate::rpc::args::{BackendField, BackendInput};
 use crate::{get_private, get_zod};
@@ -41,6 +41,10 @@ fn expand_backend_impl(
 
     quote_spanned! {
         ident.span() =>
+        const _: () = #__private::server::assert_distinct(
+            <#ident as #__private::server::Backend>::NS_NAMES
+        );
+
         #[#__private::async_trait::async_trait]
         impl #__private::server::Backend for #ident {
             const NS_NAMES: &'static[&'static str] = &[#(#namespaces),*];
@@ -83,15 +87,15 @@ fn expand_backend_impl(
 pub fn expand_req_enum(ident: &Ident, fields: &Fields<BackendField>) -> TokenStream {
     let __private = get_private();
     let zod = get_zod();
-    let req_variants = fields.iter().map(|f| {
+    let req_variants = fields.iter().enumerate().map(|(index, f)| {
         let ty = &f.ty;
-        let variant_ident = variant_ident_from_ty(ty);
+        let variant_ident = variant_ident(index);
         quote_spanned!(ty.span() => #variant_ident(<#ty as #__private::codegen::RpcNamespace>::Req))
     });
 
-    let req_namespaces = fields.iter().map(|f| {
+    let req_namespaces = fields.iter().enumerate().map(|(index, f)| {
         let ty = &f.ty;
-        let variant_ident = variant_ident_from_ty(ty);
+        let variant_ident = variant_ident(index);
         quote_spanned! { ty.span() =>
             if namespace == <#ty as #zod::Namespace>::NAME {
                 return #__private::serde_json::from_value(value.into())
@@ -139,7 +143,7 @@ pub fn expand_req_enum_impl(
 
     let req_call_dispatch = fields.iter().enumerate().map(|(index, f)| {
         let ty = &f.ty;
-        let variant_ident = variant_ident_from_ty(ty);
+        let variant_ident = variant_ident(index);
         let field_or_index = f.ident.clone().map(|ident| quote!(#ident)).unwrap_or_else(|| {
             let index = syn::Index::from(index);
             quote!(#index)
@@ -165,7 +169,7 @@ pub fn expand_req_enum_impl(
     }
 }
 
-fn variant_ident_from_ty(ty: &syn::Type) -> Ident {
-    let p: Path = parse_quote!(#ty);
-    p.segments.last().expect("one segment").ident.clone()
+/// Namespaces of different modules may have the same ident
+fn variant_ident(index: usize) -> Ident {
+    format_ident!("Ns{}", index)
 }
-- 
2.43.0


From 6a8cfc5c4dc5c1f491cbf840607bb1e71634864f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:02 +0000
Subject: [PATCH 33/42] fix: names of methods and arguments hid what their
 functions refer to

---
 core/src/rpc/codegen/mod.rs | 92 ++++++++++++++++++++++++++++++++++---
 core/src/rpc/server.rs      |  3 ++
 2 files changed, 88 insertions(+), 7 deletions(-)

diff --git a/core/src/rpc/codegen/mod.rs b/core/src/rpc/codegen/mod.rs
index ec4b5da..8f07cf4 100644
--- a/core/src/rpc/codegen/mod.rs
+++ b/core/src/rpc/codegen/mod.rs
@@ -15,7 +15,7 @@ pub trait RpcNamespace: crate::Namespace {
 }
 
 pub struct RpcArgument {
-    name: &'static str,
+    name: String,
     type_def: String,
     schema: String,
 }
@@ -23,7 +23,7 @@ pub struct RpcArgument {
 impl RpcArgument {
     pub fn new<T: crate::ZodType>(name: &'static str) -> Self {
         Self {
-            name,
+            name: name.to_string(),
             type_def: T::inline().to_string(),
             schema: T::inline_schema(),
         }
@@ -48,7 +48,7 @@ pub enum RpcMember {
 inventory::collect!(RpcMember);
 
 fn create_phantom_arg_names(args: &[RpcArgument]) -> String {
-    let phantom_arg_names = args.iter().map(|arg| arg.name).collect::<Vec<_>>();
+    let phantom_arg_names = args.iter().map(|arg| arg.name.as_str()).collect::<Vec<_>>();
 
     if phantom_arg_names.is_empty() {
         String::new()
@@ -57,6 +57,84 @@ fn create_phantom_arg_names(args: &[RpcArgument]) -> String {
     }
 }
 
+/// Names no parameter of a typescript function can have
+const RESERVED: &[&str] = &[
+    "arguments",
+    "await",
+    "break",
+    "case",
+    "catch",
+    "class",
+    "const",
+    "continue",
+    "debugger",
+    "default",
+    "delete",
+    "do",
+    "else",
+    "enum",
+    "eval",
+    "export",
+    "extends",
+    "false",
+    "finally",
+    "for",
+    "function",
+    "if",
+    "implements",
+    "import",
+    "in",
+    "instanceof",
+    "interface",
+    "let",
+    "new",
+    "null",
+    "package",
+    "private",
+    "protected",
+    "public",
+    "return",
+    "static",
+    "super",
+    "switch",
+    "this",
+    "throw",
+    "true",
+    "try",
+    "typeof",
+    "var",
+    "void",
+    "while",
+    "with",
+    "yield",
+    "z",
+];
+
+fn refers_to(schema: &str, name: &str) -> bool {
+    schema
+        .match_indices(&format!("{name}."))
+        .any(|(at, _)| !schema[..at].ends_with(|c: char| c.is_alphanumeric() || c == '_'))
+}
+
+/// Rename arguments that are not valid on the client or hide what the schemas refer to
+fn client_args(mut args: Vec<RpcArgument>) -> Vec<RpcArgument> {
+    for i in 0..args.len() {
+        let mut name = args[i].name.clone();
+        let taken = |name: &str| {
+            RESERVED.contains(&name)
+                || args
+                    .iter()
+                    .enumerate()
+                    .any(|(j, arg)| (i != j && arg.name == name) || refers_to(&arg.schema, name))
+        };
+        while taken(&name) {
+            name.push('_');
+        }
+        args[i].name = name;
+    }
+    args
+}
+
 impl RpcMember {
     pub fn decl(&self) -> String {
         match self {
@@ -67,7 +145,7 @@ impl RpcMember {
                 ns_name,
                 ..
             } => {
-                let args = (args)();
+                let args = client_args((args)());
                 let res = (res)();
 
                 let arg_fields = args
@@ -91,7 +169,7 @@ impl RpcMember {
                     {phantom_arg_names}
 
                     z.tuple([{arg_zod}]).parse([...arguments]);
-                    return request(\"{ns_name}\", \"{name}\", arguments);
+                    return $request(\"{ns_name}\", \"{name}\", arguments);
                 }};"
                 )
             }
@@ -102,7 +180,7 @@ impl RpcMember {
                 ns_name,
                 ..
             } => {
-                let args = (args)();
+                let args = client_args((args)());
                 let res = (res)();
 
                 let arg_fields = args
@@ -126,7 +204,7 @@ impl RpcMember {
                     {phantom_arg_names}
 
                     z.tuple([{arg_zod}]).parse([...arguments]);
-                    return subscribe(\"{ns_name}\", \"{name}\", arguments);
+                    return $subscribe(\"{ns_name}\", \"{name}\", arguments);
                 }};"
                 )
             }
diff --git a/core/src/rpc/server.rs b/core/src/rpc/server.rs
index a7c6d15..7fb9b67 100644
--- a/core/src/rpc/server.rs
+++ b/core/src/rpc/server.rs
@@ -145,6 +145,9 @@ pub trait Backend {
 
         let mut code = T::get();
 
+        // members of namespaces can have the names of these
+        code.push_str("\nconst $request = request, $subscribe = subscribe;\n");
+
         for (ns, ns_code) in records.into_iter() {
             write!(code, "export namespace {} {{ {} }}", ns, ns_code).expect("write failed");
         }
-- 
2.43.0


From 24d3c7f2bbf1b6f623fc22ea49b7175fffb3f0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:42 +0000
Subject: [PATCH 34/42] fix: names of types that are reserved in Rust only, or
 have marks, were rejected

---
 derive/src/lib.rs   |  7 +++++--
 derive/src/names.rs | 11 ++++++++---
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/derive/src/lib.rs b/derive/src/lib.rs
index 7e74088..560d3c8 100644
--- a/derive/src/lib.rs
+++ b/derive/src/lib.rs
@@ -183,8 +183,11 @@ fn expand_type_registration(
     name: &str,
 ) -> proc_macro2::TokenStream {
     let register_path = format_ident_for_registration(ns_path);
-    let name = syn::parse_str::<Ident>(name)
-        .unwrap_or_else(|_| format_ident!("__{}", name.replace('$', "_")));
+    let name = match name {
+        "_" | "crate" | "self" | "Self" | "super" => format_ident!("__{}", name),
+        _ if name.contains('$') => format_ident!("__{}", name.replace('$', "\u{b7}")),
+        _ => Ident::new_raw(name, Span::call_site()),
+    };
 
     quote_spanned! {ident.span() =>
         impl #register_path {
diff --git a/derive/src/names.rs b/derive/src/names.rs
index e500af9..9443436 100644
--- a/derive/src/names.rs
+++ b/derive/src/names.rs
@@ -2,6 +2,7 @@
 
 use proc_macro2::Span;
 use proc_macro_error::abort;
+use syn::Ident;
 
 /// The content of a double quoted string literal
 pub fn literal(name: &str) -> String {
@@ -99,12 +100,16 @@ const PREDEFINED_TYPES: &[&str] = &[
 ];
 
 fn can_be_declared(name: &str) -> bool {
-    !name.starts_with(char::is_numeric)
-        && !name.is_empty()
+    !name.is_empty()
         && name
             .chars()
-            .all(|c| c.is_alphanumeric() || matches!(c, '_' | '$'))
+            .all(|c| c.is_ascii_alphanumeric() || matches!(c, '_' | '$') || !c.is_ascii())
         && !RESERVED.contains(&name)
+        && is_identifier(&format!("{}_", name.replace('$', "_")))
+}
+
+fn is_identifier(name: &str) -> bool {
+    matches!(syn::parse_str::<Ident>(name), Ok(ident) if ident == name)
 }
 
 pub fn check_type(span: Span, name: &str) {
-- 
2.43.0


From d9ce2cb954b30698a147209de0011d3f94b06f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:05 +0000
Subject: [PATCH 35/42] fix: the documentation of the first type of a namespace
 was attached to nothing

---
 core/src/rpc/server.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/rpc/server.rs b/core/src/rpc/server.rs
index 7fb9b67..7372cee 100644
--- a/core/src/rpc/server.rs
+++ b/core/src/rpc/server.rs
@@ -149,7 +149,7 @@ pub trait Backend {
         code.push_str("\nconst $request = request, $subscribe = subscribe;\n");
 
         for (ns, ns_code) in records.into_iter() {
-            write!(code, "export namespace {} {{ {} }}", ns, ns_code).expect("write failed");
+            write!(code, "export namespace {} {{\n{} }}", ns, ns_code).expect("write failed");
         }
         code
     }
-- 
2.43.0


From 02344c6c4c4dbb4824374cd00ed3eb4c3560d063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:11 +0000
Subject: [PATCH 36/42] fix: types with names like __crate or a$ were mistaken
 for others, and types named as were accepted

---
 derive/src/lib.rs   | 7 ++++++-
 derive/src/names.rs | 2 ++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/derive/src/lib.rs b/derive/src/lib.rs
index 560d3c8..fccd8ae 100644
--- a/derive/src/lib.rs
+++ b/derive/src/lib.rs
@@ -183,9 +183,14 @@ fn expand_type_registration(
     name: &str,
 ) -> proc_macro2::TokenStream {
     let register_path = format_ident_for_registration(ns_path);
+    // names with a prefix must not be mistaken for each other, nor for those without one
     let name = match name {
         "_" | "crate" | "self" | "Self" | "super" => format_ident!("__{}", name),
-        _ if name.contains('$') => format_ident!("__{}", name.replace('$', "\u{b7}")),
+        _ if name.contains('$') || name.starts_with("__") => format_ident!(
+            "__{}",
+            name.replace('\u{b7}', "\u{b7}\u{b7}")
+                .replace('$', "\u{b7}_")
+        ),
         _ => Ident::new_raw(name, Span::call_site()),
     };
 
diff --git a/derive/src/names.rs b/derive/src/names.rs
index 9443436..8c37766 100644
--- a/derive/src/names.rs
+++ b/derive/src/names.rs
@@ -88,6 +88,8 @@ const RESERVED: &[&str] = &[
 
 const PREDEFINED_TYPES: &[&str] = &[
     "any",
+    // `export type as` is a syntax error
+    "as",
     "bigint",
     "boolean",
     "never",
-- 
2.43.0


From 9d0bd090660ffdc1c2ef2746441986d4125ea8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:33 +0000
Subject: [PATCH 37/42] fix: types of arguments and results that mention Self
 did not compile

---
 derive/src/rpc/args.rs | 37 +++++++++++++++++++++++++++++++------
 1 file changed, 31 insertions(+), 6 deletions(-)

diff --git a/derive/src/rpc/args.rs b/derive/src/rpc/args.rs
index 20de0b9..98e3e2c 100644
--- a/derive/src/rpc/args.rs
+++ b/derive/src/rpc/args.rs
@@ -1,7 +1,8 @@
 use crate::names;
 use darling::{ast::Data, FromDeriveInput, FromField};
+use proc_macro2::{Group, TokenStream, TokenTree};
 use proc_macro_error::{abort, abort_call_site};
-use quote::format_ident;
+use quote::{format_ident, ToTokens};
 use syn::{ext::IdentExt, parse_quote, Ident, ImplItem, ImplItemMethod, ItemImpl, Type};
 
 #[derive(FromDeriveInput)]
@@ -26,7 +27,6 @@ impl RpcInput {
         let self_ty = ast.self_ty;
         let ident: Ident = parse_quote!(#self_ty);
         Self {
-            ident,
             items: ast
                 .items
                 .into_iter()
@@ -34,8 +34,9 @@ impl RpcInput {
                     ImplItem::Method(method) => Some(method),
                     _ => None,
                 })
-                .map(RpcItem::from_ast)
+                .map(|method| RpcItem::from_ast(method, &ident))
                 .collect(),
+            ident,
         }
     }
 
@@ -62,7 +63,7 @@ impl RpcItem {
         self.ident.unraw().to_string()
     }
 
-    pub fn from_ast(ast: ImplItemMethod) -> Self {
+    pub fn from_ast(ast: ImplItemMethod, ns_ident: &Ident) -> Self {
         let sig = ast.sig;
         let ident = sig.ident;
         names::check_method(ident.span(), &ident.unraw().to_string());
@@ -85,7 +86,9 @@ impl RpcItem {
                 )
             }
             (RpcItemKind::Method, syn::ReturnType::Type(_, t))
-            | (RpcItemKind::Stream, syn::ReturnType::Type(_, t)) => t,
+            | (RpcItemKind::Stream, syn::ReturnType::Type(_, t)) => {
+                without_self(&t, ns_ident)
+            }
         };
 
         if let Some(receiver) = sig.inputs.iter().find_map(|arg| match arg {
@@ -126,7 +129,7 @@ impl RpcItem {
             .filter_map(|arg| match arg {
                 syn::FnArg::Receiver(_) => None,
                 syn::FnArg::Typed(t) => Some(RpcArg {
-                    ty: t.ty.clone(),
+                    ty: without_self(&t.ty, ns_ident),
                     name: match t.pat.as_ref() {
                         syn::Pat::Ident(ident) => ident.ident.unraw().to_string(),
                         _ => abort_call_site!("Expected an ident, got {:?}", t.pat),
@@ -144,6 +147,28 @@ impl RpcItem {
     }
 }
 
+/// The types are repeated where `Self` is not the namespace
+fn without_self(ty: &Type, ns_ident: &Ident) -> Box<Type> {
+    fn replace(tokens: TokenStream, ns_ident: &Ident) -> TokenStream {
+        tokens
+            .into_iter()
+            .map(|token| match token {
+                TokenTree::Ident(ident) if ident == "Self" => ns_ident.clone().into(),
+                TokenTree::Group(group) => {
+                    let mut inner =
+                        Group::new(group.delimiter(), replace(group.stream(), ns_ident));
+                    inner.set_span(group.span());
+                    inner.into()
+                }
+                token => token,
+            })
+            .collect()
+    }
+
+    let tokens = replace(ty.to_token_stream(), ns_ident);
+    parse_quote!(#tokens)
+}
+
 pub enum RpcItemKind {
     Method,
     Stream,
-- 
2.43.0


From 0b722aa6cb936214f9c94cddf444855c4337d6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:41 +0000
Subject: [PATCH 38/42] fix: a namespace could not be imported where a type
 names it

---
 derive/src/impl_namespace.rs | 12 ++----------
 derive/src/lib.rs            | 31 ++++++++-----------------------
 2 files changed, 10 insertions(+), 33 deletions(-)

diff --git a/derive/src/impl_namespace.rs b/derive/src/impl_namespace.rs
index 4cfcd89..0b62b5f 100644
--- a/derive/src/impl_namespace.rs
+++ b/derive/src/impl_namespace.rs
@@ -1,6 +1,6 @@
-use crate::{args, format_ident_for_registration, get_zod, names};
+use crate::{args, get_zod, names};
 use quote::quote;
-use syn::{ext::IdentExt, parse_quote};
+use syn::ext::IdentExt;
 
 pub fn expand(
     input: args::NamespaceInput,
@@ -11,11 +11,7 @@ pub fn expand(
     names::check_namespace(ident.span(), &name);
     let (impl_generics, ty_generics, where_clause) = input.generics.split_for_impl();
 
-    let p = parse_quote!(#ident);
-    let register_path = format_ident_for_registration(&p);
-
     let zod = get_zod();
-    let vis = input.vis;
 
     quote! {
         impl #impl_generics #zod::Namespace for #ident #ty_generics #where_clause {
@@ -25,9 +21,5 @@ pub fn expand(
                 Some(#docs)
             }
         }
-
-        #[allow(dead_code)]
-        #[allow(non_camel_case_types)]
-        #vis struct #register_path;
     }
 }
diff --git a/derive/src/lib.rs b/derive/src/lib.rs
index fccd8ae..fc6b4f9 100644
--- a/derive/src/lib.rs
+++ b/derive/src/lib.rs
@@ -165,37 +165,22 @@ pub fn namespace(_attr: TokenStream, input: TokenStream) -> TokenStream {
     output.into()
 }
 
-fn format_ident_for_registration(p: &syn::Path) -> syn::Path {
-    let mut segments = p.segments.clone();
-    let last = segments.last_mut().unwrap();
-    last.ident = format_ident!("__ZodRegister__{}", last.ident);
-
-    syn::Path {
-        leading_colon: p.leading_colon,
-        segments,
-    }
-}
-
 /// Prevent duplicate interfaces
 fn expand_type_registration(
     ident: &Ident,
     ns_path: &Path,
     name: &str,
 ) -> proc_macro2::TokenStream {
-    let register_path = format_ident_for_registration(ns_path);
-    // names with a prefix must not be mistaken for each other, nor for those without one
-    let name = match name {
-        "_" | "crate" | "self" | "Self" | "super" => format_ident!("__{}", name),
-        _ if name.contains('$') || name.starts_with("__") => format_ident!(
-            "__{}",
-            name.replace('\u{b7}', "\u{b7}\u{b7}")
-                .replace('$', "\u{b7}_")
-        ),
-        _ => Ident::new_raw(name, Span::call_site()),
-    };
+    // `$` is not part of an identifier in Rust
+    let name = format_ident!(
+        "__ZodRegister__{}",
+        name.replace('\u{b7}', "\u{b7}\u{b7}")
+            .replace('$', "\u{b7}_")
+    );
 
     quote_spanned! {ident.span() =>
-        impl #register_path {
+        impl #ns_path {
+            #[doc(hidden)]
             #[allow(dead_code)]
             #[allow(non_upper_case_globals)]
             const #name: () = ();
-- 
2.43.0


From 83d090cd3a1f8075b06909a69b50279841c1e36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:42 +0000
Subject: [PATCH 39/42] fix: the crate did not compile without debug
 assertions, as in every release build

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index ee81446..66953df 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -119,7 +119,7 @@
 //!
 //!
 //!
-#![doc = include_str!(concat!(env!("OUT_DIR"), "/type-table.md"))]
+#![cfg_attr(debug_assertions, doc = include_str!(concat!(env!("OUT_DIR"), "/type-table.md")))]
 #![deny(unsafe_code)]
 
 pub use zod_core::*;
-- 
2.43.0


From 5665a206e6e40d3799986e70b50b1532c5c31350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:34 +0000
Subject: [PATCH 40/42] fix: namespaces and backends declared in a macro did
 not compile

---
 derive/src/rpc/backend_impl.rs |  7 ++++---
 derive/src/rpc/impl_rpc.rs     | 13 +++++++++----
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/derive/src/rpc/backend_impl.rs b/derive/src/rpc/backend_impl.rs
index 891d0c4..f68cfc7 100644
--- a/derive/src/rpc/backend_impl.rs
+++ b/derive/src/rpc/backend_impl.rs
@@ -3,6 +3,7 @@ use proc_macro2::TokenStream;
 use syn::{spanned::Spanned, Ident};
 
 use crate::rpc::args::{BackendField, BackendInput};
+use crate::rpc::impl_rpc::local_span;
 use crate::{get_private, get_zod};
 use quote::{format_ident, quote, quote_spanned};
 
@@ -96,7 +97,7 @@ pub fn expand_req_enum(ident: &Ident, fields: &Fields<BackendField>) -> TokenStr
     let req_namespaces = fields.iter().enumerate().map(|(index, f)| {
         let ty = &f.ty;
         let variant_ident = variant_ident(index);
-        quote_spanned! { ty.span() =>
+        quote_spanned! { local_span(ty.span()) =>
             if namespace == <#ty as #zod::Namespace>::NAME {
                 return #__private::serde_json::from_value(value.into())
                     .map(Self::#variant_ident)
@@ -149,11 +150,11 @@ pub fn expand_req_enum_impl(
             quote!(#index)
         });
 
-        quote_spanned!(ty.span() => #req_ident :: #variant_ident(req) => req.call(id, &mut backend.#field_or_index, sender).await)
+        quote_spanned!(local_span(ty.span()) => #req_ident :: #variant_ident(req) => req.call(id, &mut backend.#field_or_index, sender).await)
     });
 
     quote_spanned! {
-        req_ident.span() =>
+        local_span(req_ident.span()) =>
         impl #req_ident {
             pub async fn call(
                 self,
diff --git a/derive/src/rpc/impl_rpc.rs b/derive/src/rpc/impl_rpc.rs
index fd68671..c3f2561 100644
--- a/derive/src/rpc/impl_rpc.rs
+++ b/derive/src/rpc/impl_rpc.rs
@@ -1,4 +1,4 @@
-use proc_macro2::TokenStream;
+use proc_macro2::{Span, TokenStream};
 
 use proc_macro_error::abort;
 use quote::{quote, quote_spanned};
@@ -23,7 +23,7 @@ pub fn expand(input: RpcInput) -> TokenStream {
         .map(|item| expand_inventory_submit(&ident, item));
 
     quote_spanned! {
-        ident.span() =>
+        local_span(ident.span()) =>
         const _: () = {
             impl #__private::codegen::RpcNamespace for #ident {
                 type Req = #req_ident;
@@ -200,7 +200,7 @@ pub fn expand_req_variant_impl_method(
     let __private = get_private();
 
     quote_spanned! {
-        ident.span() =>
+        local_span(ident.span()) =>
         let res = ctx.#ident(#(#expanded_args),*).await;
 
         // the client may be gone by now
@@ -215,7 +215,7 @@ pub fn expand_req_variant_impl_stream(
 ) -> TokenStream {
     let __private = get_private_spanned(ident.span());
 
-    quote_spanned! { ident.span() =>
+    quote_spanned! { local_span(ident.span()) =>
             let s = ctx.#ident(#(#expanded_args),*);
 
             Some(#__private::tokio::spawn(async move {
@@ -238,3 +238,8 @@ pub fn expand_req_variant_impl_stream(
             }))
     }
 }
+
+/// Local variables are the same variables wherever the names come from, a macro for instance
+pub fn local_span(span: Span) -> Span {
+    span.resolved_at(Span::call_site())
+}
-- 
2.43.0


From 6d7f0f42d93fedbc6257e8ec4ab585f3419f7d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:54 +0000
Subject: [PATCH 41/42] fix: a stream type that is the argument of a macro was
 refused

---
 derive/src/rpc/args.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/derive/src/rpc/args.rs b/derive/src/rpc/args.rs
index 98e3e2c..0ad431b 100644
--- a/derive/src/rpc/args.rs
+++ b/derive/src/rpc/args.rs
@@ -3,7 +3,9 @@ use darling::{ast::Data, FromDeriveInput, FromField};
 use proc_macro2::{Group, TokenStream, TokenTree};
 use proc_macro_error::{abort, abort_call_site};
 use quote::{format_ident, ToTokens};
-use syn::{ext::IdentExt, parse_quote, Ident, ImplItem, ImplItemMethod, ItemImpl, Type};
+use syn::{
+    ext::IdentExt, parse_quote, Ident, ImplItem, ImplItemMethod, ItemImpl, Type, TypeGroup, TypeParen,
+};
 
 #[derive(FromDeriveInput)]
 pub struct BackendInput {
@@ -166,7 +168,13 @@ fn without_self(ty: &Type, ns_ident: &Ident) -> Box<Type> {
     }
 
     let tokens = replace(ty.to_token_stream(), ns_ident);
-    parse_quote!(#tokens)
+    let mut ty: Type = parse_quote!(#tokens);
+
+    // as a type is if it is the argument of a macro
+    while let Type::Group(TypeGroup { elem, .. }) | Type::Paren(TypeParen { elem, .. }) = ty {
+        ty = *elem;
+    }
+    Box::new(ty)
 }
 
 pub enum RpcItemKind {
-- 
2.43.0


From dfd8dae97a51538a3664a8ce3c8da6a746280341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:54 +0000
Subject: [PATCH 42/42] fix: arguments of methods had to implement Debug

---
 derive/src/rpc/backend_impl.rs | 1 -
 derive/src/rpc/impl_rpc.rs     | 1 -
 2 files changed, 2 deletions(-)

diff --git a/derive/src/rpc/backend_impl.rs b/derive/src/rpc/backend_impl.rs
index f68cfc7..c3b779e 100644
--- a/derive/src/rpc/backend_impl.rs
+++ b/derive/src/rpc/backend_impl.rs
@@ -107,7 +107,6 @@ pub fn expand_req_enum(ident: &Ident, fields: &Fields<BackendField>) -> TokenStr
     });
 
     quote! {
-        #[derive(Debug)]
         enum #ident {
             #(#req_variants),*
         }
diff --git a/derive/src/rpc/impl_rpc.rs b/derive/src/rpc/impl_rpc.rs
index c3f2561..b92a4fe 100644
--- a/derive/src/rpc/impl_rpc.rs
+++ b/derive/src/rpc/impl_rpc.rs
@@ -29,7 +29,6 @@ pub fn expand(input: RpcInput) -> TokenStream {
                 type Req = #req_ident;
             }
 
-            #[derive(Debug)]
             #[allow(non_camel_case_types)]
             #[allow(non_snake_case)]
             #[allow(non_upper_case_globals)]
-- 
2.43.0

