From d634c031df3981791b74f11920220dd3dddfcc40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:54 +0000
Subject: [PATCH 01/12] fix: return ZeroLengthItem instead of panicking on
 lists of zero-length items

---
 ssz/src/decode/impls.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/ssz/src/decode/impls.rs b/ssz/src/decode/impls.rs
index 6c9b7b5..77e4471 100644
--- a/ssz/src/decode/impls.rs
+++ b/ssz/src/decode/impls.rs
@@ -428,6 +428,10 @@ impl<T: Decode> Decode for Vec<T> {
         if bytes.is_empty() {
             Ok(vec![])
         } else if T::is_ssz_fixed_len() {
+            if T::ssz_fixed_len() == 0 {
+                return Err(DecodeError::ZeroLengthItem);
+            }
+
             bytes
                 .chunks(T::ssz_fixed_len())
                 .map(T::from_ssz_bytes)
@@ -447,6 +451,10 @@ impl<T: Decode, const N: usize> Decode for SmallVec<[T; N]> {
         if bytes.is_empty() {
             Ok(SmallVec::new())
         } else if T::is_ssz_fixed_len() {
+            if T::ssz_fixed_len() == 0 {
+                return Err(DecodeError::ZeroLengthItem);
+            }
+
             bytes
                 .chunks(T::ssz_fixed_len())
                 .map(T::from_ssz_bytes)
@@ -470,6 +478,10 @@ where
         if bytes.is_empty() {
             Ok(Self::from_iter(iter::empty()))
         } else if <(K, V)>::is_ssz_fixed_len() {
+            if <(K, V)>::ssz_fixed_len() == 0 {
+                return Err(DecodeError::ZeroLengthItem);
+            }
+
             bytes
                 .chunks(<(K, V)>::ssz_fixed_len())
                 .map(<(K, V)>::from_ssz_bytes)
@@ -492,6 +504,10 @@ where
         if bytes.is_empty() {
             Ok(Self::from_iter(iter::empty()))
         } else if T::is_ssz_fixed_len() {
+            if T::ssz_fixed_len() == 0 {
+                return Err(DecodeError::ZeroLengthItem);
+            }
+
             bytes
                 .chunks(T::ssz_fixed_len())
                 .map(T::from_ssz_bytes)
-- 
2.43.0


From 6c72314b301461db3df3d1301e9de693a564dca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:54 +0000
Subject: [PATCH 02/12] fix: reject a non-empty body after the None selector of
 an Option

---
 ssz/src/decode/impls.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ssz/src/decode/impls.rs b/ssz/src/decode/impls.rs
index 77e4471..1c8120a 100644
--- a/ssz/src/decode/impls.rs
+++ b/ssz/src/decode/impls.rs
@@ -254,7 +254,11 @@ impl<T: Decode> Decode for Option<T> {
     fn from_ssz_bytes(bytes: &[u8]) -> Result<Self, DecodeError> {
         let (selector, body) = split_union_bytes(bytes)?;
         match selector.into() {
-            0u8 => Ok(None),
+            0u8 if body.is_empty() => Ok(None),
+            0u8 => Err(DecodeError::InvalidByteLength {
+                len: bytes.len(),
+                expected: BYTES_PER_UNION_SELECTOR,
+            }),
             1u8 => <T as Decode>::from_ssz_bytes(body).map(Option::Some),
             other => Err(DecodeError::UnionSelectorInvalid(other)),
         }
-- 
2.43.0


From 4d3ad8e53ca50abd85664c001195a1623eaba3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:54 +0000
Subject: [PATCH 03/12] fix: reject trailing bytes after the None selector of a
 legacy Option

---
 ssz/src/legacy.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ssz/src/legacy.rs b/ssz/src/legacy.rs
index 5cce666..9ee6169 100644
--- a/ssz/src/legacy.rs
+++ b/ssz/src/legacy.rs
@@ -100,6 +100,12 @@ macro_rules! four_byte_option_impl {
 
                     let index = legacy::read_four_byte_union_selector(index_bytes)?;
                     if index == 0 {
+                        if !value_bytes.is_empty() {
+                            return Err(DecodeError::InvalidByteLength {
+                                len: bytes.len(),
+                                expected: BYTES_PER_LENGTH_OFFSET,
+                            });
+                        }
                         Ok(None)
                     } else if index == 1 {
                         Ok(Some(<$type as ssz::Decode>::from_ssz_bytes(value_bytes)?))
-- 
2.43.0


From fb8f74971246ad3faef9c13af3bf5f08d3fbd999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:54 +0000
Subject: [PATCH 04/12] fix: reject trailing bytes when decoding a derived tag
 enum

---
 ssz_derive/src/lib.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ssz_derive/src/lib.rs b/ssz_derive/src/lib.rs
index c6ca75d..2d7c92f 100644
--- a/ssz_derive/src/lib.rs
+++ b/ssz_derive/src/lib.rs
@@ -1015,6 +1015,13 @@ fn ssz_decode_derive_enum_tag(derive_input: &DeriveInput, enum_data: &DataEnum)
                     .copied()
                     .ok_or(ssz::DecodeError::OutOfBoundsByte { i: 0 })?;
 
+                if bytes.len() != 1 {
+                    return Err(ssz::DecodeError::InvalidByteLength {
+                        len: bytes.len(),
+                        expected: 1,
+                    });
+                }
+
                 match byte {
                     #(
                         #union_selectors => {
-- 
2.43.0


From f1a1fa19a775d4632caf2d8c6e4e0c402ac050a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:54 +0000
Subject: [PATCH 05/12] fix: use skip_serializing to find the live field when
 encoding a transparent struct

---
 ssz_derive/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ssz_derive/src/lib.rs b/ssz_derive/src/lib.rs
index 2d7c92f..c239c20 100644
--- a/ssz_derive/src/lib.rs
+++ b/ssz_derive/src/lib.rs
@@ -456,7 +456,7 @@ fn ssz_encode_derive_struct_transparent(
     let ssz_fields = parse_ssz_fields(struct_data);
     let num_fields = ssz_fields
         .iter()
-        .filter(|(_, _, field_opts)| !field_opts.skip_deserializing)
+        .filter(|(_, _, field_opts)| !field_opts.skip_serializing)
         .count();
 
     if num_fields != 1 {
@@ -469,7 +469,7 @@ fn ssz_encode_derive_struct_transparent(
     let (index, (ty, ident, _field_opts)) = ssz_fields
         .iter()
         .enumerate()
-        .find(|(_, (_, _, field_opts))| !field_opts.skip_deserializing)
+        .find(|(_, (_, _, field_opts))| !field_opts.skip_serializing)
         .expect("\"transparent\" struct must have at least one non-skipped field");
 
     // Remove the `_usize` suffix from the value to avoid a compiler warning.
-- 
2.43.0


From 90b10ee40d289b90db58dd97bb68ca2dbb51e0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:54 +0000
Subject: [PATCH 06/12] fix: generate arbitrary bitvectors from their byte
 length, not their bit length

---
 ssz/src/bitfield.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ssz/src/bitfield.rs b/ssz/src/bitfield.rs
index aa8fc13..24f99e7 100644
--- a/ssz/src/bitfield.rs
+++ b/ssz/src/bitfield.rs
@@ -692,7 +692,7 @@ impl<'de, N: Unsigned + Clone> Deserialize<'de> for Bitfield<Fixed<N>> {
 #[cfg(feature = "arbitrary")]
 impl<N: 'static + Unsigned> arbitrary::Arbitrary<'_> for Bitfield<Fixed<N>> {
     fn arbitrary(u: &mut arbitrary::Unstructured<'_>) -> arbitrary::Result<Self> {
-        let size = N::to_usize();
+        let size = bytes_for_bit_len(N::to_usize());
         let mut vec = smallvec![0u8; size];
         u.fill_buffer(&mut vec)?;
         Self::from_bytes(vec).map_err(|_| arbitrary::Error::IncorrectFormat)
-- 
2.43.0


From d13c2799921880f2ba383f28e45a89a5cab83c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:54 +0000
Subject: [PATCH 07/12] fix: bound the size of arbitrary bitlists by the
 available data

---
 ssz/src/bitfield.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ssz/src/bitfield.rs b/ssz/src/bitfield.rs
index 24f99e7..5b2ed1f 100644
--- a/ssz/src/bitfield.rs
+++ b/ssz/src/bitfield.rs
@@ -704,7 +704,8 @@ impl<N: 'static + Unsigned> arbitrary::Arbitrary<'_> for Bitfield<Variable<N>> {
     fn arbitrary(u: &mut arbitrary::Unstructured<'_>) -> arbitrary::Result<Self> {
         let max_size = N::to_usize();
         let rand = usize::arbitrary(u)?;
-        let size = std::cmp::min(rand, max_size);
+        // Do not allocate more bytes than there is data to fill them with.
+        let size = std::cmp::min(rand, max_size).min(u.len());
         let mut vec = smallvec![0u8; size];
         u.fill_buffer(&mut vec)?;
         Self::from_bytes(vec).map_err(|_| arbitrary::Error::IncorrectFormat)
-- 
2.43.0


From 0898b5cd471a8329c58699ed6436b21f79c1dfb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:54 +0000
Subject: [PATCH 08/12] fix: avoid overflow in the error of BitList::resize

---
 ssz/src/bitfield.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ssz/src/bitfield.rs b/ssz/src/bitfield.rs
index 5b2ed1f..a371ac4 100644
--- a/ssz/src/bitfield.rs
+++ b/ssz/src/bitfield.rs
@@ -263,7 +263,7 @@ impl<N: Unsigned + Clone> Bitfield<Variable<N>> {
         if N::to_usize() > M::to_usize() {
             return Err(Error::InvalidByteCount {
                 given: M::to_usize(),
-                expected: N::to_usize() + 1,
+                expected: N::to_usize().saturating_add(1),
             });
         }
 
-- 
2.43.0


From 22b6b3da210a8f85382816bca97baa530a20ffdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:54 +0000
Subject: [PATCH 09/12] fix: avoid overflow in the error of
 BitVectorDynamic::new

---
 ssz/src/bitfield/bitvector_dynamic.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ssz/src/bitfield/bitvector_dynamic.rs b/ssz/src/bitfield/bitvector_dynamic.rs
index 530d9f4..db08cdb 100644
--- a/ssz/src/bitfield/bitvector_dynamic.rs
+++ b/ssz/src/bitfield/bitvector_dynamic.rs
@@ -32,7 +32,7 @@ impl Bitfield<Dynamic> {
         if len % 8 != 0 {
             return Err(Error::InvalidByteCount {
                 given: len,
-                expected: (len / 8 + 1) * 8,
+                expected: (len / 8 + 1).saturating_mul(8),
             });
         }
         Ok(Self {
-- 
2.43.0


From dbb79f5354130775f5b331198f9f37ef45d79373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:54 +0000
Subject: [PATCH 10/12] fix: avoid overflow when registering an over-long
 fixed-length item

---
 ssz/src/decode.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ssz/src/decode.rs b/ssz/src/decode.rs
index 814aa70..7c690fa 100644
--- a/ssz/src/decode.rs
+++ b/ssz/src/decode.rs
@@ -188,7 +188,7 @@ impl<'a> SszDecoderBuilder<'a> {
     ) -> Result<(), DecodeError> {
         if is_ssz_fixed_len {
             let start = self.items_index;
-            self.items_index += ssz_fixed_len;
+            self.items_index = start.saturating_add(ssz_fixed_len);
 
             let slice =
                 self.bytes
-- 
2.43.0


From d90559facedaef12de24abeb5828abc90dd98e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:15 +0000
Subject: [PATCH 11/12] fix: honour #[ssz(with)] on the live field of a
 transparent struct

---
 ssz_derive/src/lib.rs | 51 ++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 48 insertions(+), 3 deletions(-)

diff --git a/ssz_derive/src/lib.rs b/ssz_derive/src/lib.rs
index c239c20..1f1bd4e 100644
--- a/ssz_derive/src/lib.rs
+++ b/ssz_derive/src/lib.rs
@@ -466,7 +466,7 @@ fn ssz_encode_derive_struct_transparent(
         );
     }
 
-    let (index, (ty, ident, _field_opts)) = ssz_fields
+    let (index, (ty, ident, field_opts)) = ssz_fields
         .iter()
         .enumerate()
         .find(|(_, (_, _, field_opts))| !field_opts.skip_serializing)
@@ -475,6 +475,33 @@ fn ssz_encode_derive_struct_transparent(
     // Remove the `_usize` suffix from the value to avoid a compiler warning.
     let index = Index::from(index);
 
+    // The field has its own codec, use that rather than the `ssz::Encode` impl of its type.
+    if let Some(module) = &field_opts.with {
+        let module = quote! { #module::encode };
+        let field = ident.map_or_else(|| quote! { #index }, |ident| quote! { #ident });
+
+        return quote! {
+            impl #impl_generics ssz::Encode for #name #ty_generics #where_clause {
+                fn is_ssz_fixed_len() -> bool {
+                    #module::is_ssz_fixed_len()
+                }
+
+                fn ssz_fixed_len() -> usize {
+                    #module::ssz_fixed_len()
+                }
+
+                fn ssz_bytes_len(&self) -> usize {
+                    #module::ssz_bytes_len(&self.#field)
+                }
+
+                fn ssz_append(&self, buf: &mut Vec<u8>) {
+                    #module::ssz_append(&self.#field, buf)
+                }
+            }
+        }
+        .into();
+    }
+
     let output = if let Some(field_name) = ident {
         quote! {
             impl #impl_generics ssz::Encode for #name #ty_generics #where_clause {
@@ -923,8 +950,22 @@ fn ssz_decode_derive_struct_transparent(
 
     let mut fields = vec![];
     let mut wrapped_type = None;
+    let mut wrapped_module = None;
 
     for (i, (ty, ident, field_opts)) in ssz_fields.into_iter().enumerate() {
+        // The live field may have its own codec, use that rather than the `ssz::Decode` impl of
+        // its type.
+        if let (false, Some(module)) = (field_opts.skip_deserializing, field_opts.with) {
+            let index = syn::Index::from(i);
+            let field = ident.map_or_else(|| quote! { #index }, |ident| quote! { #ident });
+            fields.push(quote! {
+                #field: #module::decode::from_ssz_bytes(bytes)?,
+            });
+            wrapped_type = Some(ty);
+            wrapped_module = Some(module);
+            continue;
+        }
+
         if let Some(name) = ident {
             if field_opts.skip_deserializing {
                 fields.push(quote! {
@@ -952,15 +993,19 @@ fn ssz_decode_derive_struct_transparent(
     }
 
     let ty = wrapped_type.unwrap();
+    let codec = wrapped_module.map_or_else(
+        || quote! { <#ty as ssz::Decode> },
+        |module| quote! { #module::decode },
+    );
 
     let output = quote! {
         impl #impl_generics ssz::Decode for #name #ty_generics #where_clause {
             fn is_ssz_fixed_len() -> bool {
-                <#ty as ssz::Decode>::is_ssz_fixed_len()
+                #codec::is_ssz_fixed_len()
             }
 
             fn ssz_fixed_len() -> usize {
-                <#ty as ssz::Decode>::ssz_fixed_len()
+                #codec::ssz_fixed_len()
             }
 
             fn from_ssz_bytes(bytes: &[u8]) -> std::result::Result<Self, ssz::DecodeError> {
-- 
2.43.0


From a01446ab7dd48d2aa4ca496d6bdcdbffa1841b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:49 +0000
Subject: [PATCH 12/12] fix: honour #[ssz(with)] on the fields of enum variants

---
 ssz_derive/src/lib.rs | 146 +++++++++++++++++++++++++-----------------
 1 file changed, 87 insertions(+), 59 deletions(-)

diff --git a/ssz_derive/src/lib.rs b/ssz_derive/src/lib.rs
index 1f1bd4e..13df357 100644
--- a/ssz_derive/src/lib.rs
+++ b/ssz_derive/src/lib.rs
@@ -276,6 +276,23 @@ impl<'a> Procedure<'a> {
     }
 }
 
+fn parse_field_opts(field: &syn::Field) -> FieldOpts {
+    let field_opts_candidates = field
+        .attrs
+        .iter()
+        .filter(|attr| attr.path().get_ident().is_some_and(|ident| *ident == "ssz"))
+        .collect::<Vec<_>>();
+
+    if field_opts_candidates.len() > 1 {
+        panic!("more than one field-level \"ssz\" attribute provided")
+    }
+
+    field_opts_candidates
+        .first()
+        .map(|attr| FieldOpts::from_meta(&attr.meta).unwrap())
+        .unwrap_or_default()
+}
+
 fn parse_ssz_fields(
     struct_data: &syn::DataStruct,
 ) -> Vec<(&syn::Type, Option<&syn::Ident>, FieldOpts)> {
@@ -286,20 +303,7 @@ fn parse_ssz_fields(
             let ty = &field.ty;
             let ident = field.ident.as_ref();
 
-            let field_opts_candidates = field
-                .attrs
-                .iter()
-                .filter(|attr| attr.path().get_ident().is_some_and(|ident| *ident == "ssz"))
-                .collect::<Vec<_>>();
-
-            if field_opts_candidates.len() > 1 {
-                panic!("more than one field-level \"ssz\" attribute provided")
-            }
-
-            let field_opts = field_opts_candidates
-                .first()
-                .map(|attr| FieldOpts::from_meta(&attr.meta).unwrap())
-                .unwrap_or_default();
+            let field_opts = parse_field_opts(field);
 
             (ty, ident, field_opts)
         })
@@ -570,27 +574,34 @@ fn ssz_encode_derive_enum_transparent(
     let name = &derive_input.ident;
     let (impl_generics, ty_generics, where_clause) = &derive_input.generics.split_for_impl();
 
-    let (patterns, assert_exprs): (Vec<_>, Vec<_>) = enum_data
-        .variants
-        .iter()
-        .map(|variant| {
-            let variant_name = &variant.ident;
+    let mut patterns = vec![];
+    let mut assert_exprs = vec![];
+    let mut bytes_lens = vec![];
+    let mut appends = vec![];
 
-            if variant.fields.len() != 1 {
-                panic!("ssz::Encode can only be derived for enums with 1 field per variant");
-            }
+    for variant in &enum_data.variants {
+        let variant_name = &variant.ident;
 
-            let pattern = quote! {
-                #name::#variant_name(ref inner)
-            };
+        if variant.fields.len() != 1 {
+            panic!("ssz::Encode can only be derived for enums with 1 field per variant");
+        }
 
-            let ty = &(&variant.fields).into_iter().next().unwrap().ty;
-            let type_assert = quote! {
-                !<#ty as ssz::Encode>::is_ssz_fixed_len()
-            };
-            (pattern, type_assert)
-        })
-        .unzip();
+        patterns.push(quote! {
+            #name::#variant_name(ref inner)
+        });
+
+        let field = (&variant.fields).into_iter().next().unwrap();
+        let ty = &field.ty;
+        if let Some(module) = parse_field_opts(field).with {
+            assert_exprs.push(quote! { !#module::encode::is_ssz_fixed_len() });
+            bytes_lens.push(quote! { #module::encode::ssz_bytes_len(inner) });
+            appends.push(quote! { #module::encode::ssz_append(inner, buf) });
+        } else {
+            assert_exprs.push(quote! { !<#ty as ssz::Encode>::is_ssz_fixed_len() });
+            bytes_lens.push(quote! { inner.ssz_bytes_len() });
+            appends.push(quote! { inner.ssz_append(buf) });
+        }
+    }
 
     let output = quote! {
         impl #impl_generics ssz::Encode for #name #ty_generics #where_clause {
@@ -607,7 +618,7 @@ fn ssz_encode_derive_enum_transparent(
             fn ssz_bytes_len(&self) -> usize {
                 match self {
                     #(
-                        #patterns => inner.ssz_bytes_len(),
+                        #patterns => #bytes_lens,
                     )*
                 }
             }
@@ -615,7 +626,7 @@ fn ssz_encode_derive_enum_transparent(
             fn ssz_append(&self, buf: &mut Vec<u8>) {
                 match self {
                     #(
-                        #patterns => inner.ssz_append(buf),
+                        #patterns => #appends,
                     )*
                 }
             }
@@ -698,22 +709,30 @@ fn ssz_encode_derive_enum_union(derive_input: &DeriveInput, enum_data: &DataEnum
     let name = &derive_input.ident;
     let (impl_generics, ty_generics, where_clause) = &derive_input.generics.split_for_impl();
 
-    let patterns: Vec<_> = enum_data
-        .variants
-        .iter()
-        .map(|variant| {
-            let variant_name = &variant.ident;
+    let mut patterns = vec![];
+    let mut bytes_lens = vec![];
+    let mut appends = vec![];
 
-            if variant.fields.len() != 1 {
-                panic!("ssz::Encode can only be derived for enums with 1 field per variant");
-            }
+    for variant in &enum_data.variants {
+        let variant_name = &variant.ident;
 
-            let pattern = quote! {
-                #name::#variant_name(ref inner)
-            };
-            pattern
-        })
-        .collect();
+        if variant.fields.len() != 1 {
+            panic!("ssz::Encode can only be derived for enums with 1 field per variant");
+        }
+
+        patterns.push(quote! {
+            #name::#variant_name(ref inner)
+        });
+
+        let field = (&variant.fields).into_iter().next().unwrap();
+        if let Some(module) = parse_field_opts(field).with {
+            bytes_lens.push(quote! { #module::encode::ssz_bytes_len(inner) });
+            appends.push(quote! { #module::encode::ssz_append(inner, buf) });
+        } else {
+            bytes_lens.push(quote! { inner.ssz_bytes_len() });
+            appends.push(quote! { inner.ssz_append(buf) });
+        }
+    }
 
     let union_selectors = compute_union_selectors(patterns.len());
 
@@ -726,8 +745,7 @@ fn ssz_encode_derive_enum_union(derive_input: &DeriveInput, enum_data: &DataEnum
             fn ssz_bytes_len(&self) -> usize {
                 match self {
                     #(
-                        #patterns => inner
-                            .ssz_bytes_len()
+                        #patterns => #bytes_lens
                             .checked_add(1)
                             .expect("encoded length must be less than usize::max_value"),
                     )*
@@ -741,7 +759,7 @@ fn ssz_encode_derive_enum_union(derive_input: &DeriveInput, enum_data: &DataEnum
                             let union_selector: u8 = #union_selectors;
                             debug_assert!(union_selector <= ssz::MAX_UNION_SELECTOR);
                             buf.push(union_selector);
-                            inner.ssz_append(buf)
+                            #appends
                         },
                     )*
                 }
@@ -1086,7 +1104,7 @@ fn ssz_decode_derive_enum_union(derive_input: &DeriveInput, enum_data: &DataEnum
     let name = &derive_input.ident;
     let (impl_generics, ty_generics, where_clause) = &derive_input.generics.split_for_impl();
 
-    let (constructors, var_types): (Vec<_>, Vec<_>) = enum_data
+    let (constructors, codecs): (Vec<_>, Vec<_>) = enum_data
         .variants
         .iter()
         .map(|variant| {
@@ -1100,8 +1118,13 @@ fn ssz_decode_derive_enum_union(derive_input: &DeriveInput, enum_data: &DataEnum
                 #name::#variant_name
             };
 
-            let ty = &(&variant.fields).into_iter().next().unwrap().ty;
-            (constructor, ty)
+            let field = (&variant.fields).into_iter().next().unwrap();
+            let ty = &field.ty;
+            let codec = match parse_field_opts(field).with {
+                Some(module) => quote! { #module::decode },
+                None => quote! { <#ty as ssz::Decode> },
+            };
+            (constructor, codec)
         })
         .unzip();
 
@@ -1123,7 +1146,7 @@ fn ssz_decode_derive_enum_union(derive_input: &DeriveInput, enum_data: &DataEnum
                 match selector.into() {
                     #(
                         #union_selectors => {
-                            <#var_types as ssz::Decode>::from_ssz_bytes(body).map(#constructors)
+                            #codecs::from_ssz_bytes(body).map(#constructors)
                         },
                     )*
                     other => Err(ssz::DecodeError::UnionSelectorInvalid(other))
@@ -1155,7 +1178,7 @@ fn ssz_decode_derive_enum_transparent(
     let name = &derive_input.ident;
     let (impl_generics, ty_generics, where_clause) = &derive_input.generics.split_for_impl();
 
-    let (constructors, var_types): (Vec<_>, Vec<_>) = enum_data
+    let (constructors, codecs): (Vec<_>, Vec<_>) = enum_data
         .variants
         .iter()
         .map(|variant| {
@@ -1169,8 +1192,13 @@ fn ssz_decode_derive_enum_transparent(
                 #name::#variant_name
             };
 
-            let ty = &(&variant.fields).into_iter().next().unwrap().ty;
-            (constructor, ty)
+            let field = (&variant.fields).into_iter().next().unwrap();
+            let ty = &field.ty;
+            let codec = match parse_field_opts(field).with {
+                Some(module) => quote! { #module::decode },
+                None => quote! { <#ty as ssz::Decode> },
+            };
+            (constructor, codec)
         })
         .unzip();
 
@@ -1182,7 +1210,7 @@ fn ssz_decode_derive_enum_transparent(
 
             fn from_ssz_bytes(bytes: &[u8]) -> Result<Self, ssz::DecodeError> {
                 #(
-                    if let Ok(var) = <#var_types as ssz::Decode>::from_ssz_bytes(bytes) {
+                    if let Ok(var) = #codecs::from_ssz_bytes(bytes) {
                         return Ok(#constructors(var));
                     }
                 )*
-- 
2.43.0

