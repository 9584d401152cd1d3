From c619921c083d4bd81fa5f01bc4dfb08132f867b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:09 +0000
Subject: [PATCH 01/11] fix: reject trailing bytes when decoding a derived tag
 enum

The derived decoder looked at the first byte only, so any longer string with a
valid first byte was accepted although the type has a fixed length of one byte.
---
 ssz_derive/src/lib.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ssz_derive/src/lib.rs b/ssz_derive/src/lib.rs
index c6ca75d..2d7c92f 100644
--- a/ssz_derive/src/lib.rs
+++ b/ssz_derive/src/lib.rs
@@ -1015,6 +1015,13 @@ fn ssz_decode_derive_enum_tag(derive_input: &DeriveInput, enum_data: &DataEnum)
                     .copied()
                     .ok_or(ssz::DecodeError::OutOfBoundsByte { i: 0 })?;
 
+                if bytes.len() != 1 {
+                    return Err(ssz::DecodeError::InvalidByteLength {
+                        len: bytes.len(),
+                        expected: 1,
+                    });
+                }
+
                 match byte {
                     #(
                         #union_selectors => {
-- 
2.43.0


From fa1aeedabd1f7a4d918668f1370469ba74fb55bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:10 +0000
Subject: [PATCH 02/11] fix: reject bytes after the None selector of an Option

Union[None, T] with selector 0 has an empty body; the decoder ignored whatever
followed the selector.
---
 ssz/src/decode/impls.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ssz/src/decode/impls.rs b/ssz/src/decode/impls.rs
index 6c9b7b5..f1b91b2 100644
--- a/ssz/src/decode/impls.rs
+++ b/ssz/src/decode/impls.rs
@@ -254,7 +254,11 @@ impl<T: Decode> Decode for Option<T> {
     fn from_ssz_bytes(bytes: &[u8]) -> Result<Self, DecodeError> {
         let (selector, body) = split_union_bytes(bytes)?;
         match selector.into() {
-            0u8 => Ok(None),
+            0u8 if body.is_empty() => Ok(None),
+            0u8 => Err(DecodeError::InvalidByteLength {
+                len: bytes.len(),
+                expected: 1,
+            }),
             1u8 => <T as Decode>::from_ssz_bytes(body).map(Option::Some),
             other => Err(DecodeError::UnionSelectorInvalid(other)),
         }
-- 
2.43.0


From dd8d1b99b9da29e411097873b497095c3379d437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:10 +0000
Subject: [PATCH 03/11] fix: reject bytes after the None selector of a legacy
 Option

The four-byte-selector codec ignored whatever followed a selector of 0.
---
 ssz/src/legacy.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ssz/src/legacy.rs b/ssz/src/legacy.rs
index 5cce666..9ee6169 100644
--- a/ssz/src/legacy.rs
+++ b/ssz/src/legacy.rs
@@ -100,6 +100,12 @@ macro_rules! four_byte_option_impl {
 
                     let index = legacy::read_four_byte_union_selector(index_bytes)?;
                     if index == 0 {
+                        if !value_bytes.is_empty() {
+                            return Err(DecodeError::InvalidByteLength {
+                                len: bytes.len(),
+                                expected: BYTES_PER_LENGTH_OFFSET,
+                            });
+                        }
                         Ok(None)
                     } else if index == 1 {
                         Ok(Some(<$type as ssz::Decode>::from_ssz_bytes(value_bytes)?))
-- 
2.43.0


From d625fe4f725f6def3c2a21f14dcd0dcf3bf7506d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:10 +0000
Subject: [PATCH 04/11] fix: do not overflow the position when registering a
 fixed-size item

A huge fixed length passed to register_type_parameterized overflowed the index
(a panic with overflow checks, a wrapped range without).
---
 ssz/src/decode.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ssz/src/decode.rs b/ssz/src/decode.rs
index 814aa70..7c690fa 100644
--- a/ssz/src/decode.rs
+++ b/ssz/src/decode.rs
@@ -188,7 +188,7 @@ impl<'a> SszDecoderBuilder<'a> {
     ) -> Result<(), DecodeError> {
         if is_ssz_fixed_len {
             let start = self.items_index;
-            self.items_index += ssz_fixed_len;
+            self.items_index = start.saturating_add(ssz_fixed_len);
 
             let slice =
                 self.bytes
-- 
2.43.0


From a7dde64b5ad0efcc6b8028be99b216d9f3f1ceaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:27 +0000
Subject: [PATCH 05/11] fix: return ZeroLengthItem instead of panicking on
 lists of zero-length items

Decoding a non-empty string as a Vec, SmallVec, BTreeMap or BTreeSet whose items
have a fixed length of zero called chunks(0), which panics.
---
 ssz/src/decode/impls.rs | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/ssz/src/decode/impls.rs b/ssz/src/decode/impls.rs
index f1b91b2..8aa34a9 100644
--- a/ssz/src/decode/impls.rs
+++ b/ssz/src/decode/impls.rs
@@ -432,10 +432,11 @@ impl<T: Decode> Decode for Vec<T> {
         if bytes.is_empty() {
             Ok(vec![])
         } else if T::is_ssz_fixed_len() {
-            bytes
-                .chunks(T::ssz_fixed_len())
-                .map(T::from_ssz_bytes)
-                .collect()
+            let item_len = T::ssz_fixed_len();
+            if item_len == 0 {
+                return Err(DecodeError::ZeroLengthItem);
+            }
+            bytes.chunks(item_len).map(T::from_ssz_bytes).collect()
         } else {
             decode_list_of_variable_length_items(bytes, None)
         }
@@ -451,10 +452,11 @@ impl<T: Decode, const N: usize> Decode for SmallVec<[T; N]> {
         if bytes.is_empty() {
             Ok(SmallVec::new())
         } else if T::is_ssz_fixed_len() {
-            bytes
-                .chunks(T::ssz_fixed_len())
-                .map(T::from_ssz_bytes)
-                .collect()
+            let item_len = T::ssz_fixed_len();
+            if item_len == 0 {
+                return Err(DecodeError::ZeroLengthItem);
+            }
+            bytes.chunks(item_len).map(T::from_ssz_bytes).collect()
         } else {
             decode_list_of_variable_length_items(bytes, None)
         }
@@ -474,8 +476,12 @@ where
         if bytes.is_empty() {
             Ok(Self::from_iter(iter::empty()))
         } else if <(K, V)>::is_ssz_fixed_len() {
+            let item_len = <(K, V)>::ssz_fixed_len();
+            if item_len == 0 {
+                return Err(DecodeError::ZeroLengthItem);
+            }
             bytes
-                .chunks(<(K, V)>::ssz_fixed_len())
+                .chunks(item_len)
                 .map(<(K, V)>::from_ssz_bytes)
                 .collect()
         } else {
@@ -496,10 +502,11 @@ where
         if bytes.is_empty() {
             Ok(Self::from_iter(iter::empty()))
         } else if T::is_ssz_fixed_len() {
-            bytes
-                .chunks(T::ssz_fixed_len())
-                .map(T::from_ssz_bytes)
-                .collect()
+            let item_len = T::ssz_fixed_len();
+            if item_len == 0 {
+                return Err(DecodeError::ZeroLengthItem);
+            }
+            bytes.chunks(item_len).map(T::from_ssz_bytes).collect()
         } else {
             decode_list_of_variable_length_items(bytes, None)
         }
-- 
2.43.0


From 0e089d85814bea7655a2a9ddb70d63cc7a106d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:27 +0000
Subject: [PATCH 06/11] fix: generate bitvectors from the right number of bytes
 in Arbitrary

The generator filled N bytes for a bitvector of N bits, so it failed on every
input for N of two or more.
---
 ssz/src/bitfield.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ssz/src/bitfield.rs b/ssz/src/bitfield.rs
index aa8fc13..24f99e7 100644
--- a/ssz/src/bitfield.rs
+++ b/ssz/src/bitfield.rs
@@ -692,7 +692,7 @@ impl<'de, N: Unsigned + Clone> Deserialize<'de> for Bitfield<Fixed<N>> {
 #[cfg(feature = "arbitrary")]
 impl<N: 'static + Unsigned> arbitrary::Arbitrary<'_> for Bitfield<Fixed<N>> {
     fn arbitrary(u: &mut arbitrary::Unstructured<'_>) -> arbitrary::Result<Self> {
-        let size = N::to_usize();
+        let size = bytes_for_bit_len(N::to_usize());
         let mut vec = smallvec![0u8; size];
         u.fill_buffer(&mut vec)?;
         Self::from_bytes(vec).map_err(|_| arbitrary::Error::IncorrectFormat)
-- 
2.43.0


From 5e16d3b24bfc96cdad367a97657ffdb91adec2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:27 +0000
Subject: [PATCH 07/11] fix: choose the encoded field of a transparent struct
 by skip_serializing

The Encode derive looked at skip_deserializing, so a field marked
skip_serializing only was still encoded and one marked skip_deserializing only
was left out.
---
 ssz_derive/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ssz_derive/src/lib.rs b/ssz_derive/src/lib.rs
index 2d7c92f..c239c20 100644
--- a/ssz_derive/src/lib.rs
+++ b/ssz_derive/src/lib.rs
@@ -456,7 +456,7 @@ fn ssz_encode_derive_struct_transparent(
     let ssz_fields = parse_ssz_fields(struct_data);
     let num_fields = ssz_fields
         .iter()
-        .filter(|(_, _, field_opts)| !field_opts.skip_deserializing)
+        .filter(|(_, _, field_opts)| !field_opts.skip_serializing)
         .count();
 
     if num_fields != 1 {
@@ -469,7 +469,7 @@ fn ssz_encode_derive_struct_transparent(
     let (index, (ty, ident, _field_opts)) = ssz_fields
         .iter()
         .enumerate()
-        .find(|(_, (_, _, field_opts))| !field_opts.skip_deserializing)
+        .find(|(_, (_, _, field_opts))| !field_opts.skip_serializing)
         .expect("\"transparent\" struct must have at least one non-skipped field");
 
     // Remove the `_usize` suffix from the value to avoid a compiler warning.
-- 
2.43.0


From 3d74345fcd46d1d3bbb48d271798439e56b953f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:03 +0000
Subject: [PATCH 08/11] fix: keep the variables of the derived struct decoder
 apart from its fields

The generated code bound fields to variables of their own names next to its
variables bytes, slice and decoder. Structs with such a field did not compile,
or, for a reference-like field type, decoded from the wrong bytes.
---
 ssz_derive/src/lib.rs | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/ssz_derive/src/lib.rs b/ssz_derive/src/lib.rs
index c239c20..0ec5636 100644
--- a/ssz_derive/src/lib.rs
+++ b/ssz_derive/src/lib.rs
@@ -168,6 +168,7 @@
 
 use darling::{FromDeriveInput, FromMeta};
 use proc_macro::TokenStream;
+use proc_macro2::Span;
 use quote::quote;
 use std::convert::TryInto;
 use syn::{parse_macro_input, DataEnum, DataStruct, DeriveInput, Ident, Index};
@@ -756,6 +757,11 @@ fn ssz_decode_derive_struct(item: &DeriveInput, struct_data: &DataStruct) -> Tok
     let name = &item.ident;
     let (impl_generics, ty_generics, where_clause) = &item.generics.split_for_impl();
 
+    // These names are invisible to the fields, which are bound to variables of their own names.
+    let bytes = Ident::new("bytes", Span::mixed_site());
+    let slice = Ident::new("slice", Span::mixed_site());
+    let decoder = Ident::new("decoder", Span::mixed_site());
+
     let mut register_types = vec![];
     let mut field_names = vec![];
     let mut fixed_decodes = vec![];
@@ -796,29 +802,29 @@ fn ssz_decode_derive_struct(item: &DeriveInput, struct_data: &DataStruct) -> Tok
 
             is_ssz_fixed_len = quote! { #module::is_ssz_fixed_len() };
             ssz_fixed_len = quote! { #module::ssz_fixed_len() };
-            from_ssz_bytes = quote! { #module::from_ssz_bytes(slice) };
+            from_ssz_bytes = quote! { #module::from_ssz_bytes(#slice) };
 
             register_types.push(quote! {
                 builder.register_type_parameterized(#is_ssz_fixed_len, #ssz_fixed_len)?;
             });
             decodes.push(quote! {
-                let #ident = decoder.decode_next_with(|slice| #module::from_ssz_bytes(slice))?;
+                let #ident = #decoder.decode_next_with(|slice| #module::from_ssz_bytes(slice))?;
             });
         } else {
             is_ssz_fixed_len = quote! { <#ty as ssz::Decode>::is_ssz_fixed_len() };
             ssz_fixed_len = quote! { <#ty as ssz::Decode>::ssz_fixed_len() };
-            from_ssz_bytes = quote! { <#ty as ssz::Decode>::from_ssz_bytes(slice) };
+            from_ssz_bytes = quote! { <#ty as ssz::Decode>::from_ssz_bytes(#slice) };
 
             register_types.push(quote! {
                 builder.register_type::<#ty>()?;
             });
             decodes.push(quote! {
-                let #ident = decoder.decode_next()?;
+                let #ident = #decoder.decode_next()?;
             });
         }
 
         fixed_decodes.push(quote! {
-            let (slice, bytes) = bytes.split_at(#ssz_fixed_len);
+            let (#slice, #bytes) = #bytes.split_at(#ssz_fixed_len);
             let #ident = #from_ssz_bytes?;
         });
         is_fixed_lens.push(is_ssz_fixed_len);
@@ -848,11 +854,11 @@ fn ssz_decode_derive_struct(item: &DeriveInput, struct_data: &DataStruct) -> Tok
                 }
             }
 
-            fn from_ssz_bytes(bytes: &[u8]) -> std::result::Result<Self, ssz::DecodeError> {
+            fn from_ssz_bytes(#bytes: &[u8]) -> std::result::Result<Self, ssz::DecodeError> {
                 if <Self as ssz::Decode>::is_ssz_fixed_len() {
-                    if bytes.len() != <Self as ssz::Decode>::ssz_fixed_len() {
+                    if #bytes.len() != <Self as ssz::Decode>::ssz_fixed_len() {
                         return Err(ssz::DecodeError::InvalidByteLength {
-                            len: bytes.len(),
+                            len: #bytes.len(),
                             expected: <Self as ssz::Decode>::ssz_fixed_len(),
                         });
                     }
@@ -867,13 +873,13 @@ fn ssz_decode_derive_struct(item: &DeriveInput, struct_data: &DataStruct) -> Tok
                         )*
                     })
                 } else {
-                    let mut builder = ssz::SszDecoderBuilder::new(bytes);
+                    let mut builder = ssz::SszDecoderBuilder::new(#bytes);
 
                     #(
                         #register_types
                     )*
 
-                    let mut decoder = builder.build()?;
+                    let mut #decoder = builder.build()?;
 
                     #(
                         #decodes
-- 
2.43.0


From 2e25fc57812f072adf3ad0a70a305b916a566d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:47 +0000
Subject: [PATCH 09/11] fix: honour the field codec of a transparent struct

#[ssz(with = "module")] on the live field of a transparent struct was silently
ignored by both derives.
---
 ssz_derive/src/lib.rs | 116 ++++++++++++++++++++----------------------
 1 file changed, 56 insertions(+), 60 deletions(-)

diff --git a/ssz_derive/src/lib.rs b/ssz_derive/src/lib.rs
index 0ec5636..044d282 100644
--- a/ssz_derive/src/lib.rs
+++ b/ssz_derive/src/lib.rs
@@ -467,53 +467,51 @@ fn ssz_encode_derive_struct_transparent(
         );
     }
 
-    let (index, (ty, ident, _field_opts)) = ssz_fields
+    let (index, (ty, ident, field_opts)) = ssz_fields
         .iter()
         .enumerate()
         .find(|(_, (_, _, field_opts))| !field_opts.skip_serializing)
         .expect("\"transparent\" struct must have at least one non-skipped field");
 
-    // Remove the `_usize` suffix from the value to avoid a compiler warning.
-    let index = Index::from(index);
-
-    let output = if let Some(field_name) = ident {
-        quote! {
-            impl #impl_generics ssz::Encode for #name #ty_generics #where_clause {
-                fn is_ssz_fixed_len() -> bool {
-                    <#ty as ssz::Encode>::is_ssz_fixed_len()
-                }
-
-                fn ssz_fixed_len() -> usize {
-                    <#ty as ssz::Encode>::ssz_fixed_len()
-                }
+    let field = if let Some(field_name) = ident {
+        quote! { self.#field_name }
+    } else {
+        // Remove the `_usize` suffix from the value to avoid a compiler warning.
+        let index = Index::from(index);
+        quote! { self.#index }
+    };
 
-                fn ssz_bytes_len(&self) -> usize {
-                    self.#field_name.ssz_bytes_len()
-                }
+    let (codec, ssz_bytes_len, ssz_append) = if let Some(module) = &field_opts.with {
+        let module = quote! { #module::encode };
+        (
+            module.clone(),
+            quote! { #module::ssz_bytes_len(&#field) },
+            quote! { #module::ssz_append(&#field, buf) },
+        )
+    } else {
+        (
+            quote! { <#ty as ssz::Encode> },
+            quote! { #field.ssz_bytes_len() },
+            quote! { #field.ssz_append(buf) },
+        )
+    };
 
-                fn ssz_append(&self, buf: &mut Vec<u8>) {
-                    self.#field_name.ssz_append(buf)
-                }
+    let output = quote! {
+        impl #impl_generics ssz::Encode for #name #ty_generics #where_clause {
+            fn is_ssz_fixed_len() -> bool {
+                #codec::is_ssz_fixed_len()
             }
-        }
-    } else {
-        quote! {
-            impl #impl_generics ssz::Encode for #name #ty_generics #where_clause {
-                fn is_ssz_fixed_len() -> bool {
-                    <#ty as ssz::Encode>::is_ssz_fixed_len()
-                }
 
-                fn ssz_fixed_len() -> usize {
-                    <#ty as ssz::Encode>::ssz_fixed_len()
-                }
+            fn ssz_fixed_len() -> usize {
+                #codec::ssz_fixed_len()
+            }
 
-                fn ssz_bytes_len(&self) -> usize {
-                    self.#index.ssz_bytes_len()
-                }
+            fn ssz_bytes_len(&self) -> usize {
+                #ssz_bytes_len
+            }
 
-                fn ssz_append(&self, buf: &mut Vec<u8>) {
-                    self.#index.ssz_append(buf)
-                }
+            fn ssz_append(&self, buf: &mut Vec<u8>) {
+                #ssz_append
             }
         }
     };
@@ -928,45 +926,43 @@ fn ssz_decode_derive_struct_transparent(
     }
 
     let mut fields = vec![];
-    let mut wrapped_type = None;
+    let mut codec = None;
 
     for (i, (ty, ident, field_opts)) in ssz_fields.into_iter().enumerate() {
-        if let Some(name) = ident {
-            if field_opts.skip_deserializing {
-                fields.push(quote! {
-                    #name: <_>::default(),
-                });
-            } else {
-                fields.push(quote! {
-                    #name: <_>::from_ssz_bytes(bytes)?,
-                });
-                wrapped_type = Some(ty);
-            }
+        let field = if let Some(name) = ident {
+            quote! { #name }
         } else {
             let index = syn::Index::from(i);
-            if field_opts.skip_deserializing {
-                fields.push(quote! {
-                    #index:<_>::default(),
-                });
+            quote! { #index }
+        };
+
+        if field_opts.skip_deserializing {
+            fields.push(quote! {
+                #field: <_>::default(),
+            });
+        } else {
+            let field_codec = if let Some(module) = field_opts.with {
+                quote! { #module::decode }
             } else {
-                fields.push(quote! {
-                    #index:<_>::from_ssz_bytes(bytes)?,
-                });
-                wrapped_type = Some(ty);
-            }
+                quote! { <#ty as ssz::Decode> }
+            };
+            fields.push(quote! {
+                #field: #field_codec::from_ssz_bytes(bytes)?,
+            });
+            codec = Some(field_codec);
         }
     }
 
-    let ty = wrapped_type.unwrap();
+    let codec = codec.unwrap();
 
     let output = quote! {
         impl #impl_generics ssz::Decode for #name #ty_generics #where_clause {
             fn is_ssz_fixed_len() -> bool {
-                <#ty as ssz::Decode>::is_ssz_fixed_len()
+                #codec::is_ssz_fixed_len()
             }
 
             fn ssz_fixed_len() -> usize {
-                <#ty as ssz::Decode>::ssz_fixed_len()
+                #codec::ssz_fixed_len()
             }
 
             fn from_ssz_bytes(bytes: &[u8]) -> std::result::Result<Self, ssz::DecodeError> {
-- 
2.43.0


From d4b7ae28d685107d0354f9c48ce9e719835ce347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:43 +0000
Subject: [PATCH 10/11] fix: BitVectorDynamic::new overflows while reporting
 lengths near usize::MAX

---
 ssz/src/bitfield/bitvector_dynamic.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ssz/src/bitfield/bitvector_dynamic.rs b/ssz/src/bitfield/bitvector_dynamic.rs
index 530d9f4..db08cdb 100644
--- a/ssz/src/bitfield/bitvector_dynamic.rs
+++ b/ssz/src/bitfield/bitvector_dynamic.rs
@@ -32,7 +32,7 @@ impl Bitfield<Dynamic> {
         if len % 8 != 0 {
             return Err(Error::InvalidByteCount {
                 given: len,
-                expected: (len / 8 + 1) * 8,
+                expected: (len / 8 + 1).saturating_mul(8),
             });
         }
         Ok(Self {
-- 
2.43.0


From 023b26cb95e457da0cb86420d7a8215594212d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:27 +0000
Subject: [PATCH 11/11] fix: BitList's Arbitrary allocates up to N bytes
 whatever the data, aborting for large N

---
 ssz/src/bitfield.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ssz/src/bitfield.rs b/ssz/src/bitfield.rs
index 24f99e7..5bd7fae 100644
--- a/ssz/src/bitfield.rs
+++ b/ssz/src/bitfield.rs
@@ -704,7 +704,9 @@ impl<N: 'static + Unsigned> arbitrary::Arbitrary<'_> for Bitfield<Variable<N>> {
     fn arbitrary(u: &mut arbitrary::Unstructured<'_>) -> arbitrary::Result<Self> {
         let max_size = N::to_usize();
         let rand = usize::arbitrary(u)?;
-        let size = std::cmp::min(rand, max_size);
+        // Bytes beyond the available data would only be filled with zeros, so don't allocate them:
+        // `max_size` may exceed the memory of the machine.
+        let size = std::cmp::min(rand, max_size).min(u.len());
         let mut vec = smallvec![0u8; size];
         u.fill_buffer(&mut vec)?;
         Self::from_bytes(vec).map_err(|_| arbitrary::Error::IncorrectFormat)
-- 
2.43.0

