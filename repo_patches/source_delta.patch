From 42f799a5256e00c0d8a429136f10a0a3dcfbe1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:09 +0000
Subject: [PATCH 01/11] fix: reject a body after the None selector of an Option

---
 ssz/src/decode/impls.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ssz/src/decode/impls.rs b/ssz/src/decode/impls.rs
index 6c9b7b5..bd08c9e 100644
--- a/ssz/src/decode/impls.rs
+++ b/ssz/src/decode/impls.rs
@@ -254,7 +254,11 @@ impl<T: Decode> Decode for Option<T> {
     fn from_ssz_bytes(bytes: &[u8]) -> Result<Self, DecodeError> {
         let (selector, body) = split_union_bytes(bytes)?;
         match selector.into() {
-            0u8 => Ok(None),
+            0u8 if body.is_empty() => Ok(None),
+            0u8 => Err(DecodeError::InvalidByteLength {
+                len: bytes.len(),
+                expected: BYTES_PER_UNION_SELECTOR,
+            }),
             1u8 => <T as Decode>::from_ssz_bytes(body).map(Option::Some),
             other => Err(DecodeError::UnionSelectorInvalid(other)),
         }
-- 
2.43.0


From 652eccd842390d057753e61f31060f85df3c42bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:14 +0000
Subject: [PATCH 02/11] fix: reject trailing bytes after the None selector of a
 legacy option

---
 ssz/src/legacy.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ssz/src/legacy.rs b/ssz/src/legacy.rs
index 5cce666..9ee6169 100644
--- a/ssz/src/legacy.rs
+++ b/ssz/src/legacy.rs
@@ -100,6 +100,12 @@ macro_rules! four_byte_option_impl {
 
                     let index = legacy::read_four_byte_union_selector(index_bytes)?;
                     if index == 0 {
+                        if !value_bytes.is_empty() {
+                            return Err(DecodeError::InvalidByteLength {
+                                len: bytes.len(),
+                                expected: BYTES_PER_LENGTH_OFFSET,
+                            });
+                        }
                         Ok(None)
                     } else if index == 1 {
                         Ok(Some(<$type as ssz::Decode>::from_ssz_bytes(value_bytes)?))
-- 
2.43.0


From 0f0c86422ef010044b643aa1deff16bf7895e990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:19 +0000
Subject: [PATCH 03/11] fix: reject trailing bytes when decoding a tag enum

---
 ssz_derive/src/lib.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ssz_derive/src/lib.rs b/ssz_derive/src/lib.rs
index c6ca75d..2d7c92f 100644
--- a/ssz_derive/src/lib.rs
+++ b/ssz_derive/src/lib.rs
@@ -1015,6 +1015,13 @@ fn ssz_decode_derive_enum_tag(derive_input: &DeriveInput, enum_data: &DataEnum)
                     .copied()
                     .ok_or(ssz::DecodeError::OutOfBoundsByte { i: 0 })?;
 
+                if bytes.len() != 1 {
+                    return Err(ssz::DecodeError::InvalidByteLength {
+                        len: bytes.len(),
+                        expected: 1,
+                    });
+                }
+
                 match byte {
                     #(
                         #union_selectors => {
-- 
2.43.0


From ba3f3fa82dd1e545e04c52b11beda0315ce8c27c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:25 +0000
Subject: [PATCH 04/11] fix: return ZeroLengthItem instead of panicking on
 lists of zero-length items

---
 ssz/src/decode/impls.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/ssz/src/decode/impls.rs b/ssz/src/decode/impls.rs
index bd08c9e..8e68d21 100644
--- a/ssz/src/decode/impls.rs
+++ b/ssz/src/decode/impls.rs
@@ -423,6 +423,14 @@ impl<const N: usize> Decode for [u8; N] {
     }
 }
 
+/// The length of the items of a list of fixed-size `T`, which must not be zero.
+fn list_item_len<T: Decode>() -> Result<usize, DecodeError> {
+    match T::ssz_fixed_len() {
+        0 => Err(DecodeError::ZeroLengthItem),
+        len => Ok(len),
+    }
+}
+
 impl<T: Decode> Decode for Vec<T> {
     fn is_ssz_fixed_len() -> bool {
         false
@@ -433,7 +441,7 @@ impl<T: Decode> Decode for Vec<T> {
             Ok(vec![])
         } else if T::is_ssz_fixed_len() {
             bytes
-                .chunks(T::ssz_fixed_len())
+                .chunks(list_item_len::<T>()?)
                 .map(T::from_ssz_bytes)
                 .collect()
         } else {
@@ -452,7 +460,7 @@ impl<T: Decode, const N: usize> Decode for SmallVec<[T; N]> {
             Ok(SmallVec::new())
         } else if T::is_ssz_fixed_len() {
             bytes
-                .chunks(T::ssz_fixed_len())
+                .chunks(list_item_len::<T>()?)
                 .map(T::from_ssz_bytes)
                 .collect()
         } else {
@@ -475,7 +483,7 @@ where
             Ok(Self::from_iter(iter::empty()))
         } else if <(K, V)>::is_ssz_fixed_len() {
             bytes
-                .chunks(<(K, V)>::ssz_fixed_len())
+                .chunks(list_item_len::<(K, V)>()?)
                 .map(<(K, V)>::from_ssz_bytes)
                 .collect()
         } else {
@@ -497,7 +505,7 @@ where
             Ok(Self::from_iter(iter::empty()))
         } else if T::is_ssz_fixed_len() {
             bytes
-                .chunks(T::ssz_fixed_len())
+                .chunks(list_item_len::<T>()?)
                 .map(T::from_ssz_bytes)
                 .collect()
         } else {
-- 
2.43.0


From 1f5d628203bca32e8dc046fcf64679111afee522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:31 +0000
Subject: [PATCH 05/11] fix: do not overflow when registering an item of huge
 fixed length

---
 ssz/src/decode.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ssz/src/decode.rs b/ssz/src/decode.rs
index 814aa70..03ec626 100644
--- a/ssz/src/decode.rs
+++ b/ssz/src/decode.rs
@@ -188,7 +188,13 @@ impl<'a> SszDecoderBuilder<'a> {
     ) -> Result<(), DecodeError> {
         if is_ssz_fixed_len {
             let start = self.items_index;
-            self.items_index += ssz_fixed_len;
+            self.items_index =
+                start
+                    .checked_add(ssz_fixed_len)
+                    .ok_or(DecodeError::InvalidByteLength {
+                        len: self.bytes.len(),
+                        expected: usize::MAX,
+                    })?;
 
             let slice =
                 self.bytes
-- 
2.43.0


From aa175a6bb1390f2a9794644c9e61df66c0cf569a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:36 +0000
Subject: [PATCH 06/11] fix: size the Arbitrary buffer of BitVector in bytes
 rather than bits

---
 ssz/src/bitfield.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ssz/src/bitfield.rs b/ssz/src/bitfield.rs
index aa8fc13..24f99e7 100644
--- a/ssz/src/bitfield.rs
+++ b/ssz/src/bitfield.rs
@@ -692,7 +692,7 @@ impl<'de, N: Unsigned + Clone> Deserialize<'de> for Bitfield<Fixed<N>> {
 #[cfg(feature = "arbitrary")]
 impl<N: 'static + Unsigned> arbitrary::Arbitrary<'_> for Bitfield<Fixed<N>> {
     fn arbitrary(u: &mut arbitrary::Unstructured<'_>) -> arbitrary::Result<Self> {
-        let size = N::to_usize();
+        let size = bytes_for_bit_len(N::to_usize());
         let mut vec = smallvec![0u8; size];
         u.fill_buffer(&mut vec)?;
         Self::from_bytes(vec).map_err(|_| arbitrary::Error::IncorrectFormat)
-- 
2.43.0


From a7ea9ae2f5b7b5e5301b4176108a4f734847bb6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:36 +0000
Subject: [PATCH 07/11] fix: do not allocate more than the input holds in
 Arbitrary for BitList

---
 ssz/src/bitfield.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ssz/src/bitfield.rs b/ssz/src/bitfield.rs
index 24f99e7..fe8cf54 100644
--- a/ssz/src/bitfield.rs
+++ b/ssz/src/bitfield.rs
@@ -705,6 +705,11 @@ impl<N: 'static + Unsigned> arbitrary::Arbitrary<'_> for Bitfield<Variable<N>> {
         let max_size = N::to_usize();
         let rand = usize::arbitrary(u)?;
         let size = std::cmp::min(rand, max_size);
+        // Do not allocate for bytes which the input can not supply. They would be filled with
+        // zeros, and a bitlist without a delimiter bit in the last byte is invalid.
+        if size > u.len() {
+            return Err(arbitrary::Error::NotEnoughData);
+        }
         let mut vec = smallvec![0u8; size];
         u.fill_buffer(&mut vec)?;
         Self::from_bytes(vec).map_err(|_| arbitrary::Error::IncorrectFormat)
-- 
2.43.0


From fe065a747f7aed0e74c436c1f33cc2a47fb9fdd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:41 +0000
Subject: [PATCH 08/11] fix: derive Encode for transparent structs from
 skip_serializing

---
 ssz_derive/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ssz_derive/src/lib.rs b/ssz_derive/src/lib.rs
index 2d7c92f..c239c20 100644
--- a/ssz_derive/src/lib.rs
+++ b/ssz_derive/src/lib.rs
@@ -456,7 +456,7 @@ fn ssz_encode_derive_struct_transparent(
     let ssz_fields = parse_ssz_fields(struct_data);
     let num_fields = ssz_fields
         .iter()
-        .filter(|(_, _, field_opts)| !field_opts.skip_deserializing)
+        .filter(|(_, _, field_opts)| !field_opts.skip_serializing)
         .count();
 
     if num_fields != 1 {
@@ -469,7 +469,7 @@ fn ssz_encode_derive_struct_transparent(
     let (index, (ty, ident, _field_opts)) = ssz_fields
         .iter()
         .enumerate()
-        .find(|(_, (_, _, field_opts))| !field_opts.skip_deserializing)
+        .find(|(_, (_, _, field_opts))| !field_opts.skip_serializing)
         .expect("\"transparent\" struct must have at least one non-skipped field");
 
     // Remove the `_usize` suffix from the value to avoid a compiler warning.
-- 
2.43.0


From f8260ceab1b8b3955b1bf2613939e1c18b258e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:10 +0000
Subject: [PATCH 09/11] fix: honour #[ssz(with)] on the live field of a
 transparent struct

---
 ssz_derive/src/lib.rs | 119 ++++++++++++++++++++++--------------------
 1 file changed, 62 insertions(+), 57 deletions(-)

diff --git a/ssz_derive/src/lib.rs b/ssz_derive/src/lib.rs
index c239c20..9cfd016 100644
--- a/ssz_derive/src/lib.rs
+++ b/ssz_derive/src/lib.rs
@@ -466,7 +466,7 @@ fn ssz_encode_derive_struct_transparent(
         );
     }
 
-    let (index, (ty, ident, _field_opts)) = ssz_fields
+    let (index, (ty, ident, field_opts)) = ssz_fields
         .iter()
         .enumerate()
         .find(|(_, (_, _, field_opts))| !field_opts.skip_serializing)
@@ -475,44 +475,46 @@ fn ssz_encode_derive_struct_transparent(
     // Remove the `_usize` suffix from the value to avoid a compiler warning.
     let index = Index::from(index);
 
-    let output = if let Some(field_name) = ident {
-        quote! {
-            impl #impl_generics ssz::Encode for #name #ty_generics #where_clause {
-                fn is_ssz_fixed_len() -> bool {
-                    <#ty as ssz::Encode>::is_ssz_fixed_len()
-                }
-
-                fn ssz_fixed_len() -> usize {
-                    <#ty as ssz::Encode>::ssz_fixed_len()
-                }
+    let field = if let Some(field_name) = ident {
+        quote! { self.#field_name }
+    } else {
+        quote! { self.#index }
+    };
 
-                fn ssz_bytes_len(&self) -> usize {
-                    self.#field_name.ssz_bytes_len()
-                }
+    let (is_ssz_fixed_len, ssz_fixed_len, ssz_bytes_len, ssz_append) =
+        if let Some(module) = &field_opts.with {
+            let module = quote! { #module::encode };
+            (
+                quote! { #module::is_ssz_fixed_len() },
+                quote! { #module::ssz_fixed_len() },
+                quote! { #module::ssz_bytes_len(&#field) },
+                quote! { #module::ssz_append(&#field, buf) },
+            )
+        } else {
+            (
+                quote! { <#ty as ssz::Encode>::is_ssz_fixed_len() },
+                quote! { <#ty as ssz::Encode>::ssz_fixed_len() },
+                quote! { #field.ssz_bytes_len() },
+                quote! { #field.ssz_append(buf) },
+            )
+        };
 
-                fn ssz_append(&self, buf: &mut Vec<u8>) {
-                    self.#field_name.ssz_append(buf)
-                }
+    let output = quote! {
+        impl #impl_generics ssz::Encode for #name #ty_generics #where_clause {
+            fn is_ssz_fixed_len() -> bool {
+                #is_ssz_fixed_len
             }
-        }
-    } else {
-        quote! {
-            impl #impl_generics ssz::Encode for #name #ty_generics #where_clause {
-                fn is_ssz_fixed_len() -> bool {
-                    <#ty as ssz::Encode>::is_ssz_fixed_len()
-                }
 
-                fn ssz_fixed_len() -> usize {
-                    <#ty as ssz::Encode>::ssz_fixed_len()
-                }
+            fn ssz_fixed_len() -> usize {
+                #ssz_fixed_len
+            }
 
-                fn ssz_bytes_len(&self) -> usize {
-                    self.#index.ssz_bytes_len()
-                }
+            fn ssz_bytes_len(&self) -> usize {
+                #ssz_bytes_len
+            }
 
-                fn ssz_append(&self, buf: &mut Vec<u8>) {
-                    self.#index.ssz_append(buf)
-                }
+            fn ssz_append(&self, buf: &mut Vec<u8>) {
+                #ssz_append
             }
         }
     };
@@ -922,45 +924,48 @@ fn ssz_decode_derive_struct_transparent(
     }
 
     let mut fields = vec![];
-    let mut wrapped_type = None;
+    let mut wrapped_lens = None;
 
     for (i, (ty, ident, field_opts)) in ssz_fields.into_iter().enumerate() {
+        let value = if field_opts.skip_deserializing {
+            quote! { <_>::default() }
+        } else if let Some(module) = field_opts.with {
+            let module = quote! { #module::decode };
+            wrapped_lens = Some((
+                quote! { #module::is_ssz_fixed_len() },
+                quote! { #module::ssz_fixed_len() },
+            ));
+            quote! { #module::from_ssz_bytes(bytes)? }
+        } else {
+            wrapped_lens = Some((
+                quote! { <#ty as ssz::Decode>::is_ssz_fixed_len() },
+                quote! { <#ty as ssz::Decode>::ssz_fixed_len() },
+            ));
+            quote! { <_>::from_ssz_bytes(bytes)? }
+        };
+
         if let Some(name) = ident {
-            if field_opts.skip_deserializing {
-                fields.push(quote! {
-                    #name: <_>::default(),
-                });
-            } else {
-                fields.push(quote! {
-                    #name: <_>::from_ssz_bytes(bytes)?,
-                });
-                wrapped_type = Some(ty);
-            }
+            fields.push(quote! {
+                #name: #value,
+            });
         } else {
             let index = syn::Index::from(i);
-            if field_opts.skip_deserializing {
-                fields.push(quote! {
-                    #index:<_>::default(),
-                });
-            } else {
-                fields.push(quote! {
-                    #index:<_>::from_ssz_bytes(bytes)?,
-                });
-                wrapped_type = Some(ty);
-            }
+            fields.push(quote! {
+                #index: #value,
+            });
         }
     }
 
-    let ty = wrapped_type.unwrap();
+    let (is_ssz_fixed_len, ssz_fixed_len) = wrapped_lens.unwrap();
 
     let output = quote! {
         impl #impl_generics ssz::Decode for #name #ty_generics #where_clause {
             fn is_ssz_fixed_len() -> bool {
-                <#ty as ssz::Decode>::is_ssz_fixed_len()
+                #is_ssz_fixed_len
             }
 
             fn ssz_fixed_len() -> usize {
-                <#ty as ssz::Decode>::ssz_fixed_len()
+                #ssz_fixed_len
             }
 
             fn from_ssz_bytes(bytes: &[u8]) -> std::result::Result<Self, ssz::DecodeError> {
-- 
2.43.0


From 78c283f00befc4b8f8cfbf52dcabbbcf67a87a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:52 +0000
Subject: [PATCH 10/11] fix: BitVectorDynamic::new no longer overflows while
 refusing a length above usize::MAX - 7

---
 ssz/src/bitfield/bitvector_dynamic.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ssz/src/bitfield/bitvector_dynamic.rs b/ssz/src/bitfield/bitvector_dynamic.rs
index 530d9f4..db08cdb 100644
--- a/ssz/src/bitfield/bitvector_dynamic.rs
+++ b/ssz/src/bitfield/bitvector_dynamic.rs
@@ -32,7 +32,7 @@ impl Bitfield<Dynamic> {
         if len % 8 != 0 {
             return Err(Error::InvalidByteCount {
                 given: len,
-                expected: (len / 8 + 1) * 8,
+                expected: (len / 8 + 1).saturating_mul(8),
             });
         }
         Ok(Self {
-- 
2.43.0


From 59897ca024c76a4a67450ccbeb8c1574acd94ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:52 +0000
Subject: [PATCH 11/11] fix: BitList::resize no longer overflows while refusing
 to shrink from a capacity of usize::MAX

---
 ssz/src/bitfield.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ssz/src/bitfield.rs b/ssz/src/bitfield.rs
index fe8cf54..f6e5ea1 100644
--- a/ssz/src/bitfield.rs
+++ b/ssz/src/bitfield.rs
@@ -263,7 +263,7 @@ impl<N: Unsigned + Clone> Bitfield<Variable<N>> {
         if N::to_usize() > M::to_usize() {
             return Err(Error::InvalidByteCount {
                 given: M::to_usize(),
-                expected: N::to_usize() + 1,
+                expected: N::to_usize().saturating_add(1),
             });
         }
 
-- 
2.43.0

