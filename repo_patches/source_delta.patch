From cc10235137bf1415c2e3c9ca9c45fffad6b98aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:49 +0000
Subject: [PATCH 01/13] fix: report a date whose year or ordinal overflows
 instead of panicking

---
 dlhn/src/date.rs        | 8 ++++----
 dlhn/src/format/date.rs | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/dlhn/src/date.rs b/dlhn/src/date.rs
index e5a2b57..73cd1f6 100644
--- a/dlhn/src/date.rs
+++ b/dlhn/src/date.rs
@@ -60,12 +60,12 @@ impl<'de> Visitor<'de> for DateVisitor {
     {
         let year = seq
             .next_element::<i32>()?
-            .ok_or(de::Error::invalid_value(Unexpected::Seq, &Error::Read))?
-            + DATE_YEAR_OFFSET;
+            .and_then(|v| v.checked_add(DATE_YEAR_OFFSET))
+            .ok_or(de::Error::invalid_value(Unexpected::Seq, &Error::Read))?;
         let ordinal = seq
             .next_element::<u16>()?
-            .ok_or(de::Error::invalid_value(Unexpected::Seq, &Error::Read))?
-            + DATE_ORDINAL_OFFSET;
+            .and_then(|v| v.checked_add(DATE_ORDINAL_OFFSET))
+            .ok_or(de::Error::invalid_value(Unexpected::Seq, &Error::Read))?;
         Ok(Date { year, ordinal })
     }
 }
diff --git a/dlhn/src/format/date.rs b/dlhn/src/format/date.rs
index d5d308d..490a8eb 100644
--- a/dlhn/src/format/date.rs
+++ b/dlhn/src/format/date.rs
@@ -24,12 +24,12 @@ impl<'de> Visitor<'de> for DateVisitor {
     {
         let year = seq
             .next_element::<i32>()?
-            .ok_or(de::Error::invalid_value(Unexpected::Seq, &Error::Read))?
-            + DATE_YEAR_OFFSET;
+            .and_then(|v| v.checked_add(DATE_YEAR_OFFSET))
+            .ok_or(de::Error::invalid_value(Unexpected::Seq, &Error::Read))?;
         let ordinal = seq
             .next_element::<u16>()?
-            .ok_or(de::Error::invalid_value(Unexpected::Seq, &Error::Read))?
-            + DATE_ORDINAL_OFFSET;
+            .and_then(|v| v.checked_add(DATE_ORDINAL_OFFSET))
+            .ok_or(de::Error::invalid_value(Unexpected::Seq, &Error::Read))?;
         let date = Date::from_ordinal_date(year, ordinal)
             .or(Err(de::Error::invalid_value(Unexpected::Seq, &Error::Read)))?;
         Ok(date)
-- 
2.43.0


From 8f07fc740b2b98a0f969446077471794d7f83af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:49 +0000
Subject: [PATCH 02/13] fix: report a timestamp past the last representable
 instant instead of panicking

---
 dlhn/src/date_time.rs        | 5 +++--
 dlhn/src/format/date_time.rs | 7 ++++---
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/dlhn/src/date_time.rs b/dlhn/src/date_time.rs
index 41af62b..ced468a 100644
--- a/dlhn/src/date_time.rs
+++ b/dlhn/src/date_time.rs
@@ -24,8 +24,9 @@ impl std::convert::TryInto<OffsetDateTime> for DateTime {
 
     fn try_into(self) -> Result<OffsetDateTime, Self::Error> {
         OffsetDateTime::from_unix_timestamp(self.unix_timestamp)
-            .map(|v| v + (self.nanosecond as i64).nanoseconds())
-            .or(Err(()))
+            .ok()
+            .and_then(|v| v.checked_add((self.nanosecond as i64).nanoseconds()))
+            .ok_or(())
     }
 }
 
diff --git a/dlhn/src/format/date_time.rs b/dlhn/src/format/date_time.rs
index 44e4bbb..2b798f7 100644
--- a/dlhn/src/format/date_time.rs
+++ b/dlhn/src/format/date_time.rs
@@ -25,9 +25,10 @@ impl<'de> Visitor<'de> for OffsetDateTimeVisitor {
         let nanosecond = seq
             .next_element::<u32>()?
             .ok_or(de::Error::invalid_value(Unexpected::Seq, &Error::Read))?;
-        Ok(OffsetDateTime::from_unix_timestamp(unix_timestamp)
-            .or(Err(de::Error::invalid_value(Unexpected::Seq, &Error::Read)))?
-            + (nanosecond as i64).nanoseconds())
+        OffsetDateTime::from_unix_timestamp(unix_timestamp)
+            .ok()
+            .and_then(|v| v.checked_add((nanosecond as i64).nanoseconds()))
+            .ok_or(de::Error::invalid_value(Unexpected::Seq, &Error::Read))
     }
 }
 
-- 
2.43.0


From 519cee00bbad745a5ed0d17cec4cb4592bcaa9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:48 +0000
Subject: [PATCH 03/13] fix: do not reserve memory for element counts announced
 on the wire

---
 dlhn/src/body/mod.rs  | 3 ++-
 dlhn/src/header/de.rs | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/dlhn/src/body/mod.rs b/dlhn/src/body/mod.rs
index 3dcaba0..b3a4ff7 100644
--- a/dlhn/src/body/mod.rs
+++ b/dlhn/src/body/mod.rs
@@ -113,7 +113,8 @@ impl Body {
             Header::Binary => ByteBuf::deserialize(deserializer).map(|v| Self::Binary(v)),
             Header::Array(inner) => {
                 let len = u64::deserialize(&mut *deserializer)?;
-                let mut buf = Vec::with_capacity(len as usize);
+                // the count is not trusted before its elements arrive
+                let mut buf = Vec::new();
                 for _ in 0..len {
                     buf.push(Self::deserialize(inner, deserializer)?);
                 }
diff --git a/dlhn/src/header/de.rs b/dlhn/src/header/de.rs
index e0002c9..6c54ade 100644
--- a/dlhn/src/header/de.rs
+++ b/dlhn/src/header/de.rs
@@ -41,7 +41,7 @@ impl<R: Read> DeserializeHeader<R> for R {
             }
             super::TUPLE_CODE => {
                 let size = u16::decode_prefix_varint(self)?;
-                let mut vec = Vec::with_capacity(size as usize);
+                let mut vec = Vec::new();
                 for _ in 0..size {
                     vec.push(self.deserialize_header()?);
                 }
@@ -61,7 +61,7 @@ impl<R: Read> DeserializeHeader<R> for R {
             }
             super::ENUM_CODE => {
                 let size = u16::decode_prefix_varint(self)?;
-                let mut buf = Vec::with_capacity(size as usize);
+                let mut buf = Vec::new();
                 for _ in 0..size {
                     buf.push(self.deserialize_header()?);
                 }
-- 
2.43.0


From fae303fad610e42acd1f73198c732c4eaa912011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:48 +0000
Subject: [PATCH 04/13] fix: read an enum's variant index with the width it is
 written with

---
 dlhn/src/de.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dlhn/src/de.rs b/dlhn/src/de.rs
index 651ba33..94cd94d 100644
--- a/dlhn/src/de.rs
+++ b/dlhn/src/de.rs
@@ -371,7 +371,7 @@ impl<'de, 'a, R: Read> de::Deserializer<'de> for &'a mut Deserializer<'de, R> {
     where
         V: de::Visitor<'de>,
     {
-        self.deserialize_u16(visitor)
+        self.deserialize_u32(visitor)
     }
 
     fn deserialize_ignored_any<V>(self, _: V) -> Result<V::Value, Self::Error>
-- 
2.43.0


From d64aa2c905b329f537baa787e37cbaae1dc1d057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:48 +0000
Subject: [PATCH 05/13] fix: serialize map keys in the binary representation
 keys are read in

---
 dlhn/src/ser.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dlhn/src/ser.rs b/dlhn/src/ser.rs
index f33e10e..3d28782 100644
--- a/dlhn/src/ser.rs
+++ b/dlhn/src/ser.rs
@@ -572,6 +572,11 @@ impl<'a, W: Write> ser::Serializer for MapKeySerializer<'a, W> {
     ) -> Result<Self::SerializeStructVariant, Self::Error> {
         Err(Error::UnsupportedKeyType)
     }
+
+    #[inline]
+    fn is_human_readable(&self) -> bool {
+        false
+    }
 }
 
 #[cfg(test)]
-- 
2.43.0


From 83e7c3258c31b46a07ea7106cd1be12eac6979a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:48 +0000
Subject: [PATCH 06/13] fix: answer the unimplemented deserializer methods
 instead of panicking

---
 dlhn/src/de.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/dlhn/src/de.rs b/dlhn/src/de.rs
index 94cd94d..38c800e 100644
--- a/dlhn/src/de.rs
+++ b/dlhn/src/de.rs
@@ -63,7 +63,7 @@ impl<'de, 'a, R: Read> de::Deserializer<'de> for &'a mut Deserializer<'de, R> {
     where
         V: de::Visitor<'de>,
     {
-        todo!()
+        Err(de::Error::custom("deserialize_any is not supported"))
     }
 
     fn deserialize_bool<V>(self, visitor: V) -> Result<V::Value, Self::Error>
@@ -200,11 +200,11 @@ impl<'de, 'a, R: Read> de::Deserializer<'de> for &'a mut Deserializer<'de, R> {
         )
     }
 
-    fn deserialize_str<V>(self, _: V) -> Result<V::Value, Self::Error>
+    fn deserialize_str<V>(self, visitor: V) -> Result<V::Value, Self::Error>
     where
         V: de::Visitor<'de>,
     {
-        todo!()
+        self.deserialize_string(visitor)
     }
 
     fn deserialize_string<V>(self, visitor: V) -> Result<V::Value, Self::Error>
@@ -236,11 +236,11 @@ impl<'de, 'a, R: Read> de::Deserializer<'de> for &'a mut Deserializer<'de, R> {
         }
     }
 
-    fn deserialize_bytes<V>(self, _: V) -> Result<V::Value, Self::Error>
+    fn deserialize_bytes<V>(self, visitor: V) -> Result<V::Value, Self::Error>
     where
         V: de::Visitor<'de>,
     {
-        todo!()
+        self.deserialize_byte_buf(visitor)
     }
 
     fn deserialize_byte_buf<V>(self, visitor: V) -> Result<V::Value, Self::Error>
@@ -378,7 +378,7 @@ impl<'de, 'a, R: Read> de::Deserializer<'de> for &'a mut Deserializer<'de, R> {
     where
         V: de::Visitor<'de>,
     {
-        todo!()
+        Err(de::Error::custom("deserialize_ignored_any is not supported"))
     }
 
     #[inline]
-- 
2.43.0


From 2a1421d4adeac72dd17a70d671065b168b07a485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:48 +0000
Subject: [PATCH 07/13] fix: refuse a header whose element count does not fit
 instead of truncating it

---
 dlhn/src/header/ser.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dlhn/src/header/ser.rs b/dlhn/src/header/ser.rs
index 979635e..e162191 100644
--- a/dlhn/src/header/ser.rs
+++ b/dlhn/src/header/ser.rs
@@ -3,7 +3,8 @@ use crate::{BigDecimal, BigInt, BigUint, Date, DateTime, PrefixVarint};
 use serde_bytes::{ByteBuf, Bytes};
 use std::{
     collections::{BTreeMap, HashMap},
-    io::{Result, Write},
+    convert::TryFrom,
+    io::{Error, ErrorKind, Result, Write},
 };
 
 pub trait SerializeHeader {
@@ -293,9 +294,11 @@ impl Header {
     }
 
     fn serialize_inner_vec<W: Write>(code: u8, inner: &Vec<Header>, writer: &mut W) -> Result<()> {
+        let len = u16::try_from(inner.len())
+            .map_err(|_| Error::new(ErrorKind::InvalidInput, "too many elements in a header"))?;
         writer.write_all(&[code])?;
         let mut buf = [0u8; u16::PREFIX_VARINT_BUF_SIZE];
-        let size = (inner.len() as u16).encode_prefix_varint(&mut buf);
+        let size = len.encode_prefix_varint(&mut buf);
         writer.write_all(&buf[..size])?;
         for v in inner {
             v.serialize(writer)?
-- 
2.43.0


From a64b704c224674be15bdb7e071df19a4816d5d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:48 +0000
Subject: [PATCH 08/13] fix: read the scale that follows a zero spelled with
 explicit bytes

---
 dlhn/src/format/big_decimal.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/dlhn/src/format/big_decimal.rs b/dlhn/src/format/big_decimal.rs
index 3b7c0cf..c8925af 100644
--- a/dlhn/src/format/big_decimal.rs
+++ b/dlhn/src/format/big_decimal.rs
@@ -21,16 +21,14 @@ impl<'de> Visitor<'de> for BigDecimalVisitor {
     where
         A: SeqAccess<'de>,
     {
-        let digits = BigInt::from_signed_bytes_le(
-            seq.next_element::<Vec<u8>>()?
-                .ok_or(de::Error::invalid_value(Unexpected::Seq, &Error::Read))?
-                .as_slice(),
-        );
-        if digits.is_zero() {
-            Ok(BigDecimal::from(digits))
+        let signed_bytes = seq
+            .next_element::<Vec<u8>>()?
+            .ok_or(de::Error::invalid_value(Unexpected::Seq, &Error::Read))?;
+        if signed_bytes.is_empty() {
+            Ok(BigDecimal::zero())
         } else {
             Ok(BigDecimal::new(
-                digits,
+                BigInt::from_signed_bytes_le(signed_bytes.as_slice()),
                 seq.next_element::<i64>()?
                     .ok_or(de::Error::invalid_value(Unexpected::Seq, &Error::Read))?,
             ))
-- 
2.43.0


From 54ce4850de6cae51f6d625a1f7d85d296622ff27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:48 +0000
Subject: [PATCH 09/13] fix: reject text of several characters where one char
 is expected

---
 dlhn/src/de.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/dlhn/src/de.rs b/dlhn/src/de.rs
index 38c800e..afc6b55 100644
--- a/dlhn/src/de.rs
+++ b/dlhn/src/de.rs
@@ -191,13 +191,12 @@ impl<'de, 'a, R: Read> de::Deserializer<'de> for &'a mut Deserializer<'de, R> {
     where
         V: de::Visitor<'de>,
     {
-        visitor.visit_char(
-            String::deserialize(self)?
-                .chars()
-                .into_iter()
-                .next()
-                .ok_or(Error::CharSize)?,
-        )
+        let s = String::deserialize(self)?;
+        let mut chars = s.chars();
+        match (chars.next(), chars.next()) {
+            (Some(c), None) => visitor.visit_char(c),
+            _ => Err(Error::CharSize),
+        }
     }
 
     fn deserialize_str<V>(self, visitor: V) -> Result<V::Value, Self::Error>
-- 
2.43.0


From 859bb32a3fb3c5580e20fb589cee2401961c1b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:28 +0000
Subject: [PATCH 10/13] fix: normalize decimals without computing a power of
 ten as large as the scale

---
 dlhn/src/big_decimal.rs        | 16 +++++++++++++++-
 dlhn/src/format/big_decimal.rs |  2 +-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/dlhn/src/big_decimal.rs b/dlhn/src/big_decimal.rs
index 34fe7a7..4d1e4b1 100644
--- a/dlhn/src/big_decimal.rs
+++ b/dlhn/src/big_decimal.rs
@@ -13,6 +13,20 @@ pub struct BigDecimal {
     scale: i64,
 }
 
+/// Digits and scale of a non-zero number without trailing zeros.
+///
+/// `bigdecimal::BigDecimal::normalized` computes `10^|scale|`, which does not terminate in
+/// practice for a large scale, and subtracts from the scale without checking for overflow.
+#[cfg(all(feature = "num-traits", feature = "bigdecimal"))]
+pub(crate) fn normalize(v: bigdecimal::BigDecimal) -> (bigdecimal::num_bigint::BigInt, i64) {
+    let (mut digits, mut scale) = v.into_bigint_and_exponent();
+    while scale > i64::MIN && (&digits % 10u32).is_zero() {
+        digits /= 10u32;
+        scale -= 1;
+    }
+    (digits, scale)
+}
+
 #[cfg(all(feature = "num-traits", feature = "bigdecimal"))]
 impl From<bigdecimal::BigDecimal> for BigDecimal {
     fn from(v: bigdecimal::BigDecimal) -> Self {
@@ -22,7 +36,7 @@ impl From<bigdecimal::BigDecimal> for BigDecimal {
                 scale: 0,
             }
         } else {
-            let (bigint, scale) = v.normalized().into_bigint_and_exponent();
+            let (bigint, scale) = normalize(v);
             Self {
                 signed_bytes: bigint.to_signed_bytes_le(),
                 scale,
diff --git a/dlhn/src/format/big_decimal.rs b/dlhn/src/format/big_decimal.rs
index c8925af..394f5b2 100644
--- a/dlhn/src/format/big_decimal.rs
+++ b/dlhn/src/format/big_decimal.rs
@@ -42,7 +42,7 @@ pub fn serialize<T: Serializer>(value: &BigDecimal, serializer: T) -> Result<T::
     if value.is_zero() {
         seq.serialize_element(&0u8)?;
     } else {
-        let (bigint, scale) = value.normalized().into_bigint_and_exponent();
+        let (bigint, scale) = crate::big_decimal::normalize(value.clone());
         seq.serialize_element(&bigint.to_signed_bytes_le())?;
         seq.serialize_element(&scale)?;
     }
-- 
2.43.0


From 41e65acd43c78658f3faab89f285714459a74072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:09 +0000
Subject: [PATCH 11/13] fix: leave skipped fields of enum variants out of the
 derived header

---
 dlhn_derive/src/lib.rs | 88 ++++++++++++++----------------------------
 1 file changed, 28 insertions(+), 60 deletions(-)

diff --git a/dlhn_derive/src/lib.rs b/dlhn_derive/src/lib.rs
index 180b4ce..051103a 100644
--- a/dlhn_derive/src/lib.rs
+++ b/dlhn_derive/src/lib.rs
@@ -82,74 +82,42 @@ pub fn derive_serialize_header(input: TokenStream) -> TokenStream {
                 }
 
                 if !is_skip_field(variant.attrs.iter()) {
-                    if variant.fields.is_empty() {
+                    let mut field_types = Vec::new();
+                    for field in variant.fields.iter() {
+                        if has_skip_serializing_if(field.attrs.iter()) {
+                            return syn::Error::new(
+                                Span::call_site(),
+                                "skip_serializing_if is not supported",
+                            )
+                            .to_compile_error()
+                            .into();
+                        }
+                        if !is_skip_field(field.attrs.iter()) {
+                            field_types.push(field.ty.to_token_stream());
+                        }
+                    }
+
+                    if field_types.len() > 1 {
+                        // let mut buf = vec![STRUCT_CODE];
+                        let mut buf = vec![TUPLE_CODE];
+                        buf.append(&mut (field_types.len() as u16).encode_prefix_varint_vec());
+                        outers.push(
+                            proc_macro2::TokenStream::from_str(format!("{:?}", buf).as_str())
+                                .unwrap(),
+                        );
+                    } else {
                         outers.push(
                             Group::new(Delimiter::Bracket, proc_macro2::TokenStream::new())
                                 .into_token_stream(),
                         );
-                        inners.push(vec![Group::new(
-                            Delimiter::Parenthesis,
-                            proc_macro2::TokenStream::new(),
-                        )
-                        .into_token_stream()]);
-                    } else {
-                        if variant.fields.len() > 1 {
-                            match &variant.fields {
-                                syn::Fields::Named(fields) => {
-                                    // let mut buf = vec![STRUCT_CODE];
-                                    let mut buf = vec![TUPLE_CODE];
-                                    buf.append(
-                                        &mut (variant.fields.len() as u16)
-                                            .encode_prefix_varint_vec(),
-                                    );
-                                    outers.push(
-                                        proc_macro2::TokenStream::from_str(
-                                            format!("{:?}", buf).as_str(),
-                                        )
-                                        .unwrap(),
-                                    );
-
-                                    let mut field_types = Vec::new();
-                                    fields.named.iter().for_each(|field| {
-                                        field_types.push(field.ty.to_token_stream());
-                                    });
-                                    inners.push(field_types);
-                                }
-                                syn::Fields::Unnamed(fields) => {
-                                    let mut buf = vec![TUPLE_CODE];
-                                    buf.append(
-                                        &mut (variant.fields.len() as u16)
-                                            .encode_prefix_varint_vec(),
-                                    );
-                                    outers.push(
-                                        proc_macro2::TokenStream::from_str(
-                                            format!("{:?}", buf).as_str(),
-                                        )
-                                        .unwrap(),
-                                    );
-
-                                    inners.push(
-                                        fields
-                                            .unnamed
-                                            .iter()
-                                            .map(|field| field.ty.to_token_stream())
-                                            .collect(),
-                                    );
-                                }
-                                syn::Fields::Unit => todo!(),
-                            }
-                        } else {
-                            outers.push(
-                                Group::new(Delimiter::Bracket, proc_macro2::TokenStream::new())
+                        if field_types.is_empty() {
+                            field_types.push(
+                                Group::new(Delimiter::Parenthesis, proc_macro2::TokenStream::new())
                                     .into_token_stream(),
                             );
-                            let mut field_types = Vec::new();
-                            variant.fields.iter().for_each(|field| {
-                                field_types.push(field.ty.to_token_stream());
-                            });
-                            inners.push(field_types);
                         }
                     }
+                    inners.push(field_types);
                 }
             }
 
-- 
2.43.0


From a71626557e863fbae4dcf5acb5fa380fc72bf8d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:00 +0000
Subject: [PATCH 12/13] fix: keep the field of a newtype struct in its derived
 header, as serde always writes it

---
 dlhn_derive/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dlhn_derive/src/lib.rs b/dlhn_derive/src/lib.rs
index 051103a..ac59c4c 100644
--- a/dlhn_derive/src/lib.rs
+++ b/dlhn_derive/src/lib.rs
@@ -25,6 +25,9 @@ pub fn derive_serialize_header(input: TokenStream) -> TokenStream {
     match item.data {
         syn::Data::Struct(data) => {
             let mut types = Vec::new();
+            // serde writes the field of a newtype struct even if it is marked to be skipped
+            let is_newtype =
+                matches!(&data.fields, syn::Fields::Unnamed(v) if v.unnamed.len() == 1);
 
             for field in data.fields.iter() {
                 if has_skip_serializing_if(field.attrs.iter()) {
@@ -36,7 +39,7 @@ pub fn derive_serialize_header(input: TokenStream) -> TokenStream {
                     .into();
                 }
 
-                if !is_skip_field(field.attrs.iter()) {
+                if is_newtype || !is_skip_field(field.attrs.iter()) {
                     types.push(field.ty.to_token_stream());
                 }
             }
-- 
2.43.0


From b83cf753319ce30f43dfd210ef2e0e97cfa23c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:13 +0000
Subject: [PATCH 13/13] fix: refuse a map of unknown length instead of writing
 it without its count

---
 dlhn/src/ser.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dlhn/src/ser.rs b/dlhn/src/ser.rs
index 3d28782..c6d3bf9 100644
--- a/dlhn/src/ser.rs
+++ b/dlhn/src/ser.rs
@@ -233,9 +233,9 @@ impl<'a, W: Write> ser::Serializer for &'a mut Serializer<W> {
     }
 
     fn serialize_map(self, len: Option<usize>) -> Result<Self::SerializeMap, Self::Error> {
-        if let Some(len) = len {
-            len.serialize(&mut *self)?;
-        }
+        // without its count, a map could not be read back
+        let len = len.ok_or_else(|| ser::Error::custom("map of unknown length"))?;
+        len.serialize(&mut *self)?;
         Ok(self)
     }
 
-- 
2.43.0

