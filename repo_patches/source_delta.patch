From 1b4fa0fa284f8a57b991f5e2e84e9dba36c331ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:01 +0000
Subject: [PATCH 01/10] fix: msgpack: fail when text gets shorter between the
 two formattings of collect_str

---
 ser-write-msgpack/src/ser.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ser-write-msgpack/src/ser.rs b/ser-write-msgpack/src/ser.rs
index 650c822..efa4a3a 100644
--- a/ser-write-msgpack/src/ser.rs
+++ b/ser-write-msgpack/src/ser.rs
@@ -569,7 +569,12 @@ impl<'a, W: SerWrite> ser::Serializer for &'a mut $serializer<W>
         let StringLenCounter(len) = col;
         write_str_len(&mut self.output, len)?;
         let mut col = StringCollector::new(len, &mut self.output);
-        fmt::write(&mut col, format_args!("{}", value)).map_err(|_| Error::FormatError)
+        fmt::write(&mut col, format_args!("{}", value)).map_err(|_| Error::FormatError)?;
+        // the text must be exactly as long as announced in its header
+        if col.len != 0 {
+            return Err(Error::FormatError)
+        }
+        Ok(())
     }
 }
 
-- 
2.43.0


From e07956e463ba027256e756d8f7da6ee7673409bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:01 +0000
Subject: [PATCH 02/10] fix: msgpack: collect_str reports an error returned by
 the formatter instead of panicking

---
 ser-write-msgpack/src/ser.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ser-write-msgpack/src/ser.rs b/ser-write-msgpack/src/ser.rs
index efa4a3a..23b4c02 100644
--- a/ser-write-msgpack/src/ser.rs
+++ b/ser-write-msgpack/src/ser.rs
@@ -555,7 +555,9 @@ impl<'a, W: SerWrite> ser::Serializer for &'a mut $serializer<W>
     fn collect_str<T>(self, value: &T) -> Result<Self::Ok, W::Error>
         where T: fmt::Display + ?Sized
     {
-        self.serialize_str(&value.to_string())
+        let mut text = String::new();
+        fmt::write(&mut text, format_args!("{}", value)).map_err(|_| Error::FormatError)?;
+        self.serialize_str(&text)
     }
 
     #[cfg(not(any(feature = "std", feature = "alloc")))]
-- 
2.43.0


From e9a2bb9f5f5219d1886ec3bc052fe5bc19f4f5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:01 +0000
Subject: [PATCH 03/10] fix: json: deserialize map keys wrapped in newtype
 structs

---
 ser-write-json/src/de.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/ser-write-json/src/de.rs b/ser-write-json/src/de.rs
index 6fb1043..b10a891 100644
--- a/ser-write-json/src/de.rs
+++ b/ser-write-json/src/de.rs
@@ -1443,9 +1443,19 @@ impl<'de, 'a, P> de::Deserializer<'de> for MapKey<'a, 'de, P>
         visitor.visit_enum(UnitVariantAccess { de: self.de })
     }
 
+    fn deserialize_newtype_struct<V>(
+        self,
+        _name: &'static str,
+        visitor: V,
+    ) -> Result<V::Value>
+        where V: Visitor<'de>
+    {
+        visitor.visit_newtype_struct(self)
+    }
+
     forward_to_deserialize_any! {
         i128 u128 f32 f64 string
-        bytes byte_buf option unit unit_struct newtype_struct seq tuple
+        bytes byte_buf option unit unit_struct seq tuple
         tuple_struct map struct identifier ignored_any
     }
 }
-- 
2.43.0


From 6d1ac359665a55fad00ab52255de3c81a2acf9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:01 +0000
Subject: [PATCH 04/10] fix: json: report end of input instead of panicking
 when the cursor is beyond the input

---
 ser-write-json/src/de.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ser-write-json/src/de.rs b/ser-write-json/src/de.rs
index b10a891..4c86fa7 100644
--- a/ser-write-json/src/de.rs
+++ b/ser-write-json/src/de.rs
@@ -423,8 +423,9 @@ impl<'de, P> Deserializer<'de, P> {
     /// are no more unparsed characters remaining in the input slice.
     pub fn eat_whitespace(&mut self) -> Result<u8> {
         let index = self.index;
-        self.input[index..].iter()
-        .position(|&b| !matches!(b, SP|T_|N_|R_))
+        self.input.get(index..)
+        .and_then(|input| input.iter()
+            .position(|&b| !matches!(b, SP|T_|N_|R_)))
         .map(|pos| {
             self.index = index + pos;
             self.input[index + pos]
-- 
2.43.0


From 60701408fc36bb5dcf4386a08d2cdf544f8196da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:24 +0000
Subject: [PATCH 05/10] fix: json: deserialize_any reads whole numbers beyond
 the range of integers as floats

---
 ser-write-json/src/de.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/ser-write-json/src/de.rs b/ser-write-json/src/de.rs
index 4c86fa7..c4455ae 100644
--- a/ser-write-json/src/de.rs
+++ b/ser-write-json/src/de.rs
@@ -8,7 +8,7 @@ use alloc::{string::String, string::ToString};
 
 use core::cell::Cell;
 use core::ops::Neg;
-use core::num::{ParseIntError, ParseFloatError};
+use core::num::{IntErrorKind, ParseIntError, ParseFloatError};
 use core::slice::from_raw_parts_mut;
 use core::str::{Utf8Error, FromStr};
 use core::{fmt, str};
@@ -604,11 +604,20 @@ impl<'de, P> Deserializer<'de, P> {
         let num = if is_float {
             AnyNumber::Float(AnyFloat::from_str(s)?)
         }
-        else if is_negative {
-            AnyNumber::NegInt(i64::from_str(s)?)
-        }
         else {
-            AnyNumber::PosInt(u64::from_str(s)?)
+            let num = if is_negative {
+                i64::from_str(s).map(AnyNumber::NegInt)
+            }
+            else {
+                u64::from_str(s).map(AnyNumber::PosInt)
+            };
+            match num {
+                // large floats are written without a fraction or an exponent
+                Err(e) if matches!(e.kind(), IntErrorKind::PosOverflow|IntErrorKind::NegOverflow) => {
+                    AnyNumber::Float(AnyFloat::from_str(s)?)
+                }
+                num => num?
+            }
         };
         self.eat_some(input.len());
         Ok(num)
-- 
2.43.0


From 3945ecbe704168594b9f703798cd445dba360393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:24 +0000
Subject: [PATCH 06/10] fix: msgpack: accept every encoding of variant maps and
 integer identifiers

---
 ser-write-msgpack/src/de.rs | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/ser-write-msgpack/src/de.rs b/ser-write-msgpack/src/de.rs
index f906d6b..ad7302d 100644
--- a/ser-write-msgpack/src/de.rs
+++ b/ser-write-msgpack/src/de.rs
@@ -748,13 +748,25 @@ impl<'de> de::Deserializer<'de> for &mut Deserializer<'de> {
         where V: Visitor<'de>
     {
         const FIXMAP_1: u8 = FIXMAP|1;
-        match self.peek()? {
+        let len: usize = match self.peek()? {
             FIXMAP_1 => {
                 self.eat_some(1);
-                visitor.visit_enum(VariantAccess { de: self })
+                1
+            }
+            MAP_16 => {
+                self.eat_some(1);
+                self.fetch_u16()?.into()
             }
-            _ => visitor.visit_enum(UnitVariantAccess { de: self })
+            MAP_32 => {
+                self.eat_some(1);
+                self.fetch_u32()?.try_into()?
+            }
+            _ => return visitor.visit_enum(UnitVariantAccess { de: self })
+        };
+        if len != 1 {
+            return Err(Error::ExpectedIdentifier)
         }
+        visitor.visit_enum(VariantAccess { de: self })
     }
 
     fn deserialize_identifier<V>(self, visitor: V) -> Result<V::Value>
@@ -764,7 +776,12 @@ impl<'de> de::Deserializer<'de> for &mut Deserializer<'de> {
             MIN_POSFIXINT..=MAX_POSFIXINT|
             UINT_8|
             UINT_16|
-            UINT_32 => self.deserialize_u32(visitor),
+            UINT_32|
+            UINT_64|
+            INT_8|
+            INT_16|
+            INT_32|
+            INT_64 => self.deserialize_u32(visitor),
             FIXSTR..=FIXSTR_MAX|
             STR_8|
             STR_16|
-- 
2.43.0


From f381356637df9d60505f2e7fcf0ad39cea5611ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:24 +0000
Subject: [PATCH 07/10] fix: msgpack: skip messages without recursion so deep
 nesting does not exhaust the stack

---
 ser-write-msgpack/src/de.rs | 43 ++++++++++++++++---------------------
 1 file changed, 19 insertions(+), 24 deletions(-)

diff --git a/ser-write-msgpack/src/de.rs b/ser-write-msgpack/src/de.rs
index ad7302d..1c1e01a 100644
--- a/ser-write-msgpack/src/de.rs
+++ b/ser-write-msgpack/src/de.rs
@@ -170,8 +170,8 @@ impl From<Utf8Error> for Error {
 
 enum MsgType {
     Single(usize),
-    Array(usize),
-    Map(usize),
+    Array(u32),
+    Map(u32),
 }
 
 /// Some methods in a `Deserializer` object are made public to allow custom
@@ -357,6 +357,16 @@ impl<'de> Deserializer<'de> {
     /// Return `Ok(())` on success or `Err(Error::UnexpectedEof)` if there was not enough data
     /// to fully decode a MessagePack item.
     pub fn eat_message(&mut self) -> Result<()> {
+        // count messages instead of recursing, nesting depth is decided by the input
+        let mut pending = 1u64;
+        while pending != 0 {
+            pending = (pending - 1).saturating_add(self.eat_message_head()?);
+        }
+        Ok(())
+    }
+
+    /// Consume a scalar or a header of an array or a map and return the number of messages nested in it.
+    fn eat_message_head(&mut self) -> Result<u64> {
         use MsgType::*;
         let mtyp = match self.fetch()? {
             NIL|
@@ -364,8 +374,8 @@ impl<'de> Deserializer<'de> {
             TRUE|
             MIN_POSFIXINT..=MAX_POSFIXINT|
             NEGFIXINT..=0xff => Single(0),
-            c@(FIXMAP..=FIXMAP_MAX) => Map((c as usize) & MAX_FIXMAP_SIZE),
-            c@(FIXARRAY..=FIXARRAY_MAX) => Array((c as usize) & MAX_FIXARRAY_SIZE),
+            c@(FIXMAP..=FIXMAP_MAX) => Map(((c as usize) & MAX_FIXMAP_SIZE) as u32),
+            c@(FIXARRAY..=FIXARRAY_MAX) => Array(((c as usize) & MAX_FIXARRAY_SIZE) as u32),
             c@(FIXSTR..=FIXSTR_MAX) => Single((c as usize) & MAX_FIXSTR_SIZE),
             RESERVED => return Err(Error::ReservedCode),
             BIN_8|STR_8 => Single(self.fetch_u8()?.into()),
@@ -390,9 +400,9 @@ impl<'de> Deserializer<'de> {
             FIXEXT_8 => Single(9),
             FIXEXT_16 => Single(17),
             ARRAY_16 => Array(self.fetch_u16()?.into()),
-            ARRAY_32 => Array(self.fetch_u32()?.try_into()?),
+            ARRAY_32 => Array(self.fetch_u32()?),
             MAP_16 => Map(self.fetch_u16()?.into()),
-            MAP_32 => Map(self.fetch_u32()?.try_into()?),
+            MAP_32 => Map(self.fetch_u32()?),
         };
         match mtyp {
             Single(len) => {
@@ -401,26 +411,11 @@ impl<'de> Deserializer<'de> {
                     return Err(Error::UnexpectedEof)
                 }
                 self.index = index;
+                Ok(0)
             }
-            Array(len) => self.eat_seq_items(len)?,
-            Map(len) => self.eat_map_items(len)?
+            Array(len) => Ok(len.into()),
+            Map(len) => Ok(2 * u64::from(len))
         }
-        Ok(())
-    }
-
-    fn eat_seq_items(&mut self, len: usize) -> Result<()> {
-        for _ in 0..len {
-            self.eat_message()?;
-        }
-        Ok(())
-    }
-
-    fn eat_map_items(&mut self, len: usize) -> Result<()> {
-        for _ in 0..len {
-            self.eat_message()?;
-            self.eat_message()?;
-        }
-        Ok(())
     }
 
 }
-- 
2.43.0


From 8f4ae5e1743760d695a1a3dc07ec47ef85675af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:16 +0000
Subject: [PATCH 08/10] fix: msgpack: collect_str reports an error instead of
 aborting when there is no memory for the text

---
 ser-write-msgpack/src/ser.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/ser-write-msgpack/src/ser.rs b/ser-write-msgpack/src/ser.rs
index 23b4c02..1cc70f0 100644
--- a/ser-write-msgpack/src/ser.rs
+++ b/ser-write-msgpack/src/ser.rs
@@ -555,8 +555,9 @@ impl<'a, W: SerWrite> ser::Serializer for &'a mut $serializer<W>
     fn collect_str<T>(self, value: &T) -> Result<Self::Ok, W::Error>
         where T: fmt::Display + ?Sized
     {
-        let mut text = String::new();
-        fmt::write(&mut text, format_args!("{}", value)).map_err(|_| Error::FormatError)?;
+        let mut col = StringCollector(String::new());
+        fmt::write(&mut col, format_args!("{}", value)).map_err(|_| Error::FormatError)?;
+        let StringCollector(text) = col;
         self.serialize_str(&text)
     }
 
@@ -675,6 +676,19 @@ fn write_map_len<W: SerWrite>(output: &mut W, len: usize) -> Result<(), W::Error
     Ok(())
 }
 
+/// Collects text on the heap, reports an error when there is no memory for it.
+#[cfg(any(feature = "std", feature = "alloc"))]
+struct StringCollector(String);
+
+#[cfg(any(feature = "std", feature = "alloc"))]
+impl fmt::Write for StringCollector {
+    fn write_str(&mut self, s: &str) -> fmt::Result {
+        self.0.try_reserve(s.len()).map_err(|_| fmt::Error)?;
+        self.0.push_str(s);
+        Ok(())
+    }
+}
+
 #[cfg(not(any(feature = "std", feature = "alloc")))]
 struct StringLenCounter(usize);
 
-- 
2.43.0


From 5442dcf6a4213ba38d7ee0daa4a52e647b2d751a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:38 +0000
Subject: [PATCH 09/10] fix: msgpack: skipping announced lengths near 4 GiB
 must not overflow positions on 32-bit machines

---
 ser-write-msgpack/src/de.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/ser-write-msgpack/src/de.rs b/ser-write-msgpack/src/de.rs
index 1c1e01a..943128f 100644
--- a/ser-write-msgpack/src/de.rs
+++ b/ser-write-msgpack/src/de.rs
@@ -383,7 +383,7 @@ impl<'de> Deserializer<'de> {
             BIN_32|STR_32 => Single(self.fetch_u32()?.try_into()?),
             EXT_8 => Single(1usize + usize::from(self.fetch_u8()?)),
             EXT_16 => Single(1usize + usize::from(self.fetch_u16()?)),
-            EXT_32 => Single(1usize + usize::try_from(self.fetch_u32()?)?),
+            EXT_32 => Single(usize::try_from(self.fetch_u32()?)?.checked_add(1).ok_or(Error::UnexpectedEof)?),
             FLOAT_32 => Single(4),
             FLOAT_64 => Single(8),
             UINT_8 => Single(1),
@@ -406,11 +406,10 @@ impl<'de> Deserializer<'de> {
         };
         match mtyp {
             Single(len) => {
-                let index = self.index + len;
-                if index > self.input.len() {
+                if len > self.remaining_len() {
                     return Err(Error::UnexpectedEof)
                 }
-                self.index = index;
+                self.eat_some(len);
                 Ok(0)
             }
             Array(len) => Ok(len.into()),
-- 
2.43.0


From 34033179a4f63b8a5c6e41d40e12b1806a40808b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:54 +0000
Subject: [PATCH 10/10] fix: json: accept escaped surrogate pairs in strings

---
 ser-write-json/src/de.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/ser-write-json/src/de.rs b/ser-write-json/src/de.rs
index c4455ae..1b12353 100644
--- a/ser-write-json/src/de.rs
+++ b/ser-write-json/src/de.rs
@@ -752,10 +752,26 @@ impl<'de, P> Deserializer<'de, P> {
                                 // let code = u32::from_str_radix(s, 16)?;
                                 let code = self.input.get(index+1..index+5).ok_or(Error::UnexpectedEof)?
                                            .try_into().unwrap();
-                                let code = parse_uuuu(code).ok_or(Error::InvalidEscapeSequence)?;
+                                let mut code = parse_uuuu(code).ok_or(Error::InvalidEscapeSequence)?;
+                                index += 5;
+                                if matches!(code, 0xD800..=0xDBFF) {
+                                    /* the first half of a surrogate pair, the second half must follow */
+                                    for (i, expected) in [RS, UU].into_iter().enumerate() {
+                                        if *self.input.get(index+i).ok_or(Error::UnexpectedEof)? != expected {
+                                            return Err(Error::InvalidUnicodeCodePoint)
+                                        }
+                                    }
+                                    let low = self.input.get(index+2..index+6).ok_or(Error::UnexpectedEof)?
+                                              .try_into().unwrap();
+                                    let low = parse_uuuu(low).ok_or(Error::InvalidEscapeSequence)?;
+                                    if !matches!(low, 0xDC00..=0xDFFF) {
+                                        return Err(Error::InvalidUnicodeCodePoint)
+                                    }
+                                    code = 0x10000 + ((code - 0xD800) << 10) + (low - 0xDC00);
+                                    index += 6;
+                                }
                                 let ch = char::from_u32(code).ok_or(Error::InvalidUnicodeCodePoint)?;
                                 dest += ch.encode_utf8(&mut self.input[dest..]).len();
-                                index += 5;
                                 start = index;
                             }
                             Some(..) => break Err(Error::InvalidEscapeSequence),
-- 
2.43.0

