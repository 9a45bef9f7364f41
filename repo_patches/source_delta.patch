From cbee47c878a374cbee722ace01cb168e9d904cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:43:35 +0000
Subject: [PATCH 01/19] fix: write ASCII strings completely

write_string used Write::write and ignored how many bytes were accepted.
With a writer that takes only part of a buffer the rest of the string or
its terminator was lost while the call still reported success.
---
 src/cursor_ext.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cursor_ext.rs b/src/cursor_ext.rs
index 8fc0c44..8ac6d1f 100644
--- a/src/cursor_ext.rs
+++ b/src/cursor_ext.rs
@@ -150,8 +150,8 @@ impl<W: Write> WriteExt for W {
             // ASCII strings do not require encoding
             let len = v.len() + 1;
             self.write_i32::<LittleEndian>(len as i32)?;
-            let _ = self.write(v.as_bytes())?;
-            let _ = self.write(&[0u8; 1])?;
+            self.write_all(v.as_bytes())?;
+            self.write_all(&[0u8; 1])?;
             Ok(len * 2 + 4)
         } else {
             // Perform UTF-16 encoding when non-ASCII characters are detected
-- 
2.43.0


From 5040542260725c06f8a0eafd118edeae16820156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:43:35 +0000
Subject: [PATCH 02/19] fix: report the length of ASCII strings correctly

write_string returned the size of the UTF-16 form for ASCII strings too.
Every byte count built from it was wrong.
---
 src/cursor_ext.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cursor_ext.rs b/src/cursor_ext.rs
index 8ac6d1f..f6fbe86 100644
--- a/src/cursor_ext.rs
+++ b/src/cursor_ext.rs
@@ -152,7 +152,7 @@ impl<W: Write> WriteExt for W {
             self.write_i32::<LittleEndian>(len as i32)?;
             self.write_all(v.as_bytes())?;
             self.write_all(&[0u8; 1])?;
-            Ok(len * 2 + 4)
+            Ok(len + 4)
         } else {
             // Perform UTF-16 encoding when non-ASCII characters are detected
             let words: Vec<u16> = v.encode_utf16().collect();
-- 
2.43.0


From 98a77b4030cbd8d97140ea6051f3e3c82978a985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:43:35 +0000
Subject: [PATCH 03/19] fix: count the type name in the length of a written
 NameProperty

The write method returned a length without the type name it had written.
---
 src/properties/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/properties/mod.rs b/src/properties/mod.rs
index 963f515..cd1fcfd 100644
--- a/src/properties/mod.rs
+++ b/src/properties/mod.rs
@@ -330,7 +330,7 @@ macro_rules! impl_write {
             len += self.write_body(buf, options)?;
             let buf = buf.get_ref();
 
-            writer.write_string(stringify!($property))?;
+            len += writer.write_string(stringify!($property))?;
             writer.write_u32::<LittleEndian>(buf.len() as u32)?;
             writer.write_u32::<LittleEndian>(self.array_index)?;
             $(
-- 
2.43.0


From 0860663e656f23193f7d459a9ac729bb07f1213d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:43:35 +0000
Subject: [PATCH 04/19] fix: report the length of a GameplayTagContainer
 correctly

The returned length counted one byte per tag in place of the four bytes
of the tag count.
---
 src/properties/struct_property.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/properties/struct_property.rs b/src/properties/struct_property.rs
index 8a59413..4898eb1 100644
--- a/src/properties/struct_property.rs
+++ b/src/properties/struct_property.rs
@@ -347,8 +347,8 @@ impl PropertyTrait for StructPropertyValue {
                 Ok(16)
             }
             StructPropertyValue::GameplayTagContainer(tags) => {
-                let mut len = tags.len();
-                cursor.write_i32::<LittleEndian>(len as i32)?;
+                let mut len = 4;
+                cursor.write_i32::<LittleEndian>(tags.len() as i32)?;
                 for gameplaytag in tags {
                     len += cursor.write_string(gameplaytag)?;
                 }
-- 
2.43.0


From 45830078adeef0e5253e97f1742e5b1534205230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:43:35 +0000
Subject: [PATCH 05/19] fix: reject GUID text that is not hexadecimal

Text of 32 bytes with multi-byte characters panicked, and a plus sign was
taken as a digit.
---
 src/types.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types.rs b/src/types.rs
index 22705f4..677d0dd 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -174,7 +174,7 @@ impl FromStr for Guid {
             return Ok(Guid([0u8; 16]));
         }
 
-        if cleaned.len() != 32 {
+        if cleaned.len() != 32 || !cleaned.bytes().all(|b| b.is_ascii_hexdigit()) {
             Err(ParseGuidError)?;
         }
         let mut guid = Guid(Default::default());
-- 
2.43.0


From 254e4e053227f500a7299635175bc98237254cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:44:23 +0000
Subject: [PATCH 06/19] fix: report malformed property headers as errors

A non-zero separator or array index in numeric, byte, bool and unknown
properties, and a wrong element type in an array of structs, panicked
instead of returning an error.
---
 src/properties/array_property.rs   |  6 +++++-
 src/properties/int_property.rs     | 32 +++++++++++++++++-------------
 src/properties/unknown_property.rs | 20 +++++++++++--------
 3 files changed, 35 insertions(+), 23 deletions(-)

diff --git a/src/properties/array_property.rs b/src/properties/array_property.rs
index 9977e3e..368c7e9 100644
--- a/src/properties/array_property.rs
+++ b/src/properties/array_property.rs
@@ -311,7 +311,11 @@ impl ArrayProperty {
                 let field_name = cursor.read_string()?;
 
                 let property_type = cursor.read_string()?;
-                assert_eq!(property_type, "StructProperty");
+                validate!(
+                    cursor,
+                    property_type == "StructProperty",
+                    "{property_type} != StructProperty",
+                );
                 let properties_size = cursor.read_u64::<LittleEndian>()?;
 
                 let struct_name = cursor.read_string()?;
diff --git a/src/properties/int_property.rs b/src/properties/int_property.rs
index ab4f7e4..187794d 100644
--- a/src/properties/int_property.rs
+++ b/src/properties/int_property.rs
@@ -28,6 +28,16 @@ macro_rules! check_size {
     };
 }
 
+macro_rules! check_separator {
+    ($cursor:ident) => {
+        let separator = $cursor.read_u8()?;
+        if separator != 0 {
+            let position = $cursor.stream_position()? - 1;
+            Err(DeserializeError::InvalidTerminator(separator, position))?
+        }
+    };
+}
+
 macro_rules! impl_int_property {
     ($name:ident, $ty:ident, $read_method:ident, $write_method:ident, $size:literal) => {
         #[doc = concat!("A property that stores a `", stringify!($ty), "`.")]
@@ -53,8 +63,7 @@ macro_rules! impl_int_property {
             ) -> Result<Self, Error> {
                 if include_header {
                     check_size!(cursor, $size);
-                    let separator = cursor.read_u8()?;
-                    assert_eq!(separator, 0);
+                    check_separator!(cursor);
                 }
                 Ok(Self::new(cursor.$read_method::<LittleEndian>()?))
             }
@@ -107,8 +116,7 @@ impl Int8Property {
     ) -> Result<Self, Error> {
         if include_header {
             check_size!(cursor, 1);
-            let separator = cursor.read_u8()?;
-            assert_eq!(separator, 0);
+            check_separator!(cursor);
         }
         Ok(Int8Property {
             value: cursor.read_i8()?,
@@ -193,17 +201,14 @@ impl ByteProperty {
         if include_header {
             let length = cursor.read_u32::<LittleEndian>()?;
             let array_index = cursor.read_u32::<LittleEndian>()?;
-            assert_eq!(
-                array_index,
-                0,
-                "Expected array_index value zero @ {:#x}",
-                cursor.stream_position()? - 4
-            );
+            if array_index != 0 {
+                let position = cursor.stream_position()? - 4;
+                Err(DeserializeError::InvalidArrayIndex(array_index, position))?
+            }
             suggested_length = Some(length);
 
             name = Some(cursor.read_string()?);
-            let separator = cursor.read_u8()?;
-            assert_eq!(separator, 0);
+            check_separator!(cursor);
         }
 
         // -1 to account for separator
@@ -286,8 +291,7 @@ impl BoolProperty {
         }
         let value = cursor.read_bool()?;
         if include_header {
-            let indicator = cursor.read_u8()?;
-            assert_eq!(indicator, 0);
+            check_separator!(cursor);
         }
         Ok(BoolProperty { value })
     }
diff --git a/src/properties/unknown_property.rs b/src/properties/unknown_property.rs
index e7126b7..797a18f 100644
--- a/src/properties/unknown_property.rs
+++ b/src/properties/unknown_property.rs
@@ -2,7 +2,10 @@ use std::io::{Cursor, Read, Seek, Write};
 
 use byteorder::{LittleEndian, ReadBytesExt, WriteBytesExt};
 
-use crate::{cursor_ext::WriteExt, error::Error};
+use crate::{
+    cursor_ext::WriteExt,
+    error::{DeserializeError, Error},
+};
 
 use super::{PropertyOptions, PropertyTrait};
 
@@ -43,14 +46,15 @@ impl UnknownProperty {
     ) -> Result<Self, Error> {
         let length = cursor.read_u32::<LittleEndian>()?;
         let array_index = cursor.read_u32::<LittleEndian>()?;
-        assert_eq!(
-            array_index,
-            0,
-            "Expected array_index value zero @ {:#x}",
-            cursor.stream_position()? - 4
-        );
+        if array_index != 0 {
+            let position = cursor.stream_position()? - 4;
+            Err(DeserializeError::InvalidArrayIndex(array_index, position))?
+        }
         let separator = cursor.read_u8()?;
-        assert_eq!(separator, 0);
+        if separator != 0 {
+            let position = cursor.stream_position()? - 1;
+            Err(DeserializeError::InvalidTerminator(separator, position))?
+        }
 
         UnknownProperty::read_with_length(cursor, property_name, length)
     }
-- 
2.43.0


From 8803213a080cb1b80fdfbe36a8873b711928273a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:44:23 +0000
Subject: [PATCH 07/19] fix: check the declared size of a ByteProperty

A size of zero underflowed, and any other size that did not match the
value was accepted.
---
 src/properties/int_property.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/properties/int_property.rs b/src/properties/int_property.rs
index 187794d..17c2b20 100644
--- a/src/properties/int_property.rs
+++ b/src/properties/int_property.rs
@@ -212,12 +212,24 @@ impl ByteProperty {
         }
 
         // -1 to account for separator
-        let length = suggested_length.map(|e| e - 1).unwrap_or(1);
+        let length = suggested_length
+            .map(|e| e.saturating_sub(1))
+            .unwrap_or(1);
 
+        let start = cursor.stream_position()?;
         let value = match length {
             1 | 0 => BytePropertyValue::Byte(cursor.read_u8()?),
             _ => BytePropertyValue::Namespaced(cursor.read_string()?),
         };
+        let end = cursor.stream_position()?;
+
+        if include_header && Some(end - start) != suggested_length.map(u64::from) {
+            Err(DeserializeError::InvalidValueSize(
+                suggested_length.unwrap_or_default() as u64,
+                end - start,
+                start,
+            ))?
+        }
 
         Ok(ByteProperty { name, value })
     }
-- 
2.43.0


From 6fa15676a3d91b1e1e6edd75a67ef67ff8315a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:44:23 +0000
Subject: [PATCH 08/19] fix: do not underflow on the declared size of a
 SetProperty

A set whose declared size is smaller than its own count fields panicked
in builds with overflow checks.
---
 src/properties/set_property.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/properties/set_property.rs b/src/properties/set_property.rs
index 1bc82db..361b367 100644
--- a/src/properties/set_property.rs
+++ b/src/properties/set_property.rs
@@ -64,9 +64,8 @@ impl SetProperty {
         let element_count = cursor.read_u32::<LittleEndian>()?;
         let mut properties: Vec<Property> = Vec::with_capacity(element_count as usize);
 
-        if element_count > 0
-            && let Some(total_bytes_per_property) = (length - 8).checked_div(element_count)
-        {
+        if element_count > 0 {
+            let total_bytes_per_property = length.saturating_sub(8) / element_count;
             for _ in 0..element_count {
                 properties.push(Property::new(
                     cursor,
-- 
2.43.0


From 93eeca3545618ba23f4949dc04882e04befd65af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:46:56 +0000
Subject: [PATCH 09/19] fix: do not allocate for element counts before reading
 the elements

A corrupt count made the reader reserve memory for up to 2^32 elements,
which aborts the process, before noticing that the data is missing.
---
 src/lib.rs                            | 2 +-
 src/properties/array_property.rs      | 2 +-
 src/properties/delegate_property.rs   | 2 +-
 src/properties/field_path_property.rs | 2 +-
 src/properties/map_property.rs        | 2 +-
 src/properties/set_property.rs        | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index c72922a..3d94be0 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -221,7 +221,7 @@ impl GvasHeader {
         }
 
         let custom_versions_len = cursor.read_u32::<LittleEndian>()?;
-        let mut custom_versions = HashableIndexMap::with_capacity(custom_versions_len as usize);
+        let mut custom_versions = HashableIndexMap::new();
         for _ in 0..custom_versions_len {
             let FCustomVersion { key, version } = FCustomVersion::read(cursor)?;
             custom_versions.insert(key, version);
diff --git a/src/properties/array_property.rs b/src/properties/array_property.rs
index 368c7e9..1d98f21 100644
--- a/src/properties/array_property.rs
+++ b/src/properties/array_property.rs
@@ -302,7 +302,7 @@ impl ArrayProperty {
         property_type: String,
     ) -> Result<Self, Error> {
         let property_count = cursor.read_u32::<LittleEndian>()?;
-        let mut properties: Vec<Property> = Vec::with_capacity(property_count as usize);
+        let mut properties: Vec<Property> = Vec::new();
 
         let mut array_struct_info = None;
 
diff --git a/src/properties/delegate_property.rs b/src/properties/delegate_property.rs
index 8f8e0df..5ff49bb 100644
--- a/src/properties/delegate_property.rs
+++ b/src/properties/delegate_property.rs
@@ -105,7 +105,7 @@ impl MulticastScriptDelegate {
     #[inline]
     pub(crate) fn read<R: Read + Seek>(cursor: &mut R) -> Result<Self, Error> {
         let delegates_len = cursor.read_u32::<LittleEndian>()?;
-        let mut delegates = Vec::with_capacity(delegates_len as usize);
+        let mut delegates = Vec::new();
         for _ in 0..delegates_len {
             delegates.push(Delegate::read(cursor)?);
         }
diff --git a/src/properties/field_path_property.rs b/src/properties/field_path_property.rs
index 0579ad1..120bcd5 100644
--- a/src/properties/field_path_property.rs
+++ b/src/properties/field_path_property.rs
@@ -32,7 +32,7 @@ impl FieldPath {
     #[inline]
     pub(crate) fn read<R: Read + Seek>(cursor: &mut R) -> Result<Self, Error> {
         let path_len = cursor.read_u32::<LittleEndian>()?;
-        let mut path = Vec::with_capacity(path_len as usize);
+        let mut path = Vec::new();
         for _ in 0..path_len {
             path.push(cursor.read_string()?);
         }
diff --git a/src/properties/map_property.rs b/src/properties/map_property.rs
index 9ee6bb6..d7c0e36 100644
--- a/src/properties/map_property.rs
+++ b/src/properties/map_property.rs
@@ -465,7 +465,7 @@ impl MapProperty {
         let allocation_flags = cursor.read_u32::<LittleEndian>()?;
         let element_count = cursor.read_u32::<LittleEndian>()?;
 
-        let mut map = HashableIndexMap::with_capacity(element_count as usize);
+        let mut map = HashableIndexMap::new();
         for _ in 0..element_count {
             let properties_stack = &mut options.properties_stack;
             let key_stack_entry = ScopedStackEntry::new(properties_stack, "Key".to_string());
diff --git a/src/properties/set_property.rs b/src/properties/set_property.rs
index 361b367..b430b5b 100644
--- a/src/properties/set_property.rs
+++ b/src/properties/set_property.rs
@@ -62,7 +62,7 @@ impl SetProperty {
         let allocation_flags = cursor.read_u32::<LittleEndian>()?;
 
         let element_count = cursor.read_u32::<LittleEndian>()?;
-        let mut properties: Vec<Property> = Vec::with_capacity(element_count as usize);
+        let mut properties: Vec<Property> = Vec::new();
 
         if element_count > 0 {
             let total_bytes_per_property = length.saturating_sub(8) / element_count;
-- 
2.43.0


From 68efa29092c10467c81bdb575952a284f0d25e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:47:39 +0000
Subject: [PATCH 10/19] fix: reject negative counts in texts and gameplay tags

A negative argument or tag count was turned into a huge capacity and
panicked with a capacity overflow.
---
 src/properties/struct_property.rs |  8 +++++++-
 src/properties/text_property.rs   | 26 ++++++++++++++++++++++----
 2 files changed, 29 insertions(+), 5 deletions(-)

diff --git a/src/properties/struct_property.rs b/src/properties/struct_property.rs
index 4898eb1..6d25ffc 100644
--- a/src/properties/struct_property.rs
+++ b/src/properties/struct_property.rs
@@ -392,7 +392,13 @@ impl StructPropertyValue {
 
     fn read_gameplaytagcontainer<R: Read + Seek>(cursor: &mut R) -> Result<Self, Error> {
         let len = cursor.read_i32::<LittleEndian>()?;
-        let mut tags: Vec<String> = Vec::with_capacity(len as usize);
+        if len < 0 {
+            Err(DeserializeError::invalid_property(
+                format!("Invalid tag count {len}"),
+                cursor,
+            ))?
+        }
+        let mut tags: Vec<String> = Vec::new();
         for _ in 0..len {
             tags.push(cursor.read_string()?);
         }
diff --git a/src/properties/text_property.rs b/src/properties/text_property.rs
index e38b961..9156138 100644
--- a/src/properties/text_property.rs
+++ b/src/properties/text_property.rs
@@ -14,7 +14,7 @@ use crate::properties::struct_types::DateTime;
 use crate::types::map::HashableIndexMap;
 use crate::{
     cursor_ext::{ReadExt, WriteExt},
-    error::Error,
+    error::{DeserializeError, Error},
 };
 
 use super::{PropertyOptions, PropertyTrait, impl_read, impl_read_header, impl_write};
@@ -332,7 +332,13 @@ impl FTextHistory {
                 let source_format = Box::new(FText::read(cursor, options)?);
 
                 let argument_count = cursor.read_i32::<LittleEndian>()?;
-                let mut arguments = HashableIndexMap::with_capacity(argument_count as usize);
+                if argument_count < 0 {
+                    Err(DeserializeError::invalid_property(
+                        format!("Invalid argument count {argument_count}"),
+                        cursor,
+                    ))?
+                }
+                let mut arguments = HashableIndexMap::new();
 
                 for _ in 0..argument_count {
                     let key = cursor.read_string()?;
@@ -349,7 +355,13 @@ impl FTextHistory {
                 let source_format = Box::new(FText::read(cursor, options)?);
 
                 let count = cursor.read_i32::<LittleEndian>()?;
-                let mut arguments = Vec::with_capacity(count as usize);
+                if count < 0 {
+                    Err(DeserializeError::invalid_property(
+                        format!("Invalid argument count {count}"),
+                        cursor,
+                    ))?
+                }
+                let mut arguments = Vec::new();
 
                 for _ in 0..count {
                     arguments.push(FormatArgumentValue::read(cursor, options)?);
@@ -363,7 +375,13 @@ impl FTextHistory {
             TextHistoryType::ArgumentFormat => {
                 let source_format = Box::new(FText::read(cursor, options)?);
                 let count = cursor.read_i32::<LittleEndian>()?;
-                let mut arguments = HashableIndexMap::with_capacity(count as usize);
+                if count < 0 {
+                    Err(DeserializeError::invalid_property(
+                        format!("Invalid argument count {count}"),
+                        cursor,
+                    ))?
+                }
+                let mut arguments = HashableIndexMap::new();
 
                 for _ in 0..count {
                     let key = cursor.read_string()?;
-- 
2.43.0


From 423e3500297fc95dd7423da717af56569696ab79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:47:40 +0000
Subject: [PATCH 11/19] fix: report unsupported text data as an error

Text generators, raw text and gender arguments panicked while reading.
---
 src/properties/text_property.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/properties/text_property.rs b/src/properties/text_property.rs
index 9156138..a988a11 100644
--- a/src/properties/text_property.rs
+++ b/src/properties/text_property.rs
@@ -511,7 +511,10 @@ impl FTextHistory {
 
                 FTextHistory::StringTableEntry { table_id, key }
             }
-            _ => unimplemented!("unimplemented history type: {:?}", history_type),
+            _ => Err(DeserializeError::invalid_property(
+                format!("unimplemented history type: {history_type:?}"),
+                cursor,
+            ))?,
         })
     }
 
@@ -797,7 +800,10 @@ impl FormatArgumentValue {
                 FormatArgumentValue::Double(cursor.read_f64::<LittleEndian>()?.into())
             }
             FormatArgumentType::Text => FormatArgumentValue::Text(FText::read(cursor, options)?),
-            FormatArgumentType::Gender => unimplemented!(),
+            FormatArgumentType::Gender => Err(DeserializeError::invalid_property(
+                "unimplemented format argument type: Gender",
+                cursor,
+            ))?,
         })
     }
 
-- 
2.43.0


From 1adc623d1f35cc0c4829181cc5ee54b28c3f2a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:47:41 +0000
Subject: [PATCH 12/19] fix: report incompatible format arguments as an error

Writing a format argument whose width does not match the file's version
panicked.
---
 src/properties/text_property.rs | 54 ++++++++++++++++++---------------
 1 file changed, 29 insertions(+), 25 deletions(-)

diff --git a/src/properties/text_property.rs b/src/properties/text_property.rs
index a988a11..5af3d95 100644
--- a/src/properties/text_property.rs
+++ b/src/properties/text_property.rs
@@ -14,7 +14,7 @@ use crate::properties::struct_types::DateTime;
 use crate::types::map::HashableIndexMap;
 use crate::{
     cursor_ext::{ReadExt, WriteExt},
-    error::{DeserializeError, Error},
+    error::{DeserializeError, Error, SerializeError},
 };
 
 use super::{PropertyOptions, PropertyTrait, impl_read, impl_read_header, impl_write};
@@ -816,45 +816,49 @@ impl FormatArgumentValue {
     ) -> Result<usize, Error> {
         match self {
             FormatArgumentValue::Int(value) => {
-                assert!(
-                    !options.supports_version(
-                        FUE5ReleaseStreamObjectVersion::TextFormatArgumentData64bitSupport,
-                    ),
-                    "FormatArgumentValue::Int is not compatible with TextFormatArgumentData64bitSupport"
-                );
+                if options.supports_version(
+                    FUE5ReleaseStreamObjectVersion::TextFormatArgumentData64bitSupport,
+                ) {
+                    Err(SerializeError::invalid_value(
+                        "FormatArgumentValue::Int is not compatible with TextFormatArgumentData64bitSupport",
+                    ))?
+                }
                 cursor.write_enum(FormatArgumentType::Int)?;
                 cursor.write_i32::<LittleEndian>(*value)?;
                 Ok(5)
             }
             FormatArgumentValue::Int64(value) => {
-                assert!(
-                    options.supports_version(
-                        FUE5ReleaseStreamObjectVersion::TextFormatArgumentData64bitSupport,
-                    ),
-                    "FormatArgumentValue::Int64 requires TextFormatArgumentData64bitSupport"
-                );
+                if !options.supports_version(
+                    FUE5ReleaseStreamObjectVersion::TextFormatArgumentData64bitSupport,
+                ) {
+                    Err(SerializeError::invalid_value(
+                        "FormatArgumentValue::Int64 requires TextFormatArgumentData64bitSupport",
+                    ))?
+                }
                 cursor.write_enum(FormatArgumentType::Int)?;
                 cursor.write_i64::<LittleEndian>(*value)?;
                 Ok(9)
             }
             FormatArgumentValue::UInt(value) => {
-                assert!(
-                    !options.supports_version(
-                        FUE5ReleaseStreamObjectVersion::TextFormatArgumentData64bitSupport,
-                    ),
-                    "FormatArgumentValue::UInt is not compatible with TextFormatArgumentData64bitSupport"
-                );
+                if options.supports_version(
+                    FUE5ReleaseStreamObjectVersion::TextFormatArgumentData64bitSupport,
+                ) {
+                    Err(SerializeError::invalid_value(
+                        "FormatArgumentValue::UInt is not compatible with TextFormatArgumentData64bitSupport",
+                    ))?
+                }
                 cursor.write_enum(FormatArgumentType::UInt)?;
                 cursor.write_u32::<LittleEndian>(*value)?;
                 Ok(5)
             }
             FormatArgumentValue::UInt64(value) => {
-                assert!(
-                    options.supports_version(
-                        FUE5ReleaseStreamObjectVersion::TextFormatArgumentData64bitSupport,
-                    ),
-                    "FormatArgumentValue::UInt64 requires TextFormatArgumentData64bitSupport"
-                );
+                if !options.supports_version(
+                    FUE5ReleaseStreamObjectVersion::TextFormatArgumentData64bitSupport,
+                ) {
+                    Err(SerializeError::invalid_value(
+                        "FormatArgumentValue::UInt64 requires TextFormatArgumentData64bitSupport",
+                    ))?
+                }
                 cursor.write_enum(FormatArgumentType::UInt)?;
                 cursor.write_u64::<LittleEndian>(*value)?;
                 Ok(9)
-- 
2.43.0


From e429f95b4fb8372bf515a99d67b26ee0de9a4ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:47:43 +0000
Subject: [PATCH 13/19] fix: do not allocate for declared sizes before reading
 the data

The size of an unknown property and the decompressed size of a Palworld
save were allocated up front, so a corrupt size could claim 4 GiB for a
file of a few bytes.
---
 src/cursor_ext.rs                  | 12 +++++++++++-
 src/lib.rs                         | 12 +++---------
 src/properties/unknown_property.rs | 10 +++-------
 3 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/src/cursor_ext.rs b/src/cursor_ext.rs
index f6fbe86..fbab2d0 100644
--- a/src/cursor_ext.rs
+++ b/src/cursor_ext.rs
@@ -1,4 +1,4 @@
-use std::io::{Read, Seek, Write};
+use std::io::{self, Read, Seek, Write};
 
 use byteorder::{LittleEndian, ReadBytesExt, WriteBytesExt};
 
@@ -43,6 +43,16 @@ pub trait WriteExt {
         T: Into<i8> + std::fmt::Debug;
 }
 
+/// Reads exactly `length` bytes, growing the buffer as data arrives.
+pub(crate) fn read_bytes<R: Read>(cursor: &mut R, length: u32) -> Result<Vec<u8>, Error> {
+    let mut data = Vec::new();
+    cursor.take(length as u64).read_to_end(&mut data)?;
+    if data.len() as u64 != length as u64 {
+        Err(io::Error::from(io::ErrorKind::UnexpectedEof))?
+    }
+    Ok(data)
+}
+
 impl<R: Read + Seek> ReadExt for R {
     #[inline]
     fn read_string(&mut self) -> Result<String, Error> {
diff --git a/src/lib.rs b/src/lib.rs
index 3d94be0..6bf95b3 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -95,7 +95,7 @@ use flate2::read::ZlibDecoder;
 use flate2::write::ZlibEncoder;
 
 use crate::{
-    cursor_ext::{ReadExt, WriteExt},
+    cursor_ext::{ReadExt, WriteExt, read_bytes},
     custom_version::FCustomVersion,
     engine_version::FEngineVersion,
     error::{DeserializeError, Error},
@@ -432,18 +432,12 @@ impl GvasFile {
 
                 match compression_type {
                     PalworldCompressionType::None => {
-                        let mut data = vec![0u8; decompresed_length as usize];
-
-                        cursor.read_exact(&mut data)?;
-                        Cursor::new(data)
+                        Cursor::new(read_bytes(cursor, decompresed_length)?)
                     }
                     PalworldCompressionType::Zlib => {
-                        let mut zlib_data = vec![0u8; decompresed_length as usize];
-
                         let mut decoder = ZlibDecoder::new(cursor);
-                        decoder.read_exact(&mut zlib_data)?;
 
-                        Cursor::new(zlib_data)
+                        Cursor::new(read_bytes(&mut decoder, decompresed_length)?)
                     }
                     PalworldCompressionType::ZlibTwice => {
                         let decoder = ZlibDecoder::new(cursor);
diff --git a/src/properties/unknown_property.rs b/src/properties/unknown_property.rs
index 797a18f..574bb12 100644
--- a/src/properties/unknown_property.rs
+++ b/src/properties/unknown_property.rs
@@ -3,7 +3,7 @@ use std::io::{Cursor, Read, Seek, Write};
 use byteorder::{LittleEndian, ReadBytesExt, WriteBytesExt};
 
 use crate::{
-    cursor_ext::WriteExt,
+    cursor_ext::{WriteExt, read_bytes},
     error::{DeserializeError, Error},
 };
 
@@ -30,13 +30,9 @@ impl UnknownProperty {
         property_name: String,
         length: u32,
     ) -> Result<Self, Error> {
-        let mut data = vec![0u8; length as usize];
-        cursor.read_exact(&mut data)?;
+        let raw = read_bytes(cursor, length)?;
 
-        Ok(UnknownProperty {
-            property_name,
-            raw: data,
-        })
+        Ok(UnknownProperty { property_name, raw })
     }
 
     #[inline]
-- 
2.43.0


From 6d22b0f957227f376cf889f8117818dedaba16bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:47:44 +0000
Subject: [PATCH 14/19] fix: reject containers of unknown elements without data

An array or set of an unknown type with an element size of zero produced
as many empty elements as its count claims, up to 2^32, from no data.
---
 src/properties/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/properties/mod.rs b/src/properties/mod.rs
index cd1fcfd..d4cbfc4 100644
--- a/src/properties/mod.rs
+++ b/src/properties/mod.rs
@@ -608,7 +608,9 @@ impl Property {
                     );
                 }
 
-                if let Some(suggested_length) = suggested_length {
+                if let Some(suggested_length) = suggested_length
+                    && suggested_length > 0
+                {
                     return Ok(UnknownProperty::read_with_length(
                         cursor,
                         value_type.to_string(),
-- 
2.43.0


From b127de37a59ba24c842b1bf9444e9d4cc4575844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:48:19 +0000
Subject: [PATCH 15/19] fix: implement BoolProperty::write_body

Property::write_body panicked for bool properties.
---
 src/properties/int_property.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/properties/int_property.rs b/src/properties/int_property.rs
index 17c2b20..f47882f 100644
--- a/src/properties/int_property.rs
+++ b/src/properties/int_property.rs
@@ -338,8 +338,14 @@ impl PropertyTrait for BoolProperty {
         Ok(len)
     }
 
-    fn write_body<W: Write>(&self, _: &mut W, _: &mut PropertyOptions) -> Result<usize, Error> {
-        unimplemented!()
+    #[inline]
+    fn write_body<W: Write>(
+        &self,
+        cursor: &mut W,
+        _: &mut PropertyOptions,
+    ) -> Result<usize, Error> {
+        cursor.write_bool(self.value)?;
+        Ok(1)
     }
 }
 
-- 
2.43.0


From 16df6de9d8f493fecb0e3ecaf31a2490dce1cf5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:48:20 +0000
Subject: [PATCH 16/19] fix: do not panic on repeated struct fields in debug
 builds

Release builds read such a struct without losing data, since every value
keeps its own array index, but debug builds failed an assertion.
---
 src/properties/struct_property.rs | 17 ++---------------
 1 file changed, 2 insertions(+), 15 deletions(-)

diff --git a/src/properties/struct_property.rs b/src/properties/struct_property.rs
index 6d25ffc..ee8bc03 100644
--- a/src/properties/struct_property.rs
+++ b/src/properties/struct_property.rs
@@ -11,7 +11,7 @@ use crate::{
     cursor_ext::{ReadExt, WriteExt},
     custom_version::FUE5ReleaseStreamObjectVersion,
     error::{DeserializeError, Error, SerializeError},
-    properties::{name_property::NameProperty, struct_types::LinearColor},
+    properties::struct_types::LinearColor,
     scoped_stack_entry::ScopedStackEntry,
     types::{Guid, map::HashableIndexMap},
 };
@@ -182,20 +182,7 @@ impl StructProperty {
 }
 
 fn insert_property(map: &mut IndexMap<String, Vec<Property>>, key: String, property: Property) {
-    let entry = map.entry(key).or_default();
-    #[cfg(debug_assertions)]
-    {
-        let array_index = match property {
-            // TODO: Move array_index to the Property layer
-            Property::NameProperty(NameProperty { array_index, .. }) => array_index,
-            _ => 0,
-        };
-        let actual_array_index = entry.len() as u32;
-        // Ensure that the position in the array matches the array_index value,
-        // otherwise this conversion would cause data loss.
-        assert_eq!(actual_array_index, array_index);
-    }
-    entry.push(property);
+    map.entry(key).or_default().push(property);
 }
 
 impl PropertyTrait for StructProperty {
-- 
2.43.0


From d1dff1fe5d1839246ab8a8c1338da97ff7b2e7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:48:21 +0000
Subject: [PATCH 17/19] fix: hash equal maps equally

Two maps with the same entries in a different order compare equal but had
different hashes.
---
 src/types.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/types.rs b/src/types.rs
index 677d0dd..25cbddb 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -211,7 +211,7 @@ impl<'de> serde::Deserialize<'de> for Guid {
 pub mod map {
     use std::{
         fmt::Debug,
-        hash::Hash,
+        hash::{DefaultHasher, Hash, Hasher},
         ops::{Deref, DerefMut},
     };
 
@@ -249,10 +249,16 @@ pub mod map {
         V: Hash,
     {
         fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
+            // Equality ignores the order of the entries, so the hash must too
+            let mut sum = 0u64;
             for (key, value) in &self.0 {
-                key.hash(state);
-                value.hash(state);
+                let mut hasher = DefaultHasher::new();
+                key.hash(&mut hasher);
+                value.hash(&mut hasher);
+                sum = sum.wrapping_add(hasher.finish());
             }
+            self.0.len().hash(state);
+            sum.hash(state);
         }
     }
 
-- 
2.43.0


From 091dec7d6e3e1beac2fe5c8e33be5267610e3209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:48:22 +0000
Subject: [PATCH 18/19] fix: report errors when finishing a doubly compressed
 save

The outer compressor was only finished when dropped, which discards any
write error and leaves a truncated save behind.
---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 6bf95b3..769dba3 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -549,7 +549,7 @@ impl GvasFile {
                         let encoder = ZlibEncoder::new(cursor.by_ref(), Compression::default());
                         let mut encoder = ZlibEncoder::new(encoder, Compression::default());
                         encoder.write_all(&decompressed)?;
-                        encoder.finish()?;
+                        encoder.finish()?.finish()?;
                     }
                 }
 
-- 
2.43.0


From f84d827109950aeb0d7d982d8e41d587b8fde81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:48:23 +0000
Subject: [PATCH 19/19] fix: write the compressed length of Palworld saves
 correctly

The stored length included the magic and the mode byte. For doubly
compressed saves the game stores the length after the first compression.
---
 src/lib.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 769dba3..8c70f71 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -538,25 +538,33 @@ impl GvasFile {
                 cursor.write_enum(compression_type)?;
 
                 // Compress and write data directly to the output cursor
-                match compression_type {
-                    PalworldCompressionType::None => cursor.write_all(&decompressed)?,
+                let compressed_length = match compression_type {
+                    PalworldCompressionType::None => {
+                        cursor.write_all(&decompressed)?;
+                        decompressed.len() as u64
+                    }
                     PalworldCompressionType::Zlib => {
                         let mut encoder = ZlibEncoder::new(cursor.by_ref(), Compression::new(6));
                         encoder.write_all(&decompressed)?;
-                        encoder.finish()?;
+                        encoder.try_finish()?;
+                        encoder.total_out()
                     }
                     PalworldCompressionType::ZlibTwice => {
                         let encoder = ZlibEncoder::new(cursor.by_ref(), Compression::default());
                         let mut encoder = ZlibEncoder::new(encoder, Compression::default());
                         encoder.write_all(&decompressed)?;
+                        encoder.try_finish()?;
+                        // The game stores the length of the inner compressed data
+                        let compressed_length = encoder.total_out();
                         encoder.finish()?.finish()?;
+                        compressed_length
                     }
-                }
+                };
 
                 // Update compressed length
                 let end_pos = cursor.stream_position()?;
                 cursor.seek(SeekFrom::Start(compressed_length_pos))?;
-                cursor.write_u32::<LittleEndian>((end_pos - (compressed_length_pos + 4)) as u32)?;
+                cursor.write_u32::<LittleEndian>(compressed_length as u32)?;
                 cursor.seek(SeekFrom::Start(end_pos))?;
             }
         }
-- 
2.43.0

