From 58a49677490192c55346f31851a144dcff0cbd12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:42 +0000
Subject: [PATCH 01/18] fix: map thrift byte to i8

byte is the 8-bit signed integer of thrift (wire type 3). Mapped to u8, a
byte field did not compile and a list<byte> turned into a binary.
---
 runtime/src/macros.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtime/src/macros.rs b/runtime/src/macros.rs
index 7dce2bd..1eb771c 100644
--- a/runtime/src/macros.rs
+++ b/runtime/src/macros.rs
@@ -252,7 +252,7 @@ macro_rules! __thrift_field_type {
     (set $element_type:ident) => { Vec< $crate::__thrift_field_type!($element_type) > };
     (binary) => { Vec<u8> };
     (string) => { String };
-    (byte) => { u8 };
+    (byte) => { i8 };
     (double) => { f64 };
     ($field_type:ty) => { $field_type }; // this covers bool | i8 | i16 | i32 | i64
     (Box $element_type:ident) => { std::boxed::Box< $crate::__thrift_field_type!($element_type) > };
-- 
2.43.0


From d62146c34dfa2aaa440602789a8ad6d2a199b22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:22 +0000
Subject: [PATCH 02/18] fix: write the field id in the long form of field
 headers

---
 runtime/src/protocol.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/runtime/src/protocol.rs b/runtime/src/protocol.rs
index 9eaaeb5..c35ac2c 100644
--- a/runtime/src/protocol.rs
+++ b/runtime/src/protocol.rs
@@ -258,13 +258,15 @@ pub(crate) fn skip_field<'i, T: CompactThriftInput<'i> + ?Sized>(input: &mut T,
 
 #[inline]
 pub(crate) fn write_field_header<T: CompactThriftOutput>(output: &mut T, field_type: u8, field_id: i16, last_field_id: &mut i16) -> Result<(), ThriftError> {
-    let field_delta = field_id.wrapping_sub(*last_field_id);
-
-    if field_delta > 15 {
-        output.write_byte(field_type)?;
-        output.write_i16(field_delta)?
-    } else {
-        output.write_byte(field_type | ((field_delta as u8) << 4))?;
+    match field_id.checked_sub(*last_field_id) {
+        Some(field_delta @ 1..=15) => {
+            output.write_byte(field_type | ((field_delta as u8) << 4))?;
+        }
+        _ => {
+            // the long form contains the field id itself, not the difference to the previous id
+            output.write_byte(field_type)?;
+            output.write_i16(field_id)?;
+        }
     }
     *last_field_id = field_id;
     Ok(())
-- 
2.43.0


From 857a074200d52956d7f560446a9cc4f72e0d9bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:43 +0000
Subject: [PATCH 03/18] fix: reject field ids outside the 16-bit range

---
 runtime/src/protocol.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtime/src/protocol.rs b/runtime/src/protocol.rs
index c35ac2c..38d3e52 100644
--- a/runtime/src/protocol.rs
+++ b/runtime/src/protocol.rs
@@ -101,7 +101,7 @@ pub trait CompactThriftInput<'i> {
         let field_type = field_header & 0x0F;
         let field_delta = field_header >> 4;
         if field_delta != 0 {
-            *last_field_id += field_delta as i16;
+            *last_field_id = last_field_id.checked_add(field_delta as i16).ok_or(ThriftError::InvalidNumber)?;
         } else {
             *last_field_id = read_full_field_id(self)?;
         }
-- 
2.43.0


From 2274cc42f7b5f8119a0583595256fa46f5438f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:44 +0000
Subject: [PATCH 04/18] fix: no overflow in the shift of overlong integers

---
 runtime/src/uleb.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtime/src/uleb.rs b/runtime/src/uleb.rs
index d06211d..eb6aec6 100644
--- a/runtime/src/uleb.rs
+++ b/runtime/src/uleb.rs
@@ -10,7 +10,7 @@ pub(crate) fn decode_uleb<'i, I: CompactThriftInput<'i> + ?Sized>(input: &mut I)
 
         // overlong sequences are not treated as an error for performance reasons
         value |= ((byte & 0x7F) as u64).wrapping_shl(shift);
-        shift += 7;
+        shift = shift.wrapping_add(7);
 
         if (byte & 0x80) == 0 {
             return Ok(value);
-- 
2.43.0


From 3cf1b6ad1c6fd822e88e919fd2658787a3abebe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:05 +0000
Subject: [PATCH 05/18] fix: skip truncated and overlong integers within the
 input

---
 runtime/src/protocol.rs | 12 +++++++-----
 runtime/src/uleb.rs     | 11 +++++++++--
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/runtime/src/protocol.rs b/runtime/src/protocol.rs
index 38d3e52..5af2dd2 100644
--- a/runtime/src/protocol.rs
+++ b/runtime/src/protocol.rs
@@ -363,12 +363,14 @@ impl <'i> CompactThriftInput<'i> for CompactThriftInputSlice<'i> {
     #[cfg(target_feature = "sse2")]
     fn skip_integer(&mut self) -> Result<(), ThriftError> {
         if self.0.len() >= 16 {
-            self.0 = unsafe { skip_uleb_sse2(self.0) };
-            Ok(())
-        } else {
-            self.0 = skip_uleb_fallback(self.0);
-            Ok(())
+            let rest = unsafe { skip_uleb_sse2(self.0) };
+            if rest.len() < self.0.len() {
+                self.0 = rest;
+                return Ok(());
+            }
         }
+        self.0 = skip_uleb_fallback(self.0)?;
+        Ok(())
     }
 
     fn skip_binary(&mut self) -> Result<(), ThriftError> {
diff --git a/runtime/src/uleb.rs b/runtime/src/uleb.rs
index eb6aec6..dd668ae 100644
--- a/runtime/src/uleb.rs
+++ b/runtime/src/uleb.rs
@@ -1,3 +1,5 @@
+use std::io::ErrorKind;
+
 use crate::CompactThriftInput;
 use crate::CompactThriftOutput;
 use crate::ThriftError;
@@ -18,6 +20,8 @@ pub(crate) fn decode_uleb<'i, I: CompactThriftInput<'i> + ?Sized>(input: &mut I)
     }
 }
 
+/// Returns `input` unchanged if the integer does not end within the first 16 bytes.
+///
 /// Safety: `input` needs to contain at least 16 bytes
 #[cfg(target_feature = "sse2")]
 #[inline]
@@ -27,16 +31,19 @@ pub(crate) unsafe fn skip_uleb_sse2(input: &[u8]) -> &[u8] {
     let chunk = _mm_loadu_si128(input.as_ptr().cast());
     let mask = !_mm_movemask_epi8(chunk);
     let len = (mask << 1).trailing_zeros() as usize;
+    if len > 16 {
+        return input;
+    }
     input.get_unchecked(len..)
 }
 
 #[inline(never)]
-pub(crate) fn skip_uleb_fallback(input: &[u8]) -> &[u8] {
+pub(crate) fn skip_uleb_fallback(input: &[u8]) -> Result<&[u8], ThriftError> {
     let mut i = 0_usize;
     while i < input.len() && (input[i] & 0x80) != 0 {
         i += 1;
     }
-    &input[i+1..]
+    input.get(i+1..).ok_or_else(|| ThriftError::from(ErrorKind::UnexpectedEof))
 }
 
 pub(crate) fn encode_uleb<O: CompactThriftOutput + ?Sized>(output: &mut O, mut value: u64) -> Result<(), ThriftError> {
-- 
2.43.0


From 2b7a7481f183d31636fc43f4f01e1fd1c6437b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:04 +0000
Subject: [PATCH 06/18] fix: limit the nesting of skipped values

---
 runtime/src/error.rs    |  1 +
 runtime/src/protocol.rs | 29 +++++++++++++++++++----------
 2 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/runtime/src/error.rs b/runtime/src/error.rs
index 1d002eb..db62d08 100644
--- a/runtime/src/error.rs
+++ b/runtime/src/error.rs
@@ -19,6 +19,7 @@ pub enum ThriftError {
     DuplicateField,
     InvalidType,
     ReserveError,
+    NestingTooDeep,
     IO(ErrorKind)
 }
 
diff --git a/runtime/src/protocol.rs b/runtime/src/protocol.rs
index 5af2dd2..dc53c41 100644
--- a/runtime/src/protocol.rs
+++ b/runtime/src/protocol.rs
@@ -12,6 +12,8 @@ use crate::uleb::*;
 
 pub const MAX_BINARY_LEN: usize = 16*1024*1024;
 pub const MAX_COLLECTION_LEN: usize = 10_000_000;
+/// Maximum nesting of skipped structs and collections, limits recursion for untrusted inputs.
+const MAX_SKIP_DEPTH: usize = 64;
 
 #[inline(never)] // full field ids are uncommon and inlining this bloats the code
 fn read_full_field_id<'i, I: CompactThriftInput<'i> + ?Sized>(input: &mut I) -> Result<i16, ThriftError> {
@@ -145,7 +147,8 @@ pub fn read_map_len_and_types<'i, T: CompactThriftInput<'i> + ?Sized>(input: &mu
     Ok((len as u32, key_type, val_type))
 }
 
-fn skip_collection<'i, T: CompactThriftInput<'i> + ?Sized>(input: &mut T) -> Result<(), ThriftError> {
+fn skip_collection<'i, T: CompactThriftInput<'i> + ?Sized>(input: &mut T, remaining_depth: usize) -> Result<(), ThriftError> {
+    let remaining_depth = remaining_depth.checked_sub(1).ok_or(ThriftError::NestingTooDeep)?;
     let (len, element_type) = read_collection_len_and_type(input)?;
     match element_type {
         1..=3 => {
@@ -176,18 +179,18 @@ fn skip_collection<'i, T: CompactThriftInput<'i> + ?Sized>(input: &mut T) -> Res
         9 | 10 => {
             // list | set
             for _ in 0..len {
-                skip_collection(input)?;
+                skip_collection(input, remaining_depth)?;
             }
         }
         11 => {
             // map
             for _ in 0..len {
-                skip_map(input)?;
+                skip_map(input, remaining_depth)?;
             }
         }
         12 => {
             for _ in 0..len {
-                skip_field(input, 12, false)?;
+                skip_field_nested(input, 12, false, remaining_depth)?;
             }
         }
         _ => {
@@ -197,16 +200,21 @@ fn skip_collection<'i, T: CompactThriftInput<'i> + ?Sized>(input: &mut T) -> Res
     Ok(())
 }
 
-fn skip_map<'i, T: CompactThriftInput<'i> + ?Sized>(input: &mut T) -> Result<(), ThriftError> {
+fn skip_map<'i, T: CompactThriftInput<'i> + ?Sized>(input: &mut T, remaining_depth: usize) -> Result<(), ThriftError> {
+    let remaining_depth = remaining_depth.checked_sub(1).ok_or(ThriftError::NestingTooDeep)?;
     let (len, key_type, val_type) = read_map_len_and_types(input)?;
     for _ in 0..len {
-        skip_field(input, key_type, true)?;
-        skip_field(input, val_type, true)?;
+        skip_field_nested(input, key_type, true, remaining_depth)?;
+        skip_field_nested(input, val_type, true, remaining_depth)?;
     }
     Ok(())
 }
 
 pub(crate) fn skip_field<'i, T: CompactThriftInput<'i> + ?Sized>(input: &mut T, field_type: u8, inside_collection: bool) -> Result<(), ThriftError> {
+    skip_field_nested(input, field_type, inside_collection, MAX_SKIP_DEPTH)
+}
+
+fn skip_field_nested<'i, T: CompactThriftInput<'i> + ?Sized>(input: &mut T, field_type: u8, inside_collection: bool, remaining_depth: usize) -> Result<(), ThriftError> {
     match field_type {
         1..=2 => {
             // boolean stored inside the field header outside of collections
@@ -232,21 +240,22 @@ pub(crate) fn skip_field<'i, T: CompactThriftInput<'i> + ?Sized>(input: &mut T,
         }
         9 | 10 => {
             // list | set
-            skip_collection(input)?;
+            skip_collection(input, remaining_depth)?;
         }
         11 => {
             // map
-            skip_map(input)?;
+            skip_map(input, remaining_depth)?;
         }
         12 => {
             // struct | union
+            let remaining_depth = remaining_depth.checked_sub(1).ok_or(ThriftError::NestingTooDeep)?;
             let mut last_field_id = 0_i16;
             loop {
                 let field_type = input.read_field_header(&mut last_field_id)?;
                 if field_type == 0 {
                     break;
                 }
-                skip_field(input, field_type, false)?;
+                skip_field_nested(input, field_type, false, remaining_depth)?;
             }
         }
         _ => {
-- 
2.43.0


From 7c656bbf05e05dee902daef96a7dbc0b79d07660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:23 +0000
Subject: [PATCH 07/18] fix: reject boolean fields of another wire type

---
 runtime/src/types.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/runtime/src/types.rs b/runtime/src/types.rs
index 76c05ac..8a488e2 100644
--- a/runtime/src/types.rs
+++ b/runtime/src/types.rs
@@ -33,7 +33,11 @@ impl <'i> CompactThriftProtocol<'i> for bool {
 
     #[inline]
     fn fill_thrift_field<T: CompactThriftInput<'i>>(&mut self, _input: &mut T, field_type: u8) -> Result<(), ThriftError> {
-        *self = field_type == 1;
+        *self = match field_type {
+            1 => true,
+            2 => false,
+            _ => return Err(ThriftError::InvalidType),
+        };
         Ok(())
     }
 
-- 
2.43.0


From 75e263146e541921b6136ce2868f979aa14abb78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:25 +0000
Subject: [PATCH 08/18] fix: forward field encoding through Box, Rc and Arc

---
 runtime/src/types.rs | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/runtime/src/types.rs b/runtime/src/types.rs
index 8a488e2..4b8a9b6 100644
--- a/runtime/src/types.rs
+++ b/runtime/src/types.rs
@@ -292,10 +292,20 @@ impl <'i, P: CompactThriftProtocol<'i> + Default> CompactThriftProtocol<'i> for
         Box::as_mut(self).fill_thrift(input)
     }
 
+    #[inline]
+    fn fill_thrift_field<T: CompactThriftInput<'i>>(&mut self, input: &mut T, field_type: u8) -> Result<(), ThriftError> {
+        Box::as_mut(self).fill_thrift_field(input, field_type)
+    }
+
     #[inline]
     fn write_thrift<T: CompactThriftOutput>(&self, output: &mut T) -> Result<(), ThriftError> {
         Box::as_ref(self).write_thrift(output)
     }
+
+    #[inline]
+    fn write_thrift_field<T: CompactThriftOutput>(&self, output: &mut T, field_id: i16, last_field_id: &mut i16) -> Result<(), ThriftError> {
+        Box::as_ref(self).write_thrift_field(output, field_id, last_field_id)
+    }
 }
 
 impl <'i, P: CompactThriftProtocol<'i> + Default> CompactThriftProtocol<'i> for Rc<P> {
@@ -306,10 +316,20 @@ impl <'i, P: CompactThriftProtocol<'i> + Default> CompactThriftProtocol<'i> for
         Rc::get_mut(self).ok_or(ThriftError::DuplicateField)?.fill_thrift(input)
     }
 
+    #[inline]
+    fn fill_thrift_field<T: CompactThriftInput<'i>>(&mut self, input: &mut T, field_type: u8) -> Result<(), ThriftError> {
+        Rc::get_mut(self).ok_or(ThriftError::DuplicateField)?.fill_thrift_field(input, field_type)
+    }
+
     #[inline]
     fn write_thrift<T: CompactThriftOutput>(&self, output: &mut T) -> Result<(), ThriftError> {
         Rc::as_ref(self).write_thrift(output)
     }
+
+    #[inline]
+    fn write_thrift_field<T: CompactThriftOutput>(&self, output: &mut T, field_id: i16, last_field_id: &mut i16) -> Result<(), ThriftError> {
+        Rc::as_ref(self).write_thrift_field(output, field_id, last_field_id)
+    }
 }
 
 impl <'i, P: CompactThriftProtocol<'i> + Default> CompactThriftProtocol<'i> for Arc<P> {
@@ -320,10 +340,20 @@ impl <'i, P: CompactThriftProtocol<'i> + Default> CompactThriftProtocol<'i> for
         Arc::get_mut(self).ok_or(ThriftError::DuplicateField)?.fill_thrift(input)
     }
 
+    #[inline]
+    fn fill_thrift_field<T: CompactThriftInput<'i>>(&mut self, input: &mut T, field_type: u8) -> Result<(), ThriftError> {
+        Arc::get_mut(self).ok_or(ThriftError::DuplicateField)?.fill_thrift_field(input, field_type)
+    }
+
     #[inline]
     fn write_thrift<T: CompactThriftOutput>(&self, output: &mut T) -> Result<(), ThriftError> {
         Arc::as_ref(self).write_thrift(output)
     }
+
+    #[inline]
+    fn write_thrift_field<T: CompactThriftOutput>(&self, output: &mut T, field_id: i16, last_field_id: &mut i16) -> Result<(), ThriftError> {
+        Arc::as_ref(self).write_thrift_field(output, field_id, last_field_id)
+    }
 }
 
 impl <'i> CompactThriftProtocol<'i> for Box<str> {
-- 
2.43.0


From 7c8667255d41938b3656acea5e22c15b7f0c30f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:26 +0000
Subject: [PATCH 09/18] fix: check the wire type of union members

---
 runtime/src/macros.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtime/src/macros.rs b/runtime/src/macros.rs
index 1eb771c..10f0c4d 100644
--- a/runtime/src/macros.rs
+++ b/runtime/src/macros.rs
@@ -158,7 +158,7 @@ macro_rules! thrift_union {
                         *self = Self::$field_name(Default::default());
                         #[allow(unreachable_patterns)]
                         match self {
-                            Self::$field_name(inner) => inner.fill_thrift(input)?,
+                            Self::$field_name(inner) => inner.fill_thrift_field(input, field_type)?,
                             _ => unsafe { std::hint::unreachable_unchecked() },
                         }
                     }),*
-- 
2.43.0


From 6dded5db64a716e760a679a8b25471bce74e711c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:27 +0000
Subject: [PATCH 10/18] fix: name the union in the error for unknown members

---
 runtime/src/macros.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtime/src/macros.rs b/runtime/src/macros.rs
index 10f0c4d..8c8bbbc 100644
--- a/runtime/src/macros.rs
+++ b/runtime/src/macros.rs
@@ -163,7 +163,7 @@ macro_rules! thrift_union {
                         }
                     }),*
                     _ => {
-                        return Err($crate::ThriftError::MissingField(concat!(stringify!($struct_name), "\0").into()))
+                        return Err($crate::ThriftError::MissingField(concat!(stringify!($identifier), "\0").into()))
                     }
                 }
                 let stop = input.read_byte()?;
-- 
2.43.0


From 826a6f82a592225a81b2121d725066c77f46f37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:37 +0000
Subject: [PATCH 11/18] fix: check the page index range against the file size

---
 parquet/src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parquet/src/lib.rs b/parquet/src/lib.rs
index c90ee50..8772e20 100644
--- a/parquet/src/lib.rs
+++ b/parquet/src/lib.rs
@@ -87,6 +87,11 @@ pub fn get_page_index_range(file_metadata: &FileMetaData) -> Result<Option<Range
 #[expect(clippy::type_complexity)]
 pub fn get_page_index_chunk<R: Read + Seek>(input: &mut R, file_metadata: &FileMetaData) -> Result<Option<(Vec<u8>, Range<usize>)>, ParquetError> {
     if let Some(range) = get_page_index_range(file_metadata)? {
+        // the range comes from the file metadata, do not allocate more memory than there is data
+        let file_len = input.seek(SeekFrom::End(0))?;
+        if range.end as u64 > file_len {
+            return Err(ParquetError::InvalidOffset);
+        }
         input.seek(SeekFrom::Start(range.start as u64))?;
 
         let mut buf = Vec::with_capacity(range.len());
-- 
2.43.0


From 6b79cae9a011216b0a5d5f0c63b7c042a5c20a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:45 +0000
Subject: [PATCH 12/18] fix: report page index ranges outside the chunk as
 error

---
 parquet/src/lib.rs | 29 +++++++++++++----------------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/parquet/src/lib.rs b/parquet/src/lib.rs
index 8772e20..b747cae 100644
--- a/parquet/src/lib.rs
+++ b/parquet/src/lib.rs
@@ -108,31 +108,28 @@ pub fn get_page_index_chunk<R: Read + Seek>(input: &mut R, file_metadata: &FileM
     }
 }
 
+/// The part of the chunk that holds the index at the given file offset.
+fn page_index_slice(chunk: &[u8], chunk_offset: usize, offset: i64, length: i32) -> Result<&[u8], ParquetError> {
+    let start = usize::try_from(offset).ok().and_then(|offset| offset.checked_sub(chunk_offset)).ok_or(ParquetError::InvalidOffset)?;
+    let length = usize::try_from(length).ok().filter(|length| *length > 0).ok_or(ParquetError::InvalidOffset)?;
+    let end = start.checked_add(length).ok_or(ParquetError::InvalidOffset)?;
+    chunk.get(start..end).ok_or(ParquetError::InvalidOffset)
+}
+
 fn read_page_index_for_column_chunk(chunk: &[u8], chunk_offset: usize, column_chunks: &[ColumnChunk]) -> Result<Vec<Option<(OffsetIndex, ColumnIndex)>>, ParquetError> {
     column_chunks.iter().map(|cc| {
-        let offset_index_range = if let (Some(offset), Some(length)) = (cc.offset_index_offset, cc.offset_index_length) {
-            assert!(offset as usize >= chunk_offset);
-            assert!(length > 0);
-            let start = offset as usize - chunk_offset;
-            start..start+length as usize
-        } else {
-            return Ok(None)
-        };
-        let column_index_range = if let (Some(offset), Some(length)) = (cc.column_index_offset, cc.column_index_length) {
-            assert!(offset as usize >= chunk_offset);
-            assert!(length > 0);
-            let start = offset as usize - chunk_offset;
-            start..start+length as usize
-        } else {
+        let (Some(oo), Some(ol), Some(co), Some(cl)) = (cc.offset_index_offset, cc.offset_index_length, cc.column_index_offset, cc.column_index_length) else {
             return Ok(None)
         };
+        let offset_index_slice = page_index_slice(chunk, chunk_offset, oo, ol)?;
+        let column_index_slice = page_index_slice(chunk, chunk_offset, co, cl)?;
 
         let mut res = Ok(Some((OffsetIndex::default(), ColumnIndex::default())));
 
         match &mut res {
             Ok(Some((offset_index, column_index))) => {
-                offset_index.fill_thrift(&mut CompactThriftInputSlice::new(&chunk[offset_index_range]))?;
-                column_index.fill_thrift(&mut CompactThriftInputSlice::new(&chunk[column_index_range]))?;
+                offset_index.fill_thrift(&mut CompactThriftInputSlice::new(offset_index_slice))?;
+                column_index.fill_thrift(&mut CompactThriftInputSlice::new(column_index_slice))?;
             }
             _ => unsafe { unreachable_unchecked() }
         }
-- 
2.43.0


From 41040ab4a0ef77c6076907a7322aa56af59ffedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:46 +0000
Subject: [PATCH 13/18] fix: count repeated nodes in the definition level

---
 parquet/src/bin/schema.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parquet/src/bin/schema.rs b/parquet/src/bin/schema.rs
index cfe36c9..e24f84b 100644
--- a/parquet/src/bin/schema.rs
+++ b/parquet/src/bin/schema.rs
@@ -556,7 +556,7 @@ fn convert_schema_inner<'schema>(
         .repetition_type
         .unwrap_or(FieldRepetitionType::REQUIRED);
     // cannot overflow because nesting level has a lower limit than u8::MAX
-    let def_level = def_level + (repetition_type == FieldRepetitionType::OPTIONAL) as u8;
+    let def_level = def_level + (repetition_type != FieldRepetitionType::REQUIRED) as u8;
     let rep_level = rep_level + (repetition_type == FieldRepetitionType::REPEATED) as u8;
 
     let mut current = field_from_schema_element(
-- 
2.43.0


From ef92339db15b667de02eba5b9e9bebeadb3f9d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:05 +0000
Subject: [PATCH 14/18] fix: read binaries into initialized memory

---
 runtime/src/protocol.rs | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/runtime/src/protocol.rs b/runtime/src/protocol.rs
index dc53c41..7e1ef17 100644
--- a/runtime/src/protocol.rs
+++ b/runtime/src/protocol.rs
@@ -296,18 +296,12 @@ impl<R: Read + ?Sized> CompactThriftInput<'static> for R {
         Ok(f64::from_le_bytes(buf))
     }
 
-    #[expect(clippy::uninit_vec)]
     fn read_binary(&mut self) -> Result<Cow<'static, [u8]>, ThriftError> {
         let len = self.read_len()?;
         if len > MAX_BINARY_LEN {
             return Err(ThriftError::InvalidBinaryLen(len));
         }
-        let mut buf = Vec::with_capacity(len);
-        // Safety: we trust the Read implementation to only write into buf,
-        // and not to look at uninitialized bytes
-        unsafe {
-            buf.set_len(len);
-        }
+        let mut buf = vec![0_u8; len];
         self.read_exact(buf.as_mut_slice())?;
         Ok(buf.into())
     }
-- 
2.43.0


From 18203f4f60760addb49a71f0571198b4bd074074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:16 +0000
Subject: [PATCH 15/18] fix: read file parts into initialized memory

---
 parquet/src/lib.rs | 16 ++--------------
 1 file changed, 2 insertions(+), 14 deletions(-)

diff --git a/parquet/src/lib.rs b/parquet/src/lib.rs
index b747cae..d06aa6c 100644
--- a/parquet/src/lib.rs
+++ b/parquet/src/lib.rs
@@ -34,7 +34,6 @@ impl From<ThriftError> for ParquetError {
 
 const PARQUET_MAGIC: [u8; 4] = [b'P', b'A', b'R', b'1'];
 
-#[expect(clippy::uninit_vec)]
 pub fn get_metadata_chunk<R: Read + Seek>(input: &mut R) -> Result<Vec<u8>, ParquetError> {
     let _pos = input.seek(SeekFrom::End(-8))?;
     let mut footer = [0_u8; 8];
@@ -46,12 +45,7 @@ pub fn get_metadata_chunk<R: Read + Seek>(input: &mut R) -> Result<Vec<u8>, Parq
     let metadata_len = u32::from_le_bytes(footer[0..4].try_into().unwrap()) as usize;
     input.seek(SeekFrom::End(-(metadata_len as i64) - 8))?;
 
-    let mut buf = Vec::with_capacity(metadata_len);
-    // Safety: Readers should not look at uninitialized bytes, only write into the slice
-    unsafe {
-        buf.set_len(metadata_len);
-    }
-
+    let mut buf = vec![0_u8; metadata_len];
     input.read_exact(&mut buf)?;
     Ok(buf)
 }
@@ -83,7 +77,6 @@ pub fn get_page_index_range(file_metadata: &FileMetaData) -> Result<Option<Range
     }
 }
 
-#[expect(clippy::uninit_vec)]
 #[expect(clippy::type_complexity)]
 pub fn get_page_index_chunk<R: Read + Seek>(input: &mut R, file_metadata: &FileMetaData) -> Result<Option<(Vec<u8>, Range<usize>)>, ParquetError> {
     if let Some(range) = get_page_index_range(file_metadata)? {
@@ -94,12 +87,7 @@ pub fn get_page_index_chunk<R: Read + Seek>(input: &mut R, file_metadata: &FileM
         }
         input.seek(SeekFrom::Start(range.start as u64))?;
 
-        let mut buf = Vec::with_capacity(range.len());
-        // Safety: Readers should not look at uninitialized bytes, only write into the slice
-        unsafe {
-            buf.set_len(range.len());
-        }
-
+        let mut buf = vec![0_u8; range.len()];
         input.read_exact(&mut buf)?;
 
         Ok(Some((buf, range)))
-- 
2.43.0


From 4e8e1a2c6a6017751a0a61214507175d9cc57c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:45 +0000
Subject: [PATCH 16/18] fix: compile for 32-bit x86 with SSE2

---
 runtime/src/uleb.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/runtime/src/uleb.rs b/runtime/src/uleb.rs
index dd668ae..634fadc 100644
--- a/runtime/src/uleb.rs
+++ b/runtime/src/uleb.rs
@@ -26,6 +26,9 @@ pub(crate) fn decode_uleb<'i, I: CompactThriftInput<'i> + ?Sized>(input: &mut I)
 #[cfg(target_feature = "sse2")]
 #[inline]
 pub(crate) unsafe fn skip_uleb_sse2(input: &[u8]) -> &[u8] {
+    #[cfg(target_arch = "x86")]
+    use std::arch::x86::*;
+    #[cfg(target_arch = "x86_64")]
     use std::arch::x86_64::*;
     debug_assert!(input.len() >= 16);
     let chunk = _mm_loadu_si128(input.as_ptr().cast());
-- 
2.43.0


From 2c6e0f52206cf1e149d8666ccc47f260bd25ad87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:45 +0000
Subject: [PATCH 17/18] fix: do not truncate lengths where usize has 32 bits

---
 runtime/src/protocol.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/runtime/src/protocol.rs b/runtime/src/protocol.rs
index 7e1ef17..1a2f1d9 100644
--- a/runtime/src/protocol.rs
+++ b/runtime/src/protocol.rs
@@ -55,7 +55,8 @@ pub trait CompactThriftInput<'i> {
     fn read_byte(&mut self) -> Result<u8, ThriftError>;
     fn read_len(&mut self) -> Result<usize, ThriftError> {
         let len = decode_uleb(self)?;
-        Ok(len as _)
+        // where usize is smaller the length is too large for any limit, do not truncate it
+        Ok(usize::try_from(len).unwrap_or(usize::MAX))
     }
     fn read_i16(&mut self) -> Result<i16, ThriftError> {
         let i = decode_uleb(self)?;
-- 
2.43.0


From 08b73b121c8792e496995b93a1573810aaa896fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:45 +0000
Subject: [PATCH 18/18] fix: page index ranges that the platform can not
 address are an error

---
 parquet/src/lib.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/parquet/src/lib.rs b/parquet/src/lib.rs
index d06aa6c..c62e76a 100644
--- a/parquet/src/lib.rs
+++ b/parquet/src/lib.rs
@@ -50,6 +50,13 @@ pub fn get_metadata_chunk<R: Read + Seek>(input: &mut R) -> Result<Vec<u8>, Parq
     Ok(buf)
 }
 
+/// The end of an index at the given file offset, an error if the platform can not address it.
+fn page_index_end(offset: i64, length: i32) -> Result<usize, ParquetError> {
+    let offset = usize::try_from(offset).map_err(|_| ParquetError::InvalidOffset)?;
+    let length = usize::try_from(length).map_err(|_| ParquetError::InvalidOffset)?;
+    offset.checked_add(length).ok_or(ParquetError::InvalidOffset)
+}
+
 pub fn get_page_index_range(file_metadata: &FileMetaData) -> Result<Option<Range<usize>>, ParquetError> {
     let mut min = usize::MAX;
     let mut max = 0_usize;
@@ -62,10 +69,10 @@ pub fn get_page_index_range(file_metadata: &FileMetaData) -> Result<Option<Range
                 }
 
                 min = min.min(oo as usize);
-                max = max.max(oo as usize + ol as usize);
+                max = max.max(page_index_end(oo, ol)?);
 
                 min = min.min(co as usize);
-                max = max.max(co as usize + cl as usize);
+                max = max.max(page_index_end(co, cl)?);
             }
         }
     }
-- 
2.43.0

