From 5f5041161277d39ca946d2e1478acf7d337dd487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:38 +0000
Subject: [PATCH 1/7] fix: LimitedReader::skip checks the limit before
 consuming data

---
 src/io/mod.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/io/mod.rs b/src/io/mod.rs
index 2c19e58..1445ff1 100644
--- a/src/io/mod.rs
+++ b/src/io/mod.rs
@@ -293,4 +293,13 @@ impl<'a> Reader for LimitedReader<'a> {
         }
         ret
     }
+
+    fn skip(&mut self, count: usize) -> Result<()> {
+        self.can_read(count)?;
+        let ret = self.source.skip(count);
+        if ret.is_ok() {
+            self.available -= count;
+        }
+        ret
+    }
 }
-- 
2.43.0


From 798de0a738b172c3e18f77bad2d183b611a830dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:40 +0000
Subject: [PATCH 2/7] fix: failed or overflowing skip on seekable readers keeps
 the position

---
 src/io/std_io/mod.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/io/std_io/mod.rs b/src/io/std_io/mod.rs
index f853b52..ea7b20f 100644
--- a/src/io/std_io/mod.rs
+++ b/src/io/std_io/mod.rs
@@ -194,17 +194,20 @@ where
         } else {
             let curr_pos = self.seek(std::io::SeekFrom::Current(0))?;
             let end_pos = self.seek(std::io::SeekFrom::End(0))?;
-            if curr_pos == end_pos {
+            let ret = if curr_pos == end_pos {
                 Err(ErrorKind::EndOfData)
             } else {
-                let new_pos = curr_pos + count;
-                if new_pos <= end_pos {
-                    self.seek(std::io::SeekFrom::Start(new_pos))?;
-                    Ok(())
-                } else {
-                    Err(ErrorKind::UnableToReadData)
+                match curr_pos.checked_add(count) {
+                    Some(new_pos) if new_pos <= end_pos => {
+                        self.seek(std::io::SeekFrom::Start(new_pos))?;
+                        return Ok(());
+                    }
+                    _ => Err(ErrorKind::UnableToReadData),
                 }
-            }
+            };
+            // A failed skip must not move the reader.
+            self.seek(std::io::SeekFrom::Start(curr_pos))?;
+            ret
         }
     }
 }
-- 
2.43.0


From d70d05380f822696b754b4036ca9f8275b066e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:42 +0000
Subject: [PATCH 3/7] fix: SizedSeek::available no longer underflows beyond the
 end

---
 src/io/std_io/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/std_io/mod.rs b/src/io/std_io/mod.rs
index ea7b20f..49fc1a9 100644
--- a/src/io/std_io/mod.rs
+++ b/src/io/std_io/mod.rs
@@ -66,7 +66,7 @@ pub trait SizedSeek {
     fn offset(&mut self) -> Result<u64>;
     /// Returns the number of bytes available for reading.
     fn available(&mut self) -> Result<u64> {
-        Ok(self.len()? - self.offset()?)
+        Ok(self.len()?.saturating_sub(self.offset()?))
     }
 }
 
-- 
2.43.0


From 018192a634e8da1194e82fbf686ce6251a4debbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:44 +0000
Subject: [PATCH 4/7] fix: BorrowedVecWriter::bytes_written no longer
 underflows

---
 src/io/array/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/array/mod.rs b/src/io/array/mod.rs
index dfb734f..9b21170 100644
--- a/src/io/array/mod.rs
+++ b/src/io/array/mod.rs
@@ -446,7 +446,7 @@ impl<'a> BorrowedVecWriter<'a> {
 
     /// Returns the number of bytes actually written.
     pub fn bytes_written(&self) -> usize {
-        self.offset - self.initial_offset
+        self.offset.saturating_sub(self.initial_offset)
     }
 }
 
-- 
2.43.0


From 17ea589b9164b15b1c03c10e7e7abdee271a4541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:46 +0000
Subject: [PATCH 5/7] fix: RawTagScanner uses the real size of non-minimal
 ILInt headers

---
 src/tags/raw/mod.rs | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/tags/raw/mod.rs b/src/tags/raw/mod.rs
index 2769d90..8c42e44 100644
--- a/src/tags/raw/mod.rs
+++ b/src/tags/raw/mod.rs
@@ -40,7 +40,7 @@
 //! New since 1.4.0.
 #[cfg(test)]
 mod tests;
-use crate::io::Reader;
+use crate::io::{LimitedReader, Reader};
 use crate::tags::serialization::*;
 use crate::tags::standard::constants::*;
 use crate::tags::{is_implicit_tag, ErrorKind, Result};
@@ -221,9 +221,9 @@ impl<'a, T: Reader> RawTagScanner<'a, T> {
 
     /// Returns the information about the next tag.
     pub fn next_tag(&mut self) -> Result<Option<RawTagOffset>> {
-        let id: u64 = self.reader.deserialize_ilint()?;
+        let (id, id_size) = self.read_ilint_with_size()?;
         let size_info = self.extract_tag_size(id)?;
-        let header_size: u64 = crate::ilint::encoded_size(id) as u64 + size_info.0;
+        let header_size: u64 = id_size + size_info.0;
         let value_size: u64 = size_info.1;
         let bytes_to_skip: u64 = size_info.2;
         let offset = self.offset;
@@ -253,6 +253,19 @@ impl<'a, T: Reader> RawTagScanner<'a, T> {
         }
     }
 
+    /// Reads an ILInt from the reader.
+    ///
+    /// Returns (u64, u64) where:
+    /// - 0: The value;
+    /// - 1: Number of bytes actually used by its encoding, that may not be
+    ///   the shortest one;
+    fn read_ilint_with_size(&mut self) -> Result<(u64, u64)> {
+        const MAX_ILINT_SIZE: usize = 9;
+        let mut lreader = LimitedReader::new(self.reader, MAX_ILINT_SIZE);
+        let value = lreader.deserialize_ilint()?;
+        Ok((value, (MAX_ILINT_SIZE - lreader.available()) as u64))
+    }
+
     /// Extracts the size of the tag from the reader.
     ///
     /// Returns (u64, u64, u64) where:
@@ -272,12 +285,8 @@ impl<'a, T: Reader> RawTagScanner<'a, T> {
                 }
             }
         } else {
-            let value_size = self.reader.deserialize_ilint()?;
-            (
-                crate::ilint::encoded_size(value_size) as u64,
-                value_size,
-                value_size,
-            )
+            let (value_size, size_size) = self.read_ilint_with_size()?;
+            (size_size, value_size, value_size)
         })
     }
 
-- 
2.43.0


From d9e7d79813b0e7b94d66a234d91127b9ad5a69de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:48 +0000
Subject: [PATCH 6/7] fix: RawTagScanner rejects extents that overflow u64

---
 src/tags/raw/mod.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/tags/raw/mod.rs b/src/tags/raw/mod.rs
index 8c42e44..166a987 100644
--- a/src/tags/raw/mod.rs
+++ b/src/tags/raw/mod.rs
@@ -227,8 +227,15 @@ impl<'a, T: Reader> RawTagScanner<'a, T> {
         let value_size: u64 = size_info.1;
         let bytes_to_skip: u64 = size_info.2;
         let offset = self.offset;
-        self.offset += header_size + value_size;
+        let next_offset = match header_size.checked_add(value_size) {
+            Some(size) => match offset.checked_add(size) {
+                Some(v) => v,
+                None => return Err(ErrorKind::CorruptedData),
+            },
+            None => return Err(ErrorKind::CorruptedData),
+        };
         self.reader.skip_u64(bytes_to_skip)?;
+        self.offset = next_offset;
         Ok(Some(RawTagOffset {
             id,
             offset,
-- 
2.43.0


From ca1f20ea7b6721e792452a50d9f644e2ee284483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:15 +0000
Subject: [PATCH 7/7] fix: compute the value size of a tag only once in size()

---
 src/tags/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/tags/mod.rs b/src/tags/mod.rs
index 58d116c..8c018b1 100644
--- a/src/tags/mod.rs
+++ b/src/tags/mod.rs
@@ -196,11 +196,12 @@ pub trait ILTag: Any + Send + Sync {
 
     /// Returns the total size of the tag in bytes.
     fn size(&self) -> u64 {
+        let value_size = self.value_size();
         let mut size: u64 = encoded_size(self.id()) as u64;
         if !self.is_implicity() {
-            size += encoded_size(self.value_size()) as u64;
+            size += encoded_size(value_size) as u64;
         }
-        size + self.value_size()
+        size + value_size
     }
 
     /// Serializes the payload of this tag.
-- 
2.43.0

