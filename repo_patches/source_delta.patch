From 202d26cf6c1ed3fe1331f92fb094e396fc20f2e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:34 +0000
Subject: [PATCH 1/8] fix: do not deliver consumed bytes again after a failed
 read

BufferedReader reset its position before reading from the inner reader, so
when that read failed, the bytes in the buffer that had been consumed
already became available a second time.
---
 src/input.rs | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/input.rs b/src/input.rs
index 4ec5b7d..056aa49 100644
--- a/src/input.rs
+++ b/src/input.rs
@@ -58,6 +58,17 @@ impl<R: io::Read> BufferedReader<R> {
         }
     }
 
+    /// Replaces the depleted buffer with fresh data from the inner reader.
+    ///
+    /// When the inner reader fails, the buffer remains depleted, such that data
+    /// which has been consumed already is not delivered a second time.
+    fn refill(&mut self) -> io::Result<()> {
+        self.pos = 0;
+        self.num_valid = 0;
+        self.num_valid = try!(self.inner.read(&mut self.buf)) as u32;
+        Ok(())
+    }
+
     /// Destroys the buffered reader, returning the wrapped reader.
     ///
     /// Anything in the buffer will be lost.
@@ -133,8 +144,7 @@ impl<R: io::Read> ReadBytes for BufferedReader<R>
     fn read_u8(&mut self) -> io::Result<u8> {
         if self.pos == self.num_valid {
             // The buffer was depleted, replenish it first.
-            self.pos = 0;
-            self.num_valid = try!(self.inner.read(&mut self.buf)) as u32;
+            try!(self.refill());
 
             if self.num_valid == 0 {
                 return Err(io::Error::new(io::ErrorKind::UnexpectedEof,
@@ -153,8 +163,7 @@ impl<R: io::Read> ReadBytes for BufferedReader<R>
     fn read_u8_or_eof(&mut self) -> io::Result<Option<u8>> {
         if self.pos == self.num_valid {
             // The buffer was depleted, try to replenish it first.
-            self.pos = 0;
-            self.num_valid = try!(self.inner.read(&mut self.buf)) as u32;
+            try!(self.refill());
 
             if self.num_valid == 0 {
                 return Ok(None);
@@ -177,8 +186,7 @@ impl<R: io::Read> ReadBytes for BufferedReader<R>
 
             if bytes_left > 0 {
                 // Replenish the buffer if there is more to be read.
-                self.pos = 0;
-                self.num_valid = try!(self.inner.read(&mut self.buf)) as u32;
+                try!(self.refill());
                 if self.num_valid == 0 {
                     return Err(io::Error::new(io::ErrorKind::UnexpectedEof,
                                               "Expected more bytes."))
@@ -198,8 +206,7 @@ impl<R: io::Read> ReadBytes for BufferedReader<R>
 
             if amount > 0 {
                 // If there is more to skip, refill the buffer first.
-                self.pos = 0;
-                self.num_valid = try!(self.inner.read(&mut self.buf)) as u32;
+                try!(self.refill());
 
                 if self.num_valid == 0 {
                     return Err(io::Error::new(io::ErrorKind::UnexpectedEof,
-- 
2.43.0


From e47f28e9b21f7170cf3564898231f8040042aa68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:34 +0000
Subject: [PATCH 2/8] fix: do not trust the number of bytes reported by the
 inner reader

A reader that claims to have read more bytes than fit in the buffer made
BufferedReader index out of bounds, without bounds check in read_u8.
---
 src/input.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/input.rs b/src/input.rs
index 056aa49..2404f24 100644
--- a/src/input.rs
+++ b/src/input.rs
@@ -65,7 +65,16 @@ impl<R: io::Read> BufferedReader<R> {
     fn refill(&mut self) -> io::Result<()> {
         self.pos = 0;
         self.num_valid = 0;
-        self.num_valid = try!(self.inner.read(&mut self.buf)) as u32;
+        let num_read = try!(self.inner.read(&mut self.buf));
+
+        // `Read` is a safe trait, so we cannot rely on its implementation to be
+        // correct for memory safety of the unchecked indexing in `read_u8`.
+        if num_read > self.buf.len() {
+            return Err(io::Error::new(io::ErrorKind::Other,
+                                      "Reader reported more bytes than requested."))
+        }
+
+        self.num_valid = num_read as u32;
         Ok(())
     }
 
-- 
2.43.0


From 8114b647f5a7456a4bea9b3d8f6f853c72672265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:34 +0000
Subject: [PATCH 3/8] fix: overflow of the zero counter for very long runs of
 zero bits

A run of 2^32 zero bits overflowed the counter in read_unary; that is a
panic in debug mode, and a wrong value in release mode. Reading the number
of wasted bits per sample could overflow in the same way.
---
 src/input.rs    | 6 +++++-
 src/subframe.rs | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/input.rs b/src/input.rs
index 2404f24..79d3f98 100644
--- a/src/input.rs
+++ b/src/input.rs
@@ -513,7 +513,11 @@ impl<R: ReadBytes> Bitstream<R> {
             loop {
                 let fresh_byte = try!(self.reader.read_u8());
                 let zeros = fresh_byte.leading_zeros();
-                n = n + zeros;
+                n = match n.checked_add(zeros) {
+                    Some(sum) => sum,
+                    None => return Err(io::Error::new(io::ErrorKind::InvalidData,
+                                                      "Unary coded number too large.")),
+                };
                 if zeros < 8 {
                     // We consumed the zeros, plus the one following it.
                     self.bits_left = 8 - (zeros + 1);
diff --git a/src/subframe.rs b/src/subframe.rs
index 06c637b..cbe01eb 100644
--- a/src/subframe.rs
+++ b/src/subframe.rs
@@ -73,7 +73,7 @@ fn read_subframe_header<R: ReadBytes>(input: &mut Bitstream<R>) -> Result<Subfra
     let wasted_bits = if !wastes_bits {
         0
     } else {
-        1 + try!(input.read_unary())
+        try!(input.read_unary()).saturating_add(1)
     };
 
     // The spec puts no bounds on the number of wasted bits per sample, but more
-- 
2.43.0


From 97e7822b12ffef3576f3d51aba2e3bb69b8faaf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:34 +0000
Subject: [PATCH 4/8] fix: reject 42-bit variable-length integers in the frame
 header

A first byte of 0xff was accepted as the start of an eight-byte integer,
but the format has at most seven bytes for at most 36 bits.
---
 src/frame.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/frame.rs b/src/frame.rs
index 9c06852..b459371 100644
--- a/src/frame.rs
+++ b/src/frame.rs
@@ -76,6 +76,11 @@ fn read_var_length_int<R: ReadBytes>(input: &mut R) -> Result<u64> {
         mask_mark = mask_mark >> 1;
     }
 
+    // A 36-bit integer takes seven bytes, so there are at most seven leading 1s.
+    if read_additional > 7 {
+        return fmt_err("invalid variable-length integer");
+    }
+
     // A single leading 1 is a follow-up byte and thus invalid.
     if read_additional > 0 {
         if read_additional == 1 {
-- 
2.43.0


From 2c441ffaa35df0839cf80d4c13c424ed69cb0825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:34 +0000
Subject: [PATCH 5/8] fix: overflow when reading from a cursor positioned far
 past its end

---
 src/input.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/input.rs b/src/input.rs
index 79d3f98..c67d215 100644
--- a/src/input.rs
+++ b/src/input.rs
@@ -271,7 +271,8 @@ impl<T: AsRef<[u8]>> ReadBytes for io::Cursor<T> {
 
     fn read_into(&mut self, buffer: &mut [u8]) -> io::Result<()> {
         let pos = self.position();
-        if pos + buffer.len() as u64 <= self.get_ref().as_ref().len() as u64 {
+        let len = self.get_ref().as_ref().len() as u64;
+        if pos <= len && buffer.len() as u64 <= len - pos {
             let start = pos as usize;
             let end = pos as usize + buffer.len();
             buffer.copy_from_slice(&self.get_ref().as_ref()[start..end]);
@@ -284,7 +285,8 @@ impl<T: AsRef<[u8]>> ReadBytes for io::Cursor<T> {
 
     fn skip(&mut self, amount: u32) -> io::Result<()> {
         let pos = self.position();
-        if pos + amount as u64 <= self.get_ref().as_ref().len() as u64 {
+        let len = self.get_ref().as_ref().len() as u64;
+        if pos <= len && amount as u64 <= len - pos {
             self.set_position(pos + amount as u64);
             Ok(())
         } else {
-- 
2.43.0


From 3cdcf5e56bbdea17ebe27f38451b4ca77ed8b91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:34 +0000
Subject: [PATCH 6/8] fix: report a stream that ends after half a frame sync
 code as truncated

read_be_u16_or_eof discarded the first byte and reported a clean end of
stream when there was exactly one byte left.
---
 src/input.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/input.rs b/src/input.rs
index c67d215..4ab89f7 100644
--- a/src/input.rs
+++ b/src/input.rs
@@ -113,9 +113,8 @@ pub trait ReadBytes {
     /// Reads two bytes and interprets them as a big-endian 16-bit unsigned integer.
     fn read_be_u16_or_eof(&mut self) -> io::Result<Option<u16>> {
         if let Some(b0) = try!(self.read_u8_or_eof()) {
-            if let Some(b1) = try!(self.read_u8_or_eof()) {
-                return Ok(Some((b0 as u16) << 8 | (b1 as u16)));
-            }
+            let b1 = try!(self.read_u8());
+            return Ok(Some((b0 as u16) << 8 | (b1 as u16)));
         }
         Ok(None)
     }
-- 
2.43.0


From 3849b252a7e451e30c106a7dfc7003a6b1cffea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:34 +0000
Subject: [PATCH 7/8] fix: do not read beyond the streaminfo block if only that
 is desired

With metadata_only set and read_vorbis_comment not set, the reader is
documented to return as soon as streaminfo has been read, but it read (and
could fail on) one more block.
---
 src/lib.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index b94ee64..f005ba2 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -249,8 +249,13 @@ impl<R: io::Read> FlacReader<R> {
 
             let mut vorbis_comment = None;
 
-            // There might be more metadata blocks, read and store them.
-            for block_result in metadata_iter {
+            // There might be more metadata blocks, read and store them. Early-out
+            // once all desired blocks have been collected.
+            while opts_current.has_desired_blocks() {
+                let block_result = match metadata_iter.next() {
+                    Some(block_result) => block_result,
+                    None => break,
+                };
                 match try!(block_result) {
                     MetadataBlock::VorbisComment(vc) => {
                         // The Vorbis comment block need not be present, but
@@ -270,12 +275,6 @@ impl<R: io::Read> FlacReader<R> {
                     // Other blocks are currently not handled.
                     _block => {}
                 }
-
-                // Early-out reading metadata once all desired blocks have been
-                // collected.
-                if !opts_current.has_desired_blocks() {
-                    break
-                }
             }
 
             // TODO: Rather than discarding afterwards, never parse it in the
-- 
2.43.0


From b2a13353d4726f020360bec43eccacd956992513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:34 +0000
Subject: [PATCH 8/8] fix: do not pass uninitialized memory to read_into

ReadBytes is a public safe trait, so an implementation of read_into may read
from the buffer it is given, or succeed without filling it.
---
 src/metadata.rs | 18 +++---------------
 1 file changed, 3 insertions(+), 15 deletions(-)

diff --git a/src/metadata.rs b/src/metadata.rs
index ddfe207..89f2a81 100644
--- a/src/metadata.rs
+++ b/src/metadata.rs
@@ -429,12 +429,7 @@ fn read_vorbis_comment_block<R: ReadBytes>(input: &mut R, length: u32) -> Result
     // 32-bit vendor string length, and comment count.
     let vendor_len = try!(input.read_le_u32());
     if vendor_len > length - 8 { return fmt_err("vendor string too long") }
-    let mut vendor_bytes = Vec::with_capacity(vendor_len as usize);
-
-    // We can safely set the lenght of the vector here; the uninitialized memory
-    // is not exposed. If `read_into` succeeds, it will have overwritten all
-    // bytes. If not, an error is returned and the memory is never exposed.
-    unsafe { vendor_bytes.set_len(vendor_len as usize); }
+    let mut vendor_bytes = vec![0; vendor_len as usize];
     try!(input.read_into(&mut vendor_bytes));
     let vendor = try!(String::from_utf8(vendor_bytes));
 
@@ -469,9 +464,7 @@ fn read_vorbis_comment_block<R: ReadBytes>(input: &mut R, length: u32) -> Result
             continue;
         }
 
-        // For the same reason as above, setting the length is safe here.
-        let mut comment_bytes = Vec::with_capacity(comment_len as usize);
-        unsafe { comment_bytes.set_len(comment_len as usize); }
+        let mut comment_bytes = vec![0; comment_len as usize];
         try!(input.read_into(&mut comment_bytes));
 
         bytes_left -= comment_len;
@@ -537,12 +530,7 @@ fn read_application_block<R: ReadBytes>(input: &mut R, length: u32) -> Result<(u
     let id = try!(input.read_be_u32());
 
     // Four bytes of the block have been used for the ID, the rest is payload.
-    // Create a vector of uninitialized memory, and read the block into it. The
-    // uninitialized memory is never exposed: read_into will either fill the
-    // buffer completely, or return an err, in which case the memory is not
-    // exposed.
-    let mut data = Vec::with_capacity(length as usize - 4);
-    unsafe { data.set_len(length as usize - 4); }
+    let mut data = vec![0; length as usize - 4];
     try!(input.read_into(&mut data));
 
     Ok((id, data))
-- 
2.43.0

