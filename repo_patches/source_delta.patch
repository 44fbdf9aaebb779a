From 74c76f64190795453ce5f20c5c9e688d4c2a6c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:37:18 +0000
Subject: [PATCH 01/57] verif hook: cap the SIMD level chosen by runtime
 dispatch (cfg jxlrs_verif)

---
 jxl_simd/src/lib.rs           |  3 +++
 jxl_simd/src/verif.rs         | 20 ++++++++++++++++++++
 jxl_simd/src/x86_64/avx.rs    |  4 ++++
 jxl_simd/src/x86_64/avx512.rs |  4 ++++
 jxl_simd/src/x86_64/sse42.rs  |  4 ++++
 5 files changed, 35 insertions(+)
 create mode 100644 jxl_simd/src/verif.rs

diff --git a/jxl_simd/src/lib.rs b/jxl_simd/src/lib.rs
index 189201a..d5c2b7b 100644
--- a/jxl_simd/src/lib.rs
+++ b/jxl_simd/src/lib.rs
@@ -4,6 +4,7 @@
 // license that can be found in the LICENSE file.
 
 #![allow(clippy::too_many_arguments)]
+#![allow(unexpected_cfgs)]
 
 use std::fmt::Debug;
 use std::ops::{
@@ -22,6 +23,8 @@ mod wasm32;
 
 pub mod float16;
 pub mod scalar;
+#[cfg(jxlrs_verif)]
+pub mod verif;
 
 #[cfg(all(target_arch = "aarch64", feature = "neon"))]
 pub use aarch64::neon::NeonDescriptor;
diff --git a/jxl_simd/src/verif.rs b/jxl_simd/src/verif.rs
new file mode 100644
index 0000000..5daa297
--- /dev/null
+++ b/jxl_simd/src/verif.rs
@@ -0,0 +1,20 @@
+// Copyright (c) the JPEG XL Project Authors. All rights reserved.
+//
+// Use of this source code is governed by a BSD-style
+// license that can be found in the LICENSE file.
+
+//! Verification hook (only built with `--cfg jxlrs_verif`): caps the SIMD level that runtime
+//! dispatch selects, so that one process can run the same code at every level.
+
+use std::sync::atomic::{AtomicU8, Ordering};
+
+static MAX_LEVEL: AtomicU8 = AtomicU8::new(u8::MAX);
+
+/// 0: scalar, 1: SSE4.2, 2: AVX2, 3: AVX-512.
+pub fn set_max_level(level: u8) {
+    MAX_LEVEL.store(level, Ordering::Relaxed);
+}
+
+pub fn max_level() -> u8 {
+    MAX_LEVEL.load(Ordering::Relaxed)
+}
diff --git a/jxl_simd/src/x86_64/avx.rs b/jxl_simd/src/x86_64/avx.rs
index 3679417..f3866c0 100644
--- a/jxl_simd/src/x86_64/avx.rs
+++ b/jxl_simd/src/x86_64/avx.rs
@@ -139,6 +139,10 @@ impl SimdDescriptor for AvxDescriptor {
     }
 
     fn new() -> Option<Self> {
+        #[cfg(jxlrs_verif)]
+        if crate::verif::max_level() < 2 {
+            return None;
+        }
         if is_x86_feature_detected!("avx2")
             && is_x86_feature_detected!("fma")
             && is_x86_feature_detected!("f16c")
diff --git a/jxl_simd/src/x86_64/avx512.rs b/jxl_simd/src/x86_64/avx512.rs
index b659f02..d807034 100644
--- a/jxl_simd/src/x86_64/avx512.rs
+++ b/jxl_simd/src/x86_64/avx512.rs
@@ -60,6 +60,10 @@ impl SimdDescriptor for Avx512Descriptor {
     }
 
     fn new() -> Option<Self> {
+        #[cfg(jxlrs_verif)]
+        if crate::verif::max_level() < 3 {
+            return None;
+        }
         if is_x86_feature_detected!("avx512f") && is_x86_feature_detected!("avx512bw") {
             // SAFETY: we just checked avx512f and avx512bw.
             Some(Self(()))
diff --git a/jxl_simd/src/x86_64/sse42.rs b/jxl_simd/src/x86_64/sse42.rs
index b0cbd2c..1941abf 100644
--- a/jxl_simd/src/x86_64/sse42.rs
+++ b/jxl_simd/src/x86_64/sse42.rs
@@ -45,6 +45,10 @@ impl SimdDescriptor for Sse42Descriptor {
     }
 
     fn new() -> Option<Self> {
+        #[cfg(jxlrs_verif)]
+        if crate::verif::max_level() < 1 {
+            return None;
+        }
         if is_x86_feature_detected!("sse4.2") {
             // SAFETY: we just checked sse4.2.
             Some(unsafe { Self::new_unchecked() })
-- 
2.43.0


From 00dec9a0e965254b73426e24bb47cfface86c29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:25 +0000
Subject: [PATCH 02/57] fix: default JxlBitstreamInput::skip counts only bytes
 that were read

The provided implementation ignored how many bytes read() returned, so at the end of the
available input it reported bytes as skipped that had never been there: truncated files were
reported as complete, and files arriving in pieces were misparsed.
---
 jxl/src/api/input.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jxl/src/api/input.rs b/jxl/src/api/input.rs
index dd4a91f..d827e8e 100644
--- a/jxl/src/api/input.rs
+++ b/jxl/src/api/input.rs
@@ -26,7 +26,10 @@ pub trait JxlBitstreamInput {
         let mut skipped = 0;
         while bytes > 0 {
             let num = bytes.min(BUF_SIZE);
-            self.read(&mut [IoSliceMut::new(&mut skip_buf[..num])])?;
+            let num = self.read(&mut [IoSliceMut::new(&mut skip_buf[..num])])?;
+            if num == 0 {
+                break;
+            }
             bytes -= num;
             skipped += num;
         }
-- 
2.43.0


From 49ab194ccff2a405fe143c4433ccda5ad1bcec2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:25 +0000
Subject: [PATCH 03/57] fix: BufReader input does not skip past the end of the
 data

Seeking past the end succeeds, so missing bytes were reported as skipped and truncated files as
complete. Skips of usize::MAX bytes (an open-ended box) wrapped to -1 and moved backwards.
---
 jxl/src/api/input.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/jxl/src/api/input.rs b/jxl/src/api/input.rs
index d827e8e..889807d 100644
--- a/jxl/src/api/input.rs
+++ b/jxl/src/api/input.rs
@@ -66,8 +66,9 @@ impl<R: Read + Seek> JxlBitstreamInput for BufReader<R> {
     }
 
     fn skip(&mut self, bytes: usize) -> Result<usize, Error> {
-        let cur = self.stream_position()?;
-        self.seek(SeekFrom::Current(bytes as i64))
-            .map(|x| x.saturating_sub(cur) as usize)
+        // Seeking past the end of the data would succeed; do not report missing bytes as skipped.
+        let num = bytes.min(self.available_bytes()?);
+        self.seek_relative(num as i64)?;
+        Ok(num)
     }
 }
-- 
2.43.0


From 0a77487ec3b33d04e2a2e07781dad7b4e56043c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:25 +0000
Subject: [PATCH 04/57] fix: buffer out-of-order jxlp boxes correctly on short
 reads

A short read left the unread part of the chunk as zeros in the middle of the box, and bytes that
were already in the local buffer were not counted as available.
---
 jxl/src/api/inner/box_parser.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jxl/src/api/inner/box_parser.rs b/jxl/src/api/inner/box_parser.rs
index 5ed1d9f..3aa310f 100644
--- a/jxl/src/api/inner/box_parser.rs
+++ b/jxl/src/api/inner/box_parser.rs
@@ -300,7 +300,8 @@ impl BoxParser {
                     let mut buf = self.ooo_jxlp_buffer.remove(&id).unwrap();
                     let mut total = 0;
                     loop {
-                        let space = buf.data.len().max(1024).min(input.available_bytes()?) as u64;
+                        let available = self.available_bytes_inner(input)?;
+                        let space = buf.data.len().max(1024).min(available) as u64;
                         let space = count.map(|x| (x - total).min(space)).unwrap_or(space) as usize;
                         if space == 0 {
                             break;
@@ -310,6 +311,7 @@ impl BoxParser {
                         buf.data.resize(cur + space, 0);
                         let n =
                             self.read_inner(input, &mut [IoSliceMut::new(&mut buf.data[cur..])])?;
+                        buf.data.truncate(cur + n);
                         if n == 0 {
                             break;
                         }
-- 
2.43.0


From 7a849a4a01abfbb62d79ebc1f55d6821086cd7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:25 +0000
Subject: [PATCH 05/57] fix: do not continue in the next buffer after a short
 read at the end of a box

After a short read into the earlier buffers the remaining bytes of the box went to the following
buffer (or past its end, a panic), leaving a gap in the codestream.
---
 jxl/src/api/inner/box_parser.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/jxl/src/api/inner/box_parser.rs b/jxl/src/api/inner/box_parser.rs
index 3aa310f..46e083c 100644
--- a/jxl/src/api/inner/box_parser.rs
+++ b/jxl/src/api/inner/box_parser.rs
@@ -502,10 +502,14 @@ impl<'a> CodestreamInput<'a> {
                 upper += 1;
             }
             let n = self.box_parser.read_inner(self.input, &mut buf[..upper])?;
-            let left = (limit - n as u64) as usize;
-            n + self
-                .box_parser
-                .read_inner(self.input, &mut [IoSliceMut::new(&mut buf[upper][..left])])?
+            if n as u64 == cumsum {
+                let left = (limit - cumsum) as usize;
+                n + self
+                    .box_parser
+                    .read_inner(self.input, &mut [IoSliceMut::new(&mut buf[upper][..left])])?
+            } else {
+                n
+            }
         };
         self.box_parser.mark_codestream_read(n);
         Ok(n)
-- 
2.43.0


From 8f3b7df7dca50f75f9848576cae4da584e91af04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:25 +0000
Subject: [PATCH 06/57] fix: skip frames that span several codestream boxes
 without asking for more input

One skip stops at the end of a box, so skipping or scanning such a frame reported that more input
was needed although all of it was available.
---
 jxl/src/api/inner/codestream_parser/frame_info.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/jxl/src/api/inner/codestream_parser/frame_info.rs b/jxl/src/api/inner/codestream_parser/frame_info.rs
index 484ccae..cbe225d 100644
--- a/jxl/src/api/inner/codestream_parser/frame_info.rs
+++ b/jxl/src/api/inner/codestream_parser/frame_info.rs
@@ -333,10 +333,15 @@ impl FrameInfo {
         buf: &mut SmallBuffer,
     ) -> Result<()> {
         let total_size = self.section_size;
-        let need_skip = total_size - self.ready_section_data;
-        let skipped = input.skip(need_skip)?;
-        buf.mark_consumed(skipped as u64);
-        self.ready_section_data += skipped;
+        // A single skip stops at the end of the current codestream box.
+        while self.ready_section_data < total_size {
+            let skipped = input.skip(total_size - self.ready_section_data)?;
+            if skipped == 0 {
+                break;
+            }
+            buf.mark_consumed(skipped as u64);
+            self.ready_section_data += skipped;
+        }
         if self.ready_section_data < total_size {
             Err(Error::OutOfBounds(total_size - self.ready_section_data))
         } else {
-- 
2.43.0


From 205dbd5de0b1b85afc27f4a58ba0fc616f48e5f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:25 +0000
Subject: [PATCH 07/57] fix: finish a frame whose data is complete even if the
 next box is not

The frame was held back when all its sections had already been buffered but the input ended in the
middle of the following box header; whether that happened depended on how the input was cut.
---
 jxl/src/api/inner/codestream_parser/frame_info.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jxl/src/api/inner/codestream_parser/frame_info.rs b/jxl/src/api/inner/codestream_parser/frame_info.rs
index cbe225d..dbefb26 100644
--- a/jxl/src/api/inner/codestream_parser/frame_info.rs
+++ b/jxl/src/api/inner/codestream_parser/frame_info.rs
@@ -357,7 +357,9 @@ impl FrameInfo {
     ) -> Result<()> {
         // TODO(veluca): consider re-using `section_buffers` between different iterations.
         let mut total = 0;
-        loop {
+        // Do not touch the input (which could be blocked in the middle of a box header) if all
+        // the data of the frame is there.
+        while !self.sections.is_empty() {
             let available_codestream = input.available_bytes();
             let mut available_codestream = match (available_codestream, total) {
                 (Ok(a), _) => a.max(1),
-- 
2.43.0


From f1409ca28564c5ee68afa5cd9dbd0be61df4405c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:25 +0000
Subject: [PATCH 08/57] fix: parse headers that are complete although the next
 box is not

Headers were not parsed from data that had already been obtained when the input ended between two
codestream boxes; whether that happened depended on how the input was cut.
---
 jxl/src/api/inner/codestream_parser/mod.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/jxl/src/api/inner/codestream_parser/mod.rs b/jxl/src/api/inner/codestream_parser/mod.rs
index 47b6cd7..cec6007 100644
--- a/jxl/src/api/inner/codestream_parser/mod.rs
+++ b/jxl/src/api/inner/codestream_parser/mod.rs
@@ -156,7 +156,16 @@ impl CodestreamParser {
         mut do_parse: impl FnMut(&mut Self, &mut CodestreamInput) -> Result<T>,
     ) -> Result<T> {
         loop {
-            let c = self.local_buffer.refill(|buf| input.read(buf))?;
+            // The input may be blocked between two codestream boxes; data that was obtained before
+            // that may still be enough to parse.
+            let mut blocked = None;
+            let c = self.local_buffer.refill(|buf| match input.read(buf) {
+                Err(Error::OutOfBounds(n)) => {
+                    blocked = Some(n);
+                    Ok(0)
+                }
+                r => r,
+            })?;
 
             if let Some(mut need) = self.header_needed_bytes.take() {
                 need = need.saturating_sub(c);
@@ -169,7 +178,7 @@ impl CodestreamParser {
                     if c > 0 || enlarge {
                         continue;
                     }
-                    return Err(Error::OutOfBounds(need));
+                    return Err(Error::OutOfBounds(blocked.unwrap_or(need)));
                 }
             }
 
@@ -191,7 +200,7 @@ impl CodestreamParser {
                     if c > 0 || made_progress || enlarge {
                         continue;
                     }
-                    return Err(Error::OutOfBounds(n));
+                    return Err(Error::OutOfBounds(blocked.unwrap_or(n)));
                 }
                 Err(e) => return Err(e),
             }
-- 
2.43.0


From 543ffe2ecd3e4999c2784d6e0209773d25480974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:16 +0000
Subject: [PATCH 09/57] fix: process the sections that have arrived although
 the next box is not complete

Sections that came with the frame header were not processed when the input then ended in the
middle of a box header.
---
 jxl/src/api/inner/codestream_parser/frame_info.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/jxl/src/api/inner/codestream_parser/frame_info.rs b/jxl/src/api/inner/codestream_parser/frame_info.rs
index dbefb26..c075e7b 100644
--- a/jxl/src/api/inner/codestream_parser/frame_info.rs
+++ b/jxl/src/api/inner/codestream_parser/frame_info.rs
@@ -356,15 +356,15 @@ impl FrameInfo {
         buf: &mut SmallBuffer,
     ) -> Result<()> {
         // TODO(veluca): consider re-using `section_buffers` between different iterations.
-        let mut total = 0;
         // Do not touch the input (which could be blocked in the middle of a box header) if all
         // the data of the frame is there.
         while !self.sections.is_empty() {
             let available_codestream = input.available_bytes();
-            let mut available_codestream = match (available_codestream, total) {
-                (Ok(a), _) => a.max(1),
-                (Err(Error::OutOfBounds(_)), t) if t > 0 => return Ok(()),
-                (Err(e), _) => return Err(e),
+            let mut available_codestream = match available_codestream {
+                Ok(a) => a.max(1),
+                // Sections that were filled before may still have to be processed.
+                Err(Error::OutOfBounds(_)) => return Ok(()),
+                Err(e) => return Err(e),
             };
             let mut readable_section_data = self.ready_section_data + available_codestream;
             // Ensure enough section buffer space is available for reading the
@@ -409,7 +409,6 @@ impl FrameInfo {
                 break;
             }
             self.ready_section_data += num;
-            total += num;
             buf.mark_consumed(num as u64);
             self.dequeue_ready_sections();
         }
-- 
2.43.0


From 51b8df8b788eb0edc300a373f4d5dbb997ff6fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:16 +0000
Subject: [PATCH 10/57] fix: look up the box of a frame start once the frame
 header has been read

At a box boundary the lookup found the previous box while the next one had not arrived; files were
rejected if that one was out of order, depending on how the input was cut.
---
 jxl/src/api/inner/codestream_parser/mod.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/jxl/src/api/inner/codestream_parser/mod.rs b/jxl/src/api/inner/codestream_parser/mod.rs
index cec6007..f1833a7 100644
--- a/jxl/src/api/inner/codestream_parser/mod.rs
+++ b/jxl/src/api/inner/codestream_parser/mod.rs
@@ -243,11 +243,7 @@ impl CodestreamParser {
 
                 ParserState::FrameHeader { is_preview } => {
                     self.refill_and_parse(input, |c, input| {
-                        c.frame_scan_info.set_current_frame_checkpoint(
-                            input
-                                .box_parser()
-                                .state_checkpoint(c.local_buffer.consumed())?,
-                        );
+                        let frame_start = c.local_buffer.consumed();
 
                         c.local_buffer.with_br(|br, bits| {
                             c.frame_info.parse_frame_header(
@@ -257,7 +253,14 @@ impl CodestreamParser {
                                 br,
                                 bits,
                             )
-                        })
+                        })?;
+
+                        // Only now is it certain that the box that contains the start of the
+                        // frame has been seen.
+                        c.frame_scan_info.set_current_frame_checkpoint(
+                            input.box_parser().state_checkpoint(frame_start)?,
+                        );
+                        Ok(())
                     })?;
                     self.state = ParserState::Toc { is_preview };
                 }
-- 
2.43.0


From 2cde151f1fef84153072c47da95bb25e217dabdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:16 +0000
Subject: [PATCH 11/57] fix: seek targets in the middle of a codestream box
 know what is left of the box

After seeking to a frame that does not start its box, the parser took the bytes after the box for
codestream.
---
 jxl/src/api/inner/box_parser.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jxl/src/api/inner/box_parser.rs b/jxl/src/api/inner/box_parser.rs
index 46e083c..9d5c2a5 100644
--- a/jxl/src/api/inner/box_parser.rs
+++ b/jxl/src/api/inner/box_parser.rs
@@ -105,6 +105,7 @@ impl BoxParser {
             }
             let overflow = codestream_pos - start;
             b.file_position += overflow;
+            b.codestream_left = b.codestream_left.map(|left| left - overflow);
             b.consumed_codestream = codestream_pos;
             Ok(Some(b))
         }
-- 
2.43.0


From b44f92c5904cf6a2b2f05d1d59a4d58d84566aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:59 +0000
Subject: [PATCH 12/57] fix: codestream positions of out-of-order jxlp boxes

Box starts were recorded in the order of arrival, and a buffered box once more with the size of
the last read of its predecessor, so that the positions of all following boxes, and with them frame
offsets, seek targets and the file length, were wrong or underflowed.
---
 jxl/src/api/inner/box_parser.rs | 67 +++++++++++++++++++++++----------
 1 file changed, 47 insertions(+), 20 deletions(-)

diff --git a/jxl/src/api/inner/box_parser.rs b/jxl/src/api/inner/box_parser.rs
index 9d5c2a5..a03e44e 100644
--- a/jxl/src/api/inner/box_parser.rs
+++ b/jxl/src/api/inner/box_parser.rs
@@ -40,6 +40,8 @@ struct OOOJxlpBox {
     data: Vec<u8>,
     consumed: usize,
     is_last: bool,
+    // Position of `data` in the file.
+    file_position: u64,
 }
 
 #[derive(Debug, Clone, Copy)]
@@ -116,19 +118,32 @@ impl BoxParser {
         b.file_position + (codestream_bytes_consumed - *start)
     }
 
+    /// Records the start of the codestream box that is about to be read.
     fn add_checkpoint(&mut self) {
-        if !self.allow_checkpoint {
-            return;
-        }
         // For a codestream box to be a valid checkpoint, it needs to be decoded
         // in-order (i.e. all other logically-preceding jxlp boxes have been seen already)
         // and we must not have seen any future jxlp boxes (which would be stored in the
         // ooo jxlp buffer).
         let (codestream_left, is_valid_checkpoint) = match self.state {
             ParseState::Codestream(c) => (c, self.ooo_jxlp_buffer.is_empty()),
-            ParseState::OOOJxlp(_, c) => (c, false),
             _ => (None, false),
         };
+        self.insert_checkpoint(
+            self.local_buffer.consumed(),
+            codestream_left,
+            is_valid_checkpoint,
+        );
+    }
+
+    fn insert_checkpoint(
+        &mut self,
+        file_position: u64,
+        codestream_left: Option<u64>,
+        is_valid_checkpoint: bool,
+    ) {
+        if !self.allow_checkpoint {
+            return;
+        }
         let codestream_position = self
             .codestream_pos_to_box
             .last_key_value()
@@ -137,7 +152,7 @@ impl BoxParser {
         self.codestream_pos_to_box.insert(
             codestream_position,
             BoxParserCheckpoint {
-                file_position: self.local_buffer.consumed(),
+                file_position,
                 box_type: self.latest_codestream_box,
                 codestream_left,
                 is_valid_checkpoint,
@@ -146,6 +161,26 @@ impl BoxParser {
         );
     }
 
+    /// Continues with the box after the one that was just finished if it was buffered.
+    /// We create known-invalid checkpoints for buffered boxes to ensure that the checks work
+    /// properly, and to count codestream length correctly.
+    fn start_buffered_jxlp(&mut self) {
+        while let CodestreamBoxType::Jxlp(j, false) = self.latest_codestream_box
+            && let Some(b) = self.ooo_jxlp_buffer.get(&(j + 1))
+        {
+            let (file_position, len, is_last) = (b.file_position, b.data.len(), b.is_last);
+            self.latest_codestream_box = CodestreamBoxType::Jxlp(j + 1, is_last);
+            self.insert_checkpoint(file_position, Some(len as u64), false);
+            if len > 0 {
+                break;
+            }
+            self.ooo_jxlp_buffer.remove(&(j + 1));
+            if is_last {
+                self.state = ParseState::Complete;
+            }
+        }
+    }
+
     fn injected_jxlp(&mut self) -> Option<&mut OOOJxlpBox> {
         if matches!(self.state, ParseState::BoxNeeded(_) | ParseState::Complete)
             && let CodestreamBoxType::Jxlp(j, _) = self.latest_codestream_box
@@ -168,8 +203,8 @@ impl BoxParser {
             self.ooo_jxlp_buffer.remove(&j);
             if is_last {
                 self.state = ParseState::Complete;
-            } else if let Some(b) = self.ooo_jxlp_buffer.get(&(j + 1)) {
-                self.latest_codestream_box = CodestreamBoxType::Jxlp(j + 1, b.is_last);
+            } else {
+                self.start_buffered_jxlp();
             }
         }
     }
@@ -183,19 +218,14 @@ impl BoxParser {
         }
         let new_size = c.unwrap() - n as u64;
         if new_size == 0 {
-            self.state = if matches!(
+            if matches!(
                 self.latest_codestream_box,
                 CodestreamBoxType::Jxlc | CodestreamBoxType::Jxlp(_, true)
             ) {
-                ParseState::Complete
+                self.state = ParseState::Complete;
             } else {
-                if let CodestreamBoxType::Jxlp(j, _) = self.latest_codestream_box
-                    && let Some(b) = self.ooo_jxlp_buffer.get(&(j + 1))
-                {
-                    self.latest_codestream_box = CodestreamBoxType::Jxlp(j + 1, b.is_last);
-                    self.add_checkpoint();
-                }
-                ParseState::BoxNeeded(8)
+                self.state = ParseState::BoxNeeded(8);
+                self.start_buffered_jxlp();
             }
         } else {
             *c = Some(new_size);
@@ -428,12 +458,9 @@ impl BoxParser {
                             data: vec![],
                             consumed: 0,
                             is_last: last,
+                            file_position: self.local_buffer.consumed(),
                         },
                     );
-                    // We create a known-invalid checkpoint here to ensure
-                    // that the checks work properly, and to count codestream
-                    // length correctly.
-                    self.add_checkpoint();
                     return Ok(());
                 }
                 // In-order jxlp
-- 
2.43.0


From 0cf3e129a5d6478f3d32ea65754b6fbc7deec642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:59 +0000
Subject: [PATCH 13/57] fix: continue with a buffered jxlp box after an empty
 one

The box following an empty jxlp box was not looked up among the buffered ones, so the codestream
seemed to end there, and an empty last box did not complete the codestream.
---
 jxl/src/api/inner/box_parser.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/jxl/src/api/inner/box_parser.rs b/jxl/src/api/inner/box_parser.rs
index a03e44e..a1d1c71 100644
--- a/jxl/src/api/inner/box_parser.rs
+++ b/jxl/src/api/inner/box_parser.rs
@@ -288,9 +288,18 @@ impl BoxParser {
     }
 
     fn advance_to_codestream(&mut self, input: &mut dyn JxlBitstreamInput) -> Result<()> {
+        if self.injected_jxlp().is_some() {
+            return Ok(());
+        }
         loop {
             match self.state {
-                ParseState::Codestream(Some(0)) => self.state = ParseState::BoxNeeded(8),
+                // An empty box; the next one may have been buffered.
+                ParseState::Codestream(Some(0)) => {
+                    self.mark_codestream_read(0);
+                    if self.injected_jxlp().is_some() {
+                        return Ok(());
+                    }
+                }
                 ParseState::Complete | ParseState::Codestream(_) => return Ok(()),
                 ParseState::SignatureNeeded => {
                     let codestream_signature_len = JxlSignatureType::Codestream.signature().len();
@@ -491,11 +500,11 @@ impl<'a> CodestreamInput<'a> {
     // The methods below have the same semantics as the methods in JxlBitstreamInput.
 
     pub(super) fn available_bytes(&mut self) -> Result<usize> {
+        self.box_parser.advance_to_codestream(self.input)?;
         if let Some(b) = self.box_parser.injected_jxlp() {
             return Ok(b.data.len() - b.consumed);
         }
 
-        self.box_parser.advance_to_codestream(self.input)?;
         let ParseState::Codestream(r) = self.box_parser.state else {
             return Ok(0);
         };
@@ -505,6 +514,7 @@ impl<'a> CodestreamInput<'a> {
     }
 
     pub(super) fn read(&mut self, buf: &mut [IoSliceMut]) -> Result<usize> {
+        self.box_parser.advance_to_codestream(self.input)?;
         if let Some(b) = self.box_parser.injected_jxlp() {
             let mut r = &b.data[b.consumed..];
             let n = r.read_vectored(buf)?;
@@ -513,7 +523,6 @@ impl<'a> CodestreamInput<'a> {
             return Ok(n);
         }
 
-        self.box_parser.advance_to_codestream(self.input)?;
         let ParseState::Codestream(r) = self.box_parser.state else {
             return Ok(0);
         };
@@ -544,6 +553,7 @@ impl<'a> CodestreamInput<'a> {
     }
 
     pub(super) fn skip(&mut self, amount: usize) -> Result<usize> {
+        self.box_parser.advance_to_codestream(self.input)?;
         if let Some(b) = self.box_parser.injected_jxlp() {
             let n = (b.data.len() - b.consumed).min(amount);
             b.consumed += n;
@@ -551,7 +561,6 @@ impl<'a> CodestreamInput<'a> {
             return Ok(n);
         }
 
-        self.box_parser.advance_to_codestream(self.input)?;
         let ParseState::Codestream(r) = self.box_parser.state else {
             return Ok(0);
         };
-- 
2.43.0


From d42264ca3899c419497946babbf8c7b7dc6c9190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:59 +0000
Subject: [PATCH 14/57] fix: file length if boxes after the end of the
 codestream have been seen

The start of the last box seen was subtracted, which underflowed if the codestream ended before it.
---
 jxl/src/api/inner/box_parser.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/jxl/src/api/inner/box_parser.rs b/jxl/src/api/inner/box_parser.rs
index a1d1c71..039b81b 100644
--- a/jxl/src/api/inner/box_parser.rs
+++ b/jxl/src/api/inner/box_parser.rs
@@ -114,7 +114,12 @@ impl BoxParser {
     }
 
     pub(super) fn total_bytes_consumed(&self, codestream_bytes_consumed: u64) -> u64 {
-        let (start, b) = self.codestream_pos_to_box.last_key_value().unwrap();
+        // The box that holds the last byte; later ones may have been seen already.
+        let (start, b) = self
+            .codestream_pos_to_box
+            .range(..codestream_bytes_consumed)
+            .last()
+            .unwrap();
         b.file_position + (codestream_bytes_consumed - *start)
     }
 
-- 
2.43.0


From aa1a6aaec9fc2c156d69953d1de08760bc7576ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:59 +0000
Subject: [PATCH 15/57] fix: file length after seeking

Boxes were not recorded after a seek, so the file length was computed from a box that was known
before it.
---
 jxl/src/api/inner/box_parser.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/jxl/src/api/inner/box_parser.rs b/jxl/src/api/inner/box_parser.rs
index 039b81b..2b57946 100644
--- a/jxl/src/api/inner/box_parser.rs
+++ b/jxl/src/api/inner/box_parser.rs
@@ -80,6 +80,12 @@ impl BoxParser {
 
     pub(super) fn reset_to_checkpoint(&mut self, box_checkpoint: BoxParserCheckpoint) {
         self.local_buffer = SmallBuffer::new(128);
+        self.local_buffer
+            .mark_consumed(box_checkpoint.file_position);
+        // Boxes are located anew from here on.
+        let position = box_checkpoint.consumed_codestream;
+        self.codestream_pos_to_box.split_off(&position);
+        self.codestream_pos_to_box.insert(position, box_checkpoint);
         self.ooo_jxlp_buffer.clear();
         self.latest_codestream_box = box_checkpoint.box_type;
         self.state = ParseState::Codestream(box_checkpoint.codestream_left);
@@ -146,9 +152,6 @@ impl BoxParser {
         codestream_left: Option<u64>,
         is_valid_checkpoint: bool,
     ) {
-        if !self.allow_checkpoint {
-            return;
-        }
         let codestream_position = self
             .codestream_pos_to_box
             .last_key_value()
-- 
2.43.0


From a8645fdd5a55086196113597d4adf86102710f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:21 +0000
Subject: [PATCH 16/57] fix: parse headers if the input is exhausted before the
 estimated size is reached

The number of bytes a header is estimated to need may be too high, e.g. for TOC entries and
permutations and for ICC profiles. The decoder insisted on that many bytes and never got on when
the file had fewer, depending on how the input was cut.
---
 jxl/src/api/inner/codestream_parser/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jxl/src/api/inner/codestream_parser/mod.rs b/jxl/src/api/inner/codestream_parser/mod.rs
index f1833a7..7a73c70 100644
--- a/jxl/src/api/inner/codestream_parser/mod.rs
+++ b/jxl/src/api/inner/codestream_parser/mod.rs
@@ -178,7 +178,8 @@ impl CodestreamParser {
                     if c > 0 || enlarge {
                         continue;
                     }
-                    return Err(Error::OutOfBounds(blocked.unwrap_or(need)));
+                    // There is no more input for now: try to parse anyway, because `need` is only
+                    // an estimate and may be too high (even beyond the end of the file).
                 }
             }
 
-- 
2.43.0


From 3dd075a1ccd7bcf6b1fd74f41fa51989c3b2b409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:16 +0000
Subject: [PATCH 17/57] fix: names of frames and extra channels are UTF-8

Each byte was taken for a character of its own (Latin-1). The string was then longer than the number
of bytes read, so that the size hint of a header cut inside such a name could be 0.
---
 jxl/src/headers/encodings.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/jxl/src/headers/encodings.rs b/jxl/src/headers/encodings.rs
index b06c4dd..67a4a37 100644
--- a/jxl/src/headers/encodings.rs
+++ b/jxl/src/headers/encodings.rs
@@ -153,11 +153,10 @@ impl UnconditionalCoder<()> for String {
             br,
             nonserialized,
         )?;
-        let mut ret = String::new();
-        ret.reserve(len as usize);
+        let mut ret = Vec::with_capacity(len as usize);
         for _ in 0..len {
             match br.read_noinline(8) {
-                Ok(c) => ret.push(c as u8 as char),
+                Ok(c) => ret.push(c as u8),
                 Err(Error::OutOfBounds(n)) => {
                     // Use saturating arithmetic to prevent underflow on malformed input
                     // ret.len()+1 cannot overflow since ret.len() <= isize::MAX
@@ -169,7 +168,9 @@ impl UnconditionalCoder<()> for String {
                 Err(e) => return Err(e),
             }
         }
-        Ok(ret)
+        // Names are UTF-8.
+        Ok(String::from_utf8(ret)
+            .unwrap_or_else(|e| String::from_utf8_lossy(e.as_bytes()).into_owned()))
     }
 }
 
-- 
2.43.0


From c71b7be664dfdd32357b3f018ee052d0eee3c803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:26 +0000
Subject: [PATCH 18/57] verif hook: log the frames that were parsed (cfg
 jxlrs_verif)

---
 jxl/src/api/inner/codestream_parser/mod.rs |  7 +++
 jxl/src/lib.rs                             |  2 +
 jxl/src/verif.rs                           | 52 ++++++++++++++++++++++
 3 files changed, 61 insertions(+)
 create mode 100644 jxl/src/verif.rs

diff --git a/jxl/src/api/inner/codestream_parser/mod.rs b/jxl/src/api/inner/codestream_parser/mod.rs
index 7a73c70..243f530 100644
--- a/jxl/src/api/inner/codestream_parser/mod.rs
+++ b/jxl/src/api/inner/codestream_parser/mod.rs
@@ -256,6 +256,13 @@ impl CodestreamParser {
                             )
                         })?;
 
+                        #[cfg(jxlrs_verif)]
+                        crate::verif::log_frame(
+                            frame_start,
+                            is_preview,
+                            c.frame_info.current_frame_header().unwrap(),
+                        );
+
                         // Only now is it certain that the box that contains the start of the
                         // frame has been seen.
                         c.frame_scan_info.set_current_frame_checkpoint(
diff --git a/jxl/src/lib.rs b/jxl/src/lib.rs
index 3fd8fae..1a636c5 100644
--- a/jxl/src/lib.rs
+++ b/jxl/src/lib.rs
@@ -16,6 +16,8 @@ pub mod icc;
 pub mod image;
 pub mod render;
 pub mod util;
+#[cfg(jxlrs_verif)]
+pub mod verif;
 
 #[cfg(test)]
 mod tests;
diff --git a/jxl/src/verif.rs b/jxl/src/verif.rs
new file mode 100644
index 0000000..6b79b0b
--- /dev/null
+++ b/jxl/src/verif.rs
@@ -0,0 +1,52 @@
+// Copyright (c) the JPEG XL Project Authors. All rights reserved.
+//
+// Use of this source code is governed by a BSD-style
+// license that can be found in the LICENSE file.
+
+//! Event log for the verification harness (only with `--cfg jxlrs_verif`).
+
+use std::cell::RefCell;
+
+use crate::headers::frame_header::FrameHeader;
+
+#[derive(Clone, Debug)]
+pub struct FrameEvent {
+    /// Position of the frame header in the codestream.
+    pub start: u64,
+    pub is_preview: bool,
+    pub visible: bool,
+    pub vardct: bool,
+    pub needs_blending: bool,
+    pub num_groups: usize,
+    pub num_passes: usize,
+}
+
+thread_local! {
+    static FRAMES: RefCell<Option<Vec<FrameEvent>>> = const { RefCell::new(None) };
+}
+
+/// Starts recording the frames parsed by this thread.
+pub fn start_log() {
+    FRAMES.with(|f| *f.borrow_mut() = Some(vec![]));
+}
+
+/// Stops recording.
+pub fn take_log() -> Vec<FrameEvent> {
+    FRAMES.with(|f| f.borrow_mut().take()).unwrap_or_default()
+}
+
+pub(crate) fn log_frame(start: u64, is_preview: bool, h: &FrameHeader) {
+    FRAMES.with(|f| {
+        if let Some(v) = f.borrow_mut().as_mut() {
+            v.push(FrameEvent {
+                start,
+                is_preview,
+                visible: h.is_visible(),
+                vardct: h.encoding == crate::headers::frame_header::Encoding::VarDCT,
+                needs_blending: h.needs_blending(),
+                num_groups: h.num_groups(),
+                num_passes: h.passes.num_passes as usize,
+            });
+        }
+    });
+}
-- 
2.43.0


From 4d352787fada85653ee2e568fea5dc8f2a1ac4ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:53 +0000
Subject: [PATCH 19/57] fix: decode VarDCT frames if the colour channels are
 not output

---
 jxl/src/render/internal.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jxl/src/render/internal.rs b/jxl/src/render/internal.rs
index 57f0885..29bfe3e 100644
--- a/jxl/src/render/internal.rs
+++ b/jxl/src/render/internal.rs
@@ -147,7 +147,8 @@ impl<Buffer> RenderPipelineShared<Buffer> {
         requested_data_type: DataTypeTag,
     ) -> (usize, usize) {
         let ChannelInfo { downsample, ty } = self.channel_info[0][channel];
-        if ty.unwrap() != requested_data_type {
+        // Channels that the pipeline does not use have no type.
+        if ty.is_some_and(|ty| ty != requested_data_type) {
             panic!(
                 "Invalid pipeline usage: incorrect channel type, requested {:?}, but pipeline wants {ty:?}",
                 requested_data_type
-- 
2.43.0


From 545082b55868c620993b606719c9828f54af40f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:53 +0000
Subject: [PATCH 20/57] fix: decode if no channel is to be output

---
 jxl/src/render/low_memory_pipeline/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/jxl/src/render/low_memory_pipeline/mod.rs b/jxl/src/render/low_memory_pipeline/mod.rs
index 780754a..342b60e 100644
--- a/jxl/src/render/low_memory_pipeline/mod.rs
+++ b/jxl/src/render/low_memory_pipeline/mod.rs
@@ -200,7 +200,12 @@ impl RenderPipeline for LowMemoryRenderPipeline {
         }
         border_pixels_per_stage.reverse();
 
-        assert!(border_pixels_per_stage[0].0 <= MAX_BORDER);
+        // There are no stages at all if nothing is to be output.
+        assert!(
+            border_pixels_per_stage
+                .first()
+                .is_none_or(|b| b.0 <= MAX_BORDER)
+        );
 
         let downsampling_for_stage: Vec<_> = shared
             .stages
-- 
2.43.0


From 4ada5f05f6a9f1d8659781a574903b7f648a4e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:52 +0000
Subject: [PATCH 21/57] fix: flush of an LF frame without colour output

---
 jxl/src/frame/lf_preview.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/jxl/src/frame/lf_preview.rs b/jxl/src/frame/lf_preview.rs
index 957f082..e22dcbf 100644
--- a/jxl/src/frame/lf_preview.rs
+++ b/jxl/src/frame/lf_preview.rs
@@ -312,9 +312,10 @@ impl Frame {
             return Ok(false);
         }
         let color_type = pixel_format.color_type;
-        let data_format = pixel_format.color_data_format.unwrap();
-        if pixel_format.color_data_format.is_none()
-            || output_buffers.is_empty()
+        let Some(data_format) = pixel_format.color_data_format else {
+            return Ok(false);
+        };
+        if output_buffers.is_empty()
             || !matches!(
                 color_type,
                 JxlColorType::Rgb | JxlColorType::Rgba | JxlColorType::Bgr | JxlColorType::Bgra,
-- 
2.43.0


From 8be663a547223dba6cd5fdd62939878ef4285a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:44 +0000
Subject: [PATCH 22/57] fix: size of the preview frame

---
 jxl/src/api/inner/codestream_parser/mod.rs | 10 ++++++++++
 jxl/src/api/inner/mod.rs                   |  8 ++++++--
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/jxl/src/api/inner/codestream_parser/mod.rs b/jxl/src/api/inner/codestream_parser/mod.rs
index 243f530..f876987 100644
--- a/jxl/src/api/inner/codestream_parser/mod.rs
+++ b/jxl/src/api/inner/codestream_parser/mod.rs
@@ -390,6 +390,16 @@ impl CodestreamParser {
         }
     }
 
+    pub fn is_preview(&self) -> bool {
+        matches!(
+            self.state,
+            ParserState::Sections {
+                is_preview: true,
+                ..
+            }
+        )
+    }
+
     pub fn has_frame(&self) -> bool {
         matches!(self.state, ParserState::Sections { .. })
     }
diff --git a/jxl/src/api/inner/mod.rs b/jxl/src/api/inner/mod.rs
index db61cd1..652686c 100644
--- a/jxl/src/api/inner/mod.rs
+++ b/jxl/src/api/inner/mod.rs
@@ -80,8 +80,12 @@ impl JxlDecoderInner {
         let frame_header = self.codestream_parser.frame_info.current_frame_header()?;
         // The render pipeline always adds ExtendToImageDimensionsStage which extends
         // frames to the full image size. So the output size is always the image size,
-        // not the frame's upsampled size.
-        let size = self.codestream_parser.image_info.basic_info().size;
+        // not the frame's upsampled size. The preview frame has its own image size.
+        let info = self.codestream_parser.image_info.basic_info();
+        let size = match info.preview_size {
+            Some(size) if self.codestream_parser.is_preview() => info.orientation.map_size(size),
+            _ => info.size,
+        };
         Some(JxlFrameHeader {
             name: frame_header.name.clone(),
             duration: self
-- 
2.43.0


From 1b4c8b14f9c554af82bb641377014cbfadacf3e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:26 +0000
Subject: [PATCH 23/57] fix: no modular channels are coded in passes after full
 resolution was reached

---
 jxl/src/headers/frame_header.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/jxl/src/headers/frame_header.rs b/jxl/src/headers/frame_header.rs
index 9a7a239..9035dff 100644
--- a/jxl/src/headers/frame_header.rs
+++ b/jxl/src/headers/frame_header.rs
@@ -87,7 +87,12 @@ impl Passes {
                 min_shift = 0;
             }
             if i != pass {
-                max_shift = min_shift.saturating_sub(1);
+                if min_shift == 0 {
+                    // Full resolution was reached in an earlier pass: nothing is left to be coded,
+                    // so return an empty range.
+                    return (1, 0);
+                }
+                max_shift = min_shift - 1;
             }
         }
         (min_shift as usize, max_shift as usize)
-- 
2.43.0


From d1b28d5184f961cadc2eb7f73746a330c7a0cbdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:00 +0000
Subject: [PATCH 24/57] fix: ask for more data when a context map or
 permutation is truncated

---
 jxl/src/entropy_coding/context_map.rs | 2 ++
 jxl/src/entropy_coding/decode.rs      | 2 +-
 jxl/src/headers/permutation.rs        | 1 +
 3 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/jxl/src/entropy_coding/context_map.rs b/jxl/src/entropy_coding/context_map.rs
index ec1b9ac..6df3579 100644
--- a/jxl/src/entropy_coding/context_map.rs
+++ b/jxl/src/entropy_coding/context_map.rs
@@ -60,6 +60,8 @@ pub fn decode_context_map(num_contexts: usize, br: &mut BitReader) -> Result<Vec
             .map(|_| {
                 let mv = reader.read_unsigned(&histograms, br, 0usize);
                 if mv > u8::MAX as u32 {
+                    // A value read past the end of the available data is meaningless.
+                    br.check_for_error()?;
                     Err(Error::InvalidContextMap(mv))
                 } else {
                     Ok(mv as u8)
diff --git a/jxl/src/entropy_coding/decode.rs b/jxl/src/entropy_coding/decode.rs
index 9318f4e..0958f8b 100644
--- a/jxl/src/entropy_coding/decode.rs
+++ b/jxl/src/entropy_coding/decode.rs
@@ -398,8 +398,8 @@ impl SymbolReader {
     }
 
     pub fn check_final_state(self, histograms: &Histograms, br: &mut BitReader) -> Result<()> {
-        self.errors.check_for_error()?;
         br.check_for_error()?;
+        self.errors.check_for_error()?;
         match &histograms.codes {
             Codes::Huffman(_) => Ok(()),
             Codes::Ans(_) => self.ans_reader.check_final_state(),
diff --git a/jxl/src/headers/permutation.rs b/jxl/src/headers/permutation.rs
index b268e3f..625846d 100644
--- a/jxl/src/headers/permutation.rs
+++ b/jxl/src/headers/permutation.rs
@@ -32,6 +32,7 @@ impl Permutation {
         entropy_reader: &mut SymbolReader,
     ) -> Result<Self> {
         let end = entropy_reader.read_unsigned(histograms, br, get_context(size));
+        br.check_for_error()?;
         Self::decode_inner(size, skip, end, |ctx| -> Result<u32> {
             let r = entropy_reader.read_unsigned(histograms, br, ctx);
             br.check_for_error()?;
-- 
2.43.0


From 828d814e97214d8707f08d047cca8fc4370547c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:07 +0000
Subject: [PATCH 25/57] fix: palettes and colour transforms of channels that
 are empty in one direction

---
 jxl/src/frame/modular/transforms/apply_local.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/jxl/src/frame/modular/transforms/apply_local.rs b/jxl/src/frame/modular/transforms/apply_local.rs
index 563d5f8..243498f 100644
--- a/jxl/src/frame/modular/transforms/apply_local.rs
+++ b/jxl/src/frame/modular/transforms/apply_local.rs
@@ -30,7 +30,14 @@ impl LocalTransformBuffer<'_> {
         match self {
             LocalTransformBuffer::Empty => unreachable!("an empty buffer has no channel info"),
             LocalTransformBuffer::Owned(m) => m.channel_info(),
-            LocalTransformBuffer::Placeholder(c) => *c,
+            LocalTransformBuffer::Placeholder(c) => {
+                // Images that are empty in one direction are allocated as (0, 0).
+                let mut c = *c;
+                if c.size.0 == 0 || c.size.1 == 0 {
+                    c.size = (0, 0);
+                }
+                c
+            }
             LocalTransformBuffer::Borrowed(m) => m.channel_info(),
         }
     }
-- 
2.43.0


From 7ee8441d4337d991fe92880faf4092842b8c822e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:19 +0000
Subject: [PATCH 26/57] fix: subnormal half-precision values

---
 jxl/src/util/float16.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/jxl/src/util/float16.rs b/jxl/src/util/float16.rs
index 711c37c..13bb42d 100644
--- a/jxl/src/util/float16.rs
+++ b/jxl/src/util/float16.rs
@@ -54,7 +54,8 @@ impl f16 {
                     e += 1;
                 }
                 m &= 0x3FF; // Remove the implicit leading 1
-                let new_exp = 127 - 15 - e; // Rebias: f16 bias=15, f32 bias=127
+                // f16 denormal exponent is -14 (not -15), adjust by shift count
+                let new_exp = 127 - 14 - e;
                 (sign << 31) | (new_exp << 23) | (m << 13)
             }
         } else if exp == 31 {
@@ -98,13 +99,22 @@ impl f16 {
         } else {
             let unbiased = exp - 127;
 
-            if unbiased < -24 {
+            if unbiased < -25 {
                 // Too small, underflow to zero
                 sign << 15
             } else if unbiased < -14 {
                 // Denormal f16
-                let shift = (-14 - unbiased) as u32;
-                let m = ((mant | 0x0080_0000) >> (shift + 14)) as u16;
+                let shift = (-14 - unbiased + 13) as u32;
+                let full = mant | 0x0080_0000;
+                let m = (full >> shift) as u16;
+                // Round to nearest, ties to even
+                let round_bit = (full >> (shift - 1)) & 1;
+                let sticky = full & ((1 << (shift - 1)) - 1);
+                let m = if round_bit == 1 && (sticky != 0 || (m & 1) == 1) {
+                    m + 1
+                } else {
+                    m
+                };
                 (sign << 15) | m
             } else if unbiased > 15 {
                 // Overflow to infinity
-- 
2.43.0


From 3195432f150cc36895e9f6b1ae714265d3141eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:19 +0000
Subject: [PATCH 27/57] fix: dim_shift of extra channels in frames without
 upsampling

---
 jxl/src/headers/frame_header.rs | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/jxl/src/headers/frame_header.rs b/jxl/src/headers/frame_header.rs
index 9035dff..c015736 100644
--- a/jxl/src/headers/frame_header.rs
+++ b/jxl/src/headers/frame_header.rs
@@ -670,11 +670,9 @@ impl FrameHeader {
     }
 
     pub fn postprocess(&mut self, nonserialized: &FrameHeaderNonserialized) {
-        if self.upsampling > 1 {
-            for i in 0..nonserialized.extra_channel_info.len() {
-                let dim_shift = nonserialized.extra_channel_info[i].dim_shift();
-                self.ec_upsampling[i] <<= dim_shift;
-            }
+        for i in 0..nonserialized.extra_channel_info.len() {
+            let dim_shift = nonserialized.extra_channel_info[i].dim_shift();
+            self.ec_upsampling[i] <<= dim_shift;
         }
         if self.encoding != Encoding::VarDCT || !nonserialized.xyb_encoded {
             self.x_qm_scale = 2;
@@ -682,16 +680,15 @@ impl FrameHeader {
     }
 
     fn check(&self, nonserialized: &FrameHeaderNonserialized) -> Result<(), Error> {
-        if self.upsampling > 1
-            && let Some((dim_shift, effective_upsampling)) = nonserialized
-                .extra_channel_info
-                .iter()
-                .zip(&self.ec_upsampling)
-                .find_map(|(info, ec_upsampling)| {
-                    let effective_upsampling = ec_upsampling << info.dim_shift();
-                    ((effective_upsampling < self.upsampling) || (effective_upsampling > 8))
-                        .then_some((info.dim_shift(), effective_upsampling))
-                })
+        if let Some((dim_shift, effective_upsampling)) = nonserialized
+            .extra_channel_info
+            .iter()
+            .zip(&self.ec_upsampling)
+            .find_map(|(info, ec_upsampling)| {
+                let effective_upsampling = ec_upsampling << info.dim_shift();
+                ((effective_upsampling < self.upsampling) || (effective_upsampling > 8))
+                    .then_some((info.dim_shift(), effective_upsampling))
+            })
         {
             return Err(Error::InvalidEcUpsampling(
                 self.upsampling,
-- 
2.43.0


From 8afaf641401ec3358ff3669a731a5ff3a2d4c511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:19 +0000
Subject: [PATCH 28/57] fix: unknown colour space and transfer function
 together with an ICC profile

---
 jxl/src/headers/color_encoding.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/jxl/src/headers/color_encoding.rs b/jxl/src/headers/color_encoding.rs
index 608e80f..fdd03e5 100644
--- a/jxl/src/headers/color_encoding.rs
+++ b/jxl/src/headers/color_encoding.rs
@@ -196,10 +196,10 @@ pub struct ColorEncoding {
 
 impl ColorEncoding {
     pub fn check(&self, _: &Empty) -> Result<(), Error> {
-        if self.color_space == ColorSpace::Unknown
-            || self.tf.transfer_function == TransferFunction::Unknown
-            || self.color_space == ColorSpace::XYB
-        {
+        let unknown = self.color_space == ColorSpace::Unknown
+            || self.tf.transfer_function == TransferFunction::Unknown;
+        // Unknown values are fine if an ICC profile tells the meaning of the channels.
+        if (unknown && !self.want_icc) || self.color_space == ColorSpace::XYB {
             Err(Error::InvalidColorEncoding)
         } else {
             Ok(())
-- 
2.43.0


From 216391843a5a4bd4d381e7a8b37e9a5487405d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:19 +0000
Subject: [PATCH 29/57] fix: bound the memory and time a frame's table of
 contents can ask for

---
 jxl/src/api/inner/codestream_parser/frame_info.rs | 5 ++++-
 jxl/src/error.rs                                  | 2 ++
 jxl/src/headers/toc.rs                            | 9 ++++++---
 3 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/jxl/src/api/inner/codestream_parser/frame_info.rs b/jxl/src/api/inner/codestream_parser/frame_info.rs
index c075e7b..094368d 100644
--- a/jxl/src/api/inner/codestream_parser/frame_info.rs
+++ b/jxl/src/api/inner/codestream_parser/frame_info.rs
@@ -21,7 +21,7 @@ use crate::frame::{DecoderState, Frame, HfMetaSplitter, LfImageSplitter, Section
 use crate::headers::FileHeader;
 use crate::headers::encodings::UnconditionalCoder;
 use crate::headers::frame_header::{Encoding, FrameHeader, FrameType};
-use crate::headers::toc::{IncrementalTocReader, Toc};
+use crate::headers::toc::{IncrementalTocReader, MAX_TOC_ENTRIES, Toc};
 use crate::util::NewWithCapacity;
 
 struct SectionBuffer {
@@ -156,6 +156,9 @@ impl FrameInfo {
     pub fn parse_toc(&mut self, br: &mut BitReader, bits: &mut usize) -> Result<Toc> {
         if self.toc_parser.is_none() {
             let num_toc_entries = self.frame_header.as_ref().unwrap().num_toc_entries();
+            if num_toc_entries > MAX_TOC_ENTRIES {
+                return Err(Error::TooManySections(num_toc_entries, MAX_TOC_ENTRIES));
+            }
             self.toc_parser = Some(IncrementalTocReader::new(num_toc_entries as u32, br)?);
         }
 
diff --git a/jxl/src/error.rs b/jxl/src/error.rs
index b61d0fa..f51a78d 100644
--- a/jxl/src/error.rs
+++ b/jxl/src/error.rs
@@ -122,6 +122,8 @@ pub enum Error {
     ImageOutOfMemory(usize, usize),
     #[error("Image size too large: {0}x{1}")]
     ImageSizeTooLarge(usize, usize),
+    #[error("Too many sections in frame: {0}, limit is {1}")]
+    TooManySections(usize, usize),
     #[error("Image dimension too large: {0}")]
     ImageDimensionTooLarge(u64),
     #[error("Invalid image size: {0}x{1}")]
diff --git a/jxl/src/headers/toc.rs b/jxl/src/headers/toc.rs
index 91cc8f9..a2a1753 100644
--- a/jxl/src/headers/toc.rs
+++ b/jxl/src/headers/toc.rs
@@ -31,6 +31,10 @@ pub struct Toc {
     pub entries: Vec<u32>,
 }
 
+/// Frames with more sections than this are rejected. A frame with 2^40 pixels has at most 2^25
+/// groups of the default size, and the TOC must not make the decoder run out of memory.
+pub const MAX_TOC_ENTRIES: usize = 1 << 25;
+
 #[derive(Debug)]
 pub struct IncrementalTocReader {
     num_entries: u32,
@@ -42,13 +46,11 @@ pub struct IncrementalTocReader {
 impl IncrementalTocReader {
     pub fn new(num_entries: u32, br: &mut BitReader) -> Result<Self> {
         let permuted = bool::read_unconditional(&(), br, &Empty {})?;
-        let mut entries = Vec::new();
-        entries.try_reserve(num_entries as usize)?;
         Ok(Self {
             num_entries,
             permuted,
             permutation: None,
-            entries,
+            entries: Vec::new(),
         })
     }
 
@@ -79,6 +81,7 @@ impl IncrementalTocReader {
             },
         );
         let entry = u32::read_unconditional(&entry_coder, br, &Empty {})?;
+        self.entries.try_reserve(1)?;
         self.entries.push(entry);
         br.check_for_error()
     }
-- 
2.43.0


From d66e5fc68deceabd7600cc34c458edc82f12f4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:19 +0000
Subject: [PATCH 30/57] fix: do not decode sections of hidden frames when only
 scanning frames

---
 jxl/src/api/inner/codestream_parser/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jxl/src/api/inner/codestream_parser/mod.rs b/jxl/src/api/inner/codestream_parser/mod.rs
index f876987..b57b5d5 100644
--- a/jxl/src/api/inner/codestream_parser/mod.rs
+++ b/jxl/src/api/inner/codestream_parser/mod.rs
@@ -293,8 +293,8 @@ impl CodestreamParser {
                         process_mode = ProcessMode::SkipOutput;
                     }
 
-                    if decode_options.scan_frames_only && process_mode == ProcessMode::Process {
-                        process_mode = ProcessMode::Skip(true);
+                    if decode_options.scan_frames_only {
+                        process_mode = ProcessMode::Skip(process_mode.notify_user());
                     }
 
                     self.state = ParserState::Sections {
-- 
2.43.0


From cc0905d936256c301f983bccd8c5fcb389a10edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:19 +0000
Subject: [PATCH 31/57] fix: PQ and HLG tone curves of synthesised ICC profiles

---
 jxl/src/api/color.rs | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/jxl/src/api/color.rs b/jxl/src/api/color.rs
index e1ab2be..63827d2 100644
--- a/jxl/src/api/color.rs
+++ b/jxl/src/api/color.rs
@@ -995,8 +995,8 @@ impl JxlColorEncoding {
                             create_icc_curv_para_tag(&mut tags_data, &PARAMS, 3)?
                         }
                         JxlTransferFunction::HLG | JxlTransferFunction::PQ => {
-                            let params = create_table_curve(64, transfer_function, false)?;
-                            create_icc_curv_para_tag(&mut tags_data, params.as_slice(), 3)?
+                            let table = create_table_curve(64, transfer_function, false)?;
+                            create_icc_curv_curv_tag(&mut tags_data, &table)
                         }
                     };
                     pad_to_4_byte_boundary(&mut tags_data);
@@ -1547,6 +1547,22 @@ fn create_icc_curv_para_tag(
     Ok((tags_data.len() - start_offset) as u32)
 }
 
+/// Creates the data for an ICC `curv` (curveType) tag with a sampled curve.
+/// It writes `12 + 2 * table.len()` bytes.
+fn create_icc_curv_curv_tag(tags_data: &mut Vec<u8>, table: &[u16]) -> u32 {
+    let start_offset = tags_data.len();
+    // Tag type 'curv' (4 bytes)
+    tags_data.extend_from_slice(b"curv");
+    // Reserved, must be 0 (4 bytes)
+    tags_data.extend_from_slice(&0u32.to_be_bytes());
+    // Number of entries (u32, 4 bytes)
+    tags_data.extend_from_slice(&(table.len() as u32).to_be_bytes());
+    for value in table {
+        tags_data.extend_from_slice(&value.to_be_bytes());
+    }
+    (tags_data.len() - start_offset) as u32
+}
+
 fn display_from_encoded_pq(display_intensity_target: f32, mut e: f64) -> f64 {
     const M1: f64 = 2610.0 / 16384.0;
     const M2: f64 = (2523.0 / 4096.0) * 128.0;
@@ -1690,7 +1706,7 @@ fn create_table_curve(
     n: usize,
     tf: &JxlTransferFunction,
     tone_map: bool,
-) -> Result<Vec<f32>, Error> {
+) -> Result<Vec<u16>, Error> {
     // ICC Specification (v4.4, section 10.6) for `curveType` with `curv`
     // processing elements states the table can have at most 4096 entries.
     if n > 4096 {
@@ -1716,9 +1732,8 @@ fn create_table_curve(
         let y = match tf {
             JxlTransferFunction::HLG => TF_HLG::display_from_encoded(x),
             JxlTransferFunction::PQ => {
-                // For PQ, the output of the EOTF is absolute luminance, so we
-                // normalize it back to [0, 1] relative to the peak luminance.
-                display_from_encoded_pq(PQ_INTENSITY_TARGET as f32, x) / PQ_INTENSITY_TARGET
+                // The result is relative to the peak luminance.
+                display_from_encoded_pq(PQ_INTENSITY_TARGET as f32, x)
             }
             _ => unreachable!(), // Already checked above.
         };
@@ -1738,8 +1753,8 @@ fn create_table_curve(
         // particularly important for HLG, which can exceed 1.0.
         let y_clamped = y.clamp(0.0, 1.0);
 
-        // table.push((y_clamped * 65535.0).round() as u16);
-        table.push(y_clamped as f32);
+        // 1.0 corresponds to table value 0xFFFF.
+        table.push((y_clamped * 65535.0).round() as u16);
     }
 
     Ok(table)
-- 
2.43.0


From 3018a562cc786f38ad84f4ab5c765f2c2e626429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:47 +0000
Subject: [PATCH 32/57] fix: partial rendering of squeezed channels coded in
 groups that have not arrived

---
 jxl/src/frame/modular/transforms/step.rs | 47 ++++++++++++------------
 1 file changed, 24 insertions(+), 23 deletions(-)

diff --git a/jxl/src/frame/modular/transforms/step.rs b/jxl/src/frame/modular/transforms/step.rs
index c1b76a4..2c671de 100644
--- a/jxl/src/frame/modular/transforms/step.rs
+++ b/jxl/src/frame/modular/transforms/step.rs
@@ -241,7 +241,8 @@ impl SqueezeInfo {
         };
 
         let mut tiles = [const { None }; 9];
-        tiles[4] = Some(TileGuard::Channel(borrow_channel(buffers, (b, g))));
+        let center = borrow_channel(buffers, (b, g));
+        tiles[4] = center.is_some().then_some(TileGuard::Channel(center));
 
         let borrow_border = |tile_x: isize, tile_y: isize, is_tb: bool| -> Option<TileGuard<'a>> {
             if tile_x >= 0 && tile_x < xs as isize && tile_y >= 0 && tile_y < ys as isize {
@@ -251,7 +252,7 @@ impl SqueezeInfo {
                 } else {
                     borrow_leftright(buffers, (b, grid_idx))
                 };
-                Some(TileGuard::Border(guard))
+                guard.is_some().then_some(TileGuard::Border(guard))
             } else {
                 None
             }
@@ -319,6 +320,7 @@ pub(super) struct TiledChannelView<'a> {
     size: (usize, usize),
     grid_dim: Option<(usize, usize)>,
     center_grid_pos: (usize, usize),
+    // Tiles outside of the image, or for which no data is available yet, are `None`.
     tiles: [Option<TileGuard<'a>>; 9],
 }
 
@@ -346,7 +348,10 @@ impl<'a> TiledChannelView<'a> {
         top_tile_h: usize,
         dest: &mut [i32],
     ) {
-        let img = self.tiles[dy * 3 + dx].as_deref().unwrap();
+        let Some(img) = self.tiles[dy * 3 + dx].as_deref() else {
+            dest.fill(0);
+            return;
+        };
         match (dy, dx) {
             (1, 1) => {
                 dest.copy_from_slice(&img.row(ly)[src_range]);
@@ -369,6 +374,11 @@ impl<'a> TiledChannelView<'a> {
         }
     }
 
+    // A sample of a tile; 0 if there is no data for the tile yet.
+    fn tile_sample(&self, tile: usize, row: usize, col: usize) -> i32 {
+        self.tiles[tile].as_deref().map_or(0, |t| t.row(row)[col])
+    }
+
     pub fn load_row_to_scratch(
         &self,
         yg: isize,
@@ -395,7 +405,10 @@ impl<'a> TiledChannelView<'a> {
         };
 
         let Some(grid_dim) = self.grid_dim else {
-            let row = self.tiles[4].as_deref().unwrap().row(clamped_y);
+            let Some(row) = self.tiles[4].as_deref().map(|t| t.row(clamped_y)) else {
+                row_buf.fill(0);
+                return;
+            };
 
             let left_clamp = (2 - xoff as isize).max(0) as usize;
             let right_clamp_start = (w as isize + 2 - xoff as isize).min(max_len as isize) as usize;
@@ -471,15 +484,9 @@ impl<'a> TiledChannelView<'a> {
 
         if left_clamp > 0 {
             let left_val = match dy {
-                1 => self.tiles[4].as_deref().unwrap().row(ly)[0],
-                0 => self.tiles[1]
-                    .as_deref()
-                    .unwrap()
-                    .row(Self::top_border_row(ly, top_tile_h))[0],
-                2 => self.tiles[7]
-                    .as_deref()
-                    .unwrap()
-                    .row(Self::bottom_border_row(ly))[0],
+                1 => self.tile_sample(4, ly, 0),
+                0 => self.tile_sample(1, Self::top_border_row(ly, top_tile_h), 0),
+                2 => self.tile_sample(7, Self::bottom_border_row(ly), 0),
                 _ => 0,
             };
             row_buf[..left_clamp].fill(left_val);
@@ -490,16 +497,10 @@ impl<'a> TiledChannelView<'a> {
             let lx_right = (w - 1) % grid_w;
             let dx = (gx_right as isize - gx_center as isize + 1) as usize;
             let right_val = match (dy, dx) {
-                (1, 1) => self.tiles[4].as_deref().unwrap().row(ly)[lx_right],
-                (1, 2) => self.tiles[5].as_deref().unwrap().row(ly)[3],
-                (0, 1 | 2) => self.tiles[dx]
-                    .as_deref()
-                    .unwrap()
-                    .row(Self::top_border_row(ly, top_tile_h))[lx_right],
-                (2, 1 | 2) => self.tiles[6 + dx]
-                    .as_deref()
-                    .unwrap()
-                    .row(Self::bottom_border_row(ly))[lx_right],
+                (1, 1) => self.tile_sample(4, ly, lx_right),
+                (1, 2) => self.tile_sample(5, ly, 3),
+                (0, 1 | 2) => self.tile_sample(dx, Self::top_border_row(ly, top_tile_h), lx_right),
+                (2, 1 | 2) => self.tile_sample(6 + dx, Self::bottom_border_row(ly), lx_right),
                 _ => 0,
             };
             row_buf[max_len - right_clamp..max_len].fill(right_val);
-- 
2.43.0


From 588021cf0b88237c914577fcc19e1c4c95036a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:47 +0000
Subject: [PATCH 33/57] fix: reject squeezed channels too narrow to be coded in
 groups

---
 jxl/src/error.rs             |  2 ++
 jxl/src/frame/modular/mod.rs | 15 +++++++++++++++
 2 files changed, 17 insertions(+)

diff --git a/jxl/src/error.rs b/jxl/src/error.rs
index f51a78d..5707c2b 100644
--- a/jxl/src/error.rs
+++ b/jxl/src/error.rs
@@ -219,6 +219,8 @@ pub enum Error {
     MetaSqueezeRequiresInPlace,
     #[error("Invalid transform: too many squeezes (shift > 30)")]
     TooManySqueezes,
+    #[error("Modular channel of shift {0:?} has no samples in groups of size {1}")]
+    ChannelShiftTooLarge((usize, usize), usize),
     #[error("Invalid BlockConextMap: too big: num_lf_context: {0}, num_qf_thresholds: {1}")]
     BlockContextMapSizeTooBig(usize, usize),
     #[error("Invalid BlockConextMap: too many distinct contexts.")]
diff --git a/jxl/src/frame/modular/mod.rs b/jxl/src/frame/modular/mod.rs
index 2915378..2fca7b1 100644
--- a/jxl/src/frame/modular/mod.rs
+++ b/jxl/src/frame/modular/mod.rs
@@ -401,6 +401,21 @@ impl FullModularImage {
             );
         }
 
+        // Squeezes may produce channels of which no group of the frame would code any samples.
+        for (section, list) in section_buffer_indices.iter().enumerate().skip(1) {
+            let dim = match section {
+                1 => frame_header.lf_group_dim(),
+                _ => frame_header.group_dim(),
+            };
+            for b in list.iter() {
+                let ChannelInfo { size, shift, .. } = buffer_info[*b].info;
+                let shift = shift.unwrap_or((0, 0));
+                if size.0 != 0 && size.1 != 0 && (dim >> shift.0 == 0 || dim >> shift.1 == 0) {
+                    return Err(Error::ChannelShiftTooLarge(shift, dim));
+                }
+            }
+        }
+
         // Ensure that the channel list in each group is sorted by actual channel ID.
         for list in section_buffer_indices.iter_mut() {
             list.sort_by_key(|x| buffer_info[*x].coded_channel_id);
-- 
2.43.0


From 1772fcbea34ddc53161c6efadf447c97f0220b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:46 +0000
Subject: [PATCH 34/57] fix: splines left of the image drawn at its left edge

---
 jxl/src/features/spline.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/jxl/src/features/spline.rs b/jxl/src/features/spline.rs
index 6729bca..ef15ec0 100644
--- a/jxl/src/features/spline.rs
+++ b/jxl/src/features/spline.rs
@@ -612,8 +612,14 @@ simd_function!(
         let (x0, y) = row_pos;
         let x1 = x0 + xsize;
         let clamped_x0 = x0.max((segment.center_x - segment.maximum_distance).round() as usize);
-        let clamped_x1 = x1.min((segment.center_x + segment.maximum_distance).round() as usize + 1);
+        // Note that this can be negative.
+        let segment_x1 =
+            ((segment.center_x + segment.maximum_distance).round() as i64).saturating_add(1);
 
+        if segment_x1 <= clamped_x0 as i64 {
+            return;
+        }
+        let clamped_x1 = x1.min(segment_x1 as usize);
         if clamped_x1 <= clamped_x0 {
             return;
         }
-- 
2.43.0


From 2d29d69e4aac2247f70d9fec6034428ae09a240b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:46 +0000
Subject: [PATCH 35/57] fix: small values in the PQ transfer function with
 intensity targets other than 10000

---
 jxl/src/color/tf.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jxl/src/color/tf.rs b/jxl/src/color/tf.rs
index 94b9638..106d822 100644
--- a/jxl/src/color/tf.rs
+++ b/jxl/src/color/tf.rs
@@ -273,7 +273,7 @@ pub fn linear_to_pq(intensity_target: f32, samples: &mut [f32]) {
         let a_scaled = a * y_mult;
         let a_1_4 = a_scaled.sqrt().sqrt();
 
-        let y = if a < 1e-4 {
+        let y = if a_scaled < 1e-4 {
             eval_rational_poly(a_1_4, PQ_INV_EOTF_P_SMALL, PQ_INV_EOTF_Q_SMALL)
         } else {
             eval_rational_poly(a_1_4, PQ_INV_EOTF_P, PQ_INV_EOTF_Q)
@@ -303,10 +303,10 @@ pub fn linear_to_pq_simd<D: SimdDescriptor>(
         let a_scaled = a * y_mult;
         let a_1_4 = a_scaled.sqrt().sqrt();
 
-        // Use small polynomial for a < 1e-4, regular polynomial otherwise
+        // Use small polynomial for a_scaled < 1e-4, regular polynomial otherwise
         let y_small = eval_rational_poly_simd(d, a_1_4, PQ_INV_EOTF_P_SMALL, PQ_INV_EOTF_Q_SMALL);
         let y_large = eval_rational_poly_simd(d, a_1_4, PQ_INV_EOTF_P, PQ_INV_EOTF_Q);
-        let y = threshold.gt(a).if_then_else_f32(y_small, y_large);
+        let y = threshold.gt(a_scaled).if_then_else_f32(y_small, y_large);
 
         y.copysign(s).store(vec);
     }
-- 
2.43.0


From 69adb1d6a63aadd642d9080c7a8aa084a9e8e0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:46 +0000
Subject: [PATCH 36/57] fix: size of references saved without blending after
 the colour transforms

---
 jxl/src/frame/decode.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jxl/src/frame/decode.rs b/jxl/src/frame/decode.rs
index 6ba1d1c..9ef2952 100644
--- a/jxl/src/frame/decode.rs
+++ b/jxl/src/frame/decode.rs
@@ -206,7 +206,8 @@ impl Frame {
         let reference_frame_data = if frame_header.can_be_referenced {
             let image_size = &decoder_state.file_header.size;
             let image_size = (image_size.xsize() as usize, image_size.ysize() as usize);
-            let sz = if frame_header.save_before_ct {
+            // Frames that are not blended are saved as they are.
+            let sz = if frame_header.save_before_ct || !frame_header.needs_blending() {
                 frame_header.size_upsampled()
             } else {
                 image_size
-- 
2.43.0


From 98d8157325846990bd20e6aa2da1a8242fef3e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:46 +0000
Subject: [PATCH 37/57] fix: numbering of channels after empty channels in the
 global modular image

---
 jxl/src/frame/modular/buffers.rs | 25 ++++++++++++++++++++++++-
 jxl/src/frame/modular/mod.rs     |  4 ++--
 2 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/jxl/src/frame/modular/buffers.rs b/jxl/src/frame/modular/buffers.rs
index b703a13..c34251f 100644
--- a/jxl/src/frame/modular/buffers.rs
+++ b/jxl/src/frame/modular/buffers.rs
@@ -250,6 +250,29 @@ pub fn with_buffers<T>(
     indices: &[usize],
     grid: usize,
     f: impl FnOnce(Vec<&mut ModularChannel>) -> Result<T>,
+) -> Result<T> {
+    with_buffers_impl(buffers, indices, grid, true, f)
+}
+
+/// Same as `with_buffers`, but also passes empty buffers to `f`.
+///
+/// Empty channels of the global modular image still participate in channel numbering, unlike
+/// empty tiles of a group.
+pub fn with_buffers_and_empty<T>(
+    buffers: &[ModularBufferInfo],
+    indices: &[usize],
+    grid: usize,
+    f: impl FnOnce(Vec<&mut ModularChannel>) -> Result<T>,
+) -> Result<T> {
+    with_buffers_impl(buffers, indices, grid, false, f)
+}
+
+fn with_buffers_impl<T>(
+    buffers: &[ModularBufferInfo],
+    indices: &[usize],
+    grid: usize,
+    skip_empty: bool,
+    f: impl FnOnce(Vec<&mut ModularChannel>) -> Result<T>,
 ) -> Result<T> {
     let mut guards = vec![];
     for i in indices {
@@ -265,7 +288,7 @@ pub fn with_buffers<T>(
         // numbering (but carry no entropy-coded pixels), so we only skip when both dimensions are 0.
         // TODO(veluca): figure out if this is the best approach or we should instead pass through
         // empty buffers.
-        if b.size.0 == 0 && b.size.1 == 0 {
+        if skip_empty && b.size.0 == 0 && b.size.1 == 0 {
             continue;
         }
 
diff --git a/jxl/src/frame/modular/mod.rs b/jxl/src/frame/modular/mod.rs
index 2fca7b1..866bcf7 100644
--- a/jxl/src/frame/modular/mod.rs
+++ b/jxl/src/frame/modular/mod.rs
@@ -34,7 +34,7 @@ mod predict;
 mod transforms;
 mod tree;
 
-use buffers::with_buffers;
+use buffers::{with_buffers, with_buffers_and_empty};
 pub use decode::ModularStreamId;
 use decode::decode_modular_subbitstream;
 pub use predict::Predictor;
@@ -515,7 +515,7 @@ impl FullModularImage {
     ) -> Result<bool> {
         let allow_partial = allow_partial && self.can_do_early_partial_render;
         let mut decoded_if_partial = 0;
-        let ret = with_buffers(
+        let ret = with_buffers_and_empty(
             &self.buffer_info,
             &self.section_buffer_indices[0],
             0,
-- 
2.43.0


From 2050a7980652336f51792962f924cb5082dbe2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:46 +0000
Subject: [PATCH 38/57] fix: overflow computing areas that are not ready

---
 jxl/src/render/low_memory_pipeline/group_scheduler.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jxl/src/render/low_memory_pipeline/group_scheduler.rs b/jxl/src/render/low_memory_pipeline/group_scheduler.rs
index 322719f..fa4827e 100644
--- a/jxl/src/render/low_memory_pipeline/group_scheduler.rs
+++ b/jxl/src/render/low_memory_pipeline/group_scheduler.rs
@@ -113,7 +113,7 @@ fn ready_image_area(
     }
     .min(input_size.0);
 
-    (x1 >= x0 && y1 >= y0).then_some(Rect {
+    (x1 >= x0 && y1 >= y0).then(|| Rect {
         origin: (x0, y0),
         size: (x1 - x0, y1 - y0),
     })
-- 
2.43.0


From 41b0ea066f1dc7b34264c4b32ac04096a061240b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:46 +0000
Subject: [PATCH 39/57] fix: row buffers too short for groups rendered with the
 borders of both neighbours

---
 jxl/src/render/low_memory_pipeline/mod.rs | 44 ++++++++++++-----------
 1 file changed, 23 insertions(+), 21 deletions(-)

diff --git a/jxl/src/render/low_memory_pipeline/mod.rs b/jxl/src/render/low_memory_pipeline/mod.rs
index 342b60e..21f2c5f 100644
--- a/jxl/src/render/low_memory_pipeline/mod.rs
+++ b/jxl/src/render/low_memory_pipeline/mod.rs
@@ -49,6 +49,8 @@ impl LowMemoryRenderPipelinePerThread {
             return Ok(());
         }
         let nc = p.shared.num_channels();
+        // A group can be rendered together with the borders of both of its neighbours.
+        let row_len = p.shared.chunk_size + 2 * p.border_size.0;
         let mut initial_buffers = vec![];
         for chan in 0..nc {
             initial_buffers.push(RowBuffer::new(
@@ -56,7 +58,7 @@ impl LowMemoryRenderPipelinePerThread {
                 p.next_border_and_cur_downsample[0][chan].0 as usize,
                 0,
                 0,
-                p.shared.chunk_size >> p.shared.channel_info[0][chan].downsample.0,
+                row_len.shrc(p.shared.channel_info[0][chan].downsample.0),
             )?);
         }
         self.row_buffers = vec![initial_buffers];
@@ -70,7 +72,7 @@ impl LowMemoryRenderPipelinePerThread {
                     *next_y_border as usize,
                     stage.shift().1 as usize,
                     stage.shift().0 as usize,
-                    p.shared.chunk_size >> *dsx,
+                    row_len.shrc(*dsx),
                 )?);
             }
             self.row_buffers.push(stage_buffers);
@@ -228,13 +230,31 @@ impl RenderPipeline for LowMemoryRenderPipeline {
             })
             .collect();
 
+        let mut border_size = (0, 0);
+        for c in 0..nc {
+            border_size.0 = border_size
+                .0
+                .max(border_pixels[c].0 << shared.channel_info[0][c].downsample.0);
+            border_size.1 = border_size
+                .1
+                .max(border_pixels[c].1 << shared.channel_info[0][c].downsample.1);
+        }
+        for s in 0..shared.stages.len() {
+            border_size.0 = border_size
+                .0
+                .max(border_pixels_per_stage[s].0 << downsampling_for_stage[s].0);
+            border_size.1 = border_size
+                .1
+                .max(border_pixels_per_stage[s].1 << downsampling_for_stage[s].1);
+        }
+
         // Create opaque alpha buffers for save stages that need fill_opaque_alpha
         let mut opaque_alpha_buffers = vec![];
         for (i, stage) in shared.stages.iter().enumerate() {
             if let Stage::Save(s) = stage {
                 if s.fill_opaque_alpha {
                     let (dx, _dy) = downsampling_for_stage[i];
-                    let row_len = shared.chunk_size >> dx;
+                    let row_len = (shared.chunk_size + 2 * border_size.0).shrc(dx);
                     let fill_pattern = s.data_format.opaque_alpha_bytes();
                     let buf =
                         RowBuffer::new_filled(s.data_format.data_type(), row_len, &fill_pattern)?;
@@ -276,24 +296,6 @@ impl RenderPipeline for LowMemoryRenderPipeline {
             })
             .collect();
 
-        let mut border_size = (0, 0);
-        for c in 0..nc {
-            border_size.0 = border_size
-                .0
-                .max(border_pixels[c].0 << shared.channel_info[0][c].downsample.0);
-            border_size.1 = border_size
-                .1
-                .max(border_pixels[c].1 << shared.channel_info[0][c].downsample.1);
-        }
-        for s in 0..shared.stages.len() {
-            border_size.0 = border_size
-                .0
-                .max(border_pixels_per_stage[s].0 << downsampling_for_stage[s].0);
-            border_size.1 = border_size
-                .1
-                .max(border_pixels_per_stage[s].1 << downsampling_for_stage[s].1);
-        }
-
         Ok(Self {
             input_buffers: InputBuffers::new(nc, shared.group_count)?,
             stage_input_buffer_index,
-- 
2.43.0


From 2dadbc7b99eb3de647db93e01d2f2517cfe0611f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:46 +0000
Subject: [PATCH 40/57] fix: borders of areas to render not aligned to
 subsampled channels

---
 jxl/src/render/low_memory_pipeline/mod.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/jxl/src/render/low_memory_pipeline/mod.rs b/jxl/src/render/low_memory_pipeline/mod.rs
index 21f2c5f..6e75e3c 100644
--- a/jxl/src/render/low_memory_pipeline/mod.rs
+++ b/jxl/src/render/low_memory_pipeline/mod.rs
@@ -247,6 +247,16 @@ impl RenderPipeline for LowMemoryRenderPipeline {
                 .1
                 .max(border_pixels_per_stage[s].1 << downsampling_for_stage[s].1);
         }
+        // The areas to be rendered start or end `border_size` pixels away from the edge of a
+        // group, which must be the position of a pixel in all the (subsampled) channels.
+        for ds in shared.channel_info[0]
+            .iter()
+            .map(|ci| (ci.downsample.0 as usize, ci.downsample.1 as usize))
+            .chain(downsampling_for_stage.iter().copied())
+        {
+            border_size.0 = border_size.0.next_multiple_of(1 << ds.0);
+            border_size.1 = border_size.1.next_multiple_of(1 << ds.1);
+        }
 
         // Create opaque alpha buffers for save stages that need fill_opaque_alpha
         let mut opaque_alpha_buffers = vec![];
-- 
2.43.0


From 8b7423ff3103f69c94fe060de4b350ec3a5b2cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:19 +0000
Subject: [PATCH 41/57] fix: rows needed by stages after vertical chroma
 upsampling

---
 jxl/src/render/low_memory_pipeline/render_group.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/jxl/src/render/low_memory_pipeline/render_group.rs b/jxl/src/render/low_memory_pipeline/render_group.rs
index 4f28744..83fedbd 100644
--- a/jxl/src/render/low_memory_pipeline/render_group.rs
+++ b/jxl/src/render/low_memory_pipeline/render_group.rs
@@ -368,7 +368,13 @@ impl LowMemoryRenderPipeline {
                 let (dx, dy) = self.downsampling_for_stage[i];
                 // The logic below uses *virtual* y coordinates, so we need to convert the border
                 // amount appropriately.
-                let scaled_y_border = self.stage_output_border_pixels[i].1 << dy;
+                // The border is counted in rows of the *output* of the stage: for a stage that
+                // upsamples vertically, those are less tall than the rows it reads.
+                let out_dy = match stage {
+                    Stage::InOut(_) => dy - stage.shift().1 as usize,
+                    _ => dy,
+                };
+                let scaled_y_border = self.stage_output_border_pixels[i].1 << out_dy;
                 // I knew the reason behind this formula at some point, but now I don't.
                 let stage_vy = vy as isize - num_extra_rows as isize + scaled_y_border as isize;
                 if stage_vy % (1 << dy) != 0 {
-- 
2.43.0


From 81d4591528aa39422a3b2eeb213e87e561fbd02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:19 +0000
Subject: [PATCH 42/57] fix: padding at the right edge of images whose last
 group is narrow

---
 jxl/src/render/low_memory_pipeline/render_group.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/jxl/src/render/low_memory_pipeline/render_group.rs b/jxl/src/render/low_memory_pipeline/render_group.rs
index 83fedbd..5869916 100644
--- a/jxl/src/render/low_memory_pipeline/render_group.rs
+++ b/jxl/src/render/low_memory_pipeline/render_group.rs
@@ -466,17 +466,25 @@ impl LowMemoryRenderPipeline {
                                 }
                             }
                         }
-                        if end_of_row && borderx != 0 {
+                        // The right edge of the image may also be close to areas that do not
+                        // extend to it, if the last group in the row is narrow.
+                        let padding_start = self.shared.input_size.0.shrc(dx) - (x0 >> dx);
+                        let padding_end = if end_of_row {
+                            shifted_xsize + borderx
+                        } else {
+                            shifted_xsize + out_extra_x.shrc(stage.shift().0) + borderx
+                        };
+                        if borderx != 0 && padding_start < padding_end {
                             for (si, ci) in self.stage_input_buffer_index[i].iter() {
                                 for iy in -bordery..=bordery {
                                     let y = mirror(y as isize + iy, shifted_ysize);
                                     apply_x_padding(
                                         s.input_type(),
                                         data.row_buffers[*si][*ci].get_row_mut::<u8>(y),
-                                        shifted_xsize as isize..(shifted_xsize + borderx) as isize,
+                                        padding_start as isize..padding_end as isize,
                                         // borderx..0 is either data from the neighbouring group or
                                         // data that was filled in by the iteration above.
-                                        -(borderx as isize)..shifted_xsize as isize,
+                                        -(borderx as isize)..padding_start as isize,
                                     );
                                 }
                             }
-- 
2.43.0


From 2fd388a2d8245b661f99399b467037f3ad6fad61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:16 +0000
Subject: [PATCH 43/57] fix: fill opaque alpha in the byte order of the output
 format

The constant row that stands in for a missing alpha channel held the
native-endian pattern of the requested format, but the save stage swaps
the bytes of every channel for big-endian formats, so opaque alpha came
out byte-swapped.
---
 jxl/src/api/data_types.rs                 | 11 +++++++++++
 jxl/src/render/low_memory_pipeline/mod.rs |  3 ++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/jxl/src/api/data_types.rs b/jxl/src/api/data_types.rs
index 01c88f7..2a11a27 100644
--- a/jxl/src/api/data_types.rs
+++ b/jxl/src/api/data_types.rs
@@ -110,6 +110,17 @@ impl JxlDataFormat {
         }
     }
 
+    /// The same format, with samples in the endianness of the current platform.
+    pub(crate) fn to_native_endian(mut self) -> Self {
+        match &mut self {
+            JxlDataFormat::U8 { .. } => {}
+            JxlDataFormat::U16 { endianness, .. }
+            | JxlDataFormat::F16 { endianness }
+            | JxlDataFormat::F32 { endianness } => *endianness = Endianness::native(),
+        }
+        self
+    }
+
     /// Returns the byte representation of opaque alpha (1.0) for this format.
     pub(crate) fn opaque_alpha_bytes(&self) -> Vec<u8> {
         match self {
diff --git a/jxl/src/render/low_memory_pipeline/mod.rs b/jxl/src/render/low_memory_pipeline/mod.rs
index 6e75e3c..20e545b 100644
--- a/jxl/src/render/low_memory_pipeline/mod.rs
+++ b/jxl/src/render/low_memory_pipeline/mod.rs
@@ -265,7 +265,8 @@ impl RenderPipeline for LowMemoryRenderPipeline {
                 if s.fill_opaque_alpha {
                     let (dx, _dy) = downsampling_for_stage[i];
                     let row_len = (shared.chunk_size + 2 * border_size.0).shrc(dx);
-                    let fill_pattern = s.data_format.opaque_alpha_bytes();
+                    // Row buffers hold native-endian samples.
+                    let fill_pattern = s.data_format.to_native_endian().opaque_alpha_bytes();
                     let buf =
                         RowBuffer::new_filled(s.data_format.data_type(), row_len, &fill_pattern)?;
                     opaque_alpha_buffers.push(Some(buf));
-- 
2.43.0


From 9e61ee8670fd1a65541ca317185d67019dc3fea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:16 +0000
Subject: [PATCH 44/57] fix: premultiply all colours of gray images output as
 RGB(A)

The premultiply stage was set up with the number of colour channels of
the image header, so that for gray images output with three colours only
the first one was multiplied by alpha.
---
 jxl/src/frame/render.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/jxl/src/frame/render.rs b/jxl/src/frame/render.rs
index 3c05cd2..5b91e39 100644
--- a/jxl/src/frame/render.rs
+++ b/jxl/src/frame/render.rs
@@ -858,9 +858,15 @@ impl Frame {
             if let Some(df) = &pixel_format.color_data_format {
                 // Add premultiply stage if needed (before conversion to output format)
                 if should_premultiply && let Some(alpha_channel) = alpha_in_color {
+                    // Grayscale images can also be output as RGB.
+                    let num_output_channels = if pixel_format.color_type.is_grayscale() {
+                        1
+                    } else {
+                        3
+                    };
                     pipeline = pipeline.add_inplace_stage(PremultiplyAlphaStage::new(
                         0,
-                        num_color_channels,
+                        num_output_channels,
                         alpha_channel,
                     ));
                 }
-- 
2.43.0


From de1155266151368c683c78174dc0848784e92450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:16 +0000
Subject: [PATCH 45/57] fix: do not mirror rows of the area outside a frame at
 the frame's height

Rows of the area outside of a frame are rows of the full image and may
be below the last row of the frame. Stages that run on them mirrored the
row at the frame's height and read another row of the row buffer if it
has more than one, e.g. after upsampling.
---
 .../render/low_memory_pipeline/render_group.rs  | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/jxl/src/render/low_memory_pipeline/render_group.rs b/jxl/src/render/low_memory_pipeline/render_group.rs
index 5869916..b472db8 100644
--- a/jxl/src/render/low_memory_pipeline/render_group.rs
+++ b/jxl/src/render/low_memory_pipeline/render_group.rs
@@ -530,18 +530,21 @@ impl LowMemoryRenderPipeline {
         let y0 = yrange.start;
         let xsize = xrange.clone().count();
         let ysize = yrange.clone().count();
+        let extend = self.shared.extend_stage_index.unwrap();
+        let Stage::Extend(e) = &self.shared.stages[extend] else {
+            unreachable!("extend stage is not an extend stage");
+        };
+        // From the extend stage on, rows are rows of the full image, which may lie below the
+        // last row of the frame.
+        let image_height = e.image_size.1;
         // Significantly simplified version of render_group.
         for y in yrange.clone() {
-            let extend = self.shared.extend_stage_index.unwrap();
             // Step 1: get padding from extend stage.
             for c in 0..num_channels {
                 let (si, ci) = self.stage_input_buffer_index[extend][c];
                 let buffer = &mut data.row_buffers[si][ci];
-                let Stage::Extend(extend) = &self.shared.stages[extend] else {
-                    unreachable!("extend stage is not an extend stage");
-                };
                 let row = &mut buffer.get_row_mut(y)[RowBuffer::x0_offset::<f32>()..];
-                extend.process_row_chunk((x0, y), xsize, c, row);
+                e.process_row_chunk((x0, y), xsize, c, row);
             }
             // Step 2: go through remaining stages one by one.
             for (i, stage) in self.shared.stages.iter().enumerate().skip(extend + 1) {
@@ -561,7 +564,7 @@ impl LowMemoryRenderPipeline {
                                 out_extra_x: 0,
                                 start_of_row: false,
                                 end_of_row: false,
-                                image_height: self.shared.input_size.1,
+                                image_height,
                             },
                             &mut buffers,
                             data.local_states[i].as_deref_mut(),
@@ -607,7 +610,7 @@ impl LowMemoryRenderPipeline {
                                 out_extra_x: 0,
                                 start_of_row: false,
                                 end_of_row: false,
-                                image_height: self.shared.input_size.1,
+                                image_height,
                             },
                             &input_data,
                             &mut outb[0][..],
-- 
2.43.0


From ec50867f143c067d4c0ef2854749c886c312486d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:16 +0000
Subject: [PATCH 46/57] fix: clamp integer samples before scaling them to 8
 bits

The product of samples far out of range with the scale overflowed and was
clamped to the wrong end of the range.
---
 jxl/src/render/stages/convert.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/jxl/src/render/stages/convert.rs b/jxl/src/render/stages/convert.rs
index dd754aa..a2b77fa 100644
--- a/jxl/src/render/stages/convert.rs
+++ b/jxl/src/render/stages/convert.rs
@@ -671,8 +671,9 @@ simd_function!(
     d: D,
     fn i32_to_u8_simd(input: &[i32], output: &mut [u8], scale: i32, max: i32, xsize: usize) {
         let simd_width = D::F32Vec::LEN;
+        // Clamp before scaling, so that the product cannot overflow.
+        let max = D::I32Vec::splat(d, max / scale);
         let scale = D::I32Vec::splat(d, scale);
-        let max = D::I32Vec::splat(d, max);
         let zero = D::I32Vec::splat(d, 0);
 
         // Process SIMD vectors using div_ceil (buffers are padded)
@@ -682,10 +683,9 @@ simd_function!(
             .take(xsize.div_ceil(simd_width))
         {
             let val = D::I32Vec::load(d, input_chunk);
-            let scaled = val * scale;
-            let zeroclip = scaled.lt_zero().if_then_else_i32(zero, scaled);
-            let clip = scaled.gt(max).if_then_else_i32(max, zeroclip);
-            clip.store_u8(output_chunk);
+            let zeroclip = val.lt_zero().if_then_else_i32(zero, val);
+            let clip = val.gt(max).if_then_else_i32(max, zeroclip);
+            (clip * scale).store_u8(output_chunk);
         }
     }
 );
-- 
2.43.0


From 8fc8299ea03fdae548df5f8d24c5cbabbc1a33b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:47 +0000
Subject: [PATCH 47/57] fix: reject frames blended with references smaller than
 the image

Frames that are saved without blending keep their own size. Blending
another frame with such a reference indexed out of bounds.
---
 jxl/src/error.rs                  |  2 ++
 jxl/src/render/stages/blending.rs | 12 +++++++++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/jxl/src/error.rs b/jxl/src/error.rs
index 5707c2b..bb6b075 100644
--- a/jxl/src/error.rs
+++ b/jxl/src/error.rs
@@ -149,6 +149,8 @@ pub enum Error {
     InvalidProperty(u32),
     #[error("Invalid alpha channel for blending: {0}, limit is {1}")]
     InvalidBlendingAlphaChannel(usize, usize),
+    #[error("Reference frame of size {0:?} is too small to blend with an image of size {1:?}")]
+    InvalidBlendingReference((usize, usize), (usize, usize)),
     #[error("Invalid alpha channel for blending: {0}, limit is {1}")]
     PatchesInvalidAlphaChannel(usize, usize),
     #[error("Invalid patch blend mode: {0}, limit is {1}")]
diff --git a/jxl/src/render/stages/blending.rs b/jxl/src/render/stages/blending.rs
index fbb54ec..3efb6b2 100644
--- a/jxl/src/render/stages/blending.rs
+++ b/jxl/src/render/stages/blending.rs
@@ -3,7 +3,7 @@
 // Use of this source code is governed by a BSD-style
 // license that can be found in the LICENSE file.
 
-use crate::error::Result;
+use crate::error::{Error, Result};
 use crate::features::blending::perform_blending;
 use crate::features::patches::{PatchBlendMode, PatchBlending};
 use crate::frame::ReferenceFrame;
@@ -63,6 +63,16 @@ impl BlendingStage {
     ) -> Result<BlendingStage> {
         let xsize = file_header.size.xsize();
         let ec_blending_info = frame_header.ec_blending_info.clone();
+        // Frames that were saved as they are, without blending, may be smaller than the image.
+        let image_size = (xsize as usize, file_header.size.ysize() as usize);
+        for info in std::iter::once(&frame_header.blending_info).chain(&ec_blending_info) {
+            if let Some(rf) = &reference_frames[info.source as usize] {
+                let size = rf.frame[0].size();
+                if size.0 < image_size.0 || size.1 < image_size.1 {
+                    return Err(Error::InvalidBlendingReference(size, image_size));
+                }
+            }
+        }
         let ec_patch_blending_info = ec_blending_info.iter().map(PatchBlending::from).collect();
         Ok(BlendingStage {
             frame_origin: (frame_header.x0 as isize, frame_header.y0 as isize),
-- 
2.43.0


From 2756d9e60379a7c772690caa16d2b8555e0e24e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:47 +0000
Subject: [PATCH 48/57] fix: squeezed channels with no samples in the next
 group

Residuals that are squeezed once more may end with a group although the
frame has another one. The average channel of such a squeeze has no
sample right of or below that group.
---
 jxl/src/frame/modular/transforms/step.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/jxl/src/frame/modular/transforms/step.rs b/jxl/src/frame/modular/transforms/step.rs
index 2c671de..df8e55c 100644
--- a/jxl/src/frame/modular/transforms/step.rs
+++ b/jxl/src/frame/modular/transforms/step.rs
@@ -169,6 +169,11 @@ impl SqueezeInfo {
             (gx > 0).then(|| (gx - 1, gy))
         };
         let mut avg_rect = buf_avg.get_grid_rect(frame_header, output_grid_kind, output_grid_pos);
+        // The grid may have positions in which small channels have no samples.
+        let pos_next = pos_next.filter(|pos| {
+            let rect = buf_avg.get_grid_rect(frame_header, output_grid_kind, *pos);
+            rect.size != (0, 0)
+        });
         let next_avg_grid = if let Some(pos) = pos_next {
             let grid = buf_avg.get_grid_idx(output_grid_kind, pos);
             if grid == in_grid {
-- 
2.43.0


From d5a347e4dda8cbc8b581f3ea4bc308cb4c68454a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:47 +0000
Subject: [PATCH 49/57] fix: partial rendering of squeezes whose residuals
 arrive before the averages

If residuals are squeezed once more, they may be coded in earlier passes
than the averages. Show nothing for those groups until both are there.
---
 jxl/src/frame/modular/transforms/step.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jxl/src/frame/modular/transforms/step.rs b/jxl/src/frame/modular/transforms/step.rs
index df8e55c..e38af71 100644
--- a/jxl/src/frame/modular/transforms/step.rs
+++ b/jxl/src/frame/modular/transforms/step.rs
@@ -135,7 +135,10 @@ impl SqueezeInfo {
         let output_grid_kind = buffers[buf_out].grid_kind;
         let in_grid = buf_avg.get_grid_idx(output_grid_kind, output_grid_pos);
         let res_grid = buf_res.get_grid_idx(output_grid_kind, output_grid_pos);
-        let kind = if buf_res.buffer_grid[res_grid].data_status != DataStatus::Zero {
+        // (Squeezed residuals may arrive before the averages.)
+        let kind = if buf_res.buffer_grid[res_grid].data_status != DataStatus::Zero
+            && buf_avg.buffer_grid[in_grid].data_status != DataStatus::Zero
+        {
             SqueezeStepKind::Regular
         } else if let Some([avg2_buf, res2_buf]) = buf_in_avg {
             let avg2_grid = buffers[avg2_buf].get_grid_idx(output_grid_kind, output_grid_pos);
-- 
2.43.0


From a4e3e84e36f4af5698c83b67492e8011341cc3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:27 +0000
Subject: [PATCH 50/57] fix: noise of frames decoded after seeking

The noise seed depends on the number of visible and nonvisible frames that
precede the frame; seeking restarted counting from zero (or went on counting).
---
 jxl/src/api/decoder.rs                                |  5 +++++
 jxl/src/api/inner/codestream_parser/frame_info.rs     | 11 ++++++++++-
 .../api/inner/codestream_parser/frame_scan_info.rs    | 10 ++++++++++
 jxl/src/api/inner/codestream_parser/mod.rs            |  2 ++
 jxl/src/api/inner/mod.rs                              |  4 ++++
 5 files changed, 31 insertions(+), 1 deletion(-)

diff --git a/jxl/src/api/decoder.rs b/jxl/src/api/decoder.rs
index 4484497..3fb90fc 100644
--- a/jxl/src/api/decoder.rs
+++ b/jxl/src/api/decoder.rs
@@ -72,6 +72,11 @@ pub struct VisibleFrameSeekTarget {
     /// Number of visible frames to skip after seek-start before decoding the
     /// requested target frame.
     pub visible_frames_to_skip: usize,
+    /// Number of visible frames before the frame that decoding starts from.
+    pub(crate) visible_frame_index: usize,
+    /// Number of invisible frames between the latest of those and the frame
+    /// that decoding starts from.
+    pub(crate) nonvisible_frame_index: usize,
 }
 
 impl<S: JxlState> JxlDecoder<S> {
diff --git a/jxl/src/api/inner/codestream_parser/frame_info.rs b/jxl/src/api/inner/codestream_parser/frame_info.rs
index 094368d..0438dd8 100644
--- a/jxl/src/api/inner/codestream_parser/frame_info.rs
+++ b/jxl/src/api/inner/codestream_parser/frame_info.rs
@@ -73,6 +73,9 @@ pub struct FrameInfo {
     // group indices that *might* have new renderable data.
     candidate_hf_sections: HashSet<usize>,
 
+    // Visible and nonvisible frame index before the first frame that is decoded.
+    pub first_frame_index: (usize, usize),
+
     #[cfg(test)]
     pub use_simple_pipeline: bool,
 }
@@ -93,6 +96,7 @@ impl FrameInfo {
             hf_sections: vec![],
             candidate_hf_sections: HashSet::new(),
             pixels_dirty: false,
+            first_frame_index: (0, 0),
             #[cfg(test)]
             use_simple_pipeline: false,
         }
@@ -213,7 +217,12 @@ impl FrameInfo {
                 .map(|x| x.finalize())
                 .transpose()?
                 .flatten()
-                .unwrap_or_else(|| DecoderState::new(file_header.clone(), decode_options));
+                .unwrap_or_else(|| {
+                    let mut state = DecoderState::new(file_header.clone(), decode_options);
+                    (state.visible_frame_index, state.nonvisible_frame_index) =
+                        self.first_frame_index;
+                    state
+                });
             let mut frame =
                 Frame::from_header_and_toc(self.frame_header.take().unwrap(), toc, decoder_state)?;
 
diff --git a/jxl/src/api/inner/codestream_parser/frame_scan_info.rs b/jxl/src/api/inner/codestream_parser/frame_scan_info.rs
index 15954f9..87d9e90 100644
--- a/jxl/src/api/inner/codestream_parser/frame_scan_info.rs
+++ b/jxl/src/api/inner/codestream_parser/frame_scan_info.rs
@@ -13,6 +13,7 @@ use crate::headers::frame_header::FrameHeader;
 struct FrameStartInfo {
     box_parser_checkpoint: BoxParserCheckpoint,
     visible_count_before: usize,
+    nonvisible_count_before: usize,
 }
 
 pub(super) struct FrameScanInfo {
@@ -20,6 +21,8 @@ pub(super) struct FrameScanInfo {
     scanned_frames: Vec<VisibleFrameInfo>,
     /// Zero-based visible frame index counter.
     visible_frame_index: usize,
+    /// Number of invisible frames since the latest visible one.
+    nonvisible_frame_index: usize,
     /// File offsets and visibility info for every non-preview frame (visible
     /// and non-visible), in parse order.
     frame_starts: Vec<FrameStartInfo>,
@@ -39,6 +42,7 @@ impl FrameScanInfo {
         Self {
             scanned_frames: Vec::new(),
             visible_frame_index: 0,
+            nonvisible_frame_index: 0,
             frame_starts: Vec::new(),
             reference_slot_decode_start: [None; DecoderState::MAX_STORED_FRAMES],
             lf_slot_decode_start: [None; DecoderState::NUM_LF_FRAMES],
@@ -62,6 +66,7 @@ impl FrameScanInfo {
         self.frame_starts.push(FrameStartInfo {
             box_parser_checkpoint,
             visible_count_before: self.visible_frame_index,
+            nonvisible_count_before: self.nonvisible_frame_index,
         });
 
         let mut decode_start_frame_index = current_frame_index;
@@ -127,6 +132,8 @@ impl FrameScanInfo {
                 visible_frames_to_skip: self
                     .visible_frame_index
                     .saturating_sub(decode_start.visible_count_before),
+                visible_frame_index: decode_start.visible_count_before,
+                nonvisible_frame_index: decode_start.nonvisible_count_before,
             };
             let is_keyframe = seek_target.visible_frames_to_skip == 0;
 
@@ -142,6 +149,9 @@ impl FrameScanInfo {
             });
 
             self.visible_frame_index += 1;
+            self.nonvisible_frame_index = 0;
+        } else {
+            self.nonvisible_frame_index += 1;
         }
 
         // Update slot dependency origins after processing this frame.
diff --git a/jxl/src/api/inner/codestream_parser/mod.rs b/jxl/src/api/inner/codestream_parser/mod.rs
index b57b5d5..1363129 100644
--- a/jxl/src/api/inner/codestream_parser/mod.rs
+++ b/jxl/src/api/inner/codestream_parser/mod.rs
@@ -137,8 +137,10 @@ impl CodestreamParser {
         &mut self,
         visible_frames_to_skip: usize,
         consumed_codestream: u64,
+        first_frame_index: (usize, usize),
     ) {
         self.frame_info.clear(true);
+        self.frame_info.first_frame_index = first_frame_index;
         self.local_buffer = SmallBuffer::new(4096);
         self.local_buffer.mark_consumed(consumed_codestream);
         self.visible_frames_to_skip = visible_frames_to_skip;
diff --git a/jxl/src/api/inner/mod.rs b/jxl/src/api/inner/mod.rs
index 652686c..75096d9 100644
--- a/jxl/src/api/inner/mod.rs
+++ b/jxl/src/api/inner/mod.rs
@@ -115,6 +115,10 @@ impl JxlDecoderInner {
         self.codestream_parser.start_new_frame(
             seek_target.visible_frames_to_skip,
             seek_target.box_parser_checkpoint.consumed_codestream,
+            (
+                seek_target.visible_frame_index,
+                seek_target.nonvisible_frame_index,
+            ),
         );
     }
 
-- 
2.43.0


From 34d5159e15d134d8279d3c52c5c5626e574470f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:18 +0000
Subject: [PATCH 51/57] fix: account for dim_shift when rejecting patches with
 mixed upsampling

Extra channels with a dim_shift were compared by their declared upsampling, so
that the patches stage was reached with channels of different subsampling.
---
 jxl/src/headers/frame_header.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/jxl/src/headers/frame_header.rs b/jxl/src/headers/frame_header.rs
index c015736..169fa0a 100644
--- a/jxl/src/headers/frame_header.rs
+++ b/jxl/src/headers/frame_header.rs
@@ -699,10 +699,12 @@ impl FrameHeader {
 
         if self.has_patches()
             && self.upsampling != 1
-            && let Some(&ec_upsampling) = self
-                .ec_upsampling
+            && let Some(ec_upsampling) = nonserialized
+                .extra_channel_info
                 .iter()
-                .find(|&&ec_upsampling| ec_upsampling != self.upsampling)
+                .zip(&self.ec_upsampling)
+                .map(|(info, ec_upsampling)| ec_upsampling << info.dim_shift())
+                .find(|&ec_upsampling| ec_upsampling != self.upsampling)
         {
             return Err(Error::PatchesUnsupportedMixedUpsampling(
                 self.upsampling,
-- 
2.43.0


From 7e486396e7f0d13caf0c313421d655b761a61e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:14 +0000
Subject: [PATCH 52/57] fix: seek to frames that patches of skipped frames need

Frames between the first one needed to decode the target and the target are
decoded too, even if their result is not used; they failed if their patches or
LF frames were not there.
---
 .../codestream_parser/frame_scan_info.rs      | 23 +++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/jxl/src/api/inner/codestream_parser/frame_scan_info.rs b/jxl/src/api/inner/codestream_parser/frame_scan_info.rs
index 87d9e90..097cdd9 100644
--- a/jxl/src/api/inner/codestream_parser/frame_scan_info.rs
+++ b/jxl/src/api/inner/codestream_parser/frame_scan_info.rs
@@ -32,6 +32,10 @@ pub(super) struct FrameScanInfo {
     /// For each LF slot, earliest frame index required to reconstruct the
     /// current contents of that slot.
     lf_slot_decode_start: [Option<usize>; DecoderState::NUM_LF_FRAMES],
+    /// Frames that cannot be decoded, not even to be skipped, without the frames
+    /// they refer to, with the earliest frame index required to decode them.
+    /// Ordered by both; frames followed by one that requires as much are left out.
+    strict_dependencies: Vec<(usize, usize)>,
     /// Box parser state where the current frame header parse started.
     /// Set when we begin parsing a frame header.
     current_frame_box_parser_checkpoint: Option<BoxParserCheckpoint>,
@@ -46,6 +50,7 @@ impl FrameScanInfo {
             frame_starts: Vec::new(),
             reference_slot_decode_start: [None; DecoderState::MAX_STORED_FRAMES],
             lf_slot_decode_start: [None; DecoderState::NUM_LF_FRAMES],
+            strict_dependencies: Vec::new(),
             current_frame_box_parser_checkpoint: None,
         }
     }
@@ -112,6 +117,24 @@ impl FrameScanInfo {
             }
         }
 
+        // Frames between the first one needed and this one are decoded too, and
+        // might fail if the frames they refer to are missing.
+        let first_strict = self
+            .strict_dependencies
+            .partition_point(|&(frame_index, _)| frame_index < decode_start_frame_index);
+        if let Some(&(_, dep_start)) = self.strict_dependencies.get(first_strict) {
+            decode_start_frame_index = decode_start_frame_index.min(dep_start);
+        }
+        if header.has_patches() || header.has_lf_frame() {
+            while self
+                .strict_dependencies
+                .pop_if(|&mut (_, dep_start)| dep_start >= decode_start_frame_index)
+                .is_some()
+            {}
+            self.strict_dependencies
+                .push((current_frame_index, decode_start_frame_index));
+        }
+
         if is_visible {
             let duration_ticks = header.duration;
             let duration_ms = if let Some(anim) = animation {
-- 
2.43.0


From 7ef2df29794dc74eb37cdeff63662d39d91ab691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:34 +0000
Subject: [PATCH 53/57] fix: convert float vectors to integers by truncation on
 x86

as_i32 is documented by its scalar, NEON and WebAssembly versions to convert like
'as i32'. The x86 versions rounded to nearest instead, so that what depends on it (the
smooth preview of squeezed channels) differed from the other implementations.
---
 jxl_simd/src/x86_64/avx.rs    | 2 +-
 jxl_simd/src/x86_64/avx512.rs | 2 +-
 jxl_simd/src/x86_64/sse42.rs  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/jxl_simd/src/x86_64/avx.rs b/jxl_simd/src/x86_64/avx.rs
index f3866c0..8969c9a 100644
--- a/jxl_simd/src/x86_64/avx.rs
+++ b/jxl_simd/src/x86_64/avx.rs
@@ -582,7 +582,7 @@ impl F32SimdVec for F32VecAvx {
     });
 
     fn_avx!(this: F32VecAvx, fn as_i32() -> I32VecAvx {
-        I32VecAvx(_mm256_cvtps_epi32(this.0), this.1)
+        I32VecAvx(_mm256_cvttps_epi32(this.0), this.1)
     });
 
     fn_avx!(this: F32VecAvx, fn bitcast_to_i32() -> I32VecAvx {
diff --git a/jxl_simd/src/x86_64/avx512.rs b/jxl_simd/src/x86_64/avx512.rs
index d807034..716e2e5 100644
--- a/jxl_simd/src/x86_64/avx512.rs
+++ b/jxl_simd/src/x86_64/avx512.rs
@@ -640,7 +640,7 @@ impl F32SimdVec for F32VecAvx512 {
     });
 
     fn_avx!(this: F32VecAvx512, fn as_i32() -> I32VecAvx512 {
-        I32VecAvx512(_mm512_cvtps_epi32(this.0), this.1)
+        I32VecAvx512(_mm512_cvttps_epi32(this.0), this.1)
     });
 
     fn_avx!(this: F32VecAvx512, fn bitcast_to_i32() -> I32VecAvx512 {
diff --git a/jxl_simd/src/x86_64/sse42.rs b/jxl_simd/src/x86_64/sse42.rs
index 1941abf..eadf7c6 100644
--- a/jxl_simd/src/x86_64/sse42.rs
+++ b/jxl_simd/src/x86_64/sse42.rs
@@ -474,7 +474,7 @@ impl F32SimdVec for F32VecSse42 {
     });
 
     fn_sse42!(this: F32VecSse42, fn as_i32() -> I32VecSse42 {
-        I32VecSse42(_mm_cvtps_epi32(this.0), this.1)
+        I32VecSse42(_mm_cvttps_epi32(this.0), this.1)
     });
 
     fn_sse42!(this: F32VecSse42, fn bitcast_to_i32() -> I32VecSse42 {
-- 
2.43.0


From 7a829a90360c1096bdda598789cd37352cc6c1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:34 +0000
Subject: [PATCH 54/57] fix: accept 256 entropy code clusters

The number of histograms was computed as u8, so that a context map using all 256 clusters
overflowed.
---
 jxl/src/entropy_coding/decode.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/jxl/src/entropy_coding/decode.rs b/jxl/src/entropy_coding/decode.rs
index 0958f8b..5da2cd0 100644
--- a/jxl/src/entropy_coding/decode.rs
+++ b/jxl/src/entropy_coding/decode.rs
@@ -519,18 +519,14 @@ impl Histograms {
         } else {
             br.read(2)? as usize + 5
         };
-        let num_histograms = *context_map.iter().max().unwrap() + 1;
+        let num_histograms = *context_map.iter().max().unwrap() as usize + 1;
         let uint_configs = ((0..num_histograms).map(|_| HybridUint::decode(log_alpha_size, br)))
             .collect::<Result<_>>()?;
 
         let codes = if use_prefix_code {
-            Codes::Huffman(HuffmanCodes::decode(num_histograms as usize, br)?)
+            Codes::Huffman(HuffmanCodes::decode(num_histograms, br)?)
         } else {
-            Codes::Ans(AnsCodes::decode(
-                num_histograms as usize,
-                log_alpha_size,
-                br,
-            )?)
+            Codes::Ans(AnsCodes::decode(num_histograms, log_alpha_size, br)?)
         };
 
         Ok(Histograms {
-- 
2.43.0


From 199faa6c1732b58de80dd7733ffe95bd11714715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:20 +0000
Subject: [PATCH 55/57] fix: apply the sample limit to frames as they are after
 upsampling

A frame that is upsampled takes up to 64 times the memory that its coded size suggests.
---
 jxl/src/api/inner/codestream_parser/frame_info.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jxl/src/api/inner/codestream_parser/frame_info.rs b/jxl/src/api/inner/codestream_parser/frame_info.rs
index 0438dd8..62e902c 100644
--- a/jxl/src/api/inner/codestream_parser/frame_info.rs
+++ b/jxl/src/api/inner/codestream_parser/frame_info.rs
@@ -148,7 +148,7 @@ impl FrameInfo {
         frame_header.postprocess(&nonserialized);
         check_size_limit(
             decode_options.sample_limit,
-            frame_header.size(),
+            frame_header.size_upsampled(),
             frame_header.num_extra_channels as usize,
         )?;
 
-- 
2.43.0


From 04cee8b3ef4e6bf492e947ede45337d5307ef0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:20 +0000
Subject: [PATCH 56/57] fix: jxl_cli --preview allocated buffers of the size of
 the image

---
 jxl_cli/src/dec/mod.rs | 49 ++++++++++++++++++++++++++----------------
 1 file changed, 31 insertions(+), 18 deletions(-)

diff --git a/jxl_cli/src/dec/mod.rs b/jxl_cli/src/dec/mod.rs
index 3d36604..86638a0 100644
--- a/jxl_cli/src/dec/mod.rs
+++ b/jxl_cli/src/dec/mod.rs
@@ -262,20 +262,24 @@ pub fn decode_frames<In: JxlBitstreamInputExt>(
     };
 
     'frame: loop {
-        let image_size = info.size;
-        let byte_size = (
-            image_size.0 * output_type.bits_per_sample() / 8,
-            image_size.1,
-        );
-
-        let mut outputs = vec![OwnedRawImage::new((
-            byte_size.0 * samples_per_pixel,
-            byte_size.1,
-        ))?];
-
-        for _ in 0..extra_channels {
-            outputs.push(OwnedRawImage::new(byte_size)?);
-        }
+        let allocate_outputs = |image_size: (usize, usize)| -> Result<Vec<OwnedRawImage>> {
+            let byte_size = (
+                image_size.0 * output_type.bits_per_sample() / 8,
+                image_size.1,
+            );
+
+            let mut outputs = vec![OwnedRawImage::new((
+                byte_size.0 * samples_per_pixel,
+                byte_size.1,
+            ))?];
+
+            for _ in 0..extra_channels {
+                outputs.push(OwnedRawImage::new(byte_size)?);
+            }
+            Ok(outputs)
+        };
+
+        let mut outputs = allocate_outputs(info.size)?;
 
         let mut partial_renders: Vec<Vec<OwnedRawImage>> = vec![];
 
@@ -332,6 +336,12 @@ pub fn decode_frames<In: JxlBitstreamInputExt>(
 
         let frame_header = decoder_with_frame_info.frame_header();
 
+        // The preview frame does not have the size of the image.
+        if frame_header.size != info.size {
+            outputs = allocate_outputs(frame_header.size)?;
+            partial_renders.clear();
+        }
+
         decoder_with_image_info = 'partial: loop {
             let mut output_bufs: Vec<JxlOutputBuffer<'_>> = outputs
                 .iter_mut()
@@ -399,14 +409,17 @@ pub fn decode_frames<In: JxlBitstreamInputExt>(
 
     if let Some(ref mut transformer) = cms_transformer {
         for frame in &mut image_data.frames {
+            // The preview frame does not have the size of the image.
+            let (row_bytes, height) = frame.channels[0].byte_size();
+            let width = row_bytes / (samples_per_pixel * output_type.bits_per_sample() / 8);
             apply_cms(
                 &mut frame.channels[0],
                 samples_per_pixel,
                 color_channels,
                 output_type,
                 transformer.as_mut(),
-                info.size.0,
-                info.size.1,
+                width,
+                height,
             )?;
             for partial in &mut frame.partial_renders {
                 apply_cms(
@@ -415,8 +428,8 @@ pub fn decode_frames<In: JxlBitstreamInputExt>(
                     color_channels,
                     output_type,
                     transformer.as_mut(),
-                    info.size.0,
-                    info.size.1,
+                    width,
+                    height,
                 )?;
             }
         }
-- 
2.43.0


From e4b9987f9a10ddd77071fee21e9b78a0cbdb5a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:56 +0000
Subject: [PATCH 57/57] fix: jxl_cli reports errors when the rest of the output
 is written

---
 jxl_cli/src/enc/mod.rs | 7 +++++--
 jxl_cli/src/enc/png.rs | 3 +++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/jxl_cli/src/enc/mod.rs b/jxl_cli/src/enc/mod.rs
index d15e0ff..6739e0b 100644
--- a/jxl_cli/src/enc/mod.rs
+++ b/jxl_cli/src/enc/mod.rs
@@ -4,7 +4,7 @@
 // license that can be found in the LICENSE file.
 
 use std::fs::File;
-use std::io::BufWriter;
+use std::io::{BufWriter, Write};
 use std::path::PathBuf;
 
 use color_eyre::eyre::{Result, eyre};
@@ -88,7 +88,8 @@ impl OutputFormat {
                         image_data,
                         &mut writer,
                         if i < num_partials { Some(i) } else { None },
-                    )?
+                    )?;
+                    writer.flush()?;
                 }
             }
         }
@@ -101,6 +102,8 @@ impl OutputFormat {
             #[cfg(feature = "exr")]
             Self::Exr => exr::to_exr(image_data, &mut writer)?,
         };
+        // Dropping the writer would ignore errors.
+        writer.flush()?;
         Ok(())
     }
 }
diff --git a/jxl_cli/src/enc/png.rs b/jxl_cli/src/enc/png.rs
index 36ad9e1..7308bb0 100644
--- a/jxl_cli/src/enc/png.rs
+++ b/jxl_cli/src/enc/png.rs
@@ -182,6 +182,7 @@ pub fn to_png<Writer: Write>(
             for y in 0..height {
                 ww.write_all(chan.row(y))?;
             }
+            ww.finish()?;
         }
     } else {
         // 16-bit
@@ -211,7 +212,9 @@ pub fn to_png<Writer: Write>(
                     ww.write_all(&buffer)?;
                 }
             }
+            ww.finish()?;
         }
     }
+    writer.finish()?;
     Ok(())
 }
-- 
2.43.0

