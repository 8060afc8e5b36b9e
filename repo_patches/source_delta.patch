From 460d5bc5eef711fb62152ce8d6e11b40ad5bacb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:30 +0000
Subject: [PATCH 01/19] fix: consume data after the trailer instead of looping
 forever

---
 src/reader/decoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reader/decoder.rs b/src/reader/decoder.rs
index 35994f3..e2fc86a 100644
--- a/src/reader/decoder.rs
+++ b/src/reader/decoder.rs
@@ -777,7 +777,7 @@ impl StreamingDecoder {
                 debug_assert_eq!(0, b);
                 goto!(BlockEnd, emit Decoded::DataEnd)
             }
-            Trailer => goto!(0, Trailer, emit Decoded::Nothing),
+            Trailer => goto!(buf.len(), Trailer, emit Decoded::Nothing),
         }
     }
 
-- 
2.43.0


From e089377457d886971fcd4f3b7652035a5bd9b87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:31 +0000
Subject: [PATCH 02/19] fix: read the trailer of images without any blocks

---
 src/reader/decoder.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/reader/decoder.rs b/src/reader/decoder.rs
index e2fc86a..10d545d 100644
--- a/src/reader/decoder.rs
+++ b/src/reader/decoder.rs
@@ -613,7 +613,8 @@ impl StreamingDecoder {
                     }
                     goto!(n, GlobalPalette(left - n))
                 } else {
-                    goto!(BlockStart(b), emit Decoded::GlobalPalette(
+                    // BlockEnd takes care of a trailer that follows immediately
+                    goto!(0, BlockEnd, emit Decoded::GlobalPalette(
                         mem::take(&mut self.global_color_table).into_boxed_slice()
                     ))
                 }
-- 
2.43.0


From 569b9b9275e7dbb05ff75d6dd8952ae17abd30bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:32 +0000
Subject: [PATCH 03/19] fix: parse extensions that have no sub-blocks

---
 src/reader/decoder.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/reader/decoder.rs b/src/reader/decoder.rs
index 10d545d..b391503 100644
--- a/src/reader/decoder.rs
+++ b/src/reader/decoder.rs
@@ -662,6 +662,10 @@ impl StreamingDecoder {
             }
             ExtensionBlockStart => {
                 self.ext.data.push(b);
+                if b == 0 {
+                    // no sub-blocks at all, this is the terminator already
+                    return goto!(0, ExtensionDataBlock(0));
+                }
                 goto!(ExtensionDataBlock(b as usize))
             }
             ExtensionDataBlock(left) => {
-- 
2.43.0


From f1d88b0d75c260b77ae0b64a79c548e6840d0b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:33 +0000
Subject: [PATCH 04/19] fix: skip unknown blocks without repeating the previous
 extension

---
 src/reader/decoder.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/reader/decoder.rs b/src/reader/decoder.rs
index b391503..3a07de5 100644
--- a/src/reader/decoder.rs
+++ b/src/reader/decoder.rs
@@ -644,6 +644,13 @@ impl StreamingDecoder {
                     }
                     None => {
                         if self.allow_unknown_blocks {
+                            // must not be taken for another instance of the previous extension
+                            self.ext.data.clear();
+                            self.ext.id = AnyExtension(0);
+                            if b == 0 {
+                                // no sub-blocks at all, this is the terminator already
+                                return goto!(0, ExtensionDataBlock(0));
+                            }
                             goto!(ExtensionDataBlock(b as usize))
                         } else {
                             Err(DecodingError::format("unknown block type encountered"))
-- 
2.43.0


From 69f8226f5bb290d064c33b1e935709cd6f871c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:34 +0000
Subject: [PATCH 05/19] fix: do not end the header at a skipped unknown block

---
 src/reader/decoder.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/reader/decoder.rs b/src/reader/decoder.rs
index 3a07de5..44d5886 100644
--- a/src/reader/decoder.rs
+++ b/src/reader/decoder.rs
@@ -620,7 +620,9 @@ impl StreamingDecoder {
                 }
             }
             BlockStart(type_) => {
-                if !self.header_end_reached && type_ != Block::Extension as u8 {
+                // skipped blocks may be followed by more extensions that belong to the header
+                let is_skipped = self.allow_unknown_blocks && Block::from_u8(type_).is_none();
+                if !self.header_end_reached && type_ != Block::Extension as u8 && !is_skipped {
                     self.header_end_reached = true;
                     return goto!(0, BlockStart(type_), emit Decoded::HeaderEnd);
                 }
-- 
2.43.0


From d9993fe0e009cba5d37a92faa30e2f4959fcc40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:35 +0000
Subject: [PATCH 06/19] fix: retry interrupted reads

---
 src/reader/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/reader/mod.rs b/src/reader/mod.rs
index 8911d8e..d678a94 100644
--- a/src/reader/mod.rs
+++ b/src/reader/mod.rs
@@ -205,7 +205,12 @@ impl<R: Read> ReadDecoder<R> {
     fn decode_next(&mut self, write_into: &mut OutputBuffer<'_>) -> Result<Option<Decoded>, DecodingError> {
         while !self.at_eof {
             let (consumed, result) = {
-                let buf = self.reader.fill_buf()?;
+                match self.reader.fill_buf() {
+                    Ok(_) => {},
+                    Err(err) if err.kind() == io::ErrorKind::Interrupted => continue,
+                    Err(err) => return Err(err.into()),
+                }
+                let buf = self.reader.buffer();
                 if buf.is_empty() {
                     return Err(io::ErrorKind::UnexpectedEof.into());
                 }
-- 
2.43.0


From 4a5f56b8905840004b1fde692c58947d28463af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:37 +0000
Subject: [PATCH 07/19] fix: read frames that have no pixels

---
 src/reader/converter.rs | 4 ++++
 src/reader/mod.rs       | 9 +++------
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/reader/converter.rs b/src/reader/converter.rs
index dbc80df..66d382a 100644
--- a/src/reader/converter.rs
+++ b/src/reader/converter.rs
@@ -90,6 +90,10 @@ impl PixelConverter {
     /// Use `read_into_buffer` to deinterlace
     #[inline(never)]
     pub(crate) fn fill_buffer(&mut self, current_frame: &Frame<'_>, mut buf: &mut [u8], data_callback: FillBufferCallback<'_>) -> Result<bool, DecodingError> {
+        if buf.is_empty() {
+            // nothing to fill, e.g. a frame without any pixels
+            return Ok(true);
+        }
         loop {
             let decode_into = match self.color_output {
                 // When decoding indexed data, LZW can write the pixels directly
diff --git a/src/reader/mod.rs b/src/reader/mod.rs
index d678a94..f2bf3a0 100644
--- a/src/reader/mod.rs
+++ b/src/reader/mod.rs
@@ -368,11 +368,8 @@ impl<R> Decoder<R> where R: Read {
     }
 
     /// This is private for iterator's use
-    fn take_current_frame(&mut self) -> Option<Frame<'static>> {
-        if self.current_frame.buffer.is_empty() {
-            return None;
-        }
-        Some(self.current_frame.take())
+    fn take_current_frame(&mut self) -> Frame<'static> {
+        self.current_frame.take()
     }
 
     /// Reads the data of the current frame into a pre-allocated buffer.
@@ -501,7 +498,7 @@ impl<R: Read> Iterator for DecoderIter<R> {
     fn next(&mut self) -> Option<Self::Item> {
         if !self.ended {
             match self.inner.read_next_frame() {
-                Ok(Some(_)) => self.inner.take_current_frame().map(Ok),
+                Ok(Some(_)) => Some(Ok(self.inner.take_current_frame())),
                 Ok(None) => {
                     self.ended = true;
                     None
-- 
2.43.0


From 26f03b5d14019e1bcbdbefb5f6b2b502d8ec481a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:37 +0000
Subject: [PATCH 08/19] fix: deliver the pixels in front of an invalid code

---
 src/reader/decoder.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/reader/decoder.rs b/src/reader/decoder.rs
index 44d5886..ae841ea 100644
--- a/src/reader/decoder.rs
+++ b/src/reader/decoder.rs
@@ -247,6 +247,8 @@ struct LzwReader {
     decoder: Option<LzwDecoder>,
     min_code_size: u8,
     check_for_end_code: bool,
+    /// The data is broken from here on. Not reported until the pixels in front of it were delivered.
+    invalid_code: bool,
 }
 
 impl LzwReader {
@@ -255,6 +257,7 @@ impl LzwReader {
             decoder: None,
             min_code_size: 0,
             check_for_end_code,
+            invalid_code: false,
         }
     }
 
@@ -269,6 +272,7 @@ impl LzwReader {
 
     pub fn reset(&mut self, min_code_size: u8) -> Result<(), DecodingError> {
         Self::check_code_size(min_code_size)?;
+        self.invalid_code = false;
 
         // The decoder can be reused if the code size stayed the same
         if self.min_code_size != min_code_size || self.decoder.is_none() {
@@ -294,6 +298,9 @@ impl LzwReader {
             OutputBuffer::Vec(_) => return Err(io::Error::from(io::ErrorKind::Unsupported)),
         };
 
+        if self.invalid_code {
+            return Err(io::Error::new(io::ErrorKind::InvalidData, LzwError::InvalidCode));
+        }
         let decoded = decoder.decode_bytes(lzw_data, decode_buffer);
 
         match decoded.status {
@@ -304,7 +311,10 @@ impl LzwReader {
                 }
             },
             Err(err @ LzwError::InvalidCode) => {
-                return Err(io::Error::new(io::ErrorKind::InvalidData, err));
+                self.invalid_code = true;
+                if decoded.consumed_out == 0 {
+                    return Err(io::Error::new(io::ErrorKind::InvalidData, err));
+                }
             }
         }
         Ok((decoded.consumed_in, decoded.consumed_out))
-- 
2.43.0


From 3fc80da309c48f6a42e6568b875e44699be34838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:21 +0000
Subject: [PATCH 09/19] fix: do not drop LZW data behind a clear code or in the
 bit buffer

---
 src/reader/decoder.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/reader/decoder.rs b/src/reader/decoder.rs
index ae841ea..e68eb7d 100644
--- a/src/reader/decoder.rs
+++ b/src/reader/decoder.rs
@@ -227,7 +227,7 @@ impl FrameDecoder {
             loop {
                 let (bytes_read, bytes_written) = lzw_reader.decode_bytes(data, out)?;
                 data = data.get(bytes_read..).unwrap_or_default();
-                if bytes_written > 0 || bytes_read == 0 || data.is_empty() {
+                if bytes_written > 0 || bytes_read == 0 {
                     return Ok(bytes_written);
                 }
             }
@@ -301,7 +301,23 @@ impl LzwReader {
         if self.invalid_code {
             return Err(io::Error::new(io::ErrorKind::InvalidData, LzwError::InvalidCode));
         }
-        let decoded = decoder.decode_bytes(lzw_data, decode_buffer);
+        let mut stalled = false;
+        let decoded = loop {
+            let decoded = decoder.decode_bytes(lzw_data, decode_buffer);
+            // A clear code that was buffered already takes a call that neither consumes nor outputs anything,
+            // and more data may follow it. Only if that repeats there really is no data left.
+            if decoded.consumed_in == 0 && decoded.consumed_out == 0 {
+                match decoded.status {
+                    Ok(LzwStatus::Ok) => continue,
+                    Ok(LzwStatus::NoProgress) if !stalled => {
+                        stalled = true;
+                        continue;
+                    },
+                    _ => {},
+                }
+            }
+            break decoded;
+        };
 
         match decoded.status {
             Ok(LzwStatus::Done | LzwStatus::Ok) => {},
-- 
2.43.0


From 5e4d9190a87e37a37a030d10afa210efe45a3024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:22 +0000
Subject: [PATCH 10/19] fix: check for the LZW end code at the end of the image
 data only

---
 src/reader/decoder.rs | 43 +++++++++++++++++++++++++++++++------------
 1 file changed, 31 insertions(+), 12 deletions(-)

diff --git a/src/reader/decoder.rs b/src/reader/decoder.rs
index e68eb7d..447637b 100644
--- a/src/reader/decoder.rs
+++ b/src/reader/decoder.rs
@@ -289,14 +289,38 @@ impl LzwReader {
         self.decoder.as_ref().map_or(true, |e| e.has_ended())
     }
 
+    /// Call with empty `lzw_data` when there is no more data
     pub fn decode_bytes(&mut self, lzw_data: &[u8], decode_buffer: &mut OutputBuffer<'_>) -> io::Result<(usize, usize)> {
-        let decoder = self.decoder.as_mut().ok_or(io::ErrorKind::Unsupported)?;
-
-        let decode_buffer = match decode_buffer {
-            OutputBuffer::Slice(buf) => &mut **buf,
-            OutputBuffer::None => &mut [],
+        let (bytes_read, bytes_written) = match decode_buffer {
+            OutputBuffer::Slice(buf) if !buf.is_empty() => self.decode_into(lzw_data, buf)?,
+            OutputBuffer::Slice(_) | OutputBuffer::None => {
+                if self.check_for_end_code {
+                    self.discard(lzw_data)?;
+                }
+                (lzw_data.len(), 0)
+            },
             OutputBuffer::Vec(_) => return Err(io::Error::from(io::ErrorKind::Unsupported)),
         };
+        if self.check_for_end_code && lzw_data.is_empty() && bytes_written == 0 && !self.has_ended() {
+            return Err(io::Error::new(io::ErrorKind::InvalidData, "no end code in lzw stream"));
+        }
+        Ok((bytes_read, bytes_written))
+    }
+
+    /// Decodes only to find the end code
+    fn discard(&mut self, mut lzw_data: &[u8]) -> io::Result<()> {
+        let mut pixels = [0; 1024];
+        loop {
+            let (bytes_read, bytes_written) = self.decode_into(lzw_data, &mut pixels)?;
+            lzw_data = lzw_data.get(bytes_read..).unwrap_or_default();
+            if bytes_read == 0 && bytes_written == 0 {
+                return Ok(());
+            }
+        }
+    }
+
+    fn decode_into(&mut self, lzw_data: &[u8], decode_buffer: &mut [u8]) -> io::Result<(usize, usize)> {
+        let decoder = self.decoder.as_mut().ok_or(io::ErrorKind::Unsupported)?;
 
         if self.invalid_code {
             return Err(io::Error::new(io::ErrorKind::InvalidData, LzwError::InvalidCode));
@@ -320,12 +344,7 @@ impl LzwReader {
         };
 
         match decoded.status {
-            Ok(LzwStatus::Done | LzwStatus::Ok) => {},
-            Ok(LzwStatus::NoProgress) => {
-                if self.check_for_end_code {
-                    return Err(io::Error::new(io::ErrorKind::InvalidData, "no end code in lzw stream"));
-                }
-            },
+            Ok(LzwStatus::Done | LzwStatus::Ok | LzwStatus::NoProgress) => {},
             Err(err @ LzwError::InvalidCode) => {
                 self.invalid_code = true;
                 if decoded.consumed_out == 0 {
@@ -781,7 +800,7 @@ impl StreamingDecoder {
                 debug_assert!(!self.skip_frame_decoding);
                 if left > 0 {
                     let n = cmp::min(left, buf.len());
-                    if self.lzw_reader.has_ended() || matches!(write_into, OutputBuffer::None) {
+                    if self.lzw_reader.has_ended() {
                         return goto!(n, DecodeSubBlock(left - n), emit Decoded::Nothing);
                     }
 
-- 
2.43.0


From 1bb3fcaafef3bcbefd48fdef7ad3cee0541a5199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:23 +0000
Subject: [PATCH 11/19] fix: apply the memory limit to the buffer reserved for
 raw LZW data

---
 src/reader/decoder.rs |  4 ++++
 src/reader/mod.rs     | 11 ++++++++++-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/reader/decoder.rs b/src/reader/decoder.rs
index 447637b..d5d949d 100644
--- a/src/reader/decoder.rs
+++ b/src/reader/decoder.rs
@@ -493,6 +493,10 @@ impl StreamingDecoder {
         (self.ext.id, &self.ext.data, self.ext.is_block_end)
     }
 
+    pub(crate) const fn memory_limit(&self) -> &MemoryLimit {
+        &self.memory_limit
+    }
+
     /// Current frame info as a mutable ref.
     #[must_use]
     #[track_caller]
diff --git a/src/reader/mod.rs b/src/reader/mod.rs
index f2bf3a0..dc0076f 100644
--- a/src/reader/mod.rs
+++ b/src/reader/mod.rs
@@ -60,6 +60,14 @@ impl MemoryLimit {
         }
     }
 
+    /// Reduces a size that is only a guess to the limit
+    fn cap_size(&self, size: usize) -> usize {
+        match self {
+            Self::Unlimited => size,
+            Self::Bytes(limit) => usize::try_from(limit.get()).map_or(size, |limit| size.min(limit)),
+        }
+    }
+
     fn buffer_size(&self, color: ColorOutput, width: u16, height: u16) -> Option<usize> {
         let pixels = u64::from(width) * u64::from(height);
 
@@ -355,7 +363,8 @@ impl<R> Decoder<R> where R: Read {
                         Vec::new()
                     };
                     // Guesstimate 2bpp
-                    vec.try_reserve(usize::from(self.current_frame.width) * usize::from(self.current_frame.height) / 4)
+                    let size = usize::from(self.current_frame.width) * usize::from(self.current_frame.height) / 4;
+                    vec.try_reserve(self.decoder.decoder.memory_limit().cap_size(size))
                         .map_err(|_| io::Error::from(io::ErrorKind::OutOfMemory))?;
                     self.copy_lzw_into_buffer(min_code_size, &mut vec)?;
                     self.current_frame.buffer = Cow::Owned(vec);
-- 
2.43.0


From df89c423836d05215200a6c0612f78ac6704b111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:24 +0000
Subject: [PATCH 12/19] fix: map all transparent pixels to the transparent
 index

---
 src/common.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/common.rs b/src/common.rs
index 2458d06..e473e38 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -218,7 +218,8 @@ impl Frame<'static> {
             if pix[3] != 0 {
                 pix[3] = 0xFF;
             } else {
-                transparent = Some([pix[0], pix[1], pix[2], pix[3]]);
+                // all transparent pixels have to get the same index
+                pix.copy_from_slice(transparent.get_or_insert([pix[0], pix[1], pix[2], 0]));
             }
         }
 
-- 
2.43.0


From 574cc32c4d281a95d1a2a28c68870dbabceab77e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:24 +0000
Subject: [PATCH 13/19] fix: do not write the trailer again when into_inner
 fails

---
 src/encoder.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/encoder.rs b/src/encoder.rs
index 1933478..2243ec0 100644
--- a/src/encoder.rs
+++ b/src/encoder.rs
@@ -360,8 +360,10 @@ impl<W: Write> Encoder<W> {
 
     /// Finishes writing, and returns the `io::Write` instance used by this encoder
     pub fn into_inner(mut self) -> io::Result<W> {
-        self.write_trailer()?;
-        self.w.take().ok_or(io::Error::from(io::ErrorKind::Unsupported))
+        // taken first, so that `drop` does not try to write the trailer again if this fails
+        let mut w = self.w.take().ok_or(io::Error::from(io::ErrorKind::Unsupported))?;
+        w.write_le(Block::Trailer as u8)?;
+        Ok(w)
     }
 
     /// Write the final tailer.
-- 
2.43.0


From bca370649ba31d28bc5a3740c2f8b3e4e18a7e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:25 +0000
Subject: [PATCH 14/19] fix: do not write a trailer after Encoder::new failed

---
 src/encoder.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/encoder.rs b/src/encoder.rs
index 2243ec0..38d2e2c 100644
--- a/src/encoder.rs
+++ b/src/encoder.rs
@@ -134,12 +134,18 @@ impl<W: Write> Encoder<W> {
     /// `global_palette` gives the global color palette in the format `[r, g, b, ...]`,
     /// if no global palette shall be used an empty slice may be supplied.
     pub fn new(w: W, width: u16, height: u16, global_palette: &[u8]) -> Result<Self, EncodingError> {
-        Self {
+        let mut encoder = Self {
             w: Some(w),
             global_palette: false,
             width, height,
             buffer: Vec::new(),
-        }.write_global_palette(global_palette)
+        };
+        if let Err(err) = encoder.write_global_palette(global_palette) {
+            // there is no file to finish in `drop`
+            encoder.w = None;
+            return Err(err);
+        }
+        Ok(encoder)
     }
 
     /// Write an extension block that signals a repeat behaviour.
@@ -148,7 +154,7 @@ impl<W: Write> Encoder<W> {
     }
 
     /// Writes the global color palette.
-    fn write_global_palette(mut self, palette: &[u8]) -> Result<Self, EncodingError> {
+    fn write_global_palette(&mut self, palette: &[u8]) -> Result<(), EncodingError> {
         let mut flags = 0;
         flags |= 0b1000_0000;
         let (palette, padding, table_size) = Self::check_color_table(palette)?;
@@ -159,8 +165,7 @@ impl<W: Write> Encoder<W> {
         // should use some sensible value here or even allow configuring it?
         flags |= table_size << 4; // wtf flag
         self.write_screen_desc(flags)?;
-        Self::write_color_table(self.writer()?, palette, padding)?;
-        Ok(self)
+        Self::write_color_table(self.writer()?, palette, padding)
     }
 
     /// Writes a frame to the image.
-- 
2.43.0


From 57d4f0aebe03329238dc20a732314844d199a450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:26 +0000
Subject: [PATCH 15/19] fix: do not write a control extension for a frame that
 is refused

---
 src/encoder.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/encoder.rs b/src/encoder.rs
index 38d2e2c..32f9340 100644
--- a/src/encoder.rs
+++ b/src/encoder.rs
@@ -181,12 +181,6 @@ impl<W: Write> Encoder<W> {
     }
 
     fn write_frame_header(&mut self, frame: &Frame<'_>) -> Result<(), EncodingError> {
-        self.write_extension(ExtensionData::new_control_ext(
-            frame.delay,
-            frame.dispose,
-            frame.needs_user_input,
-            frame.transparent,
-        ))?;
         let mut flags = 0;
         if frame.interlaced {
             flags |= 0b0100_0000;
@@ -201,6 +195,13 @@ impl<W: Write> Encoder<W> {
             None if self.global_palette => None,
             _ => return Err(EncodingError::from(EncodingFormatError::MissingColorPalette)),
         };
+        // nothing must be written before all checks are done
+        self.write_extension(ExtensionData::new_control_ext(
+            frame.delay,
+            frame.dispose,
+            frame.needs_user_input,
+            frame.transparent,
+        ))?;
         let mut tmp = tmp_buf::<10>();
         tmp.write_le(Block::Image as u8)?;
         tmp.write_le(frame.left)?;
-- 
2.43.0


From 73667d3afb9ca91925f097bbaad79f1d4499a48e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:04 +0000
Subject: [PATCH 16/19] fix: read images whose data has no sub-blocks

---
 src/reader/decoder.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/reader/decoder.rs b/src/reader/decoder.rs
index d5d949d..78cf03a 100644
--- a/src/reader/decoder.rs
+++ b/src/reader/decoder.rs
@@ -782,10 +782,11 @@ impl StreamingDecoder {
                 if !self.skip_frame_decoding {
                     // Reset validates the min code size
                     self.lzw_reader.reset(min_code_size)?;
-                    goto!(DecodeSubBlock(b as usize), emit Decoded::FrameMetadata(FrameDataType::Pixels))
+                    // `b` is not consumed, because the data may be empty and `b` the terminator
+                    goto!(0, DecodeSubBlock(0), emit Decoded::FrameMetadata(FrameDataType::Pixels))
                 } else {
                     LzwReader::check_code_size(min_code_size)?;
-                    goto!(CopySubBlock(b as usize), emit Decoded::FrameMetadata(FrameDataType::Lzw { min_code_size }))
+                    goto!(0, CopySubBlock(0), emit Decoded::FrameMetadata(FrameDataType::Lzw { min_code_size }))
                 }
             }
             CopySubBlock(left) => {
-- 
2.43.0


From b3dc41604e492ef75a71be3f6eae10188d6dc6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:50 +0000
Subject: [PATCH 17/19] fix: deliver the pixels in front of the end of
 truncated data

---
 src/reader/decoder.rs | 16 ++++++++++++++++
 src/reader/mod.rs     |  4 ++++
 2 files changed, 20 insertions(+)

diff --git a/src/reader/decoder.rs b/src/reader/decoder.rs
index 78cf03a..ac12ae0 100644
--- a/src/reader/decoder.rs
+++ b/src/reader/decoder.rs
@@ -307,6 +307,14 @@ impl LzwReader {
         Ok((bytes_read, bytes_written))
     }
 
+    /// Pixels the decoder can output without any more data
+    fn decode_buffered(&mut self, decode_buffer: &mut OutputBuffer<'_>) -> io::Result<Option<NonZeroUsize>> {
+        match decode_buffer {
+            OutputBuffer::Slice(buf) if !buf.is_empty() => Ok(NonZeroUsize::new(self.decode_into(&[], buf)?.1)),
+            _ => Ok(None),
+        }
+    }
+
     /// Decodes only to find the end code
     fn discard(&mut self, mut lzw_data: &[u8]) -> io::Result<()> {
         let mut pixels = [0; 1024];
@@ -487,6 +495,14 @@ impl StreamingDecoder {
         Ok((len - buf.len(), Decoded::Nothing))
     }
 
+    /// Decoded pixels that were held back so far. To be used when the input has ended in the middle of an image.
+    pub(crate) fn buffered_bytes(&mut self, write_into: &mut OutputBuffer<'_>) -> Result<Option<NonZeroUsize>, DecodingError> {
+        match self.state {
+            DecodeSubBlock(_) if !self.lzw_reader.has_ended() => Ok(self.lzw_reader.decode_buffered(write_into)?),
+            _ => Ok(None),
+        }
+    }
+
     /// Returns the data of the last extension that has been decoded.
     #[must_use]
     pub fn last_ext(&self) -> (AnyExtension, &[u8], bool) {
diff --git a/src/reader/mod.rs b/src/reader/mod.rs
index dc0076f..bd2e767 100644
--- a/src/reader/mod.rs
+++ b/src/reader/mod.rs
@@ -220,6 +220,10 @@ impl<R: Read> ReadDecoder<R> {
                 }
                 let buf = self.reader.buffer();
                 if buf.is_empty() {
+                    // pixels that precede the end of the data do not depend on how it was delivered
+                    if let Some(len) = self.decoder.buffered_bytes(write_into)? {
+                        return Ok(Some(Decoded::BytesDecoded(len)));
+                    }
                     return Err(io::ErrorKind::UnexpectedEof.into());
                 }
 
-- 
2.43.0


From 12ee851f52ef45eb4093ad6e2539b26173ab5aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:35 +0000
Subject: [PATCH 18/19] fix: opaque pixels of quantised frames keep their
 opacity

When an image with transparent pixels had more than 256 colours, the quantiser could
merge opaque pixels into the transparent index, and they disappeared. Quantise the opaque
pixels only and reserve one index for transparency.
---
 src/common.rs | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/common.rs b/src/common.rs
index e473e38..092d998 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -229,14 +229,29 @@ impl Frame<'static> {
         for pixel in pixels.chunks_exact(4) {
             if colors.insert((pixel[0], pixel[1], pixel[2], pixel[3])) && colors.len() > 256 {
                 // > 256 colours, let's use NeuQuant.
-                let nq = color_quant::NeuQuant::new(speed, 256, pixels);
+                // Transparent pixels have an index of their own, so that no opaque pixel can get it.
+                let nq = if transparent.is_none() {
+                    color_quant::NeuQuant::new(speed, 256, pixels)
+                } else {
+                    let opaque: Vec<u8> = pixels.chunks_exact(4).filter(|pix| pix[3] != 0).flatten().copied().collect();
+                    color_quant::NeuQuant::new(speed, 255, &opaque)
+                };
+                let mut palette = nq.color_map_rgb();
+                let transparent = transparent.map(|t| {
+                    palette.extend_from_slice(&t[..3]);
+                    255
+                });
+                let index_of = |pix: &[u8]| match transparent {
+                    Some(idx) if pix[3] == 0 => idx,
+                    _ => nq.index_of(pix) as u8,
+                };
 
                 return Frame {
                     width,
                     height,
-                    buffer: Cow::Owned(pixels.chunks_exact(4).map(|pix| nq.index_of(pix) as u8).collect()),
-                    palette: Some(nq.color_map_rgb()),
-                    transparent: transparent.map(|t| nq.index_of(&t) as u8),
+                    buffer: Cow::Owned(pixels.chunks_exact(4).map(index_of).collect()),
+                    palette: Some(palette),
+                    transparent,
                     ..Frame::default()
                 };
             }
-- 
2.43.0


From 2b7506e1494ca65e288956bbc73503bcf015cfa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:24 +0000
Subject: [PATCH 19/19] fix: the frame decoder finds missing end codes behind
 complete pixels

check_lzw_end_code only had an effect in FrameDecoder when the data was too
short for the frame, where it fails anyway.
---
 src/reader/decoder.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/reader/decoder.rs b/src/reader/decoder.rs
index ac12ae0..181e961 100644
--- a/src/reader/decoder.rs
+++ b/src/reader/decoder.rs
@@ -223,7 +223,7 @@ impl FrameDecoder {
         let (&min_code_size, mut data) = frame.buffer.split_first().unwrap_or((&2, &[]));
         self.lzw_reader.reset(min_code_size)?;
         let lzw_reader = &mut self.lzw_reader;
-        self.pixel_converter.read_into_buffer(frame, buf, &mut move |out| {
+        self.pixel_converter.read_into_buffer(frame, buf, &mut |out| {
             loop {
                 let (bytes_read, bytes_written) = lzw_reader.decode_bytes(data, out)?;
                 data = data.get(bytes_read..).unwrap_or_default();
@@ -232,6 +232,11 @@ impl FrameDecoder {
                 }
             }
         })?;
+        if self.lzw_reader.check_for_end_code {
+            // it may come behind the last pixel
+            self.lzw_reader.decode_bytes(data, &mut OutputBuffer::None)?;
+            self.lzw_reader.decode_bytes(&[], &mut OutputBuffer::None)?;
+        }
         Ok(())
     }
 
-- 
2.43.0

