From ae0f053e70721d96e909e482e7267bcbfb730b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:23 +0000
Subject: [PATCH 01/91] fix: LJPEG: report truncated data instead of panicking
 or making up samples

---
 src/decompress/bit_reader.rs | 78 +++++++++++++++++++++++++-----------
 src/decompress/ljpeg.rs      | 67 ++++++++++++++++---------------
 2 files changed, 89 insertions(+), 56 deletions(-)

diff --git a/src/decompress/bit_reader.rs b/src/decompress/bit_reader.rs
index 2862b05..f835089 100644
--- a/src/decompress/bit_reader.rs
+++ b/src/decompress/bit_reader.rs
@@ -146,6 +146,8 @@ pub(crate) struct LJpegBitReader<'a> {
     pos: usize,
     bits_left: u8,
     bits: u32,
+    /// How many of the last bits of the bit buffer are padding, not data.
+    padding: u8,
 }
 
 impl BitReader for LJpegBitReader<'_> {
@@ -169,21 +171,39 @@ impl<'a> LJpegBitReader<'a> {
             pos: 0,
             bits_left: 0,
             bits: 0,
+            padding: 0,
         }
     }
 
     /// Read a byte out of the buffer.
-    pub(crate) fn read_u8(&mut self) -> u8 {
-        let b = self.buffer[self.pos];
+    pub(crate) fn read_u8(&mut self) -> Result<u8> {
+        let b = *self.buffer.get(self.pos).ok_or_else(Self::end_of_data)?;
         self.pos += 1;
-        b
+        Ok(b)
     }
 
     /// Read an u16 from the bit reader. JPEG is always BigEndian.
-    pub(crate) fn read_u16(&mut self) -> u16 {
-        let b = BigEndian::read_u16(&self.buffer[self.pos..]);
+    pub(crate) fn read_u16(&mut self) -> Result<u16> {
+        let b = self
+            .buffer
+            .get(self.pos..)
+            .filter(|b| b.len() >= 2)
+            .map(BigEndian::read_u16)
+            .ok_or_else(Self::end_of_data)?;
         self.pos += 2;
-        b
+        Ok(b)
+    }
+
+    fn end_of_data() -> Error {
+        Error::JpegFormat("LJPEG: premature end of data".into())
+    }
+
+    /// Error if more bits have been consumed than the stream had.
+    pub(crate) fn check_overrun(&self) -> Result<()> {
+        if self.padding > self.bits_left {
+            return Err(Self::end_of_data());
+        }
+        Ok(())
     }
 
     /// Skip `seek` bytes.
@@ -195,32 +215,44 @@ impl<'a> LJpegBitReader<'a> {
     #[inline]
     pub(crate) fn discard(&mut self) {
         self.bits_left = 0;
+        self.padding = 0;
     }
 
     // Load up the bit buffer with at least nbits
     // Process any stuffed bytes at this time.
     fn fill_bit_buffer(&mut self, nbits: u8) -> Result<()> {
         while self.bits_left < MIN_GET_BITS {
-            let mut c = self.read_u8();
-            // If it's 0xFF, check and discard stuffed zero byte
-            if c == 0xff {
-                let c2 = self.read_u8();
-                if c2 != 0 {
-                    // Oops, it's actually a marker indicating end of
-                    // compressed data.  Better put it back for use later.
-                    self.pos -= 2;
-                    // There should be enough bits still left in the data
-                    // segment; if so, just break out of the while loop.
-                    if self.bits_left > nbits {
-                        break;
+            let mut next = self.buffer.get(self.pos).copied();
+            match next {
+                // If it's 0xFF, check and discard stuffed zero byte
+                Some(0xff) => {
+                    if self.buffer.get(self.pos + 1) == Some(&0) {
+                        self.pos += 2;
+                    } else {
+                        // Oops, it's actually a marker indicating end of
+                        // compressed data. Leave it for use later.
+                        next = None;
                     }
-                    // Uh-oh.  Corrupted data: stuff zeroes into the data
-                    // stream, since this sometimes occurs when we are on the
-                    // last show_bits(8) during decoding of the Huffman
-                    // segment.
-                    c = 0;
                 }
+                Some(_) => self.pos += 1,
+                None => {}
             }
+            let c = if let Some(c) = next {
+                c
+            } else {
+                // There should be enough bits still left in the data
+                // segment; if so, just break out of the while loop.
+                if self.bits_left >= nbits {
+                    break;
+                }
+                // Stuff zeroes into the data stream, since this occurs
+                // when we are on the last show_bits(8) during decoding of
+                // the Huffman segment. But if any of these have been consumed
+                // then the data ended too early.
+                self.check_overrun()?;
+                self.padding += 8;
+                0
+            };
             // OK, load c into getBuffer
             self.bits = (self.bits << 8) | c as u32;
             self.bits_left += 8;
diff --git a/src/decompress/ljpeg.rs b/src/decompress/ljpeg.rs
index 6120d52..bf4181c 100644
--- a/src/decompress/ljpeg.rs
+++ b/src/decompress/ljpeg.rs
@@ -281,8 +281,8 @@ impl LJpeg {
     fn read_file_header(&self, dc: &mut DecompressInfo, reader: &mut LJpegBitReader) -> Result<()> {
         // Demand an SOI marker at the start of the file --- otherwise it's
         // probably not a JPEG file at all.
-        let c = reader.read_u8();
-        let c2 = reader.read_u8();
+        let c = reader.read_u8()?;
+        let c2 = reader.read_u8()?;
         if c != 0xff || c2 != M_SOI {
             return Err(Error::Decompression(format!(
                 "LJPEG: Not a JPEG file. Marker is {c:x} {c2:x}"
@@ -499,7 +499,7 @@ impl LJpeg {
             std::mem::swap(&mut self.cur_row, &mut self.prev_row);
         }
 
-        Ok(())
+        reader.check_overrun()
     }
 
     /// Check for a restart marker & resynchronize decoder.
@@ -509,24 +509,25 @@ impl LJpeg {
         reader: &mut LJpegBitReader,
     ) -> Result<()> {
         // Throw away any unused bits remaining in bit buffer
+        reader.check_overrun()?;
         reader.discard();
 
         // Scan for next JPEG marker
         let mut c = 0;
         while c == 0 {
             // nbytes += 1;
-            c = reader.read_u8();
+            c = reader.read_u8()?;
             // skip any non-FF bytes
             while c != 0xff {
                 // nbytes += 1;
-                c = reader.read_u8();
+                c = reader.read_u8()?;
             }
 
-            c = reader.read_u8();
+            c = reader.read_u8()?;
             // skip any duplicate FFs
             while c == 0xff {
                 //  we don't increment nbytes here since extra FFs are legal
-                c = reader.read_u8();
+                c = reader.read_u8()?;
             }
         } // repeat if it was a stuffed FF/00
 
@@ -936,11 +937,11 @@ impl DecompressInfo {
     }
 
     fn get_sof(&mut self, reader: &mut LJpegBitReader) -> Result<()> {
-        let length = reader.read_u16();
-        self.data_precision = reader.read_u8();
-        self.image_height = reader.read_u16();
-        self.image_width = reader.read_u16();
-        self.num_components = reader.read_u8();
+        let length = reader.read_u16()?;
+        self.data_precision = reader.read_u8()?;
+        self.image_height = reader.read_u16()?;
+        self.image_width = reader.read_u16()?;
+        self.num_components = reader.read_u8()?;
 
         // We don't support files in which the image height is initially
         // specified as 0 and is later redefined by DNL.  As long as we
@@ -967,11 +968,11 @@ impl DecompressInfo {
         for ci in 0..self.num_components {
             let compptr = &mut self.comp_info[ci as usize];
             compptr.component_index = ci as u16;
-            compptr.component_id = reader.read_u8() as u16;
-            let c = reader.read_u8();
+            compptr.component_id = reader.read_u8()? as u16;
+            let c = reader.read_u8()?;
             compptr.h_samp_factor = ((c >> 4) & 15) as u16;
             compptr.v_samp_factor = (c & 15) as u16;
-            reader.read_u8(); // skip Tq
+            reader.read_u8()?; // skip Tq
         }
 
         Ok(())
@@ -979,9 +980,9 @@ impl DecompressInfo {
 
     fn get_dht(&mut self, reader: &mut LJpegBitReader) -> Result<()> {
         // length as a signed i32 is safer
-        let mut length = reader.read_u16() as i32 - 2;
+        let mut length = reader.read_u16()? as i32 - 2;
         while length > 0 {
-            let index = reader.read_u8();
+            let index = reader.read_u8()?;
 
             if index >= 4 {
                 return Err(Error::JpegFormat(format!("LJPEG: Bogus DHT index {index}")));
@@ -994,7 +995,7 @@ impl DecompressInfo {
             htblptr.bits[0] = 0;
             let mut count = 0_u16;
             for i in 1..=16 {
-                let b = reader.read_u8();
+                let b = reader.read_u8()?;
                 htblptr.bits[i] = b;
                 count += b as u16;
             }
@@ -1003,7 +1004,7 @@ impl DecompressInfo {
                 return Err(Error::JpegFormat("LJPEG: Bogus DHT counts".into()));
             }
             for i in 0_usize..count as usize {
-                htblptr.huffval[i] = reader.read_u8();
+                htblptr.huffval[i] = reader.read_u8()?;
             }
             length -= 1 + 16 + count as i32;
         }
@@ -1011,7 +1012,7 @@ impl DecompressInfo {
     }
 
     fn skip_variable(&self, reader: &mut LJpegBitReader) -> Result<()> {
-        let length = reader.read_u16();
+        let length = reader.read_u16()?;
         if length < 2 {
             return Err(Error::JpegFormat("LJPEG: invalid variable length".into()));
         }
@@ -1026,14 +1027,14 @@ impl DecompressInfo {
 
         loop {
             // skip any non-FF bytes
-            c = reader.read_u8();
+            c = reader.read_u8()?;
             while c != 0xff {
-                c = reader.read_u8();
+                c = reader.read_u8()?;
             }
 
-            c = reader.read_u8();
+            c = reader.read_u8()?;
             while c == 0xff {
-                c = reader.read_u8();
+                c = reader.read_u8()?;
             }
             if c != 0 {
                 break;
@@ -1044,16 +1045,16 @@ impl DecompressInfo {
     }
 
     fn get_dri(&mut self, reader: &mut LJpegBitReader) -> Result<()> {
-        if reader.read_u16() != 4 {
+        if reader.read_u16()? != 4 {
             return Err(Error::JpegFormat("LJPEG: Invalid DRI length.".into()));
         }
-        self.restart_interval = reader.read_u16();
+        self.restart_interval = reader.read_u16()?;
         Ok(())
     }
 
     /// Process APP0 marker.
     fn get_app0(&self, reader: &mut LJpegBitReader) -> Result<()> {
-        let length = reader.read_u16();
+        let length = reader.read_u16()?;
         if length < 2 {
             return Err(Error::JpegFormat("LJPEG: Invalid APP0 length.".into()));
         }
@@ -1063,12 +1064,12 @@ impl DecompressInfo {
     }
 
     fn get_sos(&mut self, reader: &mut LJpegBitReader) -> Result<()> {
-        let mut length = reader.read_u16();
+        let mut length = reader.read_u16()?;
         if length < 3 {
             return Err(Error::JpegFormat("LJPEG: invalid SOS length".into()));
         }
 
-        let n = reader.read_u8();
+        let n = reader.read_u8()?;
         self.comps_in_scan = n as u16;
         length -= 3;
 
@@ -1077,8 +1078,8 @@ impl DecompressInfo {
         }
 
         for i in 0..n {
-            let cc = reader.read_u8() as u16;
-            let c = reader.read_u8();
+            let cc = reader.read_u8()? as u16;
+            let c = reader.read_u8()?;
             length -= 2;
 
             let mut ci = 0;
@@ -1100,9 +1101,9 @@ impl DecompressInfo {
             self.cur_comp_info[i as usize] = compptr.clone();
         }
 
-        self.ss = reader.read_u8();
+        self.ss = reader.read_u8()?;
         reader.skip(1);
-        let c = reader.read_u8();
+        let c = reader.read_u8()?;
         self.pt = c & 0x0f;
 
         Ok(())
-- 
2.43.0


From 5001438a911c79d79b49bd404047a051eb4023d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:50 +0000
Subject: [PATCH 02/91] fix: don't consume bits that couldn't be read

---
 src/decompress/bit_reader.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/decompress/bit_reader.rs b/src/decompress/bit_reader.rs
index f835089..f627ad9 100644
--- a/src/decompress/bit_reader.rs
+++ b/src/decompress/bit_reader.rs
@@ -44,10 +44,10 @@ pub(crate) trait BitReader {
                 "BitReader: Tried to request {nbits} bits (max 16)."
             )));
         }
-        let value = self.peek(nbits);
+        let value = self.peek(nbits)?;
         self.consume(nbits);
 
-        value
+        Ok(value)
     }
 
     #[inline]
-- 
2.43.0


From 6f038624f445d8d2fbc3d66756ae0f06ad1287bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:50 +0000
Subject: [PATCH 03/91] fix: LJPEG: the difference category 16 has no
 additional bits

---
 src/decompress/ljpeg.rs | 35 +++++++++++++++--------------------
 1 file changed, 15 insertions(+), 20 deletions(-)

diff --git a/src/decompress/ljpeg.rs b/src/decompress/ljpeg.rs
index bf4181c..a50cb2f 100644
--- a/src/decompress/ljpeg.rs
+++ b/src/decompress/ljpeg.rs
@@ -446,11 +446,7 @@ impl LJpeg {
                 if let Some(dctbl) = &dc.dc_huff_tbl_ptrs[compptr.dc_tbl_no as usize] {
                     // Section F.2.2.1: decode the difference
                     let s = self.huff_decode(dctbl, reader)? as u8;
-                    let d = if s != 0 {
-                        extend(reader.get_bits(s)?, s)
-                    } else {
-                        0
-                    };
+                    let d = Self::read_difference(reader, s)?;
                     self.mcu_row[self.cur_row][0][cur_comp] =
                         (d + self.mcu_row[self.prev_row][0][cur_comp] as i32) as u16;
                 } else {
@@ -470,11 +466,7 @@ impl LJpeg {
                     if let Some(dctbl) = &dc.dc_huff_tbl_ptrs[compptr.dc_tbl_no as usize] {
                         // Section F.2.2.1: decode the difference
                         let s = self.huff_decode(dctbl, reader)? as u8;
-                        let d = if s != 0 {
-                            extend(reader.get_bits(s)?, s)
-                        } else {
-                            0
-                        };
+                        let d = Self::read_difference(reader, s)?;
                         let predictor = self.quick_predict(
                             col as i32,
                             cur_comp as i16,
@@ -567,11 +559,7 @@ impl LJpeg {
             if let Some(dctbl) = &dc.dc_huff_tbl_ptrs[compptr.dc_tbl_no as usize] {
                 // Section F.2.2.1: decode the difference
                 let s = self.huff_decode(dctbl, reader)? as u8;
-                let d = if s != 0 {
-                    extend(reader.get_bits(s)?, s)
-                } else {
-                    0
-                };
+                let d = Self::read_difference(reader, s)?;
 
                 // Add the predictor to the difference.
                 let cur_row_buf = &mut self.mcu_row[self.cur_row];
@@ -592,11 +580,7 @@ impl LJpeg {
                 if let Some(dctbl) = &dc.dc_huff_tbl_ptrs[compptr.dc_tbl_no as usize] {
                     // Section F.2.2.1: decode the difference
                     let s = self.huff_decode(dctbl, reader)? as u8;
-                    let d = if s != 0 {
-                        extend(reader.get_bits(s)?, s)
-                    } else {
-                        0
-                    };
+                    let d = Self::read_difference(reader, s)?;
                     // Add the predictor to the difference.
                     let cur_row_buf = &mut self.mcu_row[self.cur_row];
                     cur_row_buf[col as usize][cur_comp as usize] =
@@ -614,6 +598,17 @@ impl LJpeg {
         Ok(())
     }
 
+    /// Read the difference for category `s`, see Table H.2.
+    #[inline]
+    fn read_difference(reader: &mut LJpegBitReader, s: u8) -> Result<i32> {
+        match s {
+            0 => Ok(0),
+            // There are no additional bits.
+            16 => Ok(32768),
+            _ => Ok(extend(reader.get_bits(s)?, s)),
+        }
+    }
+
     // Taken from Figure F.16: extract next coded symbol from
     // input stream.
     fn huff_decode(&mut self, htbl: &HuffmanTable, reader: &mut LJpegBitReader) -> Result<u16> {
-- 
2.43.0


From a5af85c1faf8f4abb2f6b2096cce71c26a98d363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:37 +0000
Subject: [PATCH 04/91] fix: LJPEG: report malformed streams instead of making
 up samples

---
 src/decompress/ljpeg.rs | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/decompress/ljpeg.rs b/src/decompress/ljpeg.rs
index a50cb2f..5b37c69 100644
--- a/src/decompress/ljpeg.rs
+++ b/src/decompress/ljpeg.rs
@@ -174,7 +174,9 @@ impl LJpeg {
 
         let mut bit_reader = LJpegBitReader::new(buffer);
         self.read_file_header(&mut dc_info, &mut bit_reader)?;
-        self.read_scan_header(&mut dc_info, &mut bit_reader)?;
+        if !self.read_scan_header(&mut dc_info, &mut bit_reader)? {
+            return Err(Error::JpegFormat("LJPEG: no scan found".into()));
+        }
 
         if dc_info.image_width == 0 || dc_info.image_height == 0 {
             return Err(Error::JpegFormat(format!(
@@ -188,6 +190,17 @@ impl LJpeg {
                 dc_info.num_components
             )));
         }
+        if dc_info.comps_in_scan != dc_info.num_components as u16 {
+            return Err(Error::JpegFormat(
+                "LJPEG: non interleaved scans are not supported".into(),
+            ));
+        }
+        if dc_info.ss > 7 {
+            return Err(Error::JpegFormat(format!(
+                "LJPEG: undefined predictor {}",
+                dc_info.ss
+            )));
+        }
         let bpc = dc_info.data_precision;
         let mut output: SlicedBuffer<ComponentType> = SlicedBuffer::new(
             dc_info.image_width as u32 * dc_info.num_components as u32,
@@ -385,6 +398,11 @@ impl LJpeg {
         }
 
         // Initialize restart stuff
+        if dc.restart_interval % dc.image_width != 0 {
+            return Err(Error::JpegFormat(
+                "LJPEG: restart interval isn't a number of rows".into(),
+            ));
+        }
         dc.restart_in_rows = dc.restart_interval as u32 / dc.image_width as u32;
         dc.restart_rows_to_go = dc.restart_in_rows;
         dc.next_restart_num = 0;
@@ -631,8 +649,7 @@ impl LJpeg {
 
             // With garbage input we may reach the sentinel value l = 17.
             if l > 16 {
-                // log::warn!("Corrupt JPEG data: bad huffman code")
-                rv = 0;
+                return Err(Error::JpegFormat("LJPEG: bad Huffman code".into()));
             } else {
                 rv = htbl.huffval[((htbl.valptr[l] as i32) + (code - htbl.mincode[l])) as usize]
                     as u16;
@@ -768,6 +785,10 @@ impl HuffmanTable {
                     return Err(Error::JpegFormat("LJPEG: Huffman code overflow".into()));
                 }
             }
+            // The codes of this size must not use more than `si` bits.
+            if code > (1_u32 << si) {
+                return Err(Error::JpegFormat("LJPEG: Huffman code overflow".into()));
+            }
             code <<= 1;
             si += 1;
         }
-- 
2.43.0


From 0e47ab1bbf2423c0382b2811a7b8ed87db4cc930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:39 +0000
Subject: [PATCH 05/91] fix: LJPEG: slices cut the image, and must match it

---
 src/canon/cr2.rs                |  2 +-
 src/decompress/ljpeg.rs         | 38 +++++++++++++++++++++++----------
 src/decompress/sliced_buffer.rs |  4 ----
 3 files changed, 28 insertions(+), 16 deletions(-)

diff --git a/src/canon/cr2.rs b/src/canon/cr2.rs
index 947b49f..d8249d7 100644
--- a/src/canon/cr2.rs
+++ b/src/canon/cr2.rs
@@ -105,7 +105,7 @@ impl Cr2File {
             let mut decompressor = decompress::LJpeg::new(true);
             // in fact on Canon CR2 files slices either do not exists
             // or is 3.
-            if slices.len() > 1 {
+            if slices.len() > 2 {
                 probe!(self.probe, "cr2.slices", "true");
                 decompressor.set_slices(slices);
             }
diff --git a/src/decompress/ljpeg.rs b/src/decompress/ljpeg.rs
index 5b37c69..0441df3 100644
--- a/src/decompress/ljpeg.rs
+++ b/src/decompress/ljpeg.rs
@@ -202,16 +202,11 @@ impl LJpeg {
             )));
         }
         let bpc = dc_info.data_precision;
-        let mut output: SlicedBuffer<ComponentType> = SlicedBuffer::new(
-            dc_info.image_width as u32 * dc_info.num_components as u32,
-            dc_info.image_height as u32,
-            self.slices.clone().as_deref(),
-        );
-        output.reserve(
-            dc_info.image_width as usize
-                * dc_info.image_height as usize
-                * dc_info.num_components as usize,
-        );
+        let samples_per_row = dc_info.image_width as u32 * dc_info.num_components as u32;
+        // A sample can't use less than a bit.
+        if samples_per_row as usize * dc_info.image_height as usize > buffer.len() * 8 {
+            return Err(Error::JpegFormat("LJPEG: not enough data".into()));
+        }
         log::debug!(
             "dc width = {} dc height = {}",
             dc_info.image_width,
@@ -228,7 +223,11 @@ impl LJpeg {
             // Some CR2 files have 4 components so we need to double the height.
             // Includes 6DMkII.
             // The 7D has proper width and height. We check against the slices.
-            let slice_width: u32 = self.slices.as_ref().map(|s| s.iter().sum()).unwrap_or(0);
+            let slice_width: u32 = self
+                .slices
+                .as_ref()
+                .map(|s| s.iter().fold(0_u32, |sum, w| sum.saturating_add(*w)))
+                .unwrap_or(0);
             if self.is_raw && dc_info.num_components == 4 {
                 if slice_width != 0
                     && (dc_info.image_width as u32 * dc_info.num_components as u32) == slice_width
@@ -250,6 +249,23 @@ impl LJpeg {
                 )
             }
         };
+        // The slices cut the image, not the JPEG rows.
+        let (buf_width, buf_height) = if tiled {
+            (samples_per_row, dc_info.image_height as u32)
+        } else {
+            (width, height)
+        };
+        // A single slice is no slice at all.
+        if let Some(slices) = self.slices.as_ref().filter(|s| s.len() > 1) {
+            let slice_width = slices.iter().map(|w| *w as u64).sum::<u64>();
+            if slice_width != buf_width as u64 || slices.contains(&0) {
+                return Err(Error::Decompression(format!(
+                    "LJPEG: slices for a width of {slice_width}, image is {buf_width}"
+                )));
+            }
+        }
+        let mut output: SlicedBuffer<ComponentType> =
+            SlicedBuffer::new(buf_width, buf_height, self.slices.as_deref());
         // XXX RawImage::set_slices?
         self.decoder_struct_init(&mut dc_info)?;
         self.huff_decoder_init(&mut dc_info, &mut bit_reader)?;
diff --git a/src/decompress/sliced_buffer.rs b/src/decompress/sliced_buffer.rs
index c4cf5cb..16e4f0a 100644
--- a/src/decompress/sliced_buffer.rs
+++ b/src/decompress/sliced_buffer.rs
@@ -80,10 +80,6 @@ impl<T: Copy + Default> SlicedBuffer<T> {
         }
     }
 
-    pub fn reserve(&mut self, reserve_size: usize) {
-        self.buffer.reserve(reserve_size)
-    }
-
     /// Move to next slice
     fn next_slice(&mut self) {
         if self.slices.len() > self.slice {
-- 
2.43.0


From 8c79dcb661d0233b1c97286589684cafbac89ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:30 +0000
Subject: [PATCH 06/91] Add a guarded hook (cfg orv_hooks) to use custom I/O

---
 src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 875628d..73bd2a2 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -21,6 +21,8 @@
 
 //!#[deny(broken_intra_doc_links)]
 //!#[warn(missing_docs)]
+// The `orv_hooks` cfg guards the verification hooks.
+#![allow(unexpected_cfgs)]
 
 // For mp4::parse
 #[macro_use]
@@ -85,6 +87,9 @@ pub use geometry::{AspectRatio, Point, Rect, Size};
 pub use mosaic::Pattern as CfaPattern;
 #[cfg(feature = "probe")]
 pub use probe::Probe;
+// Verification hook: let a harness implement its own I/O.
+#[cfg(orv_hooks)]
+pub use rawfile::ReadAndSeek;
 pub use rawfile::{RawFile, RawFileHandle, RawFileImpl};
 pub use rawimage::RawImage;
 pub use render::{RenderingOptions, RenderingStage};
-- 
2.43.0


From eb535b1251c7c2600adbc97707b000d46ff25635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:50 +0000
Subject: [PATCH 07/91] fix: the C type id of the L2D-20c matches the one the
 library returns

---
 include/libopenraw/cameraids.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libopenraw/cameraids.h b/include/libopenraw/cameraids.h
index bc83974..c93720f 100644
--- a/include/libopenraw/cameraids.h
+++ b/include/libopenraw/cameraids.h
@@ -937,7 +937,7 @@ enum _OR_TYPEID_VENDOR_HASSELBLAD {
     OR_TYPEID_HASSELBLAD_UNKNOWN = 0,
     OR_TYPEID_HASSELBLAD_LUNAR = 1,
     OR_TYPEID_HASSELBLAD_L1D_20C = 2,
-    OR_TYPEID_HASSELBLAD_L2D_20C = 2,
+    OR_TYPEID_HASSELBLAD_L2D_20C = 3,
 
     _OR_TYPEID_HASSELBLAD_LAST
 };
-- 
2.43.0


From e78610e8b73393c51e6ab617aeeafda8cc035bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:34 +0000
Subject: [PATCH 08/91] fix: DNG: ActiveArea is top, left, bottom, right

---
 src/dng.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/dng.rs b/src/dng.rs
index f9103b0..32b21e0 100644
--- a/src/dng.rs
+++ b/src/dng.rs
@@ -357,11 +357,14 @@ impl RawFileImpl for DngFile {
                             .and_then(|e| e.uint_value_array(container.endian()))
                             // check the size of the array. Should be 4
                             .and_then(|a| if a.len() >= 4 { Some(a) } else { None })
-                            .map(|a| Rect {
-                                x: a[1],
-                                y: a[0],
-                                height: a[2],
-                                width: a[3],
+                            // top, left, bottom, right
+                            .and_then(|a| {
+                                Some(Rect {
+                                    x: a[1],
+                                    y: a[0],
+                                    height: a[2].checked_sub(a[0])?,
+                                    width: a[3].checked_sub(a[1])?,
+                                })
                             })
                             .or_else(|| {
                                 Some(Rect {
-- 
2.43.0


From b5e33a7276cb13aa7c9680da8b6a9c93547cbb36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:31 +0000
Subject: [PATCH 09/91] fix: unpack rows with an incomplete last group, refuse
 short packed data

---
 src/decompress.rs | 39 +++++++++++++++++++++++++++++++--------
 1 file changed, 31 insertions(+), 8 deletions(-)

diff --git a/src/decompress.rs b/src/decompress.rs
index b13acdb..0b8e079 100644
--- a/src/decompress.rs
+++ b/src/decompress.rs
@@ -96,7 +96,9 @@ pub(crate) fn unpack_be12to16(
             "be12to16 incorrect padding for {compression:?}.",
         )));
     }
-    if (rest % 3) != 0 {
+    // Without padding there might be a last odd value.
+    let odd = pad == 0 && (rest % 3) == 2;
+    if !odd && (rest % 3) != 0 {
         log::error!("be12to16 incorrect rest for {:?}.", compression);
         return Err(Error::Decompression(format!(
             "be12to16 incorrect rest for {compression:?}.",
@@ -124,6 +126,11 @@ pub(crate) fn unpack_be12to16(
         }
         src += pad;
     }
+    if odd {
+        src = input.len() - 2;
+        out_data.push(((input[src] as u16) << 4) | (input[src + 1] as u16 >> 4));
+        written += 1;
+    }
     Ok(written)
 }
 
@@ -152,7 +159,9 @@ pub(crate) fn unpack_le12to16(
             "le12to16 incorrect padding for {compression:?}.",
         )));
     }
-    if (rest % 3) != 0 {
+    // Without padding there might be a last odd value.
+    let odd = pad == 0 && (rest % 3) == 2;
+    if !odd && (rest % 3) != 0 {
         log::error!("le12to16 incorrect rest for {:?}.", compression);
         return Err(Error::Decompression(format!(
             "le12to16 incorrect rest for {compression:?}.",
@@ -179,6 +188,11 @@ pub(crate) fn unpack_le12to16(
         }
         src += pad;
     }
+    if odd {
+        src = input.len() - 2;
+        out_data.push(((input[src + 1] as u16 & 0xf) << 8) | input[src] as u16);
+        written += 1;
+    }
     Ok(written)
 }
 
@@ -224,19 +238,20 @@ pub(crate) fn unpack_from_reader(
         height,
         compression
     );
+    // Rows are padded to a byte boundary.
+    let row_size = (width as usize * bpc as usize).div_ceil(8);
     let block_size: usize = match bpc {
-        10 => (width / 4 * 5) as usize,
+        10 | 14 => row_size,
         12 => {
             if compression == tiff::Compression::NikonPack
                 || compression == tiff::Compression::Olympus
                 || compression == tiff::Compression::PanasonicRaw1
             {
-                ((width / 2 * 3) + width / 10) as usize
+                row_size + (width / 10) as usize
             } else {
-                (width / 2 * 3) as usize
+                row_size
             }
         }
-        14 => (width / 4 * 7) as usize,
         _ => {
             log::warn!("Invalid BPC {}", bpc);
             return Err(Error::InvalidFormat);
@@ -249,8 +264,16 @@ pub(crate) fn unpack_from_reader(
     let mut fetched = 0_usize;
     let mut written = 0_usize;
 
-    let byte_len = std::cmp::min(byte_len, block_size * height as usize);
-    while fetched < byte_len {
+    let full_len = block_size
+        .checked_mul(height as usize)
+        .ok_or(Error::FormatError)?;
+    if byte_len < full_len {
+        log::error!("Not enough data to unpack: {byte_len} < {full_len}");
+        return Err(Error::Decompression(format!(
+            "Not enough data to unpack: {byte_len} < {full_len}"
+        )));
+    }
+    while fetched < full_len {
         reader.read_exact(block.as_mut_slice())?;
         fetched += block.len();
         match bpc {
-- 
2.43.0


From 2bf544fbb77d6cfe623563983580fa3451a39577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:29 +0000
Subject: [PATCH 10/91] fix: TIFF: gather the strips of the raw data wherever
 they are

---
 src/tiff.rs | 80 ++++++++++++++++++++++++++++++++++++++---------------
 1 file changed, 57 insertions(+), 23 deletions(-)

diff --git a/src/tiff.rs b/src/tiff.rs
index cb08f9d..68210a8 100644
--- a/src/tiff.rs
+++ b/src/tiff.rs
@@ -198,6 +198,14 @@ fn get_mosaic_info(dir: &Dir) -> Option<Pattern> {
         })
 }
 
+/// Get an array of LONG or SHORT.
+fn uint_array(dir: &Dir, tag: u16) -> Option<Vec<u32>> {
+    dir.entry(tag).and_then(|e| {
+        e.value_array::<u32>(dir.endian())
+            .or_else(|| e.uint_value_array(dir.endian()))
+    })
+}
+
 /// Get the raw data
 pub(crate) fn tiff_get_rawdata(
     container: &Container,
@@ -214,7 +222,7 @@ pub(crate) fn tiff_get_rawdata_with_endian(
     file_type: Type,
     endian: Endian,
 ) -> Result<RawImage> {
-    let mut offset = 0_u32;
+    let mut strips: Vec<(u64, u64)> = vec![];
 
     let mut bpc = dir
         .value::<u16>(exif::EXIF_TAG_BITS_PER_SAMPLE)
@@ -227,19 +235,19 @@ pub(crate) fn tiff_get_rawdata_with_endian(
     let mut tile_bytes: Option<Vec<u32>> = None;
     let mut tile_offsets: Option<Vec<u32>> = None;
     let mut tile_size: Option<(u32, u32)> = None;
-    let byte_len = dir
-        .value::<u32>(exif::EXIF_TAG_STRIP_OFFSETS)
-        .and_then(|v| {
-            offset = v;
-            let entry = dir.entry(exif::EXIF_TAG_STRIP_BYTE_COUNTS).or_else(|| {
+    let byte_len = uint_array(dir, exif::EXIF_TAG_STRIP_OFFSETS)
+        .filter(|offsets| !offsets.is_empty())
+        .and_then(|offsets| {
+            let counts = uint_array(dir, exif::EXIF_TAG_STRIP_BYTE_COUNTS).or_else(|| {
                 log::debug!("byte len not found");
                 // XXX this might trigger the or_else below
                 None
             })?;
+            strips = std::iter::zip(offsets.iter(), counts.iter())
+                .map(|(offset, len)| (*offset as u64, *len as u64))
+                .collect();
             // In case of overflow, we'll return None
-            entry
-                .value_array::<u32>(dir.endian())
-                .map(|a| a.iter().try_fold(0_u32, |sum, &x| sum.checked_add(x)))?
+            counts.iter().try_fold(0_u32, |sum, &x| sum.checked_add(x))
         })
         .or_else(|| {
             tile_bytes = dir
@@ -345,6 +353,17 @@ pub(crate) fn tiff_get_rawdata_with_endian(
         log::debug!("setting bpc from {} to 16", bpc);
         bpc = 16;
     }
+    let offset = strips.first().map(|s| s.0).unwrap_or(0);
+    // Strips don't have to follow each other.
+    let gathered = if strips.windows(2).all(|s| s[0].0 + s[0].1 == s[1].0) {
+        None
+    } else {
+        let mut data = vec![];
+        for (offset, len) in &strips {
+            data.append(&mut container.load_buffer8(*offset, *len));
+        }
+        Some(data)
+    };
     let mut rawdata = if data_type == DataType::CompressedRaw {
         if tile_bytes.is_some() && tile_offsets.is_some() {
             let tile_bytes = tile_bytes.as_ref().unwrap();
@@ -374,7 +393,8 @@ pub(crate) fn tiff_get_rawdata_with_endian(
                 mosaic_pattern.unwrap_or_default(),
             )
         } else {
-            let data = container.load_buffer8(offset as u64, byte_len as u64);
+            let data =
+                gathered.unwrap_or_else(|| container.load_buffer8(offset, byte_len as u64));
             RawImage::with_data8(
                 x,
                 y,
@@ -385,10 +405,12 @@ pub(crate) fn tiff_get_rawdata_with_endian(
             )
         }
     } else if bpc == 16 {
-        let data = if endian == Endian::Big {
-            container.load_buffer16_be(offset as u64, byte_len as u64)
+        let data = if let Some(data) = gathered {
+            data.chunks_exact(2).map(|v| endian.read_u16(v)).collect()
+        } else if endian == Endian::Big {
+            container.load_buffer16_be(offset, byte_len as u64)
         } else {
-            container.load_buffer16_le(offset as u64, byte_len as u64)
+            container.load_buffer16_le(offset, byte_len as u64)
         };
         RawImage::with_data16(
             x,
@@ -399,15 +421,27 @@ pub(crate) fn tiff_get_rawdata_with_endian(
             mosaic_pattern.unwrap_or_default(),
         )
     } else if bpc == 10 || bpc == 12 || bpc == 14 {
-        let data = decompress::unpack(
-            container,
-            x,
-            y,
-            bpc,
-            compression,
-            offset as u64,
-            byte_len as usize,
-        )?;
+        let data = if let Some(data) = gathered {
+            decompress::unpack_from_reader(
+                &mut data.as_slice(),
+                x,
+                y,
+                bpc,
+                compression,
+                data.len(),
+                container.endian(),
+            )?
+        } else {
+            decompress::unpack(
+                container,
+                x,
+                y,
+                bpc,
+                compression,
+                offset,
+                byte_len as usize,
+            )?
+        };
         RawImage::with_data16(
             x,
             y,
@@ -417,7 +451,7 @@ pub(crate) fn tiff_get_rawdata_with_endian(
             mosaic_pattern.unwrap_or_default(),
         )
     } else if bpc == 8 {
-        let data = container.load_buffer8(offset as u64, byte_len as u64);
+        let data = gathered.unwrap_or_else(|| container.load_buffer8(offset, byte_len as u64));
         // XXX is this efficient?
         RawImage::with_data16(
             x,
-- 
2.43.0


From a8da8d75e9c5eef6c042b2caac7e77fa43639a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:29 +0000
Subject: [PATCH 11/91] fix: TIFF: default white level for 32 bits per sample

---
 src/tiff.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/tiff.rs b/src/tiff.rs
index 68210a8..61b1d50 100644
--- a/src/tiff.rs
+++ b/src/tiff.rs
@@ -475,8 +475,12 @@ pub(crate) fn tiff_get_rawdata_with_endian(
     });
     rawdata.set_photometric_interpretation(photom_int);
     if rawdata.whites()[0] == 0 {
-        let white: u32 = (1_u32 << actual_bpc) - 1;
-        rawdata.set_whites([white as u16; 4]);
+        let white = if actual_bpc < 16 {
+            (1_u16 << actual_bpc) - 1
+        } else {
+            u16::MAX
+        };
+        rawdata.set_whites([white; 4]);
     }
 
     Ok(rawdata)
-- 
2.43.0


From 5d62030e51a955403c17be8df4c6194d15a9df21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:15 +0000
Subject: [PATCH 12/91] fix: don't expose uninitialised memory when reading a
 buffer fails

---
 src/container.rs | 68 +++++++++++++++++++++++++++---------------------
 1 file changed, 39 insertions(+), 29 deletions(-)

diff --git a/src/container.rs b/src/container.rs
index 31cee69..9537161 100644
--- a/src/container.rs
+++ b/src/container.rs
@@ -113,7 +113,11 @@ pub trait RawContainer {
             Data::Offset(ref offset) => {
                 let mut view = self.borrow_view_mut();
                 let mut len = offset.len;
-                if offset.offset + len > view.len() {
+                let available = view
+                    .len()
+                    .checked_sub(offset.offset)
+                    .ok_or(crate::Error::FormatError)?;
+                if len > available {
                     // Ricoh GXR A16 have a thumbnail size that goes past EOF
                     // Just readjust the size to go to the end and load that.
                     // It seems to work. Worst case scenario it still doesn't.
@@ -122,9 +126,9 @@ pub trait RawContainer {
                         offset,
                         view.len()
                     );
-                    len = view.len() - offset.offset;
+                    len = available;
                 }
-                let mut data = uninit_vec!(len as usize);
+                let mut data = vec![0; len as usize];
                 view.seek(SeekFrom::Start(offset.offset))?;
                 view.read_exact(data.as_mut_slice())?;
                 data
@@ -142,23 +146,10 @@ pub trait RawContainer {
     fn borrow_view_mut(&self) -> RefMut<'_, View>;
 
     /// Load an 8bit buffer at `offset` and of `len` bytes.
+    /// The buffer is shorter if the data can't be read.
     fn load_buffer8(&self, offset: u64, len: u64) -> Vec<u8> {
-        let mut data = uninit_vec!(len as usize);
-
         let mut view = self.borrow_view_mut();
-        if view.seek(SeekFrom::Start(offset)).is_err() {
-            log::error!("load_buffer8: Seek failed");
-        }
-        if let Ok(n) = view.read(data.as_mut_slice()) {
-            if n < len as usize {
-                log::debug!("Short read {} < {}", n, len);
-                data.resize(n, 0);
-            }
-        } else {
-            log::error!("load_buffer8: read failed");
-        }
-
-        data
+        load_bytes(&mut view, offset, len)
     }
 
     /// Load an 16 bit buffer at `offset` and of `len` bytes in the native endian.
@@ -180,20 +171,39 @@ pub trait RawContainer {
     }
 }
 
-/// Load an 16 bit buffer at `offset` and of `len` bytes following endian `E`.
-fn load_buffer16_endian<E>(view: &mut View, offset: u64, len: u64) -> Vec<u16>
-where
-    E: ByteOrder,
-{
-    let mut data = uninit_vec!((len / 2) as usize);
-
+/// Load up to `len` bytes at `offset`. If they can't be all read, only those
+/// that could are returned.
+fn load_bytes(view: &mut View, offset: u64, len: u64) -> Vec<u8> {
+    let mut data = vec![];
+    if offset > view.len() {
+        log::error!("load_bytes: offset {offset} past EOF");
+        return data;
+    }
     if let Err(err) = view.seek(SeekFrom::Start(offset)) {
-        log::error!("load_buffer16: Seek failed: {err}");
+        log::error!("load_bytes: Seek failed: {err}");
+        return data;
     }
-
-    if let Err(err) = view.read_u16_into::<E>(&mut data) {
-        log::error!("load_buffer16: {err}");
+    data.reserve_exact(std::cmp::min(len, view.len() - offset) as usize);
+    match view.take(len).read_to_end(&mut data) {
+        Ok(n) => {
+            if (n as u64) < len {
+                log::debug!("Short read {} < {}", n, len);
+            }
+        }
+        Err(err) => log::error!("load_bytes: read failed: {err}"),
     }
 
     data
 }
+
+/// Load an 16 bit buffer at `offset` and of `len` bytes following endian `E`.
+/// The buffer is shorter if the data can't be read.
+fn load_buffer16_endian<E>(view: &mut View, offset: u64, len: u64) -> Vec<u16>
+where
+    E: ByteOrder,
+{
+    load_bytes(view, offset, len)
+        .chunks_exact(2)
+        .map(E::read_u16)
+        .collect()
+}
-- 
2.43.0


From 424f7181343f167cecdf70fb3495e613a6f67600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:44 +0000
Subject: [PATCH 13/91] fix: TIFF: never read past the data of an entry

---
 src/metadata.rs       |   4 +-
 src/tiff.rs           |   5 +-
 src/tiff/container.rs |  18 +++-
 src/tiff/dir.rs       |  12 ++-
 src/tiff/entry.rs     | 245 +++++++++++++++++-------------------------
 src/tiff/iterator.rs  |  34 +++---
 6 files changed, 142 insertions(+), 176 deletions(-)

diff --git a/src/metadata.rs b/src/metadata.rs
index 0f66cd1..f6487dd 100644
--- a/src/metadata.rs
+++ b/src/metadata.rs
@@ -118,14 +118,14 @@ impl Value {
 
     pub fn integer(&self) -> Option<u32> {
         match self {
-            Self::Int(i) => Some(i[0]),
+            Self::Int(i) => i.first().copied(),
             _ => None,
         }
     }
 
     pub fn rational(&self) -> Option<exif::Rational> {
         match self {
-            Self::Rational(r) => Some(r[0]),
+            Self::Rational(r) => r.first().copied(),
             _ => None,
         }
     }
diff --git a/src/tiff.rs b/src/tiff.rs
index 61b1d50..53920eb 100644
--- a/src/tiff.rs
+++ b/src/tiff.rs
@@ -39,7 +39,7 @@ use crate::jpeg;
 use crate::mosaic::Pattern;
 use crate::thumbnail;
 use crate::{DataType, Error, RawImage, Result, Type, TypeId};
-pub(crate) use container::{Container, DirIterator, LoaderFixup};
+pub(crate) use container::{Container, DirIterator, LoaderFixup, MAX_DIRS};
 pub(crate) use dir::Dir;
 pub(crate) use entry::Entry;
 pub(crate) use exif::TagType;
@@ -178,6 +178,7 @@ fn convert_new_cfa_pattern(entry: &Entry) -> Option<Pattern> {
         return None;
     }
     let data = entry.data();
+    let pattern = data.get(4..=7)?;
 
     let h = data[0];
     let v = data[1];
@@ -186,7 +187,7 @@ fn convert_new_cfa_pattern(entry: &Entry) -> Option<Pattern> {
         return None;
     }
 
-    Pattern::try_from(&data[4..=7]).ok()
+    Pattern::try_from(pattern).ok()
 }
 
 fn get_mosaic_info(dir: &Dir) -> Option<Pattern> {
diff --git a/src/tiff/container.rs b/src/tiff/container.rs
index 12e88c7..244d907 100644
--- a/src/tiff/container.rs
+++ b/src/tiff/container.rs
@@ -22,7 +22,7 @@
 //! The IFD Container. Contains the IFD `Dir`
 
 use std::cell::{RefCell, RefMut};
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 use std::io::{Read, Seek, SeekFrom};
 
 use byteorder::{BigEndian, LittleEndian, ReadBytesExt};
@@ -41,6 +41,10 @@ use crate::tiff::{Dir, Entry, IfdType};
 use crate::Type as RawType;
 use crate::{DataType, Dump, Error, Result};
 
+/// The maximum number of directories that are followed.
+/// No file should come anywhere close.
+pub(crate) const MAX_DIRS: usize = 64;
+
 pub(crate) type DirIterator<'a> = std::slice::Iter<'a, Dir>;
 
 pub(crate) type DirMap = Vec<(IfdType, Option<&'static TagMap>)>;
@@ -229,10 +233,16 @@ impl Container {
             let mut index = 0_usize;
             let mut dir_offset = {
                 let mut view = self.view.borrow_mut();
-                view.seek(SeekFrom::Start(4)).expect("Seek failed");
-                view.read_endian_u32(self.endian()).unwrap_or(0)
+                view.seek(SeekFrom::Start(4))
+                    .and_then(|_| view.read_endian_u32(self.endian()))
+                    .unwrap_or(0)
             };
+            let mut visited = HashSet::new();
             while dir_offset != 0 {
+                if dirs.len() >= MAX_DIRS || !visited.insert(dir_offset) {
+                    error!("Too many directories or loop at {dir_offset}");
+                    break;
+                }
                 let t = if index < self.dir_map.len() {
                     self.dir_map[index]
                 } else {
@@ -368,7 +378,7 @@ impl Container {
         list: &mut Vec<(u32, thumbnail::ThumbDesc)>,
     ) -> Result<usize> {
         if let Some(val_offset) = e.offset() {
-            let val_offset = val_offset + offset;
+            let val_offset = val_offset.checked_add(offset).ok_or(Error::FormatError)?;
             self.add_thumbnail_from_stream(val_offset, e.count, list)
         } else {
             log::error!("Entry for thumbnail has no offset");
diff --git a/src/tiff/dir.rs b/src/tiff/dir.rs
index 453ed4d..0c5917b 100644
--- a/src/tiff/dir.rs
+++ b/src/tiff/dir.rs
@@ -552,6 +552,8 @@ impl Dir {
         view.seek(SeekFrom::Start(dir_offset as u64))?;
         debug!("Dir starts at {dir_offset}");
         let num_entries = view.read_i16::<E>()?;
+        // The values all come from the file. Don't load more than it contains.
+        let mut budget = view.len();
         for _ in 0..num_entries {
             let id = view.read_u16::<E>()?;
             let type_ = view.read_i16::<E>()?;
@@ -562,8 +564,11 @@ impl Dir {
             let mut entry = Entry::new(id, type_, count, data);
             if !entry.is_inline() {
                 let pos = view.stream_position()?;
-                let r = entry.load_data::<E>(base_offset, view);
+                let r = entry.load_data_max::<E>(base_offset, budget, view);
                 view.seek(SeekFrom::Start(pos))?;
+                if let Ok(size) = r {
+                    budget -= size as u64;
+                }
                 if r.is_err() {
                     // We'll just stop parsing.
                     // This is encountered on Somy A100 and is likely
@@ -791,7 +796,10 @@ impl Dir {
                         return ifds;
                     }
                 }
-                for offset in offsets {
+                if offsets.len() > tiff::MAX_DIRS {
+                    log::error!("Too many SubIFDs: {}", offsets.len());
+                }
+                for offset in offsets.into_iter().take(tiff::MAX_DIRS) {
                     if offset == 0 {
                         log::warn!("SubIFD with offset 0");
                         continue;
diff --git a/src/tiff/entry.rs b/src/tiff/entry.rs
index d62c2fc..815e252 100644
--- a/src/tiff/entry.rs
+++ b/src/tiff/entry.rs
@@ -124,18 +124,49 @@ impl Entry {
         self.data.as_slice()
     }
 
+    /// The data starting with the value at `index`, if there is enough
+    /// of it for `unit_size`.
+    fn data_at(&self, unit_size: usize, index: usize) -> Option<&[u8]> {
+        let data = self
+            .data
+            .as_slice()
+            .get(unit_size.checked_mul(index)?..)
+            .filter(|data| data.len() >= unit_size);
+        if data.is_none() {
+            log::error!("Entry {:x}: not enough data for index {index}", self.id);
+        }
+        data
+    }
+
+    /// Read the first `count` values, whichever the type is.
+    fn read_values<T>(&self, count: usize, endian: Endian) -> Option<Vec<T>>
+    where
+        T: ExifValue,
+    {
+        (0..count)
+            .map(|index| {
+                let data = self.data_at(T::unit_size(), index)?;
+                Some(match endian {
+                    Endian::Big => T::read::<BigEndian>(data),
+                    Endian::Little => T::read::<LittleEndian>(data),
+                    _ => unreachable!(),
+                })
+            })
+            .collect()
+    }
+
     /// monomorphic implementation of `load_data<E>`
-    fn load_data_impl(&self, offset: u64, view: &mut View) -> Result<Vec<u8>> {
+    fn load_data_impl(&self, offset: u64, max_size: u64, view: &mut View) -> Result<Vec<u8>> {
         let tag_type = TagType::try_from(self.type_).unwrap_or(TagType::Invalid);
         let data_size = exif::tag_unit_size(tag_type) * self.count as usize;
         debug!("Loading data at {}: {} bytes", offset, data_size);
 
-        view.seek(SeekFrom::Start(offset))?;
-        if data_size > (view.len() - offset) as usize {
+        if offset > view.len() || data_size as u64 > std::cmp::min(max_size, view.len() - offset) {
             log::error!("TIFFEntry: data size too large");
             return Err(Error::FormatError);
         }
-        let mut data = uninit_vec!(data_size);
+        view.seek(SeekFrom::Start(offset))?;
+        let mut data = vec![0; data_size];
         view.read_exact(&mut data)?;
 
         Ok(data)
@@ -143,7 +174,23 @@ impl Entry {
 
     /// Load the data for the entry from the `io::View`.
     /// It doesn't check if the value is inline.
+    #[cfg(test)]
     pub(crate) fn load_data<E>(&mut self, base_offset: u32, view: &mut View) -> Result<usize>
+    where
+        E: ByteOrder,
+    {
+        self.load_data_max::<E>(base_offset, u64::MAX, view)
+    }
+
+    /// Load the data for the entry from the `io::View`.
+    /// It doesn't check if the value is inline. It is an error if there is more
+    /// than `max_size` bytes to load.
+    pub(crate) fn load_data_max<E>(
+        &mut self,
+        base_offset: u32,
+        max_size: u64,
+        view: &mut View,
+    ) -> Result<usize>
     where
         E: ByteOrder,
     {
@@ -153,7 +200,7 @@ impl Entry {
 
         let offset = E::read_u32(self.data.as_slice());
         let actual_offset = offset as u64 + base_offset as u64;
-        let data = self.load_data_impl(actual_offset, view)?;
+        let data = self.load_data_impl(actual_offset, max_size, view)?;
 
         let bytes = data.len();
         if self.type_ == TagType::Undefined as i16 {
@@ -188,9 +235,9 @@ impl Entry {
                 log::error!("index {} is >= {}", index, self.count);
                 return None;
             }
-            return Some(T::read::<E>(
-                &self.data.as_slice()[T::unit_size() * index as usize..],
-            ));
+            return self
+                .data_at(T::unit_size(), index as usize)
+                .map(T::read::<E>);
         }
         log::error!(
             "Entry {:x}({}) incorrect type {} for {:?}",
@@ -215,13 +262,11 @@ impl Entry {
         exif::TagType::try_from(self.type_)
             .ok()
             .and_then(|typ| match typ {
-                TagType::Short => Some(u16::read::<E>(
-                    &self.data.as_slice()[u16::unit_size() * index as usize..],
-                ) as u32),
-                TagType::Long => Some(u32::read::<E>(
-                    &self.data.as_slice()[u32::unit_size() * index as usize..],
-                )),
-                TagType::Rational => self.value::<Rational, E>().map(|r| r.num / r.denom),
+                TagType::Short => self.value_at_index::<u16, E>(index).map(|v| v as u32),
+                TagType::Long => self.value_at_index::<u32, E>(index),
+                TagType::Rational => self
+                    .value_at_index::<Rational, E>(index)
+                    .and_then(|r| r.num.checked_div(r.denom)),
                 _ => {
                     log::error!("incorrect type {} for uint {}", self.type_, self.id);
                     None
@@ -242,12 +287,8 @@ impl Entry {
         exif::TagType::try_from(self.type_)
             .ok()
             .and_then(|typ| match typ {
-                TagType::SShort => Some(i16::read::<E>(
-                    &self.data.as_slice()[i16::unit_size() * index as usize..],
-                ) as i32),
-                TagType::SLong => Some(i32::read::<E>(
-                    &self.data.as_slice()[i32::unit_size() * index as usize..],
-                )),
+                TagType::SShort => self.value_at_index::<i16, E>(index).map(|v| v as i32),
+                TagType::SLong => self.value_at_index::<i32, E>(index),
                 _ => {
                     log::error!("incorrect type {} for uint {}", self.type_, self.id);
                     None
@@ -306,142 +347,59 @@ impl Entry {
 
     /// Get the value array out of the entry, using `endian`.
     pub fn uint_value_array(&self, endian: Endian) -> Option<Vec<u32>> {
-        let type_ = match exif::TagType::try_from(self.type_) {
-            Ok(t @ TagType::Short) | Ok(t @ TagType::Long) => t,
-            Ok(TagType::Rational) => {
-                return self
-                    .value_array::<Rational>(endian)
-                    .map(|v| v.iter().map(|r| r.into()).collect())
-            }
+        let count = self.count as usize;
+        match exif::TagType::try_from(self.type_) {
+            Ok(TagType::Short) => self
+                .read_values::<u16>(count, endian)
+                .map(|v| v.iter().map(|v| *v as u32).collect()),
+            Ok(TagType::Long) => self.read_values::<u32>(count, endian),
+            Ok(TagType::Rational) => self
+                .value_array::<Rational>(endian)
+                .map(|v| v.iter().map(|r| r.into()).collect()),
             _ => {
                 log::error!("incorrect type {} for uint {}", self.type_, self.id);
-                return None;
+                None
             }
-        };
-        let unit_size = match type_ {
-            TagType::Short => u16::unit_size(),
-            TagType::Long => u32::unit_size(),
-            _ => unreachable!(),
-        };
-
-        let data_slice = self.data.as_slice();
-        let count = self.count as usize;
-        let mut values = Vec::with_capacity(count);
-        for index in 0..count {
-            let slice = &data_slice[unit_size * index..];
-            let v = match type_ {
-                TagType::Short => {
-                    (match endian {
-                        Endian::Big => u16::read::<BigEndian>(slice),
-                        Endian::Little => u16::read::<LittleEndian>(slice),
-                        _ => unreachable!(),
-                    }) as u32
-                }
-                TagType::Long => match endian {
-                    Endian::Big => u32::read::<BigEndian>(slice),
-                    Endian::Little => u32::read::<LittleEndian>(slice),
-                    _ => unreachable!(),
-                },
-                _ => unreachable!(),
-            };
-            values.push(v);
         }
-        Some(values)
     }
 
     /// Get the value array out of the entry, using `endian`.
     pub fn float_value_array(&self, endian: Endian) -> Option<Vec<f64>> {
-        let type_ = match exif::TagType::try_from(self.type_) {
-            Ok(TagType::Short) | Ok(TagType::Long) => {
-                return self
-                    .uint_value_array(endian)
-                    .map(|v| v.iter().map(|v| *v as f64).collect())
-            }
-            Ok(TagType::Rational) => {
-                return self
-                    .value_array::<Rational>(endian)
-                    .map(|v| v.iter().map(|r| r.into()).collect())
-            }
-            Ok(TagType::SRational) => {
-                return self
-                    .value_array::<SRational>(endian)
-                    .map(|v| v.iter().map(|r| r.into()).collect())
-            }
-            Ok(t @ TagType::Float) | Ok(t @ TagType::Double) => t,
+        let count = self.count as usize;
+        match exif::TagType::try_from(self.type_) {
+            Ok(TagType::Short) | Ok(TagType::Long) => self
+                .uint_value_array(endian)
+                .map(|v| v.iter().map(|v| *v as f64).collect()),
+            Ok(TagType::Rational) => self
+                .value_array::<Rational>(endian)
+                .map(|v| v.iter().map(|r| r.into()).collect()),
+            Ok(TagType::SRational) => self
+                .value_array::<SRational>(endian)
+                .map(|v| v.iter().map(|r| r.into()).collect()),
+            Ok(TagType::Float) => self
+                .read_values::<f32>(count, endian)
+                .map(|v| v.iter().map(|v| *v as f64).collect()),
+            Ok(TagType::Double) => self.read_values::<f64>(count, endian),
             _ => {
                 log::error!("incorrect type {} for uint {}", self.type_, self.id);
-                return None;
+                None
             }
-        };
-        let unit_size = match type_ {
-            TagType::Float => f32::unit_size(),
-            TagType::Double => f64::unit_size(),
-            _ => unreachable!(),
-        };
-
-        let data_slice = self.data.as_slice();
-        let count = self.count as usize;
-        let mut values = Vec::with_capacity(count);
-        for index in 0..count {
-            let slice = &data_slice[unit_size * index..];
-            let v = match type_ {
-                TagType::Float => {
-                    (match endian {
-                        Endian::Big => f32::read::<BigEndian>(slice),
-                        Endian::Little => f32::read::<LittleEndian>(slice),
-                        _ => unreachable!(),
-                    }) as f64
-                }
-                TagType::Double => match endian {
-                    Endian::Big => f64::read::<BigEndian>(slice),
-                    Endian::Little => f64::read::<LittleEndian>(slice),
-                    _ => unreachable!(),
-                },
-                _ => unreachable!(),
-            };
-            values.push(v);
         }
-        Some(values)
     }
 
     /// Get the value array out of the entry, using `endian`.
     pub fn int_value_array(&self, endian: Endian) -> Option<Vec<i32>> {
-        let type_ = match exif::TagType::try_from(self.type_) {
-            Ok(t @ TagType::SShort) | Ok(t @ TagType::SLong) => t,
+        let count = self.count as usize;
+        match exif::TagType::try_from(self.type_) {
+            Ok(TagType::SShort) => self
+                .read_values::<i16>(count, endian)
+                .map(|v| v.iter().map(|v| *v as i32).collect()),
+            Ok(TagType::SLong) => self.read_values::<i32>(count, endian),
             _ => {
                 log::error!("incorrect type {} for uint {}", self.type_, self.id);
-                return None;
+                None
             }
-        };
-        let unit_size = match type_ {
-            TagType::SShort => i16::unit_size(),
-            TagType::SLong => i32::unit_size(),
-            _ => unreachable!(),
-        };
-
-        let data_slice = self.data.as_slice();
-        let count = self.count as usize;
-        let mut values = Vec::with_capacity(count);
-        for index in 0..count {
-            let slice = &data_slice[unit_size * index..];
-            let v = match type_ {
-                TagType::SShort => {
-                    (match endian {
-                        Endian::Big => i16::read::<BigEndian>(slice),
-                        Endian::Little => i16::read::<LittleEndian>(slice),
-                        _ => unreachable!(),
-                    }) as i32
-                }
-                TagType::SLong => match endian {
-                    Endian::Big => i32::read::<BigEndian>(slice),
-                    Endian::Little => i32::read::<LittleEndian>(slice),
-                    _ => unreachable!(),
-                },
-                _ => unreachable!(),
-            };
-            values.push(v);
         }
-        Some(values)
     }
 
     /// Get the value array out of the entry, using `endian`.
@@ -449,7 +407,6 @@ impl Entry {
     where
         T: ExifValue,
     {
-        let data_slice = self.data.as_slice();
         let count = if self.type_ == TagType::Undefined as i16 {
             // count is in bytes
             self.count as usize / T::unit_size()
@@ -459,17 +416,7 @@ impl Entry {
         if !T::is_array()
             && ((self.type_ == T::exif_type() as i16) || (self.type_ == TagType::Undefined as i16))
         {
-            let mut values = Vec::with_capacity(count);
-            for index in 0..count {
-                let slice = &data_slice[T::unit_size() * index..];
-                let v = match endian {
-                    Endian::Big => T::read::<BigEndian>(slice),
-                    Endian::Little => T::read::<LittleEndian>(slice),
-                    _ => unreachable!(),
-                };
-                values.push(v);
-            }
-            Some(values)
+            self.read_values::<T>(count, endian)
         } else {
             log::error!("incorrect type {} for {:?}", self.type_, T::exif_type());
             None
diff --git a/src/tiff/iterator.rs b/src/tiff/iterator.rs
index d34b5f5..8525d8c 100644
--- a/src/tiff/iterator.rs
+++ b/src/tiff/iterator.rs
@@ -73,28 +73,28 @@ impl std::iter::Iterator for Iterator<'_> {
 
 fn from_entry(entry: &Entry, endian: Endian) -> MetadataValue {
     match exif::TagType::try_from(entry.type_).unwrap_or(exif::TagType::Invalid) {
-        exif::TagType::Ascii => {
-            MetadataValue::String(utils::to_nul_terminated(&entry.string_value().unwrap()))
-        }
-        exif::TagType::Rational => {
-            MetadataValue::Rational(entry.value_array::<exif::Rational>(endian).unwrap())
-        }
-        exif::TagType::SRational => {
-            MetadataValue::SRational(entry.value_array::<exif::SRational>(endian).unwrap())
-        }
-        exif::TagType::Float => MetadataValue::Float(entry.value_array::<f32>(endian).unwrap()),
-        exif::TagType::Double => MetadataValue::Double(entry.value_array::<f64>(endian).unwrap()),
+        exif::TagType::Ascii => entry
+            .string_value()
+            .map(|s| MetadataValue::String(utils::to_nul_terminated(&s))),
+        exif::TagType::Rational => entry
+            .value_array::<exif::Rational>(endian)
+            .map(MetadataValue::Rational),
+        exif::TagType::SRational => entry
+            .value_array::<exif::SRational>(endian)
+            .map(MetadataValue::SRational),
+        exif::TagType::Float => entry.value_array::<f32>(endian).map(MetadataValue::Float),
+        exif::TagType::Double => entry.value_array::<f64>(endian).map(MetadataValue::Double),
         exif::TagType::Byte | exif::TagType::Undefined => {
-            MetadataValue::Bytes(entry.data().to_vec())
+            entry.value_array::<u8>(endian).map(MetadataValue::Bytes)
         }
-        exif::TagType::SByte => MetadataValue::SBytes(entry.value_array::<i8>(endian).unwrap()),
+        exif::TagType::SByte => entry.value_array::<i8>(endian).map(MetadataValue::SBytes),
         exif::TagType::Short | exif::TagType::Long => {
-            MetadataValue::Int(entry.uint_value_array(endian).unwrap())
+            entry.uint_value_array(endian).map(MetadataValue::Int)
         }
         exif::TagType::SShort | exif::TagType::SLong => {
-            MetadataValue::SInt(entry.int_value_array(endian).unwrap())
+            entry.int_value_array(endian).map(MetadataValue::SInt)
         }
-        exif::TagType::Error_ => MetadataValue::Invalid(entry.data().to_vec()),
-        exif::TagType::Invalid => MetadataValue::Invalid(entry.data().to_vec()),
+        exif::TagType::Error_ | exif::TagType::Invalid => None,
     }
+    .unwrap_or_else(|| MetadataValue::Invalid(entry.data().to_vec()))
 }
-- 
2.43.0


From 33a78eafdae259f968ad791e1c11e01f33a6a849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:44 +0000
Subject: [PATCH 14/91] fix: IO: don't underflow seeking before the view, nor
 panic on non Unicode extensions

---
 src/io.rs      | 5 ++++-
 src/rawfile.rs | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/io.rs b/src/io.rs
index 0d66a98..bfb5c1b 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -275,7 +275,10 @@ impl std::io::Seek for View {
             }
             _ => pos,
         })
-        .map(|i| i - self.offset)
+        .and_then(|i| {
+            i.checked_sub(self.offset)
+                .ok_or_else(|| std::io::Error::from(ErrorKind::InvalidInput))
+        })
     }
 }
 
diff --git a/src/rawfile.rs b/src/rawfile.rs
index cc7349f..fa22757 100644
--- a/src/rawfile.rs
+++ b/src/rawfile.rs
@@ -127,7 +127,7 @@ where
     let file_path = filename.as_ref();
     file_path
         .extension()
-        .and_then(|e| identify::type_for_extension(e.to_ascii_lowercase().to_str().unwrap()))
+        .and_then(|e| identify::type_for_extension(e.to_ascii_lowercase().to_str()?))
 }
 
 /// Crate RawFile object from IO.
-- 
2.43.0


From 9a478bf66348cbd59ac9c96ddd4417e5c574bb7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:52 +0000
Subject: [PATCH 15/91] fix: tiled LJPEG: a missing tile is an error

---
 src/decompress/tiled.rs | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/decompress/tiled.rs b/src/decompress/tiled.rs
index fde4b10..0b3cadf 100644
--- a/src/decompress/tiled.rs
+++ b/src/decompress/tiled.rs
@@ -24,7 +24,7 @@
 use rayon::prelude::*;
 
 use crate::bitmap::Bitmap;
-use crate::{DataType, RawImage, Result};
+use crate::{DataType, Error, RawImage, Result};
 
 use super::ljpeg::{LJpeg, Tile};
 
@@ -38,7 +38,7 @@ impl TiledLJpeg {
     /// Combine tiles into the final buffer. `width` and `height` are the final dimensions.
     fn combine_tiles(width: usize, height: usize, tiles: &[Option<Tile>]) -> Vec<u16> {
         let data_size = width * height;
-        let mut buffer = uninit_vec!(data_size);
+        let mut buffer = vec![0; data_size];
 
         let mut first_row = 0_usize;
         let mut first_col = 0_usize;
@@ -112,6 +112,27 @@ impl TiledLJpeg {
                 })
                 .collect();
 
+            // All the tiles are needed.
+            let (tile_width, tile_height) = rawdata
+                .tile_size()
+                .map(|size| (size.0 as usize, size.1 as usize))
+                .unwrap_or((0, 0));
+            if tile_width == 0 || tile_height == 0 {
+                return Err(Error::FormatError);
+            }
+            let num_tiles = (rawdata.width() as usize + tile_width - 1) / tile_width
+                * ((rawdata.height() as usize + tile_height - 1) / tile_height);
+            let tile_len = tile_width.saturating_mul(tile_height);
+            if dec_tiles.len() < num_tiles
+                || dec_tiles
+                    .iter()
+                    .take(num_tiles)
+                    .any(|tile| tile.as_ref().map(|tile| tile.buf.len()).unwrap_or(0) < tile_len)
+            {
+                log::error!("Missing or incomplete tile");
+                return Err(Error::Decompression("Missing tile".to_string()));
+            }
+
             let data = Self::combine_tiles(
                 rawdata.width() as usize,
                 rawdata.height() as usize,
-- 
2.43.0


From 65ccbf09bb532ae171d7fcf93beb8ed87d20f157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:52 +0000
Subject: [PATCH 16/91] fix: DNG: don't panic on crop or white balance out of
 range or too short

---
 src/dng.rs      |  9 ++++++---
 src/rawimage.rs | 13 ++++---------
 src/utils.rs    |  2 +-
 3 files changed, 11 insertions(+), 13 deletions(-)

diff --git a/src/dng.rs b/src/dng.rs
index 32b21e0..9b0d850 100644
--- a/src/dng.rs
+++ b/src/dng.rs
@@ -380,9 +380,11 @@ impl RawFileImpl for DngFile {
                             let origin = dir
                                 .uint_value_array(exif::DNG_TAG_DEFAULT_CROP_ORIGIN)
                                 .and_then(|v| if v.len() < 2 { None } else { Some(v) })
-                                .map(|v| Point {
-                                    x: v[0] + active_area.x,
-                                    y: v[1] + active_area.y,
+                                .and_then(|v| {
+                                    Some(Point {
+                                        x: v[0].checked_add(active_area.x)?,
+                                        y: v[1].checked_add(active_area.y)?,
+                                    })
                                 })?;
                             let size = dir
                                 .uint_value_array(exif::DNG_TAG_DEFAULT_CROP_SIZE)
@@ -408,6 +410,7 @@ impl RawFileImpl for DngFile {
                         } else if let Some(as_shot_xy) = self
                             .main_ifd()
                             .and_then(|dir| dir.float_value_array(exif::DNG_TAG_AS_SHOT_WHITE_XY))
+                            .filter(|xy| xy.len() >= 2)
                         {
                             rawdata.set_as_shot_white_xy((as_shot_xy[0], as_shot_xy[1]));
                         }
diff --git a/src/rawimage.rs b/src/rawimage.rs
index 8e2378f..7e1edb7 100644
--- a/src/rawimage.rs
+++ b/src/rawimage.rs
@@ -276,15 +276,10 @@ impl RawImage {
 
     /// Set the white balance.
     pub fn set_as_shot_neutral(&mut self, as_shot: &[f64]) {
-        let mut as_shot_neutral = [0_f64; 4];
-        as_shot_neutral[0] = as_shot[0];
-        as_shot_neutral[1] = as_shot[1];
-        as_shot_neutral[2] = as_shot[2];
-        as_shot_neutral[3] = if as_shot.len() > 3 {
-            as_shot[3]
-        } else {
-            f64::NAN
-        };
+        let mut as_shot_neutral = [f64::NAN; 4];
+        for (neutral, value) in std::iter::zip(as_shot_neutral.iter_mut(), as_shot) {
+            *neutral = *value;
+        }
         self.as_shot = AsShot::Neutral(as_shot_neutral);
     }
 
diff --git a/src/utils.rs b/src/utils.rs
index 88e0913..40a5c39 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -40,7 +40,7 @@ macro_rules! uninit_vec {
 /// value for the quad.
 pub(crate) fn to_quad(slice: &[u32]) -> [u16; 4] {
     if slice.len() != 4 {
-        [slice[0] as u16; 4]
+        [slice.first().copied().unwrap_or_default() as u16; 4]
     } else {
         let mut sl = [0_u16; 4];
         for (idx, v) in slice[0..4].iter().enumerate() {
-- 
2.43.0


From cef8d32fd2cefe4cc4aa2db08040285cfcb66280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:52 +0000
Subject: [PATCH 17/91] fix: unpack: check the size of the data before
 allocating

---
 src/decompress.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/decompress.rs b/src/decompress.rs
index 0b8e079..17fe97f 100644
--- a/src/decompress.rs
+++ b/src/decompress.rs
@@ -239,7 +239,7 @@ pub(crate) fn unpack_from_reader(
         compression
     );
     // Rows are padded to a byte boundary.
-    let row_size = (width as usize * bpc as usize).div_ceil(8);
+    let row_size = (width as usize * bpc as usize + 7) / 8;
     let block_size: usize = match bpc {
         10 | 14 => row_size,
         12 => {
@@ -258,9 +258,7 @@ pub(crate) fn unpack_from_reader(
         }
     };
     log::debug!("Block size = {}", block_size);
-    let mut block = vec![0; block_size];
     let out_size = width as usize * height as usize;
-    let mut out_data = Vec::with_capacity(out_size);
     let mut fetched = 0_usize;
     let mut written = 0_usize;
 
@@ -273,6 +271,8 @@ pub(crate) fn unpack_from_reader(
             "Not enough data to unpack: {byte_len} < {full_len}"
         )));
     }
+    let mut block = vec![0; block_size];
+    let mut out_data = Vec::with_capacity(out_size);
     while fetched < full_len {
         reader.read_exact(block.as_mut_slice())?;
         fetched += block.len();
-- 
2.43.0


From 9d5de2bad911e6477913c3cbcc64af05660ce32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:52 +0000
Subject: [PATCH 18/91] fix: TIFF: assemble uncompressed tiles

---
 src/tiff.rs | 93 +++++++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 91 insertions(+), 2 deletions(-)

diff --git a/src/tiff.rs b/src/tiff.rs
index 53920eb..803b0f7 100644
--- a/src/tiff.rs
+++ b/src/tiff.rs
@@ -207,6 +207,72 @@ fn uint_array(dir: &Dir, tag: u16) -> Option<Vec<u32>> {
     })
 }
 
+/// Load the uncompressed samples out of tiles
+fn load_tiles(
+    container: &Container,
+    tiles: &[(u64, u64)],
+    tile_size: (u32, u32),
+    size: (u32, u32),
+    bpc: u16,
+    compression: Compression,
+    endian: Endian,
+) -> Result<Vec<u16>> {
+    let (tile_width, tile_height) = (tile_size.0 as usize, tile_size.1 as usize);
+    let (width, height) = (size.0 as usize, size.1 as usize);
+    if tile_width == 0 || tile_height == 0 || width == 0 || height == 0 {
+        return Err(Error::FormatError);
+    }
+    let columns = (width + tile_width - 1) / tile_width;
+    if tiles.len() < columns * ((height + tile_height - 1) / tile_height) {
+        log::error!("TIFF: missing tiles");
+        return Err(Error::FormatError);
+    }
+    let tile_len = tile_width
+        .checked_mul(tile_height)
+        .ok_or(Error::FormatError)?;
+    let mut loaded = vec![];
+    for (offset, len) in tiles {
+        let data = container.load_buffer8(*offset, *len);
+        let samples: Vec<u16> = match bpc {
+            8 => data.iter().map(|v| *v as u16).collect(),
+            10 | 12 | 14 if data.len() < tile_len * 2 => decompress::unpack_from_reader(
+                &mut data.as_slice(),
+                tile_size.0,
+                tile_size.1,
+                bpc,
+                compression,
+                data.len(),
+                container.endian(),
+            )?,
+            10 | 12 | 14 | 16 => data.chunks_exact(2).map(|v| endian.read_u16(v)).collect(),
+            _ => {
+                log::error!("Invalid RAW format, unsupported bpc {}", bpc);
+                return Err(Error::InvalidFormat);
+            }
+        };
+        if samples.len() < tile_len {
+            log::error!("TIFF: not enough data in tile");
+            return Err(Error::FormatError);
+        }
+        loaded.push(samples);
+    }
+
+    let mut rows = vec![vec![]; height];
+    for (idx, samples) in loaded.iter().enumerate() {
+        let first_col = (idx % columns) * tile_width;
+        let row_len = std::cmp::min(tile_width, width - first_col);
+        // The last tiles might go past the edges.
+        for (row, samples) in std::iter::zip(
+            rows.iter_mut().skip((idx / columns) * tile_height),
+            samples.chunks_exact(tile_width).take(tile_height),
+        ) {
+            row.extend_from_slice(&samples[..row_len]);
+        }
+    }
+
+    Ok(rows.concat())
+}
+
 /// Get the raw data
 pub(crate) fn tiff_get_rawdata(
     container: &Container,
@@ -254,10 +320,10 @@ pub(crate) fn tiff_get_rawdata_with_endian(
             tile_bytes = dir
                 .entry(exif::TIFF_TAG_TILE_BYTECOUNTS)
                 .and_then(|e| e.value_array::<u32>(dir.endian()));
-            // In case of overflow, we'll return 0 via the unwrap().
+            // In case of overflow, this can't be in the file.
             let tile_bytes_total = tile_bytes
                 .as_ref()
-                .and_then(|a| a.iter().try_fold(0_u32, |sum, &x| sum.checked_add(x)))
+                .map(|a| a.iter().fold(0_u32, |sum, &x| sum.saturating_add(x)))
                 .unwrap_or(0);
             tile_offsets = dir
                 .entry(exif::TIFF_TAG_TILE_OFFSETS)
@@ -405,6 +471,29 @@ pub(crate) fn tiff_get_rawdata_with_endian(
                 mosaic_pattern.unwrap_or_default(),
             )
         }
+    } else if let (true, Some(tile_bytes), Some(tile_offsets)) =
+        (strips.is_empty(), &tile_bytes, &tile_offsets)
+    {
+        let tiles: Vec<(u64, u64)> = std::iter::zip(tile_offsets, tile_bytes)
+            .map(|(offset, len)| (*offset as u64, *len as u64))
+            .collect();
+        let data = load_tiles(
+            container,
+            &tiles,
+            tile_size.unwrap_or_default(),
+            (x, y),
+            bpc,
+            compression,
+            endian,
+        )?;
+        RawImage::with_data16(
+            x,
+            y,
+            actual_bpc,
+            data_type,
+            data,
+            mosaic_pattern.unwrap_or_default(),
+        )
     } else if bpc == 16 {
         let data = if let Some(data) = gathered {
             data.chunks_exact(2).map(|v| endian.read_u16(v)).collect()
-- 
2.43.0


From 486cce7de6bf0518f9419401062a5ebea4f01944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:14 +0000
Subject: [PATCH 19/91] fix: DNG: find the preview in the MakerNote of the
 Leica M (Typ 240)

---
 src/dng.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dng.rs b/src/dng.rs
index 9b0d850..b30f3d2 100644
--- a/src/dng.rs
+++ b/src/dng.rs
@@ -301,7 +301,7 @@ impl RawFileImpl for DngFile {
             let container = self.container.get().unwrap();
             let mut thumbnails = tiff::tiff_thumbnails(container);
             self.maker_note_ifd().and_then(|mnote| {
-                if mnote.id() == b"Leica6\0" {
+                if mnote.id() == b"Exif.Leica6\0" {
                     // File with Leica6 MakerNote (Leica M Typ-240) have a
                     // larger preview in the MakerNote
                     mnote.entry(exif::MNOTE_LEICA_PREVIEW_IMAGE).map(|e| {
-- 
2.43.0


From ac27681ce4866293e2fbe5affdaf899b2a058a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:42 +0000
Subject: [PATCH 20/91] fix: DNG: packed samples are MSB first whatever the
 byte order of the file

---
 src/decompress.rs |  3 ++-
 src/tiff.rs       | 13 +++++++++++--
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/decompress.rs b/src/decompress.rs
index 17fe97f..0704eba 100644
--- a/src/decompress.rs
+++ b/src/decompress.rs
@@ -205,6 +205,7 @@ pub(crate) fn unpack(
     compression: tiff::Compression,
     offset: u64,
     byte_len: usize,
+    endian: Endian,
 ) -> Result<Vec<u16>> {
     let mut view = container.borrow_view_mut();
     view.seek(SeekFrom::Start(offset))?;
@@ -216,7 +217,7 @@ pub(crate) fn unpack(
         bpc,
         compression,
         byte_len,
-        container.endian(),
+        endian,
     )
 }
 
diff --git a/src/tiff.rs b/src/tiff.rs
index 803b0f7..b0d4f79 100644
--- a/src/tiff.rs
+++ b/src/tiff.rs
@@ -216,6 +216,7 @@ fn load_tiles(
     bpc: u16,
     compression: Compression,
     endian: Endian,
+    pack_endian: Endian,
 ) -> Result<Vec<u16>> {
     let (tile_width, tile_height) = (tile_size.0 as usize, tile_size.1 as usize);
     let (width, height) = (size.0 as usize, size.1 as usize);
@@ -242,7 +243,7 @@ fn load_tiles(
                 bpc,
                 compression,
                 data.len(),
-                container.endian(),
+                pack_endian,
             )?,
             10 | 12 | 14 | 16 => data.chunks_exact(2).map(|v| endian.read_u16(v)).collect(),
             _ => {
@@ -420,6 +421,12 @@ pub(crate) fn tiff_get_rawdata_with_endian(
         log::debug!("setting bpc from {} to 16", bpc);
         bpc = 16;
     }
+    // In DNG, packed samples are always stored from the most significant bit.
+    let pack_endian = if file_type == Type::Dng {
+        Endian::Big
+    } else {
+        container.endian()
+    };
     let offset = strips.first().map(|s| s.0).unwrap_or(0);
     // Strips don't have to follow each other.
     let gathered = if strips.windows(2).all(|s| s[0].0 + s[0].1 == s[1].0) {
@@ -485,6 +492,7 @@ pub(crate) fn tiff_get_rawdata_with_endian(
             bpc,
             compression,
             endian,
+            pack_endian,
         )?;
         RawImage::with_data16(
             x,
@@ -519,7 +527,7 @@ pub(crate) fn tiff_get_rawdata_with_endian(
                 bpc,
                 compression,
                 data.len(),
-                container.endian(),
+                pack_endian,
             )?
         } else {
             decompress::unpack(
@@ -530,6 +538,7 @@ pub(crate) fn tiff_get_rawdata_with_endian(
                 compression,
                 offset,
                 byte_len as usize,
+                pack_endian,
             )?
         };
         RawImage::with_data16(
-- 
2.43.0


From 6d01636f50bf3046f3027bbaf1487a1bd7d27ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:43 +0000
Subject: [PATCH 21/91] fix: TIFF: padding of the tiles isn't a hint that
 samples are 16 bits

---
 src/tiff.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tiff.rs b/src/tiff.rs
index b0d4f79..ae01536 100644
--- a/src/tiff.rs
+++ b/src/tiff.rs
@@ -415,6 +415,8 @@ pub(crate) fn tiff_get_rawdata_with_endian(
     let actual_bpc = bpc;
     if (bpc == 12 || bpc == 14)
         && (compression == Compression::None)
+        // Tiles have their own size, including padding.
+        && !strips.is_empty()
         && byte_len == (pixel_count * 2)
     {
         // it's 12 or 14 bpc, but we have 16 bpc data.
-- 
2.43.0


From 8404f05ef12f2ad1b1d1f6a190327407ad94de3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:32 +0000
Subject: [PATCH 22/91] fix: Nikon: codes of the 14 bits lossy compression

---
 src/nikon/diffiterator.rs | 74 +++++++++++++++++++--------------------
 1 file changed, 37 insertions(+), 37 deletions(-)

diff --git a/src/nikon/diffiterator.rs b/src/nikon/diffiterator.rs
index 69567c5..c227c9d 100644
--- a/src/nikon/diffiterator.rs
+++ b/src/nikon/diffiterator.rs
@@ -75,44 +75,44 @@ pub const LOSSY_12BIT: [HuffmanNode; 27] = [
 // 101             8
 // 1100            3
 // 1101            9
-// 11100           2
-// 11101           1
-// 111100          0
-// 111101          10
-// 111110          11
-// 1111110         12
-// 11111110        13
-// 11111111        14
+// 1110            2
+// 11110           1
+// 111110          0
+// 1111110         10
+// 11111110        11
+// 111111110       12
+// 1111111110      13
+// 1111111111      14
 pub const LOSSY_14BIT: [HuffmanNode; 29] = [
-    /* 0  root     */ (false, 6),
-    /* 1  0        */ (false, 3),
-    /* 2  00       */ (true, 5),
-    /* 3  01       */ (false, 5),
-    /* 4  010      */ (true, 6),
-    /* 5  011      */ (true, 4),
-    /* 6  1        */ (false, 10),
-    /* 7  10       */ (false, 9),
-    /* 8  100      */ (true, 7),
-    /* 9  101      */ (true, 8),
-    /* 10 11       */ (false, 14),
-    /* 11 110      */ (false, 13),
-    /* 12 1100     */ (true, 3),
-    /* 13 1101     */ (true, 9),
-    /* 14 111      */ (false, 18),
-    /* 15 1110     */ (false, 17),
-    /* 16 11100    */ (true, 2),
-    /* 17 11101    */ (true, 1),
-    /* 18 1111     */ (false, 22),
-    /* 19 11110    */ (false, 21),
-    /* 20 111100   */ (true, 0),
-    /* 21 111101   */ (true, 10),
-    /* 22 11111    */ (false, 24),
-    /* 23 111110   */ (true, 11),
-    /* 24 111111   */ (false, 26),
-    /* 25 1111110  */ (true, 12),
-    /* 26 1111111  */ (false, 28),
-    /* 27 11111110 */ (true, 13),
-    /* 28 11111111 */ (true, 14),
+    /* 0  root       */ (false, 6),
+    /* 1  0          */ (false, 3),
+    /* 2  00         */ (true, 5),
+    /* 3  01         */ (false, 5),
+    /* 4  010        */ (true, 6),
+    /* 5  011        */ (true, 4),
+    /* 6  1          */ (false, 10),
+    /* 7  10         */ (false, 9),
+    /* 8  100        */ (true, 7),
+    /* 9  101        */ (true, 8),
+    /* 10 11         */ (false, 14),
+    /* 11 110        */ (false, 13),
+    /* 12 1100       */ (true, 3),
+    /* 13 1101       */ (true, 9),
+    /* 14 111        */ (false, 16),
+    /* 15 1110       */ (true, 2),
+    /* 16 1111       */ (false, 18),
+    /* 17 11110      */ (true, 1),
+    /* 18 11111      */ (false, 20),
+    /* 19 111110     */ (true, 0),
+    /* 20 111111     */ (false, 22),
+    /* 21 1111110    */ (true, 10),
+    /* 22 1111111    */ (false, 24),
+    /* 23 11111110   */ (true, 11),
+    /* 24 11111111   */ (false, 26),
+    /* 25 111111110  */ (true, 12),
+    /* 26 111111111  */ (false, 28),
+    /* 27 1111111110 */ (true, 13),
+    /* 28 1111111111 */ (true, 14),
 ];
 
 // 00              7
-- 
2.43.0


From 05f4d0df50512349131045a3ad562471f3a1258d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:32 +0000
Subject: [PATCH 23/91] fix: Nikon: lossless compressed data has no curve

---
 src/nikon.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nikon.rs b/src/nikon.rs
index 4ec14b8..93f997f 100644
--- a/src/nikon.rs
+++ b/src/nikon.rs
@@ -181,7 +181,8 @@ impl CompressionInfo {
     fn new() -> Self {
         Self {
             vpred: [[0; 2]; 2],
-            curve: vec![0; 0x8000],
+            // There is no curve when lossless.
+            curve: (0..0x8000).collect(),
             huffman: None,
         }
     }
-- 
2.43.0


From 89f61d0918629ac349e4cc5f6019b8ece14d6666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:32 +0000
Subject: [PATCH 24/91] fix: Nikon: blue white balance of NRW files

---
 src/nikon.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nikon.rs b/src/nikon.rs
index 93f997f..7416977 100644
--- a/src/nikon.rs
+++ b/src/nikon.rs
@@ -517,7 +517,7 @@ impl NefFile {
             let g =
                 (LittleEndian::read_u32(&data[4..]) + LittleEndian::read_u32(&data[8..])) as f64;
             let b = (LittleEndian::read_u32(&data[12..]) << 2) as f64;
-            Some([g / r, 1.0, b / r])
+            Some([g / r, 1.0, g / b])
         } else {
             log::error!("ColorBalanceA format unknown");
             None
-- 
2.43.0


From ab95010bb41c06d4ed4671d4eeadee7db4dc9731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:14 +0000
Subject: [PATCH 25/91] fix: Nikon: don't panic nor over allocate on malformed
 files

---
 src/nikon.rs | 83 +++++++++++++++++++++++++++++++---------------------
 1 file changed, 49 insertions(+), 34 deletions(-)

diff --git a/src/nikon.rs b/src/nikon.rs
index 7416977..95fdae3 100644
--- a/src/nikon.rs
+++ b/src/nikon.rs
@@ -242,13 +242,13 @@ impl NefFile {
     fn unpack_nikon(&self, rawdata: RawImage) -> Result<RawImage> {
         let mut width = rawdata.width();
         if self.is_d100() {
-            width += 6;
+            width = width.checked_add(6).ok_or(Error::FormatError)?;
         }
         probe!(self.probe, "nef.nikon_packed_raw", "true");
         let height = rawdata.height();
         let bpc = rawdata.bpc();
         let block_size: usize = match bpc {
-            12 => ((width / 2 * 3) + width / 10) as usize,
+            12 => width as usize / 2 * 3 + width as usize / 10,
             _ => {
                 log::warn!("Invalid BPC {}", bpc);
                 return Err(Error::InvalidFormat);
@@ -258,16 +258,21 @@ impl NefFile {
 
         let data = rawdata.data8().ok_or(Error::NotFound)?;
 
+        let byte_len = block_size
+            .checked_mul(height as usize)
+            .ok_or(Error::FormatError)?;
+        if block_size == 0 || data.len() < byte_len {
+            log::error!("Not enough data to unpack: {} < {byte_len}", data.len());
+            return Err(Error::Decompression(format!(
+                "Not enough data to unpack: {} < {byte_len}",
+                data.len()
+            )));
+        }
         let out_size = width as usize * height as usize;
         let mut out_data = Vec::with_capacity(out_size);
-        let mut fetched = 0_usize;
         let mut written = 0_usize;
 
-        let byte_len = std::cmp::min(data.len(), block_size * height as usize);
-        while fetched < byte_len {
-            let block = &data[fetched..fetched + block_size];
-            fetched += block.len();
-
+        for block in data[..byte_len].chunks_exact(block_size) {
             written +=
                 decompress::unpack_be12to16(block, &mut out_data, tiff::Compression::NikonPack)?;
         }
@@ -293,7 +298,11 @@ impl NefFile {
                             log::error!("DecodeTable2 not found");
                             Error::NotFound
                         })?;
-                let pos = curve_entry.offset().ok_or(Error::NotFound)? + mnote.mnote_offset;
+                let pos = curve_entry
+                    .offset()
+                    .ok_or(Error::NotFound)?
+                    .checked_add(mnote.mnote_offset)
+                    .ok_or(Error::FormatError)?;
                 let bpc = rawdata.bpc();
 
                 let container = self.container.get().unwrap();
@@ -386,7 +395,7 @@ impl NefFile {
                     probe!(self.probe, "nef.compression_curve.computed", "true");
                     // split flag is at offset 562.
                     // XXX
-                } else if header0 != 0x46 && nelems <= 0x4001 {
+                } else if header0 != 0x46 && nelems > 0 && nelems <= 0x4001 {
                     let num_read =
                         container.read_u16_array(&mut view, &mut curve.curve, nelems as usize)?;
                     // XXX It's likly not possible for the short read to appear.
@@ -425,14 +434,15 @@ impl NefFile {
                 let rows = rawdata.height() as usize;
                 let raw_columns = rawdata.width() as usize;
                 // XXX not always true
-                let columns = raw_columns - 1;
+                let columns = raw_columns.checked_sub(1).ok_or(Error::FormatError)?;
 
-                let data8 = rawdata.data8();
-                if data8.is_none() {
-                    return Err(Error::FormatError);
+                let data8 = rawdata.data8().ok_or(Error::FormatError)?;
+                // A sample uses at the very least 2 bits.
+                if data8.len() * 4 < rows * raw_columns {
+                    log::error!("NEF: not enough data for {raw_columns}x{rows}");
+                    return Err(Error::UnexpectedEOF);
                 }
-                let diffs =
-                    DiffIterator::new(curve.huffman.unwrap(), rawdata.data8().as_ref().unwrap());
+                let diffs = DiffIterator::new(curve.huffman.unwrap(), data8);
                 let mut iter = CfaIterator::new(diffs, raw_columns, curve.vpred);
 
                 // Using uninit_vec! here is slower.
@@ -470,7 +480,7 @@ impl NefFile {
     fn encrypted_white_balance(&self, mnote: &Dir, entry: &tiff::Entry) -> Option<[f64; 3]> {
         probe!(self.probe, "nef.wb.encrypted", "true");
         let data = entry.data();
-        let version = &data[0..4];
+        let version = data.get(0..4)?;
         let endian = mnote.endian();
         probe!(
             self.probe,
@@ -501,11 +511,11 @@ impl NefFile {
             let r = BigEndian::read_u16(data) as f64;
             let b = BigEndian::read_u16(&data[2..]) as f64;
             Some([256.0 / r, 1.0, 256.0 / b])
-        } else if &data[0..4] == b"NRW " {
+        } else if data.starts_with(b"NRW ") {
             probe!(self.probe, "nef.wb.nrw", "true");
-            let offset = if &data[4..8] != b"0100" && entry.count > 72 {
+            let offset = if data.get(4..8)? != b"0100" && data.len() > 72 {
                 56
-            } else if entry.count > 1572 {
+            } else if data.len() > 1572 {
                 1556
             } else {
                 log::error!("ColorBalanceA format unknown");
@@ -513,10 +523,10 @@ impl NefFile {
             };
             probe!(self.probe, "nef.wb.nrw.offset", offset);
             let data = &data[offset..];
-            let r = (LittleEndian::read_u32(data) << 2) as f64;
-            let g =
-                (LittleEndian::read_u32(&data[4..]) + LittleEndian::read_u32(&data[8..])) as f64;
-            let b = (LittleEndian::read_u32(&data[12..]) << 2) as f64;
+            let r = LittleEndian::read_u32(data) as f64 * 4.0;
+            let g = LittleEndian::read_u32(&data[4..]) as f64
+                + LittleEndian::read_u32(&data[8..]) as f64;
+            let b = LittleEndian::read_u32(&data[12..]) as f64 * 4.0;
             Some([g / r, 1.0, g / b])
         } else {
             log::error!("ColorBalanceA format unknown");
@@ -532,13 +542,16 @@ impl NefFile {
                 // `ColorBalanceA` (see [`nrw_white_balance`])
                 if entry.count >= 4 {
                     probe!(self.probe, "nef.wb.nikon", "true");
-                    entry.float_value_array(mnote.endian()).map(|v| {
-                        let mut g = v[2];
-                        if g <= 0.0 {
-                            g = 1.0;
-                        }
-                        [1.0 / v[0], g, 1.0 / v[1]]
-                    })
+                    entry
+                        .float_value_array(mnote.endian())
+                        .filter(|v| v.len() >= 3)
+                        .map(|v| {
+                            let mut g = v[2];
+                            if g <= 0.0 {
+                                g = 1.0;
+                            }
+                            [1.0 / v[0], g, 1.0 / v[1]]
+                        })
                 } else {
                     probe!(self.probe, "nef.wb.nikon", "false");
                     None
@@ -603,8 +616,9 @@ impl RawFileImpl for NefFile {
                         None,
                     )
                     .and_then(|dir| {
-                        let start = dir.value::<u32>(exif::MNOTE_NIKON_PREVIEWIFD_START)?
-                            + mnote.mnote_offset;
+                        let start = dir
+                            .value::<u32>(exif::MNOTE_NIKON_PREVIEWIFD_START)?
+                            .checked_add(mnote.mnote_offset)?;
                         let len = dir.value::<u32>(exif::MNOTE_NIKON_PREVIEWIFD_LENGTH)?;
                         container
                             .add_thumbnail_from_stream(start, len, &mut thumbnails)
@@ -642,7 +656,7 @@ impl RawFileImpl for NefFile {
                     .and_then(|rawdata| {
                         let compression = rawdata.compression();
                         probe!(self.probe, "nef.compression", &format!("{compression:?}"));
-                        if self.is_d100() {
+                        if self.is_d100() && rawdata.data_type() == DataType::CompressedRaw {
                             self.unpack_nikon(rawdata)
                         } else if compression == tiff::Compression::None {
                             Ok(rawdata)
@@ -682,6 +696,7 @@ impl RawFileImpl for NefFile {
                         let user_crop = self
                             .maker_note_ifd()
                             .and_then(|dir| dir.uint_value_array(exif::MNOTE_NIKON_CROP_AREA))
+                            .filter(|user_crop| user_crop.len() >= 4)
                             .map(|user_crop| Rect {
                                 x: user_crop[0],
                                 y: user_crop[1],
-- 
2.43.0


From 1e7596ef77c58a771eacc17a17d596133934f9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:53 +0000
Subject: [PATCH 26/91] fix: MRW: no panic on malformed files, white balance
 follows the pattern

---
 src/minolta.rs | 72 +++++++++++++++++++++++++++-----------------------
 1 file changed, 39 insertions(+), 33 deletions(-)

diff --git a/src/minolta.rs b/src/minolta.rs
index 1fecfa0..072aa3c 100644
--- a/src/minolta.rs
+++ b/src/minolta.rs
@@ -190,7 +190,7 @@ impl RawFileImpl for MrwFile {
             let mut thumbnails = vec![];
             self.container()?;
             if let Some(makernote) = self.ifd(tiff::IfdType::MakerNote) {
-                let ifd = self.container.get().unwrap().ifd_container();
+                let ifd = self.container.get().unwrap().ifd_container()?;
                 // Old files have the thumbnail in the Exif entry `MNOTE_MINOLTA_THUMBNAIL`.
                 let buffer = if let Some(preview) = makernote.entry(exif::MNOTE_MINOLTA_THUMBNAIL) {
                     // e.data() is incorrect.
@@ -215,7 +215,7 @@ impl RawFileImpl for MrwFile {
                 if let Some(mut buffer) = buffer {
                     // For some reason the first byte isn't 0xff. Thanks Minolta.
                     // Setting the first byte to `0xff` makes it be a JPEG.
-                    buffer[0] = 0xff;
+                    *buffer.first_mut().ok_or(Error::UnexpectedEOF)? = 0xff;
                     thumbnails.push((
                         640,
                         thumbnail::ThumbDesc {
@@ -235,7 +235,7 @@ impl RawFileImpl for MrwFile {
     /// block.
     fn ifd(&self, ifd_type: tiff::IfdType) -> Option<&tiff::Dir> {
         self.container().ok()?;
-        let ifd = self.container.get().unwrap().ifd_container();
+        let ifd = self.container.get().unwrap().ifd_container().ok()?;
         match ifd_type {
             tiff::IfdType::Raw | tiff::IfdType::Main => ifd.directory(0),
             tiff::IfdType::Exif => ifd.exif_dir(),
@@ -252,11 +252,12 @@ impl RawFileImpl for MrwFile {
             let rawinfo = container.minolta_prd()?;
 
             let cfa_offset = container.raw_data_offset();
+            let num_pixels = rawinfo.x as u64 * rawinfo.y as u64;
             let cfa_len = if rawinfo.is_compressed {
-                rawinfo.x * rawinfo.y + ((rawinfo.x * rawinfo.y) >> 1)
+                num_pixels + (num_pixels >> 1)
             } else {
-                2 * rawinfo.x * rawinfo.y
-            } as u64;
+                2 * num_pixels
+            };
             let mut rawdata = if rawinfo.is_compressed {
                 probe!(self.probe, "mrw.packed", "true");
                 let raw = container.load_buffer8(cfa_offset, cfa_len);
@@ -270,7 +271,7 @@ impl RawFileImpl for MrwFile {
                         rawinfo.mosaic,
                     )
                 } else {
-                    let mut unpacked = Vec::with_capacity((rawinfo.x * rawinfo.y) as usize);
+                    let mut unpacked = Vec::with_capacity(raw.len() / 3 * 2);
                     decompress::unpack_be12to16(&raw, &mut unpacked, tiff::Compression::None)
                         .map_err(|err| {
                             log::error!("RAF failed to unpack {}", err);
@@ -333,7 +334,9 @@ impl Dump for MrwFile {
     fn write_dump<W: std::io::Write + ?Sized>(&self, out: &mut W, indent: u32) {
         dump_writeln!(out, indent, "<Minolta MRW File>");
         let _ = self.container();
-        self.container.get().unwrap().write_dump(out, indent + 1);
+        if let Some(container) = self.container.get() {
+            container.write_dump(out, indent + 1);
+        }
         dump_writeln!(out, indent, "</Minolat MRW File>");
     }
 }
@@ -599,15 +602,14 @@ impl MrwContainer {
 
     /// Get the IFD container from the `TTW` block.
     /// All the Exif offsets are relative to the begining of the container.
-    fn ifd_container(&self) -> &tiff::Container {
-        self.ifd.get_or_init(|| {
-            let ttw = self.ttw.as_ref().expect("no TTW in the file");
-            let view = Viewer::create_subview(&self.view.borrow(), ttw.offset + 8)
-                .expect("Couldn't create view");
+    fn ifd_container(&self) -> Result<&tiff::Container> {
+        self.ifd.get_or_try_init(|| {
+            let ttw = self.ttw.as_ref().ok_or(Error::NotFound)?;
+            let view = Viewer::create_subview(&self.view.borrow(), ttw.offset + 8)?;
             let mut ifd = tiff::Container::new(view, vec![(IfdType::Main, None)], Type::Mrw);
-            ifd.load(None).expect("Failed to load IFD container");
+            ifd.load(None)?;
 
-            ifd
+            Ok(ifd)
         })
     }
 
@@ -648,22 +650,22 @@ impl MrwContainer {
     }
 
     pub(crate) fn get_wb(&self) -> Option<[f64; 4]> {
-        self.wbg.as_ref().and_then(|wbg| {
-            let rd = wbg
-                .uint8_value(Wbg::DenominatorR as u64, self)
-                .map(|d| 1 << (6 + d))? as f64;
-            let gd = wbg
-                .uint8_value(Wbg::DenominatorG1 as u64, self)
-                .map(|d| 1 << (6 + d))? as f64;
-            let bd = wbg
-                .uint8_value(Wbg::DenominatorB as u64, self)
-                .map(|d| 1 << (6 + d))? as f64;
-            let rn = wbg.uint16_value(Wbg::NominatorR as u64, self)? as f64;
-            let gn = wbg.uint16_value(Wbg::NominatorG1 as u64, self)? as f64;
-            let bn = wbg.uint16_value(Wbg::NominatorB as u64, self)? as f64;
-
-            Some([rd / rn, gd / gn, bd / bn, f64::NAN])
-        })
+        let wbg = self.wbg.as_ref()?;
+        // The values are in the order of the `BayerPattern`.
+        let order = match self.minolta_prd() {
+            Ok(RawInfo {
+                mosaic: Pattern::Gbrg,
+                ..
+            }) => [2_u64, 0, 1],
+            _ => [0, 1, 3],
+        };
+        let mut wb = [f64::NAN; 4];
+        for (wb, idx) in wb.iter_mut().zip(order) {
+            let denominator = wbg.uint8_value(Wbg::DenominatorR as u64 + idx, self)?;
+            let nominator = wbg.uint16_value(Wbg::NominatorR as u64 + idx * 2, self)?;
+            *wb = 2_f64.powi(6 + denominator as i32) / nominator as f64;
+        }
+        Some(wb)
     }
 
     /// The offset where to find the raw data.
@@ -714,7 +716,9 @@ impl RawContainer for MrwContainer {
     }
 
     fn dir_iterator(&self) -> metadata::Iterator {
-        self.ifd_container().dirs().iter().into()
+        self.ifd_container()
+            .map(|ifd| ifd.dirs().iter().into())
+            .unwrap_or_default()
     }
 }
 
@@ -811,7 +815,9 @@ impl Dump for MrwContainer {
                     dump_writeln!(out, indent, "<TTW @{}, len={}>", block.offset, block.length);
                     {
                         let indent = indent + 1;
-                        self.ifd_container().write_dump(out, indent);
+                        if let Ok(ifd) = self.ifd_container() {
+                            ifd.write_dump(out, indent);
+                        }
                     }
                     dump_writeln!(out, indent, "</TTW>");
                 }
-- 
2.43.0


From 96b56d7238a7afcbde5fa47b4d842cf2afe54ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:53 +0000
Subject: [PATCH 27/91] fix: ERF: no panic on empty preview or short white
 balance

---
 src/epson.rs | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/epson.rs b/src/epson.rs
index a35f402..e0ac1e4 100644
--- a/src/epson.rs
+++ b/src/epson.rs
@@ -136,10 +136,10 @@ impl RawFileImpl for ErfFile {
             let container = self.container.get().unwrap();
             let mut thumbnails = tiff::tiff_thumbnails(container);
             self.maker_note_ifd().and_then(|mnote| {
-                mnote.entry(exif::ERF_TAG_PREVIEW_IMAGE).map(|e| {
+                mnote.entry(exif::ERF_TAG_PREVIEW_IMAGE).and_then(|e| {
                     let mut data = Vec::from(e.data());
                     // The data start by 0xee instead of 0xff for a JPEG. Not sure why.
-                    data[0] = 0xff;
+                    *data.first_mut()? = 0xff;
                     let desc = thumbnail::ThumbDesc {
                         // It is 640x424 (3:2 aspect ratio)
                         width: 640,
@@ -148,6 +148,7 @@ impl RawFileImpl for ErfFile {
                         data: thumbnail::Data::Bytes(data),
                     };
                     thumbnails.push((640, desc));
+                    Some(())
                 })
             });
 
@@ -208,12 +209,14 @@ impl RawFileImpl for ErfFile {
                                 if wb_values.len() != 128 {
                                     log::error!("EPSON white balance len {}", wb_values.len());
                                 }
-                                // These values are taken directly from dcraw.
-                                rawdata.set_as_shot_neutral(&[
-                                    (0x10000 as f64) / ((wb_values[24] as f64) * 508.0 * 1.078),
-                                    1.0,
-                                    (0x10000 as f64) / ((wb_values[25] as f64) * 382.0 * 1.173),
-                                ]);
+                                if wb_values.len() > 25 {
+                                    // These values are taken directly from dcraw.
+                                    rawdata.set_as_shot_neutral(&[
+                                        (0x10000 as f64) / ((wb_values[24] as f64) * 508.0 * 1.078),
+                                        1.0,
+                                        (0x10000 as f64) / ((wb_values[25] as f64) * 382.0 * 1.173),
+                                    ]);
+                                }
                             }
                             None::<()>
                         });
@@ -241,7 +244,9 @@ impl Dump for ErfFile {
         {
             let indent = indent + 1;
             let _ = self.container();
-            self.container.get().unwrap().write_dump(out, indent);
+            if let Some(container) = self.container.get() {
+                container.write_dump(out, indent);
+            }
         }
         dump_writeln!(out, indent, "</Epson ERF File>");
     }
-- 
2.43.0


From b55ec4eeb6ad72852ac9e43466844061ebceb3eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:53 +0000
Subject: [PATCH 28/91] fix: don't panic dumping a file whose container can't
 be loaded

---
 src/canon/cr2.rs |  4 +++-
 src/canon/cr3.rs |  4 +++-
 src/dng.rs       |  4 +++-
 src/fujifilm.rs  |  4 +++-
 src/jpeg.rs      |  4 +++-
 src/nikon.rs     |  4 +++-
 src/olympus.rs   |  4 +++-
 src/pentax.rs    |  4 +++-
 src/sony.rs      | 13 ++++++++-----
 9 files changed, 32 insertions(+), 13 deletions(-)

diff --git a/src/canon/cr2.rs b/src/canon/cr2.rs
index d8249d7..fcda789 100644
--- a/src/canon/cr2.rs
+++ b/src/canon/cr2.rs
@@ -443,7 +443,9 @@ impl Dump for Cr2File {
         {
             let indent = indent + 1;
             let _ = self.container();
-            self.container.get().unwrap().write_dump(out, indent);
+            if let Some(container) = self.container.get() {
+                container.write_dump(out, indent);
+            }
         }
         dump_writeln!(out, indent, "</Canon CR2 File>");
     }
diff --git a/src/canon/cr3.rs b/src/canon/cr3.rs
index c3e3bab..d28312d 100644
--- a/src/canon/cr3.rs
+++ b/src/canon/cr3.rs
@@ -254,7 +254,9 @@ impl Dump for Cr3File {
         {
             let indent = indent + 1;
             let _ = self.container();
-            self.container.get().unwrap().write_dump(out, indent);
+            if let Some(container) = self.container.get() {
+                container.write_dump(out, indent);
+            }
         }
         dump_writeln!(out, indent, "</Canon CR3 File>");
     }
diff --git a/src/dng.rs b/src/dng.rs
index b30f3d2..3cdfdf0 100644
--- a/src/dng.rs
+++ b/src/dng.rs
@@ -448,7 +448,9 @@ impl Dump for DngFile {
         {
             let indent = indent + 1;
             let _ = self.container();
-            self.container.get().unwrap().write_dump(out, indent);
+            if let Some(container) = self.container.get() {
+                container.write_dump(out, indent);
+            }
         }
         dump_writeln!(out, indent, "</DNG File>");
     }
diff --git a/src/fujifilm.rs b/src/fujifilm.rs
index 090911f..0109feb 100644
--- a/src/fujifilm.rs
+++ b/src/fujifilm.rs
@@ -587,7 +587,9 @@ impl Dump for RafFile {
     fn write_dump<W: std::io::Write + ?Sized>(&self, out: &mut W, indent: u32) {
         dump_writeln!(out, indent, "<Fujifilm RAF File>");
         let _ = self.container();
-        self.container.get().unwrap().write_dump(out, indent + 1);
+        if let Some(container) = self.container.get() {
+            container.write_dump(out, indent + 1);
+        }
         dump_writeln!(out, indent, "</Fujfilm RAF File>");
     }
 }
diff --git a/src/jpeg.rs b/src/jpeg.rs
index a1a73b9..07fa8aa 100644
--- a/src/jpeg.rs
+++ b/src/jpeg.rs
@@ -146,7 +146,9 @@ impl Dump for JpegFile {
         {
             let indent = indent + 1;
             let _ = self.container();
-            self.container.get().unwrap().write_dump(out, indent);
+            if let Some(container) = self.container.get() {
+                container.write_dump(out, indent);
+            }
         }
         dump_writeln!(out, indent, "</JPEG File>");
     }
diff --git a/src/nikon.rs b/src/nikon.rs
index 95fdae3..36bf385 100644
--- a/src/nikon.rs
+++ b/src/nikon.rs
@@ -733,7 +733,9 @@ impl Dump for NefFile {
         {
             let indent = indent + 1;
             let _ = self.container();
-            self.container.get().unwrap().write_dump(out, indent);
+            if let Some(container) = self.container.get() {
+                container.write_dump(out, indent);
+            }
         }
         dump_writeln!(out, indent, "</Nikon NEF File>");
     }
diff --git a/src/olympus.rs b/src/olympus.rs
index 1af1493..f47bb9b 100644
--- a/src/olympus.rs
+++ b/src/olympus.rs
@@ -628,7 +628,9 @@ impl Dump for OrfFile {
         {
             let indent = indent + 1;
             let _ = self.container();
-            self.container.get().unwrap().write_dump(out, indent);
+            if let Some(container) = self.container.get() {
+                container.write_dump(out, indent);
+            }
             if let Some(mnote) = self.maker_note_ifd() {
                 if let Some(dir) = self.olympus_cs_ifd(mnote) {
                     dir.write_dump(out, indent);
diff --git a/src/pentax.rs b/src/pentax.rs
index 3a768f9..5e9b28a 100644
--- a/src/pentax.rs
+++ b/src/pentax.rs
@@ -577,7 +577,9 @@ impl Dump for PefFile {
         {
             let indent = indent + 1;
             let _ = self.container();
-            self.container.get().unwrap().write_dump(out, indent);
+            if let Some(container) = self.container.get() {
+                container.write_dump(out, indent);
+            }
         }
         dump_writeln!(out, indent, "</Pentax PEF File>");
     }
diff --git a/src/sony.rs b/src/sony.rs
index 1aaf383..b6a3cd2 100644
--- a/src/sony.rs
+++ b/src/sony.rs
@@ -824,12 +824,13 @@ impl ArwFile {
         let offset = dir
             .entry(exif::DNG_TAG_DNG_PRIVATE)
             .and_then(|entry| entry.value_array::<u8>(dir.endian()))
+            .filter(|bytes| bytes.len() >= 4)
             .map(|bytes| u32::read::<LittleEndian>(&bytes))
             .ok_or(Error::NotFound)?;
-        let view = Viewer::create_view(&self.reader, offset as u64).expect("Created view");
+        let view = Viewer::create_view(&self.reader, offset as u64)?;
         let mut container = MrwContainer::new(view);
         container.set_endian(Endian::Little);
-        container.load().expect("Failed to load container");
+        container.load()?;
 
         Ok(container)
     }
@@ -1070,8 +1071,8 @@ impl ArwFile {
         // They don't match the ImageWidth and ImageHeight
         let width = prd.x; //3881;
         let height = prd.y; //2608;
-        let byte_len = width * height * 2;
-        let data = container.load_buffer8(offset as u64, byte_len as u64);
+        let byte_len = width as u64 * height as u64 * 2;
+        let data = container.load_buffer8(offset as u64, byte_len);
 
         let mut rawimage = RawImage::with_data8(
             width,
@@ -1190,7 +1191,9 @@ impl Dump for ArwFile {
         {
             let indent = indent + 1;
             let _ = self.container();
-            self.container.get().unwrap().write_dump(out, indent);
+            if let Some(container) = self.container.get() {
+                container.write_dump(out, indent);
+            }
         }
         dump_writeln!(out, indent, "</Sony ARW File>");
     }
-- 
2.43.0


From 6522469030a91b5388def0f9b27c66d91d58d0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:54 +0000
Subject: [PATCH 29/91] fix: ARW: don't panic on malformed files

---
 src/sony.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/sony.rs b/src/sony.rs
index b6a3cd2..1eb0199 100644
--- a/src/sony.rs
+++ b/src/sony.rs
@@ -901,7 +901,7 @@ impl ArwFile {
     /// get it at the specified `offset`.
     fn aspect_ratio_2010(&self, offset: usize) -> Option<AspectRatio> {
         let camera_settings = self.camera_settings_2010()?;
-        match camera_settings[offset] {
+        match *camera_settings.get(offset)? {
             0 => Some(AspectRatio(16, 9)),
             1 => Some(AspectRatio(4, 3)),
             2 => Some(AspectRatio(3, 2)),
@@ -917,7 +917,7 @@ impl ArwFile {
 
     fn aspect_ratio_cs(&self, offset: usize) -> Option<AspectRatio> {
         let camera_settings = self.camera_settings(Endian::Big)?;
-        match camera_settings[offset] {
+        match *camera_settings.get(offset)? {
             1 => Some(AspectRatio(3, 2)),
             2 => Some(AspectRatio(16, 9)),
             _ => None,
@@ -926,7 +926,7 @@ impl ArwFile {
 
     fn aspect_ratio_cs3(&self) -> Option<AspectRatio> {
         let camera_settings = self.camera_settings3()?;
-        match camera_settings[10] {
+        match *camera_settings.get(10)? {
             4 => Some(AspectRatio(3, 2)),
             8 => Some(AspectRatio(16, 9)),
             _ => None,
@@ -1030,10 +1030,14 @@ impl ArwFile {
                     });
                 let aspect_ratio = self.aspect_ratio();
                 rawimage.set_user_crop(user_crop, aspect_ratio);
-                if let Some(wb) = dir.int_value_array(exif::ARW_TAG_WB_RGGB_LEVELS).map(|v| {
-                    let g = v[1] as f64;
-                    [g / v[0] as f64, 1.0, g / v[3] as f64]
-                }) {
+                if let Some(wb) = dir
+                    .int_value_array(exif::ARW_TAG_WB_RGGB_LEVELS)
+                    .filter(|v| v.len() >= 4)
+                    .map(|v| {
+                        let g = v[1] as f64;
+                        [g / v[0] as f64, 1.0, g / v[3] as f64]
+                    })
+                {
                     rawimage.set_as_shot_neutral(&wb);
                 }
                 // XXX This here and Pentax get the levels from the builtins.
-- 
2.43.0


From 7e5748ab271c02c46117c47b158e97b92f63754a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:06 +0000
Subject: [PATCH 30/91] fix: Pentax: use the last bytes of the data, no panic
 on malformed files

---
 src/pentax.rs            | 15 +++++---
 src/pentax/decompress.rs | 79 +++++++++++++++++++++++++++++++---------
 2 files changed, 71 insertions(+), 23 deletions(-)

diff --git a/src/pentax.rs b/src/pentax.rs
index 5e9b28a..d31f0af 100644
--- a/src/pentax.rs
+++ b/src/pentax.rs
@@ -418,8 +418,9 @@ impl RawFileImpl for PefFile {
             self.ifd(tiff::IfdType::MakerNote).and_then(|mnote| {
                 // The MakerNote has a MNOTE_PENTAX_PREVIEW_IMAGE_SIZE
                 // That contain w in [0] and h in [1]
-                let start =
-                    mnote.uint_value(exif::MNOTE_PENTAX_PREVIEW_IMAGE_START)? + mnote.mnote_offset;
+                let start = mnote
+                    .uint_value(exif::MNOTE_PENTAX_PREVIEW_IMAGE_START)?
+                    .checked_add(mnote.mnote_offset)?;
                 let len = mnote.uint_value(exif::MNOTE_PENTAX_PREVIEW_IMAGE_LENGTH)?;
                 container
                     .add_thumbnail_from_stream(start, len, &mut thumbnails)
@@ -524,10 +525,12 @@ impl RawFileImpl for PefFile {
                     }
                     if let Some(wb) = mnote.uint_value_array(exif::MNOTE_PENTAX_WHITE_BALANCE) {
                         // ExifTool and the MNOTE_PENTAX_TAG_NAMES have this as WhitePoint
-                        let g = wb[1] as f64;
-                        let wb = [g / wb[0] as f64, 1.0, g / wb[3] as f64];
-                        rawdata.set_as_shot_neutral(&wb);
-                        probe!(self.probe, "pef.wb", "true");
+                        if wb.len() >= 4 {
+                            let g = wb[1] as f64;
+                            let wb = [g / wb[0] as f64, 1.0, g / wb[3] as f64];
+                            rawdata.set_as_shot_neutral(&wb);
+                            probe!(self.probe, "pef.wb", "true");
+                        }
                     }
                 }
                 probe!(
diff --git a/src/pentax/decompress.rs b/src/pentax/decompress.rs
index 8c316dd..691aaf8 100644
--- a/src/pentax/decompress.rs
+++ b/src/pentax/decompress.rs
@@ -30,7 +30,7 @@
 use std::io::BufRead;
 
 use crate::container::Endian;
-use crate::Result;
+use crate::{Error, Result};
 
 const DECODE_CACHE_BITS: u32 = 13;
 
@@ -40,14 +40,23 @@ pub(super) fn decompress(
     width: usize,
     height: usize,
 ) -> Result<Vec<u16>> {
-    let mut out = vec![0_u16; width * height];
+    if width < 2 {
+        return Err(Error::Decompression(format!(
+            "Pentax: invalid width {width}"
+        )));
+    }
+    // A sample is at least one bit.
+    let count = width
+        .checked_mul(height)
+        .filter(|count| count / 8 <= src.len())
+        .ok_or_else(|| Error::Decompression("Pentax: not enough data".to_string()))?;
+    let mut out = vec![0_u16; count];
     let mut htable = HuffTable::default();
 
     /* Attempt to read huffman table, if found in MakerNote */
     if let Some((huff, endian)) = huff {
         let mut cursor = std::io::Cursor::new(huff);
         let depth: usize = (endian.read_u16_from(&mut cursor)? as usize + 12) & 0xf;
-        // XXX depth > 16 will cause issues.
 
         cursor.consume(12);
 
@@ -58,7 +67,16 @@ pub(super) fn decompress(
 
         let mut v1 = [0_u32; 16];
         let pos = cursor.position() as usize;
-        for (i, value) in huff[pos..].iter().enumerate().take(depth) {
+        let lengths = huff
+            .get(pos..)
+            .filter(|lengths| lengths.len() >= depth)
+            .ok_or_else(|| Error::Decompression("Pentax: Huffman table too short".to_string()))?;
+        for (i, value) in lengths.iter().enumerate().take(depth) {
+            if *value == 0 || *value > 12 {
+                return Err(Error::Decompression(
+                    "Pentax: invalid Huffman code length".to_string(),
+                ));
+            }
             v1[i] = *value as u32;
         }
 
@@ -107,17 +125,22 @@ pub(super) fn decompress(
     let mut pred_left2: i32;
 
     for row in 0..height {
-        pred_up1[row & 1] += htable.huff_decode(&mut pump)?;
-        pred_up2[row & 1] += htable.huff_decode(&mut pump)?;
+        pred_up1[row & 1] = pred_up1[row & 1].wrapping_add(htable.huff_decode(&mut pump)?);
+        pred_up2[row & 1] = pred_up2[row & 1].wrapping_add(htable.huff_decode(&mut pump)?);
         pred_left1 = pred_up1[row & 1];
         pred_left2 = pred_up2[row & 1];
         out[row * width] = pred_left1 as u16;
         out[row * width + 1] = pred_left2 as u16;
         for col in (2..width).step_by(2) {
-            pred_left1 += htable.huff_decode(&mut pump)?;
-            pred_left2 += htable.huff_decode(&mut pump)?;
+            pred_left1 = pred_left1.wrapping_add(htable.huff_decode(&mut pump)?);
             out[row * width + col] = pred_left1 as u16;
-            out[row * width + col + 1] = pred_left2 as u16;
+            if col + 1 < width {
+                pred_left2 = pred_left2.wrapping_add(htable.huff_decode(&mut pump)?);
+                out[row * width + col + 1] = pred_left2 as u16;
+            }
+        }
+        if pump.overrun() {
+            return Err(Error::Decompression("Pentax: truncated data".to_string()));
         }
     }
     Ok(out)
@@ -154,6 +177,9 @@ impl HuffTable {
             }
             self.nbits -= 1;
         }
+        if self.nbits == 0 {
+            return Err(Error::Decompression("Pentax: no Huffman code".to_string()));
+        }
         self.hufftable = vec![(0, 0); 1 << self.nbits];
 
         // Fill in the table itself
@@ -162,7 +188,10 @@ impl HuffTable {
         for len in 0..self.nbits {
             for _ in 0..self.bits[len as usize + 1] {
                 for _ in 0..(1 << (self.nbits - len - 1)) {
-                    self.hufftable[h] = (len as u8 + 1, self.huffval[pos] as u8);
+                    let code = self.hufftable.get_mut(h).ok_or_else(|| {
+                        Error::Decompression("Pentax: invalid Huffman table".to_string())
+                    })?;
+                    *code = (len as u8 + 1, self.huffval[pos] as u8);
                     h += 1;
                 }
                 pos += 1;
@@ -190,13 +219,18 @@ impl HuffTable {
 
     pub(super) fn huff_decode(&self, pump: &mut dyn BitPump) -> Result<i32> {
         let code = pump.peek_bits(DECODE_CACHE_BITS) as usize;
-        if let Some((bits, decode)) = self.decodecache[code] {
+        let (bits, decode) = if let Some((bits, decode)) = self.decodecache[code] {
             pump.consume_bits(bits as u32);
-            Ok(decode as i32)
+            (bits, decode as i32)
         } else {
-            let decode = self.huff_decode_slow(pump);
-            Ok(decode.1)
+            self.huff_decode_slow(pump)
+        };
+        if bits == 0 {
+            return Err(Error::Decompression(
+                "Pentax: invalid Huffman code".to_string(),
+            ));
         }
+        Ok(decode)
     }
 
     fn huff_decode_slow(&self, pump: &mut dyn BitPump) -> (u8, i32) {
@@ -294,14 +328,25 @@ impl<'a> BitPumpMSB<'a> {
     }
 }
 
+impl BitPumpMSB<'_> {
+    /// Whether more bits than there are were consumed.
+    fn overrun(&self) -> bool {
+        self.pos * 8 - self.nbits as usize > self.buffer.len() * 8
+    }
+}
+
 impl BitPump for BitPumpMSB<'_> {
     #[inline(always)]
     fn peek_bits(&mut self, num: u32) -> u32 {
         if num > self.nbits {
-            let inbits = if self.pos + 4 >= self.buffer.len() {
-                0_u64
+            let rest = self.buffer.get(self.pos..).unwrap_or_default();
+            let inbits = if rest.len() >= 4 {
+                Endian::Big.read_u32(rest) as u64
             } else {
-                Endian::Big.read_u32(&self.buffer[self.pos..]) as u64
+                // The end of the data, padded with zeros.
+                let mut last = [0_u8; 4];
+                last[..rest.len()].copy_from_slice(rest);
+                Endian::Big.read_u32(&last) as u64
             };
             self.bits = (self.bits << 32) | inbits;
             self.pos += 4;
-- 
2.43.0


From 855e4dcafce2a655b483a8f48e50cdaf4c364c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:31 +0000
Subject: [PATCH 31/91] fix: Olympus: the second field of interlaced data is
 past the byte count, no panic on malformed files

---
 src/olympus.rs            | 72 ++++++++++++++++++++++++---------------
 src/olympus/decompress.rs | 16 +++++----
 2 files changed, 55 insertions(+), 33 deletions(-)

diff --git a/src/olympus.rs b/src/olympus.rs
index f47bb9b..e6343e1 100644
--- a/src/olympus.rs
+++ b/src/olympus.rs
@@ -209,24 +209,26 @@ impl OrfFile {
         }
     }
 
+    /// Offset of the second field of interlaced data
+    fn interlaced_offset(width: usize, height: usize) -> usize {
+        let half = (height + 1) >> 1;
+        // Interlaced data seems to be 2048 bytes aligned
+        (((half * width * 3 / 2) >> 11) + 1) << 11
+    }
+
     // Inspired from rawloader::decoders::packed::decode_12be_interlaced
     //  https://github.com/pedrocr/rawloader/blob/master/src/decoders/packed.rs#L182
     fn decode_12be_olympus_interlaced(buf: &[u8], width: usize, height: usize) -> Vec<u16> {
-        let half = (height + 1) >> 1;
-        // Interlaced data seems to be 2048 bytes aligned
-        let interlaced_offset = (((half * width * 3 / 2) >> 11) + 1) << 11;
-        let interlaced = &buf[interlaced_offset..];
+        let interlaced_offset = Self::interlaced_offset(width, height);
+        let interlaced = buf.get(interlaced_offset..).unwrap_or_default();
 
         let mut out: Vec<u16> = vec![0; width * height];
         out.par_chunks_mut(width)
             .enumerate()
             .for_each(|(row, outb)| {
                 let off = row / 2 * width * 12 / 8;
-                let inb = if (row % 2) == 0 {
-                    &buf[off..]
-                } else {
-                    &interlaced[off..]
-                };
+                let inb = if (row % 2) == 0 { buf } else { interlaced };
+                let inb = inb.get(off..).unwrap_or_default();
 
                 let mut i = 0;
                 let mut o = 0;
@@ -238,7 +240,9 @@ impl OrfFile {
                     }
                     let out_slice = &mut outb[o..];
                     out_slice[0] = ((in_slice[0] as u16) << 4) | ((in_slice[1] as u16) >> 4);
-                    out_slice[1] = ((in_slice[1] as u16 & 0x0f) << 8) | in_slice[2] as u16;
+                    if let Some(out) = out_slice.get_mut(1) {
+                        *out = ((in_slice[1] as u16 & 0x0f) << 8) | in_slice[2] as u16;
+                    }
                     i += 3;
                     o += 2;
                 }
@@ -252,11 +256,11 @@ impl OrfFile {
     fn decode_12be_olympus(buf: &[u8], width: usize, height: usize) -> Vec<u16> {
         let mut out: Vec<u16> = vec![0; width * height];
 
-        let mut i = 0;
-        let mut o = 0;
-        while i < buf.len() {
-            let in_slice = &buf[i..];
-            let out_slice = &mut out[o..];
+        for (inb, outb) in buf.chunks(12).zip(out.chunks_mut(8)) {
+            // The last chunk might be incomplete.
+            let mut in_slice = [0_u8; 12];
+            in_slice[..inb.len()].copy_from_slice(inb);
+            let mut out_slice = [0_u16; 8];
 
             out_slice[0] = ((in_slice[3] as u16) << 4) | (in_slice[2] as u16 >> 4);
             out_slice[1] = ((in_slice[2] as u16 & 0x0f) << 8) | in_slice[1] as u16;
@@ -267,8 +271,7 @@ impl OrfFile {
             out_slice[6] = ((in_slice[10] as u16) << 4) | (in_slice[9] as u16 >> 4);
             out_slice[7] = ((in_slice[9] as u16 & 0x0f) << 8) | in_slice[8] as u16;
 
-            i += 12;
-            o += 8;
+            outb.copy_from_slice(&out_slice[..outb.len()]);
         }
 
         out
@@ -278,12 +281,14 @@ impl OrfFile {
     fn decompress(&self, mut data: RawImage) -> RawImage {
         let width = data.width();
         let height = data.height();
+        let row_size = width as u64 * 12 / 8;
+        let packed_size = height as u64 * (row_size + (width as u64 + 2) / 10);
 
         if let Some(d) = data
             .data8()
             .or_else(|| data.data16_as_u8())
             .and_then(|data8| {
-                if data8.len() == (height * ((width * 12 / 8) + ((width + 2) / 10))) as usize {
+                if data8.len() as u64 == packed_size {
                     probe!(self.probe, "orf.decompress.unpack", "true");
                     let mut buf = data8;
                     crate::decompress::unpack_from_reader(
@@ -297,14 +302,26 @@ impl OrfFile {
                         Endian::Little,
                     )
                     .ok()
-                } else if data8.len() == (height * width * 3 / 2) as usize {
+                } else if data8.len() as u64 == height as u64 * width as u64 * 3 / 2 {
                     // It seems that this is the only way™.
                     // Some decoder like rawloader use 3500,
                     // but SP565UZ is 3664 and interlaced.
                     if width < 3700 {
                         probe!(self.probe, "orf.decompress.interlaced", "true");
+                        // Because of the alignment the second field goes past the
+                        // byte count.
+                        let full_len = Self::interlaced_offset(width as usize, height as usize)
+                            as u64
+                            + (height as u64 / 2) * row_size;
+                        let full = self
+                            .cfa_dir()
+                            .and_then(|dir| dir.uint_value(exif::EXIF_TAG_STRIP_OFFSETS))
+                            .zip(self.container.get())
+                            .map(|(offset, container)| {
+                                container.load_buffer8(offset as u64, full_len)
+                            });
                         Some(Self::decode_12be_olympus_interlaced(
-                            data8,
+                            full.as_deref().unwrap_or(data8),
                             width as usize,
                             height as usize,
                         ))
@@ -458,8 +475,8 @@ impl RawFileImpl for OrfFile {
                     {
                         let start = dir
                             .value::<u32>(exif::ORF_TAG_CS_PREVIEW_IMAGE_START)
-                            .unwrap_or(0)
-                            + mnote.mnote_offset;
+                            .and_then(|start| start.checked_add(mnote.mnote_offset))
+                            .unwrap_or(0);
                         let len = dir
                             .value::<u32>(exif::ORF_TAG_CS_PREVIEW_IMAGE_LENGTH)
                             .unwrap_or(0);
@@ -503,7 +520,7 @@ impl RawFileImpl for OrfFile {
             .map(|mut data| {
                 let width = data.width();
                 let height = data.height();
-                let compression = if data.data_size() < width as usize * height as usize * 2 {
+                let compression = if (data.data_size() as u64) < width as u64 * height as u64 * 2 {
                     data.set_compression(tiff::Compression::Olympus);
                     data.set_data_type(DataType::CompressedRaw);
                     tiff::Compression::Olympus
@@ -587,15 +604,16 @@ impl RawFileImpl for OrfFile {
                             }
                             let x = values[0];
                             let y = values[1];
+                            // The second corner is inclusive.
                             let mut crop = Rect {
                                 x,
                                 y,
-                                width: values[2] + 1 - x,
-                                height: values[3] + 1 - y,
+                                width: values[2].checked_sub(x)?.checked_add(1)?,
+                                height: values[3].checked_sub(y)?.checked_add(1)?,
                             };
                             if let Some(active_area) = active_area {
-                                crop.x += active_area.x;
-                                crop.y += active_area.y;
+                                crop.x = crop.x.checked_add(active_area.x)?;
+                                crop.y = crop.y.checked_add(active_area.y)?;
                             }
 
                             Some(crop)
diff --git a/src/olympus/decompress.rs b/src/olympus/decompress.rs
index 37f519d..8aabcb7 100644
--- a/src/olympus/decompress.rs
+++ b/src/olympus/decompress.rs
@@ -35,7 +35,12 @@ pub fn decompress_olympus(input: &[u8], w: usize, h: usize) -> Result<Vec<u16>>
             "ORF: Compressed data too small.".into(),
         ));
     }
-    let mut output: Vec<u16> = vec![0; h * w];
+    // A sample is at least 6 bits.
+    let count = h
+        .checked_mul(w)
+        .filter(|count| count / 8 <= input.len())
+        .ok_or_else(|| Error::Decompression("ORF: Not enough data.".into()))?;
+    let mut output: Vec<u16> = vec![0; count];
     let data = output.as_mut_slice();
 
     // XXX can we avoid the initialization to 0.
@@ -61,10 +66,9 @@ pub fn decompress_olympus(input: &[u8], w: usize, h: usize) -> Result<Vec<u16>>
     for y in 0..h {
         let mut acarry = [[0_i32; 3]; 2];
 
-        for x in 0..(w / 2) {
-            let col: usize = x * 2;
+        for col in (0..w).step_by(2) {
             // p is for parity. We go even and odds raw.
-            for p in 0..2 {
+            for p in 0..std::cmp::min(2, w - col) {
                 let i = if acarry[p][2] < 3 { 2 } else { 0 };
                 let mut nbits = 2 + i;
                 while (nbits + i) < 16 && acarry[p][0] as u16 >> (nbits + i) != 0 {
@@ -125,7 +129,7 @@ pub fn decompress_olympus(input: &[u8], w: usize, h: usize) -> Result<Vec<u16>>
                         nw[p]
                     };
                     // Set predictor
-                    wo[p] = pred + ((diff << 2) | low);
+                    wo[p] = (pred + ((diff << 2) | low)) as u16 as i32;
                     wo[p] as u16
                 } else {
                     let n: i32 = data[(y - 2) * w + col + p] as i32;
@@ -144,7 +148,7 @@ pub fn decompress_olympus(input: &[u8], w: usize, h: usize) -> Result<Vec<u16>>
 
                     nw[p] = n;
                     // Set predictors
-                    wo[p] = pred + ((diff << 2) | low);
+                    wo[p] = (pred + ((diff << 2) | low)) as u16 as i32;
                     wo[p] as u16
                 };
             }
-- 
2.43.0


From 7b93b0ccf5a8cca33b4ab060cd255d9c38fe3aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:05 +0000
Subject: [PATCH 32/91] fix: Panasonic: black level default, last samples of a
 chunk, no panic on malformed files

---
 src/panasonic.rs            | 80 +++++++++++++++++++------------------
 src/panasonic/decompress.rs | 19 +++------
 2 files changed, 47 insertions(+), 52 deletions(-)

diff --git a/src/panasonic.rs b/src/panasonic.rs
index 890ff97..137a791 100644
--- a/src/panasonic.rs
+++ b/src/panasonic.rs
@@ -985,10 +985,10 @@ impl RawFileImpl for Rw2File {
             let data_type = if has_raw_offset {
                 probe!(self.probe, "rw2.compression", "panasonic");
                 DataType::CompressedRaw
-            } else if real_len >= (pixel_count * 2) as u64 {
+            } else if real_len >= pixel_count as u64 * 2 {
                 probe!(self.probe, "rw2.compression", "unpacked");
                 DataType::Raw
-            } else if real_len >= (pixel_count * 3 / 2) as u64 {
+            } else if real_len >= pixel_count as u64 * 3 / 2 {
                 // Need to unpack
                 probe!(self.probe, "rw2.compression", "packed");
                 packed = true;
@@ -1009,19 +1009,23 @@ impl RawFileImpl for Rw2File {
                     let pattern = mosaic_pattern.unwrap_or_default();
                     let buffer = self.container()?.load_buffer8(offset.offset, offset.len);
                     if !skip_decompress && compression == Compression::PanasonicRaw1 {
-                        decompress::panasonic_raw1(&buffer).ok().map(|raw| {
-                            (
-                                Compression::None,
-                                RawImage::with_data16(
-                                    width,
-                                    height,
-                                    bpc,
-                                    DataType::Raw,
-                                    raw,
-                                    pattern.clone(),
-                                ),
-                            )
-                        })
+                        decompress::panasonic_raw1(&buffer)
+                            .ok()
+                            // Not enough data for the image
+                            .filter(|raw| raw.len() >= pixel_count as usize)
+                            .map(|raw| {
+                                (
+                                    Compression::None,
+                                    RawImage::with_data16(
+                                        width,
+                                        height,
+                                        bpc,
+                                        DataType::Raw,
+                                        raw,
+                                        pattern.clone(),
+                                    ),
+                                )
+                            })
                     } else {
                         None
                     }
@@ -1119,27 +1123,24 @@ impl RawFileImpl for Rw2File {
             };
             raw_data.set_user_crop(Some(user_crop), None);
 
+            let white = 1_u32
+                .checked_shl(bpc as u32)
+                .map_or(u32::MAX, |white| white - 1);
             let wr = cfa
                 .uint_value(exif::RW2_TAG_LINEARITY_LIMIT_RED)
-                .unwrap_or((1 << bpc) - 1) as u16;
+                .unwrap_or(white) as u16;
             let wg = cfa
                 .uint_value(exif::RW2_TAG_LINEARITY_LIMIT_GREEN)
-                .unwrap_or((1 << bpc) - 1) as u16;
+                .unwrap_or(white) as u16;
             let wb = cfa
                 .uint_value(exif::RW2_TAG_LINEARITY_LIMIT_BLUE)
-                .unwrap_or((1 << bpc) - 1) as u16;
+                .unwrap_or(white) as u16;
 
             raw_data.set_whites([wr, wg, wb, wg]);
 
-            let br = cfa
-                .uint_value(exif::RW2_TAG_BLACK_LEVEL_RED)
-                .unwrap_or((1 << bpc) - 1) as u16;
-            let bg = cfa
-                .uint_value(exif::RW2_TAG_BLACK_LEVEL_GREEN)
-                .unwrap_or((1 << bpc) - 1) as u16;
-            let bb = cfa
-                .uint_value(exif::RW2_TAG_BLACK_LEVEL_BLUE)
-                .unwrap_or((1 << bpc) - 1) as u16;
+            let br = cfa.uint_value(exif::RW2_TAG_BLACK_LEVEL_RED).unwrap_or(0) as u16;
+            let bg = cfa.uint_value(exif::RW2_TAG_BLACK_LEVEL_GREEN).unwrap_or(0) as u16;
+            let bb = cfa.uint_value(exif::RW2_TAG_BLACK_LEVEL_BLUE).unwrap_or(0) as u16;
             raw_data.set_blacks([br, bg, bb, bg]);
 
             let wbr = cfa.uint_value(exif::RW2_TAG_WB_RED_LEVEL);
@@ -1193,18 +1194,19 @@ impl Dump for Rw2File {
         {
             let indent = indent + 1;
             let _ = self.container();
-            let container = self.container.get().unwrap();
-            container.write_dump(out, indent);
-            if let Some(camera_tiff) = self.main_ifd().and_then(|dir| {
-                // id = "PanasonicRaw.CameraIfd"
-                dir.tiff_in_entry(
-                    container,
-                    exif::RW2_TAG_CAMERA_IFD,
-                    Some(&RAW_CAMERAIFD_TAG_NAMES),
-                )
-            }) {
-                if let Some(camera_ifd) = camera_tiff.directory(0) {
-                    camera_ifd.write_dump(out, indent);
+            if let Some(container) = self.container.get() {
+                container.write_dump(out, indent);
+                if let Some(camera_tiff) = self.main_ifd().and_then(|dir| {
+                    // id = "PanasonicRaw.CameraIfd"
+                    dir.tiff_in_entry(
+                        container,
+                        exif::RW2_TAG_CAMERA_IFD,
+                        Some(&RAW_CAMERAIFD_TAG_NAMES),
+                    )
+                }) {
+                    if let Some(camera_ifd) = camera_tiff.directory(0) {
+                        camera_ifd.write_dump(out, indent);
+                    }
                 }
             }
         }
diff --git a/src/panasonic/decompress.rs b/src/panasonic/decompress.rs
index 12aa38f..84a8a6f 100644
--- a/src/panasonic/decompress.rs
+++ b/src/panasonic/decompress.rs
@@ -107,9 +107,12 @@ fn decode_chunk(bits: ReverseBits) -> [u16; 14] {
     let mut color_nonzero = [false, false];
     let mut out = [0u16; 14];
 
-    fn load_initial_px(color_idx: usize, nonzero: &mut [bool; 2], bits: &mut BitsCursor) -> u16 {
+    fn load_initial_px(px_idx: usize, nonzero: &mut [bool; 2], bits: &mut BitsCursor) -> u16 {
+        let color_idx = px_idx & 1;
         let top = bits.next(8);
-        let bottom = if top == 0 && !nonzero[color_idx] {
+        // The last pixel of each color always has its 4 lower bits: the
+        // chunk is 128 bits.
+        let bottom = if top == 0 && px_idx < 12 {
             0
         } else {
             nonzero[color_idx] = true;
@@ -133,18 +136,8 @@ fn decode_chunk(bits: ReverseBits) -> [u16; 14] {
             let px = if color_nonzero[coloridx] {
                 decode_next_px(bits.next(8), shift, prev)
             } else {
-                load_initial_px(coloridx, &mut color_nonzero, &mut bits)
+                load_initial_px(px_allidx, &mut color_nonzero, &mut bits)
             };
-            /* TODO (done? this seems to be the "first nonzero pixel
-             * is lossless" problem):
-             * dcraw code does an odd thing:
-             * it will read extra 4 bits for the last 2 pixels if
-             * there's all 0's in the chunk. This should send the
-             * stream out of whack.  The pana_bits reader strongly
-             * suggests that the stream of data is separated into
-             * 16-byte chunks, so reading another byte (or half-byte
-             * if interrupted) would contradict it.
-             */
             out[px_allidx] = px;
         }
     }
-- 
2.43.0


From 466365ddb3d97f35519db09f9eb83020cbf8a119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:55 +0000
Subject: [PATCH 33/91] fix: geometry: exact aspect ratio cropping, no overflow
 nor invalid ratio

---
 src/geometry.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/geometry.rs b/src/geometry.rs
index a15f2e5..b16f676 100644
--- a/src/geometry.rs
+++ b/src/geometry.rs
@@ -84,18 +84,21 @@ pub struct AspectRatio(pub u32, pub u32);
 impl AspectRatio {
     /// Crop the size to the aspect ratio.
     pub fn crop(&self, from: Size) -> Size {
-        let ratio = self.0 as f64 / self.1 as f64;
-        if (from.width as f64 / from.height as f64) > ratio {
-            let new_width = from.height as f64 * ratio;
+        if self.0 == 0 || self.1 == 0 {
+            log::error!("Invalid aspect ratio {self}");
+            return from;
+        }
+        let (ratio_w, ratio_h) = (self.0 as u64, self.1 as u64);
+        let (width, height) = (from.width as u64, from.height as u64);
+        if width * ratio_h > height * ratio_w {
             Size {
-                width: new_width as u32,
+                width: (height * ratio_w / ratio_h) as u32,
                 height: from.height,
             }
         } else {
-            let new_height = from.width as f64 / ratio;
             Size {
                 width: from.width,
-                height: new_height as u32,
+                height: (width * ratio_h / ratio_w) as u32,
             }
         }
     }
@@ -107,8 +110,8 @@ impl AspectRatio {
         let offset_x = (from.width as i64 - cropped_size.width as i64).abs() / 2;
         Rect::new(
             Point {
-                x: from.x + offset_x as u32,
-                y: from.y + offset_y as u32,
+                x: from.x.saturating_add(offset_x as u32),
+                y: from.y.saturating_add(offset_y as u32),
             },
             cropped_size,
         )
-- 
2.43.0


From d363d193177e6e9a834915e11b53b8811debbc16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:55 +0000
Subject: [PATCH 34/91] fix: RAF: the size of the RAF data tag is in bytes,
 don't expose uninitialised memory

---
 src/fujifilm/raf.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/fujifilm/raf.rs b/src/fujifilm/raf.rs
index 0372d71..0a27014 100644
--- a/src/fujifilm/raf.rs
+++ b/src/fujifilm/raf.rs
@@ -8,7 +8,7 @@ use std::collections::{BTreeMap, HashMap};
 use std::convert::TryFrom;
 use std::io::{Read, Seek, SeekFrom};
 
-use byteorder::{BigEndian, LittleEndian, ReadBytesExt};
+use byteorder::{BigEndian, ByteOrder, LittleEndian, ReadBytesExt};
 use once_cell::unsync::OnceCell;
 
 use crate::container;
@@ -594,14 +594,15 @@ impl MetaContainer {
             let value = if sz == 4 {
                 let v = view.read_u32::<BigEndian>()?;
                 Value::Int(v)
-            } else if tag == TAG_RAF_DATA {
-                let mut v = uninit_vec!(sz as usize);
-                view.read_u32_into::<LittleEndian>(&mut v)?;
-                Value::U32s(v)
             } else {
-                let mut v = uninit_vec!(sz as usize);
+                let mut v = vec![0; sz as usize];
                 view.read_exact(&mut v)?;
-                Value::Bytes(v)
+                if tag == TAG_RAF_DATA {
+                    // The size is in bytes.
+                    Value::U32s(v.chunks_exact(4).map(LittleEndian::read_u32).collect())
+                } else {
+                    Value::Bytes(v)
+                }
             };
             self.tags.insert(tag, value);
         }
-- 
2.43.0


From b871ff21369648efa1294163ac41ed7b54c2b29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:55 +0000
Subject: [PATCH 35/91] fix: RAF: no panic on malformed files

---
 src/fujifilm.rs | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/src/fujifilm.rs b/src/fujifilm.rs
index 0109feb..f3fe9a7 100644
--- a/src/fujifilm.rs
+++ b/src/fujifilm.rs
@@ -366,9 +366,9 @@ impl RawFileImpl for RafFile {
                     raf::Value::Bytes(wb) => {
                         // XXX Unsure of the format here.
                         probe!(self.probe, "raf.wb.old", true);
-                        let g = u16::from_be_bytes(wb[0..2].try_into().ok()?) as f64;
-                        let r = u16::from_be_bytes(wb[2..4].try_into().ok()?) as f64;
-                        let b = u16::from_be_bytes(wb[6..8].try_into().ok()?) as f64;
+                        let g = u16::from_be_bytes(wb.get(0..2)?.try_into().ok()?) as f64;
+                        let r = u16::from_be_bytes(wb.get(2..4)?.try_into().ok()?) as f64;
+                        let b = u16::from_be_bytes(wb.get(6..8)?.try_into().ok()?) as f64;
                         Some([g / r, 1.0, g / b, f64::NAN])
                     }
                     _ => None,
@@ -424,25 +424,28 @@ impl RawFileImpl for RafFile {
                     }) {
                         cfa_offset = dir
                             .value::<u32>(raf::FUJI_TAG_RAW_OFFSET)
-                            .map(|v| v + raw_container.cfa_offset())
-                            .unwrap_or(0) as u64;
+                            .map(|v| v as u64 + raw_container.cfa_offset() as u64)
+                            .unwrap_or(0);
                         cfa_len = dir.value::<u32>(raf::FUJI_TAG_RAW_BYTE_LEN).unwrap_or(0) as u64;
                         bps = dir.value::<u32>(raf::FUJI_TAG_RAW_BPS).unwrap_or(0) as u16;
                         blacks = dir
                             .uint_value_array(raf::FUJI_TAG_RAW_BLACK_LEVEL_GRB)
                             .unwrap_or_else(|| vec![0_u32; 4]);
                         if wb.is_none() {
-                            let wb_grb = dir.uint_value_array(raf::FUJI_TAG_RAW_WB_GRB).map(|v| {
-                                probe!(self.probe, "raf.wb.grb", true);
-                                let g = v[0] as f64;
-                                [g / v[1] as f64, 1.0, g / v[2] as f64, f64::NAN]
-                            });
+                            let wb_grb = dir
+                                .uint_value_array(raf::FUJI_TAG_RAW_WB_GRB)
+                                .filter(|v| v.len() >= 3)
+                                .map(|v| {
+                                    probe!(self.probe, "raf.wb.grb", true);
+                                    let g = v[0] as f64;
+                                    [g / v[1] as f64, 1.0, g / v[2] as f64, f64::NAN]
+                                });
                             wb = wb_grb;
                         }
                     }
                 } else {
                     cfa_offset = raw_container.cfa_offset() as u64 + 2048;
-                    cfa_len = raw_container.cfa_len() as u64 - 2048;
+                    cfa_len = (raw_container.cfa_len() as u64).saturating_sub(2048);
                     // XXX likely 12 is incorrect for 14.
                     bps = if compressed { 12 } else { 16 };
                 }
@@ -450,6 +453,10 @@ impl RawFileImpl for RafFile {
                 if cfa_offset == 0 || cfa_len == 0 {
                     return Err(Error::NotFound);
                 }
+                if bps == 0 || bps > 16 {
+                    log::error!("RAF invalid bits per sample {bps}");
+                    return Err(Error::FormatError);
+                }
                 probe!(self.probe, "raf.raw.bps", bps);
                 let compressed =
                     cfa_len < (bps as u64 * raw_size.width as u64 * raw_size.height as u64 / 8);
@@ -467,6 +474,10 @@ impl RawFileImpl for RafFile {
                         )
                     } else {
                         let mut view = raw_container.borrow_view_mut();
+                        if cfa_offset + cfa_len > view.len() {
+                            log::error!("RAF raw data past the end of file");
+                            return Err(Error::UnexpectedEOF);
+                        }
                         let unpacked = if bps == 14 {
                             let mut unpacked = Vec::with_capacity(
                                 raw_size.width as usize * raw_size.height as usize,
@@ -544,7 +555,7 @@ impl RawFileImpl for RafFile {
                         // But it is assumed that as long as a value is
                         // bigger than width then it's not right.
                         let mut idx = 0_usize;
-                        while v[idx] >= raw_size.width && idx < v.len() {
+                        while idx < v.len() && v[idx] >= raw_size.width {
                             idx += 1;
                         }
                         // We definitely want the index in probe in case
-- 
2.43.0


From f27708b280b2af43e78815f51b07b6dddc27d029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:22 +0000
Subject: [PATCH 36/91] fix: RAF: the compressed data doesn't include the
 padding of the decompressor

---
 src/fujifilm.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fujifilm.rs b/src/fujifilm.rs
index f3fe9a7..c7696d1 100644
--- a/src/fujifilm.rs
+++ b/src/fujifilm.rs
@@ -534,6 +534,8 @@ impl RawFileImpl for RafFile {
                         .ok();
                     }
 
+                    // These were only for the decompressor.
+                    raw.truncate(raw.len() - 16);
                     if let Some(rawbuffer) = rawbuffer {
                         RawImage::with_image_buffer(rawbuffer, DataType::Raw, mosaic)
                     } else {
-- 
2.43.0


From 17d9d309223058f8d91418983beb8332b8e124f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:43 +0000
Subject: [PATCH 37/91] fix: CR2: no panic on malformed maker notes

---
 src/canon/colour.rs | 81 +++++++++++++++++----------------------------
 src/canon/cr2.rs    |  7 ++--
 2 files changed, 34 insertions(+), 54 deletions(-)

diff --git a/src/canon/colour.rs b/src/canon/colour.rs
index 6b76032..b11191b 100644
--- a/src/canon/colour.rs
+++ b/src/canon/colour.rs
@@ -50,10 +50,11 @@ impl ColourFormat {
     /// used.
     pub(crate) fn identify(colour_data: &[u16]) -> Option<Self> {
         use ColourFormat::*;
+        let version = *colour_data.first()? as i16;
         log::debug!(
             "Probing ColourData. (len={} version={})",
             colour_data.len(),
-            colour_data[0] as i16
+            version
         );
 
         match colour_data.len() {
@@ -120,45 +121,45 @@ impl ColourFormat {
         let version = colour_data[0];
         match *self {
             ColourData1 | ColourData2 => None,
-            ColourData3 => colour_data[196..200].try_into().ok(),
+            ColourData3 => colour_data.get(196..200)?.try_into().ok(),
             ColourData4 => match version {
                 2 | 3 => None,
-                4 | 5 => colour_data[692..696].try_into().ok(),
-                6 | 7 => colour_data[715..719].try_into().ok(),
-                9 => colour_data[719..723].try_into().ok(),
+                4 | 5 => colour_data.get(692..696)?.try_into().ok(),
+                6 | 7 => colour_data.get(715..719)?.try_into().ok(),
+                9 => colour_data.get(719..723)?.try_into().ok(),
                 _ => {
                     log::error!("Invalid version {} for {:?}", colour_data[0], self);
                     None
                 }
             },
             ColourData5 => match version as i16 {
-                -4 => colour_data[333..337].try_into().ok(),
-                -3 => colour_data[264..268].try_into().ok(),
+                -4 => colour_data.get(333..337)?.try_into().ok(),
+                -3 => colour_data.get(264..268)?.try_into().ok(),
                 _ => {
                     log::error!("Invalid version {} for {:?}", version, self);
                     None
                 }
             },
-            ColourData6 => colour_data[479..483].try_into().ok(),
+            ColourData6 => colour_data.get(479..483)?.try_into().ok(),
             ColourData7 => match version {
-                10 => colour_data[504..508].try_into().ok(),
-                11 => colour_data[728..732].try_into().ok(),
+                10 => colour_data.get(504..508)?.try_into().ok(),
+                11 => colour_data.get(728..732)?.try_into().ok(),
                 _ => {
                     log::error!("Invalid version {} for {:?}", version, self);
                     None
                 }
             },
             ColourData8 => match version {
-                14 => colour_data[556..560].try_into().ok(),
-                12 | 13 | 15 => colour_data[778..782].try_into().ok(),
+                14 => colour_data.get(556..560)?.try_into().ok(),
+                12 | 13 | 15 => colour_data.get(778..782)?.try_into().ok(),
                 _ => {
                     log::error!("Invalid version {} for {:?}", version, self);
                     None
                 }
             },
-            ColourData9 => colour_data[329..333].try_into().ok(),
-            ColourData10 => colour_data[343..347].try_into().ok(),
-            ColourData11 => colour_data[363..367].try_into().ok(),
+            ColourData9 => colour_data.get(329..333)?.try_into().ok(),
+            ColourData10 => colour_data.get(343..347)?.try_into().ok(),
+            ColourData11 => colour_data.get(363..367)?.try_into().ok(),
         }
     }
 
@@ -167,43 +168,21 @@ impl ColourFormat {
     pub(crate) fn as_shot(&self, colour_data: &[u16]) -> Option<[f64; 3]> {
         use ColourFormat::*;
 
+        let triple = |index: usize| {
+            let levels = colour_data.get(index..index + 4)?;
+            let r = levels[0] as f64;
+            let g = levels[1] as f64;
+            let b = levels[3] as f64;
+            Some([g / r, 1.0, g / b])
+        };
+
         match *self {
-            ColourData1 => {
-                let r = colour_data[25] as f64;
-                let g = colour_data[25 + 1] as f64;
-                let b = colour_data[25 + 3] as f64;
-                Some([g / r, 1.0, g / b])
-            }
-            ColourData2 => {
-                let r = colour_data[24] as f64;
-                let g = colour_data[24 + 1] as f64;
-                let b = colour_data[24 + 3] as f64;
-                Some([g / r, 1.0, g / b])
-            }
-            ColourData3 | ColourData4 | ColourData6 | ColourData7 | ColourData8 => {
-                let r = colour_data[63] as f64;
-                let g = colour_data[63 + 1] as f64;
-                let b = colour_data[63 + 3] as f64;
-                Some([g / r, 1.0, g / b])
-            }
-            ColourData5 | ColourData9 => {
-                let r = colour_data[71] as f64;
-                let g = colour_data[71 + 1] as f64;
-                let b = colour_data[71 + 3] as f64;
-                Some([g / r, 1.0, g / b])
-            }
-            ColourData10 => {
-                let r = colour_data[85] as f64;
-                let g = colour_data[85 + 1] as f64;
-                let b = colour_data[85 + 3] as f64;
-                Some([g / r, 1.0, g / b])
-            }
-            ColourData11 => {
-                let r = colour_data[105] as f64;
-                let g = colour_data[105 + 1] as f64;
-                let b = colour_data[105 + 3] as f64;
-                Some([g / r, 1.0, g / b])
-            }
+            ColourData1 => triple(25),
+            ColourData2 => triple(24),
+            ColourData3 | ColourData4 | ColourData6 | ColourData7 | ColourData8 => triple(63),
+            ColourData5 | ColourData9 => triple(71),
+            ColourData10 => triple(85),
+            ColourData11 => triple(105),
         }
     }
 }
diff --git a/src/canon/cr2.rs b/src/canon/cr2.rs
index fcda789..b2759e9 100644
--- a/src/canon/cr2.rs
+++ b/src/canon/cr2.rs
@@ -149,6 +149,7 @@ impl Cr2File {
     fn old_white_balance(&self) -> Option<[f64; 3]> {
         self.maker_note_ifd()
             .and_then(|mnote| mnote.uint_value_array(exif::MNOTE_CANON_WHITE_BALANCE_TABLE))
+            .filter(|v| v.len() >= 3)
             .map(|v| {
                 probe!(self.probe, "cr2.old_wb", "true");
                 let g = v[1] as f64;
@@ -179,7 +180,7 @@ impl Cr2File {
                 probe!(self.probe, "cr2.no_tiff_raw_data_len", "true");
                 // not found on the 1D, so we calculate it.
                 let len = std::cmp::min(container.borrow_view_mut().len(), u32::MAX as u64) as u32;
-                len - offset
+                len.saturating_sub(offset)
             });
         let mut rawdata =
             self.get_raw_bytes(0, 0, offset as u64, byte_len as u64, &[], skip_decompress)?;
@@ -268,8 +269,8 @@ impl Cr2File {
                 .map(|mut aspect_info| {
                     probe!(self.probe, "cr2.aspect_info", true);
                     if let Some(sensor_info) = &sensor_info {
-                        aspect_info.1.x += sensor_info.x;
-                        aspect_info.1.y += sensor_info.y;
+                        aspect_info.1.x = aspect_info.1.x.saturating_add(sensor_info.x);
+                        aspect_info.1.y = aspect_info.1.y.saturating_add(sensor_info.y);
                     }
                     aspect_info
                 })
-- 
2.43.0


From 4e7727c3f2ad4ffdea6d83ebdcdddf7c20c840c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:32 +0000
Subject: [PATCH 38/91] fix: rendering: error instead of panic on inconsistent
 images, black level with a linearization table

---
 src/bitmap.rs          |  8 ++++----
 src/rawimage.rs        | 35 ++++++++++++++++++++++-------------
 src/render/demosaic.rs | 14 +++++++++++++-
 3 files changed, 39 insertions(+), 18 deletions(-)

diff --git a/src/bitmap.rs b/src/bitmap.rs
index 6984325..b752ada 100644
--- a/src/bitmap.rs
+++ b/src/bitmap.rs
@@ -66,13 +66,13 @@ impl<T> ImageBuffer<T> {
     where
         T: Copy,
     {
-        if x > self.width || y > self.height {
+        if x >= self.width || y >= self.height {
             return None;
         }
-        let pos = ((y * self.width * self.cc) + x * self.cc) as usize;
-        let pixel = &self.data[pos..pos + self.cc as usize];
+        let cc = self.cc as usize;
+        let pos = (y as usize * self.width as usize + x as usize) * cc;
 
-        Some(pixel.to_vec())
+        self.data.get(pos..pos + cc).map(|pixel| pixel.to_vec())
     }
 
     #[inline]
diff --git a/src/rawimage.rs b/src/rawimage.rs
index 7e1edb7..17a8927 100644
--- a/src/rawimage.rs
+++ b/src/rawimage.rs
@@ -417,16 +417,20 @@ impl RawImage {
     ///   this is notable on Leica M8 files.
     /// - scale by range / white
     ///
-    fn linearize(&self, buffer: ImageBuffer<u16>) -> ImageBuffer<f64> {
+    fn linearize(&self, buffer: ImageBuffer<u16>) -> Result<ImageBuffer<f64>> {
         log::debug!("linearize");
         // XXX fix this to use the 4 component
         let white = self.whites()[0];
         let black = self.blacks()[0];
+        if white <= black {
+            log::error!("Invalid levels: white {} black {}", white, black);
+            return Err(Error::InvalidFormat);
+        }
         let range = (white - black) as f64;
         let table = if self
             .linearization_table
             .as_ref()
-            .map(|t| t.len() == (1 << self.bpc()))
+            .map(|t| Some(t.len()) == 1_usize.checked_shl(self.bpc() as u32))
             .unwrap_or(false)
         {
             self.linearization_table.as_ref()
@@ -438,20 +442,18 @@ impl RawImage {
             .data
             .iter()
             .map(|v| {
-                table.map(|t| t[*v as usize] as f64).unwrap_or_else(|| {
-                    if *v < black {
-                        0.0
-                    } else {
-                        (*v - black) as f64
-                    }
-                }) / range
+                // Values past the end of the table map to its last value.
+                let v = table
+                    .and_then(|t| t.get(*v as usize).or_else(|| t.last()))
+                    .unwrap_or(v);
+                v.saturating_sub(black) as f64 / range
             })
             .collect();
 
         let buffer =
             ImageBuffer::<f64>::with_data(data, buffer.width, buffer.height, buffer.bpc, 1);
         log::debug!("post-lin at 1000, 1000: {:?}", buffer.pixel_at(1000, 1000));
-        buffer
+        Ok(buffer)
     }
 
     /// Interplate the image buffer. Return a new buffer if successful.
@@ -498,7 +500,7 @@ impl RawImage {
         for i in 1..=2 {
             cm = self
                 .colour_matrix(i)
-                .filter(|m| m.illuminant == exif::LightsourceValue::D65)
+                .filter(|m| m.illuminant == exif::LightsourceValue::D65 && m.matrix.len() == 9)
                 .map(|m| Matrix3::from_row_slice(&m.matrix));
             if cm.is_some() {
                 break;
@@ -506,6 +508,10 @@ impl RawImage {
         }
         if let Some(cm) = cm {
             log::debug!("Calculating cam RGB");
+            if cm.try_inverse().is_none() {
+                log::error!("Colour matrix can't be inverted");
+                return Err(Error::InvalidFormat);
+            }
             let cam_rgb = Self::calculate_cam_rgb(&cm);
             log::debug!("pixel cam at 1000, 1000: {:?}", buffer.pixel_at(1000, 1000));
             log::debug!("Applying colour matrix");
@@ -542,14 +548,17 @@ impl RawImage {
         let y = self.height();
         let mut pattern = self.mosaic_pattern().clone();
         let data16 = ImageBuffer::with_data(
-            self.data16().ok_or(Error::InvalidFormat)?.to_vec(),
+            self.data16()
+                .and_then(|data| data.get(..x as usize * y as usize))
+                .ok_or(Error::InvalidFormat)?
+                .to_vec(),
             x,
             y,
             16,
             1,
         );
         log::debug!("Linearizing data");
-        let mut data = self.linearize(data16);
+        let mut data = self.linearize(data16)?;
         if options.stage >= RenderingStage::Interpolation {
             log::debug!("Interpolating");
             data = self.interpolate(data)?;
diff --git a/src/render/demosaic.rs b/src/render/demosaic.rs
index 9ffd26e..6039f8d 100644
--- a/src/render/demosaic.rs
+++ b/src/render/demosaic.rs
@@ -76,6 +76,18 @@ pub(crate) fn bimedian(
         }
     };
 
+    if input.width < 3
+        || input.height < 3
+        || input.data.len() < input.width as usize * input.height as usize
+    {
+        log::error!(
+            "Image too small to demosaic {}x{}",
+            input.width,
+            input.height
+        );
+        return Err(Error::InvalidFormat);
+    }
+
     let mut dst: Vec<f64> = vec![0.0; input.width as usize * input.height as usize * 3];
 
     #[allow(non_snake_case)]
@@ -165,7 +177,7 @@ pub(crate) fn bimedian(
     // This is necessary to have a consistent size with the output.
     // Notably, the `image` crate doesn't like it.
     // The assumption is that the resize should shrink the buffer.
-    dst.resize((3 * out_w * out_h) as usize, 0.0);
+    dst.resize(3 * out_w as usize * out_h as usize, 0.0);
 
     Ok(ImageBuffer::with_data(dst, out_w, out_h, input.bpc, 3))
 }
-- 
2.43.0


From 38612eb9deede1fb312c2a295fb34e8890c79848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:42 +0000
Subject: [PATCH 39/91] fix: mosaic: a pattern with an unknown colour doesn't
 panic

---
 src/mosaic.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mosaic.rs b/src/mosaic.rs
index 201589b..4395954 100644
--- a/src/mosaic.rs
+++ b/src/mosaic.rs
@@ -65,7 +65,7 @@ impl PatternColour {
             Self::Red => 'R',
             Self::Green => 'G',
             Self::Blue => 'B',
-            _ => unreachable!(),
+            Self::Unknown => '?',
         }
     }
 }
-- 
2.43.0


From 07d572cc20a7faa48099ea854dbac1fdfa63832e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:06 +0000
Subject: [PATCH 40/91] fix: CRW: no panic on malformed files, bound the
 nesting of heaps

---
 src/canon/crw.rs                |   6 +-
 src/canon/crw/ciff.rs           |  48 +++++++++-----
 src/canon/crw/ciff/container.rs | 114 ++++++++++++++++++++------------
 src/canon/crw/decompress.rs     |  20 ++++--
 4 files changed, 120 insertions(+), 68 deletions(-)

diff --git a/src/canon/crw.rs b/src/canon/crw.rs
index c5f4a41..faded98 100644
--- a/src/canon/crw.rs
+++ b/src/canon/crw.rs
@@ -134,7 +134,7 @@ impl CrwFile {
                     let mut wb_data = [0_u16; 4];
                     view.read_endian_u16_array(&mut wb_data, container.endian())
                         .ok();
-                    let g = (wb_data[0] + wb_data[3]) as f64 / 2.0;
+                    let g = (wb_data[0] as f64 + wb_data[3] as f64) / 2.0;
                     Some(vec![g / wb_data[1] as f64, 1.0, g / wb_data[2] as f64])
                 } else {
                     log::warn!("Unexpected ColourInfo2 magic {magic}");
@@ -211,7 +211,7 @@ impl CrwFile {
             let r = heap.records().get(&ciff::Tag::WhiteBalanceTable)?;
             if let ciff::Record::InHeap((pos, _)) = r.data {
                 // Some dark magic lifted from both rawspeed and dcraw
-                let wb_offset = 1 + (b"0134567028"[wb_idx as usize] - b'0') as u64 * 4;
+                let wb_offset = 1 + (b"0134567028".get(wb_idx as usize)? - b'0') as u64 * 4;
                 let mut view = container.borrow_view_mut();
                 view.seek(SeekFrom::Start(pos as u64 + wb_offset * 2))
                     .ok()?;
@@ -274,7 +274,7 @@ impl RawFileImpl for CrwFile {
             let mut thumbnails = Vec::new();
             self.container()?;
             let container = self.container.get().unwrap();
-            let heap = container.heap();
+            let heap = container.heap()?;
             heap.records().get(&ciff::Tag::JpegImage).and_then(|r| {
                 if let ciff::Record::InHeap((pos, len)) = r.data {
                     Viewer::create_subview(&container.borrow_view_mut(), pos as u64)
diff --git a/src/canon/crw/ciff.rs b/src/canon/crw/ciff.rs
index a3e231a..d03ac09 100644
--- a/src/canon/crw/ciff.rs
+++ b/src/canon/crw/ciff.rs
@@ -39,6 +39,9 @@ const FORMAT_MASK: u16 = 0x3800;
 /// Include the format, as it is significant
 const TAGCODE_MASK: u16 = 0x3fff;
 
+/// How deep heaps can be nested.
+const MAX_HEAP_DEPTH: usize = 3;
+
 /// Tags for the CIFF records.
 ///
 /// List made by a combination of the CIFF spec and
@@ -255,7 +258,7 @@ fn in_record(type_code: u16) -> bool {
 impl RecordEntry {
     /// Create a `RecordEntry` from the view, with `base` as
     /// the offset base (the Heap offset)
-    fn from_view(base: u32, view: &mut io::View, endian: Endian) -> Result<RecordEntry> {
+    fn from_view(base: u32, view: &mut io::View, endian: Endian) -> Result<Option<RecordEntry>> {
         let type_code = view.read_endian_u16(endian)?;
         let data = if in_record(type_code) {
             let mut bytes = [0_u8; 8];
@@ -263,18 +266,26 @@ impl RecordEntry {
             Record::InRec(bytes)
         } else {
             let len = view.read_endian_u32(endian)?;
-            let offset = view.read_endian_u32(endian)? + base;
-            Record::InHeap((offset, len))
+            let offset = view.read_endian_u32(endian)?.checked_add(base);
+            match offset {
+                Some(offset) if offset as u64 + len as u64 <= view.len() => {
+                    Record::InHeap((offset, len))
+                }
+                _ => {
+                    log::error!("CIFF record {:x} out of range", type_code);
+                    return Ok(None);
+                }
+            }
         };
 
         let tag = Tag::from_tagcode(type_code);
         if tag == Tag::Other {
             log::error!("Unknown tag {:x}", type_code);
         }
-        Ok(RecordEntry {
+        Ok(Some(RecordEntry {
             type_code: tag,
             data,
-        })
+        }))
     }
 
     fn type_(&self) -> RecordType {
@@ -394,8 +405,7 @@ impl RecordEntry {
         if let Record::InHeap((pos, len)) = self.data {
             let mut heap = Heap::new(pos, len);
             let mut view = container.borrow_view_mut();
-            heap.load(&mut view, container.endian())
-                .expect("Failed to load heap");
+            heap.load(&mut view, container.endian()).ok()?;
             Some(heap)
         } else {
             None
@@ -408,6 +418,7 @@ impl RecordEntry {
         out: &mut W,
         indent: u32,
         container: &Container,
+        depth: usize,
     ) {
         let type_ = self.type_();
         dump_writeln!(
@@ -448,9 +459,9 @@ impl RecordEntry {
                         dump_writeln!(out, indent, "{:?}", values);
                     }
                 }
-                RecordType::Heap1 | RecordType::Heap2 => {
+                RecordType::Heap1 | RecordType::Heap2 if depth < MAX_HEAP_DEPTH => {
                     if let Some(RecordData::Heap(heap)) = self.data(container) {
-                        heap.write_dump(out, indent, container);
+                        heap.write_dump(out, indent, container, depth + 1);
                     }
                 }
                 _ => {
@@ -488,7 +499,7 @@ impl Heap {
         if self.len as u64 + self.pos as u64 > view.len() {
             log::error!(
                 "CIFF Heap too big: {} for {}",
-                self.len + self.pos,
+                self.len as u64 + self.pos as u64,
                 view.len()
             );
             return Err(Error::FormatError);
@@ -502,14 +513,16 @@ impl Heap {
         view.seek(SeekFrom::Start(self.pos as u64 + heap_start as u64))?;
         let num_records = view.read_endian_u16(endian)?;
         for _ in 0..num_records {
-            let _ = RecordEntry::from_view(self.pos, view, endian)
-                .map(|entry| {
+            match RecordEntry::from_view(self.pos, view, endian) {
+                Ok(Some(entry)) => {
                     self.records.insert(entry.type_code, entry);
-                })
-                .map_err(|err| {
+                }
+                Ok(None) => {}
+                Err(err) => {
                     log::error!("Failed to read record: {}", err);
-                    err
-                });
+                    break;
+                }
+            }
         }
 
         Ok(())
@@ -525,13 +538,14 @@ impl Heap {
         out: &mut W,
         indent: u32,
         container: &Container,
+        depth: usize,
     ) {
         dump_writeln!(out, indent, "<HEAP pos={} len={}>", self.pos, self.len);
         {
             let indent = indent + 1;
             dump_writeln!(out, indent, "Num records: {}", self.records.len());
             for record in self.records().values() {
-                record.write_dump(out, indent, container);
+                record.write_dump(out, indent, container, depth);
             }
         }
         dump_writeln!(out, indent, "</HEAP");
diff --git a/src/canon/crw/ciff/container.rs b/src/canon/crw/ciff/container.rs
index 65f9cc5..ff0443a 100644
--- a/src/canon/crw/ciff/container.rs
+++ b/src/canon/crw/ciff/container.rs
@@ -34,7 +34,7 @@ use crate::io::View;
 use crate::metadata;
 use crate::tiff::{exif, Dir, Entry, IfdType, TagType};
 use crate::utils;
-use crate::{Dump, Type};
+use crate::{Dump, Error, Result, Type};
 
 use super::{
     CameraSettings, Heap, HeapFileHeader, ImageSpec, Record, RecordData, RecordEntry, Tag,
@@ -65,7 +65,11 @@ lazy_static::lazy_static! {
 
 fn translate_string(record: &RecordEntry, container: &Container, tag: u16) -> Vec<Entry> {
     if let Some(RecordData::Ascii(ref string)) = record.data(container) {
-        vec![Entry::from_string(tag, &string[0])]
+        string
+            .first()
+            .map(|string| Entry::from_string(tag, string))
+            .into_iter()
+            .collect()
     } else {
         vec![]
     }
@@ -73,7 +77,11 @@ fn translate_string(record: &RecordEntry, container: &Container, tag: u16) -> Ve
 
 fn translate_serial(record: &RecordEntry, container: &Container, tag: u16) -> Vec<Entry> {
     if let Some(RecordData::DWord(ref serial)) = record.data(container) {
-        vec![Entry::from_string(tag, &format!("{:X}", serial[0]))]
+        serial
+            .first()
+            .map(|serial| Entry::from_string(tag, &format!("{serial:X}")))
+            .into_iter()
+            .collect()
     } else {
         vec![]
     }
@@ -83,7 +91,7 @@ fn translate_camera_settings(_: &RecordEntry, container: &Container, _: u16) ->
     let mut entries = vec![];
     if let Some(camera_settings) = container.camera_settings() {
         // Macro mode
-        let value = camera_settings[1];
+        let value = camera_settings.get(1).copied().unwrap_or(0);
         if value == 1 {
             let mut buf = [0_u8; 4];
             container.endian_write_u16(&mut buf, 1);
@@ -92,7 +100,7 @@ fn translate_camera_settings(_: &RecordEntry, container: &Container, _: u16) ->
         }
 
         // Flash mode
-        let value = camera_settings[4];
+        let value = camera_settings.get(4).copied().unwrap_or(0);
         let flash = match value {
             0 => 0_u16,        // off,
             1 => 0x19_u16,     // Auto
@@ -106,7 +114,7 @@ fn translate_camera_settings(_: &RecordEntry, container: &Container, _: u16) ->
         entries.push(entry);
 
         // Metering mode
-        let value = camera_settings[17];
+        let value = camera_settings.get(17).copied().unwrap_or(0);
         let metering = match value {
             0 => 0, // default
             1 => 3, // Spot
@@ -122,7 +130,7 @@ fn translate_camera_settings(_: &RecordEntry, container: &Container, _: u16) ->
         entries.push(entry);
 
         // Exposure mode
-        let value = camera_settings[20];
+        let value = camera_settings.get(20).copied().unwrap_or(0);
         let exposure = match value {
             0 => 0, // Easy
             1 => 2, // Program AE
@@ -147,11 +155,15 @@ fn translate_camera_settings(_: &RecordEntry, container: &Container, _: u16) ->
 
 fn translate_focal_length(record: &RecordEntry, container: &Container, tag: u16) -> Vec<Entry> {
     if let Some(RecordData::Word(ref value)) = record.data(container) {
-        let fl = value[1] as u32;
-        let mut fu = 0;
-        if let Some(camera_settings) = container.camera_settings() {
-            fu = camera_settings[25] as u32
-        }
+        let fl = match value.get(1) {
+            Some(fl) => *fl as u32,
+            None => return vec![],
+        };
+        let fu = container
+            .camera_settings()
+            .and_then(|camera_settings| camera_settings.get(25))
+            .copied()
+            .unwrap_or(0) as u32;
         let mut buf = vec![0_u8; 8];
         container.endian_write_u32(&mut buf, fl);
         container.endian_write_u32(&mut buf[4..], fu);
@@ -164,7 +176,10 @@ fn translate_focal_length(record: &RecordEntry, container: &Container, tag: u16)
 
 fn translate_date(record: &RecordEntry, container: &Container, _: u16) -> Vec<Entry> {
     if let Some(RecordData::DWord(ref value)) = record.data(container) {
-        if let Some(date_time) = chrono::Utc.timestamp_opt(value[0] as i64, 0).single() {
+        if let Some(date_time) = value
+            .first()
+            .and_then(|value| chrono::Utc.timestamp_opt(*value as i64, 0).single())
+        {
             let date = format!("{}", date_time.format("%Y:%m:%d %H:%M:%S"));
 
             let original = Entry::from_string(exif::EXIF_TAG_DATE_TIME_ORIGINAL, &date);
@@ -247,7 +262,9 @@ impl Container {
 
     fn dirs(&self) -> &Vec<Dir> {
         self.dirs.get_or_init(|| {
-            self.header();
+            if self.header().is_err() {
+                return vec![];
+            }
 
             let mut main_ifd = Dir::new(self.endian(), IfdType::Main);
             if let Some(image_spec) = self.image_spec() {
@@ -304,7 +321,7 @@ impl Container {
             let mut exif_ifd = Dir::new(self.endian(), IfdType::Exif);
             if let Some(image_props) = self.image_props() {
                 image_props.records().iter().for_each(|(_, record)| {
-                    let entries = self.translate_record_entry(record, IfdType::Exif);
+                    let entries = self.translate_record_entry(record, IfdType::Exif, 0);
                     for entry in entries {
                         exif_ifd.entries.insert(entry.id, entry);
                     }
@@ -312,7 +329,7 @@ impl Container {
             }
             if let Some(exif_info) = self.exif_info() {
                 exif_info.records().iter().for_each(|(_, record)| {
-                    let entries = self.translate_record_entry(record, IfdType::Exif);
+                    let entries = self.translate_record_entry(record, IfdType::Exif, 0);
                     for entry in entries {
                         exif_ifd.entries.insert(entry.id, entry);
                     }
@@ -323,13 +340,24 @@ impl Container {
         })
     }
 
-    fn translate_record_entry(&self, record: &RecordEntry, ifd_type: IfdType) -> Vec<Entry> {
+    fn translate_record_entry(
+        &self,
+        record: &RecordEntry,
+        ifd_type: IfdType,
+        depth: usize,
+    ) -> Vec<Entry> {
         if record.is_heap() {
+            if depth >= super::MAX_HEAP_DEPTH {
+                log::error!("CIFF: heaps are nested too deep");
+                return vec![];
+            }
             if let Some(heap) = record.heap(self) {
                 return heap
                     .records()
                     .iter()
-                    .flat_map(|(_, record)| self.translate_record_entry(record, ifd_type))
+                    .flat_map(|(_, record)| {
+                        self.translate_record_entry(record, ifd_type, depth + 1)
+                    })
                     .collect();
             }
         }
@@ -344,37 +372,39 @@ impl Container {
     }
 
     pub(crate) fn main_ifd(&self) -> Option<&Dir> {
-        Some(&self.dirs()[0])
+        self.dirs().first()
     }
 
     pub(crate) fn exif_ifd(&self) -> Option<&Dir> {
-        Some(&self.dirs()[1])
+        self.dirs().get(1)
     }
 
-    fn header(&self) -> &HeapFileHeader {
-        self.header.get_or_init(|| {
+    fn header(&self) -> Result<&HeapFileHeader> {
+        self.header.get_or_try_init(|| {
             let mut view = self.borrow_view_mut();
-            let header = HeapFileHeader::from_view(&mut view).expect("Coudln't read file header");
+            view.rewind()?;
+            let header = HeapFileHeader::from_view(&mut view)?;
             self.endian.replace(header.endian);
-            header
+            Ok(header)
         })
     }
 
-    pub(crate) fn heap(&self) -> &Heap {
-        self.heap.get_or_init(|| {
-            let header = self.header();
+    pub(crate) fn heap(&self) -> Result<&Heap> {
+        self.heap.get_or_try_init(|| {
+            let header = self.header()?;
             if header.type_ != *b"HEAP" && header.sub_type != *b"CCDR" {
                 log::error!("Wrong CIFF header types");
             }
             let mut view = self.borrow_view_mut();
-            // XXX check that header.len < view.len()
-            let heaplen = view.len() - header.len as u64;
-            // XXX heaplen should be < u32::MAX
-            let mut heap = Heap::new(header.len, heaplen as u32);
-            heap.load(&mut view, self.endian())
-                .expect("Failed to load heap");
-
-            heap
+            let heaplen = view
+                .len()
+                .checked_sub(header.len as u64)
+                .and_then(|len| u32::try_from(len).ok())
+                .ok_or(Error::FormatError)?;
+            let mut heap = Heap::new(header.len, heaplen);
+            heap.load(&mut view, self.endian())?;
+
+            Ok(heap)
         })
     }
 
@@ -391,7 +421,7 @@ impl Container {
     fn image_props(&self) -> Option<&Heap> {
         self.image_props
             .get_or_init(|| {
-                let heap = self.heap();
+                let heap = self.heap().ok()?;
                 self.heap_from_heap(heap, super::Tag::ImageProps)
             })
             .as_ref()
@@ -496,7 +526,7 @@ impl Container {
     }
 
     pub(crate) fn raw_data_record(&self) -> Option<&RecordEntry> {
-        self.heap().records().get(&super::Tag::RawImageData)
+        self.heap().ok()?.records().get(&super::Tag::RawImageData)
     }
 }
 
@@ -507,11 +537,13 @@ impl Dump for Container {
         {
             let indent = indent + 1;
 
-            let header = self.header();
-            header.write_dump(out, indent);
+            if let Ok(header) = self.header() {
+                header.write_dump(out, indent);
+            }
 
-            let heap = self.heap();
-            heap.write_dump(out, indent, self);
+            if let Ok(heap) = self.heap() {
+                heap.write_dump(out, indent, self, 0);
+            }
         }
         dump_writeln!(out, indent, "</CIFF Container>");
     }
diff --git a/src/canon/crw/decompress.rs b/src/canon/crw/decompress.rs
index 26da8fb..50eca60 100644
--- a/src/canon/crw/decompress.rs
+++ b/src/canon/crw/decompress.rs
@@ -25,7 +25,7 @@ use byteorder::ReadBytesExt;
 
 use crate::mosaic::Pattern;
 use crate::rawfile::ReadAndSeek;
-use crate::{DataType, RawImage, Result};
+use crate::{DataType, Error, RawImage, Result};
 
 const FIRST_TREE: [[u8; 29]; 3] = [
     [
@@ -249,7 +249,13 @@ impl Decompress {
     }
 
     pub(super) fn decompress(&mut self, reader: &mut dyn ReadAndSeek) -> Result<RawImage> {
-        let mut data = Vec::with_capacity(self.width as usize * self.height as usize);
+        let size = self.width as usize * self.height as usize;
+        if size == 0 {
+            log::error!("CRW: no dimensions");
+            return Err(Error::FormatError);
+        }
+        // The size isn't known to be legit until there is data for it.
+        let mut data = Vec::new();
 
         let lowbits = if canon_has_lowbits(reader)? { 1 } else { 0 };
         reader.seek(SeekFrom::Start(
@@ -259,12 +265,12 @@ impl Decompress {
         let mut pump = BitPump::default();
         pump.get_bits(reader, -1)?;
 
-        let mut column = 0_u32;
+        let mut column = 0_usize;
         let mut base = [0_i32; 2];
         let mut carry = 0_i32;
         let mut outbuf = [0_u16; 64];
 
-        while column < self.width * self.height {
+        while column < size {
             let mut diffbuf = [0_i32; 64];
             let mut decoder: &[DecoderNode] = &self.first_decoder;
             let mut i = 0_usize;
@@ -296,15 +302,15 @@ impl Decompress {
 
                 i += 1;
             }
-            diffbuf[0] += carry;
+            diffbuf[0] = diffbuf[0].wrapping_add(carry);
             carry = diffbuf[0];
             for i in 0..64 {
-                if column % self.width == 0 {
+                if column % self.width as usize == 0 {
                     base[0] = 512;
                     base[1] = 512;
                 }
                 column += 1;
-                base[i & 1] += diffbuf[i];
+                base[i & 1] = base[i & 1].wrapping_add(diffbuf[i]);
                 outbuf[i] = base[i & 1] as u16;
             }
             if lowbits != 0 {
-- 
2.43.0


From a8d3546e9d63ef530ceea48778151ad03da8f5c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:07 +0000
Subject: [PATCH 41/91] fix: CRW: Exif values for macro, metering mode,
 exposure program and orientation

---
 src/canon/crw/ciff/container.rs | 18 ++++++++++++++----
 src/tiff/exif/tags.rs           |  4 ++--
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/canon/crw/ciff/container.rs b/src/canon/crw/ciff/container.rs
index ff0443a..394fa5f 100644
--- a/src/canon/crw/ciff/container.rs
+++ b/src/canon/crw/ciff/container.rs
@@ -95,7 +95,12 @@ fn translate_camera_settings(_: &RecordEntry, container: &Container, _: u16) ->
         if value == 1 {
             let mut buf = [0_u8; 4];
             container.endian_write_u16(&mut buf, 1);
-            let entry = Entry::new(exif::EXIF_TAG_FLASH, TagType::Short as i16, 1, buf);
+            let entry = Entry::new(
+                exif::EXIF_TAG_SUBJECT_DISTANCE_RANGE,
+                TagType::Short as i16,
+                1,
+                buf,
+            );
             entries.push(entry);
         }
 
@@ -126,7 +131,7 @@ fn translate_camera_settings(_: &RecordEntry, container: &Container, _: u16) ->
         };
         let mut buf = [0_u8; 4];
         container.endian_write_u16(&mut buf, metering);
-        let entry = Entry::new(exif::EXIF_TAG_FLASH, TagType::Short as i16, 1, buf);
+        let entry = Entry::new(exif::EXIF_TAG_METERING_MODE, TagType::Short as i16, 1, buf);
         entries.push(entry);
 
         // Exposure mode
@@ -146,7 +151,12 @@ fn translate_camera_settings(_: &RecordEntry, container: &Container, _: u16) ->
 
         let mut buf = [0_u8; 4];
         container.endian_write_u16(&mut buf, exposure);
-        let entry = Entry::new(exif::EXIF_TAG_METERING_MODE, TagType::Short as i16, 1, buf);
+        let entry = Entry::new(
+            exif::EXIF_TAG_EXPOSURE_PROGRAM,
+            TagType::Short as i16,
+            1,
+            buf,
+        );
         entries.push(entry);
     }
 
@@ -302,7 +312,7 @@ impl Container {
                 self.endian_write_u16(&mut buffer, image_spec.exif_orientation());
                 let entry = Entry::new(
                     exif::EXIF_TAG_ORIENTATION,
-                    exif::TagType::Long as i16,
+                    exif::TagType::Short as i16,
                     1,
                     buffer,
                 );
diff --git a/src/tiff/exif/tags.rs b/src/tiff/exif/tags.rs
index f8f8819..4d28f5c 100644
--- a/src/tiff/exif/tags.rs
+++ b/src/tiff/exif/tags.rs
@@ -76,7 +76,7 @@ pub const _EXIF_TAG_IPTC_NAA: u16 = 0x83bb;
 pub const _EXIF_TAG_IMAGE_RESOURCES: u16 = 0x8649;
 pub const EXIF_TAG_EXIF_IFD_POINTER: u16 = 0x8769;
 pub const _EXIF_TAG_INTER_COLOR_PROFILE: u16 = 0x8773;
-pub const _EXIF_TAG_EXPOSURE_PROGRAM: u16 = 0x8822;
+pub const EXIF_TAG_EXPOSURE_PROGRAM: u16 = 0x8822;
 pub const _EXIF_TAG_SPECTRAL_SENSITIVITY: u16 = 0x8824;
 pub const EXIF_TAG_GPS_INFO_IFD_POINTER: u16 = 0x8825;
 pub const _EXIF_TAG_ISO_SPEED_RATINGS: u16 = 0x8827;
@@ -131,7 +131,7 @@ pub const _EXIF_TAG_CONTRAST: u16 = 0xa408;
 pub const _EXIF_TAG_SATURATION: u16 = 0xa409;
 pub const _EXIF_TAG_SHARPNESS: u16 = 0xa40a;
 pub const _EXIF_TAG_DEVICE_SETTING_DESCRIPTION: u16 = 0xa40b;
-pub const _EXIF_TAG_SUBJECT_DISTANCE_RANGE: u16 = 0xa40c;
+pub const EXIF_TAG_SUBJECT_DISTANCE_RANGE: u16 = 0xa40c;
 pub const _EXIF_TAG_IMAGE_UNIQUE_ID: u16 = 0xa420;
 pub const EXIF_TAG_CAMERA_OWNER_NAME: u16 = 0xa430;
 pub const EXIF_TAG_BODY_SERIAL_NUMBER: u16 = 0xa431;
-- 
2.43.0


From cf7a1f230df9e87188ef39a566530c94ec39c95f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:42 +0000
Subject: [PATCH 42/91] fix: CRW: low bits go with the sample they belong to

---
 src/canon/crw.rs            |  6 +++---
 src/canon/crw/decompress.rs | 19 ++++++++++---------
 2 files changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/canon/crw.rs b/src/canon/crw.rs
index faded98..09d2718 100644
--- a/src/canon/crw.rs
+++ b/src/canon/crw.rs
@@ -44,8 +44,8 @@ use crate::tiff;
 use crate::tiff::exif;
 use crate::tiff::Dir;
 use crate::{
-    Context, DataType, Dump, Error, RawFile, RawFileHandle, RawFileImpl, RawImage, Rect, Result,
-    Size, Type, TypeId,
+    Bitmap, Context, DataType, Dump, Error, RawFile, RawFileHandle, RawFileImpl, RawImage, Rect,
+    Result, Size, Type, TypeId,
 };
 
 use super::matrices::MATRICES;
@@ -391,7 +391,7 @@ impl RawFileImpl for CrwFile {
                                 decompressor
                                     .decompress(&mut view)
                                     .map(|mut rawdata| {
-                                        let bpc = 10_u32;
+                                        let bpc = rawdata.bpc();
                                         let (black, white) = MATRICES
                                             .iter()
                                             .find(|m| m.camera == type_id)
diff --git a/src/canon/crw/decompress.rs b/src/canon/crw/decompress.rs
index 50eca60..df2ccdc 100644
--- a/src/canon/crw/decompress.rs
+++ b/src/canon/crw/decompress.rs
@@ -19,7 +19,7 @@
  * <http://www.gnu.org/licenses/>.
  */
 
-use std::io::SeekFrom;
+use std::io::{Read, SeekFrom};
 
 use byteorder::ReadBytesExt;
 
@@ -219,11 +219,12 @@ fn make_decoder(
 }
 
 fn canon_has_lowbits(reader: &mut dyn ReadAndSeek) -> Result<bool> {
-    let mut test = [0_u8; 0x4000 - 26];
+    let mut test = Vec::new();
     let mut ret = false;
     reader.rewind()?;
-    reader.read_exact(&mut test)?;
-    for i in 514..test.len() - 1 {
+    // There might be less data in a small image.
+    (&mut *reader).take(0x4000 - 26).read_to_end(&mut test)?;
+    for i in 514..test.len().saturating_sub(1) {
         if test[i] == 0xff {
             if test[i + 1] != 0 {
                 return Ok(true);
@@ -320,10 +321,7 @@ impl Decompress {
                 for _ in 0..16 {
                     let c = reader.read_u8()? as u16;
                     for r in 0..4 {
-                        // outbuf is 64, so we must check for it to not
-                        // overflow (read out of bounds)
-                        let next = if i < 63 { outbuf[i + 1] } else { 0 };
-                        outbuf[i] = (next << 2) + ((c >> (r * 2)) & 3);
+                        outbuf[i] = (outbuf[i] << 2) | ((c >> (r * 2)) & 3);
 
                         i += 1;
                     }
@@ -332,11 +330,14 @@ impl Decompress {
             }
             data.extend_from_slice(&outbuf);
         }
+        // The last block may go past the end of the image.
+        data.truncate(size);
 
         Ok(RawImage::with_data16(
             self.width,
             self.height,
-            10,
+            // The low bits are two bits below the 10 compressed.
+            if lowbits != 0 { 12 } else { 10 },
             DataType::Raw,
             data,
             Pattern::default(),
-- 
2.43.0


From a55a263e4f7f3b1ea8abb6db7826573f33b863a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:21 +0000
Subject: [PATCH 43/91] fix: CRW: identify the camera before borrowing the view

---
 src/canon/crw.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/canon/crw.rs b/src/canon/crw.rs
index 09d2718..cd1754e 100644
--- a/src/canon/crw.rs
+++ b/src/canon/crw.rs
@@ -151,6 +151,8 @@ impl CrwFile {
         // D30, G, S.
         let wb = heap.records().get(&ciff::Tag::ColourInfo1).and_then(|r| {
             if let ciff::Record::InHeap((pos, len)) = r.data {
+                // This may need the view to identify the camera.
+                let offset = self.crw_wb_offset();
                 let mut view = container.borrow_view_mut();
                 match len {
                     768 => {
@@ -169,7 +171,6 @@ impl CrwFile {
                     }
                     769.. => {
                         // Pro, G6, S60, S70, S45, S50, G3, G5
-                        let offset = self.crw_wb_offset();
                         // magic values from rawspeed if not the default offset.
                         // Pro, G6, S60, S70
                         let key = if offset != Self::CRW_WB_DEFAULT_OFFSET {
-- 
2.43.0


From abcaace5e67a704fb240962f6201252041461aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:31 +0000
Subject: [PATCH 44/91] fix: CRW: an empty model ID record isn't an ID

---
 src/canon/crw.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/canon/crw.rs b/src/canon/crw.rs
index cd1754e..a8930b2 100644
--- a/src/canon/crw.rs
+++ b/src/canon/crw.rs
@@ -245,7 +245,7 @@ impl RawFileImpl for CrwFile {
                             .and_then(|r| r.data(container))
                             .and_then(|data| {
                                 if let ciff::RecordData::DWord(id) = data {
-                                    return canon::CANON_MODEL_ID_MAP.get(&id[0]).copied();
+                                    return canon::CANON_MODEL_ID_MAP.get(id.first()?).copied();
                                 }
                                 None
                             })
-- 
2.43.0


From b8da58281c681647feedf3af51d280f29f1f5df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:36 +0000
Subject: [PATCH 45/91] fix: tiled LJPEG: only use the tiles that cover the
 image

---
 src/decompress/tiled.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decompress/tiled.rs b/src/decompress/tiled.rs
index 0b3cadf..ec388bd 100644
--- a/src/decompress/tiled.rs
+++ b/src/decompress/tiled.rs
@@ -136,7 +136,7 @@ impl TiledLJpeg {
             let data = Self::combine_tiles(
                 rawdata.width() as usize,
                 rawdata.height() as usize,
-                &dec_tiles,
+                &dec_tiles[..num_tiles],
             );
 
             let mut rawdata = rawdata.replace_data(data);
-- 
2.43.0


From 8e4a40daed1042173075014193d30b035668016a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:27 +0000
Subject: [PATCH 46/91] fix: CR3: missing samples, chunks or metadata, and
 sizes not to be trusted

---
 src/mp4/container.rs | 28 ++++++++++++++--------------
 src/mp4/parse/mod.rs | 43 ++++++++++++++++++++++++++++++++++---------
 2 files changed, 48 insertions(+), 23 deletions(-)

diff --git a/src/mp4/container.rs b/src/mp4/container.rs
index 7e65ecf..c6afe5b 100644
--- a/src/mp4/container.rs
+++ b/src/mp4/container.rs
@@ -134,7 +134,11 @@ impl Container {
         // box (24) + content (8) + prvw box (8) + unknown (4)
         // We need to skip the "boxes" (ISO container)
         // And skip a short (16bits) value.
-        let offset = preview_offset.0 + 44 + 2;
+        let offset = preview_offset
+            .0
+            .checked_add(44 + 2)
+            .filter(|offset| offset.checked_add(10).is_some())
+            .ok_or(Error::FormatError)?;
 
         let mut view = self.view.borrow_mut();
         view.seek(SeekFrom::Start(offset))?;
@@ -182,7 +186,9 @@ impl Container {
                     let viewer = Viewer::new(cursor, length as u64);
                     if let Ok(view) = Viewer::create_view(&viewer, 0) {
                         let mut ifd = tiff::Container::new(view, vec![(t, None)], raw_type);
-                        ifd.load(None).expect("ifd load");
+                        ifd.load(None)
+                            .map_err(|err| log::error!("CR3: couldn't load metadata: {err}"))
+                            .ok()?;
                         return Some((viewer, ifd));
                     }
                 }
@@ -190,8 +196,7 @@ impl Container {
             })
         }
 
-        let len = self
-            .meta_ifds
+        self.meta_ifds
             .get_or_init(|| {
                 if let Ok(craw) = self.craw_header() {
                     vec![
@@ -208,13 +213,8 @@ impl Container {
                     vec![]
                 }
             })
-            .len();
-
-        if len < idx as usize {
-            None
-        } else {
-            self.meta_ifds.get().and_then(|v| v[idx as usize].as_ref())
-        }
+            .get(idx as usize)
+            .and_then(|holder| holder.as_ref())
     }
 
     /// Number of tracks in the ISO container
@@ -260,7 +260,7 @@ impl Container {
 
         let video = match track.stsd {
             // We assume there is only one.
-            Some(ref data) => &data.descriptions[0],
+            Some(ref data) => data.descriptions.first().ok_or(Error::FormatError)?,
             None => return Err(Error::FormatError),
         };
 
@@ -277,13 +277,13 @@ impl Container {
             if stsz.sample_size > 0 {
                 stsz.sample_size as u64
             } else {
-                stsz.sample_sizes[0] as u64
+                *stsz.sample_sizes.first().ok_or(Error::FormatError)? as u64
             }
         } else {
             0
         };
         track_info.offset = if let Some(ref stco) = track.stco {
-            stco.offsets[0]
+            *stco.offsets.first().ok_or(Error::FormatError)?
         } else {
             0
         };
diff --git a/src/mp4/parse/mod.rs b/src/mp4/parse/mod.rs
index 4711a8f..71a8694 100644
--- a/src/mp4/parse/mod.rs
+++ b/src/mp4/parse/mod.rs
@@ -1560,7 +1560,8 @@ impl<T: Read> Read for BMFFBox<'_, T> {
 
 impl<T: Read> TryRead for BMFFBox<'_, T> {
     fn try_read_to_end(&mut self, buf: &mut TryVec<u8>) -> std::io::Result<usize> {
-        fallible_collections::try_read_up_to(self, self.bytes_left(), buf)
+        let len = self.bytes_left();
+        read_chunks(self, len, buf)
     }
 }
 
@@ -1675,6 +1676,12 @@ fn read_fullbox_version_no_flags<T: ReadBytesExt>(src: &mut T) -> Result<u8> {
     Ok(version)
 }
 
+/// How many entries of `entry_size` to make room for, given the `count`
+/// in the table. There can't be more than the box holds.
+fn max_entries<T>(src: &BMFFBox<T>, count: u32, entry_size: u64) -> usize {
+    std::cmp::min(u64::from(count), src.content.limit() / entry_size) as usize
+}
+
 /// Skip over the entire contents of a box.
 fn skip_box_content<T: Read>(src: &mut BMFFBox<T>) -> Result<()> {
     // Skip the contents of unknown chunks.
@@ -3704,7 +3711,7 @@ fn read_tkhd<T: Read>(src: &mut BMFFBox<T>) -> Result<TrackHeaderBox> {
 fn read_elst<T: Read>(src: &mut BMFFBox<T>) -> Result<EditListBox> {
     let (version, _) = read_fullbox_extra(src)?;
     let edit_count = be_u32(src)?;
-    let mut edits = TryVec::with_capacity(edit_count.to_usize())?;
+    let mut edits = TryVec::with_capacity(max_entries(src, edit_count, 12))?;
     for _ in 0..edit_count {
         let (segment_duration, media_time) = match version {
             1 => {
@@ -3780,7 +3787,7 @@ fn read_mdhd<T: Read>(src: &mut BMFFBox<T>) -> Result<MediaHeaderBox> {
 fn read_stco<T: Read>(src: &mut BMFFBox<T>) -> Result<ChunkOffsetBox> {
     let (_, _) = read_fullbox_extra(src)?;
     let offset_count = be_u32(src)?;
-    let mut offsets = TryVec::with_capacity(offset_count.to_usize())?;
+    let mut offsets = TryVec::with_capacity(max_entries(src, offset_count, 4))?;
     for _ in 0..offset_count {
         offsets.push(be_u32(src)?.into())?;
     }
@@ -3796,7 +3803,7 @@ fn read_stco<T: Read>(src: &mut BMFFBox<T>) -> Result<ChunkOffsetBox> {
 fn read_co64<T: Read>(src: &mut BMFFBox<T>) -> Result<ChunkOffsetBox> {
     let (_, _) = read_fullbox_extra(src)?;
     let offset_count = be_u32(src)?;
-    let mut offsets = TryVec::with_capacity(offset_count.to_usize())?;
+    let mut offsets = TryVec::with_capacity(max_entries(src, offset_count, 8))?;
     for _ in 0..offset_count {
         offsets.push(be_u64(src)?)?;
     }
@@ -3812,7 +3819,7 @@ fn read_co64<T: Read>(src: &mut BMFFBox<T>) -> Result<ChunkOffsetBox> {
 fn read_stss<T: Read>(src: &mut BMFFBox<T>) -> Result<SyncSampleBox> {
     let (_, _) = read_fullbox_extra(src)?;
     let sample_count = be_u32(src)?;
-    let mut samples = TryVec::with_capacity(sample_count.to_usize())?;
+    let mut samples = TryVec::with_capacity(max_entries(src, sample_count, 4))?;
     for _ in 0..sample_count {
         samples.push(be_u32(src)?)?;
     }
@@ -3828,7 +3835,7 @@ fn read_stss<T: Read>(src: &mut BMFFBox<T>) -> Result<SyncSampleBox> {
 fn read_stsc<T: Read>(src: &mut BMFFBox<T>) -> Result<SampleToChunkBox> {
     let (_, _) = read_fullbox_extra(src)?;
     let sample_count = be_u32(src)?;
-    let mut samples = TryVec::with_capacity(sample_count.to_usize())?;
+    let mut samples = TryVec::with_capacity(max_entries(src, sample_count, 12))?;
     for _ in 0..sample_count {
         let first_chunk = be_u32(src)?;
         let samples_per_chunk = be_u32(src)?;
@@ -3894,7 +3901,7 @@ fn read_stsz<T: Read>(src: &mut BMFFBox<T>) -> Result<SampleSizeBox> {
     let sample_count = be_u32(src)?;
     let mut sample_sizes = TryVec::new();
     if sample_size == 0 {
-        sample_sizes.reserve(sample_count.to_usize())?;
+        sample_sizes.reserve(max_entries(src, sample_count, 4))?;
         for _ in 0..sample_count {
             sample_sizes.push(be_u32(src)?)?;
         }
@@ -3914,7 +3921,7 @@ fn read_stsz<T: Read>(src: &mut BMFFBox<T>) -> Result<SampleSizeBox> {
 fn read_stts<T: Read>(src: &mut BMFFBox<T>) -> Result<TimeToSampleBox> {
     let (_, _) = read_fullbox_extra(src)?;
     let sample_count = be_u32(src)?;
-    let mut samples = TryVec::with_capacity(sample_count.to_usize())?;
+    let mut samples = TryVec::with_capacity(max_entries(src, sample_count, 8))?;
     for _ in 0..sample_count {
         let sample_count = be_u32(src)?;
         let sample_delta = be_u32(src)?;
@@ -5275,9 +5282,27 @@ fn skip<T: Read>(src: &mut T, bytes: u64) -> Result<()> {
     Ok(())
 }
 
+/// Read up to `size` bytes into `buf`, without trusting `size` for the
+/// allocation.
+fn read_chunks<T: Read>(src: &mut T, size: u64, buf: &mut TryVec<u8>) -> std::io::Result<usize> {
+    const CHUNK: u64 = 65536;
+
+    let mut total = 0;
+    while total < size {
+        let chunk = std::cmp::min(size - total, CHUNK);
+        let count = fallible_collections::try_read_up_to(src, chunk, buf)?.to_u64();
+        total += count;
+        if count < chunk {
+            break;
+        }
+    }
+    Ok(total as usize)
+}
+
 /// Read size bytes into a Vector or return error.
 fn read_buf<T: Read>(src: &mut T, size: u64) -> Result<TryVec<u8>> {
-    let buf = src.take(size).read_into_try_vec()?;
+    let mut buf = TryVec::new();
+    read_chunks(src, size, &mut buf)?;
     if buf.len().to_u64() != size {
         return Err(Error::InvalidData("failed buffer read"));
     }
-- 
2.43.0


From 99bdd9a4c76d8b8ce1795a91854ffa0e01261722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:10 +0000
Subject: [PATCH 47/91] fix: CR3: no overflow in the user crop

---
 src/canon/cr3.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/canon/cr3.rs b/src/canon/cr3.rs
index d28312d..9a1b32b 100644
--- a/src/canon/cr3.rs
+++ b/src/canon/cr3.rs
@@ -217,8 +217,8 @@ impl RawFileImpl for Cr3File {
                     .map(|mut aspect_info| {
                         probe!(self.probe, "cr3.aspect_info", true);
                         if let Some(sensor_info) = &sensor_info {
-                            aspect_info.1.x += sensor_info.x;
-                            aspect_info.1.y += sensor_info.y;
+                            aspect_info.1.x = aspect_info.1.x.saturating_add(sensor_info.x);
+                            aspect_info.1.y = aspect_info.1.y.saturating_add(sensor_info.y);
                         }
                         aspect_info
                     })
-- 
2.43.0


From d31d0ffc5621889facf7b2b84e52203bd95820cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:45 +0000
Subject: [PATCH 48/91] fix: JPEG: read the headers once, from the start;
 thumbnail relative to the Exif block

---
 src/jpeg.rs           |  9 +++++---
 src/jpeg/container.rs | 52 ++++++++++++++++++-------------------------
 2 files changed, 28 insertions(+), 33 deletions(-)

diff --git a/src/jpeg.rs b/src/jpeg.rs
index 07fa8aa..cd7cef7 100644
--- a/src/jpeg.rs
+++ b/src/jpeg.rs
@@ -94,8 +94,11 @@ impl RawFileImpl for JpegFile {
                 let dir = exif.directory(1)?;
                 let len = dir.value::<u32>(exif::EXIF_TAG_JPEG_INTERCHANGE_FORMAT_LENGTH)? as u64;
                 let offset = dir.value::<u32>(exif::EXIF_TAG_JPEG_INTERCHANGE_FORMAT)? as u64;
-                // XXX this +12 should be "calculated"
-                let offset = offset + 12;
+                // The offset is relative to the Exif block, wherever it is in the file.
+                let data = exif.load_buffer8(offset, len);
+                if data.is_empty() {
+                    return None;
+                }
                 // XXX as a shortcut we assume it's Exif 160x120
                 thumbnails.push((
                     160,
@@ -103,7 +106,7 @@ impl RawFileImpl for JpegFile {
                         width: 160,
                         height: 120,
                         data_type: DataType::Jpeg,
-                        data: thumbnail::Data::Offset(thumbnail::DataOffset { offset, len }),
+                        data: thumbnail::Data::Bytes(data),
                     },
                 ));
 
diff --git a/src/jpeg/container.rs b/src/jpeg/container.rs
index 7e68b71..2e25921 100644
--- a/src/jpeg/container.rs
+++ b/src/jpeg/container.rs
@@ -22,6 +22,7 @@
 //! JPEG container
 
 use std::cell::{RefCell, RefMut};
+use std::io::Seek;
 use std::rc::Rc;
 
 use jpeg_decoder::{Decoder, ImageInfo};
@@ -40,8 +41,8 @@ pub(crate) struct Container {
     view: RefCell<View>,
     /// JPEG image info
     image_info: OnceCell<Option<ImageInfo>>,
-    /// JPEG decoder
-    decoder: OnceCell<RefCell<Decoder<View>>>,
+    /// JPEG decoder, whose headers have been read. `None` if they can't be.
+    decoder: OnceCell<Option<RefCell<Decoder<View>>>>,
     /// Exif IFD
     exif: OnceCell<Option<(tiff::Container, Rc<Viewer>)>>,
     /// The RawType this belong to
@@ -98,12 +99,22 @@ impl Container {
         }
     }
 
-    /// Initialize the JPEG decoder.
-    fn decoder(&self) -> &RefCell<Decoder<View>> {
-        self.decoder.get_or_init(|| {
-            let view = &*self.view.borrow_mut();
-            RefCell::new(Decoder::new(view.clone()))
-        })
+    /// Initialize the JPEG decoder and read the headers, once.
+    fn decoder(&self) -> Option<&RefCell<Decoder<View>>> {
+        self.decoder
+            .get_or_init(|| {
+                let mut view = self.view.borrow_mut();
+                view.rewind()
+                    .map_err(|err| log::error!("JPEG seek error: {}", err))
+                    .ok()?;
+                let mut decoder = Decoder::new(view.clone());
+                decoder
+                    .read_info()
+                    .map_err(|err| log::error!("JPEG decoding error: {}", err))
+                    .ok()?;
+                Some(RefCell::new(decoder))
+            })
+            .as_ref()
     }
 
     pub fn exif_dir(&self) -> Option<&tiff::Dir> {
@@ -117,16 +128,7 @@ impl Container {
     pub fn exif(&self) -> Option<&tiff::Container> {
         self.exif
             .get_or_init(|| {
-                let decoder = self.decoder();
-                decoder
-                    .borrow_mut()
-                    .read_info()
-                    .map_err(|err| {
-                        log::error!("JPEG decoding error: {}", err);
-                        err
-                    })
-                    .ok()?;
-                decoder
+                self.decoder()?
                     .borrow()
                     .exif_data()
                     .and_then(|data| {
@@ -164,18 +166,8 @@ impl Container {
 
     /// Load the image info.
     fn image_info(&self) -> &Option<ImageInfo> {
-        self.image_info.get_or_init(|| {
-            let decoder = self.decoder();
-            decoder
-                .borrow_mut()
-                .read_info()
-                .map_err(|err| {
-                    log::error!("JPEG decoding error: {}", err);
-                    err
-                })
-                .ok()?;
-            decoder.borrow().info()
-        })
+        self.image_info
+            .get_or_init(|| self.decoder()?.borrow().info())
     }
 
     /// Return the height of the JPEG image.
-- 
2.43.0


From 4798ff79d7dbe3bdacdc7f65a0a545904cf82f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:15 +0000
Subject: [PATCH 49/91] fix: ISO media: unknown UUID box without UUID

---
 src/mp4/parse/mod.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/mp4/parse/mod.rs b/src/mp4/parse/mod.rs
index 71a8694..0e70612 100644
--- a/src/mp4/parse/mod.rs
+++ b/src/mp4/parse/mod.rs
@@ -3309,10 +3309,7 @@ fn read_moov<T: Read>(f: &mut BMFFBox<T>, context: Option<MediaContext>) -> Resu
                     }
                 }
                 if !box_known {
-                    debug!(
-                        "Unknown UUID box {:?} (skipping)",
-                        b.head.uuid.as_ref().unwrap()
-                    );
+                    debug!("Unknown UUID box {:?} (skipping)", b.head.uuid);
                     skip_box_content(&mut b)?;
                 }
             }
-- 
2.43.0


From b7dc5269dd0ded6dcb7692d15d0a35702128c173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:22 +0000
Subject: [PATCH 50/91] fix: bound the data loaded by overlapping strips,
 directories, heaps and boxes

The strips whose total length overflows, the directories that share their
data, CIFF heaps that contain each other and ISO boxes announcing more
than the file holds made the library allocate and read much more than
the file contains.
---
 src/canon/crw/ciff.rs | 20 ++++++++++++++++++--
 src/mp4/parse/mod.rs  | 16 +++++++++++-----
 src/tiff.rs           | 12 ++++++++----
 src/tiff/container.rs |  9 +++++++++
 src/tiff/dir.rs       | 18 ++++++++++++++++++
 5 files changed, 64 insertions(+), 11 deletions(-)

diff --git a/src/canon/crw/ciff.rs b/src/canon/crw/ciff.rs
index d03ac09..b9e6bf1 100644
--- a/src/canon/crw/ciff.rs
+++ b/src/canon/crw/ciff.rs
@@ -511,10 +511,26 @@ impl Heap {
             return Err(Error::FormatError);
         }
         view.seek(SeekFrom::Start(self.pos as u64 + heap_start as u64))?;
-        let num_records = view.read_endian_u16(endian)?;
-        for _ in 0..num_records {
+        let num_records = view.read_endian_u16(endian)? as u32;
+        // The records are inside the heap.
+        let max_records = (self.len - 4 - heap_start) / 10;
+        if num_records > max_records {
+            log::error!("CIFF Heap: too many records {}", num_records);
+        }
+        // And the heaps it contains don't overlap.
+        let mut heap_len = self.len;
+        for _ in 0..num_records.min(max_records) {
             match RecordEntry::from_view(self.pos, view, endian) {
                 Ok(Some(entry)) => {
+                    if let (true, Record::InHeap((_, len))) = (entry.is_heap(), &entry.data) {
+                        match heap_len.checked_sub(*len) {
+                            Some(left) => heap_len = left,
+                            None => {
+                                log::error!("CIFF Heap: record {:?} too big", entry.type_code);
+                                continue;
+                            }
+                        }
+                    }
                     self.records.insert(entry.type_code, entry);
                 }
                 Ok(None) => {}
diff --git a/src/mp4/parse/mod.rs b/src/mp4/parse/mod.rs
index 0e70612..8bf2168 100644
--- a/src/mp4/parse/mod.rs
+++ b/src/mp4/parse/mod.rs
@@ -1676,10 +1676,12 @@ fn read_fullbox_version_no_flags<T: ReadBytesExt>(src: &mut T) -> Result<u8> {
     Ok(version)
 }
 
-/// How many entries of `entry_size` to make room for, given the `count`
-/// in the table. There can't be more than the box holds.
+/// How many entries of `entry_size` to make room for at first, given the
+/// `count` in the table. There can't be more than the box holds, and the box
+/// may be larger than the file.
 fn max_entries<T>(src: &BMFFBox<T>, count: u32, entry_size: u64) -> usize {
-    std::cmp::min(u64::from(count), src.content.limit() / entry_size) as usize
+    const MAX_ENTRIES: u64 = 4096;
+    std::cmp::min(u64::from(count), src.content.limit() / entry_size).min(MAX_ENTRIES) as usize
 }
 
 /// Skip over the entire contents of a box.
@@ -3608,7 +3610,11 @@ fn read_ftyp<T: Read>(src: &mut BMFFBox<T>) -> Result<FileTypeBox> {
     }
     // Is a brand_count of zero valid?
     let brand_count = bytes_left / 4;
-    let mut brands = TryVec::with_capacity(brand_count.try_into()?)?;
+    let mut brands = TryVec::with_capacity(max_entries(
+        src,
+        brand_count.try_into().unwrap_or(u32::MAX),
+        4,
+    ))?;
     for _ in 0..brand_count {
         brands.push(be_u32(src)?.into())?;
     }
@@ -3864,7 +3870,7 @@ fn read_ctts<T: Read>(src: &mut BMFFBox<T>) -> Result<CompositionOffsetBox> {
         return Err(Error::InvalidData("insufficient data in 'ctts' box"));
     }
 
-    let mut offsets = TryVec::with_capacity(counts.to_usize())?;
+    let mut offsets = TryVec::with_capacity(max_entries(src, counts, 8))?;
     for _ in 0..counts {
         let (sample_count, time_offset) = match version {
             // According to spec, Version0 shoule be used when version == 0;
diff --git a/src/tiff.rs b/src/tiff.rs
index ae01536..6635986 100644
--- a/src/tiff.rs
+++ b/src/tiff.rs
@@ -314,8 +314,13 @@ pub(crate) fn tiff_get_rawdata_with_endian(
             strips = std::iter::zip(offsets.iter(), counts.iter())
                 .map(|(offset, len)| (*offset as u64, *len as u64))
                 .collect();
-            // In case of overflow, we'll return None
-            counts.iter().try_fold(0_u32, |sum, &x| sum.checked_add(x))
+            // In case of overflow, this can't be in the file.
+            Some(
+                strips
+                    .iter()
+                    .fold(0_u64, |sum, s| sum + s.1)
+                    .min(u32::MAX as u64) as u32,
+            )
         })
         .or_else(|| {
             tile_bytes = dir
@@ -469,8 +474,7 @@ pub(crate) fn tiff_get_rawdata_with_endian(
                 mosaic_pattern.unwrap_or_default(),
             )
         } else {
-            let data =
-                gathered.unwrap_or_else(|| container.load_buffer8(offset, byte_len as u64));
+            let data = gathered.unwrap_or_else(|| container.load_buffer8(offset, byte_len as u64));
             RawImage::with_data8(
                 x,
                 y,
diff --git a/src/tiff/container.rs b/src/tiff/container.rs
index 244d907..3f8289f 100644
--- a/src/tiff/container.rs
+++ b/src/tiff/container.rs
@@ -238,6 +238,8 @@ impl Container {
                     .unwrap_or(0)
             };
             let mut visited = HashSet::new();
+            // Directories don't share their data.
+            let mut budget = self.view.borrow().len();
             while dir_offset != 0 {
                 if dirs.len() >= MAX_DIRS || !visited.insert(dir_offset) {
                     error!("Too many directories or loop at {dir_offset}");
@@ -261,6 +263,13 @@ impl Container {
                     )
                 } {
                     let next_offset = dir.next_ifd();
+                    budget = match budget.checked_sub(dir.data_len()) {
+                        Some(budget) => budget,
+                        None => {
+                            error!("Directories have more data than the file");
+                            break;
+                        }
+                    };
                     dirs.push(dir);
                     index += 1;
                     if next_offset != 0 && next_offset <= dir_offset {
diff --git a/src/tiff/dir.rs b/src/tiff/dir.rs
index 0c5917b..4a4e928 100644
--- a/src/tiff/dir.rs
+++ b/src/tiff/dir.rs
@@ -612,6 +612,15 @@ impl Dir {
         &self.id
     }
 
+    /// The length of the data stored out of the entries.
+    pub(crate) fn data_len(&self) -> u64 {
+        self.entries
+            .values()
+            .filter(|entry| !entry.is_inline())
+            .map(|entry| entry.data().len() as u64)
+            .sum()
+    }
+
     /// Offset of the next IFD. 0 mean this was the last one.
     pub fn next_ifd(&self) -> u32 {
         self.next
@@ -799,6 +808,8 @@ impl Dir {
                 if offsets.len() > tiff::MAX_DIRS {
                     log::error!("Too many SubIFDs: {}", offsets.len());
                 }
+                // Directories don't share their data.
+                let mut budget = container.borrow_view_mut().len();
                 for offset in offsets.into_iter().take(tiff::MAX_DIRS) {
                     if offset == 0 {
                         log::warn!("SubIFD with offset 0");
@@ -828,6 +839,13 @@ impl Dir {
                             Err(Error::NotFound)
                         }
                     } {
+                        budget = match budget.checked_sub(dir.data_len()) {
+                            Some(budget) => budget,
+                            None => {
+                                log::error!("SubIFDs have more data than the file");
+                                break;
+                            }
+                        };
                         ifds.push(dir);
                     };
                 }
-- 
2.43.0


From 1905e869d83a84f677a2b577af536659535565f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:11 +0000
Subject: [PATCH 51/91] fix: identify the content when the reader returns short
 reads

---
 src/identify.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/identify.rs b/src/identify.rs
index 89252e3..515ae14 100644
--- a/src/identify.rs
+++ b/src/identify.rs
@@ -124,7 +124,16 @@ pub(crate) fn type_for_content(content: &mut View) -> Result<Option<Type>> {
     // Change as needed
     let mut buf = [0_u8; 16];
 
-    let len = content.read(&mut buf)?;
+    // A single read may return less than there is.
+    let mut len = 0;
+    while len < buf.len() {
+        match content.read(&mut buf[len..]) {
+            Ok(0) => break,
+            Ok(n) => len += n,
+            Err(err) if err.kind() == std::io::ErrorKind::Interrupted => {}
+            Err(err) => return Err(err.into()),
+        }
+    }
     if len <= 4 {
         return Err(Error::BufferTooSmall);
     }
-- 
2.43.0


From 2115bf8af93b802412d4da56710ac7a0a0e7f87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:11 +0000
Subject: [PATCH 52/91] fix: ISO media: read the whole UUID when the reader
 returns short reads

---
 src/mp4/parse/mod.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/mp4/parse/mod.rs b/src/mp4/parse/mod.rs
index 8bf2168..f872380 100644
--- a/src/mp4/parse/mod.rs
+++ b/src/mp4/parse/mod.rs
@@ -1628,8 +1628,17 @@ fn read_box_header<T: ReadBytesExt>(src: &mut T) -> Result<BoxHeader> {
     };
     let uuid = if name == BoxType::UuidBox {
         if size >= offset + 16 {
+            // A single read may return less than there is.
             let mut buffer = [0u8; 16];
-            let count = src.read(&mut buffer)?;
+            let mut count = 0;
+            while count < buffer.len() {
+                match src.read(&mut buffer[count..]) {
+                    Ok(0) => break,
+                    Ok(n) => count += n,
+                    Err(err) if err.kind() == std::io::ErrorKind::Interrupted => {}
+                    Err(err) => return Err(err.into()),
+                }
+            }
             offset += count.to_u64();
             if count == 16 {
                 Some(buffer)
-- 
2.43.0


From 80ebdd706f3a5af9e1c7aea78de3610149f378e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:31 +0000
Subject: [PATCH 53/91] fix: CRW: no white balance nor focal length made up
 from what can't be read

---
 src/canon/crw.rs                | 66 ++++++++++++++++-----------------
 src/canon/crw/ciff/container.rs |  9 +++--
 2 files changed, 38 insertions(+), 37 deletions(-)

diff --git a/src/canon/crw.rs b/src/canon/crw.rs
index a8930b2..c0caba0 100644
--- a/src/canon/crw.rs
+++ b/src/canon/crw.rs
@@ -111,41 +111,39 @@ impl CrwFile {
         let container = self.container.get().unwrap();
 
         // Check ColourInfo2 first. A G2 also has ColourInfo1.
-        let wb = heap.records().get(&ciff::Tag::ColourInfo2).and_then(|r| {
-            if let ciff::Record::InHeap((pos, _)) = r.data {
-                let mut view = container.borrow_view_mut();
-                view.seek(SeekFrom::Start(pos as u64)).ok()?;
-                let magic = view.read_endian_u16(container.endian()).unwrap_or(0);
-                if magic > 512 {
-                    view.seek(SeekFrom::Start(pos as u64 + 120)).ok()?;
-                    let mut wb_data = [0_u16; 4];
-                    view.read_endian_u16_array(&mut wb_data, container.endian())
-                        .ok();
-                    let g = wb_data[0] as f64;
-                    Some(vec![
-                        g / wb_data[2] as f64,
-                        g / wb_data[3] as f64,
-                        1.0,
-                        g / wb_data[1] as f64,
-                    ])
-                } else if magic != 276 {
-                    // G2, S30, S40
-                    view.seek(SeekFrom::Start(pos as u64 + 100)).ok()?;
-                    let mut wb_data = [0_u16; 4];
-                    view.read_endian_u16_array(&mut wb_data, container.endian())
-                        .ok();
-                    let g = (wb_data[0] as f64 + wb_data[3] as f64) / 2.0;
-                    Some(vec![g / wb_data[1] as f64, 1.0, g / wb_data[2] as f64])
-                } else {
-                    log::warn!("Unexpected ColourInfo2 magic {magic}");
-                    None
-                }
+        // If what is there can't be read, don't try to get something else.
+        if let Some(ciff::Record::InHeap((pos, _))) = heap
+            .records()
+            .get(&ciff::Tag::ColourInfo2)
+            .map(|r| &r.data)
+        {
+            let pos = *pos as u64;
+            let mut view = container.borrow_view_mut();
+            view.seek(SeekFrom::Start(pos)).ok()?;
+            let magic = view.read_endian_u16(container.endian()).ok()?;
+            if magic > 512 {
+                view.seek(SeekFrom::Start(pos + 120)).ok()?;
+                let mut wb_data = [0_u16; 4];
+                view.read_endian_u16_array(&mut wb_data, container.endian())
+                    .ok()?;
+                let g = wb_data[0] as f64;
+                return Some(vec![
+                    g / wb_data[2] as f64,
+                    g / wb_data[3] as f64,
+                    1.0,
+                    g / wb_data[1] as f64,
+                ]);
+            } else if magic != 276 {
+                // G2, S30, S40
+                view.seek(SeekFrom::Start(pos + 100)).ok()?;
+                let mut wb_data = [0_u16; 4];
+                view.read_endian_u16_array(&mut wb_data, container.endian())
+                    .ok()?;
+                let g = (wb_data[0] as f64 + wb_data[3] as f64) / 2.0;
+                return Some(vec![g / wb_data[1] as f64, 1.0, g / wb_data[2] as f64]);
             } else {
-                None
+                log::warn!("Unexpected ColourInfo2 magic {magic}");
             }
-        });
-        if wb.is_some() {
-            return wb;
         }
 
         // D30, G, S.
@@ -182,7 +180,7 @@ impl CrwFile {
                         view.seek(SeekFrom::Start(pos as u64 + offset)).ok()?;
                         let mut wb_data = [0_u16; 3];
                         view.read_endian_u16_array(&mut wb_data, container.endian())
-                            .ok();
+                            .ok()?;
                         let r = (wb_data[1] ^ key.1) as f64;
                         let g = (wb_data[0] ^ key.0) as f64;
                         let b = (wb_data[2] ^ key.0) as f64;
diff --git a/src/canon/crw/ciff/container.rs b/src/canon/crw/ciff/container.rs
index 394fa5f..36237aa 100644
--- a/src/canon/crw/ciff/container.rs
+++ b/src/canon/crw/ciff/container.rs
@@ -169,11 +169,14 @@ fn translate_focal_length(record: &RecordEntry, container: &Container, tag: u16)
             Some(fl) => *fl as u32,
             None => return vec![],
         };
-        let fu = container
+        // Without the units it has no meaning.
+        let fu = match container
             .camera_settings()
             .and_then(|camera_settings| camera_settings.get(25))
-            .copied()
-            .unwrap_or(0) as u32;
+        {
+            Some(fu) => *fu as u32,
+            None => return vec![],
+        };
         let mut buf = vec![0_u8; 8];
         container.endian_write_u32(&mut buf, fl);
         container.endian_write_u32(&mut buf[4..], fu);
-- 
2.43.0


From e5775574ec6062010fcebad58a83797cc85e78fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:31 +0000
Subject: [PATCH 54/91] fix: CR2: don't put the slices together without their
 sizes

---
 src/canon/cr2.rs | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/canon/cr2.rs b/src/canon/cr2.rs
index b2759e9..bf0dac4 100644
--- a/src/canon/cr2.rs
+++ b/src/canon/cr2.rs
@@ -215,19 +215,18 @@ impl Cr2File {
                 log::debug!("byte len not found");
                 Error::NotFound
             })?;
-        let slices = cfa_ifd
-            .entry(exif::CR2_TAG_SLICE)
-            .or_else(|| {
-                log::debug!("CR2 slice not found");
-                None
-            })
-            .and_then(|entry| entry.uint_value_array(container.endian()))
-            .or_else(|| {
+        let slices = match cfa_ifd.entry(exif::CR2_TAG_SLICE) {
+            // Without the value there is no way to put the slices together.
+            Some(entry) => entry.uint_value_array(container.endian()).ok_or_else(|| {
+                log::error!("CR2 slice value not found");
+                Error::FormatError
+            })?,
+            None => {
                 probe!(self.probe, "cr2.slices", "false");
-                log::debug!("CR2 slice value not found");
-                None
-            })
-            .unwrap_or_default();
+                log::debug!("CR2 slice not found");
+                vec![]
+            }
+        };
 
         // The tags exif::EXIF_TAG_PIXEL_X_DIMENSION
         // and exif::EXIF_TAG_PIXEL_Y_DIMENSION from the Exif IFD
-- 
2.43.0


From 710e0de9b00eec98ada3fb0d89c04400d6bd364d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:31 +0000
Subject: [PATCH 55/91] fix: ERF: no preview when its data can't be loaded

---
 src/epson.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/epson.rs b/src/epson.rs
index e0ac1e4..20476eb 100644
--- a/src/epson.rs
+++ b/src/epson.rs
@@ -137,7 +137,8 @@ impl RawFileImpl for ErfFile {
             let mut thumbnails = tiff::tiff_thumbnails(container);
             self.maker_note_ifd().and_then(|mnote| {
                 mnote.entry(exif::ERF_TAG_PREVIEW_IMAGE).and_then(|e| {
-                    let mut data = Vec::from(e.data());
+                    // None if the data couldn't be loaded.
+                    let mut data = e.value_array::<u8>(mnote.endian())?;
                     // The data start by 0xee instead of 0xff for a JPEG. Not sure why.
                     *data.first_mut()? = 0xff;
                     let desc = thumbnail::ThumbDesc {
-- 
2.43.0


From 57d8224f1f96777d9668c097c594df50c07491c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:31 +0000
Subject: [PATCH 56/91] fix: ORF: only decompress what could be loaded in full

---
 src/olympus.rs | 36 +++++++++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/src/olympus.rs b/src/olympus.rs
index e6343e1..2181032 100644
--- a/src/olympus.rs
+++ b/src/olympus.rs
@@ -313,18 +313,21 @@ impl OrfFile {
                         let full_len = Self::interlaced_offset(width as usize, height as usize)
                             as u64
                             + (height as u64 / 2) * row_size;
-                        let full = self
-                            .cfa_dir()
+                        self.cfa_dir()
                             .and_then(|dir| dir.uint_value(exif::EXIF_TAG_STRIP_OFFSETS))
                             .zip(self.container.get())
                             .map(|(offset, container)| {
                                 container.load_buffer8(offset as u64, full_len)
-                            });
-                        Some(Self::decode_12be_olympus_interlaced(
-                            full.as_deref().unwrap_or(data8),
-                            width as usize,
-                            height as usize,
-                        ))
+                            })
+                            // Half the rows are in the second field.
+                            .filter(|full| full.len() as u64 == full_len)
+                            .map(|full| {
+                                Self::decode_12be_olympus_interlaced(
+                                    &full,
+                                    width as usize,
+                                    height as usize,
+                                )
+                            })
                     } else {
                         probe!(self.probe, "orf.decompress.12be", "true");
                         Some(Self::decode_12be_olympus(
@@ -515,12 +518,22 @@ impl RawFileImpl for OrfFile {
             .ok_or(Error::NotFound)
             .and_then(|cfa| {
                 self.container()?;
+                let byte_len = cfa
+                    .uint_value_array(exif::EXIF_TAG_STRIP_BYTE_COUNTS)
+                    .unwrap_or_default()
+                    .iter()
+                    .map(|len| *len as u64)
+                    .sum::<u64>();
                 tiff::tiff_get_rawdata(self.container.get().unwrap(), cfa, self.type_())
+                    .map(|data| (data, byte_len))
             })
-            .map(|mut data| {
+            .map(|(mut data, byte_len)| {
                 let width = data.width();
                 let height = data.height();
-                let compression = if (data.data_size() as u64) < width as u64 * height as u64 * 2 {
+                let data_size = data.data_size() as u64;
+                let unpacked_size = width as u64 * height as u64 * 2;
+                // What couldn't be loaded doesn't make it compressed.
+                let compression = if data_size.max(byte_len) < unpacked_size {
                     data.set_compression(tiff::Compression::Olympus);
                     data.set_data_type(DataType::CompressedRaw);
                     tiff::Compression::Olympus
@@ -529,7 +542,8 @@ impl RawFileImpl for OrfFile {
                 };
                 let mut data = match compression {
                     tiff::Compression::Olympus => {
-                        if !skip_decompress {
+                        // The size tells how to decompress: it has to be all there.
+                        if !skip_decompress && data_size >= byte_len {
                             self.decompress(data)
                         } else {
                             data
-- 
2.43.0


From 3a54f1b58162020d5c7a14a3398f8143f73f244c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:31 +0000
Subject: [PATCH 57/91] fix: PEF: don't decompress without the Huffman table of
 the file

---
 src/pentax.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/pentax.rs b/src/pentax.rs
index d31f0af..a056da5 100644
--- a/src/pentax.rs
+++ b/src/pentax.rs
@@ -539,10 +539,17 @@ impl RawFileImpl for PefFile {
                     &format!("{:?}", rawdata.compression())
                 );
                 if let Some(data8) = rawdata.data8() {
-                    let huffman = self
-                        .ifd(tiff::IfdType::MakerNote)
-                        .and_then(|mnote| mnote.entry(exif::MNOTE_PENTAX_HUFFMAN_TABLE))
-                        .and_then(|e| e.value_array::<u8>(container.endian()));
+                    // Without the MakerNote, or if the table can't be read, there is
+                    // no way to tell which table to use. Leave the data compressed.
+                    let entry = match self.ifd(tiff::IfdType::MakerNote) {
+                        Some(mnote) => mnote.entry(exif::MNOTE_PENTAX_HUFFMAN_TABLE),
+                        None => return rawdata,
+                    };
+                    let huffman = entry.and_then(|e| e.value_array::<u8>(container.endian()));
+                    if entry.is_some() && huffman.is_none() {
+                        log::error!("PEF: can't read the Huffman table");
+                        return rawdata;
+                    }
                     let huffman = huffman
                         .as_ref()
                         .map(|huffman| (huffman.as_slice(), container.endian()));
-- 
2.43.0


From a6816851a620a981144de609fee12ef66610089c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:31 +0000
Subject: [PATCH 58/91] fix: don't list thumbnails of unknown dimensions

---
 src/rawfile.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rawfile.rs b/src/rawfile.rs
index fa22757..cb3b499 100644
--- a/src/rawfile.rs
+++ b/src/rawfile.rs
@@ -58,7 +58,9 @@ pub struct ThumbnailStorage {
 }
 
 impl ThumbnailStorage {
-    pub(crate) fn with_thumbnails(thumbnails: Vec<(u32, ThumbDesc)>) -> Self {
+    pub(crate) fn with_thumbnails(mut thumbnails: Vec<(u32, ThumbDesc)>) -> Self {
+        // The dimensions of these couldn't be determined.
+        thumbnails.retain(|v| v.0 != 0);
         let sizes = thumbnails.iter().map(|v| v.0).collect();
 
         Self { thumbnails, sizes }
-- 
2.43.0


From 94244e44a30c876f12224bff8d9c0ffb3f3563d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:31 +0000
Subject: [PATCH 59/91] fix: TIFF: stop at the first strip that can't be
 loaded, require strips or tiles

---
 src/tiff.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/tiff.rs b/src/tiff.rs
index 6635986..11f9fe0 100644
--- a/src/tiff.rs
+++ b/src/tiff.rs
@@ -334,6 +334,8 @@ pub(crate) fn tiff_get_rawdata_with_endian(
             tile_offsets = dir
                 .entry(exif::TIFF_TAG_TILE_OFFSETS)
                 .and_then(|e| e.value_array::<u32>(dir.endian()));
+            // Neither strips nor tiles.
+            tile_bytes.as_ref().and(tile_offsets.as_ref())?;
             // the tile are individual JPEGS....
             let x = dir.uint_value(exif::TIFF_TAG_TILE_WIDTH).unwrap_or(0);
             let y = dir.uint_value(exif::TIFF_TAG_TILE_LENGTH).unwrap_or(0);
@@ -441,7 +443,14 @@ pub(crate) fn tiff_get_rawdata_with_endian(
     } else {
         let mut data = vec![];
         for (offset, len) in &strips {
-            data.append(&mut container.load_buffer8(*offset, *len));
+            let mut strip = container.load_buffer8(*offset, *len);
+            let missing = (strip.len() as u64) < *len;
+            data.append(&mut strip);
+            if missing {
+                // What follows would be at the wrong place.
+                log::error!("TIFF: couldn't load strip at {offset}");
+                break;
+            }
         }
         Some(data)
     };
-- 
2.43.0


From 6a73d21498f6e6ae099dfb627f61da8ab85c9aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:32 +0000
Subject: [PATCH 60/91] fix: MRW: no CFA pattern or storage made up when it
 can't be read

---
 src/minolta.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/minolta.rs b/src/minolta.rs
index 072aa3c..cbfe4df 100644
--- a/src/minolta.rs
+++ b/src/minolta.rs
@@ -628,7 +628,7 @@ impl MrwContainer {
         let is_compressed = prd
             .uint8_value(Prd::StorageType as u64, self)
             .map(|storage| storage == StorageType::Packed as u8)
-            .unwrap_or(false);
+            .ok_or(Error::NotFound)?;
         let mosaic = prd
             .uint16_value(Prd::BayerPattern as u64, self)
             .map(|pattern| {
@@ -638,7 +638,7 @@ impl MrwContainer {
                     Pattern::Rggb
                 }
             })
-            .unwrap_or(Pattern::Rggb);
+            .ok_or(Error::NotFound)?;
 
         Ok(RawInfo {
             x,
@@ -652,12 +652,10 @@ impl MrwContainer {
     pub(crate) fn get_wb(&self) -> Option<[f64; 4]> {
         let wbg = self.wbg.as_ref()?;
         // The values are in the order of the `BayerPattern`.
-        let order = match self.minolta_prd() {
-            Ok(RawInfo {
-                mosaic: Pattern::Gbrg,
-                ..
-            }) => [2_u64, 0, 1],
-            _ => [0, 1, 3],
+        let order = if self.prd.is_some() && self.minolta_prd().ok()?.mosaic == Pattern::Gbrg {
+            [2_u64, 0, 1]
+        } else {
+            [0, 1, 3]
         };
         let mut wb = [f64::NAN; 4];
         for (wb, idx) in wb.iter_mut().zip(order) {
-- 
2.43.0


From d2d4c68ce4f794ec4e0a5b457ef6376dacf4daec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:32 +0000
Subject: [PATCH 61/91] fix: CR2: no crop without the sensor info it is
 relative to

---
 src/canon/cr2.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/canon/cr2.rs b/src/canon/cr2.rs
index bf0dac4..c9deb14 100644
--- a/src/canon/cr2.rs
+++ b/src/canon/cr2.rs
@@ -264,6 +264,13 @@ impl Cr2File {
         });
         if let Some(aspect_info) =
             maker_note_ifd
+                // It is relative to the sensor info: this has to be readable.
+                .filter(|mnote| {
+                    mnote
+                        .entry(exif::MNOTE_CANON_SENSORINFO)
+                        .map(|e| e.value_array::<u16>(mnote.endian()).is_some())
+                        .unwrap_or(true)
+                })
                 .and_then(super::AspectInfo::new)
                 .map(|mut aspect_info| {
                     probe!(self.probe, "cr2.aspect_info", true);
-- 
2.43.0


From 52302ee35495da2abd907057668f872f751aed3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:32 +0000
Subject: [PATCH 62/91] fix: DNG: no crop without the active area it is
 relative to

---
 src/dng.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/dng.rs b/src/dng.rs
index 3cdfdf0..fde901d 100644
--- a/src/dng.rs
+++ b/src/dng.rs
@@ -352,9 +352,12 @@ impl RawFileImpl for DngFile {
                 let container = self.container.get().unwrap();
                 tiff::tiff_get_rawdata(container, dir, self.type_())
                     .map(|mut rawdata| {
-                        let active_area = dir
-                            .entry(exif::DNG_TAG_ACTIVE_AREA)
-                            .and_then(|e| e.uint_value_array(container.endian()))
+                        let active_area_entry = dir.entry(exif::DNG_TAG_ACTIVE_AREA);
+                        let active_area_value = active_area_entry
+                            .and_then(|e| e.uint_value_array(container.endian()));
+                        // The crop is relative to the active area: it can't be unreadable.
+                        let can_crop = active_area_entry.is_none() || active_area_value.is_some();
+                        let active_area = active_area_value
                             // check the size of the array. Should be 4
                             .and_then(|a| if a.len() >= 4 { Some(a) } else { None })
                             // top, left, bottom, right
@@ -376,7 +379,7 @@ impl RawFileImpl for DngFile {
                             });
                         rawdata.set_active_area(active_area.clone());
                         let active_area = active_area.unwrap();
-                        let user_crop = Some(Rect::default()).and_then(|_| {
+                        let user_crop = Some(Rect::default()).filter(|_| can_crop).and_then(|_| {
                             let origin = dir
                                 .uint_value_array(exif::DNG_TAG_DEFAULT_CROP_ORIGIN)
                                 .and_then(|v| if v.len() < 2 { None } else { Some(v) })
-- 
2.43.0


From 9c423b69a643f7b800bd8fe6b4d32fa2b21e1313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:32 +0000
Subject: [PATCH 63/91] fix: TIFF: a tile that can't be loaded is an error

---
 src/tiff.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/tiff.rs b/src/tiff.rs
index 11f9fe0..6f80809 100644
--- a/src/tiff.rs
+++ b/src/tiff.rs
@@ -234,6 +234,11 @@ fn load_tiles(
     let mut loaded = vec![];
     for (offset, len) in tiles {
         let data = container.load_buffer8(*offset, *len);
+        // The length tells how the samples are stored.
+        if (data.len() as u64) < *len {
+            log::error!("TIFF: couldn't load tile at {offset}");
+            return Err(Error::UnexpectedEOF);
+        }
         let samples: Vec<u16> = match bpc {
             8 => data.iter().map(|v| *v as u16).collect(),
             10 | 12 | 14 if data.len() < tile_len * 2 => decompress::unpack_from_reader(
-- 
2.43.0


From 08b54f12589845e0ad8f7fff9153349ab74385e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:32 +0000
Subject: [PATCH 64/91] fix: ISO media: a CRAW entry with a box that can't be
 read is an error

---
 src/mp4/parse/craw.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/mp4/parse/craw.rs b/src/mp4/parse/craw.rs
index 115e11e..9cbf05c 100644
--- a/src/mp4/parse/craw.rs
+++ b/src/mp4/parse/craw.rs
@@ -65,9 +65,11 @@ pub(crate) fn read_craw_entry<T: Read>(
 ) -> super::Result<super::SampleEntry> {
     skip(src, 54)?;
     let mut is_jpeg = false;
-    {
+    loop {
+        let left = src.bytes_left();
         let mut iter = src.box_iter();
-        while let Some(mut b) = iter.next_box()? {
+        let next = iter.next_box()?;
+        if let Some(mut b) = next {
             debug!("Box size {}", b.head.size);
             match b.head.name {
                 BoxType::QTJPEGAtom => {
@@ -79,6 +81,11 @@ pub(crate) fn read_craw_entry<T: Read>(
                 }
             }
             skip_box_remain(&mut b)?;
+        } else if left >= 8 {
+            // There is a box, but it couldn't be read.
+            return Err(Error::UnexpectedEOF);
+        } else {
+            break;
         }
     }
     skip_box_remain(src)?;
-- 
2.43.0


From e526951f9b8a0f547edeb5caf815ea7fdf690e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:20 +0000
Subject: [PATCH 65/91] fix: colour LinearRaw data isn't rendered as if it had
 one sample per pixel

---
 src/rawimage.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/rawimage.rs b/src/rawimage.rs
index 17a8927..1631e63 100644
--- a/src/rawimage.rs
+++ b/src/rawimage.rs
@@ -546,6 +546,15 @@ impl RawImage {
         }
         let x = self.width();
         let y = self.height();
+        if matches!(self.photom_int, exif::PhotometricInterpretation::LinearRaw)
+            && self.data_size() / 2 >= x as usize * y as usize * 3
+            && x > 0
+            && y > 0
+        {
+            // The pixels have three samples.
+            log::error!("LinearRaw in colour isn't supported");
+            return Err(Error::Unimplemented);
+        }
         let mut pattern = self.mosaic_pattern().clone();
         let data16 = ImageBuffer::with_data(
             self.data16()
-- 
2.43.0


From b79a93972d397345f41c8c9ea00775a072b6dea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:51 +0000
Subject: [PATCH 66/91] fix: PEF: without a MakerNote the default Huffman table
 applies

---
 src/pentax.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/pentax.rs b/src/pentax.rs
index a056da5..6cd992c 100644
--- a/src/pentax.rs
+++ b/src/pentax.rs
@@ -539,12 +539,21 @@ impl RawFileImpl for PefFile {
                     &format!("{:?}", rawdata.compression())
                 );
                 if let Some(data8) = rawdata.data8() {
-                    // Without the MakerNote, or if the table can't be read, there is
-                    // no way to tell which table to use. Leave the data compressed.
-                    let entry = match self.ifd(tiff::IfdType::MakerNote) {
-                        Some(mnote) => mnote.entry(exif::MNOTE_PENTAX_HUFFMAN_TABLE),
-                        None => return rawdata,
+                    // If the MakerNote or the table can't be read, there is no way to
+                    // tell which table to use. Leave the data compressed.
+                    let mnote = self.ifd(tiff::IfdType::MakerNote);
+                    let has_mnote = match self.ifd(tiff::IfdType::Exif) {
+                        Some(exif) => exif.entry(exif::EXIF_TAG_MAKER_NOTE).is_some(),
+                        None => self
+                            .ifd(tiff::IfdType::Main)
+                            .and_then(|main| main.entry(exif::EXIF_TAG_EXIF_IFD_POINTER))
+                            .is_some(),
                     };
+                    if mnote.is_none() && has_mnote {
+                        log::error!("PEF: can't read the MakerNote");
+                        return rawdata;
+                    }
+                    let entry = mnote.and_then(|m| m.entry(exif::MNOTE_PENTAX_HUFFMAN_TABLE));
                     let huffman = entry.and_then(|e| e.value_array::<u8>(container.endian()));
                     if entry.is_some() && huffman.is_none() {
                         log::error!("PEF: can't read the Huffman table");
-- 
2.43.0


From 0161b6ad5780f14cf6c0d3bcb0b1b9ea10ab2079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:51 +0000
Subject: [PATCH 67/91] fix: the size of a free form pattern is that of its
 colours

---
 src/mosaic.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/mosaic.rs b/src/mosaic.rs
index 4395954..7480c95 100644
--- a/src/mosaic.rs
+++ b/src/mosaic.rs
@@ -154,8 +154,7 @@ impl Pattern {
             Self::Gbrg => 2,
             Self::Bggr => 2,
             Self::Grbg => 2,
-            // XXX inacurate. will do for now
-            Self::NonRgb22(_) => 6,
+            Self::NonRgb22(ref p) => Self::free_form_size(p.len()).0,
         }
     }
 
@@ -166,8 +165,18 @@ impl Pattern {
             Self::Gbrg => 2,
             Self::Bggr => 2,
             Self::Grbg => 2,
-            // XXX inacurate. will do for now
-            Self::NonRgb22(_) => 6,
+            Self::NonRgb22(ref p) => Self::free_form_size(p.len()).1,
+        }
+    }
+
+    /// The width and height of a free form pattern of `len` colours. Only
+    /// the square patterns have rows. X-Trans is 6x6.
+    fn free_form_size(len: usize) -> (usize, usize) {
+        let side = (1..=len).find(|s| s * s >= len).unwrap_or(0);
+        if side * side == len {
+            (side, side)
+        } else {
+            (len, 1)
         }
     }
 
-- 
2.43.0


From 862ad40f98354a02b5419b78c1c1641ace814179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:51 +0000
Subject: [PATCH 68/91] fix: only a 2x2 CFAPattern is read as one

---
 src/tiff.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/tiff.rs b/src/tiff.rs
index 6f80809..37ef978 100644
--- a/src/tiff.rs
+++ b/src/tiff.rs
@@ -174,16 +174,13 @@ fn convert_cfa_pattern(dir: &Dir, entry: &Entry) -> Option<Pattern> {
 }
 
 fn convert_new_cfa_pattern(entry: &Entry) -> Option<Pattern> {
-    if entry.count < 4 {
-        return None;
-    }
     let data = entry.data();
     let pattern = data.get(4..=7)?;
 
-    let h = data[0];
-    let v = data[1];
-    if h != 2 && v != 2 {
-        log::error!("Invalid CFA pattern size {}x{}", h, v);
+    // The horizontal and vertical repeats are SHORT in either byte order.
+    let repeats = &data[0..4];
+    if repeats != [2, 0, 2, 0] && repeats != [0, 2, 0, 2] {
+        log::error!("Invalid CFA pattern size {:?}", repeats);
         return None;
     }
 
-- 
2.43.0


From 118d269d066026dae56f05961c9c6505c00ba489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:34 +0000
Subject: [PATCH 69/91] fix: a file given as SR2 is read as an ARW

---
 src/factory.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/factory.rs b/src/factory.rs
index 1c61657..e9f3fb3 100644
--- a/src/factory.rs
+++ b/src/factory.rs
@@ -59,6 +59,7 @@ lazy_static::lazy_static! {
         (Type::Raf, RafFile::factory as RawFileFactory),
         (Type::Rw, Rw2File::factory as RawFileFactory),
         (Type::Rw2, Rw2File::factory as RawFileFactory),
+        (Type::Sr2, ArwFile::factory as RawFileFactory),
     ]);
 }
 
-- 
2.43.0


From ecbfcc1ecc79908126ff0062cdd5aff830fe2798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:14 +0000
Subject: [PATCH 70/91] fix: C API: the tag names are NUL terminated

---
 src/capi/ifd.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/capi/ifd.rs b/src/capi/ifd.rs
index 6176c58..a29dc09 100644
--- a/src/capi/ifd.rs
+++ b/src/capi/ifd.rs
@@ -19,6 +19,12 @@
  * <http://www.gnu.org/licenses/>.
  */
 
+use std::collections::HashMap;
+use std::ffi::CString;
+use std::sync::Mutex;
+
+use once_cell::sync::Lazy;
+
 use crate::tiff::{Ifd, IfdType};
 
 use crate::or_unwrap;
@@ -98,11 +104,21 @@ extern "C" fn or_ifd_get_type(dir: ORIfdDirRef) -> or_ifd_dir_type {
     or_unwrap!(dir, or_ifd_dir_type::INVALID, dir.type_.into())
 }
 
+/// The tag names as C strings. The names are static, so there is only
+/// a limited number of them, and these are never dropped.
+static TAG_NAMES: Lazy<Mutex<HashMap<&'static str, CString>>> =
+    Lazy::new(|| Mutex::new(HashMap::new()));
+
 #[no_mangle]
+/// Return the name of `tag` in the IFD: a NUL terminated string, empty if
+/// the tag is unknown. It is owned by the library.
 extern "C" fn or_ifd_get_tag_name(dir: ORIfdDirRef, tag: u32) -> *const std::ffi::c_char {
     or_unwrap!(dir, std::ptr::null(), {
-        dir.tag_name(tag as u16)
-            // XXX this is very very unsafe, it is not NUL terminated
+        let name = u16::try_from(tag).map_or("", |tag| dir.tag_name(tag));
+        let mut names = TAG_NAMES.lock().unwrap_or_else(|err| err.into_inner());
+        names
+            .entry(name)
+            .or_insert_with(|| CString::new(name).unwrap_or_default())
             .as_ptr() as *const std::ffi::c_char
     })
 }
-- 
2.43.0


From 74bdc95d1e3b3ef9a1e4ef8b6c18e5a710d63ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:14 +0000
Subject: [PATCH 71/91] fix: C API: a colour matrix fits in a larger array, and
 its size is told

---
 src/capi/rawfile.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/capi/rawfile.rs b/src/capi/rawfile.rs
index a3051b7..8e7634d 100644
--- a/src/capi/rawfile.rs
+++ b/src/capi/rawfile.rs
@@ -312,12 +312,14 @@ fn rawfile_get_colour_matrix(
             |err| err.into(),
             |cm| {
                 let out_size = unsafe { *size } as usize;
+                unsafe { *size = cm.1.len() as u32 };
                 if out_size < cm.1.len() {
                     return or_error::BUF_TOO_SMALL;
                 }
-                let slice = unsafe { std::slice::from_raw_parts_mut(matrix, out_size) };
-                slice.copy_from_slice(&cm.1[..out_size]);
-                unsafe { *size = cm.1.len() as u32 };
+                if matrix.is_null() {
+                    return or_error::INVALID_PARAM;
+                }
+                unsafe { matrix.copy_from_nonoverlapping(cm.1.as_ptr(), cm.1.len()) };
                 or_error::NONE
             },
         )
-- 
2.43.0


From 0382fda1b5931665493cd875499fce17837fd35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:17 +0000
Subject: [PATCH 72/91] fix: C API: implement or_mosaicinfo_get_pattern as
 declared

---
 src/capi/mosaic.rs | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/src/capi/mosaic.rs b/src/capi/mosaic.rs
index afb7444..08c06e2 100644
--- a/src/capi/mosaic.rs
+++ b/src/capi/mosaic.rs
@@ -19,7 +19,7 @@
  * <http://www.gnu.org/licenses/>.
  */
 
-use crate::mosaic::Pattern;
+use crate::mosaic::{Pattern, PatternColour};
 use crate::or_unwrap;
 
 use super::or_cfa_pattern;
@@ -34,8 +34,26 @@ extern "C" fn or_mosaicinfo_get_type(mosaic_info: ORMosaicInfoRef) -> or_cfa_pat
 }
 
 #[no_mangle]
-/// Get the pattern. Currently unimplemented.
-extern "C" fn or_mosaicinfo_get_pattern(_mosaic_info: ORMosaicInfoRef) -> *const u8 {
-    // XXX todo
-    unreachable!();
+/// Get the pattern: an array of the individual colours, owned by the
+/// mosaic info. Its size is returned in `count`.
+extern "C" fn or_mosaicinfo_get_pattern(
+    mosaic_info: ORMosaicInfoRef,
+    count: *mut u16,
+) -> *const u8 {
+    use PatternColour::{Blue, Green, Red};
+
+    or_unwrap!(mosaic_info, std::ptr::null(), {
+        let pattern: &[PatternColour] = match mosaic_info {
+            Pattern::Empty => &[],
+            Pattern::NonRgb22(pattern) => pattern,
+            Pattern::Rggb => &[Red, Green, Green, Blue],
+            Pattern::Gbrg => &[Green, Blue, Red, Green],
+            Pattern::Bggr => &[Blue, Green, Green, Red],
+            Pattern::Grbg => &[Green, Red, Blue, Green],
+        };
+        if !count.is_null() {
+            unsafe { *count = pattern.len() as u16 };
+        }
+        pattern.as_ptr() as *const u8
+    })
 }
-- 
2.43.0


From 2e20b91b0ffcddca58f660a60e14c5d9096549f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:55 +0000
Subject: [PATCH 73/91] fix: C API: report the documented error codes

---
 src/capi.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/capi.rs b/src/capi.rs
index 27fa11a..ca78c34 100644
--- a/src/capi.rs
+++ b/src/capi.rs
@@ -122,12 +122,18 @@ pub enum or_error {
     BUF_TOO_SMALL = 1,
     /// The expected pointer / ref is invalid.
     NOT_AREF = 2,
+    /// The file can't be opened.
+    CANT_OPEN = 3,
     /// Not found.
     NOT_FOUND = 5,
     /// Invalid parameter
     INVALID_PARAM = 6,
     /// Invalid format
     INVALID_FORMAT = 7,
+    /// Decompression error
+    DECOMPRESSION = 8,
+    /// Not implemented
+    NOT_IMPLEMENTED = 9,
     /// An unknown error.
     UNKNOWN = 42,
 }
@@ -135,7 +141,14 @@ pub enum or_error {
 impl From<Error> for or_error {
     fn from(err: Error) -> or_error {
         match err {
+            Error::None => or_error::NONE,
+            Error::BufferTooSmall => or_error::BUF_TOO_SMALL,
+            Error::InvalidAddress => or_error::NOT_AREF,
             Error::NotFound => or_error::NOT_FOUND,
+            Error::InvalidParam => or_error::INVALID_PARAM,
+            Error::InvalidFormat => or_error::INVALID_FORMAT,
+            Error::Decompression(_) => or_error::DECOMPRESSION,
+            Error::Unimplemented | Error::NotSupported => or_error::NOT_IMPLEMENTED,
             _ => or_error::UNKNOWN,
         }
     }
@@ -147,9 +160,12 @@ impl From<or_error> for Error {
             or_error::NONE => Error::None,
             or_error::BUF_TOO_SMALL => Error::BufferTooSmall,
             or_error::NOT_AREF => Error::InvalidAddress,
+            or_error::CANT_OPEN => Error::Unknown,
             or_error::NOT_FOUND => Error::NotFound,
             or_error::INVALID_PARAM => Error::InvalidParam,
             or_error::INVALID_FORMAT => Error::InvalidFormat,
+            or_error::DECOMPRESSION => Error::Decompression(String::new()),
+            or_error::NOT_IMPLEMENTED => Error::NotSupported,
             or_error::UNKNOWN => Error::Unknown,
         }
     }
-- 
2.43.0


From 5c8dbb2e20721af05f2087cea11072b29cf618e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:58 +0000
Subject: [PATCH 74/91] fix: C API: the error is always set by the
 or_rawfile_get functions

---
 src/capi/rawfile.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/capi/rawfile.rs b/src/capi/rawfile.rs
index 8e7634d..e47c5de 100644
--- a/src/capi/rawfile.rs
+++ b/src/capi/rawfile.rs
@@ -53,6 +53,14 @@ pub struct ORRawFile(RawFileHandle);
 /// Pointer to a [`ORRawFile`] object wrapper exported to the C API.
 pub type ORRawFileRef = *mut ORRawFile;
 
+/// Report that the rawfile isn't a reference in `error` if it isn't `null`.
+fn not_aref<T>(error: *mut or_error) -> *mut T {
+    if !error.is_null() {
+        unsafe { *error = or_error::NOT_AREF }
+    }
+    std::ptr::null_mut()
+}
+
 #[no_mangle]
 /// Open a new raw file located at `filename` (a path to the file system).
 ///
@@ -155,7 +163,7 @@ extern "C" fn or_rawfile_get_rawdata(
     options: u32,
     error: *mut or_error,
 ) -> ORRawDataRef {
-    or_unwrap!(rawfile, std::ptr::null_mut(), {
+    or_unwrap!(rawfile, not_aref(error), {
         let skip_decompression = options == or_options::DONT_DECOMPRESS as u32;
         rawfile
             .0
@@ -186,7 +194,7 @@ extern "C" fn or_rawfile_get_thumbnail(
     preferred_size: u32,
     error: *mut or_error,
 ) -> ORThumbnailRef {
-    or_unwrap!(rawfile, std::ptr::null_mut(), {
+    or_unwrap!(rawfile, not_aref(error), {
         rawfile
             .0
             .thumbnail(preferred_size)
@@ -250,11 +258,16 @@ extern "C" fn or_rawfile_get_rendered_image(
     error: *mut or_error,
 ) -> ORBitmapDataRef {
     let options = RenderingOptions::from(options);
-    or_unwrap!(rawfile, std::ptr::null_mut(), {
+    or_unwrap!(rawfile, not_aref(error), {
         rawfile
             .0
             .rendered_image(options)
-            .map(|r| Box::into_raw(Box::new(r)))
+            .map(|r| {
+                if !error.is_null() {
+                    unsafe { *error = or_error::NONE }
+                }
+                Box::into_raw(Box::new(r))
+            })
             .unwrap_or_else(|e| {
                 if !error.is_null() {
                     unsafe { *error = e.into() };
-- 
2.43.0


From e20d1ff8e657a8006ba4ed574c4186d0fcade6a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:00 +0000
Subject: [PATCH 75/91] fix: C API: or_get_extract functions give what the raw
 file does

---
 src/capi.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/capi.rs b/src/capi.rs
index ca78c34..7f3dfa4 100644
--- a/src/capi.rs
+++ b/src/capi.rs
@@ -303,6 +303,15 @@ extern "C" fn or_debug_set_level(lvl: debug_level) {
     log::set_max_level(level);
 }
 
+#[cfg(feature = "capi")]
+/// The error code for a file that couldn't be opened.
+fn open_error(err: Error) -> or_error {
+    match err {
+        Error::IoError(_) => or_error::CANT_OPEN,
+        _ => err.into(),
+    }
+}
+
 #[cfg(feature = "capi")]
 #[no_mangle]
 /// Get the thumbnail of size `preferred_size` from the raw file at
@@ -329,9 +338,9 @@ unsafe extern "C" fn or_get_extract_thumbnail(
     }
     let filename = unsafe { CStr::from_ptr(filename) };
     let thumbnail = rawfile_from_file(OsStr::from_bytes(filename.to_bytes()), None)
-        .and_then(|rawfile| rawfile.thumbnail_for_size(preferred_size))
-        .map(Box::new)
-        .map_err(or_error::from);
+        .map_err(open_error)
+        .and_then(|rawfile| rawfile.thumbnail(preferred_size).map_err(or_error::from))
+        .map(Box::new);
     if let Err(err) = thumbnail {
         err
     } else {
@@ -368,9 +377,9 @@ unsafe extern "C" fn or_get_extract_rawdata(
     let filename = unsafe { CStr::from_ptr(filename) };
     let skip_decompression = options == or_options::DONT_DECOMPRESS as u32;
     let rawdata_ = rawfile_from_file(OsStr::from_bytes(filename.to_bytes()), None)
-        .and_then(|rawfile| rawfile.load_rawdata(skip_decompression))
-        .map(Box::new)
-        .map_err(or_error::from);
+        .map_err(open_error)
+        .and_then(|rawfile| rawfile.raw_data(skip_decompression).map_err(or_error::from))
+        .map(Box::new);
     if let Err(err) = rawdata_ {
         err
     } else {
-- 
2.43.0


From 345adedf4d643c2fa51930ee5e5659804c856181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:03 +0000
Subject: [PATCH 76/91] fix: C API: null strings, buffers and arrays are
 refused

---
 src/capi.rs         | 6 ++++++
 src/capi/mime.rs    | 3 +++
 src/capi/rawdata.rs | 3 +++
 src/capi/rawfile.rs | 9 +++++++++
 4 files changed, 21 insertions(+)

diff --git a/src/capi.rs b/src/capi.rs
index 7f3dfa4..9d48c05 100644
--- a/src/capi.rs
+++ b/src/capi.rs
@@ -336,6 +336,9 @@ unsafe extern "C" fn or_get_extract_thumbnail(
     if thumb.is_null() {
         return or_error::NOT_AREF;
     }
+    if filename.is_null() {
+        return or_error::INVALID_PARAM;
+    }
     let filename = unsafe { CStr::from_ptr(filename) };
     let thumbnail = rawfile_from_file(OsStr::from_bytes(filename.to_bytes()), None)
         .map_err(open_error)
@@ -373,6 +376,9 @@ unsafe extern "C" fn or_get_extract_rawdata(
     if rawdata.is_null() {
         return or_error::NOT_AREF;
     }
+    if filename.is_null() {
+        return or_error::INVALID_PARAM;
+    }
 
     let filename = unsafe { CStr::from_ptr(filename) };
     let skip_decompression = options == or_options::DONT_DECOMPRESS as u32;
diff --git a/src/capi/mime.rs b/src/capi/mime.rs
index 975d012..18029d8 100644
--- a/src/capi/mime.rs
+++ b/src/capi/mime.rs
@@ -64,6 +64,9 @@ extern "C" fn or_get_mime_types() -> *const *const c_char {
 /// A returned value of `0` denote either an error or a an unknown file.
 /// A non null invalid `rawfile` is undefined behaviour.
 extern "C" fn or_get_type_for_mime_type(mime_type: *const c_char) -> or_rawfile_type {
+    if mime_type.is_null() {
+        return Type::Unknown as u32;
+    }
     let mime_type = unsafe { CStr::from_ptr(mime_type) };
     crate::type_for_mime_type(&mime_type.to_string_lossy()).unwrap_or(Type::Unknown) as u32
 }
diff --git a/src/capi/rawdata.rs b/src/capi/rawdata.rs
index eb733ed..7e3569e 100644
--- a/src/capi/rawdata.rs
+++ b/src/capi/rawdata.rs
@@ -165,6 +165,9 @@ extern "C" fn or_rawdata_levels(
 // As shot neutral white balance.
 extern "C" fn or_rawdata_as_shot_neutral(rawdata: ORRawDataRef, wb: *mut f64) -> or_error {
     or_unwrap!(rawdata, or_error::NOT_AREF, {
+        if wb.is_null() {
+            return or_error::NOT_AREF;
+        }
         if let Some(rwb) = &rawdata.as_shot_neutral() {
             unsafe {
                 wb.copy_from_nonoverlapping(rwb.as_ptr(), 4);
diff --git a/src/capi/rawfile.rs b/src/capi/rawfile.rs
index e47c5de..b94b074 100644
--- a/src/capi/rawfile.rs
+++ b/src/capi/rawfile.rs
@@ -69,6 +69,9 @@ fn not_aref<T>(error: *mut or_error) -> *mut T {
 /// It will return a [`ORRawFileRef`], that must be freed in with
 /// [`or_rawfile_release`].
 extern "C" fn or_rawfile_new(filename: *mut c_char, type_: Type) -> ORRawFileRef {
+    if filename.is_null() {
+        return std::ptr::null_mut();
+    }
     let filename = unsafe { CStr::from_ptr(filename) };
     let type_ = if type_ == Type::Unknown {
         None
@@ -89,6 +92,9 @@ extern "C" fn or_rawfile_new(filename: *mut c_char, type_: Type) -> ORRawFileRef
 /// It will return a [`ORRawFileRef`], that must be freed in with
 /// [`or_rawfile_release`].
 extern "C" fn or_rawfile_new_from_memory(buffer: *const u8, len: u32, type_: Type) -> ORRawFileRef {
+    if buffer.is_null() {
+        return std::ptr::null_mut();
+    }
     let bytes = unsafe { std::slice::from_raw_parts(buffer, len as usize) };
     let type_ = if type_ == Type::Unknown {
         None
@@ -239,6 +245,9 @@ extern "C" fn or_rawfile_get_metavalue(
     key: *const std::ffi::c_char,
 ) -> ORMetaValueRef {
     or_unwrap!(rawfile, std::ptr::null_mut(), {
+        if key.is_null() {
+            return std::ptr::null_mut();
+        }
         let key = unsafe { std::ffi::CStr::from_ptr(key) };
         rawfile
             .0
-- 
2.43.0


From 34fe221607791e6e07db654cf0c751d436ba6564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:41 +0000
Subject: [PATCH 77/91] fix: RAF: an unreadable CFA container isn't an old file

---
 src/fujifilm.rs       |  4 ++++
 src/fujifilm/raf.rs   | 17 +++++++++++++++++
 src/tiff/container.rs |  2 +-
 3 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/fujifilm.rs b/src/fujifilm.rs
index c7696d1..69513bc 100644
--- a/src/fujifilm.rs
+++ b/src/fujifilm.rs
@@ -444,6 +444,10 @@ impl RawFileImpl for RafFile {
                         }
                     }
                 } else {
+                    if !raw_container.is_bare_cfa()? {
+                        log::error!("RAF failed to read the CFA container");
+                        return Err(Error::FormatError);
+                    }
                     cfa_offset = raw_container.cfa_offset() as u64 + 2048;
                     cfa_len = (raw_container.cfa_len() as u64).saturating_sub(2048);
                     // XXX likely 12 is incorrect for 14.
diff --git a/src/fujifilm/raf.rs b/src/fujifilm/raf.rs
index 0a27014..69d3e39 100644
--- a/src/fujifilm/raf.rs
+++ b/src/fujifilm/raf.rs
@@ -191,6 +191,23 @@ impl RafContainer {
             .as_ref()
     }
 
+    /// Tell if the CFA isn't in a TIFF container, like in older files. This is
+    /// different from failing to read it.
+    pub fn is_bare_cfa(&self) -> Result<bool> {
+        if self
+            .meta_container()
+            .and_then(|meta| meta.value(TAG_WB_OLD))
+            .is_some()
+        {
+            return Ok(true);
+        }
+        let mut view = self.view.borrow_mut();
+        view.seek(SeekFrom::Start(self.offsets.cfa_offset as u64))?;
+        let mut buf = [0_u8; 4];
+        view.read_exact(&mut buf)?;
+        Ok(tiff::Container::is_magic_header(&buf).is_err())
+    }
+
     fn meta_container_at(&self, offset: u32, len: u32) -> Option<MetaContainer> {
         if offset == 0 || len == 0 {
             return None;
diff --git a/src/tiff/container.rs b/src/tiff/container.rs
index 3f8289f..722a92a 100644
--- a/src/tiff/container.rs
+++ b/src/tiff/container.rs
@@ -299,7 +299,7 @@ impl Container {
     }
 
     /// Will identify the magic header and return the endian
-    fn is_magic_header(buf: &[u8]) -> Result<container::Endian> {
+    pub(crate) fn is_magic_header(buf: &[u8]) -> Result<container::Endian> {
         if buf.len() < 4 {
             error!("IFD magic header buffer too small: {} bytes", buf.len());
             return Err(Error::BufferTooSmall);
-- 
2.43.0


From 32ecac99aa7d39f3f511c6946a6ad3fc6c2a55b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:59 +0000
Subject: [PATCH 78/91] fix: Fuji decompression refuses invalid data instead of
 panicking

---
 src/decompress/bit_reader.rs |   6 +-
 src/fujifilm/decompress.rs   | 220 +++++++++++++++++++++--------------
 2 files changed, 135 insertions(+), 91 deletions(-)

diff --git a/src/decompress/bit_reader.rs b/src/decompress/bit_reader.rs
index f627ad9..4be6c6a 100644
--- a/src/decompress/bit_reader.rs
+++ b/src/decompress/bit_reader.rs
@@ -57,7 +57,11 @@ pub(crate) trait BitReader {
         let mut count = 0;
         loop {
             // u16::leading_zeros require at least one bit set.
-            let bits = (self.peek(NUM_BITS as u8).unwrap() << 1) | 0x1;
+            // Past the end, it's for the next read to fail.
+            let bits = match self.peek(NUM_BITS as u8) {
+                Ok(bits) => (bits << 1) | 0x1,
+                Err(_) => break,
+            };
             let n = bits.leading_zeros();
             self.consume(n as u8);
             count += n;
diff --git a/src/fujifilm/decompress.rs b/src/fujifilm/decompress.rs
index b656830..82b7085 100644
--- a/src/fujifilm/decompress.rs
+++ b/src/fujifilm/decompress.rs
@@ -36,7 +36,7 @@ use rayon::prelude::*;
 use crate::bitmap::ImageBuffer;
 use crate::decompress::bit_reader::{BitReader, BitReaderBe32};
 use crate::mosaic::{Pattern, PatternColour};
-use crate::{Error, Result, Size};
+use crate::{Error, Result};
 
 /// Calculate the required bits to encode as many states.
 pub fn log2ceil(mut states: usize) -> usize {
@@ -212,6 +212,7 @@ impl Header {
       || self.block_size != 0x300
       || self.raw_rounded_width < self.block_size
       || self.raw_rounded_width % self.block_size != 0
+      || self.raw_rounded_width < self.raw_width
       || self.raw_rounded_width - self.raw_width >= self.block_size
       || self.blocks_in_row > 0x10
       || self.blocks_in_row == 0
@@ -234,7 +235,7 @@ impl Strip {
         params: &Params,
         q_bases: Option<&[u8]>,
         out: &mut ImageBuffer<u16>,
-    ) {
+    ) -> Result<()> {
         let mut info_block = CompressedBlock::new(header, params);
         log::debug!("Fuji strip offset: {}, len: {}", self.offset, self.size);
 
@@ -243,8 +244,10 @@ impl Strip {
             BitReaderBe32::new(cursor)
         } else {
             let extra_bytes = 16;
-            let cursor =
-                std::io::Cursor::new(&src[self.offset..self.offset + self.size + extra_bytes]);
+            let strip = src
+                .get(self.offset..self.offset + self.size + extra_bytes)
+                .ok_or_else(|| Error::Decompression("Fuji strip is past the end".into()))?;
+            let cursor = std::io::Cursor::new(strip);
             BitReaderBe32::new(cursor)
         };
 
@@ -289,9 +292,9 @@ impl Strip {
             }
 
             if header.raw_type == 16 {
-                info_block.fuji_xtrans_decode_block(&mut pump, &params);
+                info_block.fuji_xtrans_decode_block(&mut pump, &params)?;
             } else {
-                info_block.fuji_bayer_decode_block(&mut pump, &params);
+                info_block.fuji_bayer_decode_block(&mut pump, &params)?;
             }
 
             // copy data from line buffers and advance
@@ -321,6 +324,8 @@ impl Strip {
                     info_block.linebuf[i.0 - 1][params.line_width];
             }
         }
+
+        Ok(())
     }
 }
 
@@ -337,40 +342,54 @@ pub(super) fn decompress_fuji(
 ) -> Result<ImageBuffer<u16>> {
     let mut stream = std::io::Cursor::new(buf);
     let header = Header {
-        signature: stream.read_u16::<BigEndian>().unwrap(),
-        lossless: stream.read_u8().unwrap(),
-        raw_type: stream.read_u8().unwrap(),
-        raw_bits: stream.read_u8().unwrap(),
-        raw_height: stream.read_u16::<BigEndian>().unwrap(),
-        raw_rounded_width: stream.read_u16::<BigEndian>().unwrap(),
-        raw_width: stream.read_u16::<BigEndian>().unwrap(),
-        block_size: stream.read_u16::<BigEndian>().unwrap(),
-        blocks_in_row: stream.read_u8().unwrap(),
-        total_lines: stream.read_u16::<BigEndian>().unwrap(),
+        signature: stream.read_u16::<BigEndian>()?,
+        lossless: stream.read_u8()?,
+        raw_type: stream.read_u8()?,
+        raw_bits: stream.read_u8()?,
+        raw_height: stream.read_u16::<BigEndian>()?,
+        raw_rounded_width: stream.read_u16::<BigEndian>()?,
+        raw_width: stream.read_u16::<BigEndian>()?,
+        block_size: stream.read_u16::<BigEndian>()?,
+        blocks_in_row: stream.read_u8()?,
+        total_lines: stream.read_u16::<BigEndian>()?,
     };
     log::debug!("Header: {:?}", header);
     if !header.is_valid(corrected_cfa) {
         log::error!("Invalid header");
         return Err(Error::Decompression("Fuji header is not valid".into()));
     }
-    assert_eq!(
-        Size {
-            width: width as u32,
-            height: height as u32
-        },
-        Size {
-            width: header.raw_width.into(),
-            height: header.raw_height.into()
-        },
-        "RAF header specifies different dimensions!"
-    );
+    if width != header.raw_width as usize || height != header.raw_height as usize {
+        log::error!("RAF header specifies different dimensions!");
+        return Err(Error::Decompression(
+            "Fuji header has different dimensions".into(),
+        ));
+    }
+    let is_primary = |colour| {
+        matches!(
+            colour,
+            PatternColour::Red | PatternColour::Green | PatternColour::Blue
+        )
+    };
+    if !(0..corrected_cfa.height())
+        .all(|y| (0..corrected_cfa.width()).all(|x| is_primary(corrected_cfa[(y, x)])))
+    {
+        log::error!("Unsupported mosaic");
+        return Err(Error::Decompression("Fuji mosaic isn't supported".into()));
+    }
 
     let params = Params::new(&header);
     log::debug!("Params: {:?}", params);
 
     let block_sizes: Vec<usize> = (0..header.blocks_in_row)
-        .map(|_| stream.read_u32::<BigEndian>().unwrap() as usize)
-        .collect();
+        .map(|_| stream.read_u32::<BigEndian>().map(|v| v as usize))
+        .collect::<std::io::Result<_>>()?;
+    // There is at least a bit for each sample that isn't interpolated,
+    // which is half of them in the worst case.
+    let min_bits = header.total_lines as usize * 6 * params.line_width;
+    if block_sizes.iter().any(|size| size * 8 < min_bits) {
+        log::error!("Fuji strip is too short");
+        return Err(Error::Decompression("Fuji strip is too short".into()));
+    }
     let raw_offset = header.blocks_in_row as usize * size_of::<u32>();
     let raw_offset_padded = (raw_offset + 0xF) & !0xF;
     stream.seek(SeekFrom::Current((raw_offset_padded - raw_offset) as i64))?;
@@ -380,12 +399,8 @@ pub(super) fn decompress_fuji(
         let total_q_bases = block_sizes.len() * ((header.total_lines as usize + 0xF) & !0xF);
         let mut bytes = vec![0_u8; total_q_bases];
         let byteslice = bytes.as_mut_slice();
-        if stream.read_exact(byteslice).is_ok() {
-            Some(bytes)
-        } else {
-            // XXX log
-            None
-        }
+        stream.read_exact(byteslice)?;
+        Some(bytes)
     } else {
         None
     };
@@ -407,20 +422,23 @@ pub(super) fn decompress_fuji(
         })
         .collect();
 
-    //  assert!(stream.remaining_bytes() <= 16);
+    if stream.stream_position().unwrap() > buf.len() as u64 {
+        log::error!("Fuji strips are past the end");
+        return Err(Error::Decompression("Fuji strip is past the end".into()));
+    }
 
     let out = SharedPix2D::new(ImageBuffer::new(width as u32, height as u32, 16, 1));
 
     // Process each strip
-    strips.par_iter().for_each(|strip| {
+    strips.par_iter().try_for_each(|strip| {
         let line_step = (header.total_lines as usize + 0xF) & !0xF;
         // Each strip has it's own q_bases
         let q_bases_strip = q_bases.as_ref().map(|buf| &buf[strip.n * line_step..]);
         // DANGEROUS: We need multiple mut refs here. This should be
         // safe as be only write pixels to pre-allocated memory.
         let outbuf = unsafe { out.inner_mut() };
-        strip.decompress_strip(buf, &header, &params, q_bases_strip, outbuf);
-    });
+        strip.decompress_strip(buf, &header, &params, q_bases_strip, outbuf)
+    })?;
 
     Ok(out.into_inner())
 }
@@ -585,7 +603,7 @@ impl CompressedBlock {
         &mut self,
         pump: &mut BitReaderBe32<T>,
         params: &Params,
-    ) {
+    ) -> Result<()> {
         let line_width = params.line_width;
         let mut colours = Colours::new();
 
@@ -594,7 +612,8 @@ impl CompressedBlock {
                               block: &mut CompressedBlock,
                               c0: usize,
                               c1: usize,
-                              grad: usize| {
+                              grad: usize|
+         -> Result<()> {
             while colours.g().even < line_width || colours.g().odd < line_width {
                 if colours.g().even < line_width {
                     fuji_decode_sample_even(
@@ -604,7 +623,7 @@ impl CompressedBlock {
                         c0,
                         &mut colours.r().even,
                         &mut block.grad_even[grad],
-                    );
+                    )?;
                     fuji_decode_sample_even(
                         pump,
                         params,
@@ -612,7 +631,7 @@ impl CompressedBlock {
                         c1,
                         &mut colours.g().even,
                         &mut block.grad_even[grad],
-                    );
+                    )?;
                 }
                 if colours.g().even > 8 {
                     fuji_decode_sample_odd(
@@ -622,7 +641,7 @@ impl CompressedBlock {
                         c0,
                         &mut colours.r().odd,
                         &mut block.grad_odd[grad],
-                    );
+                    )?;
                     fuji_decode_sample_odd(
                         pump,
                         params,
@@ -630,11 +649,12 @@ impl CompressedBlock {
                         c1,
                         &mut colours.g().odd,
                         &mut block.grad_odd[grad],
-                    );
+                    )?;
                 }
             }
             block.fuji_extend_red(line_width);
             block.fuji_extend_green(line_width);
+            Ok(())
         };
 
         let pass_green_blue = |colours: &mut Colours,
@@ -642,7 +662,8 @@ impl CompressedBlock {
                                block: &mut CompressedBlock,
                                c0: usize,
                                c1: usize,
-                               grad: usize| {
+                               grad: usize|
+         -> Result<()> {
             while colours.g().even < line_width || colours.g().odd < line_width {
                 if colours.g().even < line_width {
                     fuji_decode_sample_even(
@@ -652,7 +673,7 @@ impl CompressedBlock {
                         c0,
                         &mut colours.g().even,
                         &mut block.grad_even[grad],
-                    );
+                    )?;
                     fuji_decode_sample_even(
                         pump,
                         params,
@@ -660,7 +681,7 @@ impl CompressedBlock {
                         c1,
                         &mut colours.b().even,
                         &mut block.grad_even[grad],
-                    );
+                    )?;
                 }
                 if colours.g().even > 8 {
                     fuji_decode_sample_odd(
@@ -670,7 +691,7 @@ impl CompressedBlock {
                         c0,
                         &mut colours.g().odd,
                         &mut block.grad_odd[grad],
-                    );
+                    )?;
                     fuji_decode_sample_odd(
                         pump,
                         params,
@@ -678,33 +699,34 @@ impl CompressedBlock {
                         c1,
                         &mut colours.b().odd,
                         &mut block.grad_odd[grad],
-                    );
+                    )?;
                 }
             }
             block.fuji_extend_green(line_width);
             block.fuji_extend_blue(line_width);
+            Ok(())
         };
 
-        pass_red_green(&mut colours, pump, self, XT_LINE_R2, XT_LINE_G2, 0);
+        pass_red_green(&mut colours, pump, self, XT_LINE_R2, XT_LINE_G2, 0)?;
         colours.g().reset();
 
-        pass_green_blue(&mut colours, pump, self, XT_LINE_G3, XT_LINE_B2, 1);
+        pass_green_blue(&mut colours, pump, self, XT_LINE_G3, XT_LINE_B2, 1)?;
         colours.r().reset();
         colours.g().reset();
 
-        pass_red_green(&mut colours, pump, self, XT_LINE_R3, XT_LINE_G4, 2);
+        pass_red_green(&mut colours, pump, self, XT_LINE_R3, XT_LINE_G4, 2)?;
         colours.g().reset();
         colours.b().reset();
 
-        pass_green_blue(&mut colours, pump, self, XT_LINE_G5, XT_LINE_B3, 0);
+        pass_green_blue(&mut colours, pump, self, XT_LINE_G5, XT_LINE_B3, 0)?;
         colours.r().reset();
         colours.g().reset();
 
-        pass_red_green(&mut colours, pump, self, XT_LINE_R4, XT_LINE_G6, 1);
+        pass_red_green(&mut colours, pump, self, XT_LINE_R4, XT_LINE_G6, 1)?;
         colours.g().reset();
         colours.b().reset();
 
-        pass_green_blue(&mut colours, pump, self, XT_LINE_G7, XT_LINE_B4, 2);
+        pass_green_blue(&mut colours, pump, self, XT_LINE_G7, XT_LINE_B4, 2)
     }
 
     #[allow(clippy::too_many_arguments)]
@@ -719,7 +741,8 @@ impl CompressedBlock {
         c1: usize,
         grad: usize,
         even_func: F,
-    ) where
+    ) -> Result<()>
+    where
         F: Fn(
             &mut CompressedBlock,
             &mut BitReaderBe32<T>,
@@ -728,14 +751,14 @@ impl CompressedBlock {
             usize,
             &mut ColourPos,
             &mut ColourPos,
-        ),
+        ) -> Result<()>,
     {
         let line_width = params.line_width;
         while colours.g().even < line_width || colours.g().odd < line_width {
             if colours.g().even < line_width {
                 let mut c0_pos = *colours.at(C0);
                 let mut c1_pos = *colours.at(C1);
-                even_func(self, pump, c0, c1, grad, &mut c0_pos, &mut c1_pos);
+                even_func(self, pump, c0, c1, grad, &mut c0_pos, &mut c1_pos)?;
                 *colours.at(C0) = c0_pos; // Write back
                 *colours.at(C1) = c1_pos;
             }
@@ -747,7 +770,7 @@ impl CompressedBlock {
                     c0,
                     &mut colours.at(C0).odd,
                     &mut self.grad_odd[grad],
-                );
+                )?;
                 fuji_decode_sample_odd(
                     pump,
                     params,
@@ -755,9 +778,11 @@ impl CompressedBlock {
                     c1,
                     &mut colours.at(C1).odd,
                     &mut self.grad_odd[grad],
-                );
+                )?;
             }
         }
+
+        Ok(())
     }
 
     /// Decode X-Trans pattern from block
@@ -765,7 +790,7 @@ impl CompressedBlock {
         &mut self,
         pump: &mut BitReaderBe32<T>,
         params: &Params,
-    ) {
+    ) -> Result<()> {
         let mut colours = Colours::new();
         let line_width = params.line_width;
 
@@ -786,9 +811,10 @@ impl CompressedBlock {
                     c1,
                     &mut c1_pos.even,
                     &mut block.grad_even[grad],
-                );
+                )?;
+                Ok(())
             },
-        );
+        )?;
         self.fuji_extend_red(line_width);
         self.fuji_extend_green(line_width);
         colours.g().reset();
@@ -809,10 +835,11 @@ impl CompressedBlock {
                     c0,
                     &mut c0_pos.even,
                     &mut block.grad_even[grad],
-                );
+                )?;
                 fuji_decode_interpolation_even(block, c1, &mut c1_pos.even);
+                Ok(())
             },
-        );
+        )?;
         self.fuji_extend_green(line_width);
         self.fuji_extend_blue(line_width);
         colours.r().reset();
@@ -835,13 +862,14 @@ impl CompressedBlock {
                         c0,
                         &mut c0_pos.even,
                         &mut block.grad_even[grad],
-                    );
+                    )?;
                 } else {
                     fuji_decode_interpolation_even(block, c0, &mut c0_pos.even);
                 }
                 fuji_decode_interpolation_even(block, c1, &mut c1_pos.even);
+                Ok(())
             },
-        );
+        )?;
         self.fuji_extend_red(line_width);
         self.fuji_extend_green(line_width);
         colours.g().reset();
@@ -863,7 +891,7 @@ impl CompressedBlock {
                     c0,
                     &mut c0_pos.even,
                     &mut block.grad_even[grad],
-                );
+                )?;
 
                 if c1_pos.even & 3 == 2 {
                     fuji_decode_interpolation_even(block, c1, &mut c1_pos.even);
@@ -875,10 +903,11 @@ impl CompressedBlock {
                         c1,
                         &mut c1_pos.even,
                         &mut block.grad_even[grad],
-                    );
+                    )?;
                 }
+                Ok(())
             },
-        );
+        )?;
         self.fuji_extend_green(line_width);
         self.fuji_extend_blue(line_width);
         colours.r().reset();
@@ -903,7 +932,7 @@ impl CompressedBlock {
                         c0,
                         &mut c0_pos.even,
                         &mut block.grad_even[grad],
-                    );
+                    )?;
                 }
 
                 fuji_decode_sample_even(
@@ -913,9 +942,10 @@ impl CompressedBlock {
                     c1,
                     &mut c1_pos.even,
                     &mut block.grad_even[grad],
-                );
+                )?;
+                Ok(())
             },
-        );
+        )?;
         self.fuji_extend_red(line_width);
         self.fuji_extend_green(line_width);
         colours.g().reset();
@@ -940,14 +970,17 @@ impl CompressedBlock {
                         c1,
                         &mut c1_pos.even,
                         &mut block.grad_even[grad],
-                    );
+                    )?;
                 } else {
                     fuji_decode_interpolation_even(block, c1, &mut c1_pos.even);
                 }
+                Ok(())
             },
-        );
+        )?;
         self.fuji_extend_green(line_width);
         self.fuji_extend_blue(line_width);
+
+        Ok(())
     }
 
     fn fuji_extend_generic(&mut self, line_width: usize, start: usize, end: usize) {
@@ -1136,11 +1169,13 @@ impl Params {
 /// Count and consume all zero bits
 /// Additionally, consume the first 1 bit.
 #[inline(always)]
-fn fuji_zerobits<T: std::io::Read>(pump: &mut BitReaderBe32<T>) -> u32 {
+fn fuji_zerobits<T: std::io::Read>(pump: &mut BitReaderBe32<T>) -> Result<u32> {
     let count = pump.consume_zerobits();
-    debug_assert_eq!(pump.peek(1).unwrap(), 1);
-    pump.consume(1); // consume the next bit which is 0b1
-    count
+    // consume the next bit which is 0b1
+    if pump.get_bits(1)? != 1 {
+        return Err(Error::Decompression("Fuji data is too short".into()));
+    }
+    Ok(count)
 }
 
 /// Calculate bit difference between two values
@@ -1173,22 +1208,23 @@ fn read_code<T: std::io::Read>(
     params: &Params,
     gradient: &mut Gradient,
     q_table: &QTable,
-) -> i32 {
-    let sample = fuji_zerobits(pump);
+) -> Result<i32> {
+    let sample = fuji_zerobits(pump)?;
     let mut code: i32 = if (sample as usize) < params.max_bits - q_table.raw_bits - 1 {
         let dec_bits = bit_diff(gradient.0, gradient.1);
         let extra_bits = if dec_bits == 0 {
             0
         } else {
-            pump.get_bits(dec_bits).unwrap() as i32
+            pump.get_bits(dec_bits)? as i32
         };
         (sample << dec_bits) as i32 + extra_bits
     } else {
-        1 + pump.get_bits(q_table.raw_bits as u8).unwrap() as i32
+        1 + pump.get_bits(q_table.raw_bits as u8)? as i32
     };
     // Validate code
     if code < 0 || code >= q_table.total_values {
-        panic!("Invalid code: {}", code);
+        log::error!("Invalid code: {code}");
+        return Err(Error::Decompression("Fuji code is invalid".into()));
     }
     // Adjust code
     if (code & 1) != 0 {
@@ -1203,7 +1239,7 @@ fn read_code<T: std::io::Read>(
         gradient.1 >>= 1;
     }
     gradient.1 += 1;
-    code
+    Ok(code)
 }
 
 /// Decode samples for even positions
@@ -1214,7 +1250,7 @@ fn fuji_decode_sample_even<T: std::io::Read>(
     line: usize,
     pos: &mut usize,
     grads: &mut GradientList,
-) {
+) -> Result<()> {
     // Line -2 |   | f |   |
     // Line -1 | c | b | d |
     // Line  0 | a | x | g |
@@ -1255,7 +1291,7 @@ fn fuji_decode_sample_even<T: std::io::Read>(
         params,
         &mut gradients[grad.unsigned_abs() as usize],
         qtable,
-    );
+    )?;
 
     // Adjustments specific to even positions
     if grad < 0 {
@@ -1278,6 +1314,8 @@ fn fuji_decode_sample_even<T: std::io::Read>(
     }
 
     *pos += 2;
+
+    Ok(())
 }
 
 /// Decode samples for odd positions
@@ -1288,7 +1326,7 @@ fn fuji_decode_sample_odd<T: std::io::Read>(
     line: usize,
     pos: &mut usize,
     grads: &mut GradientList,
-) {
+) -> Result<()> {
     // Line -2 |   | f |   |
     // Line -1 | c | b | d |
     // Line  0 | a | x | g |
@@ -1327,7 +1365,7 @@ fn fuji_decode_sample_odd<T: std::io::Read>(
         params,
         &mut gradients[grad.unsigned_abs() as usize],
         qtable,
-    );
+    )?;
 
     // Adjustments specific to odd positions
     if grad < 0 {
@@ -1350,6 +1388,8 @@ fn fuji_decode_sample_odd<T: std::io::Read>(
     }
 
     *pos += 2;
+
+    Ok(())
 }
 
 /// Interpolate x value from surrounding pixels
-- 
2.43.0


From bc2a67a171a922158bec308a36175b7052a309cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:57 +0000
Subject: [PATCH 79/91] fix: Fuji decompression takes the colours of X-Trans by
 column and row

---
 src/fujifilm/decompress.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fujifilm/decompress.rs b/src/fujifilm/decompress.rs
index 82b7085..594bfd9 100644
--- a/src/fujifilm/decompress.rs
+++ b/src/fujifilm/decompress.rs
@@ -371,7 +371,7 @@ pub(super) fn decompress_fuji(
         )
     };
     if !(0..corrected_cfa.height())
-        .all(|y| (0..corrected_cfa.width()).all(|x| is_primary(corrected_cfa[(y, x)])))
+        .all(|y| (0..corrected_cfa.width()).all(|x| is_primary(corrected_cfa[(x, y)])))
     {
         log::error!("Unsupported mosaic");
         return Err(Error::Decompression("Fuji mosaic isn't supported".into()));
@@ -567,7 +567,7 @@ impl CompressedBlock {
         let cfa_height = strip.cfa.height();
         for row_count in 0..Strip::line_height() {
             for pixel_count in 0..strip.width() {
-                let line_idx = match strip.cfa[(row_count % cfa_height, pixel_count % cfa_width)] {
+                let line_idx = match strip.cfa[(pixel_count % cfa_width, row_count % cfa_height)] {
                     PatternColour::Red => line_buf_r[row_count >> 1],
                     PatternColour::Green => line_buf_g[row_count],
                     PatternColour::Blue => line_buf_b[row_count >> 1],
-- 
2.43.0


From 811a9a3b83c3cac28f5eb8342efd27f4e71f34a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:06 +0000
Subject: [PATCH 80/91] fix: CRW: no white balance from a camera that couldn't
 be read

---
 src/canon/crw.rs | 34 ++++++++++++++++++++++++++++++----
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/src/canon/crw.rs b/src/canon/crw.rs
index c0caba0..bb70861 100644
--- a/src/canon/crw.rs
+++ b/src/canon/crw.rs
@@ -99,12 +99,37 @@ impl CrwFile {
 
     const CRW_WB_DEFAULT_OFFSET: u64 = 120;
 
-    fn crw_wb_offset(&self) -> u64 {
-        let model_id = self.type_id().map(|id| id.1).unwrap_or(0);
-        match model_id {
+    /// Where the white balance is. `None` if the camera can't be told.
+    fn crw_wb_offset(&self) -> Option<u64> {
+        let id = self.type_id().ok()?;
+        if id == canon!(UNKNOWN) {
+            // Unlike a camera that isn't known, this isn't the default.
+            let container = self.container.get()?;
+            if let Some(r) = container
+                .exif_info()
+                .and_then(|heap| heap.records().get(&ciff::Tag::CanonModelID))
+            {
+                match r.data(container)? {
+                    ciff::RecordData::DWord(id)
+                        if id
+                            .first()
+                            .map(|id| canon::CANON_MODEL_ID_MAP.contains_key(id))
+                            .unwrap_or(false) =>
+                    {
+                        return None;
+                    }
+                    _ => {}
+                }
+            }
+            let model = container.make_or_model(exif::EXIF_TAG_MODEL)?;
+            if super::MAKE_TO_ID_MAP.contains_key(model.as_str()) {
+                return None;
+            }
+        }
+        Some(match id.1 {
             canon_id::PRO1 | canon_id::G6 | canon_id::S60 | canon_id::S70 => 96,
             _ => Self::CRW_WB_DEFAULT_OFFSET,
-        }
+        })
     }
 
     fn get_white_balance(&self, heap: &Heap) -> Option<Vec<f64>> {
@@ -171,6 +196,7 @@ impl CrwFile {
                         // Pro, G6, S60, S70, S45, S50, G3, G5
                         // magic values from rawspeed if not the default offset.
                         // Pro, G6, S60, S70
+                        let offset = offset?;
                         let key = if offset != Self::CRW_WB_DEFAULT_OFFSET {
                             (0x410, 0x45f3)
                         } else {
-- 
2.43.0


From 43c07bfce51b3fa33ac5b55123fdf8ec97161a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:56 +0000
Subject: [PATCH 81/91] fix: Fuji strips are decompressed in buffers of their
 own

---
 src/fujifilm/decompress.rs | 80 +++++++++++++-------------------------
 1 file changed, 27 insertions(+), 53 deletions(-)

diff --git a/src/fujifilm/decompress.rs b/src/fujifilm/decompress.rs
index 594bfd9..887e416 100644
--- a/src/fujifilm/decompress.rs
+++ b/src/fujifilm/decompress.rs
@@ -54,35 +54,6 @@ pub fn log2ceil(mut states: usize) -> usize {
     bits
 }
 
-// XXX REMOVE THIS !!!!!
-/// An ugly hack to get multiple mutable references to Pix2D
-pub struct SharedPix2D<T> {
-    pub inner: std::cell::UnsafeCell<ImageBuffer<T>>,
-}
-
-impl<T> SharedPix2D<T> {
-    pub fn new(inner: ImageBuffer<T>) -> Self {
-        Self {
-            inner: inner.into(),
-        }
-    }
-
-    /// Get inner Pix2D<> reference
-    ///
-    /// # Safety
-    /// Only use this inside Rayon parallel iterators.
-    #[allow(clippy::mut_from_ref)]
-    pub unsafe fn inner_mut(&self) -> &mut ImageBuffer<T> {
-        unsafe { &mut *self.inner.get() }
-    }
-
-    pub fn into_inner(self) -> ImageBuffer<T> {
-        self.inner.into_inner()
-    }
-}
-
-unsafe impl<T> Sync for SharedPix2D<T> where T: Copy + Default + Send {}
-
 /// A single gradient with two points
 type Gradient = (i32, i32);
 
@@ -234,8 +205,8 @@ impl Strip {
         header: &Header,
         params: &Params,
         q_bases: Option<&[u8]>,
-        out: &mut ImageBuffer<u16>,
-    ) -> Result<()> {
+    ) -> Result<ImageBuffer<u16>> {
+        let mut out = ImageBuffer::new(self.width() as u32, header.raw_height as u32, 16, 1);
         let mut info_block = CompressedBlock::new(header, params);
         log::debug!("Fuji strip offset: {}, len: {}", self.offset, self.size);
 
@@ -306,9 +277,9 @@ impl Strip {
             }
 
             if header.raw_type == 16 {
-                info_block.copy_line_to_xtrans(self, cur_line, out);
+                info_block.copy_line_to_xtrans(self, cur_line, &mut out);
             } else {
-                info_block.copy_line_to_bayer(self, cur_line, out);
+                info_block.copy_line_to_bayer(self, cur_line, &mut out);
             }
 
             for i in ztable.iter() {
@@ -325,7 +296,7 @@ impl Strip {
             }
         }
 
-        Ok(())
+        Ok(out)
     }
 }
 
@@ -427,20 +398,27 @@ pub(super) fn decompress_fuji(
         return Err(Error::Decompression("Fuji strip is past the end".into()));
     }
 
-    let out = SharedPix2D::new(ImageBuffer::new(width as u32, height as u32, 16, 1));
-
     // Process each strip
-    strips.par_iter().try_for_each(|strip| {
-        let line_step = (header.total_lines as usize + 0xF) & !0xF;
-        // Each strip has it's own q_bases
-        let q_bases_strip = q_bases.as_ref().map(|buf| &buf[strip.n * line_step..]);
-        // DANGEROUS: We need multiple mut refs here. This should be
-        // safe as be only write pixels to pre-allocated memory.
-        let outbuf = unsafe { out.inner_mut() };
-        strip.decompress_strip(buf, &header, &params, q_bases_strip, outbuf)
-    })?;
-
-    Ok(out.into_inner())
+    let decoded = strips
+        .par_iter()
+        .map(|strip| {
+            let line_step = (header.total_lines as usize + 0xF) & !0xF;
+            // Each strip has it's own q_bases
+            let q_bases_strip = q_bases.as_ref().map(|buf| &buf[strip.n * line_step..]);
+            strip.decompress_strip(buf, &header, &params, q_bases_strip)
+        })
+        .collect::<Result<Vec<_>>>()?;
+
+    // And put them side by side.
+    let mut out = ImageBuffer::new(width as u32, height as u32, 16, 1);
+    for (strip, decoded) in strips.iter().zip(decoded) {
+        let rows = decoded.data.chunks_exact(strip.width());
+        for (dest, row) in out.data.chunks_exact_mut(width).zip(rows) {
+            dest[strip.offset_x()..][..row.len()].copy_from_slice(row);
+        }
+    }
+
+    Ok(out)
 }
 
 impl ColourPos {
@@ -547,7 +525,7 @@ impl CompressedBlock {
         }
     }
 
-    /// Copy line from decoding buffer to output
+    /// Copy line from decoding buffer to the output of the strip
     fn copy_line<F>(&self, strip: &Strip, cur_line: usize, index_f: F, out: &mut ImageBuffer<u16>)
     where
         F: Fn(usize) -> usize,
@@ -574,11 +552,7 @@ impl CompressedBlock {
                     _ => unreachable!(),
                 };
                 let p = self.linebuf[line_idx][1 + index_f(pixel_count)];
-                *out.mut_pixel_at(
-                    strip.offset_y(cur_line) + row_count,
-                    strip.offset_x() + pixel_count,
-                    0,
-                ) = p;
+                *out.mut_pixel_at(strip.offset_y(cur_line) + row_count, pixel_count, 0) = p;
             }
         }
     }
-- 
2.43.0


From c231a9c98b095dc5452025f86837335d675c4de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:50 +0000
Subject: [PATCH 82/91] fix: a preview with unreadable bits per sample isn't
 RGB of 8 bits

---
 src/tiff.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/tiff.rs b/src/tiff.rs
index 37ef978..e4247fe 100644
--- a/src/tiff.rs
+++ b/src/tiff.rs
@@ -698,9 +698,10 @@ pub(crate) fn ifd_locate_thumbnail(
             if x != 0 && y != 0 {
                 // See bug 72270 - some CR2 have 16 bpc RGB thumbnails.
                 // by default it is RGB8. Unless stated otherwise.
-                let mut is_rgb8 = true;
-                if let Some(arr) = dir
-                    .entry(exif::EXIF_TAG_BITS_PER_SAMPLE)
+                let entry = dir.entry(exif::EXIF_TAG_BITS_PER_SAMPLE);
+                // What couldn't be read is unlikely to be 8.
+                let mut is_rgb8 = entry.map_or(true, |e| e.type_ != exif::TagType::Error_ as i16);
+                if let Some(arr) = entry
                     .and_then(|e| e.value_array::<u16>(dir.endian()))
                     .or_else(|| {
                         log::debug!("Error getting bpc");
-- 
2.43.0


From 736ba90d6ce6e6905769124b9169ae9bc6468b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:58 +0000
Subject: [PATCH 83/91] fix: unpack: no row is allocated for an image without
 rows

---
 src/decompress.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/decompress.rs b/src/decompress.rs
index 0704eba..672031a 100644
--- a/src/decompress.rs
+++ b/src/decompress.rs
@@ -272,7 +272,8 @@ pub(crate) fn unpack_from_reader(
             "Not enough data to unpack: {byte_len} < {full_len}"
         )));
     }
-    let mut block = vec![0; block_size];
+    // There is no row to read when the height is 0.
+    let mut block = vec![0; block_size.min(full_len)];
     let mut out_data = Vec::with_capacity(out_size);
     while fetched < full_len {
         reader.read_exact(block.as_mut_slice())?;
-- 
2.43.0


From 07d7a57f7194625656d634925655a7f69a8cc9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:35 +0000
Subject: [PATCH 84/91] fix: compressed Fuji data without a mosaic is refused

---
 src/fujifilm/decompress.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fujifilm/decompress.rs b/src/fujifilm/decompress.rs
index 887e416..1381790 100644
--- a/src/fujifilm/decompress.rs
+++ b/src/fujifilm/decompress.rs
@@ -174,6 +174,7 @@ impl Header {
         !(self.signature != 0x4953
       //|| self.lossless != 1
       || self.raw_height > 0x3000
+      || cfa.height() == 0
       || (self.raw_height as usize) < cfa.height()
       || (self.raw_height as usize) % cfa.height() != 0
       || self.raw_width > 0x3000
-- 
2.43.0


From b41512a25ecd396ac545c00b8bbb10fc8fabe24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:39 +0000
Subject: [PATCH 85/91] fix: the values of the first Nikon maker notes are from
 the TIFF header

---
 src/tiff/dir.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tiff/dir.rs b/src/tiff/dir.rs
index 4a4e928..53d9356 100644
--- a/src/tiff/dir.rs
+++ b/src/tiff/dir.rs
@@ -138,7 +138,8 @@ impl Dir {
                             container,
                             container::Endian::Unset,
                             offset + 8,
-                            offset + 8,
+                            // unlike the later ones, from the TIFF header
+                            0,
                             &nikon::MNOTE_TAG_NAMES_2,
                         );
                     } else if data[6] == 2 {
-- 
2.43.0


From 9d9a881e88893e7c7f52ec79ff82f8e3fe78bd7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:39 +0000
Subject: [PATCH 86/91] fix: the values of the Minolta maker notes are from the
 TIFF header

---
 src/tiff/dir.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tiff/dir.rs b/src/tiff/dir.rs
index 53d9356..3c4d5bc 100644
--- a/src/tiff/dir.rs
+++ b/src/tiff/dir.rs
@@ -462,7 +462,7 @@ impl Dir {
                         container,
                         container::Endian::Unset,
                         offset,
-                        offset,
+                        0,
                         &minolta::MNOTE_TAG_NAMES,
                     );
                 }
-- 
2.43.0


From da37ca542572d346cf7dde57db4a46dd26df3771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:50:25 +0000
Subject: [PATCH 87/91] fix: a CR3 track without the tables that locate its
 data has none

---
 src/mp4/container.rs | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/src/mp4/container.rs b/src/mp4/container.rs
index c6afe5b..763dbe0 100644
--- a/src/mp4/container.rs
+++ b/src/mp4/container.rs
@@ -272,21 +272,16 @@ impl Container {
         track_info.image_width = raw.width;
         track_info.image_height = raw.height;
         track_info.is_jpeg = raw.is_jpeg;
-        // assume there is an offset and samples size is constant
-        track_info.len = if let Some(ref stsz) = track.stsz {
-            if stsz.sample_size > 0 {
-                stsz.sample_size as u64
-            } else {
-                *stsz.sample_sizes.first().ok_or(Error::FormatError)? as u64
-            }
-        } else {
-            0
-        };
-        track_info.offset = if let Some(ref stco) = track.stco {
-            *stco.offsets.first().ok_or(Error::FormatError)?
+        // assume samples size is constant
+        // Without these there is no way to tell where the data is.
+        let stsz = track.stsz.as_ref().ok_or(Error::FormatError)?;
+        track_info.len = if stsz.sample_size > 0 {
+            stsz.sample_size as u64
         } else {
-            0
+            *stsz.sample_sizes.first().ok_or(Error::FormatError)? as u64
         };
+        let stco = track.stco.as_ref().ok_or(Error::FormatError)?;
+        track_info.offset = *stco.offsets.first().ok_or(Error::FormatError)?;
 
         Ok(track_info)
     }
-- 
2.43.0


From 3f2a80769ec91dc12b524ce44788bf6b420f6f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:50:25 +0000
Subject: [PATCH 88/91] fix: the boxes of the CR3 preview may have a 64 bits
 size

---
 src/mp4/container.rs | 43 ++++++++++++++++++++++++++-----------------
 1 file changed, 26 insertions(+), 17 deletions(-)

diff --git a/src/mp4/container.rs b/src/mp4/container.rs
index 763dbe0..a7e472b 100644
--- a/src/mp4/container.rs
+++ b/src/mp4/container.rs
@@ -22,7 +22,7 @@
 //! ISO Media container (MP4)
 
 use std::cell::{RefCell, RefMut};
-use std::io::{Seek, SeekFrom};
+use std::io::{Read, Seek, SeekFrom};
 use std::rc::Rc;
 
 use byteorder::{BigEndian, ReadBytesExt};
@@ -125,27 +125,40 @@ impl Container {
         Ok(())
     }
 
+    /// Read the header of a box `name`, that may have a 64 bits size.
+    fn enter_box<R: Read + Seek + ?Sized>(view: &mut R, name: &[u8; 4]) -> Result<()> {
+        let size = view.read_u32::<BigEndian>()?;
+        let mut found = [0_u8; 4];
+        view.read_exact(&mut found)?;
+        if &found != name {
+            return Err(Error::FormatError);
+        }
+        if size == 1 {
+            view.seek(SeekFrom::Current(8))?;
+        }
+        Ok(())
+    }
+
     /// Get the preview description for thumbnailing
     pub(crate) fn preview_desc(&self) -> Result<thumbnail::ThumbDesc> {
         use thumbnail::{Data, DataOffset};
 
         let preview_offset = self.craw_table_entry(1)?;
 
-        // box (24) + content (8) + prvw box (8) + unknown (4)
-        // We need to skip the "boxes" (ISO container)
-        // And skip a short (16bits) value.
-        let offset = preview_offset
-            .0
-            .checked_add(44 + 2)
-            .filter(|offset| offset.checked_add(10).is_some())
-            .ok_or(Error::FormatError)?;
-
         let mut view = self.view.borrow_mut();
-        view.seek(SeekFrom::Start(offset))?;
+        view.seek(SeekFrom::Start(preview_offset.0))?;
+        // uuid box: the uuid (16) + content (8)
+        Self::enter_box(&mut *view, b"uuid")?;
+        view.seek(SeekFrom::Current(24))?;
+        // prvw box: unknown (4)
+        // And skip a short (16bits) value.
+        Self::enter_box(&mut *view, b"PRVW")?;
+        view.seek(SeekFrom::Current(4 + 2))?;
         let width = view.read_u16::<BigEndian>()? as u32;
         let height = view.read_u16::<BigEndian>()? as u32;
         view.seek(SeekFrom::Current(2))?;
         let len = view.read_u32::<BigEndian>()? as u64;
+        let offset = view.stream_position()?;
 
         if width == 0 || height == 0 || len == 0 {
             return Err(Error::NotFound);
@@ -155,18 +168,14 @@ impl Container {
             "Found preview: {}x{} @{} len: {}",
             width,
             height,
-            offset + 10,
+            offset,
             len
         );
 
         Ok(thumbnail::ThumbDesc {
             width,
             height,
-            // Added 10 to the offset because we read 10 bytes
-            data: Data::Offset(DataOffset {
-                offset: offset + 10,
-                len,
-            }),
+            data: Data::Offset(DataOffset { offset, len }),
             data_type: DataType::Jpeg,
         })
     }
-- 
2.43.0


From 7352e68f0fe04d32ac903b9dde40845fb0301624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:09:21 +0000
Subject: [PATCH 89/91] fix: ordiag: write a valid PGM for any bit depth

With less than 256 values the samples are on one byte, and the greatest
value is at most 65535.
---
 src/bin/ordiag.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/bin/ordiag.rs b/src/bin/ordiag.rs
index 146fca3..bbc1e7e 100644
--- a/src/bin/ordiag.rs
+++ b/src/bin/ordiag.rs
@@ -132,15 +132,21 @@ fn save_raw(p: &str, rawdata: &RawImage) -> Result<usize> {
         let mut amount = 0;
         let raw = std::path::PathBuf::from(format!("{stem}_RAW.pgm"));
         if let Some(d) = rawdata.data16() {
-            let white = (1_u32 << rawdata.bpc()) - 1;
+            let white = (1_u32 << rawdata.bpc().clamp(1, 16)) - 1;
             let mut f = std::fs::File::create(&raw)?;
             amount += f.write(b"P5\n")?;
             amount += f.write(format!("{} {}\n", rawdata.width(), rawdata.height()).as_bytes())?;
             amount += f.write(format!("{white}\n").as_bytes())?;
             for b in d {
                 let value = std::cmp::min(*b, white as u16);
-                f.write_u16::<BigEndian>(value)?;
-                amount += 2;
+                // Samples are on a single byte if it is enough.
+                if white < 256 {
+                    f.write_u8(value as u8)?;
+                    amount += 1;
+                } else {
+                    f.write_u16::<BigEndian>(value)?;
+                    amount += 2;
+                }
             }
             eprintln!("Written Raw {raw:?}: {amount} bytes");
         }
-- 
2.43.0


From a089895ec6e9ab14cfa147ca2e4d00dc943beeda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:09:21 +0000
Subject: [PATCH 90/91] fix: ordiag: round the matrices printed as integers

0.2856 was printed as 2855.
---
 src/bin/ordiag.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/ordiag.rs b/src/bin/ordiag.rs
index bbc1e7e..cc81a88 100644
--- a/src/bin/ordiag.rs
+++ b/src/bin/ordiag.rs
@@ -160,7 +160,7 @@ fn save_raw(p: &str, rawdata: &RawImage) -> Result<usize> {
 fn print_as_int(matrix: &[f64]) -> String {
     let m = matrix
         .iter()
-        .map(|v| (*v * 10000.0) as i64)
+        .map(|v| (*v * 10000.0).round() as i64)
         .collect::<Vec<i64>>();
     format!("{m:?}")
 }
-- 
2.43.0


From c2ccbc92accaa48129918792471c8b6fe26d269f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:09:21 +0000
Subject: [PATCH 91/91] fix: rawdata: don't panic if there is no undecoded data

The raw data may be plain samples or tiles.
---
 src/bin/rawdata.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/bin/rawdata.rs b/src/bin/rawdata.rs
index 46a1baf..01f2780 100644
--- a/src/bin/rawdata.rs
+++ b/src/bin/rawdata.rs
@@ -12,8 +12,12 @@ fn main() {
     let _ = libopenraw::rawfile_from_file(&args[1], None).and_then(|rawfile| {
         // always skip decompression
         let rawdata = rawfile.raw_data(true)?;
-        let mut f = std::fs::File::create("rawdata.raw")?;
-        let _ = f.write(rawdata.data8().unwrap())?;
+        if let Some(data) = rawdata.data8() {
+            let mut f = std::fs::File::create("rawdata.raw")?;
+            let _ = f.write(data)?;
+        } else {
+            eprintln!("No undecoded data");
+        }
 
         Ok(())
     });
-- 
2.43.0

