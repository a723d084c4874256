From 6246741faefce6d989a8e7f68a65906ea908a287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:32 +0000
Subject: [PATCH 01/33] fix: fast AC table truncated coefficients outside
 -32..=31

---
 src/huffman.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/huffman.rs b/src/huffman.rs
index 39c2116..dfe7ab0 100644
--- a/src/huffman.rs
+++ b/src/huffman.rs
@@ -246,7 +246,8 @@ impl HuffmanTable
                         };
 
                         // if result is small enough fit into fast ac table
-                        if (-128..=127).contains(&k)
+                        // (the value shares an i16 with the 10 bits holding run and length)
+                        if (-32..=31).contains(&k)
                         {
                             fast_ac[i] = (k << 10) + (run << 4) + (len + mag_bits);
                         }
-- 
2.43.0


From 957d4ef780282680af64eacb29d834b2890ed426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:32 +0000
Subject: [PATCH 02/33] fix: refill enough bits for a DC code and its magnitude
 bits

---
 src/bitstream.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/bitstream.rs b/src/bitstream.rs
index f6a76df..f1dbbc0 100644
--- a/src/bitstream.rs
+++ b/src/bitstream.rs
@@ -275,10 +275,9 @@ impl BitStream
     {
         let (mut symbol, r);
 
-        if self.bits_left < 16
-        {
-            self.refill(reader)?;
-        };
+        // a code (max 16 bits) followed by its magnitude (max 15 bits) needs more than 16 bits,
+        // refill is a no-op when there are enough bits
+        self.refill(reader)?;
         // look a head HUFF_LOOKAHEAD bits into the bitstream
         symbol = self.peek_bits::<HUFF_LOOKAHEAD>();
         symbol = dc_table.lookup[symbol as usize];
-- 
2.43.0


From f2811b9b866a17885c92ee2c3c8580996e3a5d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:32 +0000
Subject: [PATCH 03/33] fix: clamp DC only blocks in the scalar IDCT

---
 src/idct/scalar.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/idct/scalar.rs b/src/idct/scalar.rs
index e58abe1..d2768a5 100644
--- a/src/idct/scalar.rs
+++ b/src/idct/scalar.rs
@@ -45,7 +45,9 @@ pub fn dequantize_and_idct_int(
             if &vector[1..] == &[0_i16; 63]
             {
                 // okay then if you work, yaay, let's write you really quick
-                let coeff = [((vector[0].wrapping_mul(qt_table.0[0] as i16)) >> 3) + 128; 8];
+                let coeff = [clamp(
+                    i32::from(vector[0].wrapping_mul(qt_table.0[0] as i16) >> 3) + 128,
+                ); 8];
 
                 macro_rules! store {
                     ($index:tt) => {
-- 
2.43.0


From 58c2b0bd82d89144ae0989c4a40e4adcf379cef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:32 +0000
Subject: [PATCH 04/33] fix: AVX2 IDCT applied its passes in the opposite order
 of the scalar one

---
 src/idct/avx2.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/idct/avx2.rs b/src/idct/avx2.rs
index cf3f671..2c646b0 100644
--- a/src/idct/avx2.rs
+++ b/src/idct/avx2.rs
@@ -330,12 +330,7 @@ unsafe fn dequantize_and_idct_int_avx2(
                 };
             }
 
-            transpose(
-                &mut row0, &mut row1, &mut row2, &mut row3, &mut row4, &mut row5, &mut row6,
-                &mut row7,
-            );
-
-            // Process rows
+            // process columns first, like the scalar code, intermediate rounding makes the order matter
             dct_pass!(512, 10);
 
             transpose(
@@ -343,10 +338,14 @@ unsafe fn dequantize_and_idct_int_avx2(
                 &mut row7,
             );
 
-            // process columns
+            // process rows
             dct_pass!(SCALE_BITS, 17);
 
             // transpose to original
+            transpose(
+                &mut row0, &mut row1, &mut row2, &mut row3, &mut row4, &mut row5, &mut row6,
+                &mut row7,
+            );
 
             // Pack i32 to i16's,
             // clamp them to be between 0-255
-- 
2.43.0


From 10a5a2af9acb1f8e0959f317c31ce1ce54cb6ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:26 +0000
Subject: [PATCH 05/33] fix: decode the last MCU row of images with an odd
 number of MCU rows, size the output per band

---
 src/mcu.rs | 38 +++++++++++++++++++++-----------------
 1 file changed, 21 insertions(+), 17 deletions(-)

diff --git a/src/mcu.rs b/src/mcu.rs
index 296ad96..85c6b88 100644
--- a/src/mcu.rs
+++ b/src/mcu.rs
@@ -151,11 +151,12 @@ impl Decoder
                 // Values for horizontal samples end halfway the image and do not complete an MCU width.
                 // To make it complete we multiply width by 2 and divide mcu_height by 2
                 mcu_width = self.mcu_x * 2;
-                mcu_height = self.mcu_y / 2;
+                // the last band is half empty when the number of MCU rows is odd
+                mcu_height = (self.mcu_y + 1) / 2;
             } else if self.sub_sample_ratio == SubSampRatios::HV
             {
                 mcu_width = self.mcu_x;
-                mcu_height = self.mcu_y / 2;
+                mcu_height = (self.mcu_y + 1) / 2;
                 bias = 2;
             } else {
                 mcu_width = self.mcu_x;
@@ -164,9 +165,11 @@ impl Decoder
         } else {
             // For non-interleaved images( (1*1) subsampling)
             // number of MCU's are the widths (+7 to account for paddings) divided bu 8.
-            mcu_width = ((self.info.width + 7) / 8) as usize;
-            mcu_height = ((self.info.height + 7) / 8) as usize;
+            mcu_width = (usize::from(self.info.width) + 7) / 8;
+            mcu_height = (usize::from(self.info.height) + 7) / 8;
         }
+        // Number of MCUs in the image, bands may have room for more.
+        let mut mcus_left = self.mcu_x * self.mcu_y;
 
         if self.input_colorspace == ColorSpace::GRAYSCALE && self.interleaved {
             /*
@@ -183,7 +186,7 @@ impl Decoder
 
             warn!("Grayscale image with down-sampled component, resetting component details");
 
-            mcu_width = ((self.info.width + 7) / 8) as usize;
+            mcu_width = (usize::from(self.info.width) + 7) / 8;
             self.h_max = 1;
             self.options = self.options.set_out_colorspace(ColorSpace::GRAYSCALE);
             self.v_max = 1;
@@ -191,20 +194,14 @@ impl Decoder
             self.components[0].vertical_sample = 1;
             self.components[0].width_stride = mcu_width * 8;
             self.components[0].horizontal_sample = 1;
-            mcu_height = ((self.info.height + 7) / 8) as usize;
+            mcu_height = (usize::from(self.info.height) + 7) / 8;
+            mcus_left = mcu_width * mcu_height;
             bias = 1;
         }
-        // Size of our output image(width*height)
-        let capacity = usize::from(self.info.width + 8) * usize::from(self.info.height + 8);
         let component_capacity = mcu_width * DCT_BLOCK;
         // Create an Arc of components to prevent cloning on every MCU width
         let global_component = Arc::new(self.components.clone());
         let is_hv = self.sub_sample_ratio == SubSampRatios::HV;
-        // There are some images where we need to overallocate  especially for small buffers,
-        // because the chunking calculation will do it wrongly,
-        // this only applies to  small down-sampled images
-        // See https://github.com/etemesi254/zune-jpeg/issues/11
-        let extra_space = usize::from(self.interleaved) * 128 * usize::from(self.height()) * self.options.get_out_colorspace().num_components();
         // things needed for post processing that we can remove out of the loop
         let input = self.input_colorspace;
         let output = self.options.get_out_colorspace();
@@ -218,12 +215,13 @@ impl Decoder
         let hv_width_stride = width_stride >> 1;
 
         let mut stream = BitStream::new();
-        // Storage for decoded pixels
-        let mut global_channel = vec![0; (capacity * self.options.get_out_colorspace().num_components()) + extra_space];
+        // Output bytes written by one band
+        let chunk_size = width * output.num_components() * 8 * h_max * v_max;
+        // Storage for decoded pixels, the last band may extend below the image
+        let mut global_channel = vec![0; chunk_size * mcu_height];
 
         // Split output into different blocks each containing enough space for an MCU width
-        let mut chunks =
-            global_channel.chunks_exact_mut(width * output.num_components() * 8 * h_max * v_max);
+        let mut chunks = global_channel.chunks_exact_mut(chunk_size);
         let mut tmp = [0; DCT_BLOCK];
 
         // Argument for scoped threadpools, see file docs.
@@ -254,6 +252,12 @@ impl Decoder
                 {
                     for j in 0..mcu_width
                     {
+                        if mcus_left == 0
+                        {
+                            // no more MCUs, the rest of the band lies below the image
+                            break;
+                        }
+                        mcus_left -= 1;
                         // iterate over components
 
                         for pos in 0..self.input_colorspace.num_components()
-- 
2.43.0


From a1f44d775a1c9a52a3159b6d2e9a720d8db27435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:23 +0000
Subject: [PATCH 06/33] fix: count restart intervals in MCUs and decode all
 components of an MCU when EOI is seen by the look ahead

---
 src/bitstream.rs |  2 +-
 src/mcu.rs       | 68 +++++++++++++++++++++++++++++++-----------------
 src/mcu_prog.rs  | 27 ++++++++++---------
 3 files changed, 59 insertions(+), 38 deletions(-)

diff --git a/src/bitstream.rs b/src/bitstream.rs
index f1dbbc0..f5f791b 100644
--- a/src/bitstream.rs
+++ b/src/bitstream.rs
@@ -156,7 +156,7 @@ impl BitStream
     ///
     /// This function will only refill if `self.count` is less than 32
     #[inline(never)] // to many call sites?
-    fn refill(&mut self, reader: &mut Cursor<Vec<u8>>) -> Result<bool, DecodeErrors>
+    pub(crate) fn refill(&mut self, reader: &mut Cursor<Vec<u8>>) -> Result<bool, DecodeErrors>
     {
         /// Macro version of a single byte refill.
         /// Arguments
diff --git a/src/mcu.rs b/src/mcu.rs
index 85c6b88..0a5d2b2 100644
--- a/src/mcu.rs
+++ b/src/mcu.rs
@@ -131,6 +131,7 @@ impl Decoder
         self.check_component_dimensions()?;
         // check dc and AC tables
         self.check_tables()?;
+        self.reset_restart_interval();
 
         let  mut scoped_pools = scoped_threadpool::Pool::new(
             self.options.get_threads());
@@ -258,6 +259,11 @@ impl Decoder
                             break;
                         }
                         mcus_left -= 1;
+                        // count down restart intervals in MCUs
+                        if self.todo == 0
+                        {
+                            self.handle_rst(reader, &mut stream)?;
+                        }
                         // iterate over components
 
                         for pos in 0..self.input_colorspace.num_components()
@@ -324,31 +330,27 @@ impl Decoder
                                     }
                                 }
                             }
-                            self.todo = self.todo.wrapping_sub(1);
-                            // after every interleaved MCU that's a mcu, count down restart markers.
-                            if self.todo == 0
-                            {
-                                self.handle_rst(&mut stream)?;
-                            }
-
-                            // In some corrupt images, it may occur that header markers occur in the stream.
-                            // The spec EXPLICITLY FORBIDS this, specifically, in
-                            // routine F.2.2.5  it says
-                            // `The only valid marker which may occur within the Huffman coded data is the RSTm marker.`
-                            //
-                            // But libjpeg-turbo allows it because of some weird reason. so I'll also
-                            // allow it because of some weird reason.
-                            if let Some(m) = stream.marker
+                        }
+                        self.todo -= 1;
+
+                        // In some corrupt images, it may occur that header markers occur in the stream.
+                        // The spec EXPLICITLY FORBIDS this, specifically, in
+                        // routine F.2.2.5  it says
+                        // `The only valid marker which may occur within the Huffman coded data is the RSTm marker.`
+                        //
+                        // But libjpeg-turbo allows it because of some weird reason. so I'll also
+                        // allow it because of some weird reason.
+                        match stream.marker
+                        {
+                            // EOI may be seen by the look ahead before its last bits are used,
+                            // RST is handled when the interval ends
+                            None | Some(Marker::EOI | Marker::RST(_)) => {}
+                            Some(m) =>
                             {
-                                if m == Marker::EOI
-                                {
-                                    break;
-                                }
-
-                                if let Marker::RST(_) = m { continue }
-
                                 error!("Marker `{:?}` Found within Huffman Stream, possibly corrupt jpeg",m);
                                 self.parse_marker_inner(m, reader)?;
+                                // parse it once
+                                stream.marker = None;
                             }
                         }
                     }
@@ -383,13 +385,31 @@ impl Decoder
         );
         return Ok(global_channel);
     }
+    /// Set the number of MCUs to decode before the next restart marker
+    pub(crate) fn reset_restart_interval(&mut self)
+    {
+        // an interval of zero means no restart markers
+        self.todo = match self.restart_interval
+        {
+            0 => usize::MAX,
+            n => n,
+        };
+    }
     // handle RST markers.
     // No-op if not using restarts
     // this routine is shared with mcu_prog
     #[cold]
-    pub(crate) fn handle_rst(&mut self, stream: &mut BitStream) -> Result<(), DecodeErrors>
+    pub(crate) fn handle_rst(
+        &mut self, reader: &mut Cursor<Vec<u8>>, stream: &mut BitStream,
+    ) -> Result<(), DecodeErrors>
     {
-        self.todo = self.restart_interval;
+        self.reset_restart_interval();
+
+        if stream.marker.is_none()
+        {
+            // the look ahead has not reached the marker yet
+            stream.refill(reader)?;
+        }
 
         if let Some(marker) = stream.marker
         {
diff --git a/src/mcu_prog.rs b/src/mcu_prog.rs
index 4467d7d..347c7aa 100644
--- a/src/mcu_prog.rs
+++ b/src/mcu_prog.rs
@@ -252,6 +252,7 @@ impl Decoder
     {
         self.check_component_dimensions()?;
         stream.reset();
+        self.reset_restart_interval();
         self.components.iter_mut().for_each(|x| x.dc_pred = 0);
 
         if usize::from(self.num_scans) > self.input_colorspace.num_components() {
@@ -301,6 +302,11 @@ impl Decoder
                         break;
                     }
 
+                    if self.todo == 0
+                    {
+                        self.handle_rst(reader, stream)?;
+                    }
+
                     let data: &mut [i16; 64] = buffer.get_mut(k)
                         .unwrap().get_mut(start..start + 64)
                         .unwrap().try_into().unwrap();
@@ -347,6 +353,8 @@ impl Decoder
 
                                 i += (j + stream.eob_run as usize - 1) / mcu_width;
                                 j = (j + stream.eob_run as usize - 1) % mcu_width;
+                                // skipped blocks count for restart intervals too
+                                self.todo = self.todo.saturating_sub(stream.eob_run as usize - 1);
                                 stream.eob_run = 0;
                             } else {
                                 stream.decode_mcu_ac_first(reader, ac_table, data)?;
@@ -357,12 +365,7 @@ impl Decoder
                         }
                     }
                     j += 1;
-                    self.todo -= 1;
-
-                    if self.todo == 0
-                    {
-                        self.handle_rst(stream)?;
-                    }
+                    self.todo = self.todo.saturating_sub(1);
                 }
                 j = 0;
                 i += 1;
@@ -382,6 +385,10 @@ impl Decoder
             {
                 for j in 0..self.mcu_x
                 {
+                    // count down restart intervals in MCUs
+                    if self.todo == 0 {
+                        self.handle_rst(reader, stream)?;
+                    }
                     // process scan n elements in order
                     for k in 0..self.num_scans
                     {
@@ -415,14 +422,8 @@ impl Decoder
                                 }
                             }
                         }
-                        // We want wrapping subtraction here because it means
-                        // we get a higher number in the case this underflows
-                        self.todo = self.todo.wrapping_sub(1);
-                        // after every scan that's a mcu, count down restart markers.
-                        if self.todo == 0 {
-                            self.handle_rst(stream)?;
-                        }
                     }
+                    self.todo -= 1;
                 }
             }
         }
-- 
2.43.0


From 0984f60a0fc76d075539f94d98788cd9f3f5438e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:23 +0000
Subject: [PATCH 07/33] fix: bits past the end of the entropy coded data are
 zeroes

---
 src/bitstream.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bitstream.rs b/src/bitstream.rs
index f5f791b..6df61d3 100644
--- a/src/bitstream.rs
+++ b/src/bitstream.rs
@@ -396,6 +396,8 @@ impl BitStream
 
         self.aligned_buffer = self.aligned_buffer.rotate_left(u32::from(n_bits));
         let bits = (self.aligned_buffer & mask) as i32;
+        // bits past the end of the stream should be zeroes, don't leave the ones we just read there
+        self.aligned_buffer &= !mask;
         self.bits_left = self.bits_left.saturating_sub(n_bits);
         bits
     }
-- 
2.43.0


From e32884081de72c0e3536eccfbc49bcf073941a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:23 +0000
Subject: [PATCH 08/33] fix: find the marker after the first progressive scan
 when the look ahead has not

---
 src/mcu_prog.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mcu_prog.rs b/src/mcu_prog.rs
index 347c7aa..f565f70 100644
--- a/src/mcu_prog.rs
+++ b/src/mcu_prog.rs
@@ -85,7 +85,7 @@ impl Decoder
         self.parse_entropy_coded_data(reader, &mut stream, &mut block)?;
 
         // extract marker
-        let mut marker = stream.marker.take().ok_or(DecodeErrors::FormatStatic("Marker missing where expected"))?;
+        let mut marker = get_marker(reader, &mut stream).ok_or(DecodeErrors::FormatStatic("Marker missing where expected"))?;
         // if marker is EOI, we are done, otherwise continue scanning.
         'eoi: while marker != Marker::EOI
         {
-- 
2.43.0


From d8cd931933f07aba9579080029afdfe470f939c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:23 +0000
Subject: [PATCH 09/33] fix: decode the last MCU row of progressive images with
 an odd number of MCU rows

---
 src/mcu_prog.rs | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/mcu_prog.rs b/src/mcu_prog.rs
index f565f70..6516c1d 100644
--- a/src/mcu_prog.rs
+++ b/src/mcu_prog.rs
@@ -51,7 +51,7 @@ impl Decoder
     ) -> Result<Vec<u8>, DecodeErrors>
     {
         self.check_component_dimensions()?;
-        let mcu_height;
+        let mut mcu_height;
 
         // memory location for decoded pixels for components
         let mut block = [vec![], vec![], vec![]];
@@ -63,6 +63,12 @@ impl Decoder
         {
             mcu_width = self.mcu_x;
             mcu_height = self.mcu_y;
+
+            if self.h_max > 1
+            {
+                // two MCU rows are post processed together, make room for the last pair
+                mcu_height += mcu_height & 1;
+            }
         } else {
             mcu_width = (self.info.width as usize + 7) / 8;
             mcu_height = (self.info.height as usize + 7) / 8;
@@ -170,11 +176,6 @@ impl Decoder
         let y = &block[0];
         let cb = &block[1];
         let cr = &block[2];
-        let extra_space = usize::from(self.interleaved) * 128 * usize::from(self.height()) * self.options.get_out_colorspace().num_components();
-        let capacity = usize::from(self.info.width + 8) * usize::from(self.info.height + 8);
-
-        let mut out_vector = vec![0_u8; capacity * self.options.get_out_colorspace().num_components() + extra_space];
-
         // Things we need for multithreading.
         let h_max = self.h_max;
         let v_max = self.v_max;
@@ -186,10 +187,12 @@ impl Decoder
         let width = usize::from(self.width());
         // Divide the output into small blocks and send to threads/
         let chunks_size = width * self.options.get_out_colorspace().num_components() * 8 * h_max * v_max;
-        let out_chunks = out_vector.chunks_exact_mut(chunks_size);
         // Chunk sizes. Each determine how many pixels go per thread.
         let y_chunk_size =
             mcu_width * self.components[0].vertical_sample * self.components[0].horizontal_sample * bias;
+        // the last chunk may extend below the image
+        let mut out_vector = vec![0_u8; chunks_size * (y.len() / y_chunk_size)];
+        let out_chunks = out_vector.chunks_exact_mut(chunks_size);
         // Divide into chunks
         let y_chunk = y.chunks_exact(y_chunk_size);
 
@@ -281,8 +284,8 @@ impl Decoder
             // by 8
             if self.components[k].component_id == ComponentID::Y || !self.interleaved
             {
-                mcu_width = ((self.info.width + 7) / 8) as usize;
-                mcu_height = ((self.info.height + 7) / 8) as usize;
+                mcu_width = (usize::from(self.info.width) + 7) / 8;
+                mcu_height = (usize::from(self.info.height) + 7) / 8;
             } else {
                 // For other channels, in an interleaved mcu, number of MCU's
                 // are determined by some weird maths done in headers.rs->parse_sos()
-- 
2.43.0


From 4deb7b3c5a6446dd151351a009dee2858a8b852a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:24 +0000
Subject: [PATCH 10/33] fix: progressive grayscale images with sampling factors
 other than 1

---
 src/mcu_prog.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mcu_prog.rs b/src/mcu_prog.rs
index 6516c1d..3777f03 100644
--- a/src/mcu_prog.rs
+++ b/src/mcu_prog.rs
@@ -168,8 +168,9 @@ impl Decoder
             self.v_max = 1;
             self.sub_sample_ratio = SubSampRatios::None;
             self.components[0].vertical_sample = 1;
-            self.components[0].width_stride = mcu_width * 8;
-            self.components[0].horizontal_sample = mcu_width;
+            self.components[0].horizontal_sample = 1;
+            // coefficients in one row of blocks
+            mcu_width = self.components[0].width_stride * 8;
             bias = 1;
         }
         // remove items from  top block
-- 
2.43.0


From ef6a828447f6b255e50743f7d1cba18762983d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:57 +0000
Subject: [PATCH 11/33] fix: grayscale output of images whose width is not a
 multiple of 8

---
 src/color_convert/scalar.rs | 11 +++++------
 src/worker.rs               |  2 +-
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/color_convert/scalar.rs b/src/color_convert/scalar.rs
index a5de15e..4573105 100644
--- a/src/color_convert/scalar.rs
+++ b/src/color_convert/scalar.rs
@@ -88,15 +88,14 @@ pub fn ycbcr_to_rgb_16_scalar(
     *pos += 48;
 }
 
-pub fn ycbcr_to_grayscale(y: &[i16], width: usize, output: &mut [u8])
+pub fn ycbcr_to_grayscale(
+    y: &[i16], width: usize, h_samp: usize, v_samp: usize, output: &mut [u8],
+)
 {
     // Convert i16's to u8's
     let temp_output = y.iter().map(|x| *x as u8).collect::<Vec<u8>>();
-    // chunk according to width.
-
-    let width_mcu = y.len() / width;
-
-    let width_chunk = y.len() / width_mcu;
+    // chunk according to width, taking into account fill bytes
+    let width_chunk = y.len() / (8 * h_samp * v_samp);
 
     let mut start = 0;
 
diff --git a/src/worker.rs b/src/worker.rs
index 4232a2c..5cffa0a 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -114,7 +114,7 @@ pub(crate) fn post_process_inner(
     {
         (ColorSpace::YCbCr | ColorSpace::GRAYSCALE, ColorSpace::GRAYSCALE) =>
         {
-            ycbcr_to_grayscale(&unprocessed[0], width, output);
+            ycbcr_to_grayscale(&unprocessed[0], width, h_samp, v_samp, output);
         }
 
         (ColorSpace::YCbCr, ColorSpace::YCbCr) =>
-- 
2.43.0


From 62b2d9fd4f84a3bef84a66b8a37c38d0ad1e2a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:58 +0000
Subject: [PATCH 12/33] fix: color convert the end of each row in place

---
 src/color_convert/sse.rs |  2 +-
 src/worker.rs            | 90 +++++++++++-----------------------------
 2 files changed, 26 insertions(+), 66 deletions(-)

diff --git a/src/color_convert/sse.rs b/src/color_convert/sse.rs
index 0c28369..b06c9d4 100644
--- a/src/color_convert/sse.rs
+++ b/src/color_convert/sse.rs
@@ -271,7 +271,7 @@ pub fn ycbcr_to_rgb_sse_16(
 )
 {
     // check if out has enough space
-    out.get_mut(*offset..*offset + 64)
+    out.get_mut(*offset..*offset + 48)
         .expect("Slice to small cannot write");
     unsafe {
         ycbcr_to_rgb_16(y, cb, cr, out, offset);
diff --git a/src/worker.rs b/src/worker.rs
index 5cffa0a..134aad9 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -152,15 +152,9 @@ fn color_convert_ycbcr(
 
     let mut start = 0;
     let mut end = stride;
-    // over allocate to account for fill bytes
-    let mut temp = vec![];
+    // Temporary buffer for the pixels at the end of a row, which may be less than 16
+    let mut temp = [0; 16 * 4];
 
-    if width < 16
-    {
-        // Allocate temporary buffer for small widths less than
-        // 16.
-        temp = vec![0; 16 * output_colorspace.num_components()];
-    }
     // We need to chunk per width to ensure we can discard extra values at the end of the width.
     // Since the encoder may pad bits to ensure the width is a multiple of 8.
     for ((y_width, cb_width), cr_width) in mcu_block[0]
@@ -168,41 +162,15 @@ fn color_convert_ycbcr(
         .zip(mcu_block[1].chunks_exact(width_chunk))
         .zip(mcu_block[2].chunks_exact(width_chunk))
     {
-        let elements = (y_width.len() / 16).saturating_sub(1);
-
         let mut position = 0;
         let out = &mut output[start..end];
 
-        if width < 16
-        {
-            // allocate temporary buffers for the values received from idct
-            let mut y_out = [0; 16];
-            let mut cb_out = [0; 16];
-            let mut cr_out = [0; 16];
-            // copy those small widths to that buffer
-            y_out[0..y_width.len()].copy_from_slice(y_width);
-            cb_out[0..cb_width.len()].copy_from_slice(cb_width);
-            cr_out[0..cr_width.len()].copy_from_slice(cr_width);
-            // we handle widths less than 16 a bit differently, allocating a temporary
-            // buffer and writing to that and then flushing to the out buffer
-            // because of the optimizations applied below,
-            (color_convert_16)(&y_out, &cb_out, &cr_out, &mut temp, &mut 0);
-            // copy to stride
-            out[position..position + width * output_colorspace.num_components()]
-                .copy_from_slice(&temp[0..width * output_colorspace.num_components()]);
-            // increment position
-            start += stride;
-            end += stride;
-            // next
-            continue;
-        }
-
         // Chunk in outputs of 16 to pass to color_convert as an array of 16 i16's.
         for ((y, cb), cr) in y_width
             .chunks_exact(16)
             .zip(cb_width.chunks_exact(16))
             .zip(cr_width.chunks_exact(16))
-            .take(elements)
+            .take(width / 16)
         {
             (color_convert_16)(
                 y.try_into().unwrap(),
@@ -214,36 +182,28 @@ fn color_convert_ycbcr(
         }
 
         // we have more pixels in the end that can't be handled by the main loop.
-        // move pointer back a little bit to get last 16 bytes,
-        // color convert, and overwrite
-        // This means some values will be color converted twice.
-
-        let diff = 64_usize.saturating_sub(stride.saturating_sub(position));
-
-        position = position.saturating_sub(diff);
-
-        (color_convert_16)(
-            y_width
-                .rchunks_exact(16)
-                .next()
-                .unwrap()
-                .try_into()
-                .unwrap(),
-            cb_width
-                .rchunks_exact(16)
-                .next()
-                .unwrap()
-                .try_into()
-                .unwrap(),
-            cr_width
-                .rchunks_exact(16)
-                .next()
-                .unwrap()
-                .try_into()
-                .unwrap(),
-            out,
-            &mut position,
-        );
+        // copy them to arrays of 16, convert to the temporary buffer and write
+        // what belongs to the image
+        let tail = width & !15;
+
+        if tail != width
+        {
+            let last = min(tail + 16, width_chunk);
+            let mut y_out = [0; 16];
+            let mut cb_out = [0; 16];
+            let mut cr_out = [0; 16];
+
+            y_out[0..last - tail].copy_from_slice(&y_width[tail..last]);
+            cb_out[0..last - tail].copy_from_slice(&cb_width[tail..last]);
+            cr_out[0..last - tail].copy_from_slice(&cr_width[tail..last]);
+
+            (color_convert_16)(&y_out, &cb_out, &cr_out, &mut temp, &mut 0);
+
+            let remaining = &mut out[tail * output_colorspace.num_components()..];
+            let len = remaining.len();
+
+            remaining.copy_from_slice(&temp[0..len]);
+        }
 
         start += stride;
         end += stride;
-- 
2.43.0


From 93ad4df97ca654938ecc71c5118261d1e946dbad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:59 +0000
Subject: [PATCH 13/33] fix: a decoder used for more than one image starts each
 from its options, and converts to the colorspace they name

---
 src/decoder.rs | 19 ++++++++++++++++++-
 src/headers.rs |  1 +
 src/mcu.rs     |  1 -
 3 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index 39b8d85..0dd5de4 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -118,14 +118,21 @@ pub struct Decoder
     pub(crate) todo:             usize,
     // decoder options
     pub(crate) options:          ZuneJpegOptions,
+    /// Output colorspace asked for by the user, if it was overridden because
+    /// the image is grayscale
+    pub(crate) user_colorspace:  Option<ColorSpace>,
 }
 
 impl Decoder
 {
     fn default(options: ZuneJpegOptions) -> Self
     {
+        let use_unsafe = options.get_use_unsafe();
+        // other output colorspaces do not need a conversion function
         let color_convert =
-            choose_ycbcr_to_rgb_convert_func(ColorSpace::RGB, options.get_use_unsafe()).unwrap();
+            choose_ycbcr_to_rgb_convert_func(options.get_out_colorspace(), use_unsafe)
+                .or_else(|| choose_ycbcr_to_rgb_convert_func(ColorSpace::RGB, use_unsafe))
+                .unwrap();
         Decoder {
             info: ImageInfo::default(),
             qt_tables: [None, None, None, None],
@@ -166,6 +173,7 @@ impl Decoder
             todo: 0x7fff_ffff,
             // options
             options,
+            user_colorspace: None,
         }
     }
     /// Decode a buffer already in memory
@@ -240,6 +248,13 @@ impl Decoder
     where
         R: Read + BufRead,
     {
+        // Forget everything about the previous image, keep what the user asked for.
+        if let Some(colorspace) = self.user_colorspace
+        {
+            self.options = self.options.set_out_colorspace(colorspace);
+        }
+        *self = Decoder::default(self.options);
+
         // First two bytes should be jpeg soi marker
         let magic_bytes = read_u16_be(buf)?;
 
@@ -535,6 +550,7 @@ impl Decoder
     pub fn rgba(&mut self)
     {
         // told you so
+        self.user_colorspace = None;
         self.options = self.options.set_out_colorspace(ColorSpace::RGBA);
     }
 
@@ -552,6 +568,7 @@ impl Decoder
     )]
     pub fn set_output_colorspace(&mut self, colorspace: ColorSpace)
     {
+        self.user_colorspace = None;
         self.options = self.options.set_out_colorspace(colorspace);
     }
     #[must_use]
diff --git a/src/headers.rs b/src/headers.rs
index 03ab65e..8872610 100644
--- a/src/headers.rs
+++ b/src/headers.rs
@@ -281,6 +281,7 @@ where
         // and that to us translates to setting input and output
         // colorspaces to zero
         img.input_colorspace = ColorSpace::GRAYSCALE;
+        img.user_colorspace = Some(img.options.get_out_colorspace());
         img.options = img.options.set_out_colorspace(ColorSpace::GRAYSCALE);
     }
 
diff --git a/src/mcu.rs b/src/mcu.rs
index 0a5d2b2..3db63f4 100644
--- a/src/mcu.rs
+++ b/src/mcu.rs
@@ -189,7 +189,6 @@ impl Decoder
 
             mcu_width = (usize::from(self.info.width) + 7) / 8;
             self.h_max = 1;
-            self.options = self.options.set_out_colorspace(ColorSpace::GRAYSCALE);
             self.v_max = 1;
             self.sub_sample_ratio = SubSampRatios::None;
             self.components[0].vertical_sample = 1;
-- 
2.43.0


From aeee830c3e26641ef5cf8f8ed6f573a91090de74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:35 +0000
Subject: [PATCH 14/33] fix: reject frames with component layouts that cannot
 be decoded instead of panicking

---
 src/headers.rs | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/headers.rs b/src/headers.rs
index 8872610..bcfe9d8 100644
--- a/src/headers.rs
+++ b/src/headers.rs
@@ -203,6 +203,12 @@ pub(crate) fn parse_start_of_frame<R>(
 where
     R: Read,
 {
+    if !img.components.is_empty()
+    {
+        return Err(DecodeErrors::SofError(
+            "More than one start of frame in image".to_string(),
+        ));
+    }
     // Get length of the frame header
     let length = read_u16_be(buf)
         .map_err(|_| DecodeErrors::Format("Cannot read SOF length, exhausted data".to_string()))?;
@@ -275,6 +281,15 @@ where
 
     info!("Image components : {}", num_components);
 
+    if num_components != 1 && num_components != 3
+    {
+        // everything after this works with either Y or Y,Cb and Cr
+        return Err(DecodeErrors::SofError(format!(
+            "Images with {} components are not supported",
+            num_components
+        )));
+    }
+
     if num_components == 1
     {
         // SOF sets the number of image components
@@ -299,6 +314,15 @@ where
         // create a component.
         let component = Components::from(temp)?;
 
+        // and in that order
+        if usize::from(component.id) != components.len() + 1
+        {
+            return Err(DecodeErrors::SofError(format!(
+                "Unexpected component id {}, components should be in the order Y,Cb,Cr",
+                component.id
+            )));
+        }
+
         components.push(component);
     }
 
-- 
2.43.0


From 58e0b0fbacaf1149bbe0fce7d92c9a6fa1404d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:35 +0000
Subject: [PATCH 15/33] fix: allow fill bytes before markers in headers

---
 src/decoder.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index 0dd5de4..13200a7 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -271,7 +271,8 @@ impl Decoder
             let m = read_byte(buf)?;
             // Last byte should be 0xFF to confirm existence of a marker since markers look
             // like OxFF(some marker data)
-            if last_byte == 0xFF
+            // (any number of 0xFF fill bytes may come before a marker)
+            if last_byte == 0xFF && m != 0xFF
             {
                 let marker = Marker::from_u8(m);
 
-- 
2.43.0


From fd01e51c18ba8a0f62c9cbb447a16f56126a35aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:36 +0000
Subject: [PATCH 16/33] fix: allow quantization tables between the frame and
 the scan headers

---
 src/components.rs |  3 +++
 src/decoder.rs    |  4 ++--
 src/headers.rs    | 33 +++++++++++++++++++--------------
 3 files changed, 24 insertions(+), 16 deletions(-)

diff --git a/src/components.rs b/src/components.rs
index e76339a..5305a84 100644
--- a/src/components.rs
+++ b/src/components.rs
@@ -31,6 +31,8 @@ pub(crate) struct Components
     pub quantization_table_number: u8,
     /// Specifies quantization table to use with this component
     pub quantization_table:        Aligned32<[i32; 64]>,
+    /// Has the quantization table been set
+    pub has_qt_table:              bool,
     /// dc prediction for the component
     pub dc_pred:                   i32,
     /// An up-sampling function, can be basic or SSE, depending
@@ -105,6 +107,7 @@ impl Components
             dc_huff_table: 0,
             ac_huff_table: 0,
             quantization_table: Aligned32([0; 64]),
+            has_qt_table: false,
             dc_pred: 0,
             up_sampler: upsample_no_op,
             // set later
diff --git a/src/decoder.rs b/src/decoder.rs
index 13200a7..0972579 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -61,8 +61,8 @@ pub struct Decoder
 {
     /// Struct to hold image information from SOI
     pub(crate) info:              ImageInfo,
-    ///  Quantization tables, will be set to none and the tables will
-    /// be moved to `components` field
+    ///  Quantization tables, copied to the `components` field by the first
+    /// scan of a component
     pub(crate) qt_tables:         [Option<[i32; 64]>; MAX_COMPONENTS],
     /// DC Huffman Tables with a maximum of 4 tables for each  component
     pub(crate) dc_huffman_tables: [Option<HuffmanTable>; MAX_COMPONENTS],
diff --git a/src/headers.rs b/src/headers.rs
index bcfe9d8..6bdba85 100644
--- a/src/headers.rs
+++ b/src/headers.rs
@@ -348,24 +348,10 @@ where
             // not equal to 1.
             img.interleaved = true;
         }
-        // Extract quantization tables from the arrays into components
-        let qt_table = *img.qt_tables[component.quantization_table_number as usize]
-            .as_ref()
-            .ok_or_else(|| {
-                DecodeErrors::DqtError(format!(
-                    "No quantization table for component {:?}",
-                    component.component_id
-                ))
-            })?;
-
-        component.quantization_table = Aligned32(qt_table);
         // initially stride contains its horizontal sub-sampling
         component.width_stride *= img.mcu_x * 8;
     }
 
-    // delete quantization tables, we'll extract them from the components when
-    // needed
-    img.qt_tables = [None, None, None, None];
     img.components = components;
 
     Ok(())
@@ -457,6 +443,25 @@ where
             )));
         }
 
+        let component = &mut image.components[usize::from(j)];
+
+        if !component.has_qt_table
+        {
+            // Extract quantization tables from the arrays into components, they may be anywhere
+            // before the first scan of the component
+            let qt_table = *image.qt_tables[component.quantization_table_number as usize]
+                .as_ref()
+                .ok_or_else(|| {
+                    DecodeErrors::DqtError(format!(
+                        "No quantization table for component {:?}",
+                        component.component_id
+                    ))
+                })?;
+
+            component.quantization_table = Aligned32(qt_table);
+            component.has_qt_table = true;
+        }
+
         image.components[usize::from(j)].dc_huff_table = usize::from((y >> 4) & 0xF);
         image.components[usize::from(j)].ac_huff_table = usize::from(y & 0xF);
         image.z_order[i as usize] = j as usize;
-- 
2.43.0


From 12d4262d8cba3201b79c0ec1f3da7e4d7e6d3c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:36 +0000
Subject: [PATCH 17/33] fix: Huffman tables defined before a progressive frame
 header

---
 src/decoder.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/decoder.rs b/src/decoder.rs
index 0972579..e124e7c 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -335,6 +335,12 @@ impl Decoder
                     {
                         self.is_progressive = true;
 
+                        // tables that came before the frame header were built for baseline images
+                        for table in self.ac_huffman_tables.iter_mut().flatten()
+                        {
+                            *table = HuffmanTable::new(&table.bits, table.values, false, true)?;
+                        }
+
                         SOFMarkers::ProgressiveDctHuffman
                     }
                 };
-- 
2.43.0


From 20e9e6eb45df835bc54d5958a756a473e8cd6ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:37 +0000
Subject: [PATCH 18/33] fix: handle tables and miscellaneous segments between
 progressive scans

---
 src/marker.rs   | 4 +---
 src/mcu_prog.rs | 4 ++++
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/marker.rs b/src/marker.rs
index 6e44034..0e604f8 100644
--- a/src/marker.rs
+++ b/src/marker.rs
@@ -70,9 +70,7 @@ impl Marker
             0xDB => Some(DQT),
             0xDC => Some(DNL),
             0xDD => Some(DRI),
-            0xE0 => Some(APP(0)),
-            0xE1 => Some(APP(1)),
-            0xEE => Some(APP(14)),
+            0xE0..=0xEF => Some(APP(n - 0xE0)),
             _ => None,
         }
     }
diff --git a/src/mcu_prog.rs b/src/mcu_prog.rs
index 3777f03..3f65068 100644
--- a/src/mcu_prog.rs
+++ b/src/mcu_prog.rs
@@ -101,6 +101,10 @@ impl Decoder
                 Marker::DHT => {
                     parse_huffman(self, reader)?;
                 }
+                // other tables and miscellaneous segments may come before a scan too
+                Marker::DQT | Marker::DRI | Marker::COM | Marker::APP(_) => {
+                    self.parse_marker_inner(marker, reader)?;
+                }
                 Marker::SOS =>
                     {
                         parse_sos(reader, self)?;
-- 
2.43.0


From b80003ab3b618cfe73d136099bd80a0cd0982954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:37 +0000
Subject: [PATCH 19/33] fix: check the scan limit before decoding a scan

---
 src/mcu_prog.rs | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/mcu_prog.rs b/src/mcu_prog.rs
index 3f65068..ebe9e9c 100644
--- a/src/mcu_prog.rs
+++ b/src/mcu_prog.rs
@@ -58,6 +58,7 @@ impl Decoder
         let mut mcu_width;
 
         let mut seen_scans = 1;
+        self.check_scan_limit(seen_scans)?;
 
         if self.interleaved
         {
@@ -109,6 +110,9 @@ impl Decoder
                     {
                         parse_sos(reader, self)?;
 
+                        seen_scans += 1;
+                        self.check_scan_limit(seen_scans)?;
+
                         stream.update_progressive_params(self.succ_high, self.succ_low,
                                                          self.spec_start, self.spec_end);
 
@@ -117,12 +121,6 @@ impl Decoder
                         // extract marker, might either indicate end of image or we continue
                         // scanning(hence the continue statement to determine).
                         marker = get_marker(reader, &mut stream).ok_or(DecodeErrors::FormatStatic("Marker missing where expected"))?;
-                        seen_scans+=1;
-
-                        if seen_scans >  self.options.get_max_scans(){
-                            return Err(DecodeErrors::Format(format!("Too many scans, exceeded limit of {}", self.options.get_max_scans())))
-                        }
-
                         stream.reset();
                         continue 'eoi;
                     }
@@ -138,6 +136,19 @@ impl Decoder
         self.finish_progressive_decoding(&block, mcu_width)
     }
 
+    /// Check that the image does not have more scans than the user allows
+    fn check_scan_limit(&self, seen_scans: usize) -> Result<(), DecodeErrors>
+    {
+        if seen_scans > self.options.get_max_scans()
+        {
+            return Err(DecodeErrors::Format(format!(
+                "Too many scans, exceeded limit of {}",
+                self.options.get_max_scans()
+            )));
+        }
+        Ok(())
+    }
+
     #[rustfmt::skip]
     fn finish_progressive_decoding(&mut self, block: &[Vec<i16>; 3], mcu_width: usize) -> Result<Vec<u8>, DecodeErrors> {
         self.set_upsampling()?;
-- 
2.43.0


From e68471543f5b22a3111cae2131982e032524d9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:06 +0000
Subject: [PATCH 20/33] fix: reject baseline images whose components are in
 separate scans instead of decoding garbage

---
 src/mcu.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/mcu.rs b/src/mcu.rs
index 3db63f4..4459416 100644
--- a/src/mcu.rs
+++ b/src/mcu.rs
@@ -129,6 +129,13 @@ impl Decoder
     ) -> Result<Vec<u8>, DecodeErrors>
     {
         self.check_component_dimensions()?;
+
+        if usize::from(self.num_scans) != self.components.len()
+        {
+            return Err(DecodeErrors::FormatStatic(
+                "Baseline images with more than one scan are not supported",
+            ));
+        }
         // check dc and AC tables
         self.check_tables()?;
         self.reset_restart_interval();
-- 
2.43.0


From b9bb198aedab0fab9ffe505c1d8e8550a24cffd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:06 +0000
Subject: [PATCH 21/33] fix: report unsupported output colorspaces instead of
 returning a black image

---
 src/decoder.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/decoder.rs b/src/decoder.rs
index e124e7c..9888cbb 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -445,6 +445,16 @@ impl Decoder
 
         self.decode_headers_internal(&mut buf)?;
 
+        if matches!(
+            self.options.get_out_colorspace(),
+            ColorSpace::CMYK | ColorSpace::YCCK
+        )
+        {
+            return Err(DecodeErrors::FormatStatic(
+                "Conversion to CMYK and YCCK is not supported",
+            ));
+        }
+
         if self.is_progressive
         {
             self.decode_mcu_ycbcr_progressive(&mut buf)
-- 
2.43.0


From 49cbefd77d1be9e7966cb38e702994e642012d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:31 +0000
Subject: [PATCH 22/33] fix: horizontal up-sampling mixed the ends of
 neighbouring rows

---
 src/upsampler/scalar.rs | 22 +++++++++++++++++++---
 src/upsampler/sse.rs    | 30 ++++++++++++++++++------------
 2 files changed, 37 insertions(+), 15 deletions(-)

diff --git a/src/upsampler/scalar.rs b/src/upsampler/scalar.rs
index a932b00..be441f4 100644
--- a/src/upsampler/scalar.rs
+++ b/src/upsampler/scalar.rs
@@ -1,3 +1,8 @@
+/// Number of rows given to the horizontal up-samplers.
+///
+/// Neighbouring pixels are in the same row, so every row is up-sampled on its own.
+pub(crate) const H_ROWS: usize = 16;
+
 /// Upsample horizontally
 ///
 /// The up-sampling algorithm used is libjpeg-turbo `fancy_upsampling` which is
@@ -6,6 +11,19 @@ pub fn upsample_horizontal(input: &[i16], output_len: usize) -> Vec<i16>
 {
     let mut out = vec![0; output_len];
 
+    for (input, out) in input
+        .chunks_exact(input.len() / H_ROWS)
+        .zip(out.chunks_exact_mut(output_len / H_ROWS))
+    {
+        upsample_row(input, out);
+    }
+
+    return out;
+}
+
+/// Upsample a single row
+fn upsample_row(input: &[i16], out: &mut [i16])
+{
     assert!(
         out.len() > 4 && input.len() > 2,
         "Too Short of a vector, cannot upsample"
@@ -52,11 +70,9 @@ pub fn upsample_horizontal(input: &[i16], output_len: usize) -> Vec<i16>
     let i_last: &[i16; 2] = input.get(input_len..).unwrap().try_into().unwrap();
 
     // write out manually..
-    f_out[0] = (3 * i_last[0] + i_last[1] + 2) >> 2;
+    f_out[0] = (3 * i_last[1] + i_last[0] + 2) >> 2;
 
     f_out[1] = i_last[1];
-
-    return out;
 }
 /// Vertical upsampling (which I don't trust but it works anyway)
 ///
diff --git a/src/upsampler/sse.rs b/src/upsampler/sse.rs
index fc2feb3..7ef2d83 100644
--- a/src/upsampler/sse.rs
+++ b/src/upsampler/sse.rs
@@ -8,24 +8,32 @@ use std::arch::x86::*;
 use std::arch::x86_64::*;
 use std::convert::TryInto;
 
+use crate::upsampler::scalar::H_ROWS;
+
 #[inline]
 pub fn upsample_horizontal_sse(input: &[i16], output_len: usize) -> Vec<i16>
 {
-    unsafe { upsample_horizontal_sse_u(input, output_len) }
+    let mut out = vec![0; output_len];
+
+    for (input, out) in input
+        .chunks_exact(input.len() / H_ROWS)
+        .zip(out.chunks_exact_mut(output_len / H_ROWS))
+    {
+        unsafe { upsample_horizontal_sse_u(input, out) }
+    }
+
+    return out;
 }
 
-/// Upsample using SSE to improve speed
+/// Upsample a row using SSE to improve speed
 ///
 /// The sampling filter is bi-linear or triangle filter
 #[target_feature(enable = "sse2")]
 //Some things are weird...
 #[target_feature(enable = "sse4.1")]
 #[inline]
-pub unsafe fn upsample_horizontal_sse_u(input: &[i16], output_len: usize) -> Vec<i16>
+pub unsafe fn upsample_horizontal_sse_u(input: &[i16], out: &mut [i16])
 {
-    //let mut out = align_zero_alloc::<i16, 16>(output_len);
-    let mut out = vec![0; output_len];
-
     // set first 8 pixels linearly
     // Assert that out has more than 8 elements and input has more than 4
     // Do this before otherwise Rust will bounds check all of these items like some
@@ -120,15 +128,13 @@ pub unsafe fn upsample_horizontal_sse_u(input: &[i16], output_len: usize) -> Vec
 
     l_out[2] = (input[il + 1] * 3 + input[il] + 2) >> 2;
 
-    l_out[3] = (input[il + 1] * 3 + input[il + 1] + 2) >> 2;
+    l_out[3] = (input[il + 1] * 3 + input[il + 2] + 2) >> 2;
 
-    l_out[4] = (input[il + 2] * 3 + input[il + 2] + 2) >> 2;
+    l_out[4] = (input[il + 2] * 3 + input[il + 1] + 2) >> 2;
 
-    l_out[5] = (input[il + 2] * 3 + input[il + 1] + 2) >> 2;
+    l_out[5] = (input[il + 2] * 3 + input[il + 3] + 2) >> 2;
 
-    l_out[6] = (input[il + 2] * 3 + input[il + 3] + 2) >> 2;
+    l_out[6] = (input[il + 3] * 3 + input[il + 2] + 2) >> 2;
 
     l_out[7] = input[il + 3];
-
-    return out;
 }
-- 
2.43.0


From 2c153d4da71dc47fd9f61b21fffbb2121668cdf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:32 +0000
Subject: [PATCH 23/33] fix: vertical up-sampling used the wrong pair of rows

---
 src/upsampler/scalar.rs | 73 +++++++++--------------------------------
 1 file changed, 16 insertions(+), 57 deletions(-)

diff --git a/src/upsampler/scalar.rs b/src/upsampler/scalar.rs
index be441f4..1a07e11 100644
--- a/src/upsampler/scalar.rs
+++ b/src/upsampler/scalar.rs
@@ -79,58 +79,31 @@ fn upsample_row(input: &[i16], out: &mut [i16])
 /// The algorithm is still a bi-linear filter with some caveats.
 pub fn upsample_vertical(input: &[i16], output_len: usize) -> Vec<i16>
 {
-    // the caveats, row_near and row_far for the first row point to the same
-    // array, that boils to a nearest neighbour upsampling?
-
-    // if row_near doesn't have data (next returns None), it uses it's
-    // previous row, so this again becomes a nearest neighbour
+    // the caveats, the first and the last rows have only one neighbour, so they
+    // are nearest neighbour upsampling.
 
     // How many pixels we need to skip to the next MCU row.
     let stride = input.len() >> 3;
 
     // We have 8 rows and we want 16 rows
-    let mut row_near = input.chunks_exact(stride);
-
-    // row far should point one row below row_near, if row near is in row 3, row far is in
-    // row 4.
-    let mut row_far = input.chunks_exact(stride);
-
     let mut out = vec![0; output_len];
-    // nearest row
-    let mut rw_n = row_near.next().unwrap();
-    // farthest row;
-    let mut rw_f = row_far.next().unwrap();
-    // previous row, for out of edge cases, e.g if we reach a row and
-    // we don't have data for that row, we use the previous row
-    let mut previous;
 
-    let mut i = 0;
+    out[..stride].copy_from_slice(&input[..stride]);
 
-    let mut next_row = true;
-
-    for _ in 0..8
+    // every pair of adjacent rows makes the two output rows between them
+    // (see module docs)
+    for ((row_near, row_far), out_rows) in input
+        .chunks_exact(stride)
+        .zip(input[stride..].chunks_exact(stride))
+        .zip(out[stride..].chunks_exact_mut(stride * 2))
     {
-        // A bit of cheat here.
-        //
-        // Let me explain, split at mut will return two slices, one containing 0..stride
-        // and another containing what remains.
-        //
-        // The length of out_near => stride, remainder will ALWAYS be greater than or equal to stride.
-        // now this is important with the loop below, we are using zip iterators which have an interesting
-        // property, they stop if any iterator doesn't have elements
-        //
-        // So we know remainder will be >= stride but out_near will be stride, therefore the zip will
-        // effectively stop when we write two rows.
-        //
-        // Ideally all of this is done to eliminate bounds check, the compiler will vectorize this
-        // better without the bounds check.
-        let (out_near, remainder) = out[i..].split_at_mut(stride);
-
-        for (((near, far), on), of) in rw_n
+        let (out_near, out_far) = out_rows.split_at_mut(stride);
+
+        for (((near, far), on), of) in row_near
             .iter()
-            .zip(rw_f.iter())
+            .zip(row_far.iter())
             .zip(out_near.iter_mut())
-            .zip(remainder.iter_mut())
+            .zip(out_far.iter_mut())
         {
             // Yes this can be easily accelerated, with SSE or AVX,
             // but it's a maintenance overhead and the compiler does an amazing work
@@ -141,24 +114,10 @@ pub fn upsample_vertical(input: &[i16], output_len: usize) -> Vec<i16>
             // far row
             *of = ((*far) * 3 + (*near) + 2) >> 2;
         }
-        // we wrote two adjacent lines update i to point to next position
-        // in output buffer.
-        i += stride * 2;
-
-        previous = rw_n;
+    }
 
-        rw_n = row_near.next().unwrap_or(previous);
+    out[15 * stride..16 * stride].copy_from_slice(&input[7 * stride..]);
 
-        rw_f = row_far.next().unwrap_or(rw_n);
-        // okay here I'm lazy. Ideally what i want s simply this.
-        // for the first row, keep row_near and row_far to the same, row, but for sub-sequent rows,
-        // row_far should point to the next row(1 row further than this row_near).
-        if next_row
-        {
-            rw_f = row_far.next().unwrap_or(rw_n);
-            next_row = false;
-        }
-    }
     return out;
 }
 pub fn upsample_hv(input: &[i16], output_len: usize) -> Vec<i16>
-- 
2.43.0


From 9ccaff23e67b7ee22da9abd55c6f586fe584a03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:32 +0000
Subject: [PATCH 24/33] fix: up-sampling of images with quartered chroma mixed
 rows, and wrote stripes with AVX2

---
 src/upsampler/avx2.rs   | 345 +---------------------------------------
 src/upsampler/scalar.rs |  24 ++-
 2 files changed, 23 insertions(+), 346 deletions(-)

diff --git a/src/upsampler/avx2.rs b/src/upsampler/avx2.rs
index fcc2b4e..c5c4f42 100644
--- a/src/upsampler/avx2.rs
+++ b/src/upsampler/avx2.rs
@@ -1,348 +1,11 @@
 #![cfg(feature = "x86")]
 #![cfg(any(target_arch = "x86", target_arch = "x86_64"))]
-#[cfg(target_arch = "x86")]
-use std::arch::x86::*;
-#[cfg(target_arch = "x86_64")]
-use std::arch::x86_64::{
-    _mm256_add_epi16, _mm256_alignr_epi8, _mm256_blend_epi16, _mm256_insert_epi16,
-    _mm256_loadu_si256, _mm256_mullo_epi16, _mm256_permute2x128_si256, _mm256_set1_epi16,
-    _mm256_srai_epi16, _mm256_storeu_si256, _mm256_unpackhi_epi16, _mm256_unpacklo_epi16,
-};
 
-use crate::upsampler::scalar::upsample_hv;
+use crate::upsampler::scalar::upsample_hv_with;
+use crate::upsampler::sse::upsample_horizontal_sse;
 
+/// Vertical up-sampling is vectorized by the compiler, horizontal up-sampling is not.
 pub fn upsample_hv_simd(input: &[i16], output_len: usize) -> Vec<i16>
 {
-    if input.len() < 500
-    {
-        //For small inputs, use scalar.
-        return upsample_hv(input, output_len);
-    }
-    unsafe { upsample_hv_avx(input, output_len) }
-}
-// herein lies 2 days work tread lightly
-
-#[rustfmt::skip]
-#[target_feature(enable = "avx")]
-#[target_feature(enable = "avx2")]
-#[inline]
-pub unsafe fn upsample_hv_avx(input: &[i16], output_len: usize) -> Vec<i16>
-{
-    //to understand how it works, we have to see what vertical upsampling + horizontal upsampling do
-    // Hence the illustration
-    //    | A1 | A2 |
-    //    |====|====|
-    //    | p1 | p2 |
-    //    |----|----|
-    //    | p3 | p4 |
-    //    |====|====|
-    //    | B1 | B2 |
-    //
-    // -> Okay for two squeezed lines, A and B we generate 2 lines.
-    // We do the same for B & C and so on.
-    //
-    // After our vertical pass, we have p2 and p3 stretching halfway the image
-    //
-    // After that vertical pass, we want to do another pass.
-    // | p1 |q1|q2| p2 |
-    // |----|=====|----|
-    // | p3 |q3|q4| p4 |
-    //
-    // now q1 will stretch the whole image, hence it becomes a full upsampling
-
-    // So how do we actually implement.
-
-    let mut output = vec![0;output_len];
-
-    // okay for the next step lets play with AVX
-
-    // Difference in  pixels for a width
-    let mut stride = 0;
-    //
-    let mut modify_stride = true;
-
-    let mut pos = 0;
-    let mut output_position = 0;
-
-    let mut prev = (3 * input[0] + input[stride] + 2) >> 2;
-    let mut pixel_far = (3 * input[pos + 16] + input[pos + stride + 16] + 2) >> 2;
-
-    let three = _mm256_set1_epi16(3);
-    let two = _mm256_set1_epi16(2);
-
-    macro_rules! pack_shuffle {
-        ($x:tt,$y:tt,$value:tt) => {
-            let v = _mm256_permute2x128_si256::<$value>($x, $x);
-
-            let rwn_hi = _mm256_unpackhi_epi16(v, v);
-            let rwn_lo = _mm256_unpacklo_epi16(v, v);
-
-            $y = _mm256_permute2x128_si256::<0b0011_0000>(rwn_lo, rwn_hi);
-        };
-    }
-
-    macro_rules! upsample_horizontal {
-        ($row:tt,$stride:tt) => {
-            // AND THE implementation of srli is 2 128 bit shuffles.
-            // Mahn intel really??
-            // Therefore we need to emulate that instruction
-            // See this stack overflow post: https://stackoverflow.com/questions/25248766/emulating-shifts-on-32-bytes-with-avx
-
-            // shift the whole data in the register left by 16 to remove zero-th element
-            // array looks like B0,[B1,B2,B3,B4,B5,B6,B7,0]
-            // _mm256_srli_si256(A, N) (0<N<16)
-            let mut next_arr = _mm256_alignr_epi8::<2>(
-                _mm256_permute2x128_si256::<{ shuffle(2, 0, 0, 1) }>($row, $row),
-                $row,
-            );
-            // shift the whole data in the array down by(right) by 16, to remove n+1.
-            // Now our register looks like  [0,B1,B2,B3,B4,B5,B6],B7.
-            // _mm256_slli_si256(A, N) ( 0< N < 16).
-            let mut prev_arr = _mm256_alignr_epi8::<{ 16 - 2 }>($row,
-                                                                _mm256_permute2x128_si256::<{ shuffle(0, 0, 2, 0) }>($row, $row),
-            );
-
-
-            // insert values
-
-            // prev_array => [X0,B1,B2,B3,B4,B5,B6,B7]
-            prev_arr = _mm256_insert_epi16::<0>(prev_arr, prev);
-            // NEXT_ARR => [B0,B1,B2,B3,B4,B5,B6,X1]
-            next_arr = _mm256_insert_epi16::<15>(next_arr, pixel_far);
-
-            // Okay at this point we have: (the arrows just show how prev_arr & next_arr differ from row_near)
-            //              |                                                  |
-            //             \/                                                 \/
-            //-> prev_arr [B0,B1,B2,B3,B4,B5,B6,B7,B8,B9,B10,B11,B12,B13,B14,B15]
-            //
-            //
-            //-> row_near [B1,B2,B3,B4,B5,B6,B7,B8,B9,B10,B11,B2,B13,B14,B15,B16]
-            //
-            //              |                                                   |
-            //             \/                                                  \/
-            //-> next_row [B2,B3,B4,B5,B6,B7,B8,B9,B10,B11,B12,B13,B14,B15,B16,B17]
-
-
-            // Next we need to get values in Avx register and stretch them.
-            // The reason for this is simple, currently our avx register contain vertical upsampling values.
-            // packed together, for a packing B0,B1 , we need to generate two values
-            //illustrated by
-            // |  |           |  |
-            // |B0| |p1| |p2| |B1|
-            // |  |           |  |
-            // Now a cool way to stretch them is to half our three avx registers,  into 6 upper or lower registers
-            // and duplicate elements of either the half register to the other half
-
-            // Eg for near:
-            // near->|B0,B1,B2,B3]
-            // near_hi ->[B0,B0,B1,B1]
-            // near_lo ->[B2,B2,B3,B3]
-
-            // Duplicate top elements to low elements
-            let (near_lo, near_hi, prev_lo, prev_hi, next_lo, next_hi);
-
-            pack_shuffle!($row,near_lo,0);
-            pack_shuffle!($row,near_hi,0b011_0011);
-
-            pack_shuffle!(prev_arr,prev_lo,0);
-            pack_shuffle!(prev_arr,prev_hi,0b011_0011);
-
-            pack_shuffle!(next_arr,next_lo,0);
-            pack_shuffle!(next_arr,next_hi,0b011_0011);
-
-            // FINALLY START CARRYING OUT THE CALCULATIONS.
-
-            // everything above was set up for this
-
-
-            // prev-lo->[BO,B0,B1,B1,B2,B2,B3,B3]
-            // next-lo->[B2,B2,B3,B3,B4,B4,B5,B5]
-            // NN    -> [B0,B2,B1,B3,B2,B4,B3,B5]
-
-            // notice how prettily NN contains  a weird shift of elements.
-
-            // for i in 1..input.len() - 1{
-            //         let sample = 3 * input[i] + 2;
-            //
-            //         out[i * 2] = (sample + input[i - 1]) >> 2;
-            //         out[i * 2 + 1] = (sample + input[i + 1]) >> 2;
-            // }
-
-            // Look at the ABOVE loop, notice how even numbers get i-1, look at the even indices
-            // in nn.
-            // Look at the ODD INDICES while at it.
-
-            // And that's the miracle.
-            // I rest my case, may you understand the rest of the code.
-
-            let nn = _mm256_blend_epi16::<0b1010_1010>(prev_lo, next_lo);
-            // input[x]*3
-            let an = _mm256_mullo_epi16(near_lo, three);
-
-            let bn = _mm256_add_epi16(nn, two);
-
-            let cn = _mm256_srai_epi16::<2>(_mm256_add_epi16(an, bn));
-
-            _mm256_storeu_si256(output.get_mut(output_position+$stride..output_position+$stride+16).unwrap().as_mut_ptr().cast(), cn);
-
-
-            let nn = _mm256_blend_epi16::<0b1010_1010>(prev_hi, next_hi);
-
-            let an = _mm256_mullo_epi16(near_hi, three);
-
-            let bn = _mm256_add_epi16(nn, two);
-
-            let cn = _mm256_srai_epi16::<2>(_mm256_add_epi16(an, bn));
-            // hi is stored one output width lower.
-            _mm256_storeu_si256(output.get_mut(output_position+$stride+16..output_position+$stride+32).unwrap().as_mut_ptr().cast(), cn);
-
-
-        };
-    }
-
-    macro_rules! upsample_vertical {
-        ($load_near:tt,$load_far:tt,$row_near:tt,$row_far:tt) => {
-            let t2 = _mm256_add_epi16($load_far, two);
-            let t1 = _mm256_mullo_epi16($load_near, three);
-
-            // (near * 3 + far + 2 ) >> 2
-            $row_near = _mm256_srai_epi16::<2>(_mm256_add_epi16(t1, t2));
-
-            let t3 = _mm256_add_epi16($load_near, two);
-            let t4 = _mm256_mullo_epi16($load_far, three);
-
-            // (far * 3 + near + 2 ) >> 2
-            $row_far = _mm256_srai_epi16::<2>(_mm256_add_epi16(t3, t4));
-        };
-    }
-
-    let (mut row_near, mut row_far);
-
-    let len = output_len / 16;
-    let end = (input.len() >> 7).saturating_sub( 1);
-    // some calculations to determine how much will not be written per MCU.
-    let v = (output.len() / 16).saturating_sub (end * 32);
-
-
-    // we need to iterate row wise
-    // we initially have 8 rows we want to make 32, new rows,
-    for j in 0..8
-    {
-
-        // loop row wise
-        // we are feed it our stuff with 16 values, therefore we can loop the number of times we can
-        // chunk data. into 16
-        for _ in 0..end
-        {
-            let load_near = _mm256_loadu_si256(input[pos..].as_ptr().cast());
-            let load_far = _mm256_loadu_si256(input[pos + stride..].as_ptr().cast());
-            // ==========================================================================
-            // -> Pass 1:Vertical calculation.
-            // --------------------------------------------------------------------------
-            upsample_vertical!(load_near, load_far, row_near, row_far);
-
-            // --------------------------------------------------------------------------
-            // Pass 1 : Complete
-            // ==========================================================================
-
-            // ==========================================================================
-            // Pass 2: Horizontal upsampling
-            //---------------------------------------------------------------------------
-
-            upsample_horizontal!(row_near, 0);
-
-            upsample_horizontal!(row_far, (len));
-
-            output_position += 32;
-            // ---------------------------------------------------------------------------
-            // pass 2 complete
-            // ===========================================================================
-            pos += 16;
-            // update previous and next values
-            assert!(input.len() >= pos + stride + 16);
-            // Safety , the assert statement above ensures none of these goes out of bounds.
-            prev = (3 * (*input.get(pos).unwrap_or(&0))
-                .wrapping_add (*input.get(pos + stride).unwrap_or(&0))
-                .wrapping_add(2)) >> 2;
-
-            pixel_far = (3 * (*input.get(pos + 16).unwrap_or(&0))
-                .wrapping_add (*input.get(pos + stride + 16).unwrap_or(&0))
-                .wrapping_add( 2)) >> 2;
-        }
-        // now there are some more data left, since we actually don't write
-        // to the end of the array.
-
-        // those whe handle using scalar code
-       
-        let (a,b )=  output.split_at_mut(output_position+v);
-        
-        let c = a.len()-v;
-    
-        // areas the vector code didn't touch
-        let unwritten = &mut a[c..];
-        let unwritten_stride = &mut b[len-v..len];
-     
-        
-        for (input_window,output_window) in input[pos-v/2-2..pos].windows(3).zip(unwritten.chunks_exact_mut(2)){
-            let input_window: &[i16; 3] = input_window.try_into().unwrap();
-
-            let sample = 3 * input_window[1] + 2;
-    
-            output_window[0] = (sample + input_window[0]) >> 2;
-    
-            output_window[1] = (sample + input_window[2]) >> 2;
-        }
-        *unwritten.last_mut().unwrap() = input[pos];
-        
-        for (input_window,output_window) in input[pos-v/2+stride-2..pos+stride].windows(3).zip(unwritten_stride.chunks_exact_mut(2)){
-            let input_window: &[i16; 3] = input_window.try_into().unwrap();
-
-            let sample = 3 * input_window[1] + 2;
-    
-            output_window[0] = (sample + input_window[0]) >> 2;
-    
-            output_window[1] = (sample + input_window[2]) >> 2;
-        }
-        
-        *unwritten_stride.last_mut().unwrap() = input[pos+stride];
-        
-    
-
-        output_position += len+v;
-        pos+=v/2;
-        
-        if modify_stride
-        {
-            stride = input.len() / 8;
-            modify_stride = false;
-
-        }
-        if j == 6
-        {
-            // when j is 6 it means we are at position 14, and 15, here we
-            // need to revert stride to be zero to get a nearest neighbour
-
-            // since there is no more row to look ahead using stride.
-            stride = 0;
-
-        }
-        // set some manually
-        output[output_position - len] = output[output_position - len + 1];
-
-        output[output_position - len - 2] = output[output_position - len - 4];
-
-        output[output_position - len - 1] = output[output_position - len - 3];
-
-        output[output_position - 2] = output[output_position - 4];
-
-        output[output_position - 1] = output[output_position - 3];
-    }
-
-    return output;
-}
-
-#[inline]
-const fn shuffle(z: i32, y: i32, x: i32, w: i32) -> i32
-{
-    ((z << 6) | (y << 4) | (x << 2) | w) as i32
+    return upsample_hv_with(upsample_horizontal_sse, input, output_len);
 }
diff --git a/src/upsampler/scalar.rs b/src/upsampler/scalar.rs
index 1a07e11..1433e6e 100644
--- a/src/upsampler/scalar.rs
+++ b/src/upsampler/scalar.rs
@@ -132,10 +132,24 @@ pub fn upsample_hv(input: &[i16], output_len: usize) -> Vec<i16>
 
     // But this is a good place for optimization if one wants to tackle that.
 
-    // first pass, do vertical sampling
-    let first_pass = upsample_vertical(input, input.len() * 2);
-    //second pass, do horizontal sampling
-    let second_pass = upsample_horizontal(&first_pass, output_len);
+    return upsample_hv_with(upsample_horizontal, input, output_len);
+}
+
+/// Up-sample vertically and then with the given horizontal up-sampler
+pub(crate) fn upsample_hv_with(
+    horizontal: fn(&[i16], usize) -> Vec<i16>, input: &[i16], output_len: usize,
+) -> Vec<i16>
+{
+    let mut out = Vec::with_capacity(output_len);
 
-    return second_pass;
+    // there are two MCU rows, each with 8 rows of pixels
+    for mcu_row in input.chunks_exact(input.len() / 2)
+    {
+        // first pass, do vertical sampling
+        let first_pass = upsample_vertical(mcu_row, mcu_row.len() * 2);
+        //second pass, do horizontal sampling
+        out.extend_from_slice(&horizontal(&first_pass, output_len / 2));
+    }
+
+    return out;
 }
-- 
2.43.0


From c08f63c3ef5490816548a61954bdfc5735f4567a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:48 +0000
Subject: [PATCH 25/33] hook: --cfg zune_no_avx2 selects the code for CPUs
 without AVX2

---
 src/lib.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index de6692f..78fb851 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -86,6 +86,18 @@
 #[macro_use]
 extern crate log;
 
+// Verification hook: with `--cfg zune_no_avx2` the code for CPUs without AVX2 is used.
+#[allow(unexpected_cfgs)]
+#[cfg(zune_no_avx2)]
+macro_rules! is_x86_feature_detected {
+    ("avx2") => {
+        false
+    };
+    ($feature:tt) => {
+        std::is_x86_feature_detected!($feature)
+    };
+}
+
 pub use crate::decoder::{Decoder, ImageInfo};
 pub use crate::misc::ColorSpace;
 pub use crate::options::ZuneJpegOptions;
-- 
2.43.0


From 21b0ff869e3893504a171da2c8de2f116359eef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:19 +0000
Subject: [PATCH 26/33] fix: refuse frame headers of unsupported types instead
 of skipping them

---
 src/marker.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/marker.rs b/src/marker.rs
index 0e604f8..aa10c68 100644
--- a/src/marker.rs
+++ b/src/marker.rs
@@ -54,6 +54,8 @@ impl Marker
             0xFE => Some(COM),
             0xC0 => Some(SOF(0)),
             0xC2 => Some(SOF(2)),
+            // frame types that are not supported
+            0xC1 | 0xC3 | 0xC5..=0xC7 | 0xC9..=0xCB | 0xCD..=0xCF => Some(SOF(n - 0xC0)),
             0xC4 => Some(DHT),
             0xCC => Some(DAC),
             0xD0 => Some(RST(0)),
-- 
2.43.0


From 8e1d34de556e78d5803b2f7ee67a01d6cf331e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:19 +0000
Subject: [PATCH 27/33] fix: refuse a second frame header between progressive
 scans

---
 src/mcu_prog.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mcu_prog.rs b/src/mcu_prog.rs
index ebe9e9c..4b9f9ec 100644
--- a/src/mcu_prog.rs
+++ b/src/mcu_prog.rs
@@ -103,7 +103,8 @@ impl Decoder
                     parse_huffman(self, reader)?;
                 }
                 // other tables and miscellaneous segments may come before a scan too
-                Marker::DQT | Marker::DRI | Marker::COM | Marker::APP(_) => {
+                // (a frame header may not, and is refused)
+                Marker::DQT | Marker::DRI | Marker::COM | Marker::APP(_) | Marker::SOF(_) => {
                     self.parse_marker_inner(marker, reader)?;
                 }
                 Marker::SOS =>
-- 
2.43.0


From a918fed01b53d3b2aa27e7276319f8fccb118c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:44 +0000
Subject: [PATCH 28/33] fix: AVX2 IDCT must not assume that coefficient vectors
 are 16-byte aligned

Vec<i16> only promises an alignment of 2; with an allocator that gives no more, _mm_load_si128 faults.
---
 src/idct/avx2.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/idct/avx2.rs b/src/idct/avx2.rs
index 2c646b0..c695797 100644
--- a/src/idct/avx2.rs
+++ b/src/idct/avx2.rs
@@ -104,19 +104,19 @@ unsafe fn dequantize_and_idct_int_avx2(
             // We sign extend i16's to i32's and calculate them with extended precision and
             // later reduce them to i16's when we are done carrying out IDCT
 
-            let rw0 = _mm_load_si128(vector[0..=7].as_ptr().cast());
+            let rw0 = _mm_loadu_si128(vector[0..=7].as_ptr().cast());
 
-            let rw1 = _mm_load_si128(vector[8..=15].as_ptr().cast());
+            let rw1 = _mm_loadu_si128(vector[8..=15].as_ptr().cast());
 
-            let rw2 = _mm_load_si128(vector[16..=23].as_ptr().cast());
+            let rw2 = _mm_loadu_si128(vector[16..=23].as_ptr().cast());
 
-            let rw3 = _mm_load_si128(vector[24..=31].as_ptr().cast());
+            let rw3 = _mm_loadu_si128(vector[24..=31].as_ptr().cast());
 
-            let rw4 = _mm_load_si128(vector[32..=39].as_ptr().cast());
+            let rw4 = _mm_loadu_si128(vector[32..=39].as_ptr().cast());
 
-            let rw5 = _mm_load_si128(vector[40..=47].as_ptr().cast());
+            let rw5 = _mm_loadu_si128(vector[40..=47].as_ptr().cast());
 
-            let rw6 = _mm_load_si128(vector[48..=55].as_ptr().cast());
+            let rw6 = _mm_loadu_si128(vector[48..=55].as_ptr().cast());
 
             let rw7 = _mm_loadu_si128(vector[56..=63].as_ptr().cast());
 
-- 
2.43.0


From 658ba585d404acbad6c48408dcf1e434b72ecd56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:00 +0000
Subject: [PATCH 29/33] fix: refuse DC scans that name a Huffman table beyond
 the fourth

---
 src/mcu_prog.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/mcu_prog.rs b/src/mcu_prog.rs
index 4b9f9ec..1bf13c5 100644
--- a/src/mcu_prog.rs
+++ b/src/mcu_prog.rs
@@ -31,7 +31,6 @@ use std::sync::Arc;
 
 use crate::bitstream::BitStream;
 use crate::components::{ComponentID, SubSampRatios};
-use crate::decoder::MAX_COMPONENTS;
 use crate::errors::DecodeErrors;
 use crate::errors::DecodeErrors::Format;
 use crate::headers::{parse_huffman, parse_sos};
@@ -333,7 +332,7 @@ impl Decoder
 
                     if self.spec_start == 0
                     {
-                        let pos = self.components[k].dc_huff_table & (MAX_COMPONENTS - 1);
+                        let pos = self.components[k].dc_huff_table;
                         let dc_table = self.dc_huffman_tables.get(pos)
                             .ok_or_else(|| DecodeErrors::Format(format!("No huffman table for component:{}", pos)))?
                             .as_ref()
-- 
2.43.0


From 83ec17a5832cdcd419046f4759e6070a559fc99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:30 +0000
Subject: [PATCH 30/33] fix: DC refinement scans need no Huffman table

---
 src/mcu_prog.rs | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/mcu_prog.rs b/src/mcu_prog.rs
index 1bf13c5..c76ccca 100644
--- a/src/mcu_prog.rs
+++ b/src/mcu_prog.rs
@@ -332,19 +332,19 @@ impl Decoder
 
                     if self.spec_start == 0
                     {
-                        let pos = self.components[k].dc_huff_table;
-                        let dc_table = self.dc_huffman_tables.get(pos)
-                            .ok_or_else(|| DecodeErrors::Format(format!("No huffman table for component:{}", pos)))?
-                            .as_ref()
-                            .ok_or_else(|| DecodeErrors::Format(format!("Huffman table at index  {} not initialized", pos)))?;
-                        let dc_pred = &mut self.components[k].dc_pred;
-
                         if self.succ_high == 0
                         {
                             // first scan for this mcu
+                            let pos = self.components[k].dc_huff_table;
+                            let dc_table = self.dc_huffman_tables.get(pos)
+                                .ok_or_else(|| DecodeErrors::Format(format!("No huffman table for component:{}", pos)))?
+                                .as_ref()
+                                .ok_or_else(|| DecodeErrors::Format(format!("Huffman table at index  {} not initialized", pos)))?;
+                            let dc_pred = &mut self.components[k].dc_pred;
+
                             stream.decode_prog_dc_first(reader, dc_table, &mut data[0], dc_pred)?;
                         } else {
-                            // refining scans for this MCU
+                            // refining scans for this MCU, these use no table
                             stream.decode_prog_dc_refine(reader, &mut data[0])?;
                         }
 
@@ -418,11 +418,6 @@ impl Decoder
                         }
 
                         let component = &mut self.components[n];
-                        let huff_table = self.dc_huffman_tables.get(component.dc_huff_table)
-                            .ok_or_else(|| DecodeErrors::Format(format!("No huffman table for component:{}", component.dc_huff_table)))?
-                            .as_ref()
-                            .ok_or_else(|| DecodeErrors::Format(format!("Huffman table at index  {} not initialized", component.dc_huff_table)))?;
-
                         for v_samp in 0..component.vertical_sample
                         {
                             for h_samp in 0..component.horizontal_sample
@@ -435,6 +430,11 @@ impl Decoder
 
                                 if self.succ_high == 0
                                 {
+                                    let huff_table = self.dc_huffman_tables.get(component.dc_huff_table)
+                                        .ok_or_else(|| DecodeErrors::Format(format!("No huffman table for component:{}", component.dc_huff_table)))?
+                                        .as_ref()
+                                        .ok_or_else(|| DecodeErrors::Format(format!("Huffman table at index  {} not initialized", component.dc_huff_table)))?;
+
                                     stream.decode_prog_dc_first(reader, huff_table, data, &mut component.dc_pred)?;
                                 } else {
                                     stream.decode_prog_dc_refine(reader, data)?;
-- 
2.43.0


From 37b7dc83f2f50c99887cf5d659d746c1f981335e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:16 +0000
Subject: [PATCH 31/33] fix: report the scheme of unsupported frames, the
 marker number was looked up without its high bits

---
 src/decoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index 9888cbb..4b4d677 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -352,7 +352,7 @@ impl Decoder
             // Start of Frame Segments not supported
             Marker::SOF(v) =>
             {
-                let feature = UnsupportedSchemes::from_int(v);
+                let feature = UnsupportedSchemes::from_int(0xC0 + v);
 
                 if let Some(feature) = feature
                 {
-- 
2.43.0


From 2e5c0d5504ba745b855effacd620a0bbc75bb7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:16 +0000
Subject: [PATCH 32/33] fix: arithmetic overflow in the scalar IDCT for
 coefficients out of range (debug builds)

---
 src/idct/scalar.rs | 79 ++++++++++++++++++++++++----------------------
 1 file changed, 41 insertions(+), 38 deletions(-)

diff --git a/src/idct/scalar.rs b/src/idct/scalar.rs
index d2768a5..4513b88 100644
--- a/src/idct/scalar.rs
+++ b/src/idct/scalar.rs
@@ -1,9 +1,11 @@
 //! Platform independent IDCT algorithm
 //!
 //! Not as fast as AVX one.
+use std::num::Wrapping;
+
 use crate::misc::Aligned32;
 
-const SCALE_BITS: i32 = 512 + 65536 + (128 << 17);
+const SCALE_BITS: Wrapping<i32> = Wrapping(512 + 65536 + (128 << 17));
 
 /// Perform Integer IDCT
 /// and level shift (by adding 128 to each element)
@@ -25,7 +27,8 @@ pub fn dequantize_and_idct_int(
 
     let mut out_vector = vec![0; vector.len()];
 
-    let mut tmp = [0; 64];
+    // corrupt images may have coefficients this large that the sums overflow
+    let mut tmp = [Wrapping(0); 64];
 
     let chunks = vector.len() * v_samp / samp_factors;
     // calculate position
@@ -45,9 +48,9 @@ pub fn dequantize_and_idct_int(
             if &vector[1..] == &[0_i16; 63]
             {
                 // okay then if you work, yaay, let's write you really quick
-                let coeff = [clamp(
+                let coeff = [clamp(Wrapping(
                     i32::from(vector[0].wrapping_mul(qt_table.0[0] as i16) >> 3) + 128,
-                ); 8];
+                )); 8];
 
                 macro_rules! store {
                     ($index:tt) => {
@@ -84,11 +87,11 @@ pub fn dequantize_and_idct_int(
 
                     let p3 = dequantize(vector[ptr + 48], qt_table.0[ptr + 48]);
 
-                    let p1 = (p2 + p3).wrapping_mul(2217);
+                    let p1 = (p2 + p3) * Wrapping(2217);
 
-                    let t2 = p1 + p3 * -7567;
+                    let t2 = p1 + p3 * Wrapping(-7567);
 
-                    let t3 = p1 + p2 * 3135;
+                    let t3 = p1 + p2 * Wrapping(3135);
 
                     let p2 = dequantize(vector[ptr], qt_table.0[ptr]);
 
@@ -98,13 +101,13 @@ pub fn dequantize_and_idct_int(
 
                     let t1 = fsh(p2 - p3);
 
-                    let x0 = t0 + t3 + 512;
+                    let x0 = t0 + t3 + Wrapping(512);
 
-                    let x3 = t0 - t3 + 512;
+                    let x3 = t0 - t3 + Wrapping(512);
 
-                    let x1 = t1 + t2 + 512;
+                    let x1 = t1 + t2 + Wrapping(512);
 
-                    let x2 = t1 - t2 + 512;
+                    let x2 = t1 - t2 + Wrapping(512);
 
                     // odd part
                     let mut t0 = dequantize(vector[ptr + 56], qt_table.0[ptr + 56]);
@@ -123,23 +126,23 @@ pub fn dequantize_and_idct_int(
 
                     let p2 = t1 + t2;
 
-                    let p5 = (p3 + p4) * 4816;
+                    let p5 = (p3 + p4) * Wrapping(4816);
 
-                    t0 *= 1223;
+                    t0 *= Wrapping(1223);
 
-                    t1 *= 8410;
+                    t1 *= Wrapping(8410);
 
-                    t2 *= 12586;
+                    t2 *= Wrapping(12586);
 
-                    t3 *= 6149;
+                    t3 *= Wrapping(6149);
 
-                    let p1 = p5 + p1 * -3685;
+                    let p1 = p5 + p1 * Wrapping(-3685);
 
-                    let p2 = p5 + p2 * -10497;
+                    let p2 = p5 + p2 * Wrapping(-10497);
 
-                    let p3 = p3 * -8034;
+                    let p3 = p3 * Wrapping(-8034);
 
-                    let p4 = p4 * -1597;
+                    let p4 = p4 * Wrapping(-1597);
 
                     t3 += p1 + p4;
 
@@ -178,11 +181,11 @@ pub fn dequantize_and_idct_int(
 
                     let p3 = tmp[i + 6];
 
-                    let p1 = (p2 + p3) * 2217;
+                    let p1 = (p2 + p3) * Wrapping(2217);
 
-                    let t2 = p1 + p3 * -7567;
+                    let t2 = p1 + p3 * Wrapping(-7567);
 
-                    let t3 = p1 + p2 * 3135;
+                    let t3 = p1 + p2 * Wrapping(3135);
 
                     let p2 = tmp[i];
 
@@ -225,21 +228,21 @@ pub fn dequantize_and_idct_int(
 
                     let p5 = (p3 + p4) * f2f(1.175875602);
 
-                    t0 = t0.wrapping_mul(1223);
+                    t0 *= Wrapping(1223);
 
-                    t1 = t1.wrapping_mul(8410);
+                    t1 *= Wrapping(8410);
 
-                    t2 = t2.wrapping_mul(12586);
+                    t2 *= Wrapping(12586);
 
-                    t3 = t3.wrapping_mul(6149);
+                    t3 *= Wrapping(6149);
 
-                    let p1 = p5 + p1 * -3685;
+                    let p1 = p5 + p1 * Wrapping(-3685);
 
-                    let p2 = p5 + p2 * -10497;
+                    let p2 = p5 + p2 * Wrapping(-10497);
 
-                    let p3 = p3 * -8034;
+                    let p3 = p3 * Wrapping(-8034);
 
-                    let p4 = p4 * -1597;
+                    let p4 = p4 * Wrapping(-1597);
 
                     t3 += p1 + p4;
 
@@ -286,14 +289,14 @@ pub fn dequantize_and_idct_int(
 #[inline]
 #[allow(clippy::cast_possible_truncation)]
 /// Multiply a number by 4096
-fn f2f(x: f32) -> i32
+fn f2f(x: f32) -> Wrapping<i32>
 {
-    (x * 4096.0 + 0.5) as i32
+    Wrapping((x * 4096.0 + 0.5) as i32)
 }
 
 #[inline]
 /// Multiply a number by 4096
-fn fsh(x: i32) -> i32
+fn fsh(x: Wrapping<i32>) -> Wrapping<i32>
 {
     x << 12
 }
@@ -301,13 +304,13 @@ fn fsh(x: i32) -> i32
 /// Clamp values between 0 and 255
 #[inline]
 #[allow(clippy::cast_possible_truncation)]
-fn clamp(a: i32) -> i16
+fn clamp(a: Wrapping<i32>) -> i16
 {
-    a.max(0).min(255) as i16
+    a.0.max(0).min(255) as i16
 }
 
 #[inline]
-fn dequantize(a: i16, b: i32) -> i32
+fn dequantize(a: i16, b: i32) -> Wrapping<i32>
 {
-    i32::from(a) * b
+    Wrapping(i32::from(a) * b)
 }
-- 
2.43.0


From 64ee5147bb1c76859804ddcee3111f1baa467a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:16 +0000
Subject: [PATCH 33/33] fix: arithmetic overflow in refinement scans of corrupt
 images (debug builds)

---
 src/bitstream.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/bitstream.rs b/src/bitstream.rs
index 6df61d3..ff10f8c 100644
--- a/src/bitstream.rs
+++ b/src/bitstream.rs
@@ -575,11 +575,11 @@ impl BitStream
                         {
                             if *coefficient >= 0
                             {
-                                *coefficient += bit;
+                                *coefficient = coefficient.wrapping_add(bit);
                             }
                             else
                             {
-                                *coefficient -= bit;
+                                *coefficient = coefficient.wrapping_sub(bit);
                             }
                         }
 
@@ -636,11 +636,11 @@ impl BitStream
                         {
                             if *coefficient >= 0
                             {
-                                *coefficient += bit;
+                                *coefficient = coefficient.wrapping_add(bit);
                             }
                             else
                             {
-                                *coefficient -= bit;
+                                *coefficient = coefficient.wrapping_sub(bit);
                             }
                         }
                     }
-- 
2.43.0

