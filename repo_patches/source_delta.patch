From 56a31721491c4b500763b637bc52deb011350c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:30 +0000
Subject: [PATCH 01/27] fix: 10-bit packed samples took the third pixel's low
 bits from the wrong byte

---
 src/decoders/packed.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decoders/packed.rs b/src/decoders/packed.rs
index 0b270d6..fc7a18e 100644
--- a/src/decoders/packed.rs
+++ b/src/decoders/packed.rs
@@ -52,7 +52,7 @@ pub fn decode_10le(buf: &[u8], width: usize, height: usize) -> Vec<u16> {
 
       o[0] = g1 << 2  | g2 >> 6;
       o[1] = (g2 & 0x3f) << 4 | g3 >> 4;
-      o[2] = (g3 & 0x0f) << 6 | g3 >> 2;
+      o[2] = (g3 & 0x0f) << 6 | g4 >> 2;
       o[3] = (g4 & 0x03) << 8 | g5;
     }
   }))
-- 
2.43.0


From bae00840d166923d0af307f5020251a88c2f841f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:30 +0000
Subject: [PATCH 02/27] fix: 3-component images were read with a one-component
 row stride when cropping

---
 src/imageops/gofloat.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/imageops/gofloat.rs b/src/imageops/gofloat.rs
index dc1d483..9e39976 100644
--- a/src/imageops/gofloat.rs
+++ b/src/imageops/gofloat.rs
@@ -24,7 +24,7 @@ pub fn convert(img: &RawImage) -> OpBuffer {
     // We're in an RGB image, turn it into four channel
     let mut out = OpBuffer::new(width, height, 4);
     out.mutate_lines(&(|line: &mut [f32], row| {
-      for (o, i) in line.chunks_mut(4).zip(img.data[img.width*(row+y)+x..].chunks(3)) {
+      for (o, i) in line.chunks_mut(4).zip(img.data[(img.width*(row+y)+x)*3..].chunks(3)) {
         o[0] = i[0] as f32;
         o[1] = i[1] as f32;
         o[2] = i[2] as f32;
-- 
2.43.0


From 1957585e4659dae73c8a894feb1411e467bf3152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:30 +0000
Subject: [PATCH 03/27] fix: downscaling used the horizontal ratio for rows and
 the vertical one for columns

---
 src/imageops/demosaic.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/imageops/demosaic.rs b/src/imageops/demosaic.rs
index b8de1ce..24bd0dd 100644
--- a/src/imageops/demosaic.rs
+++ b/src/imageops/demosaic.rs
@@ -97,8 +97,8 @@ pub fn scaled(img: &RawImage, buf: &OpBuffer, nwidth: usize, nheight: usize) ->
   let mut out = OpBuffer::new(nwidth, nheight, 4);
   let crop_cfa = img.cropped_cfa();
 
-  let rowskip = (buf.width as f32) / (nwidth as f32);
-  let colskip = (buf.height as f32) / (nheight as f32);
+  let rowskip = (buf.height as f32) / (nheight as f32);
+  let colskip = (buf.width as f32) / (nwidth as f32);
 
   // Go around the image averaging blocks of pixels
   out.mutate_lines(&(|line: &mut [f32], row| {
@@ -133,8 +133,8 @@ pub fn scaled(img: &RawImage, buf: &OpBuffer, nwidth: usize, nheight: usize) ->
 
 pub fn scale_down(buf: &OpBuffer, nwidth: usize, nheight: usize) -> OpBuffer {
   let mut out = OpBuffer::new(nwidth, nheight, buf.colors);
-  let rowskip = (buf.width as f32) / (nwidth as f32);
-  let colskip = (buf.height as f32) / (nheight as f32);
+  let rowskip = (buf.height as f32) / (nheight as f32);
+  let colskip = (buf.width as f32) / (nwidth as f32);
 
   // Go around the image averaging blocks of pixels
   out.mutate_lines(&(|line: &mut [f32], row| {
-- 
2.43.0


From a214e33cdf33bec1eb9aad8a5a60d2db2082d6bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:30 +0000
Subject: [PATCH 04/27] fix: downscaling a very wide or very tall image
 computed an empty output and panicked

---
 src/imageops/demosaic.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/imageops/demosaic.rs b/src/imageops/demosaic.rs
index 24bd0dd..37f6105 100644
--- a/src/imageops/demosaic.rs
+++ b/src/imageops/demosaic.rs
@@ -10,9 +10,9 @@ pub fn demosaic_and_scale(img: &RawImage, buf: &OpBuffer, maxwidth: usize, maxhe
     let xscale = (buf.width as f32) / (maxwidth as f32);
     let yscale = (buf.height as f32) / (maxheight as f32);
     if yscale > xscale {
-      (yscale, ((buf.width as f32)/yscale) as usize, maxheight)
+      (yscale, cmp::max(1, ((buf.width as f32)/yscale) as usize), maxheight)
     } else {
-      (xscale, maxwidth, ((buf.height as f32)/xscale) as usize)
+      (xscale, maxwidth, cmp::max(1, ((buf.height as f32)/xscale) as usize))
     }
   };
 
-- 
2.43.0


From f62d8a4c6c595a17a8c7d7ea5edf1b5874540df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:30 +0000
Subject: [PATCH 05/27] fix: MRW block lengths near 2^32 wrapped around and
 looped forever

---
 src/decoders/mrw.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decoders/mrw.rs b/src/decoders/mrw.rs
index 049a74f..d38b8c7 100644
--- a/src/decoders/mrw.rs
+++ b/src/decoders/mrw.rs
@@ -52,7 +52,7 @@ impl<'a> MrwDecoder<'a> {
         }
         _ => {}
       }
-      currpos += (len+8) as usize;
+      currpos += len as usize + 8;
     }
 
     MrwDecoder { 
-- 
2.43.0


From 2989b4d17f9c5e65a88b69ba325ada30ca0d3a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:52 +0000
Subject: [PATCH 06/27] fix: clamping to fewer than 16 bits turned too large
 values into 65535

---
 src/decoders/basics.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/decoders/basics.rs b/src/decoders/basics.rs
index cd1ef7d..a20f54d 100644
--- a/src/decoders/basics.rs
+++ b/src/decoders/basics.rs
@@ -8,9 +8,11 @@ pub use decoders::packed::*;
 pub use decoders::pumps::*;
 
 pub fn clampbits(val: i32, bits: u32) -> i32 {
-  let temp = val >> bits;
-  if temp != 0 {
-    !temp >> (32-bits)
+  let max = (1 << bits) - 1;
+  if val < 0 {
+    0
+  } else if val > max {
+    max
   } else {
     val
   }
-- 
2.43.0


From ec485ef8d6e980da44ef848fd5c3621e4761a272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:26 +0000
Subject: [PATCH 07/27] fix: category 16 Huffman codes were matched and
 consumed beyond the bits that were looked at

---
 src/decoders/ljpeg/huffman.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/decoders/ljpeg/huffman.rs b/src/decoders/ljpeg/huffman.rs
index 9d128cb..1b5e4ff 100644
--- a/src/decoders/ljpeg/huffman.rs
+++ b/src/decoders/ljpeg/huffman.rs
@@ -234,12 +234,9 @@ impl HuffTable {
         }
       }
 
-      if rv == 16 {
-        self.bigtable[i] = if self.dng_bug {
-          (-(32768 << 8)) | (16 + l as i32)
-        } else {
-          (-(32768 << 8)) | l as i32
-        };
+      // Only when the whole code has been seen and no bits need to be skipped after it
+      if rv == 16 && !self.dng_bug && l <= BIG_TABLE_BITS {
+        self.bigtable[i] = (-(32768 << 8)) | l as i32;
         continue
       }
 
-- 
2.43.0


From 42fcbe428079bc0103ae079b26917d3e623039f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:48 +0000
Subject: [PATCH 08/27] fix: legal Huffman codes longer than the sample
 precision were rejected

---
 src/decoders/ljpeg/huffman.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/decoders/ljpeg/huffman.rs b/src/decoders/ljpeg/huffman.rs
index 1b5e4ff..87ae86c 100644
--- a/src/decoders/ljpeg/huffman.rs
+++ b/src/decoders/ljpeg/huffman.rs
@@ -223,7 +223,7 @@ impl HuffTable {
         }
 
         //With garbage input we may reach the sentinel value l = 17.
-        if l > self.precision as u32 || self.valptr[l as usize] == 0xff {
+        if code > self.maxcode[l as usize] || self.valptr[l as usize] == 0xff {
           self.bigtable[i] = 0xff;
           continue
         } else {
@@ -292,7 +292,7 @@ impl HuffTable {
     }
 
     // With garbage input we may reach the sentinel value l = 17.
-    if l > self.precision || self.valptr[l] == 0xff {
+    if l > 16 || self.valptr[l] == 0xff {
       return Err(format!("ljpeg: bad Huffman code: {}", l).to_string())
     } else {
       return Ok(self.huffval[
-- 
2.43.0


From 381628ecfde2350c74f74f45b9ee94eff4002ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:48 +0000
Subject: [PATCH 09/27] fix: 4-component lossless JPEG tiles were all decoded
 into the first column of tiles

---
 src/decoders/ljpeg/decompressors.rs | 28 ++++++++++++++--------------
 src/decoders/ljpeg/mod.rs           |  2 +-
 2 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/decoders/ljpeg/decompressors.rs b/src/decoders/ljpeg/decompressors.rs
index 430e71f..e50d6bb 100644
--- a/src/decoders/ljpeg/decompressors.rs
+++ b/src/decoders/ljpeg/decompressors.rs
@@ -92,7 +92,7 @@ pub fn decode_ljpeg_3components(ljpeg: &LjpegDecompressor, out: &mut [u16], x: u
   Ok(())
 }
 
-pub fn decode_ljpeg_4components(ljpeg: &LjpegDecompressor, out: &mut [u16], width: usize, height: usize) -> Result<(),String> {
+pub fn decode_ljpeg_4components(ljpeg: &LjpegDecompressor, out: &mut [u16], x: usize, stripwidth:usize, width: usize, height: usize) -> Result<(),String> {
   if ljpeg.sof.width*4 < width || ljpeg.sof.height < height {
     return Err(format!("ljpeg: trying to decode {}x{} into {}x{}",
                        ljpeg.sof.width*4, ljpeg.sof.height,
@@ -105,21 +105,21 @@ pub fn decode_ljpeg_4components(ljpeg: &LjpegDecompressor, out: &mut [u16], widt
   let mut pump = BitPumpJPEG::new(ljpeg.buffer);
 
   let base_prediction = 1 << (ljpeg.sof.precision - ljpeg.point_transform -1);
-  out[0] = (base_prediction + try!(htable1.huff_decode(&mut pump))) as u16;
-  out[1] = (base_prediction + try!(htable2.huff_decode(&mut pump))) as u16;
-  out[2] = (base_prediction + try!(htable3.huff_decode(&mut pump))) as u16;
-  out[3] = (base_prediction + try!(htable4.huff_decode(&mut pump))) as u16;
+  out[x]   = (base_prediction + try!(htable1.huff_decode(&mut pump))) as u16;
+  out[x+1] = (base_prediction + try!(htable2.huff_decode(&mut pump))) as u16;
+  out[x+2] = (base_prediction + try!(htable3.huff_decode(&mut pump))) as u16;
+  out[x+3] = (base_prediction + try!(htable4.huff_decode(&mut pump))) as u16;
   let skip_x = ljpeg.sof.width - width/4;
 
   for row in 0..height {
-    let startcol = if row == 0 {4} else {0};
-    for col in (startcol..width).step(4) {
-      let pos = if col == 0 {
+    let startcol = if row == 0 {x+4} else {x};
+    for col in (startcol..(width+x)).step(4) {
+      let pos = if col == x {
         // At start of line predictor starts with start of previous line
-        (row-1)*width
+        (row-1)*stripwidth+x
       } else {
         // All other cases use the two previous pixels in the same line
-        row*width+col-4
+        row*stripwidth+col-4
       };
 
       let (p1,p2,p3,p4) = (out[pos],out[pos+1],out[pos+2],out[pos+3]);
@@ -128,10 +128,10 @@ pub fn decode_ljpeg_4components(ljpeg: &LjpegDecompressor, out: &mut [u16], widt
       let diff2 = try!(htable2.huff_decode(&mut pump));
       let diff3 = try!(htable3.huff_decode(&mut pump));
       let diff4 = try!(htable4.huff_decode(&mut pump));
-      out[row*width+col] = ((p1 as i32) + diff1) as u16;
-      out[row*width+col+1] = ((p2 as i32) + diff2) as u16;
-      out[row*width+col+2] = ((p3 as i32) + diff3) as u16;
-      out[row*width+col+3] = ((p4 as i32) + diff4) as u16;
+      out[row*stripwidth+col] = ((p1 as i32) + diff1) as u16;
+      out[row*stripwidth+col+1] = ((p2 as i32) + diff2) as u16;
+      out[row*stripwidth+col+2] = ((p3 as i32) + diff3) as u16;
+      out[row*stripwidth+col+3] = ((p4 as i32) + diff4) as u16;
     }
     // Skip extra encoded differences if the ljpeg frame is wider than the output
     for _ in 0..skip_x {
diff --git a/src/decoders/ljpeg/mod.rs b/src/decoders/ljpeg/mod.rs
index 5e0e0f5..b4421a4 100644
--- a/src/decoders/ljpeg/mod.rs
+++ b/src/decoders/ljpeg/mod.rs
@@ -256,7 +256,7 @@ impl<'a> LjpegDecompressor<'a> {
         match self.sof.cps {
           2 => decode_ljpeg_2components(self, out, x, stripwidth, width, height),
           3 => decode_ljpeg_3components(self, out, x, stripwidth, width, height),
-          4 => decode_ljpeg_4components(self, out, width, height),
+          4 => decode_ljpeg_4components(self, out, x, stripwidth, width, height),
           c => return Err(format!("ljpeg: {} component files not supported", c).to_string()),
         }
       },
-- 
2.43.0


From 9406d823bd98e2cf7a59ff487e43390a4941ba47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:04 +0000
Subject: [PATCH 10/27] fix: big-endian DNG files with 16-bit uncompressed
 samples were read byte-swapped

---
 src/decoders/dng.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/decoders/dng.rs b/src/decoders/dng.rs
index 98aab16..ccabbf9 100644
--- a/src/decoders/dng.rs
+++ b/src/decoders/dng.rs
@@ -156,7 +156,11 @@ impl<'a> DngDecoder<'a> {
     let src = &self.buffer[offset..];
 
     match fetch_tag!(raw, Tag::BitsPerSample).get_u32(0) {
-      16  => Ok(decode_16le(src, width, height)),
+      16  => Ok(if raw.little_endian() {
+        decode_16le(src, width, height)
+      } else {
+        decode_16be(src, width, height)
+      }),
       12  => Ok(decode_12be(src, width, height)),
       10  => Ok(decode_10le(src, width, height)),
       8   => {
-- 
2.43.0


From 07e13df81dfdeb1b7e7b5e8c925cba128a4876ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:29 +0000
Subject: [PATCH 11/27] fix: steep or non-monotonic linearization tables
 underflowed

---
 src/decoders/basics.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/decoders/basics.rs b/src/decoders/basics.rs
index a20f54d..02febac 100644
--- a/src/decoders/basics.rs
+++ b/src/decoders/basics.rs
@@ -114,8 +114,8 @@ impl LookupTable {
       let center = table[i];
       let lower = if i > 0 {table[i-1]} else {center};
       let upper = if i < (table.len()-1) {table[i+1]} else {center};
-      let base = if center == 0 {0} else {center - ((upper - lower + 2) / 4)};
-      let delta = upper - lower;
+      let delta = upper.saturating_sub(lower);
+      let base = if center == 0 {0} else {center.saturating_sub(((delta as u32 + 2) / 4) as u16)};
       tbl[i] = (center, base, delta);
     }
     LookupTable {
-- 
2.43.0


From eceb67bda1c4015b09e01c955b60aa756dcf67ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:29 +0000
Subject: [PATCH 12/27] fix: dithering next to the top of a 16-bit
 linearization table wrapped white to black

---
 src/decoders/basics.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decoders/basics.rs b/src/decoders/basics.rs
index 02febac..dd84f75 100644
--- a/src/decoders/basics.rs
+++ b/src/decoders/basics.rs
@@ -134,6 +134,6 @@ impl LookupTable {
     let delta = sdelta as u32;
     let pixel = base + ((delta * (*rand & 2047) + 1024) >> 12);
     *rand = 15700 * (*rand & 65535) + (*rand >> 16);
-    pixel as u16
+    if pixel > 65535 { 65535 } else { pixel as u16 }
   }
 }
-- 
2.43.0


From f75751782d2aef40b5e150f281b02a8d5b9733a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:45 +0000
Subject: [PATCH 13/27] fix: CR2 files whose tags disagree with the compressed
 frame gave an image with the wrong number of samples

---
 src/decoders/cr2.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/decoders/cr2.rs b/src/decoders/cr2.rs
index f8f2688..66628b0 100644
--- a/src/decoders/cr2.rs
+++ b/src/decoders/cr2.rs
@@ -142,6 +142,10 @@ impl<'a> Decoder for Cr2Decoder<'a> {
       }
     };
 
+    if image.len() != width*height {
+      return Err(format!("CR2: {} samples don't make a {}x{} image", image.len(), width, height).to_string())
+    }
+
     let wb = self.get_wb(&camera)?;
     let mut img = RawImage::new(camera, width, height, wb, image);
     if cpp == 3 {
-- 
2.43.0


From 4b51ff8fb2421c800d67d92ed7df92c60fb7e4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:20 +0000
Subject: [PATCH 14/27] fix: absurd image dimensions in corrupt files aborted
 the process for lack of memory

---
 src/decoders/arw.rs    |  4 ++--
 src/decoders/basics.rs | 13 +++++++++++--
 src/decoders/cr2.rs    |  4 ++--
 src/decoders/crw.rs    |  2 +-
 src/decoders/dcr.rs    |  2 +-
 src/decoders/dng.rs    |  2 +-
 src/decoders/mos.rs    |  2 +-
 src/decoders/nef.rs    |  2 +-
 src/decoders/orf.rs    |  2 +-
 src/decoders/packed.rs |  4 ++--
 src/decoders/pef.rs    |  2 +-
 src/decoders/raf.rs    |  4 ++--
 src/decoders/srw.rs    |  6 +++---
 src/decoders/tfr.rs    |  3 ++-
 14 files changed, 31 insertions(+), 21 deletions(-)

diff --git a/src/decoders/arw.rs b/src/decoders/arw.rs
index aeccb3b..5047a16 100644
--- a/src/decoders/arw.rs
+++ b/src/decoders/arw.rs
@@ -141,7 +141,7 @@ impl<'a> ArwDecoder<'a> {
 
   fn decode_arw1(buf: &[u8], width: usize, height: usize) -> Vec<u16> {
     let mut pump = BitPumpMSB::new(buf);
-    let mut out: Vec<u16> = vec![0; width*height];
+    let mut out: Vec<u16> = alloc_image(width, height);
 
     let mut sum: i32 = 0;
     for x in 0..width {
@@ -259,7 +259,7 @@ impl<'a> ArwDecoder<'a> {
       pad[p] = u32::from_be(pad[p]);
     }
 
-    let mut out = Vec::with_capacity(length+4);
+    let mut out = Vec::with_capacity(cmp::min(length, buf.len())+4);
     for i in 0..(length/4+1) {
       let p = i + 127;
       pad[p & 127] = pad[(p+1) & 127] ^ pad[(p+1+64) & 127];
diff --git a/src/decoders/basics.rs b/src/decoders/basics.rs
index dd84f75..beadc92 100644
--- a/src/decoders/basics.rs
+++ b/src/decoders/basics.rs
@@ -82,10 +82,19 @@ pub static LITTLE_ENDIAN: Endian = Endian{big: false};
   LittleEndian::read_u16(&buf[pos..pos+2])
 }
 
+// Allocate the samples of an image. Corrupt files can declare any size and failing to
+// allocate memory would abort the whole process so refuse sizes that no camera has.
+pub fn alloc_image(width: usize, height: usize) -> Vec<u16> {
+  match width.checked_mul(height) {
+    Some(size) if size <= 500_000_000 => vec![0; size],
+    _ => panic!("Surely there's no such thing as a {}x{} image", width, height),
+  }
+}
+
 pub fn decode_threaded<F>(width: usize, height: usize, closure: &F) -> Vec<u16>
   where F : Fn(&mut [u16], usize)+Sync {
 
-  let mut out: Vec<u16> = vec![0; width*height];
+  let mut out: Vec<u16> = alloc_image(width, height);
   out.par_chunks_mut(width).enumerate().for_each(|(row, line)| {
     closure(line, row);
   });
@@ -95,7 +104,7 @@ pub fn decode_threaded<F>(width: usize, height: usize, closure: &F) -> Vec<u16>
 pub fn decode_threaded_multiline<F>(width: usize, height: usize, lines: usize, closure: &F) -> Vec<u16>
   where F : Fn(&mut [u16], usize)+Sync {
 
-  let mut out: Vec<u16> = vec![0; width*height];
+  let mut out: Vec<u16> = alloc_image(width, height);
   out.par_chunks_mut(width*lines).enumerate().for_each(|(row, line)| {
     closure(line, row*lines);
   });
diff --git a/src/decoders/cr2.rs b/src/decoders/cr2.rs
index 66628b0..7e49989 100644
--- a/src/decoders/cr2.rs
+++ b/src/decoders/cr2.rs
@@ -44,7 +44,7 @@ impl<'a> Decoder for Cr2Decoder<'a> {
       let mut width = ljpegwidth;
       let mut height = decompressor.height();
       let cpp = if decompressor.super_h() == 2 {3} else {1};
-      let mut ljpegout = vec![0 as u16; width*height];
+      let mut ljpegout = alloc_image(width, height);
       try!(decompressor.decode(&mut ljpegout, 0, width, width, height));
 
       // Linearize the output (applies only to D2000 as far as I can tell)
@@ -87,7 +87,7 @@ impl<'a> Decoder for Cr2Decoder<'a> {
         if canoncol.get_usize(0) == 0 {
           (width, height, cpp, ljpegout)
         } else {
-          let mut out = vec![0 as u16; width*height];
+          let mut out = alloc_image(width, height);
           let mut fieldwidths = Vec::new();
           for _ in 0..canoncol.get_usize(0) {
             fieldwidths.push(canoncol.get_usize(1));
diff --git a/src/decoders/crw.rs b/src/decoders/crw.rs
index 88777d6..d05e1a9 100644
--- a/src/decoders/crw.rs
+++ b/src/decoders/crw.rs
@@ -189,7 +189,7 @@ impl<'a> CrwDecoder<'a> {
   }
 
   fn decode_compressed(&self, cam: &Camera, width: usize, height: usize) -> Result<Vec<u16>,String> {
-    let mut out = vec![0 as u16; width*height];
+    let mut out = alloc_image(width, height);
 
     let dectable = fetch_tag!(self.ciff, CiffTag::DecoderTable).get_usize(0);
     if dectable > 2 {
diff --git a/src/decoders/dcr.rs b/src/decoders/dcr.rs
index e18b32a..0fc1a30 100644
--- a/src/decoders/dcr.rs
+++ b/src/decoders/dcr.rs
@@ -61,7 +61,7 @@ impl<'a> DcrDecoder<'a> {
   }
 
   fn decode_kodak65000(buf: &[u8], curve: &LookupTable, width: usize, height: usize) -> Vec<u16> {
-    let mut out: Vec<u16> = vec![0; width*height];
+    let mut out: Vec<u16> = alloc_image(width, height);
     let mut input = ByteStream::new(buf, LITTLE_ENDIAN);
 
     let mut random: u32 = 0;
diff --git a/src/decoders/dng.rs b/src/decoders/dng.rs
index ccabbf9..f0957e2 100644
--- a/src/decoders/dng.rs
+++ b/src/decoders/dng.rs
@@ -186,7 +186,7 @@ impl<'a> DngDecoder<'a> {
       }
       let offset = offsets.get_usize(0);
       let src = &self.buffer[offset..];
-      let mut out = vec![0 as u16; width*height];
+      let mut out = alloc_image(width, height);
       let decompressor = try!(LjpegDecompressor::new(src));
       try!(decompressor.decode(&mut out, 0, width, width, height));
       Ok(out)
diff --git a/src/decoders/mos.rs b/src/decoders/mos.rs
index 27ba117..7c957d1 100644
--- a/src/decoders/mos.rs
+++ b/src/decoders/mos.rs
@@ -89,7 +89,7 @@ impl<'a> MosDecoder<'a> {
     let decompressor = try!(LjpegDecompressor::new_full(src, true, true));
     let ljpegout = try!(decompressor.decode_leaf(width, height));
     if cam.find_hint("interlaced") {
-      let mut out = vec![0 as u16; width*height];
+      let mut out = alloc_image(width, height);
       for (row,line) in ljpegout.chunks(width).enumerate() {
         let orow = if row & 1 == 1 {height-1-row/2} else {row/2};
         out[orow*width .. (orow+1)*width].copy_from_slice(line);
diff --git a/src/decoders/nef.rs b/src/decoders/nef.rs
index 894402c..b632b71 100644
--- a/src/decoders/nef.rs
+++ b/src/decoders/nef.rs
@@ -285,7 +285,7 @@ impl<'a> NefDecoder<'a> {
     }
     let curve = LookupTable::new(&points[0..max]);
 
-    let mut out = vec![0 as u16; width * height];
+    let mut out = alloc_image(width, height);
     let mut pump = BitPumpMSB::new(src);
     let mut random = pump.peek_bits(24);
 
diff --git a/src/decoders/orf.rs b/src/decoders/orf.rs
index 2ab2802..86e6245 100644
--- a/src/decoders/orf.rs
+++ b/src/decoders/orf.rs
@@ -67,7 +67,7 @@ impl<'a> OrfDecoder<'a> {
    */
 
   pub fn decode_compressed(buf: &'a [u8], width: usize, height: usize) -> Vec<u16> {
-    let mut out: Vec<u16> = vec![0; width*height];
+    let mut out: Vec<u16> = alloc_image(width, height);
 
     /* Build a table to quickly look up "high" value */
     let mut bittable: [u8; 4096] = [0; 4096];
diff --git a/src/decoders/packed.rs b/src/decoders/packed.rs
index fc7a18e..25671dc 100644
--- a/src/decoders/packed.rs
+++ b/src/decoders/packed.rs
@@ -74,7 +74,7 @@ pub fn decode_12be(buf: &[u8], width: usize, height: usize) -> Vec<u16> {
 }
 
 pub fn decode_12be_msb16(buf: &[u8], width: usize, height: usize) -> Vec<u16> {
-  let mut out: Vec<u16> = vec![0; width*height];
+  let mut out: Vec<u16> = alloc_image(width, height);
 
   for (o, i) in out.chunks_mut(4).zip(buf.chunks(6)) {
     let g1:  u16 = i[ 0] as u16;
@@ -109,7 +109,7 @@ pub fn decode_12le_16bitaligned(buf: &[u8], width: usize, height: usize) -> Vec<
 }
 
 pub fn decode_12be_msb32(buf: &[u8], width: usize, height: usize) -> Vec<u16> {
-  let mut out: Vec<u16> = vec![0; width*height];
+  let mut out: Vec<u16> = alloc_image(width, height);
 
   for (o, i) in out.chunks_mut(8).zip(buf.chunks(12)) {
     let g1:  u16 = i[ 0] as u16;
diff --git a/src/decoders/pef.rs b/src/decoders/pef.rs
index 2150809..6bd74c5 100644
--- a/src/decoders/pef.rs
+++ b/src/decoders/pef.rs
@@ -121,7 +121,7 @@ impl<'a> PefDecoder<'a> {
     let mut pred_left1: i32;
     let mut pred_left2: i32;
 
-    let mut out = vec![0 as u16; width*height];
+    let mut out = alloc_image(width, height);
     for row in 0..height {
       pred_up1[row & 1] += try!(htable.huff_decode(&mut pump));
       pred_up2[row & 1] += try!(htable.huff_decode(&mut pump));
diff --git a/src/decoders/raf.rs b/src/decoders/raf.rs
index ae8dae2..b29ed5b 100644
--- a/src/decoders/raf.rs
+++ b/src/decoders/raf.rs
@@ -109,7 +109,7 @@ impl<'a> RafDecoder<'a> {
       let rotatedwidth = cropheight + cropwidth/2;
       let rotatedheight = rotatedwidth-1;
 
-      let mut out: Vec<u16> = vec![0; rotatedwidth * rotatedheight];
+      let mut out: Vec<u16> = alloc_image(rotatedwidth, rotatedheight);
       for row in 0..cropheight {
         let inb = &src[(row+y)*width+x..];
         for col in 0..cropwidth {
@@ -124,7 +124,7 @@ impl<'a> RafDecoder<'a> {
       let rotatedwidth = cropwidth + cropheight/2;
       let rotatedheight = rotatedwidth-1;
 
-      let mut out: Vec<u16> = vec![0; rotatedwidth * rotatedheight];
+      let mut out: Vec<u16> = alloc_image(rotatedwidth, rotatedheight);
       for row in 0..cropheight {
         let inb = &src[(row+y)*width+x..];
         for col in 0..cropwidth {
diff --git a/src/decoders/srw.rs b/src/decoders/srw.rs
index 5d6c494..ebd24a6 100644
--- a/src/decoders/srw.rs
+++ b/src/decoders/srw.rs
@@ -74,7 +74,7 @@ impl<'a> Decoder for SrwDecoder<'a> {
 
 impl<'a> SrwDecoder<'a> {
   pub fn decode_srw1(buf: &[u8], loffsets: &[u8], width: usize, height: usize) -> Vec<u16> {
-    let mut out: Vec<u16> = vec![0; width*height];
+    let mut out: Vec<u16> = alloc_image(width, height);
 
     for row in 0..height {
       let mut len: [u32; 4] = [if row < 2 {7} else {4}; 4];
@@ -141,7 +141,7 @@ impl<'a> SrwDecoder<'a> {
   }
 
   pub fn decode_srw2(buf: &[u8], width: usize, height: usize) -> Vec<u16> {
-    let mut out: Vec<u16> = vec![0; width*height];
+    let mut out: Vec<u16> = alloc_image(width, height);
 
     // This format has a variable length encoding of how many bits are needed
     // to encode the difference between pixels, we use a table to process it
@@ -213,7 +213,7 @@ impl<'a> SrwDecoder<'a> {
     // and Loring von Palleske (Samsung) for pointing to the open-source code of
     // Samsung's DNG converter at http://opensource.samsung.com/
 
-    let mut out: Vec<u16> = vec![0; width*height];
+    let mut out: Vec<u16> = alloc_image(width, height);
     let mut pump = BitPumpMSB32::new(buf);
 
     // Process the initial metadata bits, we only really use initVal, width and
diff --git a/src/decoders/tfr.rs b/src/decoders/tfr.rs
index 339be38..013bc09 100644
--- a/src/decoders/tfr.rs
+++ b/src/decoders/tfr.rs
@@ -1,5 +1,6 @@
 use decoders::*;
 use decoders::tiff::*;
+use decoders::basics::*;
 use decoders::ljpeg::*;
 use std::f32::NAN;
 
@@ -41,7 +42,7 @@ impl<'a> TfrDecoder<'a> {
   }
 
   fn decode_compressed(&self, src: &[u8], width: usize, height: usize) -> Result<Vec<u16>,String> {
-    let mut out = vec![0 as u16; width*height];
+    let mut out = alloc_image(width, height);
     let decompressor = try!(LjpegDecompressor::new_full(src, true, false));
     try!(decompressor.decode(&mut out, 0, width, width, height));
     Ok(out)
-- 
2.43.0


From 6af8f15086f042d1bbc4fb6c652aafdcc5621dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:44 +0000
Subject: [PATCH 15/27] fix: nested TIFF directories that point at each other
 took exponential time to read

---
 src/decoders/tiff.rs | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/decoders/tiff.rs b/src/decoders/tiff.rs
index 8984cac..2015a0f 100644
--- a/src/decoders/tiff.rs
+++ b/src/decoders/tiff.rs
@@ -119,8 +119,12 @@ pub struct TiffIFD<'a> {
   nextifd: usize,
   start_offset: usize,
   endian: Endian,
+  total: usize, // number of IFDs tried while reading this one
 }
 
+// Never try to read more IFDs than this in total, nested ones included
+const MAX_IFDS: usize = 1000;
+
 impl<'a> TiffIFD<'a> {
   pub fn new_file(buf: &'a[u8]) -> Result<TiffIFD<'a>, String> {
     if buf[0..8] == b"FUJIFILM"[..] {
@@ -155,6 +159,7 @@ impl<'a> TiffIFD<'a> {
         nextifd: 0,
         start_offset: 0,
         endian: endian,
+        total: 0,
       })
     } else {
       TiffIFD::new_root(buf, 0)
@@ -170,11 +175,13 @@ impl<'a> TiffIFD<'a> {
       x => {return Err(format!("TIFF: don't know marker 0x{:x}", x).to_string())},
     };
     let mut nextifd = endian.ru32(buf, offset+4) as usize;
+    let mut total = 0;
     for _ in 0..100 { // Never read more than 100 IFDs
       let ifd = try!(TiffIFD::new(&buf[offset..], nextifd, 0, offset, 0, endian));
       nextifd = ifd.nextifd;
+      total += ifd.total;
       subifds.push(ifd);
-      if nextifd == 0 {
+      if nextifd == 0 || total > MAX_IFDS {
         break
       }
     }
@@ -185,12 +192,14 @@ impl<'a> TiffIFD<'a> {
       nextifd: 0,
       start_offset: offset,
       endian: endian,
+      total: total,
     })
   }
 
   pub fn new(buf: &'a[u8], offset: usize, base_offset: usize, start_offset: usize, depth: u32, e: Endian) -> Result<TiffIFD<'a>, String> {
     let mut entries = HashMap::new();
     let mut subifds = Vec::new();
+    let mut total = 1;
 
     let num = e.ru16(buf, offset); // Directory entries in this IFD
     if num > 4000 {
@@ -211,19 +220,20 @@ impl<'a> TiffIFD<'a> {
       || entry.tag == t(Tag::KdcIFD) {
         if depth < 10 { // Avoid infinite looping IFDs
           for i in 0..entry.count {
+            if total > MAX_IFDS { break }
             let ifd = TiffIFD::new(buf, entry.get_u32(i as usize) as usize, base_offset, start_offset, depth+1, e);
             match ifd {
-              Ok(val) => {subifds.push(val);},
-              Err(_) => {entries.insert(entry.tag, entry);}, // Ignore unparsable IFDs
+              Ok(val) => {total += val.total; subifds.push(val);},
+              Err(_) => {total += 1; entries.insert(entry.tag, entry);}, // Ignore unparsable IFDs
             }
           }
         }
       } else if entry.tag == t(Tag::Makernote) {
-        if depth < 10 { // Avoid infinite looping IFDs
+        if depth < 10 && total <= MAX_IFDS { // Avoid infinite looping IFDs
           let ifd = TiffIFD::new_makernote(buf, entry.doffset(), base_offset, depth+1, e);
           match ifd {
-            Ok(val) => {subifds.push(val);},
-            Err(_) => {entries.insert(entry.tag, entry);}, // Ignore unparsable IFDs
+            Ok(val) => {total += val.total; subifds.push(val);},
+            Err(_) => {total += 1; entries.insert(entry.tag, entry);}, // Ignore unparsable IFDs
           }
         }
       } else {
@@ -237,6 +247,7 @@ impl<'a> TiffIFD<'a> {
       nextifd: e.ru32(buf, offset + (2+num*12) as usize) as usize,
       start_offset: start_offset,
       endian: e,
+      total: total,
     })
   }
 
@@ -328,6 +339,7 @@ impl<'a> TiffIFD<'a> {
       nextifd: 0,
       start_offset: 0,
       endian: BIG_ENDIAN,
+      total: 1,
     })
   }
 
-- 
2.43.0


From 935bd1cd27e77ff508beaad7ddc18f90bc0a5a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:47 +0000
Subject: [PATCH 16/27] fix: nested CIFF directories that contain each other
 took exponential time to read

---
 src/decoders/ciff.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/decoders/ciff.rs b/src/decoders/ciff.rs
index 7ffdde1..cc0bc76 100644
--- a/src/decoders/ciff.rs
+++ b/src/decoders/ciff.rs
@@ -48,10 +48,11 @@ pub fn is_ciff(buf: &[u8]) -> bool {
 impl<'a> CiffIFD<'a> {
   pub fn new_file(buf: &'a Buffer) -> Result<CiffIFD<'a>,String> {
     let data = &buf.buf;
-    CiffIFD::new(data, LEu32(data,2) as usize, buf.size, 1)
+    // Never try to read more than 1000 IFDs in total, nested ones included
+    CiffIFD::new(data, LEu32(data,2) as usize, buf.size, 1, &mut 1000)
   }
 
-  pub fn new(buf: &'a[u8], start: usize, end: usize, depth: u32) -> Result<CiffIFD<'a>, String> {
+  pub fn new(buf: &'a[u8], start: usize, end: usize, depth: u32, budget: &mut usize) -> Result<CiffIFD<'a>, String> {
     let mut entries = HashMap::new();
     let mut subifds = Vec::new();
 
@@ -62,8 +63,9 @@ impl<'a> CiffIFD<'a> {
       let entry_offset: usize = start+valuedata_size+2+i*10;
       let e = try!(CiffEntry::new(buf, start, entry_offset));
       if e.typ == 0x2800 || e.typ == 0x3000 { // SubIFDs
-        if depth < 10 { // Avoid infinite looping IFDs
-          let ifd = CiffIFD::new(buf, e.data_offset, e.data_offset+e.bytesize, depth+1);
+        if depth < 10 && *budget > 0 { // Avoid infinite looping IFDs
+          *budget -= 1;
+          let ifd = CiffIFD::new(buf, e.data_offset, e.data_offset+e.bytesize, depth+1, budget);
           match ifd {
             Ok(val) => {subifds.push(val);},
             Err(_) => {entries.insert(e.tag, e);}, // Ignore unparsable IFDs
-- 
2.43.0


From eb3df6b7adccc8abe72812d847efa4d73af4242c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:32 +0000
Subject: [PATCH 17/27] fix: neutral greys developed with a strong red cast

cam_to_xyz() returns XYZ divided by the D65 white, but nothing multiplied by
that white again before converting to sRGB, so a neutral white came out as
linear (1.20, 0.95, 0.91).
---
 src/imageops/colorspaces.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/imageops/colorspaces.rs b/src/imageops/colorspaces.rs
index eaa0532..4352e26 100644
--- a/src/imageops/colorspaces.rs
+++ b/src/imageops/colorspaces.rs
@@ -79,8 +79,8 @@ fn xyz_to_rec709_matrix() -> [[f32;3];3] {
 }
 
 fn xyz_to_lab(x: f32, y: f32, z: f32) -> (f32,f32,f32) {
-  // D50 White
-  let xw = 0.9642; let yw = 1.000; let zw = 0.8249;
+  // cam_to_xyz() has already divided by the D65 white
+  let xw = 1.0; let yw = 1.0; let zw = 1.0;
 
   let l = 116.0 * labf(y/yw) - 16.0;
   let a = 500.0 * (labf(x/xw) - labf(y/yw));
@@ -118,8 +118,8 @@ fn labf(val: f32) -> f32 {
 }
 
 fn lab_to_xyz(l: f32, a: f32, b: f32) -> (f32,f32,f32) {
-  // D50 White
-  let xw = 0.9642; let yw = 1.000; let zw = 0.8249;
+  // D65 White, the same that cam_to_xyz() divides by
+  let xw = 0.9547; let yw = 1.0; let zw = 1.08883;
 
   let cl = l * 100.0;
   let ca = (a * 256.0) - 128.0;
-- 
2.43.0


From 370a5a7f49d5403272bb25fb88d0a4ca30e86f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:34 +0000
Subject: [PATCH 18/27] fix: the black level measured from large masked areas
 was off

Summing in f32 stops being exact at 2^24, so e.g. 100000 masked samples that
are all 1001 averaged to 1000.
---
 src/decoders/image.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/decoders/image.rs b/src/decoders/image.rs
index 4e3b311..ac48ed0 100644
--- a/src/decoders/image.rs
+++ b/src/decoders/image.rs
@@ -64,19 +64,19 @@ pub struct SRGBImage {
 impl RawImage {
   #[doc(hidden)] pub fn new(camera: Camera, width: usize, height: usize, wb_coeffs: [f32;4], image: Vec<u16>) -> RawImage {
     let blacks = if camera.blackareah.1 != 0 || camera.blackareav.1 != 0 {
-      let mut avg = [0 as f32; 4];
-      let mut count = [0 as f32; 4];
+      let mut avg = [0 as f64; 4];
+      let mut count = [0 as f64; 4];
       for row in camera.blackareah.0 .. camera.blackareah.0+camera.blackareah.1 {
         for col in 0..width {
           let color = camera.cfa.color_at(row,col);
-          avg[color] += image[row*width+col] as f32;
+          avg[color] += image[row*width+col] as f64;
           count[color] += 1.0;
         }
       }
       for row in 0..height {
         for col in camera.blackareav.0 .. camera.blackareav.0+camera.blackareav.1 {
           let color = camera.cfa.color_at(row,col);
-          avg[color] += image[row*width+col] as f32;
+          avg[color] += image[row*width+col] as f64;
           count[color] += 1.0;
         }
       }
-- 
2.43.0


From 912f80cfd177821c263df407d9dd8b91be5c92e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:34 +0000
Subject: [PATCH 19/27] fix: the converter reported success when the last part
 of its output could not be written

---
 src/bin/rawloader.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bin/rawloader.rs b/src/bin/rawloader.rs
index a2feb62..6a0018f 100644
--- a/src/bin/rawloader.rs
+++ b/src/bin/rawloader.rs
@@ -81,4 +81,7 @@ fn main() {
       error(err.description());
     }
   }
+  if let Err(err) = f.flush() {
+    error(err.description());
+  }
 }
-- 
2.43.0


From eba606358502350708fca6e803f569f6d31a0e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:53 +0000
Subject: [PATCH 20/27] fix: lossless JPEG images whose width is not a multiple
 of the components lost sync or panicked

---
 src/decoders/ljpeg/mod.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/decoders/ljpeg/mod.rs b/src/decoders/ljpeg/mod.rs
index b4421a4..851d9fd 100644
--- a/src/decoders/ljpeg/mod.rs
+++ b/src/decoders/ljpeg/mod.rs
@@ -253,6 +253,17 @@ impl<'a> LjpegDecompressor<'a> {
 
     match self.predictor {
       1 => {
+        if width % self.sof.cps != 0 {
+          // Only part of the last pixel group of each line is inside the image
+          let fullwidth = (width/self.sof.cps + 1) * self.sof.cps;
+          let mut full = alloc_image(fullwidth, height);
+          try!(self.decode(&mut full, 0, fullwidth, fullwidth, height));
+          for row in 0..height {
+            let pos = row*stripwidth+x;
+            out[pos..pos+width].copy_from_slice(&full[row*fullwidth..row*fullwidth+width]);
+          }
+          return Ok(())
+        }
         match self.sof.cps {
           2 => decode_ljpeg_2components(self, out, x, stripwidth, width, height),
           3 => decode_ljpeg_3components(self, out, x, stripwidth, width, height),
-- 
2.43.0


From 18b66e535530ce78aba7fa34b5958ecec1823c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:13 +0000
Subject: [PATCH 21/27] fix: the last vertical stripe of 4:2:0 sRAW files was
 assumed to be as wide as the others

---
 src/decoders/cr2.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/decoders/cr2.rs b/src/decoders/cr2.rs
index 7e49989..c7af763 100644
--- a/src/decoders/cr2.rs
+++ b/src/decoders/cr2.rs
@@ -96,11 +96,9 @@ impl<'a> Decoder for Cr2Decoder<'a> {
 
           if decompressor.super_v() == 2 {
             // We've decoded 2 lines at a time so we also need to copy two strips at a time
-            let nfields = fieldwidths.len();
-            let fieldwidth = fieldwidths[0];
             let mut fieldstart = 0;
             let mut inpos = 0;
-            for _ in 0..nfields {
+            for fieldwidth in fieldwidths {
               for row in (0..height).step(2) {
                 for col in (0..fieldwidth).step(3) {
                   let outpos = row*width+fieldstart+col;
-- 
2.43.0


From 11da7932069fe1bc09378aff573bc8dc45fefdfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:01:57 +0000
Subject: [PATCH 22/27] fix: Nikon lossy compressed files with a split row
 failed to decode

The tables used after the split encode how many low bits of a difference were
left out besides its length, and were read as if the whole was the length.
---
 src/decoders/nef.rs | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/decoders/nef.rs b/src/decoders/nef.rs
index b632b71..3a2a96c 100644
--- a/src/decoders/nef.rs
+++ b/src/decoders/nef.rs
@@ -227,6 +227,24 @@ impl<'a> NefDecoder<'a> {
     Ok(htable)
   }
 
+  // The "after split" tables have entries that encode not just the length of the
+  // difference (low nibble) but also how many of its low bits are left out (high nibble)
+  fn decode_diff(&self, htable: &HuffTable, pump: &mut BitPump, split: bool) -> Result<i32,String> {
+    if !split {
+      return htable.huff_decode(pump)
+    }
+    let val = try!(htable.huff_len(pump));
+    let (len, shl) = (val & 15, val >> 4);
+    if len == 0 {
+      return Ok(0)
+    }
+    let mut diff = ((((pump.get_bits(len - shl) << 1) + 1) << shl) >> 1) as i32;
+    if diff & (1 << (len - 1)) == 0 {
+      diff -= (1 << len) - (if shl == 0 {1} else {0});
+    }
+    Ok(diff)
+  }
+
   fn decode_compressed(&self, src: &[u8], width: usize, height: usize, bps: usize) -> Result<Vec<u16>, String> {
     let metaifd = fetch_ifd!(self.tiff, Tag::NefMeta1);
     let meta = if let Some(meta) = metaifd.find_entry(Tag::NefMeta2) {meta} else {
@@ -290,17 +308,18 @@ impl<'a> NefDecoder<'a> {
     let mut random = pump.peek_bits(24);
 
     for row in 0..height {
+      let after_split = split > 0 && row >= split;
       if split > 0 && row == split {
         htable = try!(self.create_hufftable(huff_select+1, bps));
       }
-      pred_up1[row&1] += try!(htable.huff_decode(&mut pump));
-      pred_up2[row&1] += try!(htable.huff_decode(&mut pump));
+      pred_up1[row&1] += try!(self.decode_diff(&htable, &mut pump, after_split));
+      pred_up2[row&1] += try!(self.decode_diff(&htable, &mut pump, after_split));
       let mut pred_left1 = pred_up1[row&1];
       let mut pred_left2 = pred_up2[row&1];
       for col in (0..width).step(2) {
         if col > 0 {
-          pred_left1 += try!(htable.huff_decode(&mut pump));
-          pred_left2 += try!(htable.huff_decode(&mut pump));
+          pred_left1 += try!(self.decode_diff(&htable, &mut pump, after_split));
+          pred_left2 += try!(self.decode_diff(&htable, &mut pump, after_split));
         }
         out[row*width+col+0] = curve.dither(clampbits(pred_left1,15) as u16, &mut random);
         out[row*width+col+1] = curve.dither(clampbits(pred_left2,15) as u16, &mut random);
-- 
2.43.0


From 14cccda257abd228d2f736934bc9cfb3f12e651f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:29 +0000
Subject: [PATCH 23/27] fix: Panasonic files with swapped block halves got a
 wrong pixel in every block

A value whose bits lie in the last byte of the file's block and the first one
was completed with the first byte of the following block.
---
 src/decoders/rw2.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/decoders/rw2.rs b/src/decoders/rw2.rs
index eeee447..f6ecb27 100644
--- a/src/decoders/rw2.rs
+++ b/src/decoders/rw2.rs
@@ -152,10 +152,16 @@ impl<'a> BitPump for BitPumpPanasonic<'a> {
       self.pos += 0x4000;
     }
     let mut byte = (self.nbits-num) >> 3 ^ 0x3ff0;
+    let mut next = byte + 1;
     if self.split {
+      // The two halves of the block are swapped so consecutive bytes can be at
+      // opposite ends of it
       byte = (byte + 0x4000 - 0x2008) % 0x4000;
+      next = (next + 0x4000 - 0x2008) % 0x4000;
     }
-    let bits = LEu16(self.buffer, byte as usize + self.pos - 0x4000) as u32;
+    let block = self.pos - 0x4000;
+    let bits = (self.buffer[block + byte as usize] as u32) |
+               (self.buffer[block + next as usize] as u32) << 8;
     (bits >> ((self.nbits-num) & 7)) & (0x0ffffffffu32 >> (32-num))
   }
 
-- 
2.43.0


From 6fa35b46ec2ef406c6b18547df3e1252213edb54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:29 +0000
Subject: [PATCH 24/27] fix: the scale of third generation Samsung files only
 applied to a quarter of the blocks

It is given once for every four blocks and was reset for the other three.
---
 src/decoders/srw.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decoders/srw.rs b/src/decoders/srw.rs
index ebd24a6..b4b9d79 100644
--- a/src/decoders/srw.rs
+++ b/src/decoders/srw.rs
@@ -282,7 +282,7 @@ impl<'a> SrwDecoder<'a> {
             pump.get_bits(12) as i32
           }
         } else {
-          0
+          scale
         };
 
         // First we figure out which reference pixels mode we're in
-- 
2.43.0


From f120f0778be3a8e65230253205a9ac25f235af86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:12 +0000
Subject: [PATCH 25/27] fix: refuse empty images with billions of rows instead
 of looping over them

---
 src/decoders/basics.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/decoders/basics.rs b/src/decoders/basics.rs
index beadc92..1586dc7 100644
--- a/src/decoders/basics.rs
+++ b/src/decoders/basics.rs
@@ -4,6 +4,8 @@ use self::rayon::prelude::*;
 extern crate byteorder;
 use self::byteorder::{BigEndian, LittleEndian, ByteOrder};
 
+use std::cmp;
+
 pub use decoders::packed::*;
 pub use decoders::pumps::*;
 
@@ -83,10 +85,11 @@ pub static LITTLE_ENDIAN: Endian = Endian{big: false};
 }
 
 // Allocate the samples of an image. Corrupt files can declare any size and failing to
-// allocate memory would abort the whole process so refuse sizes that no camera has.
+// allocate memory would abort the whole process so refuse sizes that no camera has. The
+// same goes for empty images with billions of rows that would take ages to go through.
 pub fn alloc_image(width: usize, height: usize) -> Vec<u16> {
-  match width.checked_mul(height) {
-    Some(size) if size <= 500_000_000 => vec![0; size],
+  match cmp::max(width, 1).checked_mul(cmp::max(height, 1)) {
+    Some(size) if size <= 500_000_000 => vec![0; width*height],
     _ => panic!("Surely there's no such thing as a {}x{} image", width, height),
   }
 }
-- 
2.43.0


From 2d09ebff5163f943c297c851c2c416fd7d0b059f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:34 +0000
Subject: [PATCH 26/27] fix: read the white balance of MRW files whose last
 header block is WBG

---
 src/decoders/mrw.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decoders/mrw.rs b/src/decoders/mrw.rs
index d38b8c7..48a88d0 100644
--- a/src/decoders/mrw.rs
+++ b/src/decoders/mrw.rs
@@ -30,7 +30,7 @@ impl<'a> MrwDecoder<'a> {
 
     let mut currpos: usize = 8;
     // At most we read 20 bytes from currpos so check we don't step outside that
-    while currpos+20 < data_offset {
+    while currpos+20 <= data_offset {
       let tag: u32 = BEu32(buf,currpos);
       let len: u32 = BEu32(buf,currpos+4);
       
-- 
2.43.0


From 0cb8f2482ba360290ceaa7419ea98b243b308c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:59 +0000
Subject: [PATCH 27/27] fix: read the Leaf white balance also when nothing
 follows it

---
 src/decoders/mos.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/decoders/mos.rs b/src/decoders/mos.rs
index 7c957d1..bf16396 100644
--- a/src/decoders/mos.rs
+++ b/src/decoders/mos.rs
@@ -56,8 +56,8 @@ impl<'a> MosDecoder<'a> {
   fn get_wb(&self) -> Result<[f32;4], String> {
     let meta = fetch_tag!(self.tiff, Tag::LeafMetadata).get_data();
     let mut pos = 0;
-    // We need at least 16+45+10 bytes for the NeutObj_neutrals section itself
-    while pos + 70 < meta.len() {
+    // The values start 44 bytes into the NeutObj_neutrals section
+    while pos + 44 < meta.len() {
       if meta[pos..pos+16] == b"NeutObj_neutrals"[..] {
         let data = &meta[pos+44..];
         if let Some(endpos) = data.iter().position(|&x| x == 0) {
-- 
2.43.0

