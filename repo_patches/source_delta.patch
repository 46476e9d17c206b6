From 34332f9d65569323352bfa9f29dafbb4759c2065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:06 +0000
Subject: [PATCH 01/10] fix: flush the writer before reporting success

new_file writes through a BufWriter that was dropped, and thereby flushed
with its errors ignored, after encode had already returned Ok. On a full
disk encode reported success for a truncated or empty file.
---
 src/encoder.rs |  4 ++++
 src/writer.rs  | 24 ++++++++++++++++++++++++
 2 files changed, 28 insertions(+)

diff --git a/src/encoder.rs b/src/encoder.rs
index eded305..e8a1c75 100644
--- a/src/encoder.rs
+++ b/src/encoder.rs
@@ -529,6 +529,10 @@ impl<W: JfifWrite> Encoder<W> {
 
         self.writer.write_marker(Marker::EOI)?;
 
+        // The writer is dropped with the encoder. Without this a buffering writer like the one
+        // used by new_file would discard errors of its last writes and report success.
+        self.writer.flush()?;
+
         Ok(())
     }
 
diff --git a/src/writer.rs b/src/writer.rs
index e818b67..a2f5c8d 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -38,6 +38,17 @@ pub trait JfifWrite {
     ///
     /// Return an error if the data can't be written
     fn write_all(&mut self, buf: &[u8]) -> Result<(), EncodingError>;
+
+    /// Hands over all data that is still buffered. The behavior must be identical to std::io::Write::flush
+    ///
+    /// The encoder calls this once after the last byte of the image has been written.
+    /// The default implementation is for writers without a buffer and does nothing.
+    /// # Errors
+    ///
+    /// Return an error if buffered data can't be written
+    fn flush(&mut self) -> Result<(), EncodingError> {
+        Ok(())
+    }
 }
 
 #[cfg(not(feature = "std"))]
@@ -45,6 +56,10 @@ impl<W: JfifWrite + ?Sized> JfifWrite for &mut W {
     fn write_all(&mut self, buf: &[u8]) -> Result<(), EncodingError> {
         (**self).write_all(buf)
     }
+
+    fn flush(&mut self) -> Result<(), EncodingError> {
+        (**self).flush()
+    }
 }
 
 #[cfg(not(feature = "std"))]
@@ -62,6 +77,11 @@ impl<W: std::io::Write + ?Sized> JfifWrite for W {
         self.write_all(buf)?;
         Ok(())
     }
+
+    fn flush(&mut self) -> Result<(), EncodingError> {
+        std::io::Write::flush(self)?;
+        Ok(())
+    }
 }
 
 pub(crate) struct JfifWriter<W: JfifWrite> {
@@ -94,6 +114,10 @@ impl<W: JfifWrite> JfifWriter<W> {
         self.w.write_all(&value.to_be_bytes())
     }
 
+    pub fn flush(&mut self) -> Result<(), EncodingError> {
+        self.w.flush()
+    }
+
     pub fn finalize_bit_buffer(&mut self) -> Result<(), EncodingError> {
         self.write_bits(0x7F, 7)?;
         self.flush_bit_buffer()?;
-- 
2.43.0


From 59045e00ba439f267cc074b5df86e9d51d6c2587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:43 +0000
Subject: [PATCH 02/10] fix: clamp custom quantization tables to the 8 bit
 range that is written

DQT segments are written with 8 bit precision. Values above 255 were
quantized with up to 2048 but truncated in the table, so that decoders
dequantized with a different (or the invalid value 0) step.
---
 src/quantization.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/quantization.rs b/src/quantization.rs
index 93055e6..37007cd 100644
--- a/src/quantization.rs
+++ b/src/quantization.rs
@@ -250,7 +250,7 @@ impl QuantizationTable {
     fn get_user_table(table: &[u16; 64]) -> [NonZeroU16; 64] {
         let mut q_table = [NonZeroU16::new(1).unwrap(); 64];
         for (i, &v) in table.iter().enumerate() {
-            q_table[i] = match NonZeroU16::new(v.clamp(1, 2 << 10) << 3) {
+            q_table[i] = match NonZeroU16::new(v.clamp(1, 255) << 3) {
                 Some(v) => v,
                 None => panic!("Invalid quantization table value: {}", v),
             };
-- 
2.43.0


From ddfd635109b506e4d8c71c610f9d51c479714282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:18 +0000
Subject: [PATCH 03/10] fix: emit only valid AC scans when using 34 to 64
 progressive scans

With more than 32 AC scans only one value was assigned to each scan. The
first one got the DC value, which resulted in an AC scan with the invalid
spectral selection 1 to 0.
---
 src/encoder.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/encoder.rs b/src/encoder.rs
index e8a1c75..fb2d78a 100644
--- a/src/encoder.rs
+++ b/src/encoder.rs
@@ -899,12 +899,13 @@ impl<W: JfifWrite> Encoder<W> {
         let values_per_scan = 64 / scans;
 
         for scan in 0..scans {
-            let start = (scan * values_per_scan).max(1);
+            // Every scan has at least one value, the DC value is not part of the first one
+            let start = (scan * values_per_scan).max(scan + 1);
             let end = if scan == scans - 1 {
                 // ensure last scan is always transfers the remaining coefficients
                 64
             } else {
-                (scan + 1) * values_per_scan
+                ((scan + 1) * values_per_scan).max(scan + 2)
             };
 
             for (i, component) in self.components.iter().enumerate() {
@@ -1097,12 +1098,13 @@ impl<W: JfifWrite> Encoder<W> {
                         let values_per_scan = 64 / scans;
 
                         for scan in 0..scans {
-                            let start = (scan * values_per_scan).max(1);
+                            // Every scan has at least one value, the DC value is not part of the first one
+                            let start = (scan * values_per_scan).max(scan + 1);
                             let end = if scan == scans - 1 {
                                 // Due to rounding we might need to transfer more than values_per_scan values in the last scan
                                 64
                             } else {
-                                (scan + 1) * values_per_scan
+                                ((scan + 1) * values_per_scan).max(scan + 2)
                             };
 
                             debug_assert!(!blocks[i].is_empty());
-- 
2.43.0


From e73ab4f381e821d5fa0b4061021c98970a9f8e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:30 +0000
Subject: [PATCH 04/10] fix: take restart intervals into account when
 optimizing Huffman tables

The DC frequencies were counted without resetting the prediction at the
restart markers. The resulting table could miss codes that are needed
after a restart marker, which lead to corrupt images.
---
 src/encoder.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/encoder.rs b/src/encoder.rs
index fb2d78a..6200107 100644
--- a/src/encoder.rs
+++ b/src/encoder.rs
@@ -1060,6 +1060,7 @@ impl<W: JfifWrite> Encoder<W> {
         // TODO: Find out if it's possible to reuse some code from the writer
 
         let max_tables = self.components.len().min(2) as u8;
+        let restart_interval = usize::from(self.restart_interval.unwrap_or(0));
 
         for table in 0..max_tables {
             let mut dc_freq = [0u32; 257];
@@ -1078,7 +1079,12 @@ impl<W: JfifWrite> Encoder<W> {
 
                     debug_assert!(!blocks[i].is_empty());
 
-                    for block in &blocks[i] {
+                    for (block_nr, block) in blocks[i].iter().enumerate() {
+                        // The DC prediction starts over after each restart marker
+                        if restart_interval > 0 && block_nr % restart_interval == 0 {
+                            prev_dc = 0;
+                        }
+
                         let value = block[0];
                         let diff = value - prev_dc;
                         let num_bits = get_num_bits(diff);
-- 
2.43.0


From 84a1cf4c89402fe4f270bf0f819d97f307a8fdc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:41 +0000
Subject: [PATCH 05/10] fix: accept ICC profiles up to the documented maximum
 size

The documented limit of 16,707,345 bytes is 255 chunks but profiles that
need the 255th chunk were rejected.
---
 src/encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/encoder.rs b/src/encoder.rs
index 6200107..db0eec4 100644
--- a/src/encoder.rs
+++ b/src/encoder.rs
@@ -381,7 +381,7 @@ impl<W: JfifWrite> Encoder<W> {
         let num_chunks = ceil_div(data.len(), MAX_CHUNK_LENGTH);
 
         // Sequence number is stored as a byte and starts with 1
-        if num_chunks >= 255 {
+        if num_chunks > 255 {
             return Err(EncodingError::IccTooLarge(data.len()));
         }
 
-- 
2.43.0


From e14878f0401c586fb6e2dbc02151cf83feaf96b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:25 +0000
Subject: [PATCH 06/10] fix: do not panic when an optimized Huffman code needs
 more than 32 bits

Before limiting them to 16 bits code sizes can be larger than the 32 bits
assumed by the specification if the symbol frequencies of a large image
grow like the Fibonacci numbers.
---
 src/huffman.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/huffman.rs b/src/huffman.rs
index a32debd..3fabfe3 100644
--- a/src/huffman.rs
+++ b/src/huffman.rs
@@ -156,7 +156,8 @@ impl HuffmanTable {
         // Find the number of codes of each size
         // Figure K.2
 
-        let mut bits = [0u8; 33];
+        // The most skewed distribution of all 257 symbols results in a maximum size of 256
+        let mut bits = [0u8; 257];
 
         for &size in codesize.iter() {
             if size > 0 {
@@ -167,7 +168,7 @@ impl HuffmanTable {
         // Limiting code lengths to 16 bits
         // Figure K.3
 
-        let mut i = 32;
+        let mut i = 256;
 
         while i > 16 {
             while bits[i] > 0 {
@@ -197,7 +198,7 @@ impl HuffmanTable {
 
         let mut k = 0;
 
-        for i in 1..=32 {
+        for i in 1..=256 {
             for j in 0..=255 {
                 if codesize[j] == i {
                     huffval[k] = j as u8;
-- 
2.43.0


From 6ac4bdf2213e59e20164e6c8bc7c4489b311383a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:50 +0000
Subject: [PATCH 07/10] Add a seam that lets simulation tests hide AVX2,
 guarded by --cfg jpeg_encoder_sim

---
 src/encoder.rs |  4 ++--
 src/lib.rs     |  7 +++++++
 src/sim.rs     | 18 ++++++++++++++++++
 3 files changed, 27 insertions(+), 2 deletions(-)
 create mode 100644 src/sim.rs

diff --git a/src/encoder.rs b/src/encoder.rs
index db0eec4..c0f673c 100644
--- a/src/encoder.rs
+++ b/src/encoder.rs
@@ -421,7 +421,7 @@ impl<W: JfifWrite> Encoder<W> {
 
         #[cfg(all(feature = "simd", any(target_arch = "x86", target_arch = "x86_64")))]
         {
-            if std::is_x86_feature_detected!("avx2") {
+            if std::is_x86_feature_detected!("avx2") && crate::sim::avx2_visible() {
                 use crate::avx2::*;
 
                 return match color_type {
@@ -472,7 +472,7 @@ impl<W: JfifWrite> Encoder<W> {
     pub fn encode_image<I: ImageBuffer>(self, image: I) -> Result<(), EncodingError> {
         #[cfg(all(feature = "simd", any(target_arch = "x86", target_arch = "x86_64")))]
         {
-            if std::is_x86_feature_detected!("avx2") {
+            if std::is_x86_feature_detected!("avx2") && crate::sim::avx2_visible() {
                 use crate::avx2::*;
                 return self.encode_image_internal::<_, AVX2Operations>(image);
             }
diff --git a/src/lib.rs b/src/lib.rs
index 9fc0a0e..fd79b01 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -24,6 +24,8 @@
 
 #![no_std]
 #![cfg_attr(not(feature = "simd"), forbid(unsafe_code))]
+// jpeg_encoder_sim is only set by the simulation tests
+#![allow(unexpected_cfgs)]
 
 #[cfg(feature = "std")]
 extern crate std;
@@ -40,6 +42,8 @@ mod huffman;
 mod image_buffer;
 mod marker;
 mod quantization;
+#[cfg(all(feature = "simd", any(target_arch = "x86", target_arch = "x86_64")))]
+mod sim;
 mod writer;
 
 pub use encoder::{ColorType, Encoder, JpegColorType, SamplingFactor};
@@ -48,6 +52,9 @@ pub use image_buffer::{cmyk_to_ycck, rgb_to_ycbcr, ImageBuffer};
 pub use quantization::QuantizationTableType;
 pub use writer::{Density, JfifWrite};
 
+#[cfg(all(jpeg_encoder_sim, feature = "simd", any(target_arch = "x86", target_arch = "x86_64")))]
+pub use sim::AVX2_HIDDEN;
+
 #[cfg(feature = "benchmark")]
 pub use fdct::fdct;
 #[cfg(all(feature = "benchmark", feature = "simd", any(target_arch = "x86", target_arch = "x86_64")))]
diff --git a/src/sim.rs b/src/sim.rs
new file mode 100644
index 0000000..9be918a
--- /dev/null
+++ b/src/sim.rs
@@ -0,0 +1,18 @@
+//! Seam for the deterministic simulation tests.
+//!
+//! Only has an effect if the crate is built with `--cfg jpeg_encoder_sim`.
+
+/// Lets the simulated host hide AVX2 from the runtime detection
+#[cfg(jpeg_encoder_sim)]
+pub static AVX2_HIDDEN: core::sync::atomic::AtomicBool =
+    core::sync::atomic::AtomicBool::new(false);
+
+#[inline(always)]
+pub(crate) fn avx2_visible() -> bool {
+    #[cfg(jpeg_encoder_sim)]
+    {
+        !AVX2_HIDDEN.load(core::sync::atomic::Ordering::Relaxed)
+    }
+    #[cfg(not(jpeg_encoder_sim))]
+    true
+}
-- 
2.43.0


From 939d7440c3106272aaf862cbf56109903c403c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:58 +0000
Subject: [PATCH 08/10] fix: round every coefficient in the AVX2 forward DCT

The rounding constant of the second pass was set up per 32 bit lane but
is added to 16 bit lanes, so every other value of coefficient rows 0 and
4 was rounded down instead of to nearest, and the AVX2 path produced a
different image than the portable implementation.
---
 src/avx2/fdct.rs | 27 +++++++++------------------
 1 file changed, 9 insertions(+), 18 deletions(-)

diff --git a/src/avx2/fdct.rs b/src/avx2/fdct.rs
index b7caa38..efd9dcd 100644
--- a/src/avx2/fdct.rs
+++ b/src/avx2/fdct.rs
@@ -10,19 +10,19 @@
 #[cfg(target_arch = "x86")]
 use core::arch::x86::{
     __m256i, _mm256_add_epi16, _mm256_add_epi32, _mm256_loadu_si256, _mm256_madd_epi16,
-    _mm256_packs_epi32, _mm256_permute2x128_si256, _mm256_permute4x64_epi64, _mm256_set_epi16,
-    _mm256_set_epi32, _mm256_sign_epi16, _mm256_slli_epi16, _mm256_srai_epi16, _mm256_srai_epi32,
-    _mm256_storeu_si256, _mm256_sub_epi16, _mm256_unpackhi_epi16, _mm256_unpackhi_epi32,
-    _mm256_unpacklo_epi16, _mm256_unpacklo_epi32,
+    _mm256_packs_epi32, _mm256_permute2x128_si256, _mm256_permute4x64_epi64, _mm256_set1_epi16,
+    _mm256_set_epi16, _mm256_set_epi32, _mm256_sign_epi16, _mm256_slli_epi16, _mm256_srai_epi16,
+    _mm256_srai_epi32, _mm256_storeu_si256, _mm256_sub_epi16, _mm256_unpackhi_epi16,
+    _mm256_unpackhi_epi32, _mm256_unpacklo_epi16, _mm256_unpacklo_epi32,
 };
 
 #[cfg(target_arch = "x86_64")]
 use core::arch::x86_64::{
     __m256i, _mm256_add_epi16, _mm256_add_epi32, _mm256_loadu_si256, _mm256_madd_epi16,
-    _mm256_packs_epi32, _mm256_permute2x128_si256, _mm256_permute4x64_epi64, _mm256_set_epi16,
-    _mm256_set_epi32, _mm256_sign_epi16, _mm256_slli_epi16, _mm256_srai_epi16, _mm256_srai_epi32,
-    _mm256_storeu_si256, _mm256_sub_epi16, _mm256_unpackhi_epi16, _mm256_unpackhi_epi32,
-    _mm256_unpacklo_epi16, _mm256_unpacklo_epi32,
+    _mm256_packs_epi32, _mm256_permute2x128_si256, _mm256_permute4x64_epi64, _mm256_set1_epi16,
+    _mm256_set_epi16, _mm256_set_epi32, _mm256_sign_epi16, _mm256_slli_epi16, _mm256_srai_epi16,
+    _mm256_srai_epi32, _mm256_storeu_si256, _mm256_sub_epi16, _mm256_unpackhi_epi16,
+    _mm256_unpackhi_epi32, _mm256_unpacklo_epi16, _mm256_unpacklo_epi32,
 };
 
 const CONST_BITS: i32 = 13;
@@ -188,16 +188,7 @@ unsafe fn fdct_avx2_internal(data: &mut [i16; 64]) {
     #[allow(non_snake_case)]
     #[inline(always)]
     unsafe fn PW_DESCALE_P2X() -> __m256i {
-        _mm256_set_epi32(
-            1 << (PASS1_BITS - 1),
-            1 << (PASS1_BITS - 1),
-            1 << (PASS1_BITS - 1),
-            1 << (PASS1_BITS - 1),
-            1 << (PASS1_BITS - 1),
-            1 << (PASS1_BITS - 1),
-            1 << (PASS1_BITS - 1),
-            1 << (PASS1_BITS - 1),
-        )
+        _mm256_set1_epi16(1 << (PASS1_BITS - 1))
     }
 
     // In-place 8x8x16-bit matrix transpose using AVX2 instructions
-- 
2.43.0


From 713b28952b6900cc793fbf97fbb4a164f1b7b8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:27 +0000
Subject: [PATCH 09/10] fix: check the size of the image data without overflow
 on 32 bit hosts

---
 src/encoder.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/encoder.rs b/src/encoder.rs
index c0f673c..72cdc5e 100644
--- a/src/encoder.rs
+++ b/src/encoder.rs
@@ -410,7 +410,9 @@ impl<W: JfifWrite> Encoder<W> {
         height: u16,
         color_type: ColorType,
     ) -> Result<(), EncodingError> {
-        let required_data_len = width as usize * height as usize * color_type.get_bytes_per_pixel();
+        // With 32 bit addresses the size of a large image is more than usize can hold
+        let required_data_len =
+            (width as usize * height as usize).saturating_mul(color_type.get_bytes_per_pixel());
 
         if data.len() < required_data_len {
             return Err(EncodingError::BadImageData {
-- 
2.43.0


From 957e82337716267c90782a89305f7df75aa1bd4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:49 +0000
Subject: [PATCH 10/10] fix: count Huffman symbols with 64 bits

With optimized Huffman tables the symbol counts of very large images, or
their sums while the code is built, exceed 32 bits: with overflow checks
the encoder panicked, without them the code was built from wrapped counts.
---
 src/encoder.rs | 4 ++--
 src/huffman.rs | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/encoder.rs b/src/encoder.rs
index 72cdc5e..ed87a85 100644
--- a/src/encoder.rs
+++ b/src/encoder.rs
@@ -1065,9 +1065,9 @@ impl<W: JfifWrite> Encoder<W> {
         let restart_interval = usize::from(self.restart_interval.unwrap_or(0));
 
         for table in 0..max_tables {
-            let mut dc_freq = [0u32; 257];
+            let mut dc_freq = [0u64; 257];
             dc_freq[256] = 1;
-            let mut ac_freq = [0u32; 257];
+            let mut ac_freq = [0u64; 257];
             ac_freq[256] = 1;
 
             let mut had_ac = false;
diff --git a/src/huffman.rs b/src/huffman.rs
index 3fabfe3..d8f6e84 100644
--- a/src/huffman.rs
+++ b/src/huffman.rs
@@ -96,7 +96,7 @@ impl HuffmanTable {
 
     /// Generates an optimized huffman table as described in Section K.2
     #[allow(clippy::needless_range_loop)]
-    pub fn new_optimized(mut freq: [u32; 257]) -> HuffmanTable {
+    pub fn new_optimized(mut freq: [u64; 257]) -> HuffmanTable {
         let mut others = [-1i32; 257];
         let mut codesize = [0usize; 257];
 
@@ -104,7 +104,7 @@ impl HuffmanTable {
         // Figure K.1
         loop {
             let mut v1 = None;
-            let mut v1_min = u32::MAX;
+            let mut v1_min = u64::MAX;
 
             // Find the largest value with the least non zero frequency
             for (i, &f) in freq.iter().enumerate() {
@@ -120,7 +120,7 @@ impl HuffmanTable {
             };
 
             let mut v2 = None;
-            let mut v2_min = u32::MAX;
+            let mut v2_min = u64::MAX;
 
             // Find the next largest value with the least non zero frequency
             for (i, &f) in freq.iter().enumerate() {
-- 
2.43.0

