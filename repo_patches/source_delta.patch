From c967c1e5cff176e9bd604e45e93c6a9dcc8fd1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:36 +0000
Subject: [PATCH 01/28] verif hook: re-export private modules under
 cfg(adhoc_verif)

---
 src/lib.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 9625ce4..cdf062c 100755
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -90,3 +90,13 @@ mod math;
 
 pub use codec::{adhoc::AdhocCodec, wav::WavCodec, StreamInfo, Streamable};
 pub use std::io::SeekFrom;
+
+/// Re-exports the private building blocks to an external verification harness.
+/// Only present when built with `--cfg adhoc_verif`.
+#[allow(unexpected_cfgs)]
+#[cfg(adhoc_verif)]
+#[doc(hidden)]
+pub mod verif_hooks {
+    pub use crate::collections::*;
+    pub use crate::math::*;
+}
-- 
2.43.0


From 748c3641550814af0df1483ecb460e3d934b04df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:42 +0000
Subject: [PATCH 02/28] fix: accept encode calls of fewer than three blocks and
 empty ones

The first call panicked when it held fewer than three samples per channel,
and empty calls stored empty frames that made decode stop early.
---
 src/codec/adhoc.rs       | 16 ++++++++++++----
 src/codec/adhoc/frame.rs | 20 ++++++++++++--------
 2 files changed, 24 insertions(+), 12 deletions(-)

diff --git a/src/codec/adhoc.rs b/src/codec/adhoc.rs
index 4806b20..9064cfd 100755
--- a/src/codec/adhoc.rs
+++ b/src/codec/adhoc.rs
@@ -218,6 +218,11 @@ impl AdhocCodec {
         let num_chunks = interleaved_pcm.len() / num_channels;
         let inv_scale = self.inv_scale;
 
+        //without a single complete block there is nothing to store
+        if num_chunks == 0 {
+            return;
+        }
+
         //controls the 'strength'/'influence' of dithering
         const DITHER_AMPLITUDE: f32 = 0.001;
 
@@ -396,10 +401,13 @@ impl Streamable for AdhocCodec {
 
                     //make sure stack history from the header is transferred to state
                     // 0..3 because sample history is supposed to have 3 samples
-                    for k in 0..3 {
-                        channel_state_list[offset]
-                            .sample_history_mut()
-                            .push(header.stack_history[k]);
+                    // (an init frame carries its own samples to start from)
+                    if !header.is_init {
+                        for k in 0..3 {
+                            channel_state_list[offset]
+                                .sample_history_mut()
+                                .push(header.stack_history[k]);
+                        }
                     }
 
                     //make sure buffers are clear
diff --git a/src/codec/adhoc/frame.rs b/src/codec/adhoc/frame.rs
index 1eb2011..1d2c303 100755
--- a/src/codec/adhoc/frame.rs
+++ b/src/codec/adhoc/frame.rs
@@ -186,6 +186,7 @@ impl FrameCodec {
 
     pub fn init(&mut self) {
         self.state = CodecState::Init;
+        self.sample_history = CircularStack::new();
         self.buffered_channel.clear();
     }
 
@@ -205,16 +206,19 @@ impl FrameCodec {
                 // save bit cursor before modifying stream
                 let bit_cursor = stream.bit_cursor();
 
-                // write first three samples into the stream
-                // and also record then in the history queue
-                for k in 0..3 {
-                    let samp = pcm[k];
+                // write first three samples (or fewer, if the frame is shorter) into
+                // the stream and also record then in the history queue
+                let num_samples_pre_written = pcm.len().min(3);
+                for &samp in pcm[..num_samples_pre_written].iter() {
                     let truncated = truncate_sample(samp);
                     stream.write::<u16>(truncated as u16);
                     sample_history.push(truncated);
                 }
 
-                let divisor_exp = Self::compute_optimal_divisor_exponent(sample_history, &pcm[3..]);
+                let divisor_exp = Self::compute_optimal_divisor_exponent(
+                    sample_history,
+                    &pcm[num_samples_pre_written..],
+                );
 
                 frame_headers.push(FrameHeader {
                     exponent: divisor_exp as u8,
@@ -229,7 +233,7 @@ impl FrameCodec {
                 });
 
                 //entropy encode
-                for &sample in pcm[3..].iter() {
+                for &sample in pcm[num_samples_pre_written..].iter() {
                     let current = truncate_sample(sample);
 
                     parabola.f = [
@@ -303,7 +307,7 @@ impl FrameCodec {
         frame_info.next().map(|FrameHeader { exponent, size, .. }| {
             match self.state {
                 CodecState::Init => {
-                    let num_samples_pre_read = 3;
+                    let num_samples_pre_read = size.min(3);
                     //write starting samples into the stream
                     for _ in 0..num_samples_pre_read {
                         let samp = stream.read::<u16>() as i16;
@@ -316,7 +320,7 @@ impl FrameCodec {
                     }
                     let mut samples_read = num_samples_pre_read as usize;
                     //entropy decode
-                    for _ in 3..size {
+                    for _ in num_samples_pre_read..size {
                         let entropy = stream.read_compressed(exponent as i16);
                         parabola.f = [
                             normalize_sample(sample_history.prev(3)),
-- 
2.43.0


From 92cfac519f94736fd2b3da2bc044d16dd97b6c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:14 +0000
Subject: [PATCH 03/28] fix: split encode calls of more than 65535 samples per
 channel

The frame header stores the size in 16 bits: longer calls lost samples.
---
 src/codec/adhoc.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/codec/adhoc.rs b/src/codec/adhoc.rs
index 9064cfd..e3d3898 100755
--- a/src/codec/adhoc.rs
+++ b/src/codec/adhoc.rs
@@ -215,6 +215,17 @@ impl AdhocCodec {
 
     fn encode(&mut self, interleaved_pcm: &[f32]) {
         let num_channels = self.stream.info().expect("info not set").channels as usize;
+
+        //a frame header counts its samples in 16 bits, so longer input needs several frames
+        let max_frame_len = u16::MAX as usize * num_channels;
+        for pcm in interleaved_pcm.chunks(max_frame_len) {
+            self.encode_frames(pcm);
+        }
+    }
+
+    /// encodes one frame for each channel
+    fn encode_frames(&mut self, interleaved_pcm: &[f32]) {
+        let num_channels = self.stream.info().expect("info not set").channels as usize;
         let num_chunks = interleaved_pcm.len() / num_channels;
         let inv_scale = self.inv_scale;
 
-- 
2.43.0


From 6c97ccfb141230b6206b1179baba2479fbaa1891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:17 +0000
Subject: [PATCH 04/28] fix: report only the samples of complete blocks as
 encoded

---
 src/codec/adhoc.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/codec/adhoc.rs b/src/codec/adhoc.rs
index e3d3898..2f81862 100755
--- a/src/codec/adhoc.rs
+++ b/src/codec/adhoc.rs
@@ -337,7 +337,9 @@ impl Streamable for AdhocCodec {
     fn encode(&mut self, samples: &[f32]) -> Option<usize> {
         self.encode(samples);
 
-        Some(samples.len())
+        //a trailing partial block isn't encoded
+        let num_channels = self.info().channels();
+        Some((samples.len() / num_channels) * num_channels)
     }
 
     fn decode(&mut self, samples: &mut [f32]) -> Option<usize> {
-- 
2.43.0


From 36a5f69728f85d2e132a48d0c2ace1c6c57b9cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:19 +0000
Subject: [PATCH 05/28] fix: store every 16-bit residual exactly

Residuals beyond +-32766 were clamped, after which the decoder drifted away
from the encoder for the rest of the stream, and residuals coded with the
largest parameter overflowed. Residuals now wrap around modulo 2^16.
---
 src/codec/adhoc/frame.rs     | 24 +++++++++---------------
 src/collections/bitstream.rs | 25 +++++++++++++++----------
 2 files changed, 24 insertions(+), 25 deletions(-)

diff --git a/src/codec/adhoc/frame.rs b/src/codec/adhoc/frame.rs
index 1d2c303..4b296a2 100755
--- a/src/codec/adhoc/frame.rs
+++ b/src/codec/adhoc/frame.rs
@@ -244,9 +244,8 @@ impl FrameCodec {
                     parabola.compute_coefs();
                     let predicted = truncate_sample(parabola.eval(3.0));
 
-                    let entropy = (current as i32 - predicted as i32)
-                        .clamp(i16::MIN as i32 + 1, i16::MAX as i32 - 1)
-                        as i16;
+                    //wraps around when the difference doesn't fit, the decoder wraps back
+                    let entropy = current.wrapping_sub(predicted);
 
                     max_entropy = max_entropy.max(entropy);
                     stream.write_compressed(divisor_exp, entropy);
@@ -281,9 +280,8 @@ impl FrameCodec {
                     parabola.compute_coefs();
                     let predicted = truncate_sample(parabola.eval(3.0));
 
-                    let entropy = (current as i32 - predicted as i32)
-                        .clamp(i16::MIN as i32 + 1, i16::MAX as i32 - 1)
-                        as i16;
+                    //wraps around when the difference doesn't fit, the decoder wraps back
+                    let entropy = current.wrapping_sub(predicted);
 
                     max_entropy = max_entropy.max(entropy);
                     stream.write_compressed(divisor_exp, entropy);
@@ -330,10 +328,8 @@ impl FrameCodec {
                         parabola.compute_coefs();
                         let predicted = truncate_sample(parabola.eval(3.0));
 
-                        //casted to i32 to avoid overflow issues
-                        let current = (entropy as i32 + predicted as i32)
-                            .clamp(i16::MIN as i32, i16::MAX as i32)
-                            as i16;
+                        //undoes the wrap around of the encoder
+                        let current = predicted.wrapping_add(entropy);
 
                         let decoded_sample = normalize_sample(current).clamp(-1.0, 1.0);
                         sample_buffer.push_back(decoded_sample);
@@ -357,10 +353,8 @@ impl FrameCodec {
                         parabola.compute_coefs();
                         let predicted = truncate_sample(parabola.eval(3.0));
 
-                        //casted to i32 to avoid overflow issues
-                        let current = (entropy as i32 + predicted as i32)
-                            .clamp(i16::MIN as i32, i16::MAX as i32)
-                            as i16;
+                        //undoes the wrap around of the encoder
+                        let current = predicted.wrapping_add(entropy);
 
                         let decoded_sample = normalize_sample(current).clamp(-1.0, 1.0);
                         sample_buffer.push_back(decoded_sample);
@@ -390,7 +384,7 @@ impl FrameCodec {
             ];
             parabola.compute_coefs();
             let predicted = truncate_sample(parabola.eval(3.0));
-            let entropy = (current as i32 - predicted as i32).abs() as u32;
+            let entropy = current.wrapping_sub(predicted).unsigned_abs() as u32;
             for k in 1..16 {
                 let quotient_bits = (entropy >> k) + 1;
                 let remainder_bits = k as u32;
diff --git a/src/collections/bitstream.rs b/src/collections/bitstream.rs
index f07f9d8..e2ba4d1 100755
--- a/src/collections/bitstream.rs
+++ b/src/collections/bitstream.rs
@@ -282,8 +282,9 @@ impl BitStream {
 
     pub fn write_compressed(&mut self, exponent: i16, entropy: i16) {
         let sign_bit = (entropy >> 15) & 1;
-        let mut quotient = entropy.abs() >> exponent;
-        let remainder = entropy.abs() & ((1 << exponent) - 1);
+        let magnitude = entropy.unsigned_abs();
+        let mut quotient = magnitude >> exponent;
+        let remainder = magnitude & ((1u16 << exponent) - 1);
         let remainder_size_in_bits = exponent as usize;
 
         //write sign bit
@@ -319,12 +320,11 @@ impl BitStream {
 
     pub fn read_compressed(&mut self, exponent: i16) -> i16 {
         //write sign bit
-        let sign_bit = self.read_bit() as i16;
+        let sign_bit = self.read_bit();
         let remainder_size_in_bits = exponent as u32;
-        let divisor = 1 << exponent;
 
         //read zero(expected)
-        let mut quotient = 0;
+        let mut quotient = 0u32;
 
         #[allow(unused_assignments)]
         let mut bit_chunk = 0;
@@ -334,7 +334,7 @@ impl BitStream {
             bit_chunk.count_zeros() == 0
         } {
             self.offset_bit_cursor(128);
-            quotient += 128;
+            quotient = quotient.wrapping_add(128);
         }
 
         // 128-bit chunk that was peeked cointains zero so count
@@ -345,12 +345,17 @@ impl BitStream {
             bit_chunk >>= 1;
         }
         self.offset_bit_cursor(zero_bit_pos + 1);
-        quotient += zero_bit_pos.max(0) as i16;
+        quotient = quotient.wrapping_add(zero_bit_pos as u32);
 
         // read
-        let remainder = self.read_bits(remainder_size_in_bits as usize) as i16;
-        let unsigned_val = divisor * quotient + remainder;
-        unsigned_val * (-sign_bit) + unsigned_val * (1 - sign_bit)
+        let remainder = self.read_bits(remainder_size_in_bits as usize) as u32;
+        // a magnitude of 32768 wraps around to i16::MIN
+        let magnitude = (quotient << exponent).wrapping_add(remainder) as i16;
+        if sign_bit == 1 {
+            magnitude.wrapping_neg()
+        } else {
+            magnitude
+        }
     }
 
     fn chunk_index(&self) -> usize {
-- 
2.43.0


From fa414e14ef2638f0137a8d5159ee7f56b3dfa273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:45 +0000
Subject: [PATCH 06/28] fix: leave the caller's buffer beyond the decoded
 samples alone

---
 src/codec/adhoc.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/codec/adhoc.rs b/src/codec/adhoc.rs
index 2f81862..d107d2b 100755
--- a/src/codec/adhoc.rs
+++ b/src/codec/adhoc.rs
@@ -316,7 +316,7 @@ impl AdhocCodec {
         }
 
         //scale up signal
-        for s in pcm_out {
+        for s in &mut pcm_out[..pcm_out_cursor] {
             *s *= self.scale
         }
 
-- 
2.43.0


From 65960e2acf3f99142b340ff5c3f25a95296b7e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:47 +0000
Subject: [PATCH 07/28] fix: drop the frames of the old stream when a codec is
 re-encoded

A shorter stream encoded after init() kept the tail of the previous one.
NibbleList::push also merged the new value with a stale one.
---
 src/codec/adhoc/frame.rs       | 30 +++++++++++++++++-------------
 src/collections/bitvec.rs      |  7 +++++++
 src/collections/nibble_list.rs | 12 +++++++++---
 3 files changed, 33 insertions(+), 16 deletions(-)

diff --git a/src/codec/adhoc/frame.rs b/src/codec/adhoc/frame.rs
index 4b296a2..6c749c8 100755
--- a/src/codec/adhoc/frame.rs
+++ b/src/codec/adhoc/frame.rs
@@ -95,23 +95,27 @@ impl FrameHeaders {
         let header_cursor = self.header_cursor as usize;
         let is_init = is_init as u64;
 
-        if header_cursor >= self.divisor_exp_list.len() {
-            self.divisor_exp_list.push(exponent);
-            self.frame_size_list.push(num_samples);
-            self.bit_cursor_list.push(bit_cursor as u64);
-            self.is_init_frame_list.push(is_init);
-            self.stack_history_list.push(stack_history);
-        } else {
-            self.divisor_exp_list.set(header_cursor, exponent);
-            self.is_init_frame_list.set(header_cursor, is_init);
-            self.frame_size_list[header_cursor] = num_samples;
-            self.bit_cursor_list[header_cursor] = bit_cursor as u64;
-            self.stack_history_list[header_cursor] = stack_history;
-        }
+        //anything from the cursor on belongs to a stream that is being overwritten
+        self.truncate(header_cursor);
+
+        self.divisor_exp_list.push(exponent);
+        self.frame_size_list.push(num_samples);
+        self.bit_cursor_list.push(bit_cursor as u64);
+        self.is_init_frame_list.push(is_init);
+        self.stack_history_list.push(stack_history);
 
         self.header_cursor += 1;
     }
 
+    /// forgets every header from index `len` on
+    fn truncate(&mut self, len: usize) {
+        self.divisor_exp_list.truncate(len);
+        self.is_init_frame_list.truncate(len);
+        self.frame_size_list.truncate(len);
+        self.bit_cursor_list.truncate(len);
+        self.stack_history_list.truncate(len);
+    }
+
     pub fn get(&self, index: usize) -> Option<FrameHeader> {
         (index < self.len()).then(|| {
             let exponent = self.divisor_exp_list.get(index);
diff --git a/src/collections/bitvec.rs b/src/collections/bitvec.rs
index e7a858f..b3917ba 100755
--- a/src/collections/bitvec.rs
+++ b/src/collections/bitvec.rs
@@ -21,6 +21,13 @@ impl BitVec {
         self.bit_cursor = 0;
     }
 
+    /// # Description
+    /// drops every bit from `len` on, does nothing when there are fewer bits
+    pub fn truncate(&mut self, len: usize) {
+        self.bit_cursor = self.bit_cursor.min(len as u128);
+        self.binary.truncate((self.bit_cursor as usize + 63) / 64);
+    }
+
     /// # Description
     /// return number of bits written to vector
     pub fn len(&self) -> usize {
diff --git a/src/collections/nibble_list.rs b/src/collections/nibble_list.rs
index 6fbb91e..054a6e8 100755
--- a/src/collections/nibble_list.rs
+++ b/src/collections/nibble_list.rs
@@ -31,12 +31,12 @@ impl NibbleList {
 
     pub fn push(&mut self, val: u8) {
         let block_idx = self.nibble_count as usize / 2;
-        let nibble_idx = self.nibble_count % 2;
         if block_idx >= self.data.len() {
             self.data.push(0);
         }
-        self.data[block_idx] |= val << 4 * (nibble_idx);
         self.nibble_count += 1;
+        //the slot may hold a value from before a `clear` or `truncate`
+        self.set(self.nibble_count as usize - 1, val);
     }
 
     pub fn get(&self, idx: usize) -> u8 {
@@ -55,13 +55,19 @@ impl NibbleList {
             return;
         }
         self.data[block_idx] &= (0x0f * nibble_idx) | (0xf0 * (1 - nibble_idx));
-        self.data[block_idx] |= val << 4 * (nibble_idx);
+        self.data[block_idx] |= (val & 0x0f) << 4 * (nibble_idx);
     }
 
     pub fn clear(&mut self) {
         self.nibble_count = 0;
     }
 
+    /// drops every nibble from `len` on, does nothing when there are fewer nibbles
+    pub fn truncate(&mut self, len: usize) {
+        self.nibble_count = self.nibble_count.min(len as u32);
+        self.data.truncate((self.nibble_count as usize + 1) / 2);
+    }
+
     pub fn iter<'a>(&'a self) -> impl Iterator<Item = u8> + 'a {
         (0..self.len()).map(move |idx| self.get(idx))
     }
-- 
2.43.0


From 261ac2163fb10e292c63da602d76e077b83c94e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:20 +0000
Subject: [PATCH 08/28] fix: seeking at or past the end of an AdhocCodec leaves
 nothing to decode

It panicked, as did any seek in an empty stream and very large offsets.
---
 src/codec/adhoc.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/codec/adhoc.rs b/src/codec/adhoc.rs
index d107d2b..7dd2194 100755
--- a/src/codec/adhoc.rs
+++ b/src/codec/adhoc.rs
@@ -369,7 +369,7 @@ impl Streamable for AdhocCodec {
         match dt {
             SeekFrom::Start(dt) => {
                 let offset = (frequency_in_millis * (dt as f32)) as u64;
-                let offset_in_blocks = offset * channels;
+                let offset_in_blocks = offset.saturating_mul(channels);
 
                 let mut samples_skipped = 0;
                 let mut header_block_index = 0;
@@ -393,6 +393,12 @@ impl Streamable for AdhocCodec {
                     header_block_index += 1;
                 }
 
+                //the target is at or beyond the end: there is nothing left to decode
+                if header_block_index >= header_block_len {
+                    frame_header_list.set_cursor(frame_header_list.len() as u32);
+                    return;
+                }
+
                 //pinned down start header
                 let start_header_index = header_block_index * channels as usize;
                 let start_header = frame_header_list
-- 
2.43.0


From e7311cd433f94a6854a7167a575c097b0c0f8ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:23 +0000
Subject: [PATCH 09/28] fix: count all container overhead in
 AdhocCodec::filesize_upperbound

The estimate was 352 bits below the size of every saved file.
---
 src/codec/adhoc.rs       | 6 +++++-
 src/codec/adhoc/frame.rs | 6 +++---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/codec/adhoc.rs b/src/codec/adhoc.rs
index 7dd2194..95169e1 100755
--- a/src/codec/adhoc.rs
+++ b/src/codec/adhoc.rs
@@ -105,9 +105,13 @@ impl AdhocCodec {
         */
         let audio_stream_header =         
             //number of bits AudioStream need to store info 
-            mem::size_of::<StreamInfo>() as u64 * 8; 
+            mem::size_of::<StreamInfo>() as u64 * 8 +
+            //the info is optional, a tag byte tells if it's there
+            8; 
 
         let bitstream = self.stream.capacity_upperbound() as u64+ 
+          //length of the vec that holds the bits
+          64 +
           //streams internal cursor + capacity 
           128*2 ;
 
diff --git a/src/codec/adhoc/frame.rs b/src/codec/adhoc/frame.rs
index 6c749c8..e1bca92 100755
--- a/src/codec/adhoc/frame.rs
+++ b/src/codec/adhoc/frame.rs
@@ -43,9 +43,9 @@ impl FrameHeaders {
     pub fn calculate_weight_upperbound(&self) -> u64 {
         let len = self.len() as u64;
 
-        //serde bincode needs to put length of vec before the elements get
-        //written out, this is my guess at the size(in bits) of the length value
-        let vector_header_size = 8;
+        //serde bincode puts the length of a vec before the elements get
+        //written out, as a 64 bit value
+        let vector_header_size = 64;
 
         let divisor_weight_in_bits = self.divisor_exp_list.capacity() as u64 + vector_header_size;
 
-- 
2.43.0


From a6b2322d5cf503937e68631f266d8b44d56f760d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:21 +0000
Subject: [PATCH 10/28] fix: reject inconsistent .adhoc files and tolerate
 arbitrary payload bits

Unchecked levels, channel counts, list lengths and bit positions of a file
made load, decode or seek panic or allocate without bound.
---
 src/codec/adhoc.rs             | 20 ++++++++++++++++++--
 src/codec/adhoc/frame.rs       | 13 +++++++++++++
 src/collections/bitstream.rs   | 13 ++++---------
 src/collections/bitvec.rs      |  6 ++++++
 src/collections/nibble_list.rs |  6 ++++++
 5 files changed, 47 insertions(+), 11 deletions(-)

diff --git a/src/codec/adhoc.rs b/src/codec/adhoc.rs
index 95169e1..2e19c76 100755
--- a/src/codec/adhoc.rs
+++ b/src/codec/adhoc.rs
@@ -18,6 +18,8 @@ pub use frame::*;
 
 pub const MAX_DECODE_ATTEMPTS: usize = 10;
 
+const MAX_COMPRESSION_LEVEL: u32 = 10;
+
 #[derive(Copy, Clone)]
 pub enum CodecState {
     Init,
@@ -129,7 +131,7 @@ impl AdhocCodec {
     /// # Description
     /// use this to specify compression `level` where level is 0-10, where 0 is little to no loss in quality while 10 is very,very lossy
     pub fn with_compression_level(mut self, mut level: u32) -> Self {
-        level = level.clamp(0, 10);
+        level = level.clamp(0, MAX_COMPRESSION_LEVEL);
         let scale = (1 << level) as f32;
         self.compression_level = level;
         self.scale = scale;
@@ -198,8 +200,22 @@ impl AdhocCodec {
         bincode::deserialize_from::<_, SlimAdhocCodec>(res)
             .ok()
             .and_then(|slim| {
-                let scale = (1 << slim.compression_level) as f32;
                 let info = slim.stream.info()?;
+                let num_channels = info.channels as usize;
+                let num_frames = slim.frame_header_list.len();
+
+                //don't trust the contents of the file
+                let is_valid = slim.compression_level <= MAX_COMPRESSION_LEVEL
+                    && num_channels > 0
+                    && num_channels <= num_frames.max(u16::MAX as usize)
+                    && num_frames % num_channels == 0
+                    && slim.frame_header_list.is_consistent();
+
+                if !is_valid {
+                    return None;
+                }
+
+                let scale = (1 << slim.compression_level) as f32;
                 let mut adhoc_codec = Self {
                     compression_level: slim.compression_level,
                     channel_state_list: (0..info.channels)
diff --git a/src/codec/adhoc/frame.rs b/src/codec/adhoc/frame.rs
index e1bca92..59c6796 100755
--- a/src/codec/adhoc/frame.rs
+++ b/src/codec/adhoc/frame.rs
@@ -107,6 +107,19 @@ impl FrameHeaders {
         self.header_cursor += 1;
     }
 
+    /// # Description
+    /// checks that every list holds as many elements as there are headers,
+    /// which isn't a given when the headers come from a file
+    pub fn is_consistent(&self) -> bool {
+        let len = self.len();
+        self.divisor_exp_list.is_consistent()
+            && self.is_init_frame_list.is_consistent()
+            && self.is_init_frame_list.len() == len
+            && self.frame_size_list.len() == len
+            && self.bit_cursor_list.len() == len
+            && self.stack_history_list.len() == len
+    }
+
     /// forgets every header from index `len` on
     fn truncate(&mut self, len: usize) {
         self.divisor_exp_list.truncate(len);
diff --git a/src/collections/bitstream.rs b/src/collections/bitstream.rs
index e2ba4d1..bf1273e 100755
--- a/src/collections/bitstream.rs
+++ b/src/collections/bitstream.rs
@@ -151,18 +151,13 @@ impl BitStream {
         let nxt_chunk_idx = cur_chunk_idx + 1;
         let chunk_bit_idx = self.chunk_bit_index();
 
-        self.allocate_if_needed(cur_chunk_idx);
-        self.allocate_if_needed(nxt_chunk_idx);
-
-        // return 0 if oob
-        if cur_chunk_idx >= self.binary.len() {
-            return 0;
-        }
+        // everything out of bounds counts as 0
+        let chunk = |chunk_idx: usize| self.binary.get(chunk_idx).copied().unwrap_or(0);
 
-        bits |= self.binary[cur_chunk_idx] >> chunk_bit_idx;
+        bits |= chunk(cur_chunk_idx) >> chunk_bit_idx;
         let remaining_bits = 128 - chunk_bit_idx;
         if remaining_bits < bits_to_be_read {
-            bits |= self.binary[nxt_chunk_idx] << remaining_bits
+            bits |= chunk(nxt_chunk_idx) << remaining_bits
         }
 
         bits & mask
diff --git a/src/collections/bitvec.rs b/src/collections/bitvec.rs
index b3917ba..9c85631 100755
--- a/src/collections/bitvec.rs
+++ b/src/collections/bitvec.rs
@@ -34,6 +34,12 @@ impl BitVec {
         self.bit_cursor as usize
     }
 
+    /// # Description
+    /// true when the buffer really holds `len` bits, which isn't a given for untrusted data
+    pub fn is_consistent(&self) -> bool {
+        self.binary.len() as u128 * 64 >= self.bit_cursor
+    }
+
     /// # Description
     /// returns number of *bits* allocated in memory
     pub fn capacity(&self) -> usize {
diff --git a/src/collections/nibble_list.rs b/src/collections/nibble_list.rs
index 054a6e8..7dc0d76 100755
--- a/src/collections/nibble_list.rs
+++ b/src/collections/nibble_list.rs
@@ -29,6 +29,12 @@ impl NibbleList {
         self.data.capacity() * 8
     }
 
+    /// # Description
+    /// true when the buffer really holds `len` nibbles, which isn't a given for untrusted data
+    pub fn is_consistent(&self) -> bool {
+        self.data.len() >= (self.len() + 1) / 2
+    }
+
     pub fn push(&mut self, val: u8) {
         let block_idx = self.nibble_count as usize / 2;
         if block_idx >= self.data.len() {
-- 
2.43.0


From f259268e22495637a239f12abcd2780f0f7032b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:38 +0000
Subject: [PATCH 11/28] fix: find the data chunk of WAV files by walking the
 chunks

Files below 256 bytes were rejected, a 'data' inside metadata was taken for
the data chunk (or panicked near the end of the first 256 bytes), chunks
behind the data became audio, and files without channels were accepted.
---
 src/codec/wav.rs | 84 +++++++++++++++++++++++-------------------------
 1 file changed, 40 insertions(+), 44 deletions(-)

diff --git a/src/codec/wav.rs b/src/codec/wav.rs
index 5855b70..f9adf6e 100755
--- a/src/codec/wav.rs
+++ b/src/codec/wav.rs
@@ -135,46 +135,40 @@ impl WavCodec {
     where
         Resource: Read + Seek,
     {
-        let mut header_binary = [0u8; 256];
-
+        let mut wav_binary = Vec::<u8>::new();
         wav_res
-            .read_exact(&mut header_binary)
-            .map_err(|_| "failed to read header bytes")?;
+            .read_to_end(&mut wav_binary)
+            .map_err(|_| "failed to read wav file")?;
+
+        //everything up to (and excluding) the header of the data chunk
+        const FORMAT_HEADER_LEN: usize = 36;
 
-        let mut header_slice = &header_binary[..];
         let mut header = RawWavHeader::default();
+        header.as_bytes_mut()[..FORMAT_HEADER_LEN].copy_from_slice(
+            wav_binary
+                .get(..FORMAT_HEADER_LEN)
+                .ok_or("failed to read header bytes")?,
+        );
+
+        if &header.riff != b"RIFF" || &header.wave != b"WAVE" || &header.fmt != b"fmt " {
+            return Err("not a wav file");
+        }
 
-        // println!("buffer size ={}", wav_binary.len());
-
-        let (data_start, _) = header_binary
-            .windows(4)
-            .enumerate()
-            .find(|(_, window)| {
-                let number = [b'd', b'a', b't', b'a'];
-                window == &number
-            })
-            .ok_or("data region not found")?;
-
-        header_slice
-            .clone()
-            .read(header.as_bytes_mut())
-            .map_err(|_| "header failed to read")?;
-
-        header
-            .data_header
-            .iter_mut()
-            .zip(header_slice[data_start..data_start + 4].iter())
-            .for_each(|(data_header_byte, &b)| {
-                *data_header_byte = b;
-            });
-
-        header_slice = &header_slice[data_start + 4..];
-        header.file_size_data = u32::from_le_bytes([
-            header_slice[0],
-            header_slice[1],
-            header_slice[2],
-            header_slice[3],
-        ]);
+        //skip from chunk to chunk (they are padded to an even size) until the data is found
+        let mut chunk_start = 12;
+        let data_start = loop {
+            let chunk_header = wav_binary
+                .get(chunk_start..chunk_start + 8)
+                .ok_or("data region not found")?;
+            let (id, size) = chunk_header.split_at(4);
+            let size = u32::from_le_bytes([size[0], size[1], size[2], size[3]]);
+            chunk_start += 8;
+            if id == b"data" {
+                header.file_size_data = size;
+                break chunk_start;
+            }
+            chunk_start += size as usize + (size % 2) as usize;
+        };
 
         if header.bits_per_sample != 16 && header.bits_per_sample != 8 {
             return Err("invalid bits per sample, either 16 or 8 bits per sample is supported ");
@@ -183,17 +177,16 @@ impl WavCodec {
             return Err("formats other than PCM liner isn't supported");
         }
 
+        if header.num_channels < 1 {
+            return Err("invalid number of channels");
+        }
+
         // println!("parsed header: {}",header);
         // println!("pcm data = {} byles", wav_binary.len());
 
-        wav_res
-            .seek(SeekFrom::Start(data_start as u64 + 8))
-            .map_err(|_| "failed to seek to pcm data")?;
-
-        let mut pcm = Vec::<u8>::new();
-        wav_res
-            .read_to_end(&mut pcm)
-            .map_err(|_| "failed to read to end")?;
+        //chunks after the data aren't audio
+        let mut pcm = wav_binary.split_off(data_start);
+        pcm.truncate(header.file_size_data as usize);
 
         if header.bits_per_sample == 8 {
             //convert 8bit stream to 16bit
@@ -209,6 +202,9 @@ impl WavCodec {
             }
         }
 
+        //a sample that was cut in half is lost
+        pcm.truncate(pcm.len() / 2 * 2);
+
         // println!("header:\n{}\n", header);
 
         Ok(Self {
-- 
2.43.0


From 4646edb9af844bc5f042e2dcd34a70996884ef5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:40 +0000
Subject: [PATCH 12/28] fix: write the whole WAV header even if the writer
 takes only part of it

---
 src/codec/wav.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/codec/wav.rs b/src/codec/wav.rs
index f9adf6e..6953b96 100755
--- a/src/codec/wav.rs
+++ b/src/codec/wav.rs
@@ -124,7 +124,7 @@ impl WavCodec {
         header.bits_per_sample = 16;
         header.file_size_data = self.pcm.len() as u32;
         // println!("header:\n{}\n",header);
-        dst.write(header.as_bytes())
+        dst.write_all(header.as_bytes())
             .map_err(|_| "failed to write header")?;
         dst.write_all(&self.pcm)
             .map_err(|_| "failed to write pcm data")
-- 
2.43.0


From 7a2c2f7536d3cf0e4d0b94be53f26297bef682fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:43 +0000
Subject: [PATCH 13/28] fix: don't overflow the WAV header fields of wide or
 fast streams

Byte rate and block align overflowed their signed types, e.g. from 2048
channels on, and more than 32767 channels could not be loaded.
---
 src/codec/wav.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/codec/wav.rs b/src/codec/wav.rs
index 6953b96..f3fd6d6 100755
--- a/src/codec/wav.rs
+++ b/src/codec/wav.rs
@@ -16,10 +16,10 @@ struct RawWavHeader {
     fmt: [u8; 4],
     cksize: u32,
     audio_format: i16,
-    num_channels: i16,
-    frequncy: i32,
-    bytes_per_sec: i32,
-    block_align: i16,
+    num_channels: u16,
+    frequncy: u32,
+    bytes_per_sec: u32,
+    block_align: u16,
     bits_per_sample: i16,
     data_header: [u8; 4],
     file_size_data: u32,
@@ -115,12 +115,13 @@ impl WavCodec {
     {
         let mut header = RawWavHeader::default();
         header.file_size = mem::size_of::<RawWavHeader>() as u32 - 8 + self.pcm.len() as u32;
-        header.frequncy = self.info.sample_rate as i32;
+        header.frequncy = self.info.sample_rate;
         header.audio_format = 1;
-        header.num_channels = self.info.channels as i16;
+        header.num_channels = self.info.channels as u16;
         header.cksize = 16;
-        header.bytes_per_sec = (header.frequncy * header.num_channels as i32 * 16) / 8;
-        header.block_align = (header.num_channels * 16) / 8;
+        //two bytes for each sample of a block
+        header.block_align = header.num_channels.wrapping_mul(2);
+        header.bytes_per_sec = header.frequncy.wrapping_mul(self.info.channels.wrapping_mul(2));
         header.bits_per_sample = 16;
         header.file_size_data = self.pcm.len() as u32;
         // println!("header:\n{}\n",header);
@@ -209,7 +210,7 @@ impl WavCodec {
 
         Ok(Self {
             info: StreamInfo {
-                sample_rate: header.frequncy as u32,
+                sample_rate: header.frequncy,
                 channels: header.num_channels as u32,
             },
             pcm,
-- 
2.43.0


From d0678749e4e0c6ac97a7ee25b232427a20bd5ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:46 +0000
Subject: [PATCH 14/28] fix: WavCodec::seek works from the end, past the end
 and in empty streams

It panicked on an empty stream, clamped into the middle of the last block,
took the start for the end, and overflowed on large distances.
---
 src/codec/wav.rs | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/src/codec/wav.rs b/src/codec/wav.rs
index f3fd6d6..2721f7f 100755
--- a/src/codec/wav.rs
+++ b/src/codec/wav.rs
@@ -299,24 +299,28 @@ impl Streamable for WavCodec {
 
         let sample_rate_in_milliseconds = sample_rate / 1000.0;
 
-        match dt {
+        //number of complete blocks that are skipped to get `dt` milliseconds ahead
+        let to_samples = |dt: f32| {
+            ((sample_rate_in_milliseconds * dt) as i64).saturating_mul(num_channels)
+        };
+        //the end of the stream as a block boundary
+        let end = (num_samples / num_channels) * num_channels;
+
+        let sample_index = match dt {
             SeekFrom::Current(dt) => {
-                let sample_offset = (sample_rate_in_milliseconds * (dt as f32)) as i64;
                 let block_index = (self.short_cursor as i64 / num_channels) * num_channels;
-                self.short_cursor =
-                    (block_index + sample_offset * num_channels).clamp(0, num_samples - 1) as u64;
-            }
-            SeekFrom::Start(dt) => {
-                let sample_offset = (sample_rate_in_milliseconds * (dt as f32)) as i64;
-                self.short_cursor = (sample_offset * num_channels).clamp(0, num_samples - 1) as u64;
+                block_index.saturating_add(to_samples(dt as f32))
             }
-            SeekFrom::End(dt) => {
-                let sample_offset = (sample_rate_in_milliseconds * (dt as f32)) as i64;
-                let block_index = num_samples - num_samples;
-                self.short_cursor =
-                    (block_index + sample_offset * num_channels).clamp(0, num_samples - 1) as u64;
-            }
-        }
+            SeekFrom::Start(dt) => to_samples(dt as f32),
+            SeekFrom::End(dt) => end.saturating_add(to_samples(dt as f32)),
+        };
+
+        //stay on a block boundary even if the product above saturated
+        self.short_cursor = if sample_index >= end {
+            end as u64
+        } else {
+            (sample_index.max(0) / num_channels * num_channels) as u64
+        };
     }
 }
 
-- 
2.43.0


From 9df39810ec3e880119746e1807e7b0d7248cd1eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:23 +0000
Subject: [PATCH 15/28] fix: decode WAV samples without viewing unaligned bytes
 as i16

Decoding an empty stream built a misaligned slice, which is undefined
behaviour and aborts in debug builds.
---
 src/codec/wav.rs | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/codec/wav.rs b/src/codec/wav.rs
index 2721f7f..6f46113 100755
--- a/src/codec/wav.rs
+++ b/src/codec/wav.rs
@@ -222,13 +222,9 @@ impl WavCodec {
         self.pcm.len() / 2
     }
 
-    fn get_pcm(pcm: &Vec<u8>) -> &[i16] {
-        unsafe { slice::from_raw_parts(pcm.as_ptr() as *const i16, pcm.len() / 2) }
-    }
-
-    #[allow(dead_code)]
-    fn get_pcm_mut(pcm: &mut Vec<u8>) -> &mut [i16] {
-        unsafe { slice::from_raw_parts_mut(pcm.as_ptr() as *mut i16, pcm.len() / 2) }
+    /// the sample at `sample_idx` (the bytes aren't necessarily aligned for an i16)
+    fn get_sample(pcm: &[u8], sample_idx: usize) -> i16 {
+        i16::from_le_bytes([pcm[sample_idx * 2 + 0], pcm[sample_idx * 2 + 1]])
     }
 
     /// writes a sample at current cursor positions (will offset the cursor)
@@ -276,13 +272,12 @@ impl Streamable for WavCodec {
         let num_channels = self.info().channels();
         let stream_length = self.num_samples() as u64;
         let cursor = &mut self.short_cursor;
-        let samples_list = Self::get_pcm(&self.pcm);
 
         //makes sure we can't write partial PCM 'blocks'
         let valid_length = (out.len() / num_channels) * num_channels;
 
         while *cursor < stream_length && out_cursor < valid_length {
-            let sample_i16 = samples_list[*cursor as usize];
+            let sample_i16 = Self::get_sample(&self.pcm, *cursor as usize);
             let normalized_sample = normalize_sample(sample_i16);
             out[out_cursor] = normalized_sample;
             *cursor += 1;
-- 
2.43.0


From 18dfd2a48541c0fc78ace7f1d702786245d50c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:55 +0000
Subject: [PATCH 16/28] fix: keep the full base name of files whose name
 contains dots

The command line tool turned a.b.wav into a.adhoc, so a.b.wav and a.c.wav
overwrote each other's output.
---
 src/main.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 794666c..91eab3d 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -120,11 +120,11 @@ fn convert_wav_to_adhoc(input: &Path, output_dir: &Path, compression_level: u32)
     let mut file_dest = PathBuf::from(output_dir);
     // println!("dest = {:?}",file_dest);
 
+    //not `set_extension`, that would cut a name with more dots short
+    let mut file_name = file_name.to_os_string();
+    file_name.push(".adhoc");
     file_dest.push(file_name);
 
-    // println!("dest = {:?}",file_dest);
-    file_dest.set_extension("adhoc");
-    
     // println!("final dest = {:?}",file_dest);
 
     compressed_wav.save_to(File::create(file_dest).ok()?);
@@ -145,8 +145,11 @@ fn convert_adhoc_to_wav(input: &Path, output_dir: &Path) -> Option<()> {
     }
 
     let mut file_dest = PathBuf::from(output_dir);
+
+    //not `set_extension`, that would cut a name with more dots short
+    let mut file_name = file_name.to_os_string();
+    file_name.push(".wav");
     file_dest.push(file_name);
-    file_dest.set_extension("wav");
 
     dst_wav.save_to(File::create(file_dest).ok()?).ok()?;
 
-- 
2.43.0


From 27322efe1c4f8ccc86d2bc8da63d1403c0d4cdab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:56 +0000
Subject: [PATCH 17/28] fix: convert files of more than 1024 channels on the
 command line

A block did not fit the buffer, so the output was empty.
---
 src/main.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 91eab3d..4774de8 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -112,7 +112,8 @@ fn convert_wav_to_adhoc(input: &Path, output_dir: &Path, compression_level: u32)
         .with_compression_level(compression_level)
         .with_info(parsed_wav.info());
 
-    let mut buffer = [0.0; 1024];
+    //has to hold at least one block
+    let mut buffer = vec![0.0; parsed_wav.info().channels().max(1024)];
     while let Some(samples_read) = parsed_wav.decode(&mut buffer[..]) {
         compressed_wav.encode(&buffer[0..samples_read]);
     }
@@ -138,7 +139,8 @@ fn convert_adhoc_to_wav(input: &Path, output_dir: &Path) -> Option<()> {
     let mut src_adhoc = AdhocCodec::load(file)?;
     let mut dst_wav = WavCodec::new(src_adhoc.info());
 
-    let mut buffer = [0.0; 1024];
+    //has to hold at least one block
+    let mut buffer = vec![0.0; src_adhoc.info().channels().max(1024)];
 
     while let Some(samples_read) = src_adhoc.decode(&mut buffer[..]) {
         dst_wav.encode(&buffer[0..samples_read]);
-- 
2.43.0


From 55a0504bfac4f9dd2090c1f99d707b7d932c2a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:02 +0000
Subject: [PATCH 18/28] fix: clear old bits when a write overwrites the next
 chunk

---
 src/collections/bitstream.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/collections/bitstream.rs b/src/collections/bitstream.rs
index bf1273e..52f5d7e 100755
--- a/src/collections/bitstream.rs
+++ b/src/collections/bitstream.rs
@@ -129,10 +129,8 @@ impl BitStream {
 
         let remaining_bits = CHUNK_SIZE_IN_BITS - chunk_bit_idx;
         if remaining_bits < bits_to_be_written {
-            //clear
-            self.binary[nxt_chunk_idx] &= (1 << (bits_to_be_written - remaining_bits)) - 1;
-            //write
-            self.binary[nxt_chunk_idx] |= bits >> remaining_bits;
+            //clear everything that was there before and write
+            self.binary[nxt_chunk_idx] = bits >> remaining_bits;
         }
 
         self.offset_bit_cursor(bits_to_be_written as i128);
-- 
2.43.0


From 8fe9b8317df7e7b2351c5a24d505c1d687a602bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:05 +0000
Subject: [PATCH 19/28] fix: count only the used part of NibbleList in the file
 size bound

---
 src/collections/nibble_list.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/collections/nibble_list.rs b/src/collections/nibble_list.rs
index 7dc0d76..1ea9596 100755
--- a/src/collections/nibble_list.rs
+++ b/src/collections/nibble_list.rs
@@ -26,7 +26,7 @@ impl NibbleList {
     /// # Description
     /// returns total number of bits allocated in buffer
     pub fn capacity(&self) ->usize{
-        self.data.capacity() * 8
+        self.data.len() * 8
     }
 
     /// # Description
-- 
2.43.0


From b5cdd52e2c5e521d4056afcd1894874e8bd16aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:32 +0000
Subject: [PATCH 20/28] fix: CircularStack::is_empty told whether the stack is
 full

---
 src/collections/stack.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/collections/stack.rs b/src/collections/stack.rs
index f53592a..edf6a99 100755
--- a/src/collections/stack.rs
+++ b/src/collections/stack.rs
@@ -28,7 +28,7 @@ where
     }
 
     pub fn is_empty(&self) -> bool {
-        self.len >= self.data.len() as u32
+        self.len == 0
     }
 
     pub fn push(&mut self, item: T) {
-- 
2.43.0


From d9ee3f3ef4b28d9cc9850ef8865db02ff6e6586f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:57 +0000
Subject: [PATCH 21/28] fix: BitVec::get and set treat indices at or past the
 length as invalid

---
 src/collections/bitvec.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/collections/bitvec.rs b/src/collections/bitvec.rs
index 9c85631..c1e8a3f 100755
--- a/src/collections/bitvec.rs
+++ b/src/collections/bitvec.rs
@@ -72,7 +72,7 @@ impl BitVec {
         let chunk_idx = Self::chunk_index(idx);
         let chunk_bit_idx = Self::chunk_bit_index(idx);
 
-        if chunk_idx >= self.binary.len() {
+        if idx >= self.bit_cursor || chunk_idx >= self.binary.len() {
             return 0;
         }
 
@@ -86,7 +86,7 @@ impl BitVec {
         let chunk_idx = Self::chunk_index(idx);
         let chunk_bit_idx = Self::chunk_bit_index(idx);
 
-        if chunk_idx >= self.binary.len() {
+        if idx >= self.bit_cursor || chunk_idx >= self.binary.len() {
             return;
         }
 
-- 
2.43.0


From 3af1d264cbe994dee6c80d02b7f5283c510c1f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:28 +0000
Subject: [PATCH 22/28] fix: seek in integers, f32 lost blocks in streams of
 more than a few minutes

---
 src/codec/adhoc.rs |  5 +++--
 src/codec/wav.rs   | 29 +++++++++++------------------
 2 files changed, 14 insertions(+), 20 deletions(-)

diff --git a/src/codec/adhoc.rs b/src/codec/adhoc.rs
index 2e19c76..10504ad 100755
--- a/src/codec/adhoc.rs
+++ b/src/codec/adhoc.rs
@@ -370,7 +370,6 @@ impl Streamable for AdhocCodec {
     fn seek(&mut self, dt: SeekFrom) {
         let info = self.stream.info().expect("info not initalized");
         let channels = info.channels as u64;
-        let frequency_in_millis = info.sample_rate as f32 / 1000.0;
 
         self.init();
 
@@ -388,7 +387,9 @@ impl Streamable for AdhocCodec {
 
         match dt {
             SeekFrom::Start(dt) => {
-                let offset = (frequency_in_millis * (dt as f32)) as u64;
+                //f32 can't tell neighbouring blocks apart in streams of more than a few minutes
+                let offset = dt as u128 * info.sample_rate as u128 / 1000;
+                let offset = offset.min(u64::MAX as u128) as u64;
                 let offset_in_blocks = offset.saturating_mul(channels);
 
                 let mut samples_skipped = 0;
diff --git a/src/codec/wav.rs b/src/codec/wav.rs
index 6f46113..0717cbe 100755
--- a/src/codec/wav.rs
+++ b/src/codec/wav.rs
@@ -288,34 +288,27 @@ impl Streamable for WavCodec {
     }
 
     fn seek(&mut self, dt: SeekFrom) {
-        let sample_rate = self.info.sample_rate as f32;
-        let num_channels = self.info.channels() as i64;
-        let num_samples = self.num_samples() as i64;
-
-        let sample_rate_in_milliseconds = sample_rate / 1000.0;
+        let sample_rate = self.info.sample_rate as i128;
+        let num_channels = self.info.channels() as i128;
+        let num_samples = self.num_samples() as i128;
 
         //number of complete blocks that are skipped to get `dt` milliseconds ahead
-        let to_samples = |dt: f32| {
-            ((sample_rate_in_milliseconds * dt) as i64).saturating_mul(num_channels)
-        };
+        //(f32 can't tell neighbouring blocks apart in streams of more than a few minutes)
+        let to_samples = |dt: i128| (sample_rate * dt / 1000) * num_channels;
+
         //the end of the stream as a block boundary
         let end = (num_samples / num_channels) * num_channels;
 
         let sample_index = match dt {
             SeekFrom::Current(dt) => {
-                let block_index = (self.short_cursor as i64 / num_channels) * num_channels;
-                block_index.saturating_add(to_samples(dt as f32))
+                let block_index = (self.short_cursor as i128 / num_channels) * num_channels;
+                block_index + to_samples(dt as i128)
             }
-            SeekFrom::Start(dt) => to_samples(dt as f32),
-            SeekFrom::End(dt) => end.saturating_add(to_samples(dt as f32)),
+            SeekFrom::Start(dt) => to_samples(dt as i128),
+            SeekFrom::End(dt) => end + to_samples(dt as i128),
         };
 
-        //stay on a block boundary even if the product above saturated
-        self.short_cursor = if sample_index >= end {
-            end as u64
-        } else {
-            (sample_index.max(0) / num_channels * num_channels) as u64
-        };
+        self.short_cursor = sample_index.clamp(0, end) as u64;
     }
 }
 
-- 
2.43.0


From bd06c6bacc267778c61607810accf3de057135e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:59 +0000
Subject: [PATCH 23/28] fix: a re-encoded stream saved the audio of the old one
 behind the new

---
 src/codec/adhoc.rs           |  5 +++++
 src/codec/adhoc/frame.rs     |  5 +++++
 src/collections/bitstream.rs | 12 ++++++++++++
 3 files changed, 22 insertions(+)

diff --git a/src/codec/adhoc.rs b/src/codec/adhoc.rs
index 10504ad..50dd388 100755
--- a/src/codec/adhoc.rs
+++ b/src/codec/adhoc.rs
@@ -264,6 +264,11 @@ impl AdhocCodec {
         let deinterleaved_channel = &mut self.deinterleaved_channel;
         let seq = &mut self.seq;
 
+        //don't save the audio of an old stream along with the new one
+        if block_info.is_overwriting() {
+            stream.truncate();
+        }
+
         deinterleaved_channel.resize(num_chunks, 0.0);
 
         //de-interleave pcm by channel
diff --git a/src/codec/adhoc/frame.rs b/src/codec/adhoc/frame.rs
index 59c6796..85c4ac1 100755
--- a/src/codec/adhoc/frame.rs
+++ b/src/codec/adhoc/frame.rs
@@ -154,6 +154,11 @@ impl FrameHeaders {
         self.divisor_exp_list.len()
     }
 
+    /// tells if the next header replaces one that is already there
+    pub fn is_overwriting(&self) -> bool {
+        (self.header_cursor as usize) < self.len()
+    }
+
     pub fn reset(&mut self) {
         self.header_cursor = 0;
     }
diff --git a/src/collections/bitstream.rs b/src/collections/bitstream.rs
index 52f5d7e..0c58d9e 100755
--- a/src/collections/bitstream.rs
+++ b/src/collections/bitstream.rs
@@ -231,6 +231,18 @@ impl BitStream {
         }
     }
 
+    /// # Description
+    /// forgets everything right of (and including) the cursor, the memory is kept for later writes
+    pub fn truncate(&mut self) {
+        let chunk_idx = self.chunk_index();
+        let chunk_bit_idx = self.chunk_bit_index();
+        self.binary.truncate(chunk_idx.saturating_add(1));
+        if let Some(chunk) = self.binary.get_mut(chunk_idx) {
+            *chunk &= (1 << chunk_bit_idx) - 1;
+        }
+        self.capacity = self.capacity.min(self.bit_cursor);
+    }
+
     pub fn zero(&mut self) {
         self.binary.iter_mut().for_each(|e| *e = 0);
     }
-- 
2.43.0


From 34f0d4d14ff7caa3dd341b10cd44de1c21b83aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:39 +0000
Subject: [PATCH 24/28] fix: playback stopped at a run of ten empty frames

---
 src/codec/adhoc.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/codec/adhoc.rs b/src/codec/adhoc.rs
index 50dd388..9d24370 100755
--- a/src/codec/adhoc.rs
+++ b/src/codec/adhoc.rs
@@ -311,10 +311,13 @@ impl AdhocCodec {
             //decode and load buffers if empty
             while attempts < MAX_DECODE_ATTEMPTS && is_buffers_empty(channel_list) {
                 //decode more data
+                let mut is_end_of_stream = true;
                 for channel_idx in 0..num_channels {
-                    channel_list[channel_idx].decode_frame(stream, block_info);
+                    let frame = channel_list[channel_idx].decode_frame(stream, block_info);
+                    is_end_of_stream &= frame.is_none();
                 }
-                attempts += 1;
+                //a run of empty frames isn't the end of the stream
+                attempts += is_end_of_stream as usize;
             }
             attempts
         };
-- 
2.43.0


From 64d7ebb9ac5d7a515b5e575b269ad38335fd45d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:36 +0000
Subject: [PATCH 25/28] fix: a WAV file that ends within a block played as
 partial blocks

decode returned part of a block at the end of such a file. Playback of whole
blocks is what Streamable promises everywhere else (encode ignores a partial
block, decode never returns one into a buffer that isn't a multiple of the
channel count).
---
 src/codec/wav.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/codec/wav.rs b/src/codec/wav.rs
index 0717cbe..e4083b7 100755
--- a/src/codec/wav.rs
+++ b/src/codec/wav.rs
@@ -203,8 +203,9 @@ impl WavCodec {
             }
         }
 
-        //a sample that was cut in half is lost
-        pcm.truncate(pcm.len() / 2 * 2);
+        //a block that was cut short is lost (playback never ends within a block)
+        let block_len = 2 * header.num_channels as usize;
+        pcm.truncate(pcm.len() / block_len * block_len);
 
         // println!("header:\n{}\n", header);
 
-- 
2.43.0


From a5fe8ad5ce044bf161f062e7965a8a4c310cf697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:08 +0000
Subject: [PATCH 26/28] fix: save_to reported success when a buffered writer
 failed to flush

---
 src/codec/adhoc.rs | 7 +++++--
 src/codec/wav.rs   | 4 +++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/codec/adhoc.rs b/src/codec/adhoc.rs
index 9d24370..46405e1 100755
--- a/src/codec/adhoc.rs
+++ b/src/codec/adhoc.rs
@@ -166,7 +166,7 @@ impl AdhocCodec {
     }
 
 
-    pub fn save_to<Resource>(&self, res: Resource) -> Option<()>
+    pub fn save_to<Resource>(&self, mut res: Resource) -> Option<()>
     where
         Resource: Write,
     {
@@ -183,7 +183,10 @@ impl AdhocCodec {
             frame_header_list: &self.frame_header_list,
         };
 
-        bincode::serialize_into(res, &slim).ok()
+        bincode::serialize_into(&mut res, &slim).ok()?;
+
+        //a buffered writer would swallow the error when it's dropped
+        res.flush().ok()
     }
 
     pub fn load<Resource>(res: Resource) -> Option<Self>
diff --git a/src/codec/wav.rs b/src/codec/wav.rs
index e4083b7..9477c25 100755
--- a/src/codec/wav.rs
+++ b/src/codec/wav.rs
@@ -128,7 +128,9 @@ impl WavCodec {
         dst.write_all(header.as_bytes())
             .map_err(|_| "failed to write header")?;
         dst.write_all(&self.pcm)
-            .map_err(|_| "failed to write pcm data")
+            .map_err(|_| "failed to write pcm data")?;
+        //a buffered writer would swallow the error when it's dropped
+        dst.flush().map_err(|_| "failed to write pcm data")
     }
 
     /// parses and loads wav file
-- 
2.43.0


From f5c40682a28ee4de5d56fd8bd6c0d4fb90921d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:05 +0000
Subject: [PATCH 27/28] fix: 16-bit samples lost a step on their way through
 f32

---
 src/codec.rs             | 8 ++++++++
 src/codec/adhoc/frame.rs | 8 ++++----
 src/codec/wav.rs         | 4 ++--
 3 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/codec.rs b/src/codec.rs
index fcf0ae4..3d559c5 100755
--- a/src/codec.rs
+++ b/src/codec.rs
@@ -26,6 +26,14 @@ fn truncate_sample(samp: f32) -> i16 {
     (samp.clamp(-1.0, 1.0) * ((i16::MAX) as f32)) as i16
 }
 
+/// converts an input sample to 16 bits
+/// ## Comments
+/// undoes `normalize_sample`, which `truncate_sample` doesn't always (it can end up one below).
+/// The predictions have to be truncated though, that's part of the format
+fn quantize_sample(samp: f32) -> i16 {
+    (samp.clamp(-1.0, 1.0) * ((i16::MAX) as f32)).round() as i16
+}
+
 #[derive(Copy, Clone, Default, Serialize, Deserialize)]
 /// A POD that contains basic information about an audio signal
 /// ## Comments
diff --git a/src/codec/adhoc/frame.rs b/src/codec/adhoc/frame.rs
index 85c4ac1..4e2ab01 100755
--- a/src/codec/adhoc/frame.rs
+++ b/src/codec/adhoc/frame.rs
@@ -232,7 +232,7 @@ impl FrameCodec {
                 // the stream and also record then in the history queue
                 let num_samples_pre_written = pcm.len().min(3);
                 for &samp in pcm[..num_samples_pre_written].iter() {
-                    let truncated = truncate_sample(samp);
+                    let truncated = quantize_sample(samp);
                     stream.write::<u16>(truncated as u16);
                     sample_history.push(truncated);
                 }
@@ -256,7 +256,7 @@ impl FrameCodec {
 
                 //entropy encode
                 for &sample in pcm[num_samples_pre_written..].iter() {
-                    let current = truncate_sample(sample);
+                    let current = quantize_sample(sample);
 
                     parabola.f = [
                         normalize_sample(sample_history.prev(3)),
@@ -292,7 +292,7 @@ impl FrameCodec {
                 });
 
                 for &sample in pcm[..].iter() {
-                    let current = truncate_sample(sample);
+                    let current = quantize_sample(sample);
 
                     parabola.f = [
                         normalize_sample(sample_history.prev(3)),
@@ -398,7 +398,7 @@ impl FrameCodec {
         let mut parabola = FixedParabola::new();
         let mut sample_history = sample_history_ref.clone();
         for &sample in remaining_samples.iter() {
-            let current = truncate_sample(sample);
+            let current = quantize_sample(sample);
             parabola.f = [
                 normalize_sample(sample_history.prev(3)),
                 normalize_sample(sample_history.prev(2)),
diff --git a/src/codec/wav.rs b/src/codec/wav.rs
index 9477c25..2437fcc 100755
--- a/src/codec/wav.rs
+++ b/src/codec/wav.rs
@@ -5,7 +5,7 @@ use std::{
     slice, str,
 };
 
-use super::{normalize_sample, truncate_sample, StreamInfo, Streamable};
+use super::{normalize_sample, quantize_sample, StreamInfo, Streamable};
 
 #[derive(Debug)]
 #[repr(C, align(1))]
@@ -264,7 +264,7 @@ impl Streamable for WavCodec {
         let num_channels = self.info.channels();
         let valid_len = (samples.len() / num_channels) * num_channels;
         for &samp in &samples[0..valid_len] {
-            let sample_i16 = truncate_sample(samp);
+            let sample_i16 = quantize_sample(samp);
             self.write_sample(sample_i16);
         }
         Some(valid_len)
-- 
2.43.0


From 0a91ba698a55240bfe9fdd701a5da757d82608be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:18 +0000
Subject: [PATCH 28/28] fix: the command line panicked on file names that are
 not valid UTF-8

---
 src/main.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 4774de8..bdb0fc1 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -9,6 +9,7 @@ use rayon::prelude::*;
 
 #[cfg(feature = "cli")]
 use std::{
+    ffi::OsStr,
     fs::File,
     path::{Path, PathBuf},
 };
@@ -63,7 +64,8 @@ pub fn cli() {
         )
         .get_matches();
 
-    let output_directory = m.value_of("output").unwrap_or("./");
+    //file names aren't necessarily valid UTF-8
+    let output_directory = m.value_of_os("output").unwrap_or_else(|| OsStr::new("./"));
 
     if Path::new(output_directory).is_dir() == false {
         eprintln!("directory specified is not valid!");
@@ -71,7 +73,7 @@ pub fn cli() {
     }
 
     let input_files = m
-        .values_of("INPUT")
+        .values_of_os("INPUT")
         .map(|values| values.into_iter().collect::<Vec<_>>())
         .unwrap_or_default();
 
-- 
2.43.0

