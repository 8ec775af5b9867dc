From fc8b2d0beb49432cecacfc907dcf60804dafdec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:41 +0000
Subject: [PATCH 1/7] verif: hooks guarded by --cfg rcp_verif (harness module,
 small processor buffer)

---
 chromaprint/src/audio_processor.rs | 3 +++
 chromaprint/src/lib.rs             | 9 +++++++++
 2 files changed, 12 insertions(+)

diff --git a/chromaprint/src/audio_processor.rs b/chromaprint/src/audio_processor.rs
index 691472a..9ceb21e 100644
--- a/chromaprint/src/audio_processor.rs
+++ b/chromaprint/src/audio_processor.rs
@@ -5,7 +5,10 @@ use rubato::Resampler;
 use crate::stages::{AudioConsumer, Stage};
 
 const MIN_SAMPLE_RATE: u32 = 1000;
+#[cfg(not(rcp_verif))]
 const MAX_BUFFER_SIZE: usize = 1024 * 32;
+#[cfg(rcp_verif)]
+const MAX_BUFFER_SIZE: usize = 4;
 
 pub struct AudioProcessor<C: AudioConsumer<f64>> {
     buffer: Box<[i16]>,
diff --git a/chromaprint/src/lib.rs b/chromaprint/src/lib.rs
index bac7a4e..fd928d6 100644
--- a/chromaprint/src/lib.rs
+++ b/chromaprint/src/lib.rs
@@ -1,4 +1,5 @@
 //! Pure Rust port of [chromaprint](https://acoustid.org/chromaprint)
+#![allow(unexpected_cfgs)]
 
 pub use audio_processor::ResetError;
 pub use compression::FingerprintCompressor;
@@ -22,3 +23,11 @@ mod quantize;
 mod rolling_image;
 mod stages;
 mod utils;
+
+/// Verification harnesses (kept outside of this repository), compiled in only with
+/// `--cfg rcp_verif` so that they can reach the crate-private stages of the pipeline.
+#[cfg(rcp_verif)]
+#[doc(hidden)]
+pub mod verif {
+    include!(env!("RCP_VERIF_HARNESS"));
+}
-- 
2.43.0


From 72eee5b4693444315d965f6b710afdf795a62b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:36 +0000
Subject: [PATCH 2/7] fix: restart a Fingerprinter from a clean state

start() left the samples buffered by the FFT stage, the fingerprint items
already computed and a resampler chosen for an earlier sample rate in place,
so a second fingerprint depended on the audio of the first one.
---
 chromaprint/src/audio_processor.rs | 2 ++
 chromaprint/src/chroma_filter.rs   | 1 +
 chromaprint/src/fft.rs             | 1 +
 3 files changed, 4 insertions(+)

diff --git a/chromaprint/src/audio_processor.rs b/chromaprint/src/audio_processor.rs
index 9ceb21e..fd57181 100644
--- a/chromaprint/src/audio_processor.rs
+++ b/chromaprint/src/audio_processor.rs
@@ -134,6 +134,8 @@ impl<C: AudioConsumer<f64>> AudioProcessor<C> {
 
         self.channels = channels;
         self.buffer_offset = 0;
+        self.input.clear();
+        self.resampler = None;
         self.consumer.reset();
 
         if self.target_sample_rate != sample_rate {
diff --git a/chromaprint/src/chroma_filter.rs b/chromaprint/src/chroma_filter.rs
index 0346887..28af660 100644
--- a/chromaprint/src/chroma_filter.rs
+++ b/chromaprint/src/chroma_filter.rs
@@ -54,6 +54,7 @@ impl<C: FeatureVectorConsumer> FeatureVectorConsumer for ChromaFilter<C> {
     fn reset(&mut self) {
         self.buffer_size = 1;
         self.buffer_offset = 0;
+        self.consumer.reset();
     }
 }
 
diff --git a/chromaprint/src/fft.rs b/chromaprint/src/fft.rs
index 6d2a726..3905eca 100644
--- a/chromaprint/src/fft.rs
+++ b/chromaprint/src/fft.rs
@@ -49,6 +49,7 @@ impl<C: FeatureVectorConsumer> Stage for Fft<C> {
 
 impl<C: FeatureVectorConsumer> AudioConsumer<f64> for Fft<C> {
     fn reset(&mut self) {
+        self.ring_buf.clear();
         self.consumer.reset();
     }
 
-- 
2.43.0


From 45ca9a7d963786ce81d48b31f74ff2622c7a7c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:37 +0000
Subject: [PATCH 3/7] fix: honour Configuration::with_interpolation

The flag was stored in the configuration (and is set by preset_test3) but never
reached the chroma stage.
---
 chromaprint/src/chroma.rs        | 6 ++++++
 chromaprint/src/fingerprinter.rs | 3 ++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/chromaprint/src/chroma.rs b/chromaprint/src/chroma.rs
index 2a78d09..5b419ff 100644
--- a/chromaprint/src/chroma.rs
+++ b/chromaprint/src/chroma.rs
@@ -33,6 +33,12 @@ impl<C: FeatureVectorConsumer> Chroma<C> {
         chroma
     }
 
+    /// Spreads the energy of each FFT bin over the two nearest notes when enabled.
+    pub(crate) fn with_interpolation(mut self, interpolate: bool) -> Self {
+        self.interpolate = interpolate;
+        self
+    }
+
     fn prepare_notes(&mut self, min_freq: u32, max_freq: u32, frame_size: usize, sample_rate: u32) {
         self.min_index = freq_to_index(min_freq, frame_size, sample_rate).max(1);
         self.max_index = freq_to_index(max_freq, frame_size, sample_rate).min(frame_size / 2);
diff --git a/chromaprint/src/fingerprinter.rs b/chromaprint/src/fingerprinter.rs
index 456b171..7fdb8c6 100644
--- a/chromaprint/src/fingerprinter.rs
+++ b/chromaprint/src/fingerprinter.rs
@@ -188,7 +188,8 @@ impl Fingerprinter {
             config.frame_size,
             DEFAULT_SAMPLE_RATE,
             filter,
-        );
+        )
+        .with_interpolation(config.interpolate);
         let fft = Fft::new(config.frame_size, config.frame_overlap, chroma);
         let processor = AudioProcessor::new(
             DEFAULT_SAMPLE_RATE,
-- 
2.43.0


From 5dfdd42dcf7f941de51776e96365284fc5c1f27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:22 +0000
Subject: [PATCH 4/7] fix: fpcalc feeds the rest of a packet that spans a chunk
 boundary

The remainder was sliced with the wrong end (panicking or dropping samples),
and a remainder longer than a whole chunk underflowed the next chunk's budget.
---
 fpcalc/src/main.rs | 32 +++++++++++++-------------------
 1 file changed, 13 insertions(+), 19 deletions(-)

diff --git a/fpcalc/src/main.rs b/fpcalc/src/main.rs
index b633661..f1c7a1b 100644
--- a/fpcalc/src/main.rs
+++ b/fpcalc/src/main.rs
@@ -310,21 +310,20 @@ pub fn main() -> anyhow::Result<()> {
                 }
             }
 
-            let first_part_size = frame_size;
-            let (chunk_done, first_part_size) = if chunk_limit > 0 {
-                let remaining = chunk_limit + extra_chunk_limit - chunk_size;
-                (first_part_size > remaining, first_part_size.min(remaining))
-            } else {
-                (false, first_part_size)
-            };
-
             buf.copy_interleaved_ref(audio_buf);
             let frame_data = buf.samples();
-            printer.consume(&frame_data[..first_part_size * reader.channel_count]);
+            let mut fed = 0;
 
-            chunk_size += first_part_size;
+            while chunk_limit > 0 && frame_size > chunk_limit + extra_chunk_limit - chunk_size {
+                let first_part_size = chunk_limit + extra_chunk_limit - chunk_size;
+                printer.consume(
+                    &frame_data[fed * reader.channel_count
+                        ..(fed + first_part_size) * reader.channel_count],
+                );
+                fed += first_part_size;
+                frame_size -= first_part_size;
+                chunk_size += first_part_size;
 
-            if chunk_done {
                 printer.finish();
 
                 let chunk_duration = (chunk_size - extra_chunk_limit) as f64 * 1.0
@@ -355,14 +354,9 @@ pub fn main() -> anyhow::Result<()> {
                 chunk_size = 0;
             }
 
-            frame_size -= first_part_size;
-            if frame_size > 0 {
-                printer.consume(
-                    &frame_data[(first_part_size * reader.channel_count)
-                        ..(frame_size * reader.channel_count)],
-                );
-            }
-
+            printer.consume(
+                &frame_data[fed * reader.channel_count..(fed + frame_size) * reader.channel_count],
+            );
             chunk_size += frame_size;
 
             if stream_done {
-- 
2.43.0


From 2388fa10c75f363ab04a9205b2d86f42f2e8e290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:36 +0000
Subject: [PATCH 5/7] fix: fpcalc --overlap keeps fingerprinting across chunks

Overlapping chunks replaced the fingerprinter with one that was never started
(panicking on the next packet); keep the state and print only the new items.
The overlap is a duration in seconds, and a stream shorter than the overlap no
longer underflows the duration of the last chunk.
---
 fpcalc/src/main.rs | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/fpcalc/src/main.rs b/fpcalc/src/main.rs
index f1c7a1b..7502153 100644
--- a/fpcalc/src/main.rs
+++ b/fpcalc/src/main.rs
@@ -274,10 +274,12 @@ pub fn main() -> anyhow::Result<()> {
 
     if chunk_limit > 0 && args.overlap {
         extra_chunk_limit = config.delay();
-        overlap = (config.delay() as f64) * 1.0 / (sample_rate as f64) / 1000.0;
+        overlap = config.delay() as f64 / f64::from(config.sample_rate());
     }
 
     let mut first_chunk = true;
+    // Number of already printed items (the state is kept between overlapping chunks).
+    let mut printed = 0;
 
     loop {
         let audio_buf = match reader.next_buffer() {
@@ -329,7 +331,12 @@ pub fn main() -> anyhow::Result<()> {
                 let chunk_duration = (chunk_size - extra_chunk_limit) as f64 * 1.0
                     / f64::from(reader.sample_rate)
                     + overlap;
-                result_printer.print_result(&printer, first_chunk, ts, chunk_duration);
+                result_printer.print_result(
+                    &printer.fingerprint()[printed..],
+                    first_chunk,
+                    ts,
+                    chunk_duration,
+                );
 
                 if args.ts {
                     ts = get_current_timestamp();
@@ -338,7 +345,7 @@ pub fn main() -> anyhow::Result<()> {
                 }
 
                 if args.overlap {
-                    printer = Fingerprinter::new(config);
+                    printed = printer.fingerprint().len();
                     ts -= overlap;
                 } else {
                     printer
@@ -368,9 +375,15 @@ pub fn main() -> anyhow::Result<()> {
     printer.finish();
 
     if chunk_size > 0 {
-        let chunk_duration =
-            (chunk_size - extra_chunk_limit) as f64 * 1.0 / f64::from(reader.sample_rate) + overlap;
-        result_printer.print_result(&printer, first_chunk, ts, chunk_duration);
+        let chunk_duration = chunk_size.saturating_sub(extra_chunk_limit) as f64 * 1.0
+            / f64::from(reader.sample_rate)
+            + overlap;
+        result_printer.print_result(
+            &printer.fingerprint()[printed..],
+            first_chunk,
+            ts,
+            chunk_duration,
+        );
     }
 
     Ok(())
@@ -386,8 +399,7 @@ struct ResultPrinter<'a> {
 }
 
 impl<'a> ResultPrinter<'a> {
-    fn print_result(&self, printer: &Fingerprinter, first: bool, timestamp: f64, duration: f64) {
-        let raw_fingerprint = printer.fingerprint();
+    fn print_result(&self, raw_fingerprint: &[u32], first: bool, timestamp: f64, duration: f64) {
         let fp = if self.raw {
             if self.signed {
                 // FIXME: Use `u32.case_signed()` once it becomes stable.
-- 
2.43.0


From d567b7f73c3da23d71fbc54f397e44c651c9c793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:11 +0000
Subject: [PATCH 6/7] Guarded accessor of a configuration's classifiers for the
 verification harness

---
 chromaprint/src/fingerprinter.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/chromaprint/src/fingerprinter.rs b/chromaprint/src/fingerprinter.rs
index 7fdb8c6..47c7951 100644
--- a/chromaprint/src/fingerprinter.rs
+++ b/chromaprint/src/fingerprinter.rs
@@ -135,6 +135,11 @@ impl Configuration {
             .with_frame_overlap(DEFAULT_FRAME_SIZE / 2 - DEFAULT_FRAME_SIZE / 4)
     }
 
+    #[cfg(rcp_verif)]
+    pub(crate) fn vp_classifiers(&self) -> &[Classifier] {
+        &self.classifiers
+    }
+
     fn samples_in_item(&self) -> usize {
         self.frame_size - self.frame_overlap
     }
-- 
2.43.0


From dafc01ece1d99cc0d6868959e49a4c63cb38b527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:48 +0000
Subject: [PATCH 7/7] fix: fpcalc: do not overflow on huge --length and --chunk
 values

---
 fpcalc/src/main.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/fpcalc/src/main.rs b/fpcalc/src/main.rs
index 7502153..3ba3662 100644
--- a/fpcalc/src/main.rs
+++ b/fpcalc/src/main.rs
@@ -264,10 +264,10 @@ pub fn main() -> anyhow::Result<()> {
     let sample_rate = usize::try_from(reader.sample_rate).context("invalid sample rate")?;
 
     let mut stream_size = 0;
-    let stream_limit = args.length * sample_rate;
+    let stream_limit = args.length.saturating_mul(sample_rate);
 
     let mut chunk_size = 0;
-    let chunk_limit = args.max_chunk_duration() * sample_rate;
+    let chunk_limit = args.max_chunk_duration().saturating_mul(sample_rate);
 
     let mut extra_chunk_limit = 0;
     let mut overlap: f64 = 0.0;
@@ -316,8 +316,10 @@ pub fn main() -> anyhow::Result<()> {
             let frame_data = buf.samples();
             let mut fed = 0;
 
-            while chunk_limit > 0 && frame_size > chunk_limit + extra_chunk_limit - chunk_size {
-                let first_part_size = chunk_limit + extra_chunk_limit - chunk_size;
+            while chunk_limit > 0
+                && frame_size > chunk_limit.saturating_add(extra_chunk_limit) - chunk_size
+            {
+                let first_part_size = chunk_limit.saturating_add(extra_chunk_limit) - chunk_size;
                 printer.consume(
                     &frame_data[fed * reader.channel_count
                         ..(fed + first_part_size) * reader.channel_count],
-- 
2.43.0

