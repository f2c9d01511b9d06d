From fb2f8087161ce8687f5753a56ef8ed8488d9d005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:03 +0000
Subject: [PATCH 01/20] fix: read the --quiet and --frames flags of the tool

`ArgMatches::contains_id` is always true for a flag with a default value,
so the report was never printed on stdout and the progress was never shown.
---
 av_metrics_tool/src/main.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/av_metrics_tool/src/main.rs b/av_metrics_tool/src/main.rs
index 4cbbe21..41c82be 100644
--- a/av_metrics_tool/src/main.rs
+++ b/av_metrics_tool/src/main.rs
@@ -106,7 +106,7 @@ fn main() -> Result<(), String> {
             File::create(filename).map_err(|err| err.to_string())?,
         )));
     };
-    if !cli.contains_id("QUIET") {
+    if !cli.get_flag("QUIET") {
         writers.push(OutputType::Stdout(BufWriter::new(std::io::stdout())));
     }
 
@@ -128,8 +128,8 @@ fn main() -> Result<(), String> {
                     base,
                     input,
                     metrics,
-                    cli.contains_id("QUIET"),
-                    cli.contains_id("FRAMES"),
+                    cli.get_flag("QUIET"),
+                    cli.get_flag("FRAMES"),
                 ));
             }
             (InputType::Audio, InputType::Audio) => {
-- 
2.43.0


From 9b1276173c7cbbb371cbece0d54f5e294a7eb19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:03 +0000
Subject: [PATCH 02/20] fix: do not hang when processing a frame fails

The receiver outlived the join of the sender thread, which stayed blocked
forever on the bounded channel once no frame was received any more.
---
 av_metrics/src/video/mod.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/av_metrics/src/video/mod.rs b/av_metrics/src/video/mod.rs
index 24300a2..88de4ac 100644
--- a/av_metrics/src/video/mod.rs
+++ b/av_metrics/src/video/mod.rs
@@ -218,6 +218,10 @@ trait VideoMetric: Send + Sync {
 
             out = metrics;
 
+            // The sender thread may be blocked on a full channel when processing
+            // stopped early: disconnect it before joining.
+            drop(recv);
+
             (
                 send_result
                     .join()
@@ -228,14 +232,16 @@ trait VideoMetric: Send + Sync {
 
         match scope_result {
             Ok((send_error, process_error)) => {
-                if let Err(error) = send_error {
-                    return Err(MetricsError::SendError { reason: error }.into());
-                }
-
+                // A processing error disconnects the channel, so it comes before the
+                // error it causes in the sender thread.
                 if let Err(error) = process_error {
                     return Err(MetricsError::ProcessError { reason: error }.into());
                 }
 
+                if let Err(error) = send_error {
+                    return Err(MetricsError::SendError { reason: error }.into());
+                }
+
                 if out.is_empty() {
                     return Err(MetricsError::UnsupportedInput {
                         reason: "No readable frames found in one or more input files",
-- 
2.43.0


From f25cb65a79a6f6255104d38d84379ab54a20da47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:04 +0000
Subject: [PATCH 03/20] fix: do not allocate for frame_limit frames up front

A frame limit is an upper bound given by the caller, a huge one overflowed
the capacity of the vector of results.
---
 av_metrics/src/video/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/av_metrics/src/video/mod.rs b/av_metrics/src/video/mod.rs
index 88de4ac..e120bee 100644
--- a/av_metrics/src/video/mod.rs
+++ b/av_metrics/src/video/mod.rs
@@ -184,7 +184,7 @@ trait VideoMetric: Send + Sync {
             });
 
             use rayon::prelude::*;
-            let mut metrics = Vec::with_capacity(frame_limit.unwrap_or(0));
+            let mut metrics = Vec::new();
             let mut process_error = Ok(());
             loop {
                 let working_set: Vec<_> = (0..num_threads)
-- 
2.43.0


From d8b66b04956b8492d6e5ef696de8895132b7149b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:04 +0000
Subject: [PATCH 04/20] fix: do not panic while reporting an error on a
 monochrome frame

The `Debug` implementation of `Plane` reads its first pixel, which the
chroma planes of a monochrome frame do not have.
---
 av_metrics/src/video/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/av_metrics/src/video/mod.rs b/av_metrics/src/video/mod.rs
index e120bee..11a7db0 100644
--- a/av_metrics/src/video/mod.rs
+++ b/av_metrics/src/video/mod.rs
@@ -171,7 +171,8 @@ trait VideoMetric: Send + Sync {
                         if let Err(e) = send.send((frame1, frame2)) {
                             let (frame1, frame2) = e.into_inner();
                             return Err(format!(
-                                "Error sending\n\nframe1: {frame1:?}\n\nframe2: {frame2:?}"
+                                "Error sending\n\nframe1: {:?}\n\nframe2: {:?}",
+                                frame1.planes[0], frame2.planes[0]
                             ));
                         }
                     } else {
@@ -199,7 +200,10 @@ trait VideoMetric: Send + Sync {
                                     vid_info.chroma_sampling,
                                 )
                                 .map_err(|e| {
-                                    format!("\n\n{e} on\n\nframe1: {f1:?}\n\nand\n\nframe2: {f2:?}")
+                                    format!(
+                                        "\n\n{e} on\n\nframe1: {:?}\n\nand\n\nframe2: {:?}",
+                                        f1.planes[0], f2.planes[0]
+                                    )
                                 })
                             })
                             .ok()
-- 
2.43.0


From 8e3398f2a48834cd1cae995cadf8df78b014d918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:04 +0000
Subject: [PATCH 05/20] fix: leave the padding of the planes out of PSNR

---
 av_metrics/src/video/psnr.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/av_metrics/src/video/psnr.rs b/av_metrics/src/video/psnr.rs
index 9c1b19d..dace84f 100644
--- a/av_metrics/src/video/psnr.rs
+++ b/av_metrics/src/video/psnr.rs
@@ -187,10 +187,9 @@ fn calculate_psnr(metrics: PsnrMetrics) -> f64 {
 /// to the compressed version.
 fn calculate_plane_total_squared_error<T: Pixel>(plane1: &Plane<T>, plane2: &Plane<T>) -> f64 {
     plane1
-        .data
         .iter()
-        .zip(plane2.data.iter())
-        .map(|(a, b)| (i32::cast_from(*a) - i32::cast_from(*b)).unsigned_abs() as u64)
+        .zip(plane2.iter())
+        .map(|(a, b)| (i32::cast_from(a) - i32::cast_from(b)).unsigned_abs() as u64)
         .map(|err| err * err)
         .sum::<u64>() as f64
 }
-- 
2.43.0


From a4319928aaebb5156555cabf6f0dcd55303b7a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:04 +0000
Subject: [PATCH 06/20] fix: cap PSNR at 100 as documented

---
 av_metrics/src/video/psnr.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/av_metrics/src/video/psnr.rs b/av_metrics/src/video/psnr.rs
index dace84f..31b3ab1 100644
--- a/av_metrics/src/video/psnr.rs
+++ b/av_metrics/src/video/psnr.rs
@@ -179,8 +179,10 @@ fn calculate_psnr(metrics: PsnrMetrics) -> f64 {
     if metrics.sq_err <= f64::EPSILON {
         return 100.0;
     }
-    10.0 * ((metrics.sample_max.pow(2) as f64).log10() + (metrics.n_pixels as f64).log10()
-        - metrics.sq_err.log10())
+    let psnr = 10.0
+        * ((metrics.sample_max.pow(2) as f64).log10() + (metrics.n_pixels as f64).log10()
+            - metrics.sq_err.log10());
+    psnr.min(100.0)
 }
 
 /// Calculate the squared error for a `Plane` by comparing the original (uncompressed)
-- 
2.43.0


From 1ae60f0b5f5c7880a591da09167346d1270ab349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:04 +0000
Subject: [PATCH 07/20] fix: read the rows of the planes in SSIM and MSSSIM

The data of a plane was read as if its stride was always its width.
---
 av_metrics/src/video/ssim.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/av_metrics/src/video/ssim.rs b/av_metrics/src/video/ssim.rs
index 5339631..6c1063c 100644
--- a/av_metrics/src/video/ssim.rs
+++ b/av_metrics/src/video/ssim.rs
@@ -472,7 +472,7 @@ fn build_gaussian_kernel(sigma: f64, max_len: usize, kernel_weight: usize) -> Ve
 }
 
 fn plane_to_vec<T: Pixel>(input: &Plane<T>) -> Vec<u32> {
-    input.data.iter().map(|pix| u32::cast_from(*pix)).collect()
+    input.iter().map(u32::cast_from).collect()
 }
 
 // This acts differently from downscaling a plane, and is what
-- 
2.43.0


From 6b5d74402037077aa3462f4991618d2dfad30bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:05 +0000
Subject: [PATCH 08/20] fix: do not return NaN for the SSIM and MSSSIM of
 identical videos

---
 av_metrics/src/video/ssim.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/av_metrics/src/video/ssim.rs b/av_metrics/src/video/ssim.rs
index 6c1063c..35bbbe1 100644
--- a/av_metrics/src/video/ssim.rs
+++ b/av_metrics/src/video/ssim.rs
@@ -499,5 +499,8 @@ fn msssim_downscale(input: &[u32], input_width: usize, input_height: usize) -> V
 }
 
 fn log10_convert(score: f64, weight: f64) -> f64 {
-    10.0 * (weight.log10() - (weight - score).log10())
+    // Rounding can put the score of identical content just above its maximum.
+    let loss = weight - score;
+    let loss = if loss < 0.0 { 0.0 } else { loss };
+    10.0 * (weight.log10() - loss.log10())
 }
-- 
2.43.0


From 9f4a0220d8dd3d0704929102be4b556bcac4687e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:05 +0000
Subject: [PATCH 09/20] fix: support monochrome content in SSIM and MSSSIM

---
 av_metrics/src/video/ssim.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/av_metrics/src/video/ssim.rs b/av_metrics/src/video/ssim.rs
index 35bbbe1..d52c50d 100644
--- a/av_metrics/src/video/ssim.rs
+++ b/av_metrics/src/video/ssim.rs
@@ -311,6 +311,10 @@ fn calculate_plane_ssim<T: Pixel>(
     vert_kernel: &[i64],
     horiz_kernel: &[i64],
 ) -> f64 {
+    if plane1.cfg.width == 0 || plane1.cfg.height == 0 {
+        // The chroma planes of monochrome content never differ
+        return 1.0;
+    }
     let vec1 = plane_to_vec(plane1);
     let vec2 = plane_to_vec(plane2);
     calculate_plane_ssim_internal(
@@ -414,6 +418,10 @@ fn calculate_plane_msssim<T: Pixel>(plane1: &Plane<T>, plane2: &Plane<T>, bit_de
     let mut cs = [0.0; 5];
     let mut width = plane1.cfg.width;
     let mut height = plane1.cfg.height;
+    if width == 0 || height == 0 {
+        // The chroma planes of monochrome content never differ
+        return 1.0;
+    }
     let mut plane1 = plane_to_vec(plane1);
     let mut plane2 = plane_to_vec(plane2);
 
@@ -456,7 +464,11 @@ fn build_gaussian_kernel(sigma: f64, max_len: usize, kernel_weight: usize) -> Ve
     } else {
         (sigma * (-2.0 * s.log(E)).sqrt()).floor() as usize
     };
-    let kernel_len = if len >= max_len { max_len - 1 } else { len };
+    let kernel_len = if len >= max_len {
+        max_len.saturating_sub(1)
+    } else {
+        len
+    };
     let kernel_size = (kernel_len << 1) | 1;
     let mut kernel = vec![0; kernel_size];
     let mut sum = 0;
-- 
2.43.0


From e1d21a192c622c68fa6f209d32e7f42a1fba2c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:05 +0000
Subject: [PATCH 10/20] fix: report frames too small for MSSSIM instead of
 returning NaN

---
 av_metrics/src/video/ssim.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/av_metrics/src/video/ssim.rs b/av_metrics/src/video/ssim.rs
index d52c50d..591e533 100644
--- a/av_metrics/src/video/ssim.rs
+++ b/av_metrics/src/video/ssim.rs
@@ -246,6 +246,17 @@ impl VideoMetric for MsSsim {
 
         frame1.can_compare(frame2)?;
 
+        // The coarsest scale halves the planes four times
+        if frame1
+            .planes
+            .iter()
+            .any(|plane| (1..16).contains(&plane.cfg.width) || (1..16).contains(&plane.cfg.height))
+        {
+            return Err(Box::new(MetricsError::UnsupportedInput {
+                reason: "MSSSIM needs planes of at least 16x16 pixels",
+            }));
+        }
+
         let mut y = 0.0;
         let mut u = 0.0;
         let mut v = 0.0;
-- 
2.43.0


From fa6edeb9887e6da7eeb4f3d21880a85ae89c390f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:05 +0000
Subject: [PATCH 11/20] fix: start at the origin of the planes in PSNR-HVS

---
 av_metrics/src/video/psnr_hvs.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/av_metrics/src/video/psnr_hvs.rs b/av_metrics/src/video/psnr_hvs.rs
index ee12d06..63a63b2 100644
--- a/av_metrics/src/video/psnr_hvs.rs
+++ b/av_metrics/src/video/psnr_hvs.rs
@@ -216,8 +216,8 @@ fn calculate_plane_psnr_hvs<T: Pixel>(
     let mut p2 = [0i16; 8 * 8];
     let mut dct_p1 = [0i32; 8 * 8];
     let mut dct_p2 = [0i32; 8 * 8];
-    assert!(plane1.data.len() >= stride * height);
-    assert!(plane2.data.len() >= stride * height);
+    let data1 = plane1.data_origin();
+    let data2 = plane2.data_origin();
     for y in (0..(height - STEP)).step_by(STEP) {
         for x in (0..(width - STEP)).step_by(STEP) {
             let mut p1_means = [0.0; 4];
@@ -233,8 +233,8 @@ fn calculate_plane_psnr_hvs<T: Pixel>(
 
             for i in 0..8 {
                 for j in 0..8 {
-                    p1[i * 8 + j] = i16::cast_from(plane1.data[(y + i) * stride + x + j]);
-                    p2[i * 8 + j] = i16::cast_from(plane2.data[(y + i) * stride + x + j]);
+                    p1[i * 8 + j] = i16::cast_from(data1[(y + i) * stride + x + j]);
+                    p2[i * 8 + j] = i16::cast_from(data2[(y + i) * stride + x + j]);
 
                     let sub = ((i & 12) >> 2) + ((j & 12) >> 1);
                     p1_gmean += p1[i * 8 + j] as f64;
-- 
2.43.0


From 8c2adc8a680b6c0b8c68f4560a537488210d625b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:06 +0000
Subject: [PATCH 12/20] fix: do not panic on small or monochrome frames in
 PSNR-HVS

---
 av_metrics/src/video/psnr_hvs.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/av_metrics/src/video/psnr_hvs.rs b/av_metrics/src/video/psnr_hvs.rs
index 63a63b2..92e5914 100644
--- a/av_metrics/src/video/psnr_hvs.rs
+++ b/av_metrics/src/video/psnr_hvs.rs
@@ -85,6 +85,17 @@ impl VideoMetric for PsnrHvs {
 
         frame1.can_compare(frame2)?;
 
+        // The error is computed over 8x8 blocks
+        if frame1
+            .planes
+            .iter()
+            .any(|plane| (1..8).contains(&plane.cfg.width) || (1..8).contains(&plane.cfg.height))
+        {
+            return Err(Box::new(MetricsError::UnsupportedInput {
+                reason: "PSNR-HVS needs planes of at least 8x8 pixels",
+            }));
+        }
+
         let mut y = 0.0;
         let mut u = 0.0;
         let mut v = 0.0;
@@ -176,6 +187,10 @@ fn calculate_plane_psnr_hvs<T: Pixel>(
     bit_depth: usize,
 ) -> f64 {
     const STEP: usize = 7;
+    if plane1.cfg.width == 0 || plane1.cfg.height == 0 {
+        // The chroma planes of monochrome content never differ
+        return 0.0;
+    }
     let mut result = 0.0;
     let mut pixels = 0usize;
     let csf = match plane_idx {
-- 
2.43.0


From 2c2ae46d67af69325a41badd1bc550930e4263ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:06 +0000
Subject: [PATCH 13/20] fix: read the rows of the planes in CIEDE2000

The data of a plane was read as if its stride was always its width.
---
 av_metrics/src/video/ciede/mod.rs | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/av_metrics/src/video/ciede/mod.rs b/av_metrics/src/video/ciede/mod.rs
index f021df6..278a816 100644
--- a/av_metrics/src/video/ciede/mod.rs
+++ b/av_metrics/src/video/ciede/mod.rs
@@ -117,20 +117,15 @@ impl VideoMetric for Ciede2000 {
         let dec = chroma_sampling.get_decimation().unwrap_or((1, 1));
         let y_width = frame1.planes[0].cfg.width;
         let y_height = frame1.planes[0].cfg.height;
-        let c_width = frame1.planes[1].cfg.width;
         let delta_e_row_fn = get_delta_e_row_fn(bit_depth, dec.0, self.use_simd);
         // let mut delta_e_vec: Vec<f32> = vec![0.0; y_width * y_height];
 
         let delta_e_per_line = (0..y_height).into_par_iter().map(|i| {
-            let y_start = i * y_width;
-            let y_end = y_start + y_width;
-            let c_start = (i >> dec.1) * c_width;
-            let c_end = c_start + c_width;
+            // Both frames share the layout of their planes
+            let y_range = frame1.planes[0].row_range_cropped(0, i as isize);
+            let c_range = frame1.planes[1].row_range_cropped(0, (i >> dec.1) as isize);
 
-            let y_range = y_start..y_end;
-            let c_range = c_start..c_end;
-
-            let mut delta_e_vec = vec![0.0; y_end - y_start];
+            let mut delta_e_vec = vec![0.0; y_width];
 
             unsafe {
                 delta_e_row_fn(
-- 
2.43.0


From c39b3b78f631d9e1af79ac92359fe92a2579bd2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:06 +0000
Subject: [PATCH 14/20] fix: report the bit depths CIEDE2000 does not support

---
 av_metrics/src/video/ciede/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/av_metrics/src/video/ciede/mod.rs b/av_metrics/src/video/ciede/mod.rs
index 278a816..bb23888 100644
--- a/av_metrics/src/video/ciede/mod.rs
+++ b/av_metrics/src/video/ciede/mod.rs
@@ -114,6 +114,12 @@ impl VideoMetric for Ciede2000 {
 
         frame1.can_compare(frame2)?;
 
+        if !matches!(bit_depth, 8 | 10 | 12) {
+            return Err(Box::new(MetricsError::UnsupportedInput {
+                reason: "CIEDE2000 supports bit depths of 8, 10 and 12",
+            }));
+        }
+
         let dec = chroma_sampling.get_decimation().unwrap_or((1, 1));
         let y_width = frame1.planes[0].cfg.width;
         let y_height = frame1.planes[0].cfg.height;
-- 
2.43.0


From 494acb5d62856144f7e65184917280b81bf678b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:06 +0000
Subject: [PATCH 15/20] fix: check the chroma planes in CIEDE2000

The SIMD code reads four chroma samples for eight luma samples without
checking that the chroma planes are that large.
---
 av_metrics/src/video/ciede/mod.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/av_metrics/src/video/ciede/mod.rs b/av_metrics/src/video/ciede/mod.rs
index bb23888..7b1981e 100644
--- a/av_metrics/src/video/ciede/mod.rs
+++ b/av_metrics/src/video/ciede/mod.rs
@@ -120,6 +120,17 @@ impl VideoMetric for Ciede2000 {
             }));
         }
 
+        let (c_width, c_height) = chroma_sampling
+            .get_chroma_dimensions(frame1.planes[0].cfg.width, frame1.planes[0].cfg.height);
+        if frame1.planes[1..]
+            .iter()
+            .any(|plane| plane.cfg.width != c_width || plane.cfg.height != c_height)
+        {
+            return Err(Box::new(MetricsError::InputMismatch {
+                reason: "Chroma planes do not match the chroma sampling",
+            }));
+        }
+
         let dec = chroma_sampling.get_decimation().unwrap_or((1, 1));
         let y_width = frame1.planes[0].cfg.width;
         let y_height = frame1.planes[0].cfg.height;
-- 
2.43.0


From 2bb7e6547f44338c68fe1c4d113fd4288464000a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:07 +0000
Subject: [PATCH 16/20] fix: compare the luma of monochrome content in
 CIEDE2000

Without chroma samples no pixel was compared and the score was always 100.
---
 av_metrics/src/video/ciede/mod.rs | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/av_metrics/src/video/ciede/mod.rs b/av_metrics/src/video/ciede/mod.rs
index 7b1981e..6ec286d 100644
--- a/av_metrics/src/video/ciede/mod.rs
+++ b/av_metrics/src/video/ciede/mod.rs
@@ -93,6 +93,7 @@ impl Default for Ciede2000 {
 
 use rayon::prelude::*;
 use v_frame::frame::Frame;
+use v_frame::plane::Plane;
 use v_frame::prelude::ChromaSampling;
 
 impl VideoMetric for Ciede2000 {
@@ -135,12 +136,14 @@ impl VideoMetric for Ciede2000 {
         let y_width = frame1.planes[0].cfg.width;
         let y_height = frame1.planes[0].cfg.height;
         let delta_e_row_fn = get_delta_e_row_fn(bit_depth, dec.0, self.use_simd);
+        // Monochrome content is compared as if its chroma was neutral
+        let neutral_row = vec![T::cast_from(128u16 << (bit_depth - 8)); (y_width + 1) >> 1];
         // let mut delta_e_vec: Vec<f32> = vec![0.0; y_width * y_height];
 
         let delta_e_per_line = (0..y_height).into_par_iter().map(|i| {
             // Both frames share the layout of their planes
             let y_range = frame1.planes[0].row_range_cropped(0, i as isize);
-            let c_range = frame1.planes[1].row_range_cropped(0, (i >> dec.1) as isize);
+            let chroma_row = |plane| chroma_row(plane, i >> dec.1, &neutral_row);
 
             let mut delta_e_vec = vec![0.0; y_width];
 
@@ -148,13 +151,13 @@ impl VideoMetric for Ciede2000 {
                 delta_e_row_fn(
                     FrameRow {
                         y: &frame1.planes[0].data[y_range.clone()],
-                        u: &frame1.planes[1].data[c_range.clone()],
-                        v: &frame1.planes[2].data[c_range.clone()],
+                        u: chroma_row(&frame1.planes[1]),
+                        v: chroma_row(&frame1.planes[2]),
                     },
                     FrameRow {
                         y: &frame2.planes[0].data[y_range],
-                        u: &frame2.planes[1].data[c_range.clone()],
-                        v: &frame2.planes[2].data[c_range],
+                        u: chroma_row(&frame2.planes[1]),
+                        v: chroma_row(&frame2.planes[2]),
                     },
                     &mut delta_e_vec[..],
                 );
@@ -192,6 +195,15 @@ pub(crate) struct FrameRow<'a, T: Pixel> {
     v: &'a [T],
 }
 
+/// Returns a row of a chroma plane, which is `neutral` if the plane has no samples.
+fn chroma_row<'a, T: Pixel>(plane: &'a Plane<T>, y: usize, neutral: &'a [T]) -> &'a [T] {
+    if plane.cfg.width == 0 {
+        neutral
+    } else {
+        &plane.data[plane.row_range_cropped(0, y as isize)]
+    }
+}
+
 type DeltaERowFn<T> = unsafe fn(FrameRow<T>, FrameRow<T>, &mut [f32]);
 
 fn get_delta_e_row_fn<T: Pixel>(bit_depth: usize, xdec: usize, simd: bool) -> DeltaERowFn<T> {
-- 
2.43.0


From 42a56c674cb7e12b2729c55ff1fb6d18933a9dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:07 +0000
Subject: [PATCH 17/20] fix: decode monochrome content

`Plane::copy_from_raw_u8` panics on the chroma planes of such frames.
---
 av_metrics/src/video/decode.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/av_metrics/src/video/decode.rs b/av_metrics/src/video/decode.rs
index c51455b..aab4eb1 100644
--- a/av_metrics/src/video/decode.rs
+++ b/av_metrics/src/video/decode.rs
@@ -110,6 +110,11 @@ pub fn convert_chroma_data<T: Pixel>(
     source_stride: usize,
     source_bytewidth: usize,
 ) {
+    if plane_data.cfg.width == 0 || plane_data.cfg.height == 0 {
+        // Monochrome content has no chroma samples
+        return;
+    }
+
     if chroma_pos != ChromaSamplePosition::Vertical {
         // TODO: Also convert Interpolated chromas
         plane_data.copy_from_raw_u8(source, source_stride, source_bytewidth);
-- 
2.43.0


From 3608810433c56b967ea5134f35b2022bc37dde4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:07 +0000
Subject: [PATCH 18/20] fix: respect the layout of the planes when converting
 chroma

The rows were written as if the stride of a plane was always its width, the
source was read past its last row and sample when the plane is larger, and
rows of less than three samples underflowed.
---
 av_metrics/src/video/decode.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/av_metrics/src/video/decode.rs b/av_metrics/src/video/decode.rs
index aab4eb1..7d9e7cb 100644
--- a/av_metrics/src/video/decode.rs
+++ b/av_metrics/src/video/decode.rs
@@ -134,13 +134,14 @@ pub fn convert_chroma_data<T: Pixel>(
         convert_u16
     };
 
-    let output_data = &mut plane_data.data;
-    let width = plane_data.cfg.width;
-    let height = plane_data.cfg.height;
+    let stride = plane_data.cfg.stride;
+    let width = cmp::min(plane_data.cfg.width, source_stride / source_bytewidth);
+    let height = cmp::min(plane_data.cfg.height, source.len() / source_stride);
+    let output_data = plane_data.data_origin_mut();
     for y in 0..height {
         // Filter: [4 -17 114 35 -9 1]/128, derived from a 6-tap Lanczos window.
         let in_row = &source[(y * source_stride)..];
-        let out_row = &mut output_data[(y * width)..];
+        let out_row = &mut output_data[(y * stride)..];
         let breakpoint = cmp::min(width, 2);
         for x in 0..breakpoint {
             out_row[x] = T::cast_from(clamp(
@@ -155,7 +156,7 @@ pub fn convert_chroma_data<T: Pixel>(
                 (1 << bit_depth) - 1,
             ));
         }
-        let breakpoint2 = width - 3;
+        let breakpoint2 = cmp::max(width.saturating_sub(3), breakpoint);
         for x in breakpoint..breakpoint2 {
             out_row[x] = T::cast_from(clamp(
                 (4 * get_pixel(in_row, x - 2) - 17 * get_pixel(in_row, x - 1)
-- 
2.43.0


From cd9496115dbfd95d2f66cd47ad9aabcec90e35db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:07 +0000
Subject: [PATCH 19/20] fix: decode frames of the size of the video

The planes were rounded up to a multiple of 8 samples, which were counted in
the metrics and hid that two videos differ in resolution.
---
 av_metrics_decoders/src/ffmpeg.rs |  3 +--
 av_metrics_decoders/src/lib.rs    | 22 ++++++++++++++++++++++
 av_metrics_decoders/src/y4m.rs    |  2 +-
 3 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/av_metrics_decoders/src/ffmpeg.rs b/av_metrics_decoders/src/ffmpeg.rs
index 3843143..1659862 100644
--- a/av_metrics_decoders/src/ffmpeg.rs
+++ b/av_metrics_decoders/src/ffmpeg.rs
@@ -105,11 +105,10 @@ impl FfmpegDecoder {
     }
 
     fn decode_frame<T: Pixel>(&self, decoded: &frame::Video) -> Frame<T> {
-        let mut f: Frame<T> = Frame::new_with_padding(
+        let mut f: Frame<T> = crate::new_frame(
             self.video_details.width,
             self.video_details.height,
             self.video_details.chroma_sampling,
-            0,
         );
         let width = self.video_details.width;
         let height = self.video_details.height;
diff --git a/av_metrics_decoders/src/lib.rs b/av_metrics_decoders/src/lib.rs
index 42d6655..024fe3d 100644
--- a/av_metrics_decoders/src/lib.rs
+++ b/av_metrics_decoders/src/lib.rs
@@ -35,3 +35,25 @@ pub use crate::vapoursynth::{VapoursynthDecoder, VapoursynthDecoderPlugin};
 
 pub use av_metrics::video::decode::{Decoder, VideoDetails};
 pub use av_metrics::video::{CastFromPrimitive, ChromaSampling, Frame, Pixel, Plane};
+
+/// Creates a frame whose planes have exactly the dimensions of the video.
+///
+/// `Frame::new_with_padding` rounds them up to a multiple of 8, and the samples
+/// added this way would be taken for a part of the video.
+#[cfg(any(
+    feature = "y4m",
+    feature = "ffmpeg",
+    feature = "ffmpeg_static",
+    feature = "ffmpeg_build"
+))]
+fn new_frame<T: Pixel>(width: usize, height: usize, chroma_sampling: ChromaSampling) -> Frame<T> {
+    let (chroma_width, chroma_height) = chroma_sampling.get_chroma_dimensions(width, height);
+    let (xdec, ydec) = chroma_sampling.get_decimation().unwrap_or((0, 0));
+    Frame {
+        planes: [
+            Plane::new(width, height, 0, 0, 0, 0),
+            Plane::new(chroma_width, chroma_height, xdec, ydec, 0, 0),
+            Plane::new(chroma_width, chroma_height, xdec, ydec, 0, 0),
+        ],
+    }
+}
diff --git a/av_metrics_decoders/src/y4m.rs b/av_metrics_decoders/src/y4m.rs
index 81cbb83..26da966 100644
--- a/av_metrics_decoders/src/y4m.rs
+++ b/av_metrics_decoders/src/y4m.rs
@@ -75,7 +75,7 @@ where
         let height = self.inner.get_height();
         let bytes = self.inner.get_bytes_per_sample();
         self.inner.read_frame().ok().map(|frame| {
-            let mut f: Frame<T> = Frame::new_with_padding(width, height, chroma_sampling, 0);
+            let mut f: Frame<T> = crate::new_frame(width, height, chroma_sampling);
 
             let (chroma_width, _) = chroma_sampling.get_chroma_dimensions(width, height);
             f.planes[0].copy_from_raw_u8(frame.get_y_plane(), width * bytes, bytes);
-- 
2.43.0


From cc374edd3f1f202a3481dbf969d7603396b079c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:07 +0000
Subject: [PATCH 20/20] fix: use the stride of the frames decoded by FFmpeg

The lines of these frames are aligned, so they can be longer than the width.
---
 av_metrics_decoders/src/ffmpeg.rs | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/av_metrics_decoders/src/ffmpeg.rs b/av_metrics_decoders/src/ffmpeg.rs
index 1659862..a84bba7 100644
--- a/av_metrics_decoders/src/ffmpeg.rs
+++ b/av_metrics_decoders/src/ffmpeg.rs
@@ -110,21 +110,15 @@ impl FfmpegDecoder {
             self.video_details.height,
             self.video_details.chroma_sampling,
         );
-        let width = self.video_details.width;
-        let height = self.video_details.height;
         let bit_depth = self.video_details.bit_depth;
         let bytes = if bit_depth > 8 { 2 } else { 1 };
-        let (chroma_width, _) = self
-            .video_details
-            .chroma_sampling
-            .get_chroma_dimensions(width, height);
-        f.planes[0].copy_from_raw_u8(decoded.data(0), width * bytes, bytes);
+        f.planes[0].copy_from_raw_u8(decoded.data(0), decoded.stride(0), bytes);
         convert_chroma_data(
             &mut f.planes[1],
             self.video_details.chroma_sample_position,
             bit_depth,
             decoded.data(1),
-            chroma_width * bytes,
+            decoded.stride(1),
             bytes,
         );
         convert_chroma_data(
@@ -132,7 +126,7 @@ impl FfmpegDecoder {
             self.video_details.chroma_sample_position,
             bit_depth,
             decoded.data(2),
-            chroma_width * bytes,
+            decoded.stride(2),
             bytes,
         );
         f
-- 
2.43.0

