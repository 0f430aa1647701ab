From 5c264fe11276750265547afde1d9324e07bf085d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:47 +0000
Subject: [PATCH 01/42] fix: reused FFT objects transformed the whole cached
 split buffer after a longer transform

---
 src/fft.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fft.rs b/src/fft.rs
index 250a04a..ba8534b 100644
--- a/src/fft.rs
+++ b/src/fft.rs
@@ -685,8 +685,8 @@ impl<T: Float> ScalarFftImpl<T> {
         if core::any::TypeId::of::<T>() == core::any::TypeId::of::<f32>() {
             let this = unsafe { &*(self as *const _ as *const ScalarFftImpl<f32>) };
             let input32 = unsafe { &mut *(input as *mut [Complex<T>] as *mut [Complex32]) };
-            let re32 = unsafe { &mut *(split_re.as_mut_slice() as *mut [T] as *mut [f32]) };
-            let im32 = unsafe { &mut *(split_im.as_mut_slice() as *mut [T] as *mut [f32]) };
+            let re32 = unsafe { &mut *(&mut split_re[..n] as *mut [T] as *mut [f32]) };
+            let im32 = unsafe { &mut *(&mut split_im[..n] as *mut [T] as *mut [f32]) };
             for (c, (r, i)) in input32.iter().zip(re32.iter_mut().zip(im32.iter_mut())) {
                 *r = c.re;
                 *i = c.im;
@@ -707,8 +707,8 @@ impl<T: Float> ScalarFftImpl<T> {
         if core::any::TypeId::of::<T>() == core::any::TypeId::of::<f64>() {
             let this = unsafe { &*(self as *const _ as *const ScalarFftImpl<f64>) };
             let input64 = unsafe { &mut *(input as *mut [Complex<T>] as *mut [Complex64]) };
-            let re64 = unsafe { &mut *(split_re.as_mut_slice() as *mut [T] as *mut [f64]) };
-            let im64 = unsafe { &mut *(split_im.as_mut_slice() as *mut [T] as *mut [f64]) };
+            let re64 = unsafe { &mut *(&mut split_re[..n] as *mut [T] as *mut [f64]) };
+            let im64 = unsafe { &mut *(&mut split_im[..n] as *mut [T] as *mut [f64]) };
             for (c, (r, i)) in input64.iter().zip(re64.iter_mut().zip(im64.iter_mut())) {
                 *r = c.re;
                 *i = c.im;
-- 
2.43.0


From 796afcd1737cbe4fad8f1b44f503162b0f0acdd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:47 +0000
Subject: [PATCH 02/42] fix: Bluestein transform convolved over the whole
 cached buffer after a longer transform

---
 src/fft.rs | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/fft.rs b/src/fft.rs
index ba8534b..311d59d 100644
--- a/src/fft.rs
+++ b/src/fft.rs
@@ -1099,30 +1099,32 @@ impl<T: Float> FftImpl<T> for ScalarFftImpl<T> {
             if a.len() < m {
                 a.resize(m, Complex::zero());
             }
+            // The cached buffer may be longer than this transform needs.
+            let work = &mut a[..m];
             for (i, &val) in input.iter().take(n).enumerate() {
-                a[i] = val.mul(chirp[i]);
+                work[i] = val.mul(chirp[i]);
             }
-            for v in &mut a[n..m] {
+            for v in &mut work[n..] {
                 *v = Complex::zero();
             }
-            self.fft(&mut a)?;
-            for (ai, &bi) in a.iter_mut().zip(fft_b.iter()) {
+            self.fft(work)?;
+            for (ai, &bi) in work.iter_mut().zip(fft_b.iter()) {
                 *ai = ai.mul(bi);
             }
-            for c in a.iter_mut() {
+            for c in work.iter_mut() {
                 c.im = -c.im;
             }
-            self.fft(&mut a)?;
-            for c in a.iter_mut() {
+            self.fft(work)?;
+            for c in work.iter_mut() {
                 c.im = -c.im;
             }
             let scale = T::one() / T::from_f32(m as f32);
-            for c in a.iter_mut() {
+            for c in work.iter_mut() {
                 c.re = c.re * scale;
                 c.im = c.im * scale;
             }
             for (i, out) in input.iter_mut().take(n).enumerate() {
-                *out = a[i].mul(chirp[i]);
+                *out = work[i].mul(chirp[i]);
             }
             {
                 let planner = unsafe { self.planner_mut() };
-- 
2.43.0


From 928b25e62a06d8dfdd9da8cf0deb293ccc8ba911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:16 +0000
Subject: [PATCH 03/42] fix: the Stockham entry points panicked on a transform
 of length one

---
 src/fft.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fft.rs b/src/fft.rs
index 311d59d..efdaffd 100644
--- a/src/fft.rs
+++ b/src/fft.rs
@@ -652,6 +652,9 @@ impl<T: Float> ScalarFftImpl<T> {
         if !n.is_power_of_two() {
             return self.fft(input);
         }
+        if n == 1 {
+            return Ok(());
+        }
         if n <= 16 {
             match n {
                 2 => fft2(input),
-- 
2.43.0


From 841a17087c19403c87aa0142065d19cd79fecd90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:16 +0000
Subject: [PATCH 04/42] fix: fft_radix4 permuted its input by bits instead of
 base-4 digits

---
 src/fft.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/fft.rs b/src/fft.rs
index efdaffd..c4f79ce 100644
--- a/src/fft.rs
+++ b/src/fft.rs
@@ -1466,12 +1466,13 @@ impl<T: Float> ScalarFftImpl<T> {
         // Bit-reversal for radix-4
         let mut j = 0usize;
         for i in 1..n {
+            // Increment `j` as a digit-reversed base-4 counter.
             let mut bit = n >> 2;
-            while j & bit != 0 {
-                j ^= bit;
+            while j & (3 * bit) == 3 * bit && bit > 0 {
+                j ^= 3 * bit;
                 bit >>= 2;
             }
-            j ^= bit;
+            j += bit;
             if i < j {
                 input.swap(i, j);
             }
-- 
2.43.0


From d2fbe118bcce8c0c96cb89f3f77e1c7393a42499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:16 +0000
Subject: [PATCH 05/42] fix: the parallel tuning setters had no effect because
 ifft froze the heuristic threshold

---
 src/fft.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fft.rs b/src/fft.rs
index c4f79ce..9915376 100644
--- a/src/fft.rs
+++ b/src/fft.rs
@@ -1147,7 +1147,7 @@ impl<T: Float> FftImpl<T> for ScalarFftImpl<T> {
         #[cfg(feature = "parallel")]
         {
             #[cfg(all(feature = "parallel", feature = "std"))]
-            let threshold = parallel_fft_threshold();
+            let threshold = env_parallel_fft_threshold();
             #[cfg(not(all(feature = "parallel", feature = "std")))]
             let threshold = 0;
             if should_parallelize_fft(n, threshold)
-- 
2.43.0


From 36cd5512de0ff3ae6bdbcf55659d91e984a31735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:16 +0000
Subject: [PATCH 06/42] fix: huge tuning values overflowed the parallel
 threshold computation

---
 src/fft.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fft.rs b/src/fft.rs
index 9915376..80b60f5 100644
--- a/src/fft.rs
+++ b/src/fft.rs
@@ -154,7 +154,7 @@ fn parallel_fft_threshold() -> usize {
                 cache_elems,
                 core::cmp::max(per_core_work, env_parallel_fft_block_size()),
             );
-            per_core_min * env_parallel_fft_threads()
+            per_core_min.saturating_mul(env_parallel_fft_threads())
         }
     })
 }
@@ -276,7 +276,7 @@ fn should_parallelize_fft(n: usize, base_threshold: usize) -> bool {
             cache_elems,
             core::cmp::max(per_core_work, parallel_fft_block_size()),
         );
-        n >= per_core_min * parallel_fft_threads()
+        n >= per_core_min.saturating_mul(parallel_fft_threads())
     }
     #[cfg(not(feature = "std"))]
     {
@@ -302,7 +302,7 @@ fn should_parallelize_fft(n: usize, base_threshold: usize) -> bool {
             cache_elems,
             core::cmp::max(per_core_work, parallel_fft_block_size()),
         );
-        n >= per_core_min * parallel_fft_threads()
+        n >= per_core_min.saturating_mul(parallel_fft_threads())
     }
 }
 
-- 
2.43.0


From 07c37581e860f3be5235bb9668ebadc04b913e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:30 +0000
Subject: [PATCH 07/42] fix: the length check of strided transforms overflowed
 for huge strides

---
 src/fft.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fft.rs b/src/fft.rs
index 80b60f5..d6f5df3 100644
--- a/src/fft.rs
+++ b/src/fft.rs
@@ -1190,7 +1190,7 @@ impl<T: Float> FftImpl<T> for ScalarFftImpl<T> {
         if n == 0 {
             return Ok(());
         }
-        if input.len() < (n - 1) * stride + 1 {
+        if input.len().saturating_sub(1) / stride < n - 1 || input.is_empty() {
             return Err(FftError::MismatchedLengths);
         }
         for i in 0..n {
@@ -1251,7 +1251,7 @@ impl<T: Float> FftImpl<T> for ScalarFftImpl<T> {
         if n == 0 {
             return Ok(());
         }
-        if input.len() < (n - 1) * stride + 1 {
+        if input.len().saturating_sub(1) / stride < n - 1 || input.is_empty() {
             return Err(FftError::MismatchedLengths);
         }
         for i in 0..n {
-- 
2.43.0


From 319d2930fbb2588efc947fde9cb4038072cf6f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:39 +0000
Subject: [PATCH 08/42] fix: double-precision transforms used single-precision
 twiddle constants

---
 src/fft.rs         |  4 ++--
 src/fft_kernels.rs | 29 +++++++++++++++++++++--------
 2 files changed, 23 insertions(+), 10 deletions(-)

diff --git a/src/fft.rs b/src/fft.rs
index d6f5df3..6a82541 100644
--- a/src/fft.rs
+++ b/src/fft.rs
@@ -33,7 +33,7 @@ mod precomputed_twiddles {
 #[cfg(feature = "precomputed-twiddles")]
 use precomputed_twiddles::{lookup_f32, lookup_f64};
 
-use crate::fft_kernels::{fft2, fft4};
+use crate::fft_kernels::{fft2, fft4, frac_1_sqrt_2};
 #[cfg(feature = "parallel")]
 use core::sync::atomic::{AtomicUsize, Ordering};
 #[cfg(feature = "parallel")]
@@ -1626,7 +1626,7 @@ fn butterfly8<T: Float>(
 ) -> [Complex<T>; 8] {
     let (e0, e1, e2, e3) = butterfly4(x0, x2, x4, x6);
     let (o0, mut o1, mut o2, mut o3) = butterfly4(x1, x3, x5, x7);
-    let sqrt1_2 = T::from_f32(core::f32::consts::FRAC_1_SQRT_2);
+    let sqrt1_2 = frac_1_sqrt_2::<T>();
     let w1 = Complex::new(sqrt1_2, -sqrt1_2);
     let w2 = Complex::new(T::zero(), -T::one());
     let w3 = Complex::new(-sqrt1_2, -sqrt1_2);
diff --git a/src/fft_kernels.rs b/src/fft_kernels.rs
index c260160..c5ad2f2 100644
--- a/src/fft_kernels.rs
+++ b/src/fft_kernels.rs
@@ -1,5 +1,18 @@
 use crate::num::{Complex, Float};
 
+/// A constant given as the nearest `f32` plus the remainder, so that it is
+/// accurate in double precision as well; in single precision the remainder
+/// rounds away.
+#[inline(always)]
+pub(crate) fn split_const<T: Float>(hi: f32, lo: f32) -> T {
+    T::from_f32(hi) + T::from_f32(lo)
+}
+
+#[inline(always)]
+pub(crate) fn frac_1_sqrt_2<T: Float>() -> T {
+    split_const(core::f32::consts::FRAC_1_SQRT_2, 1.210_161_7e-8)
+}
+
 #[inline(always)]
 pub fn fft2<T: Float>(input: &mut [Complex<T>]) {
     debug_assert_eq!(input.len(), 2);
@@ -32,7 +45,7 @@ pub fn fft4<T: Float>(input: &mut [Complex<T>]) {
 pub fn fft8<T: Float>(input: &mut [Complex<T>]) {
     debug_assert_eq!(input.len(), 8);
     let w1 = Complex::new(T::zero(), -T::one());
-    let s = T::from_f32(0.70710677); // sqrt(2)/2
+    let s = frac_1_sqrt_2::<T>(); // sqrt(2)/2
 
     // load inputs before overwriting
     let x0 = input[0];
@@ -107,7 +120,7 @@ pub fn fft16<T: Float>(input: &mut [Complex<T>]) {
     let x15 = input[15];
 
     let w1 = Complex::new(T::zero(), -T::one());
-    let s = T::from_f32(0.70710677); // sqrt(2)/2
+    let s = frac_1_sqrt_2::<T>(); // sqrt(2)/2
 
     // ---- even index FFT8 ----
     let a0 = x0.add(x8);
@@ -178,12 +191,12 @@ pub fn fft16<T: Float>(input: &mut [Complex<T>]) {
     input[15] = oa3.sub(t3);
 
     // ---- twiddle multiply odd half ----
-    let c1 = T::from_f32(0.9238795);
-    let s1 = T::from_f32(-0.38268343);
-    let c2 = T::from_f32(0.70710677);
-    let s2 = T::from_f32(-0.70710677);
-    let c3 = T::from_f32(0.38268343);
-    let s3 = T::from_f32(-0.9238795);
+    let c1 = split_const::<T>(0.9238795, 2.830_749e-8); // cos(pi/8)
+    let s1 = -split_const::<T>(0.38268343, 6.223_351e-9); // -sin(pi/8)
+    let c2 = frac_1_sqrt_2::<T>();
+    let s2 = -c2;
+    let c3 = -s1;
+    let s3 = -c1;
     let c4 = T::zero();
     let s4 = T::from_f32(-1.0);
 
-- 
2.43.0


From c6a6c8e333f73394a2a6385263f37cd3f24678ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:19 +0000
Subject: [PATCH 09/42] fix: the web viewer script did not parse

---
 web-spectrogram/app.mjs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/web-spectrogram/app.mjs b/web-spectrogram/app.mjs
index da8d8b8..898ad58 100644
--- a/web-spectrogram/app.mjs
+++ b/web-spectrogram/app.mjs
@@ -66,8 +66,6 @@ function drawSpectrogramWebGL(gl, canvas, res) {
   gl.compileShader(vs);
 
   const fs = gl.createShader(gl.FRAGMENT_SHADER);
-  gl.shaderSource(
-    fs,
   const fragmentShaderSource = `
     precision highp float;
     varying vec2 v;
@@ -166,6 +164,7 @@ export function drawSpectrogram(
       drawSpectrogramCanvas(canvas, res, colorFn, colormap);
       return;
     }
+  }
   drawSpectrogramCanvas(canvas, res, colorFn, colormap);
 }
 
-- 
2.43.0


From 8b69f1e1a7d2f3184bc01cd8d719149ae9f942d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:19 +0000
Subject: [PATCH 10/42] fix: a slow older file overwrote the newer one in the
 web viewer

---
 web-spectrogram/app.mjs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/web-spectrogram/app.mjs b/web-spectrogram/app.mjs
index 898ad58..53cc5bc 100644
--- a/web-spectrogram/app.mjs
+++ b/web-spectrogram/app.mjs
@@ -175,9 +175,14 @@ export async function initApp() {
   console.log("wasm loaded");
   const fileInput = document.getElementById("file");
   const canvas = document.getElementById("spec");
+  // Files are numbered as they are chosen; a file that finishes late must not
+  // replace a newer one that is already shown.
+  let chosen = 0;
+  let shown = 0;
   fileInput.addEventListener("change", async (e) => {
     const file = e.target.files[0];
     if (!file) return;
+    const turn = ++chosen;
     console.log("file selected", file.name);
     const arrayBuffer = await file.arrayBuffer();
     const audioCtx = new AudioContext();
@@ -185,6 +190,8 @@ export async function initApp() {
     const samples = audioBuffer.getChannelData(0);
     console.log("samples", samples.length);
     const res = w.stft_magnitudes(samples, 1024, 512);
+    if (turn < shown) return;
+    shown = turn;
     drawSpectrogram(canvas, res, w.color_from_magnitude_u8);
   });
 }
-- 
2.43.0


From 5a564da0c6e070822c84f7fdbba790d193d1b477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:54 +0000
Subject: [PATCH 11/42] fix: half-merged getters kept the web-spectrogram
 library from compiling

---
 web-spectrogram/src/lib.rs | 16 ++--------------
 1 file changed, 2 insertions(+), 14 deletions(-)

diff --git a/web-spectrogram/src/lib.rs b/web-spectrogram/src/lib.rs
index bddb61a..f64481a 100644
--- a/web-spectrogram/src/lib.rs
+++ b/web-spectrogram/src/lib.rs
@@ -120,13 +120,7 @@ impl FftResult {
 
     #[wasm_bindgen(getter)]
     pub fn im(&self) -> Vec<f32> {
-    pub fn re(&self) -> Float32Array {
-        Float32Array::from(self.re.as_slice())
-    }
-
-    #[wasm_bindgen(getter)]
-    pub fn im(&self) -> Float32Array {
-        Float32Array::from(self.im.as_slice())
+        self.im.clone()
     }
 }
 
@@ -164,13 +158,7 @@ impl HaarResult {
 
     #[wasm_bindgen(getter)]
     pub fn diff(&self) -> Vec<f32> {
-    pub fn avg(&self) -> Array {
-        self.avg.iter().map(|&x| JsValue::from_f64(x as f64)).collect()
-    }
-
-    #[wasm_bindgen(getter)]
-    pub fn diff(&self) -> Array {
-        self.diff.iter().map(|&x| JsValue::from_f64(x as f64)).collect()
+        self.diff.clone()
     }
 }
 
-- 
2.43.0


From d6cb567e561ba7bb361bc1ff25a907223085944e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:21 +0000
Subject: [PATCH 12/42] fix: the parallel STFT silently dropped frames when
 given too few output buffers

---
 src/stft.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/stft.rs b/src/stft.rs
index d91b192..b1d7bd2 100644
--- a/src/stft.rs
+++ b/src/stft.rs
@@ -242,6 +242,9 @@ pub fn parallel<Fft: FftImpl<f32>>(
     if hop_size == 0 {
         return Err(FftError::InvalidHopSize);
     }
+    if output.len() < signal.len().div_ceil(hop_size) {
+        return Err(FftError::MismatchedLengths);
+    }
     let win_len = window.len();
     output
         .par_iter_mut()
-- 
2.43.0


From fe24ad67609944da1f438cfdcb6c9b9877e2f2c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:21 +0000
Subject: [PATCH 13/42] fix: the parallel inverse STFT panicked on a short
 frame and accepted a long one

---
 src/stft.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/stft.rs b/src/stft.rs
index b1d7bd2..b189ecc 100644
--- a/src/stft.rs
+++ b/src/stft.rs
@@ -303,6 +303,9 @@ pub fn inverse_parallel<Fft: FftImpl<f32>>(
         return Err(FftError::InvalidHopSize);
     }
     let win_len = window.len();
+    if frames.iter().any(|frame| frame.len() != win_len) {
+        return Err(FftError::MismatchedLengths);
+    }
     type Accum = (usize, alloc::vec::Vec<f32>, alloc::vec::Vec<f32>);
     type AccumResult = Result<alloc::vec::Vec<Accum>, FftError>;
     let partials: AccumResult = frames
-- 
2.43.0


From 8a861257c94735356501c259b9d97a6bcf0472f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:22 +0000
Subject: [PATCH 14/42] fix: the inverse STFT added its result to whatever the
 output buffer held

---
 src/stft.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/stft.rs b/src/stft.rs
index b189ecc..960d406 100644
--- a/src/stft.rs
+++ b/src/stft.rs
@@ -132,6 +132,9 @@ pub fn istft<Fft: FftImpl<f32>>(
     for x in scratch.iter_mut() {
         *x = 0.0;
     }
+    for x in output.iter_mut() {
+        *x = 0.0;
+    }
     // Overlap-add
     for (frame_idx, frame) in frames.iter_mut().enumerate() {
         let start = frame_idx * hop_size;
@@ -328,6 +331,9 @@ pub fn inverse_parallel<Fft: FftImpl<f32>>(
         })
         .collect();
     let partials = partials?;
+    for x in output.iter_mut() {
+        *x = 0.0;
+    }
     let mut norm = alloc::vec::Vec::with_capacity(output.len());
     norm.resize(output.len(), 0.0);
     for (start, acc_frame, norm_frame) in partials {
-- 
2.43.0


From 67593fdffdadb5d8542796c5fdd644fb71265149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:23 +0000
Subject: [PATCH 15/42] fix: stft_magnitudes divided by zero on a zero hop

---
 src/visual/spectrogram.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/visual/spectrogram.rs b/src/visual/spectrogram.rs
index ea209d5..ac78278 100644
--- a/src/visual/spectrogram.rs
+++ b/src/visual/spectrogram.rs
@@ -54,6 +54,9 @@ pub fn stft_magnitudes(
     win_len: usize,
     hop: usize,
 ) -> Result<(Vec<Vec<f32>>, f32), FftError> {
+    if hop == 0 {
+        return Err(FftError::InvalidHopSize);
+    }
     let window = hann(win_len);
     let fft = ScalarFftImpl::<f32>::default();
     let mut frames = vec![vec![]; samples.len().div_ceil(hop)];
-- 
2.43.0


From cf061859b98cf557de7612d35be1c3ad004c168f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:23 +0000
Subject: [PATCH 16/42] fix: IstftStream accepted a window shorter than its
 frames and panicked on the first push

---
 src/stft.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/stft.rs b/src/stft.rs
index 960d406..6c67728 100644
--- a/src/stft.rs
+++ b/src/stft.rs
@@ -440,6 +440,9 @@ impl<'a, Fft: crate::fft::FftImpl<f32>> IstftStream<'a, Fft> {
         if hop == 0 {
             return Err(FftError::InvalidHopSize);
         }
+        if window.len() < win_len {
+            return Err(FftError::MismatchedLengths);
+        }
         let buffer = vec![0.0f32; win_len + hop * 2];
         let norm_buf = vec![0.0f32; win_len + hop * 2];
         let time_buf = vec![crate::fft::Complex32::new(0.0, 0.0); win_len];
-- 
2.43.0


From 7cd942f282cae8085ff60f631bd9f89b9532dd18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:24 +0000
Subject: [PATCH 17/42] fix: IstftStream ran past its buffer when the hop is
 longer than the window

---
 src/stft.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/stft.rs b/src/stft.rs
index 6c67728..fefb1e3 100644
--- a/src/stft.rs
+++ b/src/stft.rs
@@ -493,9 +493,10 @@ impl<'a, Fft: crate::fft::FftImpl<f32>> IstftStream<'a, Fft> {
         self.out_pos += self.hop;
         self.buf_pos += self.hop;
         // Zero the region that will be written next time
-        if self.buf_pos + self.win_len > self.buffer.len() {
+        // and returned next time (a hop can be longer than the window)
+        let new_len = self.buf_pos + self.win_len.max(self.hop);
+        if new_len > self.buffer.len() {
             // Extend buffer if needed
-            let new_len = self.buf_pos + self.win_len;
             self.buffer.resize(new_len, 0.0);
             self.norm_buf.resize(new_len, 0.0);
         }
-- 
2.43.0


From fbdd925a673502c56dc6fc44e1aa39b355c22dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:24 +0000
Subject: [PATCH 18/42] fix: a planned DCT-II ran on inputs of another length
 with the wrong table

---
 src/dct.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dct.rs b/src/dct.rs
index ace4d1a..512242c 100644
--- a/src/dct.rs
+++ b/src/dct.rs
@@ -67,7 +67,7 @@ impl DctPlanner {
         cos: &[f32],
     ) -> Result<(), FftError> {
         let n = input.len();
-        if output.len() != n {
+        if cos.len() != n || output.len() != n {
             return Err(FftError::MismatchedLengths);
         }
         let m = 2 * n;
-- 
2.43.0


From a3c8d7dc70ed40f6c8d4a2b385a47243724f1881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:25 +0000
Subject: [PATCH 19/42] fix: the size checks of multi-dimensional transforms
 overflowed

---
 src/ndfft.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ndfft.rs b/src/ndfft.rs
index 34a0c7f..106aff1 100644
--- a/src/ndfft.rs
+++ b/src/ndfft.rs
@@ -78,7 +78,7 @@ pub fn fft2d_inplace<T: Float>(
     fft: &ScalarFftImpl<T>,
     scratch_col: &mut [Complex<T>],
 ) -> Result<(), FftError> {
-    if rows * cols != data.len() {
+    if rows.checked_mul(cols) != Some(data.len()) {
         return Err(FftError::MismatchedLengths);
     }
     if rows == 0 || cols == 0 {
@@ -119,7 +119,7 @@ pub fn fft3d_inplace<T: Float>(
     fft: &ScalarFftImpl<T>,
     scratch: &mut Fft3dScratch<'_, T>,
 ) -> Result<(), FftError> {
-    if depth * rows * cols != data.len() {
+    if depth.checked_mul(rows).and_then(|v| v.checked_mul(cols)) != Some(data.len()) {
         return Err(FftError::MismatchedLengths);
     }
     if depth == 0 || rows == 0 || cols == 0 {
-- 
2.43.0


From ef261cb7c31e570b10d6878763a3baac44b15818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:25 +0000
Subject: [PATCH 20/42] fix: hashing a song failed when a read was interrupted
 by a signal

---
 src/media/index.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/media/index.rs b/src/media/index.rs
index b527883..d04176b 100644
--- a/src/media/index.rs
+++ b/src/media/index.rs
@@ -42,7 +42,11 @@ impl SongIndex {
         let mut hasher = blake3::Hasher::new();
         let mut buf = [0u8; 8192];
         loop {
-            let n = file.read(&mut buf)?;
+            let n = match file.read(&mut buf) {
+                Ok(n) => n,
+                Err(e) if e.kind() == io::ErrorKind::Interrupted => continue,
+                Err(e) => return Err(e),
+            };
             if n == 0 {
                 break;
             }
-- 
2.43.0


From 274adf6da0ddef99683a4073f840cc67fe5e1644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:39 +0000
Subject: [PATCH 21/42] fix: chirp phases were rounded to single precision
 before the period was removed

---
 src/fft.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fft.rs b/src/fft.rs
index 6a82541..332e007 100644
--- a/src/fft.rs
+++ b/src/fft.rs
@@ -414,7 +414,9 @@ impl<T: Float> FftPlanner<T> {
             let mut chirp: Vec<Complex<T>> = Vec::with_capacity(n);
             let mut b: Vec<Complex<T>> = Vec::with_capacity(m);
             for i in 0..n {
-                let angle = T::pi() * T::from_f32((i * i) as f32) / T::from_f32(n as f32);
+                // exp(i*pi*k/n) repeats every 2n, so reduce i^2 before it is rounded.
+                let sq = (i * i) % (2 * n);
+                let angle = T::pi() * T::from_f32(sq as f32) / T::from_f32(n as f32);
                 chirp.push(Complex::expi(-angle));
                 b.push(Complex::expi(angle));
             }
-- 
2.43.0


From 9c22f0751482a2c23bc4e320de87d2378fb370c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:39 +0000
Subject: [PATCH 22/42] fix: fft_mixed_radix_with_twiddles never returned on an
 empty input

---
 src/fft.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fft.rs b/src/fft.rs
index 332e007..0e75f57 100644
--- a/src/fft.rs
+++ b/src/fft.rs
@@ -1673,6 +1673,9 @@ impl ScalarFftImpl<f32> {
         twiddles: &TwiddleFactorBuffer,
     ) -> Result<(), FftError> {
         let n = input.len();
+        if n == 0 {
+            return Err(FftError::EmptyInput);
+        }
         let factors = factorize(n);
         if factors.iter().all(|&f| f == 2 || f == 4) {
             if factors.iter().all(|&f| f == 4) {
-- 
2.43.0


From d60551689c138d21de324539b2cfe9b0a3f3e95f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:55 +0000
Subject: [PATCH 23/42] fix: reconstructing an odd-length multi-level
 decomposition panicked

---
 src/wavelet.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/wavelet.rs b/src/wavelet.rs
index 8f12b57..fc3e0b6 100644
--- a/src/wavelet.rs
+++ b/src/wavelet.rs
@@ -77,6 +77,8 @@ where
 {
     let mut current = approx.to_vec();
     for d in details.iter().rev() {
+        // an odd level was padded by one sample before it was split
+        current.truncate(d.len());
         current = inverse(&current, d);
     }
     current
-- 
2.43.0


From 29eeb35233f82b44ad813e9a79834a8bf19625af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:28 +0000
Subject: [PATCH 24/42] fix: a song indexed again with new contents was still
 found by its old ones

---
 src/media/index.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/media/index.rs b/src/media/index.rs
index d04176b..7942b95 100644
--- a/src/media/index.rs
+++ b/src/media/index.rs
@@ -15,6 +15,8 @@ use std::io::{self, Read};
 use std::path::{Path, PathBuf};
 #[cfg(feature = "std")]
 use std::string::{String, ToString};
+#[cfg(feature = "std")]
+use std::vec::Vec;
 
 #[cfg(feature = "std")]
 /// Unique identifier for a song.
@@ -26,7 +28,8 @@ pub struct SongId(PathBuf);
 #[derive(Default)]
 pub struct SongIndex {
     by_name: HashMap<String, SongId>,
-    by_hash: HashMap<[u8; 32], SongId>,
+    by_hash: HashMap<[u8; 32], Vec<SongId>>,
+    hash_of: HashMap<SongId, [u8; 32]>,
 }
 
 #[cfg(feature = "std")]
@@ -55,6 +58,16 @@ impl SongIndex {
         Ok(*hasher.finalize().as_bytes())
     }
 
+    /// Record the hash of `id`. A hash it had before no longer leads to it.
+    fn link(&mut self, hash: [u8; 32], id: &SongId) {
+        if let Some(old) = self.hash_of.insert(id.clone(), hash) {
+            if let Some(ids) = self.by_hash.get_mut(&old) {
+                ids.retain(|x| x != id);
+            }
+        }
+        self.by_hash.entry(hash).or_default().push(id.clone());
+    }
+
     /// Add a song to the index, computing its hash and storing it by name and hash.
     pub fn index_song(&mut self, path: &Path) -> io::Result<SongId> {
         let hash = Self::hash_file(path)?;
@@ -62,7 +75,7 @@ impl SongIndex {
         if let Some(name) = path.file_name().and_then(|s| s.to_str()) {
             self.by_name.insert(name.to_string(), id.clone());
         }
-        self.by_hash.insert(hash, id.clone());
+        self.link(hash, &id);
         Ok(id)
     }
 
@@ -78,14 +91,14 @@ impl SongIndex {
             }
         }
         let hash = Self::hash_file(path)?;
-        if let Some(id) = self.by_hash.get(&hash) {
+        if let Some(id) = self.by_hash.get(&hash).and_then(|ids| ids.last()) {
             return Ok(id.clone());
         }
         let id = SongId(path.to_path_buf());
         if let Some(name) = path.file_name().and_then(|s| s.to_str()) {
             self.by_name.insert(name.to_string(), id.clone());
         }
-        self.by_hash.insert(hash, id.clone());
+        self.link(hash, &id);
         Ok(id)
     }
 }
-- 
2.43.0


From aa9a91dd7db954010d808ae346cf7d07dc8080a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:07 +0000
Subject: [PATCH 25/42] fix: loading audio failed when a read was interrupted

---
 sanity-check/src/lib.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/sanity-check/src/lib.rs b/sanity-check/src/lib.rs
index e5a7bee..742af61 100644
--- a/sanity-check/src/lib.rs
+++ b/sanity-check/src/lib.rs
@@ -5,8 +5,8 @@ use image::{
     ColorType, EncodableLayout, ImageBuffer, ImageEncoder, Rgb,
 };
 use std::error::Error;
-use std::fs::File;
-use std::io;
+use std::fs::{self, File};
+use std::io::{self, Cursor};
 use std::path::Path;
 use symphonia::core::audio::SampleBuffer;
 use symphonia::core::codecs::DecoderOptions;
@@ -31,8 +31,9 @@ pub fn read_audio(path: &Path) -> Result<(Vec<f32>, u32), Box<dyn Error>> {
     {
         return read_wav(path);
     }
-    let file = File::open(path)?;
-    let mss = MediaSourceStream::new(Box::new(file), Default::default());
+    // Read the whole file first: the demuxers do not retry interrupted reads.
+    let data = Cursor::new(fs::read(path)?);
+    let mss = MediaSourceStream::new(Box::new(data), Default::default());
     let mut hint = Hint::new();
     if let Some(ext) = path.extension().and_then(|e| e.to_str()) {
         hint.with_extension(ext);
@@ -97,7 +98,7 @@ pub fn read_audio(path: &Path) -> Result<(Vec<f32>, u32), Box<dyn Error>> {
 }
 
 fn read_wav(path: &Path) -> Result<(Vec<f32>, u32), Box<dyn Error>> {
-    let mut reader = WavReader::open(path)?;
+    let mut reader = WavReader::new(Cursor::new(fs::read(path)?))?;
     let spec = reader.spec();
     let samples: Vec<f32> = reader
         .samples::<i16>()
-- 
2.43.0


From 633828ff2c4606db117b2b6f7dc9650476299c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:57 +0000
Subject: [PATCH 26/42] fix: WAV loading left several channels interleaved and
 scaled other sample sizes as 16-bit

---
 sanity-check/src/lib.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/sanity-check/src/lib.rs b/sanity-check/src/lib.rs
index 742af61..ed5d4b5 100644
--- a/sanity-check/src/lib.rs
+++ b/sanity-check/src/lib.rs
@@ -100,11 +100,17 @@ pub fn read_audio(path: &Path) -> Result<(Vec<f32>, u32), Box<dyn Error>> {
 fn read_wav(path: &Path) -> Result<(Vec<f32>, u32), Box<dyn Error>> {
     let mut reader = WavReader::new(Cursor::new(fs::read(path)?))?;
     let spec = reader.spec();
+    let full_scale = 2f32.powi(spec.bits_per_sample as i32 - 1) - 1.0;
     let samples: Vec<f32> = reader
-        .samples::<i16>()
-        .map(|s| s.map(|v| v as f32 / i16::MAX as f32))
+        .samples::<i32>()
+        .map(|s| s.map(|v| v as f32 / full_scale))
         .collect::<Result<_, _>>()?;
-    Ok((samples, spec.sample_rate))
+    let channels = spec.channels as usize;
+    let mono = samples
+        .chunks(channels)
+        .map(|frame| frame.iter().sum::<f32>() / channels as f32)
+        .collect();
+    Ok((mono, spec.sample_rate))
 }
 
 pub fn save_png(
-- 
2.43.0


From 5b4f4a80150296aed03178dbc5f64c9988120a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:52 +0000
Subject: [PATCH 27/42] fix: save_png reported success when the end of the
 picture could not be written

---
 sanity-check/src/lib.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/sanity-check/src/lib.rs b/sanity-check/src/lib.rs
index ed5d4b5..7f461d9 100644
--- a/sanity-check/src/lib.rs
+++ b/sanity-check/src/lib.rs
@@ -5,7 +5,7 @@ use image::{
     ColorType, EncodableLayout, ImageBuffer, ImageEncoder, Rgb,
 };
 use std::error::Error;
-use std::fs::{self, File};
+use std::fs;
 use std::io::{self, Cursor};
 use std::path::Path;
 use symphonia::core::audio::SampleBuffer;
@@ -118,8 +118,11 @@ pub fn save_png(
     path: &Path,
     depth: PngDepth,
 ) -> Result<(), Box<dyn Error>> {
-    let file = File::create(path)?;
-    let encoder = PngEncoder::new_with_quality(file, CompressionType::Best, FilterType::Adaptive);
+    // The encoder ignores errors in writing the final chunk, so it must not
+    // write to the file itself.
+    let mut data = Vec::new();
+    let encoder =
+        PngEncoder::new_with_quality(&mut data, CompressionType::Best, FilterType::Adaptive);
     let (w, h) = (img.width(), img.height());
     match depth {
         PngDepth::Eight => {
@@ -137,6 +140,7 @@ pub fn save_png(
             encoder.write_image(img.as_raw().as_bytes(), w, h, ColorType::Rgb16)?;
         }
     }
+    fs::write(path, data)?;
     Ok(())
 }
 
-- 
2.43.0


From 1af81c0443427cab6425e48056e115854d31ea51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:43 +0000
Subject: [PATCH 28/42] fix: a file chosen while the web viewer was still
 loading was ignored

---
 web-spectrogram/app.mjs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/web-spectrogram/app.mjs b/web-spectrogram/app.mjs
index 53cc5bc..96ee467 100644
--- a/web-spectrogram/app.mjs
+++ b/web-spectrogram/app.mjs
@@ -171,8 +171,8 @@ export function drawSpectrogram(
 /* c8 ignore start */
 export async function initApp() {
   console.log("loading wasm");
-  const w = await loadWasm();
-  console.log("wasm loaded");
+  // A file can be chosen while this is still under way.
+  const loading = loadWasm();
   const fileInput = document.getElementById("file");
   const canvas = document.getElementById("spec");
   // Files are numbered as they are chosen; a file that finishes late must not
@@ -189,11 +189,14 @@ export async function initApp() {
     const audioBuffer = await audioCtx.decodeAudioData(arrayBuffer);
     const samples = audioBuffer.getChannelData(0);
     console.log("samples", samples.length);
+    const w = await loading;
     const res = w.stft_magnitudes(samples, 1024, 512);
     if (turn < shown) return;
     shown = turn;
     drawSpectrogram(canvas, res, w.color_from_magnitude_u8);
   });
+  await loading;
+  console.log("wasm loaded");
 }
 /* c8 ignore stop */
 
-- 
2.43.0


From 73f70667fe055ff5bcac497316fc6dc575332c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:04 +0000
Subject: [PATCH 29/42] fix: answer every unknown path with the start page

With the file service nested at the root, addresses below the health route
("/health/") were matched by neither route and got an empty 404. The file
service is now the router's fallback.
---
 web-spectrogram/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/web-spectrogram/src/main.rs b/web-spectrogram/src/main.rs
index 75d2f08..978cefe 100644
--- a/web-spectrogram/src/main.rs
+++ b/web-spectrogram/src/main.rs
@@ -17,8 +17,8 @@ fn app(static_dir: impl AsRef<Path>) -> Router {
     );
 
     Router::new()
-        .nest_service("/", service)
         .route("/health", axum::routing::get(|| async { StatusCode::OK }))
+        .fallback_service(service)
         .layer(CorsLayer::new().allow_origin(Any))
 }
 
-- 
2.43.0


From 79c213b836f46791e826c472595a659e57588faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:00 +0000
Subject: [PATCH 30/42] fix: the web viewer drew a black picture wherever WebGL
 is available

The texture was requested in a format no WebGL version accepts (unsized RED
with float data), so it stayed empty. Its texels were also in frame order
instead of row order, the shader took the natural logarithm for decibels, and
WebGL 1 cannot sample textures of arbitrary size without clamping.
---
 web-spectrogram/app.mjs | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/web-spectrogram/app.mjs b/web-spectrogram/app.mjs
index 96ee467..7d0ede9 100644
--- a/web-spectrogram/app.mjs
+++ b/web-spectrogram/app.mjs
@@ -61,7 +61,8 @@ function drawSpectrogramWebGL(gl, canvas, res) {
   const vs = gl.createShader(gl.VERTEX_SHADER);
   gl.shaderSource(
     vs,
-    "attribute vec2 p; varying vec2 v; void main(){v=(p+1.0)/2.0; gl_Position=vec4(p,0.0,1.0);}",
+    // The first texture row is the top of the picture, as on a 2D canvas.
+    "attribute vec2 p; varying vec2 v; void main(){v=vec2(1.0+p.x,1.0-p.y)/2.0; gl_Position=vec4(p,0.0,1.0);}",
   );
   gl.compileShader(vs);
 
@@ -92,7 +93,7 @@ function drawSpectrogramWebGL(gl, canvas, res) {
     void main() {
       float mag = texture2D(m, v).r;
       float ratio = mag / maxMag;
-      float db = 20.0 * log(max(ratio, 1e-12));
+      float db = 20.0 * log(max(ratio, 1e-12)) / log(10.0);
       float t = (db - FLOOR_DB) / (-FLOOR_DB);
       gl_FragColor = vec4(rainbow(clamp(t, 0.0, 1.0)), 1.0);
     }
@@ -125,16 +126,30 @@ function drawSpectrogramWebGL(gl, canvas, res) {
   gl.bindTexture(gl.TEXTURE_2D, tex);
   gl.texParameteri(gl.TEXTURE_2D, gl.TEXTURE_MIN_FILTER, gl.NEAREST);
   gl.texParameteri(gl.TEXTURE_2D, gl.TEXTURE_MAG_FILTER, gl.NEAREST);
+  // WebGL 1 samples textures of arbitrary size only with clamping.
+  gl.texParameteri(gl.TEXTURE_2D, gl.TEXTURE_WRAP_S, gl.CLAMP_TO_EDGE);
+  gl.texParameteri(gl.TEXTURE_2D, gl.TEXTURE_WRAP_T, gl.CLAMP_TO_EDGE);
+  // Magnitudes come frame by frame, a texture is filled row by row.
+  const texels = new Float32Array(width * height);
+  for (let x = 0; x < width; x++) {
+    for (let y = 0; y < height; y++) {
+      texels[y * width + x] = mags[x * height + y];
+    }
+  }
+  // Single-channel float textures exist in WebGL 2 only; WebGL 1 has an
+  // extension for float luminance.
+  const single = gl.R32F !== undefined;
+  if (!single) gl.getExtension?.("OES_texture_float");
   gl.texImage2D(
     gl.TEXTURE_2D,
     0,
-    gl.RED,
+    single ? gl.R32F : gl.LUMINANCE,
     width,
     height,
     0,
-    gl.RED,
+    single ? gl.RED : gl.LUMINANCE,
     gl.FLOAT,
-    new Float32Array(mags),
+    texels,
   );
 
   const maxLoc = gl.getUniformLocation(program, "maxMag");
-- 
2.43.0


From c649344b82b6f1be0d4d65ad0a44d47fa4fd16cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:33 +0000
Subject: [PATCH 31/42] fix: call libm for f32/f64 sin, cos, sin_cos and
 mul_add without std

Without std the inherent methods do not exist, so the trait methods called themselves
and every transform longer than 16 recursed without end.
---
 src/num.rs | 44 ++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 44 insertions(+)

diff --git a/src/num.rs b/src/num.rs
index af16bca..3b5016b 100644
--- a/src/num.rs
+++ b/src/num.rs
@@ -34,6 +34,7 @@ pub trait Float:
 /// sometimes issues a false positive warning when calling inherent methods (e.g., f32::cos(self))
 /// inside a trait implementation with the same method name. This is not actual recursion:
 /// - f32::cos(self) and f64::cos(self) call the standard library's inherent method, not the trait method.
+/// - Those inherent methods exist only with `std`; without it `libm` is called instead.
 /// - All tests pass and no stack overflow occurs.
 /// - This is a known linter false positive and is safe to suppress.
 #[allow(unconditional_recursion)]
@@ -47,22 +48,43 @@ impl Float for f32 {
     fn from_f32(x: f32) -> Self {
         x
     }
+    #[cfg(feature = "std")]
     fn cos(self) -> Self {
         f32::cos(self)
     }
+    #[cfg(not(feature = "std"))]
+    fn cos(self) -> Self {
+        libm::cosf(self)
+    }
+    #[cfg(feature = "std")]
     fn sin(self) -> Self {
         f32::sin(self)
     }
+    #[cfg(not(feature = "std"))]
+    fn sin(self) -> Self {
+        libm::sinf(self)
+    }
+    #[cfg(feature = "std")]
     fn sin_cos(self) -> (Self, Self) {
         f32::sin_cos(self)
     }
+    #[cfg(not(feature = "std"))]
+    fn sin_cos(self) -> (Self, Self) {
+        libm::sincosf(self)
+    }
     fn pi() -> Self {
         PI32
     }
+    #[cfg(feature = "std")]
     #[inline(always)]
     fn mul_add(self, a: Self, b: Self) -> Self {
         f32::mul_add(self, a, b)
     }
+    #[cfg(not(feature = "std"))]
+    #[inline(always)]
+    fn mul_add(self, a: Self, b: Self) -> Self {
+        libm::fmaf(self, a, b)
+    }
 }
 
 ///
@@ -71,6 +93,7 @@ impl Float for f32 {
 /// sometimes issues a false positive warning when calling inherent methods (e.g., f64::cos(self))
 /// inside a trait implementation with the same method name. This is not actual recursion:
 /// - f64::cos(self) calls the standard library's inherent method, not the trait method.
+/// - That inherent method exists only with `std`; without it `libm` is called instead.
 /// - All tests pass and no stack overflow occurs.
 /// - This is a known linter false positive and is safe to suppress.
 #[allow(unconditional_recursion)]
@@ -84,22 +107,43 @@ impl Float for f64 {
     fn from_f32(x: f32) -> Self {
         x as f64
     }
+    #[cfg(feature = "std")]
     fn cos(self) -> Self {
         f64::cos(self)
     }
+    #[cfg(not(feature = "std"))]
+    fn cos(self) -> Self {
+        libm::cos(self)
+    }
+    #[cfg(feature = "std")]
     fn sin(self) -> Self {
         f64::sin(self)
     }
+    #[cfg(not(feature = "std"))]
+    fn sin(self) -> Self {
+        libm::sin(self)
+    }
+    #[cfg(feature = "std")]
     fn sin_cos(self) -> (Self, Self) {
         f64::sin_cos(self)
     }
+    #[cfg(not(feature = "std"))]
+    fn sin_cos(self) -> (Self, Self) {
+        libm::sincos(self)
+    }
     fn pi() -> Self {
         core::f64::consts::PI
     }
+    #[cfg(feature = "std")]
     #[inline(always)]
     fn mul_add(self, a: Self, b: Self) -> Self {
         f64::mul_add(self, a, b)
     }
+    #[cfg(not(feature = "std"))]
+    #[inline(always)]
+    fn mul_add(self, a: Self, b: Self) -> Self {
+        libm::fma(self, a, b)
+    }
 }
 
 #[repr(C)]
-- 
2.43.0


From 1583a1ea44c5c050efd2f4f5e1b932b5b221c73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:56 +0000
Subject: [PATCH 32/42] fix: without std, refuse other lengths than powers of
 two before touching the buffers

The inverse, split inverse and out-of-place transforms conjugated or overwrote the
caller's data and then returned NonPowerOfTwoNoStd.
---
 src/fft.rs | 40 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/src/fft.rs b/src/fft.rs
index 0e75f57..a71c68b 100644
--- a/src/fft.rs
+++ b/src/fft.rs
@@ -1146,6 +1146,11 @@ impl<T: Float> FftImpl<T> for ScalarFftImpl<T> {
         if n == 1 {
             return Ok(());
         }
+        // Refuse before the input is conjugated, so that a refused call leaves it untouched
+        #[cfg(not(feature = "std"))]
+        if !n.is_power_of_two() {
+            return Err(FftError::NonPowerOfTwoNoStd);
+        }
         #[cfg(feature = "parallel")]
         {
             #[cfg(all(feature = "parallel", feature = "std"))]
@@ -1179,6 +1184,36 @@ impl<T: Float> FftImpl<T> for ScalarFftImpl<T> {
         }
         Ok(())
     }
+    #[cfg(not(feature = "std"))]
+    fn fft_out_of_place(
+        &self,
+        input: &[Complex<T>],
+        output: &mut [Complex<T>],
+    ) -> Result<(), FftError> {
+        if input.len() != output.len() {
+            return Err(FftError::MismatchedLengths);
+        }
+        if !input.is_empty() && !input.len().is_power_of_two() {
+            return Err(FftError::NonPowerOfTwoNoStd);
+        }
+        output.copy_from_slice(input);
+        self.fft(output)
+    }
+    #[cfg(not(feature = "std"))]
+    fn ifft_out_of_place(
+        &self,
+        input: &[Complex<T>],
+        output: &mut [Complex<T>],
+    ) -> Result<(), FftError> {
+        if input.len() != output.len() {
+            return Err(FftError::MismatchedLengths);
+        }
+        if !input.is_empty() && !input.len().is_power_of_two() {
+            return Err(FftError::NonPowerOfTwoNoStd);
+        }
+        output.copy_from_slice(input);
+        self.ifft(output)
+    }
     fn fft_strided(
         &self,
         input: &mut [Complex<T>],
@@ -1401,6 +1436,11 @@ impl<T: Float> FftImpl<T> for ScalarFftImpl<T> {
         if re.len() != im.len() {
             return Err(FftError::MismatchedLengths);
         }
+        // Refuse before the input is conjugated, so that a refused call leaves it untouched
+        #[cfg(not(feature = "std"))]
+        if !re.is_empty() && !re.len().is_power_of_two() {
+            return Err(FftError::NonPowerOfTwoNoStd);
+        }
         if core::any::TypeId::of::<T>() == core::any::TypeId::of::<f32>() {
             let this = unsafe { &*(self as *const _ as *const ScalarFftImpl<f32>) };
             let re32 = unsafe { &mut *(re as *mut [T] as *mut [f32]) };
-- 
2.43.0


From 9fbef404714497ddbe84f76c65514c80d1e6cc0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:37 +0000
Subject: [PATCH 33/42] fix: the Bohman window was skewed and negative in its
 first half

The position ran over half its range and lost its absolute value, so the
window rose from -1/pi to 1 and stayed positive to its end.
---
 src/window_more.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/window_more.rs b/src/window_more.rs
index 0239224..c7217fb 100644
--- a/src/window_more.rs
+++ b/src/window_more.rs
@@ -43,8 +43,8 @@ pub fn bohman(len: usize) -> Vec<f32> {
     let mut w = vec![0.0; len];
     let n = len as f32;
     for (i, w_i) in w.iter_mut().enumerate() {
-        let x = (i as f32 / (n - 1.0)) - 0.5;
-        *w_i = (1.0 - fabsf(x)) * cosf(PI * x) + 1.0 / PI * sinf(PI * x);
+        let x = fabsf(2.0 * i as f32 / (n - 1.0) - 1.0);
+        *w_i = (1.0 - x) * cosf(PI * x) + 1.0 / PI * sinf(PI * x);
     }
     w
 }
-- 
2.43.0


From 2415c6a8e80fb344835f59205c7d1d2a8202d937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:57 +0000
Subject: [PATCH 34/42] fix: windows of length one were NaN and an empty Kaiser
 window panicked

---
 src/window.rs      | 6 ++++++
 src/window_more.rs | 9 +++++++++
 2 files changed, 15 insertions(+)

diff --git a/src/window.rs b/src/window.rs
index 81083eb..f41d468 100644
--- a/src/window.rs
+++ b/src/window.rs
@@ -50,6 +50,9 @@ pub fn blackman(len: usize) -> alloc::vec::Vec<f32> {
 /// Generate a Kaiser window of length `len` and shape parameter `beta`.
 #[cfg(feature = "std")]
 pub fn kaiser(len: usize, beta: f32) -> alloc::vec::Vec<f32> {
+    if len < 2 {
+        return alloc::vec![1.0; len];
+    }
     let denom = bessel0(beta);
     let m = (len - 1) as f32 / 2.0;
     (0..len)
@@ -62,6 +65,9 @@ pub fn kaiser(len: usize, beta: f32) -> alloc::vec::Vec<f32> {
 
 #[cfg(not(feature = "std"))]
 pub fn kaiser(len: usize, beta: f32) -> alloc::vec::Vec<f32> {
+    if len < 2 {
+        return alloc::vec![1.0; len];
+    }
     let denom = bessel0(beta);
     let m = (len - 1) as f32 / 2.0;
     (0..len)
diff --git a/src/window_more.rs b/src/window_more.rs
index c7217fb..4ffaacb 100644
--- a/src/window_more.rs
+++ b/src/window_more.rs
@@ -29,6 +29,9 @@ pub fn tukey(len: usize, alpha: f32) -> Vec<f32> {
 
 /// Bartlett (triangular) window
 pub fn bartlett(len: usize) -> Vec<f32> {
+    if len < 2 {
+        return vec![1.0; len];
+    }
     let mut w = vec![0.0; len];
     let n = len as f32;
     for (i, w_i) in w.iter_mut().enumerate() {
@@ -40,6 +43,9 @@ pub fn bartlett(len: usize) -> Vec<f32> {
 
 /// Bohman window
 pub fn bohman(len: usize) -> Vec<f32> {
+    if len < 2 {
+        return vec![1.0; len];
+    }
     let mut w = vec![0.0; len];
     let n = len as f32;
     for (i, w_i) in w.iter_mut().enumerate() {
@@ -51,6 +57,9 @@ pub fn bohman(len: usize) -> Vec<f32> {
 
 /// Nuttall window
 pub fn nuttall(len: usize) -> Vec<f32> {
+    if len < 2 {
+        return vec![1.0; len];
+    }
     let mut w = vec![0.0; len];
     let a0 = 0.355768;
     let a1 = 0.487396;
-- 
2.43.0


From f6d1060ebac93c5053e9a7a3e87790d245091c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:32 +0000
Subject: [PATCH 35/42] fix: the Kaiser window was wrong or NaN for large shape
 parameters

The series for I0 was cut after 19 terms and its powers overflowed f32.
---
 src/window.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/window.rs b/src/window.rs
index f41d468..c3abfff 100644
--- a/src/window.rs
+++ b/src/window.rs
@@ -6,16 +6,16 @@ use core::f32::consts::PI;
 use crate::num::Float;
 use libm::sqrtf;
 
-fn bessel0(x: f32) -> f32 {
+fn bessel0(x: f32) -> f64 {
     // Approximate I0(x) using a series expansion
+    let y = f64::from(x) * f64::from(x) / 4.0;
     let mut sum = 1.0;
-    let y = x * x / 4.0;
-    let mut t = y;
-    let mut k = 1.0;
-    for n in 1..20 {
-        k *= n as f32;
-        sum += t / (k * k);
-        t *= y;
+    let mut t = 1.0;
+    let mut n = 1.0;
+    while t > sum * 1e-9 {
+        t *= y / (n * n);
+        sum += t;
+        n += 1.0;
     }
     sum
 }
@@ -58,7 +58,7 @@ pub fn kaiser(len: usize, beta: f32) -> alloc::vec::Vec<f32> {
     (0..len)
         .map(|i| {
             let r = (i as f32 - m) / m;
-            bessel0(beta * sqrtf(1.0 - r * r)) / denom
+            (bessel0(beta * sqrtf(1.0 - r * r)) / denom) as f32
         })
         .collect()
 }
@@ -73,7 +73,7 @@ pub fn kaiser(len: usize, beta: f32) -> alloc::vec::Vec<f32> {
     (0..len)
         .map(|i| {
             let r = (i as f32 - m) / m;
-            bessel0(beta * sqrtf(1.0 - r * r)) / denom
+            (bessel0(beta * sqrtf(1.0 - r * r)) / denom) as f32
         })
         .collect()
 }
-- 
2.43.0


From ef3d48a58e5f823abf2b36083616e9a873d25a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:44 +0000
Subject: [PATCH 36/42] fix: the DST-III did not invert the DST-II

It halved the first sample as the DCT-III does, and used sines of whole
multiples. The DST-III halves the last sample, whose sines alternate.
---
 src/dst.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/dst.rs b/src/dst.rs
index 549c829..91813ac 100644
--- a/src/dst.rs
+++ b/src/dst.rs
@@ -121,9 +121,10 @@ pub fn dst3(input: &[f32]) -> Vec<f32> {
     let mut output = vec![0.0; n];
     let factor = PI / n as f32;
     for (k, out) in output.iter_mut().enumerate() {
-        let mut sum = input[0] / 2.0;
-        for (i, &x) in input.iter().enumerate().skip(1) {
-            sum += x * (factor * (k as f32 + 0.5) * i as f32).sin();
+        let last = input[n - 1] / 2.0;
+        let mut sum = if k.is_multiple_of(2) { last } else { -last };
+        for (i, &x) in input.iter().enumerate().take(n - 1) {
+            sum += x * (factor * (i as f32 + 1.0) * (k as f32 + 0.5)).sin();
         }
         *out = sum;
     }
@@ -245,9 +246,10 @@ pub fn dst3_inplace_stack_fft<const N: usize>(
     // Direct computation using stack memory to ensure parity with heap-based version.
     let factor = PI / N as f32;
     for (k, out) in output.iter_mut().enumerate() {
-        let mut sum = input[0] / 2.0;
-        for (n, &x) in input.iter().enumerate().skip(1) {
-            sum += x * (factor * (k as f32 + 0.5) * n as f32).sin();
+        let last = input[N - 1] / 2.0;
+        let mut sum = if k.is_multiple_of(2) { last } else { -last };
+        for (i, &x) in input.iter().enumerate().take(N - 1) {
+            sum += x * (factor * (i as f32 + 1.0) * (k as f32 + 0.5)).sin();
         }
         *out = sum;
     }
-- 
2.43.0


From 96375e578f60c4e07faba9c8eed180b664f0253b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:44 +0000
Subject: [PATCH 37/42] fix: the inverse db4, sym4 and coif1 transforms did not
 reconstruct

The analysis correlates with its filters, so the synthesis has to use the
same taps; it had them in reverse order.
---
 src/wavelet.rs | 64 +++++++++++++++++++++++++-------------------------
 1 file changed, 32 insertions(+), 32 deletions(-)

diff --git a/src/wavelet.rs b/src/wavelet.rs
index fc3e0b6..2e8a66a 100644
--- a/src/wavelet.rs
+++ b/src/wavelet.rs
@@ -316,24 +316,24 @@ pub fn db4_inverse(approx: &[f32], detail: &[f32]) -> Vec<f32> {
     let len = n * 2;
     let mut output = vec![0.0; len];
     let g = [
-        0.2303778133088965,
-        0.7148465705529157,
-        0.6308807679298589,
-        -0.027983769416859854,
-        -0.18703481171909309,
-        0.030841381835560764,
-        0.0328830116668852,
-        -0.010597401785069032,
-    ];
-    let h = [
         -0.010597401785069032,
-        -0.0328830116668852,
+        0.0328830116668852,
         0.030841381835560764,
-        0.18703481171909309,
+        -0.18703481171909309,
         -0.027983769416859854,
-        -0.6308807679298589,
+        0.6308807679298589,
         0.7148465705529157,
+        0.2303778133088965,
+    ];
+    let h = [
         -0.2303778133088965,
+        0.7148465705529157,
+        -0.6308807679298589,
+        -0.027983769416859854,
+        0.18703481171909309,
+        0.030841381835560764,
+        -0.0328830116668852,
+        -0.010597401785069032,
     ];
     let reflect = |mut idx: isize| -> usize {
         let n = len as isize;
@@ -410,24 +410,24 @@ pub fn sym4_inverse(approx: &[f32], detail: &[f32]) -> Vec<f32> {
     let len = n * 2;
     let mut output = vec![0.0; len];
     let g = [
-        0.0322231006040427,
-        -0.012603967262037833,
-        -0.09921954357684722,
-        0.29785779560527736,
-        0.8037387518059161,
-        0.49761866763201545,
-        -0.02963552764599851,
-        -0.07576571478927333,
-    ];
-    let h = [
         -0.07576571478927333,
-        0.02963552764599851,
+        -0.02963552764599851,
         0.49761866763201545,
-        -0.8037387518059161,
+        0.8037387518059161,
         0.29785779560527736,
-        0.09921954357684722,
+        -0.09921954357684722,
         -0.012603967262037833,
+        0.0322231006040427,
+    ];
+    let h = [
         -0.0322231006040427,
+        -0.012603967262037833,
+        0.09921954357684722,
+        0.29785779560527736,
+        -0.8037387518059161,
+        0.49761866763201545,
+        0.02963552764599851,
+        -0.07576571478927333,
     ];
     let reflect = |mut idx: isize| -> usize {
         let n = len as isize;
@@ -500,20 +500,20 @@ pub fn coif1_inverse(approx: &[f32], detail: &[f32]) -> Vec<f32> {
     let len = n * 2;
     let mut output = vec![0.0; len];
     let g = [
+        -0.015655728135791993,
         -0.07273261951252645,
-        0.3378976624574818,
-        0.8525720202116004,
         0.3848648468648578,
+        0.8525720202116004,
+        0.3378976624574818,
         -0.07273261951252645,
-        -0.015655728135791993,
     ];
     let h = [
-        -0.015655728135791993,
         0.07273261951252645,
-        0.3848648468648578,
-        -0.8525720202116004,
         0.3378976624574818,
+        -0.8525720202116004,
+        0.3848648468648578,
         0.07273261951252645,
+        -0.015655728135791993,
     ];
     let reflect = |mut idx: isize| -> usize {
         let n = len as isize;
-- 
2.43.0


From b86e345cd2254b4eb0734cc65b354ea8c53811d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:44 +0000
Subject: [PATCH 38/42] fix: the Tukey window skipped the last sample of each
 taper

The samples at the end of the cosine lobes were one instead of tapered.
---
 src/window_more.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/window_more.rs b/src/window_more.rs
index 4ffaacb..c0d2a42 100644
--- a/src/window_more.rs
+++ b/src/window_more.rs
@@ -12,12 +12,15 @@ use libm::{cosf, fabsf, floorf, sinf};
 /// Tukey window (tapered cosine)
 pub fn tukey(len: usize, alpha: f32) -> Vec<f32> {
     let alpha = alpha.clamp(0.0, 1.0);
+    if len < 2 || alpha == 0.0 {
+        return vec![1.0; len];
+    }
     let mut w = vec![0.0; len];
     let edge = floorf(alpha * (len as f32 - 1.0) / 2.0) as usize;
     for (n, w_n) in w.iter_mut().enumerate() {
-        *w_n = if n < edge {
+        *w_n = if n <= edge {
             0.5 * (1.0 + (PI * (2.0 * n as f32 / (alpha * (len as f32 - 1.0)) - 1.0)).cos())
-        } else if n < len - edge {
+        } else if n < len - 1 - edge {
             1.0
         } else {
             0.5 * (1.0
-- 
2.43.0


From 351c900c2ae43cd4a185c1b1cb8d1f1e80b7f4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:44 +0000
Subject: [PATCH 39/42] fix: the Goertzel detector looked at the bin below the
 wanted one

The frequency was cut down to a bin instead of rounded to the nearest, so
rounding alone could move the frequency of a bin to the one below.
---
 src/goertzel.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/goertzel.rs b/src/goertzel.rs
index a10ac4f..386b4e6 100644
--- a/src/goertzel.rs
+++ b/src/goertzel.rs
@@ -21,7 +21,7 @@ pub fn goertzel_f32(input: &[f32], sample_rate: f32, target_freq: f32) -> Result
         return Err(FftError::InvalidValue);
     }
     let n = input.len() as f32;
-    let k = floorf(target_freq * n / sample_rate);
+    let k = floorf(target_freq * n / sample_rate + 0.5);
     let omega = 2.0 * core::f32::consts::PI * k / n;
     let coeff = 2.0 * omega.cos();
     let mut s_prev = 0.0;
@@ -44,7 +44,7 @@ pub fn goertzel_f32(input: &[f32], sample_rate: f32, target_freq: f32) -> Result
         return Err(FftError::InvalidValue);
     }
     let n = input.len() as f32;
-    let k = floorf(target_freq * n / sample_rate);
+    let k = floorf(target_freq * n / sample_rate + 0.5);
     let omega = 2.0 * core::f32::consts::PI * k / n;
     let coeff = 2.0 * cosf(omega);
     let mut s_prev = 0.0;
-- 
2.43.0


From 94caf7b6b9df817615cd28281f86d58203750bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:47 +0000
Subject: [PATCH 40/42] fix: a missing file was answered with the one named
 like it without its extension

Clients that name 'identity' among the encodings they accept got it, as
ServeDir takes the missing file for a missing encoding.
---
 web-spectrogram/src/main.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/web-spectrogram/src/main.rs b/web-spectrogram/src/main.rs
index 978cefe..72908b6 100644
--- a/web-spectrogram/src/main.rs
+++ b/web-spectrogram/src/main.rs
@@ -2,7 +2,13 @@
 
 use std::{net::SocketAddr, path::Path};
 
-use axum::{http::StatusCode, routing::get_service, Router};
+use axum::{
+    extract::Request,
+    http::{header::ACCEPT_ENCODING, StatusCode},
+    middleware::map_request,
+    routing::get_service,
+    Router,
+};
 use tower_http::{
     cors::{Any, CorsLayer},
     services::{ServeDir, ServeFile},
@@ -14,7 +20,13 @@ fn app(static_dir: impl AsRef<Path>) -> Router {
         ServeDir::new(dir)
             .append_index_html_on_directories(true)
             .fallback(ServeFile::new(dir.join("index.html"))),
-    );
+    )
+    // Files are served as they are. Asked for an encoding by name, ServeDir would
+    // answer a missing file with the one that is named like it without its extension.
+    .layer(map_request(|mut request: Request| async move {
+        request.headers_mut().remove(ACCEPT_ENCODING);
+        request
+    }));
 
     Router::new()
         .route("/health", axum::routing::get(|| async { StatusCode::OK }))
-- 
2.43.0


From 2b7724a1d8de3f3681c5712ed0aefa5a10d4fe42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:34 +0000
Subject: [PATCH 41/42] fix: a damaged FLAC packet was left out and the audio
 after it moved forward

---
 sanity-check/src/lib.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/sanity-check/src/lib.rs b/sanity-check/src/lib.rs
index 7f461d9..8ec39bb 100644
--- a/sanity-check/src/lib.rs
+++ b/sanity-check/src/lib.rs
@@ -9,12 +9,13 @@ use std::fs;
 use std::io::{self, Cursor};
 use std::path::Path;
 use symphonia::core::audio::SampleBuffer;
-use symphonia::core::codecs::DecoderOptions;
+use symphonia::core::codecs::{DecoderOptions, CODEC_TYPE_FLAC};
 use symphonia::core::errors::Error as SymphoniaError;
 use symphonia::core::formats::FormatOptions;
 use symphonia::core::io::MediaSourceStream;
 use symphonia::core::meta::MetadataOptions;
 use symphonia::core::probe::Hint;
+use symphonia::core::units::TimeBase;
 use symphonia::default::{get_codecs, get_probe};
 
 #[derive(ValueEnum, Clone, Copy, Debug)]
@@ -59,14 +60,27 @@ pub fn read_audio(path: &Path) -> Result<(Vec<f32>, u32), Box<dyn Error>> {
         .ok_or_else(|| io::Error::new(io::ErrorKind::InvalidData, "unknown channel count"))?
         .count();
 
+    // The FLAC demuxer leaves out packets with a bad checksum. Nothing that
+    // follows them may move up.
+    let counted =
+        params.codec == CODEC_TYPE_FLAC && params.time_base == Some(TimeBase::new(1, sample_rate));
+    let mut next_ts = params.start_ts;
+
     let mut samples = Vec::new();
     let mut sample_buf: Option<SampleBuffer<f32>> = None;
 
     loop {
         match format.next_packet() {
             Ok(packet) => {
+                if counted && packet.ts() != next_ts {
+                    return Err(Box::new(io::Error::new(
+                        io::ErrorKind::InvalidData,
+                        "damaged packet",
+                    )));
+                }
                 let decoded = decoder.decode(&packet)?;
                 let frames = decoded.frames() as usize;
+                next_ts += frames as u64;
                 let buf = sample_buf.get_or_insert_with(|| {
                     SampleBuffer::<f32>::new(decoded.capacity() as u64, *decoded.spec())
                 });
-- 
2.43.0


From 54527b15f14d76c5408b446f7991a7d228de0e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:43 +0000
Subject: [PATCH 42/42] fix: the web viewer never closed its audio contexts,
 which browsers limit

---
 web-spectrogram/app.mjs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/web-spectrogram/app.mjs b/web-spectrogram/app.mjs
index 7d0ede9..0385666 100644
--- a/web-spectrogram/app.mjs
+++ b/web-spectrogram/app.mjs
@@ -201,7 +201,13 @@ export async function initApp() {
     console.log("file selected", file.name);
     const arrayBuffer = await file.arrayBuffer();
     const audioCtx = new AudioContext();
-    const audioBuffer = await audioCtx.decodeAudioData(arrayBuffer);
+    let audioBuffer;
+    try {
+      audioBuffer = await audioCtx.decodeAudioData(arrayBuffer);
+    } finally {
+      // Browsers refuse more than a few open contexts.
+      audioCtx.close?.();
+    }
     const samples = audioBuffer.getChannelData(0);
     console.log("samples", samples.length);
     const w = await loading;
-- 
2.43.0

