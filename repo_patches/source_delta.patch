From 511be9feaded5b63292c960a04bb7572aa456d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:36 +0000
Subject: [PATCH 01/50] fix: hue of achromatic colors in HSV was NaN instead of
 0

---
 d10-core/src/color/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/d10-core/src/color/mod.rs b/d10-core/src/color/mod.rs
index 61e200e..367677a 100644
--- a/d10-core/src/color/mod.rs
+++ b/d10-core/src/color/mod.rs
@@ -119,7 +119,7 @@ pub trait Color:
 
         let delta = max - min;
 
-        if delta >= EPSILON || max >= EPSILON {
+        if delta > 0.0 && (delta >= EPSILON || max >= EPSILON) {
             saturation = delta / max;
 
             if red >= max {
-- 
2.43.0


From fd3c505dd162b6ecc7088a946277c777bdf9c897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:25 +0000
Subject: [PATCH 02/50] fix: with_vibrance made transparent colors opaque

---
 d10-core/src/color/rgb.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/d10-core/src/color/rgb.rs b/d10-core/src/color/rgb.rs
index 58eafbb..28bfe93 100644
--- a/d10-core/src/color/rgb.rs
+++ b/d10-core/src/color/rgb.rs
@@ -278,7 +278,7 @@ impl Rgb {
 
         let s = s + (s * std::f32::consts::PI).sin() * scale;
 
-        Hsl::new(hsl.hue(), s.min(1.0).max(0.0), hsl.lightness()).to_rgb()
+        Hsl::new_with_alpha(hsl.hue(), s.min(1.0).max(0.0), hsl.lightness(), self.alpha()).to_rgb()
     }
 
     pub fn with_sepia(&self) -> Rgb {
-- 
2.43.0


From 902d390e14c065b0dceae4e8419b3b4bd2ca34ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:25 +0000
Subject: [PATCH 03/50] fix: hue rotation by more than a full turn gave wrong
 colors

---
 d10-core/src/color/rgb.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/d10-core/src/color/rgb.rs b/d10-core/src/color/rgb.rs
index 28bfe93..7091236 100644
--- a/d10-core/src/color/rgb.rs
+++ b/d10-core/src/color/rgb.rs
@@ -230,12 +230,7 @@ impl Rgb {
     pub fn with_hue_rotate(&self, radians: f32) -> Rgb {
         let hsl = self.to_hsl();
 
-        let mut hue = hsl.hue() + radians / 360.0;
-        if hue >= 1.0 {
-            hue -= 1.0;
-        } else if hue < 0.0 {
-            hue += 1.0;
-        }
+        let hue = (hsl.hue() + radians / 360.0).rem_euclid(1.0);
 
         Hsl {
             data: [hue, hsl.saturation(), hsl.lightness(), self.alpha()],
-- 
2.43.0


From dc5ce0f5b841ce7917684274829662b739e3c132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:23 +0000
Subject: [PATCH 04/50] fix: interlace with an offset above the i32 range
 overflowed

---
 d10-ops/src/interlace.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/d10-ops/src/interlace.rs b/d10-ops/src/interlace.rs
index e5e5134..a42d988 100644
--- a/d10-ops/src/interlace.rs
+++ b/d10-ops/src/interlace.rs
@@ -2,7 +2,8 @@ use d10_core::color::Color;
 use d10_core::pixelbuffer::PixelBuffer;
 
 pub fn interlace<C: Color>(buffer: &PixelBuffer<C>, offset: u32) -> PixelBuffer<C> {
-    let offset = offset as i32;
+    // A larger offset has no further effect, because the border pixel is repeated
+    let offset = offset.min(buffer.width()) as i32;
 
     PixelBuffer::new_from_func(buffer.width(), buffer.height(), |x, y| {
         *if y % 2 == 0 {
-- 
2.43.0


From 692d978101f499c6572184332286f9f33b9aecfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:31 +0000
Subject: [PATCH 05/50] fix: lanczos windows wider than 7 were truncated and
 brightened the image

---
 d10-ops/src/filters.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/d10-ops/src/filters.rs b/d10-ops/src/filters.rs
index 507b597..5ff27c0 100644
--- a/d10-ops/src/filters.rs
+++ b/d10-ops/src/filters.rs
@@ -130,7 +130,8 @@ fn lanczos<const N: usize>(v: f32) -> f32 {
             0.0
         }
     } else {
-        let size = N as f32;
+        // N is the full width of the window but v is relative to its center
+        let size = ((N as f32) - 1.0) / 2.0;
         let v = v / size * 3.0;
         if v < 3.0 {
             (sinc(v) * sinc(v / 3.0)) * (3.0 / size)
-- 
2.43.0


From be39891d69476af8df05a3f2ab87c88a34450017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:56 +0000
Subject: [PATCH 06/50] fix: lanczos interpolation changed uniform colors and
 left the valid range

---
 d10-ops/src/filters.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/d10-ops/src/filters.rs b/d10-ops/src/filters.rs
index 5ff27c0..77fa133 100644
--- a/d10-ops/src/filters.rs
+++ b/d10-ops/src/filters.rs
@@ -177,16 +177,24 @@ pub fn get_pixel_lanczos<const N: usize>(buffer: &PixelBuffer<Rgb>, x: f32, y: f
     }
 
     let mut data = [0.0; 4];
+    let mut col_sum = 0.0;
 
     for y in 0..N {
         let scale = lanczos::<N>(y as f32 - size - ty);
+        col_sum += scale;
         for i in 0..=3 {
             let v = rows[y][i];
             data[i] += v * scale;
         }
     }
 
-    Rgb { data }
+    normalize_lanczos(data, row_scale.iter().sum::<f32>() * col_sum)
+}
+
+/// Undo the deviation of the sum of all lanczos weights from 1.0 and clamp overshooting values
+fn normalize_lanczos(data: [f32; 4], sum: f32) -> Rgb {
+    let [red, green, blue, alpha] = data.map(|v| v / sum);
+    Rgb::new_with_alpha(red, green, blue, alpha)
 }
 
 fn lanczos_dyn(v: f32, size: usize) -> f32 {
@@ -235,14 +243,16 @@ pub fn get_pixel_lanczos_dyn(buffer: &PixelBuffer<Rgb>, x: f32, y: f32, size: us
     }
 
     let mut data = [0.0; 4];
+    let mut col_sum = 0.0;
 
     for y in 0..rowsize {
         let scale = lanczos_dyn((y as isize - size) as f32 - ty, size as usize);
+        col_sum += scale;
         for i in 0..=3 {
             let v = rows[y][i];
             data[i] += v * scale;
         }
     }
 
-    Rgb { data }
+    normalize_lanczos(data, row_scale.iter().sum::<f32>() * col_sum)
 }
-- 
2.43.0


From 4778aef1afe94102d48c80bb2860622394506179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:56 +0000
Subject: [PATCH 07/50] fix: nearest resize was shifted by half an input pixel

---
 d10-ops/src/resize.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/d10-ops/src/resize.rs b/d10-ops/src/resize.rs
index 28575b4..d840578 100644
--- a/d10-ops/src/resize.rs
+++ b/d10-ops/src/resize.rs
@@ -28,8 +28,8 @@ fn resize_pixel_nearest(
     scale_x: f32,
     scale_y: f32,
 ) -> Rgb {
-    let x2 = (x as f32 / scale_x + 0.5).floor() as i32;
-    let y2 = (y as f32 / scale_y + 0.5).floor() as i32;
+    let x2 = ((x as f32 + 0.5) / scale_x).floor() as i32;
+    let y2 = ((y as f32 + 0.5) / scale_y).floor() as i32;
     *buffer.get_pixel_clamped(x2, y2)
 }
 
-- 
2.43.0


From dcebf5a1bb834197ec99c543f2bf9e866e0c3a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:08 +0000
Subject: [PATCH 08/50] fix: lch_color blended hues along the longer part of
 the color circle

---
 d10-ops/src/blend.rs | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/d10-ops/src/blend.rs b/d10-ops/src/blend.rs
index a661734..caad239 100644
--- a/d10-ops/src/blend.rs
+++ b/d10-ops/src/blend.rs
@@ -183,16 +183,11 @@ pub fn blend_lch_lighten(c1: Rgb, c2: Rgb, intensity: f32) -> Rgb {
     c1.with_l(l).to_rgb()
 }
 
-pub fn blend_lch_hue(c1: Rgb, c2: Rgb, intensity: f32) -> Rgb {
-    let c1 = c1.to_lch::<D65, O2>();
-    let c2 = c2.to_lch::<D65, O2>();
-
-    let h1 = c1.h();
-    let h2 = c2.h();
-
+/// Blend two hues given in radians along the shorter part of the color circle
+fn apply_hue_intensity(h1: f32, h2: f32, intensity: f32) -> f32 {
     let diff = (h1 - h2).abs();
 
-    let h = if diff > PI {
+    if diff > PI {
         let h = if h1 < 0.0 {
             apply_intensity(h1 + 2.0 * PI, h2, intensity)
         } else {
@@ -206,7 +201,17 @@ pub fn blend_lch_hue(c1: Rgb, c2: Rgb, intensity: f32) -> Rgb {
         }
     } else {
         apply_intensity(h1, h2, intensity)
-    };
+    }
+}
+
+pub fn blend_lch_hue(c1: Rgb, c2: Rgb, intensity: f32) -> Rgb {
+    let c1 = c1.to_lch::<D65, O2>();
+    let c2 = c2.to_lch::<D65, O2>();
+
+    let h1 = c1.h();
+    let h2 = c2.h();
+
+    let h = apply_hue_intensity(h1, h2, intensity);
 
     c1.with_h(h)
         .to_rgb()
@@ -225,6 +230,6 @@ pub fn blend_lch_color(c1: Rgb, c2: Rgb, intensity: f32) -> Rgb {
     let c2 = c2.to_lch::<D65, O2>();
 
     c1.with_c(apply_intensity(c1.c(), c2.c(), intensity))
-        .with_h(apply_intensity(c1.h(), c2.h(), intensity))
+        .with_h(apply_hue_intensity(c1.h(), c2.h(), intensity))
         .to_rgb()
 }
-- 
2.43.0


From 43e3339ea02b25fe443baec5f2a30c34af34ed79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:28 +0000
Subject: [PATCH 09/50] fix: gaussian kernels with a sigma of zero or of
 extreme size were NaN

---
 d10-core/src/kernel.rs     | 7 +++----
 d10-core/src/kernel_dyn.rs | 7 +++----
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/d10-core/src/kernel.rs b/d10-core/src/kernel.rs
index 115b467..0f53e8f 100644
--- a/d10-core/src/kernel.rs
+++ b/d10-core/src/kernel.rs
@@ -1,5 +1,3 @@
-use std::f32::consts::PI;
-
 pub struct Kernel<const N: usize> {
     pub data: [[f32; N]; N],
 }
@@ -35,7 +33,8 @@ impl<const N: usize> Kernel<N> {
             let size = N as isize;
             let offset = size / 2;
 
-            let s = 2.0 * sigma * sigma;
+            // A width of zero is the limit where only the center counts
+            let s = (2.0 * sigma * sigma).max(f32::MIN_POSITIVE);
 
             let mut sum = 0.0;
 
@@ -43,7 +42,7 @@ impl<const N: usize> Kernel<N> {
                 for y in -offset..size - offset {
                     let r = (x as f32 * x as f32 + y as f32 * y as f32).sqrt();
 
-                    let v = ((-(r * r) / s).exp()) / (PI * s);
+                    let v = (-(r * r) / s).exp();
 
                     data[(y + offset) as usize][(x + offset) as usize] = v;
                     sum += v;
diff --git a/d10-core/src/kernel_dyn.rs b/d10-core/src/kernel_dyn.rs
index 36d2e67..451628d 100644
--- a/d10-core/src/kernel_dyn.rs
+++ b/d10-core/src/kernel_dyn.rs
@@ -1,5 +1,3 @@
-use std::f32::consts::PI;
-
 pub struct KernelDyn {
     data: Vec<f32>,
     pub width: u32,
@@ -45,7 +43,8 @@ impl KernelDyn {
             let size = size as isize;
             let offset = size / 2;
 
-            let s = 2.0 * sigma * sigma;
+            // A width of zero is the limit where only the center counts
+            let s = (2.0 * sigma * sigma).max(f32::MIN_POSITIVE);
 
             let mut sum = 0.0;
 
@@ -53,7 +52,7 @@ impl KernelDyn {
                 for y in -offset..size - offset {
                     let r = (x as f32 * x as f32 + y as f32 * y as f32).sqrt();
 
-                    let v = ((-(r * r) / s).exp()) / (PI * s);
+                    let v = (-(r * r) / s).exp();
 
                     let index = ((x + offset) + ((y + offset) * size)) as usize;
 
-- 
2.43.0


From 8d7ae7ad86d5b01f99b217604bafa6fb6c5ea378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:39 +0000
Subject: [PATCH 10/50] fix: despeckle returned NaN when all neighbors are
 below the threshold

---
 d10-ops/src/despeckle.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/d10-ops/src/despeckle.rs b/d10-ops/src/despeckle.rs
index beac5ba..368d6a5 100644
--- a/d10-ops/src/despeckle.rs
+++ b/d10-ops/src/despeckle.rs
@@ -14,7 +14,7 @@ pub fn despeckle(img: &PixelBuffer<Rgb>, threshold: f32, amount: u8) -> PixelBuf
                 }
             }
 
-            if count <= amount {
+            if count <= amount && count < 9 {
                 let mut data = [0f32; 3];
 
                 for c in k.iter().flat_map(|row| row.iter()) {
-- 
2.43.0


From ebfbee51d5e22a0c71034c25d379c70cc372f1a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:39 +0000
Subject: [PATCH 11/50] fix: symmetric nearest neighbor of radius 0 without
 center was NaN

---
 d10-ops/src/symmetric_nearest_neighbor.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/d10-ops/src/symmetric_nearest_neighbor.rs b/d10-ops/src/symmetric_nearest_neighbor.rs
index 14c779f..162525b 100644
--- a/d10-ops/src/symmetric_nearest_neighbor.rs
+++ b/d10-ops/src/symmetric_nearest_neighbor.rs
@@ -17,6 +17,9 @@ pub fn symmetric_nearest_neighbor(
     radius: usize,
     with_center: bool,
 ) -> PixelBuffer<Rgb> {
+    // Without any neighbor the center is the only color left to use
+    let with_center = with_center || radius == 0;
+
     PixelBuffer::new_from_func(buffer.width(), buffer.height(), |x, y| {
         let center = buffer.get_pixel(x, y);
 
-- 
2.43.0


From 19c7e52ba4c353a5fe20135045ec9b85589e711d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:59 +0000
Subject: [PATCH 12/50] fix: balance returned colors outside of the valid range

---
 d10-ops/src/balance_channels.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/d10-ops/src/balance_channels.rs b/d10-ops/src/balance_channels.rs
index 404d6c1..c75ec6e 100644
--- a/d10-ops/src/balance_channels.rs
+++ b/d10-ops/src/balance_channels.rs
@@ -88,7 +88,7 @@ fn balance_buffer<C: Color + From<Rgb>, const START: usize, const NUM_CHANNELS:
             c.data_mut()[START + i] = level_channel(c.data()[START + i], min[i], max[i])
         }
 
-        c.to_rgb()
+        c.to_rgb().map_color_channels(|v| v.clamp(0.0, 1.0))
     })
 }
 
-- 
2.43.0


From e1192ce373e9ecc21ea57cab25724a5a1948804f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:59 +0000
Subject: [PATCH 13/50] fix: optimize_saturation gave invalid colors with low
 offsets

---
 d10-ops/src/saturation.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/d10-ops/src/saturation.rs b/d10-ops/src/saturation.rs
index ba162f3..413f098 100644
--- a/d10-ops/src/saturation.rs
+++ b/d10-ops/src/saturation.rs
@@ -54,7 +54,8 @@ fn get_gamma_pow(gamma: f32, brightness: f32) -> f32 {
         1.0 + diff * factor
     };
 
-    1.0 / gamma
+    // Values below zero would invert the saturation instead of removing it
+    1.0 / gamma.max(0.0)
 }
 
 fn avg_saturation(buffer: &PixelBuffer<Rgb>, mode: SaturationMode) -> f32 {
-- 
2.43.0


From 6191041c5b0531ae59fe28f023433d65fb82eddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:59 +0000
Subject: [PATCH 14/50] fix: optimize_lightness turned bright images white with
 high factors

---
 d10-ops/src/lightness.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/d10-ops/src/lightness.rs b/d10-ops/src/lightness.rs
index 49a7b43..a70a0d7 100644
--- a/d10-ops/src/lightness.rs
+++ b/d10-ops/src/lightness.rs
@@ -9,7 +9,8 @@ pub fn optimize_lightness(buffer: &PixelBuffer<Rgb>, factor: f32) -> PixelBuffer
 
     let avg = sum / buffer.data().len() as f64;
 
-    let gamma = 1.0 - (avg as f32 - 0.5) * factor;
+    // Values below zero would turn the image white instead of darkening it
+    let gamma = (1.0 - (avg as f32 - 0.5) * factor).max(0.0);
 
     buffer.map_colors(|c| c.with_gamma(gamma))
 }
-- 
2.43.0


From 3bab3892eea74e519179b976e8bd58222cda652b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:59 +0000
Subject: [PATCH 15/50] fix: color temperatures below 1900K produced NaN

---
 d10-ops/src/temperature.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/d10-ops/src/temperature.rs b/d10-ops/src/temperature.rs
index 0a078c5..73b1f7f 100644
--- a/d10-ops/src/temperature.rs
+++ b/d10-ops/src/temperature.rs
@@ -54,11 +54,8 @@ fn calculate_factors(orig_temp: f32, new_temp: f32) -> [f32; 3] {
     let orig = convert_kelvin_to_rgb(orig_temp);
     let new = convert_kelvin_to_rgb(new_temp);
 
-    [
-        orig.data()[0] / new.data()[0],
-        orig.data()[1] / new.data()[1],
-        orig.data()[2] / new.data()[2],
-    ]
+    // There is no blue at all in the color of low temperatures
+    std::array::from_fn(|i| orig.data()[i].max(f32::EPSILON) / new.data()[i].max(f32::EPSILON))
 }
 
 fn convert_kelvin_to_rgb(temperature: f32) -> Rgb {
-- 
2.43.0


From 68a47920efcb87893218cb97cf5a7da197ec43d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:27 +0000
Subject: [PATCH 16/50] fix: sRGB samples lost one step when saving an image
 again

---
 d10-codecs/src/utils.rs | 16 ++++++++++++++--
 d10-codecs/src/webp.rs  |  7 +++++--
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/d10-codecs/src/utils.rs b/d10-codecs/src/utils.rs
index 51d8329..99d8075 100644
--- a/d10-codecs/src/utils.rs
+++ b/d10-codecs/src/utils.rs
@@ -6,13 +6,25 @@ use d10_core::pixelbuffer::{is_valid_buffer_size, PixelBuffer};
 use crate::DecodingError;
 
 /// Convert color channel value between 0.0 and 1.0 into an u8
+///
+/// The small offset keeps values that are just below a step because of
+/// rounding errors in color conversions at that step.
 pub(crate) fn as_u8(value: f32) -> u8 {
+    (value * 255.0 + 0.01).clamp(0.0, 255.0) as u8
+}
+
+/// Convert color channel value between 0.0 and 1.0 into an u8 without the offset of `as_u8`
+///
+/// Only used for lossy files, where a step does not matter.
+pub(crate) fn as_u8_lossy(value: f32) -> u8 {
     (value * 255.0).clamp(0.0, 255.0) as u8
 }
 
 /// Convert color channel value between 0.0 and 1.0 into an u16
+///
+/// See `as_u8` for the offset.
 pub(crate) fn as_u16(value: f32) -> u16 {
-    (value * 65535.0).clamp(0.0, 65535.0) as u16
+    (value * 65535.0 + 0.1).clamp(0.0, 65535.0) as u16
 }
 
 pub(crate) fn to_l8_vec(buffer: &PixelBuffer<Rgb>) -> Vec<u8> {
@@ -70,7 +82,7 @@ pub(crate) fn to_rgba8_vec(buffer: &PixelBuffer<Rgb>) -> Vec<u8> {
     out
 }
 
-pub(crate) fn to_argb8_vec32(buffer: &PixelBuffer<Rgb>) -> Vec<u32> {
+pub(crate) fn to_argb8_vec32(buffer: &PixelBuffer<Rgb>, as_u8: fn(f32) -> u8) -> Vec<u32> {
     let mut out: Vec<u32> = Vec::with_capacity(buffer.width() as usize * buffer.height() as usize);
 
     for color in buffer.data().iter() {
diff --git a/d10-codecs/src/webp.rs b/d10-codecs/src/webp.rs
index 1b08a44..0ff9a2a 100644
--- a/d10-codecs/src/webp.rs
+++ b/d10-codecs/src/webp.rs
@@ -16,7 +16,7 @@ use d10_core::color::{Color, Rgb, Srgb};
 use d10_core::errors::ParseEnumError;
 use d10_core::pixelbuffer::PixelBuffer;
 
-use crate::utils::{from_u8, to_argb8_vec32};
+use crate::utils::{as_u8, as_u8_lossy, from_u8, to_argb8_vec32};
 use crate::{DecodedImage, DecodingError, EncodingError};
 
 #[derive(Debug, Copy, Clone, PartialEq, Eq, Hash)]
@@ -165,7 +165,10 @@ where
             err: None,
         };
 
-        let raw_data = to_argb8_vec32(buffer);
+        let raw_data = match preset {
+            WebPPreset::Lossless => to_argb8_vec32(buffer, as_u8),
+            _ => to_argb8_vec32(buffer, as_u8_lossy),
+        };
 
         picture.use_argb = 1;
         picture.width = width;
-- 
2.43.0


From 44aa880cf1902f6c625c4b46ea1c7ed794505e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:27 +0000
Subject: [PATCH 17/50] fix: saving 16 bit gray PNG always failed

---
 d10-codecs/src/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/d10-codecs/src/utils.rs b/d10-codecs/src/utils.rs
index 99d8075..ea7f2a7 100644
--- a/d10-codecs/src/utils.rs
+++ b/d10-codecs/src/utils.rs
@@ -104,7 +104,7 @@ pub(crate) fn to_l16_be_vec(buffer: &PixelBuffer<Rgb>) -> Vec<u8> {
 
     for color in buffer.data().iter() {
         let color = color.to_gray().to_srgb();
-        out.extend_from_slice(&color.red().to_be_bytes());
+        out.extend_from_slice(&as_u16(color.red()).to_be_bytes());
     }
 
     out
-- 
2.43.0


From 47bf8f89bdf69db955e3efc76707de33ff13d0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:27 +0000
Subject: [PATCH 18/50] fix: lossless WebP preset saved lossy files

---
 d10-codecs/src/webp.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/d10-codecs/src/webp.rs b/d10-codecs/src/webp.rs
index 0ff9a2a..2e07d98 100644
--- a/d10-codecs/src/webp.rs
+++ b/d10-codecs/src/webp.rs
@@ -149,7 +149,10 @@ where
             WebPPreset::Lossless => {
                 let mut config = WebPConfig::new();
                 if let Ok(config) = &mut config {
-                    WebPConfigLosslessPreset(config, 100);
+                    // Levels are in the range between 0 (fastest) and 9 (best compression)
+                    WebPConfigLosslessPreset(config, 9);
+                    // Keep the color of transparent pixels
+                    config.exact = 1;
                 }
                 config
             }
-- 
2.43.0


From 6efc186844e6ed619503f6b60de95338ae7001d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:14 +0000
Subject: [PATCH 19/50] fix: ICO files with a color type other than RGBA could
 not be opened

---
 d10-codecs/src/ico.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/d10-codecs/src/ico.rs b/d10-codecs/src/ico.rs
index 3b3e563..5127dfc 100644
--- a/d10-codecs/src/ico.rs
+++ b/d10-codecs/src/ico.rs
@@ -4,7 +4,7 @@ use std::str::FromStr;
 use image::codecs::ico::{IcoDecoder, IcoEncoder};
 use image::{ColorType, DynamicImage, ImageEncoder, ImageError};
 
-use d10_core::color::Rgb;
+use d10_core::color::{Color, Rgb};
 use d10_core::errors::ParseEnumError;
 use d10_core::pixelbuffer::PixelBuffer;
 
@@ -42,15 +42,16 @@ pub(crate) fn encode_ico<W>(
 where
     W: Write,
 {
-    let (out, color_type) = match color_type {
-        IcoColorType::L8 => (to_l8_vec(buffer), ColorType::L8),
-        IcoColorType::La8 => (to_la8_vec(buffer), ColorType::La8),
-        IcoColorType::Rgb8 => (to_rgb8_vec(buffer), ColorType::Rgb8),
-        IcoColorType::Rgba8 => (to_rgba8_vec(buffer), ColorType::Rgba8),
+    // The embedded PNG must always be in RGBA format
+    let out = match color_type {
+        IcoColorType::L8 => to_rgba8_vec(&buffer.map_colors(|c| c.to_gray().with_alpha(1.0))),
+        IcoColorType::La8 => to_rgba8_vec(&buffer.map_colors(|c| c.to_gray())),
+        IcoColorType::Rgb8 => to_rgba8_vec(&buffer.map_colors(|c| c.with_alpha(1.0))),
+        IcoColorType::Rgba8 => to_rgba8_vec(buffer),
     };
 
     if let Err(err) =
-        IcoEncoder::new(w).write_image(&out, buffer.width(), buffer.height(), color_type)
+        IcoEncoder::new(w).write_image(&out, buffer.width(), buffer.height(), ColorType::Rgba8)
     {
         Err(match err {
             ImageError::IoError(err) => EncodingError::IoError(err),
-- 
2.43.0


From e0c4725bac0da5f76e02ad2f5fb5db12af08559c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:15 +0000
Subject: [PATCH 20/50] fix: BMP files of type la8 lost the alpha channel

---
 d10-codecs/src/bmp.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/d10-codecs/src/bmp.rs b/d10-codecs/src/bmp.rs
index 8f7fd6f..4b762f0 100644
--- a/d10-codecs/src/bmp.rs
+++ b/d10-codecs/src/bmp.rs
@@ -8,7 +8,7 @@ use std::str::FromStr;
 use image::codecs::bmp::{BmpDecoder, BmpEncoder};
 use image::{ColorType, DynamicImage, ImageError};
 
-use crate::utils::{read_into_buffer, to_l8_vec, to_la8_vec, to_rgb8_vec, to_rgba8_vec};
+use crate::utils::{read_into_buffer, to_l8_vec, to_rgb8_vec, to_rgba8_vec};
 use crate::{DecodedImage, DecodingError, EncodingError};
 
 #[derive(Copy, Clone, Debug)]
@@ -44,7 +44,11 @@ where
 {
     let (out, color_type) = match color_type {
         BmpColorType::L8 => (to_l8_vec(buffer), ColorType::L8),
-        BmpColorType::La8 => (to_la8_vec(buffer), ColorType::La8),
+        // Paletted BMP files have no alpha channel
+        BmpColorType::La8 => (
+            to_rgba8_vec(&buffer.map_colors(|c| c.to_gray())),
+            ColorType::Rgba8,
+        ),
         BmpColorType::Rgb8 => (to_rgb8_vec(buffer), ColorType::Rgb8),
         BmpColorType::Rgba8 => (to_rgba8_vec(buffer), ColorType::Rgba8),
     };
-- 
2.43.0


From ad5e00403c6645b9a37e3bf8aa235f2be1efd75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:15 +0000
Subject: [PATCH 21/50] fix: saving an empty image as GIF made an unreadable
 file

---
 d10-codecs/src/gif.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/d10-codecs/src/gif.rs b/d10-codecs/src/gif.rs
index 1c2277d..731a561 100644
--- a/d10-codecs/src/gif.rs
+++ b/d10-codecs/src/gif.rs
@@ -25,7 +25,7 @@ where
     let width = buffer.width();
     let height = buffer.height();
 
-    if width > u16::MAX as u32 || height > u16::MAX as u32 {
+    if buffer.is_empty() || width > u16::MAX as u32 || height > u16::MAX as u32 {
         return Err(EncodingError::BadDimensions {
             format: "gif",
             width,
-- 
2.43.0


From 9894a48c3e9579cb8d070e34a18d60859f22b27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:17 +0000
Subject: [PATCH 22/50] fix: GIF files with several transparent colors became
 opaque

---
 d10-codecs/src/gif.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/d10-codecs/src/gif.rs b/d10-codecs/src/gif.rs
index 731a561..f7fd988 100644
--- a/d10-codecs/src/gif.rs
+++ b/d10-codecs/src/gif.rs
@@ -38,6 +38,13 @@ where
 
     let mut raw = to_rgba8_vec(buffer);
 
+    // There is only one transparent palette entry
+    for pixel in raw.chunks_exact_mut(4) {
+        if pixel[3] == 0 {
+            pixel.fill(0);
+        }
+    }
+
     let frame = Frame::from_rgba_speed(width, height, &mut raw, 10);
 
     let mut encoder = Encoder::new(w, frame.width, frame.height, &[]).map_err(encode_error)?;
-- 
2.43.0


From 4a94404734edb5c3488e1fae0ac2cd8d6a428e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:17 +0000
Subject: [PATCH 23/50] fix: saving an empty image as BMP made an unreadable
 file

---
 d10-codecs/src/bmp.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/d10-codecs/src/bmp.rs b/d10-codecs/src/bmp.rs
index 4b762f0..13fe058 100644
--- a/d10-codecs/src/bmp.rs
+++ b/d10-codecs/src/bmp.rs
@@ -42,6 +42,14 @@ pub(crate) fn encode_bmp<W>(
 where
     W: Write,
 {
+    if buffer.is_empty() {
+        return Err(EncodingError::BadDimensions {
+            format: "bmp",
+            width: buffer.width(),
+            height: buffer.height(),
+        });
+    }
+
     let (out, color_type) = match color_type {
         BmpColorType::L8 => (to_l8_vec(buffer), ColorType::L8),
         // Paletted BMP files have no alpha channel
-- 
2.43.0


From 30fb6111b4bab40ef338966a2012817420fa79dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:04 +0000
Subject: [PATCH 24/50] fix: interlaced GIF images could fail to load as
 truncated

---
 d10-codecs/src/gif.rs | 70 +++++++++++++++++++++++++++----------------
 1 file changed, 45 insertions(+), 25 deletions(-)

diff --git a/d10-codecs/src/gif.rs b/d10-codecs/src/gif.rs
index f7fd988..ee1fcf4 100644
--- a/d10-codecs/src/gif.rs
+++ b/d10-codecs/src/gif.rs
@@ -71,32 +71,52 @@ where
 
     let mut decoder = decoder.read_info(reader).map_err(decode_error)?;
 
-    if let Some(frame) = decoder.read_next_frame().map_err(decode_error)? {
-        let data = frame
-            .buffer
-            .chunks(4)
-            .map(|chunks| {
-                Srgb::new_with_alpha(
-                    from_u8(chunks[0]),
-                    from_u8(chunks[1]),
-                    from_u8(chunks[2]),
-                    from_u8(chunks[3]),
-                )
-                .to_rgb()
-            })
-            .collect();
-
-        let width = frame.width as u32;
-        let height = frame.height as u32;
-
-        if !is_valid_buffer_size(width, height) {
-            return Err(DecodingError::InvalidBufferSize { width, height });
-        }
+    let (width, height, interlaced) = match decoder.next_frame_info().map_err(decode_error)? {
+        Some(frame) => (frame.width as u32, frame.height as u32, frame.interlaced),
+        None => return Err(DecodingError::Decoding("No frame found".to_owned())),
+    };
+
+    if !is_valid_buffer_size(width, height) {
+        return Err(DecodingError::InvalidBufferSize { width, height });
+    }
 
-        let buffer = PixelBuffer::new_from_raw(width, height, data);
+    // Reading an interlaced frame line by line may miss the last lines,
+    // so all lines are read at once in the order they are stored.
+    let mut raw = vec![0; decoder.buffer_size()];
 
-        Ok(DecodedImage { buffer })
-    } else {
-        Err(DecodingError::Decoding("No frame found".to_owned()))
+    if !decoder.fill_buffer(&mut raw).map_err(decode_error)? {
+        return Err(DecodingError::Decoding("image truncated".to_owned()));
     }
+
+    let line_length = decoder.line_length();
+    let mut lines: Vec<usize> = (0..height as usize).collect();
+
+    if interlaced {
+        let passes = [(0, 8), (4, 8), (2, 4), (1, 2)];
+        let stored = passes
+            .iter()
+            .flat_map(|(start, step)| (*start..height as usize).step_by(*step));
+
+        for (line, y) in stored.enumerate() {
+            lines[y] = line;
+        }
+    }
+
+    let data = lines
+        .iter()
+        .flat_map(|line| raw[line * line_length..(line + 1) * line_length].chunks(4))
+        .map(|chunks| {
+            Srgb::new_with_alpha(
+                from_u8(chunks[0]),
+                from_u8(chunks[1]),
+                from_u8(chunks[2]),
+                from_u8(chunks[3]),
+            )
+            .to_rgb()
+        })
+        .collect();
+
+    Ok(DecodedImage {
+        buffer: PixelBuffer::new_from_raw(width, height, data),
+    })
 }
-- 
2.43.0


From 6b5ab92450ed4bbb3ccbbd239688e48f73f3e779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:35 +0000
Subject: [PATCH 25/50] fix: GIF images with more than 12.5 million pixels
 could be saved but not loaded

---
 d10-codecs/src/gif.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/d10-codecs/src/gif.rs b/d10-codecs/src/gif.rs
index ee1fcf4..bdd9630 100644
--- a/d10-codecs/src/gif.rs
+++ b/d10-codecs/src/gif.rs
@@ -8,7 +8,7 @@ use crate::{DecodedImage, DecodingError, EncodingError};
 
 use gif::{
     DecodeOptions, DecodingError as GIFDecodingError, Encoder, EncodingError as GIFEncodingError,
-    Frame,
+    Frame, MemoryLimit,
 };
 
 fn encode_error(err: GIFEncodingError) -> EncodingError {
@@ -68,6 +68,8 @@ where
     let mut decoder = DecodeOptions::new();
 
     decoder.set_color_output(gif::ColorOutput::RGBA);
+    // The size of the frame is checked below
+    decoder.set_memory_limit(MemoryLimit::Unlimited);
 
     let mut decoder = decoder.read_info(reader).map_err(decode_error)?;
 
-- 
2.43.0


From f319b69c9d00905e82016c8e271f0c2fc14f36d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:03 +0000
Subject: [PATCH 26/50] fix: PNG images with more than 8 million columns could
 be saved but not loaded

---
 d10-codecs/src/png.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/d10-codecs/src/png.rs b/d10-codecs/src/png.rs
index 4731f9a..52e7dfa 100644
--- a/d10-codecs/src/png.rs
+++ b/d10-codecs/src/png.rs
@@ -180,10 +180,7 @@ where
     let mut decoder = Decoder::new(reader);
     decoder.set_transformations(png::Transformations::EXPAND);
 
-    let mut reader = decoder.read_info().map_err(decode_error)?;
-
-    let (color_type, bits) = reader.output_color_type();
-    let info = reader.info();
+    let info = decoder.read_header_info().map_err(decode_error)?;
 
     let width = info.width;
     let height = info.height;
@@ -192,6 +189,15 @@ where
         return Err(DecodingError::InvalidBufferSize { width, height });
     }
 
+    // The decoder needs space for one line in addition to its default limits
+    decoder.set_limits(png::Limits {
+        bytes: png::Limits::default().bytes + width as usize * 8,
+    });
+
+    let mut reader = decoder.read_info().map_err(decode_error)?;
+
+    let (color_type, bits) = reader.output_color_type();
+
     let num_pixel = (width * height) as usize;
 
     let raw: Vec<Rgb> = match (color_type, bits) {
-- 
2.43.0


From 686866aca335c041b0d66fdfefb875381e0a5240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:04 +0000
Subject: [PATCH 27/50] fix: panic when loading a PNG image with an incomplete
 palette entry

---
 d10-codecs/src/png.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/d10-codecs/src/png.rs b/d10-codecs/src/png.rs
index 52e7dfa..54054be 100644
--- a/d10-codecs/src/png.rs
+++ b/d10-codecs/src/png.rs
@@ -196,6 +196,12 @@ where
 
     let mut reader = decoder.read_info().map_err(decode_error)?;
 
+    if let Some(palette) = &reader.info().palette {
+        if palette.len() % 3 != 0 {
+            return Err(DecodingError::Decoding("Invalid palette".to_owned()));
+        }
+    }
+
     let (color_type, bits) = reader.output_color_type();
 
     let num_pixel = (width * height) as usize;
-- 
2.43.0


From dfa951eb210ec2b178569e8a7b0b77de26b9309f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:05 +0000
Subject: [PATCH 28/50] fix: panic when loading a lossless JPEG image with less
 than 8 bits

---
 d10-codecs/src/jpeg.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/d10-codecs/src/jpeg.rs b/d10-codecs/src/jpeg.rs
index 7000557..6416f03 100644
--- a/d10-codecs/src/jpeg.rs
+++ b/d10-codecs/src/jpeg.rs
@@ -1,6 +1,6 @@
 use d10_core::color::{Color, Rgb, Srgb};
 use d10_core::errors::ParseEnumError;
-use d10_core::pixelbuffer::PixelBuffer;
+use d10_core::pixelbuffer::{is_valid_buffer_size, PixelBuffer};
 
 use std::io::{BufRead, Read, Seek, Write};
 use std::str::FromStr;
@@ -187,6 +187,17 @@ where
     let width = info.width as u32;
     let height = info.height as u32;
 
+    if !is_valid_buffer_size(width, height) {
+        return Err(DecodingError::InvalidBufferSize { width, height });
+    }
+
+    // Lossless images may have more bytes per pixel than the pixel format
+    if data.len() != width as usize * height as usize * info.pixel_format.pixel_bytes() {
+        return Err(DecodingError::Decoding(
+            "Unsupported jpeg sample precision".to_owned(),
+        ));
+    }
+
     let data = match info.pixel_format {
         PixelFormat::L8 => data
             .iter()
-- 
2.43.0


From 6254404c80e6e19d1ba6479e22ba53b1f4510114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:06 +0000
Subject: [PATCH 29/50] fix: white of CMYK JPEG images became gray

---
 d10-codecs/src/utils.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/d10-codecs/src/utils.rs b/d10-codecs/src/utils.rs
index ea7f2a7..fec5c8a 100644
--- a/d10-codecs/src/utils.rs
+++ b/d10-codecs/src/utils.rs
@@ -327,9 +327,9 @@ pub fn cmyk_to_rgb(c: u8, m: u8, y: u8, k: u8) -> Rgb {
     let y = 255.0 - y as f32;
     let k = 255.0 - k as f32;
 
-    let r = c * k / 65536.0;
-    let g = m * k / 65536.0;
-    let b = y * k / 65536.0;
+    let r = c * k / 65025.0;
+    let g = m * k / 65025.0;
+    let b = y * k / 65025.0;
 
     Srgb::new(r, g, b).to_rgb()
 }
-- 
2.43.0


From f5cb09e20173974e4cbfac0f905fe135b6361646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:40 +0000
Subject: [PATCH 30/50] fix: panic when loading a PNG image with more than 256
 palette entries

---
 d10-codecs/src/png.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/d10-codecs/src/png.rs b/d10-codecs/src/png.rs
index 54054be..369c73f 100644
--- a/d10-codecs/src/png.rs
+++ b/d10-codecs/src/png.rs
@@ -197,7 +197,7 @@ where
     let mut reader = decoder.read_info().map_err(decode_error)?;
 
     if let Some(palette) = &reader.info().palette {
-        if palette.len() % 3 != 0 {
+        if palette.len() % 3 != 0 || palette.len() > 3 * 256 {
             return Err(DecodingError::Decoding("Invalid palette".to_owned()));
         }
     }
-- 
2.43.0


From 2212b2585bee09f6c92050b7544efe31fc7748a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:28 +0000
Subject: [PATCH 31/50] fix: errors while writing the end of an image file were
 lost

---
 d10-codecs/src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/d10-codecs/src/lib.rs b/d10-codecs/src/lib.rs
index 87dac10..8b3081a 100644
--- a/d10-codecs/src/lib.rs
+++ b/d10-codecs/src/lib.rs
@@ -248,7 +248,12 @@ where
 
     let mut w = BufWriter::new(File::create(path)?);
 
-    encode(&mut w, buffer, format)
+    encode(&mut w, buffer, format)?;
+
+    // Dropping the writer would ignore errors while writing the remaining data
+    w.flush()?;
+
+    Ok(())
 }
 
 pub fn encode<W>(
-- 
2.43.0


From 51b418607251d175d561fd8c453b90faa1095435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:28 +0000
Subject: [PATCH 32/50] fix: errors while writing the last chunk of a PNG image
 were lost

---
 d10-codecs/src/png.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/d10-codecs/src/png.rs b/d10-codecs/src/png.rs
index 369c73f..53866ec 100644
--- a/d10-codecs/src/png.rs
+++ b/d10-codecs/src/png.rs
@@ -163,7 +163,8 @@ where
     let mut writer = encoder.write_header().map_err(encode_error)?;
     writer.write_image_data(&out).map_err(encode_error)?;
 
-    Ok(())
+    // Dropping the writer would ignore errors while writing the last chunk
+    writer.finish().map_err(encode_error)
 }
 
 fn decode_error(err: PngDecodingError) -> DecodingError {
-- 
2.43.0


From d7fe4276e56c6b72075e4141d7c7d791e8323e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:56 +0000
Subject: [PATCH 33/50] fix: an error while writing the end of a GIF image was
 lost

---
 d10-codecs/src/gif.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/d10-codecs/src/gif.rs b/d10-codecs/src/gif.rs
index bdd9630..82ab7cc 100644
--- a/d10-codecs/src/gif.rs
+++ b/d10-codecs/src/gif.rs
@@ -51,6 +51,9 @@ where
 
     encoder.write_frame(&frame).map_err(encode_error)?;
 
+    // Dropping the encoder would ignore errors while writing the trailer
+    encoder.into_inner()?;
+
     Ok(())
 }
 
-- 
2.43.0


From fcaf3fd0ed851acd34ee645d8323db07ddf1bc40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:06 +0000
Subject: [PATCH 34/50] fix: the format of a reader that returns few bytes at
 once was unknown

---
 d10-codecs/src/lib.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/d10-codecs/src/lib.rs b/d10-codecs/src/lib.rs
index 8b3081a..99a3980 100644
--- a/d10-codecs/src/lib.rs
+++ b/d10-codecs/src/lib.rs
@@ -56,13 +56,14 @@ impl Format {
     where
         T: Read + Seek,
     {
-        let mut buf = [0u8; 12];
+        let mut buf = Vec::with_capacity(12);
 
-        let len = reader.read(&mut buf)?;
+        // A single read may return only a part of the data
+        reader.by_ref().take(12).read_to_end(&mut buf)?;
 
         reader.seek(SeekFrom::Start(0))?;
 
-        match buf[0..len] {
+        match buf[..] {
             [0xFF, 0xD8, 0xFF, ..] => Ok(Format::Jpeg),
             [0x89, 0x50, 0x4E, 0x47, 0x0D, 0x0A, 0x1A, 0x0A, ..] => Ok(Format::Png),
             [0x47, 0x49, 0x46, 0x38, 0x37, 0x61, ..] => Ok(Format::Gif),
-- 
2.43.0


From 872508ffbc643715ad2c7ee7003e0b29e6db3aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:45 +0000
Subject: [PATCH 35/50] fix: the first file was not opened after the silent
 argument

---
 d10-cli/src/main.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/d10-cli/src/main.rs b/d10-cli/src/main.rs
index c68af7d..5d512cb 100644
--- a/d10-cli/src/main.rs
+++ b/d10-cli/src/main.rs
@@ -161,6 +161,8 @@ impl Args {
 
     pub fn parse(&self, args: Vec<OsString>) -> Result<Queue, String> {
         let mut queue = Queue::new();
+        // The first file is opened, even if there was a Silent before
+        let mut is_first = true;
         let mut iter = args.into_iter();
         iter.next();
 
@@ -172,10 +174,15 @@ impl Args {
                     .iter()
                     .find(|arg_info| arg_info.name.eq(&string_arg[1..]))
                 {
-                    Some(arg) => queue.push(self.parse_arg(arg, &mut iter)?),
+                    Some(arg) => {
+                        let cmd = self.parse_arg(arg, &mut iter)?;
+                        is_first &= matches!(cmd, Silent);
+                        queue.push(cmd)
+                    }
                     None => return Err(format!("Unknown argument: {}", string_arg)),
                 }
-            } else if queue.is_empty() {
+            } else if is_first {
+                is_first = false;
                 queue.push(Open(arg.into()))
             } else {
                 queue.push(Save(arg.into()))
-- 
2.43.0


From 5595ea4461b5d5fa1e61f16185e957b963e60bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:30 +0000
Subject: [PATCH 36/50] fix: only float32 arrays could become images

---
 d10-python/src/image.rs | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/d10-python/src/image.rs b/d10-python/src/image.rs
index 1df7e4f..1cf9fcb 100644
--- a/d10-python/src/image.rs
+++ b/d10-python/src/image.rs
@@ -12,7 +12,7 @@ use d10::{
 #[cfg(feature = "numpy")]
 use {
     d10::Color,
-    numpy::{PyArray, PyArrayDyn},
+    numpy::{IxDyn, PyArray, PyArrayDyn, PyUntypedArray},
     numpy_helper::*,
 };
 
@@ -644,27 +644,23 @@ impl Image {
     #[cfg(feature = "numpy")]
     #[staticmethod]
     pub fn from_np_array(array: &PyAny, colorspace: Option<&str>) -> PyResult<Image> {
-        /* WARNING: In order to find out what data type this numpy array has, we
-         *         blindly cast it into a f32 one, which might result into an
-         *         array with broken data. This seems to be "save" on the rust side
-         *         but might still cause undefined behavior...
-         */
-        //TODO: Find a way to not use this hackish way to do it
-
-        let py_array: &PyArrayDyn<f32> = array.downcast()?;
+        let py_array: &PyUntypedArray = array.downcast()?;
 
         let data_type = extract_data_type(Some(py_array.dtype().typeobj()))?;
 
         let ndims = py_array.ndim();
-        let dims = py_array.dims();
+        let dims = IxDyn(py_array.shape());
 
         match data_type {
-            DataType::Float32 => from_np_array_iter(
-                ndims,
-                dims,
-                py_array.readonly().as_array().iter().copied(),
-                colorspace,
-            ),
+            DataType::Float32 => {
+                let py_array: &PyArrayDyn<f32> = array.downcast()?;
+                from_np_array_iter(
+                    ndims,
+                    dims,
+                    py_array.readonly().as_array().iter().copied(),
+                    colorspace,
+                )
+            }
             DataType::Float64 => {
                 let py_array: &PyArrayDyn<f64> = array.downcast()?;
                 from_np_array_iter(
-- 
2.43.0


From 606317c022e1538f8534dee2e3e57616b5d3df7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:30 +0000
Subject: [PATCH 37/50] fix: images of bool arrays were inverted

---
 d10-python/src/image.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/d10-python/src/image.rs b/d10-python/src/image.rs
index 1cf9fcb..a238712 100644
--- a/d10-python/src/image.rs
+++ b/d10-python/src/image.rs
@@ -679,7 +679,7 @@ impl Image {
                         .readonly()
                         .as_array()
                         .iter()
-                        .map(|v| if *v { 0.0f32 } else { 1.0f32 }),
+                        .map(|v| if *v { 1.0f32 } else { 0.0f32 }),
                     colorspace,
                 )
             }
-- 
2.43.0


From 30093c1350a560daab17c9e217c04eb6661ec49a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:30 +0000
Subject: [PATCH 38/50] fix: lch arrays with alpha were read as lab

---
 d10-python/src/image.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/d10-python/src/image.rs b/d10-python/src/image.rs
index a238712..cc27b8a 100644
--- a/d10-python/src/image.rs
+++ b/d10-python/src/image.rs
@@ -949,7 +949,7 @@ mod numpy_helper {
                         .collect(),
                     "lcha" | "lch" => chunked::<4>(&mut iter)
                         .map(|chunk| {
-                            D10LabD65O2::new_with_alpha(chunk[0], chunk[1], chunk[2], chunk[3])
+                            D10LchD65O2::new_with_alpha(chunk[0], chunk[1], chunk[2], chunk[3])
                                 .to_rgb()
                         })
                         .collect(),
-- 
2.43.0


From fa5118d6f86978ec89221d2db0e14a68721ff471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:10 +0000
Subject: [PATCH 39/50] fix: panic when an array without the shape of an image
 becomes an image

---
 d10-python/src/image.rs | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/d10-python/src/image.rs b/d10-python/src/image.rs
index cc27b8a..8be093a 100644
--- a/d10-python/src/image.rs
+++ b/d10-python/src/image.rs
@@ -844,8 +844,8 @@ mod numpy_helper {
     use crate::color::{D10LabD65O2, D10LchD65O2};
     use crate::image::Image;
     use d10::{
-        Color, Hsl as D10Hsl, Hsv as D10Hsv, Image as D10Image, Rgb as D10Rgb, Srgb as D10Srgb,
-        Xyz as D10Xyz, Yuv as D10Yuv,
+        is_valid_buffer_size, Color, Hsl as D10Hsl, Hsv as D10Hsv, Image as D10Image,
+        Rgb as D10Rgb, Srgb as D10Srgb, Xyz as D10Xyz, Yuv as D10Yuv,
     };
     use numpy::IxDyn;
     use pyo3::exceptions::PyOSError;
@@ -905,9 +905,28 @@ mod numpy_helper {
         mut iter: I,
         colorspace: Option<&str>,
     ) -> PyResult<Image> {
+        if ndims != 2 && ndims != 3 {
+            return Err(PyOSError::new_err(format!(
+                "Bad number of dimensions: {}",
+                ndims
+            )));
+        }
+
         let width = dims[1];
         let height = dims[0];
 
+        let is_valid = match (u32::try_from(width), u32::try_from(height)) {
+            (Ok(width), Ok(height)) => is_valid_buffer_size(width, height),
+            _ => false,
+        };
+
+        if !is_valid {
+            return Err(PyOSError::new_err(format!(
+                "Bad image size: {}x{}",
+                width, height
+            )));
+        }
+
         let colorspace = colorspace.unwrap_or("auto");
 
         let data: Vec<D10Rgb> = if ndims == 3 {
@@ -1008,7 +1027,7 @@ mod numpy_helper {
                     dims[2]
                 )));
             }
-        } else if ndims == 2 {
+        } else {
             if colorspace != "gray" && colorspace != "auto" {
                 return Err(PyOSError::new_err(format!(
                     "Bad colorspace {} for dimensions: {}",
@@ -1017,11 +1036,6 @@ mod numpy_helper {
             }
             iter.map(|value| D10Rgb::new_with_alpha(value, value, value, 1.0))
                 .collect()
-        } else {
-            return Err(PyOSError::new_err(format!(
-                "Bad number of dimensions: {}",
-                ndims
-            )));
         };
 
         assert!(width * height == data.len());
-- 
2.43.0


From 616bcc60153aa4ea69ae5eb07d0616238d26024e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:10 +0000
Subject: [PATCH 40/50] fix: values were rounded down in integer arrays

---
 d10-python/src/image.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/d10-python/src/image.rs b/d10-python/src/image.rs
index 8be093a..5e54390 100644
--- a/d10-python/src/image.rs
+++ b/d10-python/src/image.rs
@@ -601,7 +601,7 @@ impl Image {
                 .into()
             }
             DataType::Uint8 => {
-                let arr = PyArray::from_iter(py, data.iter().map(|v| (v * 255.0) as u8));
+                let arr = PyArray::from_iter(py, data.iter().map(|v| (v * 255.0).round() as u8));
                 arr.reshape([
                     self.inner.height() as usize,
                     self.inner.width() as usize,
@@ -611,7 +611,7 @@ impl Image {
             }
 
             DataType::Uint16 => {
-                let arr = PyArray::from_iter(py, data.iter().map(|v| (v * 65535.0) as u16));
+                let arr = PyArray::from_iter(py, data.iter().map(|v| (v * 65535.0).round() as u16));
                 arr.reshape([
                     self.inner.height() as usize,
                     self.inner.width() as usize,
@@ -621,7 +621,7 @@ impl Image {
             }
 
             DataType::Uint32 => {
-                let arr = PyArray::from_iter(py, data.iter().map(|v| (v * 4294967295.0) as u32));
+                let arr = PyArray::from_iter(py, data.iter().map(|v| (v * 4294967295.0).round() as u32));
                 arr.reshape([
                     self.inner.height() as usize,
                     self.inner.width() as usize,
-- 
2.43.0


From d2ef85e39442a495ef45e1b5a0944e3a8e3c91e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:11 +0000
Subject: [PATCH 41/50] fix: panic when setting a pixel outside of an image in
 Python

---
 d10-python/src/image.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/d10-python/src/image.rs b/d10-python/src/image.rs
index 5e54390..2b56ce4 100644
--- a/d10-python/src/image.rs
+++ b/d10-python/src/image.rs
@@ -139,8 +139,16 @@ impl Image {
         self.inner.get_pixel_clamped(x, y).into()
     }
 
-    pub fn put_pixel(&mut self, x: u32, y: u32, color: &Rgb) {
+    pub fn put_pixel(&mut self, x: u32, y: u32, color: &Rgb) -> PyResult<()> {
+        if x >= self.inner.width() || y >= self.inner.height() {
+            return Err(PyOSError::new_err(format!(
+                "Pixel not within range: {}x{}",
+                x, y
+            )));
+        }
+
         self.inner.put_pixel(x, y, color.inner);
+        Ok(())
     }
 
     pub fn is_in_image(&self, x: i32, y: i32) -> bool {
@@ -401,11 +409,11 @@ impl Image {
             .ok_or_else(|| PyOSError::new_err(format!("Array not within range: {}x{}", y, x)))
     }
 
-    fn __setitem__(&mut self, key: (u32, u32), value: Rgb) {
+    fn __setitem__(&mut self, key: (u32, u32), value: Rgb) -> PyResult<()> {
         let x = key.0;
         let y = key.1;
 
-        self.put_pixel(x, y, &value);
+        self.put_pixel(x, y, &value)
     }
 
     #[cfg(feature = "numpy")]
-- 
2.43.0


From b7f052b87e38f2b247c29a114adb9fdc152fd8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:11 +0000
Subject: [PATCH 42/50] fix: panic when creating an image with an invalid size
 in Python

---
 d10-python/src/image.rs | 39 ++++++++++++++++++++++++++++++++-------
 1 file changed, 32 insertions(+), 7 deletions(-)

diff --git a/d10-python/src/image.rs b/d10-python/src/image.rs
index 2b56ce4..bb35dac 100644
--- a/d10-python/src/image.rs
+++ b/d10-python/src/image.rs
@@ -6,7 +6,7 @@ use d10::illuminant::D65;
 use d10::observer::O2;
 use d10::ops::{BalanceMode, BlendOp, EdgeDetection, SaturationMode};
 use d10::{
-    BmpColorType, EncodingFormat as D10EncodingFormat, EqualizeMode, FilterMode, IcoColorType,
+    is_valid_buffer_size, BmpColorType, EncodingFormat as D10EncodingFormat, EqualizeMode, FilterMode, IcoColorType,
     Image as D10Image, PngColorType, PngCompression, PngFilterType, Rgb as D10Rgb, WebPPreset,
 };
 #[cfg(feature = "numpy")]
@@ -24,26 +24,51 @@ pub struct Image {
     pub inner: D10Image,
 }
 
+/// Invalid sizes are errors in Python instead of panics
+fn check_size(width: u32, height: u32) -> PyResult<()> {
+    if is_valid_buffer_size(width, height) {
+        Ok(())
+    } else {
+        Err(PyOSError::new_err(format!(
+            "Bad image size: {}x{}",
+            width, height
+        )))
+    }
+}
+
 #[pymethods]
 impl Image {
     #[new]
-    fn new(width: u32, height: u32, color: Option<&Rgb>) -> Image {
-        match color {
+    fn new(width: u32, height: u32, color: Option<&Rgb>) -> PyResult<Image> {
+        check_size(width, height)?;
+
+        Ok(match color {
             Some(color) => D10Image::new_with_color(width, height, color.inner),
             None => D10Image::new(width, height),
         }
-        .into()
+        .into())
     }
 
     #[staticmethod]
-    fn from_list(width: u32, height: u32, list: Vec<Rgb>) -> Image {
-        Image {
+    fn from_list(width: u32, height: u32, list: Vec<Rgb>) -> PyResult<Image> {
+        check_size(width, height)?;
+
+        if list.len() as u64 != width as u64 * height as u64 {
+            return Err(PyOSError::new_err(format!(
+                "Bad number of colors for {}x{}: {}",
+                width,
+                height,
+                list.len()
+            )));
+        }
+
+        Ok(Image {
             inner: D10Image::new_from_raw(
                 width,
                 height,
                 list.into_iter().map(|c| c.inner).collect(),
             ),
-        }
+        })
     }
 
     fn to_list(&self) -> Vec<Rgb> {
-- 
2.43.0


From 2b9ee2d346a7b645f22644c71c727291c82f463d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:11 +0000
Subject: [PATCH 43/50] fix: panic when resizing to an invalid size in Python

---
 d10-python/src/image.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/d10-python/src/image.rs b/d10-python/src/image.rs
index bb35dac..68a81d8 100644
--- a/d10-python/src/image.rs
+++ b/d10-python/src/image.rs
@@ -217,6 +217,7 @@ impl Image {
             Some(filter) => filter.parse().py_err()?,
             None => FilterMode::Bilinear,
         };
+        self.check_resize(new_width, new_height)?;
         Ok(self.inner.resize(new_width, new_height, filter).into())
     }
 
@@ -225,6 +226,10 @@ impl Image {
             Some(filter) => filter.parse().py_err()?,
             None => FilterMode::Bilinear,
         };
+        let factor = pct_100 / 100.0;
+        let new_width = ((self.inner.width() as f32) * factor).round() as u32;
+        let new_height = ((self.inner.height() as f32) * factor).round() as u32;
+        self.check_resize(new_width.max(1), new_height.max(1))?;
         Ok(self.inner.resize_pct(pct_100, filter).into())
     }
 
@@ -770,6 +775,15 @@ pub struct EncodingFormat {
     pub inner: D10EncodingFormat,
 }
 
+impl Image {
+    fn check_resize(&self, new_width: u32, new_height: u32) -> PyResult<()> {
+        if self.inner.is_empty() && new_width > 0 {
+            return Err(PyOSError::new_err("Cannot resize an empty image"));
+        }
+        check_size(new_width, new_height)
+    }
+}
+
 #[pymethods]
 impl EncodingFormat {
     #[staticmethod]
-- 
2.43.0


From 191db76be6f4fd7e32bcb823975fa3de57150ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:11 +0000
Subject: [PATCH 44/50] fix: panic when composing an empty list of images in
 Python

---
 d10-python/src/image.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/d10-python/src/image.rs b/d10-python/src/image.rs
index 68a81d8..a700c61 100644
--- a/d10-python/src/image.rs
+++ b/d10-python/src/image.rs
@@ -339,6 +339,10 @@ impl Image {
 
         let images = images.iter().map(|r| &r.inner).collect::<Vec<_>>();
 
+        if images.is_empty() {
+            return Err(PyOSError::new_err("No images to compose"));
+        }
+
         let res: PyResult<D10Image> =
             D10Image::try_compose_slice(&images, default, |x, y, colors| {
                 let colors = colors.iter().map(|c| Rgb { inner: *c }).collect::<Vec<_>>();
-- 
2.43.0


From b4b8d9f042c17d3729842e83b874edcb5e923485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:58 +0000
Subject: [PATCH 45/50] fix: panic when an unaligned array becomes an image

---
 d10-python/src/image.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/d10-python/src/image.rs b/d10-python/src/image.rs
index a700c61..164d3a6 100644
--- a/d10-python/src/image.rs
+++ b/d10-python/src/image.rs
@@ -688,6 +688,15 @@ impl Image {
     pub fn from_np_array(array: &PyAny, colorspace: Option<&str>) -> PyResult<Image> {
         let py_array: &PyUntypedArray = array.downcast()?;
 
+        // The elements of an unaligned array cannot be read in place, and empty arrays
+        // count as aligned
+        let is_aligned: bool = array.getattr("flags")?.getattr("aligned")?.extract()?;
+        let array = if is_aligned && !py_array.is_empty() {
+            array
+        } else {
+            array.call_method0("copy")?
+        };
+
         let data_type = extract_data_type(Some(py_array.dtype().typeobj()))?;
 
         let ndims = py_array.ndim();
-- 
2.43.0


From 6fb354ec195a7cadbf0424e192b230f7fb60b036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:58 +0000
Subject: [PATCH 46/50] fix: panic when simulating the JPEG quality of an empty
 or huge image in Python

---
 d10-python/src/image.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/d10-python/src/image.rs b/d10-python/src/image.rs
index 164d3a6..5a62c2e 100644
--- a/d10-python/src/image.rs
+++ b/d10-python/src/image.rs
@@ -242,10 +242,20 @@ impl Image {
         Ok(self.inner.edge_detection(mode).into())
     }
 
-    pub fn with_jpeg_quality(&self, quality: u8, preserve_alpha: Option<bool>) -> Image {
-        self.inner
+    pub fn with_jpeg_quality(&self, quality: u8, preserve_alpha: Option<bool>) -> PyResult<Image> {
+        let (width, height) = (self.inner.width(), self.inner.height());
+
+        if self.inner.is_empty() || width > u16::MAX as u32 || height > u16::MAX as u32 {
+            return Err(PyOSError::new_err(format!(
+                "Bad size for a JPEG image: {}x{}",
+                width, height
+            )));
+        }
+
+        Ok(self
+            .inner
             .with_jpeg_quality(quality, preserve_alpha.unwrap_or(true))
-            .into()
+            .into())
     }
 
     pub fn random_noise(&self, alpha: f32) -> Image {
-- 
2.43.0


From d5f546a851c48757b53b862682edece1df218875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:58 +0000
Subject: [PATCH 47/50] fix: panic when reading a pixel of an empty image in
 Python

---
 d10-python/src/image.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/d10-python/src/image.rs b/d10-python/src/image.rs
index 5a62c2e..99ecf07 100644
--- a/d10-python/src/image.rs
+++ b/d10-python/src/image.rs
@@ -160,8 +160,12 @@ impl Image {
         self.inner.get_pixel_optional(x, y).map(|c| c.into())
     }
 
-    pub fn get_pixel_clamped(&self, x: i32, y: i32) -> Rgb {
-        self.inner.get_pixel_clamped(x, y).into()
+    pub fn get_pixel_clamped(&self, x: i32, y: i32) -> PyResult<Rgb> {
+        if self.inner.is_empty() {
+            return Err(PyOSError::new_err("An empty image has no pixels"));
+        }
+
+        Ok(self.inner.get_pixel_clamped(x, y).into())
     }
 
     pub fn put_pixel(&mut self, x: u32, y: u32, color: &Rgb) -> PyResult<()> {
-- 
2.43.0


From 9baa2c83a78389e138188545e347472f39326b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:52 +0000
Subject: [PATCH 48/50] fix: average saturation of large images

Adding up single precision values stops at 2^24, and deviates by some
percent for images of a million pixels.
---
 d10-ops/src/saturation.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/d10-ops/src/saturation.rs b/d10-ops/src/saturation.rs
index 413f098..cbee755 100644
--- a/d10-ops/src/saturation.rs
+++ b/d10-ops/src/saturation.rs
@@ -59,17 +59,17 @@ fn get_gamma_pow(gamma: f32, brightness: f32) -> f32 {
 }
 
 fn avg_saturation(buffer: &PixelBuffer<Rgb>, mode: SaturationMode) -> f32 {
-    let mut sum = 0.0;
+    let mut sum = 0.0f64;
 
     for c in buffer.data() {
         sum += match mode {
             SaturationMode::Hsl => c.to_hsl().saturation(),
             SaturationMode::Hsv => c.to_hsv().saturation(),
             SaturationMode::Lch => c.to_lch::<D65, O2>().c(),
-        };
+        } as f64;
     }
 
-    sum / buffer.data().len() as f32
+    (sum / buffer.data().len() as f64) as f32
 }
 
 fn saturate_hsl(c: &Rgb, gamma: f32) -> Rgb {
-- 
2.43.0


From c0d67fe951a8e28a85724794cf4586f75ce18677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:52 +0000
Subject: [PATCH 49/50] fix: tint correction of large images

The sum of millions of values needs double precision, like the one of
optimize_color_temperature.
---
 d10-ops/src/temperature.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/d10-ops/src/temperature.rs b/d10-ops/src/temperature.rs
index 73b1f7f..95a4296 100644
--- a/d10-ops/src/temperature.rs
+++ b/d10-ops/src/temperature.rs
@@ -104,13 +104,13 @@ fn get_green_tint_pow(buffer: &PixelBuffer<Rgb>, tint_correction: f32) -> f32 {
         return 0.0;
     }
 
-    let mut sum = 0.0;
+    let mut sum = 0.0f64;
 
     for c in buffer.data() {
-        sum += c.green() - c.red() + c.green() - c.blue();
+        sum += (c.green() - c.red() + c.green() - c.blue()) as f64;
     }
 
-    let avg = sum * tint_correction / buffer.data().len() as f32;
+    let avg = (sum / buffer.data().len() as f64) as f32 * tint_correction;
 
     if avg > 0.0 {
         1.0 / (1.0 - avg.tanh())
@@ -124,13 +124,13 @@ fn get_red_tint_pow(buffer: &PixelBuffer<Rgb>, tint_correction: f32) -> f32 {
         return 0.0;
     }
 
-    let mut sum = 0.0;
+    let mut sum = 0.0f64;
 
     for c in buffer.data() {
-        sum += c.red() - c.green() + c.red() - c.blue();
+        sum += (c.red() - c.green() + c.red() - c.blue()) as f64;
     }
 
-    let avg = 0.25 * sum * tint_correction / buffer.data().len() as f32;
+    let avg = 0.25 * (sum / buffer.data().len() as f64) as f32 * tint_correction;
 
     if avg > 0.0 {
         1.0 / (1.0 - avg.tanh())
@@ -144,13 +144,13 @@ fn get_blue_tint_pow(buffer: &PixelBuffer<Rgb>, tint_correction: f32) -> f32 {
         return 0.0;
     }
 
-    let mut sum = 0.0;
+    let mut sum = 0.0f64;
 
     for c in buffer.data() {
-        sum += c.blue() - c.green() + c.blue() - c.red();
+        sum += (c.blue() - c.green() + c.blue() - c.red()) as f64;
     }
 
-    let avg = 0.33 * sum * tint_correction / buffer.data().len() as f32;
+    let avg = 0.33 * (sum / buffer.data().len() as f64) as f32 * tint_correction;
 
     if avg > 0.0 {
         1.0 / (1.0 - avg.tanh())
-- 
2.43.0


From eddfcfe0f32805f01648a1a240ad1424bb0e7e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:52 +0000
Subject: [PATCH 50/50] fix: shares of the levels in the histograms of large
 images

Adding up 1 / pixels, or counting in single precision, becomes wrong for
images of some million pixels.
---
 d10-ops/src/balance_channels.rs | 10 +++++-----
 d10-ops/src/equalize.rs         |  6 +++++-
 d10-ops/src/stretch_contrast.rs |  8 ++++----
 3 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/d10-ops/src/balance_channels.rs b/d10-ops/src/balance_channels.rs
index c75ec6e..89ab90a 100644
--- a/d10-ops/src/balance_channels.rs
+++ b/d10-ops/src/balance_channels.rs
@@ -6,19 +6,19 @@ use std::str::FromStr;
 fn get_color_values<C: Color + From<Rgb>, const START: usize, const NUM_CHANNELS: usize>(
     buffer: &PixelBuffer<Rgb>,
 ) -> [[f32; 256]; NUM_CHANNELS] {
-    let mut result = [[0.0; 256]; NUM_CHANNELS];
+    let mut counts = [[0u32; 256]; NUM_CHANNELS];
 
-    let len = buffer.data().len() as f32;
+    let len = buffer.data().len() as f64;
 
     for c in buffer.data() {
         let c: C = (*c).into();
-        for (channel, res) in result.iter_mut().enumerate() {
+        for (channel, res) in counts.iter_mut().enumerate() {
             let v = (c.data()[START + channel] * 255.0).clamp(0.0, 255.0) as u8;
-            res[v as usize] += 1.0 / len;
+            res[v as usize] += 1;
         }
     }
 
-    result
+    counts.map(|channel| channel.map(|count| (count as f64 / len) as f32))
 }
 
 pub fn get_min_value(values: &[f32; 256], threshold: f32) -> f32 {
diff --git a/d10-ops/src/equalize.rs b/d10-ops/src/equalize.rs
index b066c66..2861a69 100644
--- a/d10-ops/src/equalize.rs
+++ b/d10-ops/src/equalize.rs
@@ -35,11 +35,15 @@ fn channel_histogram<C: Color, const NUM_CHANNELS: usize>(
     let mut histogram = [[0.0; 256]; NUM_CHANNELS];
 
     for (i, h) in histogram.iter_mut().enumerate() {
+        let mut counts = [0u32; 256];
+
         for c in buffer.data() {
             let v = c.data()[channel_offset + i] * 255.0;
             let index = v.round().clamp(0., 255.0) as usize;
-            h[index] += 1.0;
+            counts[index] += 1;
         }
+
+        *h = counts.map(|count| count as f32);
     }
 
     let pixels = (buffer.width() * buffer.height()) as f32;
diff --git a/d10-ops/src/stretch_contrast.rs b/d10-ops/src/stretch_contrast.rs
index 8501899..453bf19 100644
--- a/d10-ops/src/stretch_contrast.rs
+++ b/d10-ops/src/stretch_contrast.rs
@@ -7,16 +7,16 @@ fn get_color_value(c: &Rgb) -> u8 {
 }
 
 fn get_color_values(buffer: &PixelBuffer<Rgb>) -> [f32; 256] {
-    let mut result = [0.0; 256];
+    let mut counts = [0u32; 256];
 
-    let len = buffer.data().len() as f32;
+    let len = buffer.data().len() as f64;
 
     for c in buffer.data() {
         let v = get_color_value(c);
-        result[v as usize] += 1.0 / len;
+        counts[v as usize] += 1;
     }
 
-    result
+    counts.map(|count| (count as f64 / len) as f32)
 }
 
 pub fn get_min_value(values: &[f32; 256], threshold: f32) -> f32 {
-- 
2.43.0

