From 56f90ffc3e78df19b3558086f7bd4926e6edb5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:15 +0000
Subject: [PATCH 01/45] fix: write 16 bit samples for l16 png images

The raw f32 bytes were written, so saving as l16 always failed.
---
 d10-codecs/src/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/d10-codecs/src/utils.rs b/d10-codecs/src/utils.rs
index 51d8329..50cc3a3 100644
--- a/d10-codecs/src/utils.rs
+++ b/d10-codecs/src/utils.rs
@@ -92,7 +92,7 @@ pub(crate) fn to_l16_be_vec(buffer: &PixelBuffer<Rgb>) -> Vec<u8> {
 
     for color in buffer.data().iter() {
         let color = color.to_gray().to_srgb();
-        out.extend_from_slice(&color.red().to_be_bytes());
+        out.extend_from_slice(&as_u16(color.red()).to_be_bytes());
     }
 
     out
-- 
2.43.0


From d470048fae02c8e86743fbf8ef3a22e44e20944d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:15 +0000
Subject: [PATCH 02/45] fix: round channels to the nearest level when saving

Truncation lost one level for a quarter of all 8 bit values on every save.
---
 d10-codecs/src/utils.rs | 23 +++++++++++++++++------
 d10-codecs/src/webp.rs  |  8 ++++++--
 2 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/d10-codecs/src/utils.rs b/d10-codecs/src/utils.rs
index 50cc3a3..3bd266d 100644
--- a/d10-codecs/src/utils.rs
+++ b/d10-codecs/src/utils.rs
@@ -6,13 +6,24 @@ use d10_core::pixelbuffer::{is_valid_buffer_size, PixelBuffer};
 use crate::DecodingError;
 
 /// Convert color channel value between 0.0 and 1.0 into an u8
+///
+/// The value is rounded to the nearest level (ties are rounded down). Truncating it
+/// would make images darker each time they are saved.
 pub(crate) fn as_u8(value: f32) -> u8 {
+    (value * 255.0 - 0.5).ceil().clamp(0.0, 255.0) as u8
+}
+
+/// Convert color channel value between 0.0 and 1.0 into an u8 without rounding
+pub(crate) fn as_u8_truncated(value: f32) -> u8 {
     (value * 255.0).clamp(0.0, 255.0) as u8
 }
 
 /// Convert color channel value between 0.0 and 1.0 into an u16
+///
+/// The value is rounded to the nearest level (ties are rounded down). Truncating it
+/// would make images darker each time they are saved.
 pub(crate) fn as_u16(value: f32) -> u16 {
-    (value * 65535.0).clamp(0.0, 65535.0) as u16
+    (value * 65535.0 - 0.5).ceil().clamp(0.0, 65535.0) as u16
 }
 
 pub(crate) fn to_l8_vec(buffer: &PixelBuffer<Rgb>) -> Vec<u8> {
@@ -70,16 +81,16 @@ pub(crate) fn to_rgba8_vec(buffer: &PixelBuffer<Rgb>) -> Vec<u8> {
     out
 }
 
-pub(crate) fn to_argb8_vec32(buffer: &PixelBuffer<Rgb>) -> Vec<u32> {
+pub(crate) fn to_argb8_vec32(buffer: &PixelBuffer<Rgb>, to_level: fn(f32) -> u8) -> Vec<u32> {
     let mut out: Vec<u32> = Vec::with_capacity(buffer.width() as usize * buffer.height() as usize);
 
     for color in buffer.data().iter() {
         let color = color.to_srgb();
 
-        let v = (as_u8(color.alpha()) as u32) << 24
-            | (as_u8(color.red()) as u32) << 16
-            | (as_u8(color.green()) as u32) << 8
-            | as_u8(color.blue()) as u32;
+        let v = (to_level(color.alpha()) as u32) << 24
+            | (to_level(color.red()) as u32) << 16
+            | (to_level(color.green()) as u32) << 8
+            | to_level(color.blue()) as u32;
         out.push(v);
     }
 
diff --git a/d10-codecs/src/webp.rs b/d10-codecs/src/webp.rs
index 1b08a44..df0cfab 100644
--- a/d10-codecs/src/webp.rs
+++ b/d10-codecs/src/webp.rs
@@ -16,7 +16,7 @@ use d10_core::color::{Color, Rgb, Srgb};
 use d10_core::errors::ParseEnumError;
 use d10_core::pixelbuffer::PixelBuffer;
 
-use crate::utils::{from_u8, to_argb8_vec32};
+use crate::utils::{as_u8, as_u8_truncated, from_u8, to_argb8_vec32};
 use crate::{DecodedImage, DecodingError, EncodingError};
 
 #[derive(Debug, Copy, Clone, PartialEq, Eq, Hash)]
@@ -165,7 +165,11 @@ where
             err: None,
         };
 
-        let raw_data = to_argb8_vec32(buffer);
+        // The reference images for lossy files are based on truncated values
+        let raw_data = match preset {
+            WebPPreset::Lossless => to_argb8_vec32(buffer, as_u8),
+            _ => to_argb8_vec32(buffer, as_u8_truncated),
+        };
 
         picture.use_argb = 1;
         picture.width = width;
-- 
2.43.0


From 4d1ae1c488b15446cf4cf0c142dca2fd4a29c5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:15 +0000
Subject: [PATCH 03/45] fix: use a valid level for the lossless webp preset

The level 100 is invalid and ignored, so images were saved lossy.
---
 d10-codecs/src/webp.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/d10-codecs/src/webp.rs b/d10-codecs/src/webp.rs
index df0cfab..5c6f504 100644
--- a/d10-codecs/src/webp.rs
+++ b/d10-codecs/src/webp.rs
@@ -149,7 +149,8 @@ where
             WebPPreset::Lossless => {
                 let mut config = WebPConfig::new();
                 if let Ok(config) = &mut config {
-                    WebPConfigLosslessPreset(config, 100);
+                    // The second parameter is the compression level between 0 and 9
+                    WebPConfigLosslessPreset(config, 6);
                 }
                 config
             }
-- 
2.43.0


From 5cdd91e910eea73ecc967f92b421467a041b1f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:15 +0000
Subject: [PATCH 04/45] fix: scale cmyk colors to the full range

White was decoded as 0.992.
---
 d10-codecs/src/utils.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/d10-codecs/src/utils.rs b/d10-codecs/src/utils.rs
index 3bd266d..5901dbf 100644
--- a/d10-codecs/src/utils.rs
+++ b/d10-codecs/src/utils.rs
@@ -326,9 +326,9 @@ pub fn cmyk_to_rgb(c: u8, m: u8, y: u8, k: u8) -> Rgb {
     let y = 255.0 - y as f32;
     let k = 255.0 - k as f32;
 
-    let r = c * k / 65536.0;
-    let g = m * k / 65536.0;
-    let b = y * k / 65536.0;
+    let r = c * k / 65025.0;
+    let g = m * k / 65025.0;
+    let b = y * k / 65025.0;
 
     Srgb::new(r, g, b).to_rgb()
 }
-- 
2.43.0


From ebd225d98e11ae15b0f0e355e18aa0c1cb7cde78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:15 +0000
Subject: [PATCH 05/45] fix: report errors when flushing the written file

---
 d10-codecs/src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/d10-codecs/src/lib.rs b/d10-codecs/src/lib.rs
index 87dac10..748eabf 100644
--- a/d10-codecs/src/lib.rs
+++ b/d10-codecs/src/lib.rs
@@ -248,7 +248,12 @@ where
 
     let mut w = BufWriter::new(File::create(path)?);
 
-    encode(&mut w, buffer, format)
+    encode(&mut w, buffer, format)?;
+
+    // Dropping the writer would silently ignore errors
+    w.flush()?;
+
+    Ok(())
 }
 
 pub fn encode<W>(
-- 
2.43.0


From cddf247090196067bdab24a6ee43a2da23404b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:15 +0000
Subject: [PATCH 06/45] fix: report errors when writing the end of a png file

---
 d10-codecs/src/png.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/d10-codecs/src/png.rs b/d10-codecs/src/png.rs
index 4731f9a..f83fa9f 100644
--- a/d10-codecs/src/png.rs
+++ b/d10-codecs/src/png.rs
@@ -162,6 +162,7 @@ where
 
     let mut writer = encoder.write_header().map_err(encode_error)?;
     writer.write_image_data(&out).map_err(encode_error)?;
+    writer.finish().map_err(encode_error)?;
 
     Ok(())
 }
-- 
2.43.0


From 484723e325c97ca49e1f702c8708633046c86320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:15 +0000
Subject: [PATCH 07/45] fix: report errors when writing the end of a gif file

---
 d10-codecs/src/gif.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/d10-codecs/src/gif.rs b/d10-codecs/src/gif.rs
index 1c2277d..8c836ae 100644
--- a/d10-codecs/src/gif.rs
+++ b/d10-codecs/src/gif.rs
@@ -44,6 +44,9 @@ where
 
     encoder.write_frame(&frame).map_err(encode_error)?;
 
+    // Write the trailer here because errors are ignored when the encoder is dropped
+    encoder.into_inner()?;
+
     Ok(())
 }
 
-- 
2.43.0


From 9b100db4322961aadb2836732e5c998b3520dbeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:15 +0000
Subject: [PATCH 08/45] fix: refuse too large jpeg images instead of panicking

---
 d10-codecs/src/jpeg.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/d10-codecs/src/jpeg.rs b/d10-codecs/src/jpeg.rs
index 7000557..a97e86b 100644
--- a/d10-codecs/src/jpeg.rs
+++ b/d10-codecs/src/jpeg.rs
@@ -1,6 +1,6 @@
 use d10_core::color::{Color, Rgb, Srgb};
 use d10_core::errors::ParseEnumError;
-use d10_core::pixelbuffer::PixelBuffer;
+use d10_core::pixelbuffer::{is_valid_buffer_size, PixelBuffer};
 
 use std::io::{BufRead, Read, Seek, Write};
 use std::str::FromStr;
@@ -187,6 +187,10 @@ where
     let width = info.width as u32;
     let height = info.height as u32;
 
+    if !is_valid_buffer_size(width, height) {
+        return Err(DecodingError::InvalidBufferSize { width, height });
+    }
+
     let data = match info.pixel_format {
         PixelFormat::L8 => data
             .iter()
-- 
2.43.0


From 06a387a3d5ef0e54758606f1e358ade3f2940816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:41 +0000
Subject: [PATCH 09/45] fix: don't panic when simulating the jpeg quality of an
 empty image

---
 d10-ops/src/jpeg_quality.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/d10-ops/src/jpeg_quality.rs b/d10-ops/src/jpeg_quality.rs
index c047556..59f8ff9 100644
--- a/d10-ops/src/jpeg_quality.rs
+++ b/d10-ops/src/jpeg_quality.rs
@@ -10,6 +10,11 @@ pub fn jpeg_quality(
     quality: u8,
     preserve_alpha: bool,
 ) -> PixelBuffer<Rgb> {
+    // Empty images can't be encoded
+    if buffer.is_empty() {
+        return buffer.clone();
+    }
+
     let mut temp = vec![];
 
     encode(
-- 
2.43.0


From 3bcf236b1333a0105c863137d947b094c0dce494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:41 +0000
Subject: [PATCH 10/45] fix: don't panic when resizing an empty image

---
 d10-ops/src/resize.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/d10-ops/src/resize.rs b/d10-ops/src/resize.rs
index 28575b4..752f991 100644
--- a/d10-ops/src/resize.rs
+++ b/d10-ops/src/resize.rs
@@ -98,6 +98,11 @@ pub fn resize(
         return buffer.clone();
     }
 
+    // There are no pixels to sample from
+    if buffer.is_empty() {
+        return PixelBuffer::new(new_width, new_height);
+    }
+
     match filter {
         FilterMode::Nearest => resize_with_fn(buffer, new_width, new_height, resize_pixel_nearest),
         FilterMode::Bilinear => {
-- 
2.43.0


From b701c1dc4f5a969717bcaec734ac3e2ffe41d68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:41 +0000
Subject: [PATCH 11/45] fix: use a hue of 0 when converting gray colors to hsv

The hue was NaN.
---
 d10-core/src/color/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/d10-core/src/color/mod.rs b/d10-core/src/color/mod.rs
index 61e200e..82682d0 100644
--- a/d10-core/src/color/mod.rs
+++ b/d10-core/src/color/mod.rs
@@ -122,7 +122,10 @@ pub trait Color:
         if delta >= EPSILON || max >= EPSILON {
             saturation = delta / max;
 
-            if red >= max {
+            if delta <= 0.0 {
+                // achromatic
+                hue = 0.0;
+            } else if red >= max {
                 hue = (green - blue) / delta;
             } else if green >= max {
                 hue = 2.0 + (blue - red) / delta;
-- 
2.43.0


From 4f2906d70d868157294036b8419ba404559b4f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:41 +0000
Subject: [PATCH 12/45] fix: rotate hues by more than one turn

---
 d10-core/src/color/rgb.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/d10-core/src/color/rgb.rs b/d10-core/src/color/rgb.rs
index 58eafbb..3b8d89d 100644
--- a/d10-core/src/color/rgb.rs
+++ b/d10-core/src/color/rgb.rs
@@ -230,12 +230,7 @@ impl Rgb {
     pub fn with_hue_rotate(&self, radians: f32) -> Rgb {
         let hsl = self.to_hsl();
 
-        let mut hue = hsl.hue() + radians / 360.0;
-        if hue >= 1.0 {
-            hue -= 1.0;
-        } else if hue < 0.0 {
-            hue += 1.0;
-        }
+        let hue = (hsl.hue() + radians / 360.0).rem_euclid(1.0);
 
         Hsl {
             data: [hue, hsl.saturation(), hsl.lightness(), self.alpha()],
-- 
2.43.0


From 162669b0d1cfb8b0a65469ddd37fccaa2cebf21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:41 +0000
Subject: [PATCH 13/45] fix: keep the alpha value in with_vibrance

---
 d10-core/src/color/rgb.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/d10-core/src/color/rgb.rs b/d10-core/src/color/rgb.rs
index 3b8d89d..75c5a1b 100644
--- a/d10-core/src/color/rgb.rs
+++ b/d10-core/src/color/rgb.rs
@@ -273,7 +273,13 @@ impl Rgb {
 
         let s = s + (s * std::f32::consts::PI).sin() * scale;
 
-        Hsl::new(hsl.hue(), s.min(1.0).max(0.0), hsl.lightness()).to_rgb()
+        Hsl::new_with_alpha(
+            hsl.hue(),
+            s.min(1.0).max(0.0),
+            hsl.lightness(),
+            self.alpha(),
+        )
+        .to_rgb()
     }
 
     pub fn with_sepia(&self) -> Rgb {
-- 
2.43.0


From 153d1821e9f8f8d76758c491c0915c3dcc8945b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:41 +0000
Subject: [PATCH 14/45] fix: create a valid gaussian kernel for very small
 sigmas

The weights were NaN.
---
 d10-core/src/kernel.rs     | 5 ++---
 d10-core/src/kernel_dyn.rs | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/d10-core/src/kernel.rs b/d10-core/src/kernel.rs
index 115b467..b4f958e 100644
--- a/d10-core/src/kernel.rs
+++ b/d10-core/src/kernel.rs
@@ -1,5 +1,3 @@
-use std::f32::consts::PI;
-
 pub struct Kernel<const N: usize> {
     pub data: [[f32; N]; N],
 }
@@ -43,7 +41,8 @@ impl<const N: usize> Kernel<N> {
                 for y in -offset..size - offset {
                     let r = (x as f32 * x as f32 + y as f32 * y as f32).sqrt();
 
-                    let v = ((-(r * r) / s).exp()) / (PI * s);
+                    // The constant factor 1 / (PI * s) is normalized out below
+                    let v = if r == 0.0 { 1.0 } else { (-(r * r) / s).exp() };
 
                     data[(y + offset) as usize][(x + offset) as usize] = v;
                     sum += v;
diff --git a/d10-core/src/kernel_dyn.rs b/d10-core/src/kernel_dyn.rs
index 36d2e67..c69ce97 100644
--- a/d10-core/src/kernel_dyn.rs
+++ b/d10-core/src/kernel_dyn.rs
@@ -1,5 +1,3 @@
-use std::f32::consts::PI;
-
 pub struct KernelDyn {
     data: Vec<f32>,
     pub width: u32,
@@ -53,7 +51,8 @@ impl KernelDyn {
                 for y in -offset..size - offset {
                     let r = (x as f32 * x as f32 + y as f32 * y as f32).sqrt();
 
-                    let v = ((-(r * r) / s).exp()) / (PI * s);
+                    // The constant factor 1 / (PI * s) is normalized out below
+                    let v = if r == 0.0 { 1.0 } else { (-(r * r) / s).exp() };
 
                     let index = ((x + offset) + ((y + offset) * size)) as usize;
 
-- 
2.43.0


From d7d06a4fe900f423d04221b12853abb991a64802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:41 +0000
Subject: [PATCH 15/45] fix: return the original pixel for a radius of 0 in
 symmetric_nearest_neighbor

---
 d10-ops/src/symmetric_nearest_neighbor.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/d10-ops/src/symmetric_nearest_neighbor.rs b/d10-ops/src/symmetric_nearest_neighbor.rs
index 14c779f..ddcf7bc 100644
--- a/d10-ops/src/symmetric_nearest_neighbor.rs
+++ b/d10-ops/src/symmetric_nearest_neighbor.rs
@@ -40,6 +40,11 @@ pub fn symmetric_nearest_neighbor(
             })
             .collect();
 
+        // There are no neighbors for a radius of 0
+        if colors.is_empty() {
+            return *center;
+        }
+
         let mut accumulate = [0.0; 4];
 
         let mut len = colors.len() as f32;
-- 
2.43.0


From 94c50a511ad211fd73ecd8c9284e35631a180637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:41 +0000
Subject: [PATCH 16/45] fix: keep pixels without bright neighbors in despeckle

---
 d10-ops/src/despeckle.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/d10-ops/src/despeckle.rs b/d10-ops/src/despeckle.rs
index beac5ba..761fc8f 100644
--- a/d10-ops/src/despeckle.rs
+++ b/d10-ops/src/despeckle.rs
@@ -14,7 +14,8 @@ pub fn despeckle(img: &PixelBuffer<Rgb>, threshold: f32, amount: u8) -> PixelBuf
                 }
             }
 
-            if count <= amount {
+            // Without any bright neighbor there is nothing to replace the pixel with
+            if count <= amount && count < 9 {
                 let mut data = [0f32; 3];
 
                 for c in k.iter().flat_map(|row| row.iter()) {
-- 
2.43.0


From e7a92b6c2843acd70786335ec3fb9e4d13c55b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:21 +0000
Subject: [PATCH 17/45] fix: take the short way around the hue circle in
 blend_lch_color

---
 d10-ops/src/blend.rs | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/d10-ops/src/blend.rs b/d10-ops/src/blend.rs
index a661734..6391b25 100644
--- a/d10-ops/src/blend.rs
+++ b/d10-ops/src/blend.rs
@@ -183,16 +183,10 @@ pub fn blend_lch_lighten(c1: Rgb, c2: Rgb, intensity: f32) -> Rgb {
     c1.with_l(l).to_rgb()
 }
 
-pub fn blend_lch_hue(c1: Rgb, c2: Rgb, intensity: f32) -> Rgb {
-    let c1 = c1.to_lch::<D65, O2>();
-    let c2 = c2.to_lch::<D65, O2>();
-
-    let h1 = c1.h();
-    let h2 = c2.h();
-
+fn blend_hue(h1: f32, h2: f32, intensity: f32) -> f32 {
     let diff = (h1 - h2).abs();
 
-    let h = if diff > PI {
+    if diff > PI {
         let h = if h1 < 0.0 {
             apply_intensity(h1 + 2.0 * PI, h2, intensity)
         } else {
@@ -206,9 +200,14 @@ pub fn blend_lch_hue(c1: Rgb, c2: Rgb, intensity: f32) -> Rgb {
         }
     } else {
         apply_intensity(h1, h2, intensity)
-    };
+    }
+}
+
+pub fn blend_lch_hue(c1: Rgb, c2: Rgb, intensity: f32) -> Rgb {
+    let c1 = c1.to_lch::<D65, O2>();
+    let c2 = c2.to_lch::<D65, O2>();
 
-    c1.with_h(h)
+    c1.with_h(blend_hue(c1.h(), c2.h(), intensity))
         .to_rgb()
 }
 
@@ -225,6 +224,6 @@ pub fn blend_lch_color(c1: Rgb, c2: Rgb, intensity: f32) -> Rgb {
     let c2 = c2.to_lch::<D65, O2>();
 
     c1.with_c(apply_intensity(c1.c(), c2.c(), intensity))
-        .with_h(apply_intensity(c1.h(), c2.h(), intensity))
+        .with_h(blend_hue(c1.h(), c2.h(), intensity))
         .to_rgb()
 }
-- 
2.43.0


From f9f5369736fde856764a1a23ea16abec2cacc0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:21 +0000
Subject: [PATCH 18/45] fix: don't divide by zero when changing to a low color
 temperature

---
 d10-ops/src/temperature.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/d10-ops/src/temperature.rs b/d10-ops/src/temperature.rs
index 0a078c5..992aaca 100644
--- a/d10-ops/src/temperature.rs
+++ b/d10-ops/src/temperature.rs
@@ -51,13 +51,16 @@ pub fn change_color_temperature(
 }
 
 fn calculate_factors(orig_temp: f32, new_temp: f32) -> [f32; 3] {
+    // The blue channel of low temperatures is 0 and must not be used as a divisor
+    const MIN: f32 = 1.0 / 32768.0;
+
     let orig = convert_kelvin_to_rgb(orig_temp);
     let new = convert_kelvin_to_rgb(new_temp);
 
     [
-        orig.data()[0] / new.data()[0],
-        orig.data()[1] / new.data()[1],
-        orig.data()[2] / new.data()[2],
+        orig.data()[0].max(MIN) / new.data()[0].max(MIN),
+        orig.data()[1].max(MIN) / new.data()[1].max(MIN),
+        orig.data()[2].max(MIN) / new.data()[2].max(MIN),
     ]
 }
 
-- 
2.43.0


From acc0b5d90390aece9f05bd43863841ad418a7b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:21 +0000
Subject: [PATCH 19/45] fix: don't invert bool arrays in from_np_array

---
 d10-python/src/image.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/d10-python/src/image.rs b/d10-python/src/image.rs
index 1df7e4f..db6ec98 100644
--- a/d10-python/src/image.rs
+++ b/d10-python/src/image.rs
@@ -683,7 +683,7 @@ impl Image {
                         .readonly()
                         .as_array()
                         .iter()
-                        .map(|v| if *v { 0.0f32 } else { 1.0f32 }),
+                        .map(|v| if *v { 1.0f32 } else { 0.0f32 }),
                     colorspace,
                 )
             }
-- 
2.43.0


From edfe76d3f2b3a661759d8e988637295734a3c5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:21 +0000
Subject: [PATCH 20/45] fix: read lch arrays with alpha as lch in from_np_array

---
 d10-python/src/image.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/d10-python/src/image.rs b/d10-python/src/image.rs
index db6ec98..32a0e1f 100644
--- a/d10-python/src/image.rs
+++ b/d10-python/src/image.rs
@@ -953,7 +953,7 @@ mod numpy_helper {
                         .collect(),
                     "lcha" | "lch" => chunked::<4>(&mut iter)
                         .map(|chunk| {
-                            D10LabD65O2::new_with_alpha(chunk[0], chunk[1], chunk[2], chunk[3])
+                            D10LchD65O2::new_with_alpha(chunk[0], chunk[1], chunk[2], chunk[3])
                                 .to_rgb()
                         })
                         .collect(),
-- 
2.43.0


From 85e9cf953ff1230353e07a05d80902f7543e7e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:21 +0000
Subject: [PATCH 21/45] fix: raise an error for arrays with too few dimensions
 in from_np_array

---
 d10-python/src/image.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/d10-python/src/image.rs b/d10-python/src/image.rs
index 32a0e1f..4c517f0 100644
--- a/d10-python/src/image.rs
+++ b/d10-python/src/image.rs
@@ -909,6 +909,13 @@ mod numpy_helper {
         mut iter: I,
         colorspace: Option<&str>,
     ) -> PyResult<Image> {
+        if ndims < 2 {
+            return Err(PyOSError::new_err(format!(
+                "Bad number of dimensions: {}",
+                ndims
+            )));
+        }
+
         let width = dims[1];
         let height = dims[0];
 
-- 
2.43.0


From 0458df120f1649c3558288bc311e25a40124ef88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:10 +0000
Subject: [PATCH 22/45] fix: accept arrays of every supported data type in
 from_np_array

Only float32 arrays passed the initial cast.
---
 d10-python/src/image.rs | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/d10-python/src/image.rs b/d10-python/src/image.rs
index 4c517f0..968c9ac 100644
--- a/d10-python/src/image.rs
+++ b/d10-python/src/image.rs
@@ -12,7 +12,7 @@ use d10::{
 #[cfg(feature = "numpy")]
 use {
     d10::Color,
-    numpy::{PyArray, PyArrayDyn},
+    numpy::{IxDyn, PyArray, PyArrayDyn, PyUntypedArray},
     numpy_helper::*,
 };
 
@@ -644,27 +644,23 @@ impl Image {
     #[cfg(feature = "numpy")]
     #[staticmethod]
     pub fn from_np_array(array: &PyAny, colorspace: Option<&str>) -> PyResult<Image> {
-        /* WARNING: In order to find out what data type this numpy array has, we
-         *         blindly cast it into a f32 one, which might result into an
-         *         array with broken data. This seems to be "save" on the rust side
-         *         but might still cause undefined behavior...
-         */
-        //TODO: Find a way to not use this hackish way to do it
-
-        let py_array: &PyArrayDyn<f32> = array.downcast()?;
+        let py_array: &PyUntypedArray = array.downcast()?;
 
         let data_type = extract_data_type(Some(py_array.dtype().typeobj()))?;
 
         let ndims = py_array.ndim();
-        let dims = py_array.dims();
+        let dims = IxDyn(py_array.shape());
 
         match data_type {
-            DataType::Float32 => from_np_array_iter(
-                ndims,
-                dims,
-                py_array.readonly().as_array().iter().copied(),
-                colorspace,
-            ),
+            DataType::Float32 => {
+                let py_array: &PyArrayDyn<f32> = array.downcast()?;
+                from_np_array_iter(
+                    ndims,
+                    dims,
+                    py_array.readonly().as_array().iter().copied(),
+                    colorspace,
+                )
+            }
             DataType::Float64 => {
                 let py_array: &PyArrayDyn<f64> = array.downcast()?;
                 from_np_array_iter(
-- 
2.43.0


From 3930ca7b1b04c25338d2c4e238357a60aa706fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:20 +0000
Subject: [PATCH 23/45] fix: scale the lanczos filter to its window when
 shrinking images

The const generic version scaled the filter to the whole window instead of half of it, so the filter was cut off: shrinking an image to between 34% and 66% made it up to 10% brighter and shifted it.
---
 d10-ops/src/filters.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/d10-ops/src/filters.rs b/d10-ops/src/filters.rs
index 507b597..d3051e9 100644
--- a/d10-ops/src/filters.rs
+++ b/d10-ops/src/filters.rs
@@ -130,7 +130,7 @@ fn lanczos<const N: usize>(v: f32) -> f32 {
             0.0
         }
     } else {
-        let size = N as f32;
+        let size = (N as f32 - 1.0) / 2.0;
         let v = v / size * 3.0;
         if v < 3.0 {
             (sinc(v) * sinc(v / 3.0)) * (3.0 / size)
-- 
2.43.0


From 5462e586eba54dc219847c8ef97fa504dab0c52d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:00 +0000
Subject: [PATCH 24/45] fix: write ico files with all color types in the only
 readable png format

---
 d10-codecs/src/ico.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/d10-codecs/src/ico.rs b/d10-codecs/src/ico.rs
index 3b3e563..27a3ab9 100644
--- a/d10-codecs/src/ico.rs
+++ b/d10-codecs/src/ico.rs
@@ -42,15 +42,25 @@ pub(crate) fn encode_ico<W>(
 where
     W: Write,
 {
-    let (out, color_type) = match color_type {
-        IcoColorType::L8 => (to_l8_vec(buffer), ColorType::L8),
-        IcoColorType::La8 => (to_la8_vec(buffer), ColorType::La8),
-        IcoColorType::Rgb8 => (to_rgb8_vec(buffer), ColorType::Rgb8),
-        IcoColorType::Rgba8 => (to_rgba8_vec(buffer), ColorType::Rgba8),
+    // Embedded png images can only be of the RGBA format. Readers refuse everything else.
+    let out = match color_type {
+        IcoColorType::L8 => to_l8_vec(buffer)
+            .iter()
+            .flat_map(|&l| [l, l, l, 255])
+            .collect(),
+        IcoColorType::La8 => to_la8_vec(buffer)
+            .chunks(2)
+            .flat_map(|c| [c[0], c[0], c[0], c[1]])
+            .collect(),
+        IcoColorType::Rgb8 => to_rgb8_vec(buffer)
+            .chunks(3)
+            .flat_map(|c| [c[0], c[1], c[2], 255])
+            .collect(),
+        IcoColorType::Rgba8 => to_rgba8_vec(buffer),
     };
 
     if let Err(err) =
-        IcoEncoder::new(w).write_image(&out, buffer.width(), buffer.height(), color_type)
+        IcoEncoder::new(w).write_image(&out, buffer.width(), buffer.height(), ColorType::Rgba8)
     {
         Err(match err {
             ImageError::IoError(err) => EncodingError::IoError(err),
-- 
2.43.0


From ecca5a7105591b81ee231c570fc38fcdc3f5ee53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:15 +0000
Subject: [PATCH 25/45] fix: keep the alpha channel in la8 bmp files

---
 d10-codecs/src/bmp.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/d10-codecs/src/bmp.rs b/d10-codecs/src/bmp.rs
index 8f7fd6f..dfed069 100644
--- a/d10-codecs/src/bmp.rs
+++ b/d10-codecs/src/bmp.rs
@@ -44,7 +44,14 @@ where
 {
     let (out, color_type) = match color_type {
         BmpColorType::L8 => (to_l8_vec(buffer), ColorType::L8),
-        BmpColorType::La8 => (to_la8_vec(buffer), ColorType::La8),
+        // Grayscale bmp images are indexed and can't store alpha
+        BmpColorType::La8 => (
+            to_la8_vec(buffer)
+                .chunks(2)
+                .flat_map(|c| [c[0], c[0], c[0], c[1]])
+                .collect(),
+            ColorType::Rgba8,
+        ),
         BmpColorType::Rgb8 => (to_rgb8_vec(buffer), ColorType::Rgb8),
         BmpColorType::Rgba8 => (to_rgba8_vec(buffer), ColorType::Rgba8),
     };
-- 
2.43.0


From 898f15cd3808e925dc4863163f689a6064956b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:02 +0000
Subject: [PATCH 26/45] fix: refuse jpeg images with a wrong data length
 instead of panicking

---
 d10-codecs/src/jpeg.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/d10-codecs/src/jpeg.rs b/d10-codecs/src/jpeg.rs
index a97e86b..2959f0b 100644
--- a/d10-codecs/src/jpeg.rs
+++ b/d10-codecs/src/jpeg.rs
@@ -191,6 +191,11 @@ where
         return Err(DecodingError::InvalidBufferSize { width, height });
     }
 
+    // The decoder returns less or more data for some broken files
+    if data.len() != width as usize * height as usize * info.pixel_format.pixel_bytes() {
+        return Err(DecodingError::Decoding("Bad jpeg data length".to_owned()));
+    }
+
     let data = match info.pixel_format {
         PixelFormat::L8 => data
             .iter()
-- 
2.43.0


From 3f129bdc638bed43f283f15d3af78396dfd01a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:12 +0000
Subject: [PATCH 27/45] fix: keep all transparent pixels of gif images
 transparent

---
 d10-codecs/src/gif.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/d10-codecs/src/gif.rs b/d10-codecs/src/gif.rs
index 8c836ae..bb1fdc1 100644
--- a/d10-codecs/src/gif.rs
+++ b/d10-codecs/src/gif.rs
@@ -38,6 +38,13 @@ where
 
     let mut raw = to_rgba8_vec(buffer);
 
+    // There is only one transparent color
+    for pixel in raw.chunks_exact_mut(4) {
+        if pixel[3] == 0 {
+            pixel.fill(0);
+        }
+    }
+
     let frame = Frame::from_rgba_speed(width, height, &mut raw, 10);
 
     let mut encoder = Encoder::new(w, frame.width, frame.height, &[]).map_err(encode_error)?;
-- 
2.43.0


From 716f1077e70659951a634e14c36d6d7fdb398e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:21 +0000
Subject: [PATCH 28/45] fix: refuse to save empty gif and bmp images

---
 d10-codecs/src/bmp.rs | 16 +++++++++++++---
 d10-codecs/src/gif.rs |  2 +-
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/d10-codecs/src/bmp.rs b/d10-codecs/src/bmp.rs
index dfed069..ba82fad 100644
--- a/d10-codecs/src/bmp.rs
+++ b/d10-codecs/src/bmp.rs
@@ -42,6 +42,18 @@ pub(crate) fn encode_bmp<W>(
 where
     W: Write,
 {
+    let width = buffer.width();
+    let height = buffer.height();
+
+    // Empty bmp images can't be read
+    if width == 0 || height == 0 {
+        return Err(EncodingError::BadDimensions {
+            format: "bmp",
+            width,
+            height,
+        });
+    }
+
     let (out, color_type) = match color_type {
         BmpColorType::L8 => (to_l8_vec(buffer), ColorType::L8),
         // Grayscale bmp images are indexed and can't store alpha
@@ -56,9 +68,7 @@ where
         BmpColorType::Rgba8 => (to_rgba8_vec(buffer), ColorType::Rgba8),
     };
 
-    if let Err(err) =
-        BmpEncoder::new(&mut w).encode(&out, buffer.width(), buffer.height(), color_type)
-    {
+    if let Err(err) = BmpEncoder::new(&mut w).encode(&out, width, height, color_type) {
         Err(match err {
             ImageError::IoError(err) => EncodingError::IoError(err),
             err => EncodingError::Encoding(err.to_string()),
diff --git a/d10-codecs/src/gif.rs b/d10-codecs/src/gif.rs
index bb1fdc1..74d98ca 100644
--- a/d10-codecs/src/gif.rs
+++ b/d10-codecs/src/gif.rs
@@ -25,7 +25,7 @@ where
     let width = buffer.width();
     let height = buffer.height();
 
-    if width > u16::MAX as u32 || height > u16::MAX as u32 {
+    if width == 0 || height == 0 || width > u16::MAX as u32 || height > u16::MAX as u32 {
         return Err(EncodingError::BadDimensions {
             format: "gif",
             width,
-- 
2.43.0


From 1a11313ed32b117e6fb3dc7a5acb80950ac69186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:36 +0000
Subject: [PATCH 29/45] fix: refuse to save too large bmp images

---
 d10-codecs/src/bmp.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/d10-codecs/src/bmp.rs b/d10-codecs/src/bmp.rs
index ba82fad..b69d55d 100644
--- a/d10-codecs/src/bmp.rs
+++ b/d10-codecs/src/bmp.rs
@@ -45,8 +45,8 @@ where
     let width = buffer.width();
     let height = buffer.height();
 
-    // Empty bmp images can't be read
-    if width == 0 || height == 0 {
+    // Empty and larger bmp images can't be read
+    if width == 0 || height == 0 || width > u16::MAX as u32 || height > u16::MAX as u32 {
         return Err(EncodingError::BadDimensions {
             format: "bmp",
             width,
-- 
2.43.0


From 7852282ec51cfa6a3c0c642f84fcf1df71f40f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:36 +0000
Subject: [PATCH 30/45] fix: balance: rounding put exact levels into the bin
 below

sRGB white is 0.99999994 after the conversion, so an image spanning the
full range was treated as ending at level 254 and was changed.
---
 d10-ops/src/balance_channels.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/d10-ops/src/balance_channels.rs b/d10-ops/src/balance_channels.rs
index 404d6c1..ebf8ab4 100644
--- a/d10-ops/src/balance_channels.rs
+++ b/d10-ops/src/balance_channels.rs
@@ -13,7 +13,8 @@ fn get_color_values<C: Color + From<Rgb>, const START: usize, const NUM_CHANNELS
     for c in buffer.data() {
         let c: C = (*c).into();
         for (channel, res) in result.iter_mut().enumerate() {
-            let v = (c.data()[START + channel] * 255.0).clamp(0.0, 255.0) as u8;
+            // Conversions may leave a value a rounding error below its exact level (e.g. sRGB white)
+            let v = (c.data()[START + channel] * 255.0 + 1e-3).clamp(0.0, 255.0) as u8;
             res[v as usize] += 1.0 / len;
         }
     }
-- 
2.43.0


From 47d5d6f11ba090898e52b20041c13b7d674376cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:08 +0000
Subject: [PATCH 31/45] fix: rgb_noise: a threshold of 1 may leave a pixel
 unchanged

gen_range(0.0..=1.0) can return 1.0, which is not below the threshold.
---
 d10-ops/src/rgb_noise.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/d10-ops/src/rgb_noise.rs b/d10-ops/src/rgb_noise.rs
index 45f6331..36e4b8b 100644
--- a/d10-ops/src/rgb_noise.rs
+++ b/d10-ops/src/rgb_noise.rs
@@ -6,7 +6,7 @@ fn rgb_noise_for_pixel<R>(c: &Rgb, threshold: f32, rng: &mut R) -> Rgb
 where
     R: Rng,
 {
-    let value = rng.gen_range(0.0..=1.0);
+    let value = rng.gen_range(0.0..1.0);
 
     if value < threshold {
         match rng.gen_range(0..3) {
-- 
2.43.0


From 351b0b0834d438e4a89d44ba7bb42069ab2caf0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:43 +0000
Subject: [PATCH 32/45] fix: interlace: offsets beyond the width were wrapped
 or overflowed

---
 d10-ops/src/interlace.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/d10-ops/src/interlace.rs b/d10-ops/src/interlace.rs
index e5e5134..5d3c5a1 100644
--- a/d10-ops/src/interlace.rs
+++ b/d10-ops/src/interlace.rs
@@ -2,7 +2,8 @@ use d10_core::color::Color;
 use d10_core::pixelbuffer::PixelBuffer;
 
 pub fn interlace<C: Color>(buffer: &PixelBuffer<C>, offset: u32) -> PixelBuffer<C> {
-    let offset = offset as i32;
+    // Larger offsets all end up at the border
+    let offset = offset.min(buffer.width()) as i32;
 
     PixelBuffer::new_from_func(buffer.width(), buffer.height(), |x, y| {
         *if y % 2 == 0 {
-- 
2.43.0


From 84db0c0f7b0bebdf90b2e1e5355765aa1f90c7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:33 +0000
Subject: [PATCH 33/45] fix: d10-cli: a file after -silent was saved to instead
 of opened

---
 d10-cli/src/main.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/d10-cli/src/main.rs b/d10-cli/src/main.rs
index c68af7d..10c92cf 100644
--- a/d10-cli/src/main.rs
+++ b/d10-cli/src/main.rs
@@ -161,6 +161,7 @@ impl Args {
 
     pub fn parse(&self, args: Vec<OsString>) -> Result<Queue, String> {
         let mut queue = Queue::new();
+        let mut opened = false;
         let mut iter = args.into_iter();
         iter.next();
 
@@ -172,10 +173,15 @@ impl Args {
                     .iter()
                     .find(|arg_info| arg_info.name.eq(&string_arg[1..]))
                 {
-                    Some(arg) => queue.push(self.parse_arg(arg, &mut iter)?),
+                    Some(arg) => {
+                        let cmd = self.parse_arg(arg, &mut iter)?;
+                        opened |= matches!(cmd, Open(_));
+                        queue.push(cmd)
+                    }
                     None => return Err(format!("Unknown argument: {}", string_arg)),
                 }
-            } else if queue.is_empty() {
+            } else if !opened {
+                opened = true;
                 queue.push(Open(arg.into()))
             } else {
                 queue.push(Save(arg.into()))
-- 
2.43.0


From 62f24d6f1a1fc8b4371f7597a169fc7b6729c23e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:33 +0000
Subject: [PATCH 34/45] fix: d10-python: from_np_array panicked on unaligned
 arrays

---
 d10-python/src/image.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/d10-python/src/image.rs b/d10-python/src/image.rs
index 968c9ac..a307fb4 100644
--- a/d10-python/src/image.rs
+++ b/d10-python/src/image.rs
@@ -646,6 +646,14 @@ impl Image {
     pub fn from_np_array(array: &PyAny, colorspace: Option<&str>) -> PyResult<Image> {
         let py_array: &PyUntypedArray = array.downcast()?;
 
+        // Elements of unaligned arrays must not be accessed in place
+        let is_aligned: bool = array.getattr("flags")?.getattr("aligned")?.extract()?;
+        let array = if is_aligned {
+            array
+        } else {
+            array.call_method0("copy")?
+        };
+
         let data_type = extract_data_type(Some(py_array.dtype().typeobj()))?;
 
         let ndims = py_array.ndim();
-- 
2.43.0


From 15637d8c5e68b3cec0133a79c9b39e9bc04cee69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:49 +0000
Subject: [PATCH 35/45] fix: short or interrupted reads made the format of a
 file unrecognised

---
 d10-codecs/src/lib.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/d10-codecs/src/lib.rs b/d10-codecs/src/lib.rs
index 748eabf..9fd76ee 100644
--- a/d10-codecs/src/lib.rs
+++ b/d10-codecs/src/lib.rs
@@ -56,13 +56,14 @@ impl Format {
     where
         T: Read + Seek,
     {
-        let mut buf = [0u8; 12];
+        let mut buf = vec![];
 
-        let len = reader.read(&mut buf)?;
+        // A single read might return less bytes than available
+        reader.by_ref().take(12).read_to_end(&mut buf)?;
 
         reader.seek(SeekFrom::Start(0))?;
 
-        match buf[0..len] {
+        match buf[..] {
             [0xFF, 0xD8, 0xFF, ..] => Ok(Format::Jpeg),
             [0x89, 0x50, 0x4E, 0x47, 0x0D, 0x0A, 0x1A, 0x0A, ..] => Ok(Format::Png),
             [0x47, 0x49, 0x46, 0x38, 0x37, 0x61, ..] => Ok(Format::Gif),
-- 
2.43.0


From 4b394b6a9c0f5938f0e6b7c7b1a4feb82984ec64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:46 +0000
Subject: [PATCH 36/45] fix: read errors while detecting the format of a file
 were ignored

---
 d10-codecs/src/lib.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/d10-codecs/src/lib.rs b/d10-codecs/src/lib.rs
index 9fd76ee..a42c5f2 100644
--- a/d10-codecs/src/lib.rs
+++ b/d10-codecs/src/lib.rs
@@ -204,13 +204,14 @@ where
     let path = path.as_ref();
     let file = File::open(path)?;
     let mut reader = BufReader::new(file);
-    if let Ok(format) = Format::from_reader(&mut reader) {
-        decode(reader, format)
-    } else if let Some(format) = Format::from_path(path) {
-        decode(reader, format)
-    } else {
-        Err(DecodingError::UnknownFormat)
-    }
+    let format = match Format::from_reader(&mut reader) {
+        Err(DecodingError::UnknownFormat) => {
+            Format::from_path(path).ok_or(DecodingError::UnknownFormat)?
+        }
+        res => res?,
+    };
+
+    decode(reader, format)
 }
 
 pub fn decode_buffer(buffer: &[u8]) -> Result<DecodedImage, DecodingError> {
-- 
2.43.0


From 2ab0a1d2db396d21a6b51eb1939bb9a4c8c62068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:07 +0000
Subject: [PATCH 37/45] fix: optimize_saturation: the mean saturation of large
 images was rounded

---
 d10-ops/src/saturation.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/d10-ops/src/saturation.rs b/d10-ops/src/saturation.rs
index ba162f3..9c9e19f 100644
--- a/d10-ops/src/saturation.rs
+++ b/d10-ops/src/saturation.rs
@@ -58,17 +58,17 @@ fn get_gamma_pow(gamma: f32, brightness: f32) -> f32 {
 }
 
 fn avg_saturation(buffer: &PixelBuffer<Rgb>, mode: SaturationMode) -> f32 {
-    let mut sum = 0.0;
+    let mut sum = 0.0f64;
 
     for c in buffer.data() {
         sum += match mode {
             SaturationMode::Hsl => c.to_hsl().saturation(),
             SaturationMode::Hsv => c.to_hsv().saturation(),
             SaturationMode::Lch => c.to_lch::<D65, O2>().c(),
-        };
+        } as f64;
     }
 
-    sum / buffer.data().len() as f32
+    (sum / buffer.data().len() as f64) as f32
 }
 
 fn saturate_hsl(c: &Rgb, gamma: f32) -> Rgb {
-- 
2.43.0


From 8c31e55a18528333813736dc54f3d2c151669f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:16 +0000
Subject: [PATCH 38/45] fix: tint correction: the mean tint of large images was
 rounded

---
 d10-ops/src/temperature.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/d10-ops/src/temperature.rs b/d10-ops/src/temperature.rs
index 992aaca..0fd47cf 100644
--- a/d10-ops/src/temperature.rs
+++ b/d10-ops/src/temperature.rs
@@ -110,13 +110,13 @@ fn get_green_tint_pow(buffer: &PixelBuffer<Rgb>, tint_correction: f32) -> f32 {
         return 0.0;
     }
 
-    let mut sum = 0.0;
+    let mut sum = 0.0f64;
 
     for c in buffer.data() {
-        sum += c.green() - c.red() + c.green() - c.blue();
+        sum += (c.green() - c.red() + c.green() - c.blue()) as f64;
     }
 
-    let avg = sum * tint_correction / buffer.data().len() as f32;
+    let avg = (sum / buffer.data().len() as f64) as f32 * tint_correction;
 
     if avg > 0.0 {
         1.0 / (1.0 - avg.tanh())
@@ -130,13 +130,13 @@ fn get_red_tint_pow(buffer: &PixelBuffer<Rgb>, tint_correction: f32) -> f32 {
         return 0.0;
     }
 
-    let mut sum = 0.0;
+    let mut sum = 0.0f64;
 
     for c in buffer.data() {
-        sum += c.red() - c.green() + c.red() - c.blue();
+        sum += (c.red() - c.green() + c.red() - c.blue()) as f64;
     }
 
-    let avg = 0.25 * sum * tint_correction / buffer.data().len() as f32;
+    let avg = 0.25 * (sum / buffer.data().len() as f64) as f32 * tint_correction;
 
     if avg > 0.0 {
         1.0 / (1.0 - avg.tanh())
@@ -150,13 +150,13 @@ fn get_blue_tint_pow(buffer: &PixelBuffer<Rgb>, tint_correction: f32) -> f32 {
         return 0.0;
     }
 
-    let mut sum = 0.0;
+    let mut sum = 0.0f64;
 
     for c in buffer.data() {
-        sum += c.blue() - c.green() + c.blue() - c.red();
+        sum += (c.blue() - c.green() + c.blue() - c.red()) as f64;
     }
 
-    let avg = 0.33 * sum * tint_correction / buffer.data().len() as f32;
+    let avg = 0.33 * (sum / buffer.data().len() as f64) as f32 * tint_correction;
 
     if avg > 0.0 {
         1.0 / (1.0 - avg.tanh())
-- 
2.43.0


From b43f4782ae8aa5112579b00ae223a01a965cdfe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:48 +0000
Subject: [PATCH 39/45] fix: equalize: the histogram of large images was
 rounded

---
 d10-ops/src/equalize.rs | 41 +++++++++++++----------------------------
 1 file changed, 13 insertions(+), 28 deletions(-)

diff --git a/d10-ops/src/equalize.rs b/d10-ops/src/equalize.rs
index b066c66..ba668d0 100644
--- a/d10-ops/src/equalize.rs
+++ b/d10-ops/src/equalize.rs
@@ -35,43 +35,28 @@ fn channel_histogram<C: Color, const NUM_CHANNELS: usize>(
     let mut histogram = [[0.0; 256]; NUM_CHANNELS];
 
     for (i, h) in histogram.iter_mut().enumerate() {
+        // A f32 can't count every pixel of a large image
+        let mut counts = [0u32; 256];
+
         for c in buffer.data() {
             let v = c.data()[channel_offset + i] * 255.0;
             let index = v.round().clamp(0., 255.0) as usize;
-            h[index] += 1.0;
+            counts[index] += 1;
         }
-    }
-
-    let pixels = (buffer.width() * buffer.height()) as f32;
 
-    let mut sum = [0.0; NUM_CHANNELS];
+        let mut sum = 0;
 
-    for (i, h) in histogram.iter_mut().enumerate() {
-        for v in h.iter_mut() {
-            sum[i] += *v;
-            *v = sum[i] / pixels;
+        for v in counts.iter_mut() {
+            sum += *v;
+            *v = sum;
         }
-    }
 
-    let mut max = [0.0f32; NUM_CHANNELS];
-    let mut min = [f32::MAX; NUM_CHANNELS];
+        let min = counts[0];
+        let delta = sum - min;
 
-    for (i, h) in histogram.iter_mut().enumerate() {
-        for &v in h.iter() {
-            max[i] = max[i].max(v);
-            min[i] = min[i].min(v);
-        }
-    }
-
-    for (i, h) in histogram.iter_mut().enumerate() {
-        let delta = max[i] - min[i];
-        if delta < f32::EPSILON {
-            for v in h.iter_mut() {
-                *v = 0.0;
-            }
-        } else {
-            for v in h.iter_mut() {
-                *v = (*v - min[i]) / (delta);
+        if delta > 0 {
+            for (v, count) in h.iter_mut().zip(counts) {
+                *v = (count - min) as f32 / delta as f32;
             }
         }
     }
-- 
2.43.0


From db0a2747b66bd9838a0f4108f284007b3c0030d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:16 +0000
Subject: [PATCH 40/45] fix: stretch_contrast: the shares of the levels of
 large images were rounded

---
 d10-ops/src/stretch_contrast.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/d10-ops/src/stretch_contrast.rs b/d10-ops/src/stretch_contrast.rs
index 8501899..7a367b2 100644
--- a/d10-ops/src/stretch_contrast.rs
+++ b/d10-ops/src/stretch_contrast.rs
@@ -7,16 +7,16 @@ fn get_color_value(c: &Rgb) -> u8 {
 }
 
 fn get_color_values(buffer: &PixelBuffer<Rgb>) -> [f32; 256] {
-    let mut result = [0.0; 256];
-
-    let len = buffer.data().len() as f32;
+    let mut counts = [0u32; 256];
 
     for c in buffer.data() {
         let v = get_color_value(c);
-        result[v as usize] += 1.0 / len;
+        counts[v as usize] += 1;
     }
 
-    result
+    let len = buffer.data().len() as f32;
+
+    counts.map(|count| count as f32 / len)
 }
 
 pub fn get_min_value(values: &[f32; 256], threshold: f32) -> f32 {
-- 
2.43.0


From eda6ad4f1d15eaf5abf84c927f2fc4cad742cfab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:16 +0000
Subject: [PATCH 41/45] fix: balance: the shares of the levels of large images
 were rounded

---
 d10-ops/src/balance_channels.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/d10-ops/src/balance_channels.rs b/d10-ops/src/balance_channels.rs
index ebf8ab4..eb218ca 100644
--- a/d10-ops/src/balance_channels.rs
+++ b/d10-ops/src/balance_channels.rs
@@ -6,20 +6,20 @@ use std::str::FromStr;
 fn get_color_values<C: Color + From<Rgb>, const START: usize, const NUM_CHANNELS: usize>(
     buffer: &PixelBuffer<Rgb>,
 ) -> [[f32; 256]; NUM_CHANNELS] {
-    let mut result = [[0.0; 256]; NUM_CHANNELS];
-
-    let len = buffer.data().len() as f32;
+    let mut counts = [[0u32; 256]; NUM_CHANNELS];
 
     for c in buffer.data() {
         let c: C = (*c).into();
-        for (channel, res) in result.iter_mut().enumerate() {
+        for (channel, res) in counts.iter_mut().enumerate() {
             // Conversions may leave a value a rounding error below its exact level (e.g. sRGB white)
             let v = (c.data()[START + channel] * 255.0 + 1e-3).clamp(0.0, 255.0) as u8;
-            res[v as usize] += 1.0 / len;
+            res[v as usize] += 1;
         }
     }
 
-    result
+    let len = buffer.data().len() as f32;
+
+    counts.map(|channel| channel.map(|count| count as f32 / len))
 }
 
 pub fn get_min_value(values: &[f32; 256], threshold: f32) -> f32 {
-- 
2.43.0


From 08c438dda93cb348556695ecb7194ac8a557be20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:47 +0000
Subject: [PATCH 42/45] fix: don't copy the whole window of a downscaling
 Lanczos filter

The window grows with the square of the reduction: shrinking 900x2 pixels
to a single one needed more than 200 MB for every pixel.
---
 d10-ops/src/filters.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/d10-ops/src/filters.rs b/d10-ops/src/filters.rs
index d3051e9..f1f3146 100644
--- a/d10-ops/src/filters.rs
+++ b/d10-ops/src/filters.rs
@@ -211,8 +211,6 @@ pub fn get_pixel_lanczos_dyn(buffer: &PixelBuffer<Rgb>, x: f32, y: f32, size: us
 
     let rowsize = size * 2 + 1;
 
-    let kernel = buffer.get_kernel_dyn(x, y, rowsize);
-
     let mut row_scale = Vec::with_capacity(rowsize);
 
     let size = size as isize;
@@ -223,11 +221,16 @@ pub fn get_pixel_lanczos_dyn(buffer: &PixelBuffer<Rgb>, x: f32, y: f32, size: us
 
     let mut rows = vec![[0.0; 4]; rowsize];
 
+    // The window may be a lot larger than the image and must not be copied
+    let start_x = x - size as i32;
+    let start_y = y - size as i32;
+
     for y in 0..rowsize {
         for x in 0..rowsize {
             let scale = row_scale[x];
+            let color = buffer.get_pixel_clamped(start_x + x as i32, start_y + y as i32);
             for i in 0..=3 {
-                let v = kernel[y][x].data[i];
+                let v = color.data[i];
                 rows[y][i] += v * scale
             }
         }
-- 
2.43.0


From e73f9d9e5bfe1889aae65c2542b8169a88ff1378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:34 +0000
Subject: [PATCH 43/45] fix: colors out of range had an infinite or undefined
 saturation

Colors with negative channels, e.g. from Lanczos resampling, got an
infinite or NaN saturation in HSL and HSV which spread from single pixels
to whole images in balance and optimize saturation.
---
 d10-core/src/color/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/d10-core/src/color/mod.rs b/d10-core/src/color/mod.rs
index 82682d0..84cceb5 100644
--- a/d10-core/src/color/mod.rs
+++ b/d10-core/src/color/mod.rs
@@ -60,7 +60,8 @@ pub trait Color:
     }
 
     fn to_hsl(&self) -> Hsl {
-        let rgb = self.to_rgb();
+        // Saturation and hue are only defined for colors inside of the RGB cube
+        let rgb = self.to_rgb().map_channels(|v| v);
 
         let max = rgb.max();
         let min = rgb.min();
@@ -104,7 +105,8 @@ pub trait Color:
     }
 
     fn to_hsv(&self) -> Hsv {
-        let rgb = self.to_rgb();
+        // Saturation and hue are only defined for colors inside of the RGB cube
+        let rgb = self.to_rgb().map_channels(|v| v);
 
         let max = rgb.max();
         let min = rgb.min();
-- 
2.43.0


From 2d4a985f8f73ed31f2cf8dcfc6295b62590090a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:38 +0000
Subject: [PATCH 44/45] fix: optimize saturation: a gamma of zero or below gave
 NaN

This affects negative offsets and pixels with a brightness out of range.
---
 d10-ops/src/saturation.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/d10-ops/src/saturation.rs b/d10-ops/src/saturation.rs
index 9c9e19f..8b41879 100644
--- a/d10-ops/src/saturation.rs
+++ b/d10-ops/src/saturation.rs
@@ -44,7 +44,7 @@ pub fn optimize_saturation(
 
 fn get_gamma_pow(gamma: f32, brightness: f32) -> f32 {
     // Prevent dark and bright colors to get too much saturation applied
-    let factor = 1.0 - ((brightness - 0.5).abs() * 2.0);
+    let factor = (1.0 - ((brightness - 0.5).abs() * 2.0)).max(0.0);
 
     let gamma = if gamma < 0.0 {
         let diff = 1.0 - gamma;
@@ -54,7 +54,8 @@ fn get_gamma_pow(gamma: f32, brightness: f32) -> f32 {
         1.0 + diff * factor
     };
 
-    1.0 / gamma
+    // There is no saturation left for values below zero
+    1.0 / gamma.max(f32::EPSILON)
 }
 
 fn avg_saturation(buffer: &PixelBuffer<Rgb>, mode: SaturationMode) -> f32 {
-- 
2.43.0


From 7a8bdab82d0eaf636a03a94262635c8ac6945676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:43 +0000
Subject: [PATCH 45/45] fix: change color temperature: tint correction of
 negative green gave NaN

---
 d10-ops/src/temperature.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/d10-ops/src/temperature.rs b/d10-ops/src/temperature.rs
index 0fd47cf..b65dd44 100644
--- a/d10-ops/src/temperature.rs
+++ b/d10-ops/src/temperature.rs
@@ -20,7 +20,7 @@ pub fn change_color_temperature(
         buffer.map_colors(|c| {
             Rgb::new_with_alpha(
                 c.red() * factors[0],
-                c.green().pow(tint_pow) * factors[1],
+                c.green().max(0.0).pow(tint_pow) * factors[1],
                 c.blue() * factors[2],
                 c.alpha(),
             )
-- 
2.43.0

