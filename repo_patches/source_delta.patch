From 6313978905a8453077abac884cb8eb51ac519716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:15 +0000
Subject: [PATCH 01/97] fix: checked pixel access must refuse rows past the
 height

A container longer than the image made get_pixel_checked and
get_pixel_mut_checked return samples for y >= height.
---
 src/buffer.rs | 28 +++++-----------------------
 1 file changed, 5 insertions(+), 23 deletions(-)

diff --git a/src/buffer.rs b/src/buffer.rs
index 8ad6930..302e67e 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -780,18 +780,8 @@ where
     /// Gets a reference to the pixel at location `(x, y)` or returns `None` if
     /// the index is out of the bounds `(width, height)`.
     pub fn get_pixel_checked(&self, x: u32, y: u32) -> Option<&P> {
-        if x >= self.width {
-            return None;
-        }
-        let num_channels = <P as Pixel>::CHANNEL_COUNT as usize;
-        let i = (y as usize)
-            .saturating_mul(self.width as usize)
-            .saturating_add(x as usize)
-            .saturating_mul(num_channels);
-
-        self.data
-            .get(i..i.checked_add(num_channels)?)
-            .map(|pixel_indices| <P as Pixel>::from_slice(pixel_indices))
+        let pixel_indices = self.pixel_indices(x, y)?;
+        self.data.get(pixel_indices).map(<P as Pixel>::from_slice)
     }
 
     /// Test that the image fits inside the buffer.
@@ -958,18 +948,10 @@ where
     /// Gets a reference to the mutable pixel at location `(x, y)` or returns
     /// `None` if the index is out of the bounds `(width, height)`.
     pub fn get_pixel_mut_checked(&mut self, x: u32, y: u32) -> Option<&mut P> {
-        if x >= self.width {
-            return None;
-        }
-        let num_channels = <P as Pixel>::CHANNEL_COUNT as usize;
-        let i = (y as usize)
-            .saturating_mul(self.width as usize)
-            .saturating_add(x as usize)
-            .saturating_mul(num_channels);
-
+        let pixel_indices = self.pixel_indices(x, y)?;
         self.data
-            .get_mut(i..i.checked_add(num_channels)?)
-            .map(|pixel_indices| <P as Pixel>::from_slice_mut(pixel_indices))
+            .get_mut(pixel_indices)
+            .map(<P as Pixel>::from_slice_mut)
     }
 
     /// Puts a pixel at location `(x, y)`
-- 
2.43.0


From 28c95874b6b37a34d2475de7a266019ed97cddfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:23 +0000
Subject: [PATCH 02/97] fix: iterating the pixels of a zero-width image must
 not panic

---
 src/image.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/image.rs b/src/image.rs
index a38fee9..2d5a6d5 100644
--- a/src/image.rs
+++ b/src/image.rs
@@ -855,7 +855,7 @@ impl<I: GenericImageView> Iterator for Pixels<'_, I> {
             self.y += 1;
         }
 
-        if self.y >= self.height {
+        if self.x >= self.width || self.y >= self.height {
             None
         } else {
             let pixel = self.image.get_pixel(self.x, self.y);
-- 
2.43.0


From f9054f5ca0a8f88376b27d61f28dc6e252cd018c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:52 +0000
Subject: [PATCH 03/97] fix: a zero stride along a longer dimension aliases
 samples

has_aliased_samples (and with it is_normal and as_view_mut) took e.g. the
layout of with_monocolor for an unaliased one.
---
 src/flat.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/flat.rs b/src/flat.rs
index 24dcd5e..b03fa62 100644
--- a/src/flat.rs
+++ b/src/flat.rs
@@ -326,6 +326,13 @@ impl SampleLayout {
             return true;
         };
 
+        // Without a stride, all elements along that dimension are the same samples.
+        if grouped.iter().all(|dim| dim.1 > 0)
+            && grouped.iter().any(|dim| dim.stride() == 0 && dim.1 > 1)
+        {
+            return true;
+        }
+
         // Each higher dimension must walk over all of one lower dimension.
         min_size > mid_dim.stride() || mid_size > max_dim.stride()
     }
-- 
2.43.0


From 3797128a537ef43f1b660877c7537693ba8019a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:52 +0000
Subject: [PATCH 04/97] fix: the packed layout of an empty image is in normal
 form

row_major_packed promises a RowMajorPacked layout, but for an image without
pixels is_normal refused it, so that an empty ImageBuffer did not survive
into_flat_samples().try_into_buffer().
---
 src/flat.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/flat.rs b/src/flat.rs
index b03fa62..892ecb2 100644
--- a/src/flat.rs
+++ b/src/flat.rs
@@ -354,7 +354,8 @@ impl SampleLayout {
             return false;
         }
 
-        if form >= NormalForm::ImagePacked {
+        // Without any samples there are no holes between them either.
+        if form >= NormalForm::ImagePacked && self.min_length() != Some(0) {
             // has aliased already checked for overflows.
             let grouped = self.increasing_stride_dims();
             let (min_dim, mid_dim, max_dim) = (grouped[0], grouped[1], grouped[2]);
-- 
2.43.0


From 53584f73ec495388a687f34d02eb4ea6e6c34a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:16 +0000
Subject: [PATCH 05/97] fix: copy_from must refuse positions whose end
 overflows u32

---
 src/image.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/image.rs b/src/image.rs
index 2d5a6d5..23461a2 100644
--- a/src/image.rs
+++ b/src/image.rs
@@ -1029,7 +1029,9 @@ pub trait GenericImage: GenericImageView {
     {
         // Do bounds checking here so we can use the non-bounds-checking
         // functions to copy pixels.
-        if self.width() < other.width() + x || self.height() < other.height() + y {
+        if u64::from(self.width()) < u64::from(other.width()) + u64::from(x)
+            || u64::from(self.height()) < u64::from(other.height()) + u64::from(y)
+        {
             return Err(ImageError::Parameter(ParameterError::from_kind(
                 ParameterErrorKind::DimensionMismatch,
             )));
-- 
2.43.0


From a5452e88ae0094fdb18c5238b4309ca93c8e83c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:16 +0000
Subject: [PATCH 06/97] fix: copy_within of an empty rectangle must not
 underflow

---
 src/buffer.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/buffer.rs b/src/buffer.rs
index 302e67e..78653dc 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -1212,6 +1212,9 @@ where
         if self.width() - dx.max(sx) < width || self.height() - dy.max(sy) < height {
             return false;
         }
+        if width == 0 {
+            return true;
+        }
 
         if sy < dy {
             for y in (0..height).rev() {
-- 
2.43.0


From 8674188f09e5ad437a9ed5421bbdec0faabb9b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:40 +0000
Subject: [PATCH 07/97] fix: expand_palette must expand the first pixel too

---
 src/utils/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/mod.rs b/src/utils/mod.rs
index f64834e..ddb2c47 100644
--- a/src/utils/mod.rs
+++ b/src/utils/mod.rs
@@ -22,7 +22,7 @@ where
             (0..8/bit_depth).map(|i| i*bit_depth).zip(repeat(idx)))
         .skip(extra);
     let buf_len = buf.len();
-    let j_inv = (channels..buf_len).step_by(channels);
+    let j_inv = (channels..=buf_len).step_by(channels);
     for ((shift, i), j_inv) in i.zip(j_inv) {
         let j = buf_len - j_inv;
         let pixel = (buf[i] & (mask << shift)) >> shift;
-- 
2.43.0


From 321b5aaa8102e8b6d292ae15b549313fb3832203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:13 +0000
Subject: [PATCH 08/97] fix: blending opaque or transparent gray-alpha pixels
 is exact

---
 src/color.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/color.rs b/src/color.rs
index a83ca8c..6cde10c 100644
--- a/src/color.rs
+++ b/src/color.rs
@@ -752,6 +752,14 @@ pub(crate) trait Blend {
 
 impl<T: Primitive> Blend for LumaA<T> {
     fn blend(&mut self, other: &LumaA<T>) {
+        if other.0[1].is_zero() {
+            return;
+        }
+        if other.0[1] == T::DEFAULT_MAX_VALUE {
+            *self = *other;
+            return;
+        }
+
         let max_t = T::DEFAULT_MAX_VALUE;
         let max_t = max_t.to_f32().unwrap();
         let (bg_luma, bg_a) = (self.0[0], self.0[1]);
-- 
2.43.0


From 18395dd4c9ec5ff97348e5f0c72ac3d32275418b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:12 +0000
Subject: [PATCH 09/97] fix: blending wide integer samples must not panic

---
 src/color.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/color.rs b/src/color.rs
index 6cde10c..1df6c47 100644
--- a/src/color.rs
+++ b/src/color.rs
@@ -744,6 +744,12 @@ where
     }
 }
 
+/// Cast a blended value back to its sample type. Single precision cannot represent the maximum of
+/// wide integers and rounds it up, out of their range.
+fn cast_blended<T: Primitive>(value: f32) -> T {
+    NumCast::from(value).unwrap_or(T::DEFAULT_MAX_VALUE)
+}
+
 /// Blends a color inter another one
 pub(crate) trait Blend {
     /// Blends a color in-place.
@@ -785,8 +791,8 @@ impl<T: Primitive> Blend for LumaA<T> {
         let out_luma = out_luma_a / alpha_final;
 
         *self = LumaA([
-            NumCast::from(max_t * out_luma).unwrap(),
-            NumCast::from(max_t * alpha_final).unwrap(),
+            cast_blended(max_t * out_luma),
+            cast_blended(max_t * alpha_final),
         ]);
     }
 }
@@ -853,10 +859,10 @@ impl<T: Primitive> Blend for Rgba<T> {
 
         // Cast back to our initial type on return
         *self = Rgba([
-            NumCast::from(max_t * out_r).unwrap(),
-            NumCast::from(max_t * out_g).unwrap(),
-            NumCast::from(max_t * out_b).unwrap(),
-            NumCast::from(max_t * alpha_final).unwrap(),
+            cast_blended(max_t * out_r),
+            cast_blended(max_t * out_g),
+            cast_blended(max_t * out_b),
+            cast_blended(max_t * alpha_final),
         ]);
     }
 }
-- 
2.43.0


From 80262421bb3bf0e4489fd4cb96e5d1439770cb4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:11 +0000
Subject: [PATCH 10/97] fix: tiling with an empty image must not panic

---
 src/imageops/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/imageops/mod.rs b/src/imageops/mod.rs
index ccd398a..fcb2696 100644
--- a/src/imageops/mod.rs
+++ b/src/imageops/mod.rs
@@ -258,6 +258,10 @@ where
     I: GenericImage,
     J: GenericImageView<Pixel = I::Pixel>,
 {
+    if top.width() == 0 || top.height() == 0 {
+        return;
+    }
+
     for x in (0..bottom.width()).step_by(top.width() as usize) {
         for y in (0..bottom.height()).step_by(top.height() as usize) {
             overlay(bottom, top, i64::from(x), i64::from(y));
-- 
2.43.0


From 6b6d7e11f87f4b0ed4df7ba2dd8b8f101a44511b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:11 +0000
Subject: [PATCH 11/97] fix: gradients over a single row or column must not
 divide by zero

---
 src/imageops/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/imageops/mod.rs b/src/imageops/mod.rs
index fcb2696..04f82b3 100644
--- a/src/imageops/mod.rs
+++ b/src/imageops/mod.rs
@@ -292,7 +292,8 @@ where
     for y in 0..img.height() {
         let pixel = start.map2(stop, |a, b| {
             let y = <S::Ratio as num_traits::NumCast>::from(y).unwrap();
-            let height = <S::Ratio as num_traits::NumCast>::from(img.height() - 1).unwrap();
+            let height =
+                <S::Ratio as num_traits::NumCast>::from((img.height() - 1).max(1)).unwrap();
             S::lerp(a, b, y / height)
         });
 
@@ -325,7 +326,7 @@ where
     for x in 0..img.width() {
         let pixel = start.map2(stop, |a, b| {
             let x = <S::Ratio as num_traits::NumCast>::from(x).unwrap();
-            let width = <S::Ratio as num_traits::NumCast>::from(img.width() - 1).unwrap();
+            let width = <S::Ratio as num_traits::NumCast>::from((img.width() - 1).max(1)).unwrap();
             S::lerp(a, b, x / width)
         });
 
-- 
2.43.0


From 03dd31af061a15557da6bf4395af417a8dc8fdfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:45 +0000
Subject: [PATCH 12/97] fix: thumbnail sums of large blocks must not overflow

---
 src/traits.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/traits.rs b/src/traits.rs
index 325926d..2903b44 100644
--- a/src/traits.rs
+++ b/src/traits.rs
@@ -89,10 +89,10 @@ pub trait Enlargeable: Sized + Bounded + NumCast {
 }
 
 impl Enlargeable for u8 {
-    type Larger = u32;
+    type Larger = u64;
 }
 impl Enlargeable for u16 {
-    type Larger = u32;
+    type Larger = u64;
 }
 impl Enlargeable for u32 {
     type Larger = u64;
@@ -105,10 +105,10 @@ impl Enlargeable for usize {
     type Larger = u128;
 }
 impl Enlargeable for i8 {
-    type Larger = i32;
+    type Larger = i64;
 }
 impl Enlargeable for i16 {
-    type Larger = i32;
+    type Larger = i64;
 }
 impl Enlargeable for i32 {
     type Larger = i64;
-- 
2.43.0


From 5f9241c4ddf670f4cef71cf9e15fa27f8a15364e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:46 +0000
Subject: [PATCH 13/97] fix: thumbnails of float images must not be brightened
 by one half

---
 src/imageops/sample.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/imageops/sample.rs b/src/imageops/sample.rs
index dc79552..b96ba32 100644
--- a/src/imageops/sample.rs
+++ b/src/imageops/sample.rs
@@ -702,7 +702,13 @@ where
     }
 
     let n = <S::Larger as NumCast>::from((right - left) * (top - bottom)).unwrap();
-    let round = <S::Larger as NumCast>::from(n / NumCast::from(2).unwrap()).unwrap();
+    // Integer division truncates, so half the divisor is added first. Floats do not need this.
+    let is_float = S::DEFAULT_MAX_VALUE.to_f32().unwrap() == 1.0;
+    let round = if is_float {
+        S::Larger::zero()
+    } else {
+        <S::Larger as NumCast>::from(n / NumCast::from(2).unwrap()).unwrap()
+    };
     (
         S::clamp_from((sum.0 + round) / n),
         S::clamp_from((sum.1 + round) / n),
-- 
2.43.0


From dfde9047129af44f0f251f421e81d454aaf1b337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:47 +0000
Subject: [PATCH 14/97] fix: interpolated thumbnail samples are rounded, not
 truncated

---
 src/imageops/sample.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/imageops/sample.rs b/src/imageops/sample.rs
index b96ba32..94c715f 100644
--- a/src/imageops/sample.rs
+++ b/src/imageops/sample.rs
@@ -717,6 +717,16 @@ where
     )
 }
 
+/// Convert an interpolated value to the nearest sample, saturating where single precision cannot
+/// represent the largest sample exactly.
+fn nearest_sample<S: Primitive>(value: f32) -> S {
+    NumCast::from(FloatNearest(value)).unwrap_or(if value < 0.0 {
+        S::DEFAULT_MIN_VALUE
+    } else {
+        S::DEFAULT_MAX_VALUE
+    })
+}
+
 /// Get a thumbnail pixel where the input window encloses at least a vertical pixel.
 fn thumbnail_sample_fraction_horizontal<I, P, S>(
     image: &I,
@@ -747,10 +757,9 @@ where
     let fact_left = (1. - fract) / ((top - bottom) as f32);
 
     let mix_left_and_right = |leftv: S::Larger, rightv: S::Larger| {
-        <S as NumCast>::from(
+        nearest_sample::<S>(
             fact_left * leftv.to_f32().unwrap() + fact_right * rightv.to_f32().unwrap(),
         )
-        .expect("Average sample value should fit into sample type")
     };
 
     (
@@ -791,8 +800,7 @@ where
     let fact_bot = (1. - fract) / ((right - left) as f32);
 
     let mix_bot_and_top = |botv: S::Larger, topv: S::Larger| {
-        <S as NumCast>::from(fact_bot * botv.to_f32().unwrap() + fact_top * topv.to_f32().unwrap())
-            .expect("Average sample value should fit into sample type")
+        nearest_sample::<S>(fact_bot * botv.to_f32().unwrap() + fact_top * topv.to_f32().unwrap())
     };
 
     (
@@ -834,13 +842,12 @@ where
     let fact_bl = (1. - frac_v) * (1. - frac_h);
 
     let mix = |br: S, tr: S, bl: S, tl: S| {
-        <S as NumCast>::from(
+        nearest_sample::<S>(
             fact_br * br.to_f32().unwrap()
                 + fact_tr * tr.to_f32().unwrap()
                 + fact_bl * bl.to_f32().unwrap()
                 + fact_tl * tl.to_f32().unwrap(),
         )
-        .expect("Average sample value should fit into sample type")
     };
 
     (
-- 
2.43.0


From 99fb6d474efbdc6d00cbdcdafe6888730158e917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:47 +0000
Subject: [PATCH 15/97] fix: resampling wide integer samples must not panic

---
 src/imageops/sample.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/imageops/sample.rs b/src/imageops/sample.rs
index 94c715f..87f3495 100644
--- a/src/imageops/sample.rs
+++ b/src/imageops/sample.rs
@@ -303,10 +303,10 @@ where
 
             #[allow(deprecated)]
             let t = Pixel::from_channels(
-                NumCast::from(FloatNearest(clamp(t.0, min, max))).unwrap(),
-                NumCast::from(FloatNearest(clamp(t.1, min, max))).unwrap(),
-                NumCast::from(FloatNearest(clamp(t.2, min, max))).unwrap(),
-                NumCast::from(FloatNearest(clamp(t.3, min, max))).unwrap(),
+                nearest_sample(clamp(t.0, min, max)),
+                nearest_sample(clamp(t.1, min, max)),
+                nearest_sample(clamp(t.2, min, max)),
+                nearest_sample(clamp(t.3, min, max)),
             );
 
             out.put_pixel(outx, y, t);
-- 
2.43.0


From 80e0703824311e1524ee66801849cd0f080418e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:48 +0000
Subject: [PATCH 16/97] fix: resizing an empty image to fill must not overflow

---
 src/math/utils.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/math/utils.rs b/src/math/utils.rs
index 12fa46e..a4b8eb8 100644
--- a/src/math/utils.rs
+++ b/src/math/utils.rs
@@ -16,6 +16,11 @@ pub(crate) fn resize_dimensions(
     nheight: u32,
     fill: bool,
 ) -> (u32, u32) {
+    if width == 0 || height == 0 {
+        // An empty image has no aspect ratio to preserve.
+        return (max(nwidth, 1), max(nheight, 1));
+    }
+
     let wratio = f64::from(nwidth) / f64::from(width);
     let hratio = f64::from(nheight) / f64::from(height);
 
-- 
2.43.0


From 4125a3848fb5e7a4439417537fe087e70cad41cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:24 +0000
Subject: [PATCH 17/97] fix: adjusting the contrast rounds, so that no
 adjustment changes nothing

---
 src/imageops/colorops.rs | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/imageops/colorops.rs b/src/imageops/colorops.rs
index 7289c09..039270f 100644
--- a/src/imageops/colorops.rs
+++ b/src/imageops/colorops.rs
@@ -10,6 +10,17 @@ use crate::ImageBuffer;
 
 type Subpixel<I> = <<I as GenericImageView>::Pixel as Pixel>::Subpixel;
 
+/// Convert a computed value to the nearest sample, saturating at the bounds of the sample range.
+fn nearest_sample<S: Primitive>(value: f64) -> S {
+    let is_float = S::DEFAULT_MAX_VALUE.to_f32().unwrap() == 1.0;
+
+    NumCast::from(if is_float { value } else { value.round() }).unwrap_or(if value < 0.0 {
+        S::DEFAULT_MIN_VALUE
+    } else {
+        S::DEFAULT_MAX_VALUE
+    })
+}
+
 /// Convert the supplied image to grayscale. Alpha channel is discarded.
 pub fn grayscale<I: GenericImageView>(
     image: &I,
@@ -95,18 +106,16 @@ where
     let mut out = ImageBuffer::new(width, height);
 
     let max = S::DEFAULT_MAX_VALUE;
-    let max: f32 = NumCast::from(max).unwrap();
+    let max: f64 = NumCast::from(max).unwrap();
 
-    let percent = ((100.0 + contrast) / 100.0).powi(2);
+    let percent = ((100.0 + <f64 as From<_>>::from(contrast)) / 100.0).powi(2);
 
     for (x, y, pixel) in image.pixels() {
         let f = pixel.map(|b| {
-            let c: f32 = NumCast::from(b).unwrap();
+            let c: f64 = NumCast::from(b).unwrap();
 
             let d = ((c / max - 0.5) * percent + 0.5) * max;
-            let e = clamp(d, 0.0, max);
-
-            NumCast::from(e).unwrap()
+            nearest_sample(clamp(d, 0.0, max))
         });
         out.put_pixel(x, y, f);
     }
@@ -126,20 +135,18 @@ where
     let (width, height) = image.dimensions();
 
     let max = <I::Pixel as Pixel>::Subpixel::DEFAULT_MAX_VALUE;
-    let max: f32 = NumCast::from(max).unwrap();
+    let max: f64 = NumCast::from(max).unwrap();
 
-    let percent = ((100.0 + contrast) / 100.0).powi(2);
+    let percent = ((100.0 + <f64 as From<_>>::from(contrast)) / 100.0).powi(2);
 
     // TODO find a way to use pixels?
     for y in 0..height {
         for x in 0..width {
             let f = image.get_pixel(x, y).map(|b| {
-                let c: f32 = NumCast::from(b).unwrap();
+                let c: f64 = NumCast::from(b).unwrap();
 
                 let d = ((c / max - 0.5) * percent + 0.5) * max;
-                let e = clamp(d, 0.0, max);
-
-                NumCast::from(e).unwrap()
+                nearest_sample(clamp(d, 0.0, max))
             });
 
             image.put_pixel(x, y, f);
-- 
2.43.0


From d2a532f656b13d6d3139eb57247e1a7c51d1a0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:24 +0000
Subject: [PATCH 18/97] fix: adjusting the contrast must not change alpha

---
 src/imageops/colorops.rs | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/imageops/colorops.rs b/src/imageops/colorops.rs
index 039270f..15b5a25 100644
--- a/src/imageops/colorops.rs
+++ b/src/imageops/colorops.rs
@@ -111,12 +111,15 @@ where
     let percent = ((100.0 + <f64 as From<_>>::from(contrast)) / 100.0).powi(2);
 
     for (x, y, pixel) in image.pixels() {
-        let f = pixel.map(|b| {
-            let c: f64 = NumCast::from(b).unwrap();
+        let f = pixel.map_with_alpha(
+            |b| {
+                let c: f64 = NumCast::from(b).unwrap();
 
-            let d = ((c / max - 0.5) * percent + 0.5) * max;
-            nearest_sample(clamp(d, 0.0, max))
-        });
+                let d = ((c / max - 0.5) * percent + 0.5) * max;
+                nearest_sample(clamp(d, 0.0, max))
+            },
+            |alpha| alpha,
+        );
         out.put_pixel(x, y, f);
     }
 
@@ -142,12 +145,15 @@ where
     // TODO find a way to use pixels?
     for y in 0..height {
         for x in 0..width {
-            let f = image.get_pixel(x, y).map(|b| {
-                let c: f64 = NumCast::from(b).unwrap();
+            let f = image.get_pixel(x, y).map_with_alpha(
+                |b| {
+                    let c: f64 = NumCast::from(b).unwrap();
 
-                let d = ((c / max - 0.5) * percent + 0.5) * max;
-                nearest_sample(clamp(d, 0.0, max))
-            });
+                    let d = ((c / max - 0.5) * percent + 0.5) * max;
+                    nearest_sample(clamp(d, 0.0, max))
+                },
+                |alpha| alpha,
+            );
 
             image.put_pixel(x, y, f);
         }
-- 
2.43.0


From a1bacce2f6224c1e7502c0a4543b77cb54b62b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:25 +0000
Subject: [PATCH 19/97] fix: brightening must not overflow, panic or truncate
 float samples

---
 src/imageops/colorops.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/imageops/colorops.rs b/src/imageops/colorops.rs
index 15b5a25..099a1f3 100644
--- a/src/imageops/colorops.rs
+++ b/src/imageops/colorops.rs
@@ -175,15 +175,15 @@ where
     let mut out = ImageBuffer::new(width, height);
 
     let max = S::DEFAULT_MAX_VALUE;
-    let max: i32 = NumCast::from(max).unwrap();
+    let max: f64 = NumCast::from(max).unwrap();
 
     for (x, y, pixel) in image.pixels() {
         let e = pixel.map_with_alpha(
             |b| {
-                let c: i32 = NumCast::from(b).unwrap();
-                let d = clamp(c + value, 0, max);
+                let c: f64 = NumCast::from(b).unwrap();
+                let d = clamp(c + <f64 as From<_>>::from(value), 0.0, max);
 
-                NumCast::from(d).unwrap()
+                nearest_sample(d)
             },
             |alpha| alpha,
         );
@@ -205,17 +205,17 @@ where
     let (width, height) = image.dimensions();
 
     let max = <I::Pixel as Pixel>::Subpixel::DEFAULT_MAX_VALUE;
-    let max: i32 = NumCast::from(max).unwrap(); // TODO what does this do for f32? clamp at 1??
+    let max: f64 = NumCast::from(max).unwrap();
 
     // TODO find a way to use pixels?
     for y in 0..height {
         for x in 0..width {
             let e = image.get_pixel(x, y).map_with_alpha(
                 |b| {
-                    let c: i32 = NumCast::from(b).unwrap();
-                    let d = clamp(c + value, 0, max);
+                    let c: f64 = NumCast::from(b).unwrap();
+                    let d = clamp(c + <f64 as From<_>>::from(value), 0.0, max);
 
-                    NumCast::from(d).unwrap()
+                    nearest_sample(d)
                 },
                 |alpha| alpha,
             );
-- 
2.43.0


From fdeb1f5d75482becbaf0794e2886272a4d038460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:25 +0000
Subject: [PATCH 20/97] fix: hue rotation clamps to the sample range and rounds

---
 src/imageops/colorops.rs | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/imageops/colorops.rs b/src/imageops/colorops.rs
index 099a1f3..8cb6d42 100644
--- a/src/imageops/colorops.rs
+++ b/src/imageops/colorops.rs
@@ -277,14 +277,14 @@ where
         let new_r = matrix[0] * r + matrix[1] * g + matrix[2] * b;
         let new_g = matrix[3] * r + matrix[4] * g + matrix[5] * b;
         let new_b = matrix[6] * r + matrix[7] * g + matrix[8] * b;
-        let max = 255f64;
+        let max: f64 = NumCast::from(S::DEFAULT_MAX_VALUE).unwrap();
 
         #[allow(deprecated)]
         let outpixel = Pixel::from_channels(
-            NumCast::from(clamp(new_r, 0.0, max)).unwrap(),
-            NumCast::from(clamp(new_g, 0.0, max)).unwrap(),
-            NumCast::from(clamp(new_b, 0.0, max)).unwrap(),
-            NumCast::from(clamp(vec.3, 0.0, max)).unwrap(),
+            nearest_sample(clamp(new_r, 0.0, max)),
+            nearest_sample(clamp(new_g, 0.0, max)),
+            nearest_sample(clamp(new_b, 0.0, max)),
+            k4,
         );
         *pixel = outpixel;
     }
@@ -345,14 +345,15 @@ where
             let new_r = matrix[0] * r + matrix[1] * g + matrix[2] * b;
             let new_g = matrix[3] * r + matrix[4] * g + matrix[5] * b;
             let new_b = matrix[6] * r + matrix[7] * g + matrix[8] * b;
-            let max = 255f64;
+            let max = <I::Pixel as Pixel>::Subpixel::DEFAULT_MAX_VALUE;
+            let max: f64 = NumCast::from(max).unwrap();
 
             #[allow(deprecated)]
             let outpixel = Pixel::from_channels(
-                NumCast::from(clamp(new_r, 0.0, max)).unwrap(),
-                NumCast::from(clamp(new_g, 0.0, max)).unwrap(),
-                NumCast::from(clamp(new_b, 0.0, max)).unwrap(),
-                NumCast::from(clamp(vec.3, 0.0, max)).unwrap(),
+                nearest_sample(clamp(new_r, 0.0, max)),
+                nearest_sample(clamp(new_g, 0.0, max)),
+                nearest_sample(clamp(new_b, 0.0, max)),
+                k4,
             );
 
             image.put_pixel(x, y, outpixel);
-- 
2.43.0


From f8128b8e93be5926485bbc4004b447be9737cccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:26 +0000
Subject: [PATCH 21/97] fix: rotating the hue of a gray image must not change
 it

---
 src/imageops/colorops.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/imageops/colorops.rs b/src/imageops/colorops.rs
index 8cb6d42..552c124 100644
--- a/src/imageops/colorops.rs
+++ b/src/imageops/colorops.rs
@@ -261,6 +261,12 @@ where
     for (x, y, pixel) in out.enumerate_pixels_mut() {
         let p = image.get_pixel(x, y);
 
+        // Gray has no hue.
+        if P::CHANNEL_COUNT < 3 {
+            *pixel = p;
+            continue;
+        }
+
         #[allow(deprecated)]
         let (k1, k2, k3, k4) = p.channels4();
         let vec: (f64, f64, f64, f64) = (
@@ -302,6 +308,11 @@ pub fn huerotate_in_place<I>(image: &mut I, value: i32)
 where
     I: GenericImage,
 {
+    // Gray has no hue.
+    if I::Pixel::CHANNEL_COUNT < 3 {
+        return;
+    }
+
     let (width, height) = image.dimensions();
 
     let angle: f64 = NumCast::from(value).unwrap();
-- 
2.43.0


From 46df966ab00e44427b538c0aefaf8e009e4f256b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:52 +0000
Subject: [PATCH 22/97] fix: dithering an empty or one pixel wide image must
 not panic

---
 src/imageops/colorops.rs | 39 ++++++++++++++-------------------------
 1 file changed, 14 insertions(+), 25 deletions(-)

diff --git a/src/imageops/colorops.rs b/src/imageops/colorops.rs
index 552c124..31c7c86 100644
--- a/src/imageops/colorops.rs
+++ b/src/imageops/colorops.rs
@@ -521,34 +521,23 @@ where
 {
     let (width, height) = image.dimensions();
     let mut err: [i16; 3] = [0; 3];
-    for y in 0..height - 1 {
-        let x = 0;
-        do_dithering!(color_map, image, err, x, y);
-        diffuse_err(image.get_pixel_mut(x + 1, y), err, 7);
-        diffuse_err(image.get_pixel_mut(x, y + 1), err, 5);
-        diffuse_err(image.get_pixel_mut(x + 1, y + 1), err, 1);
-        for x in 1..width - 1 {
+    for y in 0..height {
+        for x in 0..width {
             do_dithering!(color_map, image, err, x, y);
-            diffuse_err(image.get_pixel_mut(x + 1, y), err, 7);
-            diffuse_err(image.get_pixel_mut(x - 1, y + 1), err, 3);
-            diffuse_err(image.get_pixel_mut(x, y + 1), err, 5);
-            diffuse_err(image.get_pixel_mut(x + 1, y + 1), err, 1);
+            if x + 1 < width {
+                diffuse_err(image.get_pixel_mut(x + 1, y), err, 7);
+            }
+            if y + 1 < height {
+                if x > 0 {
+                    diffuse_err(image.get_pixel_mut(x - 1, y + 1), err, 3);
+                }
+                diffuse_err(image.get_pixel_mut(x, y + 1), err, 5);
+                if x + 1 < width {
+                    diffuse_err(image.get_pixel_mut(x + 1, y + 1), err, 1);
+                }
+            }
         }
-        let x = width - 1;
-        do_dithering!(color_map, image, err, x, y);
-        diffuse_err(image.get_pixel_mut(x - 1, y + 1), err, 3);
-        diffuse_err(image.get_pixel_mut(x, y + 1), err, 5);
-    }
-    let y = height - 1;
-    let x = 0;
-    do_dithering!(color_map, image, err, x, y);
-    diffuse_err(image.get_pixel_mut(x + 1, y), err, 7);
-    for x in 1..width - 1 {
-        do_dithering!(color_map, image, err, x, y);
-        diffuse_err(image.get_pixel_mut(x + 1, y), err, 7);
     }
-    let x = width - 1;
-    do_dithering!(color_map, image, err, x, y);
 }
 
 /// Reduces the colors using the supplied `color_map` and returns an image of the indices
-- 
2.43.0


From 5c5206890543415f60a8e561b5cc9411972d8505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:53 +0000
Subject: [PATCH 23/97] fix: filter3x3 of an empty image must not underflow

---
 src/imageops/sample.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/imageops/sample.rs b/src/imageops/sample.rs
index 87f3495..0422fb5 100644
--- a/src/imageops/sample.rs
+++ b/src/imageops/sample.rs
@@ -893,8 +893,8 @@ where
     };
     let sum = (sum, sum, sum, sum);
 
-    for y in 1..height - 1 {
-        for x in 1..width - 1 {
+    for y in 1..height.saturating_sub(1) {
+        for x in 1..width.saturating_sub(1) {
             let mut t = (0.0, 0.0, 0.0, 0.0);
 
             // TODO: There is no need to recalculate the kernel for each pixel.
-- 
2.43.0


From 3e7c8359a7f42e23e532d93f73a55030f22973b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:53 +0000
Subject: [PATCH 24/97] fix: filter3x3 rounds, so that normalized kernels keep
 constant images

---
 src/imageops/sample.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/imageops/sample.rs b/src/imageops/sample.rs
index 0422fb5..5d3d7ba 100644
--- a/src/imageops/sample.rs
+++ b/src/imageops/sample.rs
@@ -927,10 +927,10 @@ where
 
             #[allow(deprecated)]
             let t = Pixel::from_channels(
-                NumCast::from(clamp(t1, 0.0, max)).unwrap(),
-                NumCast::from(clamp(t2, 0.0, max)).unwrap(),
-                NumCast::from(clamp(t3, 0.0, max)).unwrap(),
-                NumCast::from(clamp(t4, 0.0, max)).unwrap(),
+                nearest_sample(clamp(t1, 0.0, max)),
+                nearest_sample(clamp(t2, 0.0, max)),
+                nearest_sample(clamp(t3, 0.0, max)),
+                nearest_sample(clamp(t4, 0.0, max)),
             );
 
             out.put_pixel(x, y, t);
-- 
2.43.0


From 4c109e4411d993b6468251bf9a1c320d58787f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:54 +0000
Subject: [PATCH 25/97] fix: unsharpen works on float samples and does not
 panic on wide ones

---
 src/imageops/sample.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/imageops/sample.rs b/src/imageops/sample.rs
index 5d3d7ba..72950ea 100644
--- a/src/imageops/sample.rs
+++ b/src/imageops/sample.rs
@@ -1046,7 +1046,7 @@ where
     let mut tmp = blur(image, sigma);
 
     let max = S::DEFAULT_MAX_VALUE;
-    let max: i32 = NumCast::from(max).unwrap();
+    let max: f64 = NumCast::from(max).unwrap();
     let (width, height) = image.dimensions();
 
     for y in 0..height {
@@ -1055,15 +1055,16 @@ where
             let b = tmp.get_pixel_mut(x, y);
 
             let p = a.map2(b, |c, d| {
-                let ic: i32 = NumCast::from(c).unwrap();
-                let id: i32 = NumCast::from(d).unwrap();
+                // Every sample type but the widest integers is exact in double precision.
+                let ic: f64 = NumCast::from(c).unwrap();
+                let id: f64 = NumCast::from(d).unwrap();
 
                 let diff = ic - id;
 
-                if diff.abs() > threshold {
-                    let e = clamp(ic + diff, 0, max); // FIXME what does this do for f32? clamp 0-1 integers??
+                if diff.abs() > <f64 as From<_>>::from(threshold) {
+                    let e = clamp(ic + diff, 0.0, max);
 
-                    NumCast::from(e).unwrap()
+                    NumCast::from(e).unwrap_or(S::DEFAULT_MAX_VALUE)
                 } else {
                     c
                 }
-- 
2.43.0


From efffcb5b4355d5fd7318463e7c2b1f805026c115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:54 +0000
Subject: [PATCH 26/97] fix: blurring with a tiny sigma must not divide zero by
 zero

---
 src/imageops/sample.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/imageops/sample.rs b/src/imageops/sample.rs
index 72950ea..d55e13e 100644
--- a/src/imageops/sample.rs
+++ b/src/imageops/sample.rs
@@ -182,7 +182,7 @@ fn bc_cubic_spline(x: f32, b: f32, c: f32) -> f32 {
 /// The Gaussian Function.
 /// ```r``` is the standard deviation.
 pub(crate) fn gaussian(x: f32, r: f32) -> f32 {
-    ((2.0 * f32::consts::PI).sqrt() * r).recip() * (-x.powi(2) / (2.0 * r.powi(2))).exp()
+    ((2.0 * f32::consts::PI).sqrt() * r).recip() * (-(x / r).powi(2) / 2.0).exp()
 }
 
 /// Calculate the lanczos kernel with a window of 3
-- 
2.43.0


From 199445fb4778bd195018a76278cad992fa2fe2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:55 +0000
Subject: [PATCH 27/97] fix: fast_blur of wide integer samples must not panic

---
 src/imageops/fast_blur.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/imageops/fast_blur.rs b/src/imageops/fast_blur.rs
index 289aa9b..0cd714d 100644
--- a/src/imageops/fast_blur.rs
+++ b/src/imageops/fast_blur.rs
@@ -99,7 +99,7 @@ fn horizontal_fast_blur_half<P: Primitive>(
             for (channel, channel_val) in vals.iter_mut().enumerate() {
                 let val = *channel_val / (2.0 * r as f32 + 1.0);
                 let val = clamp(val, min_value, max_value);
-                let val = P::from(val).unwrap();
+                let val = P::from(val).unwrap_or(P::DEFAULT_MAX_VALUE);
 
                 let destination_row = column;
                 let destination_column = row;
-- 
2.43.0


From 5087f669932a67aec6dabba94d0fcad76db790c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:35 +0000
Subject: [PATCH 28/97] fix: interpolation at coordinates past 2^24 must stay
 inside the image

---
 src/imageops/sample.rs | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/imageops/sample.rs b/src/imageops/sample.rs
index d55e13e..6cef5da 100644
--- a/src/imageops/sample.rs
+++ b/src/imageops/sample.rs
@@ -381,7 +381,10 @@ pub fn interpolate_nearest<P: Pixel>(
         return None;
     }
 
-    Some(img.get_pixel(x.round() as u32, y.round() as u32))
+    // `w - 1` and `h - 1` may have been rounded up when converted to f32
+    let x = (x.round() as u32).min(w - 1);
+    let y = (y.round() as u32).min(h - 1);
+    Some(img.get_pixel(x, y))
 }
 
 /// Linearly sample from an image using coordinates in [0, w-1] and [0, h-1].
@@ -405,10 +408,11 @@ pub fn interpolate_bilinear<P: Pixel>(
     }
 
     // keep these as integers, for fewer FLOPs
-    let uf = x.floor() as u32;
-    let vf = y.floor() as u32;
-    let uc = (uf + 1).min(w - 1);
-    let vc = (vf + 1).min(h - 1);
+    // `w - 1` and `h - 1` may have been rounded up when converted to f32
+    let uf = (x.floor() as u32).min(w - 1);
+    let vf = (y.floor() as u32).min(h - 1);
+    let uc = uf.saturating_add(1).min(w - 1);
+    let vc = vf.saturating_add(1).min(h - 1);
 
     // clamp coords to the range of the image
     let mut sxx = [[0.; 4]; 4];
@@ -435,10 +439,10 @@ pub fn interpolate_bilinear<P: Pixel>(
     compute(uc, vc, 3);
 
     // weights, the later two are independent from the first 2 for better vectorization.
-    let ufw = x - uf as f32;
-    let vfw = y - vf as f32;
-    let ucw = (uf + 1) as f32 - x;
-    let vcw = (vf + 1) as f32 - y;
+    let ufw = x - x.floor();
+    let vfw = y - y.floor();
+    let ucw = 1. - ufw;
+    let vcw = 1. - vfw;
 
     // https://en.wikipedia.org/wiki/Bilinear_interpolation#Weighted_mean
     // the distance between pixels is 1 so there is no denominator
-- 
2.43.0


From 4fd4a7432c056c510e5cbe2c192bcbfc226532cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:56 +0000
Subject: [PATCH 29/97] fix: resizing an empty image without filling keeps its
 dimensions

---
 src/math/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/utils.rs b/src/math/utils.rs
index a4b8eb8..e950f77 100644
--- a/src/math/utils.rs
+++ b/src/math/utils.rs
@@ -16,7 +16,7 @@ pub(crate) fn resize_dimensions(
     nheight: u32,
     fill: bool,
 ) -> (u32, u32) {
-    if width == 0 || height == 0 {
+    if fill && (width == 0 || height == 0) {
         // An empty image has no aspect ratio to preserve.
         return (max(nwidth, 1), max(nheight, 1));
     }
-- 
2.43.0


From ba63987ffb654fedaf4eec90a807ceaafae9d8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:42 +0000
Subject: [PATCH 30/97] fix: TGA color map indices are little endian

---
 src/codecs/tga/decoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/codecs/tga/decoder.rs b/src/codecs/tga/decoder.rs
index 3ad28e7..bd84293 100644
--- a/src/codecs/tga/decoder.rs
+++ b/src/codecs/tga/decoder.rs
@@ -195,7 +195,7 @@ impl<R: Read> TgaDecoder<R> {
         #[inline]
         fn bytes_to_index(bytes: &[u8]) -> usize {
             let mut result = 0usize;
-            for byte in bytes {
+            for byte in bytes.iter().rev() {
                 result = (result << 8) | *byte as usize;
             }
             result
-- 
2.43.0


From 5d0b366769a177339588c6a1b811414e5f042954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:42 +0000
Subject: [PATCH 31/97] fix: the TGA color map origin is an index, not a byte
 offset

---
 src/codecs/tga/decoder.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/codecs/tga/decoder.rs b/src/codecs/tga/decoder.rs
index bd84293..c24c23b 100644
--- a/src/codecs/tga/decoder.rs
+++ b/src/codecs/tga/decoder.rs
@@ -10,8 +10,9 @@ use byteorder_lite::ReadBytesExt;
 use std::io::{self, Read};
 
 struct ColorMap {
-    /// sizes in bytes
+    /// index of the first entry
     start_offset: usize,
+    /// size in bytes
     entry_size: usize,
     bytes: Vec<u8>,
 }
@@ -37,7 +38,7 @@ impl ColorMap {
 
     /// Get one entry from the color map
     pub(crate) fn get(&self, index: usize) -> Option<&[u8]> {
-        let entry = self.start_offset + self.entry_size * index;
+        let entry = self.entry_size * index.checked_sub(self.start_offset)?;
         self.bytes.get(entry..entry + self.entry_size)
     }
 }
-- 
2.43.0


From e885ff36ca8657e5cb9768b031bb4d0fd62f70a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:42 +0000
Subject: [PATCH 32/97] fix: a truncated TGA run must not invent pixels

---
 src/codecs/tga/decoder.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/codecs/tga/decoder.rs b/src/codecs/tga/decoder.rs
index c24c23b..368c5bd 100644
--- a/src/codecs/tga/decoder.rs
+++ b/src/codecs/tga/decoder.rs
@@ -229,7 +229,7 @@ impl<R: Read> TgaDecoder<R> {
     /// Reads a run length encoded data for given number of bytes
     fn read_encoded_data(&mut self, num_bytes: usize) -> io::Result<Vec<u8>> {
         let mut pixel_data = Vec::with_capacity(num_bytes);
-        let mut repeat_buf = Vec::with_capacity(self.bytes_per_pixel);
+        let mut repeat_buf = vec![0; self.bytes_per_pixel];
 
         while pixel_data.len() < num_bytes {
             let run_packet = self.r.read_u8()?;
@@ -240,10 +240,7 @@ impl<R: Read> TgaDecoder<R> {
             if (run_packet & 0x80) != 0 {
                 // high bit set, so we will repeat the data
                 let repeat_count = ((run_packet & !0x80) + 1) as usize;
-                self.r
-                    .by_ref()
-                    .take(self.bytes_per_pixel as u64)
-                    .read_to_end(&mut repeat_buf)?;
+                self.r.by_ref().read_exact(&mut repeat_buf)?;
 
                 // get the repeating pixels from the bytes of the pixel stored in `repeat_buf`
                 let data = repeat_buf
@@ -251,7 +248,6 @@ impl<R: Read> TgaDecoder<R> {
                     .cycle()
                     .take(repeat_count * self.bytes_per_pixel);
                 pixel_data.extend(data);
-                repeat_buf.clear();
             } else {
                 // not set, so `run_packet+1` is the number of non-encoded pixels
                 let num_raw_bytes = (run_packet + 1) as usize * self.bytes_per_pixel;
-- 
2.43.0


From c78a583c9479f1f171e3896e0e6240eed310624f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:42 +0000
Subject: [PATCH 33/97] fix: a TGA color map does not apply to true color and
 gray images

---
 src/codecs/tga/decoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/codecs/tga/decoder.rs b/src/codecs/tga/decoder.rs
index 368c5bd..c1901fc 100644
--- a/src/codecs/tga/decoder.rs
+++ b/src/codecs/tga/decoder.rs
@@ -122,7 +122,7 @@ impl<R: Read> TgaDecoder<R> {
 
         let num_alpha_bits = self.header.image_desc & ALPHA_BIT_MASK;
 
-        let other_channel_bits = if self.header.map_type != 0 {
+        let other_channel_bits = if self.image_type.is_color_mapped() {
             self.header.map_entry_size
         } else {
             if num_alpha_bits > self.header.pixel_depth {
-- 
2.43.0


From 132c1244690b2bdc64de08f7a5ec4980c4387b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:42 +0000
Subject: [PATCH 34/97] fix: TGA pixels can be stored from right to left

---
 src/codecs/tga/decoder.rs | 24 +++++++++++++++++++++++-
 src/codecs/tga/header.rs  |  1 +
 2 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/codecs/tga/decoder.rs b/src/codecs/tga/decoder.rs
index c1901fc..952bc35 100644
--- a/src/codecs/tga/decoder.rs
+++ b/src/codecs/tga/decoder.rs
@@ -1,4 +1,6 @@
-use super::header::{Header, ImageType, ALPHA_BIT_MASK, SCREEN_ORIGIN_BIT_MASK};
+use super::header::{
+    Header, ImageType, ALPHA_BIT_MASK, RIGHT_TO_LEFT_BIT_MASK, SCREEN_ORIGIN_BIT_MASK,
+};
 use crate::{
     color::{ColorType, ExtendedColorType},
     error::{
@@ -321,6 +323,25 @@ impl<R: Read> TgaDecoder<R> {
         }
     }
 
+    /// Flip the image horizontally if its pixels are stored from right to left
+    ///
+    /// The bit in position 4 of the image descriptor byte is set in that case.
+    fn flip_horizontally(&mut self, pixels: &mut [u8]) {
+        if RIGHT_TO_LEFT_BIT_MASK & self.header.image_desc == 0 || self.width == 0 {
+            return;
+        }
+
+        let num_bytes = usize::from(self.color_type.bytes_per_pixel());
+        for row in pixels.chunks_exact_mut(self.width * num_bytes) {
+            for x in 0..self.width / 2 {
+                let target = (self.width - x - 1) * num_bytes;
+                for byte in 0..num_bytes {
+                    row.swap(x * num_bytes + byte, target + byte);
+                }
+            }
+        }
+    }
+
     /// Check whether the image is vertically flipped
     ///
     /// The bit in position 5 of the image descriptor byte is the screen origin bit.
@@ -392,6 +413,7 @@ impl<R: Read> ImageDecoder for TgaDecoder<R> {
         self.reverse_encoding_in_output(buf);
 
         self.flip_vertically(buf);
+        self.flip_horizontally(buf);
 
         Ok(())
     }
diff --git a/src/codecs/tga/header.rs b/src/codecs/tga/header.rs
index 4dff32e..07badf1 100644
--- a/src/codecs/tga/header.rs
+++ b/src/codecs/tga/header.rs
@@ -5,6 +5,7 @@ use std::io::{Read, Write};
 
 pub(crate) const ALPHA_BIT_MASK: u8 = 0b1111;
 pub(crate) const SCREEN_ORIGIN_BIT_MASK: u8 = 0b10_0000;
+pub(crate) const RIGHT_TO_LEFT_BIT_MASK: u8 = 0b1_0000;
 
 pub(crate) enum ImageType {
     NoImageData = 0,
-- 
2.43.0


From 469877d91ced876568250217d1f6d5cad83b451b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:42 +0000
Subject: [PATCH 35/97] fix: PNM raster sizes must not overflow u32

---
 src/codecs/pnm/decoder.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/codecs/pnm/decoder.rs b/src/codecs/pnm/decoder.rs
index 07f042e..e2fbd92 100644
--- a/src/codecs/pnm/decoder.rs
+++ b/src/codecs/pnm/decoder.rs
@@ -235,7 +235,10 @@ trait Sample {
         size_of::<Self::Representation>() as u32
     }
     fn bytelen(width: u32, height: u32, samples: u32) -> ImageResult<usize> {
-        Ok((width * height * samples * Self::sample_size()) as usize)
+        [height, samples, Self::sample_size()]
+            .into_iter()
+            .try_fold(width as usize, |len, n| len.checked_mul(n as usize))
+            .ok_or_else(|| DecoderError::Overflow.into())
     }
     fn from_bytes(bytes: &[u8], row_size: usize, output_buf: &mut [u8]) -> ImageResult<()>;
     fn from_ascii(reader: &mut dyn Read, output_buf: &mut [u8]) -> ImageResult<()>;
@@ -753,7 +756,9 @@ impl Sample for PbmBit {
     fn bytelen(width: u32, height: u32, samples: u32) -> ImageResult<usize> {
         let count = width * samples;
         let linelen = (count / 8) + u32::from((count % 8) != 0);
-        Ok((linelen * height) as usize)
+        (linelen as usize)
+            .checked_mul(height as usize)
+            .ok_or_else(|| DecoderError::Overflow.into())
     }
 
     fn from_bytes(bytes: &[u8], row_size: usize, output_buf: &mut [u8]) -> ImageResult<()> {
-- 
2.43.0


From 85022f4ec6f9303500e4e2b5d764f6133e7ee110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:42 +0000
Subject: [PATCH 36/97] fix: PAM sample sizes follow MAXVAL when there is no
 tuple type

---
 src/codecs/pnm/decoder.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/codecs/pnm/decoder.rs b/src/codecs/pnm/decoder.rs
index e2fbd92..120edd6 100644
--- a/src/codecs/pnm/decoder.rs
+++ b/src/codecs/pnm/decoder.rs
@@ -841,6 +841,11 @@ impl DecodableImageHeader for ArbitraryHeader {
     fn tuple_type(&self) -> ImageResult<TupleType> {
         match self.tupltype {
             _ if self.maxval == 0 => Err(DecoderError::MaxvalZero.into()),
+            None if (self.depth == 1 || self.depth == 3) && self.maxval > 0xFFFF => {
+                Err(DecoderError::MaxvalTooBig(self.maxval).into())
+            }
+            None if self.depth == 1 && self.maxval > 0xFF => Ok(TupleType::GrayU16),
+            None if self.depth == 3 && self.maxval > 0xFF => Ok(TupleType::RGBU16),
             None if self.depth == 1 => Ok(TupleType::GrayU8),
             None if self.depth == 2 => Err(ImageError::Unsupported(
                 UnsupportedError::from_format_and_kind(
@@ -869,7 +874,7 @@ impl DecodableImageHeader for ArbitraryHeader {
             Some(ArbitraryTuplType::Grayscale) if self.depth == 1 && self.maxval <= 0xFF => {
                 Ok(TupleType::GrayU8)
             }
-            Some(ArbitraryTuplType::Grayscale) if self.depth <= 1 && self.maxval <= 0xFFFF => {
+            Some(ArbitraryTuplType::Grayscale) if self.depth == 1 && self.maxval <= 0xFFFF => {
                 Ok(TupleType::GrayU16)
             }
             Some(ArbitraryTuplType::Grayscale) => Err(DecoderError::InvalidDepthOrMaxval {
-- 
2.43.0


From 61431b2bfac1d7d049339df793557cecbaa696ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:42 +0000
Subject: [PATCH 37/97] fix: a failing reader must not be ignored in PNM
 headers

---
 src/codecs/pnm/decoder.rs | 29 ++++++++++++-----------------
 1 file changed, 12 insertions(+), 17 deletions(-)

diff --git a/src/codecs/pnm/decoder.rs b/src/codecs/pnm/decoder.rs
index 120edd6..466a433 100644
--- a/src/codecs/pnm/decoder.rs
+++ b/src/codecs/pnm/decoder.rs
@@ -372,33 +372,28 @@ trait HeaderReader: Read {
     fn read_next_string(&mut self) -> ImageResult<String> {
         let mut bytes = Vec::new();
 
-        // pair input bytes with a bool mask to remove comments
+        // whether the current byte is part of the header, and not of a comment
+        let mut partof = true;
         #[allow(clippy::unbuffered_bytes)]
-        let mark_comments = self.bytes().scan(true, |partof, read| {
-            let byte = match read {
-                Err(err) => return Some((*partof, Err(err))),
-                Ok(byte) => byte,
-            };
-            let cur_enabled = *partof && byte != b'#';
-            let next_enabled = cur_enabled || (byte == b'\r' || byte == b'\n');
-            *partof = next_enabled;
-            Some((cur_enabled, Ok(byte)))
-        });
-
-        for (_, byte) in mark_comments.filter(|e| e.0) {
+        for byte in self.bytes() {
+            let byte = byte?;
+            let enabled = partof && byte != b'#';
+            partof = enabled || (byte == b'\r' || byte == b'\n');
+            if !enabled {
+                continue;
+            }
             match byte {
-                Ok(b'\t' | b'\n' | b'\x0b' | b'\x0c' | b'\r' | b' ') => {
+                b'\t' | b'\n' | b'\x0b' | b'\x0c' | b'\r' | b' ' => {
                     if !bytes.is_empty() {
                         break; // We're done as we already have some content
                     }
                 }
-                Ok(byte) if !byte.is_ascii() => {
+                byte if !byte.is_ascii() => {
                     return Err(DecoderError::NonAsciiByteInHeader(byte).into())
                 }
-                Ok(byte) => {
+                byte => {
                     bytes.push(byte);
                 }
-                Err(_) => break,
             }
         }
 
-- 
2.43.0


From 80f595aa7b0a41b1eb068a10a61c45e98aa7ec1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:42 +0000
Subject: [PATCH 38/97] fix: missing or unreadable ASCII samples must not
 decode as zero

---
 src/codecs/pnm/decoder.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/codecs/pnm/decoder.rs b/src/codecs/pnm/decoder.rs
index 466a433..c95bc14 100644
--- a/src/codecs/pnm/decoder.rs
+++ b/src/codecs/pnm/decoder.rs
@@ -688,13 +688,15 @@ fn read_separated_ascii<T: TryFrom<u16>>(reader: &mut dyn Read) -> ImageResult<T
     let is_separator = |v: &u8| matches!(*v, b'\t' | b'\n' | b'\x0b' | b'\x0c' | b'\r' | b' ');
 
     let mut v: u16 = 0;
+    let mut is_empty = true;
     #[allow(clippy::unbuffered_bytes)]
     for rc in reader
         .bytes()
         .skip_while(|v| v.as_ref().ok().is_some_and(is_separator))
-        .take_while(|v| v.as_ref().ok().is_some_and(|c| !is_separator(c)))
+        .take_while(|v| !v.as_ref().ok().is_some_and(is_separator))
     {
         let c = rc?;
+        is_empty = false;
         let digit = match c {
             b'0'..=b'9' => (c - b'0') as u16,
             _ => return Err(DecoderError::InvalidDigit(ErrorDataSource::Sample).into()),
@@ -702,6 +704,9 @@ fn read_separated_ascii<T: TryFrom<u16>>(reader: &mut dyn Read) -> ImageResult<T
         v = v.checked_mul(10).ok_or(DecoderError::Overflow)?;
         v = v.checked_add(digit).ok_or(DecoderError::Overflow)?;
     }
+    if is_empty {
+        return Err(DecoderError::InputTooShort.into());
+    }
     Ok(T::try_from(v).or(Err(DecoderError::Overflow))?)
 }
 
-- 
2.43.0


From 45480e76967a6b321521c791203cb351909598ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:42 +0000
Subject: [PATCH 39/97] fix: interrupted reads of a PAM header are retried

---
 src/codecs/pnm/decoder.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/codecs/pnm/decoder.rs b/src/codecs/pnm/decoder.rs
index c95bc14..9fa3039 100644
--- a/src/codecs/pnm/decoder.rs
+++ b/src/codecs/pnm/decoder.rs
@@ -416,11 +416,11 @@ trait HeaderReader: Read {
     fn read_next_line(&mut self) -> ImageResult<String> {
         let mut buffer = Vec::new();
         loop {
-            let mut byte = [0];
-            if self.read(&mut byte)? == 0 || byte[0] == b'\n' {
-                break;
+            #[allow(clippy::unbuffered_bytes)]
+            match self.bytes().next().transpose()? {
+                None | Some(b'\n') => break,
+                Some(byte) => buffer.push(byte),
             }
-            buffer.push(byte[0]);
         }
 
         String::from_utf8(buffer)
-- 
2.43.0


From 7c152d15ec306185585ee8697c08a16b7e54d506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:43 +0000
Subject: [PATCH 40/97] fix: PNM samples within the chosen maximum are
 accepted, others refused

---
 src/codecs/pnm/encoder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/codecs/pnm/encoder.rs b/src/codecs/pnm/encoder.rs
index 4b6cc18..65b868f 100644
--- a/src/codecs/pnm/encoder.rs
+++ b/src/codecs/pnm/encoder.rs
@@ -577,8 +577,8 @@ impl<'a> FlatSamples<'a> {
 
     fn all_smaller(&self, max_val: u32) -> bool {
         match *self {
-            FlatSamples::U8(arr) => arr.iter().any(|&val| u32::from(val) > max_val),
-            FlatSamples::U16(arr) => arr.iter().any(|&val| u32::from(val) > max_val),
+            FlatSamples::U8(arr) => arr.iter().all(|&val| u32::from(val) <= max_val),
+            FlatSamples::U16(arr) => arr.iter().all(|&val| u32::from(val) <= max_val),
         }
     }
 
-- 
2.43.0


From ef078ef85718a5439f99b9c56a3616a1a68c7832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:18 +0000
Subject: [PATCH 41/97] fix: PNM samples are written in the width the header
 announces

---
 src/codecs/pnm/encoder.rs | 37 +++++++++++++++++++++++++++++++++++--
 1 file changed, 35 insertions(+), 2 deletions(-)

diff --git a/src/codecs/pnm/encoder.rs b/src/codecs/pnm/encoder.rs
index 65b868f..1ee1933 100644
--- a/src/codecs/pnm/encoder.rs
+++ b/src/codecs/pnm/encoder.rs
@@ -75,6 +75,8 @@ enum TupleEncoding<'a> {
     },
     Bytes {
         samples: FlatSamples<'a>,
+        /// Samples take two bytes, as they do if the maximum does not fit one.
+        wide: bool,
     },
 }
 
@@ -479,6 +481,12 @@ impl<'a> CheckedHeaderColor<'a> {
             }
         };
 
+        // The samples can be wider than the color type asks for.
+        let max_sample = match image {
+            FlatSamples::U16(_) => std::cmp::max(max_sample, 0xffff),
+            FlatSamples::U8(_) => max_sample,
+        };
+
         // Avoid the performance heavy check if possible, e.g. if the header has been chosen by us.
         if header_maxval < max_sample && !image.all_smaller(header_maxval) {
             // Sample value greater than allowed for chosen header.
@@ -598,7 +606,10 @@ impl<'a> FlatSamples<'a> {
                 ..
             }) => TupleEncoding::Ascii { samples: *self },
 
-            HeaderRecord::Arbitrary(_) => TupleEncoding::Bytes { samples: *self },
+            HeaderRecord::Arbitrary(ArbitraryHeader { maxval, .. }) => TupleEncoding::Bytes {
+                samples: *self,
+                wide: maxval > 0xff,
+            },
 
             HeaderRecord::Graymap(GraymapHeader {
                 encoding: SampleEncoding::Ascii,
@@ -611,12 +622,17 @@ impl<'a> FlatSamples<'a> {
 
             HeaderRecord::Graymap(GraymapHeader {
                 encoding: SampleEncoding::Binary,
+                maxwhite: maxval,
                 ..
             })
             | HeaderRecord::Pixmap(PixmapHeader {
                 encoding: SampleEncoding::Binary,
+                maxval,
                 ..
-            }) => TupleEncoding::Bytes { samples: *self },
+            }) => TupleEncoding::Bytes {
+                samples: *self,
+                wide: maxval > 0xff,
+            },
         }
     }
 }
@@ -651,14 +667,31 @@ impl TupleEncoding<'_> {
 
             TupleEncoding::Bytes {
                 samples: FlatSamples::U8(samples),
+                wide: false,
             } => writer.write_all(samples).map_err(ImageError::IoError),
+            TupleEncoding::Bytes {
+                samples: FlatSamples::U8(samples),
+                wide: true,
+            } => samples.iter().try_for_each(|&sample| {
+                writer
+                    .write_u16::<BigEndian>(sample.into())
+                    .map_err(ImageError::IoError)
+            }),
             TupleEncoding::Bytes {
                 samples: FlatSamples::U16(samples),
+                wide: true,
             } => samples.iter().try_for_each(|&sample| {
                 writer
                     .write_u16::<BigEndian>(sample)
                     .map_err(ImageError::IoError)
             }),
+            TupleEncoding::Bytes {
+                samples: FlatSamples::U16(samples),
+                wide: false,
+            } => samples.iter().try_for_each(|&sample| {
+                // None is larger than the maximum of the header
+                writer.write_u8(sample as u8).map_err(ImageError::IoError)
+            }),
 
             TupleEncoding::Ascii {
                 samples: FlatSamples::U8(samples),
-- 
2.43.0


From e3210639138faae5af9c2349377db82cef542a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:18 +0000
Subject: [PATCH 42/97] fix: ASCII bitmaps encode black as 1

---
 src/codecs/pnm/encoder.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/codecs/pnm/encoder.rs b/src/codecs/pnm/encoder.rs
index 1ee1933..7d19485 100644
--- a/src/codecs/pnm/encoder.rs
+++ b/src/codecs/pnm/encoder.rs
@@ -70,6 +70,9 @@ enum TupleEncoding<'a> {
         samples: FlatSamples<'a>,
         width: u32,
     },
+    PbmAscii {
+        samples: FlatSamples<'a>,
+    },
     Ascii {
         samples: FlatSamples<'a>,
     },
@@ -604,7 +607,7 @@ impl<'a> FlatSamples<'a> {
             HeaderRecord::Bitmap(BitmapHeader {
                 encoding: SampleEncoding::Ascii,
                 ..
-            }) => TupleEncoding::Ascii { samples: *self },
+            }) => TupleEncoding::PbmAscii { samples: *self },
 
             HeaderRecord::Arbitrary(ArbitraryHeader { maxval, .. }) => TupleEncoding::Bytes {
                 samples: *self,
@@ -693,6 +696,18 @@ impl TupleEncoding<'_> {
                 writer.write_u8(sample as u8).map_err(ImageError::IoError)
             }),
 
+            // Black pixels are encoded as 1s
+            TupleEncoding::PbmAscii {
+                samples: FlatSamples::U8(samples),
+            } => SampleWriter(writer)
+                .write_samples_ascii(samples.iter().map(|&v| u8::from(v == 0)))
+                .map_err(ImageError::IoError),
+            TupleEncoding::PbmAscii {
+                samples: FlatSamples::U16(samples),
+            } => SampleWriter(writer)
+                .write_samples_ascii(samples.iter().map(|&v| u8::from(v == 0)))
+                .map_err(ImageError::IoError),
+
             TupleEncoding::Ascii {
                 samples: FlatSamples::U8(samples),
             } => SampleWriter(writer)
-- 
2.43.0


From 3804b5e5f319a10cbe962fafc69c75db1f8b02f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:18 +0000
Subject: [PATCH 43/97] fix: encoding an empty bitmap must not underflow

---
 src/codecs/pnm/encoder.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/codecs/pnm/encoder.rs b/src/codecs/pnm/encoder.rs
index 7d19485..e1a8ce5 100644
--- a/src/codecs/pnm/encoder.rs
+++ b/src/codecs/pnm/encoder.rs
@@ -551,6 +551,10 @@ impl SampleWriter<'_> {
     where
         V: Default + Eq + Copy,
     {
+        if width == 0 {
+            return self.0.flush();
+        }
+
         // The length of an encoded scanline
         let line_width = (width - 1) / 8 + 1;
 
-- 
2.43.0


From e016fd9156d7eba1397f0d3277c22e26e1919843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:47 +0000
Subject: [PATCH 44/97] fix: single bit PNM samples above one are refused

---
 src/codecs/pnm/encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/codecs/pnm/encoder.rs b/src/codecs/pnm/encoder.rs
index e1a8ce5..f8f3163 100644
--- a/src/codecs/pnm/encoder.rs
+++ b/src/codecs/pnm/encoder.rs
@@ -487,7 +487,7 @@ impl<'a> CheckedHeaderColor<'a> {
         // The samples can be wider than the color type asks for.
         let max_sample = match image {
             FlatSamples::U16(_) => std::cmp::max(max_sample, 0xffff),
-            FlatSamples::U8(_) => max_sample,
+            FlatSamples::U8(_) => std::cmp::max(max_sample, 0xff),
         };
 
         // Avoid the performance heavy check if possible, e.g. if the header has been chosen by us.
-- 
2.43.0


From 92a8cced956a39dfcdb52711472eb96a00e8d708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:59 +0000
Subject: [PATCH 45/97] fix: interrupted reads of an HDR header are retried

---
 src/codecs/hdr/decoder.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/codecs/hdr/decoder.rs b/src/codecs/hdr/decoder.rs
index 08f8483..73bacad 100644
--- a/src/codecs/hdr/decoder.rs
+++ b/src/codecs/hdr/decoder.rs
@@ -688,7 +688,11 @@ fn read_line_u8<R: Read>(r: &mut R) -> io::Result<Option<Vec<u8>>> {
     let mut ret = Vec::with_capacity(16);
     loop {
         let mut byte = [0];
-        if r.read(&mut byte)? == 0 || byte[0] == b'\n' {
+        let count = match r.read(&mut byte) {
+            Err(e) if e.kind() == io::ErrorKind::Interrupted => continue,
+            result => result?,
+        };
+        if count == 0 || byte[0] == b'\n' {
             if ret.is_empty() && byte[0] != b'\n' {
                 return Ok(None);
             } else {
-- 
2.43.0


From d718eeddd98aefc57ad32b0c600acf32d08775fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:59 +0000
Subject: [PATCH 46/97] fix: consecutive HDR run markers must not overflow the
 run length

---
 src/codecs/hdr/decoder.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/codecs/hdr/decoder.rs b/src/codecs/hdr/decoder.rs
index 73bacad..adc5aa6 100644
--- a/src/codecs/hdr/decoder.rs
+++ b/src/codecs/hdr/decoder.rs
@@ -426,15 +426,16 @@ fn decode_old_rle<R: Read>(r: &mut R, fb: Rgbe8Pixel, buf: &mut [Rgbe8Pixel]) ->
         x_off += {
             if let Some(rl) = rl_marker(pix) {
                 // rl_mult takes care of consecutive RL markers
-                let rl = rl * rl_mult;
-                rl_mult *= 256;
-                if x_off + rl <= width {
+                let rl = rl.saturating_mul(rl_mult);
+                rl_mult = rl_mult.saturating_mul(256);
+                if rl <= width - x_off {
                     // do run
                     for b in &mut buf[x_off..x_off + rl] {
                         *b = prev_pixel;
                     }
                 } else {
-                    return Err(DecoderError::WrongScanlineLength(x_off + rl, width).into());
+                    let len = x_off.saturating_add(rl);
+                    return Err(DecoderError::WrongScanlineLength(len, width).into());
                 };
                 rl // value to increase x_off by
             } else {
-- 
2.43.0


From 6c85b99495ff4e81f2d685e419e0c7bf6685b5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:59 +0000
Subject: [PATCH 47/97] fix: narrow and very wide HDR scanlines have no per
 component run marker

---
 src/codecs/hdr/decoder.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/codecs/hdr/decoder.rs b/src/codecs/hdr/decoder.rs
index adc5aa6..ce12ad1 100644
--- a/src/codecs/hdr/decoder.rs
+++ b/src/codecs/hdr/decoder.rs
@@ -326,7 +326,8 @@ fn read_scanline<R: Read>(r: &mut R, buf: &mut [Rgbe8Pixel]) -> ImageResult<()>
     let width = buf.len();
     // first 4 bytes in scanline allow to determine compression method
     let fb = read_rgbe(r)?;
-    if fb.c[0] == 2 && fb.c[1] == 2 && fb.c[2] < 128 {
+    if (8..0x8000).contains(&width) && fb.c[0] == 2 && fb.c[1] == 2 && fb.c[2] < 128 {
+        // only scanlines of these lengths can be run length encoded per component:
         // denormalized pixel value (2,2,<128,_) indicates new per component RLE method
         // decode_component guarantees that offset is within 0 .. width
         // therefore we can skip bounds checking here, but we will not
-- 
2.43.0


From d0893c07662d421c482d525268e01a96ce5e1533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:59 +0000
Subject: [PATCH 48/97] fix: HDR scanlines of 32768 pixels cannot be run length
 encoded

---
 src/codecs/hdr/encoder.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/codecs/hdr/encoder.rs b/src/codecs/hdr/encoder.rs
index 9358cda..9583cfc 100644
--- a/src/codecs/hdr/encoder.rs
+++ b/src/codecs/hdr/encoder.rs
@@ -70,8 +70,9 @@ impl<W: Write> HdrEncoder<W> {
         w.write_all(b"FORMAT=32-bit_rle_rgbe\n\n")?;
         w.write_all(format!("-Y {height} +X {width}\n").as_bytes())?;
 
-        if !(8..=32_768).contains(&width) {
-            for pixel in flattened_rgbe_pixels {
+        // the marker has 15 bits for the width
+        if !(8..0x8000).contains(&width) {
+            for pixel in flattened_rgbe_pixels.take(width * height) {
                 write_rgbe8(w, pixel)?;
             }
         } else {
-- 
2.43.0


From ff4c26dc345f4bc6d2f5ac53f972cb1a309aadc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:59 +0000
Subject: [PATCH 49/97] fix: HDR samples outside the exponent range must not
 wrap around

---
 src/codecs/hdr/encoder.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/codecs/hdr/encoder.rs b/src/codecs/hdr/encoder.rs
index 9583cfc..595f654 100644
--- a/src/codecs/hdr/encoder.rs
+++ b/src/codecs/hdr/encoder.rs
@@ -279,11 +279,15 @@ fn write_rgbe8<W: Write>(w: &mut W, v: Rgbe8Pixel) -> Result<()> {
 pub(crate) fn to_rgbe8(pix: Rgb<f32>) -> Rgbe8Pixel {
     let pix = pix.0;
     let mx = f32::max(pix[0], f32::max(pix[1], pix[2]));
-    if mx <= 0.0 {
+    // values below the smallest exponent are black, those above the largest saturate
+    if mx < f32::MIN_POSITIVE / 4.0 {
         Rgbe8Pixel { c: [0, 0, 0], e: 0 }
     } else {
         // let (frac, exp) = mx.frexp(); // unstable yet
-        let exp = mx.log2().floor() as i32 + 1;
+        let mut exp = (mx.log2().floor() as i32).min(126) + 1;
+        if mx < f32::powi(2.0, exp - 1) {
+            exp -= 1; // the logarithm was rounded up
+        }
         let mul = f32::powi(2.0, exp);
         let mut conv = [0u8; 3];
         for (cv, &sv) in conv.iter_mut().zip(pix.iter()) {
-- 
2.43.0


From edcf75c0624410ad9c829b20a067dc18021e43ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:59 +0000
Subject: [PATCH 50/97] fix: the HDR encoder must refuse buffers of the wrong
 length

---
 src/codecs/hdr/encoder.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/codecs/hdr/encoder.rs b/src/codecs/hdr/encoder.rs
index 595f654..5abde86 100644
--- a/src/codecs/hdr/encoder.rs
+++ b/src/codecs/hdr/encoder.rs
@@ -20,6 +20,14 @@ impl<W: Write> ImageEncoder for HdrEncoder<W> {
     ) -> ImageResult<()> {
         match color_type {
             ExtendedColorType::Rgb32F => {
+                let expected_buffer_len = color_type.buffer_size(width, height);
+                assert_eq!(
+                    expected_buffer_len,
+                    unaligned_bytes.len() as u64,
+                    "Invalid buffer length: expected {expected_buffer_len} got {} for {width}x{height} image",
+                    unaligned_bytes.len(),
+                );
+
                 let bytes_per_pixel = color_type.bits_per_pixel() as usize / 8;
                 let rgbe_pixels = unaligned_bytes
                     .chunks_exact(bytes_per_pixel)
-- 
2.43.0


From 0c0e24cd1c11d0e4f35ffab6b800adc32f5001ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:21 +0000
Subject: [PATCH 51/97] fix: BMP palette indices of less than 8 bits, run
 length encoded or without palette

---
 src/codecs/bmp/decoder.rs | 78 +++++++++++++++++++--------------------
 1 file changed, 38 insertions(+), 40 deletions(-)

diff --git a/src/codecs/bmp/decoder.rs b/src/codecs/bmp/decoder.rs
index 109470c..4e40411 100644
--- a/src/codecs/bmp/decoder.rs
+++ b/src/codecs/bmp/decoder.rs
@@ -292,6 +292,15 @@ where
     Ok(())
 }
 
+/// Set a pixel to its palette color, or to the palette index when decoding to indices.
+#[inline]
+fn set_palette_pixel(pixel: &mut [u8], palette: &[[u8; 3]], index: u8) {
+    match pixel {
+        [pixel] => *pixel = index,
+        _ => pixel[..3].copy_from_slice(&palette[index as usize]),
+    }
+}
+
 fn set_8bit_pixel_run<'a, T: Iterator<Item = &'a u8>>(
     pixel_iter: &mut ChunksMut<u8>,
     palette: &[[u8; 3]],
@@ -300,10 +309,7 @@ fn set_8bit_pixel_run<'a, T: Iterator<Item = &'a u8>>(
 ) -> bool {
     for idx in indices.take(n_pixels) {
         if let Some(pixel) = pixel_iter.next() {
-            let rgb = palette[*idx as usize];
-            pixel[0] = rgb[0];
-            pixel[1] = rgb[1];
-            pixel[2] = rgb[2];
+            set_palette_pixel(pixel, palette, *idx);
         } else {
             return false;
         }
@@ -324,10 +330,7 @@ fn set_4bit_pixel_run<'a, T: Iterator<Item = &'a u8>>(
                     break;
                 }
                 if let Some(pixel) = pixel_iter.next() {
-                    let rgb = palette[$i as usize];
-                    pixel[0] = rgb[0];
-                    pixel[1] = rgb[1];
-                    pixel[2] = rgb[2];
+                    set_palette_pixel(pixel, palette, $i);
                 } else {
                     return false;
                 }
@@ -354,10 +357,7 @@ fn set_2bit_pixel_run<'a, T: Iterator<Item = &'a u8>>(
                     break;
                 }
                 if let Some(pixel) = pixel_iter.next() {
-                    let rgb = palette[$i as usize];
-                    pixel[0] = rgb[0];
-                    pixel[1] = rgb[1];
-                    pixel[2] = rgb[2];
+                    set_palette_pixel(pixel, palette, $i);
                 } else {
                     return false;
                 }
@@ -381,10 +381,7 @@ fn set_1bit_pixel_run<'a, T: Iterator<Item = &'a u8>>(
         let mut bit = 0x80;
         loop {
             if let Some(pixel) = pixel_iter.next() {
-                let rgb = palette[usize::from((idx & bit) != 0)];
-                pixel[0] = rgb[0];
-                pixel[1] = rgb[1];
-                pixel[2] = rgb[2];
+                set_palette_pixel(pixel, palette, u8::from((idx & bit) != 0));
             } else {
                 return;
             }
@@ -547,7 +544,8 @@ impl<R: BufRead + Seek> BmpDecoder<R> {
     }
 
     /// If true, the palette in BMP does not apply to the image even if it is found.
-    /// In other words, the output image is the indexed color.
+    /// In other words, the output image is the indexed color. Images without a palette are not
+    /// affected.
     pub fn set_indexed_color(&mut self, indexed_color: bool) {
         self.indexed_color = indexed_color;
     }
@@ -923,8 +921,13 @@ impl<R: BufRead + Seek> BmpDecoder<R> {
         self.palette.as_ref().map(|vec| &vec[..])
     }
 
+    /// Only images with a palette can be decoded to its indices.
+    fn decodes_to_indices(&self) -> bool {
+        self.indexed_color && self.palette.is_some()
+    }
+
     fn num_channels(&self) -> usize {
-        if self.indexed_color {
+        if self.decodes_to_indices() {
             1
         } else if self.add_alpha_channel {
             4
@@ -954,7 +957,6 @@ impl<R: BufRead + Seek> BmpDecoder<R> {
         let bit_count = self.bit_count;
         let reader = &mut self.reader;
         let width = self.width as usize;
-        let skip_palette = self.indexed_color;
 
         reader.seek(SeekFrom::Start(self.data_offset))?;
 
@@ -970,26 +972,22 @@ impl<R: BufRead + Seek> BmpDecoder<R> {
             self.top_down,
             |row| {
                 reader.read_exact(&mut indices)?;
-                if skip_palette {
-                    row.clone_from_slice(&indices[0..width]);
-                } else {
-                    let mut pixel_iter = row.chunks_mut(num_channels);
-                    match bit_count {
-                        1 => {
-                            set_1bit_pixel_run(&mut pixel_iter, palette, indices.iter());
-                        }
-                        2 => {
-                            set_2bit_pixel_run(&mut pixel_iter, palette, indices.iter(), width);
-                        }
-                        4 => {
-                            set_4bit_pixel_run(&mut pixel_iter, palette, indices.iter(), width);
-                        }
-                        8 => {
-                            set_8bit_pixel_run(&mut pixel_iter, palette, indices.iter(), width);
-                        }
-                        _ => panic!(),
-                    };
-                }
+                let mut pixel_iter = row.chunks_mut(num_channels);
+                match bit_count {
+                    1 => {
+                        set_1bit_pixel_run(&mut pixel_iter, palette, indices.iter());
+                    }
+                    2 => {
+                        set_2bit_pixel_run(&mut pixel_iter, palette, indices.iter(), width);
+                    }
+                    4 => {
+                        set_4bit_pixel_run(&mut pixel_iter, palette, indices.iter(), width);
+                    }
+                    8 => {
+                        set_8bit_pixel_run(&mut pixel_iter, palette, indices.iter(), width);
+                    }
+                    _ => panic!(),
+                };
                 Ok(())
             },
         )?;
@@ -1330,7 +1328,7 @@ impl<R: BufRead + Seek> ImageDecoder for BmpDecoder<R> {
     }
 
     fn color_type(&self) -> ColorType {
-        if self.indexed_color {
+        if self.decodes_to_indices() {
             ColorType::L8
         } else if self.add_alpha_channel {
             ColorType::Rgba8
-- 
2.43.0


From 0f72130ee69f3c4cd3310d9ecf5379543ae69728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:21 +0000
Subject: [PATCH 52/97] fix: run length encoded BMP pixels are opaque inside an
 ICO

---
 src/codecs/bmp/decoder.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/codecs/bmp/decoder.rs b/src/codecs/bmp/decoder.rs
index 4e40411..71bfe25 100644
--- a/src/codecs/bmp/decoder.rs
+++ b/src/codecs/bmp/decoder.rs
@@ -1136,6 +1136,10 @@ impl<R: BufRead + Seek> BmpDecoder<R> {
         let num_channels = self.num_channels();
         let p = self.palette.as_ref().unwrap();
 
+        if num_channels == 4 {
+            buf.chunks_exact_mut(4).for_each(|c| c[3] = 0xFF);
+        }
+
         // Handling deltas in the RLE scheme means that we need to manually
         // iterate through rows and pixels.  Even if we didn't have to handle
         // deltas, we have to ensure that a single runlength doesn't straddle
-- 
2.43.0


From 7ec04f863a54420618877af988bdf1dfd8bcffd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:56 +0000
Subject: [PATCH 53/97] fix: frame iteration ends after an error

---
 src/animation.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/animation.rs b/src/animation.rs
index f6dac64..421668b 100644
--- a/src/animation.rs
+++ b/src/animation.rs
@@ -7,13 +7,18 @@ use crate::RgbaImage;
 /// An implementation dependent iterator, reading the frames as requested
 pub struct Frames<'a> {
     iterator: Box<dyn Iterator<Item = ImageResult<Frame>> + 'a>,
+    /// Set once the iterator has returned `None` or an error.
+    finished: bool,
 }
 
 impl<'a> Frames<'a> {
     /// Creates a new `Frames` from an implementation specific iterator.
     #[must_use]
     pub fn new(iterator: Box<dyn Iterator<Item = ImageResult<Frame>> + 'a>) -> Self {
-        Frames { iterator }
+        Frames {
+            iterator,
+            finished: false,
+        }
     }
 
     /// Steps through the iterator from the current frame until the end and pushes each frame into
@@ -30,7 +35,15 @@ impl Iterator for Frames<'_> {
     type Item = ImageResult<Frame>;
 
     fn next(&mut self) -> Option<ImageResult<Frame>> {
-        self.iterator.next()
+        if self.finished {
+            return None;
+        }
+
+        let frame = self.iterator.next();
+        // The decoders can not resume after an error. Polling them further may return the same
+        // error over and over again.
+        self.finished = !matches!(frame, Some(Ok(_)));
+        frame
     }
 }
 
-- 
2.43.0


From 2e0e7a56086ee447737947ee1bb455bcda3c128f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:42 +0000
Subject: [PATCH 54/97] fix: no overflow for delays at the maximum duration

---
 src/animation.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/animation.rs b/src/animation.rs
index 421668b..bdcbd0d 100644
--- a/src/animation.rs
+++ b/src/animation.rs
@@ -183,7 +183,10 @@ impl Delay {
 
         const MILLIS_BOUND: u128 = u32::MAX as u128;
 
-        let millis = duration.as_millis().min(MILLIS_BOUND);
+        let millis = duration.as_millis();
+        if millis >= MILLIS_BOUND {
+            return Self::from_numer_denom_ms(u32::MAX, 1);
+        }
         let submillis = (duration.as_nanos() % 1_000_000) as u32;
 
         let max_b = if millis > 0 {
-- 
2.43.0


From f985d467862180a19d5281c0560792ede764a71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:42 +0000
Subject: [PATCH 55/97] fix: APNG dispose to previous restores the background
 of a disposed frame

---
 src/codecs/png.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/codecs/png.rs b/src/codecs/png.rs
index de6cfbd..553a7b6 100644
--- a/src/codecs/png.rs
+++ b/src/codecs/png.rs
@@ -320,7 +320,6 @@ impl<R: BufRead + Seek> ApngDecoder<R> {
                 previous.clone_from(current);
             }
             DisposeOp::Background => {
-                previous.clone_from(current);
                 if let Some((px, py, width, height)) = self.dispose_region {
                     let mut region_current = current.sub_image(px, py, width, height);
 
@@ -336,6 +335,8 @@ impl<R: BufRead + Seek> ApngDecoder<R> {
                         *pixel = Rgba::from([0, 0, 0, 0]);
                     });
                 }
+                // A following frame disposed to its previous content restores the cleared region.
+                previous.clone_from(current);
             }
             DisposeOp::Previous => {
                 let (px, py, width, height) = self
-- 
2.43.0


From fcf29481d6e8a9cdfb254998d987f94a712c3eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:42 +0000
Subject: [PATCH 56/97] fix: GIF encoder keeps all fully transparent pixels
 transparent

---
 src/codecs/gif.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/codecs/gif.rs b/src/codecs/gif.rs
index f67a161..fa090c4 100644
--- a/src/codecs/gif.rs
+++ b/src/codecs/gif.rs
@@ -494,7 +494,9 @@ impl<W: Write> GifEncoder<W> {
         match color {
             ExtendedColorType::Rgb8 => self.encode_gif(Frame::from_rgb(width, height, data)),
             ExtendedColorType::Rgba8 => {
-                self.encode_gif(Frame::from_rgba(width, height, &mut data.to_owned()))
+                let mut data = data.to_owned();
+                clear_transparent_pixels(&mut data);
+                self.encode_gif(Frame::from_rgba(width, height, &mut data))
             }
             _ => Err(ImageError::Unsupported(
                 UnsupportedError::from_format_and_kind(
@@ -546,6 +548,8 @@ impl<W: Write> GifEncoder<W> {
         let mut rbga_frame = img_frame.into_buffer();
         let (width, height) = self.gif_dimensions(rbga_frame.width(), rbga_frame.height())?;
 
+        clear_transparent_pixels(&mut rbga_frame);
+
         // Create the gif::Frame from the animation::Frame
         let mut frame = Frame::from_rgba_speed(width, height, &mut rbga_frame, self.speed);
         // Saturate the conversion to u16::MAX instead of returning an error as that
@@ -597,6 +601,17 @@ impl<W: Write> GifEncoder<W> {
     }
 }
 
+/// Set all fully transparent pixels to the same color.
+///
+/// Only one entry of the palette can be transparent.
+fn clear_transparent_pixels(rgba: &mut [u8]) {
+    for pixel in rgba.chunks_exact_mut(4) {
+        if pixel[3] == 0 {
+            pixel.fill(0);
+        }
+    }
+}
+
 impl ImageError {
     fn from_decoding(err: gif::DecodingError) -> ImageError {
         use gif::DecodingError::*;
-- 
2.43.0


From 00b558db163b33d33d4e1349a7cf1cecd6d6d2ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:42 +0000
Subject: [PATCH 57/97] fix: GIF frames whose buffer has spare capacity can be
 encoded

---
 src/codecs/gif.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/codecs/gif.rs b/src/codecs/gif.rs
index fa090c4..a5b9595 100644
--- a/src/codecs/gif.rs
+++ b/src/codecs/gif.rs
@@ -547,11 +547,12 @@ impl<W: Write> GifEncoder<W> {
         // convert img_frame into RgbaImage
         let mut rbga_frame = img_frame.into_buffer();
         let (width, height) = self.gif_dimensions(rbga_frame.width(), rbga_frame.height())?;
+        let rbga_frame = rbga_frame.inner_pixels_mut();
 
-        clear_transparent_pixels(&mut rbga_frame);
+        clear_transparent_pixels(rbga_frame);
 
         // Create the gif::Frame from the animation::Frame
-        let mut frame = Frame::from_rgba_speed(width, height, &mut rbga_frame, self.speed);
+        let mut frame = Frame::from_rgba_speed(width, height, rbga_frame, self.speed);
         // Saturate the conversion to u16::MAX instead of returning an error as that
         // would require a new special cased variant in ParameterErrorKind which most
         // likely couldn't be reused for other cases. This isn't a bad trade-off given
-- 
2.43.0


From 2a4abb1f3cd17ee42850cbd23c3ea7085bf323a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:25 +0000
Subject: [PATCH 58/97] fix: TIFF encoder takes 16 bit samples at any address

---
 src/codecs/tiff.rs | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/codecs/tiff.rs b/src/codecs/tiff.rs
index 9a46a79..602d41e 100644
--- a/src/codecs/tiff.rs
+++ b/src/codecs/tiff.rs
@@ -8,6 +8,7 @@
 
 extern crate tiff;
 
+use std::borrow::Cow;
 use std::io::{self, BufRead, Cursor, Read, Seek, Write};
 use std::marker::PhantomData;
 use std::mem;
@@ -313,17 +314,24 @@ fn cmyk_to_rgb(cmyk: &[u8]) -> [u8; 3] {
 }
 
 // Utility to simplify and deduplicate error handling during 16-bit encoding.
-fn u8_slice_as_u16(buf: &[u8]) -> ImageResult<&[u16]> {
-    bytemuck::try_cast_slice(buf).map_err(|err| {
-        // If the buffer is not aligned or the correct length for a u16 slice, err.
+fn u8_slice_as_u16(buf: &[u8]) -> ImageResult<Cow<'_, [u16]>> {
+    match bytemuck::try_cast_slice(buf) {
+        Ok(samples) => Ok(Cow::Borrowed(samples)),
+        // The caller's bytes need not be aligned like the samples are.
+        Err(bytemuck::PodCastError::TargetAlignmentGreaterAndInputNotAligned) => Ok(Cow::Owned(
+            buf.chunks_exact(2)
+                .map(|sample| u16::from_ne_bytes([sample[0], sample[1]]))
+                .collect(),
+        )),
+        // If the buffer is not the correct length for a u16 slice, err.
         //
         // `bytemuck::PodCastError` of bytemuck-1.2.0 does not implement
         // `Error` and `Display` trait.
         // See <https://github.com/Lokathor/bytemuck/issues/22>.
-        ImageError::Parameter(ParameterError::from_kind(ParameterErrorKind::Generic(
-            format!("{err:?}"),
-        )))
-    })
+        Err(err) => Err(ImageError::Parameter(ParameterError::from_kind(
+            ParameterErrorKind::Generic(format!("{err:?}")),
+        ))),
+    }
 }
 
 impl<W: Write + Seek> TiffEncoder<W> {
@@ -370,17 +378,17 @@ impl<W: Write + Seek> TiffEncoder<W> {
             ExtendedColorType::L16 => encoder.write_image::<tiff::encoder::colortype::Gray16>(
                 width,
                 height,
-                u8_slice_as_u16(buf)?,
+                &u8_slice_as_u16(buf)?,
             ),
             ExtendedColorType::Rgb16 => encoder.write_image::<tiff::encoder::colortype::RGB16>(
                 width,
                 height,
-                u8_slice_as_u16(buf)?,
+                &u8_slice_as_u16(buf)?,
             ),
             ExtendedColorType::Rgba16 => encoder.write_image::<tiff::encoder::colortype::RGBA16>(
                 width,
                 height,
-                u8_slice_as_u16(buf)?,
+                &u8_slice_as_u16(buf)?,
             ),
             _ => {
                 return Err(ImageError::Unsupported(
-- 
2.43.0


From 0bf4132ea749743b8dccc5e2f0b0807b7c4fac4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:32 +0000
Subject: [PATCH 59/97] fix: JPEG encode_image refuses images that are not of 8
 bit samples

---
 src/codecs/jpeg/encoder.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/codecs/jpeg/encoder.rs b/src/codecs/jpeg/encoder.rs
index d61951a..2882a8c 100644
--- a/src/codecs/jpeg/encoder.rs
+++ b/src/codecs/jpeg/encoder.rs
@@ -492,6 +492,21 @@ impl<W: Write> JpegEncoder<W> {
         let color_type = I::Pixel::COLOR_TYPE;
         let num_components = if n == 1 || n == 2 { 1 } else { 3 };
 
+        if !matches!(
+            color_type,
+            ExtendedColorType::L8
+                | ExtendedColorType::La8
+                | ExtendedColorType::Rgb8
+                | ExtendedColorType::Rgba8
+        ) {
+            return Err(ImageError::Unsupported(
+                UnsupportedError::from_format_and_kind(
+                    ImageFormat::Jpeg.into(),
+                    UnsupportedErrorKind::Color(color_type),
+                ),
+            ));
+        }
+
         self.writer.write_marker(SOI)?;
 
         let mut buf = Vec::new();
-- 
2.43.0


From 7fc850f8a79cd46edfdbe3a54c293ea53920eb7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:43 +0000
Subject: [PATCH 60/97] fix: boxed decoders report the orientation of the
 decoder inside

---
 src/image.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/image.rs b/src/image.rs
index 23461a2..650e312 100644
--- a/src/image.rs
+++ b/src/image.rs
@@ -749,6 +749,9 @@ impl<T: ?Sized + ImageDecoder> ImageDecoder for Box<T> {
     fn exif_metadata(&mut self) -> ImageResult<Option<Vec<u8>>> {
         (**self).exif_metadata()
     }
+    fn orientation(&mut self) -> ImageResult<Orientation> {
+        (**self).orientation()
+    }
     fn total_bytes(&self) -> u64 {
         (**self).total_bytes()
     }
-- 
2.43.0


From d600862687a4cc19a5453e140baa655bfad31d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:08 +0000
Subject: [PATCH 61/97] fix: read_rect refuses buffers too small for the rows
 at the given pitch

---
 src/image.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/image.rs b/src/image.rs
index 650e312..661c96c 100644
--- a/src/image.rs
+++ b/src/image.rs
@@ -582,6 +582,19 @@ where
                 ParameterErrorKind::DimensionMismatch,
             )));
         }
+        // The last row does not have to be padded to the full pitch.
+        let rect_row_bytes = width * bytes_per_pixel;
+        let pitched_bytes = row_pitch
+            .saturating_mul(height - 1)
+            .saturating_add(rect_row_bytes);
+        assert!(
+            row_pitch >= rect_row_bytes && buf.len() as u64 >= pitched_bytes,
+            "output buffer or row pitch too small\n expected `{}` bytes with rows of `{}`, provided `{}` with a pitch of `{}`",
+            pitched_bytes,
+            rect_row_bytes,
+            buf.len(),
+            row_pitch,
+        );
         if scanline_bytes > usize::MAX as u64 {
             return Err(ImageError::Limits(LimitError::from_kind(
                 LimitErrorKind::InsufficientMemory,
-- 
2.43.0


From d4c6e8bb1c038070b6a4a8811ea81ff03c9d691c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:31 +0000
Subject: [PATCH 62/97] fix: GIF pixels outside of the palette do not keep
 previous buffer content

---
 src/codecs/gif.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/codecs/gif.rs b/src/codecs/gif.rs
index a5b9595..bfd5694 100644
--- a/src/codecs/gif.rs
+++ b/src/codecs/gif.rs
@@ -153,7 +153,9 @@ impl<R: BufRead + Seek> ImageDecoder for GifDecoder<R> {
             for b in blank_top {
                 *b = 0;
             }
-            // fill the middle section with the frame data
+            // fill the middle section with the frame data; pixels whose index is not in
+            // the palette are left as they are by the reader
+            buf.fill(0);
             self.reader
                 .read_into_buffer(buf)
                 .map_err(ImageError::from_decoding)?;
-- 
2.43.0


From 4659afd41baef3fce2cdad664e1d65a2ac4e0c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:01 +0000
Subject: [PATCH 63/97] fix: QOI decoder refuses buffers of the wrong size

---
 src/codecs/qoi.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/codecs/qoi.rs b/src/codecs/qoi.rs
index f42d21a..c3b81eb 100644
--- a/src/codecs/qoi.rs
+++ b/src/codecs/qoi.rs
@@ -35,6 +35,7 @@ impl<R: Read> ImageDecoder for QoiDecoder<R> {
     }
 
     fn read_image(mut self, buf: &mut [u8]) -> ImageResult<()> {
+        assert_eq!(u64::try_from(buf.len()), Ok(self.total_bytes()));
         self.decoder.decode_to_buf(buf).map_err(decoding_error)?;
         Ok(())
     }
-- 
2.43.0


From 9010a648dbff909ed8981d4dd74017e82c78cba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:01 +0000
Subject: [PATCH 64/97] fix: damaged JPEG images do not expose previous buffer
 content

---
 src/codecs/jpeg/decoder.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/codecs/jpeg/decoder.rs b/src/codecs/jpeg/decoder.rs
index b98d247..4e1b283 100644
--- a/src/codecs/jpeg/decoder.rs
+++ b/src/codecs/jpeg/decoder.rs
@@ -117,6 +117,9 @@ impl<R: BufRead + Seek> ImageDecoder for JpegDecoder<R> {
             )));
         }
 
+        // Damaged or incomplete scans do not cover all of the image.
+        buf.fill(0);
+
         let mut decoder = new_zune_decoder(&self.input, self.orig_color_space, self.limits);
         decoder.decode_into(buf).map_err(ImageError::from_jpeg)?;
         Ok(())
-- 
2.43.0


From 17fa598df3e3e59d6a570ee9d7e3669566eefb0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:29 +0000
Subject: [PATCH 65/97] fix: OpenEXR reports errors of the underlying stream as
 such

---
 src/codecs/openexr.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/codecs/openexr.rs b/src/codecs/openexr.rs
index 40a9875..ff2466c 100644
--- a/src/codecs/openexr.rs
+++ b/src/codecs/openexr.rs
@@ -324,10 +324,13 @@ where
 }
 
 fn to_image_err(exr_error: Error) -> ImageError {
-    ImageError::Decoding(DecodingError::new(
-        ImageFormatHint::Exact(ImageFormat::OpenExr),
-        exr_error.to_string(),
-    ))
+    match exr_error {
+        Error::Io(error) => ImageError::IoError(error),
+        error => ImageError::Decoding(DecodingError::new(
+            ImageFormatHint::Exact(ImageFormat::OpenExr),
+            error.to_string(),
+        )),
+    }
 }
 
 #[cfg(test)]
-- 
2.43.0


From a587c5217541737db89cf0fbdd5ca607bc31b93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:29 +0000
Subject: [PATCH 66/97] fix: QOI decoder reports errors of the underlying
 stream as such

---
 src/codecs/qoi.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/codecs/qoi.rs b/src/codecs/qoi.rs
index c3b81eb..6fdb759 100644
--- a/src/codecs/qoi.rs
+++ b/src/codecs/qoi.rs
@@ -46,7 +46,10 @@ impl<R: Read> ImageDecoder for QoiDecoder<R> {
 }
 
 fn decoding_error(error: qoi::Error) -> ImageError {
-    ImageError::Decoding(DecodingError::new(ImageFormat::Qoi.into(), error))
+    match error {
+        qoi::Error::IoError(error) => ImageError::IoError(error),
+        error => ImageError::Decoding(DecodingError::new(ImageFormat::Qoi.into(), error)),
+    }
 }
 
 fn encoding_error(error: qoi::Error) -> ImageError {
-- 
2.43.0


From d5aa5a5393b116fb47c8b70ac82772f161b40c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:29 +0000
Subject: [PATCH 67/97] fix: farbfeld decoder reports errors of the underlying
 stream as such

---
 src/codecs/farbfeld.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/codecs/farbfeld.rs b/src/codecs/farbfeld.rs
index 32fdbc9..fe84287 100644
--- a/src/codecs/farbfeld.rs
+++ b/src/codecs/farbfeld.rs
@@ -39,16 +39,12 @@ impl<R: Read> FarbfeldReader<R> {
     fn new(mut buffered_read: R) -> ImageResult<FarbfeldReader<R>> {
         fn read_dimm<R: Read>(from: &mut R) -> ImageResult<u32> {
             let mut buf = [0u8; 4];
-            from.read_exact(&mut buf).map_err(|err| {
-                ImageError::Decoding(DecodingError::new(ImageFormat::Farbfeld.into(), err))
-            })?;
+            from.read_exact(&mut buf).map_err(header_error)?;
             Ok(u32::from_be_bytes(buf))
         }
 
         let mut magic = [0u8; 8];
-        buffered_read.read_exact(&mut magic).map_err(|err| {
-            ImageError::Decoding(DecodingError::new(ImageFormat::Farbfeld.into(), err))
-        })?;
+        buffered_read.read_exact(&mut magic).map_err(header_error)?;
         if &magic != b"farbfeld" {
             return Err(ImageError::Decoding(DecodingError::new(
                 ImageFormat::Farbfeld.into(),
@@ -166,6 +162,16 @@ impl<R: Read + Seek> Seek for FarbfeldReader<R> {
     }
 }
 
+/// A header that is cut short is malformed, other errors are those of the underlying stream.
+fn header_error(err: io::Error) -> ImageError {
+    match err.kind() {
+        io::ErrorKind::UnexpectedEof => {
+            ImageError::Decoding(DecodingError::new(ImageFormat::Farbfeld.into(), err))
+        }
+        _ => ImageError::IoError(err),
+    }
+}
+
 fn consume_channel<R: Read>(from: &mut R, mut to: &mut [u8]) -> io::Result<()> {
     let mut ibuf = [0u8; 2];
     from.read_exact(&mut ibuf)?;
-- 
2.43.0


From 45716c9bad0298b8a27fdd2b08074a07f2cc22ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:01 +0000
Subject: [PATCH 68/97] fix: read_rect reports regions outside of the image
 before it looks at the buffer

---
 src/image.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/image.rs b/src/image.rs
index 661c96c..0487b78 100644
--- a/src/image.rs
+++ b/src/image.rs
@@ -503,14 +503,6 @@ where
     let dimensions = decoder.dimensions();
     let bytes_per_pixel = u64::from(decoder.color_type().bytes_per_pixel());
     let row_bytes = bytes_per_pixel * u64::from(dimensions.0);
-    let total_bytes = width * height * bytes_per_pixel;
-
-    assert!(
-        buf.len() >= usize::try_from(total_bytes).unwrap_or(usize::MAX),
-        "output buffer too short\n expected `{}`, provided `{}`",
-        total_bytes,
-        buf.len()
-    );
 
     let mut current_scanline = 0;
     let mut tmp = Vec::new();
@@ -582,6 +574,13 @@ where
                 ParameterErrorKind::DimensionMismatch,
             )));
         }
+        let total_bytes = width * height * bytes_per_pixel;
+        assert!(
+            buf.len() >= usize::try_from(total_bytes).unwrap_or(usize::MAX),
+            "output buffer too short\n expected `{}`, provided `{}`",
+            total_bytes,
+            buf.len()
+        );
         // The last row does not have to be padded to the full pitch.
         let rect_row_bytes = width * bytes_per_pixel;
         let pitched_bytes = row_pitch
-- 
2.43.0


From 3f969adc6bcf3f1f4eb4f1b52ffa40741f2ec01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:01 +0000
Subject: [PATCH 69/97] fix: WebP decoder applies the allocation limit to
 metadata chunks

---
 src/codecs/webp/decoder.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/codecs/webp/decoder.rs b/src/codecs/webp/decoder.rs
index 1f20191..a4da303 100644
--- a/src/codecs/webp/decoder.rs
+++ b/src/codecs/webp/decoder.rs
@@ -82,6 +82,17 @@ impl<R: BufRead + Seek> ImageDecoder for WebPDecoder<R> {
         Ok(exif)
     }
 
+    fn set_limits(&mut self, limits: crate::Limits) -> ImageResult<()> {
+        limits.check_support(&crate::LimitSupport::default())?;
+        let (width, height) = self.dimensions();
+        limits.check_dimensions(width, height)?;
+
+        let max_alloc = limits.max_alloc.unwrap_or(u64::MAX);
+        self.inner
+            .set_memory_limit(usize::try_from(max_alloc).unwrap_or(usize::MAX));
+        Ok(())
+    }
+
     fn orientation(&mut self) -> ImageResult<Orientation> {
         // `exif_metadata` caches the orientation, so call it if `orientation` hasn't been set yet.
         if self.orientation.is_none() {
-- 
2.43.0


From bafdec244bf5fd4bc8968c68f8599c52c3700417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:32 +0000
Subject: [PATCH 70/97] fix: AVIF data without a shown picture is an error
 instead of an endless loop

---
 src/codecs/avif/decoder.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/codecs/avif/decoder.rs b/src/codecs/avif/decoder.rs
index 04e43f6..bbcd27a 100644
--- a/src/codecs/avif/decoder.rs
+++ b/src/codecs/avif/decoder.rs
@@ -555,12 +555,19 @@ impl<R: Read> AvifDecoder<R> {
 /// `get_picture` and `send_pending_data` yield `Again` as a non-fatal error requesting more data is sent to the decoder
 /// This ensures that in the case of `Again` all pending data is submitted
 /// This should be called after `send_data` (which does not yield `Again` when called the first time)
+///
+/// The first call of `get_picture` after all data was submitted only starts to drain the decoder, so
+/// that there is no picture in the data if the next one does not return it either.
 fn read_until_ready(decoder: &mut dav1d::Decoder) -> ImageResult<dav1d::Picture> {
+    let mut attempts_without_data = 0;
     loop {
         match decoder.get_picture() {
             Err(dav1d::Error::Again) => match decoder.send_pending_data() {
-                Ok(_) => {}
-                Err(dav1d::Error::Again) => {}
+                Ok(_) if attempts_without_data == 2 => {
+                    return Err(error_map(dav1d::Error::Again));
+                }
+                Ok(_) => attempts_without_data += 1,
+                Err(dav1d::Error::Again) => attempts_without_data = 0,
                 Err(e) => return Err(error_map(e)),
             },
             r => return r.map_err(error_map),
-- 
2.43.0


From 1b2d0bedd6949d68ea2312bdb0b14a5dc83179e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:05 +0000
Subject: [PATCH 71/97] fix: TIFF data of an unexpected length is an error
 instead of a panic

---
 src/codecs/tiff.rs | 39 +++++++++++++++++++++++++++++----------
 1 file changed, 29 insertions(+), 10 deletions(-)

diff --git a/src/codecs/tiff.rs b/src/codecs/tiff.rs
index 602d41e..c4a93d4 100644
--- a/src/codecs/tiff.rs
+++ b/src/codecs/tiff.rs
@@ -126,6 +126,22 @@ fn err_unknown_color_type(value: u8) -> ImageError {
     ))
 }
 
+/// The decoded data of some layouts, like planar ones, is not that of the whole image.
+fn err_unexpected_length() -> ImageError {
+    ImageError::Decoding(DecodingError::new(
+        ImageFormat::Tiff.into(),
+        "Unexpected amount of image data".to_string(),
+    ))
+}
+
+fn copy_samples(buf: &mut [u8], samples: &[u8]) -> ImageResult<()> {
+    if samples.len() != buf.len() {
+        return Err(err_unexpected_length());
+    }
+    buf.copy_from_slice(samples);
+    Ok(())
+}
+
 impl ImageError {
     fn from_tiff_decode(err: tiff::TiffError) -> ImageError {
         match err {
@@ -252,40 +268,43 @@ impl<R: BufRead + Seek> ImageDecoder for TiffDecoder<R> {
             tiff::decoder::DecodingResult::U8(v)
                 if self.original_color_type == ExtendedColorType::Cmyk8 =>
             {
+                if v.len() / 4 != buf.len() / 3 {
+                    return Err(err_unexpected_length());
+                }
                 let mut out_cur = Cursor::new(buf);
                 for cmyk in v.chunks_exact(4) {
                     out_cur.write_all(&cmyk_to_rgb(cmyk))?;
                 }
             }
             tiff::decoder::DecodingResult::U8(v) => {
-                buf.copy_from_slice(&v);
+                copy_samples(buf, &v)?;
             }
             tiff::decoder::DecodingResult::U16(v) => {
-                buf.copy_from_slice(bytemuck::cast_slice(&v));
+                copy_samples(buf, bytemuck::cast_slice(&v))?;
             }
             tiff::decoder::DecodingResult::U32(v) => {
-                buf.copy_from_slice(bytemuck::cast_slice(&v));
+                copy_samples(buf, bytemuck::cast_slice(&v))?;
             }
             tiff::decoder::DecodingResult::U64(v) => {
-                buf.copy_from_slice(bytemuck::cast_slice(&v));
+                copy_samples(buf, bytemuck::cast_slice(&v))?;
             }
             tiff::decoder::DecodingResult::I8(v) => {
-                buf.copy_from_slice(bytemuck::cast_slice(&v));
+                copy_samples(buf, bytemuck::cast_slice(&v))?;
             }
             tiff::decoder::DecodingResult::I16(v) => {
-                buf.copy_from_slice(bytemuck::cast_slice(&v));
+                copy_samples(buf, bytemuck::cast_slice(&v))?;
             }
             tiff::decoder::DecodingResult::I32(v) => {
-                buf.copy_from_slice(bytemuck::cast_slice(&v));
+                copy_samples(buf, bytemuck::cast_slice(&v))?;
             }
             tiff::decoder::DecodingResult::I64(v) => {
-                buf.copy_from_slice(bytemuck::cast_slice(&v));
+                copy_samples(buf, bytemuck::cast_slice(&v))?;
             }
             tiff::decoder::DecodingResult::F32(v) => {
-                buf.copy_from_slice(bytemuck::cast_slice(&v));
+                copy_samples(buf, bytemuck::cast_slice(&v))?;
             }
             tiff::decoder::DecodingResult::F64(v) => {
-                buf.copy_from_slice(bytemuck::cast_slice(&v));
+                copy_samples(buf, bytemuck::cast_slice(&v))?;
             }
         }
         Ok(())
-- 
2.43.0


From 3ea7d240efae94ba53881e5febf01c7f6504c5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:32 +0000
Subject: [PATCH 72/97] fix: WebP animation frames honour the allocation limit

---
 src/codecs/webp/decoder.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/codecs/webp/decoder.rs b/src/codecs/webp/decoder.rs
index a4da303..e205fa4 100644
--- a/src/codecs/webp/decoder.rs
+++ b/src/codecs/webp/decoder.rs
@@ -4,7 +4,7 @@ use crate::buffer::ConvertBuffer;
 use crate::error::{DecodingError, ImageError, ImageResult};
 use crate::image::{ImageDecoder, ImageFormat};
 use crate::metadata::Orientation;
-use crate::{AnimationDecoder, ColorType, Delay, Frame, Frames, RgbImage, Rgba, RgbaImage};
+use crate::{AnimationDecoder, ColorType, Delay, Frame, Frames, Limits, RgbImage, Rgba, RgbaImage};
 
 /// WebP Image format decoder.
 ///
@@ -12,6 +12,7 @@ use crate::{AnimationDecoder, ColorType, Delay, Frame, Frames, RgbImage, Rgba, R
 pub struct WebPDecoder<R> {
     inner: image_webp::WebPDecoder<R>,
     orientation: Option<Orientation>,
+    limits: Limits,
 }
 
 impl<R: BufRead + Seek> WebPDecoder<R> {
@@ -20,6 +21,7 @@ impl<R: BufRead + Seek> WebPDecoder<R> {
         Ok(Self {
             inner: image_webp::WebPDecoder::new(r).map_err(ImageError::from_webp_decode)?,
             orientation: None,
+            limits: Limits::no_limits(),
         })
     }
 
@@ -82,7 +84,7 @@ impl<R: BufRead + Seek> ImageDecoder for WebPDecoder<R> {
         Ok(exif)
     }
 
-    fn set_limits(&mut self, limits: crate::Limits) -> ImageResult<()> {
+    fn set_limits(&mut self, limits: Limits) -> ImageResult<()> {
         limits.check_support(&crate::LimitSupport::default())?;
         let (width, height) = self.dimensions();
         limits.check_dimensions(width, height)?;
@@ -90,6 +92,7 @@ impl<R: BufRead + Seek> ImageDecoder for WebPDecoder<R> {
         let max_alloc = limits.max_alloc.unwrap_or(u64::MAX);
         self.inner
             .set_memory_limit(usize::try_from(max_alloc).unwrap_or(usize::MAX));
+        self.limits = limits;
         Ok(())
     }
 
@@ -118,6 +121,15 @@ impl<'a, R: 'a + BufRead + Seek> AnimationDecoder<'a> for WebPDecoder<R> {
                 self.current += 1;
                 let (width, height) = self.decoder.inner.dimensions();
 
+                // The canvas inside of the decoder and the frame, which do not persist together
+                // with those of other frames.
+                let mut limits = self.decoder.limits.clone();
+                for _ in 0..2 {
+                    if let Err(e) = limits.reserve_buffer(width, height, ColorType::Rgba8) {
+                        return Some(Err(e));
+                    }
+                }
+
                 let (img, delay) = if self.decoder.inner.has_alpha() {
                     let mut img = RgbaImage::new(width, height);
                     match self.decoder.inner.read_frame(&mut img) {
-- 
2.43.0


From f5a58832b27dac2742d7920001b8d5b4d511ea05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:11 +0000
Subject: [PATCH 73/97] fix: PNG encoder reports a failure to write the last
 chunk

---
 src/codecs/png.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/codecs/png.rs b/src/codecs/png.rs
index 553a7b6..be7f400 100644
--- a/src/codecs/png.rs
+++ b/src/codecs/png.rs
@@ -627,6 +627,8 @@ impl<W: Write> PngEncoder<W> {
             .map_err(|e| ImageError::IoError(e.into()))?;
         writer
             .write_image_data(data)
+            // Do not leave the last chunk to the drop of the writer, which hides its errors.
+            .and_then(|()| writer.finish())
             .map_err(|e| ImageError::IoError(e.into()))
     }
 }
-- 
2.43.0


From dd3ab86dccf9d03716e62a69a6499858de545fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:11 +0000
Subject: [PATCH 74/97] fix: TIFF encoder completes short writes

---
 src/codecs/tiff.rs | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/codecs/tiff.rs b/src/codecs/tiff.rs
index c4a93d4..91558d3 100644
--- a/src/codecs/tiff.rs
+++ b/src/codecs/tiff.rs
@@ -320,6 +320,26 @@ pub struct TiffEncoder<W> {
     w: W,
 }
 
+/// Always writes all of the data it is given, which the `tiff` crate relies on.
+struct CompleteWriter<W>(W);
+
+impl<W: Write> Write for CompleteWriter<W> {
+    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
+        self.0.write_all(buf)?;
+        Ok(buf.len())
+    }
+
+    fn flush(&mut self) -> io::Result<()> {
+        self.0.flush()
+    }
+}
+
+impl<W: Seek> Seek for CompleteWriter<W> {
+    fn seek(&mut self, pos: io::SeekFrom) -> io::Result<u64> {
+        self.0.seek(pos)
+    }
+}
+
 fn cmyk_to_rgb(cmyk: &[u8]) -> [u8; 3] {
     let c = f32::from(cmyk[0]);
     let m = f32::from(cmyk[1]);
@@ -382,8 +402,8 @@ impl<W: Write + Seek> TiffEncoder<W> {
             buf.len(),
         );
 
-        let mut encoder =
-            tiff::encoder::TiffEncoder::new(self.w).map_err(ImageError::from_tiff_encode)?;
+        let mut encoder = tiff::encoder::TiffEncoder::new(CompleteWriter(self.w))
+            .map_err(ImageError::from_tiff_encode)?;
         match color_type {
             ExtendedColorType::L8 => {
                 encoder.write_image::<tiff::encoder::colortype::Gray8>(width, height, buf)
-- 
2.43.0


From 0e77003c69cfec9dcba039fd01237806d965a13b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:11 +0000
Subject: [PATCH 75/97] fix: JPEG encoder refuses images without pixels

---
 src/codecs/jpeg/encoder.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/codecs/jpeg/encoder.rs b/src/codecs/jpeg/encoder.rs
index 2882a8c..51857b2 100644
--- a/src/codecs/jpeg/encoder.rs
+++ b/src/codecs/jpeg/encoder.rs
@@ -507,6 +507,12 @@ impl<W: Write> JpegEncoder<W> {
             ));
         }
 
+        if image.width() == 0 || image.height() == 0 {
+            return Err(ImageError::Parameter(ParameterError::from_kind(
+                ParameterErrorKind::DimensionMismatch,
+            )));
+        }
+
         self.writer.write_marker(SOI)?;
 
         let mut buf = Vec::new();
-- 
2.43.0


From 2af2afce18e769cdd72122fc5fa36af7defe225e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:11 +0000
Subject: [PATCH 76/97] fix: GIF encoder refuses images without pixels

---
 src/codecs/gif.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/codecs/gif.rs b/src/codecs/gif.rs
index bfd5694..31106c0 100644
--- a/src/codecs/gif.rs
+++ b/src/codecs/gif.rs
@@ -568,7 +568,7 @@ impl<W: Write> GifEncoder<W> {
         fn inner_dimensions(width: u32, height: u32) -> Option<(u16, u16)> {
             let width = u16::try_from(width).ok()?;
             let height = u16::try_from(height).ok()?;
-            Some((width, height))
+            (width > 0 && height > 0).then_some((width, height))
         }
 
         // TODO: this is not very idiomatic yet. Should return an EncodingError.
-- 
2.43.0


From dbaf96188dc014ab2f78d198cfa30a3adc1854c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:11 +0000
Subject: [PATCH 77/97] fix: BMP encoder refuses images without pixels

---
 src/codecs/bmp/encoder.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/codecs/bmp/encoder.rs b/src/codecs/bmp/encoder.rs
index 457e5d9..6f50979 100644
--- a/src/codecs/bmp/encoder.rs
+++ b/src/codecs/bmp/encoder.rs
@@ -70,6 +70,12 @@ impl<'a, W: Write + 'a> BmpEncoder<'a, W> {
             image.len(),
         );
 
+        if width == 0 || height == 0 {
+            return Err(ImageError::Parameter(ParameterError::from_kind(
+                ParameterErrorKind::DimensionMismatch,
+            )));
+        }
+
         let bmp_header_size = BITMAPFILEHEADER_SIZE;
 
         let (dib_header_size, written_pixel_size, palette_color_count) =
-- 
2.43.0


From f0746f5ebf7f054e81e618a7111d7af314fcc477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:11 +0000
Subject: [PATCH 78/97] fix: BMP encoder refuses palettes that 8 bit indices
 cannot address

---
 src/codecs/bmp/encoder.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/codecs/bmp/encoder.rs b/src/codecs/bmp/encoder.rs
index 6f50979..c516f69 100644
--- a/src/codecs/bmp/encoder.rs
+++ b/src/codecs/bmp/encoder.rs
@@ -62,6 +62,13 @@ impl<'a, W: Write + 'a> BmpEncoder<'a, W> {
             )));
         }
 
+        if palette.is_some_and(|p| p.is_empty() || p.len() > 256) {
+            return Err(ImageError::IoError(io::Error::new(
+                io::ErrorKind::InvalidInput,
+                "A palette must have between 1 and 256 colors.",
+            )));
+        }
+
         let expected_buffer_len = c.buffer_size(width, height);
         assert_eq!(
             expected_buffer_len,
-- 
2.43.0


From 8ff44f4e05f6c9e00811bb25f144f582309babd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:11 +0000
Subject: [PATCH 79/97] fix: OpenEXR encoder refuses images without pixels

---
 src/codecs/openexr.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/codecs/openexr.rs b/src/codecs/openexr.rs
index ff2466c..4f99ce9 100644
--- a/src/codecs/openexr.rs
+++ b/src/codecs/openexr.rs
@@ -22,7 +22,9 @@
 //!     - (chroma) subsampling not supported yet by the exr library
 use exr::prelude::*;
 
-use crate::error::{DecodingError, EncodingError, ImageFormatHint};
+use crate::error::{
+    DecodingError, EncodingError, ImageFormatHint, ParameterError, ParameterErrorKind,
+};
 use crate::{
     ColorType, ExtendedColorType, ImageDecoder, ImageEncoder, ImageError, ImageFormat, ImageResult,
 };
@@ -223,6 +225,12 @@ fn write_buffer(
     height: u32,
     color_type: ExtendedColorType,
 ) -> ImageResult<()> {
+    if width == 0 || height == 0 {
+        return Err(ImageError::Parameter(ParameterError::from_kind(
+            ParameterErrorKind::DimensionMismatch,
+        )));
+    }
+
     let width = width as usize;
     let height = height as usize;
     let bytes_per_pixel = color_type.bits_per_pixel() as usize / 8;
-- 
2.43.0


From b97fd984a7e8aa71805deebe1a070b0250d66ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:39 +0000
Subject: [PATCH 80/97] fix: AVIF encoder refuses images without pixels of
 every color type

---
 src/codecs/avif/encoder.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/codecs/avif/encoder.rs b/src/codecs/avif/encoder.rs
index 5ba8d9a..3681568 100644
--- a/src/codecs/avif/encoder.rs
+++ b/src/codecs/avif/encoder.rs
@@ -209,6 +209,12 @@ impl<W: Write> AvifEncoder<W> {
             }
         }
 
+        if width == 0 || height == 0 {
+            return Err(ImageError::Parameter(ParameterError::from_kind(
+                ParameterErrorKind::DimensionMismatch,
+            )));
+        }
+
         match color {
             ExtendedColorType::Rgb8 => {
                 // ravif doesn't do any checks but has some asserts, so we do the checks.
-- 
2.43.0


From 2b0534259164696fd347f7e290f43100fe07177f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:39 +0000
Subject: [PATCH 81/97] fix: writing a GIF reports a failure to write its
 trailer

---
 src/codecs/gif.rs                  | 8 ++++++++
 src/dynimage.rs                    | 2 +-
 src/image_reader/free_functions.rs | 6 +++++-
 3 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/codecs/gif.rs b/src/codecs/gif.rs
index 31106c0..75252f9 100644
--- a/src/codecs/gif.rs
+++ b/src/codecs/gif.rs
@@ -540,6 +540,14 @@ impl<W: Write> GifEncoder<W> {
         Ok(())
     }
 
+    /// Write what ends the file, which dropping the encoder does without reporting errors.
+    pub(crate) fn finish(self) -> ImageResult<()> {
+        if let Some(encoder) = self.gif_encoder {
+            encoder.into_inner()?;
+        }
+        Ok(())
+    }
+
     pub(crate) fn convert_frame(
         &mut self,
         img_frame: animation::Frame,
diff --git a/src/dynimage.rs b/src/dynimage.rs
index 32da8c7..a013238 100644
--- a/src/dynimage.rs
+++ b/src/dynimage.rs
@@ -1002,7 +1002,7 @@ impl DynamicImage {
             ImageFormat::Gif => {
                 let mut g = gif::GifEncoder::new(w);
                 g.encode_frame(crate::animation::Frame::new(self.to_rgba8()))?;
-                Ok(())
+                g.finish()
             }
 
             format => write_buffer_with_format(w, bytes, width, height, color, format),
diff --git a/src/image_reader/free_functions.rs b/src/image_reader/free_functions.rs
index 57fbb72..5e84bdf 100644
--- a/src/image_reader/free_functions.rs
+++ b/src/image_reader/free_functions.rs
@@ -75,7 +75,11 @@ pub(crate) fn write_buffer_impl<W: std::io::Write + Seek>(
             pnm::PnmEncoder::new(buffered_write).write_image(buf, width, height, color)
         }
         #[cfg(feature = "gif")]
-        ImageFormat::Gif => gif::GifEncoder::new(buffered_write).encode(buf, width, height, color),
+        ImageFormat::Gif => {
+            let mut encoder = gif::GifEncoder::new(buffered_write);
+            encoder.encode(buf, width, height, color)?;
+            encoder.finish()
+        }
         #[cfg(feature = "ico")]
         ImageFormat::Ico => {
             ico::IcoEncoder::new(buffered_write).write_image(buf, width, height, color)
-- 
2.43.0


From 61c26e6d6b2b76b430d43d22927855d66d46387f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:39 +0000
Subject: [PATCH 82/97] fix: saving to a path reports a failure to write the
 end of the file

---
 src/image_reader/free_functions.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/image_reader/free_functions.rs b/src/image_reader/free_functions.rs
index 5e84bdf..7efd8d5 100644
--- a/src/image_reader/free_functions.rs
+++ b/src/image_reader/free_functions.rs
@@ -1,5 +1,5 @@
 use std::fs::File;
-use std::io::{BufRead, BufWriter, Seek};
+use std::io::{BufRead, BufWriter, Seek, Write};
 use std::iter;
 use std::path::Path;
 
@@ -48,7 +48,10 @@ pub(crate) fn save_buffer_with_format_impl(
     format: ImageFormat,
 ) -> ImageResult<()> {
     let buffered_file_write = &mut BufWriter::new(File::create(path)?); // always seekable
-    write_buffer_impl(buffered_file_write, buf, width, height, color, format)
+    write_buffer_impl(buffered_file_write, buf, width, height, color, format)?;
+    // Dropping the writer would hide a failure to write what it still holds.
+    buffered_file_write.flush()?;
+    Ok(())
 }
 
 #[allow(unused_variables)]
-- 
2.43.0


From 602b4f83eb75e2f2da794887538dcc5e9f2810dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:28 +0000
Subject: [PATCH 83/97] fix: PBM rows of almost 2^32 pixels do not overflow

---
 src/utils/mod.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/utils/mod.rs b/src/utils/mod.rs
index ddb2c47..e1e5034 100644
--- a/src/utils/mod.rs
+++ b/src/utils/mod.rs
@@ -38,21 +38,22 @@ pub(crate) fn expand_bits(bit_depth: u8, row_size: u32, buf: &[u8]) -> Vec<u8> {
     // Note: this conversion assumes that the scanlines begin on byte boundaries
     let mask = (1u8 << bit_depth as usize) - 1;
     let scaling_factor = 255 / ((1 << bit_depth as usize) - 1);
-    let bit_width = row_size * u32::from(bit_depth);
+    let row_size = u64::from(row_size);
+    let bit_width = row_size * u64::from(bit_depth);
     let skip = if bit_width % 8 == 0 {
         0
     } else {
-        (8 - bit_width % 8) / u32::from(bit_depth)
+        (8 - bit_width % 8) / u64::from(bit_depth)
     };
     let row_len = row_size + skip;
     let mut p = Vec::new();
-    let mut i = 0;
+    let mut i = 0u64;
     for v in buf {
         for shift_inv in 1..=8 / bit_depth {
             let shift = 8 - bit_depth * shift_inv;
             // skip the pixels that can be neglected because scanlines should
             // start at byte boundaries
-            if i % (row_len as usize) < (row_size as usize) {
+            if i % row_len < row_size {
                 let pixel = (v & (mask << shift as usize)) >> shift as usize;
                 p.push(pixel * scaling_factor);
             }
-- 
2.43.0


From 64e113bab7c9f6574efecb442abc56bb93736afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:28 +0000
Subject: [PATCH 84/97] fix: PNM encoder refuses known tuple types of another
 depth than the image

---
 src/codecs/pnm/encoder.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/codecs/pnm/encoder.rs b/src/codecs/pnm/encoder.rs
index f8f3163..25437c5 100644
--- a/src/codecs/pnm/encoder.rs
+++ b/src/codecs/pnm/encoder.rs
@@ -413,6 +413,14 @@ impl<'a> CheckedDimensions<'a> {
                     }),
                 ..
             } => match (tupltype, color) {
+                _ if depth != components => {
+                    return Err(ImageError::Parameter(ParameterError::from_kind(
+                        ParameterErrorKind::Generic(format!(
+                            "Depth mismatch: header {depth} vs. color {components}"
+                        )),
+                    )))
+                }
+
                 (&Some(ArbitraryTuplType::BlackAndWhite), ExtendedColorType::L1) => (),
                 (&Some(ArbitraryTuplType::BlackAndWhiteAlpha), ExtendedColorType::La8) => (),
 
@@ -424,15 +432,8 @@ impl<'a> CheckedDimensions<'a> {
                 (&Some(ArbitraryTuplType::RGB), ExtendedColorType::Rgb8) => (),
                 (&Some(ArbitraryTuplType::RGBAlpha), ExtendedColorType::Rgba8) => (),
 
-                (&None, _) if depth == components => (),
-                (&Some(ArbitraryTuplType::Custom(_)), _) if depth == components => (),
-                _ if depth != components => {
-                    return Err(ImageError::Parameter(ParameterError::from_kind(
-                        ParameterErrorKind::Generic(format!(
-                            "Depth mismatch: header {depth} vs. color {components}"
-                        )),
-                    )))
-                }
+                (&None, _) => (),
+                (&Some(ArbitraryTuplType::Custom(_)), _) => (),
                 _ => {
                     return Err(ImageError::Parameter(ParameterError::from_kind(
                         ParameterErrorKind::Generic(
-- 
2.43.0


From 99fd3d7ee996f256500673bbfba766282ec4926f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:01 +0000
Subject: [PATCH 85/97] fix: do not limit TIFF metadata by the size of the
 pixels

The limit for decoded values was the size of the image's pixels, not the
memory allowed: an ICC profile larger than a small image was dropped.
---
 src/codecs/tiff.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/codecs/tiff.rs b/src/codecs/tiff.rs
index 91558d3..8df1999 100644
--- a/src/codecs/tiff.rs
+++ b/src/codecs/tiff.rs
@@ -247,8 +247,7 @@ impl<R: BufRead + Seek> ImageDecoder for TiffDecoder<R> {
         let max_intermediate_alloc = max_alloc.saturating_sub(self.total_bytes_buffer());
 
         let mut tiff_limits: tiff::decoder::Limits = Default::default();
-        tiff_limits.decoding_buffer_size =
-            usize::try_from(max_alloc - max_intermediate_alloc).unwrap_or(usize::MAX);
+        tiff_limits.decoding_buffer_size = usize::try_from(max_alloc).unwrap_or(usize::MAX);
         tiff_limits.intermediate_buffer_size =
             usize::try_from(max_intermediate_alloc).unwrap_or(usize::MAX);
         tiff_limits.ifd_value_size = tiff_limits.intermediate_buffer_size;
-- 
2.43.0


From 79dbe35bfa908d2d643f9e62d668433e001be198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:01 +0000
Subject: [PATCH 86/97] fix: saving in a format that cannot be written must not
 truncate the file

---
 src/image_reader/free_functions.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/image_reader/free_functions.rs b/src/image_reader/free_functions.rs
index 7efd8d5..a8a3c1b 100644
--- a/src/image_reader/free_functions.rs
+++ b/src/image_reader/free_functions.rs
@@ -47,6 +47,10 @@ pub(crate) fn save_buffer_with_format_impl(
     color: ExtendedColorType,
     format: ImageFormat,
 ) -> ImageResult<()> {
+    // Do not touch an existing file when there is nothing to write to it.
+    if !format.writing_enabled() {
+        return Err(unsupported_for_writing(format));
+    }
     let buffered_file_write = &mut BufWriter::new(File::create(path)?); // always seekable
     write_buffer_impl(buffered_file_write, buf, width, height, color, format)?;
     // Dropping the writer would hide a failure to write what it still holds.
@@ -123,15 +127,17 @@ pub(crate) fn write_buffer_impl<W: std::io::Write + Seek>(
         ImageFormat::Hdr => {
             hdr::HdrEncoder::new(buffered_write).write_image(buf, width, height, color)
         }
-        _ => Err(ImageError::Unsupported(
-            UnsupportedError::from_format_and_kind(
-                ImageFormatHint::Unknown,
-                UnsupportedErrorKind::Format(ImageFormatHint::Name(format!("{format:?}"))),
-            ),
-        )),
+        _ => Err(unsupported_for_writing(format)),
     }
 }
 
+fn unsupported_for_writing(format: ImageFormat) -> ImageError {
+    ImageError::Unsupported(UnsupportedError::from_format_and_kind(
+        ImageFormatHint::Unknown,
+        UnsupportedErrorKind::Format(ImageFormatHint::Name(format!("{format:?}"))),
+    ))
+}
+
 static MAGIC_BYTES: [(&[u8], &[u8], ImageFormat); 23] = [
     (b"\x89PNG\r\n\x1a\n", b"", ImageFormat::Png),
     (&[0xff, 0xd8, 0xff], b"", ImageFormat::Jpeg),
-- 
2.43.0


From 01c3129e001d32ad6ddff8a257175122ad19f445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:01 +0000
Subject: [PATCH 87/97] fix: report I/O errors of the reader as such when
 decoding AVIF

---
 src/codecs/avif/decoder.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/codecs/avif/decoder.rs b/src/codecs/avif/decoder.rs
index bbcd27a..e192c0e 100644
--- a/src/codecs/avif/decoder.rs
+++ b/src/codecs/avif/decoder.rs
@@ -67,7 +67,10 @@ impl Error for AvifDecoderError {}
 impl<R: Read> AvifDecoder<R> {
     /// Create a new decoder that reads its input from `r`.
     pub fn new(mut r: R) -> ImageResult<Self> {
-        let ctx = read_avif(&mut r, ParseStrictness::Normal).map_err(error_map)?;
+        let ctx = read_avif(&mut r, ParseStrictness::Normal).map_err(|err| match err {
+            mp4parse::Error::Io(err) => ImageError::IoError(err),
+            err => error_map(err),
+        })?;
         let coded = ctx.primary_item_coded_data().unwrap_or_default();
 
         let mut primary_decoder = dav1d::Decoder::new().map_err(error_map)?;
-- 
2.43.0


From d75ef1a717265c9cb8a1baf41a8c16e6a204a3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:25 +0000
Subject: [PATCH 88/97] fix: write OpenEXR blocks in a fixed order

Files of more than one block differed from one encoding of the same image
to the next.
---
 src/codecs/openexr.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/codecs/openexr.rs b/src/codecs/openexr.rs
index 4f99ce9..3455438 100644
--- a/src/codecs/openexr.rs
+++ b/src/codecs/openexr.rs
@@ -235,11 +235,19 @@ fn write_buffer(
     let height = height as usize;
     let bytes_per_pixel = color_type.bits_per_pixel() as usize / 8;
 
+    // TODO compression method zip??
+    // Unless their order is specified, the blocks are written in the order in which the threads
+    // that compress them happen to finish.
+    let encoding = Encoding {
+        line_order: LineOrder::Increasing,
+        ..Encoding::FAST_LOSSLESS
+    };
+
     match color_type {
         ExtendedColorType::Rgb32F => {
-            Image // TODO compression method zip??
-                ::from_channels(
+            Image::from_encoded_channels(
                 (width, height),
+                encoding,
                 SpecificChannels::rgb(|pixel: Vec2<usize>| {
                     let pixel_index = pixel.flat_index_for_size(Vec2(width, height));
                     let start_byte = pixel_index * bytes_per_pixel;
@@ -258,9 +266,9 @@ fn write_buffer(
         }
 
         ExtendedColorType::Rgba32F => {
-            Image // TODO compression method zip??
-                ::from_channels(
+            Image::from_encoded_channels(
                 (width, height),
+                encoding,
                 SpecificChannels::rgba(|pixel: Vec2<usize>| {
                     let pixel_index = pixel.flat_index_for_size(Vec2(width, height));
                     let start_byte = pixel_index * bytes_per_pixel;
-- 
2.43.0


From d02563701ed30b47367f558908cbd86f3a203848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:25 +0000
Subject: [PATCH 89/97] fix: declare the alpha sample of TIFF files

TIFF 6.0 requires ExtraSamples when there are more samples than the
photometric interpretation uses.
---
 src/codecs/tiff.rs | 36 +++++++++++++++++++++++++++++++-----
 1 file changed, 31 insertions(+), 5 deletions(-)

diff --git a/src/codecs/tiff.rs b/src/codecs/tiff.rs
index 8df1999..8598215 100644
--- a/src/codecs/tiff.rs
+++ b/src/codecs/tiff.rs
@@ -372,6 +372,26 @@ fn u8_slice_as_u16(buf: &[u8]) -> ImageResult<Cow<'_, [u16]>> {
     }
 }
 
+/// Write an image with a fourth sample, and the tag that tells what it is.
+fn write_image_with_alpha<C, W>(
+    encoder: &mut tiff::encoder::TiffEncoder<W>,
+    width: u32,
+    height: u32,
+    data: &[C::Inner],
+) -> tiff::TiffResult<()>
+where
+    C: tiff::encoder::colortype::ColorType,
+    W: Write + Seek,
+    [C::Inner]: tiff::encoder::TiffValue,
+{
+    const UNASSOCIATED_ALPHA: u16 = 2;
+    let mut image = encoder.new_image::<C>(width, height)?;
+    image
+        .encoder()
+        .write_tag(tiff::tags::Tag::ExtraSamples, UNASSOCIATED_ALPHA)?;
+    image.write_data(data)
+}
+
 impl<W: Write + Seek> TiffEncoder<W> {
     /// Create a new encoder that writes its output to `w`
     pub fn new(w: W) -> TiffEncoder<W> {
@@ -411,7 +431,12 @@ impl<W: Write + Seek> TiffEncoder<W> {
                 encoder.write_image::<tiff::encoder::colortype::RGB8>(width, height, buf)
             }
             ExtendedColorType::Rgba8 => {
-                encoder.write_image::<tiff::encoder::colortype::RGBA8>(width, height, buf)
+                write_image_with_alpha::<tiff::encoder::colortype::RGBA8, _>(
+                    &mut encoder,
+                    width,
+                    height,
+                    buf,
+                )
             }
             ExtendedColorType::L16 => encoder.write_image::<tiff::encoder::colortype::Gray16>(
                 width,
@@ -423,10 +448,11 @@ impl<W: Write + Seek> TiffEncoder<W> {
                 height,
                 &u8_slice_as_u16(buf)?,
             ),
-            ExtendedColorType::Rgba16 => encoder.write_image::<tiff::encoder::colortype::RGBA16>(
-                width,
-                height,
-                &u8_slice_as_u16(buf)?,
+            ExtendedColorType::Rgba16 => write_image_with_alpha::<
+                tiff::encoder::colortype::RGBA16,
+                _,
+            >(
+                &mut encoder, width, height, &u8_slice_as_u16(buf)?
             ),
             _ => {
                 return Err(ImageError::Unsupported(
-- 
2.43.0


From 4906715ce42a5729e267f96ff1dc68960d885cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:25 +0000
Subject: [PATCH 90/97] fix: keep the position of frames when encoding GIF

GifEncoder ignored Frame::left and Frame::top.
---
 src/codecs/gif.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/codecs/gif.rs b/src/codecs/gif.rs
index 75252f9..40641a2 100644
--- a/src/codecs/gif.rs
+++ b/src/codecs/gif.rs
@@ -552,8 +552,15 @@ impl<W: Write> GifEncoder<W> {
         &mut self,
         img_frame: animation::Frame,
     ) -> ImageResult<Frame<'static>> {
-        // get the delay before converting img_frame
+        // get the delay and the position before converting img_frame
         let frame_delay = img_frame.delay().into_ratio().to_integer();
+        let left = u16::try_from(img_frame.left());
+        let top = u16::try_from(img_frame.top());
+        let (Ok(left), Ok(top)) = (left, top) else {
+            return Err(ImageError::Parameter(ParameterError::from_kind(
+                ParameterErrorKind::DimensionMismatch,
+            )));
+        };
         // convert img_frame into RgbaImage
         let mut rbga_frame = img_frame.into_buffer();
         let (width, height) = self.gif_dimensions(rbga_frame.width(), rbga_frame.height())?;
@@ -568,6 +575,8 @@ impl<W: Write> GifEncoder<W> {
         // likely couldn't be reused for other cases. This isn't a bad trade-off given
         // that the current algorithm is already lossy.
         frame.delay = (frame_delay / 10).try_into().unwrap_or(u16::MAX);
+        frame.left = left;
+        frame.top = top;
 
         Ok(frame)
     }
@@ -593,8 +602,11 @@ impl<W: Write> GifEncoder<W> {
             gif_encoder = encoder;
         } else {
             let writer = self.w.take().unwrap();
-            let mut encoder = gif::Encoder::new(writer, frame.width, frame.height, &[])
-                .map_err(ImageError::from_encoding)?;
+            // The screen has to hold the frame where it is placed.
+            let width = frame.left.saturating_add(frame.width);
+            let height = frame.top.saturating_add(frame.height);
+            let mut encoder =
+                gif::Encoder::new(writer, width, height, &[]).map_err(ImageError::from_encoding)?;
             if let Some(ref repeat) = self.repeat {
                 encoder
                     .set_repeat(repeat.to_gif_enum())
-- 
2.43.0


From 1d4d1c04d76ebf6b18a4c4374ddc9b36bca321bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:14 +0000
Subject: [PATCH 91/97] fix: use the coefficients of H.273 for AVIF colour
 matrices

---
 src/codecs/avif/decoder.rs | 2 +-
 src/codecs/avif/yuv.rs     | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/codecs/avif/decoder.rs b/src/codecs/avif/decoder.rs
index e192c0e..8c3a6f2 100644
--- a/src/codecs/avif/decoder.rs
+++ b/src/codecs/avif/decoder.rs
@@ -254,7 +254,7 @@ fn get_matrix(
         )),
         dav1d::pixel::MatrixCoefficients::BT470M => Ok(YuvStandardMatrix::Bt470_6),
         dav1d::pixel::MatrixCoefficients::BT470BG => Ok(YuvStandardMatrix::Bt601),
-        dav1d::pixel::MatrixCoefficients::ST170M => Ok(YuvStandardMatrix::Smpte240),
+        dav1d::pixel::MatrixCoefficients::ST170M => Ok(YuvStandardMatrix::Bt601),
         dav1d::pixel::MatrixCoefficients::ST240M => Ok(YuvStandardMatrix::Smpte240),
         // This is an experimental matrix in libavif yet.
         dav1d::pixel::MatrixCoefficients::YCgCo => Err(ImageError::Unsupported(
diff --git a/src/codecs/avif/yuv.rs b/src/codecs/avif/yuv.rs
index 62190c9..268ec61 100644
--- a/src/codecs/avif/yuv.rs
+++ b/src/codecs/avif/yuv.rs
@@ -225,12 +225,12 @@ impl YuvStandardMatrix {
                 kb: 0.0593f32,
             },
             YuvStandardMatrix::Smpte240 => YuvBias {
-                kr: 0.087f32,
-                kb: 0.212f32,
+                kr: 0.212f32,
+                kb: 0.087f32,
             },
             YuvStandardMatrix::Bt470_6 => YuvBias {
-                kr: 0.2220f32,
-                kb: 0.0713f32,
+                kr: 0.30f32,
+                kb: 0.11f32,
             },
             YuvStandardMatrix::Identity => unreachable!(),
         }
-- 
2.43.0


From d3ed71d4c49252496aa8e4bafae89a0a273061e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:14 +0000
Subject: [PATCH 92/97] fix: expand deep AVIF samples to the full 16-bit range

---
 src/codecs/avif/decoder.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/codecs/avif/decoder.rs b/src/codecs/avif/decoder.rs
index 8c3a6f2..58103ea 100644
--- a/src/codecs/avif/decoder.rs
+++ b/src/codecs/avif/decoder.rs
@@ -546,9 +546,10 @@ impl<R: Read> AvifDecoder<R> {
         }
 
         // Expand current bit depth to target 16
-        let target_expand_bits = 16u32 - self.picture.bit_depth() as u32;
+        let bit_depth = bit_depth as u32;
+        let target_expand_bits = 16u32 - bit_depth;
         for item in target.iter_mut() {
-            *item = (*item << target_expand_bits) | (*item >> (16 - target_expand_bits));
+            *item = (*item << target_expand_bits) | (*item >> (bit_depth - target_expand_bits));
         }
 
         Ok(())
-- 
2.43.0


From bf1e32d7d73618f58d6d72a273881298972c500c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:14 +0000
Subject: [PATCH 93/97] fix: do not refer to the missing chroma planes of
 monochrome AVIF

---
 src/codecs/avif/decoder.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/codecs/avif/decoder.rs b/src/codecs/avif/decoder.rs
index 58103ea..30329c0 100644
--- a/src/codecs/avif/decoder.rs
+++ b/src/codecs/avif/decoder.rs
@@ -363,12 +363,18 @@ impl<R: Read> ImageDecoder for AvifDecoder<R> {
             let ref_u = self.picture.plane(PlanarImageComponent::U);
             let ref_v = self.picture.plane(PlanarImageComponent::V);
 
+            // There are no chroma planes in a monochrome picture, not even empty ones
+            let (u_plane, v_plane): (&[u8], &[u8]) = match self.picture.pixel_layout() {
+                PixelLayout::I400 => (&[], &[]),
+                _ => (ref_u.as_ref(), ref_v.as_ref()),
+            };
+
             let image = YuvPlanarImage {
                 y_plane: ref_y.as_ref(),
                 y_stride: self.picture.stride(PlanarImageComponent::Y) as usize,
-                u_plane: ref_u.as_ref(),
+                u_plane,
                 u_stride: self.picture.stride(PlanarImageComponent::U) as usize,
-                v_plane: ref_v.as_ref(),
+                v_plane,
                 v_stride: self.picture.stride(PlanarImageComponent::V) as usize,
                 width: width as usize,
                 height: height as usize,
-- 
2.43.0


From ac9bf1defd14379324cce0fd6c1e29b3774a4277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:50 +0000
Subject: [PATCH 94/97] fix: read AVIF input completely before parsing it

---
 src/codecs/avif/decoder.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/codecs/avif/decoder.rs b/src/codecs/avif/decoder.rs
index 30329c0..ea512ed 100644
--- a/src/codecs/avif/decoder.rs
+++ b/src/codecs/avif/decoder.rs
@@ -67,10 +67,15 @@ impl Error for AvifDecoderError {}
 impl<R: Read> AvifDecoder<R> {
     /// Create a new decoder that reads its input from `r`.
     pub fn new(mut r: R) -> ImageResult<Self> {
-        let ctx = read_avif(&mut r, ParseStrictness::Normal).map_err(|err| match err {
-            mp4parse::Error::Io(err) => ImageError::IoError(err),
-            err => error_map(err),
-        })?;
+        // The parser takes a short read in some places for the end of the data and
+        // keeps all of it in memory anyway, so that it is given all there is at once
+        let mut data = Vec::new();
+        r.read_to_end(&mut data)?;
+        let ctx =
+            read_avif(&mut data.as_slice(), ParseStrictness::Normal).map_err(|err| match err {
+                mp4parse::Error::Io(err) => ImageError::IoError(err),
+                err => error_map(err),
+            })?;
         let coded = ctx.primary_item_coded_data().unwrap_or_default();
 
         let mut primary_decoder = dav1d::Decoder::new().map_err(error_map)?;
-- 
2.43.0


From 865f4bfc44e2f3b938a80f7ab4626c2705ed3c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:48 +0000
Subject: [PATCH 95/97] fix: refuse BMP sizes that the header cannot hold

---
 src/codecs/bmp/encoder.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/codecs/bmp/encoder.rs b/src/codecs/bmp/encoder.rs
index c516f69..48f27c6 100644
--- a/src/codecs/bmp/encoder.rs
+++ b/src/codecs/bmp/encoder.rs
@@ -77,7 +77,8 @@ impl<'a, W: Write + 'a> BmpEncoder<'a, W> {
             image.len(),
         );
 
-        if width == 0 || height == 0 {
+        // The header stores both sides as signed 32 bit numbers.
+        if width == 0 || height == 0 || i32::try_from(width.max(height)).is_err() {
             return Err(ImageError::Parameter(ParameterError::from_kind(
                 ParameterErrorKind::DimensionMismatch,
             )));
@@ -87,11 +88,11 @@ impl<'a, W: Write + 'a> BmpEncoder<'a, W> {
 
         let (dib_header_size, written_pixel_size, palette_color_count) =
             get_pixel_info(c, palette)?;
-        let row_pad_size = (4 - (width * written_pixel_size) % 4) % 4; // each row must be padded to a multiple of 4 bytes
+        let row_pad_size = (4 - width.wrapping_mul(written_pixel_size) % 4) % 4; // each row must be padded to a multiple of 4 bytes
         let image_size = width
             .checked_mul(height)
             .and_then(|v| v.checked_mul(written_pixel_size))
-            .and_then(|v| v.checked_add(height * row_pad_size))
+            .and_then(|v| v.checked_add(height.checked_mul(row_pad_size)?))
             .ok_or_else(|| {
                 ImageError::Parameter(ParameterError::from_kind(
                     ParameterErrorKind::DimensionMismatch,
-- 
2.43.0


From 51e6a134139e1f2bf51e545a949db5df93d7cece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:48 +0000
Subject: [PATCH 96/97] fix: refuse PNG sizes beyond 31 bits

---
 src/codecs/png.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/codecs/png.rs b/src/codecs/png.rs
index be7f400..d413c26 100644
--- a/src/codecs/png.rs
+++ b/src/codecs/png.rs
@@ -608,6 +608,13 @@ impl<W: Write> PngEncoder<W> {
             FilterType::Adaptive => (png::FilterType::Sub, png::AdaptiveFilterType::Adaptive),
         };
 
+        // PNG limits both sides to 31 bits.
+        if i32::try_from(width.max(height)).is_err() {
+            return Err(ImageError::Parameter(ParameterError::from_kind(
+                ParameterErrorKind::DimensionMismatch,
+            )));
+        }
+
         let mut info = png::Info::with_size(width, height);
 
         if !self.icc_profile.is_empty() {
-- 
2.43.0


From 415ee893f28eeac0d7e1a2803f619005a5f25bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:25 +0000
Subject: [PATCH 97/97] fix: bound the values of TIFF tags without an
 allocation limit

---
 src/codecs/tiff.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/codecs/tiff.rs b/src/codecs/tiff.rs
index 8598215..3d8bd1a 100644
--- a/src/codecs/tiff.rs
+++ b/src/codecs/tiff.rs
@@ -247,7 +247,15 @@ impl<R: BufRead + Seek> ImageDecoder for TiffDecoder<R> {
         let max_intermediate_alloc = max_alloc.saturating_sub(self.total_bytes_buffer());
 
         let mut tiff_limits: tiff::decoder::Limits = Default::default();
-        tiff_limits.decoding_buffer_size = usize::try_from(max_alloc).unwrap_or(usize::MAX);
+        // This also limits values of tags, whose declared length need not be backed by any data:
+        // without a limit of the user's they still get no more than the pixels or the default.
+        let max_decoding_alloc = crate::Limits::default()
+            .max_alloc
+            .unwrap_or(u64::MAX)
+            .max(self.total_bytes_buffer())
+            .min(max_alloc);
+        tiff_limits.decoding_buffer_size =
+            usize::try_from(max_decoding_alloc).unwrap_or(usize::MAX);
         tiff_limits.intermediate_buffer_size =
             usize::try_from(max_intermediate_alloc).unwrap_or(usize::MAX);
         tiff_limits.ifd_value_size = tiff_limits.intermediate_buffer_size;
-- 
2.43.0

