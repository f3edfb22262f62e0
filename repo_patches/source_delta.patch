From cd0fdedf18fd2d6485d0daadd5ec99930b16b9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:55 +0000
Subject: [PATCH 1/9] sim hook: re-export internal traits and types under
 cfg(pt_sim)

---
 src/lib.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 54aad5e..7934126 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -40,3 +40,23 @@
 #[allow(dead_code, unused_variables)] mod transform;
 #[allow(dead_code, unused_variables)] mod vector;
 pub mod api;
+
+/// Simulation hook: the traits and types a simulated component has to name, off in every normal build.
+#[allow(unexpected_cfgs)]
+#[cfg(pt_sim)]
+pub mod sim {
+    pub use bbox::{BBox2i, BBox3f};
+    pub use camera::{Camera, CameraSample};
+    pub use container::Container;
+    pub use container_simple::Simple;
+    pub use film::FilmTile;
+    pub use filter::Filter;
+    pub use interaction::Interaction;
+    pub use light::VisibilityTester;
+    pub use ray::Ray;
+    pub use reflection::{BSDF, BxDF};
+    pub use sampler::Sampler;
+    pub use scene::Scene;
+    pub use texture::{Texture, TextureFloat, TextureSpectrum};
+    pub use vector::{Normal3f, Point2i};
+}
-- 
2.43.0


From e23997e986faaf6699d297c900e0a6378e16ffa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:39 +0000
Subject: [PATCH 2/9] fix: truncate output.ppm before writing the image

A longer file left by an earlier render (or anything else) kept its tail
behind the new image.
---
 src/integrator.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/integrator.rs b/src/integrator.rs
index 2f97e55..091eb3b 100644
--- a/src/integrator.rs
+++ b/src/integrator.rs
@@ -75,6 +75,7 @@ impl<Co, Cam, S> Integrator<Co, Cam, S> where Co: 'static + Container, Cam: 'sta
             OpenOptions::new()
                 .write(true)
                 .create(true)
+                .truncate(true)
                 .open("output.ppm")
                 .unwrap()
         );
-- 
2.43.0


From 337daebd1b062d2c11a8b11a88ff66acc47baf2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:39 +0000
Subject: [PATCH 3/9] fix: report errors of the last buffered write of the
 image

The BufWriter was only flushed when dropped, which discards the error:
render returned normally with a truncated image.
---
 src/film.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/film.rs b/src/film.rs
index c967f36..dec9a5d 100644
--- a/src/film.rs
+++ b/src/film.rs
@@ -103,6 +103,8 @@ impl Film {
                 b as u32,
             ).as_bytes()).unwrap();
         }
+
+        file.flush().unwrap();
     }
 }
 
-- 
2.43.0


From 37cc2d35ff08ea6feb608f7abe4cd5e3d2930891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:00 +0000
Subject: [PATCH 4/9] fix: compute Halton sample indices and radical inverses
 in 64 bits

With many samples per pixel, or in high dimensions already after about a
hundred samples on a full-size film, the 32-bit arithmetic overflowed: a
panic in debug builds, repeated and out-of-range sample values in release
builds.
---
 src/sampler_halton.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/sampler_halton.rs b/src/sampler_halton.rs
index 96557bf..cca05c8 100644
--- a/src/sampler_halton.rs
+++ b/src/sampler_halton.rs
@@ -20,7 +20,7 @@ pub struct HaltonSampler {
     // Next dimension
     dimension: u32,
     // Index of sample in current pixel
-    interval_sample_index: u32,
+    interval_sample_index: u64,
 
     // Halton sampler
     base_scale: Point2u,
@@ -72,7 +72,7 @@ impl HaltonSampler {
     }
 
     /// Return index to the sample in the overall set of samples based on current pixel and sample index.
-    fn get_index_for_sample(&mut self) -> u32 {
+    fn get_index_for_sample(&mut self) -> u64 {
         if self.pixel_for_offset != self.current_pixel {
             self.offset_for_current_pixel = 0;
             if self.sample_stride > 1 {
@@ -91,14 +91,14 @@ impl HaltonSampler {
 
             self.pixel_for_offset = self.current_pixel;
         }
-        return self.offset_for_current_pixel + self.current_pixel_sample_index * self.sample_stride;
+        return self.offset_for_current_pixel as u64 + self.current_pixel_sample_index as u64 * self.sample_stride as u64;
     }
 
     /// Return sample value for the given dimension of the indexth sample in the overall set of samples.
-    fn sample_dimension(&self, index: u32, d: u32) -> f32 {
+    fn sample_dimension(&self, index: u64, d: u32) -> f32 {
         match d {
             0 => radical_inverse_prime(0, index >> self.base_exp.x),
-            1 => radical_inverse_prime(1, index / self.base_scale.y),
+            1 => radical_inverse_prime(1, index / self.base_scale.y as u64),
             _ => radical_inverse_prime(d, index),
         }
     }
@@ -141,7 +141,8 @@ impl Sampler for HaltonSampler {
     }
 }
 
-fn radical_inverse(base: u32, mut a: u32) -> f32 {
+fn radical_inverse(base: u32, mut a: u64) -> f32 {
+    let base = base as u64;
     let mut x = 0;
     let mut base_n = 1;
     while a > 0 {
@@ -152,7 +153,7 @@ fn radical_inverse(base: u32, mut a: u32) -> f32 {
     return ONE_MINUS_EPSILON.min(x as f32 / base_n as f32);
 }
 
-fn radical_inverse_prime(base_index: u32, a: u32) -> f32 {
+fn radical_inverse_prime(base_index: u32, a: u64) -> f32 {
     match base_index {
         00 => radical_inverse(2, a),
         01 => radical_inverse(3, a),
-- 
2.43.0


From c195e39fe205b1a8c77ecc2962a9a69075690bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:00 +0000
Subject: [PATCH 5/9] fix: give every clone of RandomSampler a random stream of
 its own

render clones the sampler for each worker and again after each tile, so
all workers used one and the same sequence of random numbers.
---
 src/sampler_random.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/sampler_random.rs b/src/sampler_random.rs
index e64abf6..3e46ffd 100644
--- a/src/sampler_random.rs
+++ b/src/sampler_random.rs
@@ -4,7 +4,6 @@ use self::rand::{Rng, StdRng};
 use sampler::Sampler;
 use vector::{Point2i, Point2f};
 
-#[derive(Clone)]
 pub struct RandomSampler {
     // General sampler
     samples_per_pixel: u32,
@@ -23,6 +22,18 @@ impl RandomSampler {
     }
 }
 
+/// A clone draws from a stream of its own: workers render with clones of one sampler
+/// and must not repeat each other's random numbers.
+impl Clone for RandomSampler {
+    fn clone(&self) -> RandomSampler {
+        RandomSampler {
+            samples_per_pixel: self.samples_per_pixel,
+            current_pixel_sample_index: self.current_pixel_sample_index,
+            rng: StdRng::new().unwrap(),
+        }
+    }
+}
+
 impl Sampler for RandomSampler {
     fn start_pixel(&mut self, _: Point2i) {
         self.current_pixel_sample_index = 0;
-- 
2.43.0


From 996ff702a69ca3f50ac3685ee5f7ce4a5d660f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:00 +0000
Subject: [PATCH 6/9] fix: do not panic when the invalid-radiance warning
 cannot be written

eprintln panics when standard error is closed or full, which lost the
whole rendering over one discarded sample.
---
 src/integrator.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/integrator.rs b/src/integrator.rs
index 091eb3b..258e1e5 100644
--- a/src/integrator.rs
+++ b/src/integrator.rs
@@ -1,6 +1,6 @@
 use std::cmp::min;
 use std::fs::OpenOptions;
-use std::io::BufWriter;
+use std::io::{stderr, BufWriter, Write};
 use std::sync::{Arc, Mutex};
 use std::thread::spawn;
 
@@ -106,7 +106,8 @@ impl<Co, Cam> IntegratorLocal<Co, Cam> where Co: 'static + Container, Cam: 'stat
                 if !(0..3).any(|i| l[i].is_nan() || l[i].is_infinite() || l[i] < 0.) {
                     tile.add_sample(camera_sample.p_film, l);
                 } else {
-                    eprintln!("Invalid radiance {:?} in pixel {:?}", l, pixel);
+                    // An unwritable standard error must not end the rendering.
+                    let _ = writeln!(stderr(), "Invalid radiance {:?} in pixel {:?}", l, pixel);
                 }
 
                 if !sampler.start_next_sample() {
-- 
2.43.0


From 51f66418a1b1bb288257cf30ae8c274b4107c1ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:25 +0000
Subject: [PATCH 7/9] fix: write the nearest level of each pixel value

Adding a half before rounding to the nearest raised every level by half a step: black came out as 1.
---
 src/film.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/film.rs b/src/film.rs
index dec9a5d..5ed8ab4 100644
--- a/src/film.rs
+++ b/src/film.rs
@@ -93,7 +93,7 @@ impl Film {
         for p in pixels.iter() {
             let mut color = p.color;
             for i in 0..3 {
-                color[i] = clamp(gamma_correct(color[i] / p.filter_weight_sum) * 255. + 0.5, 0., 255.).round();
+                color[i] = clamp(gamma_correct(color[i] / p.filter_weight_sum) * 255., 0., 255.).round();
             }
             let Spectrum { r, g, b } = color;
             file.write_all(format!(
-- 
2.43.0


From 6212f3ecc3c500aad4e7c251f583f0393f878341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:51 +0000
Subject: [PATCH 8/9] fix: render into a blank film each time, so that a failed
 rendering does not spoil the next

The film of an Integrator kept what a rendering had merged when it failed, so that
the next one counted a part of the samples twice, and after a failed write its lock
was poisoned and every further rendering failed.
---
 src/film.rs       | 10 ++++++++++
 src/integrator.rs |  6 ++++--
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/film.rs b/src/film.rs
index 5ed8ab4..c77d2a6 100644
--- a/src/film.rs
+++ b/src/film.rs
@@ -50,6 +50,16 @@ impl Film {
         return Film { resolution, filter_radius, filter_table, pixels };
     }
 
+    /// A film of the same kind that holds no samples.
+    pub fn blank(&self) -> Film {
+        let area = (self.resolution.x * self.resolution.y) as usize;
+        let pixels = (0..area).map(|_| Pixel::default()).collect::<Vec<_>>();
+        return Film {
+            pixels: Mutex::new(pixels.into_boxed_slice()),
+            ..*self
+        };
+    }
+
     pub fn sample_bbox(&self) -> BBox2i {
         BBox2i::new(
             Point2i::from((Point2f::default()             + HALF_PIXEL - self.filter_radius).floor()),
diff --git a/src/integrator.rs b/src/integrator.rs
index 258e1e5..dc3039a 100644
--- a/src/integrator.rs
+++ b/src/integrator.rs
@@ -40,13 +40,15 @@ impl<Co, Cam, S> Integrator<Co, Cam, S> where Co: 'static + Container, Cam: 'sta
 
     pub fn render(&self, max_threads: u8) {
         let film_tile_iter = Arc::new(Mutex::new(self.film.iter()));
+        // What an earlier rendering left behind, perhaps in part, does not count.
+        let film = Arc::new(self.film.blank());
 
         let mut handles = Vec::new();
         for _ in 0..max_threads {
             let scene = self.scene.clone();
             let sampler = self.sampler.clone();
             let camera = self.camera.clone();
-            let film = self.film.clone();
+            let film = film.clone();
             let film_tile_iter = film_tile_iter.clone();
 
             let handle = spawn(move || {
@@ -79,7 +81,7 @@ impl<Co, Cam, S> Integrator<Co, Cam, S> where Co: 'static + Container, Cam: 'sta
                 .open("output.ppm")
                 .unwrap()
         );
-        self.film.write_image_ppm(&mut file);
+        film.write_image_ppm(&mut file);
     }
 }
 
-- 
2.43.0


From 5f063311b2204ce88423bb39a2af78f7036dd986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:00 +0000
Subject: [PATCH 9/9] fix: a scene without shapes has nothing to bound and does
 not panic

---
 src/bbox.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/bbox.rs b/src/bbox.rs
index 6874096..59d1655 100644
--- a/src/bbox.rs
+++ b/src/bbox.rs
@@ -23,7 +23,11 @@ impl BBox3f {
     }
 
     pub fn bbox_of_shapes(shapes: &[Arc<Shape>]) -> BBox3f {
-        shapes[1..].iter().fold(shapes[0].bbox(), |bbox, s| bbox.union(&s.bbox()))
+        match shapes.split_first() {
+            Some((first, rest)) => rest.iter().fold(first.bbox(), |bbox, s| bbox.union(&s.bbox())),
+            // nothing to bound
+            None => BBox3f::new(Point3f::default(), Point3f::default()),
+        }
     }
 
     pub fn diagonal(&self) -> Vector3f {
-- 
2.43.0

