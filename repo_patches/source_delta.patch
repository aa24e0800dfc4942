From 98bdff6f63396ab360fef2145dcc9bd63b39c5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:10 +0000
Subject: [PATCH 01/24] fix: truncate output.ppm before writing the image

A smaller image written over a larger file left the old tail in place.
---
 src/integrator.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/integrator.rs b/src/integrator.rs
index 2f97e55..091eb3b 100644
--- a/src/integrator.rs
+++ b/src/integrator.rs
@@ -75,6 +75,7 @@ impl<Co, Cam, S> Integrator<Co, Cam, S> where Co: 'static + Container, Cam: 'sta
             OpenOptions::new()
                 .write(true)
                 .create(true)
+                .truncate(true)
                 .open("output.ppm")
                 .unwrap()
         );
-- 
2.43.0


From e2dd976f1d77d23bef63fedc219330eabd4100aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:10 +0000
Subject: [PATCH 02/24] fix: flush the image writer so that late write errors
 are reported

The BufWriter was dropped with data still buffered, which swallows errors.
---
 src/film.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/film.rs b/src/film.rs
index c967f36..dec9a5d 100644
--- a/src/film.rs
+++ b/src/film.rs
@@ -103,6 +103,8 @@ impl Film {
                 b as u32,
             ).as_bytes()).unwrap();
         }
+
+        file.flush().unwrap();
     }
 }
 
-- 
2.43.0


From 85093007f23a0f5e7a0fd8aadc933a317b4e17aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:10 +0000
Subject: [PATCH 03/24] fix: round color values to 8 bits once

Adding 0.5 before round() wrote black as 1.
---
 src/film.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/film.rs b/src/film.rs
index dec9a5d..5ed8ab4 100644
--- a/src/film.rs
+++ b/src/film.rs
@@ -93,7 +93,7 @@ impl Film {
         for p in pixels.iter() {
             let mut color = p.color;
             for i in 0..3 {
-                color[i] = clamp(gamma_correct(color[i] / p.filter_weight_sum) * 255. + 0.5, 0., 255.).round();
+                color[i] = clamp(gamma_correct(color[i] / p.filter_weight_sum) * 255., 0., 255.).round();
             }
             let Spectrum { r, g, b } = color;
             file.write_all(format!(
-- 
2.43.0


From 914c79b5f8397776633caa39d879ce5f6ddd36dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:10 +0000
Subject: [PATCH 04/24] fix: multiplicative_inverse of a negative Bezout
 coefficient

|x| mod n is not the inverse when x is negative; reduce x modulo n instead.
---
 src/sampler_halton.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sampler_halton.rs b/src/sampler_halton.rs
index 96557bf..271fb7f 100644
--- a/src/sampler_halton.rs
+++ b/src/sampler_halton.rs
@@ -1194,7 +1194,8 @@ fn inverse_radical_inverse(base: u32, mut a: u32, n_digits: u32) -> u32 {
 
 fn multiplicative_inverse(a: u32, n: u32) -> u32 {
     let (x, _) = extended_gcd(a, n);
-    return x.abs() as u32 % n;
+    let n = n as i64;
+    return ((x % n + n) % n) as u32;
 }
 
 // Extended Euclidean algorithm
-- 
2.43.0


From e25469aef6e896c31a174d03d519a637246a5b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:10 +0000
Subject: [PATCH 05/24] fix: overflow in radical_inverse

base_n exceeds u32 as soon as a * base does.
---
 src/sampler_halton.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sampler_halton.rs b/src/sampler_halton.rs
index 271fb7f..9e2c06d 100644
--- a/src/sampler_halton.rs
+++ b/src/sampler_halton.rs
@@ -142,12 +142,12 @@ impl Sampler for HaltonSampler {
 }
 
 fn radical_inverse(base: u32, mut a: u32) -> f32 {
-    let mut x = 0;
-    let mut base_n = 1;
+    let mut x: u64 = 0;
+    let mut base_n: u64 = 1;
     while a > 0 {
-        x = x * base + a % base;
+        x = x * base as u64 + (a % base) as u64;
         a /= base;
-        base_n *= base;
+        base_n *= base as u64;
     }
     return ONE_MINUS_EPSILON.min(x as f32 / base_n as f32);
 }
-- 
2.43.0


From 5c097cf32813414fdede0a635333e50549b820f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:10 +0000
Subject: [PATCH 06/24] fix: fall back to the geometric normal when vertex
 normals cancel out

---
 src/shape_triangle.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/shape_triangle.rs b/src/shape_triangle.rs
index ada87d5..b4cf146 100644
--- a/src/shape_triangle.rs
+++ b/src/shape_triangle.rs
@@ -238,7 +238,7 @@ impl Shape for Triangle {
                + vertex_normals[1] * b1
                + vertex_normals[2] * b2;
             let len = sn.length();
-            if len >= 0. {
+            if len > 0. {
                 sn /= len;
             } else {
                 sn = n;
-- 
2.43.0


From bb4a167275379a5df589f791f0e6bc00fea56fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:10 +0000
Subject: [PATCH 07/24] fix: NaN partial derivatives at the poles of a sphere

---
 src/shape_sphere.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/shape_sphere.rs b/src/shape_sphere.rs
index 417b457..afb1135 100644
--- a/src/shape_sphere.rs
+++ b/src/shape_sphere.rs
@@ -76,12 +76,14 @@ impl Sphere {
 
         let p_err = Vector3f::from(p).abs() * gamma(5.);
 
+        // avoid the singularity of the parameterization at the poles
+        let mut p_param = p;
+        if p_param.x == 0. && p_param.y == 0. {
+            p_param.x = 1e-5 * self.radius;
+        }
+
         let phi = {
-            let mut p = p;
-            if p.x == 0. && p.y == 0. {
-                p.x = 1e-5 * self.radius;
-            }
-            let mut phi = p.y.atan2(p.x);
+            let mut phi = p_param.y.atan2(p_param.x);
             if phi < 0. {
                 phi += PI * 2.;
             }
@@ -92,7 +94,7 @@ impl Sphere {
 
         let n = Normal3f::from(p.normalize());
 
-        let (dpdu, dpdv) = self.compute_partial_derivative(p);
+        let (dpdu, dpdv) = self.compute_partial_derivative(p_param);
 
         return (
             Interaction {
-- 
2.43.0


From 337f51eab4d324f96993e51d7f210fb1e78dbf26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:10 +0000
Subject: [PATCH 08/24] fix: russian roulette survives with probability 0 and
 divides by it

A sample of exactly 0 passed the test for q == 0.
---
 src/integrator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/integrator.rs b/src/integrator.rs
index 091eb3b..44c6b65 100644
--- a/src/integrator.rs
+++ b/src/integrator.rs
@@ -221,7 +221,7 @@ impl<Co, Cam> IntegratorLocal<Co, Cam> where Co: 'static + Container, Cam: 'stat
             bounces += 1;
             if bounces > 3 {
                 let q = beta.y().min(0.95);
-                if sampler.get_1d() > q {
+                if sampler.get_1d() >= q {
                     break;
                 }
                 beta /= q;
-- 
2.43.0


From a558c8063ae73b3fef668d102d784bbd3551b003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:44 +0000
Subject: [PATCH 09/24] fix: light seen through a specular bounce was counted
 twice

estimate_direct() added it and li() added it again at the next vertex.
---
 src/integrator.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/integrator.rs b/src/integrator.rs
index 44c6b65..8c13b40 100644
--- a/src/integrator.rs
+++ b/src/integrator.rs
@@ -148,15 +148,13 @@ impl<Co, Cam> IntegratorLocal<Co, Cam> where Co: 'static + Container, Cam: 'stat
             let (wi, mut f, scattering_pdf, bxdf_flag) = bsdf.sample_f(i.wo, sample1);
             f *= wi.dot_n(i.sn).abs();
             let sampled_specular = bxdf_flag & SPECULAR != 0;
-            if scattering_pdf > 0. && !f.is_black() {
-                let mut weight = 1.;
-                if !sampled_specular {
-                    let light_pdf = light.pdf_li(i, wi);
-                    if light_pdf == 0. {
-                        return ld;
-                    }
-                    weight = power_heuristic(1, scattering_pdf, 1, light_pdf);
+            // light seen through a specular bounce is added by li()
+            if scattering_pdf > 0. && !f.is_black() && !sampled_specular {
+                let light_pdf = light.pdf_li(i, wi);
+                if light_pdf == 0. {
+                    return ld;
                 }
+                let weight = power_heuristic(1, scattering_pdf, 1, light_pdf);
 
                 let ray = i.spawn_ray(wi);
                 let light_i = self.scene.intersect(&ray);
-- 
2.43.0


From 8917428368002b63f9742e54269f66552e58da68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:44 +0000
Subject: [PATCH 10/24] fix: density of sample_wh is D(wh) * cos(theta)

---
 src/microfacet.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/microfacet.rs b/src/microfacet.rs
index 2c4573e..fa632a3 100644
--- a/src/microfacet.rs
+++ b/src/microfacet.rs
@@ -76,6 +76,6 @@ impl MicrofacetDistribution {
     }
 
     pub fn pdf(&self, wo: Vector3f, wh: Vector3f) -> f32 {
-        self.d(wh) / abs_cos_theta(wh)
+        self.d(wh) * abs_cos_theta(wh)
     }
 }
-- 
2.43.0


From 9ca7a7d447a8e93bec8a933ded0bea8ae1072384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:44 +0000
Subject: [PATCH 11/24] fix: bounding box of an empty shape list

Building a container for a scene without shapes panicked.
---
 src/bbox.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bbox.rs b/src/bbox.rs
index 6874096..e7e09c6 100644
--- a/src/bbox.rs
+++ b/src/bbox.rs
@@ -23,6 +23,9 @@ impl BBox3f {
     }
 
     pub fn bbox_of_shapes(shapes: &[Arc<Shape>]) -> BBox3f {
+        if shapes.is_empty() {
+            return BBox3f::new(Point3f::default(), Point3f::default());
+        }
         shapes[1..].iter().fold(shapes[0].bbox(), |bbox, s| bbox.union(&s.bbox()))
     }
 
-- 
2.43.0


From b1edc68a6e4bcc46d6b182edabd50276c572d0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:44 +0000
Subject: [PATCH 12/24] fix: normal of a sampled point of a triangle with
 vertex normals

It could face the other side than the normal found by intersect().
---
 src/shape_triangle.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/shape_triangle.rs b/src/shape_triangle.rs
index b4cf146..9907236 100644
--- a/src/shape_triangle.rs
+++ b/src/shape_triangle.rs
@@ -304,8 +304,21 @@ impl Shape for Triangle {
                       + (vs_o[2] * b2).abs();
         let p_err = Vector3f::from(p_abs_sum) * gamma(7.);
 
+        // face the same side as in intersect()
         let mut n = Normal3f::from((vs_o[1] - vs_o[0]).cross(vs_o[2] - vs_o[0]).normalize());
+        let mut sn = n;
+        if let Some(vertex_normals) = self.vertex_normals {
+            let vn = vertex_normals[0] * b0
+                   + vertex_normals[1] * b1
+                   + vertex_normals[2] * b2;
+            if vn.length() > 0. {
+                sn = vn;
+            }
+        }
         if self.reverse_orientation {
+            sn *= -1.;
+        }
+        if n.dot(sn) < 0. {
             n *= -1.;
         }
 
-- 
2.43.0


From e9df3ac1ddf1ac220c6d3a3e2aed8eaa2b7e3849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:44 +0000
Subject: [PATCH 13/24] fix: density of light samples with respect to solid
 angle

It was the density with respect to area, so that distance and angle of the
light had no effect, while BSDF samples are weighted per solid angle.
---
 src/shape.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/shape.rs b/src/shape.rs
index ce32b2a..e5d4b3d 100644
--- a/src/shape.rs
+++ b/src/shape.rs
@@ -32,8 +32,16 @@ pub trait Shape : Sync + Send {
         self.sample(sample)
     }
 
+    /// Density, with respect to solid angle, of sampling the direction wi from ref_i.
     fn pdf(&self, ref_i: &Interaction, wi: Vector3f) -> f32 {
-        1. / self.area()
+        match self.intersect(&ref_i.spawn_ray(wi)) {
+            Some((i, _)) => {
+                let d = i.p - ref_i.p;
+                let pdf = d.dot(d) / (wi.dot_n(i.n).abs() * self.area());
+                if pdf.is_finite() { pdf } else { 0. }
+            },
+            None => 0.,
+        }
     }
 
     fn l(&self, i: &Interaction, w: Vector3f) -> Spectrum {
-- 
2.43.0


From 47c60df13fa536bb5024762ae61e5d664ebf2d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:44 +0000
Subject: [PATCH 14/24] fix: sampling of a spherical area light panicked

---
 src/shape_sphere.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/shape_sphere.rs b/src/shape_sphere.rs
index afb1135..39712a8 100644
--- a/src/shape_sphere.rs
+++ b/src/shape_sphere.rs
@@ -145,7 +145,18 @@ impl Shape for Sphere {
     }
 
     fn sample(&self, sample: Point2f) -> Interaction {
-        unimplemented!()
+        let z = 1. - 2. * sample[0];
+        let r = (1. - z * z).max(0.).sqrt();
+        let n = Vector3f::from_spherical_direction(r, z, 2. * PI * sample[1]);
+        let p = Point3f::from(n) * self.radius;
+        let p_err = Vector3f::from(p).abs() * gamma(5.);
+
+        return Interaction {
+            p: self.local_to_world(p),
+            p_err,
+            n: Normal3f::from(n),
+            ..Default::default()
+        };
     }
 }
 
-- 
2.43.0


From 0a26065d9c4b3f3752b7126a3156cb6095f3f905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:02 +0000
Subject: [PATCH 15/24] fix: render threads drew the same random numbers

Every thread got a copy of the generator state of one RandomSampler.
---
 src/sampler_random.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/sampler_random.rs b/src/sampler_random.rs
index e64abf6..db6db53 100644
--- a/src/sampler_random.rs
+++ b/src/sampler_random.rs
@@ -4,7 +4,6 @@ use self::rand::{Rng, StdRng};
 use sampler::Sampler;
 use vector::{Point2i, Point2f};
 
-#[derive(Clone)]
 pub struct RandomSampler {
     // General sampler
     samples_per_pixel: u32,
@@ -23,6 +22,17 @@ impl RandomSampler {
     }
 }
 
+/// A clone draws its own random numbers.
+impl Clone for RandomSampler {
+    fn clone(&self) -> RandomSampler {
+        RandomSampler {
+            samples_per_pixel: self.samples_per_pixel,
+            current_pixel_sample_index: self.current_pixel_sample_index,
+            rng: StdRng::new().unwrap(),
+        }
+    }
+}
+
 impl Sampler for RandomSampler {
     fn start_pixel(&mut self, _: Point2i) {
         self.current_pixel_sample_index = 0;
-- 
2.43.0


From 4a007e5c177b1aafa7c186b9b86ae55271867dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:33 +0000
Subject: [PATCH 16/24] fix: visit the remaining k-d tree nodes if the ray lies
 in a split plane

---
 src/container_kdtree.rs | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/container_kdtree.rs b/src/container_kdtree.rs
index 2e4bdcb..b6995fe 100644
--- a/src/container_kdtree.rs
+++ b/src/container_kdtree.rs
@@ -228,11 +228,9 @@ impl Container for KdTree {
 
         let mut node_i = 0;
         loop {
-            if ray.t_max < t_min {
-                break;
-            }
-
-            let node = &self.nodes[node_i];
+            // skip the node if it is beyond the ray
+            // the remaining nodes still have to be visited, t_min and t_max are NaN or Infinity if the ray lies in a split plane
+            let node = if ray.t_max < t_min { &Node::Empty } else { &self.nodes[node_i] };
             if let &Node::Split(axis, t, above_index) = node {
                 let t_split = (t - ray.origin[axis]) / ray.direction[axis];
 
@@ -311,11 +309,9 @@ impl Container for KdTree {
         let mut interaction = None;
         let mut node_i = 0;
         loop {
-            if ray.t_max < t_min {
-                break;
-            }
-
-            let node = &self.nodes[node_i];
+            // skip the node if it is beyond the ray
+            // the remaining nodes still have to be visited, t_min and t_max are NaN or Infinity if the ray lies in a split plane
+            let node = if ray.t_max < t_min { &Node::Empty } else { &self.nodes[node_i] };
             if let &Node::Split(axis, t, above_index) = node {
                 let t_split = (t - ray.origin[axis]) / ray.direction[axis];
 
-- 
2.43.0


From 10088373b19080ca5314a4b291a446566e198240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:38 +0000
Subject: [PATCH 17/24] fix: transform all corners of a bounding box

---
 src/transform.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/transform.rs b/src/transform.rs
index 1be8cf1..ca10d53 100644
--- a/src/transform.rs
+++ b/src/transform.rs
@@ -231,10 +231,16 @@ impl Transformable for Point3f {
 
 impl Transformable for BBox3f {
     fn _transform(&self, m: &Matrix, m_inv: &Matrix) -> BBox3f {
-        BBox3f::new(
-            self.min._transform(m, m_inv),
-            self.max._transform(m, m_inv),
-        )
+        let BBox3f { min, max } = *self;
+        let corner = |x: f32, y: f32, z: f32| Point3f::new(x, y, z)._transform(m, m_inv);
+        // the images of min and max alone do not bound the image of the box
+        return BBox3f::new(corner(min.x, min.y, min.z), corner(max.x, max.y, max.z))
+            .union_point(corner(max.x, min.y, min.z))
+            .union_point(corner(min.x, max.y, min.z))
+            .union_point(corner(min.x, min.y, max.z))
+            .union_point(corner(max.x, max.y, min.z))
+            .union_point(corner(max.x, min.y, max.z))
+            .union_point(corner(min.x, max.y, max.z));
     }
 }
 
-- 
2.43.0


From 14f89b403f6eb2d04dd7d3288cdbe530d051280d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:49 +0000
Subject: [PATCH 18/24] fix: an error bound stays a bound under transforms

---
 src/transform.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/transform.rs b/src/transform.rs
index ca10d53..eac51f6 100644
--- a/src/transform.rs
+++ b/src/transform.rs
@@ -256,9 +256,16 @@ impl Transformable for Ray {
 
 impl Transformable for Interaction {
     fn _transform(&self, m: &Matrix, m_inv: &Matrix) -> Interaction {
+        // absolute values of the matrix: the errors of the coordinates add up whatever their signs
+        let p_err = Vector3f::new(
+            m[0][0].abs() * self.p_err.x + m[0][1].abs() * self.p_err.y + m[0][2].abs() * self.p_err.z,
+            m[1][0].abs() * self.p_err.x + m[1][1].abs() * self.p_err.y + m[1][2].abs() * self.p_err.z,
+            m[2][0].abs() * self.p_err.x + m[2][1].abs() * self.p_err.y + m[2][2].abs() * self.p_err.z,
+        );
+
         Interaction {
             p: self.p._transform(m, m_inv),
-            p_err: self.p_err._transform(m, m_inv),
+            p_err,
             uv: self.uv,
             n: self.n._transform(m, m_inv),
             sn: self.sn._transform(m, m_inv),
-- 
2.43.0


From fcbd81234693d4d04555c4bcb9bf1a3a6d7e3f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:50 +0000
Subject: [PATCH 19/24] fix: transformed interactions keep unit normals

---
 src/transform.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/transform.rs b/src/transform.rs
index eac51f6..43a0caa 100644
--- a/src/transform.rs
+++ b/src/transform.rs
@@ -254,6 +254,12 @@ impl Transformable for Ray {
     }
 }
 
+/// The inverse transpose does not preserve the length of a normal. A missing (zero) normal stays missing.
+fn unit_normal(n: Normal3f) -> Normal3f {
+    let len = n.length();
+    if len > 0. { n / len } else { n }
+}
+
 impl Transformable for Interaction {
     fn _transform(&self, m: &Matrix, m_inv: &Matrix) -> Interaction {
         // absolute values of the matrix: the errors of the coordinates add up whatever their signs
@@ -267,8 +273,8 @@ impl Transformable for Interaction {
             p: self.p._transform(m, m_inv),
             p_err,
             uv: self.uv,
-            n: self.n._transform(m, m_inv),
-            sn: self.sn._transform(m, m_inv),
+            n: unit_normal(self.n._transform(m, m_inv)),
+            sn: unit_normal(self.sn._transform(m, m_inv)),
             dpdu: self.dpdu._transform(m, m_inv),
             dpdv: self.dpdv._transform(m, m_inv),
             wo: self.wo._transform(m, m_inv),
-- 
2.43.0


From 3435ed0f5422989d64d96d61c2cf32cdf50932fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:44 +0000
Subject: [PATCH 20/24] fix: test the geometric normal when the only BxDF is
 sampled, too

---
 src/reflection.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reflection.rs b/src/reflection.rs
index e01137b..f14ccd4 100644
--- a/src/reflection.rs
+++ b/src/reflection.rs
@@ -119,7 +119,7 @@ impl BSDF {
         }
         let wi_w = self.local_to_world(wi);
 
-        if !bxdf.has_flag(SPECULAR) && n_bxdfs > 1 {
+        if !bxdf.has_flag(SPECULAR) {
             for i in 0..n_bxdfs {
                 if i != n_bxdf {
                     pdf += self.bxdfs[i].pdf(wo, wi);
-- 
2.43.0


From be603c02747a6156a8bc09122a57649a7df0f4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:44 +0000
Subject: [PATCH 21/24] fix: evaluate the Fresnel term of glossy reflection
 inside an object from the inside

---
 src/bxdf_microfacet_reflection.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/bxdf_microfacet_reflection.rs b/src/bxdf_microfacet_reflection.rs
index ceefc3e..c0a2e51 100644
--- a/src/bxdf_microfacet_reflection.rs
+++ b/src/bxdf_microfacet_reflection.rs
@@ -34,7 +34,11 @@ impl<T> BxDF for MicrofacetReflectionBRDF<T> where T: Fresnel {
             return Spectrum::default();
         }
 
-        let wh = wh.normalize();
+        // the Fresnel term depends on the side of the surface the light comes from
+        let mut wh = wh.normalize();
+        if wh.z < 0. {
+            wh *= -1.;
+        }
 
         let d = self.distribution.d(wh);
         let g = self.distribution.g(wo, wi);
-- 
2.43.0


From 18589731472a3cb1f5a66aafec7dd9e7195f0c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:44 +0000
Subject: [PATCH 22/24] fix: no glossy transmission between directions on one
 side of the microfacet

---
 src/bxdf_microfacet_transmission.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/bxdf_microfacet_transmission.rs b/src/bxdf_microfacet_transmission.rs
index 3bc83b7..1e34b16 100644
--- a/src/bxdf_microfacet_transmission.rs
+++ b/src/bxdf_microfacet_transmission.rs
@@ -50,6 +50,10 @@ impl BxDF for MicrofacetTransmissionBTDF {
         if wh.z < 0. {
             wh *= -1.;
         }
+        // refraction crosses the microfacet
+        if wo.dot(wh) * wi.dot(wh) > 0. {
+            return Spectrum::default();
+        }
 
         let d = self.distribution.d(wh);
         let g = self.distribution.g(wo, wi);
@@ -92,6 +96,9 @@ impl BxDF for MicrofacetTransmissionBTDF {
             self.eta_a / self.eta_b
         };
         let wh = (wo + wi * eta).normalize();
+        if wo.dot(wh) * wi.dot(wh) > 0. {
+            return 0.;
+        }
 
         let sqrt_denom = wo.dot(wh) + wi.dot(wh) * eta;
         let dwh_dwi = (wi.dot(wh) * eta * eta / sqrt_denom.powi(2)).abs();
-- 
2.43.0


From 5773ee20ed73d1982772dcf94218370f934dcda7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:44 +0000
Subject: [PATCH 23/24] fix: keep the roughness of microfacets away from zero

---
 src/microfacet.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/microfacet.rs b/src/microfacet.rs
index fa632a3..9d960cb 100644
--- a/src/microfacet.rs
+++ b/src/microfacet.rs
@@ -11,7 +11,8 @@ pub struct MicrofacetDistribution {
 
 impl MicrofacetDistribution {
     pub fn new(alpha_x: f32, alpha_y: f32) -> MicrofacetDistribution {
-        MicrofacetDistribution { alpha_x, alpha_y }
+        // zero roughness in one direction only would give NaN everywhere
+        MicrofacetDistribution { alpha_x: alpha_x.max(0.001), alpha_y: alpha_y.max(0.001) }
     }
 
     pub fn d(&self, wh: Vector3f) -> f32 {
-- 
2.43.0


From aa035873391242d240736fa442cb5264a4d9c150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:05 +0000
Subject: [PATCH 24/24] fix: no overflow in the multiple importance sampling
 weight

Squaring densities above 1.8e19 gave inf / inf: the weight was NaN and the
sample was lost.
---
 src/sampling.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sampling.rs b/src/sampling.rs
index 1d7d7b6..82dfcb6 100644
--- a/src/sampling.rs
+++ b/src/sampling.rs
@@ -26,5 +26,7 @@ pub fn cosine_sample_hemisphere(u: Point2f) -> Vector3f {
 pub fn power_heuristic(n1: u32, pdf1: f32, n2: u32, pdf2: f32) -> f32 {
     let f = pdf1 * n1 as f32;
     let g = pdf2 * n2 as f32;
-    return (f * f) / (f * f + g * g);
+    // (f * f) / (f * f + g * g), without squaring densities that may overflow
+    let ratio = g / f;
+    return 1. / (1. + ratio * ratio);
 }
-- 
2.43.0

