From 53733650d70f5a399ee181df3e6836f6b1d827bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:16 +0000
Subject: [PATCH 01/19] fix: Mat3::inverse divides whole cofactors by the
 determinant with the right signs

---
 lib/mat.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/lib/mat.rs b/lib/mat.rs
index b524338..6fc00be 100644
--- a/lib/mat.rs
+++ b/lib/mat.rs
@@ -1155,23 +1155,23 @@ macro_rules! define_mat3 {
                 let t = self.transpose();
                 let mut out = *self;
                 *out.index_mut(0, 0) =
-                    t.index(1, 1) * t.index(2, 2) - t.index(2, 1) * t.index(1, 2) / determinant;
+                    (t.index(1, 1) * t.index(2, 2) - t.index(2, 1) * t.index(1, 2)) / determinant;
                 *out.index_mut(1, 0) =
                     -(t.index(0, 1) * t.index(2, 2) - t.index(2, 1) * t.index(0, 2)) / determinant;
                 *out.index_mut(2, 0) =
-                    t.index(0, 1) * t.index(1, 2) - t.index(1, 1) * t.index(0, 2) / determinant;
+                    (t.index(0, 1) * t.index(1, 2) - t.index(1, 1) * t.index(0, 2)) / determinant;
                 *out.index_mut(0, 1) =
-                    t.index(1, 0) * t.index(2, 2) - t.index(2, 0) * t.index(1, 2) / determinant;
+                    -(t.index(1, 0) * t.index(2, 2) - t.index(2, 0) * t.index(1, 2)) / determinant;
                 *out.index_mut(1, 1) =
-                    -(t.index(0, 0) * t.index(2, 2) - t.index(2, 0) * t.index(0, 2)) / determinant;
+                    (t.index(0, 0) * t.index(2, 2) - t.index(2, 0) * t.index(0, 2)) / determinant;
                 *out.index_mut(2, 1) =
-                    t.index(0, 0) * t.index(1, 2) - t.index(1, 0) * t.index(0, 2) / determinant;
+                    -(t.index(0, 0) * t.index(1, 2) - t.index(1, 0) * t.index(0, 2)) / determinant;
                 *out.index_mut(0, 2) =
-                    t.index(1, 0) * t.index(2, 1) - t.index(2, 0) * t.index(1, 1) / determinant;
+                    (t.index(1, 0) * t.index(2, 1) - t.index(2, 0) * t.index(1, 1)) / determinant;
                 *out.index_mut(1, 2) =
                     -(t.index(0, 0) * t.index(2, 1) - t.index(2, 0) * t.index(0, 1)) / determinant;
                 *out.index_mut(2, 2) =
-                    t.index(0, 0) * t.index(1, 1) - t.index(1, 0) * t.index(0, 1) / determinant;
+                    (t.index(0, 0) * t.index(1, 1) - t.index(1, 0) * t.index(0, 1)) / determinant;
 
                 Some(out)
             }
-- 
2.43.0


From 66d3630c53302a93cbe434c697a89b776f3cacb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:32 +0000
Subject: [PATCH 02/19] fix: Mat4::inverse returns the inverse, not its
 transpose, in the layout of the input

---
 lib/mat.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/mat.rs b/lib/mat.rs
index 6fc00be..289420a 100644
--- a/lib/mat.rs
+++ b/lib/mat.rs
@@ -1523,7 +1523,10 @@ macro_rules! define_mat4 {
                 }
             }
             pub fn inverse(&self) -> Option<Mat4<$v_type>> {
-                let mut inv: Mat4<$v_type> = Default::default();
+                let mut inv: Mat4<$v_type> = Mat4 {
+                    _val: [0 as $v_type; 16],
+                    _is_row_major: self._is_row_major,
+                };
 
                 *inv.index_mut(0, 0) = self.index(1, 1) * self.index(2, 2) * self.index(3, 3)
                     - self.index(1, 1) * self.index(3, 2) * self.index(2, 3)
@@ -1652,7 +1655,7 @@ macro_rules! define_mat4 {
                     inv._val[i] = inv._val[i] * det_inv;
                 }
 
-                Some(inv.transpose())
+                Some(inv)
             }
         }
         impl i_comparable::IComparableError<$v_type> for Mat4<$v_type> {
-- 
2.43.0


From 117a2063280747041935487a95767d626cdbeaac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:34 +0000
Subject: [PATCH 03/19] fix: entry-wise Mat3/Mat4 operations combine logical
 entries when the storage layouts differ

---
 lib/mat.rs | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/lib/mat.rs b/lib/mat.rs
index 289420a..5d249e7 100644
--- a/lib/mat.rs
+++ b/lib/mat.rs
@@ -945,8 +945,18 @@ macro_rules! define_mat3 {
             pub fn size(&self) -> Option<usize> {
                 Some(self._val.len() as usize)
             }
+            //same matrix stored in the given layout
+            fn to_layout(&self, row_major: bool) -> Mat3<$v_type> {
+                let mut m = *self;
+                if m._is_row_major != row_major {
+                    m.transpose_self();
+                    m._is_row_major = row_major;
+                }
+                m
+            }
             #[allow(unused_variables)]
             pub fn mul_elem(&self, other: &Mat3<$v_type>) -> Option<Mat3<$v_type>> {
+                let other = other.to_layout(self._is_row_major);
                 Some(Mat3 {
                     _val: [
                         self._val[0] * other._val[0],
@@ -1018,6 +1028,7 @@ macro_rules! define_mat3 {
             }
             #[allow(unused_variables)]
             pub fn div(&self, other: &Mat3<$v_type>) -> Option<Mat3<$v_type>> {
+                let other = other.to_layout(self._is_row_major);
                 Some(Mat3 {
                     _val: [
                         self._val[0] / other._val[0],
@@ -1035,6 +1046,7 @@ macro_rules! define_mat3 {
             }
             #[allow(unused_variables)]
             pub fn plus(&self, other: &Mat3<$v_type>) -> Option<Mat3<$v_type>> {
+                let other = other.to_layout(self._is_row_major);
                 Some(Mat3 {
                     _val: [
                         self._val[0] + other._val[0],
@@ -1052,6 +1064,7 @@ macro_rules! define_mat3 {
             }
             #[allow(unused_variables)]
             pub fn minus(&self, other: &Mat3<$v_type>) -> Option<Mat3<$v_type>> {
+                let other = other.to_layout(self._is_row_major);
                 Some(Mat3 {
                     _val: [
                         self._val[0] - other._val[0],
@@ -1265,8 +1278,18 @@ macro_rules! define_mat4 {
             pub fn size(&self) -> Option<usize> {
                 Some(self._val.len() as usize)
             }
+            //same matrix stored in the given layout
+            fn to_layout(&self, row_major: bool) -> Mat4<$v_type> {
+                let mut m = *self;
+                if m._is_row_major != row_major {
+                    m.transpose_self();
+                    m._is_row_major = row_major;
+                }
+                m
+            }
             #[allow(unused_variables)]
             pub fn mul_elem(&self, other: &Mat4<$v_type>) -> Option<Mat4<$v_type>> {
+                let other = other.to_layout(self._is_row_major);
                 Some(Mat4 {
                     _val: [
                         self._val[0] * other._val[0],
@@ -1349,6 +1372,7 @@ macro_rules! define_mat4 {
             }
             #[allow(unused_variables)]
             pub fn div(&self, other: &Mat4<$v_type>) -> Option<Mat4<$v_type>> {
+                let other = other.to_layout(self._is_row_major);
                 Some(Mat4 {
                     _val: [
                         self._val[0] / other._val[0],
@@ -1373,6 +1397,7 @@ macro_rules! define_mat4 {
             }
             #[allow(unused_variables)]
             pub fn plus(&self, other: &Mat4<$v_type>) -> Option<Mat4<$v_type>> {
+                let other = other.to_layout(self._is_row_major);
                 Some(Mat4 {
                     _val: [
                         self._val[0] + other._val[0],
@@ -1397,6 +1422,7 @@ macro_rules! define_mat4 {
             }
             #[allow(unused_variables)]
             pub fn minus(&self, other: &Mat4<$v_type>) -> Option<Mat4<$v_type>> {
+                let other = other.to_layout(self._is_row_major);
                 Some(Mat4 {
                     _val: [
                         self._val[0] - other._val[0],
-- 
2.43.0


From 607ace666f8724482ff3c984646d0c502cd70c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:55 +0000
Subject: [PATCH 04/19] fix: column-major rotation matrix of a quaternion is no
 longer the transposed rotation

---
 lib/quat.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/lib/quat.rs b/lib/quat.rs
index 64dd8c5..da97c99 100644
--- a/lib/quat.rs
+++ b/lib/quat.rs
@@ -172,8 +172,9 @@ macro_rules! define_quat {
                         ],
                         true,
                     ), //last row
-                    _ => Mat4::<$v_type>::init(
-                        [
+                    _ => Mat4 {
+                        //stored column by column
+                        _val: [
                             1 as $v_type - 2 as $v_type * (self._y * self._y + self._z * self._z), //first column
                             2 as $v_type * (self._x * self._y + self._z * self._w),
                             2 as $v_type * (self._x * self._z - self._y * self._w),
@@ -191,8 +192,8 @@ macro_rules! define_quat {
                             0 as $v_type,
                             1 as $v_type,
                         ],
-                        false,
-                    ), //last column
+                        _is_row_major: false,
+                    }, //last column
                 }
             }
             #[allow(dead_code)]
-- 
2.43.0


From 1561637193791d12937e8a3e0ff6466124e7ac3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:56 +0000
Subject: [PATCH 05/19] fix: translation matrix of a quaternion translates
 points, in either layout

---
 lib/quat.rs | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/lib/quat.rs b/lib/quat.rs
index da97c99..2e6958c 100644
--- a/lib/quat.rs
+++ b/lib/quat.rs
@@ -105,17 +105,17 @@ macro_rules! define_quat {
                 match row_major {
                     true => Mat4::<$v_type>::init(
                         [
-                            0 as $v_type,
+                            1 as $v_type,
                             0 as $v_type,
                             0 as $v_type,
                             self._x,
                             0 as $v_type,
-                            0 as $v_type,
+                            1 as $v_type,
                             0 as $v_type,
                             self._y,
                             0 as $v_type,
                             0 as $v_type,
-                            0 as $v_type,
+                            1 as $v_type,
                             self._z,
                             0 as $v_type,
                             0 as $v_type,
@@ -124,27 +124,28 @@ macro_rules! define_quat {
                         ],
                         true,
                     ),
-                    _ => Mat4::<$v_type>::init(
-                        [
-                            0 as $v_type,
-                            0 as $v_type,
-                            0 as $v_type,
+                    _ => Mat4 {
+                        //stored column by column
+                        _val: [
+                            1 as $v_type,
                             0 as $v_type,
                             0 as $v_type,
                             0 as $v_type,
                             0 as $v_type,
+                            1 as $v_type,
                             0 as $v_type,
                             0 as $v_type,
                             0 as $v_type,
                             0 as $v_type,
+                            1 as $v_type,
                             0 as $v_type,
                             self._x,
                             self._y,
                             self._z,
                             1 as $v_type,
                         ],
-                        false,
-                    ),
+                        _is_row_major: false,
+                    },
                 }
             }
             #[allow(dead_code)]
-- 
2.43.0


From cd833a699946b5efe6d8212341534afaa3b85108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:13 +0000
Subject: [PATCH 06/19] fix: to_axis_angle no longer returns NaN when rounding
 has pushed |w| beyond one

---
 lib/quat.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/quat.rs b/lib/quat.rs
index 2e6958c..d6b9f73 100644
--- a/lib/quat.rs
+++ b/lib/quat.rs
@@ -200,7 +200,8 @@ macro_rules! define_quat {
             #[allow(dead_code)]
             pub fn to_axis_angle(&self) -> (Mat3x1<$v_type>, $v_type) {
                 let k = (1 as $v_type - self._w * self._w).sqrt();
-                if k < 0.000001 {
+                //k is NaN if rounding has pushed w beyond 1
+                if k.is_nan() || k < 0.000001 {
                     return (
                         Mat3x1 {
                             _val: [1 as $v_type, 0 as $v_type, 0 as $v_type],
-- 
2.43.0


From 28b505b7d3722f64548902029eb830e24fad96da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:14 +0000
Subject: [PATCH 07/19] fix: quaternion logarithm takes ln of the length and
 acos of w over it

---
 lib/quat.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/quat.rs b/lib/quat.rs
index d6b9f73..bf3fb0d 100644
--- a/lib/quat.rs
+++ b/lib/quat.rs
@@ -365,7 +365,7 @@ macro_rules! define_quat {
             #[allow(dead_code)]
             pub fn ln(&self) -> Quat<$v_type> {
                 let l = self.length();
-                let w_ln = self._w.ln();
+                let w_ln = l.ln();
                 //normalize x,y,z vector -> v/||v||
                 let vec_length = (self._x * self._x + self._y * self._y + self._z * self._z).sqrt();
                 assert!(vec_length != 0 as $v_type);
@@ -373,7 +373,7 @@ macro_rules! define_quat {
                 let vec_y = self._y / vec_length;
                 let vec_z = self._z / vec_length;
                 //scale x,y,z by acos( w/l )
-                let s = (w_ln / l).acos();
+                let s = (self._w / l).acos();
                 Quat {
                     _x: vec_x * s,
                     _y: vec_y * s,
-- 
2.43.0


From dc4e567e827a4d01bab8136cd66e63a5080ede24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:15 +0000
Subject: [PATCH 08/19] fix: slerp on the shorter arc uses the angle of that
 arc

---
 lib/quat.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/quat.rs b/lib/quat.rs
index bf3fb0d..aeefdaf 100644
--- a/lib/quat.rs
+++ b/lib/quat.rs
@@ -496,7 +496,7 @@ macro_rules! define_quat {
                     (1 as $v_type - t_clamp, t_clamp)
                 } else {
                     let sin_omega = (1 as $v_type - cos_omega * cos_omega).sqrt();
-                    let omega = sin_omega.atan2(cos_omega);
+                    let omega = sin_omega.atan2(cos_omega_adjust);
                     let inv_sin_omega = 1 as $v_type / sin_omega;
 
                     (
-- 
2.43.0


From 6ca71bda87f50d2d6a713a78bb879f3ba1ecb534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:16 +0000
Subject: [PATCH 09/19] fix: get_longest_axis compares extents in both
 directions

---
 lib/bound.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/bound.rs b/lib/bound.rs
index 5a3e473..7bfe3ca 100644
--- a/lib/bound.rs
+++ b/lib/bound.rs
@@ -92,7 +92,7 @@ impl AxisAlignedBBox {
             .max_by(|x, y| {
                 if x.1 < y.1 {
                     cmp::Ordering::Less
-                } else if x.1 < y.1 {
+                } else if x.1 > y.1 {
                     cmp::Ordering::Greater
                 } else {
                     cmp::Ordering::Equal
-- 
2.43.0


From 35f75d0e5daa34a88ff8b5b0227d4b32e1281419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:54 +0000
Subject: [PATCH 10/19] fix: sphere and point intersect by distance, not by
 coordinate difference

---
 lib/sphere.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/lib/sphere.rs b/lib/sphere.rs
index 70073e1..702ab81 100644
--- a/lib/sphere.rs
+++ b/lib/sphere.rs
@@ -81,10 +81,8 @@ impl IShape for Sphere {
                         ],
                     };
                     let d = b_off.minus(&self._ori).unwrap();
-                    for i in 0..3 {
-                        if d[i] > self._radius {
-                            return (false, None);
-                        }
+                    if d.magnitude().unwrap() > self._radius {
+                        return (false, None);
                     }
                     return (true, Some(b_off));
                 }
-- 
2.43.0


From cf10702b4ee31da8057167d67ea44eafd4193f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:55 +0000
Subject: [PATCH 11/19] fix: sphere behind a plane by more than its radius does
 not intersect it

---
 lib/sphere.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sphere.rs b/lib/sphere.rs
index 702ab81..69ab8ce 100644
--- a/lib/sphere.rs
+++ b/lib/sphere.rs
@@ -111,7 +111,7 @@ impl IShape for Sphere {
 
                     let k = b_nor.dot(&b_off).unwrap();
                     let t = b_nor.dot(&self._ori).unwrap() - k;
-                    if t > self._radius {
+                    if t.abs() > self._radius {
                         return (false, None);
                     } else {
                         return (
-- 
2.43.0


From 2bacea78c14d9175eeb762cd6709ee3c6f5585b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:56 +0000
Subject: [PATCH 12/19] fix: rays intersect only where they cross ahead of both
 origins

---
 lib/ray.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/lib/ray.rs b/lib/ray.rs
index 188d8a8..833c9d2 100644
--- a/lib/ray.rs
+++ b/lib/ray.rs
@@ -75,17 +75,16 @@ impl IShape for Ray3 {
                         ],
                     };
 
-                    let c = b_dir.minus(&a_dir).unwrap();
+                    let d = b_off.minus(&a_off).unwrap();
                     let v = a_dir.cross(&b_dir).unwrap();
 
-                    let dot_v_c = v.dot(&c).unwrap();
-                    if !self.within_vicinity(dot_v_c, 0f64) {
+                    let dot_v_d = v.dot(&d).unwrap();
+                    if !self.within_vicinity(dot_v_d, 0f64) {
                         //they are not in the same place, so no intersection occurs
                         return (false, None);
                     }
                     //test for colinearity
                     let zero: Mat3x1<f64> = Default::default();
-                    let d = b_off.minus(&a_off).unwrap();
                     if v.is_equal(&zero, 0.0001f64).unwrap() {
                         //lines are parallel
                         //check triangle area formed by points on ray a and b
@@ -126,9 +125,11 @@ impl IShape for Ray3 {
                         }
                     } else {
                         //solvable intersection exists
-                        let numerator = d.cross(&b_dir).unwrap();
-                        let t = numerator.magnitude().unwrap() / v.magnitude().unwrap();
-                        if t < 0f64 {
+                        //t and s: parameters of the crossing on ray a and on ray b
+                        let v_dot_v = v.dot(&v).unwrap();
+                        let t = d.cross(&b_dir).unwrap().dot(&v).unwrap() / v_dot_v;
+                        let s = d.cross(&a_dir).unwrap().dot(&v).unwrap() / v_dot_v;
+                        if t < 0f64 || s < 0f64 {
                             return (false, None);
                         } else {
                             return (
-- 
2.43.0


From dda03b0acd716bb88d7746a87fad5fe579a0a6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:17 +0000
Subject: [PATCH 13/19] fix: a ray finds points on it for directions with zero
 components and within rounding

---
 lib/point.rs |  7 ++++++-
 lib/ray.rs   | 23 ++++++++++++++++-------
 2 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/lib/point.rs b/lib/point.rs
index aafc3ce..8de6661 100644
--- a/lib/point.rs
+++ b/lib/point.rs
@@ -37,7 +37,12 @@ impl IShape for Point3 {
     }
     // this shall test for intersection of bounding shapes first before procedding to test intersection using algorithms of higher complexity
     fn get_intersect(&self, other: &dyn IShape) -> (bool, Option<Mat3x1<f64>>) {
-        if !self.get_bound().intersect(other.get_bound()) {
+        //the bounds of a point and a ray can be flat, coincidence within vicinity is tested instead
+        let use_bound = match other.get_type() {
+            ShapeType::Ray => false,
+            _ => true,
+        };
+        if use_bound && !self.get_bound().intersect(other.get_bound()) {
             return (false, None);
         } else {
             match other.get_type() {
diff --git a/lib/ray.rs b/lib/ray.rs
index 833c9d2..40159e0 100644
--- a/lib/ray.rs
+++ b/lib/ray.rs
@@ -52,7 +52,12 @@ impl IShape for Ray3 {
     }
     // this shall test for intersection of bounding shapes first before procedding to test intersection using algorithms of higher complexity
     fn get_intersect(&self, other: &dyn IShape) -> (bool, Option<Mat3x1<f64>>) {
-        if !self.get_bound().intersect(other.get_bound()) {
+        //the bounds of a point and a ray can be flat, coincidence within vicinity is tested instead
+        let use_bound = match other.get_type() {
+            ShapeType::Point => false,
+            _ => true,
+        };
+        if use_bound && !self.get_bound().intersect(other.get_bound()) {
             return (false, None);
         } else {
             match other.get_type() {
@@ -150,14 +155,18 @@ impl IShape for Ray3 {
                     };
                     let a_dir = self._dir;
                     let a_off = self._ori;
-                    //a_dir * t + a_off = b_off
-                    //t = (b_off - a_off) / a_dir
-                    let t = b_off.minus(&a_off).unwrap().div(&a_dir).unwrap();
-                    if !self.within_vicinity(t[0], t[1]) || !self.within_vicinity(t[1], t[2]) {
+                    //t := projection of (b_off - a_off) onto the direction
+                    let t = b_off.minus(&a_off).unwrap().dot(&a_dir).unwrap();
+                    //closest location to the point on the line of the ray
+                    let p = a_dir.scale(t).unwrap().plus(&a_off).unwrap();
+                    if !self.within_vicinity(p[0], b_off[0])
+                        || !self.within_vicinity(p[1], b_off[1])
+                        || !self.within_vicinity(p[2], b_off[2])
+                    {
                         return (false, None);
                     } else {
-                        if t[0] >= 0f64 {
-                            return (true, Some(a_dir.scale(t[0]).unwrap().plus(&a_off).unwrap()));
+                        if t >= 0f64 {
+                            return (true, Some(p));
                         } else {
                             //the point is behind the ray origin and direction
                             return (false, None);
-- 
2.43.0


From 2b9ae7faf5b955d4aa90ea5c3f7f2e7a89880912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:19 +0000
Subject: [PATCH 14/19] fix: points coincide within the vicinity tolerance,
 which the flat bounds defeated

---
 lib/point.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/point.rs b/lib/point.rs
index 8de6661..3bbca42 100644
--- a/lib/point.rs
+++ b/lib/point.rs
@@ -37,8 +37,9 @@ impl IShape for Point3 {
     }
     // this shall test for intersection of bounding shapes first before procedding to test intersection using algorithms of higher complexity
     fn get_intersect(&self, other: &dyn IShape) -> (bool, Option<Mat3x1<f64>>) {
-        //the bounds of a point and a ray can be flat, coincidence within vicinity is tested instead
+        //the bounds of points and rays can be flat, coincidence within vicinity is tested instead
         let use_bound = match other.get_type() {
+            ShapeType::Point => false,
             ShapeType::Ray => false,
             _ => true,
         };
-- 
2.43.0


From a5a8e7996a10c4d6b911beb8861b1e300b0982df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:46 +0000
Subject: [PATCH 15/19] fix: GJK query no longer accepts a simplex whose first
 vertex has not passed the origin

---
 lib/intersect_gjk.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/intersect_gjk.rs b/lib/intersect_gjk.rs
index 2959cff..6b39a3f 100644
--- a/lib/intersect_gjk.rs
+++ b/lib/intersect_gjk.rs
@@ -81,6 +81,9 @@ pub fn query_intersect(a: &dyn IShape, b: &dyn IShape) -> Option<bool> {
         let sup = support(a, b, &d).unwrap();
         simplex.push(sup);
     }
+    if !pass_minkowski_origin(simplex.last().unwrap(), &d) {
+        return Some(false);
+    }
 
     d = d.scale(-1f64).unwrap();
     loop {
-- 
2.43.0


From 17f191b62d29a82f3f59c3394d38b4ab66af6b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:05 +0000
Subject: [PATCH 16/19] fix: segment and prism intersect by clipping, also
 through side facets and for zero length

---
 lib/triprism.rs | 106 +++++++-----------------------------------------
 1 file changed, 15 insertions(+), 91 deletions(-)

diff --git a/lib/triprism.rs b/lib/triprism.rs
index 2a1f81c..76923a6 100644
--- a/lib/triprism.rs
+++ b/lib/triprism.rs
@@ -6,9 +6,6 @@ use i_vicinity::IVicinity;
 use bound::AxisAlignedBBox;
 use mat::Mat3x1;
 
-use plane::Plane;
-use ray::Ray3;
-
 #[derive(Debug, Clone, Default)]
 pub struct TriPrism {
     ///base
@@ -266,99 +263,26 @@ impl IShape for TriPrism {
                         return (true, Some(b));
                     }
 
-                    //continue test using ray plane intersection
+                    //both ends are outside: clip the segment a + v * t, t in [0,1], against the half spaces
 
                     let v = b.minus(&a).unwrap();
-                    let mag = v.magnitude().unwrap();
-
-                    let r = Ray3::init(&[a[0], a[1], a[2]], &[v[0], v[1], v[2]]);
-
-                    let n1 = self._normal_height;
-                    let n0 = n1.scale(-1.).unwrap();
-                    let n2 = self._tri_base[1]
-                        .minus(&self._tri_base[0])
-                        .unwrap()
-                        .cross(&n1)
-                        .unwrap();
-                    let n3 = self._tri_base[2]
-                        .minus(&self._tri_base[1])
-                        .unwrap()
-                        .cross(&n1)
-                        .unwrap();
-                    let n4 = self._tri_base[0]
-                        .minus(&self._tri_base[2])
-                        .unwrap()
-                        .cross(&n1)
-                        .unwrap();
-
-                    let facets = vec![
-                        Plane::init(
-                            &[
-                                self._tri_base[0][0] as f64,
-                                self._tri_base[0][1] as f64,
-                                self._tri_base[0][2] as f64,
-                            ],
-                            &[n0[0] as f64, n0[1] as f64, n0[2] as f64],
-                        ),
-                        Plane::init(
-                            &[
-                                self._tri_base2[0][0] as f64,
-                                self._tri_base2[0][1] as f64,
-                                self._tri_base2[0][2] as f64,
-                            ],
-                            &[n1[0] as f64, n1[1] as f64, n1[2] as f64],
-                        ),
-                        Plane::init(
-                            &[
-                                self._tri_base[0][0] as f64,
-                                self._tri_base[0][1] as f64,
-                                self._tri_base[0][2] as f64,
-                            ],
-                            &[n2[0] as f64, n2[1] as f64, n2[2] as f64],
-                        ),
-                        Plane::init(
-                            &[
-                                self._tri_base[1][0] as f64,
-                                self._tri_base[1][1] as f64,
-                                self._tri_base[1][2] as f64,
-                            ],
-                            &[n3[0] as f64, n3[1] as f64, n3[2] as f64],
-                        ),
-                        Plane::init(
-                            &[
-                                self._tri_base[2][0] as f64,
-                                self._tri_base[2][1] as f64,
-                                self._tri_base[2][2] as f64,
-                            ],
-                            &[n4[0] as f64, n4[1] as f64, n4[2] as f64],
-                        ),
-                    ];
-
-                    let mut intersect_point = None;
-                    let mut is_inside = false;
-                    for i in facets.iter() {
-                        let res = r.get_intersect(i);
-                        if res.0 {
-                            let collide_point = res.1.unwrap();
-                            let mag2 = collide_point.minus(&a).unwrap().magnitude().unwrap();
-
-                            //one more check necesary for the candidate collision point
-                            let is_point_inside = tests.iter().all(|(vert, normal)| {
-                                !(collide_point.minus(vert).unwrap().dot(normal).unwrap() > 0.)
-                            });
-
-                            if !is_point_inside || mag2 > mag {
-                                continue;
-                            } else {
-                                is_inside = true;
-                                intersect_point = res.1;
-                                break;
-                            }
+                    let mut t_enter = 0f64;
+                    let mut t_exit = 1f64;
+                    for (vert, normal) in tests.iter() {
+                        let da = a.minus(vert).unwrap().dot(normal).unwrap();
+                        let db = b.minus(vert).unwrap().dot(normal).unwrap();
+                        if da > 0. && db > 0. {
+                            //the whole segment is on the outer side of a facet
+                            return (false, None);
+                        } else if da > 0. {
+                            t_enter = t_enter.max(da / (da - db));
+                        } else if db > 0. {
+                            t_exit = t_exit.min(da / (da - db));
                         }
                     }
 
-                    if is_inside {
-                        (true, intersect_point)
+                    if t_enter <= t_exit {
+                        (true, Some(v.scale(t_enter).unwrap().plus(&a).unwrap()))
                     } else {
                         (false, None)
                     }
-- 
2.43.0


From 007fd7935da200a5298171df876c65c3bea3ae6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:57 +0000
Subject: [PATCH 17/19] fix: to_axis_angle does not panic on a unit quaternion
 whose vector part is zero up to rounding

---
 lib/quat.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/lib/quat.rs b/lib/quat.rs
index aeefdaf..a581699 100644
--- a/lib/quat.rs
+++ b/lib/quat.rs
@@ -213,7 +213,15 @@ macro_rules! define_quat {
                     let vec_y = self._y / k;
                     let vec_z = self._z / k;
                     let l = (vec_x * vec_x + vec_y * vec_y + vec_z * vec_z).sqrt();
-                    assert!(l != 0 as $v_type);
+                    if l == 0 as $v_type {
+                        //no vector part is left to tell an axis
+                        return (
+                            Mat3x1 {
+                                _val: [1 as $v_type, 0 as $v_type, 0 as $v_type],
+                            },
+                            0 as $v_type,
+                        );
+                    }
                     return (
                         Mat3x1 {
                             _val: [vec_x / l, vec_y / l, vec_z / l],
-- 
2.43.0


From 093e2020388bc042bd6bd473b612b6234d226768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:53 +0000
Subject: [PATCH 18/19] fix: GJK query searches along the normal of the segment
 and counts touching as passing the origin

---
 lib/intersect_gjk.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/intersect_gjk.rs b/lib/intersect_gjk.rs
index 6b39a3f..e97cbd5 100644
--- a/lib/intersect_gjk.rs
+++ b/lib/intersect_gjk.rs
@@ -19,7 +19,7 @@ fn support(a: &dyn IShape, b: &dyn IShape, v: &Mat3x1<f64>) -> Option<Mat3x1<f64
 
 fn pass_minkowski_origin(last_vert: &Mat3x1<f64>, support: &Mat3x1<f64>) -> bool {
     // println!( "last vert dot product: {}", last_vert.dot( &support ).unwrap() );
-    last_vert.dot(&support).unwrap() > 0f64
+    last_vert.dot(&support).unwrap() >= 0f64
 }
 
 fn contains_minkowski_origin(simplex: &mut Vec<Mat3x1<f64>>, support: &mut Mat3x1<f64>) -> bool {
@@ -52,7 +52,7 @@ fn contains_minkowski_origin(simplex: &mut Vec<Mat3x1<f64>>, support: &mut Mat3x
         //set direction towards minkowski origin
         let b = simplex[0];
         let ab = b.minus(&a).unwrap();
-        let ab_normal = ab.cross(&ao).unwrap().cross(&ao).unwrap();
+        let ab_normal = ab.cross(&ao).unwrap().cross(&ab).unwrap();
         if ab_normal.magnitude().unwrap() == 0f64 {
             return true;
         } else {
-- 
2.43.0


From be02cf2719bc304df6adef31434e84f4ff3bb292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:50:37 +0000
Subject: [PATCH 19/19] fix: spheres of radius zero with the same centre meet
 at that centre, not at NaN

---
 lib/sphere.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/sphere.rs b/lib/sphere.rs
index 69ab8ce..bd57dfa 100644
--- a/lib/sphere.rs
+++ b/lib/sphere.rs
@@ -62,7 +62,11 @@ impl IShape for Sphere {
                         return (false, None);
                     } else {
                         //calculate a mid point average
-                        let f = a_r / (a_r + b_r);
+                        let f = if a_r + b_r > 0f64 {
+                            a_r / (a_r + b_r)
+                        } else {
+                            0f64
+                        };
                         let g = c.scale(f).unwrap();
                         return (true, Some(a_off.plus(&g).unwrap()));
                     }
-- 
2.43.0

