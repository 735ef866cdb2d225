From 810fc0af2002805d40cced5237be2182a2256712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:16 +0000
Subject: [PATCH 01/19] fix: pose and so(3) Jacobians in respect to rotation

Skew3::jacobian_self returned +hat(y) although its documentation (and the
derivative) is -hat(y); pose_jacobian_self compensated by transposing, which
put the translation of the pose in the homogeneous row of the Jacobian.
---
 cv-core/src/pose.rs | 18 ++++++++----------
 cv-core/src/so3.rs  |  2 +-
 2 files changed, 9 insertions(+), 11 deletions(-)

diff --git a/cv-core/src/pose.rs b/cv-core/src/pose.rs
index 1a4f104..fd705f7 100644
--- a/cv-core/src/pose.rs
+++ b/cv-core/src/pose.rs
@@ -1,8 +1,7 @@
 use crate::{CameraPoint, FeatureMatch, FeatureWorldMatch, Projective, Skew3, WorldPoint};
 use derive_more::{AsMut, AsRef, From, Into};
 use nalgebra::{
-    zero, IsometryMatrix3, Matrix3x4, Matrix4, Matrix4x6, Matrix6x4, Rotation3, Vector3, Vector4,
-    Vector6,
+    zero, IsometryMatrix3, Matrix3x4, Matrix4, Matrix4x6, Rotation3, Vector3, Vector4, Vector6,
 };
 use sample_consensus::Model;
 
@@ -162,15 +161,14 @@ fn pose_jacobian_self<P: Pose>(
     let dp_ds = translation * Skew3::jacobian_self(rotated.xyz()).to_homogeneous();
 
     // dP/dT,s (Jacobian of 3d camera point in respect to translation and skew)
-    Matrix6x4::<f64>::from_rows(&[
-        dp_dt.row(0),
-        dp_dt.row(1),
-        dp_dt.row(2),
-        dp_ds.row(0),
-        dp_ds.row(1),
-        dp_ds.row(2),
+    Matrix4x6::<f64>::from_columns(&[
+        dp_dt.column(0),
+        dp_dt.column(1),
+        dp_dt.column(2),
+        dp_ds.column(0),
+        dp_ds.column(1),
+        dp_ds.column(2),
     ])
-    .transpose()
 }
 
 /// This contains a world pose, which is a pose of the world relative to the camera.
diff --git a/cv-core/src/so3.rs b/cv-core/src/so3.rs
index 148f0b7..9ef10b6 100644
--- a/cv-core/src/so3.rs
+++ b/cv-core/src/so3.rs
@@ -241,7 +241,7 @@ impl Skew3 {
     /// Note that when working with homogeneous projective coordinates, only the first three components
     /// (the bearing) are relevant, hence the resulting matrix is a [`Matrix3`].
     pub fn jacobian_self(y: Vector3<f64>) -> Matrix3<f64> {
-        y.cross_matrix()
+        -y.cross_matrix()
     }
 }
 
-- 
2.43.0


From c09acd3c0cf092a0a9929a27f0d0b7bb1c2a1c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:31 +0000
Subject: [PATCH 02/19] fix: logarithm of rotations by (nearly) pi

Rotation3::scaled_axis recovers the axis from the skew-symmetric part of the
matrix, which vanishes at pi: the logarithm of a half turn was zero, and was
imprecise nearby. Go through the unit quaternion instead.
---
 cv-core/src/so3.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cv-core/src/so3.rs b/cv-core/src/so3.rs
index 9ef10b6..9d86934 100644
--- a/cv-core/src/so3.rs
+++ b/cv-core/src/so3.rs
@@ -3,7 +3,9 @@ use core::{
     ops::{Add, AddAssign},
 };
 use derive_more::{AsMut, AsRef, Deref, DerefMut, From, Into};
-use nalgebra::{Const, IsometryMatrix3, Matrix3, Matrix4, Rotation3, Unit, Vector3, Vector6};
+use nalgebra::{
+    Const, IsometryMatrix3, Matrix3, Matrix4, Rotation3, Unit, UnitQuaternion, Vector3, Vector6,
+};
 use num_traits::Float;
 #[cfg(feature = "serde-serialize")]
 use serde::{Deserialize, Serialize};
@@ -263,7 +265,9 @@ impl From<Skew3> for Rotation3<f64> {
 /// This is the log map.
 impl From<Rotation3<f64>> for Skew3 {
     fn from(r: Rotation3<f64>) -> Self {
-        let skew3 = r.scaled_axis();
+        // The quaternion is used because the axis of a rotation matrix cannot be recovered from its
+        // skew-symmetric part when the angle is near (or exactly) pi.
+        let skew3 = UnitQuaternion::from_rotation_matrix(&r).scaled_axis();
         // TODO: File issue on `nalgebra`, as this shouldn't happen and is bug.
         let skew3 = if skew3.iter().any(|n| n.is_nan()) {
             Vector3::zeros()
-- 
2.43.0


From c88e787e35afd46452faee0d9d1322a88c2ba60c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:02 +0000
Subject: [PATCH 03/19] fix: residual of relative poses for ill-ordered
 eigenvalues and points at a camera

---
 cv-core/src/pose.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/cv-core/src/pose.rs b/cv-core/src/pose.rs
index fd705f7..9a4e064 100644
--- a/cv-core/src/pose.rs
+++ b/cv-core/src/pose.rs
@@ -273,12 +273,12 @@ impl Model<FeatureMatch> for CameraToCamera {
             return 2.0;
         };
 
-        // Find the smallest eigenvalue where our point will lie in the null space homogeneous vector.
-        se.eigenvalues
-            .iter()
-            .enumerate()
-            .min_by_key(|&(_, &n)| n.abs().to_bits())
-            .map(|(ix, _)| se.eigenvectors.column(ix).into_owned())
+        // Find the eigenvector with the smallest cost, which is where our point will lie in the null space.
+        // The cost is computed from the eigenvector itself, as the solver may return the eigenvalues in a
+        // different order than their eigenvectors when its epsilon is reached early.
+        (0..4)
+            .map(|ix| se.eigenvectors.column(ix).into_owned())
+            .min_by_key(|v| v.dot(&(design * v)).abs().to_bits())
             .map(CameraPoint::from_homogeneous)
             .filter(|point| {
                 // Ensure the point contains no NaN or infinity.
@@ -289,6 +289,8 @@ impl Model<FeatureMatch> for CameraToCamera {
                 0.5 * (1.0 - a.dot(&point.bearing()) + 1.0
                     - b.dot(&self.transform(point).bearing()))
             })
+            // The residual is undefined if the point is at the optical center of a camera.
+            .filter(|residual| residual.is_finite())
             .unwrap_or(2.0)
     }
 }
-- 
2.43.0


From 889da48f9269168f754dfcf8ef226e44d3b24a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:38 +0000
Subject: [PATCH 04/19] fix: uncalibrate with K1 distortion at the principal
 point and without solutions

---
 cv-pinhole/src/lib.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/cv-pinhole/src/lib.rs b/cv-pinhole/src/lib.rs
index cf25f95..cb7e419 100644
--- a/cv-pinhole/src/lib.rs
+++ b/cv-pinhole/src/lib.rs
@@ -226,10 +226,11 @@ impl CameraModel for CameraIntrinsicsK1Distortion {
         let undistorted = projection.xy() / projection.z;
         // You can set up a quadratic to solve for r^2 with the undistorted keypoint. This is the result.
         let u2 = undistorted.norm_squared();
-        // This is actually r^2 * k1.
-        let r2_mul_k1 = -(2.0 * self.k1 * u2 + Float::sqrt(1.0 - 4.0 * self.k1 * u2) - 1.0)
-            / (2.0 * self.k1 * u2);
-        let distorted = undistorted * (1.0 + r2_mul_k1);
+        // If the discriminant is negative (or NaN), no pixel can see this bearing through the distortion.
+        let discriminant = 1.0 - 4.0 * self.k1 * u2;
+        (discriminant >= 0.0).then_some(())?;
+        // This form of the solution is also well defined if there is no distortion (`k1 * u2` is zero).
+        let distorted = undistorted * (2.0 / (1.0 + Float::sqrt(discriminant)));
         let y = distorted.y * self.simple_intrinsics.focals.y;
         let x = distorted.x * self.simple_intrinsics.focals.x
             + self.simple_intrinsics.skew * distorted.y;
-- 
2.43.0


From 0bfc6f90617c9bf1c6e6b4951ca1e8201dd650fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:41 +0000
Subject: [PATCH 05/19] fix: principal point of centered intrinsics

---
 cv-pinhole/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cv-pinhole/src/lib.rs b/cv-pinhole/src/lib.rs
index cb7e419..6e57156 100644
--- a/cv-pinhole/src/lib.rs
+++ b/cv-pinhole/src/lib.rs
@@ -280,7 +280,7 @@ impl CameraSpecification {
     pub fn intrinsics_centered(&self, focal: f64) -> CameraIntrinsics {
         CameraIntrinsics::identity()
             .focal(focal)
-            .principal_point(self.pixel_dimensions.map(|p| p / 2.0 - 0.5).into())
+            .principal_point(self.pixels.map(|p| p as f64 / 2.0 - 0.5).into())
     }
 }
 
-- 
2.43.0


From 102fe67f66ac0c893aef49229997dae5298c9247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:16 +0000
Subject: [PATCH 06/19] fix: cheirality checks of triangulators

The sign of the dot product of the bearing from the first camera (or world
origin) to the point with the observed bearing says nothing about whether the
point is in front of the other cameras. Transform the point to each camera.
---
 cv-geom/src/triangulation.rs | 47 ++++++++++++++++++++++--------------
 1 file changed, 29 insertions(+), 18 deletions(-)

diff --git a/cv-geom/src/triangulation.rs b/cv-geom/src/triangulation.rs
index c3cf37e..6013959 100644
--- a/cv-geom/src/triangulation.rs
+++ b/cv-geom/src/triangulation.rs
@@ -120,11 +120,7 @@ impl TriangulatorObservations for LinearEigenTriangulator {
             })
             .filter(|point| {
                 // Ensure the cheirality constraint.
-                pairs.all(|(pose, bearing)| {
-                    let pose = pose.inverse().isometry();
-                    let bearing = pose * bearing;
-                    bearing.dot(&point.bearing()).is_sign_positive()
-                })
+                pairs.all(|(pose, bearing)| pose.transform(*point).bearing().dot(&bearing) > 0.0)
             })
     }
 }
@@ -271,7 +267,17 @@ impl TriangulatorObservations for SineL1Triangulator {
             }
         }
 
-        Some(Projective::from_point(point))
+        Some(WorldPoint::from_point(point))
+            .filter(|point| {
+                // Ensure the point contains no NaN or infinity.
+                point.homogeneous().iter().all(|n| n.is_finite())
+            })
+            .filter(|point| {
+                // Ensure the cheirality constraint.
+                pairs
+                    .clone()
+                    .all(|(pose, bearing)| pose.transform(*point).bearing().dot(&bearing) > 0.0)
+            })
     }
 }
 
@@ -353,11 +359,8 @@ impl TriangulatorRelative for RelativeDltTriangulator {
             })
             .filter(|point| {
                 // Ensure the cheirality constraint.
-                point.bearing().dot(&a).is_sign_positive()
-                    && point
-                        .bearing()
-                        .dot(&(relative_pose.isometry().inverse() * b))
-                        .is_sign_positive()
+                point.bearing().dot(&a) > 0.0
+                    && relative_pose.transform(*point).bearing().dot(&b) > 0.0
             })
     }
 }
@@ -432,11 +435,7 @@ impl TriangulatorObservations for MeanMeanTriangulator {
         })
         .filter(|point| {
             // Ensure the cheirality constraint.
-            pairs.all(|(pose, bearing)| {
-                let pose = pose.inverse().isometry();
-                let bearing = pose * bearing;
-                bearing.dot(&point.bearing()).is_sign_positive()
-            })
+            pairs.all(|(pose, bearing)| pose.transform(*point).bearing().dot(&bearing) > 0.0)
         })
     }
 }
@@ -481,6 +480,7 @@ impl TriangulatorRelative for AngularL1Triangulator {
         // Technically, everything could have been reversed below, but it would be tedious and it would
         // not reflect the paper.
         let relative_pose = original_relative_pose.inverse();
+        let (original_a, original_b) = (a, b);
         let (a, b) = (b, a);
 
         // Transform a into the perspective of the second camera.
@@ -524,7 +524,12 @@ impl TriangulatorRelative for AngularL1Triangulator {
         })
         .filter(|point| {
             // Ensure the cheirality constraint.
-            point.bearing().dot(&a).is_sign_positive() && point.bearing().dot(&b).is_sign_positive()
+            point.bearing().dot(&original_a) > 0.0
+                && original_relative_pose
+                    .transform(*point)
+                    .bearing()
+                    .dot(&original_b)
+                    > 0.0
         })
     }
 }
@@ -567,6 +572,7 @@ impl TriangulatorRelative for AngularLInfinityTriangulator {
         // Technically, everything could have been reversed below, but it would be tedious and it would
         // not reflect the paper.
         let relative_pose = original_relative_pose.inverse();
+        let (original_a, original_b) = (a, b);
         let (a, b) = (b, a);
 
         // Transform a into the perspective of the second camera.
@@ -600,7 +606,12 @@ impl TriangulatorRelative for AngularLInfinityTriangulator {
         })
         .filter(|point| {
             // Ensure the cheirality constraint.
-            point.bearing().dot(&a).is_sign_positive() && point.bearing().dot(&b).is_sign_positive()
+            point.bearing().dot(&original_a) > 0.0
+                && original_relative_pose
+                    .transform(*point)
+                    .bearing()
+                    .dot(&original_b)
+                    > 0.0
         })
     }
 }
-- 
2.43.0


From 561feecfcdd2229a693680ee61bbef771b2b3daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:18 +0000
Subject: [PATCH 07/19] fix: eigenvector selection of LinearEigenTriangulator

---
 cv-geom/src/triangulation.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/cv-geom/src/triangulation.rs b/cv-geom/src/triangulation.rs
index 6013959..8c478c7 100644
--- a/cv-geom/src/triangulation.rs
+++ b/cv-geom/src/triangulation.rs
@@ -107,12 +107,12 @@ impl TriangulatorObservations for LinearEigenTriangulator {
 
         let se = a.try_symmetric_eigen(self.epsilon, self.max_iterations)?;
 
-        // Find the smallest eigenvalue where our point will lie in the null space homogeneous vector.
-        se.eigenvalues
-            .iter()
-            .enumerate()
-            .min_by_key(|&(_, &n)| float_ord::FloatOrd(n))
-            .map(|(ix, _)| se.eigenvectors.column(ix).into_owned())
+        // Find the eigenvector with the smallest cost, which is where our point will lie in the null space.
+        // The cost is computed from the eigenvector itself, as the solver may return the eigenvalues in a
+        // different order than their eigenvectors when its epsilon is reached early.
+        (0..4)
+            .map(|ix| se.eigenvectors.column(ix).into_owned())
+            .min_by_key(|v| float_ord::FloatOrd(v.dot(&(a * v))))
             .map(WorldPoint::from_homogeneous)
             .filter(|point| {
                 // Ensure the point contains no NaN or infinity.
-- 
2.43.0


From bd7cc799f44f1b34f0b08dc751cc009f2712400b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:11 +0000
Subject: [PATCH 08/19] fix: solutions of the five-point algorithm

The last four entries of the eigenvector of the action matrix are x, y, z and 1.
Degenerate points have no solution rather than arbitrary ones.
---
 nister-stewenius/src/lib.rs | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/nister-stewenius/src/lib.rs b/nister-stewenius/src/lib.rs
index 17c99cd..a5e70cf 100644
--- a/nister-stewenius/src/lib.rs
+++ b/nister-stewenius/src/lib.rs
@@ -227,7 +227,7 @@ fn essentials_from_action_ebasis(
             if e.im == 0.0 {
                 let e = e.re;
                 // Solve for the eigen vector.
-                compute_eigenvector(&at, e).map(|v| v.fixed_rows::<4>(5).into_owned())
+                compute_eigenvector(&at, e).map(|v| v.fixed_rows::<4>(6).into_owned())
             } else {
                 None
             }
@@ -237,28 +237,20 @@ fn essentials_from_action_ebasis(
 }
 
 /// Takes in two sets of normalized key points.
-/// Returns all essential matrix solutions.
+/// Returns all essential matrix solutions, or `None` if the points are degenerate.
 fn five_points_relative_pose(
     a: &[UnitVector3<f64>; 5],
     b: &[UnitVector3<f64>; 5],
-) -> impl Iterator<Item = EssentialMatrix> {
+) -> Option<impl Iterator<Item = EssentialMatrix>> {
     // Step 1: Nullspace Extraction.
-    let e_basis = if let Some(m) = five_points_nullspace_basis(a, b) {
-        m
-    } else {
-        return essentials_from_action_ebasis(Square10::zeros(), NullspaceMat::zeros());
-    };
+    let e_basis = five_points_nullspace_basis(a, b)?;
 
     // Step 2: Constraint Expansion.
     let e_constraints = five_points_polynomial_constraints(&e_basis);
 
     // Step 3: Gauss-Jordan Elimination (done thanks to a LU decomposition).
     let c_lu = e_constraints.fixed_slice::<10, 10>(0, 0).full_piv_lu();
-    let m = if let Some(m) = c_lu.solve(&e_constraints.fixed_slice::<10, 10>(0, 10).into_owned()) {
-        m
-    } else {
-        return essentials_from_action_ebasis(Square10::zeros(), NullspaceMat::zeros());
-    };
+    let m = c_lu.solve(&e_constraints.fixed_slice::<10, 10>(0, 10).into_owned())?;
 
     // For next steps we follow the matlab code given in Stewenius et al [1].
 
@@ -276,7 +268,7 @@ fn five_points_relative_pose(
     at[(8, 3)] = -1.0;
     at[(9, 6)] = -1.0;
 
-    essentials_from_action_ebasis(at, e_basis)
+    Some(essentials_from_action_ebasis(at, e_basis))
 }
 
 /// Implements the 5-point algorithm from the paper "Recent developments on direct relative orientation".
@@ -321,6 +313,8 @@ impl Estimator<FeatureMatch> for NisterStewenius {
         }
         assert!(count == 5);
         five_points_relative_pose(&a, &b)
+            .into_iter()
+            .flatten()
             .filter_map(|essential| {
                 essential.possible_unscaled_poses(self.epsilon, self.iterations)
             })
-- 
2.43.0


From 20a0aa2e2180c0f1646e1ad0151ca621dd812184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:11 +0000
Subject: [PATCH 09/19] fix: eigenvector selection of the eight-point algorithm

---
 eight-point/src/lib.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/eight-point/src/lib.rs b/eight-point/src/lib.rs
index fdea941..a59a263 100644
--- a/eight-point/src/lib.rs
+++ b/eight-point/src/lib.rs
@@ -47,12 +47,12 @@ impl EightPoint {
         let epipolar_constraint = encode_epipolar_equation(data);
         let eet = epipolar_constraint.transpose() * epipolar_constraint;
         let eigens = eet.try_symmetric_eigen(self.epsilon, self.iterations)?;
-        let eigenvector = eigens
-            .eigenvalues
-            .iter()
-            .enumerate()
-            .min_by_key(|&(_, &n)| float_ord::FloatOrd(n))
-            .map(|(ix, _)| eigens.eigenvectors.column(ix).into_owned())?;
+        // Find the eigenvector with the smallest cost. The cost is computed from the eigenvector itself,
+        // as the solver may return the eigenvalues in a different order than their eigenvectors when its
+        // epsilon is reached early.
+        let eigenvector = (0..9)
+            .map(|ix| eigens.eigenvectors.column(ix).into_owned())
+            .min_by_key(|v| float_ord::FloatOrd((epipolar_constraint * v).norm_squared()))?;
         let mat = Matrix3::from_iterator(eigenvector.iter().copied());
         Some(EssentialMatrix(mat))
     }
-- 
2.43.0


From a381c97bbd2afe76ad219074115de09f680d30a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:03 +0000
Subject: [PATCH 10/19] fix: endless eigenvalue iteration in the five-point
 algorithm

---
 nister-stewenius/src/lib.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/nister-stewenius/src/lib.rs b/nister-stewenius/src/lib.rs
index a5e70cf..e5aa7b7 100644
--- a/nister-stewenius/src/lib.rs
+++ b/nister-stewenius/src/lib.rs
@@ -5,7 +5,7 @@ use cv_core::{
     nalgebra::{
         self,
         dimension::{U10, U20, U4, U5, U9},
-        DimName, Matrix3, OMatrix, OVector, UnitVector3, Vector3, Vector4,
+        DimName, Matrix3, OMatrix, OVector, Schur, UnitVector3, Vector3, Vector4,
     },
     CameraToCamera, FeatureMatch,
 };
@@ -220,10 +220,12 @@ fn essentials_from_action_ebasis(
     at: Square10,
     eb: NullspaceMat,
 ) -> impl Iterator<Item = EssentialMatrix> {
-    let eigenvalues = at.complex_eigenvalues();
-    (0..eigenvalues.len())
-        .filter_map(move |i| {
-            let e = eigenvalues[i];
+    // The number of iterations is limited, as the decomposition never converges for some matrices.
+    Schur::try_new(at, f64::EPSILON, EIGEN_ITERATIONS)
+        .map(|schur| schur.complex_eigenvalues())
+        .into_iter()
+        .flat_map(|eigenvalues| (0..eigenvalues.len()).map(move |i| eigenvalues[i]))
+        .filter_map(move |e| {
             if e.im == 0.0 {
                 let e = e.re;
                 // Solve for the eigen vector.
-- 
2.43.0


From a157e30d322c0e358b296ac37fcad001260e9616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:25 +0000
Subject: [PATCH 11/19] fix: rotations by half a turn in LambdaTwist

---
 lambda-twist/src/lib.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lambda-twist/src/lib.rs b/lambda-twist/src/lib.rs
index 928d3e8..6da2c85 100644
--- a/lambda-twist/src/lib.rs
+++ b/lambda-twist/src/lib.rs
@@ -33,7 +33,7 @@ use num_traits::Float;
 // file, You can obtain one at http://mozilla.org/MPL/2.0/.
 
 use cv_core::{
-    nalgebra::{Matrix3, Rotation3, Vector3},
+    nalgebra::{Matrix3, Rotation3, UnitQuaternion, Vector3},
     sample_consensus::Estimator,
     FeatureWorldMatch, Pose, Projective, WorldToCamera,
 };
@@ -303,13 +303,19 @@ impl LambdaTwist {
                 (rot, ry1 - rot * wps[0].coords)
             })
             .map(|(rot, trans)| {
+                // The convergence must start close to the rotation, because it is
+                // stuck when the guess is half a turn away from the rotation.
+                let guess = UnitQuaternion::new_normalize(
+                    UnitQuaternion::from_rotation_matrix(&Rotation3::from_matrix_unchecked(rot))
+                        .into_inner(),
+                );
                 WorldToCamera::from_parts(
                     trans,
                     Rotation3::from_matrix_eps(
                         &rot,
                         self.rotation_convergence_epsilon,
                         self.rotation_convergence_iterations,
-                        Rotation3::identity(),
+                        guess.to_rotation_matrix(),
                     ),
                 )
             })
-- 
2.43.0


From 51bdaf1b3bb42c77c602d9f0bd299e038d892560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:12 +0000
Subject: [PATCH 12/19] fix: NaN pose from landmarks that are all at infinity

---
 cv-optimize/src/single_view_optimizer.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cv-optimize/src/single_view_optimizer.rs b/cv-optimize/src/single_view_optimizer.rs
index f8e896d..5ae6b5e 100644
--- a/cv-optimize/src/single_view_optimizer.rs
+++ b/cv-optimize/src/single_view_optimizer.rs
@@ -39,6 +39,11 @@ pub fn single_view_simple_optimize_l1(
             }
         }
 
+        // All landmarks are at infinity, so there are no weights to divide by.
+        if ts == 0.0 && rs == 0.0 {
+            return pose;
+        }
+
         let delta = l1sum
             .scale(optimization_rate)
             .scale_translation(ts.recip())
-- 
2.43.0


From 407056d5584baa6472aadfe823f7a0e17d3fedcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:51 +0000
Subject: [PATCH 13/19] akaze: expose the scale space with cfg(cvcheck)

---
 akaze/src/lib.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/akaze/src/lib.rs b/akaze/src/lib.rs
index 6456554..6b8a62b 100644
--- a/akaze/src/lib.rs
+++ b/akaze/src/lib.rs
@@ -365,3 +365,14 @@ impl Akaze {
         Ok(self.extract(&::image::open(path)?))
     }
 }
+
+/// Access to the scale space for property checks, built only with `--cfg cvcheck`.
+#[cfg(cvcheck)]
+impl Akaze {
+    pub fn cvcheck_scale_space(&self, float_image: &GrayFloatImage) -> Vec<EvolutionStep> {
+        let mut evolutions =
+            self.allocate_evolutions(float_image.0.width(), float_image.0.height());
+        self.create_nonlinear_scale_space(&mut evolutions, float_image);
+        evolutions
+    }
+}
-- 
2.43.0


From 0fa26953f280eeff857f1d82c6c1b8747fb8839b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:04 +0000
Subject: [PATCH 14/19] fix: a diffusion cycle of one step no longer hangs

---
 akaze/src/fed_tau.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/akaze/src/fed_tau.rs b/akaze/src/fed_tau.rs
index 9cdfe58..8254309 100644
--- a/akaze/src/fed_tau.rs
+++ b/akaze/src/fed_tau.rs
@@ -66,7 +66,8 @@ fn fed_tau_internal(n: usize, scale: f64, tau_max: f64, reordering: bool) -> Vec
             d / (h * h)
         })
         .collect();
-    if reordering {
+    // A single step has no order, and its kappa would be 0.
+    if reordering && n > 1 {
         // Permute list of time steps according to chosen reordering function
         // Choose kappa cycle with k = n/2
         // This is a heuristic. We can use Leja ordering instead!
-- 
2.43.0


From 9a019f274fe159dd20a630369c1f929ad3d32413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:08 +0000
Subject: [PATCH 15/19] fix: NaN scale space of images without gradients

---
 akaze/src/contrast_factor.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/akaze/src/contrast_factor.rs b/akaze/src/contrast_factor.rs
index db1a225..ded0ad7 100644
--- a/akaze/src/contrast_factor.rs
+++ b/akaze/src/contrast_factor.rs
@@ -56,7 +56,8 @@ pub fn compute_contrast_factor(
         "hmax: {}, threshold: {}, num_elements: {}",
         hmax, threshold, num_elements
     );
-    if num_elements >= threshold {
+    // Without any gradients there is no percentile, and a contrast of 0 would give NaN conductivities.
+    if num_elements >= threshold && k > 0 {
         hmax * (k as f64) / (num_bins as f64)
     } else {
         0.03
-- 
2.43.0


From a9d1087da108a446f851cfceb857ca0811713def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:31 +0000
Subject: [PATCH 16/19] fix: scale of Scharr derivatives over one pixel

---
 akaze/src/derivatives.rs | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/akaze/src/derivatives.rs b/akaze/src/derivatives.rs
index 16ad052..996a595 100644
--- a/akaze/src/derivatives.rs
+++ b/akaze/src/derivatives.rs
@@ -21,9 +21,6 @@ pub fn simple_scharr_vertical(image: &GrayFloatImage) -> GrayFloatImage {
 /// # Return value
 /// Output image derivative (an image.)
 pub fn scharr_horizontal(image: &GrayFloatImage, sigma_size: u32) -> GrayFloatImage {
-    if sigma_size == 1 {
-        return simple_scharr_horizontal(image);
-    }
     let main_kernel = computer_scharr_kernel(sigma_size, FilterOrder::Main);
     let off_kernel = computer_scharr_kernel(sigma_size, FilterOrder::Off);
     GrayFloatImage(separable_filter(&image.0, &main_kernel, &off_kernel))
@@ -40,9 +37,6 @@ pub fn scharr_horizontal(image: &GrayFloatImage, sigma_size: u32) -> GrayFloatIm
 /// # Return value
 /// Output image derivative (an image.)
 pub fn scharr_vertical(image: &GrayFloatImage, sigma_size: u32) -> GrayFloatImage {
-    if sigma_size == 1 {
-        return simple_scharr_vertical(image);
-    }
     let main_kernel = computer_scharr_kernel(sigma_size, FilterOrder::Main);
     let off_kernel = computer_scharr_kernel(sigma_size, FilterOrder::Off);
     GrayFloatImage(separable_filter(&image.0, &off_kernel, &main_kernel))
-- 
2.43.0


From a945ddf71cb7ead25772fb80926e2895ba584cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:45 +0000
Subject: [PATCH 17/19] fix: images too small for a scale space have no
 features

---
 akaze/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/akaze/src/lib.rs b/akaze/src/lib.rs
index 6b8a62b..a5473ba 100644
--- a/akaze/src/lib.rs
+++ b/akaze/src/lib.rs
@@ -195,6 +195,10 @@ impl Akaze {
         evolutions: &mut Vec<EvolutionStep>,
         image: &GrayFloatImage,
     ) {
+        if evolutions.is_empty() {
+            // The image is too small for even one evolution.
+            return;
+        }
         trace!("Creating first evolution.");
         evolutions[0].Lt = gaussian_blur(image, self.base_scale_offset as f32);
         trace!("Gaussian blur finished.");
-- 
2.43.0


From 30f1f3d4412890f065a9ebd24f562158e9288efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:45 +0000
Subject: [PATCH 18/19] cv-sfm: expose private parts with cfg(cvcheck)

---
 cv-sfm/src/cvcheck.rs | 174 ++++++++++++++++++++++++++++++++++++++++++
 cv-sfm/src/lib.rs     |   2 +
 2 files changed, 176 insertions(+)
 create mode 100644 cv-sfm/src/cvcheck.rs

diff --git a/cv-sfm/src/cvcheck.rs b/cv-sfm/src/cvcheck.rs
new file mode 100644
index 0000000..4ee87aa
--- /dev/null
+++ b/cv-sfm/src/cvcheck.rs
@@ -0,0 +1,174 @@
+//! Access to private parts for property checks, built only with `--cfg cvcheck`.
+
+use super::*;
+
+pub use super::bicubic::interpolate_bicubic;
+
+pub fn symmetric_matches(a: &Frame, b: &Frame, better_by: u32) -> Vec<[usize; 2]> {
+    symmetric_matching(a, b, better_by)
+}
+
+impl VSlamData {
+    pub fn cvcheck_frames(&self) -> Vec<FrameKey> {
+        self.frames.keys().collect()
+    }
+
+    pub fn cvcheck_feed_frames(&self, feed: FeedKey) -> &[FrameKey] {
+        &self.feeds[feed].frames
+    }
+
+    pub fn cvcheck_add_features(
+        &mut self,
+        feed: FeedKey,
+        features: Vec<(BitArray<64>, Feature)>,
+    ) -> FrameKey {
+        self.add_frame(feed, features)
+    }
+
+    pub fn cvcheck_add_view(
+        &mut self,
+        reconstruction: ReconstructionKey,
+        frame: FrameKey,
+        pose: WorldToCamera,
+        landmarks: &HashMap<usize, Vec<LandmarkKey>>,
+    ) -> ViewKey {
+        self.add_view(reconstruction, frame, pose, |feature| {
+            Some(landmarks.get(&feature)?.iter().copied().collect())
+        })
+    }
+
+    pub fn cvcheck_remove_view(&mut self, reconstruction: ReconstructionKey, view: ViewKey) {
+        self.remove_view(reconstruction, view)
+    }
+
+    pub fn cvcheck_remove_reconstruction(&mut self, reconstruction: ReconstructionKey) {
+        self.remove_reconstruction(reconstruction)
+    }
+
+    pub fn cvcheck_split_observation(
+        &mut self,
+        reconstruction: ReconstructionKey,
+        view: ViewKey,
+        feature: usize,
+    ) -> bool {
+        self.split_observation(reconstruction, view, feature)
+    }
+
+    pub fn cvcheck_set_pose(
+        &mut self,
+        reconstruction: ReconstructionKey,
+        view: ViewKey,
+        pose: WorldToCamera,
+    ) {
+        self.reconstructions[reconstruction].views[view].pose = pose;
+    }
+
+    pub fn cvcheck_constraints(
+        &self,
+        reconstruction: ReconstructionKey,
+    ) -> Vec<([ViewKey; 3], [IsometryMatrix3<f64>; 2])> {
+        self.reconstructions[reconstruction]
+            .constraints
+            .values()
+            .map(|constraint| (constraint.views, constraint.poses))
+            .collect()
+    }
+
+    pub fn cvcheck_set_constraints(
+        &mut self,
+        reconstruction: ReconstructionKey,
+        constraints: &[([ViewKey; 3], [IsometryMatrix3<f64>; 2])],
+    ) {
+        let all = &mut self.reconstructions[reconstruction].constraints;
+        all.clear();
+        for &(views, poses) in constraints {
+            all.insert(ThreeViewConstraint { views, poses });
+        }
+    }
+}
+
+impl<C1, C2, PE, EE, T, R> VSlam<C1, C2, PE, EE, T, R>
+where
+    C1: Consensus<PE, FeatureWorldMatch>,
+    C2: Consensus<EE, FeatureMatch>,
+    PE: Estimator<FeatureWorldMatch, Model = WorldToCamera>,
+    EE: Estimator<FeatureMatch, Model = CameraToCamera>,
+    T: TriangulatorObservations + Clone,
+    R: Rng,
+{
+    /// What `add_frame` does after extracting the features.
+    pub fn cvcheck_localize(&mut self, frame: FrameKey) -> Option<(ReconstructionKey, ViewKey)> {
+        let (reconstruction_frames, free_frames) = self.cvcheck_similar_and_recent(frame);
+        self.try_localize(frame, reconstruction_frames, free_frames)
+    }
+
+    #[allow(clippy::type_complexity)]
+    pub fn cvcheck_similar_and_recent(
+        &self,
+        frame: FrameKey,
+    ) -> (HashMap<ReconstructionKey, Vec<ViewKey>>, Vec<FrameKey>) {
+        self.data.find_visually_similar_and_recent_frames(
+            frame,
+            self.settings.tracking_similar_frames,
+            self.settings.tracking_recent_frames,
+            self.settings.tracking_similar_frame_recent_threshold,
+            self.settings.tracking_similar_frame_search_num,
+        )
+    }
+
+    pub fn cvcheck_features(
+        &self,
+        feed: FeedKey,
+        image: &DynamicImage,
+    ) -> Vec<(BitArray<64>, Feature)> {
+        self.kps_descriptors(&self.data.feeds[feed].intrinsics, image)
+    }
+
+    pub fn cvcheck_init(
+        &mut self,
+        center: FrameKey,
+        options: Vec<FrameKey>,
+    ) -> Option<ReconstructionKey> {
+        self.try_init(center, options.into_iter())
+    }
+
+    pub fn cvcheck_incorporate_frame(
+        &mut self,
+        reconstruction: ReconstructionKey,
+        frame: FrameKey,
+        view_matches: Vec<ViewKey>,
+    ) -> Option<ViewKey> {
+        self.incorporate_frame(reconstruction, frame, view_matches)
+    }
+
+    pub fn cvcheck_merge_reconstructions(
+        &mut self,
+        src_reconstruction: ReconstructionKey,
+        src_view: ViewKey,
+        dest_reconstruction: ReconstructionKey,
+        dest_views: Vec<ViewKey>,
+    ) -> Option<ReconstructionKey> {
+        self.try_merge_reconstructions(
+            src_reconstruction,
+            src_view,
+            dest_reconstruction,
+            dest_views,
+        )
+    }
+
+    pub fn cvcheck_record_view_constraints(
+        &mut self,
+        reconstruction: ReconstructionKey,
+        view: ViewKey,
+    ) -> bool {
+        self.record_view_constraints(reconstruction, view)
+    }
+
+    pub fn cvcheck_split_landmark(
+        &mut self,
+        reconstruction: ReconstructionKey,
+        landmark: LandmarkKey,
+    ) {
+        self.split_landmark(reconstruction, landmark)
+    }
+}
diff --git a/cv-sfm/src/lib.rs b/cv-sfm/src/lib.rs
index a6c81f2..266dabd 100644
--- a/cv-sfm/src/lib.rs
+++ b/cv-sfm/src/lib.rs
@@ -1,5 +1,7 @@
 mod bicubic;
 mod codewords;
+#[cfg(cvcheck)]
+pub mod cvcheck;
 mod export;
 mod settings;
 
-- 
2.43.0


From 11b32ea259a0f5d89d54d6f78e6e38cd04f7a5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:45 +0000
Subject: [PATCH 19/19] fix: cv-sfm prefers constraints that reach views no
 better one reaches

---
 cv-sfm/src/lib.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/cv-sfm/src/lib.rs b/cv-sfm/src/lib.rs
index 266dabd..45da4a3 100644
--- a/cv-sfm/src/lib.rs
+++ b/cv-sfm/src/lib.rs
@@ -2492,7 +2492,14 @@ where
         let mut already_visited: HashSet<ViewKey> = HashSet::new();
         let unique_three_view_covisibilities = robust_three_view_covisibilities
             .iter()
-            .filter(|(views, _)| views.iter().any(|&view| already_visited.insert(view)))
+            .filter(|(views, _)| {
+                // Every view must be marked, not only the first new one.
+                views
+                    .iter()
+                    .filter(|&&view| already_visited.insert(view))
+                    .count()
+                    > 0
+            })
             .take(self.settings.optimization_maximum_three_view_constraints)
             .collect_vec();
         // If we can't get enough of those, pad it out with more three-view covisibilities until
-- 
2.43.0

