From 6ef2089615f09b705eef07a3c7896b7067a0cc4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:53:32 +0000
Subject: [PATCH 01/20] fix: report an overflowing vector norm instead of
 returning infinity

Normalising a vector with very large elements silently gave the zero vector.
The norm now returns an error when the sum of squares is not finite.
---
 linalg/src/vector.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/linalg/src/vector.rs b/linalg/src/vector.rs
index c92fad8..2c4eaaa 100644
--- a/linalg/src/vector.rs
+++ b/linalg/src/vector.rs
@@ -454,6 +454,8 @@ impl Vector<f32> {
 
         norm = sqrtf(norm);  // Calculate the square root of the sum to obtain the Euclidean norm.
 
+        is_valid_value(norm).map_err(LinalgError::UtilsError)?; // Check that the sum did not overflow.
+
         // Check for numerical precision issues and set very small norms to zero.
         if norm <= EPSILON {
             norm = 0.0;
-- 
2.43.0


From 72ef9471a4ab839f6875fb3e070c3949c9f468b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:53:32 +0000
Subject: [PATCH 02/20] fix: make slerp of nearly parallel vectors well defined

The division by sin(theta) gave NaN for equal unit vectors.
The scalar product is now clipped and such vectors are interpolated linearly.
---
 linalg/src/vector.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/linalg/src/vector.rs b/linalg/src/vector.rs
index 2c4eaaa..9a7a222 100644
--- a/linalg/src/vector.rs
+++ b/linalg/src/vector.rs
@@ -1,6 +1,6 @@
 extern crate utils;
 
-use utils::utils::{is_valid_value, in_range, allclose};
+use utils::utils::{is_valid_value, in_range, allclose, clip};
 use libm::{acosf, sinf, sqrtf, powf};
 
 use crate::common::{M_MAX, EPSILON, LinalgError};
@@ -581,7 +581,12 @@ impl Vector<f32> {
 
         // Perform scalar product.
         let scalar = vect1.dot_product(&vect2)?;
-        let theta = acosf(scalar);  // Angle between the axis of the first vector and the second one.
+        let theta = acosf(clip(scalar, -1.0_f32, 1.0_f32)); // Angle between the axis of the first vector and the second one (rounding can push the scalar product slightly out of range).
+
+        // The vectors are nearly parallel: the spherical interpolation degenerates to the linear one.
+        if sinf(theta) <= EPSILON {
+            return self.lerp(vect1, vect2, alpha);
+        }
 
         // Create a copy of the first vector.
         let mut v1 = Self::new();
-- 
2.43.0


From f5ff220c1bffb34c280ba5f53900448a2c4b112c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:53:33 +0000
Subject: [PATCH 03/20] fix: keep a vector or matrix intact when reinit refuses
 the new size

A refused size left the container uninitialised.
---
 linalg/src/matrix.rs | 4 ++++
 linalg/src/vector.rs | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/linalg/src/matrix.rs b/linalg/src/matrix.rs
index 94b4187..eff9ee8 100644
--- a/linalg/src/matrix.rs
+++ b/linalg/src/matrix.rs
@@ -63,6 +63,10 @@ impl Matrix {
             return Err(LinalgError::NotInit);   // Return an error.
         }
 
+        // Check the new size first so that a refused one leaves the matrix unchanged.
+        is_valid_rows_number(rows)?;
+        is_valid_cols_number(cols)?;
+
         self.initialized = false;   // Set the initialization flag to false.
 
         self.init(rows, cols)?;     // Reinitialize the matrix.
diff --git a/linalg/src/vector.rs b/linalg/src/vector.rs
index 9a7a222..d4b99e6 100644
--- a/linalg/src/vector.rs
+++ b/linalg/src/vector.rs
@@ -49,6 +49,8 @@ impl<T: Default + Copy> Vector<T> {
             return Err(LinalgError::NotInit);   // Return an error.
         }
 
+        is_valid_rows_number(rows)?;    // Check the new size first so that a refused one leaves the vector unchanged.
+
         self.initialized = false;   // Set the initialization flag to false.
 
         self.init(rows)?;           // Reinitialize the vector.
-- 
2.43.0


From 168aa66fadd71dce3227286bc5b8955dd8e1607a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:53:34 +0000
Subject: [PATCH 04/20] fix: check the arguments of add_row and add_col before
 resizing

A bad index or vector size left the matrix enlarged.
The largest index overflowed.
---
 linalg/src/matrix.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/linalg/src/matrix.rs b/linalg/src/matrix.rs
index eff9ee8..5a12029 100644
--- a/linalg/src/matrix.rs
+++ b/linalg/src/matrix.rs
@@ -337,6 +337,13 @@ impl Matrix {
         let rows = self.rows + 1;   // Calculate the new rows number.
 
         is_valid_rows_number(rows)?;    // Check that the new number of rows does not exceed M_MAX.
+        is_valid_row(row, rows)?;       // Check that the new row directly follows or precedes an existing one.
+
+        // Check that the number of columns in the matrix is the same as the number of rows in the vector.
+        if self.cols != vect.get_rows()? {
+            // The number of columns in the matrix is not the same as the number of rows in the vector.
+            return Err(LinalgError::InvalidSize);   // Return an error.
+        }
 
         self.set_rows(rows)?;   // Update it.
 
@@ -357,6 +364,13 @@ impl Matrix {
         let cols = self.cols + 1;   // Calculate the new columns number.
 
         is_valid_cols_number(cols)?;    // Check that the new number of columns does not exceed N_MAX.
+        is_valid_col(col, cols)?;       // Check that the new column directly follows or precedes an existing one.
+
+        // Check that the number of rows in the matrix is the same as the number of rows in the vector.
+        if self.rows != vect.get_rows()? {
+            // The number of rows in the matrix is not the same as the number of rows in the vector.
+            return Err(LinalgError::InvalidSize);   // Return an error.
+        }
 
         self.set_cols(cols)?;   // Update it.
 
-- 
2.43.0


From 96ddd70b25de3468af12dc3fe451019d37f2defb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:53:35 +0000
Subject: [PATCH 05/20] fix: avoid integer underflow on empty and one by one
 matrices

Deleting a row of an uninitialised matrix and testing it for a lower triangle subtracted from zero.
The shifted eigenvalue search did the same for a one by one matrix.
---
 linalg/src/linalg.rs | 2 +-
 linalg/src/matrix.rs | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/linalg/src/linalg.rs b/linalg/src/linalg.rs
index 7cf2635..79d4c64 100644
--- a/linalg/src/linalg.rs
+++ b/linalg/src/linalg.rs
@@ -137,7 +137,7 @@ pub fn eigen(mat: &Matrix, niter: u16, shifted: bool) -> Result<(Vector<f32>, Ma
         let mut tmp = Matrix::new();    // Create a new matrix.
         tmp.init(m, m)?;                // Initialize the new matrix with the same size as the input matrix.
 
-        if shifted {
+        if shifted && m > 1 {
             // Apply Wilkinson shift method to determine the shift.
             let a_ = a.get_element(m - 2, m - 2)?;
             let b = a.get_element(m - 2, m - 1)?;
diff --git a/linalg/src/matrix.rs b/linalg/src/matrix.rs
index 5a12029..f73e83f 100644
--- a/linalg/src/matrix.rs
+++ b/linalg/src/matrix.rs
@@ -388,9 +388,10 @@ impl Matrix {
 
     /// This method is used to delete a row of a matrix of size m x n and save the deleted row into a vector of size n x 1. The result is a matrix of size m-1 x n.
     pub fn del_row(self: &mut Self, row: u8) -> Result<Vector<f32>, LinalgError> {
+        is_valid_row(row, self.rows)?;  // Check if the row you want to delete exists.
+
         let rows = self.rows - 1;   // Calculate the new rows number.
 
-        is_valid_row(row, self.rows)?;  // Check if the row you want to delete exists.
         is_valid_rows_number(rows)?;    // Check that the new number of rows is not zero.
 
         /*
@@ -1251,7 +1252,7 @@ impl Matrix {
     /// This method is used to check if a matrix of size m x n is lower triangular.
     pub fn is_lower_triangular(self: &Self) -> Result<bool, LinalgError> {
         // Loops on every row except the last (which doesn't need to have null elements).
-        for row in 0..self.rows - 1 {
+        for row in 0..self.rows.saturating_sub(1) {
             // We loop for the columns corresponding to the upper triangular matrix as a function of the current row.
             for col in row + 1..self.cols {
                 // If the matrix is lower triangular, the element must always be zero, otherwise the matrix cannot be lower triangular.
-- 
2.43.0


From f0c6627ea951cd83fa07d70cb507c7e649e7ee02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:53:55 +0000
Subject: [PATCH 06/20] fix: refuse a bad sensor configuration as a whole

A non-finite factor was refused only after the factors before it had been stored.
All factors are now checked first.
---
 open_ahrs/src/accelerometer.rs | 13 +++++++++++++
 open_ahrs/src/gyrometer.rs     | 13 +++++++++++++
 open_ahrs/src/magnetometer.rs  | 13 +++++++++++++
 3 files changed, 39 insertions(+)

diff --git a/open_ahrs/src/accelerometer.rs b/open_ahrs/src/accelerometer.rs
index 2d6c917..f00008c 100644
--- a/open_ahrs/src/accelerometer.rs
+++ b/open_ahrs/src/accelerometer.rs
@@ -1,7 +1,10 @@
 extern crate linalg;
+extern crate utils;
 
 use linalg::matrix::Matrix;
 use linalg::vector::Vector;
+use linalg::common::LinalgError;
+use utils::utils::is_valid_value;
 use crate::common::OpenAHRSError;
 
 // Accelerometer configuration.
@@ -107,6 +110,16 @@ impl Accelerometer {
 
     // This function sets the configuration privately
     fn private_set_config(self: &mut Self, config: &AccelerometerConfig) -> Result<(), OpenAHRSError> {
+        // Check all the factors first so that a refused configuration leaves the current one unchanged.
+        for value in [
+            config.x_axis_scale_correction, config.y_axis_scale_correction, config.z_axis_scale_correction,
+            config.xy_axes_misalignment_correction, config.xz_axes_misalignment_correction, config.yx_axes_misalignment_correction,
+            config.yz_axes_misalignment_correction, config.zx_axes_misalignment_correction, config.zy_axes_misalignment_correction,
+            config.x_axis_static_bias, config.y_axis_static_bias, config.z_axis_static_bias,
+        ] {
+            is_valid_value(value).map_err(LinalgError::UtilsError)?;
+        }
+
         self.scale_and_axes_misalignment_correction.set_element(0, 0, config.x_axis_scale_correction)?;
         self.scale_and_axes_misalignment_correction.set_element(1, 1, config.y_axis_scale_correction)?;
         self.scale_and_axes_misalignment_correction.set_element(2, 2, config.z_axis_scale_correction)?;
diff --git a/open_ahrs/src/gyrometer.rs b/open_ahrs/src/gyrometer.rs
index dbb6f2a..2ccf366 100644
--- a/open_ahrs/src/gyrometer.rs
+++ b/open_ahrs/src/gyrometer.rs
@@ -1,7 +1,10 @@
 extern crate linalg;
+extern crate utils;
 
 use linalg::matrix::Matrix;
 use linalg::vector::Vector;
+use linalg::common::LinalgError;
+use utils::utils::is_valid_value;
 use crate::common::OpenAHRSError;
 
 // Gyrometer configuration.
@@ -107,6 +110,16 @@ impl Gyrometer {
 
     // This function sets the configuration privately
     fn private_set_config(self: &mut Self, config: &GyrometerConfig) -> Result<(), OpenAHRSError> {
+        // Check all the factors first so that a refused configuration leaves the current one unchanged.
+        for value in [
+            config.x_axis_scale_correction, config.y_axis_scale_correction, config.z_axis_scale_correction,
+            config.xy_axes_misalignment_correction, config.xz_axes_misalignment_correction, config.yx_axes_misalignment_correction,
+            config.yz_axes_misalignment_correction, config.zx_axes_misalignment_correction, config.zy_axes_misalignment_correction,
+            config.x_axis_static_bias, config.y_axis_static_bias, config.z_axis_static_bias,
+        ] {
+            is_valid_value(value).map_err(LinalgError::UtilsError)?;
+        }
+
         self.scale_and_axes_misalignment_correction.set_element(0, 0, config.x_axis_scale_correction)?;
         self.scale_and_axes_misalignment_correction.set_element(1, 1, config.y_axis_scale_correction)?;
         self.scale_and_axes_misalignment_correction.set_element(2, 2, config.z_axis_scale_correction)?;
diff --git a/open_ahrs/src/magnetometer.rs b/open_ahrs/src/magnetometer.rs
index def25da..e231074 100644
--- a/open_ahrs/src/magnetometer.rs
+++ b/open_ahrs/src/magnetometer.rs
@@ -1,7 +1,10 @@
 extern crate linalg;
+extern crate utils;
 
 use linalg::matrix::Matrix;
 use linalg::vector::Vector;
+use linalg::common::LinalgError;
+use utils::utils::is_valid_value;
 use crate::common::OpenAHRSError;
 
 // Magnetometer configuration.
@@ -114,6 +117,16 @@ impl Magnetometer {
 
     // This function is used to initialize a magnetometer.
     fn private_set_config(self: &mut Self, config: &MagnetometerConfig) -> Result<(), OpenAHRSError> {
+        // Check all the factors first so that a refused configuration leaves the current one unchanged.
+        for value in [
+            config.x_axis_scale_correction, config.y_axis_scale_correction, config.z_axis_scale_correction,
+            config.xy_soft_iron_correction, config.xz_soft_iron_correction, config.yx_soft_iron_correction,
+            config.yz_soft_iron_correction, config.zx_soft_iron_correction, config.zy_soft_iron_correction,
+            config.x_axis_hard_iron_bias, config.y_axis_hard_iron_bias, config.z_axis_hard_iron_bias,
+        ] {
+            is_valid_value(value).map_err(LinalgError::UtilsError)?;
+        }
+
         self.scale_and_soft_iron_correction.set_element(0, 0, config.x_axis_scale_correction)?;
         self.scale_and_soft_iron_correction.set_element(1, 1, config.y_axis_scale_correction)?;
         self.scale_and_soft_iron_correction.set_element(2, 2, config.z_axis_scale_correction)?;
-- 
2.43.0


From 88b155041e581ff764b634df628126e6f6dbb865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:53:55 +0000
Subject: [PATCH 07/20] fix: keep the corrected reading of a sensor when a
 sample is refused

The reading was used as scratch space, so an overflowing sample left it half computed.
---
 open_ahrs/src/accelerometer.rs | 4 ++--
 open_ahrs/src/gyrometer.rs     | 4 ++--
 open_ahrs/src/magnetometer.rs  | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/open_ahrs/src/accelerometer.rs b/open_ahrs/src/accelerometer.rs
index f00008c..7613e86 100644
--- a/open_ahrs/src/accelerometer.rs
+++ b/open_ahrs/src/accelerometer.rs
@@ -195,8 +195,8 @@ impl Accelerometer {
 
     // This function is used to correct the raw measurements.
     fn correct(self: &mut Self) -> Result<(), OpenAHRSError> {
-        self.corrected_measurements.sub(&self.raw_measurements, &self.static_biases)?;                                      // Remove static biases from raw measurements.
-        let mut corrected_measurements = self.corrected_measurements.convert_to_matrix()?;                                  // Convert this vector into a matrix to perform matrix operations.
+        let unbiased_measurements = self.raw_measurements.sub_new(&self.static_biases)?;                                    // Remove static biases from raw measurements.
+        let mut corrected_measurements = unbiased_measurements.convert_to_matrix()?;                                        // Convert this vector into a matrix to perform matrix operations.
         corrected_measurements.mul(&self.scale_and_axes_misalignment_correction, &corrected_measurements.duplicate()?)?;    // Correct scale error and axes misalignment and non-orthonormality.
         corrected_measurements.get_col(&mut self.corrected_measurements, 0)?;                                               // Perform matrix-to-vector conversion to store the corrected measurements.
 
diff --git a/open_ahrs/src/gyrometer.rs b/open_ahrs/src/gyrometer.rs
index 2ccf366..81819f3 100644
--- a/open_ahrs/src/gyrometer.rs
+++ b/open_ahrs/src/gyrometer.rs
@@ -195,8 +195,8 @@ impl Gyrometer {
 
     // This function is used to correct the raw measurements.
     fn correct(self: &mut Self) -> Result<(), OpenAHRSError> {
-        self.corrected_measurements.sub(&self.raw_measurements, &self.static_biases)?;                                      // Remove static biases from raw measurements.
-        let mut corrected_measurements = self.corrected_measurements.convert_to_matrix()?;                                  // Convert this vector into a matrix to perform matrix operations.
+        let unbiased_measurements = self.raw_measurements.sub_new(&self.static_biases)?;                                    // Remove static biases from raw measurements.
+        let mut corrected_measurements = unbiased_measurements.convert_to_matrix()?;                                        // Convert this vector into a matrix to perform matrix operations.
         corrected_measurements.mul(&self.scale_and_axes_misalignment_correction, &corrected_measurements.duplicate()?)?;    // Correct scale error and axes misalignment and non-orthonormality.
         corrected_measurements.get_col(&mut self.corrected_measurements, 0)?;                                               // Perform matrix-to-vector conversion to store the corrected measurements.
 
diff --git a/open_ahrs/src/magnetometer.rs b/open_ahrs/src/magnetometer.rs
index e231074..6a87046 100644
--- a/open_ahrs/src/magnetometer.rs
+++ b/open_ahrs/src/magnetometer.rs
@@ -202,8 +202,8 @@ impl Magnetometer {
 
     // This function is used to correct the raw measurements.
     fn correct(self: &mut Self) -> Result<(), OpenAHRSError> {
-        self.corrected_measurements.sub(&self.raw_measurements, &self.hard_iron_biases)?;                           // Remove static biases (hard-iron effects) from raw measurements.
-        let mut corrected_measurements = self.corrected_measurements.convert_to_matrix()?;                          // Convert this vector into a matrix to perform matrix operations.
+        let unbiased_measurements = self.raw_measurements.sub_new(&self.hard_iron_biases)?;                         // Remove static biases (hard-iron effects) from raw measurements.
+        let mut corrected_measurements = unbiased_measurements.convert_to_matrix()?;                                // Convert this vector into a matrix to perform matrix operations.
         corrected_measurements.mul(&self.scale_and_soft_iron_correction, &corrected_measurements.duplicate()?)?;    // Correct measurement distorsions (soft-iron effects, scale factors, axes misalignments and non-orthogonality).
         corrected_measurements.get_col(&mut self.corrected_measurements, 0)?;                                       // Perform matrix-to-vector conversion to store the corrected measurements.
 
-- 
2.43.0


From 91e13a6cce67f75b3d35f5ee98a77daa30480162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:53:56 +0000
Subject: [PATCH 08/20] fix: put the magnetometer soft-iron factors where their
 names say

The cross factors were stored in the wrong cells of the correction matrix.
They now follow the same layout as the accelerometer and gyrometer.
---
 open_ahrs/src/magnetometer.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/open_ahrs/src/magnetometer.rs b/open_ahrs/src/magnetometer.rs
index 6a87046..3ae5c60 100644
--- a/open_ahrs/src/magnetometer.rs
+++ b/open_ahrs/src/magnetometer.rs
@@ -131,12 +131,12 @@ impl Magnetometer {
         self.scale_and_soft_iron_correction.set_element(1, 1, config.y_axis_scale_correction)?;
         self.scale_and_soft_iron_correction.set_element(2, 2, config.z_axis_scale_correction)?;
 
-        self.scale_and_soft_iron_correction.set_element(0, 1, config.xy_soft_iron_correction)?;
-        self.scale_and_soft_iron_correction.set_element(1, 0, config.xz_soft_iron_correction)?;
-        self.scale_and_soft_iron_correction.set_element(0, 2, config.yx_soft_iron_correction)?;
-        self.scale_and_soft_iron_correction.set_element(2, 0, config.yz_soft_iron_correction)?;
-        self.scale_and_soft_iron_correction.set_element(1, 2, config.zx_soft_iron_correction)?;
-        self.scale_and_soft_iron_correction.set_element(2, 1, config.zy_soft_iron_correction)?;
+        self.scale_and_soft_iron_correction.set_element(1, 0, config.xy_soft_iron_correction)?;
+        self.scale_and_soft_iron_correction.set_element(2, 0, config.xz_soft_iron_correction)?;
+        self.scale_and_soft_iron_correction.set_element(0, 1, config.yx_soft_iron_correction)?;
+        self.scale_and_soft_iron_correction.set_element(2, 1, config.yz_soft_iron_correction)?;
+        self.scale_and_soft_iron_correction.set_element(0, 2, config.zx_soft_iron_correction)?;
+        self.scale_and_soft_iron_correction.set_element(1, 2, config.zy_soft_iron_correction)?;
 
         self.hard_iron_biases.set_element(0, config.x_axis_hard_iron_bias)?;
         self.hard_iron_biases.set_element(1, config.y_axis_hard_iron_bias)?;
@@ -182,12 +182,12 @@ impl Magnetometer {
                 config.y_axis_scale_correction = self.scale_and_soft_iron_correction.get_element(1, 1)?;
                 config.z_axis_scale_correction = self.scale_and_soft_iron_correction.get_element(2, 2)?;
 
-                config.xy_soft_iron_correction = self.scale_and_soft_iron_correction.get_element(0, 1)?;
-                config.xz_soft_iron_correction = self.scale_and_soft_iron_correction.get_element(1, 0)?;
-                config.yx_soft_iron_correction = self.scale_and_soft_iron_correction.get_element(0, 2)?;
-                config.yz_soft_iron_correction = self.scale_and_soft_iron_correction.get_element(2, 0)?;
-                config.zx_soft_iron_correction = self.scale_and_soft_iron_correction.get_element(1, 2)?;
-                config.zy_soft_iron_correction = self.scale_and_soft_iron_correction.get_element(2, 1)?;
+                config.xy_soft_iron_correction = self.scale_and_soft_iron_correction.get_element(1, 0)?;
+                config.xz_soft_iron_correction = self.scale_and_soft_iron_correction.get_element(2, 0)?;
+                config.yx_soft_iron_correction = self.scale_and_soft_iron_correction.get_element(0, 1)?;
+                config.yz_soft_iron_correction = self.scale_and_soft_iron_correction.get_element(2, 1)?;
+                config.zx_soft_iron_correction = self.scale_and_soft_iron_correction.get_element(0, 2)?;
+                config.zy_soft_iron_correction = self.scale_and_soft_iron_correction.get_element(1, 2)?;
 
                 config.x_axis_hard_iron_bias = self.hard_iron_biases.get_element(0)?;
                 config.y_axis_hard_iron_bias = self.hard_iron_biases.get_element(1)?;
-- 
2.43.0


From 10cb96783e12d77e95ed35f4a04acad9a18575ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:54:54 +0000
Subject: [PATCH 09/20] fix: use matrix powers in the Taylor series integration

The powers were taken element by element, which is not the exponential of the rate matrix.
Each term now comes from the previous one, so large orders no longer overflow the factorial.
---
 open_ahrs/src/ar.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/open_ahrs/src/ar.rs b/open_ahrs/src/ar.rs
index 4af493a..b81966a 100644
--- a/open_ahrs/src/ar.rs
+++ b/open_ahrs/src/ar.rs
@@ -8,7 +8,6 @@ use linalg::matrix::Matrix;
 use linalg::vector::Vector;
 use linalg::common::EPSILON;
 use libm::{cosf, sinf};
-use utils::utils::factorial;
 use crate::gyrometer::{GyrometerConfig, Gyrometer};
 use crate::common::{OpenAHRSError, NumericalIntegrationMethod as NIM, calculate_omega_matrix};
 
@@ -120,13 +119,13 @@ impl AR {
                 } else if self.method == NIM::TaylorSeries {
                     omega.mul_by_scalar_in_place(0.5 * self.ts)?;
 
+                    // S = 0.5 * dt * Omega
+                    let mut s = temp.duplicate()?;
+
                     for n in 1..=self.order {
-                        // S = 0.5 * dt * Omega
-                        let mut s = omega.duplicate()?;
-                        // A' = S^n / !n
-                        s.power_elements(n as f32)?;
-                        let factor = factorial(n);
-                        s.mul_by_scalar_in_place(1.0 / factor as f32)?;
+                        // A' = S^n / !n (obtained from the previous term)
+                        s = s.mul_new(&omega)?;
+                        s.mul_by_scalar_in_place(1.0 / n as f32)?;
                         // A = A + A'
                         temp.add_in_place(&s)?;
                     }
-- 
2.43.0


From d4d4bae1c826039019a547094082abd15b9c2803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:54:55 +0000
Subject: [PATCH 10/20] fix: integrate the body rate on the right in the Euler
 method

The angular rate is measured in the body frame, as in the two other methods.
The product was written the other way round and turned about the wrong axis.
---
 open_ahrs/src/ar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/open_ahrs/src/ar.rs b/open_ahrs/src/ar.rs
index b81966a..5c4f34e 100644
--- a/open_ahrs/src/ar.rs
+++ b/open_ahrs/src/ar.rs
@@ -147,7 +147,7 @@ impl AR {
 
                 let mut delta: Vector<f32> = Vector::new();
                 delta.init(4)?;
-                delta.mul(&w, &self.attitude)?;
+                delta.mul(&self.attitude, &w)?;
 
                 qw += delta.get_qw()?;
                 qx += delta.get_qx()?;
-- 
2.43.0


From 847efb1b93baabd87bca86e409be1fc47231e90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:54:56 +0000
Subject: [PATCH 11/20] fix: keep the attitude of the AR filter when an update
 fails

An overflow while normalising left a half written quaternion.
---
 open_ahrs/src/ar.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/open_ahrs/src/ar.rs b/open_ahrs/src/ar.rs
index 5c4f34e..6819cbd 100644
--- a/open_ahrs/src/ar.rs
+++ b/open_ahrs/src/ar.rs
@@ -158,8 +158,12 @@ impl AR {
                 return Err(OpenAHRSError::ARMethodError);   // Return an error.
             }
 
-            self.attitude.fillq(qw, qx, qy, qz)?;
-            self.attitude.normalize()?;
+            // Calculate the new attitude aside so that a failure leaves the previous one unchanged.
+            let mut attitude = self.attitude.duplicate()?;
+            attitude.fillq(qw, qx, qy, qz)?;
+            attitude.normalize()?;
+
+            self.attitude = attitude;
         } else {
             // The system is not moving (rotating) so the attitude doesn't change.
         }
-- 
2.43.0


From 77c75ac40205e0c2f6a1cb34e9e75ea38fde8d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:54:56 +0000
Subject: [PATCH 12/20] fix: let a filter be initialised again after a refused
 initialisation

Sensors and attitude stayed initialised, so every later attempt was refused.
---
 open_ahrs/src/aqua.rs      | 26 ++++++++++++++++++--------
 open_ahrs/src/ar.rs        |  7 +++++--
 open_ahrs/src/davenport.rs |  6 +++---
 3 files changed, 26 insertions(+), 13 deletions(-)

diff --git a/open_ahrs/src/aqua.rs b/open_ahrs/src/aqua.rs
index 2974d8c..bfc5a46 100644
--- a/open_ahrs/src/aqua.rs
+++ b/open_ahrs/src/aqua.rs
@@ -107,8 +107,14 @@ impl Aqua {
             return Err(OpenAHRSError::AquaFilterAlreadyInit); // Return an error.
         }
 
-        self.attitude.init(4)?;         // Initialize the attitude quaternion.
-        self.attitude.fill_identity()?; // Fill it as identity quaternion.
+        // Prepare the sensors and the attitude aside so that a failure leaves the filter uninitialized and usable.
+        let mut gyr = Gyrometer::new()?;
+        let mut acc = Accelerometer::new()?;
+        let mut mag = Magnetometer::new()?;
+        let mut attitude: Vector<f32> = Vector::new();
+
+        attitude.init(4)?;              // Initialize the attitude quaternion.
+        attitude.fill_identity()?;      // Fill it as identity quaternion.
 
         // Check the mode.
         if mode == Mode::MARG {
@@ -118,12 +124,12 @@ impl Aqua {
                 None => return Err(OpenAHRSError::NoGyroconfig),    // No gyrometer configuration and it's required. Return an error.
             };
 
-            self.gyr.init(&config)?;                 // Initialize the gyrometer.
-            self.acc.init(&accelerometer_config)?;   // Initialize the accelerometer.
-            self.mag.init(&magnetometer_config)?;    // Initialize the magnetometer.
+            gyr.init(&config)?;                 // Initialize the gyrometer.
+            acc.init(&accelerometer_config)?;   // Initialize the accelerometer.
+            mag.init(&magnetometer_config)?;    // Initialize the magnetometer.
         } else if mode == Mode::AM {
-            self.acc.init(&accelerometer_config)?;   // Initialize the accelerometer.
-            self.mag.init(&magnetometer_config)?;    // Initialize the magnetometer.
+            acc.init(&accelerometer_config)?;   // Initialize the accelerometer.
+            mag.init(&magnetometer_config)?;    // Initialize the magnetometer.
         } else {
             // Invalid mode.
             return Err(OpenAHRSError::InvalidAquaMode); // Return an error.
@@ -138,12 +144,16 @@ impl Aqua {
 
         // Set initial attitude manually.
         if let Some((qw, qx, qy, qz)) = quat {
-            self.attitude.fillq(qw, qx, qy, qz)?;
+            attitude.fillq(qw, qx, qy, qz)?;
         } else {    // Automatically initialize attitude.
             // Add some code here.
             // In MARG mode, the initial quaternion is determined from the accelerometer and magnetometer in the same way as in AM mode.
         }
 
+        self.gyr = gyr;                 // Set the gyrometer.
+        self.acc = acc;                 // Set the accelerometer.
+        self.mag = mag;                 // Set the magnetometer.
+        self.attitude = attitude;       // Set the initial attitude.
         self.mode = mode;               // Set the mode.
 
         self.ts = ts;                   // Set sampling rate.
diff --git a/open_ahrs/src/ar.rs b/open_ahrs/src/ar.rs
index 6819cbd..57ea516 100644
--- a/open_ahrs/src/ar.rs
+++ b/open_ahrs/src/ar.rs
@@ -58,9 +58,12 @@ impl AR {
                 return Err(OpenAHRSError::ARFilterAlreadyInit); // Return an error.
             }
 
+            let mut attitude = Vector::new();       // Create the vector that will be used as quaternion.
+            attitude.init(4)?;                      // Initialize it.
+            attitude.fillq(qw, qx, qy, qz)?;        // Set initial attitude.
+
             self.gyr.init(&gyrometer_config)?;      // Initialize the gyrometer.
-            self.attitude.init(4)?;                 // Initialize the vector that will be used as quaternion.
-            self.attitude.fillq(qw, qx, qy, qz)?;   // Set initial attitude.
+            self.attitude = attitude;               // Set initial attitude.
             self.ts = ts;                           // Set sampling rate.
             self.method = method;                   // Set the numerical integration method that will be used to estimate the attitude.
             self.order = order;                     // Set the order of the method.
diff --git a/open_ahrs/src/davenport.rs b/open_ahrs/src/davenport.rs
index a180bd1..5348fe0 100644
--- a/open_ahrs/src/davenport.rs
+++ b/open_ahrs/src/davenport.rs
@@ -70,15 +70,15 @@ impl Davenport {
             return Err(OpenAHRSError::DavenportFilterAlreadyInit);  // Return an error.
         }
 
-        self.attitude.init(4)?;         // Initialize the attitude quaternion.
-        self.attitude.fill_identity()?; // Fill it as identity quaternion.
-
         // Check that the sensors observations weights are valid (they must be between 0 (not inclusive) and 1 inclusive).
         if !in_range(w1, EPSILON, 1.0_f32) || !in_range(w2, EPSILON, 1.0_f32){
             // The sensor(s) observation(s) weight(s) is/are not valid.
             return Err(OpenAHRSError::InvalidDavenportWeights); // Return an error.
         }
 
+        self.attitude.init(4)?;         // Initialize the attitude quaternion.
+        self.attitude.fill_identity()?; // Fill it as identity quaternion.
+
         self.w1 = w1;   // Set accelerometer observations weight.
         self.w2 = w2;   // Set magnetometer observations weight.
 
-- 
2.43.0


From 6d733ea1ba0e8f0af0662835a152e4f7cc9d2154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:54:57 +0000
Subject: [PATCH 13/20] fix: compute the adaptive gain of Aqua from the
 configured gain

The gain of one sample overwrote the configured one, so a single disturbance switched the correction off for good.
Between the thresholds the gain was negative instead of falling linearly to zero.
---
 open_ahrs/src/aqua.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/open_ahrs/src/aqua.rs b/open_ahrs/src/aqua.rs
index bfc5a46..4cfb6bc 100644
--- a/open_ahrs/src/aqua.rs
+++ b/open_ahrs/src/aqua.rs
@@ -254,7 +254,7 @@ impl Aqua {
 
         // Check if magnitude error falls within the specified thresholds.
         if self.t1 < norm_error && norm_error < self.t2 {
-			new_gain = gain*(self.t1 - norm_error)/self.t1;
+			new_gain = gain*(self.t2 - norm_error)/(self.t2 - self.t1);
 		}
 
         // If the magnitude error is below or equal to the first threshold, the gain doesn't change.
@@ -409,11 +409,13 @@ impl Aqua {
 
             acc_quat.fillq(qw, qx, qy, qz)?;    // Fill it.
 
+            let mut alpha = self.alpha;
+
             if self.adaptive {
-                self.alpha = self.calculate_adaptative_gain(self.alpha, &a_local, self.g)?;
+                alpha = self.calculate_adaptative_gain(self.alpha, &a_local, self.g)?;
             }
 
-            let acc_quat_interpolated = Self::interpolate(&acc_quat, self.alpha, self.t_acc)?;
+            let acc_quat_interpolated = Self::interpolate(&acc_quat, alpha, self.t_acc)?;
 
             // Source: Roberto G. Valenti, Ivan Dryanovski and Jizhong Xiao. Keeping a Good Attitude: A Quaternion-Based Orientation Filter for IMUs and MARGs. New York: Sensors, 2015, p. 17, eq. 53.
             self.attitude.mul(&gyr_quat, &acc_quat_interpolated)?;
-- 
2.43.0


From 62d176d5ac5966e88f6083bf3fdef7f39662b77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:54:57 +0000
Subject: [PATCH 14/20] fix: keep the attitude of the Aqua filter when an
 update fails

A failing magnetometer correction left the attitude after the accelerometer correction, not normalised.
---
 open_ahrs/src/aqua.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/open_ahrs/src/aqua.rs b/open_ahrs/src/aqua.rs
index 4cfb6bc..25620b9 100644
--- a/open_ahrs/src/aqua.rs
+++ b/open_ahrs/src/aqua.rs
@@ -347,6 +347,9 @@ impl Aqua {
         let mut mag_quat: Vector<f32> = Vector::new();  // Quaternion defining the orientation of the system and determined by magnetometer and gyrometer measurements.
         mag_quat.init(4)?;                              // Initialize it.
 
+        let mut attitude: Vector<f32> = Vector::new();  // New attitude, stored only once it is complete.
+        attitude.init(4)?;                              // Initialize it.
+
         let mut temp = Matrix::new();
         temp.init(3, 1)?;
 
@@ -418,10 +421,10 @@ impl Aqua {
             let acc_quat_interpolated = Self::interpolate(&acc_quat, alpha, self.t_acc)?;
 
             // Source: Roberto G. Valenti, Ivan Dryanovski and Jizhong Xiao. Keeping a Good Attitude: A Quaternion-Based Orientation Filter for IMUs and MARGs. New York: Sensors, 2015, p. 17, eq. 53.
-            self.attitude.mul(&gyr_quat, &acc_quat_interpolated)?;
+            attitude.mul(&gyr_quat, &acc_quat_interpolated)?;
 
             // Magnetometer-based correction step.
-            let mut dcm_local_to_global = self.attitude.convert_to_dcm()?;
+            let mut dcm_local_to_global = attitude.convert_to_dcm()?;
             dcm_local_to_global.transpose()?;
             temp.mul(&dcm_local_to_global, &m_local.convert_to_matrix()?)?;
             // Global frame magnetic vector (Source: Roberto G. Valenti, Ivan Dryanovski and Jizhong Xiao. Keeping a Good Attitude: A Quaternion-Based Orientation Filter for IMUs and MARGs. New York: Sensors, 2015, p. 18, eq. 54).
@@ -464,7 +467,7 @@ impl Aqua {
 
             let mag_quat_interpolated = Self::interpolate(&mag_quat, self.beta, self.t_mag)?;
 
-            self.attitude.mul(&self.attitude.duplicate()?, &mag_quat_interpolated)?;
+            attitude.mul(&attitude.duplicate()?, &mag_quat_interpolated)?;
         } else if self.mode == Mode::AM {
             // Determine the partial orientation as a quaternion from the accelerometer measurements.
             if az < 0.0 {
@@ -508,10 +511,12 @@ impl Aqua {
 
             mag_quat.fillq(qw, qx, qy, qz)?;    // Fill it.
 
-            self.attitude.mul(&acc_quat, &mag_quat)?;
+            attitude.mul(&acc_quat, &mag_quat)?;
         }
 
-        self.attitude.normalize()?;
+        attitude.normalize()?;
+
+        self.attitude = attitude;
 
         Ok(())  // Return no error.
     }
-- 
2.43.0


From 683612c5de835befb4338ecaacb07de3fe299741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:54:58 +0000
Subject: [PATCH 15/20] fix: normalise the acceleration before predicting
 gravity in Aqua

The correction quaternion is defined for a unit vector.
Readings in m/s2 gave quaternions far from unit length and a wrong correction.
---
 open_ahrs/src/aqua.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/open_ahrs/src/aqua.rs b/open_ahrs/src/aqua.rs
index 25620b9..67eb018 100644
--- a/open_ahrs/src/aqua.rs
+++ b/open_ahrs/src/aqua.rs
@@ -383,9 +383,12 @@ impl Aqua {
             gyr_quat.normalize()?;  // Normalize the quaternion to ensure is remains unitary.
 
             // Accelerometer-based correction step.
+            let mut a_unit = a_local.duplicate()?;  // The predicted gravity is a direction: normalize the acceleration vector.
+            a_unit.normalize()?;
+
             let mut dcm_local_to_global = gyr_quat.convert_to_dcm()?;
             dcm_local_to_global.transpose()?;
-            temp.mul(&dcm_local_to_global, &a_local.convert_to_matrix()?)?;
+            temp.mul(&dcm_local_to_global, &a_unit.convert_to_matrix()?)?;
             let a_global = temp.col_to_vector(0)?;
 
             // Retrieve vector components.
-- 
2.43.0


From 735701d01dd26c3bd653f6fa009815639f87604a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:54:59 +0000
Subject: [PATCH 16/20] fix: ignore a zero acceleration in Aqua

A dead accelerometer was taken for an upside down vehicle.
The three-sensor mode now skips the correction and the two-sensor mode refuses the sample.
---
 open_ahrs/src/aqua.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/open_ahrs/src/aqua.rs b/open_ahrs/src/aqua.rs
index 67eb018..fbea8cf 100644
--- a/open_ahrs/src/aqua.rs
+++ b/open_ahrs/src/aqua.rs
@@ -12,8 +12,8 @@ use crate::common::{OpenAHRSError, calculate_omega_matrix};
 use quaternion::quaternion::Quaternion;
 use linalg::matrix::Matrix;
 use linalg::vector::Vector;
-use linalg::common::EPSILON;
-use utils::utils::in_range;
+use linalg::common::{EPSILON, LinalgError};
+use utils::utils::{in_range, UtilsError};
 use libm::{sqrtf, fabsf};
 
 #[derive(Debug)]
@@ -421,6 +421,11 @@ impl Aqua {
                 alpha = self.calculate_adaptative_gain(self.alpha, &a_local, self.g)?;
             }
 
+            // Without acceleration there is no direction to correct with.
+            if a_local_norm <= EPSILON {
+                alpha = 0.0;
+            }
+
             let acc_quat_interpolated = Self::interpolate(&acc_quat, alpha, self.t_acc)?;
 
             // Source: Roberto G. Valenti, Ivan Dryanovski and Jizhong Xiao. Keeping a Good Attitude: A Quaternion-Based Orientation Filter for IMUs and MARGs. New York: Sensors, 2015, p. 17, eq. 53.
@@ -472,6 +477,11 @@ impl Aqua {
 
             attitude.mul(&attitude.duplicate()?, &mag_quat_interpolated)?;
         } else if self.mode == Mode::AM {
+            // Without acceleration the orientation is not defined.
+            if a_local_norm <= EPSILON {
+                return Err(OpenAHRSError::LinalgError(LinalgError::UtilsError(UtilsError::Nan)));   // Return an error.
+            }
+
             // Determine the partial orientation as a quaternion from the accelerometer measurements.
             if az < 0.0 {
                 let l1 = sqrtf((1.0 - az) / 2.0);
-- 
2.43.0


From baf4b1d135d253caefc9ef1696d2d97e15fa0eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:54:59 +0000
Subject: [PATCH 17/20] fix: correct the heading of Aqua when it points the
 opposite way

The formula divided zero by zero for a heading error of 180 degrees and lost all precision near it.
---
 open_ahrs/src/aqua.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/open_ahrs/src/aqua.rs b/open_ahrs/src/aqua.rs
index fbea8cf..2f0e12c 100644
--- a/open_ahrs/src/aqua.rs
+++ b/open_ahrs/src/aqua.rs
@@ -14,7 +14,7 @@ use linalg::matrix::Matrix;
 use linalg::vector::Vector;
 use linalg::common::{EPSILON, LinalgError};
 use utils::utils::{in_range, UtilsError};
-use libm::{sqrtf, fabsf};
+use libm::{sqrtf, fabsf, copysignf};
 
 #[derive(Debug)]
 #[derive(PartialEq)]
@@ -458,10 +458,17 @@ impl Aqua {
             }
             */
 
-            qw = sqrtf(gamma + lx * sqrtf(gamma)) / sqrtf(2.0 * gamma);
+            // Always take the shortest rotation (qw >= 0), with the expression that does not cancel out.
             qx = 0.0;
             qy = 0.0;
-            qz = ly / (sqrtf(2.0) * sqrtf(gamma + lx * sqrtf(gamma)));
+
+            if lx >= 0.0 {
+                qw = sqrtf(gamma + lx * sqrtf(gamma)) / sqrtf(2.0 * gamma);
+                qz = ly / (sqrtf(2.0) * sqrtf(gamma + lx * sqrtf(gamma)));
+            } else {
+                qw = fabsf(ly) / (sqrtf(2.0) * sqrtf(gamma - lx * sqrtf(gamma)));
+                qz = copysignf(sqrtf(gamma - lx * sqrtf(gamma)) / sqrtf(2.0 * gamma), ly);
+            }
 
             mag_quat.fillq(qw, qx, qy, qz)?;    // Fill it.
 
-- 
2.43.0


From cddf08df84a2faf6970ebfedafbc8b0323f5dcfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:01:03 +0000
Subject: [PATCH 18/20] fix: turn the Aqua prediction the way the vehicle turns

The attitude of the Aqua filter carries global vectors into the local frame.
Its derivative is therefore -w*q/2, but the prediction used q*w/2.
The estimate was turned the wrong way by the gyrometer and only the
accelerometer and magnetometer corrections pulled it back.
---
 open_ahrs/src/aqua.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/open_ahrs/src/aqua.rs b/open_ahrs/src/aqua.rs
index 2f0e12c..26f2cb7 100644
--- a/open_ahrs/src/aqua.rs
+++ b/open_ahrs/src/aqua.rs
@@ -7,7 +7,7 @@ use crate::gyrometer::{GyrometerConfig, Gyrometer};
 use crate::accelerometer::{AccelerometerConfig, Accelerometer};
 use crate::magnetometer::{MagnetometerConfig, Magnetometer};
 //use crate::common::{OpenAHRSError, NumericalIntegrationMethod as NIM, calculate_omega_matrix};
-use crate::common::{OpenAHRSError, calculate_omega_matrix};
+use crate::common::OpenAHRSError;
 
 use quaternion::quaternion::Quaternion;
 use linalg::matrix::Matrix;
@@ -370,12 +370,15 @@ impl Aqua {
 
             // Prediction step.
             // Check whether it would not be more appropriate to use the AR filter to determine the quaternion with the 3-axis gyro.
-            let mut omega = calculate_omega_matrix(p, q, r)?;   // Calculate the transformation matrix Ω(ω).
-            omega.mul_by_scalar_in_place(0.5)?;
-            let derivative_quat = omega.mul_new(&self.attitude.convert_to_matrix()?)?;
-
-            let mut delta_quat = derivative_quat.col_to_vector(0)?;
-            delta_quat.mul_by_scalar_in_place(self.ts)?;
+            // The attitude carries the global frame into the local one, so its derivative is -ω ⊗ q / 2 (Source: Roberto G. Valenti, Ivan Dryanovski and Jizhong Xiao. Keeping a Good Attitude: A Quaternion-Based Orientation Filter for IMUs and MARGs. New York: Sensors, 2015, eq. 38).
+            let mut w_quat: Vector<f32> = Vector::new();    // Create the pure quaternion associated with -ω.
+            w_quat.init(4)?;                                // Initialize it.
+            w_quat.fillq(0.0, -p, -q, -r)?;                 // Fill it.
+
+            let mut delta_quat: Vector<f32> = Vector::new();
+            delta_quat.init(4)?;
+            delta_quat.mul(&w_quat, &self.attitude)?;
+            delta_quat.mul_by_scalar_in_place(0.5 * self.ts)?;
 
             let mut gyr_quat: Vector<f32> = Vector::new();  // Quaternion defining the orientation of the system and determined by gyrometer measurements.
             gyr_quat.init(4)?;
-- 
2.43.0


From 1b7ca4b9bc9a4fdb3b8753907f90d4a6c40d42a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:54:46 +0000
Subject: [PATCH 19/20] fix: keep correcting the tilt when the predicted
 magnetic field is vertical

The heading correction divided zero by zero when the predicted field had no
horizontal component. The update was refused, the attitude stayed where it was,
and every following sample of a vehicle at rest was refused as well.
---
 open_ahrs/src/aqua.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/open_ahrs/src/aqua.rs b/open_ahrs/src/aqua.rs
index 26f2cb7..a541897 100644
--- a/open_ahrs/src/aqua.rs
+++ b/open_ahrs/src/aqua.rs
@@ -465,7 +465,11 @@ impl Aqua {
             qx = 0.0;
             qy = 0.0;
 
-            if lx >= 0.0 {
+            if gamma <= 0.0 {
+                // The predicted magnetic field has no horizontal component: there is no heading to correct with.
+                qw = 1.0;
+                qz = 0.0;
+            } else if lx >= 0.0 {
                 qw = sqrtf(gamma + lx * sqrtf(gamma)) / sqrtf(2.0 * gamma);
                 qz = ly / (sqrtf(2.0) * sqrtf(gamma + lx * sqrtf(gamma)));
             } else {
-- 
2.43.0


From 87807476096c5f139a44ba9e5a2c0f74f9d30da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:22:18 +0000
Subject: [PATCH 20/20] fix: refuse adaptive gain thresholds that are not
 numbers

Aqua compared the second threshold with the first one by <=, which is false
when either is NaN. Such a filter then ran with a zero accelerometer gain and
never corrected its tilt. It now answers InvalidAdaptiveGainTresholds, as for
any other pair of thresholds that is not in order.
---
 open_ahrs/src/aqua.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/open_ahrs/src/aqua.rs b/open_ahrs/src/aqua.rs
index a541897..689c547 100644
--- a/open_ahrs/src/aqua.rs
+++ b/open_ahrs/src/aqua.rs
@@ -241,8 +241,8 @@ impl Aqua {
 
     // This function is used to calculate adaptative gain.
     fn calculate_adaptative_gain(self: &Self, gain: f32, vect_global: &Vector<f32>, vect_norm_reference: f32) -> Result<f32, OpenAHRSError> {
-        // Check if the second treshold is strictly greater than the first one.
-        if self.t2 <= self.t1 {
+        // Check if the second treshold is strictly greater than the first one (this also rules out NaN tresholds).
+        if !(self.t2 > self.t1) {
             // The second treshold is not striclty greater than the first one.
             return Err(OpenAHRSError::InvalidAdaptiveGainTresholds) // Return an error.
         }
-- 
2.43.0

