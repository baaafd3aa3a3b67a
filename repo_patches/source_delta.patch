From f5ea77ef8ea8b1a63cb0bbad252f8fb07d2d920b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:54 +0000
Subject: [PATCH 1/7] fix: sub_matrix rejects ranges that end outside the
 matrix

---
 src/matrix.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/matrix.rs b/src/matrix.rs
index 29a28fe..5899f2d 100755
--- a/src/matrix.rs
+++ b/src/matrix.rs
@@ -414,6 +414,7 @@ impl<T : Copy> Matrix<T> {
   pub fn sub_matrix(&self, start_row : usize, start_col : usize, end_row : usize, end_col : usize) -> Matrix<T> {
     assert!(start_row < end_row);
     assert!(start_col < end_col);
+    assert!(end_row <= self.no_rows && end_col <= self.cols());
     assert!((end_row - start_row) < self.no_rows && (end_col - start_col) < self.cols() && start_row != end_row && start_col != end_col);
     let rows = end_row - start_row;
     let cols = end_col - start_col;
-- 
2.43.0


From 49fdaeabe4c6fbb11ec562977935a3ecdce7b5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:10 +0000
Subject: [PATCH 2/7] fix: judge convergence by the element type's own
 precision

SVD::new and EigenDecomposition::new compared against 2^-52 whatever the
element type. Single precision cannot get there, so e.g. the SVD of an
all-ones f32 matrix iterated forever. Unchanged for f64.
---
 src/decomp/eigen.rs | 4 ++--
 src/decomp/svd.rs   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/decomp/eigen.rs b/src/decomp/eigen.rs
index 5859170..5830d93 100755
--- a/src/decomp/eigen.rs
+++ b/src/decomp/eigen.rs
@@ -148,7 +148,7 @@ impl<T : Float + ApproxEq<T> + Signed> EigenDecomposition<T> {
 
     let mut f : T = num::zero();
     let mut tst1 : T = num::zero();
-    let eps : T = num::cast(2.0f64.powf(-52.0)).unwrap();
+    let eps : T = T::epsilon();
     for l in 0..n {
       // Find small subdiagonal element
       tst1 = tst1.max(num::abs(ddata[l].clone()) + num::abs(edata[l].clone()));
@@ -353,7 +353,7 @@ impl<T : Float + ApproxEq<T> + Signed> EigenDecomposition<T> {
     let mut n = nn - 1;
     let low : isize = 0;
     let high = nn - 1;
-    let eps : T = num::cast(2.0f64.powf(-52.0)).unwrap();
+    let eps : T = T::epsilon();
     let mut exshift = num::zero();
     let mut p = num::zero();
     let mut q = num::zero();
diff --git a/src/decomp/svd.rs b/src/decomp/svd.rs
index 17c7fb7..40a7463 100755
--- a/src/decomp/svd.rs
+++ b/src/decomp/svd.rs
@@ -223,8 +223,8 @@ impl<T : Float + Signed + ApproxEq<T>> SVD<T> {
 
     // Main iteration loop for the singular values.
     let pp = p - 1;
-    let eps : T = num::cast(2.0f64.powf(-52.0)).unwrap();
-    let tiny : T = num::cast(2.0f64.powf(-966.0)).unwrap();
+    let eps : T = T::epsilon();
+    let tiny : T = num::cast::<f64, T>(2.0f64.powf(-966.0)).unwrap().max(T::min_positive_value() / eps);
     while p > 0 {
       // Here is where a test for too many iterations would go.
 
-- 
2.43.0


From 0d07f67f259f7536d534ff26b08868154191d08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:41 +0000
Subject: [PATCH 3/7] fix: decompositions of non-finite matrices end with a
 panic

SVD::new and EigenDecomposition::new iterated forever when a NaN or infinity
was in, or came up in, the computation. Give up after far more steps per
eigenvalue or singular value than a finite matrix needs.
---
 src/decomp/eigen.rs | 9 ++++++++-
 src/decomp/svd.rs   | 8 ++++++--
 src/internalutil.rs | 3 +++
 3 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/decomp/eigen.rs b/src/decomp/eigen.rs
index 5830d93..5d32e0f 100755
--- a/src/decomp/eigen.rs
+++ b/src/decomp/eigen.rs
@@ -4,7 +4,7 @@ use num::traits::{Float, Signed};
 
 use ApproxEq;
 use Matrix;
-use internalutil::{alloc_dirty_vec, hypot};
+use internalutil::{alloc_dirty_vec, hypot, MAX_ITERATIONS};
 
 /// Eigenvalues and eigenvectors of a real matrix. 
 ///
@@ -162,7 +162,12 @@ impl<T : Float + ApproxEq<T> + Signed> EigenDecomposition<T> {
 
       // If m == l, d[l] is an eigenvalue, otherwise, iterate.
       if m > l {
+        let mut iter = 0;
         loop {
+          // Non-finite values never converge.
+          iter += 1;
+          assert!(iter <= MAX_ITERATIONS, "Eigenvalue decomposition does not converge");
+
           // Compute implicit shift
           let mut g = ddata[l].clone();
           let tmp : T = num::cast(2.0).unwrap();
@@ -505,7 +510,9 @@ impl<T : Float + ApproxEq<T> + Signed> EigenDecomposition<T> {
           }
         }
 
+        // Non-finite values never converge.
         iter += 1;
+        assert!(iter <= MAX_ITERATIONS, "Eigenvalue decomposition does not converge");
 
         // Look for two consecutive small sub-diagonal elements
         let mut m = n - 2;
diff --git a/src/decomp/svd.rs b/src/decomp/svd.rs
index 40a7463..d978169 100755
--- a/src/decomp/svd.rs
+++ b/src/decomp/svd.rs
@@ -5,7 +5,7 @@ use num::{ Float, Signed };
 
 use ApproxEq;
 use Matrix;
-use internalutil::{alloc_dirty_vec, hypot};
+use internalutil::{alloc_dirty_vec, hypot, MAX_ITERATIONS};
 
 /// Singular Value Decomposition.
 ///
@@ -225,8 +225,11 @@ impl<T : Float + Signed + ApproxEq<T>> SVD<T> {
     let pp = p - 1;
     let eps : T = T::epsilon();
     let tiny : T = num::cast::<f64, T>(2.0f64.powf(-966.0)).unwrap().max(T::min_positive_value() / eps);
+    let mut iter = 0;
     while p > 0 {
-      // Here is where a test for too many iterations would go.
+      // Non-finite values never converge.
+      iter += 1;
+      assert!(iter <= MAX_ITERATIONS, "SVD does not converge");
 
       // This section of the program inspects for
       // negligible elements in the s and e arrays.  On
@@ -414,6 +417,7 @@ impl<T : Float + Signed + ApproxEq<T>> SVD<T> {
         }
 
         p -= 1;
+        iter = 0;
       }
     }
 
diff --git a/src/internalutil.rs b/src/internalutil.rs
index ed71a85..fb67645 100755
--- a/src/internalutil.rs
+++ b/src/internalutil.rs
@@ -3,6 +3,9 @@ use std::vec;
 use num;
 use num::{Float, Signed, One, Zero};
 
+// More steps than any finite matrix needs to find one eigenvalue or singular value.
+pub const MAX_ITERATIONS : usize = 2000;
+
 #[inline]
 pub fn alloc_dirty_vec<T : Copy>(n : usize) -> Vec<T> {
   let mut v : Vec<T> = vec::Vec::with_capacity(n);
-- 
2.43.0


From 71cc47c90bfbd151f5713e93f2e3336a130d34ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:32 +0000
Subject: [PATCH 4/7] fix: reject matrix shapes whose element count overflows

Without overflow checks the product wrapped, so e.g. zero(1 << 32, 1 << 32)
returned a matrix of 2^32 rows without elements instead of failing.
---
 src/matrix.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/matrix.rs b/src/matrix.rs
index 5899f2d..eabf43a 100755
--- a/src/matrix.rs
+++ b/src/matrix.rs
@@ -22,9 +22,14 @@ pub struct Matrix<T> {
   data : Vec<T>
 }
 
+// Number of elements of a matrix of the given shape.
+fn size(no_rows : usize, no_cols : usize) -> usize {
+  no_rows.checked_mul(no_cols).expect("matrix is too large")
+}
+
 impl<T : Copy> Matrix<T> {
   pub fn new(no_rows : usize, no_cols : usize, data : Vec<T>) -> Matrix<T> {
-    assert!(no_rows * no_cols == data.len());
+    assert!(size(no_rows, no_cols) == data.len());
     assert!(no_rows > 0 && no_cols > 0);
     Matrix { no_rows : no_rows, data : data }
   }
@@ -110,7 +115,7 @@ impl<T : Copy> Matrix<T> {
 
 impl<T : Num + Copy> Matrix<T> {
   pub fn id(m : usize, n : usize) -> Matrix<T> {
-    let elems = m * n;
+    let elems = size(m, n);
     let mut d : Vec<T> = alloc_dirty_vec(elems);
     for i in 0..elems {
       d[i] = num::zero();
@@ -122,7 +127,7 @@ impl<T : Num + Copy> Matrix<T> {
   }
 
   pub fn zero(no_rows : usize, no_cols : usize) -> Matrix<T> {
-    let elems = no_rows * no_cols;
+    let elems = size(no_rows, no_cols);
     let mut d : Vec<T> = alloc_dirty_vec(elems);
     for i in 0..elems {
       d[i] = num::zero();
@@ -150,7 +155,7 @@ impl<T : Num + Copy> Matrix<T> {
     let min_dim = cmp::min(m, n);
     assert!(data.len() == min_dim);
 
-    let elems = m * n;
+    let elems = size(m, n);
     let mut d : Vec<T> = alloc_dirty_vec(elems);
     for i in 0..elems {
       d[i] = num::zero();
@@ -570,7 +575,7 @@ impl<T : Debug + Copy> Debug for Matrix<T> {
 
 impl<T : Rand + Copy> Matrix<T> {
   pub fn random(no_rows : usize, no_cols : usize) -> Matrix<T> {
-    let elems = no_rows * no_cols;
+    let elems = size(no_rows, no_cols);
     let mut d = alloc_dirty_vec(elems);
     for i in 0..elems {
       d[i] = rand::random::<T>();
-- 
2.43.0


From 3206f95d414b122eed622677e772fee2ac193c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:21 +0000
Subject: [PATCH 5/7] fix: cr returned uninitialised elements after those it
 had joined

The element vectors of the operands can be given any length through
get_mut_data(). Elements beyond the last whole row are not joined, but
the result had room for them, and that room was left uninitialised.
---
 src/matrix.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/matrix.rs b/src/matrix.rs
index eabf43a..35987d0 100755
--- a/src/matrix.rs
+++ b/src/matrix.rs
@@ -326,6 +326,7 @@ impl<T : Copy> Matrix<T> {
         dest_idx += 1;
       }
     }
+    d.truncate(dest_idx);
     Matrix {
       no_rows : self.no_rows,
       data : d
-- 
2.43.0


From 6ee29c08bfd35c24f2d45f8476a4c354a27460f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:22 +0000
Subject: [PATCH 6/7] fix: mt never returned for a matrix with elements beyond
 its last row

The element vector can be given any length through get_mut_data(). When
it is not a whole number of rows, following the cycles of the
transposition never gets back to where it started.
---
 src/matrix.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/matrix.rs b/src/matrix.rs
index 35987d0..158ee83 100755
--- a/src/matrix.rs
+++ b/src/matrix.rs
@@ -369,6 +369,7 @@ impl<T : Copy> Matrix<T> {
   }
 
   pub fn mt(&mut self) {
+    assert!(self.no_rows * self.cols() == self.data.len());
     let mut visited = vec![false; self.data.len()];
 
     for cycle_idx in 1..(self.data.len() - 1) {
-- 
2.43.0


From aaaa66215626d2779ce8a460a0d8e229d77f53f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:23 +0000
Subject: [PATCH 7/7] fix: formatting padded forever when the text of an
 element had grown

The texts of the elements are measured before they are written. When an
element's text is longer by then than all were when measured, the
padding underflowed: a panic in debug builds, and 2^64 blanks otherwise.
---
 src/matrix.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matrix.rs b/src/matrix.rs
index 158ee83..a5b0c18 100755
--- a/src/matrix.rs
+++ b/src/matrix.rs
@@ -564,7 +564,7 @@ impl<T : Debug + Copy> Debug for Matrix<T> {
         let v = self.get_ref(row, col).clone();
         let slen = format!("{:?}", v).len();
         let mut padding = " ".to_owned();
-        for _ in 0..(max_width-slen) {
+        for _ in 0..max_width.saturating_sub(slen) {
           padding.push_str(" ");
         }
         try!(write!(fmt, "{}{:?}", padding, v));
-- 
2.43.0

