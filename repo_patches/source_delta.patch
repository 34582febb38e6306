From 9524256261a95e46accd06608260e256f3e7dc04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:00:31 +0000
Subject: [PATCH 01/33] fix: write all complex entries above the tolerance to
 Matrix Market files

Entries with a negligible real part and a non-negligible imaginary part were
counted in the header but not written, so the file could not be read back.
---
 russell_sparse/src/write_matrix_market.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/russell_sparse/src/write_matrix_market.rs b/russell_sparse/src/write_matrix_market.rs
index b65e7f3..0f07239 100644
--- a/russell_sparse/src/write_matrix_market.rs
+++ b/russell_sparse/src/write_matrix_market.rs
@@ -258,7 +258,7 @@ impl ComplexCscMatrix {
                 for p in self.col_pointers[j]..self.col_pointers[j + 1] {
                     let i = self.row_indices[p as usize] as usize;
                     let aij = self.values[p as usize];
-                    if f64::abs(aij.re) > tol || f64::abs(aij.im) < tol {
+                    if f64::abs(aij.re) > tol || f64::abs(aij.im) > tol {
                         match self.symmetric {
                             Sym::No => write!(&mut buffer, "{} {} {:?} {:?}\n", i + 1, j + 1, aij.re, aij.im).unwrap(),
                             Sym::YesLower => {
-- 
2.43.0


From da76cec6bee50e08ed6a76deaa44a4b52e3fb784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:00:46 +0000
Subject: [PATCH 02/33] fix: report malformed Matrix Market files as errors

A symmetric file with an entry above the diagonal, or a file that ends before
the line with the dimensions, made the reader panic.
---
 russell_sparse/src/read_matrix_market.rs | 30 +++++++++++-------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/russell_sparse/src/read_matrix_market.rs b/russell_sparse/src/read_matrix_market.rs
index 5a0ce55..60003eb 100644
--- a/russell_sparse/src/read_matrix_market.rs
+++ b/russell_sparse/src/read_matrix_market.rs
@@ -369,7 +369,10 @@ where
 
     // read and parse dimensions
     loop {
-        let line = lines_iter.next().unwrap().unwrap(); // must panic because no error expected here
+        let line = match lines_iter.next() {
+            Some(v) => v.unwrap(), // must panic because no error expected here
+            None => return Err("cannot find the line with the dimensions"),
+        };
         if data.parse_dimensions(&line)? {
             break;
         }
@@ -408,25 +411,20 @@ where
                         if data.symmetric {
                             match symmetric_handling {
                                 MMsym::LeaveAsLower => {
-                                    coo.put(data.i as usize, data.j as usize, cpx!(data.aij, data.bij))
-                                        .unwrap();
+                                    coo.put(data.i as usize, data.j as usize, cpx!(data.aij, data.bij))?;
                                 }
                                 MMsym::SwapToUpper => {
-                                    coo.put(data.j as usize, data.i as usize, cpx!(data.aij, data.bij))
-                                        .unwrap();
+                                    coo.put(data.j as usize, data.i as usize, cpx!(data.aij, data.bij))?;
                                 }
                                 MMsym::MakeItFull => {
-                                    coo.put(data.i as usize, data.j as usize, cpx!(data.aij, data.bij))
-                                        .unwrap();
+                                    coo.put(data.i as usize, data.j as usize, cpx!(data.aij, data.bij))?;
                                     if data.i != data.j {
-                                        coo.put(data.j as usize, data.i as usize, cpx!(data.aij, data.bij))
-                                            .unwrap();
+                                        coo.put(data.j as usize, data.i as usize, cpx!(data.aij, data.bij))?;
                                     }
                                 }
                             }
                         } else {
-                            coo.put(data.i as usize, data.j as usize, cpx!(data.aij, data.bij))
-                                .unwrap();
+                            coo.put(data.i as usize, data.j as usize, cpx!(data.aij, data.bij))?;
                         };
                     }
                 }
@@ -447,20 +445,20 @@ where
                         if data.symmetric {
                             match symmetric_handling {
                                 MMsym::LeaveAsLower => {
-                                    coo.put(data.i as usize, data.j as usize, data.aij).unwrap();
+                                    coo.put(data.i as usize, data.j as usize, data.aij)?;
                                 }
                                 MMsym::SwapToUpper => {
-                                    coo.put(data.j as usize, data.i as usize, data.aij).unwrap();
+                                    coo.put(data.j as usize, data.i as usize, data.aij)?;
                                 }
                                 MMsym::MakeItFull => {
-                                    coo.put(data.i as usize, data.j as usize, data.aij).unwrap();
+                                    coo.put(data.i as usize, data.j as usize, data.aij)?;
                                     if data.i != data.j {
-                                        coo.put(data.j as usize, data.i as usize, data.aij).unwrap();
+                                        coo.put(data.j as usize, data.i as usize, data.aij)?;
                                     }
                                 }
                             }
                         } else {
-                            coo.put(data.i as usize, data.j as usize, data.aij).unwrap();
+                            coo.put(data.i as usize, data.j as usize, data.aij)?;
                         };
                     }
                 }
-- 
2.43.0


From f9ba9ef13daba2714c99a1022dbd686c01ecfdd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:00:46 +0000
Subject: [PATCH 03/33] fix: restore the state vector when the function fails
 in numerical_jacobian

The perturbed component was left in the caller's vector when the user function
returned an error.
---
 russell_sparse/src/numerical_jacobian.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/russell_sparse/src/numerical_jacobian.rs b/russell_sparse/src/numerical_jacobian.rs
index 936c469..f97018c 100644
--- a/russell_sparse/src/numerical_jacobian.rs
+++ b/russell_sparse/src/numerical_jacobian.rs
@@ -173,7 +173,9 @@ where
         let original_yj = y[j];
         let delta_yj = f64::sqrt(f64::EPSILON * f64::max(THRESHOLD, f64::abs(y[j])));
         y[j] += delta_yj; // Yⱼ := yⱼ + Δyⱼ
-        function(w2, x, y, args)?; // F := f(x, y + Δy)
+        let status = function(w2, x, y, args); // F := f(x, y + Δy)
+        y[j] = original_yj; // restore yⱼ (even if the function has failed)
+        status?;
         let (start, endp1) = match jj.symmetric {
             Sym::YesLower => (j, ndim),
             Sym::YesUpper => (0, j + 1),
@@ -183,7 +185,6 @@ where
             let delta_fi = w2[i] - w1[i]; // Δfᵢ := Fᵢ - fᵢ
             jj.put(i, j, alpha * delta_fi / delta_yj).unwrap(); // Δfᵢ/Δyⱼ
         }
-        y[j] = original_yj; // restore yⱼ
     }
     Ok(())
 }
-- 
2.43.0


From 8a2fcd827f5e48755817b0f2ab97590bcde8fd0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:00:46 +0000
Subject: [PATCH 04/33] fix: refuse compressed matrices with pointers beyond
 the last pointer

Pointers such as [0, 100, 2] made the constructors index out of bounds instead
of returning the error about unsorted pointers.
---
 russell_sparse/src/csc_matrix.rs | 2 +-
 russell_sparse/src/csr_matrix.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/russell_sparse/src/csc_matrix.rs b/russell_sparse/src/csc_matrix.rs
index 9f9bafa..29efbb2 100644
--- a/russell_sparse/src/csc_matrix.rs
+++ b/russell_sparse/src/csc_matrix.rs
@@ -229,7 +229,7 @@ where
             if col_pointers[j] < 0 {
                 return Err("col pointers must be ≥ 0");
             }
-            if col_pointers[j] > col_pointers[j + 1] {
+            if col_pointers[j] > col_pointers[j + 1] || col_pointers[j + 1] > nnz {
                 return Err("col pointers must be sorted in ascending order");
             }
             let start = col_pointers[j] as usize;
diff --git a/russell_sparse/src/csr_matrix.rs b/russell_sparse/src/csr_matrix.rs
index ac01ddd..1cc649c 100644
--- a/russell_sparse/src/csr_matrix.rs
+++ b/russell_sparse/src/csr_matrix.rs
@@ -225,7 +225,7 @@ where
             if row_pointers[i] < 0 {
                 return Err("row pointers must be ≥ 0");
             }
-            if row_pointers[i] > row_pointers[i + 1] {
+            if row_pointers[i] > row_pointers[i + 1] || row_pointers[i + 1] > nnz {
                 return Err("row pointers must be sorted in ascending order");
             }
             let start = row_pointers[i] as usize;
-- 
2.43.0


From a62c0bd00809234eb608a872fc7fd84d4d86a45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:01:12 +0000
Subject: [PATCH 05/33] fix: check symmetric storage when building a triplet
 matrix from arrays

Entries in the excluded triangle and symmetric storage of non-square matrices
were accepted, unlike in the other constructor and in put.
---
 russell_sparse/src/coo_matrix.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/russell_sparse/src/coo_matrix.rs b/russell_sparse/src/coo_matrix.rs
index 9805be4..c4eb850 100644
--- a/russell_sparse/src/coo_matrix.rs
+++ b/russell_sparse/src/coo_matrix.rs
@@ -267,6 +267,9 @@ where
         if values.len() != nnz {
             return Err("values.len() must be = nnz");
         }
+        if symmetric != Sym::No && nrow != ncol {
+            return Err("symmetric storage requires a square matrix");
+        }
         let m = to_i32(nrow);
         let n = to_i32(ncol);
         for k in 0..nnz {
@@ -276,6 +279,12 @@ where
             if col_indices[k] < 0 || col_indices[k] >= n {
                 return Err("col index is out-of-range");
             }
+            if symmetric == Sym::YesLower && col_indices[k] > row_indices[k] {
+                return Err("COO matrix: j > i is incorrect for lower triangular storage");
+            }
+            if symmetric == Sym::YesUpper && col_indices[k] < row_indices[k] {
+                return Err("COO matrix: j < i is incorrect for upper triangular storage");
+            }
         }
         Ok(NumCooMatrix {
             symmetric,
-- 
2.43.0


From 823933b69dd37f61213ad49c34efbc961a85a07b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:14:53 +0000
Subject: [PATCH 06/33] fix: refuse compressed matrices whose first pointer is
 not zero

Converting such a matrix to the other compressed format produced extra
explicit entries.
---
 russell_sparse/src/csc_matrix.rs | 3 +++
 russell_sparse/src/csr_matrix.rs | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/russell_sparse/src/csc_matrix.rs b/russell_sparse/src/csc_matrix.rs
index 29efbb2..5fab065 100644
--- a/russell_sparse/src/csc_matrix.rs
+++ b/russell_sparse/src/csc_matrix.rs
@@ -232,6 +232,9 @@ where
             if col_pointers[j] > col_pointers[j + 1] || col_pointers[j + 1] > nnz {
                 return Err("col pointers must be sorted in ascending order");
             }
+            if col_pointers[0] != 0 {
+                return Err("the first col pointer must be = 0");
+            }
             let start = col_pointers[j] as usize;
             let end = col_pointers[j + 1] as usize;
             for p in start..end {
diff --git a/russell_sparse/src/csr_matrix.rs b/russell_sparse/src/csr_matrix.rs
index 1cc649c..df61451 100644
--- a/russell_sparse/src/csr_matrix.rs
+++ b/russell_sparse/src/csr_matrix.rs
@@ -228,6 +228,9 @@ where
             if row_pointers[i] > row_pointers[i + 1] || row_pointers[i + 1] > nnz {
                 return Err("row pointers must be sorted in ascending order");
             }
+            if row_pointers[0] != 0 {
+                return Err("the first row pointer must be = 0");
+            }
             let start = row_pointers[i] as usize;
             let end = row_pointers[i + 1] as usize;
             for p in start..end {
-- 
2.43.0


From 544e673a0eca65601801ec7d0d740e1aaacaf19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:37:03 +0000
Subject: [PATCH 07/33] fix: keep the beta term of matrix products when the
 inner dimension is zero

---
 russell_lab/src/matrix/complex_mat_herm_rank_op.rs | 2 +-
 russell_lab/src/matrix/complex_mat_mat_mul.rs      | 7 ++++++-
 russell_lab/src/matrix/complex_mat_sym_rank_op.rs  | 2 +-
 russell_lab/src/matrix/complex_mat_t_mat_mul.rs    | 7 ++++++-
 russell_lab/src/matrix/mat_mat_mul.rs              | 7 ++++++-
 russell_lab/src/matrix/mat_sym_rank_op.rs          | 2 +-
 russell_lab/src/matrix/mat_t_mat_mul.rs            | 7 ++++++-
 russell_lab/src/matvec/mat_vec_mul_update.rs       | 7 ++++++-
 russell_lab/src/matvec/vec_outer.rs                | 2 +-
 russell_lab/src/matvec/vec_outer_update.rs         | 2 +-
 10 files changed, 35 insertions(+), 10 deletions(-)

diff --git a/russell_lab/src/matrix/complex_mat_herm_rank_op.rs b/russell_lab/src/matrix/complex_mat_herm_rank_op.rs
index 11ab5a9..f17b33a 100644
--- a/russell_lab/src/matrix/complex_mat_herm_rank_op.rs
+++ b/russell_lab/src/matrix/complex_mat_herm_rank_op.rs
@@ -130,7 +130,7 @@ pub fn complex_mat_herm_rank_op(
             k_i32,
             alpha,
             a.as_data().as_ptr(),
-            to_i32(lda),
+            to_i32(usize::max(1, lda)),
             beta,
             c.as_mut_data().as_mut_ptr(),
             ldc,
diff --git a/russell_lab/src/matrix/complex_mat_mat_mul.rs b/russell_lab/src/matrix/complex_mat_mat_mul.rs
index 60b019f..3172c31 100644
--- a/russell_lab/src/matrix/complex_mat_mat_mul.rs
+++ b/russell_lab/src/matrix/complex_mat_mat_mul.rs
@@ -79,8 +79,13 @@ pub fn complex_mat_mat_mul(
         return Ok(());
     }
     if k == 0 {
+        // only the beta term remains
         let zero = Complex64::new(0.0, 0.0);
-        c.fill(zero);
+        if beta == zero {
+            c.fill(zero);
+        } else {
+            c.as_mut_data().iter_mut().for_each(|x| *x *= beta);
+        }
         return Ok(());
     }
     let m_i32: i32 = to_i32(m);
diff --git a/russell_lab/src/matrix/complex_mat_sym_rank_op.rs b/russell_lab/src/matrix/complex_mat_sym_rank_op.rs
index 3b829cf..5a9711d 100644
--- a/russell_lab/src/matrix/complex_mat_sym_rank_op.rs
+++ b/russell_lab/src/matrix/complex_mat_sym_rank_op.rs
@@ -132,7 +132,7 @@ pub fn complex_mat_sym_rank_op(
             k_i32,
             &alpha,
             a.as_data().as_ptr(),
-            to_i32(lda),
+            to_i32(usize::max(1, lda)),
             &beta,
             c.as_mut_data().as_mut_ptr(),
             ldc,
diff --git a/russell_lab/src/matrix/complex_mat_t_mat_mul.rs b/russell_lab/src/matrix/complex_mat_t_mat_mul.rs
index 1ebb410..106c6d7 100644
--- a/russell_lab/src/matrix/complex_mat_t_mat_mul.rs
+++ b/russell_lab/src/matrix/complex_mat_t_mat_mul.rs
@@ -79,8 +79,13 @@ pub fn complex_mat_t_mat_mul(
         return Ok(());
     }
     if k == 0 {
+        // only the beta term remains
         let zero = Complex64::new(0.0, 0.0);
-        c.fill(zero);
+        if beta == zero {
+            c.fill(zero);
+        } else {
+            c.as_mut_data().iter_mut().for_each(|x| *x *= beta);
+        }
         return Ok(());
     }
     let m_i32: i32 = to_i32(m);
diff --git a/russell_lab/src/matrix/mat_mat_mul.rs b/russell_lab/src/matrix/mat_mat_mul.rs
index dffc384..a5a96ff 100644
--- a/russell_lab/src/matrix/mat_mat_mul.rs
+++ b/russell_lab/src/matrix/mat_mat_mul.rs
@@ -69,7 +69,12 @@ pub fn mat_mat_mul(c: &mut Matrix, alpha: f64, a: &Matrix, b: &Matrix, beta: f64
         return Ok(());
     }
     if k == 0 {
-        c.fill(0.0);
+        // only the beta term remains
+        if beta == 0.0 {
+            c.fill(0.0);
+        } else {
+            c.as_mut_data().iter_mut().for_each(|x| *x *= beta);
+        }
         return Ok(());
     }
     let m_i32: i32 = to_i32(m);
diff --git a/russell_lab/src/matrix/mat_sym_rank_op.rs b/russell_lab/src/matrix/mat_sym_rank_op.rs
index c064f23..4bbb780 100644
--- a/russell_lab/src/matrix/mat_sym_rank_op.rs
+++ b/russell_lab/src/matrix/mat_sym_rank_op.rs
@@ -128,7 +128,7 @@ pub fn mat_sym_rank_op(
             k_i32,
             alpha,
             a.as_data().as_ptr(),
-            to_i32(lda),
+            to_i32(usize::max(1, lda)),
             beta,
             c.as_mut_data().as_mut_ptr(),
             ldc,
diff --git a/russell_lab/src/matrix/mat_t_mat_mul.rs b/russell_lab/src/matrix/mat_t_mat_mul.rs
index de19cf5..cadb3cd 100644
--- a/russell_lab/src/matrix/mat_t_mat_mul.rs
+++ b/russell_lab/src/matrix/mat_t_mat_mul.rs
@@ -67,7 +67,12 @@ pub fn mat_t_mat_mul(c: &mut Matrix, alpha: f64, a: &Matrix, b: &Matrix, beta: f
         return Ok(());
     }
     if k == 0 {
-        c.fill(0.0);
+        // only the beta term remains
+        if beta == 0.0 {
+            c.fill(0.0);
+        } else {
+            c.as_mut_data().iter_mut().for_each(|x| *x *= beta);
+        }
         return Ok(());
     }
     let m_i32: i32 = to_i32(m);
diff --git a/russell_lab/src/matvec/mat_vec_mul_update.rs b/russell_lab/src/matvec/mat_vec_mul_update.rs
index e1a5a3b..b068941 100644
--- a/russell_lab/src/matvec/mat_vec_mul_update.rs
+++ b/russell_lab/src/matvec/mat_vec_mul_update.rs
@@ -70,7 +70,12 @@ pub fn mat_vec_mul_update(v: &mut Vector, alpha: f64, a: &Matrix, u: &Vector, be
         return Ok(());
     }
     if n == 0 {
-        v.fill(0.0);
+        // only the beta term remains
+        if beta == 0.0 {
+            v.fill(0.0);
+        } else {
+            v.scale(beta);
+        }
         return Ok(());
     }
     let m_i32: i32 = to_i32(m);
diff --git a/russell_lab/src/matvec/vec_outer.rs b/russell_lab/src/matvec/vec_outer.rs
index f10c581..9a8d186 100644
--- a/russell_lab/src/matvec/vec_outer.rs
+++ b/russell_lab/src/matvec/vec_outer.rs
@@ -60,7 +60,7 @@ pub fn vec_outer(a: &mut Matrix, alpha: f64, u: &Vector, v: &Vector) -> Result<(
     }
     let m_i32: i32 = to_i32(m);
     let n_i32: i32 = to_i32(n);
-    let lda = m_i32;
+    let lda = i32::max(1, m_i32);
     a.fill(0.0);
     unsafe {
         cblas_dger(
diff --git a/russell_lab/src/matvec/vec_outer_update.rs b/russell_lab/src/matvec/vec_outer_update.rs
index 49d0483..b26f01e 100644
--- a/russell_lab/src/matvec/vec_outer_update.rs
+++ b/russell_lab/src/matvec/vec_outer_update.rs
@@ -64,7 +64,7 @@ pub fn vec_outer_update(a: &mut Matrix, alpha: f64, u: &Vector, v: &Vector) -> R
     }
     let m_i32: i32 = to_i32(m);
     let n_i32: i32 = to_i32(n);
-    let lda = m_i32;
+    let lda = i32::max(1, m_i32);
     unsafe {
         cblas_dger(
             CBLAS_COL_MAJOR,
-- 
2.43.0


From 6d355874d9b85e8d9345c1abec9b777e2dec225a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:51:38 +0000
Subject: [PATCH 08/33] fix: compose floats with extreme exponents without
 overflow

---
 russell_lab/src/math/composition.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/russell_lab/src/math/composition.rs b/russell_lab/src/math/composition.rs
index c7bf732..ecda688 100644
--- a/russell_lab/src/math/composition.rs
+++ b/russell_lab/src/math/composition.rs
@@ -211,9 +211,9 @@ pub fn float_compose(mantissa: f64, exponent: i32) -> f64 {
         (mantissa, 0)
     };
     // composition
-    let mut exp = exponent + e;
+    let mut exp = exponent.saturating_add(e);
     let mut x = frac.to_bits();
-    exp += ((x >> 52) & 0x7ff) as i32 - 0x3ff;
+    exp = exp.saturating_add(((x >> 52) & 0x7ff) as i32 - 0x3ff);
     if exp < -1075 {
         return f64::copysign(0.0, frac); // underflow
     }
-- 
2.43.0


From 1f495552cb81bf1bf5a590dab092ab96f1fb9b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:51:38 +0000
Subject: [PATCH 09/33] fix: keep the root of a linear interpolant inside its
 range

---
 russell_lab/src/algo/root_finder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/russell_lab/src/algo/root_finder.rs b/russell_lab/src/algo/root_finder.rs
index 4d28a77..8c9f819 100644
--- a/russell_lab/src/algo/root_finder.rs
+++ b/russell_lab/src/algo/root_finder.rs
@@ -173,7 +173,7 @@ impl RootFinder {
             let z = -a[0] / a[1];
             if f64::abs(z) <= 1.0 + self.tol_abs_boundary {
                 let root = (xb + xa + dx * z) / 2.0;
-                return Ok(vec![root]);
+                return Ok(vec![f64::max(xa, f64::min(xb, root))]);
             } else {
                 return Ok(Vec::new());
             }
-- 
2.43.0


From 3040bdf03493d8c2125ad24900c12e077163936b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:53:57 +0000
Subject: [PATCH 10/33] fix: differentiate Chebyshev-Gauss interpolants at the
 ends of the range

---
 russell_lab/src/algo/interp_lagrange.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/russell_lab/src/algo/interp_lagrange.rs b/russell_lab/src/algo/interp_lagrange.rs
index efc5df3..0b470e0 100644
--- a/russell_lab/src/algo/interp_lagrange.rs
+++ b/russell_lab/src/algo/interp_lagrange.rs
@@ -612,10 +612,10 @@ impl InterpLagrange {
         }
         let mut at_node = false;
         let mut at_node_index = 0;
-        if x == -1.0 {
+        if x == self.xx[0] {
             at_node = true;
             at_node_index = 0;
-        } else if x == 1.0 {
+        } else if x == self.xx[self.nn] {
             at_node = true;
             at_node_index = self.nn;
         } else {
@@ -731,10 +731,10 @@ impl InterpLagrange {
         }
         let mut at_node = false;
         let mut at_node_index = 0;
-        if x == -1.0 {
+        if x == self.xx[0] {
             at_node = true;
             at_node_index = 0;
-        } else if x == 1.0 {
+        } else if x == self.xx[self.nn] {
             at_node = true;
             at_node_index = self.nn;
         } else {
-- 
2.43.0


From 7589bc0c59ff6977c21fb92e00e58b21dcad08b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:54:28 +0000
Subject: [PATCH 11/33] fix: report the data of a constant Chebyshev
 interpolant

---
 russell_lab/src/algo/interp_chebyshev.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/russell_lab/src/algo/interp_chebyshev.rs b/russell_lab/src/algo/interp_chebyshev.rs
index b990e43..f2f9a49 100644
--- a/russell_lab/src/algo/interp_chebyshev.rs
+++ b/russell_lab/src/algo/interp_chebyshev.rs
@@ -170,6 +170,8 @@ impl InterpChebyshev {
         self.nn = nn;
         if self.nn == 0 {
             self.constant_fx = f((self.xa + self.xb) / 2.0, args)?;
+            self.uu_rev[0] = self.constant_fx;
+            self.a[0] = self.constant_fx;
         } else {
             chebyshev_data_vector(&mut self.uu_rev, self.nn, self.xa, self.xb, args, &mut f)?;
             chebyshev_coefficients(&mut self.a, &self.uu_rev, self.nn);
@@ -236,6 +238,8 @@ impl InterpChebyshev {
         self.nn = nn;
         if self.nn == 0 {
             self.constant_fx = uu[0];
+            self.uu_rev[0] = self.constant_fx;
+            self.a[0] = self.constant_fx;
         } else {
             for i in 0..np {
                 self.uu_rev[nn - i] = uu[i];
@@ -282,6 +286,8 @@ impl InterpChebyshev {
         self.nn = nn;
         if self.nn == 0 {
             self.constant_fx = yy_gen[0];
+            self.uu_rev[0] = self.constant_fx;
+            self.a[0] = self.constant_fx;
         } else {
             let zz = InterpChebyshev::points(self.nn);
             for i_cheby in 0..zz.dim() {
-- 
2.43.0


From 0fc0741e340c86e39baea5dd105d63d52a85da84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:57:29 +0000
Subject: [PATCH 12/33] fix: do not count NaN in the first bin of a histogram

---
 russell_stat/src/histogram.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/russell_stat/src/histogram.rs b/russell_stat/src/histogram.rs
index 54a066f..1148d59 100644
--- a/russell_stat/src/histogram.rs
+++ b/russell_stat/src/histogram.rs
@@ -137,8 +137,8 @@ where
     fn find_bin(&self, x: T) -> Option<usize> {
         // handle values outside range
         let nstation = self.stations.len();
-        if x < self.stations[0] {
-            return None;
+        if !(x >= self.stations[0]) {
+            return None; // includes NaN
         }
         if x >= self.stations[nstation - 1] {
             return None;
-- 
2.43.0


From cf552803008594dd01dc3a33c4bd97266b8768ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:57:29 +0000
Subject: [PATCH 13/33] fix: refuse invalid parameters of the normal and
 lognormal distributions

---
 russell_stat/src/distribution_lognormal.rs | 6 ++++++
 russell_stat/src/distribution_normal.rs    | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/russell_stat/src/distribution_lognormal.rs b/russell_stat/src/distribution_lognormal.rs
index 17e19ea..195a0a8 100644
--- a/russell_stat/src/distribution_lognormal.rs
+++ b/russell_stat/src/distribution_lognormal.rs
@@ -27,6 +27,9 @@ impl DistributionLognormal {
     /// * `mu_logx` -- mean (μ) of log(x)
     /// * `sig_logx` -- standard deviation (σ) of log(x)
     pub fn new(mu_logx: f64, sig_logx: f64) -> Result<Self, StrError> {
+        if !mu_logx.is_finite() || !(sig_logx > 0.0) {
+            return Err("invalid parameters");
+        }
         Ok(DistributionLognormal {
             mu_logx,
             sig_logx,
@@ -45,6 +48,9 @@ impl DistributionLognormal {
     ///
     /// This function will hence calculate `mu_logx` (mean of log(x)) and `sig_logx` (std-dev of log(x))
     pub fn new_from_mu_sig(mu: f64, sig: f64) -> Result<Self, StrError> {
+        if !mu.is_finite() || !(mu > 0.0) || !(sig > 0.0) {
+            return Err("invalid parameters");
+        }
         let d = sig / mu;
         let v = f64::ln(1.0 + d * d);
         let sig_logx = f64::sqrt(v);
diff --git a/russell_stat/src/distribution_normal.rs b/russell_stat/src/distribution_normal.rs
index e5e04f3..d096ffb 100644
--- a/russell_stat/src/distribution_normal.rs
+++ b/russell_stat/src/distribution_normal.rs
@@ -25,6 +25,9 @@ impl DistributionNormal {
     /// * `mu` -- mean μ
     /// * `sig` -- standard deviation σ
     pub fn new(mu: f64, sig: f64) -> Result<Self, StrError> {
+        if !mu.is_finite() || !(sig > 0.0) {
+            return Err("invalid parameters");
+        }
         Ok(DistributionNormal {
             mu,
             sig,
-- 
2.43.0


From 5b996c17345c1a1a5a7ad9c5e41e2be40dbf984b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:57:29 +0000
Subject: [PATCH 14/33] fix: return zero density far below the location of
 Gumbel and Frechet distributions

---
 russell_stat/src/distribution_frechet.rs | 6 +++++-
 russell_stat/src/distribution_gumbel.rs  | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/russell_stat/src/distribution_frechet.rs b/russell_stat/src/distribution_frechet.rs
index e61a2df..d0b1552 100644
--- a/russell_stat/src/distribution_frechet.rs
+++ b/russell_stat/src/distribution_frechet.rs
@@ -59,7 +59,11 @@ impl ProbabilityDistribution for DistributionFrechet {
             return 0.0;
         }
         let z = (x - self.location) / self.scale;
-        f64::exp(-f64::powf(z, -self.shape)) * f64::powf(z, -1.0 - self.shape) * self.shape / self.scale
+        let cdf = f64::exp(-f64::powf(z, -self.shape));
+        if cdf == 0.0 {
+            return 0.0; // avoids 0 times infinity
+        }
+        cdf * f64::powf(z, -1.0 - self.shape) * self.shape / self.scale
     }
 
     /// Evaluates the Cumulative Distribution Function (CDF)
diff --git a/russell_stat/src/distribution_gumbel.rs b/russell_stat/src/distribution_gumbel.rs
index 4eb7103..aa4305d 100644
--- a/russell_stat/src/distribution_gumbel.rs
+++ b/russell_stat/src/distribution_gumbel.rs
@@ -70,7 +70,7 @@ impl ProbabilityDistribution for DistributionGumbel {
     /// ```
     fn pdf(&self, x: f64) -> f64 {
         let mz = (self.location - x) / self.scale;
-        f64::exp(mz) * f64::exp(-f64::exp(mz)) / self.scale
+        f64::exp(mz - f64::exp(mz)) / self.scale
     }
 
     /// Evaluates the Cumulative Distribution Function (CDF)
-- 
2.43.0


From 332b55d0da3bbbc9594ae8d3f0fd10492260566b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:20:33 +0000
Subject: [PATCH 15/33] fix: clear the skew components of the symmetric part in
 Tensor2::decompose

---
 russell_tensor/src/tensor2.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/russell_tensor/src/tensor2.rs b/russell_tensor/src/tensor2.rs
index b96c2c2..578d2a4 100644
--- a/russell_tensor/src/tensor2.rs
+++ b/russell_tensor/src/tensor2.rs
@@ -1740,6 +1740,9 @@ impl Tensor2 {
                 sym.vec[m] = self.vec[m];
                 skw.vec[m] = 0.0;
             }
+            sym.set(6, 0.0);
+            sym.set(7, 0.0);
+            sym.set(8, 0.0);
             skw.set(6, self.vec[6]);
             skw.set(7, self.vec[7]);
             skw.set(8, self.vec[8]);
-- 
2.43.0


From 63467dc8f0ae8e4acf950e425b2fb4d993d79823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:21:01 +0000
Subject: [PATCH 16/33] fix: overwrite every entry when converting tensors to
 standard components

The conversions of two-dimensional tensors left the entries that are zero
by definition untouched, so a reused output kept its old values there.
---
 russell_tensor/src/tensor2.rs |  1 +
 russell_tensor/src/tensor3.rs | 46 +++--------------------------------
 russell_tensor/src/tensor4.rs | 25 ++++---------------
 3 files changed, 10 insertions(+), 62 deletions(-)

diff --git a/russell_tensor/src/tensor2.rs b/russell_tensor/src/tensor2.rs
index 578d2a4..60fd3ba 100644
--- a/russell_tensor/src/tensor2.rs
+++ b/russell_tensor/src/tensor2.rs
@@ -657,6 +657,7 @@ impl Tensor2 {
     pub fn to_std_matrix(&self, mat: &mut Matrix) {
         assert_eq!(mat.dims(), (3, 3));
         if self.dim < 9 {
+            mat.fill(0.0);
             for m in 0..self.dim {
                 let (i, j) = M_TO_IJ[m];
                 mat.set(i, j, self.get_std(i, j));
diff --git a/russell_tensor/src/tensor3.rs b/russell_tensor/src/tensor3.rs
index e522958..d235583 100644
--- a/russell_tensor/src/tensor3.rs
+++ b/russell_tensor/src/tensor3.rs
@@ -969,48 +969,10 @@ impl Tensor3 {
     /// }
     /// ```
     pub fn to_std_array(&self, dd: &mut Vec<Vec<Vec<f64>>>) {
-        if self.case_a {
-            if self.nrow == 9 {
-                // General
-                for i in 0..3 {
-                    for j in 0..3 {
-                        for k in 0..3 {
-                            dd[i][j][k] = self.get_std(i, j, k);
-                        }
-                    }
-                }
-            } else {
-                // Symmetric / Symmetric2D
-                for m in 0..self.nrow {
-                    for n in 0..self.ncol {
-                        let (i, j, k) = MN_TO_IJK_CASE_A[m][n];
-                        dd[i][j][k] = self.get_std(i, j, k);
-                        if i != j {
-                            dd[j][i][k] = dd[i][j][k];
-                        }
-                    }
-                }
-            }
-        } else {
-            if self.ncol == 9 {
-                // General
-                for i in 0..3 {
-                    for j in 0..3 {
-                        for k in 0..3 {
-                            dd[i][j][k] = self.get_std(i, j, k);
-                        }
-                    }
-                }
-            } else {
-                // Symmetric / Symmetric2D
-                for m in 0..self.nrow {
-                    for n in 0..self.ncol {
-                        let (i, j, k) = MN_TO_IJK_CASE_B[m][n];
-                        dd[i][j][k] = self.get_std(i, j, k);
-                        if j != k {
-                            dd[i][k][j] = dd[i][j][k];
-                        }
-                    }
+        for i in 0..3 {
+            for j in 0..3 {
+                for k in 0..3 {
+                    dd[i][j][k] = self.get_std(i, j, k);
                 }
             }
         }
diff --git a/russell_tensor/src/tensor4.rs b/russell_tensor/src/tensor4.rs
index 3b74333..18e1e19 100644
--- a/russell_tensor/src/tensor4.rs
+++ b/russell_tensor/src/tensor4.rs
@@ -880,26 +880,11 @@ impl Tensor4 {
     /// }
     /// ```
     pub fn to_std_array(&self, dd: &mut Vec<Vec<Vec<Vec<f64>>>>) {
-        let dim = self.dim;
-        if dim < 9 {
-            for m in 0..dim {
-                for n in 0..dim {
-                    let (i, j, k, l) = MN_TO_IJKL[m][n];
-                    dd[i][j][k][l] = self.get_std(i, j, k, l);
-                    if i != j || k != l {
-                        dd[j][i][k][l] = dd[i][j][k][l];
-                        dd[i][j][l][k] = dd[i][j][k][l];
-                        dd[j][i][l][k] = dd[i][j][k][l];
-                    }
-                }
-            }
-        } else {
-            for i in 0..3 {
-                for j in 0..3 {
-                    for k in 0..3 {
-                        for l in 0..3 {
-                            dd[i][j][k][l] = self.get_std(i, j, k, l);
-                        }
+        for i in 0..3 {
+            for j in 0..3 {
+                for k in 0..3 {
+                    for l in 0..3 {
+                        dd[i][j][k][l] = self.get_std(i, j, k, l);
                     }
                 }
             }
-- 
2.43.0


From a3787e3c09eaf22ecb8280981920186497d0aa48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:37:45 +0000
Subject: [PATCH 17/33] fix: make exactly the expected number of equal steps in
 OdeSolver::solve

The number of steps was recomputed from the rounded stepsize and could come out
one too large, making the solver run past the end point.
---
 russell_ode/src/ode_solver.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/russell_ode/src/ode_solver.rs b/russell_ode/src/ode_solver.rs
index 5f99a82..ab2b1b3 100644
--- a/russell_ode/src/ode_solver.rs
+++ b/russell_ode/src/ode_solver.rs
@@ -195,22 +195,22 @@ impl<'a, A> OdeSolver<'a, A> {
         let info = self.params.method.information();
 
         // initial stepsize
-        let (equal_stepping, mut h) = match h_equal {
+        let (equal_stepping, nstep, mut h) = match h_equal {
             Some(h_eq) => {
                 if h_eq < 10.0 * f64::EPSILON {
                     return Err("h_equal must be ≥ 10.0 * f64::EPSILON");
                 }
                 let n = f64::ceil((x1 - x0) / h_eq) as usize;
                 let h = (x1 - x0) / (n as f64);
-                (true, h)
+                (true, n, h)
             }
             None => {
                 if info.embedded {
                     let h = f64::min(self.params.step.h_ini, x1 - x0);
-                    (false, h)
+                    (false, 0, h)
                 } else {
                     let h = (x1 - x0) / (N_EQUAL_STEPS as f64);
-                    (true, h)
+                    (true, N_EQUAL_STEPS, h)
                 }
             }
         };
@@ -237,7 +237,6 @@ impl<'a, A> OdeSolver<'a, A> {
 
         // equal-stepping loop
         if equal_stepping {
-            let nstep = f64::ceil((x1 - x) / h) as usize;
             for _ in 0..nstep {
                 self.work.stats.sw_step.reset();
 
-- 
2.43.0


From a230acdf69cb8628e364e77b4434cc82e811ff5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:37:46 +0000
Subject: [PATCH 18/33] fix: do not accept diverging Radau5 iterations with
 equal stepping

The equal-stepping loop ignored the divergence flag and accepted the state of the
unfinished iterations.
---
 russell_ode/src/ode_solver.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/russell_ode/src/ode_solver.rs b/russell_ode/src/ode_solver.rs
index ab2b1b3..f724446 100644
--- a/russell_ode/src/ode_solver.rs
+++ b/russell_ode/src/ode_solver.rs
@@ -244,6 +244,11 @@ impl<'a, A> OdeSolver<'a, A> {
                 self.work.stats.n_steps += 1;
                 self.actual.step(&mut self.work, x, &y, h, args)?;
 
+                // handle diverging iterations (the stepsize cannot be reduced here)
+                if self.work.iterations_diverging {
+                    return Err("the iterations are diverging; a smaller stepsize is required");
+                }
+
                 // update x and y
                 self.work.stats.n_accepted += 1; // this must be after `self.actual.step`
                 self.actual.accept(&mut self.work, &mut x, y, h, args)?;
-- 
2.43.0


From 3c295e904a9248a60ece7af91c04253ec47c58f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:37:46 +0000
Subject: [PATCH 19/33] fix: return the error of an unfinished integration with
 dense output

Running out of steps with dense output enabled panicked in the last output instead
of returning the error.
---
 russell_ode/src/ode_solver.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/russell_ode/src/ode_solver.rs b/russell_ode/src/ode_solver.rs
index f724446..72225f5 100644
--- a/russell_ode/src/ode_solver.rs
+++ b/russell_ode/src/ode_solver.rs
@@ -369,6 +369,12 @@ impl<'a, A> OdeSolver<'a, A> {
             }
         }
 
+        // handle failure
+        if !success {
+            self.work.stats.stop_sw_total();
+            return Err("variable stepping did not converge");
+        }
+
         // last output
         if let Some(out) = output.as_deref_mut() {
             out.last(&self.work, h, x, y, args)?;
@@ -376,11 +382,7 @@ impl<'a, A> OdeSolver<'a, A> {
 
         // done
         self.work.stats.stop_sw_total();
-        if success {
-            Ok(())
-        } else {
-            Err("variable stepping did not converge")
-        }
+        Ok(())
     }
 
     /// Update the parameters (e.g., for sensitive analyses)
-- 
2.43.0


From 2fe5a24bcd52bc31089da9352daf8b74e5cad2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:37:47 +0000
Subject: [PATCH 20/33] fix: recompute the derived values when updating the
 parameters of ODE solvers

The explicit Runge-Kutta solver kept the step factors of the old parameters, and the
implicit solvers kept the matrices and the linear solver chosen by the old parameters.
---
 russell_ode/src/euler_backward.rs       | 2 +-
 russell_ode/src/explicit_runge_kutta.rs | 4 ++++
 russell_ode/src/radau5.rs               | 2 +-
 3 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/russell_ode/src/euler_backward.rs b/russell_ode/src/euler_backward.rs
index 1b7fd5a..7576095 100644
--- a/russell_ode/src/euler_backward.rs
+++ b/russell_ode/src/euler_backward.rs
@@ -168,7 +168,7 @@ impl<'a, A> OdeSolverTrait<A> for EulerBackward<'a, A> {
 
     /// Update the parameters (e.g., for sensitive analyses)
     fn update_params(&mut self, params: Params) {
-        self.params = params;
+        *self = EulerBackward::new(params, self.system.clone());
     }
 }
 
diff --git a/russell_ode/src/explicit_runge_kutta.rs b/russell_ode/src/explicit_runge_kutta.rs
index 021977c..6d3c83b 100644
--- a/russell_ode/src/explicit_runge_kutta.rs
+++ b/russell_ode/src/explicit_runge_kutta.rs
@@ -359,6 +359,10 @@ impl<'a, A> OdeSolverTrait<A> for ExplicitRungeKutta<'a, A> {
     /// Update the parameters (e.g., for sensitive analyses)
     fn update_params(&mut self, params: Params) {
         self.params = params;
+        self.lund_factor =
+            1.0 / ((self.info.order_of_estimator + 1) as f64) - params.erk.lund_beta * params.erk.lund_m;
+        self.d_min = 1.0 / params.step.m_min;
+        self.d_max = 1.0 / params.step.m_max;
     }
 }
 
diff --git a/russell_ode/src/radau5.rs b/russell_ode/src/radau5.rs
index 472191c..eb0063d 100644
--- a/russell_ode/src/radau5.rs
+++ b/russell_ode/src/radau5.rs
@@ -676,7 +676,7 @@ impl<'a, A> OdeSolverTrait<A> for Radau5<'a, A> {
 
     /// Update the parameters (e.g., for sensitive analyses)
     fn update_params(&mut self, params: Params) {
-        self.params = params;
+        *self = Radau5::new(params, self.system.clone());
     }
 }
 
-- 
2.43.0


From 8e56f5697f8f44b45dab283a89222d4de24d1028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:37:47 +0000
Subject: [PATCH 21/33] fix: reset the reuse flags of Radau5 at the start of
 each solution

A second solve on the same solver could use the Jacobian, factorization, and
convergence rate of the previous solution.
---
 russell_ode/src/radau5.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/russell_ode/src/radau5.rs b/russell_ode/src/radau5.rs
index eb0063d..2ceb93b 100644
--- a/russell_ode/src/radau5.rs
+++ b/russell_ode/src/radau5.rs
@@ -339,6 +339,14 @@ impl<'a, A> OdeSolverTrait<A> for Radau5<'a, A> {
             self.initialize(work, x, y, args)?;
         }
 
+        // forget the history of a previous solution
+        if work.stats.n_steps == 1 {
+            self.reuse_jacobian = false;
+            self.reuse_jacobian_kk_and_fact = false;
+            self.jacobian_computed = false;
+            self.eta = 1.0;
+        }
+
         // constants
         let concurrent = self.params.radau5.concurrent && self.params.newton.genie != Genie::Mumps;
         let ndim = self.system.ndim;
-- 
2.43.0


From 1b06862e64c5c0ad49209d34b7db6a750449e221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:37:48 +0000
Subject: [PATCH 22/33] fix: keep the last interior dense output station

When the spacing does not divide the interval, the last multiple of the spacing was
dropped because the last station was moved to the end point.
---
 russell_ode/src/output.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/russell_ode/src/output.rs b/russell_ode/src/output.rs
index a9f238a..5886453 100644
--- a/russell_ode/src/output.rs
+++ b/russell_ode/src/output.rs
@@ -443,14 +443,14 @@ impl<'a, A> Output<'a, A> {
         if self.with_dense_output() {
             if let Some(h_out) = self.dense_h_out {
                 // uniform spacing
-                let n = usize::max(2, ((x1 + EPS_X1_H_OUT - x0) / h_out) as usize + 1); // at least 2 (first and last) are required
+                let n = usize::max(2, f64::ceil((x1 - EPS_X1_H_OUT - x0) / h_out) as usize + 1); // at least 2 (first and last) are required
                 if self.dense_x.len() != n {
                     self.dense_x.resize(n, 0.0);
                 }
                 self.dense_x[0] = x0;
                 self.dense_x[n - 1] = x1;
                 for i in 1..(n - 1) {
-                    self.dense_x[i] = self.dense_x[i - 1] + h_out;
+                    self.dense_x[i] = x0 + (i as f64) * h_out;
                 }
             } else {
                 // user-defined spacing
-- 
2.43.0


From ae0e5e8abcc60a10f02c3226afa55c83288a8191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:37:48 +0000
Subject: [PATCH 23/33] fix: start from scratch when an ODE output object is
 used again

The numbers of written files and the stiffness records of the previous solution were
kept.
---
 russell_ode/src/output.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/russell_ode/src/output.rs b/russell_ode/src/output.rs
index 5886453..5014b95 100644
--- a/russell_ode/src/output.rs
+++ b/russell_ode/src/output.rs
@@ -433,11 +433,11 @@ impl<'a, A> Output<'a, A> {
                     ym.clear();
                 }
             }
-            if self.stiff_recording {
-                self.stiff_step_index.clear();
-                self.stiff_x.clear();
-                self.stiff_h_times_rho.clear();
-            }
+            self.stiff_step_index.clear();
+            self.stiff_x.clear();
+            self.stiff_h_times_rho.clear();
+            self.step_file_count = 0;
+            self.dense_file_count = 0;
         }
         // handle dense output stations
         if self.with_dense_output() {
-- 
2.43.0


From b6bc0023147802cc71b39a895c1b4d1fe0fc8f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:58:10 +0000
Subject: [PATCH 24/33] fix: report dense output stations within rounding of
 the end point

A station between the last accepted point and the end point of the interval, which
differ by rounding only, made the last output panic.
---
 russell_ode/src/output.rs | 43 ++++++++++++++++++++++-----------------
 1 file changed, 24 insertions(+), 19 deletions(-)

diff --git a/russell_ode/src/output.rs b/russell_ode/src/output.rs
index 5014b95..4877709 100644
--- a/russell_ode/src/output.rs
+++ b/russell_ode/src/output.rs
@@ -651,35 +651,40 @@ impl<'a, A> Output<'a, A> {
         // --- dense -------------------------------------------------------------------------------------------
         //
         if self.with_dense_output() {
-            // check
-            assert_eq!(self.dense_index, self.dense_x.len() - 1);
+            // loop over remaining stations: any interior station here differs from x by rounding only
+            while self.dense_index < self.dense_x.len() {
+                // dense output: callback
+                if let Some(cb) = self.dense_callback.as_ref() {
+                    cb(&work.stats, h, x, y, args)?;
+                }
+
+                // dense output: write file
+                if let Some(fp) = &self.dense_file_key {
+                    let full_path = format!("{}_{}.json", fp, self.dense_file_count).to_string();
+                    let results = OutDataRef { h, x, y };
+                    results.write_json(&full_path)?;
+                    self.dense_file_count += 1;
+                }
+
+                // dense output: record results
+                if self.dense_recording {
+                    for (m, ym) in self.dense_y.iter_mut() {
+                        ym[self.dense_index] = y[*m];
+                    }
+                }
 
-            // dense output: callback
-            if let Some(cb) = self.dense_callback.as_ref() {
-                cb(&work.stats, h, x, y, args)?;
+                // next station
+                self.dense_index += 1;
             }
 
-            // dense output: write file
+            // dense output: write count file
             if let Some(fp) = &self.dense_file_key {
-                // data
-                let full_path = format!("{}_{}.json", fp, self.dense_file_count).to_string();
-                let results = OutDataRef { h, x, y };
-                results.write_json(&full_path)?;
-                self.dense_file_count += 1;
-                // count
                 let full_path = format!("{}_count.json", fp).to_string();
                 let count = OutCount {
                     n: self.dense_file_count,
                 };
                 count.write_json(&full_path)?;
             }
-
-            // dense output: record results
-            if self.dense_recording {
-                for (m, ym) in self.dense_y.iter_mut() {
-                    ym[self.dense_index] = y[*m];
-                }
-            }
         }
         Ok(())
     }
-- 
2.43.0


From 0b362d68c9dc6e72baecce850133acc6842952b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:00:31 +0000
Subject: [PATCH 25/33] fix: allow rounding in the range check of the Radau5
 dense output

A station just after the end of a step could be smaller than the rounded start of
the next step, making the interpolation panic.
---
 russell_ode/src/radau5.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/russell_ode/src/radau5.rs b/russell_ode/src/radau5.rs
index 2ceb93b..0a791c6 100644
--- a/russell_ode/src/radau5.rs
+++ b/russell_ode/src/radau5.rs
@@ -675,7 +675,8 @@ impl<'a, A> OdeSolverTrait<A> for Radau5<'a, A> {
 
     /// Computes the dense output with x-h ≤ x_out ≤ x
     fn dense_output(&self, y_out: &mut Vector, x_out: f64, x: f64, y: &Vector, h: f64) {
-        assert!(x_out >= x - h && x_out <= x);
+        let rounding = 10.0 * f64::EPSILON * f64::max(1.0, f64::abs(x));
+        assert!(x_out >= x - h - rounding && x_out <= x);
         let s = (x_out - x) / h;
         for m in 0..self.system.ndim {
             y_out[m] = y[m] + s * (self.yc0[m] + (s - MU4) * (self.yc1[m] + (s - MU3) * self.yc2[m]));
-- 
2.43.0


From 5ce8a11e779d1d87444f8a1514b821cb4ebb59a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:03:23 +0000
Subject: [PATCH 26/33] fix: factorize again when the stepsize of Radau5 is
 truncated

The last step reused coefficient matrices assembled for a larger stepsize, which
made the iterations stop with a residual far above the tolerance.
---
 russell_ode/src/radau5.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/russell_ode/src/radau5.rs b/russell_ode/src/radau5.rs
index 0a791c6..3d13ba9 100644
--- a/russell_ode/src/radau5.rs
+++ b/russell_ode/src/radau5.rs
@@ -56,6 +56,9 @@ pub(crate) struct Radau5<'a, A> {
     /// Indicates that the J, K_real, and K_comp matrices (and their factorizations) can be reused (once)
     reuse_jacobian_kk_and_fact: bool,
 
+    /// Holds the stepsize corresponding to the current coefficient matrices and factorizations
+    h_fact: f64,
+
     /// Indicates that the Jacobian has been computed
     ///
     /// This flag assists in reusing the Jacobian if the step has been rejected.
@@ -154,6 +157,7 @@ impl<'a, A> Radau5<'a, A> {
             solver_comp: ComplexLinSolver::new(params.newton.genie).unwrap(),
             reuse_jacobian: false,
             reuse_jacobian_kk_and_fact: false,
+            h_fact: 0.0,
             jacobian_computed: false,
             eta: 1.0,
             theta,
@@ -351,11 +355,18 @@ impl<'a, A> OdeSolverTrait<A> for Radau5<'a, A> {
         let concurrent = self.params.radau5.concurrent && self.params.newton.genie != Genie::Mumps;
         let ndim = self.system.ndim;
 
+        // the stepsize may have been truncated to reach the final x
+        if self.reuse_jacobian_kk_and_fact && h != self.h_fact {
+            self.reuse_jacobian_kk_and_fact = false;
+            self.reuse_jacobian = true;
+        }
+
         // Jacobian, K_real, K_comp, and factorizations (for all iterations: simple Newton's method)
         if self.reuse_jacobian_kk_and_fact {
             self.reuse_jacobian_kk_and_fact = false; // just once
         } else {
             self.assemble(work, x, y, h, args)?;
+            self.h_fact = h;
             work.stats.sw_factor.reset();
             work.stats.n_factor += 1;
             if concurrent {
-- 
2.43.0


From 68bae788ca8fd25b2f66a3ad464b337b6289a5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:17:06 +0000
Subject: [PATCH 27/33] fix: recognise uniform grids with large coordinates

The comparison of spacings used an absolute tolerance, so that the rounding of
coordinates above a few units made uniform grids look non-uniform.
---
 russell_pde/src/grid_1d.rs | 13 ++++++-------
 russell_pde/src/grid_2d.rs | 35 +++++++++++++----------------------
 2 files changed, 19 insertions(+), 29 deletions(-)

diff --git a/russell_pde/src/grid_1d.rs b/russell_pde/src/grid_1d.rs
index 3b453b1..6cc4b4f 100644
--- a/russell_pde/src/grid_1d.rs
+++ b/russell_pde/src/grid_1d.rs
@@ -358,14 +358,13 @@ impl Grid1d {
     /// * For grids created with `new_uniform()`, this always returns `Some(dx)`
     /// * For CGL grids or arbitrary grids, this typically returns `None`
     pub fn get_dx(&self) -> Option<f64> {
-        let mut dx = f64::NEG_INFINITY;
+        let xmin = self.coords[0];
+        let xmax = self.coords[self.nx - 1];
+        let dx = (xmax - xmin) / ((self.nx - 1) as f64);
+        let max_abs = f64::max(f64::abs(xmin), f64::abs(xmax));
+        let tol = 10.0 * f64::EPSILON * f64::max(1.0, max_abs / 3.0); // allows the rounding of large coordinates
         for i in 1..self.nx {
-            let x = self.coords[i];
-            let xl = self.coords[i - 1];
-            if dx == f64::NEG_INFINITY {
-                dx = x - xl;
-                assert!(dx > 0.0);
-            } else if f64::abs(x - xl - dx) > 10.0 * f64::EPSILON {
+            if f64::abs(self.coords[i] - xmin - (i as f64) * dx) > tol {
                 return None; // non-uniform
             }
         }
diff --git a/russell_pde/src/grid_2d.rs b/russell_pde/src/grid_2d.rs
index 457128b..cc9f11c 100644
--- a/russell_pde/src/grid_2d.rs
+++ b/russell_pde/src/grid_2d.rs
@@ -657,28 +657,19 @@ impl Grid2d {
     /// * Chebyshev-Gauss-Lobatto grids are non-uniform and return `None`
     /// * Uses a tolerance of 10×ε to check for uniform spacing
     pub fn get_dx_dy(&self) -> Option<(f64, f64)> {
-        let mut dx = f64::NEG_INFINITY;
-        let mut dy = f64::NEG_INFINITY;
-        for j in 1..self.ny {
-            for i in 1..self.nx {
-                let m = i + j * self.nx; // this node
-                let l = m - 1; // left node
-                let b = m - self.nx; // bottom node
-                let (x, y) = self.coords[m];
-                let (xl, _) = self.coords[l];
-                let (_, yb) = self.coords[b];
-                if dx == f64::NEG_INFINITY {
-                    dx = x - xl;
-                    assert!(dx > 0.0);
-                } else if f64::abs(x - xl - dx) > 10.0 * f64::EPSILON {
-                    return None; // non-uniform in x
-                }
-                if dy == f64::NEG_INFINITY {
-                    dy = y - yb;
-                    assert!(dy > 0.0);
-                } else if f64::abs(y - yb - dy) > 10.0 * f64::EPSILON {
-                    return None; // non-uniform in y
-                }
+        let dx = (self.xmax - self.xmin) / ((self.nx - 1) as f64);
+        let dy = (self.ymax - self.ymin) / ((self.ny - 1) as f64);
+        let max_abs_x = f64::max(f64::abs(self.xmin), f64::abs(self.xmax));
+        let max_abs_y = f64::max(f64::abs(self.ymin), f64::abs(self.ymax));
+        let tol_x = 10.0 * f64::EPSILON * f64::max(1.0, max_abs_x / 3.0); // allows the rounding of large coordinates
+        let tol_y = 10.0 * f64::EPSILON * f64::max(1.0, max_abs_y / 3.0);
+        for (m, (x, y)) in self.coords.iter().enumerate() {
+            let (i, j) = self.get_ij(m);
+            if f64::abs(x - self.xmin - (i as f64) * dx) > tol_x {
+                return None; // non-uniform in x
+            }
+            if f64::abs(y - self.ymin - (j as f64) * dy) > tol_y {
+                return None; // non-uniform in y
             }
         }
         Some((dx, dy))
-- 
2.43.0


From 5ae28e616a827099ac6ef6fd151ad55bbe7ce383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:20:13 +0000
Subject: [PATCH 28/33] fix: solve finite-difference systems without prescribed
 or without unknown nodes

The system partitioning strategy panicked when no node was prescribed (natural
or periodic conditions only) and when every node was prescribed.
---
 russell_pde/src/fdm_1d.rs | 11 +++++++++--
 russell_pde/src/fdm_2d.rs | 11 +++++++++--
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/russell_pde/src/fdm_1d.rs b/russell_pde/src/fdm_1d.rs
index 615db05..61eaf97 100644
--- a/russell_pde/src/fdm_1d.rs
+++ b/russell_pde/src/fdm_1d.rs
@@ -367,14 +367,21 @@ impl<'a> Fdm1d<'a> {
         // validates the boundary conditions data
         self.ebcs.validate(&self.nbcs)?;
 
+        // handle the case where all values are prescribed
+        if self.equations.nu() == 0 {
+            let (a_bar, a_check, _) = self.get_vectors_sps(source);
+            return Ok(self.get_joined_vector_sps(&a_bar, &a_check));
+        }
+
         // assemble the coefficient matrix and the lhs and rhs vectors
         let sym_kk_bar = self.genie.get_sym(self.symmetric);
         let (kk_bar, kk_check) = self.get_matrices_sps(alpha, 0, sym_kk_bar);
         let (mut a_bar, a_check, mut f_bar) = self.get_vectors_sps(source);
-        let kk_check = kk_check.unwrap();
 
         // update the right-hand side with the prescribed values
-        kk_check.mat_vec_mul_update(&mut f_bar, -1.0, &a_check)?; // f̄ -= Ǩ ǎ
+        if let Some(kk_check) = kk_check {
+            kk_check.mat_vec_mul_update(&mut f_bar, -1.0, &a_check)?; // f̄ -= Ǩ ǎ
+        }
 
         // solve the linear system
         let mut solver = LinSolver::new(self.genie)?;
diff --git a/russell_pde/src/fdm_2d.rs b/russell_pde/src/fdm_2d.rs
index 54ed987..1c4f872 100644
--- a/russell_pde/src/fdm_2d.rs
+++ b/russell_pde/src/fdm_2d.rs
@@ -443,14 +443,21 @@ impl<'a> Fdm2d<'a> {
         // validates the boundary conditions data
         self.ebcs.validate(&self.nbcs)?;
 
+        // handle the case where all values are prescribed
+        if self.equations.nu() == 0 {
+            let (a_bar, a_check, _) = self.get_vectors_sps(source);
+            return Ok(self.get_joined_vector_sps(&a_bar, &a_check));
+        }
+
         // assemble the coefficient matrix and the lhs and rhs vectors
         let sym_kk_bar = self.genie.get_sym(self.symmetric);
         let (kk_bar, kk_check) = self.get_matrices_sps(alpha, 0, sym_kk_bar);
         let (mut a_bar, a_check, mut f_bar) = self.get_vectors_sps(source);
-        let kk_check = kk_check.unwrap();
 
         // initialize the right-hand side
-        kk_check.mat_vec_mul_update(&mut f_bar, -1.0, &a_check).unwrap(); // f̄ -= Ǩ ǎ
+        if let Some(kk_check) = kk_check {
+            kk_check.mat_vec_mul_update(&mut f_bar, -1.0, &a_check).unwrap(); // f̄ -= Ǩ ǎ
+        }
 
         // solve the linear system
         let mut solver = LinSolver::new(self.genie)?;
-- 
2.43.0


From e87e04e669d7e4bb7e6cee93e0d40efdee77455d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:20:13 +0000
Subject: [PATCH 29/33] fix: use the full flux at corners with a periodic
 direction

The flux entering a corner node was halved even if the other direction is
periodic, where the row of the operator is not halved.
---
 russell_pde/src/fdm_2d.rs | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/russell_pde/src/fdm_2d.rs b/russell_pde/src/fdm_2d.rs
index 1c4f872..853b26e 100644
--- a/russell_pde/src/fdm_2d.rs
+++ b/russell_pde/src/fdm_2d.rs
@@ -767,26 +767,28 @@ impl<'a> Fdm2d<'a> {
             let iu = self.equations.iu(m);
             let (x, y) = self.grid.coord(m);
             let mut den = 1.0;
-            let cf = if self.grid.is_corner(m) { 0.5 } else { 1.0 };
+            let corner = self.grid.is_corner(m);
+            let cfx = if corner && !self.ebcs.periodic_along_y { 0.5 } else { 1.0 };
+            let cfy = if corner && !self.ebcs.periodic_along_x { 0.5 } else { 1.0 };
             if !self.ebcs.periodic_along_x {
                 if self.grid.is_xmin(m) {
                     let wn = self.nbcs.functions[0](x, y);
-                    f_bar[iu] += -cf * wn / self.dx;
+                    f_bar[iu] += -cfx * wn / self.dx;
                     den *= 2.0;
                 } else if self.grid.is_xmax(m) {
                     let wn = self.nbcs.functions[1](x, y);
-                    f_bar[iu] += -cf * wn / self.dx;
+                    f_bar[iu] += -cfx * wn / self.dx;
                     den *= 2.0;
                 }
             }
             if !self.ebcs.periodic_along_y {
                 if self.grid.is_ymin(m) {
                     let wn = self.nbcs.functions[2](x, y);
-                    f_bar[iu] += -cf * wn / self.dy;
+                    f_bar[iu] += -cfy * wn / self.dy;
                     den *= 2.0;
                 } else if self.grid.is_ymax(m) {
                     let wn = self.nbcs.functions[3](x, y);
-                    f_bar[iu] += -cf * wn / self.dy;
+                    f_bar[iu] += -cfy * wn / self.dy;
                     den *= 2.0;
                 }
             }
@@ -854,28 +856,30 @@ impl<'a> Fdm2d<'a> {
         let mut ff = Vector::new(ndim);
         self.grid.for_each_coord(|m, x, y| {
             let mut den = 1.0;
-            let cf = if self.grid.is_corner(m) { 0.5 } else { 1.0 };
+            let corner = self.grid.is_corner(m);
+            let cfx = if corner && !self.ebcs.periodic_along_y { 0.5 } else { 1.0 };
+            let cfy = if corner && !self.ebcs.periodic_along_x { 0.5 } else { 1.0 };
             if !self.ebcs.periodic_along_x {
                 if self.grid.is_xmin(m) {
                     let wn = self.nbcs.functions[0](x, y);
-                    ff[m] += -cf * wn / self.dx;
+                    ff[m] += -cfx * wn / self.dx;
                     den *= 2.0;
                 }
                 if self.grid.is_xmax(m) {
                     let wn = self.nbcs.functions[1](x, y);
-                    ff[m] += -cf * wn / self.dx;
+                    ff[m] += -cfx * wn / self.dx;
                     den *= 2.0;
                 }
             }
             if !self.ebcs.periodic_along_y {
                 if self.grid.is_ymin(m) {
                     let wn = self.nbcs.functions[2](x, y);
-                    ff[m] += -cf * wn / self.dy;
+                    ff[m] += -cfy * wn / self.dy;
                     den *= 2.0;
                 }
                 if self.grid.is_ymax(m) {
                     let wn = self.nbcs.functions[3](x, y);
-                    ff[m] += -cf * wn / self.dy;
+                    ff[m] += -cfy * wn / self.dy;
                     den *= 2.0;
                 }
             }
-- 
2.43.0


From c664f2a7d1033419caba3c8c9bdce78e1af2beed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:26:47 +0000
Subject: [PATCH 30/33] fix: solve spectral systems without prescribed or
 without unknown nodes

The system partitioning strategy panicked when all sides have natural
conditions and when every node is prescribed.
---
 russell_pde/src/spc_1d.rs | 13 +++++++++++--
 russell_pde/src/spc_2d.rs | 13 +++++++++++--
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/russell_pde/src/spc_1d.rs b/russell_pde/src/spc_1d.rs
index 7948e72..753116f 100644
--- a/russell_pde/src/spc_1d.rs
+++ b/russell_pde/src/spc_1d.rs
@@ -279,12 +279,20 @@ impl<'a> Spc1d<'a> {
         // validates the boundary conditions data
         self.ebcs.validate(&self.nbcs)?;
 
+        // handle the case where all values are prescribed
+        if self.equations.nu() == 0 {
+            let (a_bar, a_check, _) = self.get_vectors_sps(source);
+            return Ok(self.get_joined_vector_sps(&a_bar, &a_check));
+        }
+
         // assemble the coefficient matrix and the lhs and rhs vectors
         let (kk_bar, kk_check) = self.get_matrices_sps(alpha, 0);
         let (mut a_bar, a_check, mut f_bar) = self.get_vectors_sps(source);
 
         // initialize the right-hand side
-        kk_check.mat_vec_mul_update(&mut f_bar, -1.0, &a_check).unwrap(); // f̄ -= Ǩ ǎ
+        if self.equations.np() > 0 {
+            kk_check.mat_vec_mul_update(&mut f_bar, -1.0, &a_check).unwrap(); // f̄ -= Ǩ ǎ
+        }
 
         // solve the linear system
         let mut solver = LinSolver::new(self.genie)?;
@@ -468,7 +476,8 @@ impl<'a> Spc1d<'a> {
         let nx = self.grid.nx();
         let nnz_wcs = nx * nx; // worst-case scenario
         let mut kk_bar = CooMatrix::new(nu, nu, nnz_wcs + extra_nnz, Sym::No).unwrap();
-        let mut kk_check = CooMatrix::new(nu, np, nnz_wcs, Sym::No).unwrap();
+        // russell_sparse requires at least one column, even if there are no prescribed values
+        let mut kk_check = CooMatrix::new(nu, usize::max(np, 1), nnz_wcs, Sym::No).unwrap();
 
         // spectral derivative matrices
         let d1r = self.interp.get_dd1().unwrap();
diff --git a/russell_pde/src/spc_2d.rs b/russell_pde/src/spc_2d.rs
index 08a8372..08ed3c3 100644
--- a/russell_pde/src/spc_2d.rs
+++ b/russell_pde/src/spc_2d.rs
@@ -330,12 +330,20 @@ impl<'a> Spc2d<'a> {
         // validates the boundary conditions data
         self.ebcs.validate(&self.nbcs)?;
 
+        // handle the case where all values are prescribed
+        if self.equations.nu() == 0 {
+            let (a_bar, a_check, _) = self.get_vectors_sps(source);
+            return Ok(self.get_joined_vector_sps(&a_bar, &a_check));
+        }
+
         // assemble the coefficient matrix and the lhs and rhs vectors
         let (kk_bar, kk_check) = self.get_matrices_sps(alpha, 0);
         let (mut a_bar, a_check, mut f_bar) = self.get_vectors_sps(source);
 
         // initialize the right-hand side
-        kk_check.mat_vec_mul_update(&mut f_bar, -1.0, &a_check).unwrap(); // f̄ -= Ǩ ǎ
+        if self.equations.np() > 0 {
+            kk_check.mat_vec_mul_update(&mut f_bar, -1.0, &a_check).unwrap(); // f̄ -= Ǩ ǎ
+        }
 
         // solve the linear system
         let mut solver = LinSolver::new(self.genie)?;
@@ -537,7 +545,8 @@ impl<'a> Spc2d<'a> {
         let neq = self.equations.neq();
         let nnz_wcs = nx * nx * ny * ny; // worst-case scenario
         let mut kk_bar = CooMatrix::new(nu, nu, nnz_wcs + extra_nnz, Sym::No).unwrap();
-        let mut kk_check = CooMatrix::new(nu, np, nnz_wcs, Sym::No).unwrap();
+        // russell_sparse requires at least one column, even if there are no prescribed values
+        let mut kk_check = CooMatrix::new(nu, usize::max(np, 1), nnz_wcs, Sym::No).unwrap();
 
         // spectral derivative matrices
         let d1r = self.interp_x.get_dd1().unwrap();
-- 
2.43.0


From 5fb0315db7c0c59b3fe02549c6ff4fe9fed415b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:34:36 +0000
Subject: [PATCH 31/33] fix: detect NaN in any component of the residual and of
 the correction

The largest-value computation skips NaN, so a residual with a NaN component
could count as converged.
---
 russell_nonlin/src/iteration_error.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/russell_nonlin/src/iteration_error.rs b/russell_nonlin/src/iteration_error.rs
index bd190a5..8696fa2 100644
--- a/russell_nonlin/src/iteration_error.rs
+++ b/russell_nonlin/src/iteration_error.rs
@@ -133,8 +133,8 @@ impl IterationError {
         // compute max norm
         self.residual_max = f64::max(vec_norm(gg, Norm::Max), f64::abs(nn));
 
-        // check for NaN or Inf
-        if !self.residual_max.is_finite() {
+        // check for NaN or Inf (note that f64::max and the max norm may skip NaN values)
+        if !self.residual_max.is_finite() || gg.as_data().iter().any(|v| v.is_nan()) || nn.is_nan() {
             return true;
         }
 
@@ -174,8 +174,8 @@ impl IterationError {
         // compute max norm
         self.delta_max = vec_norm(x, Norm::Max);
 
-        // check for NaN or Inf
-        if !self.delta_max.is_finite() {
+        // check for NaN or Inf (note that the max norm may skip NaN values)
+        if !self.delta_max.is_finite() || x.as_data().iter().any(|v| v.is_nan()) {
             return true;
         }
 
-- 
2.43.0


From 21715a709fab4f67b92a269f5f4762eab97ef781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:34:55 +0000
Subject: [PATCH 32/33] fix: count accepted steps for the step limit of a
 continuation run

With automatic stepsizes, rejected attempts were counted too, so the run
stopped early or went past the limit.
---
 russell_nonlin/src/solver.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/russell_nonlin/src/solver.rs b/russell_nonlin/src/solver.rs
index 1415433..bbe780e 100644
--- a/russell_nonlin/src/solver.rs
+++ b/russell_nonlin/src/solver.rs
@@ -211,7 +211,7 @@ impl<'a, A> Solver<'a, A> {
             }
         } else {
             // variable stepsize
-            for i in 0..self.config.n_step_max {
+            for _ in 0..self.config.n_step_max {
                 // log
                 self.work.stats.sw_step.reset();
                 self.work.log.step(self.work.h, *l, false);
@@ -303,7 +303,7 @@ impl<'a, A> Solver<'a, A> {
 
                     // exit point
                     self.work.stats.stop_sw_step();
-                    if stop.now(i, u, *l) {
+                    if stop.now(self.work.stats.n_accepted - 1, u, *l) {
                         break;
                     }
                 }
-- 
2.43.0


From 0adddaf112cd876a16eba06a033f915fc194f66e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:38:59 +0000
Subject: [PATCH 33/33] fix: keep the parameter at its target in arclength
 continuation

The corrector could go beyond the target although the predictor was short of
it, and the targeting mode stayed active after a failed attempt.
---
 russell_nonlin/src/solver_arclength.rs | 41 ++++++++++++++++++++++++++
 1 file changed, 41 insertions(+)

diff --git a/russell_nonlin/src/solver_arclength.rs b/russell_nonlin/src/solver_arclength.rs
index 36b1d6d..a634c57 100644
--- a/russell_nonlin/src/solver_arclength.rs
+++ b/russell_nonlin/src/solver_arclength.rs
@@ -699,6 +699,7 @@ impl<'a, A> SolverTrait<A> for SolverArclength<'a, A> {
         work.stats.record_iterations_residuals_start();
 
         // predictor: λ₁ = λ₀ + (2 - θ) σ · dλds₀
+        self.theta = 1.0; // normal operation
         work.l = l + (2.0 - self.theta) * work.h * work.dlds;
 
         // handle "targeting lambda" mode if needed
@@ -780,6 +781,46 @@ impl<'a, A> SolverTrait<A> for SolverArclength<'a, A> {
             work.n_iteration += 1;
         }
 
+        // recover the arclength reaching the target if the "targeting lambda" mode failed
+        if status.failure() && self.theta == 0.0 {
+            if let Some((l1, _)) = stop.lambda() {
+                work.h = (l1 - l) / work.dlds;
+            }
+        }
+
+        // redo the iterations in "targeting lambda" mode if the corrector went beyond the target
+        if status.success() && self.theta > 0.0 {
+            if let Some((l1, is_min)) = stop.lambda() {
+                if (work.l < l1 - CONFIG_H_MIN && is_min) || (work.l > l1 + CONFIG_H_MIN && !is_min) {
+                    let h_original = work.h;
+                    self.theta = 0.0;
+                    work.h = 2.0 * (l1 - l) * work.dlds;
+                    work.l = l1;
+                    vec_copy(&mut work.u, &u).unwrap();
+                    if let Some(f) = self.system.prepare_to_iterate.as_ref() {
+                        f(args);
+                    }
+                    work.err.reset(u, l);
+                    if let Some(f) = self.system.update_secondary_state.as_ref() {
+                        let do_backup = false; // already done by the predictor
+                        status = Status::from_sup(f(do_backup, &u, &work.u, l, work.l, args));
+                    }
+                    work.n_iteration = 0;
+                    while status.success() && !work.err.converged() {
+                        work.stats.n_iteration_total += 1;
+                        status = self.iterate(work, u, l, args)?;
+                        if status.success() {
+                            work.stats.record_iterations_residuals_append(work.err.residual_max);
+                            work.n_iteration += 1;
+                        }
+                    }
+                    if status.failure() {
+                        work.h = h_original;
+                    }
+                }
+            }
+        }
+
         // stop the recording of iteration errors
         work.stats.record_iterations_residuals_stop(work.err.converged());
 
-- 
2.43.0

