From f1052a610ebb2bed9db7866df9452abc7bf2d5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:03 +0000
Subject: [PATCH 01/33] fix: reorder graphs that are not connected

Graph::from_edges forgot the vertices after the last one with an edge, and
reverse_cuthill_mckee indexed past its ordering once the first connected
component was exhausted, so the Cholesky solver and the eigensolver panicked
on diagonal systems and on models made of independent parts.
---
 src/matrix/graph.rs | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/matrix/graph.rs b/src/matrix/graph.rs
index ca69884..1cbc723 100644
--- a/src/matrix/graph.rs
+++ b/src/matrix/graph.rs
@@ -76,6 +76,9 @@ impl Graph {
             res.adjacent.push(y);
         }
 
+        // vertices after the last one with an edge are isolated
+        res.indices.resize(v_count, res.adjacent.len());
+
         res
     }
 
@@ -189,7 +192,13 @@ impl Graph {
         // identify a pseudoperipheral node of the graph by George and Liu's method
 
         // choose an arbitrary starting node
-        let mut x = 0;
+        self.pseudo_peripheral_from(0)
+    }
+
+    fn pseudo_peripheral_from(&mut self, root: usize) -> usize {
+        // identify a pseudoperipheral node of root's connected component
+
+        let mut x = root;
         let mut longest = 0;
 
         loop {
@@ -208,12 +217,17 @@ impl Graph {
         // find the reverse cuthill mckee labelling of the graph's nodes
 
         let mut ordering = Vec::new();
-        ordering.push(self.pseudo_peripheral());
-
         let mut mask = vec![true; self.vertex_count()];
-        mask[ordering[0]] = false;
 
         for i in 0..self.vertex_count() {
+            if i == ordering.len() {
+                // every component visited so far is complete, start on the next one
+                let root = mask.iter().position(|&unvisited| unvisited).unwrap();
+                let start = self.pseudo_peripheral_from(root);
+                mask[start] = false;
+                ordering.push(start);
+            }
+
             let adj = self.adjacent_masked(ordering[i], &mask);
 
             for a in adj {
-- 
2.43.0


From 6b33b81207b17121ff67374d1bb4b9ad808c8f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:39 +0000
Subject: [PATCH 02/33] fix: check the shape and length a ConstMatrix is built
 from

ConstMatrix::from_flat accepted a shape that does not have SIZE elements (later
reads then index past the buffer) and an empty iterator for SIZE = 1.
---
 src/matrix/buffer.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/matrix/buffer.rs b/src/matrix/buffer.rs
index 947c61b..143e498 100644
--- a/src/matrix/buffer.rs
+++ b/src/matrix/buffer.rs
@@ -658,17 +658,18 @@ impl<const SIZE: usize> MatrixLike for ConstMatrix<SIZE> {
         // turn a row-major vector of values into a matrix
         let shape: MatrixShape = shape.into();
         let dims = (shape.nrow, shape.ncol);
+        assert_eq!(dims.0 * dims.1, SIZE, "provided shape does not match size");
 
         let mut arr_data = [0.0; SIZE];
-        let mut last = 0;
+        let mut count = 0;
 
         for (i, x) in data.into_iter().enumerate() {
             assert!(i < SIZE, "provided iterator too long");
             arr_data[i] = x;
-            last = i;
+            count = i + 1;
         }
 
-        assert_eq!(last, SIZE - 1, "provided iterator too short");
+        assert_eq!(count, SIZE, "provided iterator too short");
 
         Self {
             dims,
-- 
2.43.0


From c9b71abe68e9ee51f423251bbed9c48b15dd552a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:33 +0000
Subject: [PATCH 03/33] fix: reads of an empty CompressedRow

CompressedRow::zeros had no row starts, so every in-bounds read of it panicked.
---
 src/matrix/sparse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matrix/sparse.rs b/src/matrix/sparse.rs
index 2c5cb61..955eff4 100644
--- a/src/matrix/sparse.rs
+++ b/src/matrix/sparse.rs
@@ -691,7 +691,7 @@ impl MatrixLike for CompressedRow {
             nz_count: 0,
             data: vec![],
             col_indices: vec![],
-            row_starts: vec![],
+            row_starts: vec![0; shape.0],
         }
     }
 
-- 
2.43.0


From d4d431888aa73d051610d55cf9b74155d66e4568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:33 +0000
Subject: [PATCH 04/33] fix: convert dictionaries with empty rows to BiEnvelope

The bounds of an empty row were (columns, 0), whose length underflows.
---
 src/matrix/sparse.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/matrix/sparse.rs b/src/matrix/sparse.rs
index 955eff4..4dd08a1 100644
--- a/src/matrix/sparse.rs
+++ b/src/matrix/sparse.rs
@@ -474,6 +474,13 @@ impl Dictionary {
             bnd[r].1 = bnd[r].1.max(c + 1);
         }
 
+        for (r, b) in bnd.iter_mut().enumerate() {
+            if b.0 >= b.1 {
+                // nothing is stored in this row, use an empty run
+                *b = (r, r);
+            }
+        }
+
         bnd
     }
 
-- 
2.43.0


From 8e2f4797093f9b3de4a234a150824eb30af0da63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:10 +0000
Subject: [PATCH 05/33] fix: swap the shape of a transposed Dictionary

---
 src/matrix/sparse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matrix/sparse.rs b/src/matrix/sparse.rs
index 4dd08a1..8f11823 100644
--- a/src/matrix/sparse.rs
+++ b/src/matrix/sparse.rs
@@ -527,7 +527,7 @@ impl Dictionary {
 
     pub fn transposed(&self) -> Self {
         let mut res = Self {
-            shape: self.shape,
+            shape: (self.shape.1, self.shape.0),
             data: HashMap::new(),
         };
 
-- 
2.43.0


From 0328b858e8b434bc527d9a9cd5400272fcfbc345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:36 +0000
Subject: [PATCH 06/33] fix: pivot on the largest magnitude and report singular
 systems

---
 src/matrix/inverse.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/matrix/inverse.rs b/src/matrix/inverse.rs
index 22f42b2..f24cb86 100644
--- a/src/matrix/inverse.rs
+++ b/src/matrix/inverse.rs
@@ -36,17 +36,17 @@ where
 
         // triangularize the matrix
         for col in 0..dim {
-            // find the row with the greatest value in the current column
+            // find the row with the greatest magnitude in the current column
             // (after finished rows)
             let max = self
                 .col(col)
                 .enumerate()
                 .skip(col)
-                .max_by(|(_, &x), (_, y)| x.partial_cmp(y).unwrap());
-            if max == None {
-                return Err(MatrixError::solve("no non-zero values remain in column"));
-            }
-            let (max_idx, _) = max.unwrap();
+                .max_by(|(_, x), (_, y)| x.abs().partial_cmp(&y.abs()).unwrap());
+            let max_idx = match max {
+                Some((max_idx, &x)) if x != 0.0 => max_idx,
+                _ => return Err(MatrixError::solve("no non-zero values remain in column")),
+            };
 
             self.swap_rows(col, max_idx);
             b.swap_rows(col, max_idx);
-- 
2.43.0


From ccb7de730a3854a70d7e0b0fe744e666f63ae61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:08 +0000
Subject: [PATCH 07/33] fix: pivot when inverting matrices larger than 2x2

---
 src/matrix/inverse.rs | 60 +++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 58 insertions(+), 2 deletions(-)

diff --git a/src/matrix/inverse.rs b/src/matrix/inverse.rs
index f24cb86..f2e4661 100644
--- a/src/matrix/inverse.rs
+++ b/src/matrix/inverse.rs
@@ -1,4 +1,4 @@
-use super::{dot, LowerTriangular, MatrixError, MatrixLike, UpperTriangular};
+use super::{dot, LinearMatrix, LowerTriangular, MatrixError, MatrixLike, UpperTriangular};
 
 const SMALL_NUM: f64 = 1e-100;
 
@@ -189,6 +189,62 @@ where
             return Self::from_flat((2, 2), vec![d, -1.0 * b, -1.0 * c, a]);
         }
 
-        self.inv_lu()
+        // exchange rows so that no pivot vanishes, then undo the exchange in the inverse
+        let (n, _) = self.shape();
+        let order = pivot_order(self);
+
+        let mut rows = LinearMatrix::zeros((n, n));
+        for (i, &r) in order.iter().enumerate() {
+            for c in 0..n {
+                rows[(i, c)] = self[(r, c)];
+            }
+        }
+
+        let inv_rows = rows.inv_lu();
+        let mut inv = LinearMatrix::zeros((n, n));
+        for (i, &r) in order.iter().enumerate() {
+            for row in 0..n {
+                inv[(row, r)] = inv_rows[(row, i)];
+            }
+        }
+
+        Self::from_flat((n, n), inv.flat().cloned().collect::<Vec<_>>())
+    }
+}
+
+fn pivot_order<T: MatrixLike>(mat: &T) -> Vec<usize> {
+    // find the row order partial pivoting chooses for the lu decomposition of mat
+    let (n, ncol) = mat.shape();
+    if n != ncol {
+        panic!("non-square matrix");
+    }
+
+    let mut a = LinearMatrix::from_flat((n, n), mat.flat().cloned());
+    let mut order: Vec<usize> = (0..n).collect();
+
+    for i in 0..n {
+        let mut max_i = i;
+        for k in (i + 1)..n {
+            if a[(k, i)].abs() > a[(max_i, i)].abs() {
+                max_i = k;
+            }
+        }
+
+        order.swap(i, max_i);
+        a.swap_rows(i, max_i);
+
+        if a[(i, i)] == 0.0 {
+            // nothing to eliminate in this column, the matrix is singular
+            continue;
+        }
+
+        for j in (i + 1)..n {
+            let scaling = a[(j, i)] / a[(i, i)];
+            for k in i..n {
+                a[(j, k)] -= scaling * a[(i, k)];
+            }
+        }
     }
+
+    order
 }
-- 
2.43.0


From 8226f9df9fa0fe08f025cd43e4161c45eccc35d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:45 +0000
Subject: [PATCH 08/33] fix: forward substitution no longer depends on the
 output's old contents

---
 src/matrix/sparse.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/matrix/sparse.rs b/src/matrix/sparse.rs
index 8f11823..df9be5d 100644
--- a/src/matrix/sparse.rs
+++ b/src/matrix/sparse.rs
@@ -241,9 +241,10 @@ impl LowerRowEnvelope {
         for i in 0..self.n {
             let (start_col, row_stored) = self.row_stored(i);
 
+            // x[i] has yet to be computed, leave the diagonal out
             let dot: f64 = row_stored
                 .iter()
-                .zip(start_col..)
+                .zip(start_col..i)
                 .map(|(val, col)| val * x[col])
                 .sum();
 
@@ -273,9 +274,10 @@ impl LowerRowEnvelope {
             let start_col = start_col + offset;
 
             let sub_start_col = start_col - range.0;
+            // x[sub_i] has yet to be computed, leave the diagonal out
             let dot: f64 = row_stored
                 .iter()
-                .zip(sub_start_col..)
+                .zip(sub_start_col..sub_i)
                 .map(|(val, col)| val * x[col])
                 .sum();
 
-- 
2.43.0


From f298bd3ff9df0f3ee41d2e8c2c54d7d150cdd926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:20 +0000
Subject: [PATCH 09/33] fix: let Gauss-Seidel converge to the zero solution

---
 src/matrix/solve/iterative.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matrix/solve/iterative.rs b/src/matrix/solve/iterative.rs
index 30cb4ac..52da864 100644
--- a/src/matrix/solve/iterative.rs
+++ b/src/matrix/solve/iterative.rs
@@ -82,7 +82,7 @@ pub(super) fn gauss_seidel(
 
         u = new_u;
 
-        if diff_norm / u.frobenius() <= tol {
+        if diff_norm <= tol * u.frobenius() {
             // iterations have sufficiently converged
             eprintln!("converged in {} iterations", round);
             break;
-- 
2.43.0


From fb7c16576a66153471dd2eb387e2206c5fa6dc77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:03 +0000
Subject: [PATCH 10/33] fix: isolate each eigenvalue before inverse iteration

---
 src/matrix/solve/eigen.rs | 47 +++++++++++++++++++++++++++++++++++----
 1 file changed, 43 insertions(+), 4 deletions(-)

diff --git a/src/matrix/solve/eigen.rs b/src/matrix/solve/eigen.rs
index e3a7903..4861b5d 100644
--- a/src/matrix/solve/eigen.rs
+++ b/src/matrix/solve/eigen.rs
@@ -194,9 +194,43 @@ impl DeterminantSearcher {
         d.num_neg()
     }
 
+    fn isolate(&self, r: OneEigenRange) -> OneEigenRange {
+        // narrow a range until its eigenvalue is much closer to the middle than any other one
+        // inverse iteration would otherwise converge slowly, and stop before it gets anywhere
+
+        // relative width below which neighboring eigenvalues are not told apart
+        const RESOLUTION: f64 = 1e-9;
+
+        let under = self.eigenpairs.len();
+        let OneEigenRange {
+            mut lower,
+            mut upper,
+        } = r;
+
+        while upper - lower > RESOLUTION * upper.abs() {
+            let margin = 4.0 * (upper - lower);
+
+            if self.eigenvalues_under(lower - margin) == under
+                && self.eigenvalues_under(upper + margin) == under + 1
+            {
+                break;
+            }
+
+            let mid_val = (lower + upper) / 2.0;
+
+            if self.eigenvalues_under(mid_val) > under {
+                upper = mid_val;
+            } else {
+                lower = mid_val;
+            }
+        }
+
+        OneEigenRange::new(lower, upper)
+    }
+
     fn process_one(&mut self, r: OneEigenRange) {
         // refine an eigenrange, then send it to inverse iteration and store the result
-        // TODO improve this procedure - might need to improve guess first
+        let r = self.isolate(r);
 
         // choose slice of pairs for gram-schmidt orthogonalization
         let gso = if self.eigenpairs.len() == 0 {
@@ -213,7 +247,7 @@ impl DeterminantSearcher {
         };
 
         // accept the middle of the resulting range for inverse iteration
-        let pair = inverse_iterate(&self.sys.k_mat, &self.sys.m_mat, r.mid_val(), gso);
+        let pair = inverse_iterate(&self.sys.k_mat, &self.sys.m_mat, r, gso);
 
         self.eigenpairs.push(pair);
 
@@ -313,11 +347,12 @@ impl DeterminantSearcher {
 fn inverse_iterate(
     k: &LowerRowEnvelope,
     m: &BiEnvelope,
-    shift: f64,
+    range: OneEigenRange,
     eigs: Option<&[EigenPair]>,
 ) -> EigenPair {
     // perform inverse iteration on the shifted eigenproblem
     // (K - shift * M) * v = l * M * v
+    // with the shift in the middle of the range holding the eigenvalue
 
     // if a slice of eigenpairs eigs is provided, deflate the starting vector with respect
     // to the provided eigenvectors using gram-schmidt orthogonalization
@@ -327,6 +362,9 @@ fn inverse_iterate(
     assert_eq!(k.shape(), m.shape());
     let n = k.shape().0;
 
+    let shift = range.mid_val();
+    let radius = range.upper - range.lower;
+
     // for now, clone the supplied K - maybe investigate nonallocating alternatives in the future
     let mut k = k.clone();
     k.add_scaled_bienv(m, -1.0 * shift);
@@ -367,7 +405,8 @@ fn inverse_iterate(
         let mag = dot(&x_bar, &y_bar).sqrt();
 
         if let Some(r) = old_rho {
-            if ((rho - r) / rho).abs() <= TOLERANCE {
+            // estimates far from the range are still following another eigenvector
+            if rho.abs() <= radius && ((rho - r) / rho).abs() <= TOLERANCE {
                 // ready to return, construct the final approximation
                 for i in 0..n {
                     x[i] = x_bar[i] / mag;
-- 
2.43.0


From 98f8a154dded228abe0c8353e6b47e75cd426be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:58 +0000
Subject: [PATCH 11/33] fix: scale element mass by the Jacobian

---
 src/element/element.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/element/element.rs b/src/element/element.rs
index 06ab84c..4943f0a 100644
--- a/src/element/element.rs
+++ b/src/element/element.rs
@@ -231,11 +231,11 @@ impl Element {
         let integrand = |nat_coor| {
             let mats = self.get_isopar_mats(NaturalCoor(nat_coor));
 
-            // integrand is rho * scaling * H_t * H
+            // integrand is rho * scaling * (det J) * H_t * H
             let h = mats.h;
             let mut ht = h.clone();
             ht.transpose();
-            ht *= self.material().density * mats.thickness;
+            ht *= self.material().density * mats.thickness * mats.det_j;
 
             ht.mul(&h)
         };
-- 
2.43.0


From 1c40440270ab85b74d2d0016e2212f613b4fabfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:05 +0000
Subject: [PATCH 12/33] fix: integrate elements with clockwise nodes over a
 positive area

---
 src/element/element.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/element/element.rs b/src/element/element.rs
index 4943f0a..a4c740f 100644
--- a/src/element/element.rs
+++ b/src/element/element.rs
@@ -214,7 +214,7 @@ impl Element {
             // the integrand for K is thickness * (det J) * B_t * C * B
             mats.b.transpose(); // transpose in place is cheap
             let mut inter: LinearMatrix = mats.b.mul(&c);
-            inter *= mats.det_j;
+            inter *= mats.det_j.abs(); // nodes may be listed in either direction
             inter *= mats.thickness;
             mats.b.transpose();
 
@@ -235,7 +235,7 @@ impl Element {
             let h = mats.h;
             let mut ht = h.clone();
             ht.transpose();
-            ht *= self.material().density * mats.thickness * mats.det_j;
+            ht *= self.material().density * mats.thickness * mats.det_j.abs();
 
             ht.mul(&h)
         };
-- 
2.43.0


From f1f1d75382542bd7f97596221e5c72ef830d66a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:12 +0000
Subject: [PATCH 13/33] fix: accumulate loads that meet at a node

---
 src/element/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/element/mod.rs b/src/element/mod.rs
index 2f8b276..0eda813 100644
--- a/src/element/mod.rs
+++ b/src/element/mod.rs
@@ -250,7 +250,7 @@ impl ElementAssemblage {
             // check if each node dof still exists and if so apply that part of force
             for d in 0..NODE_DIM {
                 let node_dof = NodeDof(n, d);
-                res[node_dof.to_dof().0] = f[d];
+                res[node_dof.to_dof().0] += f[d];
             }
         }
 
@@ -259,8 +259,10 @@ impl ElementAssemblage {
                 // TODO this is a bad way of locating affected elements - very slow, lots of loops
                 if el.nodes_connect(n, m) {
                     for (i, val) in el.int_f_l((n, m), f).unwrap() {
-                        res[i.to_dof().0] = val;
+                        res[i.to_dof().0] += val;
                     }
+                    // the load acts once, even on an edge shared by two elements
+                    break;
                 }
             }
         }
-- 
2.43.0


From 3286470cc27b9a71e98e28f2af3ea22d09148f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:19 +0000
Subject: [PATCH 14/33] fix: a full constraint takes effect on a partly fixed
 node

---
 src/element/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/element/mod.rs b/src/element/mod.rs
index 0eda813..d111a0a 100644
--- a/src/element/mod.rs
+++ b/src/element/mod.rs
@@ -204,6 +204,9 @@ impl ElementAssemblage {
             (Constraint::XFixed, Constraint::YFixed) | (Constraint::YFixed, Constraint::XFixed) => {
                 self.constraints[n.0] = Constraint::XYFixed;
             }
+            (_, Constraint::XYFixed) => {
+                self.constraints[n.0] = Constraint::XYFixed;
+            }
             _ => {}
         }
     }
-- 
2.43.0


From 8b86ba05fed7a78d59e94fa89628b1a2c94725aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:26 +0000
Subject: [PATCH 15/33] fix: fill the lower triangle of the Cauchy tensor

---
 src/element/stress.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/element/stress.rs b/src/element/stress.rs
index e6d0492..0035416 100644
--- a/src/element/stress.rs
+++ b/src/element/stress.rs
@@ -91,7 +91,7 @@ impl StressState {
 
         let mut res = LinearMatrix::zeros(dim);
         for r in 0..dim {
-            for c in r..dim {
+            for c in 0..dim {
                 res[(r, c)] = self.data[self.loc(r, c)];
             }
         }
-- 
2.43.0


From 071819af35ed273c492ad26d77eb4a63ca0d357a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:51 +0000
Subject: [PATCH 16/33] fix: von Mises stress of plane and bar states

---
 src/element/stress.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/element/stress.rs b/src/element/stress.rs
index 0035416..8f8652d 100644
--- a/src/element/stress.rs
+++ b/src/element/stress.rs
@@ -102,9 +102,14 @@ impl StressState {
     pub fn von_mises(&self) -> f64 {
         // compute the von mises yield criterion
         match self.state_type {
-            StressType::Bar => self.data[0],
+            StressType::Bar => self.data[0].abs(),
             StressType::Plane => {
-                ((self.data[0] - self.data[1]).powi(2) + 3.0 * self.data[2].powi(2)).sqrt()
+                // the out-of-plane normal stress is zero
+                let normals = (self.data[0] - self.data[1]).powi(2)
+                    + self.data[0].powi(2)
+                    + self.data[1].powi(2);
+                let shear = self.data[2].powi(2);
+                (0.5 * normals + 3.0 * shear).sqrt()
             }
             StressType::ThreeD => {
                 let normals = (self.data[0] - self.data[1]).powi(2)
-- 
2.43.0


From 3d6742ef1b43a95e98b56ec4587e4e2baa925915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:57 +0000
Subject: [PATCH 17/33] fix: include the out-of-plane stress of plane strain in
 von Mises

---
 src/element/element.rs |  8 +++++++-
 src/element/stress.rs  | 17 ++++++++++++++---
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/element/element.rs b/src/element/element.rs
index a4c740f..e6c92e0 100644
--- a/src/element/element.rs
+++ b/src/element/element.rs
@@ -322,7 +322,13 @@ impl Element {
             // compute CBU
             let mut st: LinearMatrix = c.mul(&mats.b);
             st = st.mul(&u);
-            res.push((nid, StressState::from_vector(st)));
+            let state = match self.condition {
+                Condition::PlaneStrain(_) => {
+                    StressState::plane_strain(st, self.material().poisson)
+                }
+                _ => StressState::from_vector(st),
+            };
+            res.push((nid, state));
         }
 
         res
diff --git a/src/element/stress.rs b/src/element/stress.rs
index 8f8652d..42a9f6f 100644
--- a/src/element/stress.rs
+++ b/src/element/stress.rs
@@ -6,6 +6,7 @@ use std::ops::{Add, Div, Mul};
 pub enum StressType {
     Bar,
     Plane,
+    PlaneStrain,
     AxiSym,
     ThreeD,
 }
@@ -33,7 +34,7 @@ impl StressState {
                 (0, 1) | (1, 0) => 2,
                 _ => panic!("invalid stress element requested ({}, {})", a, b),
             },
-            StressType::AxiSym => match (a, b) {
+            StressType::PlaneStrain | StressType::AxiSym => match (a, b) {
                 (0, 0) => 0,
                 (1, 1) => 1,
                 (0, 1) | (1, 0) => 2,
@@ -81,10 +82,20 @@ impl StressState {
         StressState { state_type, data }
     }
 
+    pub fn plane_strain(vector: LinearMatrix, poisson: f64) -> Self {
+        // a plane state with the out-of-plane normal stress that prevents out-of-plane strain
+        let mut res = Self::from_vector(vector);
+        assert_eq!(res.state_type, StressType::Plane, "invalid stress vector");
+
+        res.state_type = StressType::PlaneStrain;
+        res.data[3] = poisson * (res.data[0] + res.data[1]);
+        res
+    }
+
     pub fn to_cauchy(&self) -> LinearMatrix {
         let dim = match self.state_type {
             StressType::Bar => 1,
-            StressType::Plane => 2,
+            StressType::Plane | StressType::PlaneStrain => 2,
             StressType::ThreeD => 3,
             StressType::AxiSym => unimplemented!(),
         };
@@ -118,7 +129,7 @@ impl StressState {
                 let shears = self.data[3].powi(2) + self.data[4].powi(2) + self.data[5].powi(2);
                 (0.5 * normals + 3.0 * shears).sqrt()
             }
-            StressType::AxiSym => {
+            StressType::PlaneStrain | StressType::AxiSym => {
                 // stress is [txx tyy txy tzz]
 
                 let normals = (self.data[0] - self.data[1]).powi(2)
-- 
2.43.0


From d26c081122920082e061ca2a3b70c15d7fc2dab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:17 +0000
Subject: [PATCH 18/33] fix: hoop strain on the axis of symmetry

---
 src/element/strain.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/element/strain.rs b/src/element/strain.rs
index 5820f4b..210bd66 100644
--- a/src/element/strain.rs
+++ b/src/element/strain.rs
@@ -72,7 +72,8 @@ impl Condition {
                     b[(1, u_i_y)] = dhi_dy;
                     b[(2, u_i_x)] = dhi_dy;
                     b[(2, u_i_y)] = dhi_dx;
-                    b[(3, u_i_x)] = h_i / r;
+                    // the hoop strain tends to the radial strain on the axis
+                    b[(3, u_i_x)] = if r == 0.0 { dhi_dx } else { h_i / r };
                 }
 
                 b
-- 
2.43.0


From 3496dfff81b28dfd9bbcd9e56c77d943d921cac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:52 +0000
Subject: [PATCH 19/33] fix: reject mesh files with more after the last section

---
 src/file/bmsh.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/file/bmsh.rs b/src/file/bmsh.rs
index efd3d85..ebdae60 100644
--- a/src/file/bmsh.rs
+++ b/src/file/bmsh.rs
@@ -252,7 +252,7 @@ pub fn bmsh_to_elas(file: &str) -> Result<ElementAssemblage, FileError> {
         )),
     )(input)?;
 
-    let (_input, dist_forces): (_, Vec<(usize, usize, Point)>) = section_parse(
+    let (input, dist_forces): (_, Vec<(usize, usize, Point)>) = section_parse(
         "DistForces",
         free_list(tuple((
             terminated(map(complete::u64, |x| x as usize), tag(" ")),
@@ -263,6 +263,10 @@ pub fn bmsh_to_elas(file: &str) -> Result<ElementAssemblage, FileError> {
         ))),
     )(input)?;
 
+    if !input.is_empty() {
+        return Err(FileError::parse("parser did not consume entire file"));
+    }
+
     // done with parsing, time to assemble the output
     let mut elas = header.into_elas();
 
-- 
2.43.0


From 3063fb029daf1b8b75772af51217189e4c4ed6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:04 +0000
Subject: [PATCH 20/33] fix: keep both constraints of a corner between two
 constrained segments

---
 src/element/constraint.rs | 17 +++++++++++++++++
 src/element/mod.rs        | 22 +---------------------
 src/mesher/bounds.rs      | 19 ++++++++++++++-----
 3 files changed, 32 insertions(+), 26 deletions(-)

diff --git a/src/element/constraint.rs b/src/element/constraint.rs
index b6ae8f8..ea3e5da 100644
--- a/src/element/constraint.rs
+++ b/src/element/constraint.rs
@@ -30,6 +30,23 @@ impl Constraint {
             _ => false,
         }
     }
+
+    pub fn combined(self, other: Self) -> Self {
+        // the constraint of a node that two constraints apply to
+        match (self, other) {
+            (Constraint::Free, c) => c,
+            (Constraint::AngleFixed(a), Constraint::AngleFixed(b)) => {
+                Constraint::AngleFixed((a + b) / 2.0)
+            }
+            (Constraint::AngleFixed(_), c) => c,
+            (c, Constraint::AngleFixed(_)) => c,
+            (Constraint::XFixed, Constraint::YFixed) | (Constraint::YFixed, Constraint::XFixed) => {
+                Constraint::XYFixed
+            }
+            (_, Constraint::XYFixed) => Constraint::XYFixed,
+            (c, _) => c,
+        }
+    }
 }
 
 impl FromStr for Constraint {
diff --git a/src/element/mod.rs b/src/element/mod.rs
index d111a0a..706f377 100644
--- a/src/element/mod.rs
+++ b/src/element/mod.rs
@@ -188,27 +188,7 @@ impl ElementAssemblage {
     }
 
     pub fn add_constraint(&mut self, n: NodeId, constraint: Constraint) {
-        match (self.constraints[n.0], constraint) {
-            (Constraint::Free, c) => {
-                self.constraints[n.0] = c;
-            }
-            (Constraint::AngleFixed(a), Constraint::AngleFixed(b)) => {
-                self.constraints[n.0] = Constraint::AngleFixed((a + b) / 2.0);
-            }
-            (Constraint::AngleFixed(_), c) => {
-                self.constraints[n.0] = c;
-            }
-            (c, Constraint::AngleFixed(_)) => {
-                self.constraints[n.0] = c;
-            }
-            (Constraint::XFixed, Constraint::YFixed) | (Constraint::YFixed, Constraint::XFixed) => {
-                self.constraints[n.0] = Constraint::XYFixed;
-            }
-            (_, Constraint::XYFixed) => {
-                self.constraints[n.0] = Constraint::XYFixed;
-            }
-            _ => {}
-        }
+        self.constraints[n.0] = self.constraints[n.0].combined(constraint);
     }
 
     pub fn node_count(&self) -> usize {
diff --git a/src/mesher/bounds.rs b/src/mesher/bounds.rs
index 96abe86..e5d6fa5 100644
--- a/src/mesher/bounds.rs
+++ b/src/mesher/bounds.rs
@@ -231,6 +231,12 @@ impl PlaneBoundary {
         self.constraints.insert(v, c);
     }
 
+    fn add_constraint(&mut self, v: Vertex, c: Constraint) {
+        // constrain a vertex further, keeping what is already there
+        let old = self.constraints.get(&v).copied().unwrap_or(Constraint::Free);
+        self.constraints.insert(v, old.combined(c));
+    }
+
     pub fn store_distributed_force(&mut self, v: Vertex, w: Vertex, f: Point) {
         self.distributed_forces.insert((v, w).into(), f);
     }
@@ -406,7 +412,7 @@ impl PlaneBoundary {
 
                 // distributed constraints are just bookkeeping
                 // they mark segments where new points should have cosntraints
-                self.constraints.insert(new_point_id, c);
+                self.add_constraint(new_point_id, c);
             }
 
             cur = new_point_id;
@@ -414,8 +420,8 @@ impl PlaneBoundary {
         }
 
         if let Some(c) = dist_c {
-            self.constraints.insert(start, c);
-            self.constraints.insert(end, c);
+            self.add_constraint(start, c);
+            self.add_constraint(end, c);
         }
 
         self.store_segment_unchecked((cur, end));
@@ -497,8 +503,11 @@ impl PlaneBoundary {
         }
 
         for (s, c) in self.distributed_constraints.iter() {
-            res.insert(s.0, *c);
-            res.insert(s.1, *c); // will just overwrite any duplicates
+            // a vertex where several constraints meet keeps all of them
+            for v in [s.0, s.1] {
+                let old = res.get(&v).copied().unwrap_or(Constraint::Free);
+                res.insert(v, old.combined(*c));
+            }
         }
 
         res.into_iter().collect()
-- 
2.43.0


From 510716047091c32010e1bec927fe2270c51a4abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:40 +0000
Subject: [PATCH 21/33] fix: the last piece of a divided segment keeps its
 constraint

---
 src/mesher/bounds.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mesher/bounds.rs b/src/mesher/bounds.rs
index e5d6fa5..b330596 100644
--- a/src/mesher/bounds.rs
+++ b/src/mesher/bounds.rs
@@ -429,6 +429,10 @@ impl PlaneBoundary {
         if let Some(f) = dist_f {
             self.distributed_forces.insert((cur, end).into(), f);
         }
+
+        if let Some(c) = dist_c {
+            self.distributed_constraints.insert((cur, end).into(), c);
+        }
     }
 
     pub fn split_segment(&mut self, s: Segment) -> (Segment, Segment, Vertex) {
-- 
2.43.0


From 2985599e42a56fa280d61bd6f032c5cd63be1cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:14 +0000
Subject: [PATCH 22/33] fix: test the circumcircle relative to the tested point

---
 src/spatial/predicates.rs | 37 +++++++++----------------------------
 1 file changed, 9 insertions(+), 28 deletions(-)

diff --git a/src/spatial/predicates.rs b/src/spatial/predicates.rs
index dbe6a19..7e330c8 100644
--- a/src/spatial/predicates.rs
+++ b/src/spatial/predicates.rs
@@ -69,34 +69,15 @@ pub fn in_circle(p: Point, tri: (Point, Point, Point)) -> bool {
     // tri's points should be in counterclockwise order
     let (a, b, c) = tri;
 
-    // TODO replace with faster / more accurate 3x3 determinant
-    let mat = ConstMatrix::<16>::from_flat_array(
-        4,
-        [
-            a[0],
-            a[1],
-            a[0].powi(2) + a[1].powi(2),
-            1.0,
-            b[0],
-            b[1],
-            b[0].powi(2) + b[1].powi(2),
-            1.0,
-            c[0],
-            c[1],
-            c[0].powi(2) + c[1].powi(2),
-            1.0,
-            p[0],
-            p[1],
-            p[0].powi(2) + p[1].powi(2),
-            1.0,
-        ],
-    );
-
-    if let Ok(val) = mat.determinant() {
-        val > 0.0
-    } else {
-        false
-    }
+    // taken relative to p, as the squares would cancel badly far from the origin
+    let rel = |q: Point| {
+        let (x, y) = (q[0] - p[0], q[1] - p[1]);
+        (x, y, x * x + y * y)
+    };
+    let ((ax, ay, az), (bx, by, bz), (cx, cy, cz)) = (rel(a), rel(b), rel(c));
+
+    let det = az * (bx * cy - by * cx) + bz * (cx * ay - cy * ax) + cz * (ax * by - ay * bx);
+    det > 0.0
 }
 
 #[allow(dead_code)]
-- 
2.43.0


From b52b5bd81451981715a6b4f92df62e130b8b37d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:45 +0000
Subject: [PATCH 23/33] fix: perturb cocircular points relative to the size of
 the body

---
 src/mesher/bounds.rs | 12 ++++++++++++
 src/mesher/mod.rs    |  5 +++--
 src/mesher/plane.rs  | 15 ++++++++++++---
 3 files changed, 27 insertions(+), 5 deletions(-)

diff --git a/src/mesher/bounds.rs b/src/mesher/bounds.rs
index b330596..89b6759 100644
--- a/src/mesher/bounds.rs
+++ b/src/mesher/bounds.rs
@@ -274,6 +274,18 @@ impl PlaneBoundary {
         self.vertices.iter()
     }
 
+    pub fn size(&self) -> f64 {
+        // the larger extent of the bounding box of all vertices
+        let points = || self.vertices.iter().map(|v| -> (f64, f64) { v.get().into() });
+        let extent = |dim: fn((f64, f64)) -> f64| {
+            let max = points().map(dim).fold(f64::NEG_INFINITY, f64::max);
+            let min = points().map(dim).fold(f64::INFINITY, f64::min);
+            max - min
+        };
+
+        extent(|p| p.0).max(extent(|p| p.1))
+    }
+
     fn intersects<T: Into<Point> + Copy>(&self, p: T, q: T, ignore: Option<Segment>) -> bool {
         // determine whether the segment pq intersects an existing segment
         // if ignore is Some, ignore intersection with segments sharing vertices
diff --git a/src/mesher/mod.rs b/src/mesher/mod.rs
index 9a024bc..9292d5b 100644
--- a/src/mesher/mod.rs
+++ b/src/mesher/mod.rs
@@ -58,16 +58,17 @@ impl Vertex {
         Self(id, p)
     }
 
-    fn perturbed(self) -> Point {
+    fn perturbed(self, size: f64) -> Point {
         // apply a perturbation unique to this vertex
         // for use in avoiding cocircular edge cases in meshing
+        // size is the extent of the meshed body, which the perturbation is relative to
 
         const MAX_PERTURB: f64 = 1e-9;
 
         let mut hasher = DefaultHasher::new();
         self.hash(&mut hasher);
 
-        let perturb = (hasher.finish() as f64 / u64::MAX as f64) * MAX_PERTURB;
+        let perturb = (hasher.finish() as f64 / u64::MAX as f64) * MAX_PERTURB * size;
 
         let (x, y) = self.1.into();
         (x + perturb, y + perturb).into()
diff --git a/src/mesher/plane.rs b/src/mesher/plane.rs
index 9dc98a5..2cfaa20 100644
--- a/src/mesher/plane.rs
+++ b/src/mesher/plane.rs
@@ -23,8 +23,12 @@ impl Triangle {
         (self.0.get(), self.1.get(), self.2.get())
     }
 
-    fn perturbed(self) -> (Point, Point, Point) {
-        (self.0.perturbed(), self.1.perturbed(), self.2.perturbed())
+    fn perturbed(self, size: f64) -> (Point, Point, Point) {
+        (
+            self.0.perturbed(size),
+            self.1.perturbed(size),
+            self.2.perturbed(size),
+        )
     }
 
     fn edges(self) -> [Edge; 3] {
@@ -102,6 +106,9 @@ pub struct PlaneTriangulation {
 
     // record of coappearing vertices in recently added triangles
     recents: HashMap<Vertex, Vertex>,
+
+    // extent of the body being triangulated
+    size: f64,
 }
 
 impl PlaneTriangulation {
@@ -113,6 +120,7 @@ impl PlaneTriangulation {
             tris: HashMap::new(),
             full_tris: HashMap::new(),
             recents: HashMap::new(),
+            size: 1.0,
         }
     }
 
@@ -130,7 +138,7 @@ impl PlaneTriangulation {
         // determine whether x lies in the oriented triangle tri's circumcircle
         // perturb determines whether or not to perturb the inputs (which helps avoid chew edge cases)
         let (x, tri) = if perturb {
-            (x.perturbed(), tri.into().perturbed())
+            (x.perturbed(self.size), tri.into().perturbed(self.size))
         } else {
             (x.get(), tri.into().get())
         };
@@ -341,6 +349,7 @@ impl PlaneTriangulation {
         // gift-wrap the triangulation from scratch
         self.tris.clear();
         self.recents.clear();
+        self.size = self.bound.size();
 
         let mut to_finish: HashSet<Edge> = self.bound.all_walls().map(Into::into).collect();
 
-- 
2.43.0


From d64764730592941ec61fbdb26dcdf543cab90202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:11 +0000
Subject: [PATCH 24/33] fix: judge visibility relative to the length of the
 wall

---
 src/mesher/bounds.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mesher/bounds.rs b/src/mesher/bounds.rs
index 89b6759..954529f 100644
--- a/src/mesher/bounds.rs
+++ b/src/mesher/bounds.rs
@@ -311,7 +311,7 @@ impl PlaneBoundary {
 
     pub fn midpoint_visible(&self, s: Segment, x: Vertex) -> bool {
         // determine whether the midpoint of s is visible from v
-        const TOLERANCE: f64 = 1e-6;
+        const TOLERANCE: f64 = 1e-6; // relative to the length of the wall
 
         let (p, q) = s.get();
         let m = p.mid(q); // midpoint
@@ -326,7 +326,8 @@ impl PlaneBoundary {
             let ab = spacemath::two::Segment::new(a, b);
             let mx = spacemath::two::Segment::new(m, x);
             if ab.intersects(&mx).is_nonzero() {
-                if !((ab.dist(m) < TOLERANCE) || (ab.dist(x) < TOLERANCE)) {
+                let tolerance = TOLERANCE * a.dist(b);
+                if !((ab.dist(m) < tolerance) || (ab.dist(x) < tolerance)) {
                     // if they intersect and neither m nor x lie on ab
                     return false;
                 }
-- 
2.43.0


From e45c02582f91943c3923e60ab1822194c210b113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:52 +0000
Subject: [PATCH 25/33] fix: vertices behind a segment do not encroach on it

---
 src/mesher/plane.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/mesher/plane.rs b/src/mesher/plane.rs
index 2cfaa20..96c2113 100644
--- a/src/mesher/plane.rs
+++ b/src/mesher/plane.rs
@@ -420,8 +420,9 @@ impl PlaneTriangulation {
     }
 
     // maybe move some of these methods to bounds
-    fn ruppert_encroaches(&self, p: Vertex, s: Segment) -> bool {
+    fn ruppert_encroaches(&self, p: Vertex, s: Segment, trial: bool) -> bool {
         // check if s is encroached by p by the rules of ruppert meshing
+        // the trial flag is set for points which are not (yet) part of the mesh
         // putting the visibility check (expensive) after the distance check (cheap)
         // made this way faster, if still too slow implement better visibility check
 
@@ -429,6 +430,11 @@ impl PlaneTriangulation {
             return false; // a segment is not encroached by its own end points
         }
 
+        if !trial && !self.to_left(s, p) {
+            // vertices behind a segment see it through the outside of the body
+            return false;
+        }
+
         // check if p is in the diametral circle
         let (a, b) = (s.0.get(), s.1.get());
         let mid = a.mid(b);
@@ -476,10 +482,10 @@ impl PlaneTriangulation {
             let (child_a, child_b, new_v) = self.ruppert_split_segment(s);
 
             if recursive {
-                if self.ruppert_encroaches(p, child_a) {
+                if self.ruppert_encroaches(p, child_a, false) {
                     to_split.push(child_a);
                 }
-                if self.ruppert_encroaches(p, child_b) {
+                if self.ruppert_encroaches(p, child_b, false) {
                     to_split.push(child_b);
                 }
             }
@@ -490,13 +496,13 @@ impl PlaneTriangulation {
         res
     }
 
-    fn segments_encroached_by(&self, p: Vertex) -> Option<Vec<Segment>> {
+    fn segments_encroached_by(&self, p: Vertex, trial: bool) -> Option<Vec<Segment>> {
         // find segments which would be encroached by the addition of a trial point
         // returns None if the vector would otherwise be empty
         let segs: Vec<Segment> = self
             .bound
             .all_walls()
-            .filter(|&s| self.ruppert_encroaches(p, s))
+            .filter(|&s| self.ruppert_encroaches(p, s, trial))
             .collect();
         if segs.is_empty() {
             None
@@ -517,7 +523,7 @@ impl PlaneTriangulation {
         let ti = Instant::now();
         let mut to_check: Vec<Vertex> = self.bound.all_vertices().copied().collect();
         while let Some(v) = to_check.pop() {
-            if let Some(segs) = self.segments_encroached_by(v) {
+            if let Some(segs) = self.segments_encroached_by(v, false) {
                 let new_vs = self.ruppert_split_many(v, segs, true);
                 to_check.extend(new_vs);
             }
@@ -532,7 +538,7 @@ impl PlaneTriangulation {
             let center = self.circumcenter(tri).unwrap(); // todo get rid of wrapping method
             let center = Vertex::new(center); // ok to do this outside of storage
 
-            if let Some(segs) = self.segments_encroached_by(center) {
+            if let Some(segs) = self.segments_encroached_by(center, true) {
                 self.ruppert_split_many(center, segs, false);
             } else {
                 let center_id = self.store_vertex(center.get()); // this'll spin a new id, but that doesn't matter
-- 
2.43.0


From a4bc815c41c709ae1c1692b4c34464156d8e4ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:40 +0000
Subject: [PATCH 26/33] fix: gift-wrapping from scratch also clears the stored
 triangles

---
 src/mesher/plane.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mesher/plane.rs b/src/mesher/plane.rs
index 96c2113..06f49c2 100644
--- a/src/mesher/plane.rs
+++ b/src/mesher/plane.rs
@@ -348,6 +348,7 @@ impl PlaneTriangulation {
     pub fn gift_wrap(&mut self) {
         // gift-wrap the triangulation from scratch
         self.tris.clear();
+        self.full_tris.clear();
         self.recents.clear();
         self.size = self.bound.size();
 
-- 
2.43.0


From dc747f18a61253402a6b60d9099d2ea39134be5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:27 +0000
Subject: [PATCH 27/33] hook: expose the private geometry under cfg(bugi_verif)

---
 src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 04a3ec1..7fde87d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -12,3 +12,9 @@ mod tests {
         assert_eq!(2 + 2, 4);
     }
 }
+
+// the private geometry, for verification builds only
+#[cfg(bugi_verif)]
+pub mod verif {
+    pub use crate::spatial::*;
+}
-- 
2.43.0


From 17d4e52c453e0a89654c831d0ec934c3c29b0892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:27 +0000
Subject: [PATCH 28/33] fix: draw equal node values in a colour of the map
 instead of dividing zero by zero

---
 src/visual/mod.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/visual/mod.rs b/src/visual/mod.rs
index 7e498bd..cc008ec 100644
--- a/src/visual/mod.rs
+++ b/src/visual/mod.rs
@@ -93,8 +93,14 @@ impl Visualizer {
 
         let range = max - min;
 
-        vals.iter_mut()
-            .for_each(|x| *x = ((*x - min) / range).clamp(0.0, 1.0));
+        vals.iter_mut().for_each(|x| {
+            *x = if range > 0.0 {
+                ((*x - min) / range).clamp(0.0, 1.0)
+            } else {
+                // all values are equal
+                0.0
+            }
+        });
         self.node_vals = Some(vals);
     }
 
-- 
2.43.0


From e0ef64685ec154e51b1697293232f09e31dc0821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:27 +0000
Subject: [PATCH 29/33] fix: keep points on a triangle's edge inside it despite
 rounding

---
 src/spatial/predicates.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/spatial/predicates.rs b/src/spatial/predicates.rs
index 7e330c8..e31e291 100644
--- a/src/spatial/predicates.rs
+++ b/src/spatial/predicates.rs
@@ -53,7 +53,8 @@ pub fn bary_coor(p: Point, tri: (Point, Point, Point)) -> (f64, f64, f64) {
     let denom = (y2 - y3) * (x1 - x3) + (x3 - x2) * (y1 - y3);
     let a = ((y2 - y3) * (x - x3) + (x3 - x2) * (y - y3)) / denom;
     let b = ((y3 - y1) * (x - x3) + (x1 - x3) * (y - y3)) / denom;
-    let c = 1.0 - a - b;
+    // not 1 - a - b, which would round points on an edge out of the triangle
+    let c = ((y1 - y2) * (x - x1) + (x2 - x1) * (y - y1)) / denom;
     (a, b, c)
 }
 
-- 
2.43.0


From 5166a80e7cb4e179a63660f80f4da1a394d0b798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:27 +0000
Subject: [PATCH 30/33] fix: use the third coordinate in the in-sphere
 predicate

---
 src/spatial/predicates.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/spatial/predicates.rs b/src/spatial/predicates.rs
index e31e291..8a7288f 100644
--- a/src/spatial/predicates.rs
+++ b/src/spatial/predicates.rs
@@ -93,27 +93,27 @@ pub fn in_sphere(p: Point, tet: (Point, Point, Point, Point)) -> bool {
             a[0],
             a[1],
             a[2],
-            a[0].powi(2) + a[1].powi(2) + a[1].powi(2),
+            a[0].powi(2) + a[1].powi(2) + a[2].powi(2),
             1.0,
             b[0],
             b[1],
             b[2],
-            b[0].powi(2) + b[1].powi(2) + b[1].powi(2),
+            b[0].powi(2) + b[1].powi(2) + b[2].powi(2),
             1.0,
             c[0],
             c[1],
             c[2],
-            c[0].powi(2) + c[1].powi(2) + c[1].powi(2),
+            c[0].powi(2) + c[1].powi(2) + c[2].powi(2),
             1.0,
             d[0],
             d[1],
             d[2],
-            d[0].powi(2) + d[1].powi(2) + d[1].powi(2),
+            d[0].powi(2) + d[1].powi(2) + d[2].powi(2),
             1.0,
             p[0],
             p[1],
             p[2],
-            p[0].powi(2) + p[1].powi(2) + p[1].powi(2),
+            p[0].powi(2) + p[1].powi(2) + p[2].powi(2),
             1.0,
         ],
     );
-- 
2.43.0


From cfc0210ebb42feed45e000c45539486dd6f3f723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:12 +0000
Subject: [PATCH 31/33] fix: give flat tetrahedra no direction despite rounding

---
 src/spatial/predicates.rs | 32 ++++++++++----------------------
 1 file changed, 10 insertions(+), 22 deletions(-)

diff --git a/src/spatial/predicates.rs b/src/spatial/predicates.rs
index 8a7288f..919de40 100644
--- a/src/spatial/predicates.rs
+++ b/src/spatial/predicates.rs
@@ -16,29 +16,17 @@ pub fn tetrahedron_dir(tet: (Point, Point, Point, Point)) -> Orient {
     // return the orientation of a tetrahedron
     let (a, b, c, d) = tet;
 
-    let mat = ConstMatrix::<16>::from_flat_array(
-        4,
-        [
-            a[0], a[1], a[2], 1.0, b[0], b[1], b[2], 1.0, c[0], c[1], c[2], 1.0, d[0], d[1], d[2],
-            1.0,
-        ],
-    );
+    // taken relative to d, as elimination would give flat tetrahedra a direction by rounding
+    let rel = |q: Point| (q[0] - d[0], q[1] - d[1], q[2] - d[2]);
+    let ((ax, ay, az), (bx, by, bz), (cx, cy, cz)) = (rel(a), rel(b), rel(c));
 
-    match mat.determinant() {
-        Ok(val) => {
-            if val == 0.0 {
-                Orient::Zero
-            } else if val > 0.0 {
-                Orient::Positive
-            } else {
-                Orient::Negative
-            }
-        }
-        Err(_) => {
-            // error in determinant() implies det = 0
-            // TODO handle various error types
-            Orient::Zero
-        }
+    let det = ax * (by * cz - bz * cy) + ay * (bz * cx - bx * cz) + az * (bx * cy - by * cx);
+    if det > 0.0 {
+        Orient::Positive
+    } else if det < 0.0 {
+        Orient::Negative
+    } else {
+        Orient::Zero
     }
 }
 
-- 
2.43.0


From e869a4ff93b375d35086743c8f6c0ada09c4a7e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:42 +0000
Subject: [PATCH 32/33] fix: draw very small images without reaching outside
 them or dropping their first row and column

---
 src/visual/bresenham.rs |  2 +-
 src/visual/fill.rs      |  4 ++--
 src/visual/mod.rs       | 16 ++++++++++++----
 3 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/visual/bresenham.rs b/src/visual/bresenham.rs
index 626cc60..e64e481 100644
--- a/src/visual/bresenham.rs
+++ b/src/visual/bresenham.rs
@@ -4,7 +4,7 @@ pub fn line_unsigned(orig: &(u32, u32), end: &(u32, u32)) -> Vec<(u32, u32)> {
 
     line(orig, end)
         .into_iter()
-        .filter(|(x, y)| x > &0 && y > &0)
+        .filter(|(x, y)| x >= &0 && y >= &0)
         .map(|(x, y)| (x as u32, y as u32))
         .collect()
 }
diff --git a/src/visual/fill.rs b/src/visual/fill.rs
index d85ba53..e461e55 100644
--- a/src/visual/fill.rs
+++ b/src/visual/fill.rs
@@ -6,8 +6,8 @@ pub fn dot_points(center_x: u32, center_y: u32) -> Vec<(u32, u32)> {
     // just a boring ol' square, might change to a more circular thing
     // TODO maybe handle *edge* cases better haha get it
     let mut res = Vec::new();
-    for x in (center_x - DOT_SIZE)..=(center_x + DOT_SIZE) {
-        for y in (center_y - DOT_SIZE)..=(center_y + DOT_SIZE) {
+    for x in center_x.saturating_sub(DOT_SIZE)..=(center_x + DOT_SIZE) {
+        for y in center_y.saturating_sub(DOT_SIZE)..=(center_y + DOT_SIZE) {
             res.push((x, y));
         }
     }
diff --git a/src/visual/mod.rs b/src/visual/mod.rs
index cc008ec..05e606d 100644
--- a/src/visual/mod.rs
+++ b/src/visual/mod.rs
@@ -180,6 +180,14 @@ impl Visualizer {
         let pix_points = self.enpixel();
         let mut img = RgbImage::from_pixel(self.im_size, self.im_size, color::BACK);
 
+        // in a very small image, marks at the border of the model reach past the image
+        let size = self.im_size;
+        let put = |img: &mut RgbImage, x: u32, y: u32, c: Rgb<u8>| {
+            if x < size && y < size {
+                img.put_pixel(x, y, c)
+            }
+        };
+
         // draw triangles if present
         if let (Some(triangles), Some(node_vals)) = (self.triangles.clone(), self.node_vals.clone())
         {
@@ -191,9 +199,9 @@ impl Visualizer {
 
                 for (loc, v) in to_draw.into_iter() {
                     if let Some(cm) = options.color_map.as_ref() {
-                        img.put_pixel(loc.0, loc.1, cm(v));
+                        put(&mut img, loc.0, loc.1, cm(v));
                     } else {
-                        img.put_pixel(loc.0, loc.1, color::hot_map(v));
+                        put(&mut img, loc.0, loc.1, color::hot_map(v));
                     }
                 }
             }
@@ -208,7 +216,7 @@ impl Visualizer {
                     if let (Some(o), Some(e)) = (orig, end) {
                         let to_draw = bresenham::line_unsigned(o, e);
                         for d in to_draw {
-                            img.put_pixel(d.0, d.1, Rgb([0, 255, 0]))
+                            put(&mut img, d.0, d.1, Rgb([0, 255, 0]))
                         }
                     }
                 }
@@ -218,7 +226,7 @@ impl Visualizer {
             for ((x, y), c) in pix_points.into_iter().zip(self.colors.iter()) {
                 let to_draw = fill::dot_points(x, y);
                 for (i, j) in to_draw.into_iter() {
-                    img.put_pixel(i, j, color::STDCOL[*c]);
+                    put(&mut img, i, j, color::STDCOL[*c]);
                 }
             }
         }
-- 
2.43.0


From 721a651964480d0259a2bbc4c01f80087221b107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:14 +0000
Subject: [PATCH 33/33] fix: a free constraint leaves an angled one in place

---
 src/element/constraint.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/element/constraint.rs b/src/element/constraint.rs
index ea3e5da..a3ee30e 100644
--- a/src/element/constraint.rs
+++ b/src/element/constraint.rs
@@ -34,7 +34,7 @@ impl Constraint {
     pub fn combined(self, other: Self) -> Self {
         // the constraint of a node that two constraints apply to
         match (self, other) {
-            (Constraint::Free, c) => c,
+            (Constraint::Free, c) | (c, Constraint::Free) => c,
             (Constraint::AngleFixed(a), Constraint::AngleFixed(b)) => {
                 Constraint::AngleFixed((a + b) / 2.0)
             }
-- 
2.43.0

