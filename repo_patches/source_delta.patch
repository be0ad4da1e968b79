From 6b579562b5282834c32f88183ff5136c1f5d5878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:08 +0000
Subject: [PATCH 1/5] fix: ignore trailing zero coefficients when comparing
 polynomials

---
 src/algebra/polynomial.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/algebra/polynomial.rs b/src/algebra/polynomial.rs
index 3498866..4e55ceb 100644
--- a/src/algebra/polynomial.rs
+++ b/src/algebra/polynomial.rs
@@ -12,11 +12,24 @@ let p = Polynomial::from_coefficients(vec![1, 2, 3]); // p(x) = 1 + 2*x + 3*x^2
 assert_eq!(p.eval(2), 1 + 2*2 + 3*4);
 ```
 */
-#[derive(Debug, Clone, Eq, PartialEq)]
+#[derive(Debug, Clone, Eq)]
 pub struct Polynomial<T: Ring> {
     a: Vec<T>,
 }
 
+impl<T: Ring> PartialEq for Polynomial<T> {
+    /// Compares two polynomials, where missing coefficients of high order
+    /// count as zero.
+    fn eq(&self, other: &Self) -> bool {
+        let common_len = self.a.len().min(other.a.len());
+        self.a[..common_len] == other.a[..common_len]
+            && self.a[common_len..]
+                .iter()
+                .chain(&other.a[common_len..])
+                .all(|x| *x == T::zero())
+    }
+}
+
 impl<T: Ring> Polynomial<T> {
     /// Creates a new `Polynomial` from a vector of coefficients.
     ///
-- 
2.43.0


From bddb5c55bb252831b9a4dd67c00f826a5d59924c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:33 +0000
Subject: [PATCH 2/5] fix: check dimensions in += and -= of dynamic vectors and
 matrices

---
 src/linalg/dmatrix.rs | 4 ++++
 src/linalg/dvector.rs | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/src/linalg/dmatrix.rs b/src/linalg/dmatrix.rs
index ac88116..c4b5780 100644
--- a/src/linalg/dmatrix.rs
+++ b/src/linalg/dmatrix.rs
@@ -713,6 +713,8 @@ where
     Rhs: MatrixExpr,
 {
     fn add_assign(&mut self, rhs: Rhs) {
+        assert_eq!(self.num_rows(), rhs.num_rows());
+        assert_eq!(self.num_cols(), rhs.num_cols());
         let num_cols = self.num_cols();
         for row in 0..self.num_rows() {
             for col in 0..num_cols {
@@ -756,6 +758,8 @@ where
     Rhs: MatrixExpr,
 {
     fn sub_assign(&mut self, rhs: Rhs) {
+        assert_eq!(self.num_rows(), rhs.num_rows());
+        assert_eq!(self.num_cols(), rhs.num_cols());
         let num_cols = self.num_cols();
         for row in 0..self.num_rows() {
             for col in 0..num_cols {
diff --git a/src/linalg/dvector.rs b/src/linalg/dvector.rs
index b597c57..f580816 100644
--- a/src/linalg/dvector.rs
+++ b/src/linalg/dvector.rs
@@ -597,6 +597,7 @@ where
     Rhs: VectorExpr,
 {
     fn add_assign(&mut self, rhs: Rhs) {
+        assert_eq!(self.len(), rhs.len());
         for index in 0..self.len() {
             self.0[index] += rhs.entry(index);
         }
@@ -635,6 +636,7 @@ where
     Rhs: VectorExpr,
 {
     fn sub_assign(&mut self, rhs: Rhs) {
+        assert_eq!(self.len(), rhs.len());
         for index in 0..self.len() {
             self.0[index] -= rhs.entry(index);
         }
-- 
2.43.0


From 800a176d7f8d5dc7c74f437683efcf12ba409679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:33 +0000
Subject: [PATCH 3/5] fix: check lengths in the dot product of dynamic vectors

---
 src/linalg/dvector.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/linalg/dvector.rs b/src/linalg/dvector.rs
index f580816..b5ae625 100644
--- a/src/linalg/dvector.rs
+++ b/src/linalg/dvector.rs
@@ -676,6 +676,7 @@ where
     type Output = T;
 
     fn mul(self, rhs: Self) -> T {
+        assert_eq!(self.len(), rhs.len());
         self.0
             .iter()
             .zip(rhs.0.iter())
-- 
2.43.0


From da4287a78d8ba4c52515325a2f2806df8143d7b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:33 +0000
Subject: [PATCH 4/5] fix: check row and column indices of dynamic matrices

---
 src/linalg/dmatrix.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/linalg/dmatrix.rs b/src/linalg/dmatrix.rs
index c4b5780..73aa7ed 100644
--- a/src/linalg/dmatrix.rs
+++ b/src/linalg/dmatrix.rs
@@ -527,6 +527,7 @@ where
     type Entry = T;
 
     fn entry(&self, row: usize, col: usize) -> Self::Entry {
+        assert!(row < self.num_rows && col < self.num_cols);
         self.data[row * self.num_cols + col].clone()
     }
 
@@ -550,6 +551,7 @@ where
     type Entry = T;
 
     fn entry(&self, row: usize, col: usize) -> Self::Entry {
+        assert!(row < self.num_rows && col < self.num_cols);
         self.data[row * self.num_cols + col].clone()
     }
 
@@ -653,6 +655,7 @@ impl<T> Index<[usize; 2]> for DMatrix<T> {
     type Output = T;
 
     fn index(&self, row_and_col: [usize; 2]) -> &Self::Output {
+        assert!(row_and_col[0] < self.num_rows && row_and_col[1] < self.num_cols);
         &self.data[row_and_col[0] * self.num_cols + row_and_col[1]]
     }
 }
@@ -668,6 +671,7 @@ fn test_index_dmatrix() {
 
 impl<T> IndexMut<[usize; 2]> for DMatrix<T> {
     fn index_mut(&mut self, row_and_col: [usize; 2]) -> &mut <Self as Index<[usize; 2]>>::Output {
+        assert!(row_and_col[0] < self.num_rows && row_and_col[1] < self.num_cols);
         &mut self.data[row_and_col[0] * self.num_cols + row_and_col[1]]
     }
 }
-- 
2.43.0


From d7008e0b5a2355bf6dfe65688be8de0fc2685eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:17 +0000
Subject: [PATCH 5/5] fix: polynomial subtraction by value overflowed although
 the difference fits

p - q and p -= q went through -q, which overflows (a panic, or a wrong sign
on its own) for the smallest number of a type: -1 - i32::MIN is i32::MAX. They now
subtract coefficient by coefficient, as p -= &q does.
---
 src/algebra/polynomial.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/algebra/polynomial.rs b/src/algebra/polynomial.rs
index 4e55ceb..9f390ce 100644
--- a/src/algebra/polynomial.rs
+++ b/src/algebra/polynomial.rs
@@ -175,8 +175,9 @@ fn test_add_assign_for_ref_polynomials_of_ints() {
 impl<T: Ring> std::ops::Sub for Polynomial<T> {
     type Output = Self;
 
-    fn sub(self, rhs: Self) -> Self {
-        self + -rhs
+    fn sub(mut self, rhs: Self) -> Self {
+        self -= &rhs;
+        self
     }
 }
 
@@ -190,7 +191,7 @@ fn test_sub_for_polynomials_of_int() {
 
 impl<T: Ring> std::ops::SubAssign for Polynomial<T> {
     fn sub_assign(&mut self, rhs: Self) {
-        *self += -rhs
+        *self -= &rhs
     }
 }
 
-- 
2.43.0

