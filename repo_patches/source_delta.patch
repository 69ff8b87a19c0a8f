From 9002d3890be5bf9f5508e2a456fb8b5b94abc92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:54 +0000
Subject: [PATCH 1/2] fix: read the requested row in Matrix::get_row_copy

The index of the row's last element is (row + 1) * cols - 1; the previous
expression was only right for row 0 and read other rows' elements otherwise.
---
 crates/minikalman/src/matrix/traits.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/minikalman/src/matrix/traits.rs b/crates/minikalman/src/matrix/traits.rs
index 1e0d4ce..4f9b09d 100644
--- a/crates/minikalman/src/matrix/traits.rs
+++ b/crates/minikalman/src/matrix/traits.rs
@@ -105,7 +105,7 @@ pub trait Matrix<const ROWS: usize, const COLS: usize, T = f32>:
         T: Copy,
     {
         let mut target_index: usize = (self.cols() - 1) as _;
-        let mut source_index: usize = (row + 1) * (self.cols() - 1);
+        let mut source_index: usize = (row + 1) * self.cols() - 1;
 
         let data = self.as_slice();
         row_data[idx!(target_index)] = data[idx!(source_index)];
-- 
2.43.0


From f5cd53b6987dfb7594a9c13b227a72c2e94aea51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:38 +0000
Subject: [PATCH 2/2] fix: reject a correction whose innovation covariance is
 not positive definite

The result of the Cholesky decomposition was ignored, so a singular or
indefinite S was inverted from a half-finished factorisation and silently
corrupted the state and covariance estimates (fixed-point types panicked
with a division by zero).
---
 crates/minikalman/src/observations/extended.rs | 6 +++++-
 crates/minikalman/src/observations/regular.rs  | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/crates/minikalman/src/observations/extended.rs b/crates/minikalman/src/observations/extended.rs
index 805e56e..5db9a99 100644
--- a/crates/minikalman/src/observations/extended.rs
+++ b/crates/minikalman/src/observations/extended.rs
@@ -408,7 +408,11 @@ where
         //* K = P*Hᵀ * S^-1
 
         // K = P*Hᵀ * S^-1
-        S.cholesky_decompose_lower();
+        // If S is not positive definite it cannot be inverted; the measurement carries no usable
+        // information and is rejected, leaving the state and covariance estimates untouched.
+        if !S.cholesky_decompose_lower() {
+            return;
+        }
         S.invert_l_cholesky(S_inv); // S_inv = S^-1
                                     // NOTE that to allow aliasing of Sinv and temp_PHt, a copy must be performed here
         P.mult_transb(H, temp_PHt); // temp = P*H'
diff --git a/crates/minikalman/src/observations/regular.rs b/crates/minikalman/src/observations/regular.rs
index 1f20d82..965e5bc 100644
--- a/crates/minikalman/src/observations/regular.rs
+++ b/crates/minikalman/src/observations/regular.rs
@@ -396,7 +396,11 @@ where
         //* K = P*Hᵀ * S^-1
 
         // K = P*Hᵀ * S^-1
-        S.cholesky_decompose_lower();
+        // If S is not positive definite it cannot be inverted; the measurement carries no usable
+        // information and is rejected, leaving the state and covariance estimates untouched.
+        if !S.cholesky_decompose_lower() {
+            return;
+        }
         S.invert_l_cholesky(S_inv); // S_inv = S^-1
                                     // NOTE that to allow aliasing of Sinv and temp_PHt, a copy must be performed here
         P.mult_transb(H, temp_PHt); // temp = P*H'
-- 
2.43.0

