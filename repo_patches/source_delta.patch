From 4cf0413e3584db5f557b7796c090dff85c45d5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:37 +0000
Subject: [PATCH 01/44] fix: rotmg: do not overwrite H when it is rescaled more
 than once

---
 include/tlapack/blas/rotmg.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tlapack/blas/rotmg.hpp b/include/tlapack/blas/rotmg.hpp
index 5c760ce..e9aaf86 100644
--- a/include/tlapack/blas/rotmg.hpp
+++ b/include/tlapack/blas/rotmg.hpp
@@ -161,7 +161,7 @@ int rotmg(T& d1, T& d2, T& a, const T& b, T h[4])
                         h[3] = one;
                         flag = -1;
                     }
-                    else {
+                    else if (flag == 1) {
                         h[1] = -one;
                         h[2] = one;
                         flag = -1;
@@ -188,7 +188,7 @@ int rotmg(T& d1, T& d2, T& a, const T& b, T h[4])
                         h[3] = one;
                         flag = -1;
                     }
-                    else {
+                    else if (flag == 1) {
                         h[1] = -one;
                         h[2] = one;
                         flag = -1;
-- 
2.43.0


From 44bb6ca83dda43aa50f6e5c9acfedef00769ffd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:55 +0000
Subject: [PATCH 02/44] fix: blocked Cholesky: report the order of the failing
 minor in the whole matrix

---
 include/tlapack/lapack/potrf_blocked.hpp               | 5 +++--
 include/tlapack/lapack/potrf_blocked_right_looking.hpp | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/tlapack/lapack/potrf_blocked.hpp b/include/tlapack/lapack/potrf_blocked.hpp
index 376cd53..cee8c0b 100644
--- a/include/tlapack/lapack/potrf_blocked.hpp
+++ b/include/tlapack/lapack/potrf_blocked.hpp
@@ -16,6 +16,7 @@
 #include "tlapack/blas/herk.hpp"
 #include "tlapack/blas/trsm.hpp"
 #include "tlapack/lapack/potf2.hpp"
+#include "tlapack/lapack/potrf2.hpp"
 
 namespace tlapack {
 
@@ -98,7 +99,7 @@ int potrf_blocked(uplo_t uplo, matrix_t& A, const BlockedCholeskyOpts& opts)
 
                 herk(UPPER_TRIANGLE, CONJ_TRANS, -one, A1J, one, AJJ);
 
-                int info = potf2(UPPER_TRIANGLE, AJJ);
+                int info = potrf2(UPPER_TRIANGLE, AJJ, NO_ERROR_CHECK);
                 if (info != 0) {
                     tlapack_error(
                         info + j,
@@ -130,7 +131,7 @@ int potrf_blocked(uplo_t uplo, matrix_t& A, const BlockedCholeskyOpts& opts)
 
                 herk(LOWER_TRIANGLE, NO_TRANS, -one, AJ1, one, AJJ);
 
-                int info = potf2(LOWER_TRIANGLE, AJJ);
+                int info = potrf2(LOWER_TRIANGLE, AJJ, NO_ERROR_CHECK);
                 if (info != 0) {
                     tlapack_error(
                         info + j,
diff --git a/include/tlapack/lapack/potrf_blocked_right_looking.hpp b/include/tlapack/lapack/potrf_blocked_right_looking.hpp
index 12a5921..4c89b48 100644
--- a/include/tlapack/lapack/potrf_blocked_right_looking.hpp
+++ b/include/tlapack/lapack/potrf_blocked_right_looking.hpp
@@ -16,6 +16,7 @@
 #include "tlapack/blas/herk.hpp"
 #include "tlapack/blas/trsm.hpp"
 #include "tlapack/lapack/potf2.hpp"
+#include "tlapack/lapack/potrf2.hpp"
 #include "tlapack/lapack/potrf_blocked.hpp"
 
 namespace tlapack {
@@ -90,7 +91,7 @@ int potrf_rl(uplo_t uplo, matrix_t& A, const BlockedCholeskyOpts& opts = {})
                 // Define AJJ
                 auto AJJ = slice(A, range{j, j + jb}, range{j, j + jb});
 
-                int info = potf2(UPPER_TRIANGLE, AJJ);
+                int info = potrf2(UPPER_TRIANGLE, AJJ, NO_ERROR_CHECK);
                 if (info != 0) {
                     tlapack_error(
                         info + j,
@@ -117,7 +118,7 @@ int potrf_rl(uplo_t uplo, matrix_t& A, const BlockedCholeskyOpts& opts = {})
                 // Define AJJ
                 auto AJJ = slice(A, range{j, j + jb}, range{j, j + jb});
 
-                int info = potf2(LOWER_TRIANGLE, AJJ);
+                int info = potrf2(LOWER_TRIANGLE, AJJ, NO_ERROR_CHECK);
                 if (info != 0) {
                     tlapack_error(
                         info + j,
-- 
2.43.0


From 5f287aa6992e66033b6d6432b47a886460c925bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:43 +0000
Subject: [PATCH 03/44] fix: pbtrf_with_workspace: blocks wider than the band
 addressed entries outside it

---
 .../tlapack/lapack/pbtrf_with_workspace.hpp   | 27 ++++++++++++-------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/include/tlapack/lapack/pbtrf_with_workspace.hpp b/include/tlapack/lapack/pbtrf_with_workspace.hpp
index 07a0c00..227bfbd 100644
--- a/include/tlapack/lapack/pbtrf_with_workspace.hpp
+++ b/include/tlapack/lapack/pbtrf_with_workspace.hpp
@@ -67,7 +67,8 @@ void pbtrf_with_workspace(uplo_t uplo,
 
     tlapack::Create<matrix_t> new_matrix;
 
-    const idx_t nb = opts.nb;
+    // A block must fit in the band
+    const idx_t nb = max<idx_t>(1, min<idx_t>(opts.nb, kd));
 
     idx_t n = nrows(A);
 
@@ -86,10 +87,14 @@ void pbtrf_with_workspace(uplo_t uplo,
             potrf(uplo, A00);
 
             if (i + ib < n) {
-                // i2 = min(kd - ib, n - i - ib)
-                idx_t i2 = (kd + i < n) ? kd - ib : n - i - ib;
-                // i3 = min(ib, n-i-kd)
-                idx_t i3 = (n > i + kd) ? min<idx_t>(ib, n - i - kd) : 0;
+                // i2 = min(kd - ib, n - i - ib), 0 for a diagonal matrix
+                idx_t i2 = (kd == 0)      ? 0
+                           : (kd + i < n) ? kd - ib
+                                          : n - i - ib;
+                // i3 = min(ib, n-i-kd), 0 for a diagonal matrix
+                idx_t i3 = (kd > 0 && n > i + kd)
+                               ? min<idx_t>(ib, n - i - kd)
+                               : 0;
 
                 if (i2 > 0) {
                     auto A01 = slice(A, range(i, ib + i),
@@ -159,10 +164,14 @@ void pbtrf_with_workspace(uplo_t uplo,
             potf2(tlapack::Uplo::Lower, A00);
 
             if (i + ib <= n) {
-                // i2 = min(kd - ib, n - i - ib)
-                idx_t i2 = (kd + i < n) ? kd - ib : n - i - ib;
-                // i3 = min(ib, n-i-kd)
-                idx_t i3 = (n > i + kd) ? min<idx_t>(ib, n - i - kd) : 0;
+                // i2 = min(kd - ib, n - i - ib), 0 for a diagonal matrix
+                idx_t i2 = (kd == 0)      ? 0
+                           : (kd + i < n) ? kd - ib
+                                          : n - i - ib;
+                // i3 = min(ib, n-i-kd), 0 for a diagonal matrix
+                idx_t i3 = (kd > 0 && n > i + kd)
+                               ? min<idx_t>(ib, n - i - kd)
+                               : 0;
 
                 if (i2 > 0) {
                     auto A10 =
-- 
2.43.0


From fb5569ea0252742f704062796defd560a8883fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:10 +0000
Subject: [PATCH 04/44] fix: trtri_recursive: report the index of the zero
 diagonal entry in the whole matrix

---
 include/tlapack/lapack/trtri_recursive.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/tlapack/lapack/trtri_recursive.hpp b/include/tlapack/lapack/trtri_recursive.hpp
index 33cc52a..fa34d8b 100644
--- a/include/tlapack/lapack/trtri_recursive.hpp
+++ b/include/tlapack/lapack/trtri_recursive.hpp
@@ -93,7 +93,8 @@ int trtri_recursive(uplo_t uplo,
 
             trsm(RIGHT_SIDE, LOWER_TRIANGLE, NO_TRANS, diag, T(-1), C00, C10);
             trsm(LEFT_SIDE, LOWER_TRIANGLE, NO_TRANS, diag, T(+1), C11, C10);
-            int info = trtri_recursive(LOWER_TRIANGLE, diag, C00, opts);
+            int info =
+                trtri_recursive(LOWER_TRIANGLE, diag, C00, NO_ERROR_CHECK);
 
             if (info != 0) {
                 tlapack_error_if(opts.ec.internal, info,
@@ -101,7 +102,7 @@ int trtri_recursive(uplo_t uplo,
                                  "matrix is exactly zero.");
                 return info;
             }
-            info = trtri_recursive(LOWER_TRIANGLE, diag, C11, opts);
+            info = trtri_recursive(LOWER_TRIANGLE, diag, C11, NO_ERROR_CHECK);
             if (info == 0)
                 return 0;
             else {
@@ -126,14 +127,15 @@ int trtri_recursive(uplo_t uplo,
 
             trsm(LEFT_SIDE, UPPER_TRIANGLE, NO_TRANS, diag, T(-1), C00, C01);
             trsm(RIGHT_SIDE, UPPER_TRIANGLE, NO_TRANS, diag, T(+1), C11, C01);
-            int info = trtri_recursive(UPPER_TRIANGLE, diag, C00, opts);
+            int info =
+                trtri_recursive(UPPER_TRIANGLE, diag, C00, NO_ERROR_CHECK);
             if (info != 0) {
                 tlapack_error_if(opts.ec.internal, info,
                                  "A diagonal of entry of triangular "
                                  "matrix is exactly zero.");
                 return info;
             }
-            info = trtri_recursive(UPPER_TRIANGLE, diag, C11, opts);
+            info = trtri_recursive(UPPER_TRIANGLE, diag, C11, NO_ERROR_CHECK);
             if (info == 0)
                 return 0;
             else {
-- 
2.43.0


From ef2bedeaf70fba26bf4f98988a060a96aac23713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:10 +0000
Subject: [PATCH 05/44] fix: ul_mult: stop the recursion on an empty matrix

---
 include/tlapack/lapack/ul_mult.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tlapack/lapack/ul_mult.hpp b/include/tlapack/lapack/ul_mult.hpp
index f9ba976..d652105 100644
--- a/include/tlapack/lapack/ul_mult.hpp
+++ b/include/tlapack/lapack/ul_mult.hpp
@@ -44,7 +44,7 @@ int ul_mult(matrix_t& A)
     const idx_t n = ncols(A);
 
     // if L and U are 1-by-1, then L is 1 and we simply UL=A(0,0)
-    if (n == 1) return 0;
+    if (n <= 1) return 0;
 
     // if n>1
     idx_t n0 = n / 2;
-- 
2.43.0


From c644d9a1197fcd18bfbc303bd330962e93292f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:10 +0000
Subject: [PATCH 06/44] fix: getri_uxli: empty matrix asked for a workspace of
 size -1

---
 include/tlapack/lapack/getri_uxli.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/tlapack/lapack/getri_uxli.hpp b/include/tlapack/lapack/getri_uxli.hpp
index e778b59..3e4d729 100644
--- a/include/tlapack/lapack/getri_uxli.hpp
+++ b/include/tlapack/lapack/getri_uxli.hpp
@@ -29,7 +29,7 @@ template <class T, TLAPACK_SMATRIX matrix_t>
 constexpr WorkInfo getri_uxli_worksize(const matrix_t& A)
 {
     if constexpr (is_same_v<T, type_t<matrix_t>>)
-        return WorkInfo(ncols(A) - 1);
+        return (ncols(A) > 0) ? WorkInfo(ncols(A) - 1) : WorkInfo(0);
     else
         return WorkInfo(0);
 }
@@ -55,6 +55,9 @@ int getri_uxli_work(matrix_t& A, work_t& work)
     // check arguments
     tlapack_check(nrows(A) == n);
 
+    // Quick return
+    if (n <= 0) return 0;
+
     // Vector W
     auto [W, work2] = reshape(work, n - 1);
 
-- 
2.43.0


From 6acee1bd5f44e29495040739d34fa03b5449e0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:10 +0000
Subject: [PATCH 07/44] fix: getri_worksize: call the workspace query of
 getri_uxli that exists

---
 include/tlapack/lapack/getri.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tlapack/lapack/getri.hpp b/include/tlapack/lapack/getri.hpp
index 3696427..ccd0b2b 100644
--- a/include/tlapack/lapack/getri.hpp
+++ b/include/tlapack/lapack/getri.hpp
@@ -49,7 +49,7 @@ constexpr WorkInfo getri_worksize(const matrix_t& A,
                                   const GetriOpts& opts = {})
 {
     if (opts.variant == GetriVariant::UXLI)
-        return getri_uxli_worksize<T>(A, opts);
+        return getri_uxli_worksize<T>(A);
 
     return WorkInfo(0);
 }
-- 
2.43.0


From 75adfd0058a6d90905da2abdca586782337d8ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:10 +0000
Subject: [PATCH 08/44] fix: larf: check the size of x, not the parity of the
 side

---
 include/tlapack/lapack/larf.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tlapack/lapack/larf.hpp b/include/tlapack/lapack/larf.hpp
index 49426ec..a2fe9cf 100644
--- a/include/tlapack/lapack/larf.hpp
+++ b/include/tlapack/lapack/larf.hpp
@@ -68,7 +68,7 @@ void larf_work(side_t side,
     tlapack_check(side == Side::Left || side == Side::Right);
     tlapack_check(storeMode == StoreV::Columnwise ||
                   storeMode == StoreV::Rowwise);
-    tlapack_check((idx_t)size(x) == (side == Side::Left) ? m : n);
+    tlapack_check((idx_t)size(x) == ((side == Side::Left) ? m : n));
 
     // Quick return if possible
     if (m == 0 || n == 0) {
@@ -282,7 +282,7 @@ void larf(side_t side,
     tlapack_check(side == Side::Left || side == Side::Right);
     tlapack_check(storeMode == StoreV::Columnwise ||
                   storeMode == StoreV::Rowwise);
-    tlapack_check((idx_t)size(x) == (side == Side::Left) ? m : n);
+    tlapack_check((idx_t)size(x) == ((side == Side::Left) ? m : n));
 
     // Quick return if possible
     if (m == 0 || n == 0) {
-- 
2.43.0


From e555a62f6910972ba32618d7fa7b8e2e5816958b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:42 +0000
Subject: [PATCH 09/44] fix: mult_hehe: empty matrices were accessed

---
 include/tlapack/lapack/mult_hehe.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/tlapack/lapack/mult_hehe.hpp b/include/tlapack/lapack/mult_hehe.hpp
index 3943cc8..710e3b2 100644
--- a/include/tlapack/lapack/mult_hehe.hpp
+++ b/include/tlapack/lapack/mult_hehe.hpp
@@ -70,6 +70,9 @@ void mult_hehe(Uplo uplo,
 
     if (m != n) return;
 
+    // quick return
+    if (n == 0) return;
+
     if (n <= 1) {
         C(0, 0) = alpha * real(A(0, 0)) * real(B(0, 0)) + beta * C(0, 0);
         return;
-- 
2.43.0


From 07a41fb12a16dea35b1c1c8fa652aecb5e600bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:42 +0000
Subject: [PATCH 10/44] fix: trmm_out: stop the recursion on empty matrices

---
 include/tlapack/lapack/trmm_out.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/tlapack/lapack/trmm_out.hpp b/include/tlapack/lapack/trmm_out.hpp
index 4772496..acea4b0 100644
--- a/include/tlapack/lapack/trmm_out.hpp
+++ b/include/tlapack/lapack/trmm_out.hpp
@@ -99,6 +99,9 @@ void trmm_out(Side side,
     m = (transB == Op::NoTrans) ? nrows(B) : ncols(B);
     n = (transB == Op::NoTrans) ? ncols(B) : nrows(B);
 
+    // quick return
+    if (m == 0 || n == 0) return;
+
     if (transB == Op::NoTrans) {
         if (uplo == Uplo::Upper) {
             if (diag == Diag::NonUnit) {
-- 
2.43.0


From 7f14769d691bb52e1a851dd9734414404b8464ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:42 +0000
Subject: [PATCH 11/44] fix: trsm_tri: stop the recursion on empty matrices

---
 include/tlapack/lapack/trsm_tri.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/tlapack/lapack/trsm_tri.hpp b/include/tlapack/lapack/trsm_tri.hpp
index 8330517..4315779 100644
--- a/include/tlapack/lapack/trsm_tri.hpp
+++ b/include/tlapack/lapack/trsm_tri.hpp
@@ -118,6 +118,9 @@ void trsm_tri(Side sideA,
 
     idx_t n = nrows(A);
 
+    // quick return
+    if (n == 0) return;
+
     // lascl(uploB, T(1.), alpha, B); this does not work
 
     if (uploB == Uplo::Upper) {
-- 
2.43.0


From 40bd15faedea5dc5a5d74fc670444520d6a9bc29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:52 +0000
Subject: [PATCH 12/44] fix: infnorm_triangular_colmajor: first column of a
 unit lower matrix was skipped; w overrun if n > m

---
 include/tlapack/lapack/infnorm_triangular_colmajor.hpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/include/tlapack/lapack/infnorm_triangular_colmajor.hpp b/include/tlapack/lapack/infnorm_triangular_colmajor.hpp
index 967f94d..e7edf64 100644
--- a/include/tlapack/lapack/infnorm_triangular_colmajor.hpp
+++ b/include/tlapack/lapack/infnorm_triangular_colmajor.hpp
@@ -81,9 +81,6 @@ auto infnorm_triangular_colmajor_work(uplo_t uplo,
     // Norm value
     real_t norm(0);
 
-    for (idx_t i = 0; i < n; ++i)
-        w[i] = T(0);
-
     if (uplo == Uplo::Upper) {
         if (diag == Diag::NonUnit) {
             for (idx_t i = 0; i < m; ++i)
@@ -118,7 +115,7 @@ auto infnorm_triangular_colmajor_work(uplo_t uplo,
             for (idx_t i = n; i < m; ++i)
                 w[i] = real_t(0);
 
-            for (idx_t j = 1; j < n; ++j) {
+            for (idx_t j = 0; j < n; ++j) {
                 for (idx_t i = j + 1; i < m; ++i)
                     w[i] += abs(A(i, j));
             }
-- 
2.43.0


From 355261f48878cf7c4e188d9443b5c6c7c5d22c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:39 +0000
Subject: [PATCH 13/44] fix: infnorm_*_colmajor: the versions that allocate the
 workspace did not compile

---
 include/tlapack/lapack/infnorm_colmajor.hpp            | 5 ++++-
 include/tlapack/lapack/infnorm_hermitian_colmajor.hpp  | 7 +++++--
 include/tlapack/lapack/infnorm_symmetric_colmajor.hpp  | 7 +++++--
 include/tlapack/lapack/infnorm_triangular_colmajor.hpp | 9 ++++++---
 4 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/include/tlapack/lapack/infnorm_colmajor.hpp b/include/tlapack/lapack/infnorm_colmajor.hpp
index 7ca5d24..73e3b31 100644
--- a/include/tlapack/lapack/infnorm_colmajor.hpp
+++ b/include/tlapack/lapack/infnorm_colmajor.hpp
@@ -65,7 +65,7 @@ auto infnorm_colmajor_work(const matrix_t& A, work_t& work)
             w[i] += abs(A(i, j));
 
     for (idx_t i = 0; i < m; ++i) {
-        real_t temp = w[i];
+        real_t temp = real(w[i]);
 
         if (temp > norm)
             norm = temp;
@@ -102,6 +102,9 @@ auto infnorm_colmajor(const matrix_t& A)
     // quick return
     if (m == 0 || n == 0) return real_t(0);
 
+    // Functor
+    Create<matrix_t> new_matrix;
+
     // Allocates workspace
     WorkInfo workinfo = infnorm_colmajor_worksize<T>(A);
     std::vector<T> work_;
diff --git a/include/tlapack/lapack/infnorm_hermitian_colmajor.hpp b/include/tlapack/lapack/infnorm_hermitian_colmajor.hpp
index 474063d..e4fd659 100644
--- a/include/tlapack/lapack/infnorm_hermitian_colmajor.hpp
+++ b/include/tlapack/lapack/infnorm_hermitian_colmajor.hpp
@@ -82,7 +82,7 @@ auto infnorm_hermitian_colmajor_work(uplo_t uplo,
             w[j] = sum + abs(real(A(j, j)));
         }
         for (idx_t i = 0; i < n; ++i) {
-            real_t sum = w[i];
+            real_t sum = real(w[i]);
             if (sum > norm)
                 norm = sum;
             else {
@@ -92,7 +92,7 @@ auto infnorm_hermitian_colmajor_work(uplo_t uplo,
     }
     else {
         for (idx_t j = 0; j < n; ++j) {
-            real_t sum = w[j] + abs(real(A(j, j)));
+            real_t sum = real(w[j]) + abs(real(A(j, j)));
             for (idx_t i = j + 1; i < n; ++i) {
                 const real_t absa = abs(A(i, j));
                 sum += absa;
@@ -140,6 +140,9 @@ auto infnorm_hermitian_colmajor(uplo_t uplo, const matrix_t& A)
     // quick return
     if (n <= 0) return real_t(0);
 
+    // Functor
+    Create<matrix_t> new_matrix;
+
     // Allocates workspace
     WorkInfo workinfo = infnorm_hermitian_colmajor_worksize<T>(uplo, A);
     std::vector<T> work_;
diff --git a/include/tlapack/lapack/infnorm_symmetric_colmajor.hpp b/include/tlapack/lapack/infnorm_symmetric_colmajor.hpp
index 9cf0a0a..c677c53 100644
--- a/include/tlapack/lapack/infnorm_symmetric_colmajor.hpp
+++ b/include/tlapack/lapack/infnorm_symmetric_colmajor.hpp
@@ -82,7 +82,7 @@ auto infnorm_symmetric_colmajor_work(uplo_t uplo,
             w[j] = sum + abs(A(j, j));
         }
         for (idx_t i = 0; i < n; ++i) {
-            real_t sum = w[i];
+            real_t sum = real(w[i]);
             if (sum > norm)
                 norm = sum;
             else {
@@ -92,7 +92,7 @@ auto infnorm_symmetric_colmajor_work(uplo_t uplo,
     }
     else {
         for (idx_t j = 0; j < n; ++j) {
-            real_t sum = w[j] + abs(A(j, j));
+            real_t sum = real(w[j]) + abs(A(j, j));
             for (idx_t i = j + 1; i < n; ++i) {
                 const real_t absa = abs(A(i, j));
                 sum += absa;
@@ -140,6 +140,9 @@ auto infnorm_symmetric_colmajor(uplo_t uplo, const matrix_t& A)
     // quick return
     if (n <= 0) return real_t(0);
 
+    // Functor
+    Create<matrix_t> new_matrix;
+
     // Allocates workspace
     WorkInfo workinfo = infnorm_symmetric_colmajor_worksize<T>(uplo, A);
     std::vector<T> work_;
diff --git a/include/tlapack/lapack/infnorm_triangular_colmajor.hpp b/include/tlapack/lapack/infnorm_triangular_colmajor.hpp
index e7edf64..424158d 100644
--- a/include/tlapack/lapack/infnorm_triangular_colmajor.hpp
+++ b/include/tlapack/lapack/infnorm_triangular_colmajor.hpp
@@ -123,7 +123,7 @@ auto infnorm_triangular_colmajor_work(uplo_t uplo,
     }
 
     for (idx_t i = 0; i < m; ++i) {
-        real_t temp = w[i];
+        real_t temp = real(w[i]);
 
         if (temp > norm)
             norm = temp;
@@ -173,12 +173,15 @@ auto infnorm_triangular_colmajor(uplo_t uplo, diag_t diag, const matrix_t& A)
     // quick return
     if (m == 0 || n == 0) return real_t(0);
 
+    // Functor
+    Create<matrix_t> new_matrix;
+
     // Allocates workspace
-    WorkInfo workinfo = infnorm_triangular_colmajor_worksize<T>(uplo, A);
+    WorkInfo workinfo = infnorm_triangular_colmajor_worksize<T>(uplo, diag, A);
     std::vector<T> work_;
     auto work = new_matrix(work_, workinfo.m, workinfo.n);
 
-    return infnorm_triangular_colmajor_work(uplo, A, work);
+    return infnorm_triangular_colmajor_work(uplo, diag, A, work);
 }
 
 }  // namespace tlapack
-- 
2.43.0


From 4b8c75e0fe7e099a2dae5f9faf0dd4d715bd8032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:39 +0000
Subject: [PATCH 14/44] fix: lascl, hasnan, hasinf: last columns of an upper
 Hessenberg matrix ran past the rows

---
 include/tlapack/lapack/hasinf.hpp | 2 +-
 include/tlapack/lapack/hasnan.hpp | 2 +-
 include/tlapack/lapack/lascl.hpp  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/tlapack/lapack/hasinf.hpp b/include/tlapack/lapack/hasinf.hpp
index e6172f3..feea0a2 100644
--- a/include/tlapack/lapack/hasinf.hpp
+++ b/include/tlapack/lapack/hasinf.hpp
@@ -54,7 +54,7 @@ bool hasinf(uplo_t uplo, const matrix_t& A)
 
     if (uplo == Uplo::UpperHessenberg) {
         for (idx_t j = 0; j < n; ++j)
-            for (idx_t i = 0; i < ((j < m) ? j + 2 : m); ++i)
+            for (idx_t i = 0; i < ((j + 1 < m) ? j + 2 : m); ++i)
                 if (isinf(A(i, j))) return true;
         return false;
     }
diff --git a/include/tlapack/lapack/hasnan.hpp b/include/tlapack/lapack/hasnan.hpp
index 18c8a84..688a438 100644
--- a/include/tlapack/lapack/hasnan.hpp
+++ b/include/tlapack/lapack/hasnan.hpp
@@ -54,7 +54,7 @@ bool hasnan(uplo_t uplo, const matrix_t& A)
 
     if (uplo == Uplo::UpperHessenberg) {
         for (idx_t j = 0; j < n; ++j)
-            for (idx_t i = 0; i < ((j < m) ? j + 2 : m); ++i)
+            for (idx_t i = 0; i < ((j + 1 < m) ? j + 2 : m); ++i)
                 if (isnan(A(i, j))) return true;
         return false;
     }
diff --git a/include/tlapack/lapack/lascl.hpp b/include/tlapack/lapack/lascl.hpp
index 0d760ee..d17cf00 100644
--- a/include/tlapack/lapack/lascl.hpp
+++ b/include/tlapack/lapack/lascl.hpp
@@ -130,7 +130,7 @@ int lascl(uplo_t uplo, const b_type& b, const a_type& a, matrix_t& A)
 
         if (uplo == Uplo::UpperHessenberg) {
             for (idx_t j = 0; j < n; ++j)
-                for (idx_t i = 0; i < ((j < m) ? j + 2 : m); ++i)
+                for (idx_t i = 0; i < ((j + 1 < m) ? j + 2 : m); ++i)
                     A(i, j) *= c;
         }
         else if (uplo == Uplo::Upper) {
-- 
2.43.0


From 6f24702c448d129d11de501a71090c4b1cc36a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:33 +0000
Subject: [PATCH 15/44] fix: inv_house3: wrong null vector if the trailing
 block is singular

---
 include/tlapack/lapack/inv_house3.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/tlapack/lapack/inv_house3.hpp b/include/tlapack/lapack/inv_house3.hpp
index 304cea9..83d373c 100644
--- a/include/tlapack/lapack/inv_house3.hpp
+++ b/include/tlapack/lapack/inv_house3.hpp
@@ -98,8 +98,9 @@ void inv_house3(const matrix_t& A, vector_t& v, type_t<vector_t>& tau)
     real_t scale = (real_t)1;
     if (abs1(u22) < safemin) {
         v[0] = (T)0;
-        v[1] = (T)1;
-        v[2] = -u12 / u11;
+        v[1] = -u12 / u11;
+        v[2] = (T)1;
+        if (colswapped) std::swap(v[1], v[2]);
         larfg(FORWARD, COLUMNWISE_STORAGE, v, tau);
         return;
     }
-- 
2.43.0


From 4589844fa2f17db9f79ac12461cfeed1ab7007b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:09 +0000
Subject: [PATCH 16/44] fix: gelqt: rows below the last block were not updated
 if m > n

---
 include/tlapack/lapack/gelqt.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tlapack/lapack/gelqt.hpp b/include/tlapack/lapack/gelqt.hpp
index 943b309..1017eaa 100644
--- a/include/tlapack/lapack/gelqt.hpp
+++ b/include/tlapack/lapack/gelqt.hpp
@@ -86,7 +86,7 @@ int gelqt_work(matrix_t& A, matrix_t& TT, work_t& work)
         // . . . H(j+ib-1)
         larft(FORWARD, ROWWISE_STORAGE, A11, tauw1, TT1);
 
-        if (j + ib < k) {
+        if (j + ib < m) {
             // Apply H to A(j+ib:m,j:n) from the right
             auto A12 = slice(A, range(j + ib, m), range(j, n));
             auto work1 = slice(TT, range(j + ib, m), range(0, ib));
-- 
2.43.0


From ecd3c328f751335ebe601695c91573f7d8aec684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:09 +0000
Subject: [PATCH 17/44] fix: gelq2, geql2, geqr2, gerq2: workspace query
 accessed tau[0] of an empty tau

---
 include/tlapack/lapack/gelq2.hpp | 3 ++-
 include/tlapack/lapack/geql2.hpp | 3 ++-
 include/tlapack/lapack/geqr2.hpp | 3 ++-
 include/tlapack/lapack/gerq2.hpp | 3 ++-
 4 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/tlapack/lapack/gelq2.hpp b/include/tlapack/lapack/gelq2.hpp
index 995959d..a5421a2 100644
--- a/include/tlapack/lapack/gelq2.hpp
+++ b/include/tlapack/lapack/gelq2.hpp
@@ -36,8 +36,9 @@ constexpr WorkInfo gelq2_worksize(const matrix_t& A, const vector_t& tauw)
 
     // constants
     const idx_t m = nrows(A);
+    const idx_t n = ncols(A);
 
-    if (m > 1) {
+    if (m > 1 && n > 0) {
         auto&& C = rows(A, range{1, m});
         return larf_worksize<T>(RIGHT_SIDE, FORWARD, ROWWISE_STORAGE, row(A, 0),
                                 tauw[0], C);
diff --git a/include/tlapack/lapack/geql2.hpp b/include/tlapack/lapack/geql2.hpp
index 85e3684..b45f01d 100644
--- a/include/tlapack/lapack/geql2.hpp
+++ b/include/tlapack/lapack/geql2.hpp
@@ -35,9 +35,10 @@ constexpr WorkInfo geql2_worksize(const matrix_t& A, const vector_t& tau)
     using range = pair<idx_t, idx_t>;
 
     // constants
+    const idx_t m = nrows(A);
     const idx_t n = ncols(A);
 
-    if (n > 1) {
+    if (m > 0 && n > 1) {
         auto&& C = cols(A, range{1, n});
         return larf_worksize<T>(LEFT_SIDE, BACKWARD, COLUMNWISE_STORAGE,
                                 col(A, 0), tau[0], C);
diff --git a/include/tlapack/lapack/geqr2.hpp b/include/tlapack/lapack/geqr2.hpp
index 33da9e0..a5c17fe 100644
--- a/include/tlapack/lapack/geqr2.hpp
+++ b/include/tlapack/lapack/geqr2.hpp
@@ -35,9 +35,10 @@ constexpr WorkInfo geqr2_worksize(const matrix_t& A, const vector_t& tau)
     using range = pair<idx_t, idx_t>;
 
     // constants
+    const idx_t m = nrows(A);
     const idx_t n = ncols(A);
 
-    if (n > 1) {
+    if (m > 0 && n > 1) {
         auto&& C = cols(A, range{1, n});
         return larf_worksize<T>(LEFT_SIDE, FORWARD, COLUMNWISE_STORAGE,
                                 col(A, 0), tau[0], C);
diff --git a/include/tlapack/lapack/gerq2.hpp b/include/tlapack/lapack/gerq2.hpp
index 2957910..7ab327b 100644
--- a/include/tlapack/lapack/gerq2.hpp
+++ b/include/tlapack/lapack/gerq2.hpp
@@ -36,8 +36,9 @@ constexpr WorkInfo gerq2_worksize(const matrix_t& A, const vector_t& tau)
 
     // constants
     const idx_t m = nrows(A);
+    const idx_t n = ncols(A);
 
-    if (m > 1) {
+    if (m > 1 && n > 0) {
         auto&& C = rows(A, range{1, m});
         return larf_worksize<T>(RIGHT_SIDE, BACKWARD, ROWWISE_STORAGE,
                                 row(A, 0), tau[0], C);
-- 
2.43.0


From 95fe9742c65794cfcbf5d8fa0fc6d9983c890523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:55 +0000
Subject: [PATCH 18/44] fix: ungq: division by zero if there are no reflectors

---
 include/tlapack/lapack/ungq.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/tlapack/lapack/ungq.hpp b/include/tlapack/lapack/ungq.hpp
index 304d7f5..44811e6 100644
--- a/include/tlapack/lapack/ungq.hpp
+++ b/include/tlapack/lapack/ungq.hpp
@@ -79,7 +79,7 @@ constexpr WorkInfo ungq_worksize(direction_t direction,
 
     if (storeMode == StoreV::Columnwise) {
         // larfb:
-        if (nb < n) {
+        if (k > 0 && nb < n) {
             // Empty matrices
             auto&& matrixT = slice(A, range{0, nb}, range{0, nb});
             auto&& C = slice(A, range{0, m},
@@ -97,7 +97,7 @@ constexpr WorkInfo ungq_worksize(direction_t direction,
     }
     else {
         // larfb:
-        if (nb < m) {
+        if (k > 0 && nb < m) {
             // Empty matrices
             auto&& matrixT = slice(A, range{0, nb}, range{0, nb});
             auto&& C = slice(A,
@@ -176,7 +176,8 @@ int ungq_work(direction_t direction,
             laset(GENERAL, zero, zero, A0);
             laset(GENERAL, zero, one, A1);
 
-            for (idx_t j = ((k - 1) / nb) * nb; j != -nb; j -= nb) {
+            for (idx_t j = (k > 0) ? ((k - 1) / nb) * nb : -nb; j != -nb;
+                 j -= nb) {
                 const idx_t ib = min(nb, k - j);
                 const auto tauj = slice(tau, range{j, j + ib});
 
@@ -243,7 +244,8 @@ int ungq_work(direction_t direction,
             laset(GENERAL, zero, zero, A0);
             laset(GENERAL, zero, one, A1);
 
-            for (idx_t i = ((k - 1) / nb) * nb; i != -nb; i -= nb) {
+            for (idx_t i = (k > 0) ? ((k - 1) / nb) * nb : -nb; i != -nb;
+                 i -= nb) {
                 const idx_t ib = min(nb, k - i);
                 const auto taui = slice(tau, range{i, i + ib});
 
-- 
2.43.0


From eea3abe8792ebda5e6fb2640164ffd67c45bff92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:55 +0000
Subject: [PATCH 19/44] fix: ungq_level2, ung2*, unmq_level2, unm2*: workspace
 query accessed tau[0] of an empty tau

---
 include/tlapack/lapack/ung2l.hpp       | 2 +-
 include/tlapack/lapack/ung2r.hpp       | 2 +-
 include/tlapack/lapack/ungl2.hpp       | 2 +-
 include/tlapack/lapack/ungq_level2.hpp | 3 +++
 include/tlapack/lapack/ungr2.hpp       | 2 +-
 include/tlapack/lapack/unm2l.hpp       | 2 ++
 include/tlapack/lapack/unm2r.hpp       | 2 ++
 include/tlapack/lapack/unml2.hpp       | 2 ++
 include/tlapack/lapack/unmq_level2.hpp | 3 +++
 include/tlapack/lapack/unmr2.hpp       | 2 ++
 10 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/include/tlapack/lapack/ung2l.hpp b/include/tlapack/lapack/ung2l.hpp
index 7995846..152e4ba 100644
--- a/include/tlapack/lapack/ung2l.hpp
+++ b/include/tlapack/lapack/ung2l.hpp
@@ -38,7 +38,7 @@ constexpr WorkInfo ung2l_worksize(const matrix_t& A, const vector_t& tau)
     // constants
     const idx_t n = ncols(A);
 
-    if (n > 1) {
+    if (n > 1 && size(tau) > 0) {
         auto&& C = cols(A, range{1, n});
         return larf_worksize<T>(LEFT_SIDE, BACKWARD, COLUMNWISE_STORAGE,
                                 col(A, 0), tau[0], C);
diff --git a/include/tlapack/lapack/ung2r.hpp b/include/tlapack/lapack/ung2r.hpp
index 3657fcd..646d2af 100644
--- a/include/tlapack/lapack/ung2r.hpp
+++ b/include/tlapack/lapack/ung2r.hpp
@@ -38,7 +38,7 @@ constexpr WorkInfo ung2r_worksize(const matrix_t& A, const vector_t& tau)
     // constants
     const idx_t n = ncols(A);
 
-    if (n > 1) {
+    if (n > 1 && size(tau) > 0) {
         auto&& C = cols(A, range{1, n});
         return larf_worksize<T>(LEFT_SIDE, FORWARD, COLUMNWISE_STORAGE,
                                 col(A, 0), tau[0], C);
diff --git a/include/tlapack/lapack/ungl2.hpp b/include/tlapack/lapack/ungl2.hpp
index 52681a1..3346734 100644
--- a/include/tlapack/lapack/ungl2.hpp
+++ b/include/tlapack/lapack/ungl2.hpp
@@ -38,7 +38,7 @@ constexpr WorkInfo ungl2_worksize(const matrix_t& Q, const vector_t& tauw)
     // constants
     const idx_t k = nrows(Q);
 
-    if (k > 1) {
+    if (k > 1 && size(tauw) > 0) {
         auto&& C = rows(Q, range{1, k});
         return larf_worksize<T>(RIGHT_SIDE, FORWARD, ROWWISE_STORAGE, row(Q, 0),
                                 tauw[0], C);
diff --git a/include/tlapack/lapack/ungq_level2.hpp b/include/tlapack/lapack/ungq_level2.hpp
index 3b39478..7c01896 100644
--- a/include/tlapack/lapack/ungq_level2.hpp
+++ b/include/tlapack/lapack/ungq_level2.hpp
@@ -59,6 +59,9 @@ constexpr WorkInfo ungq_level2_worksize(direction_t direction,
     // Constants
     const idx_t m = nrows(A);
     const idx_t n = ncols(A);
+    const idx_t k = size(tau);
+
+    if (k <= 0) return WorkInfo(0);
 
     if (storeMode == StoreV::Columnwise) {
         return (n > 1)
diff --git a/include/tlapack/lapack/ungr2.hpp b/include/tlapack/lapack/ungr2.hpp
index 8a92e8f..b3df24b 100644
--- a/include/tlapack/lapack/ungr2.hpp
+++ b/include/tlapack/lapack/ungr2.hpp
@@ -38,7 +38,7 @@ constexpr WorkInfo ungr2_worksize(const matrix_t& A, const vector_t& tau)
     // constants
     const idx_t m = nrows(A);
 
-    if (m > 1) {
+    if (m > 1 && size(tau) > 0) {
         auto&& C = rows(A, range{1, m});
         return larf_worksize<T>(RIGHT_SIDE, BACKWARD, ROWWISE_STORAGE,
                                 row(A, 0), tau[0], C);
diff --git a/include/tlapack/lapack/unm2l.hpp b/include/tlapack/lapack/unm2l.hpp
index d5979c4..285e39d 100644
--- a/include/tlapack/lapack/unm2l.hpp
+++ b/include/tlapack/lapack/unm2l.hpp
@@ -62,6 +62,8 @@ constexpr WorkInfo unm2l_worksize(side_t side,
     const idx_t n = ncols(C);
     const idx_t nA = (side == Side::Left) ? m : n;
 
+    if (size(tau) <= 0) return WorkInfo(0);
+
     auto&& v = slice(A, range{0, nA}, 0);
     return larf_worksize<T>(side, BACKWARD, COLUMNWISE_STORAGE, v, tau[0], C);
 }
diff --git a/include/tlapack/lapack/unm2r.hpp b/include/tlapack/lapack/unm2r.hpp
index 7c96fd4..24d7d34 100644
--- a/include/tlapack/lapack/unm2r.hpp
+++ b/include/tlapack/lapack/unm2r.hpp
@@ -62,6 +62,8 @@ constexpr WorkInfo unm2r_worksize(side_t side,
     const idx_t n = ncols(C);
     const idx_t nA = (side == Side::Left) ? m : n;
 
+    if (size(tau) <= 0) return WorkInfo(0);
+
     auto&& v = slice(A, range{0, nA}, 0);
     return larf_worksize<T>(side, FORWARD, COLUMNWISE_STORAGE, v, tau[0], C);
 }
diff --git a/include/tlapack/lapack/unml2.hpp b/include/tlapack/lapack/unml2.hpp
index e7238c7..8be342d 100644
--- a/include/tlapack/lapack/unml2.hpp
+++ b/include/tlapack/lapack/unml2.hpp
@@ -62,6 +62,8 @@ constexpr WorkInfo unml2_worksize(side_t side,
     const idx_t n = ncols(C);
     const idx_t nA = (side == Side::Left) ? m : n;
 
+    if (size(tau) <= 0) return WorkInfo(0);
+
     auto&& v = slice(A, 0, range{0, nA});
     return larf_worksize<T>(side, FORWARD, ROWWISE_STORAGE, v, tau[0], C);
 }
diff --git a/include/tlapack/lapack/unmq_level2.hpp b/include/tlapack/lapack/unmq_level2.hpp
index ec34350..6991f20 100644
--- a/include/tlapack/lapack/unmq_level2.hpp
+++ b/include/tlapack/lapack/unmq_level2.hpp
@@ -80,8 +80,11 @@ constexpr WorkInfo unmq_level2_worksize(side_t side,
     // Constants
     const idx_t m = nrows(C);
     const idx_t n = ncols(C);
+    const idx_t k = size(tau);
     const idx_t nQ = (side == Side::Left) ? m : n;
 
+    if (k <= 0) return WorkInfo(0);
+
     if (storeMode == StoreV::Columnwise)
         return larf_worksize<T>(side, direction, storeMode,
                                 slice(V, range{0, nQ}, 0), tau[0], C);
diff --git a/include/tlapack/lapack/unmr2.hpp b/include/tlapack/lapack/unmr2.hpp
index d1818af..bc78226 100644
--- a/include/tlapack/lapack/unmr2.hpp
+++ b/include/tlapack/lapack/unmr2.hpp
@@ -62,6 +62,8 @@ constexpr WorkInfo unmr2_worksize(side_t side,
     const idx_t n = ncols(C);
     const idx_t nA = (side == Side::Left) ? m : n;
 
+    if (size(tau) <= 0) return WorkInfo(0);
+
     auto&& v = slice(A, 0, range{0, nA});
     return larf_worksize<T>(side, BACKWARD, ROWWISE_STORAGE, v, tau[0], C);
 }
-- 
2.43.0


From b962d3a8a13e7290319bb06e8c5f9ca9e4af8e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:59 +0000
Subject: [PATCH 20/44] fix: gebd2: workspace query accessed tauv[0] of an
 empty vector if m = 0

---
 include/tlapack/lapack/gebd2.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tlapack/lapack/gebd2.hpp b/include/tlapack/lapack/gebd2.hpp
index ad4fb98..18a6c39 100644
--- a/include/tlapack/lapack/gebd2.hpp
+++ b/include/tlapack/lapack/gebd2.hpp
@@ -45,7 +45,7 @@ constexpr WorkInfo gebd2_worksize(const matrix_t& A,
     const idx_t n = ncols(A);
 
     WorkInfo workinfo;
-    if (n > 1) {
+    if (m > 0 && n > 1) {
         auto&& A11 = cols(A, range{1, n});
         workinfo = larf_worksize<T>(LEFT_SIDE, FORWARD, COLUMNWISE_STORAGE,
                                     col(A, 0), tauv[0], A11);
-- 
2.43.0


From dad234b167b90f02de9b9ec8affd0a479d8d8a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:59 +0000
Subject: [PATCH 21/44] fix: gehd2: wrap around if ihi = 0 and rejected empty
 matrices

---
 include/tlapack/lapack/gehd2.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/tlapack/lapack/gehd2.hpp b/include/tlapack/lapack/gehd2.hpp
index ef47ef2..1ec3486 100644
--- a/include/tlapack/lapack/gehd2.hpp
+++ b/include/tlapack/lapack/gehd2.hpp
@@ -87,12 +87,12 @@ int gehd2_work(size_type<matrix_t> ilo,
 
     // check arguments
     tlapack_check_false(ncols(A) != nrows(A));
-    tlapack_check_false((idx_t)size(tau) < n - 1);
+    tlapack_check_false((idx_t)size(tau) + 1 < n);
 
     // quick return
     if (n <= 0) return 0;
 
-    for (idx_t i = ilo; i < ihi - 1; ++i) {
+    for (idx_t i = ilo; i + 1 < ihi; ++i) {
         // Define v := A[i+1:ihi,i]
         auto v = slice(A, range{i + 1, ihi}, i);
 
@@ -166,7 +166,7 @@ int gehd2(size_type<matrix_t> ilo,
 
     // check arguments
     tlapack_check_false(ncols(A) != nrows(A));
-    tlapack_check_false((idx_t)size(tau) < n - 1);
+    tlapack_check_false((idx_t)size(tau) + 1 < n);
 
     // quick return
     if (n <= 0) return 0;
-- 
2.43.0


From 45ac89f0a8f3aff564e714c8101ad19e78ea79c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:59 +0000
Subject: [PATCH 22/44] fix: gehrd: slice of tau past its end, wrap around if
 ihi = 0, rejected empty matrices

---
 include/tlapack/lapack/gehrd.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/tlapack/lapack/gehrd.hpp b/include/tlapack/lapack/gehrd.hpp
index 8a9ce5d..fc2b014 100644
--- a/include/tlapack/lapack/gehrd.hpp
+++ b/include/tlapack/lapack/gehrd.hpp
@@ -120,10 +120,10 @@ int gehrd_work(size_type<matrix_t> ilo,
     const idx_t nx = max(nb, (idx_t)opts.nx_switch);
 
     // check arguments
-    tlapack_check_false((ilo < 0) or (ilo >= n));
+    tlapack_check_false((ilo < 0) or ((ilo >= n) and (n > 0)));
     tlapack_check_false((ihi < 0) or (ihi > n));
     tlapack_check_false(ncols(A) != nrows(A));
-    tlapack_check_false((idx_t)size(tau) < n - 1);
+    tlapack_check_false((idx_t)size(tau) + 1 < n);
 
     // quick return
     if (n <= 0) return 0;
@@ -139,12 +139,12 @@ int gehrd_work(size_type<matrix_t> ilo,
     laset(GENERAL, zero, zero, Y);
 
     idx_t i = ilo;
-    for (; i + nx < ihi - 1; i = i + nb) {
+    for (; i + nx + 1 < ihi; i = i + nb) {
         const idx_t nb2 = min(nb, ihi - i - 1);
 
         auto V = slice(A, range{i + 1, ihi}, range{i, i + nb2});
         auto A2 = slice(A, range{0, ihi}, range{i, ihi});
-        auto tau2 = slice(tau, range{i, ihi});
+        auto tau2 = slice(tau, range{i, i + nb2});
         auto T_s = slice(matrixT, range{0, nb2}, range{0, nb2});
         auto Y_s = slice(Y, range{0, n}, range{0, nb2});
         lahr2(i, nb2, A2, tau2, T_s, Y_s);
-- 
2.43.0


From 327028a16c898b7947da4740959db739e9b933f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:59 +0000
Subject: [PATCH 23/44] fix: hetd2: rejected empty matrices

---
 include/tlapack/lapack/hetd2.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tlapack/lapack/hetd2.hpp b/include/tlapack/lapack/hetd2.hpp
index 76892a7..b89bb0c 100644
--- a/include/tlapack/lapack/hetd2.hpp
+++ b/include/tlapack/lapack/hetd2.hpp
@@ -60,7 +60,7 @@ int hetd2(uplo_t uplo, A_t& A, tau_t& tau)
     // check arguments
     tlapack_check_false(uplo != Uplo::Lower && uplo != Uplo::Upper);
     tlapack_check(nrows(A) == ncols(A));
-    tlapack_check((idx_t)size(tau) >= n - 1);
+    tlapack_check((idx_t)size(tau) + 1 >= n);
 
     // quick return
     if (n <= 0) return 0;
-- 
2.43.0


From 94946fd83506eac683685bc03d17877464092543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:59 +0000
Subject: [PATCH 24/44] fix: unghr, unmhr: out of range access if ilo = ihi

---
 include/tlapack/lapack/unghr.hpp | 2 +-
 include/tlapack/lapack/unmhr.hpp | 5 +++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/tlapack/lapack/unghr.hpp b/include/tlapack/lapack/unghr.hpp
index b1d0b17..5ccd0f2 100644
--- a/include/tlapack/lapack/unghr.hpp
+++ b/include/tlapack/lapack/unghr.hpp
@@ -93,7 +93,7 @@ int unghr_work(size_type<matrix_t> ilo,
 
     // This is currently optimised for column matrices, it may be interesting
     // to also write these loops for row matrices
-    for (idx_t j = ihi - 1; j > ilo; --j) {
+    for (idx_t j = (ihi > 0) ? ihi - 1 : 0; j > ilo; --j) {
         for (idx_t i = 0; i < j; ++i) {
             A(i, j) = zero;
         }
diff --git a/include/tlapack/lapack/unmhr.hpp b/include/tlapack/lapack/unmhr.hpp
index 0a0a5de..aac9532 100644
--- a/include/tlapack/lapack/unmhr.hpp
+++ b/include/tlapack/lapack/unmhr.hpp
@@ -59,6 +59,8 @@ constexpr WorkInfo unmhr_worksize(Side side,
     using idx_t = size_type<matrix_t>;
     using range = pair<idx_t, idx_t>;
 
+    if (ihi <= ilo + 1) return WorkInfo(0);
+
     auto&& A_s = slice(A, range{ilo + 1, ihi}, range{ilo, ihi - 1});
     auto&& tau_s = slice(tau, range{ilo, ihi - 1});
     auto&& C_s = (side == Side::Left)
@@ -92,6 +94,9 @@ int unmhr_work(Side side,
     using idx_t = size_type<matrix_t>;
     using range = pair<idx_t, idx_t>;
 
+    // quick return
+    if (ihi <= ilo + 1) return 0;
+
     auto A_s = slice(A, range{ilo + 1, ihi}, range{ilo, ihi - 1});
     auto tau_s = slice(tau, range{ilo, ihi - 1});
     auto C_s = (side == Side::Left)
-- 
2.43.0


From 6165073c1389cb30fcfda8bf8accfadefa294dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:43 +0000
Subject: [PATCH 25/44] fix: hessenberg_rq: wrap around for empty matrices

---
 include/tlapack/lapack/hessenberg_rq.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/tlapack/lapack/hessenberg_rq.hpp b/include/tlapack/lapack/hessenberg_rq.hpp
index b326709..d1ef75e 100644
--- a/include/tlapack/lapack/hessenberg_rq.hpp
+++ b/include/tlapack/lapack/hessenberg_rq.hpp
@@ -54,10 +54,9 @@ inline void hessenberg_rq(T_t& T, CL_t& cl, SL_t& sl, CR_t& cr, SR_t& sr)
 
     // constants
     const idx_t n = ncols(T);
-    const idx_t k = n - 1;
 
     // quick return
-    if (k < 1) return;
+    if (n <= 1) return;
 
     // Apply rotations to last column
     for (idx_t j = n - 2; j != (idx_t)-1; --j) {
-- 
2.43.0


From b8288077a462ce8f69a067722110f98ca20bfc70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:08 +0000
Subject: [PATCH 26/44] fix: apply the startup rotations once per column in
 rot_sequence3

---
 include/tlapack/lapack/rot_sequence3.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tlapack/lapack/rot_sequence3.hpp b/include/tlapack/lapack/rot_sequence3.hpp
index d9c9ee0..b5b0f34 100644
--- a/include/tlapack/lapack/rot_sequence3.hpp
+++ b/include/tlapack/lapack/rot_sequence3.hpp
@@ -133,7 +133,7 @@ void rot_sequence3(
                 for (idx_t ib = 0; ib < n; ib += nb) {
                     idx_t ib2 = std::min(ib + nb, n);
                     // Startup phase
-                    for (idx_t i1 = 0; i1 < n; ++i1) {
+                    for (idx_t i1 = ib; i1 < ib2; ++i1) {
                         for (idx_t j = 0; j < l - 1; ++j) {
                             for (idx_t i = 0, g2 = j; i < j + 1; ++i, --g2) {
                                 idx_t g = m - 2 - g2;
@@ -536,7 +536,7 @@ void rot_sequence3(
                     for (idx_t j = 0; j < l - 1; ++j) {
                         for (idx_t i = 0, g2 = j; i < j + 1; ++i, --g2) {
                             idx_t g = m - 2 - g2;
-                            for (idx_t i1 = 0; i1 < n; ++i1) {
+                            for (idx_t i1 = ib; i1 < ib2; ++i1) {
                                 T temp =
                                     C(g, i) * A(g, i1) + S(g, i) * A(g + 1, i1);
                                 A(g + 1, i1) = -conj(S(g, i)) * A(g, i1) +
-- 
2.43.0


From b7a22e411f7db38156289320db591cfab491b2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:08 +0000
Subject: [PATCH 27/44] fix: accept an empty matrix in rot_sequence and
 rot_sequence3

---
 include/tlapack/lapack/rot_sequence.hpp  | 3 ++-
 include/tlapack/lapack/rot_sequence3.hpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/tlapack/lapack/rot_sequence.hpp b/include/tlapack/lapack/rot_sequence.hpp
index f370bb9..312215c 100644
--- a/include/tlapack/lapack/rot_sequence.hpp
+++ b/include/tlapack/lapack/rot_sequence.hpp
@@ -87,7 +87,8 @@ int rot_sequence(
     // constants
     const idx_t m = nrows(A);
     const idx_t n = ncols(A);
-    const idx_t k = (side == Side::Left) ? m - 1 : n - 1;
+    const idx_t dim = (side == Side::Left) ? m : n;
+    const idx_t k = (dim > 0) ? dim - 1 : 0;
 
     // Check dimensions
     tlapack_check((idx_t)size(c) == k);
diff --git a/include/tlapack/lapack/rot_sequence3.hpp b/include/tlapack/lapack/rot_sequence3.hpp
index b5b0f34..043613c 100644
--- a/include/tlapack/lapack/rot_sequence3.hpp
+++ b/include/tlapack/lapack/rot_sequence3.hpp
@@ -98,7 +98,8 @@ void rot_sequence3(
     // constants
     const idx_t m = nrows(A);
     const idx_t n = ncols(A);
-    const idx_t k = (side == Side::Left) ? m - 1 : n - 1;
+    const idx_t dim = (side == Side::Left) ? m : n;
+    const idx_t k = (dim > 0) ? dim - 1 : 0;
     const idx_t l = ncols(C);
 
     // Blocking parameter
-- 
2.43.0


From 71e5c4fef618fc428357eb4c7e05d2f703613385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:18 +0000
Subject: [PATCH 28/44] fix: gghd3: update Q and Z only if they are wanted

---
 include/tlapack/lapack/gghd3.hpp | 44 +++++++++++++++++++-------------
 1 file changed, 26 insertions(+), 18 deletions(-)

diff --git a/include/tlapack/lapack/gghd3.hpp b/include/tlapack/lapack/gghd3.hpp
index a7cb39a..9636b22 100644
--- a/include/tlapack/lapack/gghd3.hpp
+++ b/include/tlapack/lapack/gghd3.hpp
@@ -184,10 +184,12 @@ int gghd3(bool wantq,
                 lacpy(GENERAL, C3, B2);
             }
 
-            auto Q2 = cols(Q, range(ihi - nblst, ihi));
-            auto D2 = cols(D, range(0, nblst));
-            gemm(NO_TRANS, NO_TRANS, (T)1, Q2, Qt2, D2);
-            lacpy(GENERAL, D2, Q2);
+            if (wantq) {
+                auto Q2 = cols(Q, range(ihi - nblst, ihi));
+                auto D2 = cols(D, range(0, nblst));
+                gemm(NO_TRANS, NO_TRANS, (T)1, Q2, Qt2, D2);
+                lacpy(GENERAL, D2, Q2);
+            }
         }
         for (idx_t ib = n2nb - 1; ib != (idx_t)-1; ib--) {
             auto Qt2 = slice(Qt, range(0, 2 * nnb), range(0, 2 * nnb));
@@ -218,11 +220,13 @@ int gghd3(bool wantq,
                 lacpy(GENERAL, C3, B2);
             }
 
-            auto Q2 =
-                cols(Q, range(j + 1 + nnb * ib, j + 1 + nnb * ib + 2 * nnb));
-            auto D2 = cols(D, range(0, 2 * nnb));
-            gemm(NO_TRANS, NO_TRANS, (T)1, Q2, Qt2, D2);
-            lacpy(GENERAL, D2, Q2);
+            if (wantq) {
+                auto Q2 = cols(Q, range(j + 1 + nnb * ib,
+                                       j + 1 + nnb * ib + 2 * nnb));
+                auto D2 = cols(D, range(0, 2 * nnb));
+                gemm(NO_TRANS, NO_TRANS, (T)1, Q2, Qt2, D2);
+                lacpy(GENERAL, D2, Q2);
+            }
         }
 
         //
@@ -254,10 +258,12 @@ int gghd3(bool wantq,
                 lacpy(GENERAL, D2, B2);
             }
 
-            auto Z2 = cols(Z, range(ihi - nblst, ihi));
-            auto D2 = cols(D, range(0, nblst));
-            gemm(NO_TRANS, NO_TRANS, (T)1, Z2, Qt2, D2);
-            lacpy(GENERAL, D2, Z2);
+            if (wantz) {
+                auto Z2 = cols(Z, range(ihi - nblst, ihi));
+                auto D2 = cols(D, range(0, nblst));
+                gemm(NO_TRANS, NO_TRANS, (T)1, Z2, Qt2, D2);
+                lacpy(GENERAL, D2, Z2);
+            }
         }
         for (idx_t ib = n2nb - 1; ib != (idx_t)-1; ib--) {
             auto Qt2 = slice(Qt, range(0, 2 * nnb), range(0, 2 * nnb));
@@ -287,11 +293,13 @@ int gghd3(bool wantq,
                 lacpy(GENERAL, D2, B2);
             }
 
-            auto Z2 =
-                cols(Z, range(j + 1 + nnb * ib, j + 1 + nnb * ib + 2 * nnb));
-            auto D2 = cols(D, range(0, 2 * nnb));
-            gemm(NO_TRANS, NO_TRANS, (T)1, Z2, Qt2, D2);
-            lacpy(GENERAL, D2, Z2);
+            if (wantz) {
+                auto Z2 = cols(Z, range(j + 1 + nnb * ib,
+                                       j + 1 + nnb * ib + 2 * nnb));
+                auto D2 = cols(D, range(0, 2 * nnb));
+                gemm(NO_TRANS, NO_TRANS, (T)1, Z2, Qt2, D2);
+                lacpy(GENERAL, D2, Z2);
+            }
         }
     }
 
-- 
2.43.0


From 86e107717bd59b4588a431a598f2298b2d4025f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:53 +0000
Subject: [PATCH 29/44] fix: lahqr_schur22: equal diagonal or opposite
 off-diagonal elements

---
 include/tlapack/lapack/lahqr_schur22.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tlapack/lapack/lahqr_schur22.hpp b/include/tlapack/lapack/lahqr_schur22.hpp
index f2431bd..84dedf9 100644
--- a/include/tlapack/lapack/lahqr_schur22.hpp
+++ b/include/tlapack/lapack/lahqr_schur22.hpp
@@ -92,7 +92,7 @@ void lahqr_schur22(T& a,
             // Real eigenvalues.
 
             // Compute a and d.
-            z = p + T(sgn(p)) * sqrt(scale) * sqrt(z);
+            z = p + ((p < zero) ? -one : one) * sqrt(scale) * sqrt(z);
             a = d + z;
             d = d - (bcmax / z) * bcmin;
             // Compute b and the rotation matrix
@@ -124,7 +124,7 @@ void lahqr_schur22(T& a,
             p = half * temp;
             T tau = lapy2(sigma, temp);
             cs = sqrt(half * (one + abs(sigma) / tau));
-            sn = -(p / (tau * cs)) * T(sgn(sigma));
+            sn = -(p / (tau * cs)) * ((sigma < zero) ? -one : one);
             //
             // Compute [aa bb] = [a b][cs -sn]
             //         [cc dd] = [c d][sn  cs]
-- 
2.43.0


From 6b7539e98f7fb68bdff5fa2f76f07118351bb47b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:53 +0000
Subject: [PATCH 30/44] fix: steqr: division by zero for equal diagonal
 elements

---
 include/tlapack/lapack/steqr.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tlapack/lapack/steqr.hpp b/include/tlapack/lapack/steqr.hpp
index 087f5bb..7d32b98 100644
--- a/include/tlapack/lapack/steqr.hpp
+++ b/include/tlapack/lapack/steqr.hpp
@@ -177,7 +177,7 @@ int steqr(bool want_z, d_t& d, e_t& e, matrix_t& Z)
             real_t p = d[istop - 1];
             real_t g = (d[istop - 2] - p) / (two * e[istop - 2]);
             real_t r = lapy2(g, one);
-            g = d[istart] - p + e[istop - 2] / (real_t)(g + (sgn(g) * r));
+            g = d[istart] - p + e[istop - 2] / (real_t)(g + ((g < zero) ? -r : r));
 
             real_t s = one;
             real_t c = one;
@@ -211,7 +211,7 @@ int steqr(bool want_z, d_t& d, e_t& e, matrix_t& Z)
             real_t p = d[istart];
             real_t g = (d[istart + 1] - p) / (two * e[istart]);
             real_t r = lapy2(g, one);
-            g = d[istop - 1] - p + e[istart] / (real_t)(g + (sgn(g) * r));
+            g = d[istop - 1] - p + e[istart] / (real_t)(g + ((g < zero) ? -r : r));
 
             real_t s = one;
             real_t c = one;
-- 
2.43.0


From 660a068dc3b3b471c21b9ad3112684ae31ab00bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:14 +0000
Subject: [PATCH 31/44] fix: steqr: report a failure to converge

---
 include/tlapack/lapack/steqr.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tlapack/lapack/steqr.hpp b/include/tlapack/lapack/steqr.hpp
index 7d32b98..2f2c531 100644
--- a/include/tlapack/lapack/steqr.hpp
+++ b/include/tlapack/lapack/steqr.hpp
@@ -112,7 +112,7 @@ int steqr(bool want_z, d_t& d, e_t& e, matrix_t& Z)
     bool forwarddirection = true;
 
     // Main loop
-    for (idx_t iter = 0; iter < itmax; iter++) {
+    for (idx_t iter = 0; iter <= itmax; iter++) {
         if (iter == itmax) {
             // The QR algorithm failed to converge, return with error.
             return istop;
-- 
2.43.0


From d2b6022ede1291e14cd36cf6d3d9a68a2a40ae43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:55 +0000
Subject: [PATCH 32/44] fix: lahqr_schur22: lower triangular result for a
 double eigenvalue

---
 include/tlapack/lapack/lahqr_schur22.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/tlapack/lapack/lahqr_schur22.hpp b/include/tlapack/lapack/lahqr_schur22.hpp
index 84dedf9..5534c50 100644
--- a/include/tlapack/lapack/lahqr_schur22.hpp
+++ b/include/tlapack/lapack/lahqr_schur22.hpp
@@ -165,6 +165,14 @@ void lahqr_schur22(T& a,
                         cs = temp;
                     }
                 }
+                else {
+                    // Swapping rows and columns results in Schur form.
+                    b = -c;
+                    c = zero;
+                    temp = cs;
+                    cs = -sn;
+                    sn = temp;
+                }
             }
         }
     }
-- 
2.43.0


From 5685e505cc213d1acf0b4678246042de5d824822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:26 +0000
Subject: [PATCH 33/44] fix: legacy herk, syrk, her2k, syr2k: alpha = 0 changed
 the unreferenced triangle

---
 include/tlapack/legacy_api/blas/her2k.hpp | 6 ++++--
 include/tlapack/legacy_api/blas/herk.hpp  | 6 ++++--
 include/tlapack/legacy_api/blas/syr2k.hpp | 6 ++++--
 include/tlapack/legacy_api/blas/syrk.hpp  | 6 ++++--
 4 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/include/tlapack/legacy_api/blas/her2k.hpp b/include/tlapack/legacy_api/blas/her2k.hpp
index dbcc272..33baee2 100644
--- a/include/tlapack/legacy_api/blas/her2k.hpp
+++ b/include/tlapack/legacy_api/blas/her2k.hpp
@@ -162,12 +162,14 @@ namespace legacy {
         if (alpha == scalar_t(0)) {
             if (beta == real_t(0)) {
                 for (idx_t j = 0; j < n; ++j)
-                    for (idx_t i = 0; i < n; ++i)
+                    for (idx_t i = (uplo == Uplo::Lower) ? j : 0;
+                         i < ((uplo == Uplo::Upper) ? j + 1 : n); ++i)
                         C_(i, j) = TC(0);
             }
             else {
                 for (idx_t j = 0; j < n; ++j)
-                    for (idx_t i = 0; i < n; ++i)
+                    for (idx_t i = (uplo == Uplo::Lower) ? j : 0;
+                         i < ((uplo == Uplo::Upper) ? j + 1 : n); ++i)
                         C_(i, j) *= beta;
             }
         }
diff --git a/include/tlapack/legacy_api/blas/herk.hpp b/include/tlapack/legacy_api/blas/herk.hpp
index e75494c..013c2a1 100644
--- a/include/tlapack/legacy_api/blas/herk.hpp
+++ b/include/tlapack/legacy_api/blas/herk.hpp
@@ -140,12 +140,14 @@ namespace legacy {
         if (alpha == real_t(0)) {
             if (beta == real_t(0)) {
                 for (idx_t j = 0; j < n; ++j)
-                    for (idx_t i = 0; i < n; ++i)
+                    for (idx_t i = (uplo == Uplo::Lower) ? j : 0;
+                         i < ((uplo == Uplo::Upper) ? j + 1 : n); ++i)
                         C_(i, j) = TC(0);
             }
             else {
                 for (idx_t j = 0; j < n; ++j)
-                    for (idx_t i = 0; i < n; ++i)
+                    for (idx_t i = (uplo == Uplo::Lower) ? j : 0;
+                         i < ((uplo == Uplo::Upper) ? j + 1 : n); ++i)
                         C_(i, j) *= beta;
             }
         }
diff --git a/include/tlapack/legacy_api/blas/syr2k.hpp b/include/tlapack/legacy_api/blas/syr2k.hpp
index b5e1500..6a8e743 100644
--- a/include/tlapack/legacy_api/blas/syr2k.hpp
+++ b/include/tlapack/legacy_api/blas/syr2k.hpp
@@ -162,12 +162,14 @@ namespace legacy {
         if (alpha == scalar_t(0)) {
             if (beta == scalar_t(0)) {
                 for (idx_t j = 0; j < n; ++j)
-                    for (idx_t i = 0; i < n; ++i)
+                    for (idx_t i = (uplo == Uplo::Lower) ? j : 0;
+                         i < ((uplo == Uplo::Upper) ? j + 1 : n); ++i)
                         C_(i, j) = TC(0);
             }
             else {
                 for (idx_t j = 0; j < n; ++j)
-                    for (idx_t i = 0; i < n; ++i)
+                    for (idx_t i = (uplo == Uplo::Lower) ? j : 0;
+                         i < ((uplo == Uplo::Upper) ? j + 1 : n); ++i)
                         C_(i, j) *= beta;
             }
         }
diff --git a/include/tlapack/legacy_api/blas/syrk.hpp b/include/tlapack/legacy_api/blas/syrk.hpp
index 41d9a22..3afa469 100644
--- a/include/tlapack/legacy_api/blas/syrk.hpp
+++ b/include/tlapack/legacy_api/blas/syrk.hpp
@@ -142,12 +142,14 @@ namespace legacy {
         if (alpha == scalar_t(0)) {
             if (beta == scalar_t(0)) {
                 for (idx_t j = 0; j < n; ++j)
-                    for (idx_t i = 0; i < n; ++i)
+                    for (idx_t i = (uplo == Uplo::Lower) ? j : 0;
+                         i < ((uplo == Uplo::Upper) ? j + 1 : n); ++i)
                         C_(i, j) = TC(0);
             }
             else {
                 for (idx_t j = 0; j < n; ++j)
-                    for (idx_t i = 0; i < n; ++i)
+                    for (idx_t i = (uplo == Uplo::Lower) ? j : 0;
+                         i < ((uplo == Uplo::Upper) ? j + 1 : n); ++i)
                         C_(i, j) *= beta;
             }
         }
-- 
2.43.0


From 815114efe9727f0ada100ecd9d216a9234698f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:26 +0000
Subject: [PATCH 34/44] fix: legacy her, her2: row-major complex matrices got
 the conjugate update

---
 include/tlapack/legacy_api/blas/her.hpp  | 18 ++++++++++--------
 include/tlapack/legacy_api/blas/her2.hpp | 19 ++++++++++---------
 2 files changed, 20 insertions(+), 17 deletions(-)

diff --git a/include/tlapack/legacy_api/blas/her.hpp b/include/tlapack/legacy_api/blas/her.hpp
index db2fb72..477fec9 100644
--- a/include/tlapack/legacy_api/blas/her.hpp
+++ b/include/tlapack/legacy_api/blas/her.hpp
@@ -71,6 +71,7 @@ namespace legacy {
              idx_t lda)
     {
         using internal::create_matrix;
+        using internal::create_rowmajor_matrix;
         using real_t = real_type<TA, TX>;
 
         // check arguments
@@ -84,15 +85,16 @@ namespace legacy {
         // quick return
         if (n == 0 || alpha == real_t(0)) return;
 
-        // for row major, swap lower <=> upper
-        if (layout == Layout::RowMajor) {
-            uplo = (uplo == Uplo::Lower ? Uplo::Upper : Uplo::Lower);
+        if (layout == Layout::ColMajor) {
+            auto A_ = create_matrix<TA>(A, n, n, lda);
+            tlapack_expr_with_vector(x_, TX, n, x, incx,
+                                     return her(uplo, alpha, x_, A_));
+        }
+        else {
+            auto A_ = create_rowmajor_matrix<TA>(A, n, n, lda);
+            tlapack_expr_with_vector(x_, TX, n, x, incx,
+                                     return her(uplo, alpha, x_, A_));
         }
-
-        // Matrix views
-        auto A_ = create_matrix<TA>(A, n, n, lda);
-
-        tlapack_expr_with_vector(x_, TX, n, x, incx, her(uplo, alpha, x_, A_));
     }
 
 }  // namespace legacy
diff --git a/include/tlapack/legacy_api/blas/her2.hpp b/include/tlapack/legacy_api/blas/her2.hpp
index 6a3e02c..2784ad9 100644
--- a/include/tlapack/legacy_api/blas/her2.hpp
+++ b/include/tlapack/legacy_api/blas/her2.hpp
@@ -80,6 +80,7 @@ namespace legacy {
               idx_t lda)
     {
         using internal::create_matrix;
+        using internal::create_rowmajor_matrix;
         using scalar_t = scalar_type<TA, TX>;
 
         // check arguments
@@ -94,16 +95,16 @@ namespace legacy {
         // quick return
         if (n == 0 || alpha == scalar_t(0)) return;
 
-        // for row major, swap lower <=> upper
-        if (layout == Layout::RowMajor) {
-            uplo = (uplo == Uplo::Lower ? Uplo::Upper : Uplo::Lower);
+        if (layout == Layout::ColMajor) {
+            auto A_ = create_matrix<TA>(A, n, n, lda);
+            tlapack_expr_with_2vectors(x_, TX, n, x, incx, y_, TY, n, y, incy,
+                                       return her2(uplo, alpha, x_, y_, A_));
+        }
+        else {
+            auto A_ = create_rowmajor_matrix<TA>(A, n, n, lda);
+            tlapack_expr_with_2vectors(x_, TX, n, x, incx, y_, TY, n, y, incy,
+                                       return her2(uplo, alpha, x_, y_, A_));
         }
-
-        // Matrix views
-        auto A_ = create_matrix<TA>(A, n, n, lda);
-
-        tlapack_expr_with_2vectors(x_, TX, n, x, incx, y_, TY, n, y, incy,
-                                   return her2(uplo, alpha, x_, y_, A_));
     }
 
 }  // namespace legacy
-- 
2.43.0


From ea0f793a1012bf00107b3661e340b2c1acc0c20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:34 +0000
Subject: [PATCH 35/44] fix: legacy ung2r: tau has k entries

---
 include/tlapack/legacy_api/lapack/ung2r.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tlapack/legacy_api/lapack/ung2r.hpp b/include/tlapack/legacy_api/lapack/ung2r.hpp
index 64d79a4..04bac17 100644
--- a/include/tlapack/legacy_api/lapack/ung2r.hpp
+++ b/include/tlapack/legacy_api/lapack/ung2r.hpp
@@ -35,7 +35,7 @@ namespace legacy {
      * GEQRF in the first k columns of its array argument A. On exit, the m-by-n
      * matrix $Q  = H_1 H_2 ... H_k$.
      * @param[in] lda The leading dimension of A. lda >= max(1,m).
-     * @param[in] tau Real vector of length min(m,n).
+     * @param[in] tau Vector of length k.
      *      The scalar factors of the elementary reflectors.
      *
      * @ingroup legacy_lapack
@@ -57,7 +57,7 @@ namespace legacy {
 
         // Matrix views
         auto A_ = create_matrix<TA>(A, m, n, lda);
-        auto tau_ = create_vector((TT*)tau, min(m, n));
+        auto tau_ = create_vector((TT*)tau, k);
 
         return ung2r(A_, tau_);
     }
-- 
2.43.0


From 19d23cdc28dff9dff7ff69845c8057052e574891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:34 +0000
Subject: [PATCH 36/44] fix: legacy unm2r: did not compile

---
 include/tlapack/legacy_api/lapack/unm2r.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/tlapack/legacy_api/lapack/unm2r.hpp b/include/tlapack/legacy_api/lapack/unm2r.hpp
index b7e6eca..5aa5b12 100644
--- a/include/tlapack/legacy_api/lapack/unm2r.hpp
+++ b/include/tlapack/legacy_api/lapack/unm2r.hpp
@@ -36,7 +36,7 @@ namespace legacy {
      *                 If side='L', A is k-by-m;
      *                 if side='R', A is k-by-n.
      * @param[in] lda The column length of the matrix A.  ldA>=k.
-     * @param[in] tau Real vector of length k containing the scalar factors of
+     * @param[in] tau Vector of length k containing the scalar factors of
      * the elementary reflectors.
      * @param[in,out] C m-by-n matrix.
      *     On exit, C is replaced by one of the following:
@@ -56,7 +56,7 @@ namespace legacy {
               idx_t k,
               TA* A,
               idx_t lda,
-              const real_type<TA, TC>* tau,
+              const TA* tau,
               TC* C,
               idx_t ldc)
     {
@@ -82,7 +82,7 @@ namespace legacy {
         const auto tau_ = create_vector((TA*)tau, k);
         auto C_ = create_matrix<TC>(C, m, n, ldc);
 
-        return unm2r(side, trans, A, tau_, C_);
+        return unm2r(side, trans, A_, tau_, C_);
     }
 
 }  // namespace legacy
-- 
2.43.0


From d18459c2396ca587b763c060f05211843bdd7f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:34 +0000
Subject: [PATCH 37/44] fix: legacy lascl: band types ignored the leading
 dimension

---
 include/tlapack/legacy_api/lapack/lascl.hpp | 31 +++++++++++++--------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/include/tlapack/legacy_api/lapack/lascl.hpp b/include/tlapack/legacy_api/lapack/lascl.hpp
index d7cbf0e..c310efe 100644
--- a/include/tlapack/legacy_api/lapack/lascl.hpp
+++ b/include/tlapack/legacy_api/lapack/lascl.hpp
@@ -103,17 +103,26 @@ namespace legacy {
         tlapack_check_false((matrixtype == MatrixType::Band) &&
                             (lda < 2 * kl + ku + 1));
 
-        if (matrixtype == MatrixType::LowerBand) {
-            auto A_ = create_banded_matrix<T>(A, m, n, kl, 0);
-            return lascl(BandAccess{size_t(kl), 0}, b, a, A_);
-        }
-        else if (matrixtype == MatrixType::UpperBand) {
-            auto A_ = create_banded_matrix<T>(A, m, n, 0, ku);
-            return lascl(BandAccess{0, size_t(ku)}, b, a, A_);
-        }
-        else if (matrixtype == MatrixType::Band) {
-            auto A_ = create_banded_matrix<T>(A, m, n, kl, ku);
-            return lascl(BandAccess{size_t(kl), size_t(ku)}, b, a, A_);
+        if (matrixtype == MatrixType::LowerBand ||
+            matrixtype == MatrixType::UpperBand ||
+            matrixtype == MatrixType::Band) {
+            // Bandwidths that are stored and row of the diagonal in the array
+            const idx_t l = (matrixtype == MatrixType::UpperBand) ? 0 : kl;
+            const idx_t u = (matrixtype == MatrixType::LowerBand) ? 0 : ku;
+            const idx_t d = (matrixtype == MatrixType::Band) ? kl + ku : u;
+
+            auto A_ = create_matrix<T>(A, lda, n, lda);
+            for (idx_t j = 0; j < n; ++j) {
+                const idx_t i0 = (j > u) ? j - u : 0;
+                const idx_t i1 = min(m, j + l + 1);
+                if (i0 < i1) {
+                    auto a_ = slice(A_, std::pair{d + i0 - j, d + i1 - j},
+                                    std::pair{j, j + 1});
+                    const int info = lascl(GENERAL, b, a, a_);
+                    if (info != 0) return info;
+                }
+            }
+            return 0;
         }
         else {
             auto A_ = create_matrix<T>(A, m, n, lda);
-- 
2.43.0


From fd8d8ecf21a284b53d0164cdc16587035a1edbe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:39 +0000
Subject: [PATCH 38/44] fix: slices of backward LegacyVectors

---
 include/tlapack/plugins/legacyArray.hpp | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/include/tlapack/plugins/legacyArray.hpp b/include/tlapack/plugins/legacyArray.hpp
index 744eeca..425b90b 100644
--- a/include/tlapack/plugins/legacyArray.hpp
+++ b/include/tlapack/plugins/legacyArray.hpp
@@ -380,8 +380,12 @@ constexpr auto slice(const LegacyVector<T, idx_t, int_t, direction>& v,
            rows.first == rows.second);
     assert(rows.second >= 0 and (idx_t) rows.second <= size(v));
     assert(rows.first <= rows.second);
+    // The first entries of a backward vector are the last ones in memory
+    const idx_t first = (direction == Direction::Forward)
+                            ? (idx_t)rows.first
+                            : v.n - (idx_t)rows.second;
     return LegacyVector<const T, idx_t, int_t, direction>(
-        rows.second - rows.first, &v.ptr[rows.first * v.inc], v.inc);
+        rows.second - rows.first, &v.ptr[first * v.inc], v.inc);
 }
 
 // -----------------------------------------------------------------------------
@@ -568,8 +572,12 @@ constexpr auto slice(LegacyVector<T, idx_t, int_t, direction>& v,
            rows.first == rows.second);
     assert(rows.second >= 0 and (idx_t) rows.second <= size(v));
     assert(rows.first <= rows.second);
+    // The first entries of a backward vector are the last ones in memory
+    const idx_t first = (direction == Direction::Forward)
+                            ? (idx_t)rows.first
+                            : v.n - (idx_t)rows.second;
     return LegacyVector<T, idx_t, int_t, direction>(
-        rows.second - rows.first, &v.ptr[rows.first * v.inc], v.inc);
+        rows.second - rows.first, &v.ptr[first * v.inc], v.inc);
 }
 
 // Reshape LegacyMatrix
@@ -689,8 +697,16 @@ auto reshape(LegacyVector<T, idx_t, int_t, direction>& v,
     if (!is_contiguous && m > 1)
         throw std::domain_error(
             "New sizes are not compatible with the current vector.");
+    if (direction == Direction::Backward && new_size > 1)
+        throw std::domain_error(
+            "A matrix cannot represent entries stored backward.");
 
-    if (is_contiguous) {
+    if (direction == Direction::Backward) {
+        // The first entries of a backward vector are the last ones in memory
+        return std::make_pair(matrix_t(m, n, &v.ptr[s * v.inc]),
+                              vector_t(s, &v.ptr[0], v.inc));
+    }
+    else if (is_contiguous) {
         return std::make_pair(matrix_t(m, n, &v.ptr[0]),
                               vector_t(s, &v.ptr[0] + new_size));
     }
-- 
2.43.0


From c8bcbb501cee70443c358080594cfc62b64698d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:08 +0000
Subject: [PATCH 39/44] fix: lahqz_eig22: NaN for a complex double eigenvalue

---
 include/tlapack/lapack/lahqz_eig22.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/tlapack/lapack/lahqz_eig22.hpp b/include/tlapack/lapack/lahqz_eig22.hpp
index 311ce78..c578065 100644
--- a/include/tlapack/lapack/lahqz_eig22.hpp
+++ b/include/tlapack/lapack/lahqz_eig22.hpp
@@ -216,7 +216,9 @@ void lahqz_eig22(const A_t& A,
         else {
             mu_big = pp - root;
         }
-        TA mu_small = -qq / mu_big;
+        // Both are zero if there is a double eigenvalue equal to the shift
+        TA mu_small(zero);
+        if (mu_big != zero) mu_small = -qq / mu_big;
         alpha1 = shift + mu_big;
         alpha2 = shift + mu_small;
     }
-- 
2.43.0


From 9371dbce9041b3421698225af96b51ab58406f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:34 +0000
Subject: [PATCH 40/44] fix: lahqz_eig22: complex eigenvalues of scaled
 discriminants

---
 include/tlapack/lapack/lahqz_eig22.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/tlapack/lapack/lahqz_eig22.hpp b/include/tlapack/lapack/lahqz_eig22.hpp
index c578065..5d8b48c 100644
--- a/include/tlapack/lapack/lahqz_eig22.hpp
+++ b/include/tlapack/lapack/lahqz_eig22.hpp
@@ -190,24 +190,26 @@ void lahqz_eig22(const A_t& A,
     }
     TA qq = ss * as01;
     TA discr;
-    real_t r;
+    real_t rscale;
     if (abs1(pp * rtmin) >= one) {
         discr = (rtmin * pp) * (rtmin * pp) + qq * safmin;
-        r = sqrt(abs(discr)) * rtmax;
+        rscale = rtmax;
     }
     else {
         if (abs1(pp * pp) + abs1(qq) <= safmin) {
             discr = (rtmax * pp) * (rtmax * pp) + qq * safmax;
-            r = sqrt(abs(discr)) * rtmin;
+            rscale = rtmin;
         }
         else {
             discr = pp * pp + qq;
-            r = sqrt(abs(discr));
+            rscale = one;
         }
     }
 
+    const real_t r = sqrt(abs(discr)) * rscale;
+
     if constexpr (is_complex<TA>) {
-        TA root = sqrt(discr);
+        TA root = sqrt(discr) * rscale;
 
         TA mu_big;
         if (abs1(pp + root) > abs1(pp - root)) {
-- 
2.43.0


From ed757740dd8447cebb427a91277b306cd60153fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:28 +0000
Subject: [PATCH 41/44] fix: hetrf: last pivot depended on the input contents
 of ipiv

---
 include/tlapack/lapack/hetrf_blocked.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/tlapack/lapack/hetrf_blocked.hpp b/include/tlapack/lapack/hetrf_blocked.hpp
index 41517ad..c5bcac5 100644
--- a/include/tlapack/lapack/hetrf_blocked.hpp
+++ b/include/tlapack/lapack/hetrf_blocked.hpp
@@ -84,7 +84,8 @@ int hetrf_blocked_work(uplo_t uplo,
             }
             j -= step;
         }
-        ipiv[0] = min(0, ipiv[0]);
+        // The remaining pivot, if any, is rank 1
+        if (j == 1) ipiv[0] = 0;
     }
     else if (uplo == Uplo::Lower) {
         int j = 0;
@@ -111,7 +112,8 @@ int hetrf_blocked_work(uplo_t uplo,
             }
             j += step;
         }
-        if (ipiv[n - 1] >= 0) ipiv[n - 1] = n - 1;
+        // The remaining pivot, if any, is rank 1
+        if (j == (int)(n)-1) ipiv[n - 1] = n - 1;
     }
     return info;
 }
-- 
2.43.0


From 5985f3541a09effc1c0eef3fcbdc11b0544cb54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:28 +0000
Subject: [PATCH 42/44] fix: hetrf: info did not report a zero last pivot

---
 include/tlapack/lapack/hetrf_blocked.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/tlapack/lapack/hetrf_blocked.hpp b/include/tlapack/lapack/hetrf_blocked.hpp
index c5bcac5..5a14217 100644
--- a/include/tlapack/lapack/hetrf_blocked.hpp
+++ b/include/tlapack/lapack/hetrf_blocked.hpp
@@ -85,7 +85,10 @@ int hetrf_blocked_work(uplo_t uplo,
             j -= step;
         }
         // The remaining pivot, if any, is rank 1
-        if (j == 1) ipiv[0] = 0;
+        if (j == 1) {
+            ipiv[0] = 0;
+            if (info == 0 && A(0, 0) == T(0)) info = 1;
+        }
     }
     else if (uplo == Uplo::Lower) {
         int j = 0;
@@ -113,7 +116,10 @@ int hetrf_blocked_work(uplo_t uplo,
             j += step;
         }
         // The remaining pivot, if any, is rank 1
-        if (j == (int)(n)-1) ipiv[n - 1] = n - 1;
+        if (j == (int)(n)-1) {
+            ipiv[n - 1] = n - 1;
+            if (info == 0 && A(n - 1, n - 1) == T(0)) info = (int)n;
+        }
     }
     return info;
 }
-- 
2.43.0


From c4bca937c68be018ea92fee50d9e0441ecf608ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:40 +0000
Subject: [PATCH 43/44] fix: hetf3: a column that becomes zero was left with
 its old contents

---
 include/tlapack/lapack/hetf3.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tlapack/lapack/hetf3.hpp b/include/tlapack/lapack/hetf3.hpp
index 0a4b965..41a24bd 100644
--- a/include/tlapack/lapack/hetf3.hpp
+++ b/include/tlapack/lapack/hetf3.hpp
@@ -156,7 +156,7 @@ int hetf3(uplo_t uplo,
             if (max(colmax, abs_Ajj) == 0) {
                 piv = j;
                 info = (info == 0) ? j + 1 : info;
-                if (hermitian) A(j, j) = real(A(j, j));
+                copy_(col(Wj0, jW), col(Aj0, j));
             }
             else {
                 if (abs_Ajj >= alpha * colmax) {
@@ -365,7 +365,7 @@ int hetf3(uplo_t uplo,
             if (max(colmax, abs_Ajj) == 0) {
                 piv = j;
                 info = (info == 0) ? j + 1 : info;
-                A(j, j) = real(A(j, j));
+                copy_(col(Wj0, j), col(Aj0, j));
             }
             else {
                 if (abs_Ajj >= alpha * colmax) {
-- 
2.43.0


From 90eac97e185b3f48c3f5c7f1e602053a4e4201b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:27 +0000
Subject: [PATCH 44/44] fix: ungbr_q, ungbr_p: out of range access for an empty
 matrix

---
 include/tlapack/lapack/ungbr.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/tlapack/lapack/ungbr.hpp b/include/tlapack/lapack/ungbr.hpp
index 642ee29..a478e09 100644
--- a/include/tlapack/lapack/ungbr.hpp
+++ b/include/tlapack/lapack/ungbr.hpp
@@ -56,6 +56,9 @@ constexpr WorkInfo ungbr_q_worksize(const size_type<matrix_t> k,
     // constants
     const idx_t m = nrows(A);
 
+    // Quick return if possible
+    if (m == 0) return WorkInfo(0);
+
     if (m >= k) {
         return ungq_worksize<T>(FORWARD, COLUMNWISE_STORAGE, A, tau,
                                 UngqOpts{opts.nb});
@@ -100,6 +103,9 @@ constexpr WorkInfo ungbr_p_worksize(const size_type<matrix_t> k,
     // constants
     const idx_t n = ncols(A);
 
+    // Quick return if possible
+    if (n == 0) return WorkInfo(0);
+
     if (n <= k) {
         auto&& A2 = slice(A, range{0, n - 1}, range{0, n - 1});
         auto&& tau2 = slice(tau, range{0, n - 1});
@@ -139,6 +145,9 @@ int ungbr_q_work(const size_type<matrix_t> k,
     const real_t one(1);
     const idx_t m = nrows(A);
 
+    // Quick return if possible
+    if (m == 0) return 0;
+
     if (m >= k) {
         // If m >= k, assume m >= n >= k
         ungq_work(FORWARD, COLUMNWISE_STORAGE, A, tau, work, UngqOpts{opts.nb});
@@ -244,6 +253,9 @@ int ungbr_p_work(const size_type<matrix_t> k,
     const real_t one(1);
     const idx_t n = ncols(A);
 
+    // Quick return if possible
+    if (n == 0) return 0;
+
     //
     // Form P**H, determined by a call to gebrd to reduce a k-by-n
     // matrix
-- 
2.43.0

