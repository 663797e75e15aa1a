From 7ecfba35291e13fb96f3eff98867f0ae707c7ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:27 +0000
Subject: [PATCH 01/45] fix: report the distribution mode of ellblock and
 distributed2d matrices

---
 src/C-interface/bml_introspection.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/C-interface/bml_introspection.c b/src/C-interface/bml_introspection.c
index c5470fa..bb95d7d 100644
--- a/src/C-interface/bml_introspection.c
+++ b/src/C-interface/bml_introspection.c
@@ -282,6 +282,14 @@ bml_get_distribution_mode(
         case csr:
             return bml_get_distribution_mode_csr(A);
             break;
+        case ellblock:
+            return bml_get_distribution_mode_ellblock(A);
+            break;
+#ifdef BML_USE_MPI
+        case distributed2d:
+            return bml_get_distribution_mode_distributed2d(A);
+            break;
+#endif
         default:
             LOG_ERROR("unknown matrix type in bml_get_distribution_mode\n");
             break;
-- 
2.43.0


From bb7cdb08ec8a40df168a9c47eb55292e9340cf5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:52 +0000
Subject: [PATCH 02/45] fix: typed element getters return the element instead
 of reading a register

---
 src/C-interface/bml_elemental.c | 60 +++++++--------------------------
 1 file changed, 13 insertions(+), 47 deletions(-)

diff --git a/src/C-interface/bml_elemental.c b/src/C-interface/bml_elemental.c
index a350e96..82ae079 100644
--- a/src/C-interface/bml_elemental.c
+++ b/src/C-interface/bml_elemental.c
@@ -1,8 +1,7 @@
 #include "bml_elemental.h"
+#include "bml_getters.h"
 #include "bml_introspection.h"
 #include "bml_logger.h"
-#include "dense/bml_elemental_dense.h"
-#include "ellpack/bml_elemental_ellpack.h"
 
 #ifdef BML_COMPLEX
 #include <complex.h>
@@ -21,19 +20,11 @@ bml_get_element_single_real(
     int i,
     int j)
 {
-    switch (bml_get_type(A))
+    if (bml_get_precision(A) != single_real)
     {
-        case dense:
-            return bml_get_element_dense_single_real(A, i, j);
-            break;
-        case ellpack:
-            return bml_get_element_ellpack_single_real(A, i, j);
-            break;
-        default:
-            LOG_ERROR("unknown matrix type\n");
-            break;
+        LOG_ERROR("matrix precision is not single_real\n");
     }
-    return -1;
+    return *(float *) bml_get_element(A, i, j);
 }
 
 /** Return a single matrix element.
@@ -49,19 +40,11 @@ bml_get_element_double_real(
     int i,
     int j)
 {
-    switch (bml_get_type(A))
+    if (bml_get_precision(A) != double_real)
     {
-        case dense:
-            return bml_get_element_dense_double_real(A, i, j);
-            break;
-        case ellpack:
-            return bml_get_element_ellpack_double_real(A, i, j);
-            break;
-        default:
-            LOG_ERROR("unknown matrix type\n");
-            break;
+        LOG_ERROR("matrix precision is not double_real\n");
     }
-    return -1;
+    return *(double *) bml_get_element(A, i, j);
 }
 
 #ifdef BML_COMPLEX
@@ -78,19 +61,11 @@ bml_get_element_single_complex(
     int i,
     int j)
 {
-    switch (bml_get_type(A))
+    if (bml_get_precision(A) != single_complex)
     {
-        case dense:
-            return bml_get_element_dense_single_complex(A, i, j);
-            break;
-        case ellpack:
-            return bml_get_element_ellpack_single_complex(A, i, j);
-            break;
-        default:
-            LOG_ERROR("unknown matrix type\n");
-            break;
+        LOG_ERROR("matrix precision is not single_complex\n");
     }
-    return -1;
+    return *(float complex *) bml_get_element(A, i, j);
 }
 
 /** Return a single matrix element.
@@ -106,19 +81,10 @@ bml_get_element_double_complex(
     int i,
     int j)
 {
-    switch (bml_get_type(A))
+    if (bml_get_precision(A) != double_complex)
     {
-        case dense:
-            return bml_get_element_dense_double_complex(A, i, j);
-            break;
-        case ellpack:
-            return bml_get_element_ellpack_double_complex(A, i, j);
-            break;
-
-        default:
-            LOG_ERROR("unknown matrix type\n");
-            break;
+        LOG_ERROR("matrix precision is not double_complex\n");
     }
-    return -1;
+    return *(double complex *) bml_get_element(A, i, j);
 }
 #endif
-- 
2.43.0


From f6771bc84ea65c6c5fe8159e4bdc9b9562fbb196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:07 +0000
Subject: [PATCH 03/45] fix: start the Gershgorin maximum from -DBL_MAX

---
 src/C-interface/csr/bml_normalize_csr_typed.c                 | 4 ++--
 src/C-interface/dense/bml_normalize_dense_typed.c             | 4 ++--
 .../distributed2d/bml_normalize_distributed2d_typed.c         | 2 +-
 src/C-interface/ellblock/bml_normalize_ellblock_typed.c       | 2 +-
 src/C-interface/ellpack/bml_normalize_ellpack_typed.c         | 4 ++--
 5 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/C-interface/csr/bml_normalize_csr_typed.c b/src/C-interface/csr/bml_normalize_csr_typed.c
index 6db4d27..5096e72 100644
--- a/src/C-interface/csr/bml_normalize_csr_typed.c
+++ b/src/C-interface/csr/bml_normalize_csr_typed.c
@@ -86,7 +86,7 @@ void *TYPED_FUNC(
     REAL_T radius, absham, dvalue;
 
     double emin = DBL_MAX;
-    double emax = DBL_MIN;
+    double emax = -DBL_MAX;
 
     double *eval = bml_allocate_memory(sizeof(double) * 2);
 
@@ -168,7 +168,7 @@ void *TYPED_FUNC(
     REAL_T radius, absham, dvalue;
 
     double emin = DBL_MAX;
-    double emax = DBL_MIN;
+    double emax = -DBL_MAX;
 
     double *eval = bml_allocate_memory(sizeof(double) * 2);
 
diff --git a/src/C-interface/dense/bml_normalize_dense_typed.c b/src/C-interface/dense/bml_normalize_dense_typed.c
index 289f486..e604c84 100644
--- a/src/C-interface/dense/bml_normalize_dense_typed.c
+++ b/src/C-interface/dense/bml_normalize_dense_typed.c
@@ -108,7 +108,7 @@ void *TYPED_FUNC(
     int myRank = bml_getMyRank();
 
     double emin = DBL_MAX;
-    double emax = DBL_MIN;
+    double emax = -DBL_MAX;
 
     double *eval = bml_allocate_memory(sizeof(double) * 2);
 #ifdef BML_USE_MAGMA
@@ -199,7 +199,7 @@ void *TYPED_FUNC(
     REAL_T *A_matrix = (REAL_T *) A->matrix;
 
     double emin = DBL_MAX;
-    double emax = DBL_MIN;
+    double emax = -DBL_MAX;
 
     double *eval = bml_allocate_memory(sizeof(double) * 2);
 
diff --git a/src/C-interface/distributed2d/bml_normalize_distributed2d_typed.c b/src/C-interface/distributed2d/bml_normalize_distributed2d_typed.c
index 31d3ab2..e37d487 100644
--- a/src/C-interface/distributed2d/bml_normalize_distributed2d_typed.c
+++ b/src/C-interface/distributed2d/bml_normalize_distributed2d_typed.c
@@ -41,7 +41,7 @@ void *TYPED_FUNC(
     free(offdiag_sum);
 
     double emin = DBL_MAX;
-    double emax = DBL_MIN;
+    double emax = -DBL_MAX;
 
     if (A->myprow == A->mypcol)
     {
diff --git a/src/C-interface/ellblock/bml_normalize_ellblock_typed.c b/src/C-interface/ellblock/bml_normalize_ellblock_typed.c
index 4f957f8..a181d33 100644
--- a/src/C-interface/ellblock/bml_normalize_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_normalize_ellblock_typed.c
@@ -100,7 +100,7 @@ void *TYPED_FUNC(
     bml_matrix_ellblock_t * A)
 {
     double emin = DBL_MAX;
-    double emax = DBL_MIN;
+    double emax = -DBL_MAX;
 
     double *eval = bml_allocate_memory(sizeof(double) * 2);
 
diff --git a/src/C-interface/ellpack/bml_normalize_ellpack_typed.c b/src/C-interface/ellpack/bml_normalize_ellpack_typed.c
index 0cac81b..4ee1c3b 100644
--- a/src/C-interface/ellpack/bml_normalize_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_normalize_ellpack_typed.c
@@ -86,7 +86,7 @@ void *TYPED_FUNC(
     REAL_T radius, absham, dvalue;
 
     double emin = DBL_MAX;
-    double emax = DBL_MIN;
+    double emax = -DBL_MAX;
 
     double *eval = bml_allocate_memory(sizeof(double) * 2);
 
@@ -191,7 +191,7 @@ void *TYPED_FUNC(
     REAL_T radius, absham, dvalue;
 
     double emin = DBL_MAX;
-    double emax = DBL_MIN;
+    double emax = -DBL_MAX;
 
     double *eval = bml_allocate_memory(sizeof(double) * 2);
 
-- 
2.43.0


From afac67eb4bc7d44081d75034377f6fbe6ca4e583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:07 +0000
Subject: [PATCH 04/45] fix: ellblock clear, add and copy release and check
 block storage

---
 .../ellblock/bml_add_ellblock_typed.c         | 52 +++++++++++++------
 .../ellblock/bml_allocate_ellblock.h          | 13 +++++
 .../ellblock/bml_allocate_ellblock_typed.c    | 41 ++++++++++-----
 .../ellblock/bml_copy_ellblock_typed.c        |  3 +-
 4 files changed, 79 insertions(+), 30 deletions(-)

diff --git a/src/C-interface/ellblock/bml_add_ellblock_typed.c b/src/C-interface/ellblock/bml_add_ellblock_typed.c
index 64f0a2b..1402339 100644
--- a/src/C-interface/ellblock/bml_add_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_add_ellblock_typed.c
@@ -2,6 +2,7 @@
 #include "../../typed.h"
 #include "../bml_add.h"
 #include "../bml_allocate.h"
+#include "../bml_logger.h"
 #include "../bml_parallel.h"
 #include "../bml_types.h"
 #include "bml_add_ellblock.h"
@@ -140,7 +141,7 @@ void TYPED_FUNC(
         if (beta > (double) 0.0 || beta < (double) 0.0)
             for (int jp = 0; jp < B_nnzb[ib]; jp++)
             {
-                int ind = ROWMAJOR(ib, jp, NB, MB);
+                int ind = ROWMAJOR(ib, jp, NB, B->MB);
                 int jb = B_indexb[ind];
                 REAL_T *x = x_ptr[jb];
                 int nelements = bsize[ib] * bsize[jb];
@@ -160,7 +161,7 @@ void TYPED_FUNC(
                     x[kk] = x[kk] + beta * B_value[kk];
                 }
             }
-        A_nnzb[ib] = l;
+        TYPED_FUNC(bml_free_block_row_ellblock) (A, ib);
 
         int ll = 0;
         for (int jp = 0; jp < l; jp++)
@@ -172,14 +173,15 @@ void TYPED_FUNC(
             int nelements = bsize[ib] * bsize[jb];
             if (is_above_threshold(normx, threshold))
             {
-                int kb = ROWMAJOR(ib, ll, NB, MB);
-                if (A_ptr_value[kb] == NULL)
+                if (ll == MB)
                 {
-                    A_ptr_value[kb]
-                        =
-                        TYPED_FUNC(bml_allocate_block_ellblock) (A, ib,
-                                                                 nelements);
+                    LOG_ERROR
+                        ("Number of non-zero blocks per row > MB, Increase MB\n");
                 }
+                int kb = ROWMAJOR(ib, ll, NB, MB);
+                A_ptr_value[kb] =
+                    TYPED_FUNC(bml_allocate_block_ellblock) (A, ib,
+                                                             nelements);
                 for (int kk = 0; kk < nelements; kk++)
                 {
                     A_ptr_value[kb][kk] = x[kk];
@@ -235,17 +237,21 @@ double TYPED_FUNC(
 
     memset(ix, 0, NB * sizeof(int));
     memset(jx, 0, NB * sizeof(int));
-    x[0] = (REAL_T *) calloc(BMAXSIZE * NB, sizeof(REAL_T));
+    int maxbsize = 0;
+    for (int ib = 0; ib < NB; ib++)
+        maxbsize = MAX(maxbsize, bsize[ib]);
+    int maxbsize2 = maxbsize * maxbsize;
+    x[0] = (REAL_T *) calloc(maxbsize2 * NB, sizeof(REAL_T));
     for (int i = 1; i < NB; i++)
     {
-        x[i] = x[0] + i * BMAXSIZE;
+        x[i] = x[0] + i * maxbsize2;
     }
 
     REAL_T *y[NB];
-    y[0] = (REAL_T *) calloc(BMAXSIZE * NB, sizeof(REAL_T));
+    y[0] = (REAL_T *) calloc(maxbsize2 * NB, sizeof(REAL_T));
     for (int i = 1; i < NB; i++)
     {
-        y[i] = y[0] + i * BMAXSIZE;
+        y[i] = y[0] + i * maxbsize2;
     }
 
 
@@ -282,7 +288,7 @@ double TYPED_FUNC(
 
         for (int jp = 0; jp < B_nnzb[ib]; jp++)
         {
-            int ind = ROWMAJOR(ib, jp, NB, MB);
+            int ind = ROWMAJOR(ib, jp, NB, B->MB);
             int jb = B_indexb[ind];
             if (ix[jb] == 0)
             {
@@ -306,7 +312,7 @@ double TYPED_FUNC(
                     y[jb][kk] = y[jb][kk] - B_value[kk];
                 }
         }
-        A_nnzb[ib] = l;
+        TYPED_FUNC(bml_free_block_row_ellblock) (A, ib);
 
         int ll = 0;
         for (int jp = 0; jp < l; jp++)
@@ -315,12 +321,20 @@ double TYPED_FUNC(
             REAL_T *xTmp = x[jb];
             REAL_T normx = TYPED_FUNC(bml_norm_inf)
                 (x[jb], bsize[ib], bsize[jb], bsize[jb]);
-            REAL_T normy = TYPED_FUNC(bml_sum_squares)
+            trnorm += TYPED_FUNC(bml_sum_squares)
                 (y[jb], bsize[ib], bsize[jb], bsize[jb]);
-            trnorm += normy * normy;
             if (is_above_threshold(normx, threshold))
             {
+                if (ll == MB)
+                {
+                    LOG_ERROR
+                        ("Number of non-zero blocks per row > MB, Increase MB\n");
+                }
                 int kb = ROWMAJOR(ib, ll, NB, MB);
+                A_ptr_value[kb] =
+                    TYPED_FUNC(bml_allocate_block_ellblock) (A, ib,
+                                                             bsize[ib] *
+                                                             bsize[jb]);
                 for (int ii = 0; ii < bsize[ib]; ii++)
                     for (int jj = 0; jj < bsize[jb]; jj++)
                     {
@@ -338,6 +352,9 @@ double TYPED_FUNC(
         A_nnzb[ib] = ll;
     }
 
+    free(x[0]);
+    free(y[0]);
+
     return trnorm;
 }
 
@@ -388,7 +405,8 @@ void TYPED_FUNC(
     double threshold)
 {
     // scale then update diagonal
-    TYPED_FUNC(bml_scale_inplace_ellblock) (&alpha, A);
+    REAL_T _alpha = (REAL_T) alpha;
+    TYPED_FUNC(bml_scale_inplace_ellblock) (&_alpha, A);
 
     TYPED_FUNC(bml_add_identity_ellblock) (A, beta, threshold);
 }
diff --git a/src/C-interface/ellblock/bml_allocate_ellblock.h b/src/C-interface/ellblock/bml_allocate_ellblock.h
index 955175d..b74aa90 100644
--- a/src/C-interface/ellblock/bml_allocate_ellblock.h
+++ b/src/C-interface/ellblock/bml_allocate_ellblock.h
@@ -227,6 +227,19 @@ void *bml_allocate_block_ellblock_double_complex(
     const int ib,
     const int nelements);
 
+void bml_free_block_row_ellblock_single_real(
+    bml_matrix_ellblock_t * A,
+    const int ib);
+void bml_free_block_row_ellblock_double_real(
+    bml_matrix_ellblock_t * A,
+    const int ib);
+void bml_free_block_row_ellblock_single_complex(
+    bml_matrix_ellblock_t * A,
+    const int ib);
+void bml_free_block_row_ellblock_double_complex(
+    bml_matrix_ellblock_t * A,
+    const int ib);
+
 void bml_free_block_ellblock_single_real(
     bml_matrix_ellblock_t * A,
     const int ib,
diff --git a/src/C-interface/ellblock/bml_allocate_ellblock_typed.c b/src/C-interface/ellblock/bml_allocate_ellblock_typed.c
index 43fc371..daea889 100644
--- a/src/C-interface/ellblock/bml_allocate_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_allocate_ellblock_typed.c
@@ -116,6 +116,34 @@ void TYPED_FUNC(
     A->nnzb[ib]--;
 }
 
+/** Release all the blocks of a block row.
+ *
+ * \ingroup allocate_group
+ *
+ * \param A The matrix.
+ * \param ib The block row.
+ */
+void TYPED_FUNC(
+    bml_free_block_row_ellblock) (
+    bml_matrix_ellblock_t * A,
+    const int ib)
+{
+#ifdef BML_ELLBLOCK_USE_MEMPOOL
+    A->memory_pool_ptr[ib] =
+        (REAL_T *) A->memory_pool + A->memory_pool_offsets[ib];
+#endif
+    for (int jp = 0; jp < A->nnzb[ib]; jp++)
+    {
+        int ind = ROWMAJOR(ib, jp, A->NB, A->MB);
+#ifndef BML_ELLBLOCK_USE_MEMPOOL
+        bml_free_memory(A->ptr_value[ind]);
+#endif
+        A->ptr_value[ind] = NULL;
+        A->indexb[ind] = -1;
+    }
+    A->nnzb[ib] = 0;
+}
+
 /** Clear a matrix.
  *
  * Numbers of non-zeroes/row are set to zero.
@@ -128,19 +156,8 @@ void TYPED_FUNC(
     bml_clear_ellblock) (
     bml_matrix_ellblock_t * A)
 {
-#ifdef BML_ELLBLOCK_USE_MEMPOOL
-    for (int ib = 0; ib < A->NB; ib++)
-        A->memory_pool_ptr[ib] =
-            (REAL_T *) A->memory_pool + A->memory_pool_offsets[ib];
-#else
     for (int ib = 0; ib < A->NB; ib++)
-        for (int jp = 0; jp < A->nnzb[ib]; jp++)
-        {
-            int ind = ROWMAJOR(ib, jp, A->NB, A->MB);
-            bml_free_memory(A->ptr_value[ind]);
-        }
-#endif
-    memset(A->nnzb, 0, A->NB * sizeof(int));
+        TYPED_FUNC(bml_free_block_row_ellblock) (A, ib);
 }
 
 bml_matrix_ellblock_t
diff --git a/src/C-interface/ellblock/bml_copy_ellblock_typed.c b/src/C-interface/ellblock/bml_copy_ellblock_typed.c
index eff8bf1..d3ec74f 100644
--- a/src/C-interface/ellblock/bml_copy_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_copy_ellblock_typed.c
@@ -42,7 +42,6 @@ bml_matrix_ellblock_t
     for (int ib = 0; ib < NB; ib++)
     {
         assert(B->bsize[ib] > 0);
-        assert(B->bsize[ib] < 10);
         for (int jp = 0; jp < A->nnzb[ib]; jp++)
         {
             int ind = ROWMAJOR(ib, jp, NB, MB);
@@ -74,6 +73,8 @@ void TYPED_FUNC(
     bml_matrix_ellblock_t * B)
 {
     assert(A->NB == B->NB);
+    if (A == B)
+        return;
 
     int NB = A->NB;
     int MB = A->MB;
-- 
2.43.0


From 4c33a8a7acea3e545749565ae8c44314d129f021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:07 +0000
Subject: [PATCH 05/45] fix: dense norms of complex matrices, trace of a
 product, A+A

---
 src/C-interface/dense/bml_add_dense_typed.c   | 14 ++++++++++--
 src/C-interface/dense/bml_norm_dense_typed.c  | 22 +++++--------------
 src/C-interface/dense/bml_trace_dense_typed.c |  9 ++++++--
 3 files changed, 25 insertions(+), 20 deletions(-)

diff --git a/src/C-interface/dense/bml_add_dense_typed.c b/src/C-interface/dense/bml_add_dense_typed.c
index 95938b0..4ef3c8c 100644
--- a/src/C-interface/dense/bml_add_dense_typed.c
+++ b/src/C-interface/dense/bml_add_dense_typed.c
@@ -134,6 +134,13 @@ void TYPED_FUNC(
 #ifdef NOBLAS
     LOG_ERROR("No BLAS library");
 #else
+    if (A == B)
+    {
+        // scaling A in place would also change B
+        alpha_ = alpha + beta;
+        C_BLAS(SCAL) (&nElems, &alpha_, A->matrix + startIndex, &inc);
+        return;
+    }
     C_BLAS(SCAL) (&nElems, &alpha_, A->matrix + startIndex, &inc);
     C_BLAS(AXPY) (&nElems, &beta_, B->matrix + startIndex, &inc,
                   A->matrix + startIndex, &inc);
@@ -160,6 +167,7 @@ double TYPED_FUNC(
     double beta)
 {
     double trnorm = 0.0;
+    REAL_T *A_matrix = (REAL_T *) A->matrix;
     REAL_T *B_matrix = (REAL_T *) B->matrix;
     int myRank = bml_getMyRank();
     int N = A->N;
@@ -168,14 +176,16 @@ double TYPED_FUNC(
     int *A_localRowMax = A->domain->localRowMax;
 
 #pragma omp parallel for                                \
-  shared(B_matrix, A_localRowMin, A_localRowMax)        \
+  shared(A_matrix, B_matrix)                            \
+  shared(A_localRowMin, A_localRowMax)                  \
   shared(N, myRank)                                     \
   reduction(+:trnorm)
     //for (int i = 0; i < N * N; i++)
     for (int i = A_localRowMin[myRank] * N; i < A_localRowMax[myRank] * N;
          i++)
     {
-        trnorm += B_matrix[i] * B_matrix[i];
+        REAL_T temp = A_matrix[i] - B_matrix[i];
+        trnorm += temp * COMPLEX_CONJUGATE(temp);
     }
 
     TYPED_FUNC(bml_add_dense) (A, B, alpha, beta);
diff --git a/src/C-interface/dense/bml_norm_dense_typed.c b/src/C-interface/dense/bml_norm_dense_typed.c
index 462e16e..f76d3c7 100644
--- a/src/C-interface/dense/bml_norm_dense_typed.c
+++ b/src/C-interface/dense/bml_norm_dense_typed.c
@@ -77,7 +77,7 @@ double TYPED_FUNC(
     for (int i = A_localRowMin[myRank] * N; i < A_localRowMax[myRank] * N;
          i++)
     {
-        sum += A_matrix[i] * A_matrix[i];
+        sum += A_matrix[i] * COMPLEX_CONJUGATE(A_matrix[i]);
     }
 #endif
 
@@ -133,22 +133,14 @@ double TYPED_FUNC(
 #pragma omp parallel for                        \
   shared(N, A_matrix)                           \
   reduction(+:sum)
-    for (int i = 0; i < core_size * N; i++)
-    {
-        sum += A_matrix[i] * A_matrix[i];
-    }
-
-/*
     for (int i = 0; i < core_size; i++)
     {
-        //for (int j = 0; j < core_size; j++)
-        for (int j = 0; j < N; j++)
+        for (int j = 0; j < core_size; j++)
         {
             REAL_T value = A_matrix[ROWMAJOR(i, j, N, N)];
-            sum += value * value;
+            sum += value * COMPLEX_CONJUGATE(value);
         }
     }
-*/
 #endif
 
     return (double) REAL_PART(sum);
@@ -297,7 +289,7 @@ double TYPED_FUNC(
         REAL_T temp = alpha_ * A_matrix[i] + beta_ * B_matrix[i];
 #endif
         if (ABS(temp) > threshold)
-            sum += temp * temp;
+            sum += temp * COMPLEX_CONJUGATE(temp);
     }
 #ifdef BML_USE_MAGMA
     free(A_matrix);
@@ -353,7 +345,6 @@ double TYPED_FUNC(
     int *A_localRowMax = A->domain->localRowMax;
 
     double fnorm = 0.0;
-    REAL_T temp;
 
     int myRank = bml_getMyRank();
 
@@ -362,7 +353,6 @@ double TYPED_FUNC(
 #pragma omp target update from(B_matrix[0:N*N])
 #endif
 #pragma omp parallel for                        \
-  shared(temp)                                  \
   shared(N, A_matrix, B_matrix)                 \
   shared(A_localRowMin, A_localRowMax, myRank)  \
   reduction(+:fnorm)
@@ -370,8 +360,8 @@ double TYPED_FUNC(
     for (int i = A_localRowMin[myRank] * N; i < A_localRowMax[myRank] * N;
          i++)
     {
-        temp = A_matrix[i] - B_matrix[i];
-        fnorm += temp * temp;
+        REAL_T temp = A_matrix[i] - B_matrix[i];
+        fnorm += temp * COMPLEX_CONJUGATE(temp);
     }
 
 #ifdef BML_USE_MPI
diff --git a/src/C-interface/dense/bml_trace_dense_typed.c b/src/C-interface/dense/bml_trace_dense_typed.c
index 2beddd8..af60ae9 100644
--- a/src/C-interface/dense/bml_trace_dense_typed.c
+++ b/src/C-interface/dense/bml_trace_dense_typed.c
@@ -143,9 +143,14 @@ double TYPED_FUNC(
   shared(N, A_matrix, B_matrix)                 \
   shared(rowMin, rowMax, myRank)  \
   reduction(+:trace)
-    for (int i = rowMin * N; i < rowMax * N; i++)
+    for (int i = rowMin; i < rowMax; i++)
     {
-        trace += A_matrix[i] * B_matrix[i];
+        for (int j = 0; j < N; j++)
+        {
+            trace +=
+                A_matrix[ROWMAJOR(i, j, N, N)] *
+                B_matrix[ROWMAJOR(j, i, N, N)];
+        }
     }
 
 #ifdef MKL_GPU
-- 
2.43.0


From 71c5866311987a81d24ce56bcbfed0f9f9cec362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:07 +0000
Subject: [PATCH 06/45] fix: ellpack capacity checks, conjugate norms, trace of
 a product

---
 .../ellpack/bml_add_ellpack_typed.c           | 31 +++++++---
 .../bml_adjungate_triangle_ellpack_typed.c    | 60 +++++++++++++++----
 .../ellpack/bml_convert_ellpack_typed.c       |  6 +-
 .../ellpack/bml_copy_ellpack_typed.c          | 21 ++++---
 .../ellpack/bml_import_ellpack_typed.c        |  5 ++
 .../ellpack/bml_multiply_ellpack_typed.c      | 52 ++++++++--------
 .../ellpack/bml_norm_ellpack_typed.c          | 29 ++++-----
 .../ellpack/bml_setters_ellpack_typed.c       | 27 ++++++++-
 .../ellpack/bml_submatrix_ellpack_typed.c     |  2 +-
 .../ellpack/bml_trace_ellpack_typed.c         | 26 ++++----
 .../ellpack/bml_transpose_ellpack_typed.c     | 41 +++++++++++++
 .../ellpack/bml_utilities_ellpack_typed.c     | 19 ++++++
 12 files changed, 234 insertions(+), 85 deletions(-)

diff --git a/src/C-interface/ellpack/bml_add_ellpack_typed.c b/src/C-interface/ellpack/bml_add_ellpack_typed.c
index 7bed4ed..f268c8f 100644
--- a/src/C-interface/ellpack/bml_add_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_add_ellpack_typed.c
@@ -2,6 +2,7 @@
 #include "../../typed.h"
 #include "../bml_add.h"
 #include "../bml_allocate.h"
+#include "../bml_logger.h"
 #include "../bml_parallel.h"
 #include "../bml_types.h"
 #include "bml_add_ellpack.h"
@@ -195,6 +196,11 @@ void TYPED_FUNC(
             REAL_T xTmp = x[jind];
             if (is_above_threshold(xTmp, threshold))
             {
+#ifndef USE_OMP_OFFLOAD
+                if (ll == A_M)
+                    LOG_ERROR
+                        ("Number of non-zeroes per row > M, Increase M\n");
+#endif
                 A_value[ROWMAJOR(i, ll, N, A_M)] = xTmp;
                 A_index[ROWMAJOR(i, ll, N, A_M)] = jind;
                 ll++;
@@ -382,9 +388,14 @@ double TYPED_FUNC(
         {
             int jind = jx[jp];
             REAL_T xTmp = x[jind];
-            trnorm += y[jind] * y[jind];
+            trnorm += y[jind] * COMPLEX_CONJUGATE(y[jind]);
             if (is_above_threshold(xTmp, threshold))
             {
+#ifndef USE_OMP_OFFLOAD
+                if (ll == A_M)
+                    LOG_ERROR
+                        ("Number of non-zeroes per row > M, Increase M\n");
+#endif
                 A_value[ROWMAJOR(i, ll, N, A_M)] = xTmp;
                 A_index[ROWMAJOR(i, ll, N, A_M)] = jind;
                 ll++;
@@ -433,11 +444,12 @@ void TYPED_FUNC(
     //Should be safe to use BML_OFFLOAD_CHUNKS here but preserving old version
     //#if !(defined(__IBMC__) || defined(__ibmxl__) || (defined(USE_OMP_OFFLOAD) && (defined(INTEL_SDK) || defined(CRAY_SDK))))
 #if !(defined(__IBMC__) || defined(__ibmxl__) || (defined(USE_OMP_OFFLOAD) && BML_OFFLOAD_CHUNKS ))
-    int jx[A_M];
-    REAL_T x[A_M];
+    // the diagonal may come on top of a full row
+    int jx[A_M + 1];
+    REAL_T x[A_M + 1];
 
-    memset(jx, 0, A_M * sizeof(int));
-    memset(x, 0.0, A_M * sizeof(REAL_T));
+    memset(jx, 0, (A_M + 1) * sizeof(int));
+    memset(x, 0.0, (A_M + 1) * sizeof(REAL_T));
 #endif
 
 #if BML_OFFLOAD_CHUNKS
@@ -494,8 +506,8 @@ void TYPED_FUNC(
     {
 
 #if defined(__IBMC__) || defined(__ibmxl__)
-        int jx[A_M];
-        REAL_T x[A_M];
+        int jx[A_M + 1];
+        REAL_T x[A_M + 1];
 #endif
 #endif
         int l = 0;
@@ -533,6 +545,11 @@ void TYPED_FUNC(
             REAL_T xTmp = x[jp];
             if (is_above_threshold(xTmp, threshold))
             {
+#ifndef USE_OMP_OFFLOAD
+                if (ll == A_M)
+                    LOG_ERROR
+                        ("Number of non-zeroes per row > M, Increase M\n");
+#endif
                 A_value[ROWMAJOR(i, ll, N, A_M)] = xTmp;
                 A_index[ROWMAJOR(i, ll, N, A_M)] = jind;
                 ll++;
diff --git a/src/C-interface/ellpack/bml_adjungate_triangle_ellpack_typed.c b/src/C-interface/ellpack/bml_adjungate_triangle_ellpack_typed.c
index 67b2279..47bc8a9 100644
--- a/src/C-interface/ellpack/bml_adjungate_triangle_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_adjungate_triangle_ellpack_typed.c
@@ -1,5 +1,6 @@
 #include "../../macros.h"
 #include "../../typed.h"
+#include "../bml_allocate.h"
 #include "../bml_introspection.h"
 #include "../bml_logger.h"
 #include "../bml_types.h"
@@ -38,29 +39,51 @@ void TYPED_FUNC(
     int *A_index = A->index;
     int *A_nnz = A->nnz;
 #ifdef _OPENMP
-    omp_lock_t lock[A_M];
+    omp_lock_t lock[A_N];
 #endif
 
+#if defined(USE_OMP_OFFLOAD)
+#pragma omp target update from(A_value[:A_N*A_M], A_index[:A_N*A_M], A_nnz[:A_N])
+#endif
+
+    // the entries the mirrored triangle held before are replaced
+    int *source_nnz = bml_noinit_allocate_memory(sizeof(int) * A_N);
+#pragma omp parallel for                                \
+  shared(A_N, A_M, A_index, A_nnz, A_value, source_nnz) \
+  private(l, ll)
+    for (int i = 0; i < A_N; i++)
+    {
+        l = 0;
+        for (int j = 0; j < A_nnz[i]; j++)
+        {
+            ll = A_index[ROWMAJOR(i, j, A_N, A_M)];
+            if ((*triangle == 'u' && ll < i) || (*triangle == 'l' && ll > i))
+                continue;
+            A_index[ROWMAJOR(i, l, A_N, A_M)] = ll;
+            A_value[ROWMAJOR(i, l, A_N, A_M)] =
+                A_value[ROWMAJOR(i, j, A_N, A_M)];
+            l++;
+        }
+        A_nnz[i] = l;
+        source_nnz[i] = l;
+    }
+
     switch (*triangle)
     {
         case 'u':
 #ifdef _OPENMP
-            for (int i = 0; i < A_M; i++)
+            for (int i = 0; i < A_N; i++)
                 omp_init_lock(&(lock[i]));
 #endif
 
-#if defined(USE_OMP_OFFLOAD)
-#pragma omp target update from(A_value[:A_N*A_M], A_index[:A_N*A_M], A_nnz[:A_N])
-#endif
-
 #pragma omp parallel for                          \
-  shared(A_N, A_M, A_index, A_nnz, A_value, lock) \
+  shared(A_N, A_M, A_index, A_nnz, A_value, lock, source_nnz) \
   private(l, ll)
             // WARNING: Please, check for race conditions ...
 
             for (int i = 0; i < A_N; i++)       // For every row
             {
-                l = A_nnz[i];
+                l = source_nnz[i];
                 for (int j = 0; j < l; j++)     // We search for indices gt 0.
                 {
                     ll = A_index[ROWMAJOR(i, j, A_N, A_M)];
@@ -71,6 +94,11 @@ void TYPED_FUNC(
 #ifdef _OPENMP
                             omp_set_lock(&(lock[ll]));
 #endif
+                            if (A_nnz[ll] == A_M)
+                            {
+                                LOG_ERROR
+                                    ("Number of non-zeroes per row > M, Increase M\n");
+                            }
                             A_index[ROWMAJOR(ll, A_nnz[ll], A_N, A_M)] = i;
                             A_value[ROWMAJOR(ll, A_nnz[ll], A_N, A_M)] =
                                 conj(A_value[ROWMAJOR(i, j, A_N, A_M)]);
@@ -84,7 +112,7 @@ void TYPED_FUNC(
                 }
             }
 #ifdef _OPENMP
-            for (int i = 0; i < A_M; i++)
+            for (int i = 0; i < A_N; i++)
                 omp_destroy_lock(&(lock[i]));
 #endif
 
@@ -92,17 +120,17 @@ void TYPED_FUNC(
 
         case 'l':
 #ifdef _OPENMP
-            for (int i = 0; i < A_M; i++)
+            for (int i = 0; i < A_N; i++)
                 omp_init_lock(&(lock[i]));
 #endif
 
 #pragma omp parallel for                                \
-  shared(lock, A_N, A_M, A_index, A_nnz, A_value)       \
+  shared(lock, A_N, A_M, A_index, A_nnz, A_value, source_nnz) \
   private(l, ll)
             //    WARNING: Please, check for race conditions and parallel performances ...
             for (int i = 0; i < A_N; i++)
             {
-                l = A_nnz[i];
+                l = source_nnz[i];
                 for (int j = 0; j < l; j++)
                 {
                     ll = A_index[ROWMAJOR(i, j, A_N, A_M)];
@@ -113,6 +141,11 @@ void TYPED_FUNC(
 #ifdef _OPENMP
                             omp_set_lock(&(lock[ll]));
 #endif
+                            if (A_nnz[ll] == A_M)
+                            {
+                                LOG_ERROR
+                                    ("Number of non-zeroes per row > M, Increase M\n");
+                            }
                             A_index[ROWMAJOR(ll, A_nnz[ll], A_N, A_M)] = i;
                             A_value[ROWMAJOR(ll, A_nnz[ll], A_N, A_M)] =
                                 conj(A_value[ROWMAJOR(i, j, A_N, A_M)]);
@@ -126,7 +159,7 @@ void TYPED_FUNC(
                 }
             }
 #ifdef _OPENMP
-            for (int i = 0; i < A_M; i++)
+            for (int i = 0; i < A_N; i++)
                 omp_destroy_lock(&(lock[i]));
 #endif
 
@@ -135,6 +168,7 @@ void TYPED_FUNC(
             LOG_ERROR("unknown triangle %c\n", triangle);
             break;
     }
+    bml_free_memory(source_nnz);
 #if defined(USE_OMP_OFFLOAD)
 #pragma omp target update to(A_value[:A_N*A_M], A_index[:A_N*A_M], A_nnz[:A_N])
 #endif
diff --git a/src/C-interface/ellpack/bml_convert_ellpack_typed.c b/src/C-interface/ellpack/bml_convert_ellpack_typed.c
index 2cf5062..790f21b 100644
--- a/src/C-interface/ellpack/bml_convert_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_convert_ellpack_typed.c
@@ -30,7 +30,11 @@ bml_matrix_ellpack_t *TYPED_FUNC(
     {
         for (int j = 0; j < N; j++)
         {
-            bml_set_element(B, i, j, bml_get_element(A, i, j));
+            REAL_T *value = bml_get_element(A, i, j);
+            if (*value != 0.0)
+            {
+                bml_set_element(B, i, j, value);
+            }
         }
     }
 
diff --git a/src/C-interface/ellpack/bml_copy_ellpack_typed.c b/src/C-interface/ellpack/bml_copy_ellpack_typed.c
index 2c378ec..fd8d590 100644
--- a/src/C-interface/ellpack/bml_copy_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_copy_ellpack_typed.c
@@ -1,5 +1,6 @@
 #include "../../macros.h"
 #include "../../typed.h"
+#include "../bml_logger.h"
 #include "../bml_allocate.h"
 #include "../bml_copy.h"
 #include "../bml_types.h"
@@ -126,17 +127,21 @@ void TYPED_FUNC(
       B_value[i] = A_value[i];
     }
 #else
-    // memcpy(B->index, A->index, sizeof(int) * A->N * A->M);
-    memcpy(B->nnz, A->nnz, sizeof(int) * A->N);
-    //    memcpy(B->value, A->value, sizeof(REAL_T) * A->N * A->M);
+    if (A == B)
+        return;
+    int B_M = B->M;
 #pragma omp parallel for
     for (int i = 0; i < N; i++)
     {
-        memcpy(&B_index[ROWMAJOR(i, 0, N, M)], &A_index[ROWMAJOR(i, 0, N, M)],
-               M * sizeof(int));
-        memcpy(&B_value[ROWMAJOR(i, 0, N, M)], &A_value[ROWMAJOR(i, 0, N, M)],
-               M * sizeof(REAL_T));
-        //      A_nnz[perm[i]] = B_nnz[i];
+        if (A_nnz[i] > B_M)
+        {
+            LOG_ERROR("Number of non-zeroes per row > M, Increase M\n");
+        }
+        memcpy(&B_index[ROWMAJOR(i, 0, N, B_M)],
+               &A_index[ROWMAJOR(i, 0, N, M)], A_nnz[i] * sizeof(int));
+        memcpy(&B_value[ROWMAJOR(i, 0, N, B_M)],
+               &A_value[ROWMAJOR(i, 0, N, M)], A_nnz[i] * sizeof(REAL_T));
+        B_nnz[i] = A_nnz[i];
     }
 #endif
 
diff --git a/src/C-interface/ellpack/bml_import_ellpack_typed.c b/src/C-interface/ellpack/bml_import_ellpack_typed.c
index dc811d5..ebfe3a6 100644
--- a/src/C-interface/ellpack/bml_import_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_import_ellpack_typed.c
@@ -62,6 +62,11 @@ bml_matrix_ellpack_t
             }
             if (is_above_threshold(A_ij, threshold))
             {
+                if (A_nnz[i] == M)
+                {
+                    LOG_ERROR
+                        ("Number of non-zeroes per row > M, Increase M\n");
+                }
                 A_value[ROWMAJOR(i, A_nnz[i], N, M)] = A_ij;
                 A_index[ROWMAJOR(i, A_nnz[i], N, M)] = j;
                 A_nnz[i]++;
diff --git a/src/C-interface/ellpack/bml_multiply_ellpack_typed.c b/src/C-interface/ellpack/bml_multiply_ellpack_typed.c
index 7001670..1ab9c12 100644
--- a/src/C-interface/ellpack/bml_multiply_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_multiply_ellpack_typed.c
@@ -303,6 +303,13 @@ void *TYPED_FUNC(
         {
             int jp = jx[j];
             REAL_T xtmp = x[jp];
+#ifndef USE_OMP_OFFLOAD
+            // Check for number of non-zeroes per row exceeded
+            if (ll == X2_M && (jp == i || is_above_threshold(xtmp, threshold)))
+            {
+                LOG_ERROR("Number of non-zeroes per row > M, Increase M\n");
+            }
+#endif
             if (jp == i)
             {
                 traceX2 = traceX2 + xtmp;
@@ -319,16 +326,6 @@ void *TYPED_FUNC(
             ix[jp] = 0;
             x[jp] = 0.0;
         }
-        // Check for number of non-zeroes per row exceeded
-        // We should do it before assigning values to X2_value above,
-        // but that would be a lot of checks
-        if (ll > X2_M)
-        {
-#ifndef USE_OMP_OFFLOAD
-            LOG_ERROR("Number of non-zeroes per row > M, Increase M\n");
-#endif
-        }
-
         X2_nnz[i] = ll;
     }
 
@@ -666,14 +663,6 @@ void TYPED_FUNC(
                 }
             }
 
-            // Check for number of non-zeroes per row exceeded
-            // Need to adjust threshold
-            // ** Shouldn't we break from this loop if aflag is 1?? --DOK
-            if (l > C_M)
-            {
-                aflag = 1;
-            }
-
             int ll = 0;
             for (int j = 0; j < l; j++)
             {
@@ -681,17 +670,20 @@ void TYPED_FUNC(
                 int jp = jx[j];
                 REAL_T xtmp = x[jp];
                 // Diagonal elements are saved in first column
-                if (jp == i)
+                if (jp == i || is_above_threshold(xtmp, adjust_threshold))
                 {
-                    C_value[ROWMAJOR(i, ll, C_N, C_M)] = xtmp;
-                    C_index[ROWMAJOR(i, ll, C_N, C_M)] = jp;
-                    ll++;
-                }
-                else if (is_above_threshold(xtmp, adjust_threshold))
-                {
-                    C_value[ROWMAJOR(i, ll, C_N, C_M)] = xtmp;
-                    C_index[ROWMAJOR(i, ll, C_N, C_M)] = jp;
-                    ll++;
+                    if (ll < C_M)
+                    {
+                        C_value[ROWMAJOR(i, ll, C_N, C_M)] = xtmp;
+                        C_index[ROWMAJOR(i, ll, C_N, C_M)] = jp;
+                        ll++;
+                    }
+                    else
+                    {
+                        // Number of non-zeroes per row exceeded,
+                        // need to adjust threshold
+                        aflag = 1;
+                    }
                 }
                 ix[jp] = 0;
                 x[jp] = 0.0;
@@ -699,6 +691,10 @@ void TYPED_FUNC(
             C_nnz[i] = ll;
         }
 
+        if (aflag > 0 && adjust_threshold == (REAL_T) 0.0)
+        {
+            LOG_ERROR("Number of non-zeroes per row > M, Increase M\n");
+        }
         adjust_threshold *= (REAL_T) 2.0;
     }
 #ifdef USE_OMP_OFFLOAD
diff --git a/src/C-interface/ellpack/bml_norm_ellpack_typed.c b/src/C-interface/ellpack/bml_norm_ellpack_typed.c
index b18ce4b..52b0ded 100644
--- a/src/C-interface/ellpack/bml_norm_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_norm_ellpack_typed.c
@@ -54,7 +54,7 @@ double TYPED_FUNC(
         for (int j = 0; j < A_nnz[i]; j++)
         {
             REAL_T xval = A_value[ROWMAJOR(i, j, N, M)];
-            sum += xval * xval;
+            sum += xval * COMPLEX_CONJUGATE(xval);
         }
     }
 
@@ -97,7 +97,7 @@ double TYPED_FUNC(
             if (A_index[ROWMAJOR(i, j, N, M)] < core_size)
             {
                 REAL_T value = A_value[ROWMAJOR(i, j, N, M)];
-                sum += value * value;
+                sum += value * COMPLEX_CONJUGATE(value);
             }
         }
     }
@@ -326,7 +326,7 @@ double TYPED_FUNC(
         for (int jp = 0; jp < l; jp++)
         {
             if (ABS(y[jjb[jp]]) > threshold)
-                sum += y[jjb[jp]] * y[jjb[jp]];
+                sum += y[jjb[jp]] * COMPLEX_CONJUGATE(y[jjb[jp]]);
 
             /* reset marker array */
             ix[jjb[jp]] = 0;
@@ -374,6 +374,7 @@ double TYPED_FUNC(
 {
     int N = A->N;
     int M = A->M;
+    int B_M = B->M;
     double fnorm = 0.0;
     REAL_T rvalue;
 
@@ -398,7 +399,7 @@ double TYPED_FUNC(
 #endif
 #pragma omp parallel for                        \
   private(rvalue, temp)                         \
-  shared(N, M, A_nnz, A_index, A_value)         \
+  shared(N, M, B_M, A_nnz, A_index, A_value)    \
   shared(A_localRowMin, A_localRowMax, myRank)  \
   shared(B_nnz, B_index, B_value)               \
   reduction(+:fnorm)
@@ -407,38 +408,38 @@ double TYPED_FUNC(
     {
         for (int j = 0; j < A_nnz[i]; j++)
         {
+            rvalue = 0.0;
             for (int k = 0; k < B_nnz[i]; k++)
             {
                 if (A_index[ROWMAJOR(i, j, N, M)] ==
-                    B_index[ROWMAJOR(i, k, N, M)])
+                    B_index[ROWMAJOR(i, k, N, B_M)])
                 {
-                    rvalue = B_value[ROWMAJOR(i, k, N, M)];
+                    rvalue = B_value[ROWMAJOR(i, k, N, B_M)];
                     break;
                 }
-                rvalue = 0.0;
             }
 
             temp = A_value[ROWMAJOR(i, j, N, M)] - rvalue;
-            fnorm += temp * temp;
+            fnorm += temp * COMPLEX_CONJUGATE(temp);
         }
 
         for (int j = 0; j < B_nnz[i]; j++)
         {
+            int found = 0;
             for (int k = 0; k < A_nnz[i]; k++)
             {
                 if (A_index[ROWMAJOR(i, k, N, M)] ==
-                    B_index[ROWMAJOR(i, j, N, M)])
+                    B_index[ROWMAJOR(i, j, N, B_M)])
                 {
-                    rvalue = A_value[ROWMAJOR(i, k, N, M)];
+                    found = 1;
                     break;
                 }
-                rvalue = 0.0;
             }
 
-            if (rvalue == 0.0)
+            if (!found)
             {
-                temp = B_value[ROWMAJOR(i, j, N, M)];
-                fnorm += temp * temp;
+                temp = B_value[ROWMAJOR(i, j, N, B_M)];
+                fnorm += temp * COMPLEX_CONJUGATE(temp);
             }
         }
     }
diff --git a/src/C-interface/ellpack/bml_setters_ellpack_typed.c b/src/C-interface/ellpack/bml_setters_ellpack_typed.c
index 7195fa4..6a8b0f0 100644
--- a/src/C-interface/ellpack/bml_setters_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_setters_ellpack_typed.c
@@ -1,5 +1,6 @@
 #include "../../macros.h"
 #include "../../typed.h"
+#include "../bml_logger.h"
 #include "../bml_introspection.h"
 #include "../bml_types.h"
 #include "bml_setters_ellpack.h"
@@ -40,6 +41,10 @@ void TYPED_FUNC(
 #ifdef USE_OMP_OFFLOAD
 #pragma omp target update from(A_nnz[:A_N], A_index[:A_N*A_M], A_value[:A_N*A_M])
 #endif
+    if (A_nnz[i] == A_M)
+    {
+        LOG_ERROR("Number of non-zeroes per row > M, Increase M\n");
+    }
     A_value[ROWMAJOR(i, A_nnz[i], A_N, A_M)] = *((REAL_T *) element);
     A_index[ROWMAJOR(i, A_nnz[i], A_N, A_M)] = j;
     A_nnz[i]++;
@@ -83,7 +88,7 @@ void TYPED_FUNC(
 #pragma omp target update from(A_nnz[:A_N], A_index[:A_N*A_M], A_value[:A_N*A_M])
 #endif
     ll = 0;
-    if (A_nnz[i] > 2)
+    if (A_nnz[i] > 0)
     {
         for (int l = 0; l < A_nnz[i]; l++)
         {
@@ -96,6 +101,10 @@ void TYPED_FUNC(
         }
         if (ll == 0)            //There is something in the row but in a different position
         {
+            if (A_nnz[i] == A_M)
+            {
+                LOG_ERROR("Number of non-zeroes per row > M, Increase M\n");
+            }
             A_value[ROWMAJOR(i, A_nnz[i], A_N, A_M)] = *((REAL_T *) element);
             A_index[ROWMAJOR(i, A_nnz[i], A_N, A_M)] = j;
             A_nnz[i]++;
@@ -103,6 +112,10 @@ void TYPED_FUNC(
     }
     else                        //There is nothing in the row
     {
+        if (A_nnz[i] == A_M)
+        {
+            LOG_ERROR("Number of non-zeroes per row > M, Increase M\n");
+        }
         A_value[ROWMAJOR(i, A_nnz[i], A_N, A_M)] = *((REAL_T *) element);
         A_index[ROWMAJOR(i, A_nnz[i], A_N, A_M)] = j;
         A_nnz[i]++;
@@ -149,7 +162,13 @@ void TYPED_FUNC(
             if (ABS(row[j]) > threshold)
             {
                 ll++;
-
+#ifndef USE_OMP_OFFLOAD
+                if (ll == A_M)
+                {
+                    LOG_ERROR
+                        ("Number of non-zeroes per row > M, Increase M\n");
+                }
+#endif
                 A_value[ROWMAJOR(i, ll, A_N, A_M)] = row[j];
                 A_index[ROWMAJOR(i, ll, A_N, A_M)] = j;
 
@@ -211,6 +230,10 @@ void TYPED_FUNC(
         {
             if (ABS(diagonal[i]) > threshold)
             {
+                if (A_nnz[i] == A_M)
+                {
+                    LOG_ERROR("Number of non-zeroes per row > M, Increase M\n");
+                }
                 A_index[ROWMAJOR(i, A_nnz[i], A_N, A_M)] = i;
                 A_value[ROWMAJOR(i, A_nnz[i], A_N, A_M)] = diagonal[i];
                 A_nnz[i]++;
diff --git a/src/C-interface/ellpack/bml_submatrix_ellpack_typed.c b/src/C-interface/ellpack/bml_submatrix_ellpack_typed.c
index 7a96319..4c57ff9 100644
--- a/src/C-interface/ellpack/bml_submatrix_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_submatrix_ellpack_typed.c
@@ -392,6 +392,7 @@ void *TYPED_FUNC(
 
     for (int i = 0; i < colCnt; i++)
     {
+        rvalue[i] = ZERO;
         for (int j = 0; j < A_nnz[irow]; j++)
         {
             if (A_index[ROWMAJOR(irow, j, A_N, A_M)] == jj[i])
@@ -399,7 +400,6 @@ void *TYPED_FUNC(
                 rvalue[i] = A_value[ROWMAJOR(irow, j, A_N, A_M)];
                 break;
             }
-            rvalue[i] = ZERO;
         }
     }
     return rvalue;
diff --git a/src/C-interface/ellpack/bml_trace_ellpack_typed.c b/src/C-interface/ellpack/bml_trace_ellpack_typed.c
index 68ce825..ba6322c 100644
--- a/src/C-interface/ellpack/bml_trace_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_trace_ellpack_typed.c
@@ -115,7 +115,6 @@ double TYPED_FUNC(
 
     REAL_T trace = 0.0;
     REAL_T *A_value = (REAL_T *) A->value;
-    REAL_T *rvalue;
 
     int myRank = bml_getMyRank();
     int rowMin = A_localRowMin[myRank];
@@ -130,32 +129,37 @@ double TYPED_FUNC(
     int B_N = B->N;
     int B_M = B->M;
 
-#ifdef USE_OMP_OFFLOAD
     REAL_T *B_value = (REAL_T *) B->value;
     int *B_index = (int *) B->index;
     int *B_nnz = (int *) B->nnz;
+
+#ifdef USE_OMP_OFFLOAD
 #pragma omp target update from(A_nnz[:A_N], A_index[:A_N*A_M], A_value[:A_N*A_M])
 #pragma omp target update from(B_nnz[:B_N], B_index[:B_N*B_M], B_value[:B_N*B_M])
 #endif
 
 #pragma omp parallel for                        \
-  private(rvalue)                               \
-  shared(B, A_N, A_M, A_value, A_index, A_nnz)  \
+  shared(A_N, A_M, A_value, A_index, A_nnz)     \
+  shared(B_N, B_M, B_value, B_index, B_nnz)     \
   shared(A_localRowMin, A_localRowMax, myRank)  \
   reduction(+:trace)
     //for (int i = 0; i < A_N; i++)
     for (int i = rowMin; i < rowMax; i++)
     {
-        rvalue =
-            TYPED_FUNC(bml_getVector_ellpack) (B,
-                                               &A_index[ROWMAJOR
-                                                        (i, 0, A_N, A_M)], i,
-                                               A_nnz[i]);
         for (int j = 0; j < A_nnz[i]; j++)
         {
-            trace += A_value[ROWMAJOR(i, j, A_N, A_M)] * rvalue[j];
+            int k = A_index[ROWMAJOR(i, j, A_N, A_M)];
+            for (int l = 0; l < B_nnz[k]; l++)
+            {
+                if (B_index[ROWMAJOR(k, l, B_N, B_M)] == i)
+                {
+                    trace +=
+                        A_value[ROWMAJOR(i, j, A_N, A_M)] *
+                        B_value[ROWMAJOR(k, l, B_N, B_M)];
+                    break;
+                }
+            }
         }
-        bml_free_memory(rvalue);
     }
 
     return (double) REAL_PART(trace);
diff --git a/src/C-interface/ellpack/bml_transpose_ellpack_typed.c b/src/C-interface/ellpack/bml_transpose_ellpack_typed.c
index 73daef1..c187212 100644
--- a/src/C-interface/ellpack/bml_transpose_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_transpose_ellpack_typed.c
@@ -5,6 +5,7 @@
 #include "../bml_transpose.h"
 #include "../bml_types.h"
 #include "bml_allocate_ellpack.h"
+#include "bml_copy_ellpack.h"
 #include "bml_transpose_ellpack.h"
 #include "bml_types_ellpack.h"
 #include "../bml_logger.h"
@@ -87,6 +88,13 @@ bml_matrix_ellpack_t
                 omp_set_lock(&row_lock[trow]);
 #endif
                 int colcnt = B_nnz[trow];
+#ifndef USE_OMP_OFFLOAD
+                if (colcnt == M)
+                {
+                    LOG_ERROR
+                        ("Number of non-zeroes per row > M, Increase M\n");
+                }
+#endif
                 B_index[ROWMAJOR(trow, colcnt, N, M)] = i;
                 B_value[ROWMAJOR(trow, colcnt, N, M)] =
                     A_value[ROWMAJOR(i, j, N, M)];
@@ -97,6 +105,13 @@ bml_matrix_ellpack_t
             }
         }
     }                           // end target region
+#ifdef _OPENMP
+    for (int i = 0; i < N; i++)
+    {
+        omp_destroy_lock(&row_lock[i]);
+    }
+    free(row_lock);
+#endif
 
 #if defined (USE_OMP_OFFLOAD) && defined(COMPUTE_ON_HOST)
 #pragma omp target update to(B_index[:N*M], B_value[:N*M], B_nnz[:N])
@@ -412,6 +427,32 @@ void TYPED_FUNC(
      * consider: ellpack_transpose_right_looking(A) - for structurally symmetric matrices
      * Either algorithm is sufficient for arbitrary sparse matrices
     */
+#ifndef USE_OMP_OFFLOAD
+    /* While it is transposed in place a row may hold its old and its new
+     * entries, which may not fit. */
+    int N = A->N;
+    int M = A->M;
+    int *A_index = A->index;
+    int *A_nnz = A->nnz;
+    int *nnz = bml_allocate_memory(sizeof(int) * N);
+    int maxnnz = 0;
+    for (int i = 0; i < N; i++)
+    {
+        nnz[i] += A_nnz[i];
+        for (int j = 0; j < A_nnz[i]; j++)
+            nnz[A_index[ROWMAJOR(i, j, N, M)]]++;
+    }
+    for (int i = 0; i < N; i++)
+        maxnnz = MAX(maxnnz, nnz[i]);
+    bml_free_memory(nnz);
+    if (maxnnz > M)
+    {
+        bml_matrix_ellpack_t *B = TYPED_FUNC(bml_transpose_new_ellpack) (A);
+        TYPED_FUNC(bml_copy_ellpack) (B, A);
+        TYPED_FUNC(bml_deallocate_ellpack) (B);
+        return;
+    }
+#endif
     TYPED_FUNC(ellpack_transpose_left_looking) (A);
 }    
 
diff --git a/src/C-interface/ellpack/bml_utilities_ellpack_typed.c b/src/C-interface/ellpack/bml_utilities_ellpack_typed.c
index fa500b1..8128697 100644
--- a/src/C-interface/ellpack/bml_utilities_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_utilities_ellpack_typed.c
@@ -39,6 +39,13 @@ void TYPED_FUNC(
     int *A_nnz = A->nnz;
 
     hFile = fopen(filename, "r");
+    if (hFile == NULL)
+    {
+        LOG_ERROR("unable to open %s\n", filename);
+    }
+
+    // The contents of the file replace the matrix
+    memset(A_nnz, 0, N * sizeof(int));
 
     // Read header
     if (fscanf(hFile, "%s %s %s %s %s", header1, header2, header3, header4,
@@ -97,7 +104,15 @@ void TYPED_FUNC(
 
         irow--;
         icol--;
+        if (irow < 0 || irow >= N || icol < 0 || icol >= N)
+        {
+            LOG_ERROR("index out of bounds\n");
+        }
         ind = A_nnz[irow];
+        if (ind == M)
+        {
+            LOG_ERROR("Number of non-zeroes per row > M, Increase M\n");
+        }
         A_index[ROWMAJOR(irow, ind, N, M)] = icol;
         A_value[ROWMAJOR(irow, ind, N, M)] = value;
         A_nnz[irow]++;
@@ -106,6 +121,10 @@ void TYPED_FUNC(
         if (symflag == 0 && icol != irow)
         {
             ind = A_nnz[icol];
+            if (ind == M)
+            {
+                LOG_ERROR("Number of non-zeroes per row > M, Increase M\n");
+            }
             A_index[ROWMAJOR(icol, ind, N, M)] = irow;
             A_value[ROWMAJOR(icol, ind, N, M)] = value;
             A_nnz[icol]++;
-- 
2.43.0


From cb3f1f0e14e665ac869c42a9e3ed1d51af02bd1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:38 +0000
Subject: [PATCH 07/45] fix: csr add of a matrix to itself and row growth,
 threshold_new, copy, conjugate norms

---
 src/C-interface/csr/bml_add_csr_typed.c       | 13 ++++++++++++-
 src/C-interface/csr/bml_copy_csr_typed.c      |  7 +++++--
 src/C-interface/csr/bml_norm_csr_typed.c      |  6 +++---
 src/C-interface/csr/bml_threshold_csr_typed.c | 13 ++++---------
 4 files changed, 24 insertions(+), 15 deletions(-)

diff --git a/src/C-interface/csr/bml_add_csr_typed.c b/src/C-interface/csr/bml_add_csr_typed.c
index aa9a6ab..e134afb 100644
--- a/src/C-interface/csr/bml_add_csr_typed.c
+++ b/src/C-interface/csr/bml_add_csr_typed.c
@@ -42,6 +42,14 @@ void TYPED_FUNC(
     double beta,
     double threshold)
 {
+    if (A == B)
+    {
+        REAL_T factor = alpha + beta;
+        TYPED_FUNC(bml_scale_inplace_csr) (&factor, A);
+        TYPED_FUNC(bml_threshold_csr) (A, threshold);
+        return;
+    }
+
     int N = A->N_;
     int tsize = bml_get_bandwidth_csr(A);
 #pragma omp parallel default(none) \
@@ -77,6 +85,8 @@ void TYPED_FUNC(
                 {
                     TYPED_FUNC(csr_set_row_element_new) (A->data_[i],
                                                          bcols[pos], &val);
+                    // the row may have been reallocated
+                    avals = (REAL_T *) A->data_[i]->vals_;
                 }
             }
             //reset table
@@ -190,7 +200,8 @@ void TYPED_FUNC(
     double threshold)
 {
     // scale then update diagonal
-    TYPED_FUNC(bml_scale_inplace_csr) (&alpha, A);
+    REAL_T _alpha = (REAL_T) alpha;
+    TYPED_FUNC(bml_scale_inplace_csr) (&_alpha, A);
 
     TYPED_FUNC(bml_add_identity_csr) (A, beta, threshold);
 }
diff --git a/src/C-interface/csr/bml_copy_csr_typed.c b/src/C-interface/csr/bml_copy_csr_typed.c
index cc08a44..3a09a6b 100644
--- a/src/C-interface/csr/bml_copy_csr_typed.c
+++ b/src/C-interface/csr/bml_copy_csr_typed.c
@@ -90,10 +90,13 @@ void TYPED_FUNC(
     csr_sparse_row_t * brow)
 {
     const int NNZ = arow->NNZ_;
-    // Check size for data
+    // Make room for the data
     if (brow->alloc_size_ < NNZ)
     {
-        LOG_ERROR("CSR row size mismatch\n");
+        brow->cols_ = bml_reallocate_memory(brow->cols_, sizeof(int) * NNZ);
+        brow->vals_ =
+            bml_reallocate_memory(brow->vals_, sizeof(REAL_T) * NNZ);
+        brow->alloc_size_ = NNZ;
     }
 
     memcpy(brow->cols_, arow->cols_, NNZ * sizeof(int));
diff --git a/src/C-interface/csr/bml_norm_csr_typed.c b/src/C-interface/csr/bml_norm_csr_typed.c
index a6be2d4..cd7dc64 100644
--- a/src/C-interface/csr/bml_norm_csr_typed.c
+++ b/src/C-interface/csr/bml_norm_csr_typed.c
@@ -42,7 +42,7 @@ double TYPED_FUNC(
         for (int pos = 0; pos < annz; pos++)
         {
             REAL_T xval = vals[pos];
-            sum += xval * xval;
+            sum += xval * COMPLEX_CONJUGATE(xval);
         }
     }
 
@@ -78,7 +78,7 @@ double TYPED_FUNC(
             if (cols[pos] < core_size)
             {
                 REAL_T value = vals[pos];
-                sum += value * value;
+                sum += value * COMPLEX_CONJUGATE(value);
             }
         }
     }
@@ -217,7 +217,7 @@ double TYPED_FUNC(
         {
             if (ABS(cvals[k]) > threshold)
             {
-                sum += cvals[k] * cvals[k];
+                sum += cvals[k] * COMPLEX_CONJUGATE(cvals[k]);
             }
             // reset cvals
             cvals[k] = 0.;
diff --git a/src/C-interface/csr/bml_threshold_csr_typed.c b/src/C-interface/csr/bml_threshold_csr_typed.c
index 6b27efc..18e4e07 100644
--- a/src/C-interface/csr/bml_threshold_csr_typed.c
+++ b/src/C-interface/csr/bml_threshold_csr_typed.c
@@ -5,6 +5,7 @@
 #include "../bml_threshold.h"
 #include "../bml_types.h"
 #include "bml_allocate_csr.h"
+#include "bml_setters_csr.h"
 #include "bml_threshold_csr.h"
 #include "bml_types_csr.h"
 
@@ -39,10 +40,6 @@ bml_matrix_csr_t
     shared(N)
     for (int i = 0; i < N; i++)
     {
-        int *bcols = B->data_[i]->cols_;
-        REAL_T *bvals = (REAL_T *) B->data_[i]->vals_;
-        const int bnnz = B->data_[i]->NNZ_;
-
         int *cols = A->data_[i]->cols_;
         REAL_T *vals = (REAL_T *) A->data_[i]->vals_;
         const int annz = A->data_[i]->NNZ_;
@@ -50,11 +47,9 @@ bml_matrix_csr_t
         {
             if (is_above_threshold(vals[pos], threshold))
             {
-//                bml_set_element_new_csr(B, i, cols[pos], &vals[pos]);
-                bvals[bnnz] = vals[pos];
-                bcols[bnnz] = cols[pos];
-                /* update nnz of row i of B */
-                B->data_[i]->NNZ_++;
+                // appends to the row, which grows if necessary
+                TYPED_FUNC(csr_set_row_element_new) (B->data_[i], cols[pos],
+                                                     &vals[pos]);
             }
         }
     }
-- 
2.43.0


From ec55fbf0d9914bf5c7696da7e9997f9d561d1c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:38 +0000
Subject: [PATCH 08/45] fix: scale by a factor of the matrix precision in
 scale_add_identity

---
 src/C-interface/ellpack/bml_add_ellpack_typed.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/C-interface/ellpack/bml_add_ellpack_typed.c b/src/C-interface/ellpack/bml_add_ellpack_typed.c
index f268c8f..ae8069e 100644
--- a/src/C-interface/ellpack/bml_add_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_add_ellpack_typed.c
@@ -584,7 +584,8 @@ void TYPED_FUNC(
     double threshold)
 {
     // scale then update diagonal
-    TYPED_FUNC(bml_scale_inplace_ellpack) (&alpha, A);
+    REAL_T _alpha = (REAL_T) alpha;
+    TYPED_FUNC(bml_scale_inplace_ellpack) (&_alpha, A);
 
     TYPED_FUNC(bml_add_identity_ellpack) (A, beta, threshold);
 }
-- 
2.43.0


From c6d1c97cd709e649eea53db49b395502a8bc1811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:04 +0000
Subject: [PATCH 09/45] fix: ellblock products, norms, transpose, copy,
 conversion, submatrix and row setters

---
 .../ellblock/bml_allocate_ellblock.c          |  13 ++
 .../ellblock/bml_allocate_ellblock_typed.c    |   6 +-
 .../ellblock/bml_convert_ellblock_typed.c     |  34 ++--
 .../ellblock/bml_copy_ellblock_typed.c        |  80 ++++----
 .../ellblock/bml_import_ellblock_typed.c      |   5 +
 .../ellblock/bml_multiply_ellblock_typed.c    | 172 +++++++-----------
 .../ellblock/bml_norm_ellblock_typed.c        | 106 +++--------
 .../ellblock/bml_setters_ellblock_typed.c     |  20 +-
 .../ellblock/bml_submatrix_ellblock_typed.c   |  87 +++++++--
 .../ellblock/bml_trace_ellblock_typed.c       |   4 +-
 .../ellblock/bml_transpose_ellblock_typed.c   |  30 ++-
 .../ellblock/bml_utilities_ellblock_typed.c   |  86 ++-------
 12 files changed, 312 insertions(+), 331 deletions(-)

diff --git a/src/C-interface/ellblock/bml_allocate_ellblock.c b/src/C-interface/ellblock/bml_allocate_ellblock.c
index 5389619..6f63302 100644
--- a/src/C-interface/ellblock/bml_allocate_ellblock.c
+++ b/src/C-interface/ellblock/bml_allocate_ellblock.c
@@ -50,6 +50,19 @@ bml_get_block_sizes(
     int N,
     int M)
 {
+    // the block sizes in use describe matrices of one size only
+    if (s_default_bsize != NULL)
+    {
+        int size = 0;
+        for (int ib = 0; ib < s_nb; ib++)
+            size += s_default_bsize[ib];
+        if (size != N)
+        {
+            bml_free_memory(s_default_bsize);
+            s_default_bsize = NULL;
+        }
+    }
+
     if (s_default_bsize == NULL)
     {
         assert(M > 0);
diff --git a/src/C-interface/ellblock/bml_allocate_ellblock_typed.c b/src/C-interface/ellblock/bml_allocate_ellblock_typed.c
index daea889..1efbf96 100644
--- a/src/C-interface/ellblock/bml_allocate_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_allocate_ellblock_typed.c
@@ -169,10 +169,10 @@ bml_matrix_ellblock_t
     int N = matrix_dimension.N_rows;
     int M = matrix_dimension.N_nz_max;
 
+    int *bsize = bml_get_block_sizes(N, M);
+
     return TYPED_FUNC(bml_block_matrix_ellblock) (bml_get_nb(), bml_get_mb(),
-                                                  M, bml_get_block_sizes(N,
-                                                                         0),
-                                                  distrib_mode);
+                                                  M, bsize, distrib_mode);
 }
 
 /** Allocate the zero matrix.
diff --git a/src/C-interface/ellblock/bml_convert_ellblock_typed.c b/src/C-interface/ellblock/bml_convert_ellblock_typed.c
index 33de04b..834eaac 100644
--- a/src/C-interface/ellblock/bml_convert_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_convert_ellblock_typed.c
@@ -11,7 +11,9 @@
 
 #include <complex.h>
 #include <assert.h>
+#include <math.h>
 #include <stdio.h>
+#include <stdlib.h>
 
 bml_matrix_ellblock_t *TYPED_FUNC(
     bml_convert_ellblock) (
@@ -28,12 +30,9 @@ bml_matrix_ellblock_t *TYPED_FUNC(
     }
 
     //create new empty matrix
-    int *bsize = bml_get_block_sizes(N, N);
-    int nb = bml_get_nb();
-
     bml_matrix_ellblock_t *B =
-        TYPED_FUNC(bml_block_matrix_ellblock) (nb, nb, M, bsize,
-                                               distrib_mode);
+        TYPED_FUNC(bml_zero_matrix_ellblock) (N, M, distrib_mode);
+    int *bsize = B->bsize;
 
     int NB = B->NB;
     int *offset = malloc(NB * sizeof(int));
@@ -45,14 +44,10 @@ bml_matrix_ellblock_t *TYPED_FUNC(
 
     for (int ib = 0; ib < NB; ib++)
     {
-        B->nnzb[ib] = NB;
         for (int jb = 0; jb < NB; jb++)
         {
             int nelements = bsize[ib] * bsize[jb];
-            int ind = ROWMAJOR(ib, jb, NB, NB);
-            B_ptr_value[ind]
-                = TYPED_FUNC(bml_allocate_block_ellblock) (B, ib, nelements);
-            B->indexb[ind] = jb;
+            int nonzero = 0;
 
             REAL_T *block = malloc(nelements * sizeof(REAL_T));
             for (int ii = 0; ii < bsize[ib]; ii++)
@@ -62,8 +57,25 @@ bml_matrix_ellblock_t *TYPED_FUNC(
                     int j = offset[jb] + jj;
                     REAL_T alpha = *(REAL_T *) bml_get_element(A, i, j);
                     block[ROWMAJOR(ii, jj, bsize[ib], bsize[jb])] = alpha;
+                    if (ABS(alpha) > 0.0)
+                        nonzero = 1;
+                }
+            // store the blocks with non-zero elements only
+            if (nonzero)
+            {
+                if (B->nnzb[ib] == B->MB)
+                {
+                    LOG_ERROR
+                        ("Number of non-zeroes blocks per row > MB, Increase MB\n");
                 }
-            TYPED_FUNC(bml_set_block_ellblock) (B, ib, jb, block);
+                int ind = ROWMAJOR(ib, B->nnzb[ib], NB, B->MB);
+                B_ptr_value[ind] =
+                    TYPED_FUNC(bml_allocate_block_ellblock) (B, ib,
+                                                             nelements);
+                B->indexb[ind] = jb;
+                B->nnzb[ib]++;
+                TYPED_FUNC(bml_set_block_ellblock) (B, ib, jb, block);
+            }
             free(block);
         }
     }
diff --git a/src/C-interface/ellblock/bml_copy_ellblock_typed.c b/src/C-interface/ellblock/bml_copy_ellblock_typed.c
index d3ec74f..b779911 100644
--- a/src/C-interface/ellblock/bml_copy_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_copy_ellblock_typed.c
@@ -2,6 +2,7 @@
 #include "../../typed.h"
 #include "../bml_allocate.h"
 #include "../bml_copy.h"
+#include "../bml_logger.h"
 #include "../bml_types.h"
 #include "bml_allocate_ellblock.h"
 #include "bml_copy_ellblock.h"
@@ -77,35 +78,33 @@ void TYPED_FUNC(
         return;
 
     int NB = A->NB;
-    int MB = A->MB;
 
     REAL_T **A_ptr_value = (REAL_T **) A->ptr_value;
     REAL_T **B_ptr_value = (REAL_T **) B->ptr_value;
 
-    memcpy(B->nnzb, A->nnzb, sizeof(int) * A->NB);
-
-    int *A_indexb = A->indexb;
-    int *B_indexb = B->indexb;
-    memcpy(B_indexb, A_indexb, NB * MB * sizeof(int));
-
 #pragma omp parallel for
     for (int ib = 0; ib < NB; ib++)
     {
+        if (A->nnzb[ib] > B->MB)
+        {
+            LOG_ERROR("Number of non-zeroes per row > MB, Increase MB\n");
+        }
+        TYPED_FUNC(bml_free_block_row_ellblock) (B, ib);
         for (int jp = 0; jp < A->nnzb[ib]; jp++)
         {
-            int ind = ROWMAJOR(ib, jp, NB, MB);
-            assert(A_ptr_value[ind] != NULL);
-            int jb = B_indexb[ind];
+            int indA = ROWMAJOR(ib, jp, NB, A->MB);
+            int indB = ROWMAJOR(ib, jp, NB, B->MB);
+            assert(A_ptr_value[indA] != NULL);
+            int jb = A->indexb[indA];
             int nelements = A->bsize[ib] * A->bsize[jb];
-            if (B_ptr_value[ind] == NULL)
-                B_ptr_value[ind]
-                    =
-                    TYPED_FUNC(bml_allocate_block_ellblock) (B, ib,
-                                                             nelements);
-            assert(B_ptr_value[ind] != NULL);
-            memcpy(B_ptr_value[ind], A_ptr_value[ind],
+            B->indexb[indB] = jb;
+            B_ptr_value[indB] =
+                TYPED_FUNC(bml_allocate_block_ellblock) (B, ib, nelements);
+            assert(B_ptr_value[indB] != NULL);
+            memcpy(B_ptr_value[indB], A_ptr_value[indA],
                    nelements * sizeof(REAL_T));
         }
+        B->nnzb[ib] = A->nnzb[ib];
     }
 }
 
@@ -135,38 +134,41 @@ void TYPED_FUNC(
     REAL_T **B_ptr_value = (REAL_T **) B->ptr_value;
     int *B_bsize = B->bsize;
 
+    TYPED_FUNC(bml_clear_ellblock) (A);
+
     for (int i = 0; i < NB; i++)
     {
-        A_bsize[i] = B_bsize[perm[i]];
+        A_bsize[perm[i]] = B_bsize[i];
     }
+#ifdef BML_ELLBLOCK_USE_MEMPOOL
+    // the storage per row of the blocks is the same for all block rows
+    int ncols_storage =
+        NB > 1 ? A->memory_pool_offsets[1] / B_bsize[0] : A->M;
+    for (int ib = 1; ib < NB; ib++)
+        A->memory_pool_offsets[ib] = A->memory_pool_offsets[ib - 1]
+            + A_bsize[ib - 1] * ncols_storage;
+    for (int ib = 0; ib < NB; ib++)
+        A->memory_pool_ptr[ib] =
+            (REAL_T *) A->memory_pool + A->memory_pool_offsets[ib];
+#endif
 
-    // Reorder rows - need to copy
+    // Move block (ib,jb) to (perm[ib],perm[jb])
     for (int ib = 0; ib < NB; ib++)
     {
-        memcpy(&A_indexb[ROWMAJOR(perm[ib], 0, NB, MB)],
-               &B_indexb[ROWMAJOR(ib, 0, NB, MB)], MB * sizeof(int));
-        int count = 0;
-        for (int jp = 0; jp < MB; jp++)
+        for (int jp = 0; jp < B_nnzb[ib]; jp++)
         {
-            int ind = ROWMAJOR(ib, jp, NB, MB);
-            int jb = B_indexb[ind];
-            count += B_bsize[jb];
+            int indB = ROWMAJOR(ib, jp, NB, B->MB);
+            int indA = ROWMAJOR(perm[ib], jp, NB, MB);
+            int nelements = B_bsize[ib] * B_bsize[B_indexb[indB]];
+            A_indexb[indA] = perm[B_indexb[indB]];
+            A_ptr_value[indA] =
+                TYPED_FUNC(bml_allocate_block_ellblock) (A, perm[ib],
+                                                         nelements);
+            memcpy(A_ptr_value[indA], B_ptr_value[indB],
+                   nelements * sizeof(REAL_T));
         }
-        memcpy(A_ptr_value[ROWMAJOR(perm[ib], 0, NB, MB)],
-               B_ptr_value[ROWMAJOR(ib, 0, NB, MB)],
-               B_bsize[ib] * count * sizeof(REAL_T));
         A_nnzb[perm[ib]] = B_nnzb[ib];
     }
 
     bml_deallocate_ellblock(B);
-
-    // Reorder elements in each row - just change index
-    for (int ib = 0; ib < NB; ib++)
-    {
-        for (int jp = 0; jp < A_nnzb[ib]; jp++)
-        {
-            A_indexb[ROWMAJOR(ib, jp, NB, MB)] =
-                perm[A_indexb[ROWMAJOR(ib, jp, NB, MB)]];
-        }
-    }
 }
diff --git a/src/C-interface/ellblock/bml_import_ellblock_typed.c b/src/C-interface/ellblock/bml_import_ellblock_typed.c
index e75e5d5..b7880be 100644
--- a/src/C-interface/ellblock/bml_import_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_import_ellblock_typed.c
@@ -84,6 +84,11 @@ bml_matrix_ellblock_t
                 (A_ij, A_bsize[ib], A_bsize[jb], A_bsize[jb]);
             if (norminf > threshold)
             {
+                if (A_nnzb[ib] == MB)
+                {
+                    LOG_ERROR
+                        ("Number of non-zeroes per row > MB, Increase MB\n");
+                }
                 int ind = ROWMAJOR(ib, A_nnzb[ib], NB, MB);
                 A_bml->ptr_value[ind] =
                     TYPED_FUNC(bml_allocate_block_ellblock) (A_bml, ib,
diff --git a/src/C-interface/ellblock/bml_multiply_ellblock_typed.c b/src/C-interface/ellblock/bml_multiply_ellblock_typed.c
index aefab74..a001cb5 100644
--- a/src/C-interface/ellblock/bml_multiply_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_multiply_ellblock_typed.c
@@ -10,6 +10,7 @@
 #include "../bml_types.h"
 #include "bml_add_ellblock.h"
 #include "bml_allocate_ellblock.h"
+#include "bml_copy_ellblock.h"
 #include "bml_multiply_ellblock.h"
 #include "bml_types_ellblock.h"
 #include "bml_utilities_ellblock.h"
@@ -167,6 +168,30 @@ void TYPED_FUNC(
     }
 }
 
+void TYPED_FUNC(
+    bml_multiply_block) (
+    REAL_T * mat0,
+    REAL_T * mat1,
+    const int ld,
+    REAL_T * x,
+    const int bsizeib,
+    const int bsizekb)
+{
+    REAL_T *xk = x;
+    for (int ii = 0; ii < bsizeib; ii++)
+    {
+        REAL_T *a = mat0 + ld * ii;
+        REAL_T *b = mat1;
+        for (int jj = 0; jj < bsizekb; jj++)
+        {
+            for (int kk = 0; kk < ld; kk++)
+                (*xk) += a[kk] * b[kk];
+            xk++;
+            b += ld;
+        }
+    }
+}
+
 /** Matrix multiply.
  *
  * \f$ C \leftarrow \alpha A \, B + \beta C \f$
@@ -199,7 +224,8 @@ void TYPED_FUNC(
 
     if (A == B && alpha == ONE && beta == ZERO)
     {
-        TYPED_FUNC(bml_multiply_x2_ellblock) (A, C, threshold);
+        void *trace = TYPED_FUNC(bml_multiply_x2_ellblock) (A, C, threshold);
+        bml_free_memory(trace);
     }
     else
     {
@@ -210,7 +236,9 @@ void TYPED_FUNC(
 
         if (A != NULL && A == B)
         {
-            TYPED_FUNC(bml_multiply_x2_ellblock) (A, A2, threshold);
+            void *trace =
+                TYPED_FUNC(bml_multiply_x2_ellblock) (A, A2, threshold);
+            bml_free_memory(trace);
         }
         else
         {
@@ -377,8 +405,14 @@ void *TYPED_FUNC(
                         T_value_right[jj * bsizejb + ii]
                             = X_value_right[offset + jj];
                 }
-                (*fun_ptr_arr[bsizejb - 1]) (X_value_left, T_value_right,
-                                             bsizejb, x, bsize[ib], bsizekb);
+                if (bsizejb <= 6)
+                    (*fun_ptr_arr[bsizejb - 1]) (X_value_left, T_value_right,
+                                                 bsizejb, x, bsize[ib],
+                                                 bsizekb);
+                else
+                    TYPED_FUNC(bml_multiply_block) (X_value_left,
+                                                    T_value_right, bsizejb, x,
+                                                    bsize[ib], bsizekb);
 #else
                 REAL_T alpha = (REAL_T) 1.;
                 REAL_T beta = (REAL_T) 1.;
@@ -391,7 +425,7 @@ void *TYPED_FUNC(
         }
 
         // Check for number of non-zero blocks per block row exceeded
-        if (lb > MB)
+        if (lb > X2->MB)
         {
             LOG_ERROR
                 ("Number of non-zeroes blocks per row > MB, Increase MB\n");
@@ -400,7 +434,7 @@ void *TYPED_FUNC(
         int ll = 0;
         for (int jb = 0; jb < lb; jb++)
         {
-            assert(ll < MB);
+            assert(ll < X2->MB);
             int jp = jx[jb];
             REAL_T *xtmp = x_ptr[jp];
             double normx = TYPED_FUNC(bml_norm_inf_fast)
@@ -410,12 +444,12 @@ void *TYPED_FUNC(
                 if (jp == ib)
                 {
                     for (int kk = 0; kk < bsize[ib]; kk++)
-                        traceX2 = traceX2 + xtmp[kk * (1 + bsize[jb])];
+                        traceX2 = traceX2 + xtmp[kk * (1 + bsize[ib])];
                 }
 
                 int nelements = bsize[ib] * bsize[jp];
-                int ind = ROWMAJOR(ib, ll, NB, MB);
-                assert(ind < NB * MB);
+                int ind = ROWMAJOR(ib, ll, NB, X2->MB);
+                assert(ind < NB * X2->MB);
                 /* Allocate memory to hold block */
                 X2_ptr_value[ind] =
                     TYPED_FUNC(bml_allocate_block_ellblock) (X2, ib, nelements);
@@ -471,6 +505,8 @@ void TYPED_FUNC(
     int *B_nnzb = B->nnzb;
     int *B_indexb = B->indexb;
 
+    /* release the blocks of C before it is overwritten */
+    TYPED_FUNC(bml_clear_ellblock) (C);
     int *C_nnzb = C->nnzb;
     int *C_indexb = C->indexb;
 
@@ -578,8 +614,14 @@ void TYPED_FUNC(
                         T_value_right[jj * bsizejb + ii]
                             = B_value[offset + jj];
                 }
-                (*fun_ptr_arr[bsizejb - 1]) (A_value, T_value_right,
-                                             bsizejb, x, bsize[ib], bsizekb);
+                if (bsizejb <= 6)
+                    (*fun_ptr_arr[bsizejb - 1]) (A_value, T_value_right,
+                                                 bsizejb, x, bsize[ib],
+                                                 bsizekb);
+                else
+                    TYPED_FUNC(bml_multiply_block) (A_value, T_value_right,
+                                                    bsizejb, x, bsize[ib],
+                                                    bsizekb);
             }
         }
 
@@ -639,109 +681,31 @@ void TYPED_FUNC(
     double threshold)
 {
     int NB = A->NB;
-    int MB = A->MB;
-    int *A_nnzb = A->nnzb;
-    int *A_indexb = A->indexb;
-    int *bsize = A->bsize;
-
-    int *B_nnzb = B->nnzb;
-    int *B_indexb = B->indexb;
 
-    int *C_nnzb = C->nnzb;
-    int *C_indexb = C->indexb;
-
-    int ix[NB], jx[NB];
-    int aflag = 1;
-    REAL_T *x_ptr[NB];
-
-    REAL_T **A_ptr_value = (REAL_T **) A->ptr_value;
-    REAL_T **B_ptr_value = (REAL_T **) B->ptr_value;
-    REAL_T **C_ptr_value = (REAL_T **) C->ptr_value;
+    /* unrestricted product: room for all the blocks of a row */
+    bml_matrix_ellblock_t *P =
+        TYPED_FUNC(bml_block_matrix_ellblock) (NB, NB, A->N, A->bsize,
+                                               C->distribution_mode);
 
+    /* raise the threshold until every row of the product fits into C */
     double adjust_threshold = threshold;
-
-    memset(ix, 0, NB * sizeof(int));
-    memset(jx, 0, NB * sizeof(int));
-
-    int maxbsize = 0;
-    for (int ib = 0; ib < NB; ib++)
-        maxbsize = MAX(maxbsize, bsize[ib]);
-    int maxbsize2 = maxbsize * maxbsize;
-    for (int ib = 0; ib < NB; ib++)
-        x_ptr[ib] = calloc(maxbsize2, sizeof(REAL_T));
-
+    int aflag = 1;
     while (aflag > 0)
     {
         aflag = 0;
-
+        TYPED_FUNC(bml_multiply_AB_ellblock) (A, B, P, adjust_threshold);
         for (int ib = 0; ib < NB; ib++)
         {
-            int l = 0;
-            for (int jp = 0; jp < A_nnzb[ib]; jp++)
-            {
-                REAL_T *a = A_ptr_value[ROWMAJOR(ib, jp, NB, MB)];
-                int jb = A_indexb[ROWMAJOR(ib, jp, NB, MB)];
-
-                for (int kp = 0; kp < B_nnzb[jb]; kp++)
-                {
-                    int kb = B_indexb[ROWMAJOR(jb, kp, NB, MB)];
-                    if (ix[kb] == 0)
-                    {
-                        memset(x_ptr[kb], 0, maxbsize2);
-                        jx[l] = kb;
-                        ix[kb] = ib + 1;
-                        l++;
-                    }
-                    // TEMPORARY STORAGE VECTOR LENGTH FULL N
-                    REAL_T *b = B_ptr_value[ROWMAJOR(jb, kp, NB, MB)];
-                    REAL_T *x = x_ptr[kb];
-                    for (int ii = 0; ii < bsize[jb]; ii++)
-                        for (int jj = 0; jj < bsize[kb]; jj++)
-                        {
-                            int k = ii * bsize[kb] + jj;
-                            x[k] =
-                                x[k] +
-                                a[ROWMAJOR(ii, jj, bsize[ib], bsize[jb])] *
-                                b[ROWMAJOR(jj, ii, bsize[jb], bsize[kb])];
-                        }
-                }
-            }
-
-            // Check for number of non-zeroes per row exceeded
-            // Need to adjust threshold
-            if (l > MB)
-            {
+            if (P->nnzb[ib] > C->MB)
                 aflag = 1;
-            }
-
-            int ll = 0;
-            for (int jb = 0; jb < l; jb++)
-            {
-                int jp = jx[jb];
-                REAL_T *xtmp = x_ptr[jp];
-                double normx = TYPED_FUNC(bml_norm_inf)
-                    (xtmp, bsize[ib], bsize[jp], bsize[jp]);
-                // Diagonal elements are saved in first column
-                if (jp == ib)
-                {
-                    memcpy(C_ptr_value[ROWMAJOR(ib, ll, NB, MB)], xtmp,
-                           bsize[ib] * bsize[ll] * sizeof(REAL_T));
-                    C_indexb[ROWMAJOR(ib, ll, NB, MB)] = jp;
-                    ll++;
-                }
-                else if (normx > adjust_threshold)
-                {
-                    memcpy(C_ptr_value[ROWMAJOR(ib, ll, NB, MB)], xtmp,
-                           bsize[ib] * bsize[ll] * sizeof(REAL_T));
-                    C_indexb[ROWMAJOR(ib, ll, NB, MB)] = jp;
-                    ll++;
-                }
-                ix[jp] = 0;
-                memset(x_ptr[jp], 0, maxbsize2 * sizeof(REAL_T));
-            }
-            C_nnzb[ib] = ll;
         }
-
+        if (aflag > 0 && adjust_threshold <= 0.0)
+        {
+            LOG_ERROR("Number of non-zeroes per row > M, Increase M\n");
+        }
         adjust_threshold *= 2.0;
     }
+
+    TYPED_FUNC(bml_copy_ellblock) (P, C);
+    bml_deallocate_ellblock(P);
 }
diff --git a/src/C-interface/ellblock/bml_norm_ellblock_typed.c b/src/C-interface/ellblock/bml_norm_ellblock_typed.c
index 51b837c..04fa3e0 100644
--- a/src/C-interface/ellblock/bml_norm_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_norm_ellblock_typed.c
@@ -48,7 +48,7 @@ double TYPED_FUNC(
                 for (int jj = 0; jj < bsize[jb]; jj++)
                 {
                     int index = ROWMAJOR(ii, jj, bsize[ib], bsize[jb]);
-                    sum += xval[index] * xval[index];
+                    sum += xval[index] * COMPLEX_CONJUGATE(xval[index]);
                 }
         }
     }
@@ -75,7 +75,6 @@ double TYPED_FUNC(
     double threshold)
 {
     int NB = A->NB;
-    int MB = A->MB;
 
     int *A_indexb = A->indexb;
     int *A_nnzb = A->nnzb;
@@ -89,74 +88,31 @@ double TYPED_FUNC(
 
     REAL_T alpha_ = (REAL_T) alpha;
 
-    int maxbsize = 0;
-    for (int ib = 0; ib < NB; ib++)
-        maxbsize = MAX(maxbsize, bsize[ib]);
-    int maxbsize2 = maxbsize * maxbsize;
-    REAL_T *y_ptr[NB];
-    for (int ib = 0; ib < NB; ib++)
-        y_ptr[ib] = calloc(maxbsize2, sizeof(REAL_T));
-
-    int ix[NB], jjb[MB];
-
-    memset(jjb, 0, NB * sizeof(int));
-
     for (int ib = 0; ib < NB; ib++)
     {
-        int lb = 0;
-        /* reset marker ix */
-        memset(ix, 0, NB * sizeof(int));       
         for (int jp = 0; jp < A_nnzb[ib]; jp++)
         {
-            int ind = ROWMAJOR(ib, jp, NB, MB);
-            int jb = A_indexb[ind];
-
-            ix[jb] = 1;
-
-            REAL_T *y_value = y_ptr[jb];
-            REAL_T *A_value = A_ptr_value[ind];
-            for (int ii = 0; ii < bsize[ib]; ii++)
-                for (int jj = 0; jj < bsize[jb]; jj++)
-                {
-                    int index = ROWMAJOR(ii, jj, bsize[ib], bsize[jb]);
-                    y_value[index] = alpha_ * A_value[index];
-                }
-        }
+            int indA = ROWMAJOR(ib, jp, NB, A->MB);
+            int jb = A_indexb[indA];
+            REAL_T *A_value = A_ptr_value[indA];
 
-        for (int jp = 0; jp < B_nnzb[ib]; jp++)
-        {
-            int ind = ROWMAJOR(ib, jp, NB, MB);
-            int jb = B_indexb[ind];
-            if (ix[jb] != 0)
+            for (int kp = 0; kp < B_nnzb[ib]; kp++)
             {
-                jjb[lb] = jb;
-                lb++;
-        
-                REAL_T *y_value = y_ptr[jb];
-                REAL_T *B_value = B_ptr_value[ind];
-                for (int ii = 0; ii < bsize[ib]; ii++)
+                int indB = ROWMAJOR(ib, kp, NB, B->MB);
+                if (B_indexb[indB] != jb)
+                    continue;
+
+                REAL_T *B_value = B_ptr_value[indB];
+                for (int index = 0; index < bsize[ib] * bsize[jb]; index++)
                 {
-                    for (int jj = 0; jj < bsize[jb]; jj++)
-                    {
-                        int index = ROWMAJOR(ii, jj, bsize[ib], bsize[jb]);
-                        y_value[index] *= B_value[index];
-                    }
+                    REAL_T temp = alpha_ * A_value[index] * B_value[index];
+                    if (ABS(temp) > threshold)
+                        sum += temp;
                 }
             }
         }
-
-        for (int jp = 0; jp < lb; jp++)
-        {
-            double normx = TYPED_FUNC(bml_sum_AB)
-                (y_ptr[jjb[jp]], bsize[ib], bsize[jjb[jp]], bsize[jjb[jp]]);
-
-            if (normx > threshold * threshold)
-                sum += normx;
-        }
     }
 
-    for (int ib = 0; ib < NB; ib++)
-        free(y_ptr[ib]);
     return (double) REAL_PART(sum);
 }
 
@@ -233,7 +189,7 @@ double TYPED_FUNC(
 
         for (int jp = 0; jp < B_nnzb[ib]; jp++)
         {
-            int ind = ROWMAJOR(ib, jp, NB, MB);
+            int ind = ROWMAJOR(ib, jp, NB, B->MB);
             int jb = B_indexb[ind];
             int nelements = bsize[ib] * bsize[jb];
             if (ix[jb] == 0)
@@ -253,11 +209,12 @@ double TYPED_FUNC(
 
         for (int jp = 0; jp < lb; jp++)
         {
-            double normx = TYPED_FUNC(bml_sum_squares)
-                (y_ptr[jjb[jp]], bsize[ib], bsize[jjb[jp]], bsize[jjb[jp]]);
-
-            if (normx > threshold * threshold)
-                sum += normx;
+            REAL_T *y_value = y_ptr[jjb[jp]];
+            for (int index = 0; index < bsize[ib] * bsize[jjb[jp]]; index++)
+            {
+                if (ABS(y_value[index]) > threshold)
+                    sum += y_value[index] * COMPLEX_CONJUGATE(y_value[index]);
+            }
 
             /* reset arrays */
             ix[jjb[jp]] = 0;
@@ -310,7 +267,6 @@ double TYPED_FUNC(
     int NB = A->NB;
     int MB = A->MB;
     double fnorm = 0.0;
-    REAL_T *rvalue;
 
     int *A_nnzb = (int *) A->nnzb;
     int *A_indexb = (int *) A->indexb;
@@ -334,15 +290,14 @@ double TYPED_FUNC(
         for (int jp = 0; jp < A_nnzb[ib]; jp++)
         {
             int ind = ROWMAJOR(ib, jp, NB, MB);
+            REAL_T *rvalue = zero_block;
             for (int kp = 0; kp < B_nnzb[ib]; kp++)
             {
-                if (A_indexb[ROWMAJOR(ib, jp, NB, MB)] ==
-                    B_indexb[ROWMAJOR(ib, kp, NB, MB)])
+                if (A_indexb[ind] == B_indexb[ROWMAJOR(ib, kp, NB, B->MB)])
                 {
-                    rvalue = B_ptr_value[ROWMAJOR(ib, kp, NB, MB)];
+                    rvalue = B_ptr_value[ROWMAJOR(ib, kp, NB, B->MB)];
                     break;
                 }
-                rvalue = zero_block;
             }
 
             REAL_T *A_value = A_ptr_value[ind];
@@ -352,34 +307,33 @@ double TYPED_FUNC(
                 {
                     int index = ROWMAJOR(ii, jj, bsize[ib], bsize[jb]);
                     temp = A_value[index] - rvalue[index];
-                    fnorm += temp * temp;
+                    fnorm += REAL_PART(temp * COMPLEX_CONJUGATE(temp));
                 }
         }
 
         for (int jp = 0; jp < B_nnzb[ib]; jp++)
         {
+            int ind = ROWMAJOR(ib, jp, NB, B->MB);
+            REAL_T *rvalue = NULL;
             for (int kp = 0; kp < A_nnzb[ib]; kp++)
             {
-                if (A_indexb[ROWMAJOR(ib, kp, NB, MB)] ==
-                    B_indexb[ROWMAJOR(ib, jp, NB, MB)])
+                if (A_indexb[ROWMAJOR(ib, kp, NB, MB)] == B_indexb[ind])
                 {
                     rvalue = A_ptr_value[ROWMAJOR(ib, kp, NB, MB)];
                     break;
                 }
-                rvalue = NULL;
             }
 
             if (rvalue == NULL)
             {
-                int ind = ROWMAJOR(ib, jp, NB, MB);
-                int jb = A_indexb[ind];
+                int jb = B_indexb[ind];
                 REAL_T *B_value = B_ptr_value[ind];
                 for (int ii = 0; ii < bsize[ib]; ii++)
                     for (int jj = 0; jj < bsize[jb]; jj++)
                     {
                         int index = ROWMAJOR(ii, jj, bsize[ib], bsize[jb]);
                         temp = B_value[index];
-                        fnorm += temp * temp;
+                        fnorm += REAL_PART(temp * COMPLEX_CONJUGATE(temp));
                     }
             }
         }
diff --git a/src/C-interface/ellblock/bml_setters_ellblock_typed.c b/src/C-interface/ellblock/bml_setters_ellblock_typed.c
index 9bcfdf9..e1d529d 100644
--- a/src/C-interface/ellblock/bml_setters_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_setters_ellblock_typed.c
@@ -77,7 +77,6 @@ void TYPED_FUNC(
             LOG_ERROR("Number of non-zeroes per row > MB, Increase MB\n");
         }
         int ind = ROWMAJOR(ib, A_nnzb[ib], A->NB, A->MB);
-        assert(A_ptr_value[ind] == NULL);
 
         // printf("allocate new block ib=%d, ind=%d\n", ib, ind);
         int nelements = A_bsize[ib] * A_bsize[jb];
@@ -152,6 +151,15 @@ void TYPED_FUNC(
         ib++;
     }
 
+    //discard the old row
+    for (int jp = 0; jp < A_nnzb[ib]; jp++)
+    {
+        int ind = ROWMAJOR(ib, jp, A->NB, A->MB);
+        int jb = A_indexb[ind];
+        memset(A_ptr_value[ind] + ROWMAJOR(ii, 0, A_bsize[ib], A_bsize[jb]),
+               0, A_bsize[jb] * sizeof(REAL_T));
+    }
+
     //loop over elements to insert
     for (int k = 0; k < A_N; k++)
     {
@@ -180,6 +188,11 @@ void TYPED_FUNC(
             }
             if (block_found == 0)
             {
+                if (A_nnzb[ib] == A->MB)
+                {
+                    LOG_ERROR
+                        ("Number of non-zeroes per row > MB, Increase MB\n");
+                }
                 int ind = ROWMAJOR(ib, A_nnzb[ib], A->NB, A->MB);
                 int nelements = A_bsize[ib] * A_bsize[jb];
                 A_ptr_value[ind]
@@ -263,6 +276,11 @@ void TYPED_FUNC(
                 (&diagonal[offset], A_bsize[ib], 1, 1);
             if (normdiag > threshold)
             {
+                if (A_nnzb[ib] == A->MB)
+                {
+                    LOG_ERROR
+                        ("Number of non-zeroes per row > MB, Increase MB\n");
+                }
                 int ind = ROWMAJOR(ib, A_nnzb[ib], A->NB, A->MB);
                 int nelemnts = A_bsize[ib] * A_bsize[ib];
                 A_ptr_value[ind] =
diff --git a/src/C-interface/ellblock/bml_submatrix_ellblock_typed.c b/src/C-interface/ellblock/bml_submatrix_ellblock_typed.c
index 9b3fe7e..464f5d3 100644
--- a/src/C-interface/ellblock/bml_submatrix_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_submatrix_ellblock_typed.c
@@ -10,6 +10,7 @@
 #include "bml_types_ellblock.h"
 
 #include <stdlib.h>
+#include <string.h>
 #include <assert.h>
 
 /** Extract submatrix into new matrix of same format
@@ -34,16 +35,6 @@ bml_matrix_ellblock_t
     int *A_nnzb = A->nnzb;
     REAL_T **A_ptr_value = (REAL_T **) A->ptr_value;
 
-    bml_matrix_ellblock_t *B;
-    B = TYPED_FUNC(bml_zero_matrix_ellblock) (B_N, B_M, A->distribution_mode);
-
-    int *B_indexb = B->indexb;
-    int *B_nnzb = B->nnzb;
-    REAL_T **B_ptr_value = (REAL_T **) B->ptr_value;
-
-    int B_NB = B->NB;
-    int B_MB = B->MB;
-
     int *bsize = A->bsize;
     int count = 0;
     int irowb = 0;
@@ -68,9 +59,32 @@ bml_matrix_ellblock_t
     int nb = 0;
     while (count < B_N)
     {
-        count += bsize[nb];
+        assert(irowb + nb < A_NB && icolb + nb < A_NB);
+        assert(bsize[irowb + nb] == bsize[icolb + nb]);
+        count += bsize[irowb + nb];
         nb++;
     }
+    assert(count == B_N);
+
+    // B has the same block sizes as the extracted blocks of A
+    int maxbsize = 0;
+    for (int ib = irowb; ib < irowb + nb; ib++)
+        maxbsize = MAX(maxbsize, bsize[ib]);
+    int mb = (B_M + maxbsize - 1) / maxbsize;
+    if (mb < 4)
+        mb = 4;
+    if (mb > nb)
+        mb = nb;
+    bml_matrix_ellblock_t *B =
+        TYPED_FUNC(bml_block_matrix_ellblock) (nb, mb, B_M, &bsize[irowb],
+                                               A->distribution_mode);
+
+    int *B_indexb = B->indexb;
+    int *B_nnzb = B->nnzb;
+    REAL_T **B_ptr_value = (REAL_T **) B->ptr_value;
+
+    int B_NB = B->NB;
+    int B_MB = B->MB;
 
     // loop over subset of block rows of A
     for (int ib = irowb; ib < irowb + nb; ib++)
@@ -82,6 +96,11 @@ bml_matrix_ellblock_t
             if (jb >= icolb && jb < icolb + nb)
             {
                 int nelements = bsize[ib] * bsize[jb];
+                if (B_nnzb[ib - irowb] == B_MB)
+                {
+                    LOG_ERROR
+                        ("Number of non-zeroes blocks per row > MB, Increase MB\n");
+                }
                 int indB =
                     ROWMAJOR(ib - irowb, B_nnzb[ib - irowb], B_NB, B_MB);
                 B_indexb[indB] = jb - icolb;
@@ -152,16 +171,46 @@ void TYPED_FUNC(
     // loop over block rows of B
     for (int ib = 0; ib < B_NB; ib++)
     {
+        assert(B->bsize[ib] == bsize[ib + irowb]);
+        assert(B->bsize[ib] == bsize[ib + icolb]);
+
+        // discard the old elements of A in the assigned block
+        for (int jp = 0; jp < A_nnzb[ib + irowb]; jp++)
+        {
+            int indA = ROWMAJOR(ib + irowb, jp, A_NB, A_MB);
+            int jb = A_indexb[indA];
+            if (jb >= icolb && jb < icolb + B_NB)
+            {
+                memset(A_ptr_value[indA], 0,
+                       bsize[ib + irowb] * bsize[jb] * sizeof(REAL_T));
+            }
+        }
+
         for (int jp = 0; jp < B_nnzb[ib]; jp++)
         {
-            int jb = B_indexb[ROWMAJOR(ib, jp, B_NB, B_MB)];
-            int nelements = bsize[ib] * bsize[jb];
-            int indA = ROWMAJOR(ib + irowb, A_nnzb[ib + irowb], A_NB, A_MB);
             int indB = ROWMAJOR(ib, jp, B_NB, B_MB);
-            A_ptr_value[indA] =
-                TYPED_FUNC(bml_allocate_block_ellblock) (A, ib + irowb,
-                                                         nelements);
-            A_indexb[indA] = jb + icolb;
+            int jb = B_indexb[indB] + icolb;
+            int nelements = bsize[ib + irowb] * bsize[jb];
+
+            // find the block of A to overwrite, or add it
+            int kp = 0;
+            while (kp < A_nnzb[ib + irowb]
+                   && A_indexb[ROWMAJOR(ib + irowb, kp, A_NB, A_MB)] != jb)
+                kp++;
+            if (kp == A_MB)
+            {
+                LOG_ERROR
+                    ("Number of non-zeroes blocks per row > MB, Increase MB\n");
+            }
+            int indA = ROWMAJOR(ib + irowb, kp, A_NB, A_MB);
+            if (kp == A_nnzb[ib + irowb])
+            {
+                A_ptr_value[indA] =
+                    TYPED_FUNC(bml_allocate_block_ellblock) (A, ib + irowb,
+                                                             nelements);
+                A_indexb[indA] = jb;
+                A_nnzb[ib + irowb]++;
+            }
 
             REAL_T *B_value = B_ptr_value[indB];
             REAL_T *A_value = A_ptr_value[indA];
@@ -169,8 +218,6 @@ void TYPED_FUNC(
             {
                 A_value[kk] = B_value[kk];
             }
-
-            A_nnzb[ib + irowb]++;
         }
     }
 }
diff --git a/src/C-interface/ellblock/bml_trace_ellblock_typed.c b/src/C-interface/ellblock/bml_trace_ellblock_typed.c
index 9383a12..d68379c 100644
--- a/src/C-interface/ellblock/bml_trace_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_trace_ellblock_typed.c
@@ -85,7 +85,7 @@ double TYPED_FUNC(
     REAL_T **A_ptr_value = (REAL_T **) A->ptr_value;
     REAL_T **B_ptr_value = (REAL_T **) B->ptr_value;
 
-    if (NB != B->NB || MB != B->MB)
+    if (NB != B->NB)
     {
         LOG_ERROR
             ("bml_trace_mult_ellblock: Matrices A and B have different number of blocks.");
@@ -101,7 +101,7 @@ double TYPED_FUNC(
 
             for (int kp = 0; kp < B_nnzb[jb]; kp++)
             {
-                int indB = ROWMAJOR(jb, kp, NB, MB);
+                int indB = ROWMAJOR(jb, kp, NB, B->MB);
                 int kb = B_indexb[indB];
                 if (kb == ib)
                 {
diff --git a/src/C-interface/ellblock/bml_transpose_ellblock_typed.c b/src/C-interface/ellblock/bml_transpose_ellblock_typed.c
index e4ea7ac..8981626 100644
--- a/src/C-interface/ellblock/bml_transpose_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_transpose_ellblock_typed.c
@@ -1,10 +1,12 @@
 #include "../../macros.h"
 #include "../../typed.h"
 #include "../bml_allocate.h"
+#include "../bml_logger.h"
 #include "../bml_parallel.h"
 #include "../bml_transpose.h"
 #include "../bml_types.h"
 #include "bml_allocate_ellblock.h"
+#include "bml_copy_ellblock.h"
 #include "bml_transpose_ellblock.h"
 #include "bml_types_ellblock.h"
 
@@ -52,12 +54,17 @@ bml_matrix_ellblock_t
         {
             int indA = ROWMAJOR(ib, jp, NB, MB);
             int jb = A_indexb[indA];
+            if (B_nnzb[jb] == MB)
+            {
+                LOG_ERROR
+                    ("Number of non-zeroes blocks per row > MB, Increase MB\n");
+            }
             int indB = ROWMAJOR(jb, B_nnzb[jb], NB, MB);
             //add a new block in B
             B_indexb[indB] = ib;
             int nelements = bsize[ib] * bsize[jb];
             B_ptr_value[indB] =
-                TYPED_FUNC(bml_allocate_block_ellblock) (B, ib, nelements);
+                TYPED_FUNC(bml_allocate_block_ellblock) (B, jb, nelements);
             B_nnzb[jb]++;
             //transpose block
             REAL_T *B_value = B_ptr_value[indB];
@@ -124,6 +131,25 @@ void TYPED_FUNC(
     int *A_nnzb = A->nnzb;
     int *bsize = A->bsize;
 
+    /* blocks are moved between block rows one at a time, so that a block row
+     * may temporarily hold both its old and its new blocks */
+    int nnzb_t[NB];
+    memset(nnzb_t, 0, sizeof(int) * NB);
+    for (int ib = 0; ib < NB; ib++)
+        for (int jp = 0; jp < A_nnzb[ib]; jp++)
+            nnzb_t[A_indexb[ROWMAJOR(ib, jp, NB, MB)]]++;
+    for (int ib = 0; ib < NB; ib++)
+    {
+        if (A_nnzb[ib] + nnzb_t[ib] > MB)
+        {
+            bml_matrix_ellblock_t *B =
+                TYPED_FUNC(bml_transpose_new_ellblock) (A);
+            TYPED_FUNC(bml_copy_ellblock) (B, A);
+            bml_deallocate_ellblock(B);
+            return;
+        }
+    }
+
     int max_block_size = 0;
     for(int i=0; i<NB; i++)
     {
@@ -267,4 +293,4 @@ void TYPED_FUNC(
             }
         }
     }
-}
\ No newline at end of file
+}
diff --git a/src/C-interface/ellblock/bml_utilities_ellblock_typed.c b/src/C-interface/ellblock/bml_utilities_ellblock_typed.c
index 13921d8..3cc997e 100644
--- a/src/C-interface/ellblock/bml_utilities_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_utilities_ellblock_typed.c
@@ -7,6 +7,7 @@
 #include "bml_types_ellblock.h"
 #include "bml_utilities_ellblock.h"
 #include "bml_allocate_ellblock.h"
+#include "bml_setters_ellblock.h"
 
 #include <complex.h>
 #include <math.h>
@@ -33,14 +34,13 @@ void TYPED_FUNC(
     int hdimx, nnz, irow, icol;
     REAL_T value;
 
-    int NB = A->NB;
-    int MB = A->MB;
-    REAL_T **A_ptr_value = (REAL_T **) A->ptr_value;
-    int *A_indexb = A->indexb;
-    int *A_nnzb = A->nnzb;
-    int *A_bsize = A->bsize;
-
     hFile = fopen(filename, "r");
+    if (hFile == NULL)
+    {
+        LOG_ERROR("cannot open file %s\n", filename);
+    }
+
+    TYPED_FUNC(bml_clear_ellblock) (A);
 
     // Read header
     if (fscanf(hFile, "%s %s %s %s %s", header1, header2, header3, header4,
@@ -83,80 +83,20 @@ void TYPED_FUNC(
         LOG_ERROR("unknown matrix precision\n");
 #endif
 
-        irow--;
-        icol--;
-
-        /*compute block indexes */
-        int ib = 0;
-        while (irow >= A_bsize[ib])
+        if (irow < 1 || irow > A->N || icol < 1 || icol > A->N)
         {
-            irow -= A_bsize[ib];
-            ib++;
+            LOG_ERROR("element index out of range\n");
         }
 
-        int jb = 0;
-        while (icol >= A_bsize[jb])
-        {
-            icol -= A_bsize[jb];
-            jb++;
-        }
+        irow--;
+        icol--;
 
-        int found_block = 0;
-        for (int jp = 0; jp < A_nnzb[ib]; jp++)
-        {
-            int ind = ROWMAJOR(ib, jp, NB, MB);
-            int jbb = A_indexb[ind];
-            if (jbb == jb)
-            {
-                found_block = 1;
-                REAL_T *A_value = A_ptr_value[ind];
-                A_value[ROWMAJOR(irow, icol, A_bsize[ib], A_bsize[jb])] =
-                    value;
-            }
-        }
-        //add block if needed
-        if (found_block == 0)
-        {
-            //printf("Add new block %d, %d\n",ib, jb);
-            assert(A_nnzb[ib] < MB);
-            int ind = ROWMAJOR(ib, A_nnzb[ib], NB, MB);
-            A_indexb[ind] = jb;
-            A_nnzb[ib]++;
-            int nelements = A_bsize[ib] * A_bsize[jb];
-            A_ptr_value[ind] =
-                TYPED_FUNC(bml_allocate_block_ellblock) (A, ib, nelements);
-            REAL_T *A_value = A_ptr_value[ind];
-            memset(A_value, 0, nelements * sizeof(REAL_T));
-            assert(A_value != NULL);
-            A_value[ROWMAJOR(irow, icol, A_bsize[ib], A_bsize[jb])] = value;
-        }
+        TYPED_FUNC(bml_set_element_new_ellblock) (A, irow, icol, &value);
 
         // Set symmetric value if necessary
         if (symflag == 0 && icol != irow)
         {
-            int found_block = 0;
-            for (int ip = 0; ip < A_nnzb[jb]; ip++)
-            {
-                int ind = ROWMAJOR(jb, ip, NB, MB);
-                int ibb = A_indexb[ROWMAJOR(jb, ip, NB, MB)];
-                if (ibb == ib)
-                {
-                    found_block = 1;
-                    REAL_T *A_value = A_ptr_value[ind];
-                    A_value[ROWMAJOR(icol, irow, A_bsize[jb], A_bsize[ib])] =
-                        value;
-                }
-            }
-            //add block if needed
-            if (found_block == 0)
-            {
-                A_indexb[A_nnzb[jb]] = ib;
-                int ind = ROWMAJOR(jb, A_nnzb[jb], NB, MB);
-                A_nnzb[jb]++;
-                REAL_T *A_value = A_ptr_value[ind];
-                A_value[ROWMAJOR(icol, irow, A_bsize[jb], A_bsize[ib])] =
-                    value;
-            }
+            TYPED_FUNC(bml_set_element_new_ellblock) (A, icol, irow, &value);
         }
     }
 
-- 
2.43.0


From 630b99321002a4f84ff178b5ba980acad0f8dc64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:49 +0000
Subject: [PATCH 10/45] fix: ellpack and csr submatrix capacity, adjacency
 counts, assign replaces the block

---
 src/C-interface/csr/bml_submatrix_csr_typed.c | 17 ++++++++++
 .../ellpack/bml_submatrix_ellpack.c           | 26 ++++++---------
 .../ellpack/bml_submatrix_ellpack_typed.c     | 32 ++++++++++++++++---
 3 files changed, 55 insertions(+), 20 deletions(-)

diff --git a/src/C-interface/csr/bml_submatrix_csr_typed.c b/src/C-interface/csr/bml_submatrix_csr_typed.c
index 23f994c..cc72c9b 100644
--- a/src/C-interface/csr/bml_submatrix_csr_typed.c
+++ b/src/C-interface/csr/bml_submatrix_csr_typed.c
@@ -56,6 +56,8 @@ bml_matrix_csr_t
 
         TYPED_FUNC(bml_set_sparse_row_csr) (B, i - irow, count, newcols,
                                             newvals, 0.);
+        bml_free_memory(newcols);
+        bml_free_memory(newvals);
     }
 
     return B;
@@ -88,6 +90,21 @@ void TYPED_FUNC(
         }
         REAL_T *vals = TYPED_FUNC(csr_get_column_entries) (B->data_[i]);
 
+        // discard the old elements of A in the assigned block
+        csr_sparse_row_t *arow = A->data_[i + irow];
+        REAL_T *avals = (REAL_T *) arow->vals_;
+        int count = 0;
+        for (int j = 0; j < arow->NNZ_; j++)
+        {
+            if (arow->cols_[j] < icol || arow->cols_[j] >= icol + B_N)
+            {
+                arow->cols_[count] = arow->cols_[j];
+                avals[count] = avals[j];
+                count++;
+            }
+        }
+        arow->NNZ_ = count;
+
         for (int j = 0; j < nz; j++)
         {
             TYPED_FUNC(csr_set_row_element_new) (A->data_[i + irow],
diff --git a/src/C-interface/ellpack/bml_submatrix_ellpack.c b/src/C-interface/ellpack/bml_submatrix_ellpack.c
index e3e75bd..4072ca2 100644
--- a/src/C-interface/ellpack/bml_submatrix_ellpack.c
+++ b/src/C-interface/ellpack/bml_submatrix_ellpack.c
@@ -349,29 +349,22 @@ bml_adjacency_ellpack(
     int *A_index = A->index;
 
     int j;
-    int check;
 
     xadj[0] = 0;
 
-    // Check if diagonal elements are included
-    check = 0;
-    for (int i = 0; i < A_nnz[0]; i++)
+    // Count the off-diagonal elements of each row
+    for (int i = 1; i < A_N + 1; i++)
     {
-        if (A_index[ROWMAJOR(0, i, A_N, A_M)] == 0)
+        xadj[i] = xadj[i - 1];
+        for (int jj = 0; jj < A_nnz[i - 1]; jj++)
         {
-            check = 1;
-            break;
+            if (A_index[ROWMAJOR(i - 1, jj, A_N, A_M)] != i - 1)
+            {
+                xadj[i]++;
+            }
         }
     }
 
-    for (int i = 1; i < A_N + 1; i++)
-    {
-        if (check == 1)
-            xadj[i] = xadj[i - 1] + A_nnz[i - 1] - 1;
-        else
-            xadj[i] = xadj[i - 1] + A_nnz[i - 1];
-    }
-
 #pragma omp parallel for                                \
   private(j)                                            \
   shared(A_N, A_M, A_index, A_nnz, xadj, adjncy)
@@ -497,7 +490,7 @@ bml_adjacency_group_ellpack(
     {
 #pragma omp parallel for                        \
   shared(xadj, A_N, adjncy)
-        for (int i = 0; i <= xadj[nnodes]; i++)
+        for (int i = 0; i < xadj[nnodes]; i++)
         {
             adjncy[i] += 1;
         }
@@ -509,6 +502,7 @@ bml_adjacency_group_ellpack(
         }
     }
 
+    free(hnode);
 }
 
 /** Extract submatrix into new matrix of same format
diff --git a/src/C-interface/ellpack/bml_submatrix_ellpack_typed.c b/src/C-interface/ellpack/bml_submatrix_ellpack_typed.c
index 4c57ff9..1841cf4 100644
--- a/src/C-interface/ellpack/bml_submatrix_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_submatrix_ellpack_typed.c
@@ -352,16 +352,17 @@ void TYPED_FUNC(
         {
             if (ABS(A_matrix[ROWMAJOR(ja, jb, A_N, A_N)]) > threshold)
             {
+                if (icol == B_M)
+                {
+                    LOG_ERROR
+                        ("Number of non-zeroes per row >= M, Increase M\n");
+                }
                 B_index[ROWMAJOR(ii, icol, B_N, B_M)] = core_halo_index[jb];
                 B_value[ROWMAJOR(ii, icol, B_N, B_M)] =
                     A_matrix[ROWMAJOR(ja, jb, A_N, A_N)];
                 icol++;
             }
         }
-        if (icol > B_M)
-        {
-            LOG_ERROR("Number of non-zeroes per row >= M, Increase M\n");
-        }
 
         B_nnz[ii] = icol;
     }
@@ -588,6 +589,11 @@ bml_matrix_ellpack_t
             if (j >= icol && j < icol + B_N)
             {
                 int iB = i - irow;
+                if (B_nnz[iB] == B_M)
+                {
+                    LOG_ERROR
+                        ("Number of non-zeroes per row > M, Increase M\n");
+                }
                 B_index[ROWMAJOR(i - irow, B_nnz[iB], B_N, B_M)] = j - icol;
                 B_value[ROWMAJOR(i - irow, B_nnz[iB], B_N, B_M)] =
                     A_value[ROWMAJOR(i, jp, A_N, A_M)];
@@ -628,10 +634,28 @@ void TYPED_FUNC(
     // loop over rows of B
     for (int i = 0; i < B_N; i++)
     {
+        // discard the old elements of A in the assigned block
+        int ll = 0;
+        for (int jp = 0; jp < A_nnz[i + irow]; jp++)
+        {
+            int ind = ROWMAJOR(i + irow, jp, A_N, A_M);
+            if (A_index[ind] < icol || A_index[ind] >= icol + B_N)
+            {
+                A_value[ROWMAJOR(i + irow, ll, A_N, A_M)] = A_value[ind];
+                A_index[ROWMAJOR(i + irow, ll, A_N, A_M)] = A_index[ind];
+                ll++;
+            }
+        }
+        A_nnz[i + irow] = ll;
+
         for (int jp = 0; jp < B_nnz[i]; jp++)
         {
             int jB = B_index[ROWMAJOR(i, jp, B_N, B_M)];
             int jpA = A_nnz[i + irow];
+            if (jpA == A_M)
+            {
+                LOG_ERROR("Number of non-zeroes per row > M, Increase M\n");
+            }
             A_value[ROWMAJOR(i + irow, jpA, A_N, A_M)] =
                 B_value[ROWMAJOR(i, jp, B_N, B_M)];
             A_index[ROWMAJOR(i + irow, jpA, A_N, A_M)] = jB + icol;
-- 
2.43.0


From 88db685964e856137341676372742063a0340453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:49 +0000
Subject: [PATCH 11/45] fix: dense reorder applies the permutation to rows and
 columns

---
 src/C-interface/dense/bml_copy_dense_typed.c | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/src/C-interface/dense/bml_copy_dense_typed.c b/src/C-interface/dense/bml_copy_dense_typed.c
index 8130f79..7e22c87 100644
--- a/src/C-interface/dense/bml_copy_dense_typed.c
+++ b/src/C-interface/dense/bml_copy_dense_typed.c
@@ -125,22 +125,14 @@ void TYPED_FUNC(
 // pull from GPU
 #pragma omp target update from(A_matrix[0:N*N])
 #endif
-    // Reorder rows - need to copy
-#pragma omp parallel for
-    for (int i = 0; i < N; i++)
-    {
-        memcpy(&A_matrix[ROWMAJOR(perm[i], 0, N, N)],
-               &B_matrix[ROWMAJOR(i, 0, N, N)], N * sizeof(REAL_T));
-    }
-
-    // Reorder elements in each row - just change index
+    // Move element (i,j) to (perm[i],perm[j])
 #pragma omp parallel for
     for (int i = 0; i < N; i++)
     {
         for (int j = 0; j < N; j++)
         {
-            A_matrix[ROWMAJOR(i, j, N, N)] =
-                B_matrix[ROWMAJOR(i, perm[j], N, N)];
+            A_matrix[ROWMAJOR(perm[i], perm[j], N, N)] =
+                B_matrix[ROWMAJOR(i, j, N, N)];
         }
     }
 #ifdef MKL_GPU
-- 
2.43.0


From a87fd8e1737fd3d836c2b418e182d4a5b18fe731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:49 +0000
Subject: [PATCH 12/45] fix: reading a matrix file replaces the matrix and
 checks indices; MatrixMarket header

---
 src/C-interface/csr/bml_utilities_csr_typed.c | 16 +++++++++--
 .../dense/bml_utilities_dense_typed.c         | 27 +++++++++++++++++--
 .../ellblock/bml_utilities_ellblock_typed.c   |  4 +--
 .../ellpack/bml_utilities_ellpack_typed.c     |  4 +--
 4 files changed, 43 insertions(+), 8 deletions(-)

diff --git a/src/C-interface/csr/bml_utilities_csr_typed.c b/src/C-interface/csr/bml_utilities_csr_typed.c
index 6f71845..25fa619 100644
--- a/src/C-interface/csr/bml_utilities_csr_typed.c
+++ b/src/C-interface/csr/bml_utilities_csr_typed.c
@@ -4,6 +4,7 @@
 #include "../bml_parallel.h"
 #include "../bml_types.h"
 #include "../bml_utilities.h"
+#include "bml_allocate_csr.h"
 #include "bml_types_csr.h"
 #include "bml_setters_csr.h"
 #include "bml_utilities_csr.h"
@@ -31,6 +32,13 @@ void TYPED_FUNC(
     REAL_T value;
 
     hFile = fopen(filename, "r");
+    if (hFile == NULL)
+    {
+        LOG_ERROR("unable to open %s\n", filename);
+    }
+
+    // The contents of the file replace the matrix
+    TYPED_FUNC(bml_clear_csr) (A);
 
     // Read header
     if (fscanf(hFile, "%s %s %s %s %s", header1, header2, header3, header4,
@@ -91,6 +99,10 @@ void TYPED_FUNC(
 
         irow--;
         icol--;
+        if (irow < 0 || irow >= A->N_ || icol < 0 || icol >= A->N_)
+        {
+            LOG_ERROR("index out of bounds\n");
+        }
         // set new element
         TYPED_FUNC(csr_set_row_element_new) (A->data_[irow], icol, &value);
         // Set symmetric value if necessary
@@ -132,9 +144,9 @@ void TYPED_FUNC(
 
     // Write header
 #if defined(SINGLE_REAL) || defined(DOUBLE_REAL)
-    fprintf(mFile, "%%%%%%MatrixMarket matrix coordinate real general\n");
+    fprintf(mFile, "%%%%MatrixMarket matrix coordinate real general\n");
 #elif defined(SINGLE_COMPLEX) || defined(DOUBLE_COMPLEX)
-    fprintf(mFile, "%%%%%%MatrixMarket matrix coordinate complex general\n");
+    fprintf(mFile, "%%%%MatrixMarket matrix coordinate complex general\n");
 #endif
 
     // Collect number of non-zero elements
diff --git a/src/C-interface/dense/bml_utilities_dense_typed.c b/src/C-interface/dense/bml_utilities_dense_typed.c
index f2cf671..6846d72 100644
--- a/src/C-interface/dense/bml_utilities_dense_typed.c
+++ b/src/C-interface/dense/bml_utilities_dense_typed.c
@@ -47,6 +47,13 @@ void TYPED_FUNC(
 #endif
 
     matrix_file = fopen(filename, "r");
+    if (matrix_file == NULL)
+    {
+        LOG_ERROR("unable to open %s\n", filename);
+    }
+
+    // The contents of the file replace the matrix
+    memset(A_matrix, 0, N * N * sizeof(REAL_T));
 
     // Read header
     if ((values_read = fscanf
@@ -74,6 +81,10 @@ void TYPED_FUNC(
             LOG_ERROR("Line %d, expected 3 entries, read %d\n", i + 3,
                       values_read);
         }
+        if (irow < 1 || irow > N || icol < 1 || icol > N)
+        {
+            LOG_ERROR("index out of bounds\n");
+        }
         A_matrix[ROWMAJOR(irow - 1, icol - 1, N, N)] = real_part;
 #elif defined(DOUBLE_REAL)
         if ((values_read =
@@ -83,6 +94,10 @@ void TYPED_FUNC(
             LOG_ERROR("Line %d, expected 3 entries, read %d\n", i + 3,
                       values_read);
         }
+        if (irow < 1 || irow > N || icol < 1 || icol > N)
+        {
+            LOG_ERROR("index out of bounds\n");
+        }
         A_matrix[ROWMAJOR(irow - 1, icol - 1, N, N)] = real_part;
 #elif defined(SINGLE_COMPLEX)
         if ((values_read =
@@ -92,6 +107,10 @@ void TYPED_FUNC(
             LOG_ERROR("Line %d, expected 4 entries, read %d\n", i + 3,
                       values_read);
         }
+        if (irow < 1 || irow > N || icol < 1 || icol > N)
+        {
+            LOG_ERROR("index out of bounds\n");
+        }
         A_matrix[ROWMAJOR(irow - 1, icol - 1, N, N)] =
             real_part + I * imaginary_part;
 #elif defined(DOUBLE_COMPLEX)
@@ -102,6 +121,10 @@ void TYPED_FUNC(
             LOG_ERROR("Line %d, expected 4 entries, read %d\n", i + 3,
                       values_read);
         }
+        if (irow < 1 || irow > N || icol < 1 || icol > N)
+        {
+            LOG_ERROR("index out of bounds\n");
+        }
         A_matrix[ROWMAJOR(irow - 1, icol - 1, N, N)] =
             real_part + I * imaginary_part;
 #else
@@ -158,10 +181,10 @@ void TYPED_FUNC(
     // Write header
 #if defined(SINGLE_REAL) || defined(DOUBLE_REAL)
     fprintf(matrix_file,
-            "%%%%%%MatrixMarket matrix coordinate real general\n");
+            "%%%%MatrixMarket matrix coordinate real general\n");
 #elif defined(SINGLE_COMPLEX) || defined(DOUBLE_COMPLEX)
     fprintf(matrix_file,
-            "%%%%%%MatrixMarket matrix coordinate complex general\n");
+            "%%%%MatrixMarket matrix coordinate complex general\n");
 #endif
 
     // count number of non-zero elements
diff --git a/src/C-interface/ellblock/bml_utilities_ellblock_typed.c b/src/C-interface/ellblock/bml_utilities_ellblock_typed.c
index 3cc997e..ecff718 100644
--- a/src/C-interface/ellblock/bml_utilities_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_utilities_ellblock_typed.c
@@ -134,9 +134,9 @@ void TYPED_FUNC(
 
     // Write header
 #if defined(SINGLE_REAL) || defined(DOUBLE_REAL)
-    fprintf(mFile, "%%%%%%MatrixMarket matrix coordinate real general\n");
+    fprintf(mFile, "%%%%MatrixMarket matrix coordinate real general\n");
 #elif defined(SINGLE_COMPLEX) || defined(DOUBLE_COMPLEX)
-    fprintf(mFile, "%%%%%%MatrixMarket matrix coordinate complex general\n");
+    fprintf(mFile, "%%%%MatrixMarket matrix coordinate complex general\n");
 #else
     LOG_ERROR("unknown matrix precision\n");
 #endif
diff --git a/src/C-interface/ellpack/bml_utilities_ellpack_typed.c b/src/C-interface/ellpack/bml_utilities_ellpack_typed.c
index 8128697..c7bdd11 100644
--- a/src/C-interface/ellpack/bml_utilities_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_utilities_ellpack_typed.c
@@ -171,9 +171,9 @@ void TYPED_FUNC(
 
     // Write header
 #if defined(SINGLE_REAL) || defined(DOUBLE_REAL)
-    fprintf(mFile, "%%%%%%MatrixMarket matrix coordinate real general\n");
+    fprintf(mFile, "%%%%MatrixMarket matrix coordinate real general\n");
 #elif defined(SINGLE_COMPLEX) || defined(DOUBLE_COMPLEX)
-    fprintf(mFile, "%%%%%%MatrixMarket matrix coordinate complex general\n");
+    fprintf(mFile, "%%%%MatrixMarket matrix coordinate complex general\n");
 #endif
 
     // Collect number of non-zero elements
-- 
2.43.0


From bb08bbeede482284f6fde020f68bf1f1332ad686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:49 +0000
Subject: [PATCH 13/45] fix: refuse out of range element and row reads

---
 src/C-interface/bml_getters.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/C-interface/bml_getters.c b/src/C-interface/bml_getters.c
index 47caab9..6b7d68a 100644
--- a/src/C-interface/bml_getters.c
+++ b/src/C-interface/bml_getters.c
@@ -24,6 +24,10 @@ bml_get_element(
     int i,
     int j)
 {
+    if (i < 0 || i >= bml_get_N(A) || j < 0 || j >= bml_get_N(A))
+    {
+        LOG_ERROR("matrix index out of range\n");
+    }
     switch (bml_get_type(A))
     {
         case dense:
@@ -56,6 +60,10 @@ bml_get_row(
     bml_matrix_t * A,
     int i)
 {
+    if (i < 0 || i >= bml_get_N(A))
+    {
+        LOG_ERROR("row index out of range\n");
+    }
     switch (bml_get_type(A))
     {
         case dense:
-- 
2.43.0


From f15bbbe5008d21b2ab0f9086997cd0d5cc4d63c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:49 +0000
Subject: [PATCH 14/45] fix: eigenvectors of complex matrices, report LAPACK
 failures

---
 src/C-interface/dense/bml_diagonalize_dense.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/C-interface/dense/bml_diagonalize_dense.c b/src/C-interface/dense/bml_diagonalize_dense.c
index ee5d480..87e0495 100644
--- a/src/C-interface/dense/bml_diagonalize_dense.c
+++ b/src/C-interface/dense/bml_diagonalize_dense.c
@@ -262,6 +262,8 @@ bml_diagonalize_dense_cpu_single_real(
     const int lwork = 3 * A->N;
     float *work = calloc(lwork, sizeof(float));
     C_SSYEV("V", "U", &N, evecs, &N, evals, work, &lwork, &info);
+    if (info != 0)
+        LOG_ERROR("error %d in ssyev\n", info);
 #endif // BML_SYEVD
 
     A_matrix = (float *) eigenvectors->matrix;
@@ -631,6 +633,8 @@ bml_diagonalize_dense_cpu_double_real(
     int lwork = 3 * A->N;
     double *work = calloc(lwork, sizeof(double));
     C_DSYEV("V", "U", &A->N, evecs, &A->N, evals, work, &lwork, &info);
+    if (info != 0)
+        LOG_ERROR("error %d in dsyev\n", info);
 #endif
 
     A_matrix = (double *) eigenvectors->matrix;
@@ -746,6 +750,8 @@ bml_diagonalize_dense_single_complex(
         C_CHEEVR("V", "A", "U", &A->N, A_copy, &A->N, &vl, &vu, &il, &iu,
                  &abstol, &M, evals, evecs, &A->N, isuppz, work, &lwork,
                  rwork, &lrwork, iwork, &liwork, &info);
+        if (info != 0)
+            LOG_ERROR("error %d in cheevr\n", info);
     }
 #endif
     A_matrix = (float complex *) eigenvectors->matrix;
@@ -754,8 +760,9 @@ bml_diagonalize_dense_single_complex(
         typed_eigenvalues[i] = (double) evals[i];
         for (int j = 0; j < A->N; j++)
         {
+            // LAPACK has seen the transpose of A, i.e. its conjugate
             A_matrix[ROWMAJOR(i, j, A->N, A->N)] =
-                evecs[COLMAJOR(i, j, A->N, A->N)];
+                conjf(evecs[COLMAJOR(i, j, A->N, A->N)]);
         }
     }
 
@@ -856,6 +863,8 @@ bml_diagonalize_dense_double_complex(
         C_ZHEEVR("V", "A", "U", &A->N, A_copy, &A->N, &vl, &vu, &il, &iu,
                  &abstol, &M, evals, evecs, &A->N, isuppz, work, &lwork,
                  rwork, &lrwork, iwork, &liwork, &info);
+        if (info != 0)
+            LOG_ERROR("error %d in zheevr\n", info);
     }
 #endif
     A_matrix = (double complex *) eigenvectors->matrix;
@@ -864,8 +873,9 @@ bml_diagonalize_dense_double_complex(
         typed_eigenvalues[i] = (double) evals[i];
         for (int j = 0; j < A->N; j++)
         {
+            // LAPACK has seen the transpose of A, i.e. its conjugate
             A_matrix[ROWMAJOR(i, j, A->N, A->N)] =
-                evecs[COLMAJOR(i, j, A->N, A->N)];
+                conj(evecs[COLMAJOR(i, j, A->N, A->N)]);
         }
     }
 
-- 
2.43.0


From 83957612f4cfe7793aec5fbe773509ba75248281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:49 +0000
Subject: [PATCH 15/45] fix: refuse to invert a singular matrix

---
 src/C-interface/dense/bml_inverse_dense_typed.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/C-interface/dense/bml_inverse_dense_typed.c b/src/C-interface/dense/bml_inverse_dense_typed.c
index 3d8e66a..e0845b4 100644
--- a/src/C-interface/dense/bml_inverse_dense_typed.c
+++ b/src/C-interface/dense/bml_inverse_dense_typed.c
@@ -122,7 +122,11 @@ void TYPED_FUNC(
 #pragma omp target update from(A_matrix[0:N*N])
 #endif
     C_BLAS(GETRF) (&M, &N, A->matrix, &lda, ipiv, &info);
+    if (info != 0)
+        LOG_ERROR("ERROR in getrf, the matrix is singular\n");
     C_BLAS(GETRI) (&N, A->matrix, &N, ipiv, work, &lwork, &info);
+    if (info != 0)
+        LOG_ERROR("ERROR in getri\n");
 #ifdef MKL_GPU
 // push back to GPU
 #pragma omp target update to(A_matrix[0:N*N])
-- 
2.43.0


From 23524813afb2594f37e673147dbe585529ab09f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:50 +0000
Subject: [PATCH 16/45] fix: group matrix lost connections through a marker
 left by an earlier group

---
 src/C-interface/ellpack/bml_submatrix_ellpack_typed.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/C-interface/ellpack/bml_submatrix_ellpack_typed.c b/src/C-interface/ellpack/bml_submatrix_ellpack_typed.c
index 1841cf4..ec89b24 100644
--- a/src/C-interface/ellpack/bml_submatrix_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_submatrix_ellpack_typed.c
@@ -502,7 +502,7 @@ bml_matrix_ellpack_t
             for (int k = 0; k < A_nnz[j]; k++)
             {
                 int ii = hnode[A_index[ROWMAJOR(j, k, A_N, A_M)]];
-                if (ix[ii] == 0 && ii != i)
+                if (ix[ii] != i + 1 && ii != i)
                 {
                     //printf("row = %d col = %d val = %e\n", j, A_index[ROWMAJOR(j, k, A_N, A_M)], A_value[ROWMAJOR(j, k, A_N, A_M)]);
                     if (is_above_threshold(A_value[ROWMAJOR(j, k, A_N, A_M)],
-- 
2.43.0


From 9cf1e5b03e2d80c01b27414673fe34f7c86251f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:50 +0000
Subject: [PATCH 17/45] fix: ellblock trace of a product accepted matrices of
 different sizes

---
 src/C-interface/ellblock/bml_trace_ellblock_typed.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/C-interface/ellblock/bml_trace_ellblock_typed.c b/src/C-interface/ellblock/bml_trace_ellblock_typed.c
index d68379c..e12608d 100644
--- a/src/C-interface/ellblock/bml_trace_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_trace_ellblock_typed.c
@@ -85,7 +85,7 @@ double TYPED_FUNC(
     REAL_T **A_ptr_value = (REAL_T **) A->ptr_value;
     REAL_T **B_ptr_value = (REAL_T **) B->ptr_value;
 
-    if (NB != B->NB)
+    if (NB != B->NB || A->N != B->N)
     {
         LOG_ERROR
             ("bml_trace_mult_ellblock: Matrices A and B have different number of blocks.");
-- 
2.43.0


From 815d306102585117620ac1283b565c08d422d183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:50 +0000
Subject: [PATCH 18/45] fix: ellblock row capacity was kept from an earlier,
 smaller matrix

---
 .../ellblock/bml_allocate_ellblock.c          | 24 ++++++++++++-------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/C-interface/ellblock/bml_allocate_ellblock.c b/src/C-interface/ellblock/bml_allocate_ellblock.c
index 6f63302..f53bf92 100644
--- a/src/C-interface/ellblock/bml_allocate_ellblock.c
+++ b/src/C-interface/ellblock/bml_allocate_ellblock.c
@@ -14,6 +14,7 @@
  */
 static int *s_default_bsize = NULL;
 static int s_default_block_dim = 4;
+static int s_user_bsize = 0;
 static int s_nb = 0;
 static int s_mb = 0;
 
@@ -36,6 +37,7 @@ bml_set_block_sizes(
      */
     assert(s_nb == 0);
 
+    s_user_bsize = 1;
     s_nb = nb;
     s_mb = mb;
     s_default_bsize = malloc(nb * sizeof(int));
@@ -72,6 +74,20 @@ bml_get_block_sizes(
             s_nb++;
         printf("s_nb = %d\n", s_nb);
 
+        s_default_bsize = bml_noinit_allocate_memory(s_nb * sizeof(int));
+        for (int ib = 0; ib < s_nb - 1; ib++)
+        {
+            s_default_bsize[ib] = s_default_block_dim;
+        }
+        s_default_bsize[s_nb - 1] = N - s_default_block_dim * (s_nb - 1);
+        s_user_bsize = 0;
+    }
+
+    // the number of blocks/row follows from M unless set by the user
+    if (!s_user_bsize)
+    {
+        assert(M > 0);
+
         s_mb = M / s_default_block_dim;
         if (s_mb * s_default_block_dim < M)
             s_mb++;
@@ -81,14 +97,6 @@ bml_get_block_sizes(
         // of row blocks
         if (s_mb > s_nb)
             s_mb = s_nb;
-        printf("s_mb = %d\n", s_mb);
-
-        s_default_bsize = bml_noinit_allocate_memory(s_nb * sizeof(int));
-        for (int ib = 0; ib < s_nb - 1; ib++)
-        {
-            s_default_bsize[ib] = s_default_block_dim;
-        }
-        s_default_bsize[s_nb - 1] = N - s_default_block_dim * (s_nb - 1);
     }
     return s_default_bsize;
 }
-- 
2.43.0


From c557b90c5dfc2330f12d12920a2f3649ee01c6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:18 +0000
Subject: [PATCH 19/45] fix: internal gemm honours the leading dimensions

---
 src/internal-blas/bml_gemm.c | 46 ++++++++++++++++++------------------
 1 file changed, 23 insertions(+), 23 deletions(-)

diff --git a/src/internal-blas/bml_gemm.c b/src/internal-blas/bml_gemm.c
index 2fd247a..ba929d4 100644
--- a/src/internal-blas/bml_gemm.c
+++ b/src/internal-blas/bml_gemm.c
@@ -104,7 +104,7 @@ void TYPED_FUNC(
             {
                 for (int i = 0; i < *m; i++)
                 {
-                    c[COLMAJOR(i, j, *m, *n)] = 0;
+                    c[COLMAJOR(i, j, *ldc, *n)] = 0;
                 }
             }
         }
@@ -114,8 +114,8 @@ void TYPED_FUNC(
             {
                 for (int i = 0; i < *m; i++)
                 {
-                    c[COLMAJOR(i, j, *m, *n)] =
-                        *beta * c[COLMAJOR(i, j, *m, *n)];
+                    c[COLMAJOR(i, j, *ldc, *n)] =
+                        *beta * c[COLMAJOR(i, j, *ldc, *n)];
                 }
             }
         }
@@ -135,24 +135,24 @@ void TYPED_FUNC(
                 {
                     for (int i = 0; i < *m; i++)
                     {
-                        c[COLMAJOR(i, j, *m, *n)] = 0;
+                        c[COLMAJOR(i, j, *ldc, *n)] = 0;
                     }
                 }
                 else if (*beta != 1.0)
                 {
                     for (int i = 0; i < *m; i++)
                     {
-                        c[COLMAJOR(i, j, *m, *n)] *= *beta;
+                        c[COLMAJOR(i, j, *ldc, *n)] *= *beta;
                     }
                 }
 
                 for (int l = 0; l < *k; l++)
                 {
-                    REAL_T temp = *alpha * b[COLMAJOR(l, j, *k, *n)];
+                    REAL_T temp = *alpha * b[COLMAJOR(l, j, *ldb, *n)];
                     for (int i = 0; i < *m; i++)
                     {
-                        c[COLMAJOR(i, j, *m, *n)] +=
-                            temp * a[COLMAJOR(i, l, *m, *k)];
+                        c[COLMAJOR(i, j, *ldc, *n)] +=
+                            temp * a[COLMAJOR(i, l, *lda, *k)];
                     }
                 }
             }
@@ -170,17 +170,17 @@ void TYPED_FUNC(
                     for (int l = 0; l < *k; l++)
                     {
                         temp +=
-                            a[COLMAJOR(l, i, *k, *m)] *
-                            b[COLMAJOR(l, j, *k, *n)];
+                            a[COLMAJOR(l, i, *lda, *m)] *
+                            b[COLMAJOR(l, j, *ldb, *n)];
                     }
                     if (*beta == 0)
                     {
-                        c[COLMAJOR(i, j, *m, *n)] = *alpha * temp;
+                        c[COLMAJOR(i, j, *ldc, *n)] = *alpha * temp;
                     }
                     else
                     {
-                        c[COLMAJOR(i, j, *m, *n)] =
-                            *alpha * temp + *beta * c[COLMAJOR(i, j, *m, *n)];
+                        c[COLMAJOR(i, j, *ldc, *n)] =
+                            *alpha * temp + *beta * c[COLMAJOR(i, j, *ldc, *n)];
                     }
                 }
             }
@@ -199,24 +199,24 @@ void TYPED_FUNC(
                 {
                     for (int i = 0; i < *m; i++)
                     {
-                        c[COLMAJOR(i, j, *m, *n)] = 0;
+                        c[COLMAJOR(i, j, *ldc, *n)] = 0;
                     }
                 }
                 else if (*beta != 1.0)
                 {
                     for (int i = 0; i < *m; i++)
                     {
-                        c[COLMAJOR(i, j, *m, *n)] *= *beta;
+                        c[COLMAJOR(i, j, *ldc, *n)] *= *beta;
                     }
                 }
 
                 for (int l = 0; l < *k; l++)
                 {
-                    REAL_T temp = *alpha * b[COLMAJOR(j, l, *n, *k)];
+                    REAL_T temp = *alpha * b[COLMAJOR(j, l, *ldb, *k)];
                     for (int i = 0; i < *m; i++)
                     {
-                        c[COLMAJOR(i, j, *m, *n)] +=
-                            temp * a[COLMAJOR(i, l, *m, *k)];
+                        c[COLMAJOR(i, j, *ldc, *n)] +=
+                            temp * a[COLMAJOR(i, l, *lda, *k)];
                     }
                 }
             }
@@ -234,18 +234,18 @@ void TYPED_FUNC(
                     for (int l = 0; l < *k; l++)
                     {
                         temp +=
-                            a[COLMAJOR(l, i, *k, *m)] *
-                            b[COLMAJOR(j, l, *n, *k)];
+                            a[COLMAJOR(l, i, *lda, *m)] *
+                            b[COLMAJOR(j, l, *ldb, *k)];
                     }
 
                     if (*beta == 0)
                     {
-                        c[COLMAJOR(i, j, *m, *n)] = *alpha * temp;
+                        c[COLMAJOR(i, j, *ldc, *n)] = *alpha * temp;
                     }
                     else
                     {
-                        c[COLMAJOR(i, j, *m, *n)] =
-                            *alpha * temp + *beta * c[COLMAJOR(i, j, *m, *n)];
+                        c[COLMAJOR(i, j, *ldc, *n)] =
+                            *alpha * temp + *beta * c[COLMAJOR(i, j, *ldc, *n)];
                     }
                 }
             }
-- 
2.43.0


From 687d3020776d683e9621b0f65e566612977b0112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:18 +0000
Subject: [PATCH 20/45] fix: internal gemm conjugates for flag C

---
 src/internal-blas/bml_gemm.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/internal-blas/bml_gemm.c b/src/internal-blas/bml_gemm.c
index ba929d4..3b968f6 100644
--- a/src/internal-blas/bml_gemm.c
+++ b/src/internal-blas/bml_gemm.c
@@ -25,6 +25,9 @@ void TYPED_FUNC(
      * http://www.netlib.org/lapack/explore-html/d1/d54/group__double__blas__level3_gaeda3cbd99c8fb834a60a6412878226e1.html
      */
 
+    const int conja = (*transa == 'C');
+    const int conjb = (*transb == 'C');
+
     int N_rows_A;
     int N_rows_B;
     int N_cols_A;
@@ -169,8 +172,8 @@ void TYPED_FUNC(
                     REAL_T temp = 0;
                     for (int l = 0; l < *k; l++)
                     {
-                        temp +=
-                            a[COLMAJOR(l, i, *lda, *m)] *
+                        REAL_T a_ = a[COLMAJOR(l, i, *lda, *m)];
+                        temp += (conja ? COMPLEX_CONJUGATE(a_) : a_) *
                             b[COLMAJOR(l, j, *ldb, *n)];
                     }
                     if (*beta == 0)
@@ -212,7 +215,9 @@ void TYPED_FUNC(
 
                 for (int l = 0; l < *k; l++)
                 {
-                    REAL_T temp = *alpha * b[COLMAJOR(j, l, *ldb, *k)];
+                    REAL_T b_ = b[COLMAJOR(j, l, *ldb, *k)];
+                    REAL_T temp =
+                        *alpha * (conjb ? COMPLEX_CONJUGATE(b_) : b_);
                     for (int i = 0; i < *m; i++)
                     {
                         c[COLMAJOR(i, j, *ldc, *n)] +=
@@ -233,9 +238,10 @@ void TYPED_FUNC(
                     REAL_T temp = 0;
                     for (int l = 0; l < *k; l++)
                     {
-                        temp +=
-                            a[COLMAJOR(l, i, *lda, *m)] *
-                            b[COLMAJOR(j, l, *ldb, *k)];
+                        REAL_T a_ = a[COLMAJOR(l, i, *lda, *m)];
+                        REAL_T b_ = b[COLMAJOR(j, l, *ldb, *k)];
+                        temp += (conja ? COMPLEX_CONJUGATE(a_) : a_) *
+                            (conjb ? COMPLEX_CONJUGATE(b_) : b_);
                     }
 
                     if (*beta == 0)
-- 
2.43.0


From 48766874c45b45fc195590856c4c39ece0342cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:28 +0000
Subject: [PATCH 21/45] fix: distributed2d import sets the precision and
 honours column-major order

---
 .../distributed2d/bml_import_distributed2d_typed.c          | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/C-interface/distributed2d/bml_import_distributed2d_typed.c b/src/C-interface/distributed2d/bml_import_distributed2d_typed.c
index 4edbdd2..6b44352 100644
--- a/src/C-interface/distributed2d/bml_import_distributed2d_typed.c
+++ b/src/C-interface/distributed2d/bml_import_distributed2d_typed.c
@@ -42,6 +42,7 @@ bml_matrix_distributed2d_t *TYPED_FUNC(
     bml_setup_distributed2d(N, A_bml);
     assert(A_bml->comm != MPI_COMM_NULL);
     A_bml->M = M;
+    A_bml->matrix_precision = MATRIX_PRECISION;
 
     // local submatrix dimensions
     int n = A_bml->n;
@@ -70,7 +71,10 @@ bml_matrix_distributed2d_t *TYPED_FUNC(
             // pack data into buffer
             sendbuf[dest - 1] = bml_allocate_memory(n * n * sizeof(REAL_T));
             REAL_T *array = (REAL_T *) (A);
-            C_BLAS(LACPY) ("A", &n, &n, array + N * n * ip + n * jp, &N,
+            // offset of block (ip, jp) in the dense array
+            int offset = (order == dense_row_major) ?
+                N * n * ip + n * jp : N * n * jp + n * ip;
+            C_BLAS(LACPY) ("A", &n, &n, array + offset, &N,
                            sendbuf[dest - 1], &n);
             MPI_Isend(sendbuf[dest - 1], n * n, MPI_T, dest, tag, A_bml->comm,
                       &request[dest - 1]);
-- 
2.43.0


From 1bc33aea3d37d56699c8a231dec3bd5f00a8bc80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:28 +0000
Subject: [PATCH 22/45] fix: distributed2d export honours column-major order
 and frees its buffer

---
 .../distributed2d/bml_export_distributed2d_typed.c         | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/C-interface/distributed2d/bml_export_distributed2d_typed.c b/src/C-interface/distributed2d/bml_export_distributed2d_typed.c
index 3b6246b..049d14a 100644
--- a/src/C-interface/distributed2d/bml_export_distributed2d_typed.c
+++ b/src/C-interface/distributed2d/bml_export_distributed2d_typed.c
@@ -67,8 +67,11 @@ void *TYPED_FUNC(
             int ip = coords[0];
             int jp = coords[1];
             MPI_Wait(&request[src - 1], &status);
+            // offset of block (ip, jp) in the dense array
+            int offset = (order == dense_row_major) ?
+                N * n * ip + n * jp : N * n * jp + n * ip;
             C_BLAS(LACPY) ("A", &n, &n, recvbuf[src - 1], &n,
-                           A_dense + n * N * ip + n * jp, &N);
+                           A_dense + offset, &N);
         }
         for (int src = 1; src < ntasks; src++)
         {
@@ -78,5 +81,7 @@ void *TYPED_FUNC(
         bml_free_memory(recvbuf);
     }
 
+    bml_free_memory(sendbuf);
+
     return A_dense;
 }
-- 
2.43.0


From c5bba179f7ea40283dacfd560cd3bf938269dc00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:28 +0000
Subject: [PATCH 23/45] fix: distributed2d convert leaked the zero block and
 used the row capacity of the source

---
 src/C-interface/distributed2d/bml_convert_distributed2d.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/C-interface/distributed2d/bml_convert_distributed2d.c b/src/C-interface/distributed2d/bml_convert_distributed2d.c
index 8abf870..2459c33 100644
--- a/src/C-interface/distributed2d/bml_convert_distributed2d.c
+++ b/src/C-interface/distributed2d/bml_convert_distributed2d.c
@@ -1,3 +1,4 @@
+#include "../bml_allocate.h"
 #include "../bml_introspection.h"
 #include "../bml_convert.h"
 #include "../bml_logger.h"
@@ -21,7 +22,8 @@ bml_convert_distributed2d(
                                                                   N,
                                                                   M);
     bml_matrix_t *matrix = bml_get_local_matrix(A);
-    int m = bml_get_M(matrix);
+    int m = M / B->npcols;
+    bml_deallocate(&(B->matrix));
     B->matrix = bml_convert(matrix, matrix_type,
                             matrix_precision, m, sequential);
 
-- 
2.43.0


From 9ec4105802cc4a3568858fb551756edaca4bb0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:28 +0000
Subject: [PATCH 24/45] fix: distributed2d deallocation leaked the row and
 column communicators

---
 src/C-interface/distributed2d/bml_allocate_distributed2d.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/C-interface/distributed2d/bml_allocate_distributed2d.c b/src/C-interface/distributed2d/bml_allocate_distributed2d.c
index ae9e2ff..d1029c6 100644
--- a/src/C-interface/distributed2d/bml_allocate_distributed2d.c
+++ b/src/C-interface/distributed2d/bml_allocate_distributed2d.c
@@ -87,6 +87,8 @@ bml_deallocate_distributed2d(
     assert(A != NULL);
     assert(A->matrix != NULL);
     bml_deallocate(&(A->matrix));
+    MPI_Comm_free(&(A->row_comm));
+    MPI_Comm_free(&(A->col_comm));
     bml_free_memory(A);
 }
 
-- 
2.43.0


From 6d08bed64dc2ed2b42e6b9eca4ac717c73dc79b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:28 +0000
Subject: [PATCH 25/45] fix: distributed2d get_row gathers with running
 displacements and refuses rows out of range

---
 .../distributed2d/bml_getters_distributed2d_typed.c         | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/C-interface/distributed2d/bml_getters_distributed2d_typed.c b/src/C-interface/distributed2d/bml_getters_distributed2d_typed.c
index 5de1ee6..032ba50 100644
--- a/src/C-interface/distributed2d/bml_getters_distributed2d_typed.c
+++ b/src/C-interface/distributed2d/bml_getters_distributed2d_typed.c
@@ -12,6 +12,9 @@ void *TYPED_FUNC(
     int i)
 {
     const int nloc = A->N / A->nprows;
+
+    if (i < 0 || i >= A->N)
+        LOG_ERROR("row index %d out of bounds\n", i);
     // allocate full row to be returned
     REAL_T *row = bml_allocate_memory(A->N * sizeof(REAL_T));
 
@@ -37,7 +40,7 @@ void *TYPED_FUNC(
 
     int *displs = calloc(A->ntasks, sizeof(int));
     for (int i = 0; i < A->ntasks - 1; i++)
-        displs[i + 1] += recvcounts[i];
+        displs[i + 1] = displs[i] + recvcounts[i];
 
     MPI_Allgatherv(sub_row, mycount, MPI_T, row, recvcounts, displs, MPI_T,
                    A->comm);
@@ -47,6 +50,7 @@ void *TYPED_FUNC(
         LOG_ERROR
             ("bml_get_row_distributed2d: MPI_Allgatherv, MPI_ERR_BUFFER");
 
+    bml_free_memory(sub_row);
     free(recvcounts);
     free(counts);
     free(displs);
-- 
2.43.0


From 1c3bbc8a7ecdd3d97ff7804ac61ba2c68e45b6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:28 +0000
Subject: [PATCH 26/45] fix: distributed2d trace_mult pairs block (i,j) with
 block (j,i)

---
 .../distributed2d/bml_trace_distributed2d.c   | 20 ++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/C-interface/distributed2d/bml_trace_distributed2d.c b/src/C-interface/distributed2d/bml_trace_distributed2d.c
index 704a71b..a3ee76a 100644
--- a/src/C-interface/distributed2d/bml_trace_distributed2d.c
+++ b/src/C-interface/distributed2d/bml_trace_distributed2d.c
@@ -1,3 +1,5 @@
+#include "../bml_allocate.h"
+#include "../bml_copy.h"
 #include "../bml_logger.h"
 #include "../bml_trace.h"
 #include "../bml_types.h"
@@ -43,7 +45,23 @@ bml_trace_mult_distributed2d(
     bml_matrix_distributed2d_t * A,
     bml_matrix_distributed2d_t * B)
 {
-    double trace = bml_trace_mult(A->matrix, B->matrix);;
+    double trace;
+
+    if (A->myprow == A->mypcol)
+    {
+        trace = bml_trace_mult(A->matrix, B->matrix);
+    }
+    else
+    {
+        // local block A(i,j) goes with block B(j,i)
+        int remote_task = A->mypcol * A->npcols + A->myprow;
+        bml_matrix_t *Btmp = bml_copy_new(B->matrix);
+        bml_mpi_irecv(Btmp, remote_task, A->comm);
+        bml_mpi_send(B->matrix, remote_task, A->comm);
+        bml_mpi_irecv_complete(Btmp);
+        trace = bml_trace_mult(A->matrix, Btmp);
+        bml_deallocate(&Btmp);
+    }
 
     bml_sumRealReduce(&trace);
 
-- 
2.43.0


From 11a12b4bb5d14ab4a4de702c143e72e2b61a0125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:28 +0000
Subject: [PATCH 27/45] fix: distributed2d identity updates touch diagonal
 blocks only

---
 src/C-interface/distributed2d/bml_add_distributed2d.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/C-interface/distributed2d/bml_add_distributed2d.c b/src/C-interface/distributed2d/bml_add_distributed2d.c
index 9bb68e1..8e6e8f4 100644
--- a/src/C-interface/distributed2d/bml_add_distributed2d.c
+++ b/src/C-interface/distributed2d/bml_add_distributed2d.c
@@ -75,7 +75,10 @@ bml_add_identity_distributed2d(
     double beta,
     double threshold)
 {
-    bml_add_identity(A->matrix, beta, threshold);
+    // only diagonal blocks hold diagonal elements
+    double dbeta = (A->myprow == A->mypcol) ? beta : 0.;
+
+    bml_add_identity(A->matrix, dbeta, threshold);
 }
 
 /** Matrix addition.
@@ -95,5 +98,8 @@ bml_scale_add_identity_distributed2d(
     double beta,
     double threshold)
 {
-    bml_scale_add_identity(A->matrix, alpha, beta, threshold);
+    // only diagonal blocks hold diagonal elements
+    double dbeta = (A->myprow == A->mypcol) ? beta : 0.;
+
+    bml_scale_add_identity(A->matrix, alpha, dbeta, threshold);
 }
-- 
2.43.0


From 8086e01759e5f3edd2cbe7f96ffb45f8db8d26b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:28 +0000
Subject: [PATCH 28/45] fix: distributed2d read and write leaked the block
 sizes

---
 src/C-interface/distributed2d/bml_utilities_distributed2d.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/C-interface/distributed2d/bml_utilities_distributed2d.c b/src/C-interface/distributed2d/bml_utilities_distributed2d.c
index 0032279..5a6c774 100644
--- a/src/C-interface/distributed2d/bml_utilities_distributed2d.c
+++ b/src/C-interface/distributed2d/bml_utilities_distributed2d.c
@@ -40,6 +40,7 @@ bml_read_bml_matrix_distributed2d(
                        lnb * sizeof(int));
             B = bml_block_matrix_ellblock(A->matrix_precision, B_NB, B_MB,
                                           A->M, bsizes, sequential);
+            bml_free_memory(bsizes);
             break;
         default:
             B = bml_zero_matrix(bml_get_type(A->matrix),
@@ -99,6 +100,7 @@ bml_write_bml_matrix_distributed2d(
                            lnb * sizeof(int));
                 B = bml_block_matrix_ellblock(A->matrix_precision, B_NB, B_MB,
                                               A->M, bsizes, sequential);
+                bml_free_memory(bsizes);
                 break;
             default:
                 B = bml_noinit_matrix(bml_get_type(A->matrix),
-- 
2.43.0


From 1184c0890784b19b4a6b9e9aaecb114b673dcd0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:28 +0000
Subject: [PATCH 29/45] fix: allgather of dense and ellpack matrices uses the
 MPI type of the matrix

---
 src/C-interface/dense/bml_parallel_dense_typed.c     | 2 +-
 src/C-interface/ellpack/bml_parallel_ellpack_typed.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/C-interface/dense/bml_parallel_dense_typed.c b/src/C-interface/dense/bml_parallel_dense_typed.c
index 384da6e..78798c2 100644
--- a/src/C-interface/dense/bml_parallel_dense_typed.c
+++ b/src/C-interface/dense/bml_parallel_dense_typed.c
@@ -41,7 +41,7 @@ void TYPED_FUNC(
 
     MPI_Allgatherv(MPI_IN_PLACE, 0, MPI_DATATYPE_NULL,
                    A_matrix, A_domain->localElements,
-                   A_domain->localDispl, REAL_MPI_TYPE, ccomm);
+                   A_domain->localDispl, MPI_T, ccomm);
 #endif
 }
 
diff --git a/src/C-interface/ellpack/bml_parallel_ellpack_typed.c b/src/C-interface/ellpack/bml_parallel_ellpack_typed.c
index ac3d38c..a8e9bc7 100644
--- a/src/C-interface/ellpack/bml_parallel_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_parallel_ellpack_typed.c
@@ -67,7 +67,7 @@ void TYPED_FUNC(
     // Values
     MPI_Allgatherv(MPI_IN_PLACE, 0, MPI_DATATYPE_NULL,
                    A_value, A_domain->localElements, A_domain->localDispl,
-                   REAL_MPI_TYPE, ccomm);
+                   MPI_T, ccomm);
 
 /*
     for (int i = 0; i < nRanks; i++)
-- 
2.43.0


From 5e6f48928a7c2b8de735d3e566b0ea2d2a07cc79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:28 +0000
Subject: [PATCH 30/45] fix: ellblock messages carry every block and replace
 the blocks of the receiver

---
 .../ellblock/bml_parallel_ellblock_typed.c    | 57 +++++++++++++++----
 1 file changed, 45 insertions(+), 12 deletions(-)

diff --git a/src/C-interface/ellblock/bml_parallel_ellblock_typed.c b/src/C-interface/ellblock/bml_parallel_ellblock_typed.c
index 296a6d5..8b4f26d 100644
--- a/src/C-interface/ellblock/bml_parallel_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_parallel_ellblock_typed.c
@@ -19,6 +19,21 @@
 #endif
 
 #ifdef BML_USE_MPI
+/* Number of elements in all the blocks of a matrix */
+static int TYPED_FUNC(
+    bml_count_elements_ellblock) (
+    bml_matrix_ellblock_t * A)
+{
+    int nelements = 0;
+    for (int ib = 0; ib < A->NB; ib++)
+        for (int jp = 0; jp < A->nnzb[ib]; jp++)
+        {
+            int jb = A->indexb[ROWMAJOR(ib, jp, A->NB, A->MB)];
+            nelements += A->bsize[ib] * A->bsize[jb];
+        }
+    return nelements;
+}
+
 void TYPED_FUNC(
     bml_mpi_send_ellblock) (
     bml_matrix_ellblock_t * A,
@@ -36,7 +51,8 @@ void TYPED_FUNC(
 
     REAL_T **A_ptr_value = (REAL_T **) A->ptr_value;
 
-    REAL_T *values = bml_allocate_memory(sizeof(REAL_T) * A->N * A->M);
+    int nvalues = TYPED_FUNC(bml_count_elements_ellblock) (A);
+    REAL_T *values = bml_allocate_memory(sizeof(REAL_T) * nvalues);
     REAL_T *pvalues = values;
     for (int ib = 0; ib < A->NB; ib++)
     {
@@ -49,7 +65,7 @@ void TYPED_FUNC(
             pvalues += nelements;
         }
     }
-    MPI_Send(values, A->N * A->M, MPI_T, dst, 111, comm);
+    MPI_Send(values, nvalues, MPI_T, dst, 111, comm);
 
     bml_free_memory(nnzb);
     bml_free_memory(indexb);
@@ -71,13 +87,15 @@ void TYPED_FUNC(
     int *nnzb = bml_allocate_memory(sizeof(int) * A->NB);
     MPI_Recv(nnzb, A->NB, MPI_INT, src, 113, comm, &status);
 
-    REAL_T *values = bml_allocate_memory(sizeof(REAL_T) * A->N * A->M);
-    MPI_Recv(values, A->N * A->M, MPI_T, src, 111, comm, &status);
-
     // copy data into bml matrix
+    bml_clear_ellblock(A);
     memcpy(A->nnzb, nnzb, sizeof(int) * A->NB);
     memcpy(A->indexb, indexb, A->NB * A->MB * sizeof(int));
 
+    int nvalues = TYPED_FUNC(bml_count_elements_ellblock) (A);
+    REAL_T *values = bml_allocate_memory(sizeof(REAL_T) * nvalues);
+    MPI_Recv(values, nvalues, MPI_T, src, 111, comm, &status);
+
     REAL_T **A_ptr_value = (REAL_T **) A->ptr_value;
 
     REAL_T *pvalues = values;
@@ -106,12 +124,20 @@ void TYPED_FUNC(
     MPI_Comm comm)
 {
 
+    // the blocks held so far are replaced
+    bml_clear_ellblock(A);
+
     MPI_Irecv(A->indexb, A->NB * A->MB, MPI_INT, src, 112, comm, A->req);
 
     MPI_Irecv(A->nnzb, A->NB, MPI_INT, src, 113, comm, A->req + 1);
 
-    A->buffer = bml_allocate_memory(sizeof(REAL_T) * A->N * A->M);
-    MPI_Irecv(A->buffer, A->N * A->M, MPI_T, src, 111, comm, A->req + 2);
+    // room for MB blocks in every row of blocks
+    int maxbsize = 0;
+    for (int ib = 0; ib < A->NB; ib++)
+        maxbsize = MAX(maxbsize, A->bsize[ib]);
+    int nvalues = A->N * A->MB * maxbsize;
+    A->buffer = bml_allocate_memory(sizeof(REAL_T) * nvalues);
+    MPI_Irecv(A->buffer, nvalues, MPI_T, src, 111, comm, A->req + 2);
 }
 
 void TYPED_FUNC(
@@ -164,12 +190,15 @@ void TYPED_FUNC(
     assert(A->NB > 0);
     assert(A->MB > 0);
 
+    int myrank;
+    MPI_Comm_rank(comm, &myrank);
+
     int *indexb = bml_allocate_memory(sizeof(int) * A->NB * A->MB);
-    if (bml_getMyRank() == root)
+    if (myrank == root)
         memcpy(indexb, A->indexb, A->NB * A->MB * sizeof(int));
 
     int *nnzb = bml_allocate_memory(sizeof(int) * A->NB);
-    if (bml_getMyRank() == root)
+    if (myrank == root)
         memcpy(nnzb, A->nnzb, sizeof(int) * A->NB);
 
     MPI_Bcast(nnzb, A->NB, MPI_INT, root, comm);
@@ -177,8 +206,12 @@ void TYPED_FUNC(
 
     // bcast matrix elements
     REAL_T **A_ptr_value = (REAL_T **) A->ptr_value;
-    REAL_T *values = bml_allocate_memory(sizeof(REAL_T) * A->N * A->M);
-    if (bml_getMyRank() == root)
+    int nvalues = 0;
+    if (myrank == root)
+        nvalues = TYPED_FUNC(bml_count_elements_ellblock) (A);
+    MPI_Bcast(&nvalues, 1, MPI_INT, root, comm);
+    REAL_T *values = bml_allocate_memory(sizeof(REAL_T) * nvalues);
+    if (myrank == root)
     {
         REAL_T *pvalues = values;
         for (int ib = 0; ib < A->NB; ib++)
@@ -193,7 +226,7 @@ void TYPED_FUNC(
             }
         }
     }
-    MPI_Bcast(values, A->N * A->M, MPI_T, root, comm);
+    MPI_Bcast(values, nvalues, MPI_T, root, comm);
 
     bml_clear_ellblock(A);
 
-- 
2.43.0


From 178249390ab8e3ab70fab5d6bfe1aaff26a4d34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:28 +0000
Subject: [PATCH 31/45] fix: csr messages fit rows of any length, broadcast
 works for empty matrices and any communicator

---
 src/C-interface/csr/bml_parallel_csr_typed.c | 34 +++++++++-----------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/src/C-interface/csr/bml_parallel_csr_typed.c b/src/C-interface/csr/bml_parallel_csr_typed.c
index dfbabf8..1e26763 100644
--- a/src/C-interface/csr/bml_parallel_csr_typed.c
+++ b/src/C-interface/csr/bml_parallel_csr_typed.c
@@ -90,38 +90,34 @@ void TYPED_FUNC(
     int totnnz = 0;
     for (int i = 0; i < A->N_; i++)
     {
-        A->data_[i]->NNZ_ = nnz[i];
         totnnz += nnz[i];
     }
-    bml_free_memory(nnz);
 
     // recv columns indexes
     int *cols = bml_allocate_memory(sizeof(int) * totnnz);
     mpiret = MPI_Recv(cols, totnnz, MPI_INT, src, 112, comm, &status);
     if (mpiret != MPI_SUCCESS)
         LOG_ERROR("MPI_Recv failed for cols");
-    int *pcols = cols;
-    for (int i = 0; i < A->N_; i++)
-    {
-        csr_sparse_row_t *row = A->data_[i];
-        memcpy(row->cols_, pcols, row->NNZ_ * sizeof(int));
-        pcols += row->NNZ_;
-    }
-    bml_free_memory(cols);
 
     // recv matrix elements
     REAL_T *values = bml_allocate_memory(sizeof(REAL_T) * totnnz);
     mpiret = MPI_Recv(values, totnnz, MPI_T, src, 113, comm, &status);
     if (mpiret != MPI_SUCCESS)
         LOG_ERROR("MPI_Recv failed for values");
+
+    // assign received data
+    int *pcols = cols;
     REAL_T *pvalues = values;
     for (int i = 0; i < A->N_; i++)
     {
-        csr_sparse_row_t *row = A->data_[i];
-        memcpy(row->vals_, pvalues, row->NNZ_ * sizeof(REAL_T));
-        pvalues += row->NNZ_;
+        TYPED_FUNC(csr_set_sparse_row) (A->data_[i], nnz[i], pcols, pvalues,
+                                        0.);
+        pvalues += nnz[i];
+        pcols += nnz[i];
     }
     bml_free_memory(values);
+    bml_free_memory(cols);
+    bml_free_memory(nnz);
 }
 
 void TYPED_FUNC(
@@ -199,19 +195,21 @@ void TYPED_FUNC(
 {
     assert(A->N_ > 0);
 
+    int myrank;
+    MPI_Comm_rank(comm, &myrank);
+
     int totnnz = 0;
-    if (bml_getMyRank() == root)
+    if (myrank == root)
         for (int i = 0; i < A->N_; i++)
         {
             totnnz += A->data_[i]->NNZ_;
         }
     MPI_Bcast(&totnnz, 1, MPI_INT, root, comm);
-    assert(totnnz > 0);
 
     // bcast cols
     int *cols = bml_allocate_memory(sizeof(int) * totnnz);
     int *pcols = cols;
-    if (bml_getMyRank() == root)
+    if (myrank == root)
         for (int i = 0; i < A->N_; i++)
         {
             csr_sparse_row_t *row = A->data_[i];
@@ -222,7 +220,7 @@ void TYPED_FUNC(
 
     // bcast nnz
     int *nnz = bml_allocate_memory(sizeof(int) * A->N_);
-    if (bml_getMyRank() == root)
+    if (myrank == root)
         for (int i = 0; i < A->N_; i++)
         {
             csr_sparse_row_t *row = A->data_[i];
@@ -233,7 +231,7 @@ void TYPED_FUNC(
     // bcast matrix elements
     REAL_T *values = bml_allocate_memory(sizeof(REAL_T) * totnnz);
     REAL_T *pvalues = values;
-    if (bml_getMyRank() == root)
+    if (myrank == root)
         for (int i = 0; i < A->N_; i++)
         {
             csr_sparse_row_t *row = A->data_[i];
-- 
2.43.0


From 7eaa16458f44ed604f9b53fd1abe0ae353f951a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:21 +0000
Subject: [PATCH 32/45] fix: distributed2d diagonalization transposes every
 block for ScaLAPACK

---
 .../distributed2d/bml_diagonalize_distributed2d_typed.c      | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/C-interface/distributed2d/bml_diagonalize_distributed2d_typed.c b/src/C-interface/distributed2d/bml_diagonalize_distributed2d_typed.c
index 0785fcd..65ab91c 100644
--- a/src/C-interface/distributed2d/bml_diagonalize_distributed2d_typed.c
+++ b/src/C-interface/distributed2d/bml_diagonalize_distributed2d_typed.c
@@ -208,9 +208,8 @@ void TYPED_FUNC(
     }
 
     // transpose to satisfy column major ScaLapack convention
-    // (global matrix assumed symmetric, so no need for communications)
-    if (A->myprow != A->mypcol)
-        bml_transpose(amat);
+    // (each block keeps its place, so no need for communications)
+    bml_transpose(amat);
 
     REAL_T *pzmat = bml_get_data_ptr(zmat);
     assert(pzmat != NULL);
-- 
2.43.0


From 41019ab5f6859b6f0db7f43c69f888752f89f983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:35 +0000
Subject: [PATCH 33/45] fix: csr matrices have no decomposition to save or
 restore

---
 src/C-interface/csr/bml_copy_csr.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/C-interface/csr/bml_copy_csr.c b/src/C-interface/csr/bml_copy_csr.c
index 478ac65..dec3420 100644
--- a/src/C-interface/csr/bml_copy_csr.c
+++ b/src/C-interface/csr/bml_copy_csr.c
@@ -125,7 +125,7 @@ void
 bml_save_domain_csr(
     bml_matrix_csr_t * A)
 {
-    bml_copy_domain(A->domain, A->domain2);
+    LOG_ERROR("bml_save_domain_csr not implemented\n");
 }
 
 /** Restore the domain for a csr matrix.
@@ -138,5 +138,5 @@ void
 bml_restore_domain_csr(
     bml_matrix_csr_t * A)
 {
-    bml_copy_domain(A->domain2, A->domain);
+    LOG_ERROR("bml_restore_domain_csr not implemented\n");
 }
-- 
2.43.0


From ac6f12b8e1a45014bb36393ac5c4110ec0759a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:35 +0000
Subject: [PATCH 34/45] fix: largest local extent of the default decomposition
 for large sizes

---
 src/C-interface/bml_allocate.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/C-interface/bml_allocate.c b/src/C-interface/bml_allocate.c
index 7372cbc..8d24f93 100644
--- a/src/C-interface/bml_allocate.c
+++ b/src/C-interface/bml_allocate.c
@@ -644,7 +644,7 @@ bml_default_domain(
         {
             // For completely distributed
             avgExtent = N / nRanks;
-            domain->maxLocalExtent = ceil((float) N / (float) nRanks);
+            domain->maxLocalExtent = avgExtent + (N % nRanks > 0 ? 1 : 0);
             domain->minLocalExtent = avgExtent;
 
             for (int i = 0; i < nRanks; i++)
-- 
2.43.0


From 07a935c0a84934f4831879056ba73f055f43dcfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:45 +0000
Subject: [PATCH 35/45] fix: dense add of the rows of one rank starts at the
 first element of its rows

---
 src/C-interface/dense/bml_add_dense_typed.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/C-interface/dense/bml_add_dense_typed.c b/src/C-interface/dense/bml_add_dense_typed.c
index 4ef3c8c..0d2e32c 100644
--- a/src/C-interface/dense/bml_add_dense_typed.c
+++ b/src/C-interface/dense/bml_add_dense_typed.c
@@ -134,16 +134,18 @@ void TYPED_FUNC(
 #ifdef NOBLAS
     LOG_ERROR("No BLAS library");
 #else
+    REAL_T *A_matrix = (REAL_T *) A->matrix + startIndex;
+    REAL_T *B_matrix = (REAL_T *) B->matrix + startIndex;
     if (A == B)
     {
         // scaling A in place would also change B
         alpha_ = alpha + beta;
-        C_BLAS(SCAL) (&nElems, &alpha_, A->matrix + startIndex, &inc);
+        C_BLAS(SCAL) (&nElems, &alpha_, A_matrix, &inc);
         return;
     }
-    C_BLAS(SCAL) (&nElems, &alpha_, A->matrix + startIndex, &inc);
-    C_BLAS(AXPY) (&nElems, &beta_, B->matrix + startIndex, &inc,
-                  A->matrix + startIndex, &inc);
+    C_BLAS(SCAL) (&nElems, &alpha_, A_matrix, &inc);
+    C_BLAS(AXPY) (&nElems, &beta_, B_matrix, &inc,
+                  A_matrix, &inc);
 #endif
 #endif
 }
-- 
2.43.0


From 45905ae381f55b849a18a768a64f54b89744dfa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:45 +0000
Subject: [PATCH 36/45] fix: ellpack transpose keeps the decomposition of the
 matrix

---
 src/C-interface/ellpack/bml_transpose_ellpack_typed.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/C-interface/ellpack/bml_transpose_ellpack_typed.c b/src/C-interface/ellpack/bml_transpose_ellpack_typed.c
index c187212..1703a26 100644
--- a/src/C-interface/ellpack/bml_transpose_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_transpose_ellpack_typed.c
@@ -1,6 +1,7 @@
 #include "../../macros.h"
 #include "../../typed.h"
 #include "../bml_allocate.h"
+#include "../bml_copy.h"
 #include "../bml_parallel.h"
 #include "../bml_transpose.h"
 #include "../bml_types.h"
@@ -448,6 +449,9 @@ void TYPED_FUNC(
     if (maxnnz > M)
     {
         bml_matrix_ellpack_t *B = TYPED_FUNC(bml_transpose_new_ellpack) (A);
+        // the decomposition of A is kept
+        bml_copy_domain(A->domain, B->domain);
+        bml_copy_domain(A->domain2, B->domain2);
         TYPED_FUNC(bml_copy_ellpack) (B, A);
         TYPED_FUNC(bml_deallocate_ellpack) (B);
         return;
-- 
2.43.0


From fa1a759fb478ac875cdbb1b09ea1ad0f4edaaef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:36 +0000
Subject: [PATCH 37/45] fix: Fortran bml_clear passes the matrix, not the
 address of its handle

---
 src/Fortran-interface/bml_c_interface_m.F90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Fortran-interface/bml_c_interface_m.F90 b/src/Fortran-interface/bml_c_interface_m.F90
index 3be9493..7c3b1b7 100644
--- a/src/Fortran-interface/bml_c_interface_m.F90
+++ b/src/Fortran-interface/bml_c_interface_m.F90
@@ -214,7 +214,7 @@ module bml_c_interface_m
 
     subroutine bml_clear_C(a) bind(C, name="bml_clear")
       import :: C_PTR
-      type(C_PTR) :: a
+      type(C_PTR), value, intent(in) :: a
     end subroutine bml_clear_C
 
     subroutine bml_free_C(cptr) bind(C, name="bml_free_ptr")
-- 
2.43.0


From 9549982e3cd1f60f670e664a432cd664628c18cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:36 +0000
Subject: [PATCH 38/45] fix: Fortran introspection of csr, graph distributed
 and complex matrices

---
 src/Fortran-interface/bml_introspection_m.F90 | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/Fortran-interface/bml_introspection_m.F90 b/src/Fortran-interface/bml_introspection_m.F90
index bbd87d5..5a3eef9 100644
--- a/src/Fortran-interface/bml_introspection_m.F90
+++ b/src/Fortran-interface/bml_introspection_m.F90
@@ -96,7 +96,7 @@ contains
       bml_get_type = "ellpack"
     case(3)
       bml_get_type = "ellblock"
-    case(5)
+    case(4)
       bml_get_type = "csr"
     case default
       stop 'Unknown matrix type in bml_get_type'
@@ -125,7 +125,7 @@ contains
       bml_get_deep_type = "ellpack"
     case(3)
       bml_get_deep_type = "ellblock"
-    case(5)
+    case(4)
       bml_get_deep_type = "csr"
     case default
       stop 'Unknown matrix type in bml_get_deep_type'
@@ -166,9 +166,9 @@ contains
     select case(bml_precision_id)
     case(0)
       stop 'Type/precision elements not initialized'
-    case(1)
+    case(1,3)
       bml_get_element_precision = kind(1.0)
-    case(2)
+    case(2,4)
       bml_get_element_precision = kind(1.0d0)
     case default
       stop 'Unknown elements type/precision'
@@ -223,7 +223,7 @@ contains
       bml_get_distribution_mode = "sequential"
     case(1)
       bml_get_distribution_mode = "distributed"
-    case(3)
+    case(2)
       bml_get_distribution_mode = "graph_distributed"
     case default
       stop 'Unknown distribution type in bml_get_distribution_mode'
-- 
2.43.0


From b7ebbd3426ee0969782ac4220ca5e5d12b9e0ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:36 +0000
Subject: [PATCH 39/45] fix: Fortran import and print accept array sections

---
 src/Fortran-interface/bml_import_m.F90          | 8 ++++----
 src/Fortran-interface/bml_utilities_typed_m.F90 | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/Fortran-interface/bml_import_m.F90 b/src/Fortran-interface/bml_import_m.F90
index 9c80ca9..2ee14e0 100644
--- a/src/Fortran-interface/bml_import_m.F90
+++ b/src/Fortran-interface/bml_import_m.F90
@@ -32,7 +32,7 @@ contains
        & m, distrib_mode)
 
     character(len=*), intent(in) :: matrix_type
-    real(C_FLOAT), target, intent(in) :: a_dense(:, :)
+    real(C_FLOAT), target, contiguous, intent(in) :: a_dense(:, :)
     type(bml_matrix_t), intent(inout) :: a
     real(C_DOUBLE), optional, intent(in) :: threshold
     integer, optional, intent(in) :: m
@@ -93,7 +93,7 @@ contains
        & m, distrib_mode)
 
     character(len=*), intent(in) :: matrix_type
-    real(C_DOUBLE), target, intent(in) :: a_dense(:, :)
+    real(C_DOUBLE), target, contiguous, intent(in) :: a_dense(:, :)
     type(bml_matrix_t), intent(inout) :: a
     real(C_DOUBLE), optional, intent(in) :: threshold
     integer, optional, intent(in) :: m
@@ -153,7 +153,7 @@ contains
   subroutine bml_import_from_dense_single_complex(matrix_type, a_dense, a, threshold, m, distrib_mode)
 
     character(len=*), intent(in) :: matrix_type
-    complex(C_FLOAT_COMPLEX), target, intent(in) :: a_dense(:, :)
+    complex(C_FLOAT_COMPLEX), target, contiguous, intent(in) :: a_dense(:, :)
     type(bml_matrix_t), intent(inout) :: a
     real(C_DOUBLE), optional, intent(in) :: threshold
     integer, optional, intent(in) :: m
@@ -213,7 +213,7 @@ contains
   subroutine bml_import_from_dense_double_complex(matrix_type, a_dense, a, threshold, m, distrib_mode)
 
     character(len=*), intent(in) :: matrix_type
-    complex(C_DOUBLE_COMPLEX), target, intent(in) :: a_dense(:, :)
+    complex(C_DOUBLE_COMPLEX), target, contiguous, intent(in) :: a_dense(:, :)
     type(bml_matrix_t), intent(inout) :: a
     real(C_DOUBLE), optional, intent(in) :: threshold
     integer, optional, intent(in) :: m
diff --git a/src/Fortran-interface/bml_utilities_typed_m.F90 b/src/Fortran-interface/bml_utilities_typed_m.F90
index d62ac3b..0d4d99d 100644
--- a/src/Fortran-interface/bml_utilities_typed_m.F90
+++ b/src/Fortran-interface/bml_utilities_typed_m.F90
@@ -29,7 +29,7 @@ contains
   subroutine bml_print_dense_matrix_MATRIX_TYPE(tag, a, i_l, i_u, j_l, j_u)
 
     character(len=*), intent(in) :: tag
-    REAL_TYPE, target, intent(in) :: a(:, :)
+    REAL_TYPE, target, contiguous, intent(in) :: a(:, :)
     integer(C_INT), intent(in) :: i_l
     integer(C_INT), intent(in) :: i_u
     integer(C_INT), intent(in) :: j_l
-- 
2.43.0


From 8960f02be3275e5215001ddf603ef2acf9884692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:36 +0000
Subject: [PATCH 40/45] fix: Fortran eigenvalues of single precision and
 complex matrices

---
 src/Fortran-interface/bml_diagonalize_m.F90 | 27 ++++++++++++++++++++-
 src/Fortran-interface/bml_interface_m.F90   |  3 +++
 2 files changed, 29 insertions(+), 1 deletion(-)

diff --git a/src/Fortran-interface/bml_diagonalize_m.F90 b/src/Fortran-interface/bml_diagonalize_m.F90
index 7b6c4ce..bf3d1f6 100644
--- a/src/Fortran-interface/bml_diagonalize_m.F90
+++ b/src/Fortran-interface/bml_diagonalize_m.F90
@@ -2,6 +2,7 @@
 module bml_diagonalize_m
 
   use bml_c_interface_m
+  use bml_interface_m
   use bml_introspection_m
   use bml_types_m
 
@@ -14,6 +15,9 @@ contains
 
   !> Diagonalize a matrix.
   !!
+  !! The C routine returns the eigenvalues as elements of the matrix type; they
+  !! are real and handed to the caller in double precision.
+  !!
   !! @param a The matrix.
   !! @param eigenvalues The corresponding eigenvalues.
   !! @param eigenvectors The set of eigenvectors.
@@ -23,7 +27,28 @@ contains
     real(C_DOUBLE), target, intent(inout) :: eigenvalues(*)
     type(bml_matrix_t), intent(inout) :: eigenvectors
 
-    call bml_diagonalize_C(a%ptr, c_loc(eigenvalues), eigenvectors%ptr)
+    real(C_FLOAT), allocatable, target :: ev_single_real(:)
+    complex(C_FLOAT_COMPLEX), allocatable, target :: ev_single_complex(:)
+    complex(C_DOUBLE_COMPLEX), allocatable, target :: ev_double_complex(:)
+    integer :: n
+
+    n = bml_get_N(a)
+    select case(bml_get_precision(a))
+    case(bml_matrix_precision_single_real_enum_id)
+      allocate(ev_single_real(n))
+      call bml_diagonalize_C(a%ptr, c_loc(ev_single_real), eigenvectors%ptr)
+      eigenvalues(1:n) = real(ev_single_real, C_DOUBLE)
+    case(bml_matrix_precision_single_complex_enum_id)
+      allocate(ev_single_complex(n))
+      call bml_diagonalize_C(a%ptr, c_loc(ev_single_complex), eigenvectors%ptr)
+      eigenvalues(1:n) = real(ev_single_complex, C_DOUBLE)
+    case(bml_matrix_precision_double_complex_enum_id)
+      allocate(ev_double_complex(n))
+      call bml_diagonalize_C(a%ptr, c_loc(ev_double_complex), eigenvectors%ptr)
+      eigenvalues(1:n) = real(ev_double_complex, C_DOUBLE)
+    case default
+      call bml_diagonalize_C(a%ptr, c_loc(eigenvalues), eigenvectors%ptr)
+    end select
 
   end subroutine bml_diagonalize
 
diff --git a/src/Fortran-interface/bml_interface_m.F90 b/src/Fortran-interface/bml_interface_m.F90
index b0fb9e0..28e9465 100644
--- a/src/Fortran-interface/bml_interface_m.F90
+++ b/src/Fortran-interface/bml_interface_m.F90
@@ -90,6 +90,9 @@ module bml_interface_m
 
   public :: get_matrix_id, get_element_id, get_dmode_id
   public :: BML_DENSE_COLUMN_MAJOR
+  public :: bml_matrix_precision_single_real_enum_id
+  public :: bml_matrix_precision_single_complex_enum_id
+  public :: bml_matrix_precision_double_complex_enum_id
 
 contains
 
-- 
2.43.0


From 9aa07580b4912ffd30e1c94c6ae61362ea6d44eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:36 +0000
Subject: [PATCH 41/45] fix: Fortran transpose_triangle passes the requested
 triangle

---
 src/Fortran-interface/bml_transpose_triangle_m.F90 | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/Fortran-interface/bml_transpose_triangle_m.F90 b/src/Fortran-interface/bml_transpose_triangle_m.F90
index e4a2f6b..359ebea 100644
--- a/src/Fortran-interface/bml_transpose_triangle_m.F90
+++ b/src/Fortran-interface/bml_transpose_triangle_m.F90
@@ -20,7 +20,12 @@ contains
     type(bml_matrix_t), intent(inout) :: a
     character(C_CHAR), intent(in) :: triangle
 
-    call bml_transpose_triangle_C(a%ptr, triangle)
+    ! Passing the dummy argument itself by value hands over a part of its
+    ! address with some versions of gfortran.
+    character(C_CHAR) :: triangle_
+
+    triangle_ = triangle
+    call bml_transpose_triangle_C(a%ptr, triangle_)
 
   end subroutine bml_transpose_triangle
 
-- 
2.43.0


From 7362ed239748d6d97447a7d334aab0d498ee619b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:36 +0000
Subject: [PATCH 42/45] fix: Fortran print of a matrix uses inclusive bounds
 starting at 1

---
 src/Fortran-interface/bml_utilities_m.F90 | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Fortran-interface/bml_utilities_m.F90 b/src/Fortran-interface/bml_utilities_m.F90
index b22b7d2..2b5fcc7 100644
--- a/src/Fortran-interface/bml_utilities_m.F90
+++ b/src/Fortran-interface/bml_utilities_m.F90
@@ -46,7 +46,9 @@ contains
     integer(C_INT), intent(in) :: j_u
 
     if (bml_getMyRank() .eq. 0) write(*, "(A)") tag
-    call bml_print_bml_matrix_C(a%ptr, i_l, i_u, j_l, j_u)
+    ! Print bounds start at 1 and are inclusive here, i.e. [i_l, i_u], but start
+    ! at 0 and are exclusive in the upper bound in the C code.
+    call bml_print_bml_matrix_C(a%ptr, i_l-1, i_u, j_l-1, j_u)
 
   end subroutine bml_print_bml_matrix
 
-- 
2.43.0


From 2b89b133158991ad67cf58538c1392dbaaa82a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:42 +0000
Subject: [PATCH 43/45] fix: ellblock set_row and assign_submatrix release the
 blocks they empty

Blocks of which only zeros were left kept occupying the block row, so that
later calls whose results fit were refused.
---
 src/C-interface/ellblock/bml_setters_ellblock_typed.c   | 9 ++++++++-
 src/C-interface/ellblock/bml_submatrix_ellblock_typed.c | 6 +++---
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/C-interface/ellblock/bml_setters_ellblock_typed.c b/src/C-interface/ellblock/bml_setters_ellblock_typed.c
index e1d529d..d5946f5 100644
--- a/src/C-interface/ellblock/bml_setters_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_setters_ellblock_typed.c
@@ -151,13 +151,20 @@ void TYPED_FUNC(
         ib++;
     }
 
-    //discard the old row
+    //discard the old row, and the blocks that held nothing else
     for (int jp = 0; jp < A_nnzb[ib]; jp++)
     {
         int ind = ROWMAJOR(ib, jp, A->NB, A->MB);
         int jb = A_indexb[ind];
         memset(A_ptr_value[ind] + ROWMAJOR(ii, 0, A_bsize[ib], A_bsize[jb]),
                0, A_bsize[jb] * sizeof(REAL_T));
+        double normA = TYPED_FUNC(bml_norm_inf)
+            (A_ptr_value[ind], A_bsize[ib], A_bsize[jb], A_bsize[jb]);
+        if (normA == 0.0)
+        {
+            TYPED_FUNC(bml_free_block_ellblock) (A, ib, jb);
+            jp--;
+        }
     }
 
     //loop over elements to insert
diff --git a/src/C-interface/ellblock/bml_submatrix_ellblock_typed.c b/src/C-interface/ellblock/bml_submatrix_ellblock_typed.c
index 464f5d3..897eb87 100644
--- a/src/C-interface/ellblock/bml_submatrix_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_submatrix_ellblock_typed.c
@@ -174,15 +174,15 @@ void TYPED_FUNC(
         assert(B->bsize[ib] == bsize[ib + irowb]);
         assert(B->bsize[ib] == bsize[ib + icolb]);
 
-        // discard the old elements of A in the assigned block
+        // discard the old blocks of A in the assigned block
         for (int jp = 0; jp < A_nnzb[ib + irowb]; jp++)
         {
             int indA = ROWMAJOR(ib + irowb, jp, A_NB, A_MB);
             int jb = A_indexb[indA];
             if (jb >= icolb && jb < icolb + B_NB)
             {
-                memset(A_ptr_value[indA], 0,
-                       bsize[ib + irowb] * bsize[jb] * sizeof(REAL_T));
+                TYPED_FUNC(bml_free_block_ellblock) (A, ib + irowb, jb);
+                jp--;
             }
         }
 
-- 
2.43.0


From 10df2302e0936f0f9816efc9a34fcea97df7c1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:04 +0000
Subject: [PATCH 44/45] fix: ellblock scale addresses the blocks of the
 destination by its own row capacity

---
 src/C-interface/ellblock/bml_scale_ellblock_typed.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/C-interface/ellblock/bml_scale_ellblock_typed.c b/src/C-interface/ellblock/bml_scale_ellblock_typed.c
index 208baba..34d8c21 100644
--- a/src/C-interface/ellblock/bml_scale_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_scale_ellblock_typed.c
@@ -63,13 +63,13 @@ void TYPED_FUNC(
     REAL_T *scale_factor = _scale_factor;
     REAL_T **B_ptr_value = (REAL_T **) B->ptr_value;
     int inc = 1;
-    for (int ib = 0; ib < A->NB; ib++)
+    for (int ib = 0; ib < B->NB; ib++)
     {
-        for (int jp = 0; jp < A->nnzb[ib]; jp++)
+        for (int jp = 0; jp < B->nnzb[ib]; jp++)
         {
-            int ind = ROWMAJOR(ib, jp, A->NB, A->MB);
-            int jb = A->indexb[ind];
-            int nElems = A->bsize[ib] * A->bsize[jb];
+            int ind = ROWMAJOR(ib, jp, B->NB, B->MB);
+            int jb = B->indexb[ind];
+            int nElems = B->bsize[ib] * B->bsize[jb];
             REAL_T *B_value = B_ptr_value[ind];
             assert(B_value != NULL);
             C_BLAS(SCAL) (&nElems, scale_factor, &(B_value[0]), &inc);
-- 
2.43.0


From 4eb2135e6fc916f1d59236fe8d72b031c6914b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:30 +0000
Subject: [PATCH 45/45] fix: copying a domain counts stored elements by the row
 capacity of the destination

---
 src/C-interface/bml_copy.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/C-interface/bml_copy.c b/src/C-interface/bml_copy.c
index d24ed31..37f274f 100644
--- a/src/C-interface/bml_copy.c
+++ b/src/C-interface/bml_copy.c
@@ -157,8 +157,14 @@ bml_copy_domain(
     memcpy(B->localRowMin, A->localRowMin, nRanks * sizeof(int));
     memcpy(B->localRowMax, A->localRowMax, nRanks * sizeof(int));
     memcpy(B->localRowExtent, A->localRowExtent, nRanks * sizeof(int));
-    memcpy(B->localDispl, A->localDispl, nRanks * sizeof(int));
-    memcpy(B->localElements, A->localElements, nRanks * sizeof(int));
+
+    // Offsets and lengths count stored elements, and the two matrices may
+    // store a different number of elements per row
+    for (int i = 0; i < nRanks; i++)
+    {
+        B->localElements[i] = B->localRowExtent[i] * B->totalCols;
+        B->localDispl[i] = B->localRowMin[i] * B->totalCols;
+    }
 }
 
 
-- 
2.43.0

