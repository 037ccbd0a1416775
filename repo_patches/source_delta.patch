From d1be0cd8ccc4e2727ad4c323999a716d0fc3021d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:10 +0000
Subject: [PATCH 01/85] fix: release the row buffers of
 bml_extract_submatrix_csr

---
 src/C-interface/csr/bml_submatrix_csr_typed.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/C-interface/csr/bml_submatrix_csr_typed.c b/src/C-interface/csr/bml_submatrix_csr_typed.c
index 23f994c..a5bf02c 100644
--- a/src/C-interface/csr/bml_submatrix_csr_typed.c
+++ b/src/C-interface/csr/bml_submatrix_csr_typed.c
@@ -56,6 +56,8 @@ bml_matrix_csr_t
 
         TYPED_FUNC(bml_set_sparse_row_csr) (B, i - irow, count, newcols,
                                             newvals, 0.);
+        bml_free_memory(newcols);
+        bml_free_memory(newvals);
     }
 
     return B;
-- 
2.43.0


From 1ad25d29c7b54d6819e9885e389623ab601f04bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:10 +0000
Subject: [PATCH 02/85] fix: free the communicators of a distributed2d matrix
 on deallocation

---
 src/C-interface/distributed2d/bml_allocate_distributed2d.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/C-interface/distributed2d/bml_allocate_distributed2d.c b/src/C-interface/distributed2d/bml_allocate_distributed2d.c
index ae9e2ff..f496026 100644
--- a/src/C-interface/distributed2d/bml_allocate_distributed2d.c
+++ b/src/C-interface/distributed2d/bml_allocate_distributed2d.c
@@ -87,6 +87,8 @@ bml_deallocate_distributed2d(
     assert(A != NULL);
     assert(A->matrix != NULL);
     bml_deallocate(&(A->matrix));
+    MPI_Comm_free(&A->row_comm);
+    MPI_Comm_free(&A->col_comm);
     bml_free_memory(A);
 }
 
-- 
2.43.0


From 80a435d816a85c90df2ecc256325d3b1465ba3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:10 +0000
Subject: [PATCH 03/85] fix: bml_convert_distributed2d leaked the local matrix
 it replaces

---
 src/C-interface/distributed2d/bml_convert_distributed2d.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/C-interface/distributed2d/bml_convert_distributed2d.c b/src/C-interface/distributed2d/bml_convert_distributed2d.c
index 8abf870..dd80019 100644
--- a/src/C-interface/distributed2d/bml_convert_distributed2d.c
+++ b/src/C-interface/distributed2d/bml_convert_distributed2d.c
@@ -1,3 +1,4 @@
+#include "../bml_allocate.h"
 #include "../bml_introspection.h"
 #include "../bml_convert.h"
 #include "../bml_logger.h"
@@ -22,6 +23,7 @@ bml_convert_distributed2d(
                                                                   M);
     bml_matrix_t *matrix = bml_get_local_matrix(A);
     int m = bml_get_M(matrix);
+    bml_deallocate(&(B->matrix));
     B->matrix = bml_convert(matrix, matrix_type,
                             matrix_precision, m, sequential);
 
-- 
2.43.0


From 6126df889989d5f70e24801b13ed6cd14c3838a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:10 +0000
Subject: [PATCH 04/85] fix: release the send buffer in
 bml_export_to_dense_distributed2d

---
 src/C-interface/distributed2d/bml_export_distributed2d_typed.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/C-interface/distributed2d/bml_export_distributed2d_typed.c b/src/C-interface/distributed2d/bml_export_distributed2d_typed.c
index 3b6246b..d85ffa8 100644
--- a/src/C-interface/distributed2d/bml_export_distributed2d_typed.c
+++ b/src/C-interface/distributed2d/bml_export_distributed2d_typed.c
@@ -77,6 +77,7 @@ void *TYPED_FUNC(
         bml_free_memory(request);
         bml_free_memory(recvbuf);
     }
+    bml_free_memory(sendbuf);
 
     return A_dense;
 }
-- 
2.43.0


From a6790f5728fd22df7e8ef4e698850b5813b2f6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:10 +0000
Subject: [PATCH 05/85] fix: bml_get_row_distributed2d: displacements, gather
 status, sub row leak

---
 .../distributed2d/bml_getters_distributed2d_typed.c       | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/C-interface/distributed2d/bml_getters_distributed2d_typed.c b/src/C-interface/distributed2d/bml_getters_distributed2d_typed.c
index 5de1ee6..6d9b242 100644
--- a/src/C-interface/distributed2d/bml_getters_distributed2d_typed.c
+++ b/src/C-interface/distributed2d/bml_getters_distributed2d_typed.c
@@ -37,10 +37,10 @@ void *TYPED_FUNC(
 
     int *displs = calloc(A->ntasks, sizeof(int));
     for (int i = 0; i < A->ntasks - 1; i++)
-        displs[i + 1] += recvcounts[i];
+        displs[i + 1] = displs[i] + recvcounts[i];
 
-    MPI_Allgatherv(sub_row, mycount, MPI_T, row, recvcounts, displs, MPI_T,
-                   A->comm);
+    ret = MPI_Allgatherv(sub_row, mycount, MPI_T, row, recvcounts, displs,
+                         MPI_T, A->comm);
     if (ret == MPI_ERR_COUNT)
         LOG_ERROR("bml_get_row_distributed2d: MPI_Allgatherv, MPI_ERR_COUNT");
     if (ret == MPI_ERR_BUFFER)
@@ -50,6 +50,8 @@ void *TYPED_FUNC(
     free(recvcounts);
     free(counts);
     free(displs);
+    if (sub_row != NULL)
+        bml_free_memory(sub_row);
 
     return row;
 }
-- 
2.43.0


From 3573be682a3fb170408b2d936141a891f598a881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:10 +0000
Subject: [PATCH 06/85] fix: record the precision of imported distributed2d
 matrices

---
 src/C-interface/distributed2d/bml_import_distributed2d_typed.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/C-interface/distributed2d/bml_import_distributed2d_typed.c b/src/C-interface/distributed2d/bml_import_distributed2d_typed.c
index 4edbdd2..b36f691 100644
--- a/src/C-interface/distributed2d/bml_import_distributed2d_typed.c
+++ b/src/C-interface/distributed2d/bml_import_distributed2d_typed.c
@@ -42,6 +42,7 @@ bml_matrix_distributed2d_t *TYPED_FUNC(
     bml_setup_distributed2d(N, A_bml);
     assert(A_bml->comm != MPI_COMM_NULL);
     A_bml->M = M;
+    A_bml->matrix_precision = MATRIX_PRECISION;
 
     // local submatrix dimensions
     int n = A_bml->n;
-- 
2.43.0


From 8f27a3cb4ee210ef3a9b9d9bb5de6461adf489d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:10 +0000
Subject: [PATCH 07/85] fix: release block sizes in distributed2d matrix I/O

---
 src/C-interface/distributed2d/bml_utilities_distributed2d.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/C-interface/distributed2d/bml_utilities_distributed2d.c b/src/C-interface/distributed2d/bml_utilities_distributed2d.c
index 0032279..5a6c774 100644
--- a/src/C-interface/distributed2d/bml_utilities_distributed2d.c
+++ b/src/C-interface/distributed2d/bml_utilities_distributed2d.c
@@ -40,6 +40,7 @@ bml_read_bml_matrix_distributed2d(
                        lnb * sizeof(int));
             B = bml_block_matrix_ellblock(A->matrix_precision, B_NB, B_MB,
                                           A->M, bsizes, sequential);
+            bml_free_memory(bsizes);
             break;
         default:
             B = bml_zero_matrix(bml_get_type(A->matrix),
@@ -99,6 +100,7 @@ bml_write_bml_matrix_distributed2d(
                            lnb * sizeof(int));
                 B = bml_block_matrix_ellblock(A->matrix_precision, B_NB, B_MB,
                                               A->M, bsizes, sequential);
+                bml_free_memory(bsizes);
                 break;
             default:
                 B = bml_noinit_matrix(bml_get_type(A->matrix),
-- 
2.43.0


From d076634cf9ca225fafd6932b67c5967d373ac43b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:10 +0000
Subject: [PATCH 08/85] fix: release work arrays of bml_add_norm_ellblock

---
 src/C-interface/ellblock/bml_add_ellblock_typed.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/C-interface/ellblock/bml_add_ellblock_typed.c b/src/C-interface/ellblock/bml_add_ellblock_typed.c
index 64f0a2b..470e624 100644
--- a/src/C-interface/ellblock/bml_add_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_add_ellblock_typed.c
@@ -338,6 +338,9 @@ double TYPED_FUNC(
         A_nnzb[ib] = ll;
     }
 
+    free(x[0]);
+    free(y[0]);
+
     return trnorm;
 }
 
-- 
2.43.0


From 23d3f457108e629484663388160eb6965df5564f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:10 +0000
Subject: [PATCH 09/85] fix: release trace and work arrays in ellblock multiply

---
 src/C-interface/ellblock/bml_multiply_ellblock_typed.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/C-interface/ellblock/bml_multiply_ellblock_typed.c b/src/C-interface/ellblock/bml_multiply_ellblock_typed.c
index aefab74..846352e 100644
--- a/src/C-interface/ellblock/bml_multiply_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_multiply_ellblock_typed.c
@@ -199,7 +199,8 @@ void TYPED_FUNC(
 
     if (A == B && alpha == ONE && beta == ZERO)
     {
-        TYPED_FUNC(bml_multiply_x2_ellblock) (A, C, threshold);
+        bml_free_memory(TYPED_FUNC(bml_multiply_x2_ellblock)
+                        (A, C, threshold));
     }
     else
     {
@@ -210,7 +211,8 @@ void TYPED_FUNC(
 
         if (A != NULL && A == B)
         {
-            TYPED_FUNC(bml_multiply_x2_ellblock) (A, A2, threshold);
+            bml_free_memory(TYPED_FUNC(bml_multiply_x2_ellblock)
+                            (A, A2, threshold));
         }
         else
         {
@@ -744,4 +746,7 @@ void TYPED_FUNC(
 
         adjust_threshold *= 2.0;
     }
+
+    for (int ib = 0; ib < NB; ib++)
+        free(x_ptr[ib]);
 }
-- 
2.43.0


From ba8dbfbcf4e36ad94b6048d9376b7a25f1b38f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:10 +0000
Subject: [PATCH 10/85] fix: release node list in bml_adjacency_group_ellpack

---
 src/C-interface/ellpack/bml_submatrix_ellpack.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/C-interface/ellpack/bml_submatrix_ellpack.c b/src/C-interface/ellpack/bml_submatrix_ellpack.c
index e3e75bd..8007b48 100644
--- a/src/C-interface/ellpack/bml_submatrix_ellpack.c
+++ b/src/C-interface/ellpack/bml_submatrix_ellpack.c
@@ -509,6 +509,7 @@ bml_adjacency_group_ellpack(
         }
     }
 
+    free(hnode);
 }
 
 /** Extract submatrix into new matrix of same format
-- 
2.43.0


From 68897713d33ef5f2e2d587862f6e3993e4a2351d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:10 +0000
Subject: [PATCH 11/85] fix: destroy and free row locks in
 bml_transpose_new_ellpack

---
 src/C-interface/ellpack/bml_transpose_ellpack_typed.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/C-interface/ellpack/bml_transpose_ellpack_typed.c b/src/C-interface/ellpack/bml_transpose_ellpack_typed.c
index 73daef1..4e38d77 100644
--- a/src/C-interface/ellpack/bml_transpose_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_transpose_ellpack_typed.c
@@ -98,6 +98,14 @@ bml_matrix_ellpack_t
         }
     }                           // end target region
 
+#ifdef _OPENMP
+    for (int i = 0; i < N; i++)
+    {
+        omp_destroy_lock(&row_lock[i]);
+    }
+    free(row_lock);
+#endif
+
 #if defined (USE_OMP_OFFLOAD) && defined(COMPUTE_ON_HOST)
 #pragma omp target update to(B_index[:N*M], B_value[:N*M], B_nnz[:N])
 #endif
-- 
2.43.0


From 8437dda555886d6bf928551fe4e951f67f2c0de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:20 +0000
Subject: [PATCH 12/85] fix: bml_clear_ellblock left dangling block pointers
 that add and copy write through

---
 src/C-interface/ellblock/bml_allocate_ellblock_typed.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/C-interface/ellblock/bml_allocate_ellblock_typed.c b/src/C-interface/ellblock/bml_allocate_ellblock_typed.c
index 43fc371..fb26f60 100644
--- a/src/C-interface/ellblock/bml_allocate_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_allocate_ellblock_typed.c
@@ -138,6 +138,7 @@ void TYPED_FUNC(
         {
             int ind = ROWMAJOR(ib, jp, A->NB, A->MB);
             bml_free_memory(A->ptr_value[ind]);
+            A->ptr_value[ind] = NULL;
         }
 #endif
     memset(A->nnzb, 0, A->NB * sizeof(int));
-- 
2.43.0


From 5762fd3bd663a8df526d8f07b1ce77ea56b8f914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:05 +0000
Subject: [PATCH 13/85] fix: release the blocks a received ellblock matrix
 replaces

---
 src/C-interface/ellblock/bml_parallel_ellblock_typed.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/C-interface/ellblock/bml_parallel_ellblock_typed.c b/src/C-interface/ellblock/bml_parallel_ellblock_typed.c
index 296a6d5..0d0b389 100644
--- a/src/C-interface/ellblock/bml_parallel_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_parallel_ellblock_typed.c
@@ -74,6 +74,8 @@ void TYPED_FUNC(
     REAL_T *values = bml_allocate_memory(sizeof(REAL_T) * A->N * A->M);
     MPI_Recv(values, A->N * A->M, MPI_T, src, 111, comm, &status);
 
+    bml_clear_ellblock(A);
+
     // copy data into bml matrix
     memcpy(A->nnzb, nnzb, sizeof(int) * A->NB);
     memcpy(A->indexb, indexb, A->NB * A->MB * sizeof(int));
@@ -105,6 +107,8 @@ void TYPED_FUNC(
     const int src,
     MPI_Comm comm)
 {
+    // release current blocks before their indexes are overwritten
+    bml_clear_ellblock(A);
 
     MPI_Irecv(A->indexb, A->NB * A->MB, MPI_INT, src, 112, comm, A->req);
 
-- 
2.43.0


From b604a9d11fc56a0e70e4320663400b9004270aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:54 +0000
Subject: [PATCH 14/85] fix: bml_multiply_AB on an ellblock matrix leaked and
 reused the blocks of C

---
 src/C-interface/ellblock/bml_multiply_ellblock_typed.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/C-interface/ellblock/bml_multiply_ellblock_typed.c b/src/C-interface/ellblock/bml_multiply_ellblock_typed.c
index 846352e..d0a9db4 100644
--- a/src/C-interface/ellblock/bml_multiply_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_multiply_ellblock_typed.c
@@ -473,6 +473,9 @@ void TYPED_FUNC(
     int *B_nnzb = B->nnzb;
     int *B_indexb = B->indexb;
 
+    /* C is overwritten with the result: release the blocks it holds */
+    TYPED_FUNC(bml_clear_ellblock) (C);
+
     int *C_nnzb = C->nnzb;
     int *C_indexb = C->indexb;
 
-- 
2.43.0


From e2a89a0fab436d13a64940df897d45b578ca4a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:03 +0000
Subject: [PATCH 15/85] fix: Matrix Market readers overflowed the 20-byte
 header buffers

---
 src/C-interface/csr/bml_utilities_csr_typed.c           | 2 +-
 src/C-interface/dense/bml_utilities_dense_typed.c       | 2 +-
 src/C-interface/ellblock/bml_utilities_ellblock_typed.c | 2 +-
 src/C-interface/ellpack/bml_utilities_ellpack_typed.c   | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/C-interface/csr/bml_utilities_csr_typed.c b/src/C-interface/csr/bml_utilities_csr_typed.c
index 6f71845..45af0f9 100644
--- a/src/C-interface/csr/bml_utilities_csr_typed.c
+++ b/src/C-interface/csr/bml_utilities_csr_typed.c
@@ -33,7 +33,7 @@ void TYPED_FUNC(
     hFile = fopen(filename, "r");
 
     // Read header
-    if (fscanf(hFile, "%s %s %s %s %s", header1, header2, header3, header4,
+    if (fscanf(hFile, "%19s %19s %19s %19s %19s", header1, header2, header3, header4,
                header5) != 5)
     {
         LOG_ERROR("read error on header\n");
diff --git a/src/C-interface/dense/bml_utilities_dense_typed.c b/src/C-interface/dense/bml_utilities_dense_typed.c
index f2cf671..78f6c92 100644
--- a/src/C-interface/dense/bml_utilities_dense_typed.c
+++ b/src/C-interface/dense/bml_utilities_dense_typed.c
@@ -50,7 +50,7 @@ void TYPED_FUNC(
 
     // Read header
     if ((values_read = fscanf
-         (matrix_file, "%s %s %s %s %s", header1, header2, header3, header4,
+         (matrix_file, "%19s %19s %19s %19s %19s", header1, header2, header3, header4,
           header5)) < 5)
     {
         LOG_ERROR("Line 1, expected 5 entries, read %d\n", values_read);
diff --git a/src/C-interface/ellblock/bml_utilities_ellblock_typed.c b/src/C-interface/ellblock/bml_utilities_ellblock_typed.c
index 13921d8..89045b6 100644
--- a/src/C-interface/ellblock/bml_utilities_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_utilities_ellblock_typed.c
@@ -43,7 +43,7 @@ void TYPED_FUNC(
     hFile = fopen(filename, "r");
 
     // Read header
-    if (fscanf(hFile, "%s %s %s %s %s", header1, header2, header3, header4,
+    if (fscanf(hFile, "%19s %19s %19s %19s %19s", header1, header2, header3, header4,
                header5) != 5)
     {
         LOG_ERROR("read error on header\n");
diff --git a/src/C-interface/ellpack/bml_utilities_ellpack_typed.c b/src/C-interface/ellpack/bml_utilities_ellpack_typed.c
index fa500b1..0280ec6 100644
--- a/src/C-interface/ellpack/bml_utilities_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_utilities_ellpack_typed.c
@@ -41,7 +41,7 @@ void TYPED_FUNC(
     hFile = fopen(filename, "r");
 
     // Read header
-    if (fscanf(hFile, "%s %s %s %s %s", header1, header2, header3, header4,
+    if (fscanf(hFile, "%19s %19s %19s %19s %19s", header1, header2, header3, header4,
                header5) != 5)
     {
         LOG_ERROR("read error on header\n");
-- 
2.43.0


From 12f9b374092bb1022a48d2fe4b18eff573049988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:03 +0000
Subject: [PATCH 16/85] fix: log messages passed arguments of the wrong type to
 their conversions

---
 src/C-interface/bml_allocate.c                                | 2 +-
 src/C-interface/csr/bml_utilities_csr_typed.c                 | 4 ++--
 .../ellpack/bml_adjungate_triangle_ellpack_typed.c            | 2 +-
 src/C-interface/ellpack/bml_utilities_ellpack_typed.c         | 4 ++--
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/C-interface/bml_allocate.c b/src/C-interface/bml_allocate.c
index 7372cbc..a4733d9 100644
--- a/src/C-interface/bml_allocate.c
+++ b/src/C-interface/bml_allocate.c
@@ -67,7 +67,7 @@ bml_allocate_memory(
 
     if (ptr == NULL)
     {
-        LOG_ERROR("error allocating memory of size %d: %s\n", size,
+        LOG_ERROR("error allocating memory of size %zu: %s\n", size,
                   strerror(errno));
     }
     return (void *) ptr;
diff --git a/src/C-interface/csr/bml_utilities_csr_typed.c b/src/C-interface/csr/bml_utilities_csr_typed.c
index 45af0f9..cd0d3f4 100644
--- a/src/C-interface/csr/bml_utilities_csr_typed.c
+++ b/src/C-interface/csr/bml_utilities_csr_typed.c
@@ -74,8 +74,8 @@ void TYPED_FUNC(
             LOG_ERROR("read error\n");
         }
         value = real_part + I * imaginary_part;
-        LOG_DEBUG("read: %d %d %e %e %e\n", irow, icol, real_part,
-                  imaginary_part, value);
+        LOG_DEBUG("read: %d %d %e %e\n", irow, icol, real_part,
+                  imaginary_part);
 #elif defined(DOUBLE_COMPLEX)
         double real_part, imaginary_part;
         if (fscanf
diff --git a/src/C-interface/ellpack/bml_adjungate_triangle_ellpack_typed.c b/src/C-interface/ellpack/bml_adjungate_triangle_ellpack_typed.c
index 67b2279..0853cb9 100644
--- a/src/C-interface/ellpack/bml_adjungate_triangle_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_adjungate_triangle_ellpack_typed.c
@@ -132,7 +132,7 @@ void TYPED_FUNC(
 
             break;
         default:
-            LOG_ERROR("unknown triangle %c\n", triangle);
+            LOG_ERROR("unknown triangle %s\n", triangle);
             break;
     }
 #if defined(USE_OMP_OFFLOAD)
diff --git a/src/C-interface/ellpack/bml_utilities_ellpack_typed.c b/src/C-interface/ellpack/bml_utilities_ellpack_typed.c
index 0280ec6..81fc0b9 100644
--- a/src/C-interface/ellpack/bml_utilities_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_utilities_ellpack_typed.c
@@ -81,8 +81,8 @@ void TYPED_FUNC(
             LOG_ERROR("read error\n");
         }
         value = real_part + I * imaginary_part;
-        LOG_DEBUG("read: %d %d %e %e %e\n", irow, icol, real_part,
-                  imaginary_part, value);
+        LOG_DEBUG("read: %d %d %e %e\n", irow, icol, real_part,
+                  imaginary_part);
 #elif defined(DOUBLE_COMPLEX)
         if (fscanf
             (hFile, "%d %d %lf %lf\n", &irow, &icol, &real_part,
-- 
2.43.0


From 8ac30f2219e9894ada2b29bd103de548e26c01b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:33 +0000
Subject: [PATCH 17/85] fix: default ellblock partition was kept for matrices
 of another size

---
 src/C-interface/ellblock/bml_allocate_ellblock.c    | 13 +++++++++++++
 .../ellblock/bml_allocate_ellblock_typed.c          |  9 ++++++---
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/C-interface/ellblock/bml_allocate_ellblock.c b/src/C-interface/ellblock/bml_allocate_ellblock.c
index 5389619..6ad8329 100644
--- a/src/C-interface/ellblock/bml_allocate_ellblock.c
+++ b/src/C-interface/ellblock/bml_allocate_ellblock.c
@@ -50,6 +50,19 @@ bml_get_block_sizes(
     int N,
     int M)
 {
+    // block sizes kept from a matrix of another size do not apply
+    int n = 0;
+    if (s_default_bsize != NULL)
+    {
+        for (int ib = 0; ib < s_nb; ib++)
+            n += s_default_bsize[ib];
+        if (n != N)
+        {
+            bml_free_memory(s_default_bsize);
+            s_default_bsize = NULL;
+        }
+    }
+
     if (s_default_bsize == NULL)
     {
         assert(M > 0);
diff --git a/src/C-interface/ellblock/bml_allocate_ellblock_typed.c b/src/C-interface/ellblock/bml_allocate_ellblock_typed.c
index fb26f60..56fc9d2 100644
--- a/src/C-interface/ellblock/bml_allocate_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_allocate_ellblock_typed.c
@@ -153,9 +153,12 @@ bml_matrix_ellblock_t
     int N = matrix_dimension.N_rows;
     int M = matrix_dimension.N_nz_max;
 
-    return TYPED_FUNC(bml_block_matrix_ellblock) (bml_get_nb(), bml_get_mb(),
-                                                  M, bml_get_block_sizes(N,
-                                                                         0),
+    // sets the values returned by bml_get_mb and bml_get_nb
+    int *bsize = bml_get_block_sizes(N, M);
+    int mb = bml_get_mb();
+    int nb = bml_get_nb();
+
+    return TYPED_FUNC(bml_block_matrix_ellblock) (nb, mb, M, bsize,
                                                   distrib_mode);
 }
 
-- 
2.43.0


From 11057aad3c7cf8f7b1f0be3976f8de9dddea9177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:27 +0000
Subject: [PATCH 18/85] fix: dense diagonalize and inverse ignored LAPACK
 failures

---
 src/C-interface/dense/bml_diagonalize_dense.c   | 8 ++++++++
 src/C-interface/dense/bml_inverse_dense_typed.c | 4 ++++
 2 files changed, 12 insertions(+)

diff --git a/src/C-interface/dense/bml_diagonalize_dense.c b/src/C-interface/dense/bml_diagonalize_dense.c
index ee5d480..811a33f 100644
--- a/src/C-interface/dense/bml_diagonalize_dense.c
+++ b/src/C-interface/dense/bml_diagonalize_dense.c
@@ -263,6 +263,8 @@ bml_diagonalize_dense_cpu_single_real(
     float *work = calloc(lwork, sizeof(float));
     C_SSYEV("V", "U", &N, evecs, &N, evals, work, &lwork, &info);
 #endif // BML_SYEVD
+    if (info != 0)
+        LOG_ERROR("ERROR in ssyev: info = %d\n", info);
 
     A_matrix = (float *) eigenvectors->matrix;
     for (int i = 0; i < A->N; i++)
@@ -632,6 +634,8 @@ bml_diagonalize_dense_cpu_double_real(
     double *work = calloc(lwork, sizeof(double));
     C_DSYEV("V", "U", &A->N, evecs, &A->N, evals, work, &lwork, &info);
 #endif
+    if (info != 0)
+        LOG_ERROR("ERROR in dsyev: info = %d\n", info);
 
     A_matrix = (double *) eigenvectors->matrix;
     for (int i = 0; i < A->N; i++)
@@ -746,6 +750,8 @@ bml_diagonalize_dense_single_complex(
         C_CHEEVR("V", "A", "U", &A->N, A_copy, &A->N, &vl, &vu, &il, &iu,
                  &abstol, &M, evals, evecs, &A->N, isuppz, work, &lwork,
                  rwork, &lrwork, iwork, &liwork, &info);
+        if (info != 0)
+            LOG_ERROR("ERROR in cheevr: info = %d\n", info);
     }
 #endif
     A_matrix = (float complex *) eigenvectors->matrix;
@@ -856,6 +862,8 @@ bml_diagonalize_dense_double_complex(
         C_ZHEEVR("V", "A", "U", &A->N, A_copy, &A->N, &vl, &vu, &il, &iu,
                  &abstol, &M, evals, evecs, &A->N, isuppz, work, &lwork,
                  rwork, &lrwork, iwork, &liwork, &info);
+        if (info != 0)
+            LOG_ERROR("ERROR in zheevr: info = %d\n", info);
     }
 #endif
     A_matrix = (double complex *) eigenvectors->matrix;
diff --git a/src/C-interface/dense/bml_inverse_dense_typed.c b/src/C-interface/dense/bml_inverse_dense_typed.c
index 3d8e66a..d4b419a 100644
--- a/src/C-interface/dense/bml_inverse_dense_typed.c
+++ b/src/C-interface/dense/bml_inverse_dense_typed.c
@@ -122,7 +122,11 @@ void TYPED_FUNC(
 #pragma omp target update from(A_matrix[0:N*N])
 #endif
     C_BLAS(GETRF) (&M, &N, A->matrix, &lda, ipiv, &info);
+    if (info != 0)
+        LOG_ERROR("ERROR in getrf: info = %d\n", info);
     C_BLAS(GETRI) (&N, A->matrix, &N, ipiv, work, &lwork, &info);
+    if (info != 0)
+        LOG_ERROR("ERROR in getri: info = %d\n", info);
 #ifdef MKL_GPU
 // push back to GPU
 #pragma omp target update to(A_matrix[0:N*N])
-- 
2.43.0


From 61f94d6e8e56cce0ef9519092dc330bd9dd520e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:27 +0000
Subject: [PATCH 19/85] fix: matrix file readers and writers used an unopened
 file

---
 src/C-interface/csr/bml_utilities_csr_typed.c           | 8 ++++++++
 src/C-interface/dense/bml_utilities_dense_typed.c       | 8 ++++++++
 src/C-interface/ellblock/bml_utilities_ellblock_typed.c | 8 ++++++++
 src/C-interface/ellpack/bml_utilities_ellpack_typed.c   | 8 ++++++++
 4 files changed, 32 insertions(+)

diff --git a/src/C-interface/csr/bml_utilities_csr_typed.c b/src/C-interface/csr/bml_utilities_csr_typed.c
index cd0d3f4..6e3a0c3 100644
--- a/src/C-interface/csr/bml_utilities_csr_typed.c
+++ b/src/C-interface/csr/bml_utilities_csr_typed.c
@@ -31,6 +31,10 @@ void TYPED_FUNC(
     REAL_T value;
 
     hFile = fopen(filename, "r");
+    if (hFile == NULL)
+    {
+        LOG_ERROR("cannot open file %s\n", filename);
+    }
 
     // Read header
     if (fscanf(hFile, "%19s %19s %19s %19s %19s", header1, header2, header3, header4,
@@ -129,6 +133,10 @@ void TYPED_FUNC(
         return;
 
     mFile = fopen(filename, "w");
+    if (mFile == NULL)
+    {
+        LOG_ERROR("cannot open file %s\n", filename);
+    }
 
     // Write header
 #if defined(SINGLE_REAL) || defined(DOUBLE_REAL)
diff --git a/src/C-interface/dense/bml_utilities_dense_typed.c b/src/C-interface/dense/bml_utilities_dense_typed.c
index 78f6c92..350f292 100644
--- a/src/C-interface/dense/bml_utilities_dense_typed.c
+++ b/src/C-interface/dense/bml_utilities_dense_typed.c
@@ -47,6 +47,10 @@ void TYPED_FUNC(
 #endif
 
     matrix_file = fopen(filename, "r");
+    if (matrix_file == NULL)
+    {
+        LOG_ERROR("cannot open file %s\n", filename);
+    }
 
     // Read header
     if ((values_read = fscanf
@@ -154,6 +158,10 @@ void TYPED_FUNC(
 #endif
 
     matrix_file = fopen(filename, "w");
+    if (matrix_file == NULL)
+    {
+        LOG_ERROR("cannot open file %s\n", filename);
+    }
 
     // Write header
 #if defined(SINGLE_REAL) || defined(DOUBLE_REAL)
diff --git a/src/C-interface/ellblock/bml_utilities_ellblock_typed.c b/src/C-interface/ellblock/bml_utilities_ellblock_typed.c
index 89045b6..89fdaf7 100644
--- a/src/C-interface/ellblock/bml_utilities_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_utilities_ellblock_typed.c
@@ -41,6 +41,10 @@ void TYPED_FUNC(
     int *A_bsize = A->bsize;
 
     hFile = fopen(filename, "r");
+    if (hFile == NULL)
+    {
+        LOG_ERROR("cannot open file %s\n", filename);
+    }
 
     // Read header
     if (fscanf(hFile, "%19s %19s %19s %19s %19s", header1, header2, header3, header4,
@@ -191,6 +195,10 @@ void TYPED_FUNC(
         return;
 
     mFile = fopen(filename, "w");
+    if (mFile == NULL)
+    {
+        LOG_ERROR("cannot open file %s\n", filename);
+    }
 
     // Write header
 #if defined(SINGLE_REAL) || defined(DOUBLE_REAL)
diff --git a/src/C-interface/ellpack/bml_utilities_ellpack_typed.c b/src/C-interface/ellpack/bml_utilities_ellpack_typed.c
index 81fc0b9..e367dfc 100644
--- a/src/C-interface/ellpack/bml_utilities_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_utilities_ellpack_typed.c
@@ -39,6 +39,10 @@ void TYPED_FUNC(
     int *A_nnz = A->nnz;
 
     hFile = fopen(filename, "r");
+    if (hFile == NULL)
+    {
+        LOG_ERROR("cannot open file %s\n", filename);
+    }
 
     // Read header
     if (fscanf(hFile, "%19s %19s %19s %19s %19s", header1, header2, header3, header4,
@@ -149,6 +153,10 @@ void TYPED_FUNC(
         return;
 
     mFile = fopen(filename, "w");
+    if (mFile == NULL)
+    {
+        LOG_ERROR("cannot open file %s\n", filename);
+    }
 
     // Write header
 #if defined(SINGLE_REAL) || defined(DOUBLE_REAL)
-- 
2.43.0


From 7c1056744adf728e8eb360781a1d2725f34fff8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:27 +0000
Subject: [PATCH 20/85] fix: allocation failures of posix_memalign were not
 detected

---
 src/C-interface/bml_allocate.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/C-interface/bml_allocate.c b/src/C-interface/bml_allocate.c
index a4733d9..e0802a7 100644
--- a/src/C-interface/bml_allocate.c
+++ b/src/C-interface/bml_allocate.c
@@ -54,8 +54,11 @@ bml_allocate_memory(
         ptr[i] = 0;
     }
 #elif defined(BML_USE_POSIX_MEMALIGN)
-    char *ptr;
-    posix_memalign((void **) &ptr, MALLOC_ALIGNMENT, size);
+    char *ptr = NULL;
+    if (posix_memalign((void **) &ptr, MALLOC_ALIGNMENT, size) != 0)
+    {
+        LOG_ERROR("error allocating memory of size %zu\n", size);
+    }
 #pragma omp simd
     for (size_t i = 0; i < size; i++)
     {
@@ -87,8 +90,11 @@ bml_noinit_allocate_memory(
 #if defined(INTEL_OPT)
     void *ptr = _mm_malloc(size, MALLOC_ALIGNMENT);
 #elif defined(BML_USE_POSIX_MEMALIGN)
-    void *ptr;
-    posix_memalign(&ptr, MALLOC_ALIGNMENT, size);
+    void *ptr = NULL;
+    if (posix_memalign(&ptr, MALLOC_ALIGNMENT, size) != 0)
+    {
+        LOG_ERROR("error allocating memory of size %zu\n", size);
+    }
 #else
     void *ptr = malloc(size);
 #endif
-- 
2.43.0


From 5ad20380332f7fb0b3ed5149b7bf2ddef5eeba06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:44 +0000
Subject: [PATCH 21/85] fix: bml_fnorm2_dense shared a scratch variable between
 threads

---
 src/C-interface/dense/bml_norm_dense_typed.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/C-interface/dense/bml_norm_dense_typed.c b/src/C-interface/dense/bml_norm_dense_typed.c
index 462e16e..9b37ee4 100644
--- a/src/C-interface/dense/bml_norm_dense_typed.c
+++ b/src/C-interface/dense/bml_norm_dense_typed.c
@@ -353,7 +353,6 @@ double TYPED_FUNC(
     int *A_localRowMax = A->domain->localRowMax;
 
     double fnorm = 0.0;
-    REAL_T temp;
 
     int myRank = bml_getMyRank();
 
@@ -362,7 +361,6 @@ double TYPED_FUNC(
 #pragma omp target update from(B_matrix[0:N*N])
 #endif
 #pragma omp parallel for                        \
-  shared(temp)                                  \
   shared(N, A_matrix, B_matrix)                 \
   shared(A_localRowMin, A_localRowMax, myRank)  \
   reduction(+:fnorm)
@@ -370,7 +368,7 @@ double TYPED_FUNC(
     for (int i = A_localRowMin[myRank] * N; i < A_localRowMax[myRank] * N;
          i++)
     {
-        temp = A_matrix[i] - B_matrix[i];
+        REAL_T temp = A_matrix[i] - B_matrix[i];
         fnorm += temp * temp;
     }
 
-- 
2.43.0


From a0ffe40feebb3b8399d3018e2566e6edc316f676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:44 +0000
Subject: [PATCH 22/85] fix: banded matrices called rand() from parallel loops

---
 src/C-interface/csr/bml_allocate_csr_typed.c         | 2 +-
 src/C-interface/dense/bml_allocate_dense_typed.c     | 2 +-
 src/C-interface/ellpack/bml_allocate_ellpack_typed.c | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/C-interface/csr/bml_allocate_csr_typed.c b/src/C-interface/csr/bml_allocate_csr_typed.c
index de16032..c2b355c 100644
--- a/src/C-interface/csr/bml_allocate_csr_typed.c
+++ b/src/C-interface/csr/bml_allocate_csr_typed.c
@@ -239,7 +239,7 @@ bml_matrix_csr_t *TYPED_FUNC(
     bml_matrix_csr_t *A =
         TYPED_FUNC(bml_zero_matrix_csr) (N, M, distrib_mode);
 
-#pragma omp parallel for
+    // rand() is not thread safe: this loop has to be sequential
     for (int i = 0; i < N; i++)
     {
         int jind = 0;
diff --git a/src/C-interface/dense/bml_allocate_dense_typed.c b/src/C-interface/dense/bml_allocate_dense_typed.c
index 5f0f6f1..80727f2 100644
--- a/src/C-interface/dense/bml_allocate_dense_typed.c
+++ b/src/C-interface/dense/bml_allocate_dense_typed.c
@@ -218,7 +218,7 @@ bml_matrix_dense_t *TYPED_FUNC(
     REAL_T *A_dense = A->matrix;
 #endif
 
-#pragma omp parallel for shared(A_dense)
+    // rand() is not thread safe: this loop has to be sequential
     for (int i = 0; i < N; i++)
     {
         for (int j = (i - M / 2 >= 0 ? i - M / 2 : 0);
diff --git a/src/C-interface/ellpack/bml_allocate_ellpack_typed.c b/src/C-interface/ellpack/bml_allocate_ellpack_typed.c
index dc380e2..d82b548 100644
--- a/src/C-interface/ellpack/bml_allocate_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_allocate_ellpack_typed.c
@@ -294,7 +294,7 @@ bml_matrix_ellpack_t *TYPED_FUNC(
     int *A_nnz = A->nnz;
     const REAL_T INV_RAND_MAX = 1.0 / (REAL_T) RAND_MAX;
 
-#pragma omp parallel for shared(A_value, A_index, A_nnz)
+    // rand() is not thread safe: this loop has to be sequential
     for (int i = 0; i < N; i++)
     {
         int jind = 0;
-- 
2.43.0


From 4b2c1e3398556f2465a9d91f9f77d0355248bbca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:05 +0000
Subject: [PATCH 23/85] fix: bml_adjungate_triangle_ellpack read rows that
 other threads were extending

---
 .../bml_adjungate_triangle_ellpack_typed.c    | 49 ++-----------------
 1 file changed, 4 insertions(+), 45 deletions(-)

diff --git a/src/C-interface/ellpack/bml_adjungate_triangle_ellpack_typed.c b/src/C-interface/ellpack/bml_adjungate_triangle_ellpack_typed.c
index 0853cb9..06a3433 100644
--- a/src/C-interface/ellpack/bml_adjungate_triangle_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_adjungate_triangle_ellpack_typed.c
@@ -37,27 +37,15 @@ void TYPED_FUNC(
     REAL_T *A_value = (REAL_T *) A->value;
     int *A_index = A->index;
     int *A_nnz = A->nnz;
-#ifdef _OPENMP
-    omp_lock_t lock[A_M];
-#endif
-
     switch (*triangle)
     {
         case 'u':
-#ifdef _OPENMP
-            for (int i = 0; i < A_M; i++)
-                omp_init_lock(&(lock[i]));
-#endif
-
 #if defined(USE_OMP_OFFLOAD)
 #pragma omp target update from(A_value[:A_N*A_M], A_index[:A_N*A_M], A_nnz[:A_N])
 #endif
 
-#pragma omp parallel for                          \
-  shared(A_N, A_M, A_index, A_nnz, A_value, lock) \
-  private(l, ll)
-            // WARNING: Please, check for race conditions ...
-
+            // Rows are extended while others are scanned, so this loop has to
+            // be sequential
             for (int i = 0; i < A_N; i++)       // For every row
             {
                 l = A_nnz[i];
@@ -68,38 +56,20 @@ void TYPED_FUNC(
                     {
                         if (ll > i)
                         {
-#ifdef _OPENMP
-                            omp_set_lock(&(lock[ll]));
-#endif
                             A_index[ROWMAJOR(ll, A_nnz[ll], A_N, A_M)] = i;
                             A_value[ROWMAJOR(ll, A_nnz[ll], A_N, A_M)] =
                                 conj(A_value[ROWMAJOR(i, j, A_N, A_M)]);
                             A_nnz[ll]++;
-#ifdef _OPENMP
-                            omp_unset_lock(&(lock[ll]));
-#endif
 
                         }
                     }
                 }
             }
-#ifdef _OPENMP
-            for (int i = 0; i < A_M; i++)
-                omp_destroy_lock(&(lock[i]));
-#endif
-
             break;
 
         case 'l':
-#ifdef _OPENMP
-            for (int i = 0; i < A_M; i++)
-                omp_init_lock(&(lock[i]));
-#endif
-
-#pragma omp parallel for                                \
-  shared(lock, A_N, A_M, A_index, A_nnz, A_value)       \
-  private(l, ll)
-            //    WARNING: Please, check for race conditions and parallel performances ...
+            // Rows are extended while others are scanned, so this loop has to
+            // be sequential
             for (int i = 0; i < A_N; i++)
             {
                 l = A_nnz[i];
@@ -110,26 +80,15 @@ void TYPED_FUNC(
                     {
                         if (ll < i)
                         {
-#ifdef _OPENMP
-                            omp_set_lock(&(lock[ll]));
-#endif
                             A_index[ROWMAJOR(ll, A_nnz[ll], A_N, A_M)] = i;
                             A_value[ROWMAJOR(ll, A_nnz[ll], A_N, A_M)] =
                                 conj(A_value[ROWMAJOR(i, j, A_N, A_M)]);
                             A_nnz[ll]++;
-#ifdef _OPENMP
-                            omp_unset_lock(&(lock[ll]));
-#endif
 
                         }
                     }
                 }
             }
-#ifdef _OPENMP
-            for (int i = 0; i < A_M; i++)
-                omp_destroy_lock(&(lock[i]));
-#endif
-
             break;
         default:
             LOG_ERROR("unknown triangle %s\n", triangle);
-- 
2.43.0


From ad7f7eab1d0d687ada854d3e642b57a09622fdeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:05 +0000
Subject: [PATCH 24/85] fix: bml_adjacency_ellpack assumed all rows have a
 diagonal entry if the first has

---
 .../ellpack/bml_submatrix_ellpack.c           | 23 +++++++------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/src/C-interface/ellpack/bml_submatrix_ellpack.c b/src/C-interface/ellpack/bml_submatrix_ellpack.c
index 8007b48..2e26813 100644
--- a/src/C-interface/ellpack/bml_submatrix_ellpack.c
+++ b/src/C-interface/ellpack/bml_submatrix_ellpack.c
@@ -349,29 +349,22 @@ bml_adjacency_ellpack(
     int *A_index = A->index;
 
     int j;
-    int check;
 
     xadj[0] = 0;
 
-    // Check if diagonal elements are included
-    check = 0;
-    for (int i = 0; i < A_nnz[0]; i++)
+    // Diagonal elements, where present, are not part of the adjacency
+    for (int i = 1; i < A_N + 1; i++)
     {
-        if (A_index[ROWMAJOR(0, i, A_N, A_M)] == 0)
+        xadj[i] = xadj[i - 1] + A_nnz[i - 1];
+        for (int jj = 0; jj < A_nnz[i - 1]; jj++)
         {
-            check = 1;
-            break;
+            if (A_index[ROWMAJOR(i - 1, jj, A_N, A_M)] == i - 1)
+            {
+                xadj[i]--;
+            }
         }
     }
 
-    for (int i = 1; i < A_N + 1; i++)
-    {
-        if (check == 1)
-            xadj[i] = xadj[i - 1] + A_nnz[i - 1] - 1;
-        else
-            xadj[i] = xadj[i - 1] + A_nnz[i - 1];
-    }
-
 #pragma omp parallel for                                \
   private(j)                                            \
   shared(A_N, A_M, A_index, A_nnz, xadj, adjncy)
-- 
2.43.0


From 9023388e69a49b82f5d85a247f1027446b5278c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:05 +0000
Subject: [PATCH 25/85] fix: bml_adjacency_group_ellpack wrote one entry past
 the adjacency array

---
 src/C-interface/ellpack/bml_submatrix_ellpack.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/C-interface/ellpack/bml_submatrix_ellpack.c b/src/C-interface/ellpack/bml_submatrix_ellpack.c
index 2e26813..00bd937 100644
--- a/src/C-interface/ellpack/bml_submatrix_ellpack.c
+++ b/src/C-interface/ellpack/bml_submatrix_ellpack.c
@@ -490,7 +490,7 @@ bml_adjacency_group_ellpack(
     {
 #pragma omp parallel for                        \
   shared(xadj, A_N, adjncy)
-        for (int i = 0; i <= xadj[nnodes]; i++)
+        for (int i = 0; i < xadj[nnodes]; i++)
         {
             adjncy[i] += 1;
         }
-- 
2.43.0


From b87a41cec3390c6f2aa69f99fba3037f7d3eaa99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:05 +0000
Subject: [PATCH 26/85] fix: bml_group_matrix_ellpack kept group marks of
 earlier rows

---
 src/C-interface/ellpack/bml_submatrix_ellpack_typed.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/C-interface/ellpack/bml_submatrix_ellpack_typed.c b/src/C-interface/ellpack/bml_submatrix_ellpack_typed.c
index 7a96319..a699277 100644
--- a/src/C-interface/ellpack/bml_submatrix_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_submatrix_ellpack_typed.c
@@ -501,7 +501,7 @@ bml_matrix_ellpack_t
             for (int k = 0; k < A_nnz[j]; k++)
             {
                 int ii = hnode[A_index[ROWMAJOR(j, k, A_N, A_M)]];
-                if (ix[ii] == 0 && ii != i)
+                if (ix[ii] != i + 1 && ii != i)
                 {
                     //printf("row = %d col = %d val = %e\n", j, A_index[ROWMAJOR(j, k, A_N, A_M)], A_value[ROWMAJOR(j, k, A_N, A_M)]);
                     if (is_above_threshold(A_value[ROWMAJOR(j, k, A_N, A_M)],
-- 
2.43.0


From db6902d4574816418fe7c93d119571f4030690a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:16 +0000
Subject: [PATCH 27/85] fix: bml_add_csr kept using a row's value buffer after
 it was reallocated

---
 src/C-interface/csr/bml_add_csr_typed.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/C-interface/csr/bml_add_csr_typed.c b/src/C-interface/csr/bml_add_csr_typed.c
index aa9a6ab..94366d4 100644
--- a/src/C-interface/csr/bml_add_csr_typed.c
+++ b/src/C-interface/csr/bml_add_csr_typed.c
@@ -77,6 +77,8 @@ void TYPED_FUNC(
                 {
                     TYPED_FUNC(csr_set_row_element_new) (A->data_[i],
                                                          bcols[pos], &val);
+                    // the row may have been moved to a larger buffer
+                    avals = (REAL_T *) A->data_[i]->vals_;
                 }
             }
             //reset table
-- 
2.43.0


From 19463a9cfbe5f772acea00e7e9f20a97d63527cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:16 +0000
Subject: [PATCH 28/85] fix: bml_fnorm2_ellpack read an unset value for empty
 rows

---
 src/C-interface/ellpack/bml_norm_ellpack_typed.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/C-interface/ellpack/bml_norm_ellpack_typed.c b/src/C-interface/ellpack/bml_norm_ellpack_typed.c
index b18ce4b..00d59ac 100644
--- a/src/C-interface/ellpack/bml_norm_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_norm_ellpack_typed.c
@@ -407,6 +407,7 @@ double TYPED_FUNC(
     {
         for (int j = 0; j < A_nnz[i]; j++)
         {
+            rvalue = 0.0;
             for (int k = 0; k < B_nnz[i]; k++)
             {
                 if (A_index[ROWMAJOR(i, j, N, M)] ==
@@ -424,6 +425,7 @@ double TYPED_FUNC(
 
         for (int j = 0; j < B_nnz[i]; j++)
         {
+            rvalue = 0.0;
             for (int k = 0; k < A_nnz[i]; k++)
             {
                 if (A_index[ROWMAJOR(i, k, N, M)] ==
-- 
2.43.0


From eb258cccf6b30f5269a7818dfc80388b5b444d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:41 +0000
Subject: [PATCH 29/85] fix: bml_set_diagonal_ellpack set a shared flag from
 several threads

---
 src/C-interface/ellpack/bml_setters_ellpack_typed.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/C-interface/ellpack/bml_setters_ellpack_typed.c b/src/C-interface/ellpack/bml_setters_ellpack_typed.c
index 7195fa4..39e2f91 100644
--- a/src/C-interface/ellpack/bml_setters_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_setters_ellpack_typed.c
@@ -188,7 +188,7 @@ void TYPED_FUNC(
     for (int i = 0; i < A_N; i++)
     {
         int ll = 0;
-#pragma omp parallel for
+#pragma omp parallel for reduction(|:ll)
         for (int j = 0; j < A_nnz[i]; j++)
         {
             if (A_index[ROWMAJOR(i, j, A_N, A_M)] == i)
@@ -201,7 +201,7 @@ void TYPED_FUNC(
                 {
                     A_value[ROWMAJOR(i, j, A_N, A_M)] = 0.0;
                 }
-                ll = 1;
+                ll |= 1;
             }
         }
 
-- 
2.43.0


From cdda9543fb764e51b2807dd8417a6a1d842fb009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:25 +0000
Subject: [PATCH 30/85] fix: ellpack additions wrote past the row capacity

---
 .../ellpack/bml_add_ellpack_typed.c           | 32 +++++++++++++++----
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/src/C-interface/ellpack/bml_add_ellpack_typed.c b/src/C-interface/ellpack/bml_add_ellpack_typed.c
index 7bed4ed..22a9ccf 100644
--- a/src/C-interface/ellpack/bml_add_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_add_ellpack_typed.c
@@ -2,6 +2,7 @@
 #include "../../typed.h"
 #include "../bml_add.h"
 #include "../bml_allocate.h"
+#include "../bml_logger.h"
 #include "../bml_parallel.h"
 #include "../bml_types.h"
 #include "bml_add_ellpack.h"
@@ -195,6 +196,12 @@ void TYPED_FUNC(
             REAL_T xTmp = x[jind];
             if (is_above_threshold(xTmp, threshold))
             {
+                if (ll >= A_M)
+                {
+#ifndef USE_OMP_OFFLOAD
+                    LOG_ERROR("Number of non-zeroes per row > M, Increase M\n");
+#endif
+                }
                 A_value[ROWMAJOR(i, ll, N, A_M)] = xTmp;
                 A_index[ROWMAJOR(i, ll, N, A_M)] = jind;
                 ll++;
@@ -385,6 +392,12 @@ double TYPED_FUNC(
             trnorm += y[jind] * y[jind];
             if (is_above_threshold(xTmp, threshold))
             {
+                if (ll >= A_M)
+                {
+#ifndef USE_OMP_OFFLOAD
+                    LOG_ERROR("Number of non-zeroes per row > M, Increase M\n");
+#endif
+                }
                 A_value[ROWMAJOR(i, ll, N, A_M)] = xTmp;
                 A_index[ROWMAJOR(i, ll, N, A_M)] = jind;
                 ll++;
@@ -433,11 +446,12 @@ void TYPED_FUNC(
     //Should be safe to use BML_OFFLOAD_CHUNKS here but preserving old version
     //#if !(defined(__IBMC__) || defined(__ibmxl__) || (defined(USE_OMP_OFFLOAD) && (defined(INTEL_SDK) || defined(CRAY_SDK))))
 #if !(defined(__IBMC__) || defined(__ibmxl__) || (defined(USE_OMP_OFFLOAD) && BML_OFFLOAD_CHUNKS ))
-    int jx[A_M];
-    REAL_T x[A_M];
+    // One entry more than a row can hold, for the diagonal
+    int jx[A_M + 1];
+    REAL_T x[A_M + 1];
 
-    memset(jx, 0, A_M * sizeof(int));
-    memset(x, 0.0, A_M * sizeof(REAL_T));
+    memset(jx, 0, (A_M + 1) * sizeof(int));
+    memset(x, 0.0, (A_M + 1) * sizeof(REAL_T));
 #endif
 
 #if BML_OFFLOAD_CHUNKS
@@ -494,8 +508,8 @@ void TYPED_FUNC(
     {
 
 #if defined(__IBMC__) || defined(__ibmxl__)
-        int jx[A_M];
-        REAL_T x[A_M];
+        int jx[A_M + 1];
+        REAL_T x[A_M + 1];
 #endif
 #endif
         int l = 0;
@@ -533,6 +547,12 @@ void TYPED_FUNC(
             REAL_T xTmp = x[jp];
             if (is_above_threshold(xTmp, threshold))
             {
+                if (ll >= A_M)
+                {
+#ifndef USE_OMP_OFFLOAD
+                    LOG_ERROR("Number of non-zeroes per row > M, Increase M\n");
+#endif
+                }
                 A_value[ROWMAJOR(i, ll, N, A_M)] = xTmp;
                 A_index[ROWMAJOR(i, ll, N, A_M)] = jind;
                 ll++;
-- 
2.43.0


From 1aa2f5d4c52db0ecb429b6f77b70126489ea4f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:25 +0000
Subject: [PATCH 31/85] fix: bml_adjungate_triangle_ellpack wrote past the row
 capacity

---
 .../ellpack/bml_adjungate_triangle_ellpack_typed.c        | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/C-interface/ellpack/bml_adjungate_triangle_ellpack_typed.c b/src/C-interface/ellpack/bml_adjungate_triangle_ellpack_typed.c
index 06a3433..5d964dd 100644
--- a/src/C-interface/ellpack/bml_adjungate_triangle_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_adjungate_triangle_ellpack_typed.c
@@ -56,6 +56,10 @@ void TYPED_FUNC(
                     {
                         if (ll > i)
                         {
+                            if (A_nnz[ll] >= A_M)
+                            {
+                                LOG_ERROR("Number of non-zeroes per row > M, Increase M\n");
+                            }
                             A_index[ROWMAJOR(ll, A_nnz[ll], A_N, A_M)] = i;
                             A_value[ROWMAJOR(ll, A_nnz[ll], A_N, A_M)] =
                                 conj(A_value[ROWMAJOR(i, j, A_N, A_M)]);
@@ -80,6 +84,10 @@ void TYPED_FUNC(
                     {
                         if (ll < i)
                         {
+                            if (A_nnz[ll] >= A_M)
+                            {
+                                LOG_ERROR("Number of non-zeroes per row > M, Increase M\n");
+                            }
                             A_index[ROWMAJOR(ll, A_nnz[ll], A_N, A_M)] = i;
                             A_value[ROWMAJOR(ll, A_nnz[ll], A_N, A_M)] =
                                 conj(A_value[ROWMAJOR(i, j, A_N, A_M)]);
-- 
2.43.0


From f39927be040ee7e8c4a2f8b7cdfefe31776d4429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:25 +0000
Subject: [PATCH 32/85] fix: ellpack setters wrote past the row capacity

---
 .../ellpack/bml_setters_ellpack_typed.c       | 27 ++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/C-interface/ellpack/bml_setters_ellpack_typed.c b/src/C-interface/ellpack/bml_setters_ellpack_typed.c
index 39e2f91..7cfbcd5 100644
--- a/src/C-interface/ellpack/bml_setters_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_setters_ellpack_typed.c
@@ -1,6 +1,7 @@
 #include "../../macros.h"
 #include "../../typed.h"
 #include "../bml_introspection.h"
+#include "../bml_logger.h"
 #include "../bml_types.h"
 #include "bml_setters_ellpack.h"
 #include "bml_types_ellpack.h"
@@ -40,6 +41,10 @@ void TYPED_FUNC(
 #ifdef USE_OMP_OFFLOAD
 #pragma omp target update from(A_nnz[:A_N], A_index[:A_N*A_M], A_value[:A_N*A_M])
 #endif
+    if (A_nnz[i] >= A_M)
+    {
+        LOG_ERROR("Number of non-zeroes per row > M, Increase M\n");
+    }
     A_value[ROWMAJOR(i, A_nnz[i], A_N, A_M)] = *((REAL_T *) element);
     A_index[ROWMAJOR(i, A_nnz[i], A_N, A_M)] = j;
     A_nnz[i]++;
@@ -83,7 +88,7 @@ void TYPED_FUNC(
 #pragma omp target update from(A_nnz[:A_N], A_index[:A_N*A_M], A_value[:A_N*A_M])
 #endif
     ll = 0;
-    if (A_nnz[i] > 2)
+    if (A_nnz[i] > 0)
     {
         for (int l = 0; l < A_nnz[i]; l++)
         {
@@ -96,6 +101,10 @@ void TYPED_FUNC(
         }
         if (ll == 0)            //There is something in the row but in a different position
         {
+            if (A_nnz[i] >= A_M)
+            {
+                LOG_ERROR("Number of non-zeroes per row > M, Increase M\n");
+            }
             A_value[ROWMAJOR(i, A_nnz[i], A_N, A_M)] = *((REAL_T *) element);
             A_index[ROWMAJOR(i, A_nnz[i], A_N, A_M)] = j;
             A_nnz[i]++;
@@ -103,6 +112,10 @@ void TYPED_FUNC(
     }
     else                        //There is nothing in the row
     {
+        if (A_nnz[i] >= A_M)
+        {
+            LOG_ERROR("Number of non-zeroes per row > M, Increase M\n");
+        }
         A_value[ROWMAJOR(i, A_nnz[i], A_N, A_M)] = *((REAL_T *) element);
         A_index[ROWMAJOR(i, A_nnz[i], A_N, A_M)] = j;
         A_nnz[i]++;
@@ -149,6 +162,12 @@ void TYPED_FUNC(
             if (ABS(row[j]) > threshold)
             {
                 ll++;
+                if (ll >= A_M)
+                {
+#ifndef USE_OMP_OFFLOAD
+                    LOG_ERROR("Number of non-zeroes per row > M, Increase M\n");
+#endif
+                }
 
                 A_value[ROWMAJOR(i, ll, A_N, A_M)] = row[j];
                 A_index[ROWMAJOR(i, ll, A_N, A_M)] = j;
@@ -211,6 +230,12 @@ void TYPED_FUNC(
         {
             if (ABS(diagonal[i]) > threshold)
             {
+                if (A_nnz[i] >= A_M)
+                {
+#ifndef USE_OMP_OFFLOAD
+                    LOG_ERROR("Number of non-zeroes per row > M, Increase M\n");
+#endif
+                }
                 A_index[ROWMAJOR(i, A_nnz[i], A_N, A_M)] = i;
                 A_value[ROWMAJOR(i, A_nnz[i], A_N, A_M)] = diagonal[i];
                 A_nnz[i]++;
-- 
2.43.0


From 4ce0e35759251ff610985fc9233b3fb27b88c54c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:25 +0000
Subject: [PATCH 33/85] fix: ellpack submatrix operations wrote past the row
 capacity

---
 .../ellpack/bml_submatrix_ellpack_typed.c       | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/C-interface/ellpack/bml_submatrix_ellpack_typed.c b/src/C-interface/ellpack/bml_submatrix_ellpack_typed.c
index a699277..c492182 100644
--- a/src/C-interface/ellpack/bml_submatrix_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_submatrix_ellpack_typed.c
@@ -352,17 +352,16 @@ void TYPED_FUNC(
         {
             if (ABS(A_matrix[ROWMAJOR(ja, jb, A_N, A_N)]) > threshold)
             {
+                if (icol >= B_M)
+                {
+                    LOG_ERROR("Number of non-zeroes per row > M, Increase M\n");
+                }
                 B_index[ROWMAJOR(ii, icol, B_N, B_M)] = core_halo_index[jb];
                 B_value[ROWMAJOR(ii, icol, B_N, B_M)] =
                     A_matrix[ROWMAJOR(ja, jb, A_N, A_N)];
                 icol++;
             }
         }
-        if (icol > B_M)
-        {
-            LOG_ERROR("Number of non-zeroes per row >= M, Increase M\n");
-        }
-
         B_nnz[ii] = icol;
     }
 #ifdef BML_USE_MAGMA
@@ -588,6 +587,10 @@ bml_matrix_ellpack_t
             if (j >= icol && j < icol + B_N)
             {
                 int iB = i - irow;
+                if (B_nnz[iB] >= B_M)
+                {
+                    LOG_ERROR("Number of non-zeroes per row > M, Increase M\n");
+                }
                 B_index[ROWMAJOR(i - irow, B_nnz[iB], B_N, B_M)] = j - icol;
                 B_value[ROWMAJOR(i - irow, B_nnz[iB], B_N, B_M)] =
                     A_value[ROWMAJOR(i, jp, A_N, A_M)];
@@ -632,6 +635,10 @@ void TYPED_FUNC(
         {
             int jB = B_index[ROWMAJOR(i, jp, B_N, B_M)];
             int jpA = A_nnz[i + irow];
+            if (jpA >= A_M)
+            {
+                LOG_ERROR("Number of non-zeroes per row > M, Increase M\n");
+            }
             A_value[ROWMAJOR(i + irow, jpA, A_N, A_M)] =
                 B_value[ROWMAJOR(i, jp, B_N, B_M)];
             A_index[ROWMAJOR(i + irow, jpA, A_N, A_M)] = jB + icol;
-- 
2.43.0


From 9ff1b43b1f649141c1695f9637e6915d1c6223d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:25 +0000
Subject: [PATCH 34/85] fix: bml_import_from_dense_ellpack wrote past the row
 capacity

---
 src/C-interface/ellpack/bml_import_ellpack_typed.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/C-interface/ellpack/bml_import_ellpack_typed.c b/src/C-interface/ellpack/bml_import_ellpack_typed.c
index dc811d5..90e31b5 100644
--- a/src/C-interface/ellpack/bml_import_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_import_ellpack_typed.c
@@ -62,6 +62,10 @@ bml_matrix_ellpack_t
             }
             if (is_above_threshold(A_ij, threshold))
             {
+                if (A_nnz[i] >= M)
+                {
+                    LOG_ERROR("Number of non-zeroes per row > M, Increase M\n");
+                }
                 A_value[ROWMAJOR(i, A_nnz[i], N, M)] = A_ij;
                 A_index[ROWMAJOR(i, A_nnz[i], N, M)] = j;
                 A_nnz[i]++;
-- 
2.43.0


From 8051104d2d642188629247920b71c063e488e7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:25 +0000
Subject: [PATCH 35/85] fix: bml_read_bml_matrix_ellpack did not check indices
 and row capacity

---
 .../ellpack/bml_utilities_ellpack_typed.c            | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/C-interface/ellpack/bml_utilities_ellpack_typed.c b/src/C-interface/ellpack/bml_utilities_ellpack_typed.c
index e367dfc..e415bf2 100644
--- a/src/C-interface/ellpack/bml_utilities_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_utilities_ellpack_typed.c
@@ -101,7 +101,15 @@ void TYPED_FUNC(
 
         irow--;
         icol--;
+        if (irow < 0 || irow >= N || icol < 0 || icol >= N)
+        {
+            LOG_ERROR("read error, index out of range\n");
+        }
         ind = A_nnz[irow];
+        if (ind >= M)
+        {
+            LOG_ERROR("Number of non-zeroes per row > M, Increase M\n");
+        }
         A_index[ROWMAJOR(irow, ind, N, M)] = icol;
         A_value[ROWMAJOR(irow, ind, N, M)] = value;
         A_nnz[irow]++;
@@ -110,6 +118,10 @@ void TYPED_FUNC(
         if (symflag == 0 && icol != irow)
         {
             ind = A_nnz[icol];
+            if (ind >= M)
+            {
+                LOG_ERROR("Number of non-zeroes per row > M, Increase M\n");
+            }
             A_index[ROWMAJOR(icol, ind, N, M)] = irow;
             A_value[ROWMAJOR(icol, ind, N, M)] = value;
             A_nnz[icol]++;
-- 
2.43.0


From c8546ad2bf0b5783d001b8a1509adec37aa4e3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:25 +0000
Subject: [PATCH 36/85] fix: ellpack transposes wrote past the row capacity

---
 .../ellpack/bml_transpose_ellpack_typed.c     | 30 +++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/src/C-interface/ellpack/bml_transpose_ellpack_typed.c b/src/C-interface/ellpack/bml_transpose_ellpack_typed.c
index 4e38d77..3efe02a 100644
--- a/src/C-interface/ellpack/bml_transpose_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_transpose_ellpack_typed.c
@@ -87,6 +87,12 @@ bml_matrix_ellpack_t
                 omp_set_lock(&row_lock[trow]);
 #endif
                 int colcnt = B_nnz[trow];
+                if (colcnt >= M)
+                {
+#ifndef USE_OMP_OFFLOAD
+                    LOG_ERROR("Number of non-zeroes per row > M, Increase M\n");
+#endif
+                }
                 B_index[ROWMAJOR(trow, colcnt, N, M)] = i;
                 B_value[ROWMAJOR(trow, colcnt, N, M)] =
                     A_value[ROWMAJOR(i, j, N, M)];
@@ -244,6 +250,12 @@ void TYPED_FUNC(
                     if (!found)
                     {
                         /* nonsymmetric entry. Insert entry and swap position */
+                        if (A_nnz[j] >= M)
+                        {
+#ifndef USE_OMP_OFFLOAD
+                            LOG_ERROR("Number of non-zeroes per row > M, Increase M\n");
+#endif
+                        }
                         A_value[ROWMAJOR(j, A_nnz[j], N, M)] = A_value[ROWMAJOR(i, ipos, N, M)];
                         A_index[ROWMAJOR(j, A_nnz[j], N, M)] = i;
                         A_nnz[j]++;
@@ -262,6 +274,12 @@ void TYPED_FUNC(
                 else if (j < i)
                 {
                     // insert entry in row j
+                    if (A_nnz[j] >= M)
+                    {
+#ifndef USE_OMP_OFFLOAD
+                        LOG_ERROR("Number of non-zeroes per row > M, Increase M\n");
+#endif
+                    }
                     A_value[ROWMAJOR(j, A_nnz[j], N, M)] = A_value[ROWMAJOR(i, ipos, N, M)];
                     A_index[ROWMAJOR(j, A_nnz[j], N, M)] = i;
                     A_nnz[j]++;
@@ -360,6 +378,12 @@ void TYPED_FUNC(
                     if (!found)
                     {
                         /* nonsymmetric entry. Insert entry and swap position */
+                        if (A_nnz[j] >= M)
+                        {
+#ifndef USE_OMP_OFFLOAD
+                            LOG_ERROR("Number of non-zeroes per row > M, Increase M\n");
+#endif
+                        }
                         A_value[ROWMAJOR(j, A_nnz[j], N, M)] = A_value[ROWMAJOR(i, ipos, N, M)];
                         A_index[ROWMAJOR(j, A_nnz[j], N, M)] = i;
                         A_nnz[j]++;
@@ -378,6 +402,12 @@ void TYPED_FUNC(
                 else if (j < i)
                 {
                     // insert entry in row j
+                    if (A_nnz[j] >= M)
+                    {
+#ifndef USE_OMP_OFFLOAD
+                        LOG_ERROR("Number of non-zeroes per row > M, Increase M\n");
+#endif
+                    }
                     A_value[ROWMAJOR(j, A_nnz[j], N, M)] = A_value[ROWMAJOR(i, ipos, N, M)];
                     A_index[ROWMAJOR(j, A_nnz[j], N, M)] = i;
                     A_nnz[j]++;
-- 
2.43.0


From 0845f3669efe53a006a497473fd54ccef5d519f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:25 +0000
Subject: [PATCH 37/85] fix: ellpack multiply_x2 and multiply_adjust_AB wrote
 past the row capacity

---
 .../ellpack/bml_multiply_ellpack_typed.c      | 41 ++++++++++---------
 1 file changed, 22 insertions(+), 19 deletions(-)

diff --git a/src/C-interface/ellpack/bml_multiply_ellpack_typed.c b/src/C-interface/ellpack/bml_multiply_ellpack_typed.c
index 7001670..1e4f9c2 100644
--- a/src/C-interface/ellpack/bml_multiply_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_multiply_ellpack_typed.c
@@ -306,12 +306,24 @@ void *TYPED_FUNC(
             if (jp == i)
             {
                 traceX2 = traceX2 + xtmp;
+                if (ll >= X2_M)
+                {
+#ifndef USE_OMP_OFFLOAD
+                    LOG_ERROR("Number of non-zeroes per row > M, Increase M\n");
+#endif
+                }
                 X2_value[ROWMAJOR(i, ll, X2_N, X2_M)] = xtmp;
                 X2_index[ROWMAJOR(i, ll, X2_N, X2_M)] = jp;
                 ll++;
             }
             else if (is_above_threshold(xtmp, threshold))
             {
+                if (ll >= X2_M)
+                {
+#ifndef USE_OMP_OFFLOAD
+                    LOG_ERROR("Number of non-zeroes per row > M, Increase M\n");
+#endif
+                }
                 X2_value[ROWMAJOR(i, ll, X2_N, X2_M)] = xtmp;
                 X2_index[ROWMAJOR(i, ll, X2_N, X2_M)] = jp;
                 ll++;
@@ -319,16 +331,6 @@ void *TYPED_FUNC(
             ix[jp] = 0;
             x[jp] = 0.0;
         }
-        // Check for number of non-zeroes per row exceeded
-        // We should do it before assigning values to X2_value above,
-        // but that would be a lot of checks
-        if (ll > X2_M)
-        {
-#ifndef USE_OMP_OFFLOAD
-            LOG_ERROR("Number of non-zeroes per row > M, Increase M\n");
-#endif
-        }
-
         X2_nnz[i] = ll;
     }
 
@@ -666,22 +668,23 @@ void TYPED_FUNC(
                 }
             }
 
-            // Check for number of non-zeroes per row exceeded
-            // Need to adjust threshold
-            // ** Shouldn't we break from this loop if aflag is 1?? --DOK
-            if (l > C_M)
-            {
-                aflag = 1;
-            }
-
             int ll = 0;
             for (int j = 0; j < l; j++)
             {
                 //int jp = C_index[ROWMAJOR(i, j, N, M)];
                 int jp = jx[j];
                 REAL_T xtmp = x[jp];
+                if (ll >= C_M)
+                {
+                    // Number of non-zeroes per row exceeded,
+                    // need to adjust threshold
+                    if (jp == i || is_above_threshold(xtmp, adjust_threshold))
+                    {
+                        aflag = 1;
+                    }
+                }
                 // Diagonal elements are saved in first column
-                if (jp == i)
+                else if (jp == i)
                 {
                     C_value[ROWMAJOR(i, ll, C_N, C_M)] = xtmp;
                     C_index[ROWMAJOR(i, ll, C_N, C_M)] = jp;
-- 
2.43.0


From 889137664f345d480558950cec1b14d4df2129d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:25 +0000
Subject: [PATCH 38/85] fix: bml_copy_ellpack used the source capacity to
 address the target

---
 src/C-interface/ellpack/bml_copy_ellpack_typed.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/C-interface/ellpack/bml_copy_ellpack_typed.c b/src/C-interface/ellpack/bml_copy_ellpack_typed.c
index 2c378ec..f63f5ab 100644
--- a/src/C-interface/ellpack/bml_copy_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_copy_ellpack_typed.c
@@ -2,6 +2,7 @@
 #include "../../typed.h"
 #include "../bml_allocate.h"
 #include "../bml_copy.h"
+#include "../bml_logger.h"
 #include "../bml_types.h"
 #include "bml_allocate_ellpack.h"
 #include "bml_copy_ellpack.h"
@@ -92,6 +93,7 @@ void TYPED_FUNC(
 
     int N = A->N;
     int M = A->M;
+    int B_M = B->M;
 
     int *A_index = A->index;
     int *A_nnz = A->nnz;
@@ -127,15 +129,19 @@ void TYPED_FUNC(
     }
 #else
     // memcpy(B->index, A->index, sizeof(int) * A->N * A->M);
-    memcpy(B->nnz, A->nnz, sizeof(int) * A->N);
     //    memcpy(B->value, A->value, sizeof(REAL_T) * A->N * A->M);
 #pragma omp parallel for
     for (int i = 0; i < N; i++)
     {
-        memcpy(&B_index[ROWMAJOR(i, 0, N, M)], &A_index[ROWMAJOR(i, 0, N, M)],
-               M * sizeof(int));
-        memcpy(&B_value[ROWMAJOR(i, 0, N, M)], &A_value[ROWMAJOR(i, 0, N, M)],
-               M * sizeof(REAL_T));
+        if (A_nnz[i] > B_M)
+        {
+            LOG_ERROR("Number of non-zeroes per row > M, Increase M\n");
+        }
+        B_nnz[i] = A_nnz[i];
+        memcpy(&B_index[ROWMAJOR(i, 0, N, B_M)],
+               &A_index[ROWMAJOR(i, 0, N, M)], A_nnz[i] * sizeof(int));
+        memcpy(&B_value[ROWMAJOR(i, 0, N, B_M)],
+               &A_value[ROWMAJOR(i, 0, N, M)], A_nnz[i] * sizeof(REAL_T));
         //      A_nnz[perm[i]] = B_nnz[i];
     }
 #endif
-- 
2.43.0


From 54a9507f1823c22c777bafc822612c90c13953cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:23 +0000
Subject: [PATCH 39/85] fix: ellblock additions wrote past the row capacity and
 used the stride of A for B

---
 src/C-interface/ellblock/bml_add_ellblock_typed.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/C-interface/ellblock/bml_add_ellblock_typed.c b/src/C-interface/ellblock/bml_add_ellblock_typed.c
index 470e624..5a225dc 100644
--- a/src/C-interface/ellblock/bml_add_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_add_ellblock_typed.c
@@ -2,6 +2,7 @@
 #include "../../typed.h"
 #include "../bml_add.h"
 #include "../bml_allocate.h"
+#include "../bml_logger.h"
 #include "../bml_parallel.h"
 #include "../bml_types.h"
 #include "bml_add_ellblock.h"
@@ -140,7 +141,7 @@ void TYPED_FUNC(
         if (beta > (double) 0.0 || beta < (double) 0.0)
             for (int jp = 0; jp < B_nnzb[ib]; jp++)
             {
-                int ind = ROWMAJOR(ib, jp, NB, MB);
+                int ind = ROWMAJOR(ib, jp, NB, B->MB);
                 int jb = B_indexb[ind];
                 REAL_T *x = x_ptr[jb];
                 int nelements = bsize[ib] * bsize[jb];
@@ -172,6 +173,10 @@ void TYPED_FUNC(
             int nelements = bsize[ib] * bsize[jb];
             if (is_above_threshold(normx, threshold))
             {
+                if (ll >= MB)
+                {
+                    LOG_ERROR("Number of non-zero blocks per row > MB, Increase MB\n");
+                }
                 int kb = ROWMAJOR(ib, ll, NB, MB);
                 if (A_ptr_value[kb] == NULL)
                 {
@@ -282,7 +287,7 @@ double TYPED_FUNC(
 
         for (int jp = 0; jp < B_nnzb[ib]; jp++)
         {
-            int ind = ROWMAJOR(ib, jp, NB, MB);
+            int ind = ROWMAJOR(ib, jp, NB, B->MB);
             int jb = B_indexb[ind];
             if (ix[jb] == 0)
             {
@@ -320,6 +325,10 @@ double TYPED_FUNC(
             trnorm += normy * normy;
             if (is_above_threshold(normx, threshold))
             {
+                if (ll >= MB)
+                {
+                    LOG_ERROR("Number of non-zero blocks per row > MB, Increase MB\n");
+                }
                 int kb = ROWMAJOR(ib, ll, NB, MB);
                 for (int ii = 0; ii < bsize[ib]; ii++)
                     for (int jj = 0; jj < bsize[jb]; jj++)
-- 
2.43.0


From 0b2e413db2d5fead36f8953000ed8955f3556693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:23 +0000
Subject: [PATCH 40/85] fix: bml_copy_ellblock used the capacity of A to
 address B

---
 .../ellblock/bml_copy_ellblock_typed.c        | 28 +++++++++++--------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/C-interface/ellblock/bml_copy_ellblock_typed.c b/src/C-interface/ellblock/bml_copy_ellblock_typed.c
index eff8bf1..4644891 100644
--- a/src/C-interface/ellblock/bml_copy_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_copy_ellblock_typed.c
@@ -2,6 +2,7 @@
 #include "../../typed.h"
 #include "../bml_allocate.h"
 #include "../bml_copy.h"
+#include "../bml_logger.h"
 #include "../bml_types.h"
 #include "bml_allocate_ellblock.h"
 #include "bml_copy_ellblock.h"
@@ -77,34 +78,39 @@ void TYPED_FUNC(
 
     int NB = A->NB;
     int MB = A->MB;
+    int B_MB = B->MB;
+
+    /* B is overwritten with A: release the blocks it holds */
+    TYPED_FUNC(bml_clear_ellblock) (B);
 
     REAL_T **A_ptr_value = (REAL_T **) A->ptr_value;
     REAL_T **B_ptr_value = (REAL_T **) B->ptr_value;
 
-    memcpy(B->nnzb, A->nnzb, sizeof(int) * A->NB);
-
     int *A_indexb = A->indexb;
     int *B_indexb = B->indexb;
-    memcpy(B_indexb, A_indexb, NB * MB * sizeof(int));
 
 #pragma omp parallel for
     for (int ib = 0; ib < NB; ib++)
     {
+        if (A->nnzb[ib] > B_MB)
+        {
+            LOG_ERROR("Number of non-zero blocks per row > MB, Increase MB\n");
+        }
         for (int jp = 0; jp < A->nnzb[ib]; jp++)
         {
             int ind = ROWMAJOR(ib, jp, NB, MB);
+            int indB = ROWMAJOR(ib, jp, NB, B_MB);
             assert(A_ptr_value[ind] != NULL);
-            int jb = B_indexb[ind];
+            int jb = A_indexb[ind];
             int nelements = A->bsize[ib] * A->bsize[jb];
-            if (B_ptr_value[ind] == NULL)
-                B_ptr_value[ind]
-                    =
-                    TYPED_FUNC(bml_allocate_block_ellblock) (B, ib,
-                                                             nelements);
-            assert(B_ptr_value[ind] != NULL);
-            memcpy(B_ptr_value[ind], A_ptr_value[ind],
+            B_indexb[indB] = jb;
+            B_ptr_value[indB] =
+                TYPED_FUNC(bml_allocate_block_ellblock) (B, ib, nelements);
+            assert(B_ptr_value[indB] != NULL);
+            memcpy(B_ptr_value[indB], A_ptr_value[ind],
                    nelements * sizeof(REAL_T));
         }
+        B->nnzb[ib] = A->nnzb[ib];
     }
 }
 
-- 
2.43.0


From cf25c80d55100705336e1f6266bca730b684f10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:23 +0000
Subject: [PATCH 41/85] fix: bml_import_from_dense_ellblock wrote past the row
 capacity

---
 src/C-interface/ellblock/bml_import_ellblock_typed.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/C-interface/ellblock/bml_import_ellblock_typed.c b/src/C-interface/ellblock/bml_import_ellblock_typed.c
index e75e5d5..a27cbbb 100644
--- a/src/C-interface/ellblock/bml_import_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_import_ellblock_typed.c
@@ -84,6 +84,10 @@ bml_matrix_ellblock_t
                 (A_ij, A_bsize[ib], A_bsize[jb], A_bsize[jb]);
             if (norminf > threshold)
             {
+                if (A_nnzb[ib] >= MB)
+                {
+                    LOG_ERROR("Number of non-zero blocks per row > MB, Increase MB\n");
+                }
                 int ind = ROWMAJOR(ib, A_nnzb[ib], NB, MB);
                 A_bml->ptr_value[ind] =
                     TYPED_FUNC(bml_allocate_block_ellblock) (A_bml, ib,
-- 
2.43.0


From 67b1db206085b2178be1a1b4e1fdb463492e5d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:23 +0000
Subject: [PATCH 42/85] fix: ellblock multiply_x2 and multiply_adjust_AB used
 the capacity of the operand for the result

---
 .../ellblock/bml_multiply_ellblock_typed.c    | 78 ++++++++++---------
 1 file changed, 42 insertions(+), 36 deletions(-)

diff --git a/src/C-interface/ellblock/bml_multiply_ellblock_typed.c b/src/C-interface/ellblock/bml_multiply_ellblock_typed.c
index d0a9db4..0e64a76 100644
--- a/src/C-interface/ellblock/bml_multiply_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_multiply_ellblock_typed.c
@@ -393,7 +393,7 @@ void *TYPED_FUNC(
         }
 
         // Check for number of non-zero blocks per block row exceeded
-        if (lb > MB)
+        if (lb > X2->MB)
         {
             LOG_ERROR
                 ("Number of non-zeroes blocks per row > MB, Increase MB\n");
@@ -402,7 +402,7 @@ void *TYPED_FUNC(
         int ll = 0;
         for (int jb = 0; jb < lb; jb++)
         {
-            assert(ll < MB);
+            assert(ll < X2->MB);
             int jp = jx[jb];
             REAL_T *xtmp = x_ptr[jp];
             double normx = TYPED_FUNC(bml_norm_inf_fast)
@@ -412,12 +412,12 @@ void *TYPED_FUNC(
                 if (jp == ib)
                 {
                     for (int kk = 0; kk < bsize[ib]; kk++)
-                        traceX2 = traceX2 + xtmp[kk * (1 + bsize[jb])];
+                        traceX2 = traceX2 + xtmp[kk * (1 + bsize[ib])];
                 }
 
                 int nelements = bsize[ib] * bsize[jp];
-                int ind = ROWMAJOR(ib, ll, NB, MB);
-                assert(ind < NB * MB);
+                int ind = ROWMAJOR(ib, ll, NB, X2->MB);
+                assert(ind < NB * X2->MB);
                 /* Allocate memory to hold block */
                 X2_ptr_value[ind] =
                     TYPED_FUNC(bml_allocate_block_ellblock) (X2, ib, nelements);
@@ -644,7 +644,9 @@ void TYPED_FUNC(
     double threshold)
 {
     int NB = A->NB;
-    int MB = A->MB;
+    int A_MB = A->MB;
+    int B_MB = B->MB;
+    int C_MB = C->MB;
     int *A_nnzb = A->nnzb;
     int *A_indexb = A->indexb;
     int *bsize = A->bsize;
@@ -679,46 +681,44 @@ void TYPED_FUNC(
     {
         aflag = 0;
 
+        /* C is overwritten with the result: release the blocks it holds */
+        TYPED_FUNC(bml_clear_ellblock) (C);
+
         for (int ib = 0; ib < NB; ib++)
         {
             int l = 0;
             for (int jp = 0; jp < A_nnzb[ib]; jp++)
             {
-                REAL_T *a = A_ptr_value[ROWMAJOR(ib, jp, NB, MB)];
-                int jb = A_indexb[ROWMAJOR(ib, jp, NB, MB)];
+                REAL_T *a = A_ptr_value[ROWMAJOR(ib, jp, NB, A_MB)];
+                int jb = A_indexb[ROWMAJOR(ib, jp, NB, A_MB)];
 
                 for (int kp = 0; kp < B_nnzb[jb]; kp++)
                 {
-                    int kb = B_indexb[ROWMAJOR(jb, kp, NB, MB)];
+                    int kb = B_indexb[ROWMAJOR(jb, kp, NB, B_MB)];
                     if (ix[kb] == 0)
                     {
-                        memset(x_ptr[kb], 0, maxbsize2);
+                        memset(x_ptr[kb], 0, maxbsize2 * sizeof(REAL_T));
                         jx[l] = kb;
                         ix[kb] = ib + 1;
                         l++;
                     }
                     // TEMPORARY STORAGE VECTOR LENGTH FULL N
-                    REAL_T *b = B_ptr_value[ROWMAJOR(jb, kp, NB, MB)];
+                    REAL_T *b = B_ptr_value[ROWMAJOR(jb, kp, NB, B_MB)];
                     REAL_T *x = x_ptr[kb];
-                    for (int ii = 0; ii < bsize[jb]; ii++)
+                    for (int ii = 0; ii < bsize[ib]; ii++)
                         for (int jj = 0; jj < bsize[kb]; jj++)
                         {
                             int k = ii * bsize[kb] + jj;
-                            x[k] =
-                                x[k] +
-                                a[ROWMAJOR(ii, jj, bsize[ib], bsize[jb])] *
-                                b[ROWMAJOR(jj, ii, bsize[jb], bsize[kb])];
+                            for (int ll = 0; ll < bsize[jb]; ll++)
+                                x[k] =
+                                    x[k] +
+                                    a[ROWMAJOR(ii, ll, bsize[ib], bsize[jb])]
+                                    * b[ROWMAJOR
+                                        (ll, jj, bsize[jb], bsize[kb])];
                         }
                 }
             }
 
-            // Check for number of non-zeroes per row exceeded
-            // Need to adjust threshold
-            if (l > MB)
-            {
-                aflag = 1;
-            }
-
             int ll = 0;
             for (int jb = 0; jb < l; jb++)
             {
@@ -726,20 +726,26 @@ void TYPED_FUNC(
                 REAL_T *xtmp = x_ptr[jp];
                 double normx = TYPED_FUNC(bml_norm_inf)
                     (xtmp, bsize[ib], bsize[jp], bsize[jp]);
-                // Diagonal elements are saved in first column
-                if (jp == ib)
+                if (jp == ib || normx > adjust_threshold)
                 {
-                    memcpy(C_ptr_value[ROWMAJOR(ib, ll, NB, MB)], xtmp,
-                           bsize[ib] * bsize[ll] * sizeof(REAL_T));
-                    C_indexb[ROWMAJOR(ib, ll, NB, MB)] = jp;
-                    ll++;
-                }
-                else if (normx > adjust_threshold)
-                {
-                    memcpy(C_ptr_value[ROWMAJOR(ib, ll, NB, MB)], xtmp,
-                           bsize[ib] * bsize[ll] * sizeof(REAL_T));
-                    C_indexb[ROWMAJOR(ib, ll, NB, MB)] = jp;
-                    ll++;
+                    if (ll >= C_MB)
+                    {
+                        // Number of non-zeroes per row exceeded,
+                        // need to adjust threshold
+                        aflag = 1;
+                    }
+                    else
+                    {
+                        int nelements = bsize[ib] * bsize[jp];
+                        int ind = ROWMAJOR(ib, ll, NB, C_MB);
+                        C_ptr_value[ind] =
+                            TYPED_FUNC(bml_allocate_block_ellblock) (C, ib,
+                                                                     nelements);
+                        memcpy(C_ptr_value[ind], xtmp,
+                               nelements * sizeof(REAL_T));
+                        C_indexb[ind] = jp;
+                        ll++;
+                    }
                 }
                 ix[jp] = 0;
                 memset(x_ptr[jp], 0, maxbsize2 * sizeof(REAL_T));
-- 
2.43.0


From fff50521d271c2af40069fb50028856cb0fedf8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:23 +0000
Subject: [PATCH 43/85] fix: ellblock setters wrote past the row capacity

---
 src/C-interface/ellblock/bml_setters_ellblock_typed.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/C-interface/ellblock/bml_setters_ellblock_typed.c b/src/C-interface/ellblock/bml_setters_ellblock_typed.c
index 9bcfdf9..ce4026e 100644
--- a/src/C-interface/ellblock/bml_setters_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_setters_ellblock_typed.c
@@ -180,6 +180,10 @@ void TYPED_FUNC(
             }
             if (block_found == 0)
             {
+                if (A_nnzb[ib] >= A->MB)
+                {
+                    LOG_ERROR("Number of non-zero blocks per row > MB, Increase MB\n");
+                }
                 int ind = ROWMAJOR(ib, A_nnzb[ib], A->NB, A->MB);
                 int nelements = A_bsize[ib] * A_bsize[jb];
                 A_ptr_value[ind]
@@ -263,6 +267,10 @@ void TYPED_FUNC(
                 (&diagonal[offset], A_bsize[ib], 1, 1);
             if (normdiag > threshold)
             {
+                if (A_nnzb[ib] >= A_MB)
+                {
+                    LOG_ERROR("Number of non-zero blocks per row > MB, Increase MB\n");
+                }
                 int ind = ROWMAJOR(ib, A_nnzb[ib], A->NB, A->MB);
                 int nelemnts = A_bsize[ib] * A_bsize[ib];
                 A_ptr_value[ind] =
-- 
2.43.0


From 1b04b3f9099e6df7e1dbf7eae4472ee666bdfadf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:23 +0000
Subject: [PATCH 44/85] fix: ellblock submatrix operations wrote past the row
 capacity

---
 src/C-interface/ellblock/bml_submatrix_ellblock_typed.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/C-interface/ellblock/bml_submatrix_ellblock_typed.c b/src/C-interface/ellblock/bml_submatrix_ellblock_typed.c
index 9b3fe7e..6d93cdc 100644
--- a/src/C-interface/ellblock/bml_submatrix_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_submatrix_ellblock_typed.c
@@ -82,6 +82,10 @@ bml_matrix_ellblock_t
             if (jb >= icolb && jb < icolb + nb)
             {
                 int nelements = bsize[ib] * bsize[jb];
+                if (B_nnzb[ib - irowb] >= B_MB)
+                {
+                    LOG_ERROR("Number of non-zero blocks per row > MB, Increase MB\n");
+                }
                 int indB =
                     ROWMAJOR(ib - irowb, B_nnzb[ib - irowb], B_NB, B_MB);
                 B_indexb[indB] = jb - icolb;
@@ -155,6 +159,10 @@ void TYPED_FUNC(
         for (int jp = 0; jp < B_nnzb[ib]; jp++)
         {
             int jb = B_indexb[ROWMAJOR(ib, jp, B_NB, B_MB)];
+            if (A_nnzb[ib + irowb] >= A_MB)
+            {
+                LOG_ERROR("Number of non-zero blocks per row > MB, Increase MB\n");
+            }
             int nelements = bsize[ib] * bsize[jb];
             int indA = ROWMAJOR(ib + irowb, A_nnzb[ib + irowb], A_NB, A_MB);
             int indB = ROWMAJOR(ib, jp, B_NB, B_MB);
-- 
2.43.0


From 54630091e8fecf8a7a41e7d94888d05c98d1b71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:23 +0000
Subject: [PATCH 45/85] fix: ellblock transposes wrote past the row capacity

---
 .../ellblock/bml_transpose_ellblock_typed.c       | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/C-interface/ellblock/bml_transpose_ellblock_typed.c b/src/C-interface/ellblock/bml_transpose_ellblock_typed.c
index e4ea7ac..3dba8fe 100644
--- a/src/C-interface/ellblock/bml_transpose_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_transpose_ellblock_typed.c
@@ -1,6 +1,7 @@
 #include "../../macros.h"
 #include "../../typed.h"
 #include "../bml_allocate.h"
+#include "../bml_logger.h"
 #include "../bml_parallel.h"
 #include "../bml_transpose.h"
 #include "../bml_types.h"
@@ -52,12 +53,16 @@ bml_matrix_ellblock_t
         {
             int indA = ROWMAJOR(ib, jp, NB, MB);
             int jb = A_indexb[indA];
+            if (B_nnzb[jb] >= MB)
+            {
+                LOG_ERROR("Number of non-zero blocks per row > MB, Increase MB\n");
+            }
             int indB = ROWMAJOR(jb, B_nnzb[jb], NB, MB);
             //add a new block in B
             B_indexb[indB] = ib;
             int nelements = bsize[ib] * bsize[jb];
             B_ptr_value[indB] =
-                TYPED_FUNC(bml_allocate_block_ellblock) (B, ib, nelements);
+                TYPED_FUNC(bml_allocate_block_ellblock) (B, jb, nelements);
             B_nnzb[jb]++;
             //transpose block
             REAL_T *B_value = B_ptr_value[indB];
@@ -187,6 +192,10 @@ void TYPED_FUNC(
                 {
                     /* nonsymmetric entry. Insert block entries and swap position */
                     const int nnz_jb = A_nnzb[jb];
+                    if (nnz_jb >= MB)
+                    {
+                        LOG_ERROR("Number of non-zero blocks per row > MB, Increase MB\n");
+                    }
                     A_ptr_value[ROWMAJOR(jb, A_nnzb[jb], NB, MB)] = A_ptr_value[ROWMAJOR(ib, iposb, NB, MB)];
                     A_indexb[ROWMAJOR(jb, A_nnzb[jb], NB, MB)] = ib;
                     A_nnzb[jb]++;
@@ -219,6 +228,10 @@ void TYPED_FUNC(
             {
                 // insert block entries in block row jb
                 const int nnz_jb = A_nnzb[jb];
+                if (nnz_jb >= MB)
+                {
+                    LOG_ERROR("Number of non-zero blocks per row > MB, Increase MB\n");
+                }
                 A_ptr_value[ROWMAJOR(jb, nnz_jb, NB, MB)] = A_ptr_value[ROWMAJOR(ib, iposb, NB, MB)];
                 A_indexb[ROWMAJOR(jb, nnz_jb, NB, MB)] = ib;
                 A_nnzb[jb]++;
-- 
2.43.0


From aa54880f6a31fc3f6331eabd824251dfca1173d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:23 +0000
Subject: [PATCH 46/85] fix: bml_read_bml_matrix_ellblock stored mirrored
 blocks outside their row

---
 .../ellblock/bml_utilities_ellblock_typed.c   | 23 ++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/C-interface/ellblock/bml_utilities_ellblock_typed.c b/src/C-interface/ellblock/bml_utilities_ellblock_typed.c
index 89fdaf7..22fe861 100644
--- a/src/C-interface/ellblock/bml_utilities_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_utilities_ellblock_typed.c
@@ -89,6 +89,11 @@ void TYPED_FUNC(
 
         irow--;
         icol--;
+        if (irow < 0 || irow >= A->N || icol < 0 || icol >= A->N)
+        {
+            LOG_ERROR("read error, index out of range\n");
+        }
+        int diagonal = (irow == icol);
 
         /*compute block indexes */
         int ib = 0;
@@ -122,7 +127,10 @@ void TYPED_FUNC(
         if (found_block == 0)
         {
             //printf("Add new block %d, %d\n",ib, jb);
-            assert(A_nnzb[ib] < MB);
+            if (A_nnzb[ib] >= MB)
+            {
+                LOG_ERROR("Number of non-zero blocks per row > MB, Increase MB\n");
+            }
             int ind = ROWMAJOR(ib, A_nnzb[ib], NB, MB);
             A_indexb[ind] = jb;
             A_nnzb[ib]++;
@@ -136,7 +144,7 @@ void TYPED_FUNC(
         }
 
         // Set symmetric value if necessary
-        if (symflag == 0 && icol != irow)
+        if (symflag == 0 && !diagonal)
         {
             int found_block = 0;
             for (int ip = 0; ip < A_nnzb[jb]; ip++)
@@ -154,10 +162,19 @@ void TYPED_FUNC(
             //add block if needed
             if (found_block == 0)
             {
-                A_indexb[A_nnzb[jb]] = ib;
+                if (A_nnzb[jb] >= MB)
+                {
+                    LOG_ERROR("Number of non-zero blocks per row > MB, Increase MB\n");
+                }
                 int ind = ROWMAJOR(jb, A_nnzb[jb], NB, MB);
+                A_indexb[ind] = ib;
                 A_nnzb[jb]++;
+                int nelements = A_bsize[jb] * A_bsize[ib];
+                A_ptr_value[ind] =
+                    TYPED_FUNC(bml_allocate_block_ellblock) (A, jb,
+                                                             nelements);
                 REAL_T *A_value = A_ptr_value[ind];
+                memset(A_value, 0, nelements * sizeof(REAL_T));
                 A_value[ROWMAJOR(icol, irow, A_bsize[jb], A_bsize[ib])] =
                     value;
             }
-- 
2.43.0


From 2bdb1008a88ee93f492c0df6c5d0ad9378b52c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:36 +0000
Subject: [PATCH 47/85] fix: bml_threshold_new_csr stored all kept entries in
 the first slot

---
 src/C-interface/csr/bml_threshold_csr_typed.c | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/C-interface/csr/bml_threshold_csr_typed.c b/src/C-interface/csr/bml_threshold_csr_typed.c
index 6b27efc..772a5d0 100644
--- a/src/C-interface/csr/bml_threshold_csr_typed.c
+++ b/src/C-interface/csr/bml_threshold_csr_typed.c
@@ -5,6 +5,7 @@
 #include "../bml_threshold.h"
 #include "../bml_types.h"
 #include "bml_allocate_csr.h"
+#include "bml_setters_csr.h"
 #include "bml_threshold_csr.h"
 #include "bml_types_csr.h"
 
@@ -39,10 +40,6 @@ bml_matrix_csr_t
     shared(N)
     for (int i = 0; i < N; i++)
     {
-        int *bcols = B->data_[i]->cols_;
-        REAL_T *bvals = (REAL_T *) B->data_[i]->vals_;
-        const int bnnz = B->data_[i]->NNZ_;
-
         int *cols = A->data_[i]->cols_;
         REAL_T *vals = (REAL_T *) A->data_[i]->vals_;
         const int annz = A->data_[i]->NNZ_;
@@ -50,11 +47,8 @@ bml_matrix_csr_t
         {
             if (is_above_threshold(vals[pos], threshold))
             {
-//                bml_set_element_new_csr(B, i, cols[pos], &vals[pos]);
-                bvals[bnnz] = vals[pos];
-                bcols[bnnz] = cols[pos];
-                /* update nnz of row i of B */
-                B->data_[i]->NNZ_++;
+                TYPED_FUNC(csr_set_row_element_new) (B->data_[i], cols[pos],
+                                                     &vals[pos]);
             }
         }
     }
-- 
2.43.0


From d2db82c669ff68d101487c8811fef76750ccc4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:36 +0000
Subject: [PATCH 48/85] fix: bml_mpi_recv_csr wrote past the row buffers

---
 src/C-interface/csr/bml_parallel_csr_typed.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/C-interface/csr/bml_parallel_csr_typed.c b/src/C-interface/csr/bml_parallel_csr_typed.c
index dfbabf8..fd9f635 100644
--- a/src/C-interface/csr/bml_parallel_csr_typed.c
+++ b/src/C-interface/csr/bml_parallel_csr_typed.c
@@ -90,7 +90,16 @@ void TYPED_FUNC(
     int totnnz = 0;
     for (int i = 0; i < A->N_; i++)
     {
-        A->data_[i]->NNZ_ = nnz[i];
+        csr_sparse_row_t *row = A->data_[i];
+        if (nnz[i] > row->alloc_size_)
+        {
+            row->cols_ =
+                bml_reallocate_memory(row->cols_, sizeof(int) * nnz[i]);
+            row->vals_ =
+                bml_reallocate_memory(row->vals_, sizeof(REAL_T) * nnz[i]);
+            row->alloc_size_ = nnz[i];
+        }
+        row->NNZ_ = nnz[i];
         totnnz += nnz[i];
     }
     bml_free_memory(nnz);
-- 
2.43.0


From 815123c70dc3703045686a68abb447f160624f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:36 +0000
Subject: [PATCH 49/85] fix: ellblock additions stored blocks in slots of
 another size

---
 .../ellblock/bml_add_ellblock_typed.c         | 29 +++++++++++++------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/C-interface/ellblock/bml_add_ellblock_typed.c b/src/C-interface/ellblock/bml_add_ellblock_typed.c
index 5a225dc..58bfa4b 100644
--- a/src/C-interface/ellblock/bml_add_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_add_ellblock_typed.c
@@ -161,7 +161,12 @@ void TYPED_FUNC(
                     x[kk] = x[kk] + beta * B_value[kk];
                 }
             }
-        A_nnzb[ib] = l;
+        /* release the blocks of A, they may differ in size from new ones */
+        while (A_nnzb[ib] > 0)
+        {
+            int last = ROWMAJOR(ib, A_nnzb[ib] - 1, NB, MB);
+            TYPED_FUNC(bml_free_block_ellblock) (A, ib, A_indexb[last]);
+        }
 
         int ll = 0;
         for (int jp = 0; jp < l; jp++)
@@ -178,13 +183,10 @@ void TYPED_FUNC(
                     LOG_ERROR("Number of non-zero blocks per row > MB, Increase MB\n");
                 }
                 int kb = ROWMAJOR(ib, ll, NB, MB);
-                if (A_ptr_value[kb] == NULL)
-                {
-                    A_ptr_value[kb]
-                        =
-                        TYPED_FUNC(bml_allocate_block_ellblock) (A, ib,
-                                                                 nelements);
-                }
+                A_ptr_value[kb]
+                    =
+                    TYPED_FUNC(bml_allocate_block_ellblock) (A, ib,
+                                                             nelements);
                 for (int kk = 0; kk < nelements; kk++)
                 {
                     A_ptr_value[kb][kk] = x[kk];
@@ -311,7 +313,12 @@ double TYPED_FUNC(
                     y[jb][kk] = y[jb][kk] - B_value[kk];
                 }
         }
-        A_nnzb[ib] = l;
+        /* release the blocks of A, they may differ in size from new ones */
+        while (A_nnzb[ib] > 0)
+        {
+            int last = ROWMAJOR(ib, A_nnzb[ib] - 1, NB, MB);
+            TYPED_FUNC(bml_free_block_ellblock) (A, ib, A_indexb[last]);
+        }
 
         int ll = 0;
         for (int jp = 0; jp < l; jp++)
@@ -330,6 +337,10 @@ double TYPED_FUNC(
                     LOG_ERROR("Number of non-zero blocks per row > MB, Increase MB\n");
                 }
                 int kb = ROWMAJOR(ib, ll, NB, MB);
+                A_ptr_value[kb] =
+                    TYPED_FUNC(bml_allocate_block_ellblock) (A, ib,
+                                                             bsize[ib] *
+                                                             bsize[jb]);
                 for (int ii = 0; ii < bsize[ib]; ii++)
                     for (int jj = 0; jj < bsize[jb]; jj++)
                     {
-- 
2.43.0


From dd9504c5029dc9795aaf3b8bf7de5739b6f205f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:16 +0000
Subject: [PATCH 50/85] fix: fnorm2_ellpack addressed B with A's row stride

---
 src/C-interface/ellpack/bml_norm_ellpack_typed.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/C-interface/ellpack/bml_norm_ellpack_typed.c b/src/C-interface/ellpack/bml_norm_ellpack_typed.c
index 00d59ac..ef22050 100644
--- a/src/C-interface/ellpack/bml_norm_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_norm_ellpack_typed.c
@@ -382,6 +382,7 @@ double TYPED_FUNC(
     int *A_localRowMin = A->domain->localRowMin;
     int *A_localRowMax = A->domain->localRowMax;
     REAL_T *A_value = (REAL_T *) A->value;
+    int B_M = B->M;
     int *B_nnz = (int *) B->nnz;
     int *B_index = (int *) B->index;
     REAL_T *B_value = (REAL_T *) B->value;
@@ -400,7 +401,7 @@ double TYPED_FUNC(
   private(rvalue, temp)                         \
   shared(N, M, A_nnz, A_index, A_value)         \
   shared(A_localRowMin, A_localRowMax, myRank)  \
-  shared(B_nnz, B_index, B_value)               \
+  shared(B_M, B_nnz, B_index, B_value)          \
   reduction(+:fnorm)
     //for (int i = 0; i < N; i++)
     for (int i = rowMin; i < rowMax; i++)
@@ -411,9 +412,9 @@ double TYPED_FUNC(
             for (int k = 0; k < B_nnz[i]; k++)
             {
                 if (A_index[ROWMAJOR(i, j, N, M)] ==
-                    B_index[ROWMAJOR(i, k, N, M)])
+                    B_index[ROWMAJOR(i, k, N, B_M)])
                 {
-                    rvalue = B_value[ROWMAJOR(i, k, N, M)];
+                    rvalue = B_value[ROWMAJOR(i, k, N, B_M)];
                     break;
                 }
                 rvalue = 0.0;
@@ -429,7 +430,7 @@ double TYPED_FUNC(
             for (int k = 0; k < A_nnz[i]; k++)
             {
                 if (A_index[ROWMAJOR(i, k, N, M)] ==
-                    B_index[ROWMAJOR(i, j, N, M)])
+                    B_index[ROWMAJOR(i, j, N, B_M)])
                 {
                     rvalue = A_value[ROWMAJOR(i, k, N, M)];
                     break;
@@ -439,7 +440,7 @@ double TYPED_FUNC(
 
             if (rvalue == 0.0)
             {
-                temp = B_value[ROWMAJOR(i, j, N, M)];
+                temp = B_value[ROWMAJOR(i, j, N, B_M)];
                 fnorm += temp * temp;
             }
         }
-- 
2.43.0


From 8c82db0af84697170be1411ecb364f199b935eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:16 +0000
Subject: [PATCH 51/85] fix: ellblock norms addressed B with A's row stride

---
 .../ellblock/bml_norm_ellblock_typed.c        | 21 ++++++++++---------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/C-interface/ellblock/bml_norm_ellblock_typed.c b/src/C-interface/ellblock/bml_norm_ellblock_typed.c
index 51b837c..a500e5f 100644
--- a/src/C-interface/ellblock/bml_norm_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_norm_ellblock_typed.c
@@ -97,7 +97,7 @@ double TYPED_FUNC(
     for (int ib = 0; ib < NB; ib++)
         y_ptr[ib] = calloc(maxbsize2, sizeof(REAL_T));
 
-    int ix[NB], jjb[MB];
+    int ix[NB], jjb[NB];
 
     memset(jjb, 0, NB * sizeof(int));
 
@@ -125,7 +125,7 @@ double TYPED_FUNC(
 
         for (int jp = 0; jp < B_nnzb[ib]; jp++)
         {
-            int ind = ROWMAJOR(ib, jp, NB, MB);
+            int ind = ROWMAJOR(ib, jp, NB, B->MB);
             int jb = B_indexb[ind];
             if (ix[jb] != 0)
             {
@@ -233,7 +233,7 @@ double TYPED_FUNC(
 
         for (int jp = 0; jp < B_nnzb[ib]; jp++)
         {
-            int ind = ROWMAJOR(ib, jp, NB, MB);
+            int ind = ROWMAJOR(ib, jp, NB, B->MB);
             int jb = B_indexb[ind];
             int nelements = bsize[ib] * bsize[jb];
             if (ix[jb] == 0)
@@ -317,6 +317,7 @@ double TYPED_FUNC(
     int *bsize = A->bsize;
 
     REAL_T **A_ptr_value = (REAL_T **) A->ptr_value;
+    int B_MB = B->MB;
     int *B_nnzb = (int *) B->nnzb;
     int *B_indexb = (int *) B->indexb;
     REAL_T **B_ptr_value = (REAL_T **) B->ptr_value;
@@ -334,15 +335,15 @@ double TYPED_FUNC(
         for (int jp = 0; jp < A_nnzb[ib]; jp++)
         {
             int ind = ROWMAJOR(ib, jp, NB, MB);
+            rvalue = zero_block;
             for (int kp = 0; kp < B_nnzb[ib]; kp++)
             {
                 if (A_indexb[ROWMAJOR(ib, jp, NB, MB)] ==
-                    B_indexb[ROWMAJOR(ib, kp, NB, MB)])
+                    B_indexb[ROWMAJOR(ib, kp, NB, B_MB)])
                 {
-                    rvalue = B_ptr_value[ROWMAJOR(ib, kp, NB, MB)];
+                    rvalue = B_ptr_value[ROWMAJOR(ib, kp, NB, B_MB)];
                     break;
                 }
-                rvalue = zero_block;
             }
 
             REAL_T *A_value = A_ptr_value[ind];
@@ -358,21 +359,21 @@ double TYPED_FUNC(
 
         for (int jp = 0; jp < B_nnzb[ib]; jp++)
         {
+            rvalue = NULL;
             for (int kp = 0; kp < A_nnzb[ib]; kp++)
             {
                 if (A_indexb[ROWMAJOR(ib, kp, NB, MB)] ==
-                    B_indexb[ROWMAJOR(ib, jp, NB, MB)])
+                    B_indexb[ROWMAJOR(ib, jp, NB, B_MB)])
                 {
                     rvalue = A_ptr_value[ROWMAJOR(ib, kp, NB, MB)];
                     break;
                 }
-                rvalue = NULL;
             }
 
             if (rvalue == NULL)
             {
-                int ind = ROWMAJOR(ib, jp, NB, MB);
-                int jb = A_indexb[ind];
+                int ind = ROWMAJOR(ib, jp, NB, B_MB);
+                int jb = B_indexb[ind];
                 REAL_T *B_value = B_ptr_value[ind];
                 for (int ii = 0; ii < bsize[ib]; ii++)
                     for (int jj = 0; jj < bsize[jb]; jj++)
-- 
2.43.0


From 464b1fbb1b2e6f4d8843c69ddd998cd1fa375ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:16 +0000
Subject: [PATCH 52/85] fix: scale_ellblock addressed B with A's row stride

---
 src/C-interface/ellblock/bml_scale_ellblock_typed.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/C-interface/ellblock/bml_scale_ellblock_typed.c b/src/C-interface/ellblock/bml_scale_ellblock_typed.c
index 208baba..34d8c21 100644
--- a/src/C-interface/ellblock/bml_scale_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_scale_ellblock_typed.c
@@ -63,13 +63,13 @@ void TYPED_FUNC(
     REAL_T *scale_factor = _scale_factor;
     REAL_T **B_ptr_value = (REAL_T **) B->ptr_value;
     int inc = 1;
-    for (int ib = 0; ib < A->NB; ib++)
+    for (int ib = 0; ib < B->NB; ib++)
     {
-        for (int jp = 0; jp < A->nnzb[ib]; jp++)
+        for (int jp = 0; jp < B->nnzb[ib]; jp++)
         {
-            int ind = ROWMAJOR(ib, jp, A->NB, A->MB);
-            int jb = A->indexb[ind];
-            int nElems = A->bsize[ib] * A->bsize[jb];
+            int ind = ROWMAJOR(ib, jp, B->NB, B->MB);
+            int jb = B->indexb[ind];
+            int nElems = B->bsize[ib] * B->bsize[jb];
             REAL_T *B_value = B_ptr_value[ind];
             assert(B_value != NULL);
             C_BLAS(SCAL) (&nElems, scale_factor, &(B_value[0]), &inc);
-- 
2.43.0


From 876afd40079b3a8630867ecb7c915a755eececc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:16 +0000
Subject: [PATCH 53/85] fix: reorder_ellblock copied a whole row into one block

---
 .../ellblock/bml_copy_ellblock_typed.c        | 25 +++++++++++--------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/C-interface/ellblock/bml_copy_ellblock_typed.c b/src/C-interface/ellblock/bml_copy_ellblock_typed.c
index 4644891..4251389 100644
--- a/src/C-interface/ellblock/bml_copy_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_copy_ellblock_typed.c
@@ -140,26 +140,29 @@ void TYPED_FUNC(
     REAL_T **B_ptr_value = (REAL_T **) B->ptr_value;
     int *B_bsize = B->bsize;
 
-    for (int i = 0; i < NB; i++)
+    TYPED_FUNC(bml_clear_ellblock) (A);
+
+    for (int ib = 0; ib < NB; ib++)
     {
-        A_bsize[i] = B_bsize[perm[i]];
+        A_bsize[perm[ib]] = B_bsize[ib];
     }
 
-    // Reorder rows - need to copy
+    // Reorder rows - need to copy the blocks, whose sizes differ
     for (int ib = 0; ib < NB; ib++)
     {
         memcpy(&A_indexb[ROWMAJOR(perm[ib], 0, NB, MB)],
                &B_indexb[ROWMAJOR(ib, 0, NB, MB)], MB * sizeof(int));
-        int count = 0;
-        for (int jp = 0; jp < MB; jp++)
+        for (int jp = 0; jp < B_nnzb[ib]; jp++)
         {
-            int ind = ROWMAJOR(ib, jp, NB, MB);
-            int jb = B_indexb[ind];
-            count += B_bsize[jb];
+            int indA = ROWMAJOR(perm[ib], jp, NB, MB);
+            int indB = ROWMAJOR(ib, jp, NB, MB);
+            int nelements = B_bsize[ib] * B_bsize[B_indexb[indB]];
+            A_ptr_value[indA] =
+                TYPED_FUNC(bml_allocate_block_ellblock) (A, perm[ib],
+                                                         nelements);
+            memcpy(A_ptr_value[indA], B_ptr_value[indB],
+                   nelements * sizeof(REAL_T));
         }
-        memcpy(A_ptr_value[ROWMAJOR(perm[ib], 0, NB, MB)],
-               B_ptr_value[ROWMAJOR(ib, 0, NB, MB)],
-               B_bsize[ib] * count * sizeof(REAL_T));
         A_nnzb[perm[ib]] = B_nnzb[ib];
     }
 
-- 
2.43.0


From 48f143423f24e2c737e8706c6a3d492fd0cde5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:11 +0000
Subject: [PATCH 54/85] fix: validate the indices handed to the dense accessors

---
 src/C-interface/dense/bml_getters_dense_typed.c | 12 ++++++++++++
 src/C-interface/dense/bml_setters_dense_typed.c | 12 ++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/src/C-interface/dense/bml_getters_dense_typed.c b/src/C-interface/dense/bml_getters_dense_typed.c
index fbff45b..9590f3c 100644
--- a/src/C-interface/dense/bml_getters_dense_typed.c
+++ b/src/C-interface/dense/bml_getters_dense_typed.c
@@ -28,6 +28,14 @@ void *TYPED_FUNC(
     {
         LOG_ERROR("A is not initialized\n");
     }
+    if (i < 0 || i >= N)
+    {
+        LOG_ERROR("row index out of bounds\n");
+    }
+    if (j < 0 || j >= N)
+    {
+        LOG_ERROR("column index out of bounds\n");
+    }
 
 #ifdef BML_USE_MAGMA
     static REAL_T value = 0.;
@@ -54,6 +62,10 @@ void *TYPED_FUNC(
     {
         LOG_ERROR("A is not initialized\n");
     }
+    if (i < 0 || i >= N)
+    {
+        LOG_ERROR("row index out of bounds\n");
+    }
 
 #ifdef BML_USE_MAGMA
     MAGMA_T *A_matrix = A->matrix;
diff --git a/src/C-interface/dense/bml_setters_dense_typed.c b/src/C-interface/dense/bml_setters_dense_typed.c
index 7724087..dd41ce4 100644
--- a/src/C-interface/dense/bml_setters_dense_typed.c
+++ b/src/C-interface/dense/bml_setters_dense_typed.c
@@ -27,6 +27,14 @@ void TYPED_FUNC(
     {
         LOG_ERROR("A is not intialized\n");
     }
+    if (i < 0 || i >= N)
+    {
+        LOG_ERROR("row index out of bounds\n");
+    }
+    if (j < 0 || j >= N)
+    {
+        LOG_ERROR("column index out of bounds\n");
+    }
 
 #ifdef BML_USE_MAGMA
     MAGMA(setvector) (N, (MAGMA_T *) value, 1,
@@ -58,6 +66,10 @@ void TYPED_FUNC(
     {
         LOG_ERROR("A is not intialized\n");
     }
+    if (i < 0 || i >= N)
+    {
+        LOG_ERROR("row index out of bounds\n");
+    }
 
 #ifdef BML_USE_MAGMA
     MAGMA(setvector) (N, (MAGMA_T *) row, 1,
-- 
2.43.0


From b7ae554eff5fd9ea1fc48bbd9dae4b4016b11c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:11 +0000
Subject: [PATCH 55/85] fix: validate the indices handed to the ellpack
 accessors

---
 .../ellpack/bml_getters_ellpack_typed.c       |  6 +++++
 .../ellpack/bml_setters_ellpack_typed.c       | 23 +++++++++++++++++++
 2 files changed, 29 insertions(+)

diff --git a/src/C-interface/ellpack/bml_getters_ellpack_typed.c b/src/C-interface/ellpack/bml_getters_ellpack_typed.c
index 4607432..2d1a02c 100644
--- a/src/C-interface/ellpack/bml_getters_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_getters_ellpack_typed.c
@@ -74,6 +74,12 @@ void *TYPED_FUNC(
     REAL_T *A_value = (REAL_T *) A->value;
     int *A_index = A->index;
     int *A_nnz = A->nnz;
+
+    if (i < 0 || i >= A_N)
+    {
+        LOG_ERROR("row index out of bounds\n");
+    }
+
     REAL_T *row = calloc(A_N, sizeof(REAL_T));
 
 #ifdef USE_OMP_OFFLOAD
diff --git a/src/C-interface/ellpack/bml_setters_ellpack_typed.c b/src/C-interface/ellpack/bml_setters_ellpack_typed.c
index 7cfbcd5..f185640 100644
--- a/src/C-interface/ellpack/bml_setters_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_setters_ellpack_typed.c
@@ -38,6 +38,15 @@ void TYPED_FUNC(
     int *A_index = A->index;
     int *A_nnz = A->nnz;
 
+    if (i < 0 || i >= A_N)
+    {
+        LOG_ERROR("row index out of bounds\n");
+    }
+    if (j < 0 || j >= A_N)
+    {
+        LOG_ERROR("column index out of bounds\n");
+    }
+
 #ifdef USE_OMP_OFFLOAD
 #pragma omp target update from(A_nnz[:A_N], A_index[:A_N*A_M], A_value[:A_N*A_M])
 #endif
@@ -84,6 +93,15 @@ void TYPED_FUNC(
     int *A_index = A->index;
     int *A_nnz = A->nnz;
 
+    if (i < 0 || i >= A_N)
+    {
+        LOG_ERROR("row index out of bounds\n");
+    }
+    if (j < 0 || j >= A_N)
+    {
+        LOG_ERROR("column index out of bounds\n");
+    }
+
 #ifdef USE_OMP_OFFLOAD
 #pragma omp target update from(A_nnz[:A_N], A_index[:A_N*A_M], A_value[:A_N*A_M])
 #endif
@@ -152,6 +170,11 @@ void TYPED_FUNC(
     int *A_index = A->index;
     int *A_nnz = A->nnz;
 
+    if (i < 0 || i >= A_N)
+    {
+        LOG_ERROR("row index out of bounds\n");
+    }
+
 #ifdef USE_OMP_OFFLOAD
 #pragma omp target map(to:row[0:A_N])
 #endif
-- 
2.43.0


From e60812924c4b1c78475db958059e7a4efdd68688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:11 +0000
Subject: [PATCH 56/85] fix: validate the indices handed to the csr accessors

---
 src/C-interface/csr/bml_getters_csr_typed.c | 13 +++++++++++-
 src/C-interface/csr/bml_setters_csr_typed.c | 22 +++++++++++++++++++++
 2 files changed, 34 insertions(+), 1 deletion(-)

diff --git a/src/C-interface/csr/bml_getters_csr_typed.c b/src/C-interface/csr/bml_getters_csr_typed.c
index fbec160..2957091 100644
--- a/src/C-interface/csr/bml_getters_csr_typed.c
+++ b/src/C-interface/csr/bml_getters_csr_typed.c
@@ -63,6 +63,11 @@ void *TYPED_FUNC(
         LOG_ERROR("row index out of bounds\n");
         return &MINUS_ONE;
     }
+    if (j < 0 || j >= A->N_)
+    {
+        LOG_ERROR("column index out of bounds\n");
+        return &MINUS_ONE;
+    }
     return TYPED_FUNC(csr_get_row_element) (A->data_[i], j);
 }
 
@@ -155,8 +160,14 @@ void *TYPED_FUNC(
     bml_matrix_csr_t * A,
     int i)
 {
-    int nnz = TYPED_FUNC(csr_get_nnz) (A->data_[i]);
     int A_N = A->N_;
+
+    if (i < 0 || i >= A_N)
+    {
+        LOG_ERROR("row index out of bounds\n");
+    }
+
+    int nnz = TYPED_FUNC(csr_get_nnz) (A->data_[i]);
     int *cols = TYPED_FUNC(csr_get_column_indexes) (A->data_[i]);
     REAL_T *vals = TYPED_FUNC(csr_get_column_entries) (A->data_[i]);
 
diff --git a/src/C-interface/csr/bml_setters_csr_typed.c b/src/C-interface/csr/bml_setters_csr_typed.c
index a88a6d1..7570f15 100644
--- a/src/C-interface/csr/bml_setters_csr_typed.c
+++ b/src/C-interface/csr/bml_setters_csr_typed.c
@@ -2,6 +2,7 @@
 #include "../../typed.h"
 #include "../bml_introspection.h"
 #include "../bml_allocate.h"
+#include "../bml_logger.h"
 #include "../bml_types.h"
 #include "bml_setters_csr.h"
 #include "bml_types_csr.h"
@@ -148,6 +149,14 @@ void TYPED_FUNC(
     const int j,
     void *element)
 {
+    if (i < 0 || i >= A->N_)
+    {
+        LOG_ERROR("row index out of bounds\n");
+    }
+    if (j < 0 || j >= A->N_)
+    {
+        LOG_ERROR("column index out of bounds\n");
+    }
     // Insert new entry into row i.
     // Use the pointer to row i directly, since there
     // may be reallocation of memory
@@ -174,6 +183,14 @@ void TYPED_FUNC(
     const int j,
     void *element)
 {
+    if (i < 0 || i >= A->N_)
+    {
+        LOG_ERROR("row index out of bounds\n");
+    }
+    if (j < 0 || j >= A->N_)
+    {
+        LOG_ERROR("column index out of bounds\n");
+    }
 
     // Insert new entry into row i.
     // Use the pointer to row i directly, since there
@@ -202,6 +219,11 @@ void TYPED_FUNC(
     const int A_N = A->N_;
     int nzcount, *cols;
     REAL_T *vals = rowvals;
+
+    if (i < 0 || i >= A_N)
+    {
+        LOG_ERROR("row index out of bounds\n");
+    }
     csr_sparse_row_t *arow = A->data_[i];
     // reset nnz row count to zero (in case row is not empty)
     arow->NNZ_ = 0;
-- 
2.43.0


From ca0d3336ad7073244b3ba43cf8bd60bf00634f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:11 +0000
Subject: [PATCH 57/85] fix: validate the indices handed to the ellblock
 accessors

---
 .../ellblock/bml_getters_ellblock_typed.c          |  5 +++++
 .../ellblock/bml_setters_ellblock_typed.c          | 14 ++++++++++++++
 2 files changed, 19 insertions(+)

diff --git a/src/C-interface/ellblock/bml_getters_ellblock_typed.c b/src/C-interface/ellblock/bml_getters_ellblock_typed.c
index 01a13a1..64c3b66 100644
--- a/src/C-interface/ellblock/bml_getters_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_getters_ellblock_typed.c
@@ -85,6 +85,11 @@ void *TYPED_FUNC(
     int *A_nnzb = A->nnzb;
     int *bsize = A->bsize;
 
+    if (i < 0 || i >= A->N)
+    {
+        LOG_ERROR("row index out of bounds\n");
+    }
+
     REAL_T *row = calloc(A->N, sizeof(REAL_T));
     for (int ii = 0; ii < A->N; ii++)
     {
diff --git a/src/C-interface/ellblock/bml_setters_ellblock_typed.c b/src/C-interface/ellblock/bml_setters_ellblock_typed.c
index ce4026e..3008c93 100644
--- a/src/C-interface/ellblock/bml_setters_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_setters_ellblock_typed.c
@@ -42,6 +42,15 @@ void TYPED_FUNC(
     int *A_nnzb = A->nnzb;
     int *A_bsize = A->bsize;
 
+    if (i < 0 || i >= A->N)
+    {
+        LOG_ERROR("row index out of bounds\n");
+    }
+    if (j < 0 || j >= A->N)
+    {
+        LOG_ERROR("column index out of bounds\n");
+    }
+
     //determine block index and index within block
     int ib = 0;
     int jb = 0;
@@ -143,6 +152,11 @@ void TYPED_FUNC(
     int *A_nnzb = A->nnzb;
     int *A_bsize = A->bsize;
 
+    if (i < 0 || i >= A_N)
+    {
+        LOG_ERROR("row index out of bounds\n");
+    }
+
     //determine block index and index within block
     int ib = 0;
     int ii = i;
-- 
2.43.0


From b05d17e2012e0a01227daff36b91910b267da252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:11 +0000
Subject: [PATCH 58/85] fix: validate the indices handed to the distributed2d
 accessors

---
 .../distributed2d/bml_getters_distributed2d_typed.c          | 5 +++++
 .../distributed2d/bml_setters_distributed2d_typed.c          | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/C-interface/distributed2d/bml_getters_distributed2d_typed.c b/src/C-interface/distributed2d/bml_getters_distributed2d_typed.c
index 6d9b242..db5fae1 100644
--- a/src/C-interface/distributed2d/bml_getters_distributed2d_typed.c
+++ b/src/C-interface/distributed2d/bml_getters_distributed2d_typed.c
@@ -12,6 +12,11 @@ void *TYPED_FUNC(
     int i)
 {
     const int nloc = A->N / A->nprows;
+    if (i < 0 || i >= A->N)
+    {
+        LOG_ERROR("row index out of bounds\n");
+    }
+
     // allocate full row to be returned
     REAL_T *row = bml_allocate_memory(A->N * sizeof(REAL_T));
 
diff --git a/src/C-interface/distributed2d/bml_setters_distributed2d_typed.c b/src/C-interface/distributed2d/bml_setters_distributed2d_typed.c
index 667b0b1..d3bc08c 100644
--- a/src/C-interface/distributed2d/bml_setters_distributed2d_typed.c
+++ b/src/C-interface/distributed2d/bml_setters_distributed2d_typed.c
@@ -28,6 +28,11 @@ void TYPED_FUNC(
 {
     const int nloc = A->N / A->nprows;
 
+    if (i < 0 || i >= A->N)
+    {
+        LOG_ERROR("row index out of bounds\n");
+    }
+
     if (i < A->myprow * nloc)
         return;
     if (i >= (A->myprow + 1) * nloc)
-- 
2.43.0


From a2070ae288a167581471699db5063c49e8b3ab0e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 21:55:33 +0000
Subject: [PATCH 59/85] fix: add the identity of a distributed2d matrix on its
 diagonal blocks only

---
 src/C-interface/distributed2d/bml_add_distributed2d.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/C-interface/distributed2d/bml_add_distributed2d.c b/src/C-interface/distributed2d/bml_add_distributed2d.c
index 9bb68e1..aa474d9 100644
--- a/src/C-interface/distributed2d/bml_add_distributed2d.c
+++ b/src/C-interface/distributed2d/bml_add_distributed2d.c
@@ -75,7 +75,9 @@ bml_add_identity_distributed2d(
     double beta,
     double threshold)
 {
-    bml_add_identity(A->matrix, beta, threshold);
+    // the diagonal of A lies in the diagonal blocks
+    if (A->myprow == A->mypcol)
+        bml_add_identity(A->matrix, beta, threshold);
 }
 
 /** Matrix addition.
@@ -95,5 +97,8 @@ bml_scale_add_identity_distributed2d(
     double beta,
     double threshold)
 {
-    bml_scale_add_identity(A->matrix, alpha, beta, threshold);
+    // the diagonal of A lies in the diagonal blocks
+    double shift = (A->myprow == A->mypcol) ? beta : 0.0;
+
+    bml_scale_add_identity(A->matrix, alpha, shift, threshold);
 }
-- 
2.43.0


From 1d67d9fdb2a229b2fc11213893588d80fc60b800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:28 +0000
Subject: [PATCH 60/85] fix: use squared moduli in the norms of complex
 matrices

---
 src/C-interface/csr/bml_norm_csr_typed.c           |  6 +++---
 src/C-interface/dense/bml_norm_dense_typed.c       |  8 ++++----
 src/C-interface/ellblock/bml_norm_ellblock_typed.c |  6 +++---
 src/C-interface/ellpack/bml_norm_ellpack_typed.c   | 10 +++++-----
 4 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/C-interface/csr/bml_norm_csr_typed.c b/src/C-interface/csr/bml_norm_csr_typed.c
index a6be2d4..cd7dc64 100644
--- a/src/C-interface/csr/bml_norm_csr_typed.c
+++ b/src/C-interface/csr/bml_norm_csr_typed.c
@@ -42,7 +42,7 @@ double TYPED_FUNC(
         for (int pos = 0; pos < annz; pos++)
         {
             REAL_T xval = vals[pos];
-            sum += xval * xval;
+            sum += xval * COMPLEX_CONJUGATE(xval);
         }
     }
 
@@ -78,7 +78,7 @@ double TYPED_FUNC(
             if (cols[pos] < core_size)
             {
                 REAL_T value = vals[pos];
-                sum += value * value;
+                sum += value * COMPLEX_CONJUGATE(value);
             }
         }
     }
@@ -217,7 +217,7 @@ double TYPED_FUNC(
         {
             if (ABS(cvals[k]) > threshold)
             {
-                sum += cvals[k] * cvals[k];
+                sum += cvals[k] * COMPLEX_CONJUGATE(cvals[k]);
             }
             // reset cvals
             cvals[k] = 0.;
diff --git a/src/C-interface/dense/bml_norm_dense_typed.c b/src/C-interface/dense/bml_norm_dense_typed.c
index 9b37ee4..f0fab5c 100644
--- a/src/C-interface/dense/bml_norm_dense_typed.c
+++ b/src/C-interface/dense/bml_norm_dense_typed.c
@@ -77,7 +77,7 @@ double TYPED_FUNC(
     for (int i = A_localRowMin[myRank] * N; i < A_localRowMax[myRank] * N;
          i++)
     {
-        sum += A_matrix[i] * A_matrix[i];
+        sum += A_matrix[i] * COMPLEX_CONJUGATE(A_matrix[i]);
     }
 #endif
 
@@ -135,7 +135,7 @@ double TYPED_FUNC(
   reduction(+:sum)
     for (int i = 0; i < core_size * N; i++)
     {
-        sum += A_matrix[i] * A_matrix[i];
+        sum += A_matrix[i] * COMPLEX_CONJUGATE(A_matrix[i]);
     }
 
 /*
@@ -297,7 +297,7 @@ double TYPED_FUNC(
         REAL_T temp = alpha_ * A_matrix[i] + beta_ * B_matrix[i];
 #endif
         if (ABS(temp) > threshold)
-            sum += temp * temp;
+            sum += temp * COMPLEX_CONJUGATE(temp);
     }
 #ifdef BML_USE_MAGMA
     free(A_matrix);
@@ -369,7 +369,7 @@ double TYPED_FUNC(
          i++)
     {
         REAL_T temp = A_matrix[i] - B_matrix[i];
-        fnorm += temp * temp;
+        fnorm += temp * COMPLEX_CONJUGATE(temp);
     }
 
 #ifdef BML_USE_MPI
diff --git a/src/C-interface/ellblock/bml_norm_ellblock_typed.c b/src/C-interface/ellblock/bml_norm_ellblock_typed.c
index a500e5f..bae708e 100644
--- a/src/C-interface/ellblock/bml_norm_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_norm_ellblock_typed.c
@@ -48,7 +48,7 @@ double TYPED_FUNC(
                 for (int jj = 0; jj < bsize[jb]; jj++)
                 {
                     int index = ROWMAJOR(ii, jj, bsize[ib], bsize[jb]);
-                    sum += xval[index] * xval[index];
+                    sum += xval[index] * COMPLEX_CONJUGATE(xval[index]);
                 }
         }
     }
@@ -353,7 +353,7 @@ double TYPED_FUNC(
                 {
                     int index = ROWMAJOR(ii, jj, bsize[ib], bsize[jb]);
                     temp = A_value[index] - rvalue[index];
-                    fnorm += temp * temp;
+                    fnorm += temp * COMPLEX_CONJUGATE(temp);
                 }
         }
 
@@ -380,7 +380,7 @@ double TYPED_FUNC(
                     {
                         int index = ROWMAJOR(ii, jj, bsize[ib], bsize[jb]);
                         temp = B_value[index];
-                        fnorm += temp * temp;
+                        fnorm += temp * COMPLEX_CONJUGATE(temp);
                     }
             }
         }
diff --git a/src/C-interface/ellpack/bml_norm_ellpack_typed.c b/src/C-interface/ellpack/bml_norm_ellpack_typed.c
index ef22050..e5d7a7c 100644
--- a/src/C-interface/ellpack/bml_norm_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_norm_ellpack_typed.c
@@ -54,7 +54,7 @@ double TYPED_FUNC(
         for (int j = 0; j < A_nnz[i]; j++)
         {
             REAL_T xval = A_value[ROWMAJOR(i, j, N, M)];
-            sum += xval * xval;
+            sum += xval * COMPLEX_CONJUGATE(xval);
         }
     }
 
@@ -97,7 +97,7 @@ double TYPED_FUNC(
             if (A_index[ROWMAJOR(i, j, N, M)] < core_size)
             {
                 REAL_T value = A_value[ROWMAJOR(i, j, N, M)];
-                sum += value * value;
+                sum += value * COMPLEX_CONJUGATE(value);
             }
         }
     }
@@ -326,7 +326,7 @@ double TYPED_FUNC(
         for (int jp = 0; jp < l; jp++)
         {
             if (ABS(y[jjb[jp]]) > threshold)
-                sum += y[jjb[jp]] * y[jjb[jp]];
+                sum += y[jjb[jp]] * COMPLEX_CONJUGATE(y[jjb[jp]]);
 
             /* reset marker array */
             ix[jjb[jp]] = 0;
@@ -421,7 +421,7 @@ double TYPED_FUNC(
             }
 
             temp = A_value[ROWMAJOR(i, j, N, M)] - rvalue;
-            fnorm += temp * temp;
+            fnorm += temp * COMPLEX_CONJUGATE(temp);
         }
 
         for (int j = 0; j < B_nnz[i]; j++)
@@ -441,7 +441,7 @@ double TYPED_FUNC(
             if (rvalue == 0.0)
             {
                 temp = B_value[ROWMAJOR(i, j, N, B_M)];
-                fnorm += temp * temp;
+                fnorm += temp * COMPLEX_CONJUGATE(temp);
             }
         }
     }
-- 
2.43.0


From 7dbe40fbd44bcd5d9b619910079b9208f6852a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:17 +0000
Subject: [PATCH 61/85] fix: start the maximum of the Gershgorin bounds below
 every value

---
 src/C-interface/csr/bml_normalize_csr_typed.c                 | 4 ++--
 src/C-interface/dense/bml_normalize_dense_typed.c             | 4 ++--
 .../distributed2d/bml_normalize_distributed2d_typed.c         | 2 +-
 src/C-interface/ellblock/bml_normalize_ellblock_typed.c       | 2 +-
 src/C-interface/ellpack/bml_normalize_ellpack_typed.c         | 4 ++--
 5 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/C-interface/csr/bml_normalize_csr_typed.c b/src/C-interface/csr/bml_normalize_csr_typed.c
index 6db4d27..5096e72 100644
--- a/src/C-interface/csr/bml_normalize_csr_typed.c
+++ b/src/C-interface/csr/bml_normalize_csr_typed.c
@@ -86,7 +86,7 @@ void *TYPED_FUNC(
     REAL_T radius, absham, dvalue;
 
     double emin = DBL_MAX;
-    double emax = DBL_MIN;
+    double emax = -DBL_MAX;
 
     double *eval = bml_allocate_memory(sizeof(double) * 2);
 
@@ -168,7 +168,7 @@ void *TYPED_FUNC(
     REAL_T radius, absham, dvalue;
 
     double emin = DBL_MAX;
-    double emax = DBL_MIN;
+    double emax = -DBL_MAX;
 
     double *eval = bml_allocate_memory(sizeof(double) * 2);
 
diff --git a/src/C-interface/dense/bml_normalize_dense_typed.c b/src/C-interface/dense/bml_normalize_dense_typed.c
index 289f486..e604c84 100644
--- a/src/C-interface/dense/bml_normalize_dense_typed.c
+++ b/src/C-interface/dense/bml_normalize_dense_typed.c
@@ -108,7 +108,7 @@ void *TYPED_FUNC(
     int myRank = bml_getMyRank();
 
     double emin = DBL_MAX;
-    double emax = DBL_MIN;
+    double emax = -DBL_MAX;
 
     double *eval = bml_allocate_memory(sizeof(double) * 2);
 #ifdef BML_USE_MAGMA
@@ -199,7 +199,7 @@ void *TYPED_FUNC(
     REAL_T *A_matrix = (REAL_T *) A->matrix;
 
     double emin = DBL_MAX;
-    double emax = DBL_MIN;
+    double emax = -DBL_MAX;
 
     double *eval = bml_allocate_memory(sizeof(double) * 2);
 
diff --git a/src/C-interface/distributed2d/bml_normalize_distributed2d_typed.c b/src/C-interface/distributed2d/bml_normalize_distributed2d_typed.c
index 31d3ab2..e37d487 100644
--- a/src/C-interface/distributed2d/bml_normalize_distributed2d_typed.c
+++ b/src/C-interface/distributed2d/bml_normalize_distributed2d_typed.c
@@ -41,7 +41,7 @@ void *TYPED_FUNC(
     free(offdiag_sum);
 
     double emin = DBL_MAX;
-    double emax = DBL_MIN;
+    double emax = -DBL_MAX;
 
     if (A->myprow == A->mypcol)
     {
diff --git a/src/C-interface/ellblock/bml_normalize_ellblock_typed.c b/src/C-interface/ellblock/bml_normalize_ellblock_typed.c
index 4f957f8..a181d33 100644
--- a/src/C-interface/ellblock/bml_normalize_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_normalize_ellblock_typed.c
@@ -100,7 +100,7 @@ void *TYPED_FUNC(
     bml_matrix_ellblock_t * A)
 {
     double emin = DBL_MAX;
-    double emax = DBL_MIN;
+    double emax = -DBL_MAX;
 
     double *eval = bml_allocate_memory(sizeof(double) * 2);
 
diff --git a/src/C-interface/ellpack/bml_normalize_ellpack_typed.c b/src/C-interface/ellpack/bml_normalize_ellpack_typed.c
index 0cac81b..4ee1c3b 100644
--- a/src/C-interface/ellpack/bml_normalize_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_normalize_ellpack_typed.c
@@ -86,7 +86,7 @@ void *TYPED_FUNC(
     REAL_T radius, absham, dvalue;
 
     double emin = DBL_MAX;
-    double emax = DBL_MIN;
+    double emax = -DBL_MAX;
 
     double *eval = bml_allocate_memory(sizeof(double) * 2);
 
@@ -191,7 +191,7 @@ void *TYPED_FUNC(
     REAL_T radius, absham, dvalue;
 
     double emin = DBL_MAX;
-    double emax = DBL_MIN;
+    double emax = -DBL_MAX;
 
     double *eval = bml_allocate_memory(sizeof(double) * 2);
 
-- 
2.43.0


From 3326c745c78314bb08372c38a31a199ff3c946df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:17 +0000
Subject: [PATCH 62/85] fix: compute the number of matrix elements in floating
 point

---
 src/C-interface/csr/bml_introspection_csr_typed.c             | 2 +-
 src/C-interface/dense/bml_introspection_dense_typed.c         | 2 +-
 .../distributed2d/bml_introspection_distributed2d.c           | 4 ++--
 src/C-interface/ellblock/bml_introspection_ellblock_typed.c   | 2 +-
 src/C-interface/ellpack/bml_introspection_ellpack_typed.c     | 2 +-
 5 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/C-interface/csr/bml_introspection_csr_typed.c b/src/C-interface/csr/bml_introspection_csr_typed.c
index 4c2d941..14ba100 100644
--- a/src/C-interface/csr/bml_introspection_csr_typed.c
+++ b/src/C-interface/csr/bml_introspection_csr_typed.c
@@ -43,6 +43,6 @@ double TYPED_FUNC(
         }
     }
 
-    sparsity = (1.0 - (double) nnzs / ((double) (N * N)));
+    sparsity = (1.0 - (double) nnzs / ((double) N * N));
     return sparsity;
 }
diff --git a/src/C-interface/dense/bml_introspection_dense_typed.c b/src/C-interface/dense/bml_introspection_dense_typed.c
index 6cc16aa..39c44b2 100644
--- a/src/C-interface/dense/bml_introspection_dense_typed.c
+++ b/src/C-interface/dense/bml_introspection_dense_typed.c
@@ -118,7 +118,7 @@ double TYPED_FUNC(
 #ifdef BML_USE_MAGMA
     free(A_matrix);
 #endif
-    sparsity = (1.0 - (double) nnzs / ((double) (N * N)));
+    sparsity = (1.0 - (double) nnzs / ((double) N * N));
 
     return sparsity;
 }
diff --git a/src/C-interface/distributed2d/bml_introspection_distributed2d.c b/src/C-interface/distributed2d/bml_introspection_distributed2d.c
index df0d49e..f082673 100644
--- a/src/C-interface/distributed2d/bml_introspection_distributed2d.c
+++ b/src/C-interface/distributed2d/bml_introspection_distributed2d.c
@@ -117,10 +117,10 @@ bml_get_sparsity_distributed2d(
 {
     double sp = bml_get_sparsity(A->matrix, threshold);
     int nloc = A->N / A->nprows;
-    sp *= nloc * nloc;
+    sp *= (double) nloc * nloc;
 
     bml_sumRealReduce(&sp);
-    sp /= (A->N * A->N);
+    sp /= ((double) A->N * A->N);
 
     return sp;
 }
diff --git a/src/C-interface/ellblock/bml_introspection_ellblock_typed.c b/src/C-interface/ellblock/bml_introspection_ellblock_typed.c
index 167dafa..7ff2c5e 100644
--- a/src/C-interface/ellblock/bml_introspection_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_introspection_ellblock_typed.c
@@ -56,6 +56,6 @@ double TYPED_FUNC(
         }
     }
 
-    sparsity = (1.0 - (double) nnzs / ((double) (A->N * A->N)));
+    sparsity = (1.0 - (double) nnzs / ((double) A->N * A->N));
     return sparsity;
 }
diff --git a/src/C-interface/ellpack/bml_introspection_ellpack_typed.c b/src/C-interface/ellpack/bml_introspection_ellpack_typed.c
index e6b8a7c..fe9f411 100644
--- a/src/C-interface/ellpack/bml_introspection_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_introspection_ellpack_typed.c
@@ -49,6 +49,6 @@ double TYPED_FUNC(
         }
     }
 
-    sparsity = (1.0 - (double) nnzs / ((double) (A_N * A_N)));
+    sparsity = (1.0 - (double) nnzs / ((double) A_N * A_N));
     return sparsity;
 }
-- 
2.43.0


From f5bf79e24f4de4b05b7e95598f48f3125eb301ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:18 +0000
Subject: [PATCH 63/85] fix: pass a scalar of the element type to
 bml_scale_inplace

---
 src/C-interface/csr/bml_add_csr_typed.c           | 3 ++-
 src/C-interface/ellblock/bml_add_ellblock_typed.c | 3 ++-
 src/C-interface/ellpack/bml_add_ellpack_typed.c   | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/C-interface/csr/bml_add_csr_typed.c b/src/C-interface/csr/bml_add_csr_typed.c
index 94366d4..6c8a046 100644
--- a/src/C-interface/csr/bml_add_csr_typed.c
+++ b/src/C-interface/csr/bml_add_csr_typed.c
@@ -192,7 +192,8 @@ void TYPED_FUNC(
     double threshold)
 {
     // scale then update diagonal
-    TYPED_FUNC(bml_scale_inplace_csr) (&alpha, A);
+    REAL_T alpha_ = (REAL_T) alpha;
+    TYPED_FUNC(bml_scale_inplace_csr) (&alpha_, A);
 
     TYPED_FUNC(bml_add_identity_csr) (A, beta, threshold);
 }
diff --git a/src/C-interface/ellblock/bml_add_ellblock_typed.c b/src/C-interface/ellblock/bml_add_ellblock_typed.c
index 58bfa4b..5d34fd0 100644
--- a/src/C-interface/ellblock/bml_add_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_add_ellblock_typed.c
@@ -411,7 +411,8 @@ void TYPED_FUNC(
     double threshold)
 {
     // scale then update diagonal
-    TYPED_FUNC(bml_scale_inplace_ellblock) (&alpha, A);
+    REAL_T alpha_ = (REAL_T) alpha;
+    TYPED_FUNC(bml_scale_inplace_ellblock) (&alpha_, A);
 
     TYPED_FUNC(bml_add_identity_ellblock) (A, beta, threshold);
 }
diff --git a/src/C-interface/ellpack/bml_add_ellpack_typed.c b/src/C-interface/ellpack/bml_add_ellpack_typed.c
index 22a9ccf..da75e92 100644
--- a/src/C-interface/ellpack/bml_add_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_add_ellpack_typed.c
@@ -587,7 +587,8 @@ void TYPED_FUNC(
     double threshold)
 {
     // scale then update diagonal
-    TYPED_FUNC(bml_scale_inplace_ellpack) (&alpha, A);
+    REAL_T alpha_ = (REAL_T) alpha;
+    TYPED_FUNC(bml_scale_inplace_ellpack) (&alpha_, A);
 
     TYPED_FUNC(bml_add_identity_ellpack) (A, beta, threshold);
 }
-- 
2.43.0


From 98c1550e7d560c533a8f63e8c02bedff8ba372bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:18 +0000
Subject: [PATCH 64/85] fix: do not square the squared norm of an ellblock

---
 src/C-interface/ellblock/bml_add_ellblock_typed.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/C-interface/ellblock/bml_add_ellblock_typed.c b/src/C-interface/ellblock/bml_add_ellblock_typed.c
index 5d34fd0..2e2caf7 100644
--- a/src/C-interface/ellblock/bml_add_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_add_ellblock_typed.c
@@ -329,7 +329,7 @@ double TYPED_FUNC(
                 (x[jb], bsize[ib], bsize[jb], bsize[jb]);
             REAL_T normy = TYPED_FUNC(bml_sum_squares)
                 (y[jb], bsize[ib], bsize[jb], bsize[jb]);
-            trnorm += normy * normy;
+            trnorm += normy;
             if (is_above_threshold(normx, threshold))
             {
                 if (ll >= MB)
-- 
2.43.0


From 64be06c390cdb2fdd86b293bf7369537ff97d908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:18 +0000
Subject: [PATCH 65/85] fix: do not count elements twice in bml_fnorm2_ellpack

---
 src/C-interface/ellpack/bml_norm_ellpack_typed.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/C-interface/ellpack/bml_norm_ellpack_typed.c b/src/C-interface/ellpack/bml_norm_ellpack_typed.c
index e5d7a7c..da865af 100644
--- a/src/C-interface/ellpack/bml_norm_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_norm_ellpack_typed.c
@@ -426,19 +426,18 @@ double TYPED_FUNC(
 
         for (int j = 0; j < B_nnz[i]; j++)
         {
-            rvalue = 0.0;
+            int found = 0;
             for (int k = 0; k < A_nnz[i]; k++)
             {
                 if (A_index[ROWMAJOR(i, k, N, M)] ==
                     B_index[ROWMAJOR(i, j, N, B_M)])
                 {
-                    rvalue = A_value[ROWMAJOR(i, k, N, M)];
+                    found = 1;
                     break;
                 }
-                rvalue = 0.0;
             }
 
-            if (rvalue == 0.0)
+            if (!found)
             {
                 temp = B_value[ROWMAJOR(i, j, N, B_M)];
                 fnorm += temp * COMPLEX_CONJUGATE(temp);
-- 
2.43.0


From 3b09d2f015b11156b3db8fcf1dffd99fcf441913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:18 +0000
Subject: [PATCH 66/85] fix: sum the signed products in bml_sum_AB_ellblock

---
 src/C-interface/ellblock/bml_norm_ellblock_typed.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/C-interface/ellblock/bml_norm_ellblock_typed.c b/src/C-interface/ellblock/bml_norm_ellblock_typed.c
index bae708e..58c8435 100644
--- a/src/C-interface/ellblock/bml_norm_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_norm_ellblock_typed.c
@@ -147,11 +147,10 @@ double TYPED_FUNC(
 
         for (int jp = 0; jp < lb; jp++)
         {
-            double normx = TYPED_FUNC(bml_sum_AB)
-                (y_ptr[jjb[jp]], bsize[ib], bsize[jjb[jp]], bsize[jjb[jp]]);
-
-            if (normx > threshold * threshold)
-                sum += normx;
+            REAL_T *y_value = y_ptr[jjb[jp]];
+            for (int ii = 0; ii < bsize[ib] * bsize[jjb[jp]]; ii++)
+                if (ABS(y_value[ii]) > threshold)
+                    sum += y_value[ii];
         }
     }
 
-- 
2.43.0


From 84e70101683018a9a7d3e6b6cde0cb7b8c26cd42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:08 +0000
Subject: [PATCH 67/85] fix: size the scratch blocks of bml_add_norm_ellblock
 by the block sizes

---
 src/C-interface/ellblock/bml_add_ellblock_typed.c | 13 +++++++++----
 src/C-interface/ellblock/bml_types_ellblock.h     |  2 --
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/C-interface/ellblock/bml_add_ellblock_typed.c b/src/C-interface/ellblock/bml_add_ellblock_typed.c
index 2e2caf7..c70e812 100644
--- a/src/C-interface/ellblock/bml_add_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_add_ellblock_typed.c
@@ -242,17 +242,22 @@ double TYPED_FUNC(
 
     memset(ix, 0, NB * sizeof(int));
     memset(jx, 0, NB * sizeof(int));
-    x[0] = (REAL_T *) calloc(BMAXSIZE * NB, sizeof(REAL_T));
+    int maxbsize = 0;
+    for (int ib = 0; ib < NB; ib++)
+        maxbsize = MAX(maxbsize, bsize[ib]);
+    int maxbsize2 = maxbsize * maxbsize;
+
+    x[0] = (REAL_T *) calloc(maxbsize2 * NB, sizeof(REAL_T));
     for (int i = 1; i < NB; i++)
     {
-        x[i] = x[0] + i * BMAXSIZE;
+        x[i] = x[0] + i * maxbsize2;
     }
 
     REAL_T *y[NB];
-    y[0] = (REAL_T *) calloc(BMAXSIZE * NB, sizeof(REAL_T));
+    y[0] = (REAL_T *) calloc(maxbsize2 * NB, sizeof(REAL_T));
     for (int i = 1; i < NB; i++)
     {
-        y[i] = y[0] + i * BMAXSIZE;
+        y[i] = y[0] + i * maxbsize2;
     }
 
 
diff --git a/src/C-interface/ellblock/bml_types_ellblock.h b/src/C-interface/ellblock/bml_types_ellblock.h
index b078cf6..289a93e 100644
--- a/src/C-interface/ellblock/bml_types_ellblock.h
+++ b/src/C-interface/ellblock/bml_types_ellblock.h
@@ -53,6 +53,4 @@ struct bml_matrix_ellblock_t
 };
 typedef struct bml_matrix_ellblock_t bml_matrix_ellblock_t;
 
-#define BMAXSIZE 25
-
 #endif
-- 
2.43.0


From db7857c8dbe34cf4069e64827ebf28d923c57bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:08 +0000
Subject: [PATCH 68/85] fix: multiply ellblock blocks larger than 6

---
 .../ellblock/bml_multiply_ellblock_typed.c    | 40 +++++++++++++++++--
 1 file changed, 36 insertions(+), 4 deletions(-)

diff --git a/src/C-interface/ellblock/bml_multiply_ellblock_typed.c b/src/C-interface/ellblock/bml_multiply_ellblock_typed.c
index 0e64a76..a882c14 100644
--- a/src/C-interface/ellblock/bml_multiply_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_multiply_ellblock_typed.c
@@ -167,6 +167,26 @@ void TYPED_FUNC(
     }
 }
 
+/* Product of blocks of any size */
+void TYPED_FUNC(
+    bml_multiply_block) (
+    REAL_T * mat0,
+    REAL_T * mat1,
+    const int ld,
+    REAL_T * x,
+    const int bsizeib,
+    const int bsizekb)
+{
+    for (int ii = 0; ii < bsizeib; ii++)
+        for (int jj = 0; jj < bsizekb; jj++)
+        {
+            REAL_T sum = 0.;
+            for (int k = 0; k < ld; k++)
+                sum += mat0[ld * ii + k] * mat1[ld * jj + k];
+            x[bsizekb * ii + jj] += sum;
+        }
+}
+
 /** Matrix multiply.
  *
  * \f$ C \leftarrow \alpha A \, B + \beta C \f$
@@ -379,8 +399,14 @@ void *TYPED_FUNC(
                         T_value_right[jj * bsizejb + ii]
                             = X_value_right[offset + jj];
                 }
-                (*fun_ptr_arr[bsizejb - 1]) (X_value_left, T_value_right,
-                                             bsizejb, x, bsize[ib], bsizekb);
+                if (bsizejb <= 6)
+                    (*fun_ptr_arr[bsizejb - 1]) (X_value_left, T_value_right,
+                                                 bsizejb, x, bsize[ib],
+                                                 bsizekb);
+                else
+                    TYPED_FUNC(bml_multiply_block) (X_value_left,
+                                                    T_value_right, bsizejb, x,
+                                                    bsize[ib], bsizekb);
 #else
                 REAL_T alpha = (REAL_T) 1.;
                 REAL_T beta = (REAL_T) 1.;
@@ -583,8 +609,14 @@ void TYPED_FUNC(
                         T_value_right[jj * bsizejb + ii]
                             = B_value[offset + jj];
                 }
-                (*fun_ptr_arr[bsizejb - 1]) (A_value, T_value_right,
-                                             bsizejb, x, bsize[ib], bsizekb);
+                if (bsizejb <= 6)
+                    (*fun_ptr_arr[bsizejb - 1]) (A_value, T_value_right,
+                                                 bsizejb, x, bsize[ib],
+                                                 bsizekb);
+                else
+                    TYPED_FUNC(bml_multiply_block) (A_value, T_value_right,
+                                                    bsizejb, x, bsize[ib],
+                                                    bsizekb);
             }
         }
 
-- 
2.43.0


From 75718e650e97c7378da3ea2acdeb0be9051e6c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:08 +0000
Subject: [PATCH 69/85] fix: return the norm of A - B from bml_add_norm for
 every format and element type

---
 src/C-interface/dense/bml_add_dense_typed.c     | 7 +++++--
 src/C-interface/ellpack/bml_add_ellpack_typed.c | 2 +-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/C-interface/dense/bml_add_dense_typed.c b/src/C-interface/dense/bml_add_dense_typed.c
index 95938b0..d3e8ecb 100644
--- a/src/C-interface/dense/bml_add_dense_typed.c
+++ b/src/C-interface/dense/bml_add_dense_typed.c
@@ -160,6 +160,7 @@ double TYPED_FUNC(
     double beta)
 {
     double trnorm = 0.0;
+    REAL_T *A_matrix = (REAL_T *) A->matrix;
     REAL_T *B_matrix = (REAL_T *) B->matrix;
     int myRank = bml_getMyRank();
     int N = A->N;
@@ -168,14 +169,16 @@ double TYPED_FUNC(
     int *A_localRowMax = A->domain->localRowMax;
 
 #pragma omp parallel for                                \
-  shared(B_matrix, A_localRowMin, A_localRowMax)        \
+  shared(A_matrix, B_matrix)                            \
+  shared(A_localRowMin, A_localRowMax)                  \
   shared(N, myRank)                                     \
   reduction(+:trnorm)
     //for (int i = 0; i < N * N; i++)
     for (int i = A_localRowMin[myRank] * N; i < A_localRowMax[myRank] * N;
          i++)
     {
-        trnorm += B_matrix[i] * B_matrix[i];
+        REAL_T temp = A_matrix[i] - B_matrix[i];
+        trnorm += temp * COMPLEX_CONJUGATE(temp);
     }
 
     TYPED_FUNC(bml_add_dense) (A, B, alpha, beta);
diff --git a/src/C-interface/ellpack/bml_add_ellpack_typed.c b/src/C-interface/ellpack/bml_add_ellpack_typed.c
index da75e92..15afcb1 100644
--- a/src/C-interface/ellpack/bml_add_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_add_ellpack_typed.c
@@ -389,7 +389,7 @@ double TYPED_FUNC(
         {
             int jind = jx[jp];
             REAL_T xTmp = x[jind];
-            trnorm += y[jind] * y[jind];
+            trnorm += y[jind] * COMPLEX_CONJUGATE(y[jind]);
             if (is_above_threshold(xTmp, threshold))
             {
                 if (ll >= A_M)
-- 
2.43.0


From f669c37411fd452c4c01abf130065f7c3db4adf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:55 +0000
Subject: [PATCH 70/85] fix: scale the local rows of an ellpack matrix

---
 src/C-interface/ellpack/bml_scale_ellpack_typed.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/C-interface/ellpack/bml_scale_ellpack_typed.c b/src/C-interface/ellpack/bml_scale_ellpack_typed.c
index afc5f62..c389e82 100644
--- a/src/C-interface/ellpack/bml_scale_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_scale_ellpack_typed.c
@@ -80,7 +80,7 @@ void TYPED_FUNC(
 #else
     int myRank = bml_getMyRank();
     int nElems = B->domain->localRowExtent[myRank] * B->M;
-    int startIndex = B->domain->localDispl[myRank];
+    int startIndex = B->domain->localRowMin[myRank] * B->M;
     int inc = 1;
     C_BLAS(SCAL) (&nElems, scale_factor, &(B_value[startIndex]), &inc);
 #endif
@@ -114,7 +114,7 @@ void TYPED_FUNC(
 #else
     int myRank = bml_getMyRank();
     int number_elements = A->domain->localRowExtent[myRank] * A->M;
-    int startIndex = A->domain->localDispl[myRank];
+    int startIndex = A->domain->localRowMin[myRank] * A->M;
     int inc = 1;
     C_BLAS(SCAL) (&number_elements, scale_factor, &(A_value[startIndex]),
                   &inc);
-- 
2.43.0


From 5222e264b6ad4597b185f8af8e57efe0367cf0d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:23 +0000
Subject: [PATCH 71/85] fix: return zeros for an empty row from
 bml_getVector_ellpack

---
 src/C-interface/ellpack/bml_submatrix_ellpack_typed.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/C-interface/ellpack/bml_submatrix_ellpack_typed.c b/src/C-interface/ellpack/bml_submatrix_ellpack_typed.c
index c492182..c1a084c 100644
--- a/src/C-interface/ellpack/bml_submatrix_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_submatrix_ellpack_typed.c
@@ -391,6 +391,7 @@ void *TYPED_FUNC(
 
     for (int i = 0; i < colCnt; i++)
     {
+        rvalue[i] = ZERO;
         for (int j = 0; j < A_nnz[irow]; j++)
         {
             if (A_index[ROWMAJOR(irow, j, A_N, A_M)] == jj[i])
@@ -398,7 +399,6 @@ void *TYPED_FUNC(
                 rvalue[i] = A_value[ROWMAJOR(irow, j, A_N, A_M)];
                 break;
             }
-            rvalue[i] = ZERO;
         }
     }
     return rvalue;
-- 
2.43.0


From 576c0eecd084989f9aa5e6aad09d48fe77c81673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:36 +0000
Subject: [PATCH 72/85] fix: reorder the rows of a dense matrix too

---
 src/C-interface/dense/bml_copy_dense_typed.c | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/src/C-interface/dense/bml_copy_dense_typed.c b/src/C-interface/dense/bml_copy_dense_typed.c
index 8130f79..41d4dfa 100644
--- a/src/C-interface/dense/bml_copy_dense_typed.c
+++ b/src/C-interface/dense/bml_copy_dense_typed.c
@@ -125,22 +125,14 @@ void TYPED_FUNC(
 // pull from GPU
 #pragma omp target update from(A_matrix[0:N*N])
 #endif
-    // Reorder rows - need to copy
-#pragma omp parallel for
-    for (int i = 0; i < N; i++)
-    {
-        memcpy(&A_matrix[ROWMAJOR(perm[i], 0, N, N)],
-               &B_matrix[ROWMAJOR(i, 0, N, N)], N * sizeof(REAL_T));
-    }
-
-    // Reorder elements in each row - just change index
+    // Reorder rows and the elements in each row
 #pragma omp parallel for
     for (int i = 0; i < N; i++)
     {
         for (int j = 0; j < N; j++)
         {
-            A_matrix[ROWMAJOR(i, j, N, N)] =
-                B_matrix[ROWMAJOR(i, perm[j], N, N)];
+            A_matrix[ROWMAJOR(perm[i], perm[j], N, N)] =
+                B_matrix[ROWMAJOR(i, j, N, N)];
         }
     }
 #ifdef MKL_GPU
-- 
2.43.0


From f44b1797ec58e1f97a2ae8b04e3e9857a06511c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:48 +0000
Subject: [PATCH 73/85] fix: size the blocks assigned from B by the block sizes
 of B

---
 src/C-interface/ellblock/bml_submatrix_ellblock_typed.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/C-interface/ellblock/bml_submatrix_ellblock_typed.c b/src/C-interface/ellblock/bml_submatrix_ellblock_typed.c
index 6d93cdc..1dcd50d 100644
--- a/src/C-interface/ellblock/bml_submatrix_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_submatrix_ellblock_typed.c
@@ -163,7 +163,7 @@ void TYPED_FUNC(
             {
                 LOG_ERROR("Number of non-zero blocks per row > MB, Increase MB\n");
             }
-            int nelements = bsize[ib] * bsize[jb];
+            int nelements = B->bsize[ib] * B->bsize[jb];
             int indA = ROWMAJOR(ib + irowb, A_nnzb[ib + irowb], A_NB, A_MB);
             int indB = ROWMAJOR(ib, jp, B_NB, B_MB);
             A_ptr_value[indA] =
-- 
2.43.0


From f06e1692e9e086f85401e95d7c3bf1b2817c3a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:55 +0000
Subject: [PATCH 74/85] fix: return the traces from bml_multiply_x2 of
 distributed2d matrices

---
 src/C-interface/bml_multiply.c                           | 2 +-
 .../distributed2d/bml_multiply_distributed2d.c           | 9 ++++++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/C-interface/bml_multiply.c b/src/C-interface/bml_multiply.c
index 463852b..7b4e638 100644
--- a/src/C-interface/bml_multiply.c
+++ b/src/C-interface/bml_multiply.c
@@ -90,7 +90,7 @@ bml_multiply_x2(
             break;
 #ifdef BML_USE_MPI
         case distributed2d:
-            bml_multiply_x2_distributed2d(X, X2, threshold);
+            return bml_multiply_x2_distributed2d(X, X2, threshold);
             break;
 #endif
         default:
diff --git a/src/C-interface/distributed2d/bml_multiply_distributed2d.c b/src/C-interface/distributed2d/bml_multiply_distributed2d.c
index b1c9ed1..834445f 100644
--- a/src/C-interface/distributed2d/bml_multiply_distributed2d.c
+++ b/src/C-interface/distributed2d/bml_multiply_distributed2d.c
@@ -1,7 +1,9 @@
+#include "../bml_allocate.h"
 #include "../bml_logger.h"
 #include "../bml_multiply.h"
 #include "../bml_types.h"
 #include "bml_multiply_distributed2d.h"
+#include "bml_trace_distributed2d.h"
 
 #include <stdio.h>
 #include <stdlib.h>
@@ -95,7 +97,12 @@ bml_multiply_x2_distributed2d(
             LOG_ERROR("unknown precision\n");
             break;
     }
-    return NULL;
+
+    double *trace = bml_allocate_memory(sizeof(double) * 2);
+    trace[0] = bml_trace_distributed2d(X);
+    trace[1] = bml_trace_distributed2d(X2);
+
+    return trace;
 }
 
 /** Matrix multiply.
-- 
2.43.0


From e9c2c2c3fbabecacbb000da21abe914528ce9931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:32 +0000
Subject: [PATCH 75/85] fix: honour 'symmetric' and check the indices of Matrix
 Market files

---
 src/C-interface/csr/bml_utilities_csr_typed.c |  4 +++
 .../dense/bml_utilities_dense_typed.c         | 25 ++++++++++++++-----
 2 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/C-interface/csr/bml_utilities_csr_typed.c b/src/C-interface/csr/bml_utilities_csr_typed.c
index 6e3a0c3..cea6376 100644
--- a/src/C-interface/csr/bml_utilities_csr_typed.c
+++ b/src/C-interface/csr/bml_utilities_csr_typed.c
@@ -95,6 +95,10 @@ void TYPED_FUNC(
 
         irow--;
         icol--;
+        if (irow < 0 || irow >= A->N_ || icol < 0 || icol >= A->N_)
+        {
+            LOG_ERROR("read error, index out of range\n");
+        }
         // set new element
         TYPED_FUNC(csr_set_row_element_new) (A->data_[irow], icol, &value);
         // Set symmetric value if necessary
diff --git a/src/C-interface/dense/bml_utilities_dense_typed.c b/src/C-interface/dense/bml_utilities_dense_typed.c
index 350f292..f1c602e 100644
--- a/src/C-interface/dense/bml_utilities_dense_typed.c
+++ b/src/C-interface/dense/bml_utilities_dense_typed.c
@@ -60,6 +60,8 @@ void TYPED_FUNC(
         LOG_ERROR("Line 1, expected 5 entries, read %d\n", values_read);
     }
 
+    int symflag = strcmp(header5, "symmetric");
+
     // Read N, N, # of non-zeroes
     if ((values_read =
          fscanf(matrix_file, "%d %d %d", &hdimx, &hdimx, &nnz)) < 3)
@@ -78,7 +80,7 @@ void TYPED_FUNC(
             LOG_ERROR("Line %d, expected 3 entries, read %d\n", i + 3,
                       values_read);
         }
-        A_matrix[ROWMAJOR(irow - 1, icol - 1, N, N)] = real_part;
+        REAL_T value = real_part;
 #elif defined(DOUBLE_REAL)
         if ((values_read =
              fscanf(matrix_file, "%d %d %lg\n", &irow, &icol,
@@ -87,7 +89,7 @@ void TYPED_FUNC(
             LOG_ERROR("Line %d, expected 3 entries, read %d\n", i + 3,
                       values_read);
         }
-        A_matrix[ROWMAJOR(irow - 1, icol - 1, N, N)] = real_part;
+        REAL_T value = real_part;
 #elif defined(SINGLE_COMPLEX)
         if ((values_read =
              fscanf(matrix_file, "%d %d %lg %lg\n", &irow, &icol, &real_part,
@@ -96,8 +98,7 @@ void TYPED_FUNC(
             LOG_ERROR("Line %d, expected 4 entries, read %d\n", i + 3,
                       values_read);
         }
-        A_matrix[ROWMAJOR(irow - 1, icol - 1, N, N)] =
-            real_part + I * imaginary_part;
+        REAL_T value = real_part + I * imaginary_part;
 #elif defined(DOUBLE_COMPLEX)
         if ((values_read =
              fscanf(matrix_file, "%d %d %lg %lg\n", &irow, &icol, &real_part,
@@ -106,11 +107,23 @@ void TYPED_FUNC(
             LOG_ERROR("Line %d, expected 4 entries, read %d\n", i + 3,
                       values_read);
         }
-        A_matrix[ROWMAJOR(irow - 1, icol - 1, N, N)] =
-            real_part + I * imaginary_part;
+        REAL_T value = real_part + I * imaginary_part;
 #else
         LOG_ERROR("unknown precision\n");
 #endif
+
+        irow--;
+        icol--;
+        if (irow < 0 || irow >= N || icol < 0 || icol >= N)
+        {
+            LOG_ERROR("read error, index out of range\n");
+        }
+        A_matrix[ROWMAJOR(irow, icol, N, N)] = value;
+        // Set symmetric value if necessary
+        if (symflag == 0)
+        {
+            A_matrix[ROWMAJOR(icol, irow, N, N)] = value;
+        }
     }
 
 #ifdef BML_USE_MAGMA
-- 
2.43.0


From 638b6055ecf2670925711be5d580832b4fafeeeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:32 +0000
Subject: [PATCH 76/85] fix: write Matrix Market files that can be read back
 exactly

---
 src/C-interface/csr/bml_utilities_csr_typed.c        | 12 ++++++------
 src/C-interface/dense/bml_utilities_dense_typed.c    |  8 ++++----
 .../ellblock/bml_utilities_ellblock_typed.c          |  8 ++++----
 .../ellpack/bml_utilities_ellpack_typed.c            | 12 ++++++------
 4 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/src/C-interface/csr/bml_utilities_csr_typed.c b/src/C-interface/csr/bml_utilities_csr_typed.c
index cea6376..4f56ab3 100644
--- a/src/C-interface/csr/bml_utilities_csr_typed.c
+++ b/src/C-interface/csr/bml_utilities_csr_typed.c
@@ -144,9 +144,9 @@ void TYPED_FUNC(
 
     // Write header
 #if defined(SINGLE_REAL) || defined(DOUBLE_REAL)
-    fprintf(mFile, "%%%%%%MatrixMarket matrix coordinate real general\n");
+    fprintf(mFile, "%%%%MatrixMarket matrix coordinate real general\n");
 #elif defined(SINGLE_COMPLEX) || defined(DOUBLE_COMPLEX)
-    fprintf(mFile, "%%%%%%MatrixMarket matrix coordinate complex general\n");
+    fprintf(mFile, "%%%%MatrixMarket matrix coordinate complex general\n");
 #endif
 
     // Collect number of non-zero elements
@@ -167,17 +167,17 @@ void TYPED_FUNC(
         for (int pos = 0; pos < annz; pos++)
         {
 #if defined(SINGLE_REAL)
-            fprintf(mFile, "%d %d %20.15g\n", i + 1,
+            fprintf(mFile, "%d %d %24.17g\n", i + 1,
                     cols[pos] + 1, vals[pos]);
 #elif defined(DOUBLE_REAL)
-            fprintf(mFile, "%d %d %20.15lg\n", i + 1,
+            fprintf(mFile, "%d %d %24.17lg\n", i + 1,
                     cols[pos] + 1, REAL_PART(vals[pos]));
 #elif defined(SINGLE_COMPLEX)
-            fprintf(mFile, "%d %d %20.15g %20.15g\n", i + 1,
+            fprintf(mFile, "%d %d %24.17g %24.17g\n", i + 1,
                     cols[pos] + 1, REAL_PART(vals[pos]),
                     IMAGINARY_PART(vals[pos]));
 #elif defined(DOUBLE_COMPLEX)
-            fprintf(mFile, "%d %d %20.15lg %20.15lg\n", i + 1,
+            fprintf(mFile, "%d %d %24.17lg %24.17lg\n", i + 1,
                     cols[pos] + 1, REAL_PART(vals[pos]),
                     IMAGINARY_PART(vals[pos]));
 #else
diff --git a/src/C-interface/dense/bml_utilities_dense_typed.c b/src/C-interface/dense/bml_utilities_dense_typed.c
index f1c602e..9455370 100644
--- a/src/C-interface/dense/bml_utilities_dense_typed.c
+++ b/src/C-interface/dense/bml_utilities_dense_typed.c
@@ -179,10 +179,10 @@ void TYPED_FUNC(
     // Write header
 #if defined(SINGLE_REAL) || defined(DOUBLE_REAL)
     fprintf(matrix_file,
-            "%%%%%%MatrixMarket matrix coordinate real general\n");
+            "%%%%MatrixMarket matrix coordinate real general\n");
 #elif defined(SINGLE_COMPLEX) || defined(DOUBLE_COMPLEX)
     fprintf(matrix_file,
-            "%%%%%%MatrixMarket matrix coordinate complex general\n");
+            "%%%%MatrixMarket matrix coordinate complex general\n");
 #endif
 
     // count number of non-zero elements
@@ -208,9 +208,9 @@ void TYPED_FUNC(
             if (ABS(value) > 0.)
             {
 #if defined(SINGLE_REAL) || defined(DOUBLE_REAL)
-                fprintf(matrix_file, "%d %d %20.15g\n", i + 1, j + 1, value);
+                fprintf(matrix_file, "%d %d %24.17g\n", i + 1, j + 1, value);
 #elif defined(SINGLE_COMPLEX) || defined(DOUBLE_COMPLEX)
-                fprintf(matrix_file, "%d %d %20.15g %20.15g\n", i + 1, j + 1,
+                fprintf(matrix_file, "%d %d %24.17g %24.17g\n", i + 1, j + 1,
                         REAL_PART(value), IMAGINARY_PART(value));
 #else
                 LOG_ERROR("unknown precision\n");
diff --git a/src/C-interface/ellblock/bml_utilities_ellblock_typed.c b/src/C-interface/ellblock/bml_utilities_ellblock_typed.c
index 22fe861..7bbd73f 100644
--- a/src/C-interface/ellblock/bml_utilities_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_utilities_ellblock_typed.c
@@ -219,9 +219,9 @@ void TYPED_FUNC(
 
     // Write header
 #if defined(SINGLE_REAL) || defined(DOUBLE_REAL)
-    fprintf(mFile, "%%%%%%MatrixMarket matrix coordinate real general\n");
+    fprintf(mFile, "%%%%MatrixMarket matrix coordinate real general\n");
 #elif defined(SINGLE_COMPLEX) || defined(DOUBLE_COMPLEX)
-    fprintf(mFile, "%%%%%%MatrixMarket matrix coordinate complex general\n");
+    fprintf(mFile, "%%%%MatrixMarket matrix coordinate complex general\n");
 #else
     LOG_ERROR("unknown matrix precision\n");
 #endif
@@ -259,11 +259,11 @@ void TYPED_FUNC(
                 for (int jj = 0; jj < bsize[jb]; jj++)
                 {
 #if defined(SINGLE_REAL) || defined(DOUBLE_REAL)
-                    fprintf(mFile, "%d %d %20.15e\n", offset[ib] + 1 + ii,
+                    fprintf(mFile, "%d %d %24.16e\n", offset[ib] + 1 + ii,
                             offset[jb] + 1 + jj,
                             A_value[ROWMAJOR(ii, jj, bsize[ib], bsize[jb])]);
 #elif defined(SINGLE_COMPLEX) || defined(DOUBLE_COMPLEX)
-                    fprintf(mFile, "%d %d %20.15e %20.15e\n",
+                    fprintf(mFile, "%d %d %24.16e %24.16e\n",
                             offset[ib] + 1 + ii, offset[jb] + 1 + jj,
                             REAL_PART(A_value
                                       [ROWMAJOR
diff --git a/src/C-interface/ellpack/bml_utilities_ellpack_typed.c b/src/C-interface/ellpack/bml_utilities_ellpack_typed.c
index e415bf2..ec27a58 100644
--- a/src/C-interface/ellpack/bml_utilities_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_utilities_ellpack_typed.c
@@ -172,9 +172,9 @@ void TYPED_FUNC(
 
     // Write header
 #if defined(SINGLE_REAL) || defined(DOUBLE_REAL)
-    fprintf(mFile, "%%%%%%MatrixMarket matrix coordinate real general\n");
+    fprintf(mFile, "%%%%MatrixMarket matrix coordinate real general\n");
 #elif defined(SINGLE_COMPLEX) || defined(DOUBLE_COMPLEX)
-    fprintf(mFile, "%%%%%%MatrixMarket matrix coordinate complex general\n");
+    fprintf(mFile, "%%%%MatrixMarket matrix coordinate complex general\n");
 #endif
 
     // Collect number of non-zero elements
@@ -192,20 +192,20 @@ void TYPED_FUNC(
         for (int j = 0; j < A_nnz[i]; j++)
         {
 #if defined(SINGLE_REAL)
-            fprintf(mFile, "%d %d %20.15g\n", i + 1,
+            fprintf(mFile, "%d %d %24.17g\n", i + 1,
                     A_index[ROWMAJOR(i, j, N, M)] + 1,
                     A_value[ROWMAJOR(i, j, N, M)]);
 #elif defined(DOUBLE_REAL)
-            fprintf(mFile, "%d %d %20.15lg\n", i + 1,
+            fprintf(mFile, "%d %d %24.17lg\n", i + 1,
                     A_index[ROWMAJOR(i, j, N, M)] + 1,
                     A_value[ROWMAJOR(i, j, N, M)]);
 #elif defined(SINGLE_COMPLEX)
-            fprintf(mFile, "%d %d %20.15g %20.15g\n", i + 1,
+            fprintf(mFile, "%d %d %24.17g %24.17g\n", i + 1,
                     A_index[ROWMAJOR(i, j, N, M)] + 1,
                     REAL_PART(A_value[ROWMAJOR(i, j, N, M)]),
                     IMAGINARY_PART(A_value[ROWMAJOR(i, j, N, M)]));
 #elif defined(DOUBLE_COMPLEX)
-            fprintf(mFile, "%d %d %20.15lg %20.15lg\n", i + 1,
+            fprintf(mFile, "%d %d %24.17lg %24.17lg\n", i + 1,
                     A_index[ROWMAJOR(i, j, N, M)] + 1,
                     REAL_PART(A_value[ROWMAJOR(i, j, N, M)]),
                     IMAGINARY_PART(A_value[ROWMAJOR(i, j, N, M)]));
-- 
2.43.0


From 3f43a59c2cffd68c3b23bbb162f75245fb437c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:31 +0000
Subject: [PATCH 77/85] fix: return the eigenvectors of A, not of its
 conjugate, for complex dense matrices

---
 src/C-interface/dense/bml_diagonalize_dense.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/C-interface/dense/bml_diagonalize_dense.c b/src/C-interface/dense/bml_diagonalize_dense.c
index 811a33f..1ed6016 100644
--- a/src/C-interface/dense/bml_diagonalize_dense.c
+++ b/src/C-interface/dense/bml_diagonalize_dense.c
@@ -755,13 +755,14 @@ bml_diagonalize_dense_single_complex(
     }
 #endif
     A_matrix = (float complex *) eigenvectors->matrix;
+    // the routine was given the transpose, which is the conjugate of A
     for (int i = 0; i < A->N; i++)
     {
         typed_eigenvalues[i] = (double) evals[i];
         for (int j = 0; j < A->N; j++)
         {
             A_matrix[ROWMAJOR(i, j, A->N, A->N)] =
-                evecs[COLMAJOR(i, j, A->N, A->N)];
+                conjf(evecs[COLMAJOR(i, j, A->N, A->N)]);
         }
     }
 
@@ -867,13 +868,14 @@ bml_diagonalize_dense_double_complex(
     }
 #endif
     A_matrix = (double complex *) eigenvectors->matrix;
+    // the routine was given the transpose, which is the conjugate of A
     for (int i = 0; i < A->N; i++)
     {
         typed_eigenvalues[i] = (double) evals[i];
         for (int j = 0; j < A->N; j++)
         {
             A_matrix[ROWMAJOR(i, j, A->N, A->N)] =
-                evecs[COLMAJOR(i, j, A->N, A->N)];
+                conj(evecs[COLMAJOR(i, j, A->N, A->N)]);
         }
     }
 
-- 
2.43.0


From c4104638361636a40c13f713fe3631e704d01c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:31 +0000
Subject: [PATCH 78/85] fix: transpose every block handed to ScaLAPACK

---
 .../distributed2d/bml_diagonalize_distributed2d_typed.c   | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/C-interface/distributed2d/bml_diagonalize_distributed2d_typed.c b/src/C-interface/distributed2d/bml_diagonalize_distributed2d_typed.c
index 0785fcd..9290014 100644
--- a/src/C-interface/distributed2d/bml_diagonalize_distributed2d_typed.c
+++ b/src/C-interface/distributed2d/bml_diagonalize_distributed2d_typed.c
@@ -208,9 +208,7 @@ void TYPED_FUNC(
     }
 
     // transpose to satisfy column major ScaLapack convention
-    // (global matrix assumed symmetric, so no need for communications)
-    if (A->myprow != A->mypcol)
-        bml_transpose(amat);
+    bml_transpose(amat);
 
     REAL_T *pzmat = bml_get_data_ptr(zmat);
     assert(pzmat != NULL);
@@ -403,9 +401,7 @@ void TYPED_FUNC(
     }
 
     // transpose to satisfy column major ELPA convention
-    // (global matrix assumed symmetric, so no need for communications)
-    if (A->myprow != A->mypcol)
-        bml_transpose(amat);
+    bml_transpose(amat);
 
     REAL_T *z = bml_get_data_ptr(zmat);
     assert(z != NULL);
-- 
2.43.0


From 1bda57c002ff8477d942009e190a519bd72929e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:48 +0000
Subject: [PATCH 79/85] fix: dispatch bml_fnorm2, bandwidths and distribution
 mode to all formats that implement them

---
 src/C-interface/bml_introspection.c | 14 ++++++++++++++
 src/C-interface/bml_norm.c          |  8 ++++++++
 2 files changed, 22 insertions(+)

diff --git a/src/C-interface/bml_introspection.c b/src/C-interface/bml_introspection.c
index c5470fa..1c6b5bf 100644
--- a/src/C-interface/bml_introspection.c
+++ b/src/C-interface/bml_introspection.c
@@ -225,6 +225,9 @@ bml_get_row_bandwidth(
         case ellpack:
             return bml_get_row_bandwidth_ellpack(A, i);
             break;
+        case ellblock:
+            return bml_get_row_bandwidth_ellblock(A, i);
+            break;
         case csr:
             return bml_get_row_bandwidth_csr(A, i);
             break;
@@ -252,6 +255,9 @@ bml_get_bandwidth(
         case ellpack:
             return bml_get_bandwidth_ellpack(A);
             break;
+        case ellblock:
+            return bml_get_bandwidth_ellblock(A);
+            break;
         case csr:
             return bml_get_bandwidth_csr(A);
             break;
@@ -279,9 +285,17 @@ bml_get_distribution_mode(
         case ellpack:
             return bml_get_distribution_mode_ellpack(A);
             break;
+        case ellblock:
+            return bml_get_distribution_mode_ellblock(A);
+            break;
         case csr:
             return bml_get_distribution_mode_csr(A);
             break;
+#ifdef BML_USE_MPI
+        case distributed2d:
+            return bml_get_distribution_mode_distributed2d(A);
+            break;
+#endif
         default:
             LOG_ERROR("unknown matrix type in bml_get_distribution_mode\n");
             break;
diff --git a/src/C-interface/bml_norm.c b/src/C-interface/bml_norm.c
index 60252fb..c6c2835 100644
--- a/src/C-interface/bml_norm.c
+++ b/src/C-interface/bml_norm.c
@@ -227,9 +227,17 @@ bml_fnorm2(
         case ellpack:
             return bml_fnorm2_ellpack(A, B);
             break;
+        case ellblock:
+            return bml_fnorm2_ellblock(A, B);
+            break;
         case csr:
             return bml_fnorm2_csr(A, B);
             break;
+#ifdef BML_USE_MPI
+        case distributed2d:
+            return bml_fnorm2_distributed2d(A, B);
+            break;
+#endif
         default:
             LOG_ERROR("unknown matrix type\n");
             break;
-- 
2.43.0


From 59c3d7ebda1019543174ad938904b0f2d3db895b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:05 +0000
Subject: [PATCH 80/85] fix: pass non-contiguous array sections through a
 contiguous copy

---
 src/Fortran-interface/bml_import_m.F90          | 8 ++++----
 src/Fortran-interface/bml_utilities_typed_m.F90 | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/Fortran-interface/bml_import_m.F90 b/src/Fortran-interface/bml_import_m.F90
index 9c80ca9..25f504a 100644
--- a/src/Fortran-interface/bml_import_m.F90
+++ b/src/Fortran-interface/bml_import_m.F90
@@ -32,7 +32,7 @@ contains
        & m, distrib_mode)
 
     character(len=*), intent(in) :: matrix_type
-    real(C_FLOAT), target, intent(in) :: a_dense(:, :)
+    real(C_FLOAT), contiguous, target, intent(in) :: a_dense(:, :)
     type(bml_matrix_t), intent(inout) :: a
     real(C_DOUBLE), optional, intent(in) :: threshold
     integer, optional, intent(in) :: m
@@ -93,7 +93,7 @@ contains
        & m, distrib_mode)
 
     character(len=*), intent(in) :: matrix_type
-    real(C_DOUBLE), target, intent(in) :: a_dense(:, :)
+    real(C_DOUBLE), contiguous, target, intent(in) :: a_dense(:, :)
     type(bml_matrix_t), intent(inout) :: a
     real(C_DOUBLE), optional, intent(in) :: threshold
     integer, optional, intent(in) :: m
@@ -153,7 +153,7 @@ contains
   subroutine bml_import_from_dense_single_complex(matrix_type, a_dense, a, threshold, m, distrib_mode)
 
     character(len=*), intent(in) :: matrix_type
-    complex(C_FLOAT_COMPLEX), target, intent(in) :: a_dense(:, :)
+    complex(C_FLOAT_COMPLEX), contiguous, target, intent(in) :: a_dense(:, :)
     type(bml_matrix_t), intent(inout) :: a
     real(C_DOUBLE), optional, intent(in) :: threshold
     integer, optional, intent(in) :: m
@@ -213,7 +213,7 @@ contains
   subroutine bml_import_from_dense_double_complex(matrix_type, a_dense, a, threshold, m, distrib_mode)
 
     character(len=*), intent(in) :: matrix_type
-    complex(C_DOUBLE_COMPLEX), target, intent(in) :: a_dense(:, :)
+    complex(C_DOUBLE_COMPLEX), contiguous, target, intent(in) :: a_dense(:, :)
     type(bml_matrix_t), intent(inout) :: a
     real(C_DOUBLE), optional, intent(in) :: threshold
     integer, optional, intent(in) :: m
diff --git a/src/Fortran-interface/bml_utilities_typed_m.F90 b/src/Fortran-interface/bml_utilities_typed_m.F90
index d62ac3b..68a7069 100644
--- a/src/Fortran-interface/bml_utilities_typed_m.F90
+++ b/src/Fortran-interface/bml_utilities_typed_m.F90
@@ -29,7 +29,7 @@ contains
   subroutine bml_print_dense_matrix_MATRIX_TYPE(tag, a, i_l, i_u, j_l, j_u)
 
     character(len=*), intent(in) :: tag
-    REAL_TYPE, target, intent(in) :: a(:, :)
+    REAL_TYPE, contiguous, target, intent(in) :: a(:, :)
     integer(C_INT), intent(in) :: i_l
     integer(C_INT), intent(in) :: i_u
     integer(C_INT), intent(in) :: j_l
-- 
2.43.0


From 1d7c858357bdb9215e7ec20d96b5107e53b8e32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:18 +0000
Subject: [PATCH 81/85] fix: decode the C identifiers of csr, graph_distributed
 and the complex types

---
 src/Fortran-interface/bml_introspection_m.F90 | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/Fortran-interface/bml_introspection_m.F90 b/src/Fortran-interface/bml_introspection_m.F90
index bbd87d5..1f32271 100644
--- a/src/Fortran-interface/bml_introspection_m.F90
+++ b/src/Fortran-interface/bml_introspection_m.F90
@@ -96,8 +96,10 @@ contains
       bml_get_type = "ellpack"
     case(3)
       bml_get_type = "ellblock"
-    case(5)
+    case(4)
       bml_get_type = "csr"
+    case(5)
+      bml_get_type = "distributed2d"
     case default
       stop 'Unknown matrix type in bml_get_type'
     end select
@@ -125,7 +127,7 @@ contains
       bml_get_deep_type = "ellpack"
     case(3)
       bml_get_deep_type = "ellblock"
-    case(5)
+    case(4)
       bml_get_deep_type = "csr"
     case default
       stop 'Unknown matrix type in bml_get_deep_type'
@@ -166,9 +168,9 @@ contains
     select case(bml_precision_id)
     case(0)
       stop 'Type/precision elements not initialized'
-    case(1)
+    case(1,3)
       bml_get_element_precision = kind(1.0)
-    case(2)
+    case(2,4)
       bml_get_element_precision = kind(1.0d0)
     case default
       stop 'Unknown elements type/precision'
@@ -223,7 +225,7 @@ contains
       bml_get_distribution_mode = "sequential"
     case(1)
       bml_get_distribution_mode = "distributed"
-    case(3)
+    case(2)
       bml_get_distribution_mode = "graph_distributed"
     case default
       stop 'Unknown distribution type in bml_get_distribution_mode'
-- 
2.43.0


From fa04db8b3cbd1fc6bf28f5fb58e5c03fb632a126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:18 +0000
Subject: [PATCH 82/85] fix: stop when the element type or kind is unknown

---
 src/Fortran-interface/bml_interface_m.F90 | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Fortran-interface/bml_interface_m.F90 b/src/Fortran-interface/bml_interface_m.F90
index b0fb9e0..28abf52 100644
--- a/src/Fortran-interface/bml_interface_m.F90
+++ b/src/Fortran-interface/bml_interface_m.F90
@@ -137,6 +137,7 @@ contains
         id = bml_matrix_precision_double_real_enum_id
       case default
         print "(A,1X,I0)", "Unknown element kind:", element_kind
+        error stop
       end select
 
     case (BML_ELEMENT_COMPLEX)
@@ -147,10 +148,12 @@ contains
         id = bml_matrix_precision_double_complex_enum_id
       case default
         print "(A,1X,I0)", "Unknown element kind:", element_kind
+        error stop
       end select
 
     case default
       print "(A,1X,A)", "Unknown element type:", element_type
+      error stop
 
     end select
 
-- 
2.43.0


From ddecd840b07dad5c6fe3cfa5e0f0ca260dd13f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:50 +0000
Subject: [PATCH 83/85] fix: dense matrix addition starts at the first element
 of the rank's rows

---
 src/C-interface/dense/bml_add_dense_typed.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/C-interface/dense/bml_add_dense_typed.c b/src/C-interface/dense/bml_add_dense_typed.c
index d3e8ecb..7c568d4 100644
--- a/src/C-interface/dense/bml_add_dense_typed.c
+++ b/src/C-interface/dense/bml_add_dense_typed.c
@@ -134,9 +134,10 @@ void TYPED_FUNC(
 #ifdef NOBLAS
     LOG_ERROR("No BLAS library");
 #else
-    C_BLAS(SCAL) (&nElems, &alpha_, A->matrix + startIndex, &inc);
-    C_BLAS(AXPY) (&nElems, &beta_, B->matrix + startIndex, &inc,
-                  A->matrix + startIndex, &inc);
+    REAL_T *A_matrix = (REAL_T *) A->matrix + startIndex;
+    REAL_T *B_matrix = (REAL_T *) B->matrix + startIndex;
+    C_BLAS(SCAL) (&nElems, &alpha_, A_matrix, &inc);
+    C_BLAS(AXPY) (&nElems, &beta_, B_matrix, &inc, A_matrix, &inc);
 #endif
 #endif
 }
-- 
2.43.0


From d37bcf0891a51e7f8a0f8fb09d9442c983e139fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:32 +0000
Subject: [PATCH 84/85] fix: gathering a matrix uses the element type of the
 matrix

---
 src/C-interface/dense/bml_parallel_dense_typed.c     | 2 +-
 src/C-interface/ellpack/bml_parallel_ellpack_typed.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/C-interface/dense/bml_parallel_dense_typed.c b/src/C-interface/dense/bml_parallel_dense_typed.c
index 384da6e..78798c2 100644
--- a/src/C-interface/dense/bml_parallel_dense_typed.c
+++ b/src/C-interface/dense/bml_parallel_dense_typed.c
@@ -41,7 +41,7 @@ void TYPED_FUNC(
 
     MPI_Allgatherv(MPI_IN_PLACE, 0, MPI_DATATYPE_NULL,
                    A_matrix, A_domain->localElements,
-                   A_domain->localDispl, REAL_MPI_TYPE, ccomm);
+                   A_domain->localDispl, MPI_T, ccomm);
 #endif
 }
 
diff --git a/src/C-interface/ellpack/bml_parallel_ellpack_typed.c b/src/C-interface/ellpack/bml_parallel_ellpack_typed.c
index ac3d38c..a8e9bc7 100644
--- a/src/C-interface/ellpack/bml_parallel_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_parallel_ellpack_typed.c
@@ -67,7 +67,7 @@ void TYPED_FUNC(
     // Values
     MPI_Allgatherv(MPI_IN_PLACE, 0, MPI_DATATYPE_NULL,
                    A_value, A_domain->localElements, A_domain->localDispl,
-                   REAL_MPI_TYPE, ccomm);
+                   MPI_T, ccomm);
 
 /*
     for (int i = 0; i < nRanks; i++)
-- 
2.43.0


From 325856194e34fa46f1d6cecb0eaf00291bd7d203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:30 +0000
Subject: [PATCH 85/85] fix: place the blocks of a distributed2d matrix by the
 order of the dense array

---
 .../distributed2d/bml_export_distributed2d_typed.c            | 4 +++-
 .../distributed2d/bml_import_distributed2d_typed.c            | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/C-interface/distributed2d/bml_export_distributed2d_typed.c b/src/C-interface/distributed2d/bml_export_distributed2d_typed.c
index d85ffa8..69db314 100644
--- a/src/C-interface/distributed2d/bml_export_distributed2d_typed.c
+++ b/src/C-interface/distributed2d/bml_export_distributed2d_typed.c
@@ -67,8 +67,10 @@ void *TYPED_FUNC(
             int ip = coords[0];
             int jp = coords[1];
             MPI_Wait(&request[src - 1], &status);
+            int offset = (order == dense_column_major) ?
+                N * n * jp + n * ip : N * n * ip + n * jp;
             C_BLAS(LACPY) ("A", &n, &n, recvbuf[src - 1], &n,
-                           A_dense + n * N * ip + n * jp, &N);
+                           A_dense + offset, &N);
         }
         for (int src = 1; src < ntasks; src++)
         {
diff --git a/src/C-interface/distributed2d/bml_import_distributed2d_typed.c b/src/C-interface/distributed2d/bml_import_distributed2d_typed.c
index b36f691..291a158 100644
--- a/src/C-interface/distributed2d/bml_import_distributed2d_typed.c
+++ b/src/C-interface/distributed2d/bml_import_distributed2d_typed.c
@@ -71,7 +71,9 @@ bml_matrix_distributed2d_t *TYPED_FUNC(
             // pack data into buffer
             sendbuf[dest - 1] = bml_allocate_memory(n * n * sizeof(REAL_T));
             REAL_T *array = (REAL_T *) (A);
-            C_BLAS(LACPY) ("A", &n, &n, array + N * n * ip + n * jp, &N,
+            int offset = (order == dense_column_major) ?
+                N * n * jp + n * ip : N * n * ip + n * jp;
+            C_BLAS(LACPY) ("A", &n, &n, array + offset, &N,
                            sendbuf[dest - 1], &n);
             MPI_Isend(sendbuf[dest - 1], n * n, MPI_T, dest, tag, A_bml->comm,
                       &request[dest - 1]);
-- 
2.43.0

