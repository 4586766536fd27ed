From 49bf8f6a6f51e8e432d09dbb15af71cf67ea31d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:35 +0000
Subject: [PATCH 01/47] Model checking hooks: path thresholds settable under
 SPMP_MC

---
 LevelSchedule.cpp  | 8 ++++++++
 reordering/RCM.cpp | 6 ++++++
 2 files changed, 14 insertions(+)

diff --git a/LevelSchedule.cpp b/LevelSchedule.cpp
index c40defe..05b732f 100644
--- a/LevelSchedule.cpp
+++ b/LevelSchedule.cpp
@@ -187,6 +187,12 @@ void LevelSchedule::constructTaskGraph(
 
 #define NUM_MAX_THREADS (2048)
 
+#ifdef SPMP_MC
+// model checking: number of rows below which a level is searched serially
+int mcSerialLevelThresh = 64;
+#define THRESH mcSerialLevelThresh
+#endif
+
 template<int BASE = 0>
 static
 void findLevels_(
@@ -228,7 +234,9 @@ void findLevels_(
           bar->wait(tid); // wake up other threads
           break;
         }
+#ifndef THRESH
 #define THRESH 64
+#endif
         currIterSerial = qTail[0] < THRESH*2;
         if (!currIterSerial) {
           *endSynchronized = begin;
diff --git a/reordering/RCM.cpp b/reordering/RCM.cpp
index 3672b64..ad76020 100644
--- a/reordering/RCM.cpp
+++ b/reordering/RCM.cpp
@@ -54,7 +54,13 @@ using namespace std;
 namespace SpMP
 {
 
+#ifdef SPMP_MC
+// model checking: component size from which the parallel traversal is used
+int mcParThr = 65536;
+#define PAR_THR mcParThr
+#else
 const int PAR_THR = 65536;
+#endif
 
 void findConnectedComponents(
   const CSR *A,
-- 
2.43.0


From 12847d05fbda07fc7340a2650d45c55715bbd25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:28 +0000
Subject: [PATCH 02/47] fix: transpose of a matrix without columns has no
 rowptr

---
 CSR.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/CSR.cpp b/CSR.cpp
index 96bae24..30918c9 100644
--- a/CSR.cpp
+++ b/CSR.cpp
@@ -493,6 +493,8 @@ CSR *CSR::transpose() const
   }
 
   if (0 == n) {
+    AT->rowptr = MALLOC(int, 1);
+    AT->rowptr[0] = base;
     return AT;
   }
 
-- 
2.43.0


From f5e112d27d1c88f73e012c2af168405c005257cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:01 +0000
Subject: [PATCH 03/47] fix: permuting columns only dereferenced the absent row
 permutation in debug builds

---
 Permute.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Permute.cpp b/Permute.cpp
index 7ed76ff..5626d04 100644
--- a/Permute.cpp
+++ b/Permute.cpp
@@ -34,7 +34,7 @@ namespace SpMP
 
 void CSR::permuteRowptr(CSR *ret, const int *inversePerm) const
 {
-  assert(isPerm(inversePerm, m));
+  assert(!inversePerm || isPerm(inversePerm, m));
 
   int base = getBase();
 
-- 
2.43.0


From 9c6231d8d1e9a072e6122d4dc1c3d5baf997b331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:01 +0000
Subject: [PATCH 04/47] fix: permute of a pattern-only matrix, sorted or with
 non-local columns, dereferenced missing values

---
 Permute.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Permute.cpp b/Permute.cpp
index 5626d04..2b4bd21 100644
--- a/Permute.cpp
+++ b/Permute.cpp
@@ -308,7 +308,7 @@ static void permuteMain_(
         if (in->extptr) {
           for (int j = end; j < rowptr[row + 1]; ++j, ++k) {
             newColidx[k] = colidx[j];
-            newValues[k] = values[j];
+            if (values) newValues[k] = values[j];
           }
         }
 
@@ -318,17 +318,17 @@ static void permuteMain_(
           // insertion sort
           for (int j = newBegin + 1; j < newExtptr[i]; ++j) {
             int c = newColidx[j];
-            double v = newValues[j];
+            T v = values ? newValues[j] : T();
 
             int k = j - 1;
             while (k >= newBegin && newColidx[k] > c) {
               newColidx[k + 1] = newColidx[k];
-              newValues[k + 1] = newValues[k];
+              if (values) newValues[k + 1] = newValues[k];
               --k;
             }
 
             newColidx[k + 1] = c;
-            newValues[k + 1] = v;
+            if (values) newValues[k + 1] = v;
           }
         }
 
-- 
2.43.0


From fb7db8bc7aea53eec33c403f65215e5526dbb262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:01 +0000
Subject: [PATCH 05/47] fix: permuteColsInPlace of a matrix without values, and
 its range assertions for 1-based and rectangular matrices

---
 Permute.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/Permute.cpp b/Permute.cpp
index 2b4bd21..d780770 100644
--- a/Permute.cpp
+++ b/Permute.cpp
@@ -121,7 +121,7 @@ void permuteColsInPlace_(CSR *A, const int *perm)
   int *diagptr = A->diagptr ? A->diagptr - BASE : NULL;
 
   int *colidx = A->colidx - BASE;
-  T *values = A->values - BASE;
+  T *values = A->values ? A->values - BASE : NULL;
 
   int m = A->m;
 
@@ -130,9 +130,9 @@ void permuteColsInPlace_(CSR *A, const int *perm)
     int diagCol = -1;
     for (int j = rowptr[i]; j < extptr[i]; ++j) {
       int c = colidx[j];
-      assert(c >= 0 && c < m);
+      assert(c - BASE >= 0 && c - BASE < A->n);
       colidx[j] = perm[c - BASE] + BASE;
-      assert(colidx[j] - BASE >= 0 && colidx[j] - BASE < m);
+      assert(colidx[j] - BASE >= 0 && colidx[j] - BASE < A->n);
       if (c == i) diagCol = perm[c - BASE] + BASE;
     }
 
@@ -205,17 +205,17 @@ void permuteColsInPlace_(CSR *A, const int *perm)
     else {
       for (int j = rowptr[i] + 1; j < extptr[i]; ++j) {
         int c = colidx[j];
-        double v = values[j];
+        T v = values ? values[j] : T();
 
         int k = j - 1;
         while (k >= rowptr[i] && colidx[k] > c) {
           colidx[k + 1] = colidx[k];
-          values[k + 1] = values[k];
+          if (values) values[k + 1] = values[k];
           --k;
         }
 
         colidx[k + 1] = c;
-        values[k + 1] = v;
+        if (values) values[k + 1] = v;
       }
     }
   } // for each row
-- 
2.43.0


From 0acde91ca20390f5e0355bc090c8287ab4aa8a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:01 +0000
Subject: [PATCH 06/47] fix: permuteRows of a 1-based matrix indexed the output
 rows off by one

---
 Permute.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/Permute.cpp b/Permute.cpp
index d780770..d4a5020 100644
--- a/Permute.cpp
+++ b/Permute.cpp
@@ -385,23 +385,23 @@ static void permuteRowsMain_(
 #pragma omp parallel
   {
     int iBegin, iEnd;
-    getLoadBalancedPartition(&iBegin, &iEnd, out->rowptr + BASE, m);
+    getLoadBalancedPartition(&iBegin, &iEnd, out->rowptr, m);
     iBegin += BASE;
     iEnd += BASE;
 
     for (int i = iBegin; i < iEnd; ++i) {
       int row = rowInversePerm ? rowInversePerm[i - BASE] + BASE : i;
       int begin = rowptr[row], end = rowptr[row + 1];
-      int newBegin = out->rowptr[i] - BASE;
+      int newBegin = out->rowptr[i - BASE] - BASE;
 
       if (values)
         memcpy(out->values + newBegin, values + begin, (end - begin)*sizeof(double));
       memcpy(out->colidx + newBegin, colidx + begin, (end - begin)*sizeof(int));
 
       if (diagptr)
-        out->diagptr[i] =
-          out->rowptr[i] + (diagptr[row] - rowptr[row]);
-      if (idiag) out->idiag[i] = idiag[row];
+        out->diagptr[i - BASE] =
+          out->rowptr[i - BASE] + (diagptr[row] - rowptr[row]);
+      if (idiag) out->idiag[i - BASE] = idiag[row];
     }
   }
 }
-- 
2.43.0


From a1a17b12bc4a98509a2059c3d9d9cfd05f54af70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:07 +0000
Subject: [PATCH 07/47] fix: symmetrised pattern of a 1-based matrix was
 written out of bounds and shifted

---
 SymGS.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/SymGS.cpp b/SymGS.cpp
index 956abaa..9d0df85 100644
--- a/SymGS.cpp
+++ b/SymGS.cpp
@@ -194,7 +194,7 @@ bool getSymmetricNnzPattern(
         for (int i = base; i < m + base; ++i) {
           (*symRowPtr)[i + 1] += (*symRowPtr)[i];
         }
-        *symColIdx = MALLOC(int, (*symRowPtr)[m]);
+        *symColIdx = MALLOC(int, (*symRowPtr)[m + base] - base);
         *symColIdx -= base;
 
         *symDiagPtr = MALLOC(int, m + 1);
@@ -204,6 +204,7 @@ bool getSymmetricNnzPattern(
           *symExtPtr -= base;
         }
         cnts = MALLOC(int, m);
+        cnts -= base;
       }
 
 #ifdef PRINT_TIME_BREAKDOWN
@@ -268,13 +269,16 @@ bool getSymmetricNnzPattern(
       }
 #undef PRINT_TIME_BREAKDOWN
 #endif
-
-      *symColIdx += base;
-      if (*symExtPtr) *symExtPtr += base;
     } // !isSymmetric
   } // omp parallel
 
   *symRowPtr += base;
+  if (!isSymmetric) {
+    *symColIdx += base;
+    *symDiagPtr += base;
+    if (A->extptr) *symExtPtr += base;
+    cnts += base;
+  }
 
   if (isSymmetric) {
     if (!A->useMemoryPool_()) {
-- 
2.43.0


From 41ec32d6241545ad9c1874579e3520ad8fe9d765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:07 +0000
Subject: [PATCH 08/47] fix: isSymmetric ignored the last column of 1-based
 matrices

---
 CSR.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CSR.cpp b/CSR.cpp
index 30918c9..85c8e57 100644
--- a/CSR.cpp
+++ b/CSR.cpp
@@ -191,7 +191,7 @@ bool CSR::isSymmetric(bool checkValues, bool printFirstNonSymmetry) const
       for (int i = begin; i < end; ++i) {
         for (int j = rowptr[i]; j < extptr[i]; ++j) {
           int c = colidx[j];
-          if (c != i && c >= 0 && c < m) {
+          if (c != i && c >= base && c < m + base) {
             bool hasPair = false;
             for (int k = rowptr[c]; k < extptr[c]; ++k) {
               if (colidx[k] == i) {
@@ -217,7 +217,7 @@ bool CSR::isSymmetric(bool checkValues, bool printFirstNonSymmetry) const
     for (int i = base; i < m + base; ++i) {
       for (int j = rowptr[i]; j < extptr[i]; ++j) {
         int c = colidx[j];
-        if (c != i && c >= 0 && c < m) {
+        if (c != i && c >= base && c < m + base) {
           bool hasPair = false;
           for (int k = rowptr[c]; k < extptr[c]; ++k) {
             if (colidx[k] == i) {
-- 
2.43.0


From e1e918416c8669907a04392c02f7202f9fbd0758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:07 +0000
Subject: [PATCH 09/47] fix: changing the index base left the non-local column
 pointers behind

---
 CSR.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/CSR.cpp b/CSR.cpp
index 85c8e57..d8260e7 100644
--- a/CSR.cpp
+++ b/CSR.cpp
@@ -415,6 +415,12 @@ void CSR::make0BasedIndexing()
     for (int i = 0; i < m; i++)
       diagptr[i]--;
   }
+
+  if (extptr) {
+#pragma omp parallel for
+    for (int i = 0; i < m; i++)
+      extptr[i]--;
+  }
 }
 
 void CSR::make1BasedIndexing()
@@ -436,6 +442,12 @@ void CSR::make1BasedIndexing()
     for (int i = 0; i < m; i++)
       diagptr[i]++;
   }
+
+  if (extptr) {
+#pragma omp parallel for
+    for (int i = 0; i < m; i++)
+      extptr[i]++;
+  }
 }
 
 void CSR::computeInverseDiag()
-- 
2.43.0


From 3e7eb3d88da8d43a7f450277c73cf70364833e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:05 +0000
Subject: [PATCH 10/47] fix: Laplacian row sizes used nz for the x and y
 extents

---
 Laplacian.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Laplacian.cpp b/Laplacian.cpp
index feec43b..25eca61 100644
--- a/Laplacian.cpp
+++ b/Laplacian.cpp
@@ -66,11 +66,11 @@ void generate3D27PtLaplacian(CSR *A, int nx, int ny, int nz, int base /*=0*/) {
   for (int iz = 0; iz < nz; ++iz) {
     int dz = (iz >= 1 && iz < nz - 1) ? 3 : (nz == 1 ? 1 : 2);
     for (int iy = 0; iy < ny; ++iy) {
-      int dy = ((iy >= 1 && iy < ny - 1) ? 3 : (nz == 1 ? 1 : 2))*dz;
+      int dy = ((iy >= 1 && iy < ny - 1) ? 3 : (ny == 1 ? 1 : 2))*dz;
       for (int ix = 0; ix < nx; ++ix) {
         int row = (iz*ny + iy)*nx + ix;
 
-        int dx = (ix >= 1 && ix < nx - 1) ? 3 : (nz == 1 ? 1 : 2);
+        int dx = (ix >= 1 && ix < nx - 1) ? 3 : (nx == 1 ? 1 : 2);
         idx += dx*dy;
         A->rowptr[row + 1] = idx;
       } // ix
-- 
2.43.0


From e212266c06fddf3da569f1a17a2442d5398f1ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:05 +0000
Subject: [PATCH 11/47] fix: in-place product with a rectangular matrix copied
 rows instead of columns of x

---
 SpMV.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/SpMV.cpp b/SpMV.cpp
index 7017d85..d159c3b 100644
--- a/SpMV.cpp
+++ b/SpMV.cpp
@@ -161,10 +161,10 @@ void CSR::multiplyWithVector(
   // if x and w point to the same array, copy x to a temporary buffer
   // in order to avoid possible race condition in SpMV_
   if (w == x) {
-    tmp_x = MALLOC(double, m);
+    tmp_x = MALLOC(double, n);
  
     #pragma omp parallel for
-    for (int i=0; i<m; i++) {
+    for (int i=0; i<n; i++) {
       tmp_x[i] = x[i];
     }
   }
-- 
2.43.0


From dbfafea57315f12baefc9ac86bde46bf611f949d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:05 +0000
Subject: [PATCH 12/47] fix: block product of a 1-based matrix ignored the row
 strides when shifting

---
 SpMV.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/SpMV.cpp b/SpMV.cpp
index d159c3b..9946205 100644
--- a/SpMV.cpp
+++ b/SpMV.cpp
@@ -199,9 +199,9 @@ static void SpMDM_(
   colidx -= base;
   values -= base;
 
-  W -= base;
-  X -= base;
-  Y -= base;
+  W -= base*wRowStride;
+  X -= base*xRowStride;
+  Y -= base*yRowStride;
 
 //#define MEASURE_LOAD_BALANCE
 #ifdef MEASURE_LOAD_BALANCE
-- 
2.43.0


From 2ce81358d6285cf30da58b9217663b3cd5326ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:13 +0000
Subject: [PATCH 13/47] fix: loading a general matrix into a triplet object
 that held a symmetric one treated it as symmetric

---
 COO.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/COO.cpp b/COO.cpp
index 70e3532..bd36cc0 100644
--- a/COO.cpp
+++ b/COO.cpp
@@ -229,6 +229,7 @@ static bool loadMatrixMarket_(const char *file, COO &coo, bool force_symmetric,
     count = 2L*nnz;
   }
   else {
+    coo.isSymmetric = false;
     count = nnz;
   }
 
-- 
2.43.0


From bf7b0bf441c7946a6cfcab52c2e9bd8e087bb3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:33 +0000
Subject: [PATCH 14/47] fix: zero-based and padded symmetric Matrix Market
 files were expanded with wrong row counts and indices

---
 COO.cpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/COO.cpp b/COO.cpp
index bd36cc0..18c0ebb 100644
--- a/COO.cpp
+++ b/COO.cpp
@@ -246,7 +246,7 @@ static bool loadMatrixMarket_(const char *file, COO &coo, bool force_symmetric,
 
   int *colidx_temp, *rowcnt = NULL;
   if (coo.isSymmetric) {
-    colidx_temp = MALLOC(int, count);
+    colidx_temp = MALLOC(int, count + extraCount);
     rowcnt = MALLOC(int, m + 1);
     if (!colidx_temp || !rowcnt) {
       fprintf(stderr, "Failed to allocate memory\n");
@@ -281,13 +281,6 @@ static bool loadMatrixMarket_(const char *file, COO &coo, bool force_symmetric,
     if (coo.isSymmetric) rowcnt[x]++;
       // this is not a bug. we're intentionally indexing rowcnt[x] instead of rowcnt[x-1]
   }
-  // padding for vectorization
-  for (int i = min(origM, origN); i < min(m, n); ++i) {
-    rowidx[count] = i + 1;
-    colidx[count] = i + 1;
-    values[count] = 1;
-    ++count;
-  }
   fclose(fp);
 
   if (0 == base) {
@@ -299,9 +292,19 @@ static bool loadMatrixMarket_(const char *file, COO &coo, bool force_symmetric,
       for (int i = m; i > 0; --i) {
         rowcnt[i] = rowcnt[i - 1];
       }
+      rowcnt[0] = 0;
     } 
   }
 
+  // padding for vectorization
+  for (int i = min(origM, origN); i < min(m, n); ++i) {
+    rowidx[count] = i + 1;
+    colidx[count] = i + 1;
+    values[count] = 1;
+    ++count;
+    if (coo.isSymmetric) rowcnt[i + 1]++;
+  }
+
   if (lines != nnz) {
     fprintf(stderr, "Error: nnz (%d) specified in the header doesn't match with # of lines (%d) in file %s\n",
             nnz, lines, file);
-- 
2.43.0


From 9f11efcae8710024ccda782992781516cf71db68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:39 +0000
Subject: [PATCH 15/47] fix: malformed Matrix Market files overran the entry
 buffers or were accepted with out-of-range entries

---
 COO.cpp | 92 +++++++++++++++++++++++++++++++++++----------------------
 1 file changed, 57 insertions(+), 35 deletions(-)

diff --git a/COO.cpp b/COO.cpp
index 18c0ebb..560a269 100644
--- a/COO.cpp
+++ b/COO.cpp
@@ -22,6 +22,7 @@ ON ANY THEORY OF LIABILITY, WHETHER IN CONTRACT, STRICT LIABILITY, OR TORT
 SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 */
 
+#include <climits>
 #include <cstring>
 #include <algorithm>
 
@@ -34,7 +35,7 @@ using namespace std;
 namespace SpMP
 {
 
-COO::COO() : rowidx(NULL), colidx(NULL), values(NULL), isSymmetric(false)
+COO::COO() : m(0), n(0), nnz(0), rowidx(NULL), colidx(NULL), values(NULL), isSymmetric(false)
 {
 }
 
@@ -214,6 +215,11 @@ static bool loadMatrixMarket_(const char *file, COO &coo, bool force_symmetric,
     fclose(fp);
     return false;
   }
+  if (m < 0 || n < 0 || nnz < 0 || m > INT_MAX - pad || n > INT_MAX - pad) {
+    fprintf(stderr, "Error: invalid matrix size %d %d %d.\n", m, n, nnz);
+    fclose(fp);
+    return false;
+  }
   if (transpose) {
     assert(!force_symmetric);
     swap(m, n);
@@ -223,38 +229,36 @@ static bool loadMatrixMarket_(const char *file, COO &coo, bool force_symmetric,
   m = (m + pad - 1)/pad*pad;
   n = (n + pad - 1)/pad*pad;
 
-  size_t count;
-  if (force_symmetric || mm_is_symmetric (matcode) == 1) {
-    coo.isSymmetric = true;
-    count = 2L*nnz;
-  }
-  else {
-    coo.isSymmetric = false;
-    count = nnz;
+  bool isSymmetric = force_symmetric || mm_is_symmetric (matcode) == 1;
+  if (isSymmetric && origM != origN) {
+    fprintf(stderr, "Error: a symmetric matrix must be square.\n");
+    fclose(fp);
+    return false;
   }
 
+  size_t count = isSymmetric ? 2L*nnz : nnz;
+
   // allocate memory
   size_t extraCount = min(m, n) - min(origM, origN);
   double *values = MALLOC(double, count + extraCount);
   int *colidx = MALLOC(int, count + extraCount);
   int *rowidx = MALLOC(int, count + extraCount);
-  if (!values || !colidx || !rowidx) {
+  int *colidx_temp = NULL, *rowcnt = NULL;
+  if (isSymmetric) {
+    colidx_temp = MALLOC(int, count + extraCount);
+    rowcnt = MALLOC(int, m + 1);
+  }
+  if (!values || !colidx || !rowidx || (isSymmetric && (!colidx_temp || !rowcnt))) {
     fprintf(stderr, "Failed to allocate memory\n");
     fclose(fp);
+    FREE(values);
+    FREE(colidx);
+    FREE(rowidx);
+    FREE(colidx_temp);
+    FREE(rowcnt);
     return false;
   }
-
-  int *colidx_temp, *rowcnt = NULL;
-  if (coo.isSymmetric) {
-    colidx_temp = MALLOC(int, count + extraCount);
-    rowcnt = MALLOC(int, m + 1);
-    if (!colidx_temp || !rowcnt) {
-      fprintf(stderr, "Failed to allocate memory\n");
-      fclose(fp);
-      return false;
-    }
-    memset(rowcnt, 0, sizeof(int)*(m + 1));
-  }
+  if (isSymmetric) memset(rowcnt, 0, sizeof(int)*(m + 1));
 
   // read values
   count = 0;
@@ -262,13 +266,18 @@ static bool loadMatrixMarket_(const char *file, COO &coo, bool force_symmetric,
   int x, y;
   double real, imag;
   int base = 1;
+  bool valid = true;
   while (mm_read_mtx_crd_entry (fp, &x, &y, &real, &imag, matcode) == 0) {
     if (transpose) swap(x, y);
 
-    if (x > origM || y > origN) {
+    if (x < 0 || y < 0 || x > origM || y > origN) {
       fprintf(stderr, "Error: (%d %d) coordinate is out of range.\n", x, y);
-      fclose(fp);
-      return false;
+      valid = false;
+      break;
+    }
+    if (lines == nnz) {
+      ++lines; // more entries than specified in the header
+      break;
     }
 
     rowidx[count] = x;
@@ -278,17 +287,21 @@ static bool loadMatrixMarket_(const char *file, COO &coo, bool force_symmetric,
 
     ++count;
     ++lines;
-    if (coo.isSymmetric) rowcnt[x]++;
+    if (isSymmetric) rowcnt[x]++;
       // this is not a bug. we're intentionally indexing rowcnt[x] instead of rowcnt[x-1]
   }
   fclose(fp);
 
   if (0 == base) {
     for (size_t i = 0; i < count; ++i) {
+      if (rowidx[i] == origM || colidx[i] == origN) {
+        fprintf(stderr, "Error: (%d %d) coordinate is out of range.\n", rowidx[i], colidx[i]);
+        valid = false;
+      }
       rowidx[i]++;
       colidx[i]++;
     }
-    if (coo.isSymmetric) {
+    if (isSymmetric) {
       for (int i = m; i > 0; --i) {
         rowcnt[i] = rowcnt[i - 1];
       }
@@ -296,22 +309,30 @@ static bool loadMatrixMarket_(const char *file, COO &coo, bool force_symmetric,
     } 
   }
 
+  if (valid && lines != nnz) {
+    fprintf(stderr, "Error: nnz (%d) specified in the header doesn't match with # of lines (%d) in file %s\n",
+            nnz, lines, file);
+    valid = false;
+  }
+  if (!valid) {
+    FREE(values);
+    FREE(colidx);
+    FREE(rowidx);
+    FREE(colidx_temp);
+    FREE(rowcnt);
+    return false;
+  }
+
   // padding for vectorization
   for (int i = min(origM, origN); i < min(m, n); ++i) {
     rowidx[count] = i + 1;
     colidx[count] = i + 1;
     values[count] = 1;
     ++count;
-    if (coo.isSymmetric) rowcnt[i + 1]++;
+    if (isSymmetric) rowcnt[i + 1]++;
   }
 
-  if (lines != nnz) {
-    fprintf(stderr, "Error: nnz (%d) specified in the header doesn't match with # of lines (%d) in file %s\n",
-            nnz, lines, file);
-    return false;
-  }
-    
-  if (coo.isSymmetric) {
+  if (isSymmetric) {
     // add transposed elements only if it doesn't exist
     size_t real_count = count;
     // preix-sum
@@ -354,6 +375,7 @@ static bool loadMatrixMarket_(const char *file, COO &coo, bool force_symmetric,
   coo.m = m;
   coo.n = n;
   coo.nnz = count;
+  coo.isSymmetric = isSymmetric;
   coo.dealloc();
   coo.values = values;
   coo.colidx = colidx;
-- 
2.43.0


From d1c8a6a417196b5961f68bcdb7ba064fdb3cf5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:39 +0000
Subject: [PATCH 16/47] fix: reading a Matrix Market header overflowed token
 buffers and looped forever on a non-numeric size line

---
 mm_io.cpp | 27 ++++++++++-----------------
 1 file changed, 10 insertions(+), 17 deletions(-)

diff --git a/mm_io.cpp b/mm_io.cpp
index 7aac638..c259224 100644
--- a/mm_io.cpp
+++ b/mm_io.cpp
@@ -83,7 +83,7 @@ int mm_read_banner ( FILE *f, MM_typecode *matcode )
     if (fgets(line, MM_MAX_LINE_LENGTH, f) == NULL) 
         return MM_PREMATURE_EOF;
 
-    if (sscanf(line, "%s %s %s %s %s", banner, mtx, crd, data_type, 
+    if (sscanf(line, "%63s %63s %63s %63s %63s", banner, mtx, crd, data_type, 
         storage_scheme) != 5)
         return MM_PREMATURE_EOF;
 
@@ -208,15 +208,11 @@ int mm_read_mtx_array_size ( FILE *f, int *M, int *N )
   }
   else
   {
-    do
-    { 
-      num_items_read = fscanf ( f, "%d %d", M, N ); 
-      if ( num_items_read == EOF ) 
-      {
-        return MM_PREMATURE_EOF;
-      }
+    num_items_read = fscanf ( f, "%d %d", M, N ); 
+    if ( num_items_read != 2 ) 
+    {
+      return MM_PREMATURE_EOF;
     }
-    while ( num_items_read != 2 );
   }
   return 0;
 }
@@ -455,14 +451,11 @@ int mm_read_mtx_crd_size(FILE *f, int *M, int *N, int *nz )
   }
   else
   {
-    do
-    { 
-      num_items_read = fscanf(f, "%d %d %d", M, N, nz); 
-      if (num_items_read == EOF) 
-      {
-        return MM_PREMATURE_EOF;
-      }
-    } while (num_items_read != 3);
+    num_items_read = fscanf(f, "%d %d %d", M, N, nz); 
+    if (num_items_read != 3) 
+    {
+      return MM_PREMATURE_EOF;
+    }
   }
   return 0;
 }
-- 
2.43.0


From 39d4089b3b40f6e2a84993e4bf7907e9f2170ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:25 +0000
Subject: [PATCH 17/47] fix: dense array files with a zero or negative size
 were read outside the buffer

---
 Vector.cpp | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/Vector.cpp b/Vector.cpp
index ceefd7f..fb588ae 100644
--- a/Vector.cpp
+++ b/Vector.cpp
@@ -40,18 +40,22 @@ bool loadVectorMatrixMarket(const char *fileName, double **v, int *m, int *n)
     return false;
   }
 
-  *v = MALLOC(double, (*m)*(*n));
+  if (*m < 0 || *n < 0) {
+    fprintf(stderr, "Error: invalid array size.\n");
+    fclose(fp);
+    return false;
+  }
 
-  for (int i = 0; i < *m; i++) {
-    for (int j = 0; j < *n - 1; j++) {
-      if (fscanf(fp, "%lg", *v + i*(*n) + j) != 1) {
-        fprintf(stderr, "Error: premature EOF.\n");
-        FREE(*v);
-        fclose(fp);
-        return false;
-      }
-    }
-    if (fscanf(fp, "%lg\n", *v + i*(*n) + (*n) - 1) != 1) {
+  size_t len = (size_t)*m*(*n);
+  *v = MALLOC(double, len);
+  if (!*v) {
+    fprintf(stderr, "Failed to allocate memory\n");
+    fclose(fp);
+    return false;
+  }
+
+  for (size_t i = 0; i < len; i++) {
+    if (fscanf(fp, "%lg", *v + i) != 1) {
       fprintf(stderr, "Error: premature EOF.\n");
       FREE(*v);
       fclose(fp);
-- 
2.43.0


From d11a7a9ffb61a475870b3dfd74012befb0b01fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:25 +0000
Subject: [PATCH 18/47] fix: COO::storeMatrixMarket left a second handle of the
 file open

---
 COO.cpp | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/COO.cpp b/COO.cpp
index 560a269..d12d219 100644
--- a/COO.cpp
+++ b/COO.cpp
@@ -53,12 +53,6 @@ void COO::dealloc()
 
 void COO::storeMatrixMarket(const char *fileName) const
 {
-  FILE *fp = fopen(fileName, "w");
-  if (NULL == fp) {
-    fprintf(stderr, "Fail to open file %s\n", fileName);
-    return;
-  }
-
   MM_typecode matcode;
   mm_initialize_typecode(&matcode);
   mm_set_matrix(&matcode);
-- 
2.43.0


From 08994666f051fd3f5de1519c6dff5a7f80612cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:25 +0000
Subject: [PATCH 19/47] fix: storing a matrix to a path that cannot be written
 crashed or changed its index base

---
 CSR.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/CSR.cpp b/CSR.cpp
index d8260e7..e80b631 100644
--- a/CSR.cpp
+++ b/CSR.cpp
@@ -278,7 +278,10 @@ void CSR::storeMatrixMarket(const char *fileName) const
   int base = getBase();
 
   FILE *fp = fopen(fileName, "w");
-  assert(fp);
+  if (!fp) {
+    fprintf(stderr, "Failed to open %s\n", fileName);
+    return;
+  }
 
   MM_typecode matcode;
   mm_initialize_typecode(&matcode);
@@ -360,17 +363,17 @@ void CSR::loadBin(const char *file_name, int base /*=0*/)
 
 void CSR::storeBin(const char *fileName)
 {
-  bool was1Based = 1 == getBase();
-  if (was1Based) {
-    make0BasedIndexing();
-  }
-
   FILE *fp = fopen(fileName, "w");
   if (!fp) {
     fprintf(stderr, "Failed to open %s\n", fileName);
     return;
   }
 
+  bool was1Based = 1 == getBase();
+  if (was1Based) {
+    make0BasedIndexing();
+  }
+
   int id = MAT_FILE_CLASSID;
   fwrite(&id, sizeof(id), 1, fp);
 
-- 
2.43.0


From 97312c2d77b9512ce7b652c71aeed6a9cebc80e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:41 +0000
Subject: [PATCH 20/47] fix: rows at the end of a level whose cost is zero were
 assigned to no task

---
 LevelSchedule.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/LevelSchedule.cpp b/LevelSchedule.cpp
index 05b732f..d113585 100644
--- a/LevelSchedule.cpp
+++ b/LevelSchedule.cpp
@@ -641,7 +641,11 @@ void findLevels_(
     nnz = 0;
     int t;
     for (t = 0; t < nthreads; ++t) {
-      int newr = lower_bound(&b[r], &b[levelEnd], (t + 1)*nnzPerThread) - &b[0];
+      // the last thread takes all remaining rows, also those of no cost
+      int newr =
+        nthreads - 1 == t ?
+        levelEnd :
+        lower_bound(&b[r], &b[levelEnd], (t + 1)*nnzPerThread) - &b[0];
       if (aggregateForVectorization) {
         // make task size a multiple of 8 as much as possible
         if (0 == t) {
-- 
2.43.0


From 5ac31533a30502784f772b33e0ed07da6431c4bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:30 +0000
Subject: [PATCH 21/47] fix: a thread finding more rows of a level than its
 even share overran its queue

---
 LevelSchedule.cpp | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/LevelSchedule.cpp b/LevelSchedule.cpp
index d113585..d9491e1 100644
--- a/LevelSchedule.cpp
+++ b/LevelSchedule.cpp
@@ -197,6 +197,7 @@ template<int BASE = 0>
 static
 void findLevels_(
   int *qTail, int *nnzPrefixSum, int *nparents, int **q, int **rowPtrs,
+  int qCapacity,
   const int *diagptr, const int *extptr,
   const int *colidx,
   int *reversePerm, vector<int>& levIndices,
@@ -207,6 +208,7 @@ void findLevels_(
 
   int qTailPrefixSum[NUM_MAX_THREADS] = { 0 };
   volatile int endSynchronized[1] = { 0 };
+  int *rowPtrsOfMaster = rowPtrs[0]; // in serial iterations, has room for all rows
 
 #ifdef LOADIMBA
   synk::LoadImba *bar = synk::LoadImba::getInstance();
@@ -224,6 +226,8 @@ void findLevels_(
 
   int end = 0;
 
+  vector<int> qSpill, rowPtrsSpill;
+
   while (true) { // until all nodes are visited
     bool currIterSerial = false;
     int begin = end;
@@ -323,6 +327,7 @@ void findLevels_(
         tTemp = __rdtsc();
 
         int *tailPtr = &reversePerm[end];
+        rowPtrs[tid] = rowPtrsOfMaster;
         int *rowPtr = rowPtrs[tid];
         *rowPtr = 0;
 
@@ -403,6 +408,24 @@ void findLevels_(
       if (0 == tid) tt5 += __rdtsc() - tTemp;
 
       tTemp = __rdtsc();
+
+      // q[tid] and rowPtrs[tid] initially have room for an even share of the
+      // rows, but this thread may find more of them.
+      int maxFound = 0;
+      for (int i = iBegin; i < iEnd && maxFound < m; ++i) {
+        int pred = reversePerm[i];
+        maxFound += extptr[pred] - diagptr[pred] - 1;
+      }
+      maxFound = min(maxFound, m);
+      if (maxFound >= qCapacity) {
+        if (maxFound >= (int)qSpill.size()) {
+          qSpill.resize(maxFound + 1);
+          rowPtrsSpill.resize(maxFound + 1);
+        }
+        q[tid] = &qSpill[0];
+        rowPtrs[tid] = &rowPtrsSpill[0];
+      }
+
       int *tailPtr = q[tid];
       int *rowPtr = rowPtrs[tid];
       *rowPtr = 0;
@@ -575,6 +598,7 @@ void findLevels_(
   assert(q[0]);
   findLevels_<BASE>(
     qTail, nnzPrefixSum, nparents, q, rowPtrs,
+    max(nthreads, n + nthreads - 1)/nthreads*2,
     diagptr, extptr, colidx,
     levContToOrigPerm, levIndices, m,
     tt2, tt3, tt4, tt5, tt6);
-- 
2.43.0


From 9563f98daebb0174ac961e144af93dd9f0075a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:53 +0000
Subject: [PATCH 22/47] fix: intra-thread edges of tasks without rows were
 stored over the edges of the next task

---
 LevelSchedule.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LevelSchedule.cpp b/LevelSchedule.cpp
index d9491e1..190a327 100644
--- a/LevelSchedule.cpp
+++ b/LevelSchedule.cpp
@@ -970,7 +970,7 @@ void constructTaskGraph_(
   int origRowPtrCnt = 0, origInvRowPtrCnt = 0;
   for (int v1 = v1Begin; v1 < v1End; ++v1) {
     int size = 0;
-    int invSize = 0;
+    int invSize = 1; // tasks without rows can have an intra-thread edge, too
     for (int i1Perm = taskBoundaries[v1]; i1Perm < taskBoundaries[v1 + 1]; ++i1Perm) {
       int i1 = threadContToOrigPerm[i1Perm];
       size += extptr[i1] - diagptr[i1] - 1;
-- 
2.43.0


From 24a19a6fad7e1c7f139255e1a036d7ccd8d6acf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:30 +0000
Subject: [PATCH 23/47] fix: reconstructing a task graph leaked or freed pool
 memory, and so did construction without transitive reduction

---
 LevelSchedule.cpp | 28 +++++++++++++++++++++++-----
 LevelSchedule.hpp |  1 +
 2 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/LevelSchedule.cpp b/LevelSchedule.cpp
index 190a327..1ce28b6 100644
--- a/LevelSchedule.cpp
+++ b/LevelSchedule.cpp
@@ -95,6 +95,11 @@ LevelSchedule::LevelSchedule()
 }
 
 LevelSchedule::~LevelSchedule() {
+  dealloc_();
+}
+
+void LevelSchedule::dealloc_()
+{
   if (!useMemoryPool) {
     FREE(nparentsForward);
     FREE(nparentsBackward);
@@ -108,9 +113,13 @@ LevelSchedule::~LevelSchedule() {
     FREE(threadContToOrigPerm);
     FREE(parentsBuf[0]);
     FREE(parentsBuf[1]);
-
-    if (fusedSchedule) delete fusedSchedule;
   }
+
+  nparentsForward = nparentsBackward = NULL;
+  parentsForward = parentsBackward = NULL;
+  taskFinished = NULL;
+  delete fusedSchedule;
+  init_();
 }
 
 void LevelSchedule::init_()
@@ -767,8 +776,6 @@ void findLevels_(
     threadBoundaries[tid + 1] += threadBoundaries[tid];
   }
 
-  FREE(schedule->origToThreadContPerm);
-  FREE(schedule->threadContToOrigPerm);
   schedule->origToThreadContPerm = schedule->allocate<int>(m + 64);
   schedule->threadContToOrigPerm = schedule->allocate<int>(m + 64);
   int *origToThreadContPerm = schedule->origToThreadContPerm;
@@ -1717,7 +1724,6 @@ void constructTaskGraph_(
         cForward += nparentsForward[i];
         cBackward += nparentsBackward[i];
       }
-      FREE(taskInvAdjacencyLengths);
 
       parentsBuf[0] = schedule->allocate<int>(cForward);
       parentsBuf[1] = schedule->allocate<int>(cBackward);
@@ -1743,6 +1749,16 @@ void constructTaskGraph_(
         }
       }
 
+      if (!useMemoryPool) {
+        FREE(taskAdjacency.rowptr);
+        FREE(taskAdjacency.colidx);
+
+        FREE(taskInvAdjacency.rowptr);
+        FREE(taskInvAdjacency.colidx);
+
+        FREE(taskInvAdjacencyLengths);
+      }
+
       taskAdjacency.~CSR();
       taskInvAdjacency.~CSR();
     } // omp single
@@ -1803,6 +1819,8 @@ void LevelSchedule::constructTaskGraph(
   const int *rowptr, const int *diagptr, const int *extptr, const int *colidx,
   const CostFunction& costFunction)
 {
+  dealloc_(); // the task graph constructed before, if any
+
   if (0 == rowptr[0]) {
     return constructTaskGraph_<0>(this, m, rowptr, diagptr, extptr, colidx, costFunction);
   }
diff --git a/LevelSchedule.hpp b/LevelSchedule.hpp
index d70f843..43bb40d 100644
--- a/LevelSchedule.hpp
+++ b/LevelSchedule.hpp
@@ -248,6 +248,7 @@ public :
 protected:
 
   void init_();
+  void dealloc_();
 };
 
 /**
-- 
2.43.0


From 827b0d59c0e38f8baa60048c514450859e3ac4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:24 +0000
Subject: [PATCH 24/47] fix: wait lists of the fused schedule overlapped

---
 LevelSchedule.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LevelSchedule.cpp b/LevelSchedule.cpp
index 1ce28b6..1910013 100644
--- a/LevelSchedule.cpp
+++ b/LevelSchedule.cpp
@@ -1314,7 +1314,7 @@ void constructTaskGraph_(
         fusedSchedule->parents[task] = fusedSchedule->parentsBuf + cnt;
         fusedSchedule->nparents[task] = tempParents[task].size();
         copy(tempParents[task].begin(), tempParents[task].end(), fusedSchedule->parents[task]);
-        cnt += taskInvAdjacencyLengths[task];
+        cnt += fusedSchedule->nparents[task];
       }
 
       /*int cnt = 0;
-- 
2.43.0


From c40d791cee0b4e54efbd53e50253b5ce6f02ecb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:22 +0000
Subject: [PATCH 25/47] fix: LoadImba::deleteInstance was missing and clashed
 with Barrier::deleteInstance

---
 synk/loadimba.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/synk/loadimba.cpp b/synk/loadimba.cpp
index 50b1511..be3e4d5 100644
--- a/synk/loadimba.cpp
+++ b/synk/loadimba.cpp
@@ -112,9 +112,10 @@ LoadImba *LoadImba::getInstance()
     return instance;
 }
 
-void Barrier::deleteInstance()
+void LoadImba::deleteInstance()
 {
     delete instance;
+    instance = NULL;
 }
 
 /* constructor */
-- 
2.43.0


From cfcdacb54b7f3227fbb0162e796f07fa08bbf4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:05 +0000
Subject: [PATCH 26/47] fix: LoadImba::init did not wait for the other threads'
 initialisation

---
 synk/loadimba.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/synk/loadimba.cpp b/synk/loadimba.cpp
index be3e4d5..69e7a3d 100644
--- a/synk/loadimba.cpp
+++ b/synk/loadimba.cpp
@@ -157,8 +157,8 @@ void LoadImba::init(int tid, int numUses_)
     /* barrier to let all the allocations complete */
     if (atomic_dec_and_test(&threadsWaiting)) {
         atomic_set(&threadsWaiting, numThreads);
-        initState = 1;
-    } else while (initState == 0);
+        initState = 3;
+    } else while (initState == 2);
 }
 
 
-- 
2.43.0


From 22ba6e52bac85da2aede291b36f381304b1ed3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:05 +0000
Subject: [PATCH 27/47] fix: LoadImba leaked the per-thread records

---
 synk/loadimba.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/synk/loadimba.cpp b/synk/loadimba.cpp
index 69e7a3d..fdf7dd5 100644
--- a/synk/loadimba.cpp
+++ b/synk/loadimba.cpp
@@ -274,6 +274,7 @@ LoadImba::~LoadImba()
         _mm_free(limba[i]->tot);
         _mm_free(limba[i]->cnt);
         _mm_free(limba[i]->bar);
+        _mm_free(limba[i]);
     }
     _mm_free(limba);
 }
-- 
2.43.0


From 3801d92c78e8af7b2571e11ee0248b373a0d37af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:05 +0000
Subject: [PATCH 28/47] fix: a fast core's next contribution overwrote the one
 its partner had not yet read in ReduceBarrier

---
 synk/reduce.hpp | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/synk/reduce.hpp b/synk/reduce.hpp
index bad5891..bb44288 100644
--- a/synk/reduce.hpp
+++ b/synk/reduce.hpp
@@ -144,7 +144,7 @@ void ReduceBarrier<T>::init(int tid)
         core->sense = 1;
 
         core->threadRvals = MALLOC(volatile T, numThreadsPerCore);
-        core->myRvals = MALLOC(volatile T, lgNumCores);
+        core->myRvals = MALLOC(volatile T, 2*lgNumCores); /* [parity][round] */
         core->partnerRvals = MALLOC(T *, lgNumCores);
 
         core->pseudoCore = NULL;
@@ -164,7 +164,7 @@ void ReduceBarrier<T>::init(int tid)
             pseudoCore->parity = 0;
             pseudoCore->sense = 1;
 
-            pseudoCore->myRvals = MALLOC(volatile T, lgNumCores);
+            pseudoCore->myRvals = MALLOC(volatile T, 2*lgNumCores);
             pseudoCore->partnerRvals = MALLOC(T *, lgNumCores);
 
             core->pseudoCore = pseudoCore;
@@ -186,7 +186,7 @@ void ReduceBarrier<T>::init(int tid)
     /* core thread 0 finishes setup */
     if (coreTid == 0) {
         for (int i = 0;  i < lgNumCores;  i++) {
-            core->myRvals[i] = (volatile T)NULL;
+            core->myRvals[i] = core->myRvals[lgNumCores + i] = (volatile T)NULL;
 
             /* find reduction partner and link */
             int reduceCid = (cid + (1 << i)) % nearestPow2Cores;
@@ -213,7 +213,8 @@ void ReduceBarrier<T>::init(int tid)
             /* if this is one of the cores that represents a pseudo
                core, we have to initialize and link its fields too */
             if (pseudoCore) {
-                pseudoCore->myRvals[i] = (volatile T)NULL;
+                pseudoCore->myRvals[i] =
+                    pseudoCore->myRvals[lgNumCores + i] = (volatile T)NULL;
 
                 reduceCid = (pseudoCore->coreId + (1 << i)) % nearestPow2Cores;
 
@@ -279,8 +280,9 @@ T ReduceBarrier<T>::wait(int tid, T zeroVal, T redVal, T (*redFunc)(T, T))
            handle both */
         if (numThreadsPerCore == 1  &&  bar->pseudoCore) {
             for (i = di = 0;  i < lgNumCores;  i++, di += CacheLineSize) {
-                *bar->partnerRvals[i] = redVal;
-                *bar->pseudoCore->partnerRvals[i] = zeroVal;
+                bar->partnerRvals[i][bar->parity * lgNumCores] = redVal;
+                bar->pseudoCore->partnerRvals[i]
+                    [bar->pseudoCore->parity * lgNumCores] = zeroVal;
 
                 sfence();
 
@@ -295,8 +297,10 @@ T ReduceBarrier<T>::wait(int tid, T zeroVal, T redVal, T (*redFunc)(T, T))
                     cpu_pause();
 
                 /* reduction operations */
-                redVal = redFunc(redVal, (T)bar->myRvals[i]);
-                zeroVal = redFunc(zeroVal, (T)bar->pseudoCore->myRvals[i]);
+                redVal = redFunc(redVal,
+                    (T)bar->myRvals[bar->parity * lgNumCores + i]);
+                zeroVal = redFunc(zeroVal, (T)bar->pseudoCore->
+                    myRvals[bar->pseudoCore->parity * lgNumCores + i]);
             }
 
             if (bar->parity == 1) bar->sense = !bar->sense;
@@ -309,14 +313,15 @@ T ReduceBarrier<T>::wait(int tid, T zeroVal, T redVal, T (*redFunc)(T, T))
         /* no pseudo core, only handle self */
         else {
             for (i = di = 0;  i < lgNumCores;  i++, di += CacheLineSize) {
-                *bar->partnerRvals[i] = redVal;
+                bar->partnerRvals[i][bar->parity * lgNumCores] = redVal;
                 sfence();
                 *bar->partnerFlags[bar->parity][i] = bar->sense;
                 while (bar->myFlags[bar->parity][di] != bar->sense)
                     cpu_pause();
 
                 /* reduction operations */
-                redVal = redFunc(redVal, (T)bar->myRvals[i]);
+                redVal = redFunc(redVal,
+                    (T)bar->myRvals[bar->parity * lgNumCores + i]);
             }
 
             if (bar->parity == 1) bar->sense = !bar->sense;
@@ -334,7 +339,8 @@ T ReduceBarrier<T>::wait(int tid, T zeroVal, T redVal, T (*redFunc)(T, T))
     else {
         if (coreTid == 1  &&  bar->pseudoCore) {
             for (i = di = 0;  i < lgNumCores;  i++, di += CacheLineSize) {
-                *bar->pseudoCore->partnerRvals[i] = zeroVal;
+                bar->pseudoCore->partnerRvals[i]
+                    [bar->pseudoCore->parity * lgNumCores] = zeroVal;
                 sfence();
                 *bar->pseudoCore->partnerFlags[bar->pseudoCore->parity][i]
                     = bar->pseudoCore->sense;
@@ -343,7 +349,8 @@ T ReduceBarrier<T>::wait(int tid, T zeroVal, T redVal, T (*redFunc)(T, T))
                     cpu_pause();
 
                 /* reduction operations */
-                zeroVal = redFunc(zeroVal, (T)bar->pseudoCore->myRvals[i]);
+                zeroVal = redFunc(zeroVal, (T)bar->pseudoCore->
+                    myRvals[bar->pseudoCore->parity * lgNumCores + i]);
             }
             if (bar->pseudoCore->parity == 1)
                 bar->pseudoCore->sense = !bar->pseudoCore->sense;
-- 
2.43.0


From 20fcd6b18da704d95e08886b31371b1b37c3921b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:05 +0000
Subject: [PATCH 29/47] fix: ReduceBarrier over a single core combined the
 contributions twice

---
 synk/reduce.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/synk/reduce.hpp b/synk/reduce.hpp
index bb44288..d8b0195 100644
--- a/synk/reduce.hpp
+++ b/synk/reduce.hpp
@@ -311,7 +311,7 @@ T ReduceBarrier<T>::wait(int tid, T zeroVal, T redVal, T (*redFunc)(T, T))
         }
 
         /* no pseudo core, only handle self */
-        else {
+        else if (numCores > 1) {
             for (i = di = 0;  i < lgNumCores;  i++, di += CacheLineSize) {
                 bar->partnerRvals[i][bar->parity * lgNumCores] = redVal;
                 sfence();
-- 
2.43.0


From f9badff37e01240d1d933afb6f7a277bc9be83c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:30 +0000
Subject: [PATCH 30/47] fix: MemoryPool returned misaligned blocks

Front allocations were misaligned when the size of the pool is not a
multiple of the alignment, and so were blocks following ones that were
allocated with a smaller alignment.
---
 MemoryPool.cpp | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/MemoryPool.cpp b/MemoryPool.cpp
index 5c45180..3bdeec4 100644
--- a/MemoryPool.cpp
+++ b/MemoryPool.cpp
@@ -127,41 +127,43 @@ size_t MemoryPool::getTail() const
 void *MemoryPool::allocate(size_t sz, int align /*=64*/)
 {
   sz = (sz + align - 1)/align*align;
+  size_t begin = (tail_ + align - 1)/align*align;
 
   if (tail_ >= head_) { // not wrapped around
-    if (tail_ + sz >= size_) { // wrap around
+    if (begin + sz >= size_) { // wrap around
       tail_ = sz;
       assert(tail_ < head_); // check overflow
       return buffer_;
     }
     else {
-      tail_ += sz;
-      return buffer_ + (tail_ - sz);
+      tail_ = begin + sz;
+      return buffer_ + begin;
     }
   }
   else { // wrapped around
-    assert(tail_ + sz < head_); // check overflow
-    tail_ += sz;
-    return buffer_ + (tail_ - sz);
+    assert(begin + sz < head_); // check overflow
+    tail_ = begin + sz;
+    return buffer_ + begin;
   }
 }
 
 void *MemoryPool::allocateFront(size_t sz, int align /*=64*/)
 {
   sz = (sz + align - 1)/align*align;
+  size_t end = head_/align*align;
 
   if (tail_ >= head_) { // not wrapped around
-    if (head_ < sz) { // wrap around
-      head_ = size_ - sz;
+    if (end < sz) { // wrap around
+      head_ = (size_ - sz)/align*align;
       assert(head_ > tail_); // check overflow
     }
     else {
-      head_ -= sz;
+      head_ = end - sz;
     }
   }
   else { // wrapped around
-    assert(head_ > tail_ + sz); // check overflow
-    head_ -= sz;
+    assert(end > tail_ + sz); // check overflow
+    head_ = end - sz;
   }
 
   return buffer_ + head_;
-- 
2.43.0


From 537150f64526ef1f97caaa9eda72f3c5d9cdd283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:47 +0000
Subject: [PATCH 31/47] fix: a fast thread's next prefix sum overwrote the
 result a slow thread had not yet read

Each thread now writes only its own part of the workspace, so that
calling again with the same workspace needs no further barrier.
---
 PrefixSum.cpp | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/PrefixSum.cpp b/PrefixSum.cpp
index 2e5d3d6..ef11ca5 100644
--- a/PrefixSum.cpp
+++ b/PrefixSum.cpp
@@ -8,17 +8,22 @@ void prefixSum(int *in_out, int *sum, int *workspace)
   int nthreads = omp_get_num_threads();
   int tid = omp_get_thread_num();
 
-  workspace[tid + 1] = *in_out;
+  // each thread writes only the element it reads at the end, so that the next
+  // call with the same workspace doesn't overwrite what is still to be read
+  workspace[tid] = *in_out;
 
 #pragma omp barrier
 #pragma omp master
   {
-    workspace[0] = 0;
+    int acc = 0;
     int i;
-    for (i = 1; i < nthreads; i++) {
-      workspace[i + 1] += workspace[i];
+    for (i = 0; i < nthreads; i++) {
+      int temp = workspace[i];
+      workspace[i] = acc;
+      acc += temp;
     }
-    *sum = workspace[nthreads];
+    workspace[nthreads] = acc;
+    *sum = acc;
   }
 #pragma omp barrier
 
@@ -31,28 +36,32 @@ void prefixSumMultiple(int *in_out, int *sum, int n, int *workspace)
   int tid = omp_get_thread_num();
 
   int i;
+  // each thread writes only the elements it reads at the end, so that the next
+  // call with the same workspace doesn't overwrite what is still to be read
   for (i = 0; i < n; i++) {
-    workspace[(tid + 1)*n + i] = in_out[i];
+    workspace[tid*n + i] = in_out[i];
   }
 
 #pragma omp barrier
 #pragma omp master
   {
     for (i = 0; i < n; i++) {
-      workspace[i] = 0;
+      sum[i] = 0;
     }
 
     int t;
     // assuming n is not so big, we don't parallelize this loop
-    for (t = 1; t < nthreads; t++)
+    for (t = 0; t < nthreads; t++)
     {
       for (i = 0; i < n; i++) {
-        workspace[(t + 1)*n + i] += workspace[t*n + i];
+        int temp = workspace[t*n + i];
+        workspace[t*n + i] = sum[i];
+        sum[i] += temp;
       }
     }
 
     for (i = 0; i < n; i++) {
-      sum[i] = workspace[nthreads*n + i];
+      workspace[nthreads*n + i] = sum[i];
     }
   }
 #pragma omp barrier
-- 
2.43.0


From ca9398f8dd5f714f38a410a6a677ae16cb4d0618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:48 +0000
Subject: [PATCH 32/47] fix: isPerm accepted arrays of distinct values outside
 of 0..n-1

It also leaked its copy of the array when it returned false.
---
 Utils.cpp | 31 ++++++++++++++-----------------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/Utils.cpp b/Utils.cpp
index d08cccf..e673627 100644
--- a/Utils.cpp
+++ b/Utils.cpp
@@ -105,26 +105,23 @@ bool isPerm(const int *perm, int n)
   int *temp = new int[n];
   memcpy(temp, perm, sizeof(int)*n);
   sort(temp, temp + n);
-  int *last = unique(temp, temp + n);
-  if (last != temp + n) {
-    memcpy(temp, perm, sizeof(int)*n);
-    sort(temp, temp + n);
-
-    for (int i = 0; i < n; ++i) {
-      if (temp[i] == i - 1) {
-        printf("%d duplicated\n", i - 1);
-        assert(false);
-        return false;
-      }
-      else if (temp[i] != i) {
-        printf("%d missed\n", i);
-        assert(false);
-        return false;
-      }
+
+  bool ret = true;
+  for (int i = 0; i < n; ++i) {
+    if (i > 0 && temp[i] == i - 1) {
+      printf("%d duplicated\n", i - 1);
+      ret = false;
+      break;
+    }
+    else if (temp[i] != i) {
+      printf("%d missed\n", i);
+      ret = false;
+      break;
     }
   }
   delete[] temp;
-  return true;
+  assert(ret);
+  return ret;
 }
 
 bool isInversePerm(const int *perm, const int *inversePerm, int len)
-- 
2.43.0


From 750c57337abd0c6d9dfd936099a9158c0509327a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:57 +0000
Subject: [PATCH 33/47] fix: correctnessCheck took a NaN or an unexpected
 finite value for a match

---
 Utils.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/Utils.hpp b/Utils.hpp
index 088cec1..6384605 100644
--- a/Utils.hpp
+++ b/Utils.hpp
@@ -44,9 +44,13 @@ bool correctnessCheck(
   int n,
   double tol = 1e-5, double ignoreSmallerThanThis = 0) {
   for (int i = 0; i < n; ++i) {
-    if (fabs(expected[i] - actual[i])/fabs(expected[i]) >= tol &&
-      (fabs(expected[i]) >= ignoreSmallerThanThis ||
-        fabs(actual[i]) >= ignoreSmallerThanThis)) {
+    bool same = expected[i] == actual[i] ||
+      (expected[i] != expected[i] && actual[i] != actual[i]);
+    // negated comparisons: not-a-number is never within the error margin
+    if (!same &&
+      !(fabs(expected[i] - actual[i])/fabs(expected[i]) < tol) &&
+      !(fabs(expected[i]) < ignoreSmallerThanThis &&
+        fabs(actual[i]) < ignoreSmallerThanThis)) {
       printf("Error at %d expected %g actual %g\n", i, expected[i], actual[i]);
       assert(false);
       return false;
-- 
2.43.0


From ef24d04e3c101484ccf5d1bb978a5dfa8bfbdc71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:16 +0000
Subject: [PATCH 34/47] fix: hasZeroDiag of a 1-based matrix read one row and
 one entry too far

---
 CSR.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/CSR.cpp b/CSR.cpp
index e80b631..05dae73 100644
--- a/CSR.cpp
+++ b/CSR.cpp
@@ -248,6 +248,9 @@ bool CSR::isSymmetric(bool checkValues, bool printFirstNonSymmetry) const
 bool CSR::hasZeroDiag() const
 {
   int base = getBase();
+  const int *rowptr = this->rowptr - base;
+  const int *colidx = this->colidx - base;
+  const double *values = this->values - base;
   volatile bool hasZeroDiag = false;
 
 #pragma omp parallel
-- 
2.43.0


From a4430ffdad8596166ac836594a04dc70c54d71c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:16 +0000
Subject: [PATCH 35/47] fix: copying a matrix dropped its non-local column
 pointers

---
 CSR.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/CSR.cpp b/CSR.cpp
index 05dae73..e9721c5 100644
--- a/CSR.cpp
+++ b/CSR.cpp
@@ -89,6 +89,7 @@ CSR::CSR(const CSR& A) : m(A.m), n(A.n), values(NULL), idiag(NULL), diag(NULL),
   if (A.diagptr) diagptr = MALLOC(int, m);
   if (A.idiag) idiag = MALLOC(double, m);
   if (A.diag) diag = MALLOC(double, m);
+  if (A.extptr) extptr = MALLOC(int, m);
 
   copyVector(rowptr, A.rowptr, A.m + 1);
   copyVector(colidx, A.colidx, nnz);
@@ -96,6 +97,7 @@ CSR::CSR(const CSR& A) : m(A.m), n(A.n), values(NULL), idiag(NULL), diag(NULL),
   if (diagptr) copyVector(diagptr, A.diagptr, m);
   if (idiag) copyVector(idiag, A.idiag, m);
   if (diag) copyVector(diag, A.diag, m);
+  if (extptr) copyVector(extptr, A.extptr, m);
 }
 
 CSR::CSR(const char *fileName, int base /*=0*/, bool forceSymmetric /*=false*/, int pad /*=1*/)
-- 
2.43.0


From 09bf22e1a611f74bfdd646d6b2b680eddd83ab04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:16 +0000
Subject: [PATCH 36/47] fix: comparing matrices without values dereferenced
 NULL

---
 CSR.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/CSR.cpp b/CSR.cpp
index e9721c5..f21ec7c 100644
--- a/CSR.cpp
+++ b/CSR.cpp
@@ -747,6 +747,10 @@ bool CSR::equals(const CSR& A, bool print /*=false*/) const
     if (print) printf("number of non-zeros differs %d vs. %d\n", rowptr[m], A.rowptr[A.m]);
     return false;
   }
+  if (!values != !A.values) {
+    if (print) printf("only one of the matrices has values\n");
+    return false;
+  }
   for (int i = 0; i < m; ++i) {
     if (rowptr[i] != A.rowptr[i]) {
       if (print) printf("rowptr[%d] differs %d vs. %d\n", i, rowptr[i], A.rowptr[i]);
@@ -757,7 +761,7 @@ bool CSR::equals(const CSR& A, bool print /*=false*/) const
         if (print) printf("colidx[%d:%d] differs %d vs. %d\n", i, j, colidx[j], A.colidx[j]);
         return false;
       }
-      if (values[j] != A.values[j]) {
+      if (values && values[j] != A.values[j]) {
         if (print) printf("values[%d:%d] differs %g vs. %g\n", i, j, values[j], A.values[j]);
         return false;
       }
-- 
2.43.0


From 496d3dc5339edabee7ee42def50b6a5c0f622c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:22 +0000
Subject: [PATCH 37/47] fix: reordering a matrix without rows accessed its
 first row

---
 reordering/RCM.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/reordering/RCM.cpp b/reordering/RCM.cpp
index ad76020..09bbd6d 100644
--- a/reordering/RCM.cpp
+++ b/reordering/RCM.cpp
@@ -670,6 +670,7 @@ void CSR::getRCMPermutation(int *perm, int *inversePerm, bool pseudoDiameterSour
     fprintf(stderr, "BFS permutation only supports square matrices\n");
     exit(-1);
   }
+  if (0 == m) return;
   assert(isSymmetric(false)); // check structural symmetry
 
   int oldBase = getBase();
@@ -979,6 +980,7 @@ void CSR::getBFSPermutation(int *perm, int *inversePerm)
     fprintf(stderr, "BFS permutation only supports square matrices\n");
     exit(-1);
   }
+  if (0 == m) return;
   assert(isSymmetric(false)); // check structural symmetry
 
   BitVector bv(m);
-- 
2.43.0


From c4062beab4cc37b59f061ef68d21afd34ab85c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:22 +0000
Subject: [PATCH 38/47] fix: breadth-first traversal of a single row wrote
 behind its row pointers

---
 reordering/RCM.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reordering/RCM.cpp b/reordering/RCM.cpp
index 09bbd6d..4d8ebb3 100644
--- a/reordering/RCM.cpp
+++ b/reordering/RCM.cpp
@@ -190,7 +190,7 @@ bfsAuxData::bfsAuxData(int m)
 
   qTailPrefixSum = new int[omp_get_max_threads() + 1];
 
-  rowptrs = new int[omp_get_max_threads()*m];
+  rowptrs = new int[omp_get_max_threads()*m + 1]; // rowptrs[1] is set even if m == 1
   nnzPrefixSum = new int[omp_get_max_threads() + 1];
 
   candidates = new int[m];
-- 
2.43.0


From e2cc3467cac7d0728cb560edbb0d35050d8fe35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:03 +0000
Subject: [PATCH 39/47] fix: a component link made by another thread was
 overwritten when linking the same root

---
 reordering/ConnectedComponents.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/reordering/ConnectedComponents.cpp b/reordering/ConnectedComponents.cpp
index 0c33f39..fcd0df6 100644
--- a/reordering/ConnectedComponents.cpp
+++ b/reordering/ConnectedComponents.cpp
@@ -167,11 +167,17 @@ void findConnectedComponents_(
           int p_r_x = old_p_r_x > old_p_r_y ? old_p_r_x : old_p_r_y;
           int p_r_y = old_p_r_x > old_p_r_y ? old_p_r_y : old_p_r_x;
 
-          if (p_r_x == r_x && __sync_bool_compare_and_swap(&p[r_x], r_x, p_r_y)) {
-            break;
+          if (p_r_x == r_x) {
+            // r_x was a root. When another thread links it first, its link
+            // must not be overwritten: look at r_x again.
+            if (__sync_bool_compare_and_swap(&p[r_x], r_x, p_r_y)) {
+              break;
+            }
+          }
+          else {
+            p[r_x] = p_r_y;
+            r_x = p_r_x;
           }
-          p[r_x] = p_r_y;
-          r_x = p_r_x;
         } // while
       } // p[xx] != p[y]
     }
-- 
2.43.0


From 152998051835d8f99f0742afe51f638d53210adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:03 +0000
Subject: [PATCH 40/47] fix: source candidates found by several threads
 overflowed the candidate array

---
 reordering/RCM.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/reordering/RCM.cpp b/reordering/RCM.cpp
index 4d8ebb3..a9d63d3 100644
--- a/reordering/RCM.cpp
+++ b/reordering/RCM.cpp
@@ -193,7 +193,8 @@ bfsAuxData::bfsAuxData(int m)
   rowptrs = new int[omp_get_max_threads()*m + 1]; // rowptrs[1] is set even if m == 1
   nnzPrefixSum = new int[omp_get_max_threads() + 1];
 
-  candidates = new int[m];
+  // without atomic updates, a node can be in the queues of several threads
+  candidates = new int[m*omp_get_max_threads()];
 }
 
 bfsAuxData::~bfsAuxData()
-- 
2.43.0


From 038ac27673ecd91b9110b996e8beef1e71ba08d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:03 +0000
Subject: [PATCH 41/47] fix: level offsets of path-like components were written
 behind their arrays

---
 reordering/RCM.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/reordering/RCM.cpp b/reordering/RCM.cpp
index a9d63d3..bdc03a6 100644
--- a/reordering/RCM.cpp
+++ b/reordering/RCM.cpp
@@ -698,8 +698,9 @@ void CSR::getRCMPermutation(int *perm, int *inversePerm, bool pseudoDiameterSour
   int singletonCnt = 0, twinCnt = 0;
 
   bfsAuxData aux(m);
-  volatile int *write_offset = new int[(m + 1)*16];
-  int *prefixSum_array = new int[max(omp_get_max_threads()*PAR_THR, m) + 1];
+  // the number of levels returned by BFS is up to one more than the number of nodes
+  volatile int *write_offset = new int[(m + 2)*16];
+  int *prefixSum_array = new int[max(omp_get_max_threads()*(PAR_THR + 1), m + 2)];
 
   DegreeComparator comparator(rowptr);
 
-- 
2.43.0


From 96f2469b39126c6e35b497ab3e195b98f0a895ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:44 +0000
Subject: [PATCH 42/47] fix: bipartite traversal by a thread that finds all
 nodes of a side overran its row pointers

---
 reordering/BFSBipartite.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/reordering/BFSBipartite.cpp b/reordering/BFSBipartite.cpp
index 31e393a..039308e 100644
--- a/reordering/BFSBipartite.cpp
+++ b/reordering/BFSBipartite.cpp
@@ -450,7 +450,7 @@ bfsAuxData::bfsAuxData(int m)
 
   qTailPrefixSum = new int[omp_get_max_threads() + 1];
 
-  rowptrs = new int[omp_get_max_threads()*m];
+  rowptrs = new int[omp_get_max_threads()*(m + 1)]; // a thread can find all m nodes of one side
   nnzPrefixSum = new int[omp_get_max_threads() + 1];
 
   candidates = new int[m];
@@ -640,9 +640,9 @@ int bfs(
     }
     else {
       iBegin = upper_bound(
-          rowptrs + tBegin*max(A->m, A->n), rowptrs + tBegin*max(A->m, A->n) + qTail[1 - numLevels%2][tBegin],
+          rowptrs + tBegin*(max(A->m, A->n) + 1), rowptrs + tBegin*(max(A->m, A->n) + 1) + qTail[1 - numLevels%2][tBegin],
           nnzPerThread*tid - nnzPrefixSum[tBegin]) -
-        (rowptrs + tBegin*max(A->m, A->n)) - 1;
+        (rowptrs + tBegin*(max(A->m, A->n) + 1)) - 1;
     }
 
     if (tEnd == nthreads) {
@@ -650,9 +650,9 @@ int bfs(
     }
     else {
       iEnd = upper_bound(
-          rowptrs + tEnd*max(A->m, A->n), rowptrs + tEnd*max(A->m, A->n) + qTail[1 - numLevels%2][tEnd],
+          rowptrs + tEnd*(max(A->m, A->n) + 1), rowptrs + tEnd*(max(A->m, A->n) + 1) + qTail[1 - numLevels%2][tEnd],
           nnzPerThread*(tid + 1) - nnzPrefixSum[tEnd]) -
-        (rowptrs + tEnd*max(A->m, A->n)) - 1;
+        (rowptrs + tEnd*(max(A->m, A->n) + 1)) - 1;
     }
 
     memcpy(
@@ -663,7 +663,7 @@ int bfs(
     synk::Barrier::getInstance()->wait(tid);
 
     int *tailPtr = q[numLevels%2] + tid*max(A->m, A->n);
-    int *rowptr = rowptrs + tid*max(A->m, A->n);
+    int *rowptr = rowptrs + tid*(max(A->m, A->n) + 1);
     *rowptr = 0;
 
     for (int t = tBegin; t <= tEnd; ++t) {
-- 
2.43.0


From bb3cbf26554fc0b25cd8d4b5624aba5da59c353c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:27 +0000
Subject: [PATCH 43/47] fix: storing a matrix leaked its type string

---
 CSR.cpp   | 4 +++-
 mm_io.cpp | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/CSR.cpp b/CSR.cpp
index f21ec7c..384ed8d 100644
--- a/CSR.cpp
+++ b/CSR.cpp
@@ -296,7 +296,9 @@ void CSR::storeMatrixMarket(const char *fileName) const
 
   // print banner followed by typecode.
   fprintf(fp, "%s ", MatrixMarketBanner);
-  fprintf(fp, "%s\n", mm_typecode_to_str(matcode));
+  char *type = mm_typecode_to_str(matcode);
+  fprintf(fp, "%s\n", type);
+  free(type);
 
   // print matrix size and nonzeros.
   fprintf(fp, "%d %d %d\n", m, n, rowptr[m] - base);
diff --git a/mm_io.cpp b/mm_io.cpp
index c259224..5d1ae17 100644
--- a/mm_io.cpp
+++ b/mm_io.cpp
@@ -720,7 +720,9 @@ int mm_write_mtx_crd(char fname[], int M, int N, int nz, int I[], int J[],
   print banner followed by typecode.
 */
     fprintf(f, "%s ", MatrixMarketBanner);
-    fprintf(f, "%s\n", mm_typecode_to_str(matcode));
+    char *type = mm_typecode_to_str(matcode);
+    fprintf(f, "%s\n", type);
+    free(type);
 
 /*
   print matrix sizes and nonzeros.
-- 
2.43.0


From 9aa9311b09985d62aa53567021a233e44b42a865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:28 +0000
Subject: [PATCH 44/47] fix: reorderings leaked the component arrays

---
 reordering/ConnectedComponents.cpp | 1 +
 reordering/RCM.cpp                 | 9 +++++++++
 2 files changed, 10 insertions(+)

diff --git a/reordering/ConnectedComponents.cpp b/reordering/ConnectedComponents.cpp
index fcd0df6..1142d6b 100644
--- a/reordering/ConnectedComponents.cpp
+++ b/reordering/ConnectedComponents.cpp
@@ -327,6 +327,7 @@ void findConnectedComponents_(
 
   //printf("num of connected components = %d\n", (*numOfComponents));
 
+  delete[] p;
   delete[] rootToComp;
   if (nodesToFind) delete[] nodesToFind;
 }
diff --git a/reordering/RCM.cpp b/reordering/RCM.cpp
index bdc03a6..d1644f7 100644
--- a/reordering/RCM.cpp
+++ b/reordering/RCM.cpp
@@ -949,6 +949,10 @@ void CSR::getRCMPermutation(int *perm, int *inversePerm, bool pseudoDiameterSour
 
   //double timeSecondPhase = omp_get_wtime() - tBegin;
 
+  delete[] compToRoot;
+  delete[] compSizes;
+  delete[] compSizePrefixSum;
+  delete[] nodesSortedByComp;
   delete[] levels;
   delete[] children_array;
   delete[] write_offset;
@@ -1118,6 +1122,11 @@ void CSR::getBFSPermutation(int *perm, int *inversePerm)
 
   timeSecondPhase += omp_get_wtime();
 
+  delete[] compToRoot;
+  delete[] compSizes;
+  delete[] compSizePrefixSum;
+  delete[] nodesSortedByComp;
+
 #if 0
   printf("num of connected components = %d (singleton = %d, twin = %d, large (>=%d) = %d)\n", numOfComponents, singletonCnt, twinCnt, PAR_THR, largeCompCnt);
   printf("connectedComponentTime = %f\n", timeConnectedComponents);
-- 
2.43.0


From 2854185efc48c9565b0d0ad89576bf21df9a003e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:28 +0000
Subject: [PATCH 45/47] fix: the debug check of the last component read an
 unset offset

---
 reordering/ConnectedComponents.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reordering/ConnectedComponents.cpp b/reordering/ConnectedComponents.cpp
index 1142d6b..c12110b 100644
--- a/reordering/ConnectedComponents.cpp
+++ b/reordering/ConnectedComponents.cpp
@@ -318,7 +318,7 @@ void findConnectedComponents_(
 
     for (int j = (*compSizePrefixSum)[i]; j < (*compSizePrefixSum)[i] + (*compSizes)[i]; ++j) {
       assert(p[(*nodesSortedByComp)[j]] == (*compToRoot)[i]);
-      if (j < (*compSizePrefixSum)[i + 1] - 1) {
+      if (j < (*compSizePrefixSum)[i] + (*compSizes)[i] - 1) {
         assert((*nodesSortedByComp)[j] < (*nodesSortedByComp)[j + 1]);
       }
     }
-- 
2.43.0


From cbf6354b9adc347c856b099e4d7d75acd815e473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:55 +0000
Subject: [PATCH 46/47] fix: diagonal arrays derived for a matrix in the memory
 pool leaked

---
 CSR.cpp           |  2 +-
 LevelSchedule.cpp | 19 ++++++++++---------
 2 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/CSR.cpp b/CSR.cpp
index 384ed8d..5621fec 100644
--- a/CSR.cpp
+++ b/CSR.cpp
@@ -468,7 +468,7 @@ void CSR::computeInverseDiag()
     int base = getBase();
     const double *values = this->values - base;
 
-    idiag = MALLOC(double, m);
+    idiag = allocate_<double>(m);
 #pragma omp parallel for
     for (int i = 0; i < m; i++) {
       idiag[i] = 1/values[diagptr[i]];
diff --git a/LevelSchedule.cpp b/LevelSchedule.cpp
index 1910013..67fed9f 100644
--- a/LevelSchedule.cpp
+++ b/LevelSchedule.cpp
@@ -136,10 +136,9 @@ void LevelSchedule::constructTaskGraph(CSR& A)
 }
 
 template<int BASE = 0>
-static int *constructDiagPtr_(
-  int m, const int *rowptr, const int *colidx)
+static void constructDiagPtr_(
+  int m, const int *rowptr, const int *colidx, int *diagptr)
 {
-  int *diagptr = MALLOC(int, m);
 #pragma omp parallel for
   for (int i = 0; i < m; ++i) {
     for (int j = rowptr[i] - BASE; j < rowptr[i + 1] - BASE; ++j) {
@@ -149,24 +148,25 @@ static int *constructDiagPtr_(
       }
     }
   }
-  return diagptr;
 }
 
-int *constructDiagPtr_(int m, const int *rowptr, const int *colidx, int base)
+static void constructDiagPtr_(
+  int m, const int *rowptr, const int *colidx, int base, int *diagptr)
 {
   if (0 == base) {
-    return constructDiagPtr_<0>(m, rowptr, colidx);
+    constructDiagPtr_<0>(m, rowptr, colidx, diagptr);
   }
   else {
     assert(1 == base);
-    return constructDiagPtr_<1>(m, rowptr, colidx);
+    constructDiagPtr_<1>(m, rowptr, colidx, diagptr);
   }
 }
 
 void CSR::constructDiagPtr()
 {
   if (!diagptr) {
-    diagptr = constructDiagPtr_(m, rowptr, colidx, getBase());
+    diagptr = allocate_<int>(m);
+    constructDiagPtr_(m, rowptr, colidx, getBase(), diagptr);
   }
 }
 
@@ -180,7 +180,8 @@ void LevelSchedule::constructTaskGraph(CSR& A, const CostFunction& costFunction)
 void LevelSchedule::constructTaskGraph(
   int m, const int *rowptr, const int *colidx, const CostFunction& costFunction)
 {
-  int *diagptr = constructDiagPtr_(m, rowptr, colidx, rowptr[0]);
+  int *diagptr = MALLOC(int, m);
+  constructDiagPtr_(m, rowptr, colidx, rowptr[0], diagptr);
 
   constructTaskGraph(m, rowptr, diagptr, NULL, colidx, costFunction);
 
-- 
2.43.0


From 20036e91d23675ea4b5fa740822116bbf1e8b4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:50 +0000
Subject: [PATCH 47/47] fix: parMemset and parMemcpy of 2 GB and more

---
 Utils.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Utils.cpp b/Utils.cpp
index e673627..e3dbc57 100644
--- a/Utils.cpp
+++ b/Utils.cpp
@@ -70,8 +70,8 @@ void parMemset(void *ptr, int c, size_t n)
     int nCacheLineBegin, nCacheLineEnd;
     getSimpleThreadPartition(&nCacheLineBegin, &nCacheLineEnd, nCacheLines);
 
-    int nBegin = nCacheLineBegin*64;
-    int nEnd = omp_get_thread_num() == omp_get_num_threads() - 1 ? n : nCacheLineEnd*64;
+    size_t nBegin = (size_t)nCacheLineBegin*64;
+    size_t nEnd = omp_get_thread_num() == omp_get_num_threads() - 1 ? n : (size_t)nCacheLineEnd*64;
 
     memset((char *)ptr + nBegin, c, nEnd - nBegin);
   }
@@ -85,8 +85,8 @@ void parMemcpy(void *dst, const void *src, size_t n)
     int nCacheLineBegin, nCacheLineEnd;
     getSimpleThreadPartition(&nCacheLineBegin, &nCacheLineEnd, nCacheLines);
 
-    int nBegin = nCacheLineBegin*64;
-    int nEnd = omp_get_thread_num() == omp_get_num_threads() - 1 ? n : nCacheLineEnd*64;
+    size_t nBegin = (size_t)nCacheLineBegin*64;
+    size_t nEnd = omp_get_thread_num() == omp_get_num_threads() - 1 ? n : (size_t)nCacheLineEnd*64;
 
     memcpy((char *)dst + nBegin, (char *)src + nBegin, nEnd - nBegin);
   }
-- 
2.43.0

