From e3ce28b95f0bd454d482697184d95dd0b0a71d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:20 +0000
Subject: [PATCH 01/35] fix: copying an empty matrix gives an empty matrix

The copy constructor and the assignment operator allocated zero elements, so that
the copy owned a non-null zero-sized block which passes the null-pointer checks and
is never released by a later assignment.
---
 inc/susa/matrix.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/inc/susa/matrix.h b/inc/susa/matrix.h
index f9df673..7181821 100644
--- a/inc/susa/matrix.h
+++ b/inc/susa/matrix.h
@@ -443,6 +443,8 @@ matrix <T, Allocator>::matrix(const matrix <T, Allocator> &mat_arg)
     this->sizet_cols      = mat_arg.sizet_cols;
     this->sizet_objects   = mat_arg.sizet_objects;
 
+    if (sizet_objects == 0) return;
+
     if (allocate(sizet_objects))
     {
         std::memcpy(_matrix, mat_arg._matrix, sizet_objects * sizeof(T));
@@ -1302,6 +1304,8 @@ template <typename T, typename Allocator> matrix<T, Allocator>& matrix <T, Alloc
     sizet_cols      = mat_arg.sizet_cols;
     sizet_objects   = sizet_rows * sizet_cols;
 
+    if (sizet_objects == 0) return *this;
+
     if (allocate(sizet_objects))
     {
         std::memcpy(_matrix, mat_arg._matrix, sizet_objects * sizeof(T));
-- 
2.43.0


From 0c8d4c71340c257064db0e9d2e44d8fa24e21636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:20 +0000
Subject: [PATCH 02/35] fix: self-assignment of a matrix keeps its elements

The storage was released before it was copied from.
---
 inc/susa/matrix.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/inc/susa/matrix.h b/inc/susa/matrix.h
index 7181821..c9fe39d 100644
--- a/inc/susa/matrix.h
+++ b/inc/susa/matrix.h
@@ -1294,6 +1294,8 @@ template <typename T, typename Allocator> matrix<T, Allocator> matrix <T, Alloca
 //  =
 template <typename T, typename Allocator> matrix<T, Allocator>& matrix <T, Allocator>::operator=( const matrix <T, Allocator> &mat_arg )
 {
+    if (this == &mat_arg) return *this;
+
     if (sizet_objects != 0 && _matrix != nullptr)
     {
         alloc.deallocate(_matrix, sizet_objects);
-- 
2.43.0


From 345e1ad4cfa72ad7e2f615e6627be053397c969f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:20 +0000
Subject: [PATCH 03/35] fix: a moved-from matrix is empty

The source kept its sizes without its storage: iterating over it or copying it
dereferenced the null pointer.
---
 inc/susa/matrix.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/inc/susa/matrix.h b/inc/susa/matrix.h
index c9fe39d..4511873 100644
--- a/inc/susa/matrix.h
+++ b/inc/susa/matrix.h
@@ -500,6 +500,9 @@ matrix <T, Allocator>::matrix(matrix<T, Allocator>&& mat_arg) noexcept
     _matrix             = mat_arg._matrix;
     mat_arg.T_default      = nullptr;
     mat_arg._matrix     = nullptr;
+    mat_arg.sizet_rows    = 0;
+    mat_arg.sizet_cols    = 0;
+    mat_arg.sizet_objects = 0;
 }
 
 
-- 
2.43.0


From 588be2fbba6f6e6360ca016e93e96266a8a793e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:20 +0000
Subject: [PATCH 04/35] fix: row() and col() reject an index outside the matrix

They returned a row or column of uninitialised elements.
---
 inc/susa/matrix.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/inc/susa/matrix.h b/inc/susa/matrix.h
index 4511873..9f15e15 100644
--- a/inc/susa/matrix.h
+++ b/inc/susa/matrix.h
@@ -589,6 +589,8 @@ template <typename T, typename Allocator> void  matrix <T, Allocator>::set_all(T
 
 template <typename T, typename Allocator> matrix <T, Allocator> matrix <T, Allocator>::row(size_t sizet_row) const
 {
+    SUSA_ASSERT_MESSAGE(sizet_row < sizet_rows, "the row index is out of range.");
+
     matrix <T, Allocator> mat_ret(1, sizet_cols);
 
     if (sizet_row < sizet_rows)
@@ -604,6 +606,8 @@ template <typename T, typename Allocator> matrix <T, Allocator> matrix <T, Alloc
 
 template <typename T, typename Allocator> matrix <T, Allocator> matrix <T, Allocator>::col(size_t sizet_col) const
 {
+    SUSA_ASSERT_MESSAGE(sizet_col < sizet_cols, "the column index is out of range.");
+
     matrix <T, Allocator> mat_ret(sizet_rows, 1);
 
     if (sizet_col < sizet_cols)
-- 
2.43.0


From 5775eacaf8a9e7e4e17dca129b1556b3a46148cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:20 +0000
Subject: [PATCH 05/35] fix: set_row() and set_col() reject every invalid
 argument

The assertion held when only one of the two conditions did, and the index equal to
the number of rows (columns) was accepted: elements outside the matrix were written.
---
 inc/susa/matrix.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/inc/susa/matrix.h b/inc/susa/matrix.h
index 9f15e15..d807ee0 100644
--- a/inc/susa/matrix.h
+++ b/inc/susa/matrix.h
@@ -628,8 +628,8 @@ template <typename T, typename Allocator> size_t matrix <T, Allocator>::size() c
 
 template <typename T, typename Allocator> bool matrix <T, Allocator>::set_row(size_t row, const matrix <T, Allocator>& mat_arg)
 {
-    SUSA_ASSERT_MESSAGE((row < sizet_rows || mat_arg.sizet_objects >= sizet_cols), "dimention mismatch");
-    if (row > sizet_rows || mat_arg.sizet_objects < sizet_cols) return false;
+    SUSA_ASSERT_MESSAGE((row < sizet_rows && mat_arg.sizet_objects >= sizet_cols), "dimention mismatch");
+    if (row >= sizet_rows || mat_arg.sizet_objects < sizet_cols) return false;
 
     for (size_t indx = 0; indx < sizet_cols; indx++)
     {
@@ -641,8 +641,8 @@ template <typename T, typename Allocator> bool matrix <T, Allocator>::set_row(si
 
 template <typename T, typename Allocator> bool matrix <T, Allocator>::set_col(size_t col, const matrix <T, Allocator>& mat_arg)
 {
-    SUSA_ASSERT_MESSAGE((col < sizet_cols || mat_arg.sizet_objects >= sizet_rows), "dimension mismatch");
-    if (col > sizet_cols || mat_arg.sizet_objects < sizet_rows) return false;
+    SUSA_ASSERT_MESSAGE((col < sizet_cols && mat_arg.sizet_objects >= sizet_rows), "dimension mismatch");
+    if (col >= sizet_cols || mat_arg.sizet_objects < sizet_rows) return false;
 
     for (size_t indx = 0; indx < sizet_rows; indx++)
     {
-- 
2.43.0


From a8ac420c31fb9c7a3ff9907730765da556e12f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:20 +0000
Subject: [PATCH 06/35] fix: swap_rows() and swap_cols() reject indices outside
 the matrix

They wrote outside the matrix.
---
 inc/susa/matrix.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/inc/susa/matrix.h b/inc/susa/matrix.h
index d807ee0..4ec4c5b 100644
--- a/inc/susa/matrix.h
+++ b/inc/susa/matrix.h
@@ -676,6 +676,9 @@ template <typename T, typename Allocator> std::vector <T> matrix <T, Allocator>:
 
 template <typename T, typename Allocator> void matrix <T, Allocator>::swap_cols(size_t col_a, size_t col_b)
 {
+    SUSA_ASSERT_MESSAGE(col_a < sizet_cols && col_b < sizet_cols, "one or more indices is/are out of range.");
+    if (col_a >= sizet_cols || col_b >= sizet_cols) return;
+
     T T_tmp;
 
     for (size_t row = 0; row < sizet_rows; row++)
@@ -689,6 +692,9 @@ template <typename T, typename Allocator> void matrix <T, Allocator>::swap_cols(
 
 template <typename T, typename Allocator> void matrix <T, Allocator>::swap_rows(size_t row_a, size_t row_b)
 {
+    SUSA_ASSERT_MESSAGE(row_a < sizet_rows && row_b < sizet_rows, "one or more indices is/are out of range.");
+    if (row_a >= sizet_rows || row_b >= sizet_rows) return;
+
     T T_tmp;
 
     for (size_t col = 0; col < sizet_cols; col++)
-- 
2.43.0


From 646a583e4de3a7b2a5881dc30c4f21403cff253b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:20 +0000
Subject: [PATCH 07/35] fix: left() rejects more columns than the matrix has

The surplus columns of the result were uninitialised.
---
 inc/susa/matrix.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/inc/susa/matrix.h b/inc/susa/matrix.h
index 4ec4c5b..1618835 100644
--- a/inc/susa/matrix.h
+++ b/inc/susa/matrix.h
@@ -816,6 +816,7 @@ matrix <T, Allocator> matrix <T, Allocator>::left(size_t sizet_left) const
     }
     else
     {
+        SUSA_ASSERT(sizet_cols >= sizet_left);
         mat_ret = matrix <T, Allocator> (sizet_rows,sizet_left);
         for (size_t sizet_row = 0; sizet_row < sizet_rows; sizet_row++)
             for (size_t sizet_col = 0; sizet_col < sizet_cols && sizet_col < sizet_left; sizet_col++)
-- 
2.43.0


From 1944f1458b184d3fcbcb855699d2ad53ea4a506a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:20 +0000
Subject: [PATCH 08/35] fix: right() returns the last elements of a vector

The result was shifted by one element, and reading started before the storage when all
elements were asked for.
---
 inc/susa/matrix.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/inc/susa/matrix.h b/inc/susa/matrix.h
index 1618835..f7bc298 100644
--- a/inc/susa/matrix.h
+++ b/inc/susa/matrix.h
@@ -842,7 +842,7 @@ matrix <T, Allocator> matrix <T, Allocator>::right(size_t sizet_right) const
         if (sizet_rows == 1) mat_ret = matrix <T, Allocator> (1,sizet_right);
         else if (sizet_cols == 1) mat_ret = matrix <T, Allocator> (sizet_right,1);
 
-        size_t sz_start  = sizet_objects - sizet_right - 1;
+        size_t sz_start  = sizet_objects - sizet_right;
         T*     _r_matrix = &_matrix[sz_start];
         for (size_t sizet_i = 0; sizet_i < sizet_right; sizet_i++)
         {
@@ -851,6 +851,7 @@ matrix <T, Allocator> matrix <T, Allocator>::right(size_t sizet_right) const
     }
     else
     {
+        SUSA_ASSERT(sizet_cols >= sizet_right);
         size_t sz_start = sizet_cols - sizet_right;
         mat_ret = matrix <T, Allocator> (sizet_rows, sizet_right);
         for (size_t sizet_row = 0; sizet_row < sizet_rows; sizet_row++)
-- 
2.43.0


From ac093964caa7ae22b516269a31fddaaff49327dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:59 +0000
Subject: [PATCH 09/35] fix: concat() places the right-hand matrix after the
 left-hand columns

---
 inc/susa/linalg.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/susa/linalg.h b/inc/susa/linalg.h
index 66f9072..1baca50 100644
--- a/inc/susa/linalg.h
+++ b/inc/susa/linalg.h
@@ -244,7 +244,7 @@ matrix <T, Allocator> concat(const matrix <T, Allocator> &mat_argl, const matrix
         {
             for (size_t sizet_col = 0; sizet_col < mat_argr.no_cols(); sizet_col++)
             {
-                mat_ret(sizet_row,mat_argr.no_cols() + sizet_col) = mat_argr(sizet_row,sizet_col);
+                mat_ret(sizet_row,mat_argl.no_cols() + sizet_col) = mat_argr(sizet_row,sizet_col);
             }
         }
     }
-- 
2.43.0


From 61cb0d30dc098499c16606b36d935e5a6a07b61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:09 +0000
Subject: [PATCH 10/35] fix: hermitian() compiles and returns a complex matrix

---
 inc/susa/linalg.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/inc/susa/linalg.h b/inc/susa/linalg.h
index 1baca50..3bd21f9 100644
--- a/inc/susa/linalg.h
+++ b/inc/susa/linalg.h
@@ -123,12 +123,12 @@ matrix <std::complex<T>, Allocator> hermitian(const matrix <std::complex<T>, All
 {
     size_t sizet_rows = mat_arg.no_rows();
     size_t sizet_cols = mat_arg.no_cols();
-    matrix <T, Allocator> mat_ret;
+    matrix <std::complex<T>, Allocator> mat_ret;
 
-    SUSA_ASSERT(mat_arg._matrix != nullptr);
-    if (mat_arg._matrix == nullptr) return mat_ret;
+    SUSA_ASSERT(mat_arg.size() != 0);
+    if (mat_arg.size() == 0) return mat_ret;
 
-    mat_ret = matrix <T, Allocator> (sizet_cols, sizet_rows);
+    mat_ret = matrix <std::complex<T>, Allocator> (sizet_cols, sizet_rows);
 
     for (size_t sizet_col = 0; sizet_col < sizet_cols; sizet_col++)
     {
-- 
2.43.0


From 372df36367601796adecb745042abf70ab37db2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:27 +0000
Subject: [PATCH 11/35] fix: det() computes in double precision for every
 element type

---
 inc/susa/linalg.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inc/susa/linalg.h b/inc/susa/linalg.h
index 3bd21f9..99a72d8 100644
--- a/inc/susa/linalg.h
+++ b/inc/susa/linalg.h
@@ -164,7 +164,7 @@ double det(const matrix <T, Allocator> &mat_arg)
         }
         else if (sizet_rows == 2)
         { // 2 x 2
-            dbl_ret = mat_arg(0, 0) * mat_arg(1, 1) - mat_arg(1, 0) * mat_arg(0, 1);
+            dbl_ret = (double)mat_arg(0, 0) * mat_arg(1, 1) - (double)mat_arg(1, 0) * mat_arg(0, 1);
         }
         else
         { // 3 x 3 and more
@@ -180,7 +180,7 @@ double det(const matrix <T, Allocator> &mat_arg)
                     SUSA_LOG_ERR("falling into an infinite loop avoided.");
                     return dbl_ret;
                 }
-                dbl_ret +=  (-2 * (int)(sizet_col % 2) + 1) * mat_arg(0, sizet_col) * det(mat_minor);
+                dbl_ret +=  (-2.0 * (double)(sizet_col % 2) + 1.0) * mat_arg(0, sizet_col) * det(mat_minor);
             }
         }
     }
-- 
2.43.0


From fd49b0c6090e09b5252dec876d0acbc179bc01f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:30 +0000
Subject: [PATCH 12/35] fix: abs() of a matrix or a vector compiles and covers
 the first element

---
 inc/susa/base.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/inc/susa/base.h b/inc/susa/base.h
index 30526f8..b69fe80 100644
--- a/inc/susa/base.h
+++ b/inc/susa/base.h
@@ -371,7 +371,7 @@ template <typename T>
 std::vector <T> abs(const std::vector <T> &vec_arg)
 {
     std::vector <T> vec_abs(vec_arg.size(),0);
-    for (size_t i = 0; i < vec_arg.size(); i++) vec_abs[i] = abs(vec_arg[i]);
+    for (size_t i = 0; i < vec_arg.size(); i++) vec_abs[i] = std::abs(vec_arg[i]);
     return vec_abs;
 }
 
@@ -380,9 +380,9 @@ susa::matrix <T, Allocator> abs(const susa::matrix <T, Allocator> &mat_arg)
 {
     susa::matrix <T, Allocator>     mat_ret(mat_arg.shape());
     size_t size = mat_arg.size();
-    for (size_t uint_i = 1; uint_i < size; uint_i++)
+    for (size_t uint_i = 0; uint_i < size; uint_i++)
     {
-        mat_ret(uint_i) = abs(mat_arg(uint_i));
+        mat_ret(uint_i) = std::abs(mat_arg(uint_i));
     }
 
     return mat_ret;
-- 
2.43.0


From 602a266b0af54a8495feb14fc5c40ca0ad5595e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:30 +0000
Subject: [PATCH 13/35] fix: max() of a single element is its index, as in
 min()

---
 inc/susa/base.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/susa/base.h b/inc/susa/base.h
index b69fe80..fa9a5a3 100644
--- a/inc/susa/base.h
+++ b/inc/susa/base.h
@@ -447,7 +447,7 @@ matrix <size_t> max(const matrix <T, Allocator> &mat_arg)
             }
         }
     }
-    else if (mat_arg.no_rows() > 1 && mat_arg.no_cols() > 1)
+    else
     {
         mat_ret = matrix <size_t> (1, mat_arg.no_cols(), 0);
         for (size_t uint_col = 0; uint_col < mat_arg.no_cols(); uint_col++)
-- 
2.43.0


From 1e1737be64907a01dd0f4ebf37f5a54c97c0803c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:30 +0000
Subject: [PATCH 14/35] fix: mean() of signed integers does not divide by an
 unsigned count

---
 inc/susa/base.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inc/susa/base.h b/inc/susa/base.h
index fa9a5a3..84a2924 100644
--- a/inc/susa/base.h
+++ b/inc/susa/base.h
@@ -344,7 +344,7 @@ matrix <T, Allocator> mean(const matrix <T, Allocator> &mat_arg)
         {
             T_ret += mat_arg(uint_i);
         }
-        T_ret /= mat_arg.size();
+        T_ret /= static_cast<std::ptrdiff_t>(mat_arg.size());
         mat_ret = matrix <T, Allocator> (1, 1, T_ret);
     }
     else if (mat_arg.no_rows() > 1 && mat_arg.no_cols() > 1)
@@ -358,7 +358,7 @@ matrix <T, Allocator> mean(const matrix <T, Allocator> &mat_arg)
                 T_ret += mat_arg(uint_row, uint_col);
             }
 
-            T_ret               /= no_rows;
+            T_ret               /= static_cast<std::ptrdiff_t>(no_rows);
             mat_ret(uint_col)   = T_ret;
             T_ret               = T(0);
         }
-- 
2.43.0


From db9b13c2c079cda54bc6a58937fcd0e2a2d9b69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:30 +0000
Subject: [PATCH 15/35] fix: log2() terminates for arguments with the top bit
 set

---
 inc/susa/base.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/inc/susa/base.h b/inc/susa/base.h
index 84a2924..ea7dca3 100644
--- a/inc/susa/base.h
+++ b/inc/susa/base.h
@@ -276,8 +276,9 @@ T log2(T int_arg)
 {
     T ret(0);
 
-    while ((int_arg >> ret) != 0)
+    while (int_arg != 0)
     {
+        int_arg = int_arg >> 1;
         ret++;
     }
 
-- 
2.43.0


From 502ff071c67c21616bb4a183a00d3b93bb2e6163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:30 +0000
Subject: [PATCH 16/35] fix: diff() of an empty vector is empty

---
 inc/susa/base.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/inc/susa/base.h b/inc/susa/base.h
index ea7dca3..98bac8f 100644
--- a/inc/susa/base.h
+++ b/inc/susa/base.h
@@ -287,6 +287,8 @@ T log2(T int_arg)
 
 template <typename T> std::vector <T> diff(std::vector <T> &vec_arg)
 {
+    if (vec_arg.empty()) return std::vector <T>();
+
     std::vector <T> vec_diff(vec_arg.size() - 1, T(0));
 
     for (size_t i = 0; i < vec_arg.size() - 1; i++)
-- 
2.43.0


From bbc2599ade2c9519e13d69cf59e8a917cf07d227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:30 +0000
Subject: [PATCH 17/35] fix: mod() is computed in integer arithmetic

---
 src/base.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/base.cpp b/src/base.cpp
index 8eaa960..8c2793d 100644
--- a/src/base.cpp
+++ b/src/base.cpp
@@ -80,7 +80,9 @@ int pow(int int_b, unsigned int uint_p)
 
 long int mod(long int lint_a, long int lint_mod)
 {
-    return(lint_a - std::floor((float)lint_a / lint_mod) * lint_mod);
+    long int lint_ret = lint_a % lint_mod;
+    if (lint_ret != 0 && ((lint_ret < 0) != (lint_mod < 0))) lint_ret += lint_mod;
+    return lint_ret;
 }
 
 double round(const double dbl_arg, int int_decimal)
-- 
2.43.0


From be0a8bedcc48b342a98cef783ea554aea0c331ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:30 +0000
Subject: [PATCH 18/35] fix: mean() of a vector of signed integers does not
 divide by an unsigned count

---
 inc/susa/statistics.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/susa/statistics.h b/inc/susa/statistics.h
index d8b32fc..ea83ba0 100644
--- a/inc/susa/statistics.h
+++ b/inc/susa/statistics.h
@@ -61,7 +61,7 @@ template <class T> T mean(std::vector <T> vec_arg)
         tMean += vec_arg[i];
     }
 
-    return (tMean/vec_arg.size());
+    return (tMean/static_cast<std::ptrdiff_t>(vec_arg.size()));
 }
 
 
-- 
2.43.0


From b8bdb0b517019fa1a419dc520eab56f15ee620da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:19 +0000
Subject: [PATCH 19/35] fix: round() covers every element of matrices with more
 than 2^32 elements

---
 src/base.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/base.cpp b/src/base.cpp
index 8c2793d..d43073d 100644
--- a/src/base.cpp
+++ b/src/base.cpp
@@ -101,9 +101,9 @@ double round(const double dbl_arg, int int_decimal)
 
 matrix <double> round(const matrix <double> &mat_arg, int int_decimal)
 {
-    unsigned int uint_size = mat_arg.size();
+    size_t uint_size = mat_arg.size();
     matrix <double> mat_ret(mat_arg.no_rows(), mat_arg.no_cols());
-    for (unsigned int uint_indx = 0; uint_indx < uint_size; uint_indx++)
+    for (size_t uint_indx = 0; uint_indx < uint_size; uint_indx++)
     {
         mat_ret(uint_indx) = susa::round(mat_arg(uint_indx), int_decimal);
     }
-- 
2.43.0


From ada95ed5f6bf190557c5ff8cd6c2a67532686500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:39 +0000
Subject: [PATCH 20/35] fix: upsample() sets the inserted rows to zero

---
 inc/susa/signal.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/susa/signal.h b/inc/susa/signal.h
index 31e6979..e2e88f5 100644
--- a/inc/susa/signal.h
+++ b/inc/susa/signal.h
@@ -138,7 +138,7 @@ matrix <T, Allocator> toeplitz(const matrix <T, Allocator>& mat_col);
 template <typename T, typename Allocator>
 matrix <T, Allocator> upsample(const matrix <T, Allocator> &mat_arg, size_t uint_u)
 {
-    matrix <T, Allocator> mat_tmp(uint_u * mat_arg.no_rows(), mat_arg.no_cols());
+    matrix <T, Allocator> mat_tmp(uint_u * mat_arg.no_rows(), mat_arg.no_cols(), T(0));
 
     for (size_t size_col = 0; size_col < mat_arg.no_cols(); size_col++)
     {
-- 
2.43.0


From d2eecdf5928b9871a14a29256f57d085c6599ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:39 +0000
Subject: [PATCH 21/35] fix: filter() processes a single sample

---
 inc/susa/signal.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/susa/signal.h b/inc/susa/signal.h
index e2e88f5..6ae55ba 100644
--- a/inc/susa/signal.h
+++ b/inc/susa/signal.h
@@ -230,7 +230,7 @@ filter(const matrix <TT, Allocator<TT>>& mat_arg_b, const matrix <TT, Allocator<
             }
         }
     }
-    else if (size_x_cols > 1 && size_x_rows == 1)
+    else if (size_x_cols >= 1 && size_x_rows == 1)
     {
         // for row vector
         size_ret_len = mat_arg_x.size() + size_length;
-- 
2.43.0


From 61385f061a32e8f7da1efc5ffd3ab00370854ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:52 +0000
Subject: [PATCH 22/35] fix: conv() of a vector and a scalar scales the vector

---
 inc/susa/signal.h | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/inc/susa/signal.h b/inc/susa/signal.h
index 6ae55ba..924bc52 100644
--- a/inc/susa/signal.h
+++ b/inc/susa/signal.h
@@ -262,7 +262,15 @@ matrix <T, Allocator> conv(const matrix <T, Allocator>& mat_arg_a, const matrix
     matrix <T, Allocator>   mat_ret;
     size_t                  size_length;
 
-    if (mat_arg_b.is_vector())
+    if (mat_arg_b.is_scalar())
+    {
+        mat_ret = mat_arg_b(0) * mat_arg_a;
+    }
+    else if (mat_arg_a.is_scalar())
+    {
+        mat_ret = mat_arg_a(0) * mat_arg_b;
+    }
+    else if (mat_arg_b.is_vector())
     {
         size_length = mat_arg_b.size() - 1;
         mat_ret = filter(mat_arg_b, matrix <T, Allocator> (1,1,1), mat_arg_a, size_length);
@@ -273,14 +281,6 @@ matrix <T, Allocator> conv(const matrix <T, Allocator>& mat_arg_a, const matrix
         mat_ret = filter(mat_arg_a, matrix <T, Allocator> (1,1,1), mat_arg_b, size_length);
 
     }
-    else if (mat_arg_b.is_scalar())
-    {
-        mat_ret = mat_arg_b(0) * mat_arg_a;
-    }
-    else if (mat_arg_a.is_scalar())
-    {
-        mat_ret = mat_arg_a(0) * mat_arg_b;
-    }
     else
     {
         //TODO: implement conv2()
-- 
2.43.0


From 4bcd7d25abd1feeb4e9dacc5ffad42508a2eceef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:42 +0000
Subject: [PATCH 23/35] fix: bitset::set() makes every index a member

---
 src/sets.cpp | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/sets.cpp b/src/sets.cpp
index 758630b..d3230a6 100644
--- a/src/sets.cpp
+++ b/src/sets.cpp
@@ -94,12 +94,7 @@ namespace susa
 
   void bitset::set()
   {
-    for (unsigned int index = 0; index < nbytes; index++)
-    {
-      unsigned int byte = index / 8;
-      unsigned int bit  = index % 8;
-      this->_matrix[byte] |= (0x01 << bit);
-    }
+    for (size_t index = 0; index < uint_set_size; index++) set(index);
   }
 
   void bitset::reset()
-- 
2.43.0


From e2dcbeabeb147a3bc6c61066943cf1fed5c64cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:42 +0000
Subject: [PATCH 24/35] fix: bitset addresses every index of large sets

---
 src/sets.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sets.cpp b/src/sets.cpp
index d3230a6..dfeba4c 100644
--- a/src/sets.cpp
+++ b/src/sets.cpp
@@ -44,7 +44,7 @@ namespace susa
 
     if (index >= uint_set_size) return;
 
-    unsigned int byte = index / 8;
+    size_t       byte = index / 8;
     unsigned int bit  = index % 8;
 
 
@@ -56,7 +56,7 @@ namespace susa
   {
     if (exists(index))
     {
-      unsigned int byte = index / 8;
+      size_t       byte = index / 8;
       unsigned int bit  = index % 8;
       if (byte > nbytes) return;
       this->_matrix[byte] ^= (0x01 << bit);
@@ -65,7 +65,7 @@ namespace susa
 
   size_t bitset::pop()
   {
-    for (unsigned int uint_index = 0; uint_index < uint_set_size; uint_index++)
+    for (size_t uint_index = 0; uint_index < uint_set_size; uint_index++)
     {
       if (exists(uint_index))
       {
@@ -85,7 +85,7 @@ namespace susa
   bool bitset::exists(size_t index)
   {
     if (index >= uint_set_size) return false;
-    unsigned int byte = index / 8;
+    size_t       byte = index / 8;
     unsigned int bit  = index % 8;
 
     if (byte > nbytes) return false;
-- 
2.43.0


From e6f4974d9c455df958435840d5dd139d55c1281a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:13 +0000
Subject: [PATCH 25/35] fix: rng tempering masks the second shift with C as
 MT19937 requires

---
 src/rng.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rng.cpp b/src/rng.cpp
index e8bc91e..b25977a 100644
--- a/src/rng.cpp
+++ b/src/rng.cpp
@@ -220,7 +220,7 @@ unsigned int rng::extract_number()
     uint32_t x = MT[uint_index++];
     x = x ^ (x  >> U);
     x = x ^ ((x << S)  & B);
-    x = x ^ ((x << T)  ^ C);
+    x = x ^ ((x << T)  & C);
     x = x ^ (x  >> L);
     return x;
 }
-- 
2.43.0


From 41e325356db1ca7fb4cf378f10da0acdebe8aa2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:13 +0000
Subject: [PATCH 26/35] fix: rng seeds its state in every constructor and
 restarts the sequence at each init

---
 src/rng.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/rng.cpp b/src/rng.cpp
index b25977a..daf14aa 100644
--- a/src/rng.cpp
+++ b/src/rng.cpp
@@ -31,12 +31,11 @@ namespace susa {
 // Constructors and Destructor
 rng::rng()
 {
-    uint_index = 0;
+    init(5489);
 }
 
 rng::rng(unsigned int uint_seed)
 {
-    uint_index = 0;
     init(uint_seed);
 }
 
@@ -149,6 +148,9 @@ void rng::init(unsigned int uint_seed)
     {
         MT[indx] = F * (MT[indx - 1] ^ (MT[indx - 1]) >> 30) + indx;
     }
+
+    // The seed words are not output; the first draw generates a block
+    uint_index = N;
 }
 
 size_t rng::get_nonuniform(double* prob, size_t n)
-- 
2.43.0


From 10444b3c2b11406172a9d760372b22540b4db197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:23 +0000
Subject: [PATCH 27/35] fix: a default constructed ccode is destructible

---
 src/ccode.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ccode.cpp b/src/ccode.cpp
index f5e055f..c190011 100755
--- a/src/ccode.cpp
+++ b/src/ccode.cpp
@@ -33,6 +33,9 @@ ccode::ccode()
     uint_k = 1;
     uint_n = 0;
     uint_m = 0;
+    uint_mmask = 0;
+    uint_gen = nullptr;
+    zero_state();
 }
 
 ccode::~ccode()
-- 
2.43.0


From 1d87cb4739fc070e3dd6d2d1cdef8a420112918f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:23 +0000
Subject: [PATCH 28/35] fix: ccode computes the mask of 31 memories without
 signed overflow

---
 src/ccode.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ccode.cpp b/src/ccode.cpp
index c190011..c804c09 100755
--- a/src/ccode.cpp
+++ b/src/ccode.cpp
@@ -55,7 +55,7 @@ ccode::ccode(uint32_t uint_n, uint32_t uint_k, uint32_t uint_m)
     this->uint_k     = uint_k;
     this->uint_n     = uint_n;
     this->uint_m     = uint_m;
-    uint_mmask       = susa::pow(2, uint_m) - 1;
+    uint_mmask       = (1u << uint_m) - 1;
 
     try
     {
-- 
2.43.0


From 760ef81b5818ca03160f3c52e05a772322a65be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:23 +0000
Subject: [PATCH 29/35] fix: ccode::rate returns the rate instead of its
 integer part

---
 inc/susa/ccode.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/susa/ccode.h b/inc/susa/ccode.h
index fd14b3a..1cb9bf7 100644
--- a/inc/susa/ccode.h
+++ b/inc/susa/ccode.h
@@ -106,7 +106,7 @@ class ccode
      **/
     float rate()
     {
-      return (uint_k / uint_n);
+      return (static_cast<float>(uint_k) / uint_n);
     }
 
     /**
-- 
2.43.0


From bd17463606b0d6f4ad1e3f798194dab3182ef872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:06 +0000
Subject: [PATCH 30/35] fix: allocator_log counts an allocation only after it
 has succeeded

---
 inc/susa/memory.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/susa/memory.h b/inc/susa/memory.h
index e0d6be2..cdde7cc 100644
--- a/inc/susa/memory.h
+++ b/inc/susa/memory.h
@@ -105,8 +105,8 @@ template <typename T> class allocator_log : public std::allocator<T>
          */
         pointer allocate(size_type size, const void *hint = 0)
         {
-            memory_tacker::instance().add(size * sizeof(T));
             pointer ptr = base::allocate(size, hint);
+            memory_tacker::instance().add(size * sizeof(T));
             SUSA_LOG_INF("allocate " << size * sizeof(T) << " bytes. pointer (" << ptr << ")");
             return ptr;
         }
-- 
2.43.0


From abfa9f40cf184f8b60651417a4d9a93775abc3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:21 +0000
Subject: [PATCH 31/35] fix: rrcosine samples the spectrum at fractional
 frequencies instead of unsigned quotients

---
 src/rrcosine.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rrcosine.cpp b/src/rrcosine.cpp
index 31a386c..53a7446 100644
--- a/src/rrcosine.cpp
+++ b/src/rrcosine.cpp
@@ -38,7 +38,7 @@ rrcosine::rrcosine(unsigned dbl_l, double dbl_alpha, int int_ord)
     {
         for (int m=-(int_ord - 1)/2; m <= (int_ord - 1)/2 ; m++)
         {
-            cmat_g_T(i) += sqrt(xrc(dbl_l * m / int_ord, dbl_alpha)) * 
+            cmat_g_T(i) += sqrt(xrc((double)dbl_l * m / int_ord, dbl_alpha)) * 
                             exp(std::complex<double>(0, 2 * PI * m * (i - (int_ord - 1)/2)/int_ord));
         }
     }
-- 
2.43.0


From 9284fab376cafc92e917ab7946d2739ac32f1018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:50 +0000
Subject: [PATCH 32/35] fix: select_least, select_limited_least and select_most
 mark the selected elements instead of overwriting them with a sentinel value

---
 inc/susa/search.h | 57 +++++++++++++++++++----------------------------
 1 file changed, 23 insertions(+), 34 deletions(-)

diff --git a/inc/susa/search.h b/inc/susa/search.h
index d76dc35..5533a0f 100644
--- a/inc/susa/search.h
+++ b/inc/susa/search.h
@@ -113,35 +113,31 @@ template <class T> matrix <unsigned int> select_least(const matrix <T> &mat_arg,
     SUSA_ASSERT_MESSAGE(mat_arg.is_vector(), "this method supports one dimensional matrices (vectors) only.");
 
     unsigned int uint_size = mat_arg.size();
-    matrix <T> mat_ret     = mat_arg;
     matrix <unsigned int> mat_index(uint_num, 1);
 
-    SUSA_ASSERT_MESSAGE(uint_size > uint_num, "The number of elements to be selected is larger than the matrix size.");
-
+    SUSA_ASSERT_MESSAGE(uint_size >= uint_num, "The number of elements to be selected is larger than the matrix size.");
     if (uint_size < uint_num)
     {
         return mat_index;
     }
 
+    susa::bitset set_selected(uint_size);
     unsigned int uint_min_index;
-    T T_min;
 
     for (unsigned int uint_i = 0; uint_i < uint_num; uint_i++)
     {
-        uint_min_index = uint_i;
-        T_min = mat_ret(uint_i);
+        uint_min_index = uint_size;  // no candidate yet
         for (unsigned int uint_j = 0; uint_j < uint_size; uint_j++)
         {
-            if (mat_ret(uint_j) < T_min)
+            if (set_selected.exists(uint_j)) continue;
+            if (uint_min_index == uint_size || mat_arg(uint_j) < mat_arg(uint_min_index))
             {
                 uint_min_index = uint_j;
-                T_min = mat_ret(uint_j);
             }
         }
 
         mat_index(uint_i) = uint_min_index;
-
-        mat_ret(uint_min_index) = std::numeric_limits<T>::max();
+        set_selected.set(uint_min_index);
     }
 
     return mat_index;
@@ -156,34 +152,32 @@ template <class T> matrix <unsigned int> select_limited_least(const matrix <T> &
     SUSA_ASSERT_MESSAGE(mat_arg.is_vector(), "this method supports one dimensional matrices (vectors) only.");
 
     unsigned int uint_size = mat_arg.size();
-    matrix <T> mat_ret     = mat_arg;
     matrix <unsigned int> mat_index(uint_num, 1);
 
-    SUSA_ASSERT_MESSAGE(uint_size > uint_num, "The number of elements to be selected is larger than the matrix size.");
-    if (uint_size < uint_num)
+    SUSA_ASSERT_MESSAGE(mat_limited_index.size() >= uint_num, "The number of elements to be selected is larger than the set of indices size.");
+    if (mat_limited_index.size() < uint_num)
     {
         return mat_index;
     }
 
+    susa::bitset set_selected(uint_size);
     unsigned int uint_min_index;
-    T T_min;
 
-    for( unsigned int uint_i = 0; uint_i < uint_num; uint_i++)
+    for (unsigned int uint_i = 0; uint_i < uint_num; uint_i++)
     {
-        uint_min_index = uint_i;
-        T_min = mat_ret(uint_i);
+        uint_min_index = uint_size;  // no candidate yet
         for (unsigned int uint_j = 0; uint_j < mat_limited_index.size(); uint_j++)
         {
-            if (mat_ret(mat_limited_index(uint_j)) < T_min)
+            unsigned int uint_indx = mat_limited_index(uint_j);
+            if (set_selected.exists(uint_indx)) continue;
+            if (uint_min_index == uint_size || mat_arg(uint_indx) < mat_arg(uint_min_index))
             {
-                uint_min_index = mat_limited_index(uint_j);
-                T_min = mat_ret(mat_limited_index(uint_j));
+                uint_min_index = uint_indx;
             }
         }
 
         mat_index(uint_i) = uint_min_index;
-
-        mat_ret(uint_min_index) = std::numeric_limits<T>::max();
+        set_selected.set(uint_min_index);
     }
 
     return mat_index;
@@ -196,36 +190,31 @@ template <class T> matrix <unsigned int> select_most(const matrix <T> &mat_arg,
     SUSA_ASSERT_MESSAGE(mat_arg.is_vector(), "this method supports one dimensional matrices (vectors) only.");
 
     unsigned int uint_size = mat_arg.size();
-    matrix <T> mat_ret     = mat_arg;
     matrix <unsigned int> mat_index(uint_num, 1);
 
-
-    SUSA_ASSERT_MESSAGE(uint_size > uint_num,
-      "The number of elements to be selected is larger than the matrix size.");
+    SUSA_ASSERT_MESSAGE(uint_size >= uint_num, "The number of elements to be selected is larger than the matrix size.");
     if (uint_size < uint_num)
     {
         return mat_index;
     }
 
+    susa::bitset set_selected(uint_size);
     unsigned int uint_max_index;
-    T T_max;
 
-    for( unsigned int uint_i = 0; uint_i < uint_num; uint_i++)
+    for (unsigned int uint_i = 0; uint_i < uint_num; uint_i++)
     {
-        uint_max_index = uint_i;
-        T_max = mat_ret(uint_i);
+        uint_max_index = uint_size;  // no candidate yet
         for (unsigned int uint_j = 0; uint_j < uint_size; uint_j++)
         {
-            if (mat_ret(uint_j) > T_max)
+            if (set_selected.exists(uint_j)) continue;
+            if (uint_max_index == uint_size || mat_arg(uint_j) > mat_arg(uint_max_index))
             {
                 uint_max_index = uint_j;
-                T_max = mat_ret(uint_j);
             }
         }
 
         mat_index(uint_i) = uint_max_index;
-
-        mat_ret(uint_max_index) = std::numeric_limits<T>::min();
+        set_selected.set(uint_max_index);
     }
 
     return mat_index;
-- 
2.43.0


From f0f5a98ca4277cb3e09fdc5a9c45c48a30109e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:50 +0000
Subject: [PATCH 33/35] fix: sort does not stop at the first position that is
 already in place

---
 inc/susa/search.h | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/inc/susa/search.h b/inc/susa/search.h
index 5533a0f..c7b2f03 100644
--- a/inc/susa/search.h
+++ b/inc/susa/search.h
@@ -92,7 +92,7 @@ template <class T> matrix <unsigned int> dijkstra(const matrix <T> &mat_graph, u
 /**
  * @brief Bubble sort
  *
- * @return The the elements in decending order.
+ * @return The elements in ascending order.
  */
 template <class T> matrix <T> sort(const matrix <T> &mat_arg);
 
@@ -100,7 +100,7 @@ template <class T> matrix <T> sort(const matrix <T> &mat_arg);
 /**
  * @brief Bubble sort
  *
- * @return The <i>indecies</i> of the elements in decending order.
+ * @return The <i>indices</i> of the elements in ascending order.
  */
 template <class T> matrix <unsigned int> sort_indices(const matrix <T> &mat_arg);
 
@@ -342,7 +342,6 @@ template <class T> matrix <T> sort(const matrix <T> &mat_arg)
     unsigned int uint_size   = mat_arg.size();
     matrix <T>   mat_return  = mat_arg;
     T T_swap;
-    bool bool_changed = false;
 
     for (unsigned int uint_indx = 0; uint_indx < uint_size; uint_indx++)
     {
@@ -353,11 +352,8 @@ template <class T> matrix <T> sort(const matrix <T> &mat_arg)
                 T_swap = mat_return(uint_indx);
                 mat_return(uint_indx) = mat_return(uint_indx_);
                 mat_return(uint_indx_) = T_swap;
-                bool_changed = true;
             }
         }
-        if (!bool_changed) break;
-        bool_changed = false;
     }
 
     return mat_return;
-- 
2.43.0


From cdd5077a53cc0cf33bf125177ac636395136ebfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:04 +0000
Subject: [PATCH 34/35] fix: dijkstra initialises the predecessors: the source
 and unreachable vertices are their own

---
 inc/susa/search.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/inc/susa/search.h b/inc/susa/search.h
index c7b2f03..f888a78 100644
--- a/inc/susa/search.h
+++ b/inc/susa/search.h
@@ -248,6 +248,7 @@ template <class T> matrix <unsigned int> dijkstra(const matrix <T> &mat_graph, u
   unsigned int uint_num_nodes = mat_graph.no_cols();
   susa::matrix <unsigned int> dist(uint_num_nodes, 1, std::numeric_limits<int>::max());
   susa::matrix <unsigned int> prev(uint_num_nodes, 1);
+  for (unsigned int uint_index = 0; uint_index < uint_num_nodes; uint_index++) prev(uint_index) = uint_index;
 
   dist(uint_src) = 0;
 
-- 
2.43.0


From 8c5b669a8842963479b1cef3c7a65329e9bb1d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:33 +0000
Subject: [PATCH 35/35] fix: channel::decode_mlse starts from zero metrics and
 from the initial state alone instead of uninitialised memory

---
 inc/susa/channel.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/inc/susa/channel.h b/inc/susa/channel.h
index 5ec0c13..31c0375 100644
--- a/inc/susa/channel.h
+++ b/inc/susa/channel.h
@@ -264,15 +264,15 @@ template <class T> matrix <T> channel <T>::decode_mlse(const matrix <T> &mat_arg
     unsigned int uint_num_states = uint_num_states_mem;
 
 
-    matrix <T> mat_metric_past(uint_num_states, 1);
+    matrix <T> mat_metric_past(uint_num_states, 1, 0);
     matrix <T> mat_metric_next(uint_num_states, 1,std::numeric_limits<T>::max());
 
 
     matrix <unsigned int> mat_survivor_path(uint_num_states, uint_num_stages);
     matrix <unsigned int> mat_previous_state(uint_num_states, uint_num_stages);
 
-    matrix <unsigned int> mat_visited(uint_num_states,1);
-    matrix <unsigned int> mat_visited_forward(uint_num_states,1);
+    matrix <unsigned int> mat_visited(uint_num_states,1,0);
+    matrix <unsigned int> mat_visited_forward(uint_num_states,1,0);
     mat_visited(uint_init_state) = 1;
 
     T dbl_next_output;
@@ -307,7 +307,7 @@ template <class T> matrix <T> channel <T>::decode_mlse(const matrix <T> &mat_arg
         mat_metric_past = mat_metric_next;
         mat_metric_next = matrix <T> (uint_num_states, 1,std::numeric_limits<T>::max());
         mat_visited = mat_visited_forward;
-        mat_visited_forward = matrix <unsigned int> (uint_num_states,1);
+        mat_visited_forward = matrix <unsigned int> (uint_num_states,1,0);
     }
 
 
-- 
2.43.0

