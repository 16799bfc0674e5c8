From f77ae3b8e188cd2f952b6df69291d55311886f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:41:44 +0000
Subject: [PATCH 01/30] fix: coarse-to-fine interpolation matrix for one and
 two coarse points

With fewer than three coarse points the end rows of InterpolationMatrixCoarse2Fine
were written outside the row (or not at all), so adaptive meshes with two-cell
patches got wrong solutions. Use linear extrapolation for two points, copy for one.
---
 src/SpecialMatrices.hpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/SpecialMatrices.hpp b/src/SpecialMatrices.hpp
index 27e01a3..57c005c 100644
--- a/src/SpecialMatrices.hpp
+++ b/src/SpecialMatrices.hpp
@@ -145,19 +145,18 @@ public:
     InterpolationMatrixCoarse2Fine(std::size_t nfine) :
         Matrix<NumericalType>(nfine, nfine/2, 0) {
 
-        int k = 3;
+        // Quadratic extrapolation at the ends; lower order if there are not enough coarse points for it
+        int k = this->ncols_ < 3 ? this->ncols_ : 3;
         Vector<NumericalType> edge_coefficients = {1.40625, -0.5625, 0.15625};
+        if (k == 2) edge_coefficients = {1.25, -0.25};
+        if (k == 1) edge_coefficients = {1.0};
         for (auto i = 0; i < this->nrows_; i++) {
             for (auto j = 0; j < this->ncols_; j++) {
                 if (i == 0 && j == 0) {
-                    this->operator()(i,j) = edge_coefficients[0];
-                    this->operator()(i,j+1) = edge_coefficients[1];
-                    this->operator()(i,j+2) = edge_coefficients[2];
+                    for (auto l = 0; l < k; l++) this->operator()(i,j+l) = edge_coefficients[l];
                 }
                 else if (i == this->nrows_-1 && j == this->ncols_-k) {
-                    this->operator()(i,j) = edge_coefficients[2];
-                    this->operator()(i,j+1) = edge_coefficients[1];
-                    this->operator()(i,j+2) = edge_coefficients[0];
+                    for (auto l = 0; l < k; l++) this->operator()(i,j+l) = edge_coefficients[k-1-l];
                 }
                 else if (i == 2*j+1 && i%2 == 1 && i != this->nrows_-1) {
                     this->operator()(i,j) = 0.75;
-- 
2.43.0


From 6cd87509cb9af8cb6437586b70a022ff4cc79a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:41:44 +0000
Subject: [PATCH 02/30] fix: repeated build stage on an adaptive mesh

The number of coarsenings of a patch was kept from the previous build, so a second
buildStage on an adaptive mesh skipped the coarsening of the new operators and threw.
---
 src/HPSAlgorithm.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/HPSAlgorithm.hpp b/src/HPSAlgorithm.hpp
index c5456a7..0c8a547 100644
--- a/src/HPSAlgorithm.hpp
+++ b/src/HPSAlgorithm.hpp
@@ -708,6 +708,10 @@ private:
 
         // Check for adaptivity
         std::vector<PatchType*> patch_pointers = {&alpha, &beta, &gamma, &omega};
+
+        // Operators were just rebuilt, so forget any coarsening from a previous build
+        for (auto* patch : patch_pointers) patch->n_coarsens = 0;
+
         Vector<int> tags = tagPatchesForCoarsening_(tau, alpha, beta, gamma, omega);
 
         // Iterate over patches
-- 
2.43.0


From 96612b42c66d197cc286110f4c680cf1602c94eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:41:44 +0000
Subject: [PATCH 03/30] fix: solve stage with a boundary function and
 homogeneous-rhs

The merged particular data is never formed when homogeneous-rhs is set, but the
boundary system still used it: it threw on any tree with more than one leaf and used
the ignored right-hand side on a single patch.
---
 src/HPSAlgorithm.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/HPSAlgorithm.hpp b/src/HPSAlgorithm.hpp
index 0c8a547..1911a17 100644
--- a/src/HPSAlgorithm.hpp
+++ b/src/HPSAlgorithm.hpp
@@ -410,8 +410,11 @@ public:
 
             Matrix<NumericalType> A = DiagonalMatrix<NumericalType>(a);
             Matrix<NumericalType> B = DiagonalMatrix<NumericalType>(b);
-            Vector<NumericalType> bh = B * h;
-            Vector<NumericalType> rhs = r - bh;
+            Vector<NumericalType> rhs = r;
+            if (!std::get<bool>(app.options["homogeneous-rhs"])) {
+                Vector<NumericalType> bh = B * h;
+                rhs = r - bh;
+            }
 
             B = B * T;
             A = A + B;
-- 
2.43.0


From 1e02aa27ee9f03893600e0245936a2bc1deeeb67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:41:44 +0000
Subject: [PATCH 04/30] fix: cached leaf operators on adaptive meshes and in
 later builds

With cache-operators every leaf got the Dirichlet-to-Neumann matrix of the first leaf
ever built, whatever its size, the mesh or the solver's coefficients.
---
 src/HPSAlgorithm.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/HPSAlgorithm.hpp b/src/HPSAlgorithm.hpp
index 1911a17..9df0857 100644
--- a/src/HPSAlgorithm.hpp
+++ b/src/HPSAlgorithm.hpp
@@ -125,6 +125,9 @@ public:
         app.addTimer("build-stage");
         app.timers["build-stage"].start();
 
+        // Operators cached by a previous build may belong to other coefficients or another mesh
+        matrixCache = DataCache<Matrix<NumericalType>>{};
+
         mesh.quadtree.merge(
             [&](Node<PatchType>* leaf_node){
                 // app.log("Leaf callback: path = " + leaf_node->path);
@@ -132,10 +135,12 @@ public:
                 PatchType& patch = leaf_node->data;
                 // patch.isLeaf = true;
                 if (std::get<bool>(app.options["cache-operators"])) {
-                    if (!matrixCache.contains("T_leaf")) {
-                        matrixCache["T_leaf"] = patch_solver.buildD2N(patch.grid());
+                    // Leaf operators depend on the leaf size, so cache one per level
+                    std::string key = "T_leaf_" + std::to_string(leaf_node->level);
+                    if (!matrixCache.contains(key)) {
+                        matrixCache[key] = patch_solver.buildD2N(patch.grid());
                     }
-                    patch.matrixT() = matrixCache["T_leaf"];
+                    patch.matrixT() = matrixCache[key];
                 }
                 else {
                     patch.matrixT() = patch_solver.buildD2N(patch.grid());
-- 
2.43.0


From 58d699727a7e91f7b992d2bb9b916e19e12b6684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:52:48 +0000
Subject: [PATCH 05/30] fix: scaling a matrix in place

Matrix::operator*=(scalar) added the scalar to every entry instead of multiplying.
---
 src/Matrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Matrix.hpp b/src/Matrix.hpp
index 6906d8a..89d1d9a 100644
--- a/src/Matrix.hpp
+++ b/src/Matrix.hpp
@@ -693,7 +693,7 @@ public:
     Matrix<NumericalType>& operator*=(NumericalType rhs) {
         for (auto i = 0; i < nrows_; i++) {
             for (auto j = 0; j < ncols_; j++) {
-                operator()(i, j) += rhs;
+                operator()(i, j) *= rhs;
             }
         }
         return *this;
-- 
2.43.0


From 07715def16d61415dcfee326d03e36dec2df00d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:52:48 +0000
Subject: [PATCH 06/30] fix: column access of rectangular matrices

Matrix::getCol copied ncols entries: too few for tall matrices, past the end for wide ones.
---
 src/Matrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Matrix.hpp b/src/Matrix.hpp
index 89d1d9a..af9816a 100644
--- a/src/Matrix.hpp
+++ b/src/Matrix.hpp
@@ -300,7 +300,7 @@ public:
     Vector<NumericalType> getCol(std::size_t col_index) {
         Vector<NumericalType> res(nrows_);
         Matrix<NumericalType> colMatrix = operator()(0, nrows_ - 1, col_index, col_index);
-        for (auto i = 0; i < ncols_; i++) {
+        for (auto i = 0; i < nrows_; i++) {
             res[i] = colMatrix(i, 0);
         }
         return res;
-- 
2.43.0


From 6aa566614b6adabd0b373d8bd33d4316949af2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:53:06 +0000
Subject: [PATCH 07/30] fix: index checks of Vector and Matrix

Indices equal to the size were accepted (reads and writes one past the end), Matrix
index sets outside the matrix were only described but not rejected, and block and
segment checks overflowed for very large (negative) start indices.
---
 src/Matrix.hpp | 24 ++++++++++++++----------
 src/Vector.hpp | 20 ++++++++++----------
 2 files changed, 24 insertions(+), 20 deletions(-)

diff --git a/src/Matrix.hpp b/src/Matrix.hpp
index af9816a..5fecc2c 100644
--- a/src/Matrix.hpp
+++ b/src/Matrix.hpp
@@ -332,17 +332,21 @@ public:
         Matrix<NumericalType> res(I.size(), J.size());
         for (auto i = 0; i < I.size(); i++) {
             for (auto j = 0; j < J.size(); j++) {
-                if (I[i] > nrows_ || I[i] < 0) {
+                if (I[i] >= nrows_ || I[i] < 0) {
                     std::string error_msg = "[EllipticForest::Matrix::getFromIndexSet] Index in `I` is out of range:\n";
                     error_msg += "\ti = " + std::to_string(i) + "\n";
                     error_msg += "\tI[i] = " + std::to_string(I[i]) + "\n";
                     error_msg += "\tnrows = " + std::to_string(nrows_) + "\n";
+                    std::cerr << error_msg << std::endl;
+                    throw std::out_of_range(error_msg);
                 }
-                if (J[j] > ncols_ || J[j] < 0) {
+                if (J[j] >= ncols_ || J[j] < 0) {
                     std::string error_msg = "[EllipticForest::Matrix::getFromIndexSet] Index in `J` is out of range:\n";
                     error_msg += "\tj = " + std::to_string(j) + "\n";
                     error_msg += "\tJ[j] = " + std::to_string(J[j]) + "\n";
                     error_msg += "\tncols = " + std::to_string(ncols_) + "\n";
+                    std::cerr << error_msg << std::endl;
+                    throw std::out_of_range(error_msg);
                 }
                 res(i,j) = operator()(I[i], J[j]);
             }
@@ -369,7 +373,7 @@ public:
      * @param vec Vector to set
      */
     void setRow(std::size_t row_index, Vector<NumericalType>& vec) {
-        if (row_index > nrows_) {
+        if (row_index >= nrows_) {
             std::string error_msg = "[EllipticForest::Matrix::setRow] `row_index` exceeds matrix size:\n";
             error_msg += "\trowIndex = " + std::to_string(row_index) + "\n";
             error_msg += "\tnrows = " + std::to_string(nrows_) + "\n";
@@ -397,7 +401,7 @@ public:
      * @param vec Vector to set
      */
     void setColumn(std::size_t col_index, Vector<NumericalType>& vec) {
-        if (col_index > ncols_) {
+        if (col_index >= ncols_) {
             std::string error_msg = "[EllipticForest::Matrix::setColumn] `col_index` exceeds matrix size:\n";
             error_msg += "\tcolIndex = " + std::to_string(col_index) + "\n";
             error_msg += "\tncols = " + std::to_string(ncols_) + "\n";
@@ -481,7 +485,7 @@ public:
      * @return Matrix<NumericalType> 
      */
     Matrix<NumericalType> getBlock(std::size_t row_index, std::size_t col_index, std::size_t row_length, std::size_t col_length) {
-        if (row_index + row_length > nrows_) {
+        if (row_index > nrows_ || row_length > nrows_ - row_index) {
             std::string error_msg = "[EllipticForest::Matrix::getBlock] Row size exceeds matrix size:\n";
             error_msg += "\trowIndex = " + std::to_string(row_index) + "\n";
             error_msg += "\trowLength = " + std::to_string(row_length) + "\n";
@@ -489,7 +493,7 @@ public:
             std::cerr << error_msg << std::endl;
             throw std::out_of_range(error_msg);
         }
-        if (col_index + col_length > ncols_) {
+        if (col_index > ncols_ || col_length > ncols_ - col_index) {
             std::string error_msg = "[EllipticForest::Matrix::getBlock] Column size exceeds matrix size:\n";
             error_msg += "\tcolIndex = " + std::to_string(col_index) + "\n";
             error_msg += "\tcolLength = " + std::to_string(col_length) + "\n";
@@ -517,7 +521,7 @@ public:
      * @param mat Sub-matrix to set
      */
     void setBlock(std::size_t row_index, std::size_t col_index, Matrix<NumericalType>& mat) {
-        if (row_index + mat.nrows() > nrows_) {
+        if (row_index > nrows_ || mat.nrows() > nrows_ - row_index) {
             std::string error_msg = "[EllipticForest::Matrix::setBlock] Row size exceeds matrix size:\n";
             error_msg += "\trowIndex = " + std::to_string(row_index) + "\n";
             error_msg += "\tmat.nrows() = " + std::to_string(mat.nrows()) + "\n";
@@ -525,7 +529,7 @@ public:
             std::cerr << error_msg << std::endl;
             throw std::out_of_range(error_msg);
         }
-        if (col_index + mat.ncols() > ncols_) {
+        if (col_index > ncols_ || mat.ncols() > ncols_ - col_index) {
             std::string error_msg = "[EllipticForest::Matrix::setBlock] Column size exceeds matrix size:\n";
             error_msg += "\tcolIndex = " + std::to_string(col_index) + "\n";
             error_msg += "\tmat.ncols() = " + std::to_string(mat.ncols()) + "\n";
@@ -709,14 +713,14 @@ private:
      * @return std::size_t 
      */
     std::size_t flattenIndex_(std::size_t i, std::size_t j) {
-        if (i < 0 || i > nrows_) {
+        if (i < 0 || i >= nrows_) {
             std::string error_msg = "[EllipticForest::Matrix::flattenIndex] Index `i` is outside of range:\n";
             error_msg += "\ti = " + std::to_string(i) + "\n";
             error_msg += "\tnrows = " + std::to_string(nrows_) + "\n";
             std::cerr << error_msg << std::endl;
             throw std::out_of_range(error_msg);
         }
-        if (j < 0 || j > ncols_) {
+        if (j < 0 || j >= ncols_) {
             std::string error_msg = "[EllipticForest::Matrix::flattenIndex] Index `j` is outside of range:\n";
             error_msg += "\tj = " + std::to_string(j) + "\n";
             error_msg += "\tncols = " + std::to_string(ncols_) + "\n";
diff --git a/src/Vector.hpp b/src/Vector.hpp
index 4e72305..6af8e87 100644
--- a/src/Vector.hpp
+++ b/src/Vector.hpp
@@ -144,7 +144,7 @@ public:
      * @return NumericalType Value of entry
      */
     NumericalType getEntry(std::size_t index) {
-        if (index > size_ || index < 0) {
+        if (index >= size_ || index < 0) {
             std::string errorMessage = "[EllipticForest::Vector::getEntry] `index` is out of range:\n";
             errorMessage += "\tindex = " + std::to_string(index) + "\n";
             errorMessage += "\tsize = " + std::to_string(size_) + "\n";
@@ -164,7 +164,7 @@ public:
      * @return NumericalType& Reference to value in vector
      */
     NumericalType& operator[](std::size_t index) {
-        if (index > size_ || index < 0) {
+        if (index >= size_ || index < 0) {
             std::string errorMessage = "[EllipticForest::Vector::operator[]] `index` is out of range:\n";
             errorMessage += "\tindex = " + std::to_string(index) + "\n";
             errorMessage += "\tsize = " + std::to_string(size_) + "\n";
@@ -184,7 +184,7 @@ public:
      * @return NumericalType& Reference to value in vector
      */
     const NumericalType& operator[](std::size_t index) const {
-        if (index > size_ || index < 0) {
+        if (index >= size_ || index < 0) {
             std::string errorMessage = "[EllipticForest::Vector::operator[]] `index` is out of range:\n";
             errorMessage += "\tindex = " + std::to_string(index) + "\n";
             errorMessage += "\tsize = " + std::to_string(size_) + "\n";
@@ -204,7 +204,7 @@ public:
      * @return NumericalType& Reference to value in vector
      */
     NumericalType& operator()(std::size_t index) {
-        if (index > size_ || index < 0) {
+        if (index >= size_ || index < 0) {
             std::string errorMessage = "[EllipticForest::Vector::operator()] `index` is out of range:\n";
             errorMessage += "\tindex = " + std::to_string(index) + "\n";
             errorMessage += "\tsize = " + std::to_string(size_) + "\n";
@@ -259,7 +259,7 @@ public:
      * @return Vector<NumericalType> Vector of size `(b - a) + 1` with entries
      */
     Vector<NumericalType> getRange(std::size_t a, std::size_t b) {
-        if (a > size_ || b > size_ || a < 0 || b < 0) {
+        if (a >= size_ || b >= size_ || b < a) {
             std::string errorMessage = "[EllipticForest::Vector::getRange] `a` or `b` is outside of range of vector:\n";
             errorMessage += "\ta = " + std::to_string(a) + "\n";
             errorMessage += "\tb = " + std::to_string(b) + "\n";
@@ -285,7 +285,7 @@ public:
      * @return Vector<NumericalType> Vector of size `(b - a) + 1` with entries
      */
     Vector<NumericalType> operator()(std::size_t a, std::size_t b) {
-        if (a > size_ || b > size_ || a < 0 || b < 0) {
+        if (a >= size_ || b >= size_ || b < a) {
             std::string errorMessage = "[EllipticForest::Vector::operator()] `a` or `b` is outside of range of vector:\n";
             errorMessage += "\ta = " + std::to_string(a) + "\n";
             errorMessage += "\tb = " + std::to_string(b) + "\n";
@@ -309,7 +309,7 @@ public:
      * @return Vector<NumericalType> 
      */
     Vector<NumericalType> getSegment(std::size_t startIndex, std::size_t length) {
-        if (startIndex + length > size_) {
+        if (startIndex > size_ || length > size_ - startIndex) {
             std::string errorMessage = "[EllipticForest::Vector::getSegment] Index mismatch. `startIndex` + `length` is greater than size of vector:\n";
             errorMessage += "\tstartIndex = " + std::to_string(startIndex) + "\n";
             errorMessage += "\tlength = " + std::to_string(length) + "\n";
@@ -334,7 +334,7 @@ public:
      * @param vec Vector of data to set into this vector
      */
     void setSegment(std::size_t startIndex, const Vector<NumericalType>& vec) {
-        if (startIndex + vec.size() > size_) {
+        if (startIndex > size_ || vec.size() > size_ - startIndex) {
             std::string errorMessage = "[EllipticForest::Vector::setSegment] Index mismatch. `startIndex` + `vec.size()` is greater than size of host vector:\n";
             errorMessage += "\tstartIndex = " + std::to_string(startIndex) + "\n";
             errorMessage += "\tvec.size() = " + std::to_string(vec.size()) + "\n";
@@ -377,7 +377,7 @@ public:
 
         Vector<NumericalType> res(I.size());
         for (auto i = 0; i < I.size(); i++) {
-            if (I[i] > size_ || I[i] < 0) {
+            if (I[i] >= size_ || I[i] < 0) {
                 std::string errorMessage = "[EllipticForest::Vector::operator()] Index in `I` is out of range:\n";
                 errorMessage += "\ti = " + std::to_string(i) + "\n";
                 errorMessage += "\tI[i] = " + std::to_string(I[i]) + "\n";
@@ -409,7 +409,7 @@ public:
 
         Vector<NumericalType> res(I.size());
         for (auto i = 0; i < I.size(); i++) {
-            if (I[i] > size_ || I[i] < 0) {
+            if (I[i] >= size_ || I[i] < 0) {
                 std::string errorMessage = "[EllipticForest::Vector::operator()] Index in `I` is out of range:\n";
                 errorMessage += "\ti = " + std::to_string(i) + "\n";
                 errorMessage += "\tI[i] = " + std::to_string(I[i]) + "\n";
-- 
2.43.0


From b9f064635e02b2fa804d6e29e2ec86ac599a9348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:53:06 +0000
Subject: [PATCH 08/30] fix: Vector range access returns the entries

getRange(a, b) and operator()(a, b) returned the indices a..b instead of the entries.
---
 src/Vector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Vector.hpp b/src/Vector.hpp
index 6af8e87..93ba323 100644
--- a/src/Vector.hpp
+++ b/src/Vector.hpp
@@ -270,7 +270,7 @@ public:
 
         Vector<NumericalType> v((b - a) + 1);
         for (auto i = 0; i < v.size(); i++) {
-            v(i) = a + i;
+            v(i) = data_[a + i];
         }
         return v;
     }
@@ -296,7 +296,7 @@ public:
 
         Vector<NumericalType> v((b - a) + 1);
         for (auto i = 0; i < v.size(); i++) {
-            v(i) = a + i;
+            v(i) = data_[a + i];
         }
         return v;
     }
-- 
2.43.0


From ff5161b85761c2c56b589608882048a0cfa1bf68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:53:06 +0000
Subject: [PATCH 09/30] fix: in-place scalar operations of Vector with one of
 its own entries

v -= v[i], v *= v[i] and v /= v[i] took the scalar by reference, so it changed under
the loop; take it by value as operator+= does.
---
 src/Vector.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Vector.hpp b/src/Vector.hpp
index 93ba323..b457690 100644
--- a/src/Vector.hpp
+++ b/src/Vector.hpp
@@ -583,7 +583,7 @@ public:
      * @param rhs RHS scalar
      * @return Vector<NumericalType>& 
      */
-    Vector<NumericalType>& operator-=(const NumericalType& rhs) {
+    Vector<NumericalType>& operator-=(const NumericalType rhs) {
         for (auto i = 0; i < size_; i++) {
             data_[i] -= rhs;
         }
@@ -625,7 +625,7 @@ public:
      * @param rhs RHS scalar
      * @return Vector<NumericalType>& 
      */
-    Vector<NumericalType>& operator*=(const NumericalType& rhs) {
+    Vector<NumericalType>& operator*=(const NumericalType rhs) {
         for (auto i = 0; i < size_; i++) {
             data_[i] *= rhs;
         }
@@ -660,7 +660,7 @@ public:
      * @param rhs RHS scalar
      * @return Vector<NumericalType>& 
      */
-    Vector<NumericalType>& operator/=(const NumericalType& rhs) {
+    Vector<NumericalType>& operator/=(const NumericalType rhs) {
         for (auto i = 0; i < size_; i++) {
             data_[i] /= rhs;
         }
-- 
2.43.0


From 97fc90cde3fe8b701dadfb4ccf31195693ba0fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:00:36 +0000
Subject: [PATCH 10/30] fix: index sets of the five-point patch solve

Every patch solve created two index sets and never destroyed them, and created them
collectively on MPI_COMM_WORLD although ranks solve different numbers of patches.
---
 src/Patches/FiniteVolume/FiniteVolumeSolver.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/Patches/FiniteVolume/FiniteVolumeSolver.cpp b/src/Patches/FiniteVolume/FiniteVolumeSolver.cpp
index 676bd2c..c7af886 100644
--- a/src/Patches/FiniteVolume/FiniteVolumeSolver.cpp
+++ b/src/Patches/FiniteVolume/FiniteVolumeSolver.cpp
@@ -197,8 +197,8 @@ Vector<double> FiniteVolumeSolver::solve(FiniteVolumeGrid& grid, Vector<double>&
         IS row_perm, col_perm;
         Vector<int> idx_row = vectorRange(0, N-1);
         Vector<int> idx_col = vectorRange(0, N-1);
-        ISCreateGeneral(MPI_COMM_WORLD, N, idx_row.data().data(), PETSC_COPY_VALUES, &row_perm);
-        ISCreateGeneral(MPI_COMM_WORLD, N, idx_col.data().data(), PETSC_COPY_VALUES, &col_perm);
+        ISCreateGeneral(MPI_COMM_SELF, N, idx_row.data().data(), PETSC_COPY_VALUES, &row_perm);
+        ISCreateGeneral(MPI_COMM_SELF, N, idx_col.data().data(), PETSC_COPY_VALUES, &col_perm);
         MatFactorInfo mat_factor_info;
         MatFactorInfoInitialize(&mat_factor_info);
 
@@ -212,8 +212,11 @@ Vector<double> FiniteVolumeSolver::solve(FiniteVolumeGrid& grid, Vector<double>&
         std::vector<double> xv;
         xv.assign(x_data, x_data + N);
         Vector<double> x_vector(xv);
+        VecRestoreArray(x, &x_data);
 
         // Clean up
+        ISDestroy(&row_perm);
+        ISDestroy(&col_perm);
         MatDestroy(&A);
         VecDestroy(&x);
         VecDestroy(&f);
-- 
2.43.0


From 845ce4598412cefffea2fa76b0ecb4a7635aa34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:10:49 +0000
Subject: [PATCH 11/30] fix: one VTK offset and type per cell, and mesh arrays
 that start empty when the mesh is refined again

---
 src/Mesh.hpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/Mesh.hpp b/src/Mesh.hpp
index 7ab02b8..fad882c 100644
--- a/src/Mesh.hpp
+++ b/src/Mesh.hpp
@@ -194,6 +194,14 @@ public:
         types.name() = "types";
         types.setType("Int64");
 
+        // Start from an empty mesh (the mesh may be rebuilt)
+        npoints = 0;
+        ncells = 0;
+        points = Vector<double>{};
+        connectivity = Vector<int>{};
+        offsets = Vector<int>{};
+        types = Vector<int>{};
+
         int index = 0;
 
         quadtree.traversePreOrder([&](Node<PatchType>* node){
@@ -241,13 +249,10 @@ public:
                             index + 3
                         };
                         Vector<int> cellOffsets = {
-                            (index + 1) * 4,
-                            (index + 2) * 4,
-                            (index + 3) * 4,
-                            (index + 4) * 4
+                            index + 4
                         };
                         Vector<int> cellTypes = {
-                            9, 9, 9, 9
+                            9
                         };
                         
                         index += 4;
-- 
2.43.0


From d41626fa25ab1b32e3bd915a0118e37081f7e13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:10:49 +0000
Subject: [PATCH 12/30] fix: every quadtree traversal uses its own tree

---
 src/Quadtree.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Quadtree.hpp b/src/Quadtree.hpp
index 9b46b6c..ec6cd4b 100644
--- a/src/Quadtree.hpp
+++ b/src/Quadtree.hpp
@@ -257,6 +257,7 @@ public:
 	 */
 	void traversePreOrder(std::function<void(T&)> visit) {
 
+		p4est->user_pointer = (void*) this;
 		visit_node_data_fn = visit;
 		int skip_levels = 0;
 		p4est_search_reorder(
@@ -278,6 +279,7 @@ public:
 	 */
 	void traversePostOrder(std::function<int(Node<T>*)> visit) {
 
+		p4est->user_pointer = (void*) this;
 		visit_node_fn = visit;
 		int skip_levels = 0;
 		p4est_search_reorder(
@@ -299,6 +301,7 @@ public:
 	 */
 	void traversePostOrder(std::function<void(T&)> visit) {
 
+		p4est->user_pointer = (void*) this;
 		visit_node_data_fn = visit;
 		int skip_levels = 0;
 		p4est_search_reorder(
@@ -321,6 +324,7 @@ public:
 	 */
 	void merge(std::function<int(Node<T>*)> visit_leaf, std::function<int(Node<T>*, std::vector<Node<T>*>)> visit_family) {
 
+		p4est->user_pointer = (void*) this;
 		visit_node_fn = visit_leaf;
 		visit_family_fn = visit_family;
 		int skip_levels = 0;
@@ -344,6 +348,7 @@ public:
 	 */
 	void split(std::function<int(Node<T>*)> visit_leaf, std::function<int(Node<T>*, std::vector<Node<T>*>)> visit_family) {
 
+		p4est->user_pointer = (void*) this;
 		visit_node_fn = visit_leaf;
 		visit_family_fn = visit_family;
 		int skip_levels = 0;
-- 
2.43.0


From d911ae075ef9033a362d990288c1afada5fef563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:13:47 +0000
Subject: [PATCH 13/30] fix: option values keep their text, sign, exponent and
 inner spaces; short file names are rejected

---
 src/Options.cpp | 39 +++++++++++++++++++++++++--------------
 src/Options.hpp |  5 +++--
 2 files changed, 28 insertions(+), 16 deletions(-)

diff --git a/src/Options.cpp b/src/Options.cpp
index c15d3cb..7405fe8 100644
--- a/src/Options.cpp
+++ b/src/Options.cpp
@@ -18,7 +18,7 @@ void Options::setOption(std::string const key, OptionTypes const value) {
 }
 
 void Options::setFromFile(std::string filename) {
-    if (filename.substr(filename.length() - 3) == "ini") {
+    if (filename.length() >= 3 && filename.substr(filename.length() - 3) == "ini") {
         // Read from .ini file
         readINIFile(filename, "EllipticForest");
     }
@@ -47,8 +47,7 @@ void Options::readINIFile(std::string filename, std::string section) {
     bool read_section = false;
     while (std::getline(infile, line)) {
         // Remove any leading and trailing whitespaces
-        line.erase(0, line.find_first_not_of(" \t"));
-        line.erase(line.find_last_not_of(" \t") + 1);
+        stripWhitespace(line);
 
         // Ignore blank lines and comments
         if (line.length() == 0 || line[0] == ';') {
@@ -84,7 +83,9 @@ void Options::readINIFile(std::string filename, std::string section) {
 }
 
 void Options::stripWhitespace(std::string& str) {
-    str.erase(std::remove_if(str.begin(), str.end(), ::isspace), str.end());
+    const char* whitespace = " \t\n\v\f\r";
+    str.erase(0, str.find_first_not_of(whitespace));
+    str.erase(str.find_last_not_of(whitespace) + 1);
 }
 
 Options::OptionTypes Options::checkValue(std::string value) {
@@ -94,24 +95,34 @@ Options::OptionTypes Options::checkValue(std::string value) {
     else if (value == "false") {
         return (bool) false;
     }
-    else if (isDouble(value)) {
-        return (double) std::stod(value);
+    try {
+        if (isInt(value)) {
+            return (int) std::stoi(value);
+        }
+        if (isDouble(value)) {
+            return (double) std::stod(value);
+        }
     }
-    else if (isInt(value)) {
-        return (int) std::stoi(value);
+    catch (const std::out_of_range&) {
+        // Not representable as a number; keep the text
     }
-    return {};
+    return value;
 }
 
 bool Options::isDouble(std::string& str) {
-    return str.find('.') != std::string::npos;
+    // Digits with an optional sign, decimal point and exponent (and nothing else)
+    if (str.empty() || str.find_first_not_of("0123456789.eE+-") != std::string::npos) return false;
+    if (str.find_first_of(".eE") == std::string::npos) return false;
+    char* end = nullptr;
+    std::strtod(str.c_str(), &end);
+    return end == str.c_str() + str.length();
 }
 
 bool Options::isInt(std::string& str) {
-    for (auto c : str) {
-        if (!std::isdigit(c)) return false;
-    }
-    return true;
+    // Digits with an optional sign
+    std::size_t first = (!str.empty() && (str[0] == '-' || str[0] == '+')) ? 1 : 0;
+    if (first == str.length()) return false;
+    return str.find_first_not_of("0123456789", first) == std::string::npos;
 }
 
 } // NAMESPACE : EllipticForest
\ No newline at end of file
diff --git a/src/Options.hpp b/src/Options.hpp
index 2b821af..a781a7a 100644
--- a/src/Options.hpp
+++ b/src/Options.hpp
@@ -6,6 +6,7 @@
 #include <variant>
 #include <algorithm>
 #include <map>
+#include <cstdlib>
 #include <fstream>
 
 namespace EllipticForest {
@@ -88,7 +89,7 @@ public:
     OptionTypes checkValue(std::string value);
 
     /**
-     * @brief Checks if the string is a floating point number (i.e., contains a decimal)
+     * @brief Checks if the string is a floating point number (i.e., contains a decimal or an exponent)
      * 
      * @param str Number as string
      * @return true 
@@ -128,7 +129,7 @@ private:
     void readINIFile(std::string filename, std::string section);
 
     /**
-     * @brief Removes whitespace from string
+     * @brief Removes leading and trailing whitespace from string
      * 
      * @param str String with whitespace
      */
-- 
2.43.0


From 4a7642db92ece7e536614d5e4e38042064cb9c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:13:47 +0000
Subject: [PATCH 14/30] fix: escape attribute values and data of XML nodes

---
 src/XMLTree.cpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/XMLTree.cpp b/src/XMLTree.cpp
index 3582d1a..bda23af 100644
--- a/src/XMLTree.cpp
+++ b/src/XMLTree.cpp
@@ -2,6 +2,21 @@
 
 namespace EllipticForest {
 
+// Replaces the characters that have a meaning in XML by their entities
+static std::string escape_(const std::string& text) {
+    std::string res;
+    for (char c : text) {
+        switch (c) {
+            case '&': res += "&amp;"; break;
+            case '<': res += "&lt;"; break;
+            case '>': res += "&gt;"; break;
+            case '"': res += "&quot;"; break;
+            default: res += c;
+        }
+    }
+    return res;
+}
+
 XMLNode::XMLNode() :
     name("")
         {}
@@ -44,7 +59,7 @@ void XMLTree::write_(std::ofstream& file, XMLNode& node, std::string prefix) {
     std::string header = prefix;
     header += "<" + node.name + " ";
     for (auto& attributePair : node.attributes) {
-        header += attributePair.first + "=\"" + attributePair.second + "\" ";
+        header += attributePair.first + "=\"" + escape_(attributePair.second) + "\" ";
     }
     header.pop_back(); // Remove last space
     header += ">";
@@ -52,7 +67,7 @@ void XMLTree::write_(std::ofstream& file, XMLNode& node, std::string prefix) {
 
     // Write data
     if (node.data != "") {
-        file << node.data << std::endl;
+        file << escape_(node.data) << std::endl;
     }
 
     // Write children
-- 
2.43.0


From 92288c88333c504c7f3e14e83c36b3b45210e97f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:13:47 +0000
Subject: [PATCH 15/30] fix: VTK writers can be written and rebuilt more than
 once

---
 src/VTK.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/VTK.cpp b/src/VTK.cpp
index dfc2561..7c805f0 100644
--- a/src/VTK.cpp
+++ b/src/VTK.cpp
@@ -41,6 +41,7 @@ RectilinearGridVTK::RectilinearGridVTK() : mesh_complete_(false), coords_data_ve
 
 void RectilinearGridVTK::buildMesh(RectilinearGridNodeBase& mesh, DataArrayNodeBase* x_coords, DataArrayNodeBase* y_coords, DataArrayNodeBase* z_coords) {
     mesh_ = &mesh;
+    coords_data_vector_.clear();
     
     if (x_coords != nullptr) {
         coords_data_vector_.push_back(x_coords);
@@ -101,7 +102,8 @@ void RectilinearGridVTK::toVTK(std::string filename) {
 
         XMLNode node_coordinates("Coordinates");
         
-        root_.addChild(node_rectilinear_grid);
+        XMLNode root = root_;
+        root.addChild(node_rectilinear_grid);
         node_rectilinear_grid.addChild(node_piece);
         if (!cell_data_vector_.empty()) node_piece.addChild(node_cell_data);
         if (!point_data_vector_.empty()) node_piece.addChild(node_point_data);
@@ -110,7 +112,7 @@ void RectilinearGridVTK::toVTK(std::string filename) {
         for (auto point_data : point_data_vector_) node_point_data.addChild(point_data->toVTK());
         for (auto coordData : coords_data_vector_) node_coordinates.addChild(coordData->toVTK());
 
-        XMLTree tree(root_);
+        XMLTree tree(root);
         tree.write(filename);
 
     }
@@ -184,7 +186,8 @@ void UnstructuredGridVTK::toVTK(std::string filename) {
             node_point_data.addAttribute("Scalars", names);
         }
 
-        root_.addChild(node_unstructured_grid);
+        XMLNode root = root_;
+        root.addChild(node_unstructured_grid);
             node_unstructured_grid.addChild(node_piece);
                 node_piece.addChild(node_points);
                     node_points.addChild(mesh_->getPoints().toVTK());
@@ -197,7 +200,7 @@ void UnstructuredGridVTK::toVTK(std::string filename) {
                 if (!point_data_vector_.empty()) node_piece.addChild(node_point_data);
                     for (auto& point_data : point_data_vector_) node_point_data.addChild(point_data->toVTK());
 
-        XMLTree tree(root_);
+        XMLTree tree(root);
         tree.write(filename);
         
     }
@@ -283,7 +286,8 @@ void PUnstructuredGridVTK::toVTK(std::string filenameBase) {
         }
 
         // Build structure
-        root_.addChild(node_p_unstructured_grid);
+        XMLNode root = root_;
+        root.addChild(node_p_unstructured_grid);
             node_p_unstructured_grid.addChild(node_p_points);
                 node_p_points.addChild(mesh.getPoints().toPVTK());
             node_p_unstructured_grid.addChild(node_p_pointData);
@@ -293,7 +297,7 @@ void PUnstructuredGridVTK::toVTK(std::string filenameBase) {
             for (auto& node_piece : node_piece_vector) node_p_unstructured_grid.addChild(node_piece);
         
         // Write to file
-        XMLTree tree(root_);
+        XMLTree tree(root);
         tree.write(filenameBase + ".pvtu");
 
     }
-- 
2.43.0


From 89c6c7626c1e99fd377ba3b0c3a9be92cf4bb487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:14:00 +0000
Subject: [PATCH 16/30] fix: piece file names of parallel VTK output

---
 src/VTK.cpp | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/VTK.cpp b/src/VTK.cpp
index 7c805f0..19460a3 100644
--- a/src/VTK.cpp
+++ b/src/VTK.cpp
@@ -241,11 +241,9 @@ void PUnstructuredGridVTK::addCellData(DataArrayNodeBase& cell_data) {
 void PUnstructuredGridVTK::toVTK(std::string filenameBase) {
 
     // All ranks write individual file
-    char str_buffer[256];
-    std::string filename = filenameBase + "_%04i.vtu";
-    snprintf(str_buffer, 256, filename.c_str(), this->getRank());
-    filename = std::string(str_buffer);
-    vtu.toVTK(filename);
+    char str_buffer[32];
+    snprintf(str_buffer, 32, "_%04i.vtu", this->getRank());
+    vtu.toVTK(filenameBase + std::string(str_buffer));
 
     // Head rank writes metadata file
     if (this->getRank() == MPI::HEAD_RANK) {
@@ -277,11 +275,10 @@ void PUnstructuredGridVTK::toVTK(std::string filenameBase) {
 
         std::vector<XMLNode> node_piece_vector;
         for (int i = 0; i < this->getSize(); i++) {
-            filename = filenameBase + "_%04i.vtu";
-            snprintf(str_buffer, 256, filename.c_str(), i);
-            filename = std::string(str_buffer);
+            // Pieces are given relative to the metadata file, which is in the same directory
+            snprintf(str_buffer, 32, "_%04i.vtu", i);
             XMLNode node_piece("Piece");
-            node_piece.addAttribute("Source", filename);
+            node_piece.addAttribute("Source", filenameBase.substr(filenameBase.find_last_of('/') + 1) + std::string(str_buffer));
             node_piece_vector.push_back(node_piece);
         }
 
-- 
2.43.0


From 0a01a13964fd06b79c85bee2c53d9de47f103b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:14:00 +0000
Subject: [PATCH 17/30] fix: reported range of an empty Vector

---
 src/Vector.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Vector.hpp b/src/Vector.hpp
index b457690..1510299 100644
--- a/src/Vector.hpp
+++ b/src/Vector.hpp
@@ -727,6 +727,7 @@ public:
      * @return std::string 
      */
     virtual std::string getRangeMin() {
+        if (data_.empty()) return std::to_string(NumericalType{});
         NumericalType min = *std::min_element(data_.begin(), data_.end());
         return std::to_string(min);
     }
@@ -737,6 +738,7 @@ public:
      * @return std::string 
      */
     virtual std::string getRangeMax() {
+        if (data_.empty()) return std::to_string(NumericalType{});
         NumericalType max = *std::max_element(data_.begin(), data_.end());
         return std::to_string(max);
     }
-- 
2.43.0


From adc4f5fc6c5d162ebeda281ab38c6871e03af695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:14:00 +0000
Subject: [PATCH 18/30] fix: file type of parallel VTK metadata

---
 src/VTK.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/VTK.cpp b/src/VTK.cpp
index 19460a3..f7b951b 100644
--- a/src/VTK.cpp
+++ b/src/VTK.cpp
@@ -213,7 +213,7 @@ void UnstructuredGridVTK::toVTK(std::string filename) {
 PUnstructuredGridVTK::PUnstructuredGridVTK() :
     MPIObject{MPI_COMM_WORLD},
     root_("VTKFile") {
-    root_.addAttribute("type", "UnstructuredGrid");
+    root_.addAttribute("type", "PUnstructuredGrid");
     root_.addAttribute("version", "0.1");
     root_.addAttribute("byte_order", "LittleEndian");
 }
@@ -221,7 +221,7 @@ PUnstructuredGridVTK::PUnstructuredGridVTK() :
 PUnstructuredGridVTK::PUnstructuredGridVTK(MPI_Comm comm) :
     MPIObject{comm},
     root_("VTKFile") {
-    root_.addAttribute("type", "UnstructuredGrid");
+    root_.addAttribute("type", "PUnstructuredGrid");
     root_.addAttribute("version", "0.1");
     root_.addAttribute("byte_order", "LittleEndian");
 }
-- 
2.43.0


From d7d12e7ae99a23dcecf58316bcf09976c20701e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:27:58 +0000
Subject: [PATCH 19/30] fix: name of a sub communicator on ranks outside of its
 range

---
 src/MPI.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/MPI.cpp b/src/MPI.cpp
index 6998e60..5959b26 100644
--- a/src/MPI.cpp
+++ b/src/MPI.cpp
@@ -23,13 +23,15 @@ void communicatorSubsetRange(Communicator super_comm, int r_first, int r_last, i
     // int color = (r_first <= rank && rank <= r_last ? 0 : MPI_UNDEFINED);
     // MPI_Comm_split(super_comm, color, rank, sub_comm);
 
-    // Set name of comm
-    int super_comm_name_size = 0;
-    char super_comm_name_buffer[255];
-    MPI_Comm_get_name(super_comm, super_comm_name_buffer, &super_comm_name_size);
-    std::string super_comm_name(super_comm_name_buffer, super_comm_name_size);
-    std::string sub_comm_name = super_comm_name + "_sub_range={" + std::to_string(r_first) + ":" + std::to_string(r_last) + "}";
-    MPI_Comm_set_name(*sub_comm, sub_comm_name.c_str());
+    // Set name of comm (ranks outside of the range do not get a communicator)
+    if (*sub_comm != MPI_COMM_NULL) {
+        int super_comm_name_size = 0;
+        char super_comm_name_buffer[255];
+        MPI_Comm_get_name(super_comm, super_comm_name_buffer, &super_comm_name_size);
+        std::string super_comm_name(super_comm_name_buffer, super_comm_name_size);
+        std::string sub_comm_name = super_comm_name + "_sub_range={" + std::to_string(r_first) + ":" + std::to_string(r_last) + "}";
+        MPI_Comm_set_name(*sub_comm, sub_comm_name.c_str());
+    }
 
     // Free groups
     MPI_Group_free(&super_group);
-- 
2.43.0


From 9d031c44e1a55b587740b9ac1204b1bb1a2c569b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:30:52 +0000
Subject: [PATCH 20/30] fix: argument order of the generic allgatherv wrapper

---
 src/MPI.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MPI.hpp b/src/MPI.hpp
index 28d374b..ec3f417 100644
--- a/src/MPI.hpp
+++ b/src/MPI.hpp
@@ -295,7 +295,7 @@ int allgather(T& send_data, T& recv_data, int recv_count, Communicator comm) {
  */
 template<class T>
 int allgatherv(T& send_data, T& recv_data, std::vector<int> recv_counts, std::vector<int> displacements, Communicator comm) {
-    return MPI_Allgatherv(TypeTraits<T>::getAddress(send_data), TypeTraits<T>::getSize(send_data), TypeTraits<T>::getType(send_data), TypeTraits<T>::getAddress(recv_data), recv_counts.data(), TypeTraits<T>::getType(recv_data), displacements.data(), comm);
+    return MPI_Allgatherv(TypeTraits<T>::getAddress(send_data), TypeTraits<T>::getSize(send_data), TypeTraits<T>::getType(send_data), TypeTraits<T>::getAddress(recv_data), recv_counts.data(), displacements.data(), TypeTraits<T>::getType(recv_data), comm);
 }
 
 /**
-- 
2.43.0


From 6c5f9c16085f8da5c48f2d8aa34b2178da68f780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:34:37 +0000
Subject: [PATCH 21/30] fix: MPI wrappers with an empty std::vector

---
 src/MPI.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/MPI.hpp b/src/MPI.hpp
index ec3f417..7203b90 100644
--- a/src/MPI.hpp
+++ b/src/MPI.hpp
@@ -312,7 +312,10 @@ struct TypeTraits<std::vector<T>> {
      * @param vec Reference to std::vector
      * @return Datatype 
      */
-    static inline Datatype getType(std::vector<T>& vec) { return TypeTraits<T>::getType(vec[0]); }
+    static inline Datatype getType(std::vector<T>& vec) {
+        if (vec.empty()) { T element{}; return TypeTraits<T>::getType(element); }
+        return TypeTraits<T>::getType(vec[0]);
+    }
 
     /**
      * @brief Returns the size of the std::vector
@@ -328,7 +331,7 @@ struct TypeTraits<std::vector<T>> {
      * @param vec Reference to std::vector
      * @return T* 
      */
-    static inline T* getAddress(std::vector<T>& vec) { return &vec.front(); }
+    static inline T* getAddress(std::vector<T>& vec) { return vec.data(); }
 
 };
 
-- 
2.43.0


From 503ee33ed844a35699c1509af532a622b7d9d247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:36:53 +0000
Subject: [PATCH 22/30] fix: broadcast of a string to a shorter string

---
 src/MPI.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MPI.cpp b/src/MPI.cpp
index 5959b26..6c231c6 100644
--- a/src/MPI.cpp
+++ b/src/MPI.cpp
@@ -70,7 +70,7 @@ int broadcast<std::string>(std::string& str, int root, MPI_Comm comm) {
     int rank; MPI_Comm_rank(comm, &rank);
     int size = str.length();
     broadcast(size, root, comm);
-    if (rank != root) str = std::string(TypeTraits<std::string>::getAddress(str), size);
+    if (rank != root) str.resize(size);
     return MPI_Bcast(TypeTraits<std::string>::getAddress(str), TypeTraits<std::string>::getSize(str), TypeTraits<std::string>::getType(str), root, comm);
 }
 
-- 
2.43.0


From 36fd6304b5459f36cd51e1ca730395da26f3029e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:53:41 +0000
Subject: [PATCH 23/30] fix: parallel identity matrix of a given type holds the
 identity

---
 src/SpecialMatrices.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/SpecialMatrices.hpp b/src/SpecialMatrices.hpp
index 57c005c..8192fd8 100644
--- a/src/SpecialMatrices.hpp
+++ b/src/SpecialMatrices.hpp
@@ -58,8 +58,17 @@ public:
         ParallelMatrix<NumericalType>(comm) {
 
         //
-        MatCreateConstantDiagonal(comm, PETSC_DECIDE, PETSC_DECIDE, N, N, 1.0, &this->mat);
+        MatCreate(comm, &this->mat);
+        MatSetSizes(this->mat, PETSC_DECIDE, PETSC_DECIDE, N, N);
         MatSetType(this->mat, matrix_type);
+        MatSetUp(this->mat);
+        int first, last;
+        MatGetOwnershipRange(this->mat, &first, &last);
+        for (int i = first; i < last; i++) {
+            MatSetValue(this->mat, i, i, 1.0, INSERT_VALUES);
+        }
+        MatAssemblyBegin(this->mat, MAT_FINAL_ASSEMBLY);
+        MatAssemblyEnd(this->mat, MAT_FINAL_ASSEMBLY);
         MatGetLocalSize(this->mat, &this->local_rows, &this->local_cols);
         MatGetSize(this->mat, &this->global_rows, &this->global_cols);
         this->is_created = true;
-- 
2.43.0


From 48e56d4bd01433be93e1e364cdf955816945875d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:53:41 +0000
Subject: [PATCH 24/30] fix: parallel matrix moved to another communicator owns
 its matrix and keeps all columns

---
 src/Matrix.hpp | 31 ++++++++++++-------------------
 1 file changed, 12 insertions(+), 19 deletions(-)

diff --git a/src/Matrix.hpp b/src/Matrix.hpp
index 5fecc2c..e8e373d 100644
--- a/src/Matrix.hpp
+++ b/src/Matrix.hpp
@@ -1207,28 +1207,21 @@ public:
         // is_created = true;
         // MatCreateSubMatrix(sub_matrix.mat, index_set_row, NULL, MAT_INITIAL_MATRIX, &mat);
         
-        EllipticForestApp& app = EllipticForestApp::getInstance();
+        // Stack the rows of each rank on the new communicator
         Mat* submat;
-        IS irow[1], icol[1] = {NULL};
+        IS irow[1], icol[1];
         int rfirst, rlast;
-        bool first_time = true;
-        // app.log("HERE 1");
         MatGetOwnershipRange(sub_matrix.mat, &rfirst, &rlast);
-        // app.log("HERE 2");
-        // app.log("sub_matrix comm = " + MPI::communicatorGetName(sub_matrix.getComm()));
-        ISCreateStride(sub_matrix.getComm(), rlast - rfirst, rfirst, 1, &irow[0]);
-        // app.log("HERE 3");
-        ISCreateStride(sub_matrix.getComm(), rlast - rfirst, rfirst, 1, &icol[0]);
-        // app.log("HERE 4");
-        if (first_time) {
-            MatCreateSubMatrices(sub_matrix.mat, 1, irow, icol, MAT_INITIAL_MATRIX, &submat);
-            MatCreateMPIMatConcatenateSeqMat(new_comm, submat[0], PETSC_DECIDE, MAT_INITIAL_MATRIX, &mat);
-            first_time = false;
-        }
-        else {
-            MatCreateSubMatrices(sub_matrix.mat, 1, irow, icol, MAT_REUSE_MATRIX, &submat);
-            MatCreateMPIMatConcatenateSeqMat(new_comm, submat[0], PETSC_DECIDE, MAT_REUSE_MATRIX, &mat);
-        }
+        ISCreateStride(MPI_COMM_SELF, rlast - rfirst, rfirst, 1, &irow[0]);
+        ISCreateStride(MPI_COMM_SELF, sub_matrix.global_cols, 0, 1, &icol[0]);
+        MatCreateSubMatrices(sub_matrix.mat, 1, irow, icol, MAT_INITIAL_MATRIX, &submat);
+        MatCreateMPIMatConcatenateSeqMat(new_comm, submat[0], PETSC_DECIDE, MAT_INITIAL_MATRIX, &mat);
+        MatDestroySubMatrices(1, &submat);
+        ISDestroy(&irow[0]);
+        ISDestroy(&icol[0]);
+        MatGetLocalSize(mat, &local_rows, &local_cols);
+        MatGetSize(mat, &global_rows, &global_cols);
+        is_created = true;
 
     }
 
-- 
2.43.0


From 3d00a17ca7fd74dfdd1bb1174416c056ae6c9b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:53:41 +0000
Subject: [PATCH 25/30] fix: copies of parallel vectors and matrices own their
 data

---
 src/Matrix.hpp | 14 +++++++++++---
 src/Vector.hpp | 42 ++++++++++++++++++++++++++++++++++++++----
 2 files changed, 49 insertions(+), 7 deletions(-)

diff --git a/src/Matrix.hpp b/src/Matrix.hpp
index e8e373d..9bdb214 100644
--- a/src/Matrix.hpp
+++ b/src/Matrix.hpp
@@ -1241,12 +1241,20 @@ public:
         local_cols(other.local_cols),
         global_rows(other.global_rows),
         global_cols(other.global_cols),
-        is_created(other.is_created),
-        mat(other.mat)
-            {}
+        is_created(other.is_created) {
+
+        // Copies own their data
+        if (is_created) {
+            MatDuplicate(other.mat, MAT_COPY_VALUES, &mat);
+        }
+
+    }
 
     ParallelMatrix& operator=(ParallelMatrix&& other) {
         if (this != &other) {
+            if (is_created) {
+                MatDestroy(&mat);
+            }
             MPIObject::operator=(std::move(other));
             local_rows = other.local_rows;
             local_cols = other.local_cols;
diff --git a/src/Vector.hpp b/src/Vector.hpp
index 1510299..0d2b37e 100644
--- a/src/Vector.hpp
+++ b/src/Vector.hpp
@@ -1023,7 +1023,7 @@ protected:
 
 public:
     
-    Petsc::Vec vec;
+    Petsc::Vec vec = NULL;
 
     ParallelVector() :
         MPIObject(MPI_COMM_WORLD)
@@ -1104,10 +1104,25 @@ public:
 
     // }
 
-    ~ParallelVector() {
-        if (is_created) {
-            VecDestroy(&vec);
+    // Copies own their data
+    ParallelVector(const ParallelVector& other) :
+        MPIObject(other) {
+
+        copyFrom(other);
+
+    }
+
+    ParallelVector& operator=(const ParallelVector& other) {
+        if (this != &other) {
+            destroy();
+            MPIObject::operator=(other);
+            copyFrom(other);
         }
+        return *this;
+    }
+
+    ~ParallelVector() {
+        destroy();
 
         // if (raw_data != nullptr) {
         //     delete raw_data;
@@ -1148,6 +1163,25 @@ public:
         return VecAssemblyEnd(vec);
     }
 
+protected:
+
+    void copyFrom(const ParallelVector& other) {
+        local_size = other.local_size;
+        global_size = other.global_size;
+        is_created = other.is_created;
+        if (is_created) {
+            VecDuplicate(other.vec, &vec);
+            VecCopy(other.vec, vec);
+        }
+    }
+
+    void destroy() {
+        if (is_created) {
+            VecDestroy(&vec);
+        }
+        is_created = false;
+    }
+
 };
  
 } // NAMESPACE : EllipticForest
-- 
2.43.0


From 1daf1bd2c8df17badeaa24e240b4392010c0a279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:59:25 +0000
Subject: [PATCH 26/30] fix: data arrays written to VTK files are released

---
 src/VTK.cpp | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/src/VTK.cpp b/src/VTK.cpp
index f7b951b..472e1d4 100644
--- a/src/VTK.cpp
+++ b/src/VTK.cpp
@@ -1,7 +1,15 @@
 #include "VTK.hpp"
 
+#include <memory>
+
 namespace EllipticForest {
 
+// Adds a new node as child; `nodes` owns it
+static void addOwnedChild_(std::vector<std::unique_ptr<XMLNode>>& nodes, XMLNode& parent, XMLNode* child) {
+    nodes.emplace_back(child);
+    parent.addChild(child);
+}
+
 XMLNode* DataArrayNodeBase::toVTK() {
     XMLNode* node_data_array = new XMLNode("DataArray");
     node_data_array->addAttribute("type", getType());
@@ -102,15 +110,16 @@ void RectilinearGridVTK::toVTK(std::string filename) {
 
         XMLNode node_coordinates("Coordinates");
         
+        std::vector<std::unique_ptr<XMLNode>> data_arrays;
         XMLNode root = root_;
         root.addChild(node_rectilinear_grid);
         node_rectilinear_grid.addChild(node_piece);
         if (!cell_data_vector_.empty()) node_piece.addChild(node_cell_data);
         if (!point_data_vector_.empty()) node_piece.addChild(node_point_data);
         node_piece.addChild(node_coordinates);
-        for (auto cell_data : cell_data_vector_) node_cell_data.addChild(cell_data->toVTK());
-        for (auto point_data : point_data_vector_) node_point_data.addChild(point_data->toVTK());
-        for (auto coordData : coords_data_vector_) node_coordinates.addChild(coordData->toVTK());
+        for (auto cell_data : cell_data_vector_) addOwnedChild_(data_arrays, node_cell_data, cell_data->toVTK());
+        for (auto point_data : point_data_vector_) addOwnedChild_(data_arrays, node_point_data, point_data->toVTK());
+        for (auto coordData : coords_data_vector_) addOwnedChild_(data_arrays, node_coordinates, coordData->toVTK());
 
         XMLTree tree(root);
         tree.write(filename);
@@ -186,19 +195,20 @@ void UnstructuredGridVTK::toVTK(std::string filename) {
             node_point_data.addAttribute("Scalars", names);
         }
 
+        std::vector<std::unique_ptr<XMLNode>> data_arrays;
         XMLNode root = root_;
         root.addChild(node_unstructured_grid);
             node_unstructured_grid.addChild(node_piece);
                 node_piece.addChild(node_points);
-                    node_points.addChild(mesh_->getPoints().toVTK());
+                    addOwnedChild_(data_arrays, node_points, mesh_->getPoints().toVTK());
                 node_piece.addChild(node_cells);
-                    node_cells.addChild(mesh_->getConnectivity().toVTK());
-                    node_cells.addChild(mesh_->getOffsets().toVTK());
-                    node_cells.addChild(mesh_->getTypes().toVTK());
+                    addOwnedChild_(data_arrays, node_cells, mesh_->getConnectivity().toVTK());
+                    addOwnedChild_(data_arrays, node_cells, mesh_->getOffsets().toVTK());
+                    addOwnedChild_(data_arrays, node_cells, mesh_->getTypes().toVTK());
                 if (!cell_data_vector_.empty()) node_piece.addChild(node_cell_data);
-                    for (auto& cell_data : cell_data_vector_) node_cell_data.addChild(cell_data->toVTK());
+                    for (auto& cell_data : cell_data_vector_) addOwnedChild_(data_arrays, node_cell_data, cell_data->toVTK());
                 if (!point_data_vector_.empty()) node_piece.addChild(node_point_data);
-                    for (auto& point_data : point_data_vector_) node_point_data.addChild(point_data->toVTK());
+                    for (auto& point_data : point_data_vector_) addOwnedChild_(data_arrays, node_point_data, point_data->toVTK());
 
         XMLTree tree(root);
         tree.write(filename);
@@ -283,14 +293,15 @@ void PUnstructuredGridVTK::toVTK(std::string filenameBase) {
         }
 
         // Build structure
+        std::vector<std::unique_ptr<XMLNode>> data_arrays;
         XMLNode root = root_;
         root.addChild(node_p_unstructured_grid);
             node_p_unstructured_grid.addChild(node_p_points);
-                node_p_points.addChild(mesh.getPoints().toPVTK());
+                addOwnedChild_(data_arrays, node_p_points, mesh.getPoints().toPVTK());
             node_p_unstructured_grid.addChild(node_p_pointData);
-                for (auto& point_data : point_data_vector) node_p_pointData.addChild(point_data->toPVTK());
+                for (auto& point_data : point_data_vector) addOwnedChild_(data_arrays, node_p_pointData, point_data->toPVTK());
             node_p_unstructured_grid.addChild(node_p_cell_data);
-                for (auto& cell_data : cell_data_vector) node_p_cell_data.addChild(cell_data->toPVTK());
+                for (auto& cell_data : cell_data_vector) addOwnedChild_(data_arrays, node_p_cell_data, cell_data->toPVTK());
             for (auto& node_piece : node_piece_vector) node_p_unstructured_grid.addChild(node_piece);
         
         // Write to file
-- 
2.43.0


From 28a224bc842d5a3cb68436b8b6ee138a6c8ea815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:01:11 +0000
Subject: [PATCH 27/30] fix: copies of remote children are released after each
 family visit

---
 src/Quadtree.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Quadtree.hpp b/src/Quadtree.hpp
index ec6cd4b..142361b 100644
--- a/src/Quadtree.hpp
+++ b/src/Quadtree.hpp
@@ -11,6 +11,7 @@
 #include <ostream>
 #include <vector>
 #include <functional>
+#include <memory>
 #include <set>
 
 #include "EllipticForestApp.hpp"
@@ -466,6 +467,7 @@ public:
 		else {
 			// Quadrant is a branch; call branch callback
 			std::vector<Node<T>*> children{4};
+			std::vector<std::unique_ptr<Node<T>>> remote_children; // Copies of children on other ranks; live until the family has been visited
 			if (node->pfirst == node->plast) {
 				// Node is owned by single rank
 				for (int i = 0; i < 4; i++) {
@@ -489,7 +491,8 @@ public:
 						// Allocate memory on my rank to store incoming node data
 						if (child == nullptr) {
 							// child = quadtree.node_factory->createChildNode(node, i, node->pfirst, node->plast);
-							child = new Node<T>(node->getComm());
+							remote_children.push_back(std::make_unique<Node<T>>(node->getComm()));
+							child = remote_children.back().get();
 						}
 
 						// Broadcast node
-- 
2.43.0


From 3fd5433e2cac8b350204318d400ddcb4306c0232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:01:28 +0000
Subject: [PATCH 28/30] fix: mesh functions created by the mesh are released
 when they are cleared

---
 src/Mesh.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/Mesh.hpp b/src/Mesh.hpp
index fad882c..2d9f3ca 100644
--- a/src/Mesh.hpp
+++ b/src/Mesh.hpp
@@ -1,6 +1,8 @@
 #ifndef MESH_HPP_
 #define MESH_HPP_
 
+#include <memory>
+
 #include "Vector.hpp"
 #include "Quadtree.hpp"
 #include "MPI.hpp"
@@ -61,6 +63,12 @@ public:
      */
     std::vector<Vector<double>*> mesh_functions{};
 
+    /**
+     * @brief Mesh functions created by the mesh itself (the others belong to the user)
+     * 
+     */
+    std::vector<std::shared_ptr<Vector<double>>> owned_mesh_functions{};
+
     /**
      * @brief Construct a new Mesh object (default)
      * 
@@ -375,14 +383,15 @@ public:
             ncells += grid.nx() * grid.ny();
         });
 
-        Vector<double>* meshFunctionVector = new Vector<double>(ncells);
+        auto meshFunctionVector = std::make_shared<Vector<double>>(ncells);
         meshFunctionVector->name() = meshFunctionName;
         int i = 0;
         iterateCells([&](double xc, double yc){
             (*meshFunctionVector)[i++] = meshFunction(xc, yc);
         });
 
-        mesh_functions.push_back(meshFunctionVector);
+        mesh_functions.push_back(meshFunctionVector.get());
+        owned_mesh_functions.push_back(meshFunctionVector);
 
     }
 
@@ -392,6 +401,7 @@ public:
      */
     void clearMeshFunctions() {
         mesh_functions.clear();
+        owned_mesh_functions.clear();
     }
 
     /**
-- 
2.43.0


From c2f48ead7ae10f9211c0adc9b34756cd78155a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:16:21 +0000
Subject: [PATCH 29/30] fix: report the sizes of the underlying Petsc matrix

localRows, localCols, globalRows and globalCols returned PETSC_DECIDE (-1) or 0
for sizes that Petsc determines, and moving such a matrix to another
communicator passed -1 to ISCreateStride.
---
 src/Matrix.hpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/Matrix.hpp b/src/Matrix.hpp
index 9bdb214..41bb83b 100644
--- a/src/Matrix.hpp
+++ b/src/Matrix.hpp
@@ -1213,7 +1213,7 @@ public:
         int rfirst, rlast;
         MatGetOwnershipRange(sub_matrix.mat, &rfirst, &rlast);
         ISCreateStride(MPI_COMM_SELF, rlast - rfirst, rfirst, 1, &irow[0]);
-        ISCreateStride(MPI_COMM_SELF, sub_matrix.global_cols, 0, 1, &icol[0]);
+        ISCreateStride(MPI_COMM_SELF, sub_matrix.globalCols(), 0, 1, &icol[0]);
         MatCreateSubMatrices(sub_matrix.mat, 1, irow, icol, MAT_INITIAL_MATRIX, &submat);
         MatCreateMPIMatConcatenateSeqMat(new_comm, submat[0], PETSC_DECIDE, MAT_INITIAL_MATRIX, &mat);
         MatDestroySubMatrices(1, &submat);
@@ -1285,20 +1285,29 @@ public:
         // }
     }
 
+    // Sizes of the Petsc matrix (sizes given as `PETSC_DECIDE` are filled in by Petsc)
     int localRows() const {
-        return local_rows;
+        int rows = local_rows, cols;
+        if (is_created) MatGetLocalSize(mat, &rows, &cols);
+        return rows;
     }
 
     int localCols() const {
-        return local_cols;
+        int rows, cols = local_cols;
+        if (is_created) MatGetLocalSize(mat, &rows, &cols);
+        return cols;
     }
 
     int globalRows() const {
-        return global_rows;
+        int rows = global_rows, cols;
+        if (is_created) MatGetSize(mat, &rows, &cols);
+        return rows;
     }
 
     int globalCols() const {
-        return global_cols;
+        int rows, cols = global_cols;
+        if (is_created) MatGetSize(mat, &rows, &cols);
+        return cols;
     }
 
     Petsc::ErrorCode create() {
-- 
2.43.0


From 4f8bfef7048e41449d1a44dddef4a9ce382bf8ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:45:10 +0000
Subject: [PATCH 30/30] fix: reject reversed ranges of a matrix

A(a, b, c, d) with b < a or d < c computed range lengths that wrapped around:
an empty matrix came back for b == a - 1, and with both ranges reversed the
size of the result wrapped to a small product and entries were written past
the end of its storage.
---
 src/Matrix.hpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/Matrix.hpp b/src/Matrix.hpp
index 41bb83b..ac97493 100644
--- a/src/Matrix.hpp
+++ b/src/Matrix.hpp
@@ -267,6 +267,23 @@ public:
      * @return Matrix<NumericalType> 
      */
     Matrix<NumericalType> operator()(std::size_t a, std::size_t b, std::size_t c, std::size_t d) {
+        // The only range of an empty dimension is [0:-1], for which (b - a) + 1 wraps to 0
+        if (b < a || (nrows_ > 0 && b - a >= nrows_)) {
+            std::string error_msg = "[EllipticForest::Matrix::operator()] Row range `a:b` is outside of range:\n";
+            error_msg += "\ta = " + std::to_string(a) + "\n";
+            error_msg += "\tb = " + std::to_string(b) + "\n";
+            error_msg += "\tnrows = " + std::to_string(nrows_) + "\n";
+            std::cerr << error_msg << std::endl;
+            throw std::out_of_range(error_msg);
+        }
+        if (d < c || (ncols_ > 0 && d - c >= ncols_)) {
+            std::string error_msg = "[EllipticForest::Matrix::operator()] Column range `c:d` is outside of range:\n";
+            error_msg += "\tc = " + std::to_string(c) + "\n";
+            error_msg += "\td = " + std::to_string(d) + "\n";
+            error_msg += "\tncols = " + std::to_string(ncols_) + "\n";
+            std::cerr << error_msg << std::endl;
+            throw std::out_of_range(error_msg);
+        }
         Matrix<NumericalType> res((b - a) + 1, (d - c) + 1);
         for (auto i = 0; i < res.nrows(); i++) {
             for (auto j = 0; j < res.ncols(); j++) {
-- 
2.43.0

