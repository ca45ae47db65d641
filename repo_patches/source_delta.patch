From 5d87d2f3b2f4f2e57d727bb0cba88b7b41004fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:39:28 +0000
Subject: [PATCH 01/41] fix: coarse-to-fine interpolation for sides with fewer
 than three coarse cells

---
 src/SpecialMatrices.hpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/SpecialMatrices.hpp b/src/SpecialMatrices.hpp
index 27e01a3..b0cb6db 100644
--- a/src/SpecialMatrices.hpp
+++ b/src/SpecialMatrices.hpp
@@ -145,19 +145,22 @@ public:
     InterpolationMatrixCoarse2Fine(std::size_t nfine) :
         Matrix<NumericalType>(nfine, nfine/2, 0) {
 
-        int k = 3;
+        // Edge rows extrapolate from the coarse cells next to the edge, as many as there are (up to three)
         Vector<NumericalType> edge_coefficients = {1.40625, -0.5625, 0.15625};
+        if (nfine/2 == 2) edge_coefficients = {1.25, -0.25};
+        if (nfine/2 == 1) edge_coefficients = Vector<NumericalType>(1, 1.0);
+        int k = edge_coefficients.size();
         for (auto i = 0; i < this->nrows_; i++) {
             for (auto j = 0; j < this->ncols_; j++) {
                 if (i == 0 && j == 0) {
-                    this->operator()(i,j) = edge_coefficients[0];
-                    this->operator()(i,j+1) = edge_coefficients[1];
-                    this->operator()(i,j+2) = edge_coefficients[2];
+                    for (auto l = 0; l < k; l++) {
+                        this->operator()(i,j+l) = edge_coefficients[l];
+                    }
                 }
                 else if (i == this->nrows_-1 && j == this->ncols_-k) {
-                    this->operator()(i,j) = edge_coefficients[2];
-                    this->operator()(i,j+1) = edge_coefficients[1];
-                    this->operator()(i,j+2) = edge_coefficients[0];
+                    for (auto l = 0; l < k; l++) {
+                        this->operator()(i,j+l) = edge_coefficients[k-1-l];
+                    }
                 }
                 else if (i == 2*j+1 && i%2 == 1 && i != this->nrows_-1) {
                     this->operator()(i,j) = 0.75;
-- 
2.43.0


From b38326bb0b5589d92d76aff67fcdacba37c350dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:39:28 +0000
Subject: [PATCH 02/41] fix: reset a merged patch's coarsening count so that
 the build stage can be repeated

---
 src/HPSAlgorithm.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/HPSAlgorithm.hpp b/src/HPSAlgorithm.hpp
index c5456a7..5407343 100644
--- a/src/HPSAlgorithm.hpp
+++ b/src/HPSAlgorithm.hpp
@@ -1006,6 +1006,9 @@ private:
         PatchGridType merged_grid(MPI_COMM_SELF, alpha.size() + beta.size(), alpha.grid().xLower(), beta.grid().xUpper(), alpha.size() + gamma.size(), alpha.grid().yLower(), gamma.grid().yUpper());
         tau.grid() = merged_grid;
 
+        // The parent has its full resolution again; it is coarsened anew if its own merge needs it
+        tau.n_coarsens = 0;
+
     }
 
     // ====================================================================================================
-- 
2.43.0


From 010247f41d27c1a652f6423bacb68243a0a5c854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:39:28 +0000
Subject: [PATCH 03/41] fix: HPS options that are not set are off instead of
 throwing bad_variant_access

---
 src/HPSAlgorithm.hpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/HPSAlgorithm.hpp b/src/HPSAlgorithm.hpp
index 5407343..dc196f8 100644
--- a/src/HPSAlgorithm.hpp
+++ b/src/HPSAlgorithm.hpp
@@ -131,7 +131,7 @@ public:
                 // Leaf callback
                 PatchType& patch = leaf_node->data;
                 // patch.isLeaf = true;
-                if (std::get<bool>(app.options["cache-operators"])) {
+                if (isEnabled_("cache-operators")) {
                     if (!matrixCache.contains("T_leaf")) {
                         matrixCache["T_leaf"] = patch_solver.buildD2N(patch.grid());
                     }
@@ -529,7 +529,7 @@ public:
     virtual void upwards4to1(PatchType& tau, PatchType& alpha, PatchType& beta, PatchType& gamma, PatchType& omega) {
         
         EllipticForestApp& app = EllipticForestApp::getInstance();
-        if (!std::get<bool>(app.options["homogeneous-rhs"])) {
+        if (!isEnabled_("homogeneous-rhs")) {
             // app.logHead("Upwards:");
             // app.logHead("  alpha = %i", alpha.globalID);
             // app.logHead("  beta = %i", beta.globalID);
@@ -584,7 +584,7 @@ public:
     virtual void leafSolve(PatchType& patch) {
         
         EllipticForestApp& app = EllipticForestApp::getInstance();
-        if (std::get<bool>(app.options["homogeneous-rhs"])) {
+        if (isEnabled_("homogeneous-rhs")) {
             // Need to set RHS to zeros for patch patch_solver b/c it won't be set already
             patch.vectorF() = Vector<double>(patch.grid().nx() * patch.grid().ny(), 0);
         }
@@ -597,6 +597,18 @@ public:
 
 private:
 
+    /**
+     * @brief Checks if a boolean option is set to true; options that are not set are off
+     * 
+     * @param name Name of option
+     * @return true if the option exists and is true
+     * @return false otherwise
+     */
+    bool isEnabled_(const std::string& name) {
+        EllipticForestApp& app = EllipticForestApp::getInstance();
+        return app.options.optionExists(name) && std::get<bool>(app.options[name]);
+    }
+
     // Index sets
     Vector<int> IS_alpha_beta_;
     Vector<int> IS_alpha_gamma_;
@@ -1202,7 +1214,7 @@ private:
 
         // Apply non-homogeneous contribution
         EllipticForestApp& app = EllipticForestApp::getInstance();
-        if (!std::get<bool>(app.options["homogeneous-rhs"])) {
+        if (!isEnabled_("homogeneous-rhs")) {
             u_tau_interior = u_tau_interior + tau.vectorW();
         }
 
-- 
2.43.0


From 7ea7c18d2738c423c2dc1b7391c7d5467f50c19b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:39:28 +0000
Subject: [PATCH 04/41] fix: homogeneous right-hand sides do not use a missing
 or stale particular flux at the root

---
 src/HPSAlgorithm.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/HPSAlgorithm.hpp b/src/HPSAlgorithm.hpp
index dc196f8..8cf1386 100644
--- a/src/HPSAlgorithm.hpp
+++ b/src/HPSAlgorithm.hpp
@@ -404,8 +404,9 @@ public:
             Vector<NumericalType> r = concatenate(rVectors);
             Vector<NumericalType> a = concatenate(aVectors);
             Vector<NumericalType> b = concatenate(bVectors);
-            Vector<NumericalType>& h = rootPatch.vectorH();
             Matrix<NumericalType>& T = rootPatch.matrixT();
+            // The upwards stage does not merge vectorH when the right-hand side is homogeneous
+            Vector<NumericalType> h = isEnabled_("homogeneous-rhs") ? Vector<NumericalType>(T.nRows(), 0) : rootPatch.vectorH();
             Vector<NumericalType>& g = rootPatch.vectorG();
 
             Matrix<NumericalType> A = DiagonalMatrix<NumericalType>(a);
-- 
2.43.0


From d1f2709e98e89a1b296606bb224d4d1b41929825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:39:28 +0000
Subject: [PATCH 05/41] fix: cache leaf operators per level and per build

---
 src/HPSAlgorithm.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/HPSAlgorithm.hpp b/src/HPSAlgorithm.hpp
index 8cf1386..b333355 100644
--- a/src/HPSAlgorithm.hpp
+++ b/src/HPSAlgorithm.hpp
@@ -125,6 +125,9 @@ public:
         app.addTimer("build-stage");
         app.timers["build-stage"].start();
 
+        // The patch solver may have changed since the last build
+        matrixCache = DataCache<Matrix<NumericalType>>();
+
         mesh.quadtree.merge(
             [&](Node<PatchType>* leaf_node){
                 // app.log("Leaf callback: path = " + leaf_node->path);
@@ -132,10 +135,12 @@ public:
                 PatchType& patch = leaf_node->data;
                 // patch.isLeaf = true;
                 if (isEnabled_("cache-operators")) {
-                    if (!matrixCache.contains("T_leaf")) {
-                        matrixCache["T_leaf"] = patch_solver.buildD2N(patch.grid());
+                    // Leaves on different levels have different grid spacings
+                    std::string key = "T_leaf_" + std::to_string(leaf_node->level);
+                    if (!matrixCache.contains(key)) {
+                        matrixCache[key] = patch_solver.buildD2N(patch.grid());
                     }
-                    patch.matrixT() = matrixCache["T_leaf"];
+                    patch.matrixT() = matrixCache[key];
                 }
                 else {
                     patch.matrixT() = patch_solver.buildD2N(patch.grid());
-- 
2.43.0


From f54ebeae39c21f6e8c212dc02a0ec0365029c389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:39:28 +0000
Subject: [PATCH 06/41] fix: leaf solves are local to a rank; create their
 index sets on MPI_COMM_SELF and release them

---
 src/Patches/FiniteVolume/FiniteVolumeSolver.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/Patches/FiniteVolume/FiniteVolumeSolver.cpp b/src/Patches/FiniteVolume/FiniteVolumeSolver.cpp
index 676bd2c..c7af886 100644
--- a/src/Patches/FiniteVolume/FiniteVolumeSolver.cpp
+++ b/src/Patches/FiniteVolume/FiniteVolumeSolver.cpp
@@ -197,8 +197,8 @@ Vector<double> FiniteVolumeSolver::solve(FiniteVolumeGrid& grid, Vector<double>&
         IS row_perm, col_perm;
         Vector<int> idx_row = vectorRange(0, N-1);
         Vector<int> idx_col = vectorRange(0, N-1);
-        ISCreateGeneral(MPI_COMM_WORLD, N, idx_row.data().data(), PETSC_COPY_VALUES, &row_perm);
-        ISCreateGeneral(MPI_COMM_WORLD, N, idx_col.data().data(), PETSC_COPY_VALUES, &col_perm);
+        ISCreateGeneral(MPI_COMM_SELF, N, idx_row.data().data(), PETSC_COPY_VALUES, &row_perm);
+        ISCreateGeneral(MPI_COMM_SELF, N, idx_col.data().data(), PETSC_COPY_VALUES, &col_perm);
         MatFactorInfo mat_factor_info;
         MatFactorInfoInitialize(&mat_factor_info);
 
@@ -212,8 +212,11 @@ Vector<double> FiniteVolumeSolver::solve(FiniteVolumeGrid& grid, Vector<double>&
         std::vector<double> xv;
         xv.assign(x_data, x_data + N);
         Vector<double> x_vector(xv);
+        VecRestoreArray(x, &x_data);
 
         // Clean up
+        ISDestroy(&row_perm);
+        ISDestroy(&col_perm);
         MatDestroy(&A);
         VecDestroy(&x);
         VecDestroy(&f);
-- 
2.43.0


From f6fe7d22be395b73d4aa0cf3aa760d451f0d2b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:07:28 +0000
Subject: [PATCH 07/41] fix: Vector::getRange and operator()(a,b) return the
 entries of the range, not its indices

---
 src/Vector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Vector.hpp b/src/Vector.hpp
index 4e72305..61ebccd 100644
--- a/src/Vector.hpp
+++ b/src/Vector.hpp
@@ -270,7 +270,7 @@ public:
 
         Vector<NumericalType> v((b - a) + 1);
         for (auto i = 0; i < v.size(); i++) {
-            v(i) = a + i;
+            v(i) = data_[a + i];
         }
         return v;
     }
@@ -296,7 +296,7 @@ public:
 
         Vector<NumericalType> v((b - a) + 1);
         for (auto i = 0; i < v.size(); i++) {
-            v(i) = a + i;
+            v(i) = data_[a + i];
         }
         return v;
     }
-- 
2.43.0


From 3f9403406576223d9feb0af5205ec605d41317ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:07:28 +0000
Subject: [PATCH 08/41] fix: take scalars of Vector updates by value so that v
 -= v[0] uses one value throughout

---
 src/Vector.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Vector.hpp b/src/Vector.hpp
index 61ebccd..3d8a7c9 100644
--- a/src/Vector.hpp
+++ b/src/Vector.hpp
@@ -583,7 +583,7 @@ public:
      * @param rhs RHS scalar
      * @return Vector<NumericalType>& 
      */
-    Vector<NumericalType>& operator-=(const NumericalType& rhs) {
+    Vector<NumericalType>& operator-=(const NumericalType rhs) {
         for (auto i = 0; i < size_; i++) {
             data_[i] -= rhs;
         }
@@ -625,7 +625,7 @@ public:
      * @param rhs RHS scalar
      * @return Vector<NumericalType>& 
      */
-    Vector<NumericalType>& operator*=(const NumericalType& rhs) {
+    Vector<NumericalType>& operator*=(const NumericalType rhs) {
         for (auto i = 0; i < size_; i++) {
             data_[i] *= rhs;
         }
@@ -660,7 +660,7 @@ public:
      * @param rhs RHS scalar
      * @return Vector<NumericalType>& 
      */
-    Vector<NumericalType>& operator/=(const NumericalType& rhs) {
+    Vector<NumericalType>& operator/=(const NumericalType rhs) {
         for (auto i = 0; i < size_; i++) {
             data_[i] /= rhs;
         }
-- 
2.43.0


From 720d672b476a428a088f22c9c33689b6cc050872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:07:52 +0000
Subject: [PATCH 09/41] fix: Matrix::getCol copies all rows of the column

---
 src/Matrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Matrix.hpp b/src/Matrix.hpp
index 6906d8a..beb072b 100644
--- a/src/Matrix.hpp
+++ b/src/Matrix.hpp
@@ -300,7 +300,7 @@ public:
     Vector<NumericalType> getCol(std::size_t col_index) {
         Vector<NumericalType> res(nrows_);
         Matrix<NumericalType> colMatrix = operator()(0, nrows_ - 1, col_index, col_index);
-        for (auto i = 0; i < ncols_; i++) {
+        for (auto i = 0; i < nrows_; i++) {
             res[i] = colMatrix(i, 0);
         }
         return res;
-- 
2.43.0


From 86f048481229212e7e75a52dff72ea618de05828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:07:52 +0000
Subject: [PATCH 10/41] fix: Matrix::operator*= with a scalar multiplies

---
 src/Matrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Matrix.hpp b/src/Matrix.hpp
index beb072b..af9816a 100644
--- a/src/Matrix.hpp
+++ b/src/Matrix.hpp
@@ -693,7 +693,7 @@ public:
     Matrix<NumericalType>& operator*=(NumericalType rhs) {
         for (auto i = 0; i < nrows_; i++) {
             for (auto j = 0; j < ncols_; j++) {
-                operator()(i, j) += rhs;
+                operator()(i, j) *= rhs;
             }
         }
         return *this;
-- 
2.43.0


From 965eace2d89d7faf039e61139088b8a63dae9592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:08:19 +0000
Subject: [PATCH 11/41] fix: Vector rejects an index equal to its size

---
 src/Vector.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/Vector.hpp b/src/Vector.hpp
index 3d8a7c9..8744628 100644
--- a/src/Vector.hpp
+++ b/src/Vector.hpp
@@ -144,7 +144,7 @@ public:
      * @return NumericalType Value of entry
      */
     NumericalType getEntry(std::size_t index) {
-        if (index > size_ || index < 0) {
+        if (index >= size_ || index < 0) {
             std::string errorMessage = "[EllipticForest::Vector::getEntry] `index` is out of range:\n";
             errorMessage += "\tindex = " + std::to_string(index) + "\n";
             errorMessage += "\tsize = " + std::to_string(size_) + "\n";
@@ -164,7 +164,7 @@ public:
      * @return NumericalType& Reference to value in vector
      */
     NumericalType& operator[](std::size_t index) {
-        if (index > size_ || index < 0) {
+        if (index >= size_ || index < 0) {
             std::string errorMessage = "[EllipticForest::Vector::operator[]] `index` is out of range:\n";
             errorMessage += "\tindex = " + std::to_string(index) + "\n";
             errorMessage += "\tsize = " + std::to_string(size_) + "\n";
@@ -184,7 +184,7 @@ public:
      * @return NumericalType& Reference to value in vector
      */
     const NumericalType& operator[](std::size_t index) const {
-        if (index > size_ || index < 0) {
+        if (index >= size_ || index < 0) {
             std::string errorMessage = "[EllipticForest::Vector::operator[]] `index` is out of range:\n";
             errorMessage += "\tindex = " + std::to_string(index) + "\n";
             errorMessage += "\tsize = " + std::to_string(size_) + "\n";
@@ -204,7 +204,7 @@ public:
      * @return NumericalType& Reference to value in vector
      */
     NumericalType& operator()(std::size_t index) {
-        if (index > size_ || index < 0) {
+        if (index >= size_ || index < 0) {
             std::string errorMessage = "[EllipticForest::Vector::operator()] `index` is out of range:\n";
             errorMessage += "\tindex = " + std::to_string(index) + "\n";
             errorMessage += "\tsize = " + std::to_string(size_) + "\n";
@@ -259,7 +259,7 @@ public:
      * @return Vector<NumericalType> Vector of size `(b - a) + 1` with entries
      */
     Vector<NumericalType> getRange(std::size_t a, std::size_t b) {
-        if (a > size_ || b > size_ || a < 0 || b < 0) {
+        if (a >= size_ || b >= size_ || a < 0 || b < 0) {
             std::string errorMessage = "[EllipticForest::Vector::getRange] `a` or `b` is outside of range of vector:\n";
             errorMessage += "\ta = " + std::to_string(a) + "\n";
             errorMessage += "\tb = " + std::to_string(b) + "\n";
@@ -285,7 +285,7 @@ public:
      * @return Vector<NumericalType> Vector of size `(b - a) + 1` with entries
      */
     Vector<NumericalType> operator()(std::size_t a, std::size_t b) {
-        if (a > size_ || b > size_ || a < 0 || b < 0) {
+        if (a >= size_ || b >= size_ || a < 0 || b < 0) {
             std::string errorMessage = "[EllipticForest::Vector::operator()] `a` or `b` is outside of range of vector:\n";
             errorMessage += "\ta = " + std::to_string(a) + "\n";
             errorMessage += "\tb = " + std::to_string(b) + "\n";
@@ -377,7 +377,7 @@ public:
 
         Vector<NumericalType> res(I.size());
         for (auto i = 0; i < I.size(); i++) {
-            if (I[i] > size_ || I[i] < 0) {
+            if (I[i] >= size_ || I[i] < 0) {
                 std::string errorMessage = "[EllipticForest::Vector::operator()] Index in `I` is out of range:\n";
                 errorMessage += "\ti = " + std::to_string(i) + "\n";
                 errorMessage += "\tI[i] = " + std::to_string(I[i]) + "\n";
@@ -409,7 +409,7 @@ public:
 
         Vector<NumericalType> res(I.size());
         for (auto i = 0; i < I.size(); i++) {
-            if (I[i] > size_ || I[i] < 0) {
+            if (I[i] >= size_ || I[i] < 0) {
                 std::string errorMessage = "[EllipticForest::Vector::operator()] Index in `I` is out of range:\n";
                 errorMessage += "\ti = " + std::to_string(i) + "\n";
                 errorMessage += "\tI[i] = " + std::to_string(I[i]) + "\n";
-- 
2.43.0


From e33d48d20e230ea9d14d1ab1623cf3b5ff334309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:08:19 +0000
Subject: [PATCH 12/41] fix: Matrix rejects a row or column index equal to its
 size

---
 src/Matrix.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/Matrix.hpp b/src/Matrix.hpp
index af9816a..df24d75 100644
--- a/src/Matrix.hpp
+++ b/src/Matrix.hpp
@@ -332,13 +332,13 @@ public:
         Matrix<NumericalType> res(I.size(), J.size());
         for (auto i = 0; i < I.size(); i++) {
             for (auto j = 0; j < J.size(); j++) {
-                if (I[i] > nrows_ || I[i] < 0) {
+                if (I[i] >= nrows_ || I[i] < 0) {
                     std::string error_msg = "[EllipticForest::Matrix::getFromIndexSet] Index in `I` is out of range:\n";
                     error_msg += "\ti = " + std::to_string(i) + "\n";
                     error_msg += "\tI[i] = " + std::to_string(I[i]) + "\n";
                     error_msg += "\tnrows = " + std::to_string(nrows_) + "\n";
                 }
-                if (J[j] > ncols_ || J[j] < 0) {
+                if (J[j] >= ncols_ || J[j] < 0) {
                     std::string error_msg = "[EllipticForest::Matrix::getFromIndexSet] Index in `J` is out of range:\n";
                     error_msg += "\tj = " + std::to_string(j) + "\n";
                     error_msg += "\tJ[j] = " + std::to_string(J[j]) + "\n";
@@ -369,7 +369,7 @@ public:
      * @param vec Vector to set
      */
     void setRow(std::size_t row_index, Vector<NumericalType>& vec) {
-        if (row_index > nrows_) {
+        if (row_index >= nrows_) {
             std::string error_msg = "[EllipticForest::Matrix::setRow] `row_index` exceeds matrix size:\n";
             error_msg += "\trowIndex = " + std::to_string(row_index) + "\n";
             error_msg += "\tnrows = " + std::to_string(nrows_) + "\n";
@@ -397,7 +397,7 @@ public:
      * @param vec Vector to set
      */
     void setColumn(std::size_t col_index, Vector<NumericalType>& vec) {
-        if (col_index > ncols_) {
+        if (col_index >= ncols_) {
             std::string error_msg = "[EllipticForest::Matrix::setColumn] `col_index` exceeds matrix size:\n";
             error_msg += "\tcolIndex = " + std::to_string(col_index) + "\n";
             error_msg += "\tncols = " + std::to_string(ncols_) + "\n";
@@ -709,14 +709,14 @@ private:
      * @return std::size_t 
      */
     std::size_t flattenIndex_(std::size_t i, std::size_t j) {
-        if (i < 0 || i > nrows_) {
+        if (i < 0 || i >= nrows_) {
             std::string error_msg = "[EllipticForest::Matrix::flattenIndex] Index `i` is outside of range:\n";
             error_msg += "\ti = " + std::to_string(i) + "\n";
             error_msg += "\tnrows = " + std::to_string(nrows_) + "\n";
             std::cerr << error_msg << std::endl;
             throw std::out_of_range(error_msg);
         }
-        if (j < 0 || j > ncols_) {
+        if (j < 0 || j >= ncols_) {
             std::string error_msg = "[EllipticForest::Matrix::flattenIndex] Index `j` is outside of range:\n";
             error_msg += "\tj = " + std::to_string(j) + "\n";
             error_msg += "\tncols = " + std::to_string(ncols_) + "\n";
-- 
2.43.0


From c727fed896bee8a3e5d22107a527dda7a3ce784e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:08:58 +0000
Subject: [PATCH 13/41] fix: segment and block bounds checks do not wrap around
 for large indices

---
 src/Matrix.hpp | 8 ++++----
 src/Vector.hpp | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/Matrix.hpp b/src/Matrix.hpp
index df24d75..c8a40b9 100644
--- a/src/Matrix.hpp
+++ b/src/Matrix.hpp
@@ -481,7 +481,7 @@ public:
      * @return Matrix<NumericalType> 
      */
     Matrix<NumericalType> getBlock(std::size_t row_index, std::size_t col_index, std::size_t row_length, std::size_t col_length) {
-        if (row_index + row_length > nrows_) {
+        if (row_index > nrows_ || row_length > nrows_ - row_index) {
             std::string error_msg = "[EllipticForest::Matrix::getBlock] Row size exceeds matrix size:\n";
             error_msg += "\trowIndex = " + std::to_string(row_index) + "\n";
             error_msg += "\trowLength = " + std::to_string(row_length) + "\n";
@@ -489,7 +489,7 @@ public:
             std::cerr << error_msg << std::endl;
             throw std::out_of_range(error_msg);
         }
-        if (col_index + col_length > ncols_) {
+        if (col_index > ncols_ || col_length > ncols_ - col_index) {
             std::string error_msg = "[EllipticForest::Matrix::getBlock] Column size exceeds matrix size:\n";
             error_msg += "\tcolIndex = " + std::to_string(col_index) + "\n";
             error_msg += "\tcolLength = " + std::to_string(col_length) + "\n";
@@ -517,7 +517,7 @@ public:
      * @param mat Sub-matrix to set
      */
     void setBlock(std::size_t row_index, std::size_t col_index, Matrix<NumericalType>& mat) {
-        if (row_index + mat.nrows() > nrows_) {
+        if (row_index > nrows_ || mat.nrows() > nrows_ - row_index) {
             std::string error_msg = "[EllipticForest::Matrix::setBlock] Row size exceeds matrix size:\n";
             error_msg += "\trowIndex = " + std::to_string(row_index) + "\n";
             error_msg += "\tmat.nrows() = " + std::to_string(mat.nrows()) + "\n";
@@ -525,7 +525,7 @@ public:
             std::cerr << error_msg << std::endl;
             throw std::out_of_range(error_msg);
         }
-        if (col_index + mat.ncols() > ncols_) {
+        if (col_index > ncols_ || mat.ncols() > ncols_ - col_index) {
             std::string error_msg = "[EllipticForest::Matrix::setBlock] Column size exceeds matrix size:\n";
             error_msg += "\tcolIndex = " + std::to_string(col_index) + "\n";
             error_msg += "\tmat.ncols() = " + std::to_string(mat.ncols()) + "\n";
diff --git a/src/Vector.hpp b/src/Vector.hpp
index 8744628..148fdc6 100644
--- a/src/Vector.hpp
+++ b/src/Vector.hpp
@@ -309,7 +309,7 @@ public:
      * @return Vector<NumericalType> 
      */
     Vector<NumericalType> getSegment(std::size_t startIndex, std::size_t length) {
-        if (startIndex + length > size_) {
+        if (startIndex > size_ || length > size_ - startIndex) {
             std::string errorMessage = "[EllipticForest::Vector::getSegment] Index mismatch. `startIndex` + `length` is greater than size of vector:\n";
             errorMessage += "\tstartIndex = " + std::to_string(startIndex) + "\n";
             errorMessage += "\tlength = " + std::to_string(length) + "\n";
@@ -334,7 +334,7 @@ public:
      * @param vec Vector of data to set into this vector
      */
     void setSegment(std::size_t startIndex, const Vector<NumericalType>& vec) {
-        if (startIndex + vec.size() > size_) {
+        if (startIndex > size_ || vec.size() > size_ - startIndex) {
             std::string errorMessage = "[EllipticForest::Vector::setSegment] Index mismatch. `startIndex` + `vec.size()` is greater than size of host vector:\n";
             errorMessage += "\tstartIndex = " + std::to_string(startIndex) + "\n";
             errorMessage += "\tvec.size() = " + std::to_string(vec.size()) + "\n";
-- 
2.43.0


From 8837ce31c2613e98e188c157e404183d566671b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:09:11 +0000
Subject: [PATCH 14/41] fix: blockPermute rejects block lists that do not cover
 the object

---
 src/Matrix.hpp | 10 ++++++++++
 src/Vector.hpp |  8 ++++++++
 2 files changed, 18 insertions(+)

diff --git a/src/Matrix.hpp b/src/Matrix.hpp
index c8a40b9..e8868ae 100644
--- a/src/Matrix.hpp
+++ b/src/Matrix.hpp
@@ -467,6 +467,16 @@ public:
             for (auto jjj = c; jjj < (c + C[J_j]); jjj++) JGlobal[JCounter++] = jjj;
         }
 
+        if (ICounter != nrows_ || JCounter != ncols_) {
+            std::string error_msg = "[EllipticForest::Matrix::blockPermute] Blocks in `I` and `J` do not add up to the size of `this`:\n";
+            error_msg += "\tRows in blocks of `I` = " + std::to_string(ICounter) + "\n";
+            error_msg += "\tnrows = " + std::to_string(nrows_) + "\n";
+            error_msg += "\tColumns in blocks of `J` = " + std::to_string(JCounter) + "\n";
+            error_msg += "\tncols = " + std::to_string(ncols_) + "\n";
+            std::cerr << error_msg << std::endl;
+            throw std::invalid_argument(error_msg);
+        }
+
         return getFromIndexSet(IGlobal, JGlobal);
 
     }
diff --git a/src/Vector.hpp b/src/Vector.hpp
index 148fdc6..549a061 100644
--- a/src/Vector.hpp
+++ b/src/Vector.hpp
@@ -453,6 +453,14 @@ public:
             }
         }
 
+        if (ICounter != size_) {
+            std::string errorMessage = "[EllipticForest::Vector::blockPermute] Blocks in `I` do not add up to the size of `this`:\n";
+            errorMessage += "\tSize of blocks in `I` = " + std::to_string(ICounter) + "\n";
+            errorMessage += "\tsize = " + std::to_string(size_) + "\n";
+            std::cerr << errorMessage << std::endl;
+            throw std::invalid_argument(errorMessage);
+        }
+
         return getFromIndexSet(SGlobal);
 
     }
-- 
2.43.0


From 0600c8e907465e979d6487e1260101157080f285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:17:46 +0000
Subject: [PATCH 15/41] fix: option values keep plain text, signed integers and
 exponent notation instead of being lost or throwing

---
 src/Options.cpp | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/src/Options.cpp b/src/Options.cpp
index c15d3cb..220ea80 100644
--- a/src/Options.cpp
+++ b/src/Options.cpp
@@ -1,5 +1,10 @@
 #include "Options.hpp"
 
+#include <cerrno>
+#include <cstdlib>
+#include <limits>
+#include <stdexcept>
+
 namespace EllipticForest {
 
 Options::Options()
@@ -95,23 +100,31 @@ Options::OptionTypes Options::checkValue(std::string value) {
         return (bool) false;
     }
     else if (isDouble(value)) {
-        return (double) std::stod(value);
+        return (double) std::strtod(value.c_str(), nullptr);
     }
     else if (isInt(value)) {
-        return (int) std::stoi(value);
+        return (int) std::strtol(value.c_str(), nullptr, 10);
     }
-    return {};
+    return value;
 }
 
 bool Options::isDouble(std::string& str) {
-    return str.find('.') != std::string::npos;
+    // Has to have a decimal point or an exponent, and has to be a decimal number as a whole
+    if (str.find_first_of(".eE") == std::string::npos) return false;
+    if (str.find_first_not_of("0123456789+-.eE") != std::string::npos) return false;
+    char* end = nullptr;
+    std::strtod(str.c_str(), &end);
+    return end == str.c_str() + str.length();
 }
 
 bool Options::isInt(std::string& str) {
-    for (auto c : str) {
-        if (!std::isdigit(c)) return false;
-    }
-    return true;
+    // Optional sign followed by digits; has to fit into an int
+    size_t first = (!str.empty() && (str[0] == '+' || str[0] == '-')) ? 1 : 0;
+    if (first == str.length()) return false;
+    if (str.find_first_not_of("0123456789", first) != std::string::npos) return false;
+    errno = 0;
+    long number = std::strtol(str.c_str(), nullptr, 10);
+    return errno == 0 && number >= std::numeric_limits<int>::min() && number <= std::numeric_limits<int>::max();
 }
 
-} // NAMESPACE : EllipticForest
\ No newline at end of file
+} // NAMESPACE : EllipticForest
-- 
2.43.0


From 6e86ca9d34fc0581bdcf41b38bf3370021189abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:17:46 +0000
Subject: [PATCH 16/41] fix: short command-line options detect the type of
 their value like long ones

---
 src/InputParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/InputParser.cpp b/src/InputParser.cpp
index 3bad9cb..2850df4 100644
--- a/src/InputParser.cpp
+++ b/src/InputParser.cpp
@@ -27,7 +27,7 @@ void InputParser::parse(Options& options) {
                 if (option.find('=') != std::string::npos) {
                     std::string value = option.substr(option.find('=') + 1);
                     option = option.substr(0, option.find('='));
-                    options[option] = value;
+                    options[option] = options.checkValue(value);
                 }
                 else {
                     options[option] = "";
-- 
2.43.0


From cf9363b186d524b9b86e8f986e97062acccb4325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:17:46 +0000
Subject: [PATCH 17/41] fix: option files keep the whitespace inside values and
 may have CRLF line ends

---
 src/Options.cpp | 7 ++++---
 src/Options.hpp | 2 +-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/Options.cpp b/src/Options.cpp
index 220ea80..42972b4 100644
--- a/src/Options.cpp
+++ b/src/Options.cpp
@@ -52,8 +52,7 @@ void Options::readINIFile(std::string filename, std::string section) {
     bool read_section = false;
     while (std::getline(infile, line)) {
         // Remove any leading and trailing whitespaces
-        line.erase(0, line.find_first_not_of(" \t"));
-        line.erase(line.find_last_not_of(" \t") + 1);
+        stripWhitespace(line);
 
         // Ignore blank lines and comments
         if (line.length() == 0 || line[0] == ';') {
@@ -89,7 +88,9 @@ void Options::readINIFile(std::string filename, std::string section) {
 }
 
 void Options::stripWhitespace(std::string& str) {
-    str.erase(std::remove_if(str.begin(), str.end(), ::isspace), str.end());
+    const char* whitespace = " \t\r\n\v\f";
+    str.erase(0, str.find_first_not_of(whitespace));
+    str.erase(str.find_last_not_of(whitespace) + 1);
 }
 
 Options::OptionTypes Options::checkValue(std::string value) {
diff --git a/src/Options.hpp b/src/Options.hpp
index 2b821af..b4ef348 100644
--- a/src/Options.hpp
+++ b/src/Options.hpp
@@ -128,7 +128,7 @@ private:
     void readINIFile(std::string filename, std::string section);
 
     /**
-     * @brief Removes whitespace from string
+     * @brief Removes leading and trailing whitespace from string
      * 
      * @param str String with whitespace
      */
-- 
2.43.0


From 4c89df66a783f769334c48c57c33d0dcb5649219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:17:46 +0000
Subject: [PATCH 18/41] fix: setFromFile rejects names shorter than an
 extension with invalid_argument

---
 src/Options.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Options.cpp b/src/Options.cpp
index 42972b4..42df716 100644
--- a/src/Options.cpp
+++ b/src/Options.cpp
@@ -23,7 +23,7 @@ void Options::setOption(std::string const key, OptionTypes const value) {
 }
 
 void Options::setFromFile(std::string filename) {
-    if (filename.substr(filename.length() - 3) == "ini") {
+    if (filename.length() >= 3 && filename.substr(filename.length() - 3) == "ini") {
         // Read from .ini file
         readINIFile(filename, "EllipticForest");
     }
-- 
2.43.0


From 00d9b3cc8e622ea86265ea74094df5535b25ef9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:17:46 +0000
Subject: [PATCH 19/41] fix: XML attribute values and data are escaped

---
 src/XMLTree.cpp | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/XMLTree.cpp b/src/XMLTree.cpp
index 3582d1a..5123099 100644
--- a/src/XMLTree.cpp
+++ b/src/XMLTree.cpp
@@ -2,6 +2,28 @@
 
 namespace EllipticForest {
 
+namespace {
+
+// Replaces the characters that have a meaning in XML by references to them
+std::string escape(const std::string& str, bool is_attribute) {
+    std::string escaped;
+    for (char c : str) {
+        switch (c) {
+            case '&': escaped += "&amp;"; break;
+            case '<': escaped += "&lt;"; break;
+            case '>': escaped += "&gt;"; break;
+            case '\r': escaped += "&#13;"; break;
+            case '"': escaped += is_attribute ? "&quot;" : "\""; break;
+            case '\n': escaped += is_attribute ? "&#10;" : "\n"; break;
+            case '\t': escaped += is_attribute ? "&#9;" : "\t"; break;
+            default: escaped += c;
+        }
+    }
+    return escaped;
+}
+
+} // NAMESPACE
+
 XMLNode::XMLNode() :
     name("")
         {}
@@ -44,7 +66,7 @@ void XMLTree::write_(std::ofstream& file, XMLNode& node, std::string prefix) {
     std::string header = prefix;
     header += "<" + node.name + " ";
     for (auto& attributePair : node.attributes) {
-        header += attributePair.first + "=\"" + attributePair.second + "\" ";
+        header += attributePair.first + "=\"" + escape(attributePair.second, true) + "\" ";
     }
     header.pop_back(); // Remove last space
     header += ">";
@@ -52,7 +74,7 @@ void XMLTree::write_(std::ofstream& file, XMLNode& node, std::string prefix) {
 
     // Write data
     if (node.data != "") {
-        file << node.data << std::endl;
+        file << escape(node.data, false) << std::endl;
     }
 
     // Write children
-- 
2.43.0


From 1c9d1590c8a86186ef0a7ed4d1475ca5e955b431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:40:38 +0000
Subject: [PATCH 20/41] fix: every quadtree traversal runs on its own tree,
 whatever the user pointer of the forest was left at

---
 src/Quadtree.hpp | 93 +++++++++++++++++-------------------------------
 1 file changed, 32 insertions(+), 61 deletions(-)

diff --git a/src/Quadtree.hpp b/src/Quadtree.hpp
index 9b46b6c..5458d84 100644
--- a/src/Quadtree.hpp
+++ b/src/Quadtree.hpp
@@ -235,18 +235,8 @@ public:
 	 */
 	void traversePreOrder(std::function<int(Node<T>*)> visit) {
 
-		p4est->user_pointer = (void*) this;
 		visit_node_fn = visit;
-		int skip_levels = 0;
-		p4est_search_reorder(
-			p4est,
-			skip_levels,
-			NULL,
-			p4est_search_visit,
-			NULL,
-			NULL,
-			NULL
-		);
+		search_(p4est_search_visit, NULL);
 
 	}
 
@@ -258,16 +248,7 @@ public:
 	void traversePreOrder(std::function<void(T&)> visit) {
 
 		visit_node_data_fn = visit;
-		int skip_levels = 0;
-		p4est_search_reorder(
-			p4est,
-			skip_levels,
-			NULL,
-			p4est_search_visit_data,
-			NULL,
-			NULL,
-			NULL
-		);
+		search_(p4est_search_visit_data, NULL);
 
 	}
 
@@ -279,16 +260,7 @@ public:
 	void traversePostOrder(std::function<int(Node<T>*)> visit) {
 
 		visit_node_fn = visit;
-		int skip_levels = 0;
-		p4est_search_reorder(
-			p4est,
-			skip_levels,
-			NULL,
-			NULL,
-			p4est_search_visit,
-			NULL,
-			NULL
-		);
+		search_(NULL, p4est_search_visit);
 
 	}
 
@@ -300,16 +272,7 @@ public:
 	void traversePostOrder(std::function<void(T&)> visit) {
 
 		visit_node_data_fn = visit;
-		int skip_levels = 0;
-		p4est_search_reorder(
-			p4est,
-			skip_levels,
-			NULL,
-			NULL,
-			p4est_search_visit_data,
-			NULL,
-			NULL
-		);
+		search_(NULL, p4est_search_visit_data);
 
 	}
 
@@ -323,16 +286,7 @@ public:
 
 		visit_node_fn = visit_leaf;
 		visit_family_fn = visit_family;
-		int skip_levels = 0;
-		p4est_search_reorder(
-			p4est,
-			skip_levels,
-			NULL,
-			NULL,
-			p4est_search_merge_split,
-			NULL,
-			NULL
-		);
+		search_(NULL, p4est_search_merge_split);
 
 	}
 
@@ -346,16 +300,7 @@ public:
 
 		visit_node_fn = visit_leaf;
 		visit_family_fn = visit_family;
-		int skip_levels = 0;
-		p4est_search_reorder(
-			p4est,
-			skip_levels,
-			NULL,
-			p4est_search_merge_split,
-			NULL,
-			NULL,
-			NULL
-		);
+		search_(p4est_search_merge_split, NULL);
 
 	}
 
@@ -510,6 +455,32 @@ public:
 
 	}
 
+private:
+
+	/**
+	 * @brief Walks through the local part of the forest with this quadtree as the forest's user pointer
+	 * 
+	 * @param visit_pre Callback before the children of a quadrant are visited (or NULL)
+	 * @param visit_post Callback after the children of a quadrant are visited (or NULL)
+	 */
+	void search_(p4est_search_local_t visit_pre, p4est_search_local_t visit_post) {
+
+		void* saved_user_pointer = p4est->user_pointer;
+		p4est->user_pointer = reinterpret_cast<void*>(this);
+		int skip_levels = 0;
+		p4est_search_reorder(
+			p4est,
+			skip_levels,
+			NULL,
+			visit_pre,
+			visit_post,
+			NULL,
+			NULL
+		);
+		p4est->user_pointer = saved_user_pointer;
+
+	}
+
 };
 
 } // NAMESPACE : EllipticForest
-- 
2.43.0


From b73b58f03c351a75d2e2e90765a36aba470d68e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:41:09 +0000
Subject: [PATCH 21/41] fix: mesh arrays and counts start over when the mesh is
 set again

---
 src/Mesh.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/Mesh.hpp b/src/Mesh.hpp
index 7ab02b8..064d22d 100644
--- a/src/Mesh.hpp
+++ b/src/Mesh.hpp
@@ -194,6 +194,13 @@ public:
         types.name() = "types";
         types.setType("Int64");
 
+        // Start over; the mesh may have been set before
+        points = Vector<double>();
+        connectivity = Vector<int>();
+        offsets = Vector<int>();
+        types = Vector<int>();
+        npoints = 0;
+        ncells = 0;
         int index = 0;
 
         quadtree.traversePreOrder([&](Node<PatchType>* node){
-- 
2.43.0


From bfaef2f1f46a3840512d269178855172ed7dca5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:41:09 +0000
Subject: [PATCH 22/41] fix: mesh has one offset and one type per cell

---
 src/Mesh.hpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/Mesh.hpp b/src/Mesh.hpp
index 064d22d..e6b2b2b 100644
--- a/src/Mesh.hpp
+++ b/src/Mesh.hpp
@@ -248,13 +248,10 @@ public:
                             index + 3
                         };
                         Vector<int> cellOffsets = {
-                            (index + 1) * 4,
-                            (index + 2) * 4,
-                            (index + 3) * 4,
-                            (index + 4) * 4
+                            index + 4
                         };
                         Vector<int> cellTypes = {
-                            9, 9, 9, 9
+                            9
                         };
                         
                         index += 4;
-- 
2.43.0


From 8d7f95e2105bc4142585c02f416ce1ab5c86eb2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:41:09 +0000
Subject: [PATCH 23/41] fix: VTK objects can be written more than once

---
 src/VTK.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/VTK.cpp b/src/VTK.cpp
index dfc2561..555bbbb 100644
--- a/src/VTK.cpp
+++ b/src/VTK.cpp
@@ -101,6 +101,7 @@ void RectilinearGridVTK::toVTK(std::string filename) {
 
         XMLNode node_coordinates("Coordinates");
         
+        root_.children.clear(); // Nodes of an earlier call are gone
         root_.addChild(node_rectilinear_grid);
         node_rectilinear_grid.addChild(node_piece);
         if (!cell_data_vector_.empty()) node_piece.addChild(node_cell_data);
@@ -184,6 +185,7 @@ void UnstructuredGridVTK::toVTK(std::string filename) {
             node_point_data.addAttribute("Scalars", names);
         }
 
+        root_.children.clear(); // Nodes of an earlier call are gone
         root_.addChild(node_unstructured_grid);
             node_unstructured_grid.addChild(node_piece);
                 node_piece.addChild(node_points);
@@ -283,6 +285,7 @@ void PUnstructuredGridVTK::toVTK(std::string filenameBase) {
         }
 
         // Build structure
+        root_.children.clear(); // Nodes of an earlier call are gone
         root_.addChild(node_p_unstructured_grid);
             node_p_unstructured_grid.addChild(node_p_points);
                 node_p_points.addChild(mesh.getPoints().toPVTK());
-- 
2.43.0


From 9ad1ed2a73fb502605f38ea948312ffb6fc2d6a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:41:09 +0000
Subject: [PATCH 24/41] fix: parallel VTK header has the file type
 PUnstructuredGrid

---
 src/VTK.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/VTK.cpp b/src/VTK.cpp
index 555bbbb..b649707 100644
--- a/src/VTK.cpp
+++ b/src/VTK.cpp
@@ -212,7 +212,7 @@ void UnstructuredGridVTK::toVTK(std::string filename) {
 PUnstructuredGridVTK::PUnstructuredGridVTK() :
     MPIObject{MPI_COMM_WORLD},
     root_("VTKFile") {
-    root_.addAttribute("type", "UnstructuredGrid");
+    root_.addAttribute("type", "PUnstructuredGrid");
     root_.addAttribute("version", "0.1");
     root_.addAttribute("byte_order", "LittleEndian");
 }
@@ -220,7 +220,7 @@ PUnstructuredGridVTK::PUnstructuredGridVTK() :
 PUnstructuredGridVTK::PUnstructuredGridVTK(MPI_Comm comm) :
     MPIObject{comm},
     root_("VTKFile") {
-    root_.addAttribute("type", "UnstructuredGrid");
+    root_.addAttribute("type", "PUnstructuredGrid");
     root_.addAttribute("version", "0.1");
     root_.addAttribute("byte_order", "LittleEndian");
 }
-- 
2.43.0


From 4e9b6032e3ab25c7f43d3ac8184ebaf9d861ad69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:41:09 +0000
Subject: [PATCH 25/41] fix: VTK base names may be long and contain percent
 signs

---
 src/VTK.cpp | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/VTK.cpp b/src/VTK.cpp
index b649707..fd178ec 100644
--- a/src/VTK.cpp
+++ b/src/VTK.cpp
@@ -2,6 +2,17 @@
 
 namespace EllipticForest {
 
+namespace {
+
+// Name of the file with the piece of a rank
+std::string pieceFilename(const std::string& filename_base, int rank) {
+    char str_buffer[32];
+    snprintf(str_buffer, 32, "_%04i.vtu", rank);
+    return filename_base + str_buffer;
+}
+
+} // NAMESPACE
+
 XMLNode* DataArrayNodeBase::toVTK() {
     XMLNode* node_data_array = new XMLNode("DataArray");
     node_data_array->addAttribute("type", getType());
@@ -240,11 +251,7 @@ void PUnstructuredGridVTK::addCellData(DataArrayNodeBase& cell_data) {
 void PUnstructuredGridVTK::toVTK(std::string filenameBase) {
 
     // All ranks write individual file
-    char str_buffer[256];
-    std::string filename = filenameBase + "_%04i.vtu";
-    snprintf(str_buffer, 256, filename.c_str(), this->getRank());
-    filename = std::string(str_buffer);
-    vtu.toVTK(filename);
+    vtu.toVTK(pieceFilename(filenameBase, this->getRank()));
 
     // Head rank writes metadata file
     if (this->getRank() == MPI::HEAD_RANK) {
@@ -276,11 +283,8 @@ void PUnstructuredGridVTK::toVTK(std::string filenameBase) {
 
         std::vector<XMLNode> node_piece_vector;
         for (int i = 0; i < this->getSize(); i++) {
-            filename = filenameBase + "_%04i.vtu";
-            snprintf(str_buffer, 256, filename.c_str(), i);
-            filename = std::string(str_buffer);
             XMLNode node_piece("Piece");
-            node_piece.addAttribute("Source", filename);
+            node_piece.addAttribute("Source", pieceFilename(filenameBase, i));
             node_piece_vector.push_back(node_piece);
         }
 
-- 
2.43.0


From a6d615e409ee7ea48eb9f1973ca0be62a38c8be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:41:09 +0000
Subject: [PATCH 26/41] fix: parallel VTK header names its pieces relative to
 itself

---
 src/VTK.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/VTK.cpp b/src/VTK.cpp
index fd178ec..c5450a0 100644
--- a/src/VTK.cpp
+++ b/src/VTK.cpp
@@ -281,10 +281,12 @@ void PUnstructuredGridVTK::toVTK(std::string filenameBase) {
             node_p_cell_data.addAttribute("Scalars", names);
         }
 
+        // Pieces lie beside the header; their names are relative to it
+        std::string piece_base = filenameBase.substr(filenameBase.find_last_of('/') + 1);
         std::vector<XMLNode> node_piece_vector;
         for (int i = 0; i < this->getSize(); i++) {
             XMLNode node_piece("Piece");
-            node_piece.addAttribute("Source", pieceFilename(filenameBase, i));
+            node_piece.addAttribute("Source", pieceFilename(piece_base, i));
             node_piece_vector.push_back(node_piece);
         }
 
-- 
2.43.0


From c9ab4ccd82531bbbffa8a9ff6e973023ed816397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:41:17 +0000
Subject: [PATCH 27/41] fix: data arrays are written with all digits, and empty
 ones without reading beyond them

---
 src/Vector.hpp | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/Vector.hpp b/src/Vector.hpp
index 549a061..a37e5e0 100644
--- a/src/Vector.hpp
+++ b/src/Vector.hpp
@@ -6,6 +6,8 @@
 #include <vector>
 #include <algorithm>
 #include <initializer_list>
+#include <limits>
+#include <sstream>
 #include <string>
 
 #include <petsc.h>
@@ -735,8 +737,8 @@ public:
      * @return std::string 
      */
     virtual std::string getRangeMin() {
-        NumericalType min = *std::min_element(data_.begin(), data_.end());
-        return std::to_string(min);
+        if (data_.empty()) return "0";
+        return toString(*std::min_element(data_.begin(), data_.end()));
     }
 
     /**
@@ -745,8 +747,8 @@ public:
      * @return std::string 
      */
     virtual std::string getRangeMax() {
-        NumericalType max = *std::max_element(data_.begin(), data_.end());
-        return std::to_string(max);
+        if (data_.empty()) return "0";
+        return toString(*std::max_element(data_.begin(), data_.end()));
     }
 
     /**
@@ -756,10 +758,25 @@ public:
      */
     virtual std::string getData() {
         std::string str = "";
-        for (auto p : data_) { str += std::to_string(p) + " "; }
+        for (auto p : data_) { str += toString(p) + " "; }
         return str;
     }
 
+private:
+
+    /**
+     * @brief Writes a number with all its digits
+     * 
+     * @param value Number to write
+     * @return std::string 
+     */
+    static std::string toString(NumericalType value) {
+        std::ostringstream os;
+        os.precision(std::numeric_limits<NumericalType>::max_digits10);
+        os << value;
+        return os.str();
+    }
+
 };
 
 /**
-- 
2.43.0


From 3958676ea383c64bf76066cdae957288d78f68bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:29:31 +0000
Subject: [PATCH 28/41] fix: ranks outside of a communicator's range do not
 name the null communicator

---
 src/MPI.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/MPI.cpp b/src/MPI.cpp
index 6998e60..c585c7f 100644
--- a/src/MPI.cpp
+++ b/src/MPI.cpp
@@ -29,7 +29,10 @@ void communicatorSubsetRange(Communicator super_comm, int r_first, int r_last, i
     MPI_Comm_get_name(super_comm, super_comm_name_buffer, &super_comm_name_size);
     std::string super_comm_name(super_comm_name_buffer, super_comm_name_size);
     std::string sub_comm_name = super_comm_name + "_sub_range={" + std::to_string(r_first) + ":" + std::to_string(r_last) + "}";
-    MPI_Comm_set_name(*sub_comm, sub_comm_name.c_str());
+    if (*sub_comm != MPI_COMM_NULL) {
+        // Only ranks in the range are part of the sub communicator
+        MPI_Comm_set_name(*sub_comm, sub_comm_name.c_str());
+    }
 
     // Free groups
     MPI_Group_free(&super_group);
-- 
2.43.0


From 76779cd291e6a617015f08a7c284c9546ecff4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:29:31 +0000
Subject: [PATCH 29/41] fix: ranks without leaves take no part in the nodes
 between the ranks around them

---
 src/MPI.cpp      | 19 +++++++++++++++++++
 src/MPI.hpp      | 10 ++++++++++
 src/Quadtree.hpp | 16 +++++++++++-----
 3 files changed, 40 insertions(+), 5 deletions(-)

diff --git a/src/MPI.cpp b/src/MPI.cpp
index c585c7f..0d5b06e 100644
--- a/src/MPI.cpp
+++ b/src/MPI.cpp
@@ -40,6 +40,25 @@ void communicatorSubsetRange(Communicator super_comm, int r_first, int r_last, i
 
 }
 
+void communicatorSubset(Communicator super_comm, const std::vector<int>& ranks, int tag, Communicator* sub_comm) {
+
+    // Get group of super communicator
+    Group super_group;
+    MPI_Comm_group(super_comm, &super_group);
+
+    // Create new sub group from super group
+    Group sub_group;
+    MPI_Group_incl(super_group, (int) ranks.size(), ranks.data(), &sub_group);
+
+    // Create sub communicator from sub group
+    MPI_Comm_create_group(super_comm, sub_group, tag, sub_comm);
+
+    // Free groups
+    MPI_Group_free(&super_group);
+    MPI_Group_free(&sub_group);
+
+}
+
 void communicatorSetName(Communicator comm, const std::string& name) {
     MPI_Comm_set_name(comm, name.c_str());
 }
diff --git a/src/MPI.hpp b/src/MPI.hpp
index 28d374b..ef5346d 100644
--- a/src/MPI.hpp
+++ b/src/MPI.hpp
@@ -127,6 +127,16 @@ public:
  */
 void communicatorSubsetRange(Communicator super_comm, int r_first, int r_last, int tag, Communicator* sub_comm);
 
+/**
+ * @brief Creates a sub communicator from a list of ranks on the super communicator
+ * 
+ * @param super_comm Existing super communicator
+ * @param ranks Ranks on super communicator
+ * @param tag Message tag
+ * @param sub_comm [out] Reference to declared, but not created, sub communicator
+ */
+void communicatorSubset(Communicator super_comm, const std::vector<int>& ranks, int tag, Communicator* sub_comm);
+
 /**
  * @brief Sets the name of the communicator
  * 
diff --git a/src/Quadtree.hpp b/src/Quadtree.hpp
index 5458d84..880080b 100644
--- a/src/Quadtree.hpp
+++ b/src/Quadtree.hpp
@@ -143,12 +143,18 @@ public:
 				// Compute unique path
 				std::string path = p4est::p4est_quadrant_path(quadrant);
 
-				// Create the node communicator
+				// Create the node communicator; ranks without any quadrants do not visit the node and are not part of it
+				std::vector<int> node_ranks;
+				bool owned = false;
+				for (int p = pfirst; p <= plast; p++) {
+					if (p4est->global_first_quadrant[p] < p4est->global_first_quadrant[p+1]) {
+						node_ranks.push_back(p);
+						// Check if quadrant is owned by this rank
+						owned = owned || p == rank;
+					}
+				}
 				MPI::Communicator node_comm;
-				MPI::communicatorSubsetRange(MPI_COMM_WORLD, pfirst, plast, 0, &node_comm);
-
-				// Check if quadrant is owned by this rank
-				bool owned = pfirst <= rank && rank <= plast;
+				MPI::communicatorSubset(MPI_COMM_WORLD, node_ranks, 0, &node_comm);
 
 				// If owned, create Node in map
 				if (owned) {
-- 
2.43.0


From 5a1d9ec2e450ecbb186b755640eb5607b714bfa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:29:31 +0000
Subject: [PATCH 30/41] fix: ranks without leaves do not set boundary data on a
 root patch they do not have

---
 src/HPSAlgorithm.hpp | 143 ++++++++++++++++++++++---------------------
 1 file changed, 74 insertions(+), 69 deletions(-)

diff --git a/src/HPSAlgorithm.hpp b/src/HPSAlgorithm.hpp
index b333355..2467233 100644
--- a/src/HPSAlgorithm.hpp
+++ b/src/HPSAlgorithm.hpp
@@ -300,8 +300,10 @@ public:
         app.addTimer("solve-stage");
         app.timers["solve-stage"].start();
 
-        // Set Dirichlet data on root patch
-        boundary_data_function(mesh.quadtree.root());
+        // Set Dirichlet data on root patch (ranks without leaves do not have one)
+        if (mesh.quadtree.map["0"] != nullptr) {
+            boundary_data_function(mesh.quadtree.root());
+        }
 
         mesh.quadtree.split(
             [&](Node<PatchType>* leaf_node){
@@ -353,76 +355,79 @@ public:
         app.addTimer("solve-stage");
         app.timers["solve-stage"].start();
 
-        // Set up data for Dirichlet solve
-        PatchType& rootPatch = mesh.quadtree.root();
-        PatchGridType& rootGrid = rootPatch.grid();
-        int M = rootGrid.nx();
-        std::vector<Vector<NumericalType>> aVectors = {
-            Vector<NumericalType>(M),
-            Vector<NumericalType>(M),
-            Vector<NumericalType>(M),
-            Vector<NumericalType>(M)
-        };
-        std::vector<Vector<NumericalType>> bVectors = {
-            Vector<NumericalType>(M),
-            Vector<NumericalType>(M),
-            Vector<NumericalType>(M),
-            Vector<NumericalType>(M)
-        };
-        std::vector<Vector<NumericalType>> rVectors = {
-            Vector<NumericalType>(M),
-            Vector<NumericalType>(M),
-            Vector<NumericalType>(M),
-            Vector<NumericalType>(M)
-        };
-
-        // Populate boundary data vectors
-        for (auto n = 0; n < 4; n++) {
-            for (auto i = 0; i < M; i++) {
-                NumericalType x, y;
-                if (n == 0) {
-                    x = rootGrid.xLower();
-                    y = rootGrid(1, i);
-                }
-                else if (n == 1) {
-                    x = rootGrid.xUpper();
-                    y = rootGrid(1, i);
-                }
-                else if (n == 2) {
-                    x = rootGrid(0, i);
-                    y = rootGrid.yLower();
-                }
-                else if (n == 3) {
-                    x = rootGrid(0, i);
-                    y = rootGrid.yUpper();
-                }
+        // Set Dirichlet data on root patch (ranks without leaves do not have one)
+        if (mesh.quadtree.map["0"] != nullptr) {
+            // Set up data for Dirichlet solve
+            PatchType& rootPatch = mesh.quadtree.root();
+            PatchGridType& rootGrid = rootPatch.grid();
+            int M = rootGrid.nx();
+            std::vector<Vector<NumericalType>> aVectors = {
+                Vector<NumericalType>(M),
+                Vector<NumericalType>(M),
+                Vector<NumericalType>(M),
+                Vector<NumericalType>(M)
+            };
+            std::vector<Vector<NumericalType>> bVectors = {
+                Vector<NumericalType>(M),
+                Vector<NumericalType>(M),
+                Vector<NumericalType>(M),
+                Vector<NumericalType>(M)
+            };
+            std::vector<Vector<NumericalType>> rVectors = {
+                Vector<NumericalType>(M),
+                Vector<NumericalType>(M),
+                Vector<NumericalType>(M),
+                Vector<NumericalType>(M)
+            };
+
+            // Populate boundary data vectors
+            for (auto n = 0; n < 4; n++) {
+                for (auto i = 0; i < M; i++) {
+                    NumericalType x, y;
+                    if (n == 0) {
+                        x = rootGrid.xLower();
+                        y = rootGrid(1, i);
+                    }
+                    else if (n == 1) {
+                        x = rootGrid.xUpper();
+                        y = rootGrid(1, i);
+                    }
+                    else if (n == 2) {
+                        x = rootGrid(0, i);
+                        y = rootGrid.yLower();
+                    }
+                    else if (n == 3) {
+                        x = rootGrid(0, i);
+                        y = rootGrid.yUpper();
+                    }
 
-                NumericalType a, b;
-                rVectors[n][i] = boundary_analytical_function(n, x, y, &a, &b);
-                aVectors[n][i] = a;
-                bVectors[n][i] = b;
+                    NumericalType a, b;
+                    rVectors[n][i] = boundary_analytical_function(n, x, y, &a, &b);
+                    aVectors[n][i] = a;
+                    bVectors[n][i] = b;
+                }
             }
-        }
 
-        // Solve for Dirichlet data : g = (a*I + b*I*T)^(-1) * (r - b*I*h)
-        {
-            Vector<NumericalType> r = concatenate(rVectors);
-            Vector<NumericalType> a = concatenate(aVectors);
-            Vector<NumericalType> b = concatenate(bVectors);
-            Matrix<NumericalType>& T = rootPatch.matrixT();
-            // The upwards stage does not merge vectorH when the right-hand side is homogeneous
-            Vector<NumericalType> h = isEnabled_("homogeneous-rhs") ? Vector<NumericalType>(T.nRows(), 0) : rootPatch.vectorH();
-            Vector<NumericalType>& g = rootPatch.vectorG();
-
-            Matrix<NumericalType> A = DiagonalMatrix<NumericalType>(a);
-            Matrix<NumericalType> B = DiagonalMatrix<NumericalType>(b);
-            Vector<NumericalType> bh = B * h;
-            Vector<NumericalType> rhs = r - bh;
-
-            B = B * T;
-            A = A + B;
-
-            g = solve(A, rhs);
+            // Solve for Dirichlet data : g = (a*I + b*I*T)^(-1) * (r - b*I*h)
+            {
+                Vector<NumericalType> r = concatenate(rVectors);
+                Vector<NumericalType> a = concatenate(aVectors);
+                Vector<NumericalType> b = concatenate(bVectors);
+                Matrix<NumericalType>& T = rootPatch.matrixT();
+                // The upwards stage does not merge vectorH when the right-hand side is homogeneous
+                Vector<NumericalType> h = isEnabled_("homogeneous-rhs") ? Vector<NumericalType>(T.nRows(), 0) : rootPatch.vectorH();
+                Vector<NumericalType>& g = rootPatch.vectorG();
+
+                Matrix<NumericalType> A = DiagonalMatrix<NumericalType>(a);
+                Matrix<NumericalType> B = DiagonalMatrix<NumericalType>(b);
+                Vector<NumericalType> bh = B * h;
+                Vector<NumericalType> rhs = r - bh;
+
+                B = B * T;
+                A = A + B;
+
+                g = solve(A, rhs);
+            }
         }
 
         mesh.quadtree.split(
-- 
2.43.0


From 7fe86200445201bc34d1904c6924199134fa6670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:47:02 +0000
Subject: [PATCH 31/41] fix: allgatherv of types other than std::vector passes
 its arguments in order

---
 src/MPI.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MPI.hpp b/src/MPI.hpp
index ef5346d..1ec2e56 100644
--- a/src/MPI.hpp
+++ b/src/MPI.hpp
@@ -305,7 +305,7 @@ int allgather(T& send_data, T& recv_data, int recv_count, Communicator comm) {
  */
 template<class T>
 int allgatherv(T& send_data, T& recv_data, std::vector<int> recv_counts, std::vector<int> displacements, Communicator comm) {
-    return MPI_Allgatherv(TypeTraits<T>::getAddress(send_data), TypeTraits<T>::getSize(send_data), TypeTraits<T>::getType(send_data), TypeTraits<T>::getAddress(recv_data), recv_counts.data(), TypeTraits<T>::getType(recv_data), displacements.data(), comm);
+    return MPI_Allgatherv(TypeTraits<T>::getAddress(send_data), TypeTraits<T>::getSize(send_data), TypeTraits<T>::getType(send_data), TypeTraits<T>::getAddress(recv_data), recv_counts.data(), displacements.data(), TypeTraits<T>::getType(recv_data), comm);
 }
 
 /**
-- 
2.43.0


From ccb51a698fdf4dcae993a10c1cbdee74b56eb47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:49:48 +0000
Subject: [PATCH 32/41] fix: broadcast of a string makes room without reading
 beyond the receiver's string

---
 src/MPI.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MPI.cpp b/src/MPI.cpp
index 0d5b06e..8224059 100644
--- a/src/MPI.cpp
+++ b/src/MPI.cpp
@@ -90,7 +90,7 @@ int broadcast<std::string>(std::string& str, int root, MPI_Comm comm) {
     int rank; MPI_Comm_rank(comm, &rank);
     int size = str.length();
     broadcast(size, root, comm);
-    if (rank != root) str = std::string(TypeTraits<std::string>::getAddress(str), size);
+    if (rank != root) str.resize(size);
     return MPI_Bcast(TypeTraits<std::string>::getAddress(str), TypeTraits<std::string>::getSize(str), TypeTraits<std::string>::getType(str), root, comm);
 }
 
-- 
2.43.0


From 4b6490c44d1b0f6f104707f67c3d199ce8b073da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:12:17 +0000
Subject: [PATCH 33/41] fix: copies of a ParallelMatrix destroyed the same
 PETSc matrix twice, assignment leaked the old one

---
 src/Matrix.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/Matrix.hpp b/src/Matrix.hpp
index e8868ae..f4d9ea9 100644
--- a/src/Matrix.hpp
+++ b/src/Matrix.hpp
@@ -1255,11 +1255,16 @@ public:
         global_rows(other.global_rows),
         global_cols(other.global_cols),
         is_created(other.is_created),
-        mat(other.mat)
-            {}
+        mat(other.mat) {
+
+        // Both objects refer to the same PETSc matrix; it is destroyed with the last of them
+        if (is_created) PetscObjectReference((PetscObject) mat);
+
+    }
 
     ParallelMatrix& operator=(ParallelMatrix&& other) {
         if (this != &other) {
+            if (is_created) MatDestroy(&mat);
             MPIObject::operator=(std::move(other));
             local_rows = other.local_rows;
             local_cols = other.local_cols;
-- 
2.43.0


From 12168f0e41e994b67100fbd28c6fa4f6ab6b6239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:12:17 +0000
Subject: [PATCH 34/41] fix: copies of a ParallelVector destroyed the same
 PETSc vector twice

---
 src/Vector.hpp | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/Vector.hpp b/src/Vector.hpp
index a37e5e0..de7a0d3 100644
--- a/src/Vector.hpp
+++ b/src/Vector.hpp
@@ -1046,7 +1046,7 @@ protected:
 
 public:
     
-    Petsc::Vec vec;
+    Petsc::Vec vec = NULL;
 
     ParallelVector() :
         MPIObject(MPI_COMM_WORLD)
@@ -1127,6 +1127,33 @@ public:
 
     // }
 
+    ParallelVector(const ParallelVector& other) :
+        MPIObject(other.getComm()),
+        local_size(other.local_size),
+        global_size(other.global_size),
+        raw_data(other.raw_data),
+        is_created(other.is_created),
+        vec(other.vec) {
+
+        // Both objects refer to the same PETSc vector; it is destroyed with the last of them
+        if (is_created) PetscObjectReference((PetscObject) vec);
+
+    }
+
+    ParallelVector& operator=(const ParallelVector& other) {
+        if (this != &other) {
+            if (other.is_created) PetscObjectReference((PetscObject) other.vec);
+            if (is_created) VecDestroy(&vec);
+            MPIObject::operator=(other);
+            local_size = other.local_size;
+            global_size = other.global_size;
+            raw_data = other.raw_data;
+            is_created = other.is_created;
+            vec = other.vec;
+        }
+        return *this;
+    }
+
     ~ParallelVector() {
         if (is_created) {
             VecDestroy(&vec);
-- 
2.43.0


From 2447c4172b5dd6472d2e85dea0587c7c0f92ff6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:12:17 +0000
Subject: [PATCH 35/41] fix: a ParallelMatrix reported -1 or 0 for sizes left
 to PETSc or set after construction

---
 src/Matrix.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/Matrix.hpp b/src/Matrix.hpp
index f4d9ea9..35cd56e 100644
--- a/src/Matrix.hpp
+++ b/src/Matrix.hpp
@@ -1317,6 +1317,13 @@ public:
     }
 
     Petsc::ErrorCode setSizes(int local_rows, int local_cols, int global_rows, int global_cols) {
+        // Let PETSc determine what is left open (PETSC_DECIDE, PETSC_DETERMINE), so that the sizes are known
+        PetscSplitOwnership(this->getComm(), &local_rows, &global_rows);
+        PetscSplitOwnership(this->getComm(), &local_cols, &global_cols);
+        this->local_rows = local_rows;
+        this->local_cols = local_cols;
+        this->global_rows = global_rows;
+        this->global_cols = global_cols;
         return MatSetSizes(mat, local_rows, local_cols, global_rows, global_cols);
     }
 
-- 
2.43.0


From 9fce5b3acbd3ea2d05ed04c22b2cccbc2218d345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:18:30 +0000
Subject: [PATCH 36/41] fix: a ParallelIdentityMatrix of a given type was no
 identity

---
 src/SpecialMatrices.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SpecialMatrices.hpp b/src/SpecialMatrices.hpp
index b0cb6db..e8de2bd 100644
--- a/src/SpecialMatrices.hpp
+++ b/src/SpecialMatrices.hpp
@@ -59,7 +59,7 @@ public:
 
         //
         MatCreateConstantDiagonal(comm, PETSC_DECIDE, PETSC_DECIDE, N, N, 1.0, &this->mat);
-        MatSetType(this->mat, matrix_type);
+        MatConvert(this->mat, matrix_type, MAT_INPLACE_MATRIX, &this->mat);
         MatGetLocalSize(this->mat, &this->local_rows, &this->local_cols);
         MatGetSize(this->mat, &this->global_rows, &this->global_cols);
         this->is_created = true;
-- 
2.43.0


From d5583a83ef396fd640def8386ba166fa1a51bf4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:53:19 +0000
Subject: [PATCH 37/41] fix: building a rectilinear writer's mesh again kept
 the old coordinates

buildMesh appended to the coordinate arrays, so a second call wrote six
arrays into Coordinates, the old ones first.
---
 src/VTK.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/VTK.cpp b/src/VTK.cpp
index c5450a0..24454e9 100644
--- a/src/VTK.cpp
+++ b/src/VTK.cpp
@@ -52,6 +52,7 @@ RectilinearGridVTK::RectilinearGridVTK() : mesh_complete_(false), coords_data_ve
 
 void RectilinearGridVTK::buildMesh(RectilinearGridNodeBase& mesh, DataArrayNodeBase* x_coords, DataArrayNodeBase* y_coords, DataArrayNodeBase* z_coords) {
     mesh_ = &mesh;
+    coords_data_vector_.clear();
     
     if (x_coords != nullptr) {
         coords_data_vector_.push_back(x_coords);
-- 
2.43.0


From ad3e67d168b6c9d1ba5109347e250e66dbb168c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:53:19 +0000
Subject: [PATCH 38/41] fix: the end of the app finalized MPI twice if PETSc
 had initialized it

After a PetscInitialize before the app was created, PetscFinalize finalizes
MPI and the MPI_Finalize after it aborted the program.
---
 src/EllipticForestApp.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/EllipticForestApp.cpp b/src/EllipticForestApp.cpp
index 98e405b..d0d2527 100644
--- a/src/EllipticForestApp.cpp
+++ b/src/EllipticForestApp.cpp
@@ -54,8 +54,10 @@ EllipticForestApp::~EllipticForestApp() {
     if (!isMPIFinalized) {
 #if USE_PETSC
         PetscFinalize();
+        // PETSc finalizes MPI itself if it was the one to initialize it
+        MPI_Finalized(&isMPIFinalized);
 #endif
-        MPI_Finalize();
+        if (!isMPIFinalized) MPI_Finalize();
     }
 }
 
-- 
2.43.0


From 14d3c666a6eccc0ea0b41b132238b886adfbc780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:53:19 +0000
Subject: [PATCH 39/41] fix: creating the app after PetscInitializeNoArguments
 read a null argv

PetscGetArgs replaced the caller's argc and argv by those PETSc was
initialized with, which may be none at all.
---
 src/EllipticForestApp.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/EllipticForestApp.cpp b/src/EllipticForestApp.cpp
index d0d2527..c8ec332 100644
--- a/src/EllipticForestApp.cpp
+++ b/src/EllipticForestApp.cpp
@@ -17,7 +17,6 @@ EllipticForestApp::EllipticForestApp(int* argc, char*** argv) :
     if (!isMPIIntialized) MPI_Init(argc_, argv_);
 #if USE_PETSC
     PetscInitialize(argc_, argv_, NULL, NULL);
-    PetscGetArgs(argc_, argv_);
 #endif
 
     // Create options
-- 
2.43.0


From c5d29f5ed5ce4b878d32177864ec806efc3f690f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:53:19 +0000
Subject: [PATCH 40/41] fix: every rank printed the app's report if MPI was
 finalized before its end

---
 src/EllipticForestApp.cpp | 7 ++-----
 src/EllipticForestApp.hpp | 6 ++++++
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/EllipticForestApp.cpp b/src/EllipticForestApp.cpp
index c8ec332..5c9b8fe 100644
--- a/src/EllipticForestApp.cpp
+++ b/src/EllipticForestApp.cpp
@@ -25,6 +25,7 @@ EllipticForestApp::EllipticForestApp(int* argc, char*** argv) :
     
     int myRank = -1;
     MPI_Comm_rank(MPI_COMM_WORLD, &myRank);
+    rank_ = myRank;
     if (myRank == 0) {
         std::cout << "[EllipticForest] Welcome to EllipticForest!" << std::endl;
     }
@@ -34,14 +35,10 @@ EllipticForestApp::EllipticForestApp(int* argc, char*** argv) :
 EllipticForestApp::~EllipticForestApp() {
     timers["app-lifetime"].stop();
 
-    int myRank = 0;
     int isMPIFinalized;
     MPI_Finalized(&isMPIFinalized);
-    if (!isMPIFinalized) {
-        MPI_Comm_rank(MPI_COMM_WORLD, &myRank);
-    }
     
-    if (myRank == 0) {
+    if (rank_ == 0) {
         std::cout << "[EllipticForest] End of app life cycle, finalizing..." << std::endl;
         std::cout << "[EllipticForest] Timers: " << std::endl;
         for (auto& [key, value] : timers) {
diff --git a/src/EllipticForestApp.hpp b/src/EllipticForestApp.hpp
index 45a4dd5..3aedbc6 100644
--- a/src/EllipticForestApp.hpp
+++ b/src/EllipticForestApp.hpp
@@ -134,6 +134,12 @@ private:
      */
     char*** argv_;
 
+    /**
+     * @brief Rank of this process, kept for the report at the end when MPI may be finalized already
+     * 
+     */
+    int rank_ = 0;
+
 };
 
 
-- 
2.43.0


From 1e2e206f234d57c1977ac2380d3d67474c7165e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:26:33 +0000
Subject: [PATCH 41/41] fix: release the copies of children received from other
 ranks during merge and split

---
 src/Quadtree.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/Quadtree.hpp b/src/Quadtree.hpp
index 880080b..85d97fd 100644
--- a/src/Quadtree.hpp
+++ b/src/Quadtree.hpp
@@ -412,6 +412,7 @@ public:
 		else {
 			// Quadrant is a branch; call branch callback
 			std::vector<Node<T>*> children{4};
+			std::vector<Node<T>*> received; // Copies of children that live on other ranks
 			if (node->pfirst == node->plast) {
 				// Node is owned by single rank
 				for (int i = 0; i < 4; i++) {
@@ -436,6 +437,7 @@ public:
 						if (child == nullptr) {
 							// child = quadtree.node_factory->createChildNode(node, i, node->pfirst, node->plast);
 							child = new Node<T>(node->getComm());
+							received.push_back(child);
 						}
 
 						// Broadcast node
@@ -456,6 +458,11 @@ public:
 				cont = quadtree.visit_family_fn(node, children);
 			}
 
+			// Release the copies received from other ranks
+			for (auto* child : received) {
+				delete child;
+			}
+
 		}
 		return cont;
 
-- 
2.43.0

