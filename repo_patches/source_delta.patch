From 02b87fb9b734f6db60d6f77e7fbbd0dfd24db33e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:00:26 +0000
Subject: [PATCH 01/44] fix: Vector element and index-set access accepted index
 == size()

---
 src/Vector.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/Vector.hpp b/src/Vector.hpp
index 4e72305..3702e59 100644
--- a/src/Vector.hpp
+++ b/src/Vector.hpp
@@ -144,7 +144,7 @@ public:
      * @return NumericalType Value of entry
      */
     NumericalType getEntry(std::size_t index) {
-        if (index > size_ || index < 0) {
+        if (index >= size_ || index < 0) {
             std::string errorMessage = "[EllipticForest::Vector::getEntry] `index` is out of range:\n";
             errorMessage += "\tindex = " + std::to_string(index) + "\n";
             errorMessage += "\tsize = " + std::to_string(size_) + "\n";
@@ -164,7 +164,7 @@ public:
      * @return NumericalType& Reference to value in vector
      */
     NumericalType& operator[](std::size_t index) {
-        if (index > size_ || index < 0) {
+        if (index >= size_ || index < 0) {
             std::string errorMessage = "[EllipticForest::Vector::operator[]] `index` is out of range:\n";
             errorMessage += "\tindex = " + std::to_string(index) + "\n";
             errorMessage += "\tsize = " + std::to_string(size_) + "\n";
@@ -184,7 +184,7 @@ public:
      * @return NumericalType& Reference to value in vector
      */
     const NumericalType& operator[](std::size_t index) const {
-        if (index > size_ || index < 0) {
+        if (index >= size_ || index < 0) {
             std::string errorMessage = "[EllipticForest::Vector::operator[]] `index` is out of range:\n";
             errorMessage += "\tindex = " + std::to_string(index) + "\n";
             errorMessage += "\tsize = " + std::to_string(size_) + "\n";
@@ -204,7 +204,7 @@ public:
      * @return NumericalType& Reference to value in vector
      */
     NumericalType& operator()(std::size_t index) {
-        if (index > size_ || index < 0) {
+        if (index >= size_ || index < 0) {
             std::string errorMessage = "[EllipticForest::Vector::operator()] `index` is out of range:\n";
             errorMessage += "\tindex = " + std::to_string(index) + "\n";
             errorMessage += "\tsize = " + std::to_string(size_) + "\n";
@@ -377,7 +377,7 @@ public:
 
         Vector<NumericalType> res(I.size());
         for (auto i = 0; i < I.size(); i++) {
-            if (I[i] > size_ || I[i] < 0) {
+            if (I[i] >= size_ || I[i] < 0) {
                 std::string errorMessage = "[EllipticForest::Vector::operator()] Index in `I` is out of range:\n";
                 errorMessage += "\ti = " + std::to_string(i) + "\n";
                 errorMessage += "\tI[i] = " + std::to_string(I[i]) + "\n";
@@ -409,7 +409,7 @@ public:
 
         Vector<NumericalType> res(I.size());
         for (auto i = 0; i < I.size(); i++) {
-            if (I[i] > size_ || I[i] < 0) {
+            if (I[i] >= size_ || I[i] < 0) {
                 std::string errorMessage = "[EllipticForest::Vector::operator()] Index in `I` is out of range:\n";
                 errorMessage += "\ti = " + std::to_string(i) + "\n";
                 errorMessage += "\tI[i] = " + std::to_string(I[i]) + "\n";
-- 
2.43.0


From 77ded339c4b927921ca787e2847ce8d9e2aab4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:00:26 +0000
Subject: [PATCH 02/44] fix: Vector range access returned index numbers instead
 of entries

---
 src/Vector.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Vector.hpp b/src/Vector.hpp
index 3702e59..4c3c9e3 100644
--- a/src/Vector.hpp
+++ b/src/Vector.hpp
@@ -259,7 +259,7 @@ public:
      * @return Vector<NumericalType> Vector of size `(b - a) + 1` with entries
      */
     Vector<NumericalType> getRange(std::size_t a, std::size_t b) {
-        if (a > size_ || b > size_ || a < 0 || b < 0) {
+        if (a >= size_ || b >= size_ || a < 0 || b < 0) {
             std::string errorMessage = "[EllipticForest::Vector::getRange] `a` or `b` is outside of range of vector:\n";
             errorMessage += "\ta = " + std::to_string(a) + "\n";
             errorMessage += "\tb = " + std::to_string(b) + "\n";
@@ -270,7 +270,7 @@ public:
 
         Vector<NumericalType> v((b - a) + 1);
         for (auto i = 0; i < v.size(); i++) {
-            v(i) = a + i;
+            v(i) = data_[a + i];
         }
         return v;
     }
@@ -285,7 +285,7 @@ public:
      * @return Vector<NumericalType> Vector of size `(b - a) + 1` with entries
      */
     Vector<NumericalType> operator()(std::size_t a, std::size_t b) {
-        if (a > size_ || b > size_ || a < 0 || b < 0) {
+        if (a >= size_ || b >= size_ || a < 0 || b < 0) {
             std::string errorMessage = "[EllipticForest::Vector::operator()] `a` or `b` is outside of range of vector:\n";
             errorMessage += "\ta = " + std::to_string(a) + "\n";
             errorMessage += "\tb = " + std::to_string(b) + "\n";
@@ -296,7 +296,7 @@ public:
 
         Vector<NumericalType> v((b - a) + 1);
         for (auto i = 0; i < v.size(); i++) {
-            v(i) = a + i;
+            v(i) = data_[a + i];
         }
         return v;
     }
-- 
2.43.0


From c58ac557bdb93a6bb58d43ac1c23ba9e5f5fbf11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:00:26 +0000
Subject: [PATCH 03/44] fix: Matrix element access accepted row == nrows() and
 column == ncols()

---
 src/Matrix.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Matrix.hpp b/src/Matrix.hpp
index 6906d8a..69b98a3 100644
--- a/src/Matrix.hpp
+++ b/src/Matrix.hpp
@@ -709,14 +709,14 @@ private:
      * @return std::size_t 
      */
     std::size_t flattenIndex_(std::size_t i, std::size_t j) {
-        if (i < 0 || i > nrows_) {
+        if (i < 0 || i >= nrows_) {
             std::string error_msg = "[EllipticForest::Matrix::flattenIndex] Index `i` is outside of range:\n";
             error_msg += "\ti = " + std::to_string(i) + "\n";
             error_msg += "\tnrows = " + std::to_string(nrows_) + "\n";
             std::cerr << error_msg << std::endl;
             throw std::out_of_range(error_msg);
         }
-        if (j < 0 || j > ncols_) {
+        if (j < 0 || j >= ncols_) {
             std::string error_msg = "[EllipticForest::Matrix::flattenIndex] Index `j` is outside of range:\n";
             error_msg += "\tj = " + std::to_string(j) + "\n";
             error_msg += "\tncols = " + std::to_string(ncols_) + "\n";
-- 
2.43.0


From 770be38aac2db7cbb864dede62a7c964df8153a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:00:26 +0000
Subject: [PATCH 04/44] fix: Matrix scaling by a scalar added the scalar
 instead of multiplying

---
 src/Matrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Matrix.hpp b/src/Matrix.hpp
index 69b98a3..dc5600c 100644
--- a/src/Matrix.hpp
+++ b/src/Matrix.hpp
@@ -693,7 +693,7 @@ public:
     Matrix<NumericalType>& operator*=(NumericalType rhs) {
         for (auto i = 0; i < nrows_; i++) {
             for (auto j = 0; j < ncols_; j++) {
-                operator()(i, j) += rhs;
+                operator()(i, j) *= rhs;
             }
         }
         return *this;
-- 
2.43.0


From 230c6804bcfedf1da88667d6db4cb21f4eb25919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:00:26 +0000
Subject: [PATCH 05/44] fix: Matrix column extraction used the number of
 columns as the column length

---
 src/Matrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Matrix.hpp b/src/Matrix.hpp
index dc5600c..413159d 100644
--- a/src/Matrix.hpp
+++ b/src/Matrix.hpp
@@ -300,7 +300,7 @@ public:
     Vector<NumericalType> getCol(std::size_t col_index) {
         Vector<NumericalType> res(nrows_);
         Matrix<NumericalType> colMatrix = operator()(0, nrows_ - 1, col_index, col_index);
-        for (auto i = 0; i < ncols_; i++) {
+        for (auto i = 0; i < nrows_; i++) {
             res[i] = colMatrix(i, 0);
         }
         return res;
-- 
2.43.0


From 0ba15168a6efb53e4d4e0bec6f5ffa80bb47b01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:41:14 +0000
Subject: [PATCH 06/44] fix: naming a sub-communicator on processes outside its
 range aborted the program

---
 src/MPI.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/MPI.cpp b/src/MPI.cpp
index 6998e60..3a371b9 100644
--- a/src/MPI.cpp
+++ b/src/MPI.cpp
@@ -23,13 +23,15 @@ void communicatorSubsetRange(Communicator super_comm, int r_first, int r_last, i
     // int color = (r_first <= rank && rank <= r_last ? 0 : MPI_UNDEFINED);
     // MPI_Comm_split(super_comm, color, rank, sub_comm);
 
-    // Set name of comm
-    int super_comm_name_size = 0;
-    char super_comm_name_buffer[255];
-    MPI_Comm_get_name(super_comm, super_comm_name_buffer, &super_comm_name_size);
-    std::string super_comm_name(super_comm_name_buffer, super_comm_name_size);
-    std::string sub_comm_name = super_comm_name + "_sub_range={" + std::to_string(r_first) + ":" + std::to_string(r_last) + "}";
-    MPI_Comm_set_name(*sub_comm, sub_comm_name.c_str());
+    // Set name of comm; processes outside of the range have no communicator to name
+    if (*sub_comm != MPI_COMM_NULL) {
+        int super_comm_name_size = 0;
+        char super_comm_name_buffer[255];
+        MPI_Comm_get_name(super_comm, super_comm_name_buffer, &super_comm_name_size);
+        std::string super_comm_name(super_comm_name_buffer, super_comm_name_size);
+        std::string sub_comm_name = super_comm_name + "_sub_range={" + std::to_string(r_first) + ":" + std::to_string(r_last) + "}";
+        MPI_Comm_set_name(*sub_comm, sub_comm_name.c_str());
+    }
 
     // Free groups
     MPI_Group_free(&super_group);
-- 
2.43.0


From 4fe451e6f7917ba7187685079a5a4a685787f906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:41:38 +0000
Subject: [PATCH 07/44] fix: tree traversals, merge and split acted on
 whichever tree was last traversed by traversePreOrder

---
 src/Quadtree.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Quadtree.hpp b/src/Quadtree.hpp
index 9b46b6c..ec6cd4b 100644
--- a/src/Quadtree.hpp
+++ b/src/Quadtree.hpp
@@ -257,6 +257,7 @@ public:
 	 */
 	void traversePreOrder(std::function<void(T&)> visit) {
 
+		p4est->user_pointer = (void*) this;
 		visit_node_data_fn = visit;
 		int skip_levels = 0;
 		p4est_search_reorder(
@@ -278,6 +279,7 @@ public:
 	 */
 	void traversePostOrder(std::function<int(Node<T>*)> visit) {
 
+		p4est->user_pointer = (void*) this;
 		visit_node_fn = visit;
 		int skip_levels = 0;
 		p4est_search_reorder(
@@ -299,6 +301,7 @@ public:
 	 */
 	void traversePostOrder(std::function<void(T&)> visit) {
 
+		p4est->user_pointer = (void*) this;
 		visit_node_data_fn = visit;
 		int skip_levels = 0;
 		p4est_search_reorder(
@@ -321,6 +324,7 @@ public:
 	 */
 	void merge(std::function<int(Node<T>*)> visit_leaf, std::function<int(Node<T>*, std::vector<Node<T>*>)> visit_family) {
 
+		p4est->user_pointer = (void*) this;
 		visit_node_fn = visit_leaf;
 		visit_family_fn = visit_family;
 		int skip_levels = 0;
@@ -344,6 +348,7 @@ public:
 	 */
 	void split(std::function<int(Node<T>*)> visit_leaf, std::function<int(Node<T>*, std::vector<Node<T>*>)> visit_family) {
 
+		p4est->user_pointer = (void*) this;
 		visit_node_fn = visit_leaf;
 		visit_family_fn = visit_family;
 		int skip_levels = 0;
-- 
2.43.0


From ad2badba6fab77c70c5632bd737c4dd61fcf226e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:41:38 +0000
Subject: [PATCH 08/44] fix: string broadcast read beyond the receiver's
 shorter string

---
 src/MPI.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MPI.cpp b/src/MPI.cpp
index 3a371b9..c6a3e0c 100644
--- a/src/MPI.cpp
+++ b/src/MPI.cpp
@@ -70,7 +70,7 @@ int broadcast<std::string>(std::string& str, int root, MPI_Comm comm) {
     int rank; MPI_Comm_rank(comm, &rank);
     int size = str.length();
     broadcast(size, root, comm);
-    if (rank != root) str = std::string(TypeTraits<std::string>::getAddress(str), size);
+    if (rank != root) str.resize(size);
     return MPI_Bcast(TypeTraits<std::string>::getAddress(str), TypeTraits<std::string>::getSize(str), TypeTraits<std::string>::getType(str), root, comm);
 }
 
-- 
2.43.0


From d70936bad0aa5dec9405f027b3538a280d375deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:15 +0000
Subject: [PATCH 09/44] fix: allgatherv of non-vector data did not compile
 (arguments in the wrong order)

---
 src/MPI.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MPI.hpp b/src/MPI.hpp
index 28d374b..ec3f417 100644
--- a/src/MPI.hpp
+++ b/src/MPI.hpp
@@ -295,7 +295,7 @@ int allgather(T& send_data, T& recv_data, int recv_count, Communicator comm) {
  */
 template<class T>
 int allgatherv(T& send_data, T& recv_data, std::vector<int> recv_counts, std::vector<int> displacements, Communicator comm) {
-    return MPI_Allgatherv(TypeTraits<T>::getAddress(send_data), TypeTraits<T>::getSize(send_data), TypeTraits<T>::getType(send_data), TypeTraits<T>::getAddress(recv_data), recv_counts.data(), TypeTraits<T>::getType(recv_data), displacements.data(), comm);
+    return MPI_Allgatherv(TypeTraits<T>::getAddress(send_data), TypeTraits<T>::getSize(send_data), TypeTraits<T>::getType(send_data), TypeTraits<T>::getAddress(recv_data), recv_counts.data(), displacements.data(), TypeTraits<T>::getType(recv_data), comm);
 }
 
 /**
-- 
2.43.0


From f8d5bda3e92eecb610451c3a6666c56f5dd37af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:18:23 +0000
Subject: [PATCH 10/44] fix: leaf solves created PETSc index sets on
 MPI_COMM_WORLD, which deadlocked processes with different numbers of leaves

---
 src/Patches/FiniteVolume/FiniteVolumeSolver.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Patches/FiniteVolume/FiniteVolumeSolver.cpp b/src/Patches/FiniteVolume/FiniteVolumeSolver.cpp
index 676bd2c..e37d885 100644
--- a/src/Patches/FiniteVolume/FiniteVolumeSolver.cpp
+++ b/src/Patches/FiniteVolume/FiniteVolumeSolver.cpp
@@ -197,8 +197,8 @@ Vector<double> FiniteVolumeSolver::solve(FiniteVolumeGrid& grid, Vector<double>&
         IS row_perm, col_perm;
         Vector<int> idx_row = vectorRange(0, N-1);
         Vector<int> idx_col = vectorRange(0, N-1);
-        ISCreateGeneral(MPI_COMM_WORLD, N, idx_row.data().data(), PETSC_COPY_VALUES, &row_perm);
-        ISCreateGeneral(MPI_COMM_WORLD, N, idx_col.data().data(), PETSC_COPY_VALUES, &col_perm);
+        ISCreateGeneral(MPI_COMM_SELF, N, idx_row.data().data(), PETSC_COPY_VALUES, &row_perm);
+        ISCreateGeneral(MPI_COMM_SELF, N, idx_col.data().data(), PETSC_COPY_VALUES, &col_perm);
         MatFactorInfo mat_factor_info;
         MatFactorInfoInitialize(&mat_factor_info);
 
-- 
2.43.0


From fd4ec4c24aeb3134027e307d577859434c66e573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:32:19 +0000
Subject: [PATCH 11/44] fix: building again on an adaptive mesh kept the
 previous build's coarsening counts

---
 src/HPSAlgorithm.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/HPSAlgorithm.hpp b/src/HPSAlgorithm.hpp
index c5456a7..6422696 100644
--- a/src/HPSAlgorithm.hpp
+++ b/src/HPSAlgorithm.hpp
@@ -1006,6 +1006,9 @@ private:
         PatchGridType merged_grid(MPI_COMM_SELF, alpha.size() + beta.size(), alpha.grid().xLower(), beta.grid().xUpper(), alpha.size() + gamma.size(), alpha.grid().yLower(), gamma.grid().yUpper());
         tau.grid() = merged_grid;
 
+        // A newly merged patch has not been coarsened yet (also when building again)
+        tau.n_coarsens = 0;
+
     }
 
     // ====================================================================================================
-- 
2.43.0


From 2bd1b20f4fa5b72ee31fffd607d4cd4c2690617e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:32:19 +0000
Subject: [PATCH 12/44] fix: the cached leaf operator was used for leaves of
 every size and survived into later builds

---
 src/HPSAlgorithm.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/HPSAlgorithm.hpp b/src/HPSAlgorithm.hpp
index 6422696..c9b1111 100644
--- a/src/HPSAlgorithm.hpp
+++ b/src/HPSAlgorithm.hpp
@@ -125,6 +125,9 @@ public:
         app.addTimer("build-stage");
         app.timers["build-stage"].start();
 
+        // Cached operators belong to one build (coefficients may have changed since) and to one patch size
+        matrixCache = DataCache<Matrix<NumericalType>>();
+
         mesh.quadtree.merge(
             [&](Node<PatchType>* leaf_node){
                 // app.log("Leaf callback: path = " + leaf_node->path);
@@ -132,10 +135,11 @@ public:
                 PatchType& patch = leaf_node->data;
                 // patch.isLeaf = true;
                 if (std::get<bool>(app.options["cache-operators"])) {
-                    if (!matrixCache.contains("T_leaf")) {
-                        matrixCache["T_leaf"] = patch_solver.buildD2N(patch.grid());
+                    std::string key = "T_leaf_" + std::to_string(leaf_node->level);
+                    if (!matrixCache.contains(key)) {
+                        matrixCache[key] = patch_solver.buildD2N(patch.grid());
                     }
-                    patch.matrixT() = matrixCache["T_leaf"];
+                    patch.matrixT() = matrixCache[key];
                 }
                 else {
                     patch.matrixT() = patch_solver.buildD2N(patch.grid());
-- 
2.43.0


From 28879afe17ed26c0493594d52f25bb4fbd8f4146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:32:19 +0000
Subject: [PATCH 13/44] fix: boundary solve with homogeneous-rhs used missing
 or stale particular data of the root

---
 src/HPSAlgorithm.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/HPSAlgorithm.hpp b/src/HPSAlgorithm.hpp
index c9b1111..0072f47 100644
--- a/src/HPSAlgorithm.hpp
+++ b/src/HPSAlgorithm.hpp
@@ -408,7 +408,11 @@ public:
             Vector<NumericalType> r = concatenate(rVectors);
             Vector<NumericalType> a = concatenate(aVectors);
             Vector<NumericalType> b = concatenate(bVectors);
-            Vector<NumericalType>& h = rootPatch.vectorH();
+            Vector<NumericalType> h = rootPatch.vectorH();
+            if (std::get<bool>(app.options["homogeneous-rhs"])) {
+                // No particular data without a load; what is stored is missing or stems from an earlier one
+                h = Vector<NumericalType>(4*M, 0);
+            }
             Matrix<NumericalType>& T = rootPatch.matrixT();
             Vector<NumericalType>& g = rootPatch.vectorG();
 
-- 
2.43.0


From 5a2b89efc1a3f2ef109d6a470d662b9ca0e34915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:07:50 +0000
Subject: [PATCH 14/44] fix: refining a mesh again appended its cells to those
 of the previous mesh

---
 src/Mesh.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/Mesh.hpp b/src/Mesh.hpp
index 7ab02b8..1a0bcf8 100644
--- a/src/Mesh.hpp
+++ b/src/Mesh.hpp
@@ -185,6 +185,14 @@ public:
      */
     void setMeshFromQuadtree() {
 
+        // Discard the arrays of any previous mesh
+        npoints = 0;
+        ncells = 0;
+        points = Vector<double>{};
+        connectivity = Vector<int>{};
+        offsets = Vector<int>{};
+        types = Vector<int>{};
+
         points.name() = "points";
         points.setNumberOfComponents("3");
         connectivity.name() = "connectivity";
-- 
2.43.0


From afa4791cc7be6fcc8a446030108ce70779070e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:07:50 +0000
Subject: [PATCH 15/44] fix: VTK output had four (wrong) offsets and four types
 per cell instead of one

---
 src/Mesh.hpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/Mesh.hpp b/src/Mesh.hpp
index 1a0bcf8..17209bd 100644
--- a/src/Mesh.hpp
+++ b/src/Mesh.hpp
@@ -249,13 +249,10 @@ public:
                             index + 3
                         };
                         Vector<int> cellOffsets = {
-                            (index + 1) * 4,
-                            (index + 2) * 4,
-                            (index + 3) * 4,
-                            (index + 4) * 4
+                            index + 4
                         };
                         Vector<int> cellTypes = {
-                            9, 9, 9, 9
+                            9
                         };
                         
                         index += 4;
-- 
2.43.0


From 9c3a5a5f68dc2a8788d99d5339c4f28f60574e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:07:50 +0000
Subject: [PATCH 16/44] fix: the index file of a parallel VTK output declared
 itself a serial UnstructuredGrid

---
 src/VTK.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/VTK.cpp b/src/VTK.cpp
index dfc2561..f3a6924 100644
--- a/src/VTK.cpp
+++ b/src/VTK.cpp
@@ -210,7 +210,7 @@ void UnstructuredGridVTK::toVTK(std::string filename) {
 PUnstructuredGridVTK::PUnstructuredGridVTK() :
     MPIObject{MPI_COMM_WORLD},
     root_("VTKFile") {
-    root_.addAttribute("type", "UnstructuredGrid");
+    root_.addAttribute("type", "PUnstructuredGrid");
     root_.addAttribute("version", "0.1");
     root_.addAttribute("byte_order", "LittleEndian");
 }
@@ -218,7 +218,7 @@ PUnstructuredGridVTK::PUnstructuredGridVTK() :
 PUnstructuredGridVTK::PUnstructuredGridVTK(MPI_Comm comm) :
     MPIObject{comm},
     root_("VTKFile") {
-    root_.addAttribute("type", "UnstructuredGrid");
+    root_.addAttribute("type", "PUnstructuredGrid");
     root_.addAttribute("version", "0.1");
     root_.addAttribute("byte_order", "LittleEndian");
 }
-- 
2.43.0


From 68ceb2ca125ba76fb9997e51067a028c2c917b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:13:24 +0000
Subject: [PATCH 17/44] fix: writing twice with one VTK writer attached dead
 nodes of the first call to the second file

---
 src/VTK.cpp | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/VTK.cpp b/src/VTK.cpp
index f3a6924..8905167 100644
--- a/src/VTK.cpp
+++ b/src/VTK.cpp
@@ -79,6 +79,9 @@ void RectilinearGridVTK::toVTK(std::string filename) {
 
     if (mesh_complete_) {
 
+        // Children are local to this call; don't attach them to the member
+        XMLNode root = root_;
+
         XMLNode node_rectilinear_grid("RectilinearGrid");
         node_rectilinear_grid.addAttribute("WholeExtent", mesh_->getWholeExtent());
 
@@ -101,7 +104,7 @@ void RectilinearGridVTK::toVTK(std::string filename) {
 
         XMLNode node_coordinates("Coordinates");
         
-        root_.addChild(node_rectilinear_grid);
+        root.addChild(node_rectilinear_grid);
         node_rectilinear_grid.addChild(node_piece);
         if (!cell_data_vector_.empty()) node_piece.addChild(node_cell_data);
         if (!point_data_vector_.empty()) node_piece.addChild(node_point_data);
@@ -110,7 +113,7 @@ void RectilinearGridVTK::toVTK(std::string filename) {
         for (auto point_data : point_data_vector_) node_point_data.addChild(point_data->toVTK());
         for (auto coordData : coords_data_vector_) node_coordinates.addChild(coordData->toVTK());
 
-        XMLTree tree(root_);
+        XMLTree tree(root);
         tree.write(filename);
 
     }
@@ -161,6 +164,9 @@ void UnstructuredGridVTK::toVTK(std::string filename) {
 
     if (mesh_complete_) {
 
+        // Children are local to this call; don't attach them to the member
+        XMLNode root = root_;
+
         XMLNode node_unstructured_grid("UnstructuredGrid");
 
         XMLNode node_piece("Piece");
@@ -184,7 +190,7 @@ void UnstructuredGridVTK::toVTK(std::string filename) {
             node_point_data.addAttribute("Scalars", names);
         }
 
-        root_.addChild(node_unstructured_grid);
+        root.addChild(node_unstructured_grid);
             node_unstructured_grid.addChild(node_piece);
                 node_piece.addChild(node_points);
                     node_points.addChild(mesh_->getPoints().toVTK());
@@ -197,7 +203,7 @@ void UnstructuredGridVTK::toVTK(std::string filename) {
                 if (!point_data_vector_.empty()) node_piece.addChild(node_point_data);
                     for (auto& point_data : point_data_vector_) node_point_data.addChild(point_data->toVTK());
 
-        XMLTree tree(root_);
+        XMLTree tree(root);
         tree.write(filename);
         
     }
@@ -252,7 +258,8 @@ void PUnstructuredGridVTK::toVTK(std::string filenameBase) {
         auto& point_data_vector = vtu.pointDataVector();
         auto& cell_data_vector = vtu.cellDataVector();
 
-        // Build nodes
+        // Build nodes (children are local to this call; don't attach them to the member)
+        XMLNode root = root_;
         XMLNode node_p_unstructured_grid("PUnstructuredGrid");
         node_p_unstructured_grid.addAttribute("GhostLevel", "0");
 
@@ -283,7 +290,7 @@ void PUnstructuredGridVTK::toVTK(std::string filenameBase) {
         }
 
         // Build structure
-        root_.addChild(node_p_unstructured_grid);
+        root.addChild(node_p_unstructured_grid);
             node_p_unstructured_grid.addChild(node_p_points);
                 node_p_points.addChild(mesh.getPoints().toPVTK());
             node_p_unstructured_grid.addChild(node_p_pointData);
@@ -293,7 +300,7 @@ void PUnstructuredGridVTK::toVTK(std::string filenameBase) {
             for (auto& node_piece : node_piece_vector) node_p_unstructured_grid.addChild(node_piece);
         
         // Write to file
-        XMLTree tree(root_);
+        XMLTree tree(root);
         tree.write(filenameBase + ".pvtu");
 
     }
-- 
2.43.0


From e927e759401883c02c1c3f9ff9d01962bf948f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:13:40 +0000
Subject: [PATCH 18/44] fix: the base filename of a parallel VTK output was
 used as a printf format and cut at 255 characters

---
 src/VTK.cpp | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/VTK.cpp b/src/VTK.cpp
index 8905167..5ab1e9e 100644
--- a/src/VTK.cpp
+++ b/src/VTK.cpp
@@ -244,11 +244,9 @@ void PUnstructuredGridVTK::addCellData(DataArrayNodeBase& cell_data) {
 void PUnstructuredGridVTK::toVTK(std::string filenameBase) {
 
     // All ranks write individual file
-    char str_buffer[256];
-    std::string filename = filenameBase + "_%04i.vtu";
-    snprintf(str_buffer, 256, filename.c_str(), this->getRank());
-    filename = std::string(str_buffer);
-    vtu.toVTK(filename);
+    char str_buffer[32];
+    snprintf(str_buffer, 32, "_%04i.vtu", this->getRank());
+    vtu.toVTK(filenameBase + str_buffer);
 
     // Head rank writes metadata file
     if (this->getRank() == MPI::HEAD_RANK) {
@@ -281,11 +279,9 @@ void PUnstructuredGridVTK::toVTK(std::string filenameBase) {
 
         std::vector<XMLNode> node_piece_vector;
         for (int i = 0; i < this->getSize(); i++) {
-            filename = filenameBase + "_%04i.vtu";
-            snprintf(str_buffer, 256, filename.c_str(), i);
-            filename = std::string(str_buffer);
+            snprintf(str_buffer, 32, "_%04i.vtu", i);
             XMLNode node_piece("Piece");
-            node_piece.addAttribute("Source", filename);
+            node_piece.addAttribute("Source", filenameBase + str_buffer);
             node_piece_vector.push_back(node_piece);
         }
 
-- 
2.43.0


From c8683cc9ef7e7977b881103463c252642b2db0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:13:40 +0000
Subject: [PATCH 19/44] fix: a parallel VTK index written into a directory
 named pieces in a nested directory that doesn't exist

---
 src/VTK.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/VTK.cpp b/src/VTK.cpp
index 5ab1e9e..5369557 100644
--- a/src/VTK.cpp
+++ b/src/VTK.cpp
@@ -277,11 +277,13 @@ void PUnstructuredGridVTK::toVTK(std::string filenameBase) {
             node_p_cell_data.addAttribute("Scalars", names);
         }
 
+        // Sources are relative to the directory of the metadata file
+        std::string source_base = filenameBase.substr(filenameBase.find_last_of('/') + 1);
         std::vector<XMLNode> node_piece_vector;
         for (int i = 0; i < this->getSize(); i++) {
             snprintf(str_buffer, 32, "_%04i.vtu", i);
             XMLNode node_piece("Piece");
-            node_piece.addAttribute("Source", filenameBase + str_buffer);
+            node_piece.addAttribute("Source", source_base + str_buffer);
             node_piece_vector.push_back(node_piece);
         }
 
-- 
2.43.0


From bbae418cfeea327870f3025244ee036428a1b5b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:13:40 +0000
Subject: [PATCH 20/44] fix: range of an empty vector's data dereferenced the
 end iterator

---
 src/Vector.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Vector.hpp b/src/Vector.hpp
index 4c3c9e3..f8c32b2 100644
--- a/src/Vector.hpp
+++ b/src/Vector.hpp
@@ -727,6 +727,7 @@ public:
      * @return std::string 
      */
     virtual std::string getRangeMin() {
+        if (data_.empty()) return std::to_string(NumericalType{});
         NumericalType min = *std::min_element(data_.begin(), data_.end());
         return std::to_string(min);
     }
@@ -737,6 +738,7 @@ public:
      * @return std::string 
      */
     virtual std::string getRangeMax() {
+        if (data_.empty()) return std::to_string(NumericalType{});
         NumericalType max = *std::max_element(data_.begin(), data_.end());
         return std::to_string(max);
     }
-- 
2.43.0


From 5262a1de935486858bf6906555f8cbfc70563187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:36:44 +0000
Subject: [PATCH 21/44] fix: allreduce did not compile (assert used without its
 header)

---
 src/MPI.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/MPI.hpp b/src/MPI.hpp
index ec3f417..112bfc7 100644
--- a/src/MPI.hpp
+++ b/src/MPI.hpp
@@ -1,6 +1,7 @@
 #ifndef MPI_HPP_
 #define MPI_HPP_
 
+#include <cassert>
 #include <iostream>
 #include <vector>
 #include <string>
-- 
2.43.0


From 2835e5ffa1a152e0dde31c63a7606f96cbaba8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:36:44 +0000
Subject: [PATCH 22/44] fix: transfers of empty vectors referred to an element
 that does not exist

---
 src/MPI.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MPI.hpp b/src/MPI.hpp
index 112bfc7..5419c84 100644
--- a/src/MPI.hpp
+++ b/src/MPI.hpp
@@ -313,7 +313,7 @@ struct TypeTraits<std::vector<T>> {
      * @param vec Reference to std::vector
      * @return Datatype 
      */
-    static inline Datatype getType(std::vector<T>& vec) { return TypeTraits<T>::getType(vec[0]); }
+    static inline Datatype getType(std::vector<T>& vec) { T t{}; return TypeTraits<T>::getType(t); }
 
     /**
      * @brief Returns the size of the std::vector
@@ -329,7 +329,7 @@ struct TypeTraits<std::vector<T>> {
      * @param vec Reference to std::vector
      * @return T* 
      */
-    static inline T* getAddress(std::vector<T>& vec) { return &vec.front(); }
+    static inline T* getAddress(std::vector<T>& vec) { return vec.data(); }
 
 };
 
-- 
2.43.0


From 4ee681d1b39f452343384f9e27b606f890e024ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:36:44 +0000
Subject: [PATCH 23/44] fix: matrix transfers also used the two tags following
 the given one, so they mixed with transfers under those tags

---
 src/Matrix.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Matrix.hpp b/src/Matrix.hpp
index 413159d..6e73eb0 100644
--- a/src/Matrix.hpp
+++ b/src/Matrix.hpp
@@ -1034,8 +1034,8 @@ int send(Matrix<T>& matrix, int dest, int tag, MPI::Communicator comm) {
     int rows, cols;
     rows = static_cast<int>(matrix.nrows());
     cols = static_cast<int>(matrix.ncols());
-    send(rows, dest, tag+1, comm);
-    send(cols, dest, tag+2, comm);
+    send(rows, dest, tag, comm);
+    send(cols, dest, tag, comm);
     send(matrix.dataNoConst(), dest, tag, comm);
     return 0;
 }
@@ -1055,8 +1055,8 @@ template<class T>
 int receive(Matrix<T>& matrix, int src, int tag, MPI::Communicator comm, MPI::Status* status) {
     int rows, cols;
     std::vector<T> vec;
-    receive(rows, src, tag+1, comm, status);
-    receive(cols, src, tag+2, comm, status);
+    receive(rows, src, tag, comm, status);
+    receive(cols, src, tag, comm, status);
     receive(vec, src, tag, comm, status);
     matrix = Matrix<T>(rows, cols, vec);
     return 0;
-- 
2.43.0


From 89299ecbfec35bc7becc1d617849ed7a057c7693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:56:17 +0000
Subject: [PATCH 24/44] fix: text values of options were stored as empty
 strings

---
 src/Options.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Options.cpp b/src/Options.cpp
index c15d3cb..2f4c3ad 100644
--- a/src/Options.cpp
+++ b/src/Options.cpp
@@ -100,7 +100,7 @@ Options::OptionTypes Options::checkValue(std::string value) {
     else if (isInt(value)) {
         return (int) std::stoi(value);
     }
-    return {};
+    return value;
 }
 
 bool Options::isDouble(std::string& str) {
-- 
2.43.0


From 6f3d7caacad4ba3cd2f7d7fccaeb38885b2fe6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:56:17 +0000
Subject: [PATCH 25/44] fix: option values that only resemble numbers ended the
 program; negative and exponent numbers were lost

---
 src/Options.cpp | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/Options.cpp b/src/Options.cpp
index 2f4c3ad..32724f0 100644
--- a/src/Options.cpp
+++ b/src/Options.cpp
@@ -1,5 +1,9 @@
 #include "Options.hpp"
 
+#include <cerrno>
+#include <climits>
+#include <cstdlib>
+
 namespace EllipticForest {
 
 Options::Options()
@@ -95,7 +99,7 @@ Options::OptionTypes Options::checkValue(std::string value) {
         return (bool) false;
     }
     else if (isDouble(value)) {
-        return (double) std::stod(value);
+        return (double) std::strtod(value.c_str(), nullptr);
     }
     else if (isInt(value)) {
         return (int) std::stoi(value);
@@ -104,14 +108,20 @@ Options::OptionTypes Options::checkValue(std::string value) {
 }
 
 bool Options::isDouble(std::string& str) {
-    return str.find('.') != std::string::npos;
+    // A complete decimal number that is not an integer
+    if (str.empty() || str.find_first_not_of("0123456789+-.eE") != std::string::npos) return false;
+    char* end = nullptr;
+    std::strtod(str.c_str(), &end);
+    return *end == '\0' && !isInt(str);
 }
 
 bool Options::isInt(std::string& str) {
-    for (auto c : str) {
-        if (!std::isdigit(c)) return false;
-    }
-    return true;
+    // A complete, optionally signed sequence of digits in the range of an int
+    if (str.empty() || str.find_first_not_of("0123456789+-") != std::string::npos) return false;
+    char* end = nullptr;
+    errno = 0;
+    long value = std::strtol(str.c_str(), &end, 10);
+    return *end == '\0' && errno == 0 && value >= INT_MIN && value <= INT_MAX;
 }
 
 } // NAMESPACE : EllipticForest
\ No newline at end of file
-- 
2.43.0


From 602ca8e1aeba9b6b99a1c69863bb83614b3d1110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:56:17 +0000
Subject: [PATCH 26/44] fix: blanks inside names and values read from an INI
 file were removed

---
 src/Options.cpp | 4 +++-
 src/Options.hpp | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Options.cpp b/src/Options.cpp
index 32724f0..44e4c47 100644
--- a/src/Options.cpp
+++ b/src/Options.cpp
@@ -88,7 +88,9 @@ void Options::readINIFile(std::string filename, std::string section) {
 }
 
 void Options::stripWhitespace(std::string& str) {
-    str.erase(std::remove_if(str.begin(), str.end(), ::isspace), str.end());
+    auto is_space = [](unsigned char c) { return std::isspace(c); };
+    str.erase(std::find_if_not(str.rbegin(), str.rend(), is_space).base(), str.end());
+    str.erase(str.begin(), std::find_if_not(str.begin(), str.end(), is_space));
 }
 
 Options::OptionTypes Options::checkValue(std::string value) {
diff --git a/src/Options.hpp b/src/Options.hpp
index 2b821af..b4ef348 100644
--- a/src/Options.hpp
+++ b/src/Options.hpp
@@ -128,7 +128,7 @@ private:
     void readINIFile(std::string filename, std::string section);
 
     /**
-     * @brief Removes whitespace from string
+     * @brief Removes leading and trailing whitespace from string
      * 
      * @param str String with whitespace
      */
-- 
2.43.0


From 8467a0fc06342d274c78784dfe33c618c1e16a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:22:44 +0000
Subject: [PATCH 27/44] fix: copies of a parallel vector destroyed its PETSc
 vector once each

---
 src/Vector.hpp | 35 ++++++++++++++++++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/src/Vector.hpp b/src/Vector.hpp
index f8c32b2..70f9437 100644
--- a/src/Vector.hpp
+++ b/src/Vector.hpp
@@ -1023,7 +1023,7 @@ protected:
 
 public:
     
-    Petsc::Vec vec;
+    Petsc::Vec vec = NULL;
 
     ParallelVector() :
         MPIObject(MPI_COMM_WORLD)
@@ -1104,6 +1104,39 @@ public:
 
     // }
 
+    // Copies refer to the same PETSc vector, which lives as long as one of them
+    ParallelVector(const ParallelVector& other) :
+        MPIObject(other.getComm()),
+        local_size(other.local_size),
+        global_size(other.global_size),
+        raw_data(other.raw_data),
+        is_created(other.is_created),
+        vec(other.vec) {
+
+        if (is_created) {
+            PetscObjectReference((PetscObject) vec);
+        }
+
+    }
+
+    ParallelVector& operator=(const ParallelVector& other) {
+        if (this != &other) {
+            if (other.is_created) {
+                PetscObjectReference((PetscObject) other.vec);
+            }
+            if (is_created) {
+                VecDestroy(&vec);
+            }
+            MPIObject::operator=(other);
+            local_size = other.local_size;
+            global_size = other.global_size;
+            raw_data = other.raw_data;
+            is_created = other.is_created;
+            vec = other.vec;
+        }
+        return *this;
+    }
+
     ~ParallelVector() {
         if (is_created) {
             VecDestroy(&vec);
-- 
2.43.0


From ba9246a4d46e3c280e180e002e370a0abd334bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:22:44 +0000
Subject: [PATCH 28/44] fix: copies of a parallel matrix destroyed its PETSc
 matrix once each; assigning to one leaked it

---
 src/Matrix.hpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/Matrix.hpp b/src/Matrix.hpp
index 6e73eb0..87f0e29 100644
--- a/src/Matrix.hpp
+++ b/src/Matrix.hpp
@@ -1245,11 +1245,20 @@ public:
         global_rows(other.global_rows),
         global_cols(other.global_cols),
         is_created(other.is_created),
-        mat(other.mat)
-            {}
+        mat(other.mat) {
+
+        // Copies refer to the same PETSc matrix, which lives as long as one of them
+        if (is_created) {
+            PetscObjectReference((PetscObject) mat);
+        }
+
+    }
 
     ParallelMatrix& operator=(ParallelMatrix&& other) {
         if (this != &other) {
+            if (is_created) {
+                MatDestroy(&mat);
+            }
             MPIObject::operator=(std::move(other));
             local_rows = other.local_rows;
             local_cols = other.local_cols;
-- 
2.43.0


From 4e79a90cc1bdb8321eb7d776768d3909c7813100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:22:44 +0000
Subject: [PATCH 29/44] fix: moving a parallel matrix to another communicator
 dropped columns and reported the old sizes

---
 src/Matrix.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/Matrix.hpp b/src/Matrix.hpp
index 87f0e29..9d4f7fa 100644
--- a/src/Matrix.hpp
+++ b/src/Matrix.hpp
@@ -1214,7 +1214,7 @@ public:
         // app.log("sub_matrix comm = " + MPI::communicatorGetName(sub_matrix.getComm()));
         ISCreateStride(sub_matrix.getComm(), rlast - rfirst, rfirst, 1, &irow[0]);
         // app.log("HERE 3");
-        ISCreateStride(sub_matrix.getComm(), rlast - rfirst, rfirst, 1, &icol[0]);
+        ISCreateStride(sub_matrix.getComm(), sub_matrix.global_cols, 0, 1, &icol[0]);
         // app.log("HERE 4");
         if (first_time) {
             MatCreateSubMatrices(sub_matrix.mat, 1, irow, icol, MAT_INITIAL_MATRIX, &submat);
@@ -1225,6 +1225,12 @@ public:
             MatCreateSubMatrices(sub_matrix.mat, 1, irow, icol, MAT_REUSE_MATRIX, &submat);
             MatCreateMPIMatConcatenateSeqMat(new_comm, submat[0], PETSC_DECIDE, MAT_REUSE_MATRIX, &mat);
         }
+        MatDestroySubMatrices(1, &submat);
+        ISDestroy(&irow[0]);
+        ISDestroy(&icol[0]);
+        MatGetLocalSize(mat, &local_rows, &local_cols);
+        MatGetSize(mat, &global_rows, &global_cols);
+        is_created = true;
 
     }
 
-- 
2.43.0


From d07a778574cd1d5e789e310903741d0c9e76768f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:22:45 +0000
Subject: [PATCH 30/44] fix: a parallel matrix whose local sizes are left to
 PETSc reported -1 local rows and columns

---
 src/Matrix.hpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/Matrix.hpp b/src/Matrix.hpp
index 9d4f7fa..44333e8 100644
--- a/src/Matrix.hpp
+++ b/src/Matrix.hpp
@@ -1101,6 +1101,12 @@ protected:
     int global_cols = 0;
     bool is_created = false;
 
+    // Replaces sizes left to PETSc (PETSC_DECIDE) by the ones it will use
+    void decideLocalSizes() {
+        PetscSplitOwnership(this->getComm(), &local_rows, &global_rows);
+        PetscSplitOwnership(this->getComm(), &local_cols, &global_cols);
+    }
+
 public:
 
     Petsc::Mat mat = NULL;
@@ -1133,7 +1139,8 @@ public:
 
         // Build default Petsc matrix from options
         create();
-        setSizes(local_rows, local_cols, global_rows, global_cols);
+        decideLocalSizes();
+        setSizes(this->local_rows, this->local_cols, this->global_rows, this->global_cols);
         setFromOptions();
     
     }
@@ -1147,7 +1154,8 @@ public:
 
         // Build default Petsc matrix from options
         create();
-        setSizes(local_rows, local_cols, global_rows, global_cols);
+        decideLocalSizes();
+        setSizes(this->local_rows, this->local_cols, this->global_rows, this->global_cols);
         setType(matrix_type);
     
     }
@@ -1161,7 +1169,8 @@ public:
 
         // Create parallel matrix
         create();
-        setSizes(local_rows, local_cols, global_rows, global_cols);
+        decideLocalSizes();
+        setSizes(this->local_rows, this->local_cols, this->global_rows, this->global_cols);
         setFromOptions();
 
         // Fill parallel matrix
@@ -1178,7 +1187,8 @@ public:
 
         // Create parallel matrix
         create();
-        setSizes(local_rows, local_cols, global_rows, global_cols);
+        decideLocalSizes();
+        setSizes(this->local_rows, this->local_cols, this->global_rows, this->global_cols);
         setType(matrix_type);
 
         // Fill parallel matrix
-- 
2.43.0


From ea44270510631301fd5f1ebf906923a3d6645823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:22:45 +0000
Subject: [PATCH 31/44] fix: a parallel identity matrix of a given type had no
 entries

---
 src/SpecialMatrices.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SpecialMatrices.hpp b/src/SpecialMatrices.hpp
index 27e01a3..e141367 100644
--- a/src/SpecialMatrices.hpp
+++ b/src/SpecialMatrices.hpp
@@ -59,7 +59,7 @@ public:
 
         //
         MatCreateConstantDiagonal(comm, PETSC_DECIDE, PETSC_DECIDE, N, N, 1.0, &this->mat);
-        MatSetType(this->mat, matrix_type);
+        MatConvert(this->mat, matrix_type, MAT_INPLACE_MATRIX, &this->mat);
         MatGetLocalSize(this->mat, &this->local_rows, &this->local_cols);
         MatGetSize(this->mat, &this->global_rows, &this->global_cols);
         this->is_created = true;
-- 
2.43.0


From 97c20e165dce6950f8fe175cc325daf0c197a876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:23:09 +0000
Subject: [PATCH 32/44] fix: let a visitor traverse a tree while that tree is
 being traversed

---
 src/Quadtree.hpp | 56 +++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 48 insertions(+), 8 deletions(-)

diff --git a/src/Quadtree.hpp b/src/Quadtree.hpp
index ec6cd4b..c7daaca 100644
--- a/src/Quadtree.hpp
+++ b/src/Quadtree.hpp
@@ -235,8 +235,10 @@ public:
 	 */
 	void traversePreOrder(std::function<int(Node<T>*)> visit) {
 
+		void* saved_user_pointer = p4est->user_pointer;
+		auto saved_visit = visit_node_fn;
 		p4est->user_pointer = (void*) this;
-		visit_node_fn = visit;
+		visit_node_fn = std::ref(visit);
 		int skip_levels = 0;
 		p4est_search_reorder(
 			p4est,
@@ -248,6 +250,10 @@ public:
 			NULL
 		);
 
+		// A visitor may itself traverse this tree (or another tree on the same forest)
+		visit_node_fn = saved_visit;
+		p4est->user_pointer = saved_user_pointer;
+
 	}
 
 	/**
@@ -257,8 +263,10 @@ public:
 	 */
 	void traversePreOrder(std::function<void(T&)> visit) {
 
+		void* saved_user_pointer = p4est->user_pointer;
+		auto saved_visit = visit_node_data_fn;
 		p4est->user_pointer = (void*) this;
-		visit_node_data_fn = visit;
+		visit_node_data_fn = std::ref(visit);
 		int skip_levels = 0;
 		p4est_search_reorder(
 			p4est,
@@ -270,6 +278,10 @@ public:
 			NULL
 		);
 
+		// A visitor may itself traverse this tree (or another tree on the same forest)
+		visit_node_data_fn = saved_visit;
+		p4est->user_pointer = saved_user_pointer;
+
 	}
 
 	/**
@@ -279,8 +291,10 @@ public:
 	 */
 	void traversePostOrder(std::function<int(Node<T>*)> visit) {
 
+		void* saved_user_pointer = p4est->user_pointer;
+		auto saved_visit = visit_node_fn;
 		p4est->user_pointer = (void*) this;
-		visit_node_fn = visit;
+		visit_node_fn = std::ref(visit);
 		int skip_levels = 0;
 		p4est_search_reorder(
 			p4est,
@@ -292,6 +306,10 @@ public:
 			NULL
 		);
 
+		// A visitor may itself traverse this tree (or another tree on the same forest)
+		visit_node_fn = saved_visit;
+		p4est->user_pointer = saved_user_pointer;
+
 	}
 
 	/**
@@ -301,8 +319,10 @@ public:
 	 */
 	void traversePostOrder(std::function<void(T&)> visit) {
 
+		void* saved_user_pointer = p4est->user_pointer;
+		auto saved_visit = visit_node_data_fn;
 		p4est->user_pointer = (void*) this;
-		visit_node_data_fn = visit;
+		visit_node_data_fn = std::ref(visit);
 		int skip_levels = 0;
 		p4est_search_reorder(
 			p4est,
@@ -314,6 +334,10 @@ public:
 			NULL
 		);
 
+		// A visitor may itself traverse this tree (or another tree on the same forest)
+		visit_node_data_fn = saved_visit;
+		p4est->user_pointer = saved_user_pointer;
+
 	}
 
 	/**
@@ -324,9 +348,12 @@ public:
 	 */
 	void merge(std::function<int(Node<T>*)> visit_leaf, std::function<int(Node<T>*, std::vector<Node<T>*>)> visit_family) {
 
+		void* saved_user_pointer = p4est->user_pointer;
+		auto saved_visit_leaf = visit_node_fn;
+		auto saved_visit_family = visit_family_fn;
 		p4est->user_pointer = (void*) this;
-		visit_node_fn = visit_leaf;
-		visit_family_fn = visit_family;
+		visit_node_fn = std::ref(visit_leaf);
+		visit_family_fn = std::ref(visit_family);
 		int skip_levels = 0;
 		p4est_search_reorder(
 			p4est,
@@ -338,6 +365,11 @@ public:
 			NULL
 		);
 
+		// A visitor may itself traverse this tree (or another tree on the same forest)
+		visit_node_fn = saved_visit_leaf;
+		visit_family_fn = saved_visit_family;
+		p4est->user_pointer = saved_user_pointer;
+
 	}
 
 	/**
@@ -348,9 +380,12 @@ public:
 	 */
 	void split(std::function<int(Node<T>*)> visit_leaf, std::function<int(Node<T>*, std::vector<Node<T>*>)> visit_family) {
 
+		void* saved_user_pointer = p4est->user_pointer;
+		auto saved_visit_leaf = visit_node_fn;
+		auto saved_visit_family = visit_family_fn;
 		p4est->user_pointer = (void*) this;
-		visit_node_fn = visit_leaf;
-		visit_family_fn = visit_family;
+		visit_node_fn = std::ref(visit_leaf);
+		visit_family_fn = std::ref(visit_family);
 		int skip_levels = 0;
 		p4est_search_reorder(
 			p4est,
@@ -362,6 +397,11 @@ public:
 			NULL
 		);
 
+		// A visitor may itself traverse this tree (or another tree on the same forest)
+		visit_node_fn = saved_visit_leaf;
+		visit_family_fn = saved_visit_family;
+		p4est->user_pointer = saved_user_pointer;
+
 	}
 
 	/**
-- 
2.43.0


From a18a2dace94d89a7ede0ca17fd42ae93ea5f68fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:31:45 +0000
Subject: [PATCH 33/44] fix: let trees have more nodes than MPI has
 communicators

---
 src/QuadNode.hpp | 2 +-
 src/Quadtree.hpp | 8 +++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/QuadNode.hpp b/src/QuadNode.hpp
index 8f56967..e0b7d51 100644
--- a/src/QuadNode.hpp
+++ b/src/QuadNode.hpp
@@ -101,7 +101,7 @@ public:
 	}
 
 	~Node() {
-		if (node_comm_set) {
+		if (node_comm_set && node_comm != MPI_COMM_SELF) {
 			MPI_Comm_free(&node_comm);
 		}
 	}
diff --git a/src/Quadtree.hpp b/src/Quadtree.hpp
index c7daaca..826c59b 100644
--- a/src/Quadtree.hpp
+++ b/src/Quadtree.hpp
@@ -143,9 +143,11 @@ public:
 				// Compute unique path
 				std::string path = p4est::p4est_quadrant_path(quadrant);
 
-				// Create the node communicator
-				MPI::Communicator node_comm;
-				MPI::communicatorSubsetRange(MPI_COMM_WORLD, pfirst, plast, 0, &node_comm);
+				// Create the node communicator; a node on a single rank needs none of its own (MPI limits how many there can be)
+				MPI::Communicator node_comm = MPI_COMM_SELF;
+				if (pfirst != plast) {
+					MPI::communicatorSubsetRange(MPI_COMM_WORLD, pfirst, plast, 0, &node_comm);
+				}
 
 				// Check if quadrant is owned by this rank
 				bool owned = pfirst <= rank && rank <= plast;
-- 
2.43.0


From 4a67d9e8f87e081bcebc6bdc2d0ac280d3fc2bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:35:18 +0000
Subject: [PATCH 34/44] fix: free the nodes of the tree a quadtree replaces

---
 src/Quadtree.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Quadtree.hpp b/src/Quadtree.hpp
index 826c59b..a9d2da9 100644
--- a/src/Quadtree.hpp
+++ b/src/Quadtree.hpp
@@ -218,6 +218,10 @@ public:
 	 */
 	Quadtree& operator=(Quadtree&& other) {
 		if (this != &other) {
+			// Delete the nodes of the tree that is replaced
+			for (typename NodeMap::iterator iter = map.begin(); iter != map.end(); ++iter) {
+				delete iter->second;
+			}
 			map = other.map;
 			// Set map seconds to nullptr so destructor doesn't delete them
 			for (typename NodeMap::iterator iter = other.map.begin(); iter != other.map.end(); ++iter) {
-- 
2.43.0


From 5d892ced380acd9d6339035ada1ce9910547bacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:51:08 +0000
Subject: [PATCH 35/44] fix: escape the values of XML attributes

---
 src/XMLTree.cpp | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/XMLTree.cpp b/src/XMLTree.cpp
index 3582d1a..37996b0 100644
--- a/src/XMLTree.cpp
+++ b/src/XMLTree.cpp
@@ -38,13 +38,31 @@ void XMLTree::write(std::string filename) {
     file.close();
 }
 
+/**
+ * @brief Replace the characters that may not appear in the value of an attribute
+ * 
+ */
+static std::string escapeAttribute(const std::string& value) {
+    std::string escaped;
+    for (char c : value) {
+        switch (c) {
+            case '&': escaped += "&amp;"; break;
+            case '<': escaped += "&lt;"; break;
+            case '>': escaped += "&gt;"; break;
+            case '"': escaped += "&quot;"; break;
+            default: escaped += c;
+        }
+    }
+    return escaped;
+}
+
 void XMLTree::write_(std::ofstream& file, XMLNode& node, std::string prefix) {
 
     // Write header
     std::string header = prefix;
     header += "<" + node.name + " ";
     for (auto& attributePair : node.attributes) {
-        header += attributePair.first + "=\"" + attributePair.second + "\" ";
+        header += attributePair.first + "=\"" + escapeAttribute(attributePair.second) + "\" ";
     }
     header.pop_back(); // Remove last space
     header += ">";
-- 
2.43.0


From 726a1cc25a3a0b91825e62553bde70d77b485caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:48:22 +0000
Subject: [PATCH 36/44] fix: write arrays of output files with all their digits

---
 src/Vector.hpp | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/Vector.hpp b/src/Vector.hpp
index 70f9437..b4a4aa6 100644
--- a/src/Vector.hpp
+++ b/src/Vector.hpp
@@ -6,6 +6,8 @@
 #include <vector>
 #include <algorithm>
 #include <initializer_list>
+#include <limits>
+#include <sstream>
 #include <string>
 
 #include <petsc.h>
@@ -727,9 +729,9 @@ public:
      * @return std::string 
      */
     virtual std::string getRangeMin() {
-        if (data_.empty()) return std::to_string(NumericalType{});
+        if (data_.empty()) return toText(NumericalType{});
         NumericalType min = *std::min_element(data_.begin(), data_.end());
-        return std::to_string(min);
+        return toText(min);
     }
 
     /**
@@ -738,9 +740,9 @@ public:
      * @return std::string 
      */
     virtual std::string getRangeMax() {
-        if (data_.empty()) return std::to_string(NumericalType{});
+        if (data_.empty()) return toText(NumericalType{});
         NumericalType max = *std::max_element(data_.begin(), data_.end());
-        return std::to_string(max);
+        return toText(max);
     }
 
     /**
@@ -750,10 +752,24 @@ public:
      */
     virtual std::string getData() {
         std::string str = "";
-        for (auto p : data_) { str += std::to_string(p) + " "; }
+        for (auto p : data_) { str += toText(p) + " "; }
         return str;
     }
 
+private:
+
+    /**
+     * @brief Text of an entry with all the digits it takes to read the same entry back
+     * 
+     * @param value Entry
+     * @return std::string 
+     */
+    static std::string toText(NumericalType value) {
+        std::ostringstream os;
+        os << std::setprecision(std::numeric_limits<NumericalType>::max_digits10) << +value;
+        return os.str();
+    }
+
 };
 
 /**
-- 
2.43.0


From 836aaaea7fba0e6afa1bcea4da2087b7844babdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:07:44 +0000
Subject: [PATCH 37/44] fix: read INI files with carriage returns at the ends
 of lines

---
 src/Options.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Options.cpp b/src/Options.cpp
index 44e4c47..bf6c955 100644
--- a/src/Options.cpp
+++ b/src/Options.cpp
@@ -51,8 +51,8 @@ void Options::readINIFile(std::string filename, std::string section) {
     bool read_section = false;
     while (std::getline(infile, line)) {
         // Remove any leading and trailing whitespaces
-        line.erase(0, line.find_first_not_of(" \t"));
-        line.erase(line.find_last_not_of(" \t") + 1);
+        line.erase(0, line.find_first_not_of(" \t\r\v\f"));
+        line.erase(line.find_last_not_of(" \t\r\v\f") + 1);
 
         // Ignore blank lines and comments
         if (line.length() == 0 || line[0] == ';') {
-- 
2.43.0


From a11f70f4c13de9f60848064cc1080ebc79ac0a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:21:49 +0000
Subject: [PATCH 38/44] fix: build and walk trees on the communicator of their
 forest

---
 src/Quadtree.hpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/Quadtree.hpp b/src/Quadtree.hpp
index a9d2da9..5d0b77d 100644
--- a/src/Quadtree.hpp
+++ b/src/Quadtree.hpp
@@ -136,9 +136,9 @@ public:
 				auto& quadtree = *(Quadtree<T>*) p4est->user_pointer;
 				auto& map = quadtree.map;
 
-				// Get MPI info
+				// Get MPI info; ranks of a forest are those of its communicator
 				int rank;
-				MPI_Comm_rank(MPI_COMM_WORLD, &rank);
+				MPI_Comm_rank(p4est->mpicomm, &rank);
 
 				// Compute unique path
 				std::string path = p4est::p4est_quadrant_path(quadrant);
@@ -146,7 +146,7 @@ public:
 				// Create the node communicator; a node on a single rank needs none of its own (MPI limits how many there can be)
 				MPI::Communicator node_comm = MPI_COMM_SELF;
 				if (pfirst != plast) {
-					MPI::communicatorSubsetRange(MPI_COMM_WORLD, pfirst, plast, 0, &node_comm);
+					MPI::communicatorSubsetRange(p4est->mpicomm, pfirst, plast, 0, &node_comm);
 				}
 
 				// Check if quadrant is owned by this rank
@@ -222,6 +222,7 @@ public:
 			for (typename NodeMap::iterator iter = map.begin(); iter != map.end(); ++iter) {
 				delete iter->second;
 			}
+			MPI::MPIObject::operator=(other);
 			map = other.map;
 			// Set map seconds to nullptr so destructor doesn't delete them
 			for (typename NodeMap::iterator iter = other.map.begin(); iter != other.map.end(); ++iter) {
@@ -432,7 +433,7 @@ public:
 	 * @return int 
 	 */
 	static int p4est_search_visit(p4est_t* p4est, p4est_topidx_t which_tree, p4est_quadrant_t* quadrant, p4est_locidx_t local_num, void* point) {
-		int rank; MPI_Comm_rank(MPI_COMM_WORLD, &rank);
+		int rank; MPI_Comm_rank(p4est->mpicomm, &rank);
 		auto& quadtree = *reinterpret_cast<Quadtree<T>*>(p4est->user_pointer);
 		auto& map = quadtree.map;
 		auto path = p4est::p4est_quadrant_path(quadrant);
@@ -460,7 +461,7 @@ public:
 	 * @return int 
 	 */
 	static int p4est_search_visit_data(p4est_t* p4est, p4est_topidx_t which_tree, p4est_quadrant_t* quadrant, p4est_locidx_t local_num, void* point) {
-		int rank; MPI_Comm_rank(MPI_COMM_WORLD, &rank);
+		int rank; MPI_Comm_rank(p4est->mpicomm, &rank);
 		auto& quadtree = *(Quadtree<T>*) p4est->user_pointer;
 		auto& map = quadtree.map;
 		auto* node = map[p4est::p4est_quadrant_path(quadrant)];
@@ -489,8 +490,8 @@ public:
 	static int p4est_search_merge_split(p4est_t* p4est, p4est_topidx_t which_tree, p4est_quadrant_t* quadrant, p4est_locidx_t local_num, void* point) {
 
 		// Get data from quadtree stored in user_pointer
-		int rank; MPI_Comm_rank(MPI_COMM_WORLD, &rank);
-		int ranks; MPI_Comm_size(MPI_COMM_WORLD, &ranks);
+		int rank; MPI_Comm_rank(p4est->mpicomm, &rank);
+		int ranks; MPI_Comm_size(p4est->mpicomm, &ranks);
 		auto& quadtree = *reinterpret_cast<Quadtree<T>*>(p4est->user_pointer);
 		auto& map = quadtree.map;
 		auto* node = map[p4est::p4est_quadrant_path(quadrant)];
-- 
2.43.0


From 1b22c52e3a361cf80e308207189703a541c813e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:21:49 +0000
Subject: [PATCH 39/44] fix: refine and write meshes on the communicator they
 were created with

---
 src/Mesh.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Mesh.hpp b/src/Mesh.hpp
index 17209bd..3389eff 100644
--- a/src/Mesh.hpp
+++ b/src/Mesh.hpp
@@ -117,7 +117,7 @@ public:
         double ylower = root_grid.yLower();
         double yupper = root_grid.yUpper();
         p4est_connectivity_t* conn = p4est::p4est_connectivity_new_square_domain(xlower, xupper, ylower, yupper);
-        p4est_t* p4est = p4est_new_ext(MPI_COMM_WORLD, conn, 0, min_level, true, 0, NULL, NULL);
+        p4est_t* p4est = p4est_new_ext(this->getComm(), conn, 0, min_level, true, 0, NULL, NULL);
         p4est->user_pointer = this;
 
         refine_fn_ = fn;
@@ -170,7 +170,7 @@ public:
         p4est_partition(p4est, 0, NULL);
 
         // Create quadtree
-        quadtree = Quadtree<PatchType>{MPI_COMM_WORLD, p4est, root_patch, node_factory};
+        quadtree = Quadtree<PatchType>{this->getComm(), p4est, root_patch, node_factory};
         // quadtree.communicationPolicy = NodeCommunicationPolicy::STRIPE;
 
         // Create mesh
@@ -408,7 +408,7 @@ public:
             snprintf(buffer, 32, "%04i", number);
             meshFilename += "-" + std::string(buffer);
         }
-        PUnstructuredGridVTK pvtu{};
+        PUnstructuredGridVTK pvtu{this->getComm()};
         pvtu.buildMesh(*this);
         for (auto& meshFunction : mesh_functions) {
             pvtu.addCellData(*meshFunction);
-- 
2.43.0


From 6f6ab02d286c2c2c5ebf420a1ba19bc225ffa7c3 Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Thu, 19 Nov 2026 15:23:30 +0000
Subject: [PATCH 40/44] fix: release the index sets of a leaf solve

Every solve left two index sets of the size of the patch behind.
---
 src/Patches/FiniteVolume/FiniteVolumeSolver.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Patches/FiniteVolume/FiniteVolumeSolver.cpp b/src/Patches/FiniteVolume/FiniteVolumeSolver.cpp
index e37d885..49bca46 100644
--- a/src/Patches/FiniteVolume/FiniteVolumeSolver.cpp
+++ b/src/Patches/FiniteVolume/FiniteVolumeSolver.cpp
@@ -217,6 +217,8 @@ Vector<double> FiniteVolumeSolver::solve(FiniteVolumeGrid& grid, Vector<double>&
         MatDestroy(&A);
         VecDestroy(&x);
         VecDestroy(&f);
+        ISDestroy(&row_perm);
+        ISDestroy(&col_perm);
         // KSPDestroy(&ksp);
 
         return x_vector;
-- 
2.43.0


From 87cac5d0dd06e117978c1a117f81975d167b42a6 Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Thu, 19 Nov 2026 15:23:55 +0000
Subject: [PATCH 41/44] fix: delete the copies of remote children after a merge
 or split

Every merge or split on several processes left a copy of each remote child, with its operators, behind.
---
 src/Quadtree.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/Quadtree.hpp b/src/Quadtree.hpp
index 5d0b77d..752e5e9 100644
--- a/src/Quadtree.hpp
+++ b/src/Quadtree.hpp
@@ -513,6 +513,7 @@ public:
 		else {
 			// Quadrant is a branch; call branch callback
 			std::vector<Node<T>*> children{4};
+			std::vector<Node<T>*> copies{};
 			if (node->pfirst == node->plast) {
 				// Node is owned by single rank
 				for (int i = 0; i < 4; i++) {
@@ -537,6 +538,7 @@ public:
 						if (child == nullptr) {
 							// child = quadtree.node_factory->createChildNode(node, i, node->pfirst, node->plast);
 							child = new Node<T>(node->getComm());
+							copies.push_back(child);
 						}
 
 						// Broadcast node
@@ -557,6 +559,11 @@ public:
 				cont = quadtree.visit_family_fn(node, children);
 			}
 
+			// Delete the copies of children that live on other ranks
+			for (auto* copy : copies) {
+				delete copy;
+			}
+
 		}
 		return cont;
 
-- 
2.43.0


From 17c774307a7e8dda76b3d5ae1236e8f8d78f7357 Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Thu, 19 Nov 2026 15:23:30 +0000
Subject: [PATCH 42/44] fix: delete the data arrays of an output after it is
 written

Every output left the text of all its arrays behind.
---
 src/VTK.cpp | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/VTK.cpp b/src/VTK.cpp
index 5369557..ebc5016 100644
--- a/src/VTK.cpp
+++ b/src/VTK.cpp
@@ -24,6 +24,15 @@ XMLNode* DataArrayNodeBase::toPVTK() {
     return node_data_array;
 }
 
+/**
+ * @brief Deletes the children of a node that were created by toVTK() or toPVTK()
+ * 
+ */
+static void deleteDataArrays(XMLNode& node) {
+    for (auto* child : node.children) delete child;
+    node.children.clear();
+}
+
 EmptyDataArrayNode::EmptyDataArrayNode() {}
 std::string EmptyDataArrayNode::getType() { return "Float32"; }
 std::string EmptyDataArrayNode::getName() { return "Empty"; }
@@ -116,6 +125,10 @@ void RectilinearGridVTK::toVTK(std::string filename) {
         XMLTree tree(root);
         tree.write(filename);
 
+        deleteDataArrays(node_cell_data);
+        deleteDataArrays(node_point_data);
+        deleteDataArrays(node_coordinates);
+
     }
     else {
         throw std::invalid_argument("[RectilinearGridVTK::toVTK] mesh and data not complete.");
@@ -205,6 +218,11 @@ void UnstructuredGridVTK::toVTK(std::string filename) {
 
         XMLTree tree(root);
         tree.write(filename);
+
+        deleteDataArrays(node_points);
+        deleteDataArrays(node_cells);
+        deleteDataArrays(node_cell_data);
+        deleteDataArrays(node_point_data);
         
     }
     else {
@@ -301,6 +319,10 @@ void PUnstructuredGridVTK::toVTK(std::string filenameBase) {
         XMLTree tree(root);
         tree.write(filenameBase + ".pvtu");
 
+        deleteDataArrays(node_p_points);
+        deleteDataArrays(node_p_pointData);
+        deleteDataArrays(node_p_cell_data);
+
     }
 
 }
-- 
2.43.0


From b22476e9bea14b6b11d1934b0ad353d5047d571c Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Thu, 19 Nov 2026 15:24:14 +0000
Subject: [PATCH 43/44] fix: release the mesh functions created from formulas
 when they are cleared

Adding a function by its formula and clearing it left its values behind.
---
 src/Mesh.hpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/Mesh.hpp b/src/Mesh.hpp
index 3389eff..4955054 100644
--- a/src/Mesh.hpp
+++ b/src/Mesh.hpp
@@ -6,6 +6,8 @@
 #include "MPI.hpp"
 #include "VTK.hpp"
 
+#include <memory>
+
 namespace EllipticForest {
 
 template<typename PatchType>
@@ -375,7 +377,8 @@ public:
             ncells += grid.nx() * grid.ny();
         });
 
-        Vector<double>* meshFunctionVector = new Vector<double>(ncells);
+        owned_mesh_functions_.push_back(std::make_shared<Vector<double>>(ncells));
+        Vector<double>* meshFunctionVector = owned_mesh_functions_.back().get();
         meshFunctionVector->name() = meshFunctionName;
         int i = 0;
         iterateCells([&](double xc, double yc){
@@ -392,6 +395,7 @@ public:
      */
     void clearMeshFunctions() {
         mesh_functions.clear();
+        owned_mesh_functions_.clear();
     }
 
     /**
@@ -430,6 +434,12 @@ public:
 
 private:
 
+    /**
+     * @brief Mesh functions created from a formula
+     * 
+     */
+    std::vector<std::shared_ptr<Vector<double>>> owned_mesh_functions_{};
+
     // Variables to pass to p4est_refine via this pointer
     /**
      * @brief The refine function
-- 
2.43.0


From f724b91ba2af64e42f934bac4ddc2871b15110e0 Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Thu, 19 Nov 2026 15:25:58 +0000
Subject: [PATCH 44/44] fix: release the forest that refining again replaces

Refining a mesh again discarded its tree but left the forest made for it behind.
---
 src/Mesh.hpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/Mesh.hpp b/src/Mesh.hpp
index 4955054..2ebe331 100644
--- a/src/Mesh.hpp
+++ b/src/Mesh.hpp
@@ -173,6 +173,14 @@ public:
 
         // Create quadtree
         quadtree = Quadtree<PatchType>{this->getComm(), p4est, root_patch, node_factory};
+
+        // Release the forest of the mesh that is replaced, if it was created here
+        if (refined_p4est_ != nullptr) {
+            p4est_connectivity_t* refined_conn = refined_p4est_->connectivity;
+            p4est_destroy(refined_p4est_);
+            p4est_connectivity_destroy(refined_conn);
+        }
+        refined_p4est_ = p4est;
         // quadtree.communicationPolicy = NodeCommunicationPolicy::STRIPE;
 
         // Create mesh
@@ -434,6 +442,12 @@ public:
 
 private:
 
+    /**
+     * @brief Forest created by the last refinement
+     * 
+     */
+    p4est_t* refined_p4est_ = nullptr;
+
     /**
      * @brief Mesh functions created from a formula
      * 
-- 
2.43.0

