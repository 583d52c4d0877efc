From af7cc4546364955cb32f6f71ff2616e4fbc7390b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:59:22 +0000
Subject: [PATCH 01/30] fix: Matrix::operator*= multiplies by the scalar
 instead of adding it

---
 src/Matrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Matrix.hpp b/src/Matrix.hpp
index 6906d8a..89d1d9a 100644
--- a/src/Matrix.hpp
+++ b/src/Matrix.hpp
@@ -693,7 +693,7 @@ public:
     Matrix<NumericalType>& operator*=(NumericalType rhs) {
         for (auto i = 0; i < nrows_; i++) {
             for (auto j = 0; j < ncols_; j++) {
-                operator()(i, j) += rhs;
+                operator()(i, j) *= rhs;
             }
         }
         return *this;
-- 
2.43.0


From 1e9f2b236d014b29130d87329d6349083122a35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:59:22 +0000
Subject: [PATCH 02/30] fix: Matrix::getCol copies nrows entries, not ncols

---
 src/Matrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Matrix.hpp b/src/Matrix.hpp
index 89d1d9a..af9816a 100644
--- a/src/Matrix.hpp
+++ b/src/Matrix.hpp
@@ -300,7 +300,7 @@ public:
     Vector<NumericalType> getCol(std::size_t col_index) {
         Vector<NumericalType> res(nrows_);
         Matrix<NumericalType> colMatrix = operator()(0, nrows_ - 1, col_index, col_index);
-        for (auto i = 0; i < ncols_; i++) {
+        for (auto i = 0; i < nrows_; i++) {
             res[i] = colMatrix(i, 0);
         }
         return res;
-- 
2.43.0


From 822e895a6e3ab21a343af0c36ab5aa15e8011297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:59:22 +0000
Subject: [PATCH 03/30] fix: Vector range access returns the entries a..b
 instead of the indices

---
 src/Vector.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Vector.hpp b/src/Vector.hpp
index 4e72305..5b22a55 100644
--- a/src/Vector.hpp
+++ b/src/Vector.hpp
@@ -259,7 +259,7 @@ public:
      * @return Vector<NumericalType> Vector of size `(b - a) + 1` with entries
      */
     Vector<NumericalType> getRange(std::size_t a, std::size_t b) {
-        if (a > size_ || b > size_ || a < 0 || b < 0) {
+        if (a >= size_ || b >= size_ || a < 0 || b < 0) {
             std::string errorMessage = "[EllipticForest::Vector::getRange] `a` or `b` is outside of range of vector:\n";
             errorMessage += "\ta = " + std::to_string(a) + "\n";
             errorMessage += "\tb = " + std::to_string(b) + "\n";
@@ -270,7 +270,7 @@ public:
 
         Vector<NumericalType> v((b - a) + 1);
         for (auto i = 0; i < v.size(); i++) {
-            v(i) = a + i;
+            v(i) = data_[a + i];
         }
         return v;
     }
@@ -285,7 +285,7 @@ public:
      * @return Vector<NumericalType> Vector of size `(b - a) + 1` with entries
      */
     Vector<NumericalType> operator()(std::size_t a, std::size_t b) {
-        if (a > size_ || b > size_ || a < 0 || b < 0) {
+        if (a >= size_ || b >= size_ || a < 0 || b < 0) {
             std::string errorMessage = "[EllipticForest::Vector::operator()] `a` or `b` is outside of range of vector:\n";
             errorMessage += "\ta = " + std::to_string(a) + "\n";
             errorMessage += "\tb = " + std::to_string(b) + "\n";
@@ -296,7 +296,7 @@ public:
 
         Vector<NumericalType> v((b - a) + 1);
         for (auto i = 0; i < v.size(); i++) {
-            v(i) = a + i;
+            v(i) = data_[a + i];
         }
         return v;
     }
-- 
2.43.0


From c8de8596d54ebd2b91c635569b7773e32776d561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:59:22 +0000
Subject: [PATCH 04/30] fix: reject an index equal to the size in Matrix and
 Vector accessors

---
 src/Matrix.hpp | 16 ++++++++++------
 src/Vector.hpp | 12 ++++++------
 2 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/Matrix.hpp b/src/Matrix.hpp
index af9816a..848328b 100644
--- a/src/Matrix.hpp
+++ b/src/Matrix.hpp
@@ -332,17 +332,21 @@ public:
         Matrix<NumericalType> res(I.size(), J.size());
         for (auto i = 0; i < I.size(); i++) {
             for (auto j = 0; j < J.size(); j++) {
-                if (I[i] > nrows_ || I[i] < 0) {
+                if (I[i] >= nrows_ || I[i] < 0) {
                     std::string error_msg = "[EllipticForest::Matrix::getFromIndexSet] Index in `I` is out of range:\n";
                     error_msg += "\ti = " + std::to_string(i) + "\n";
                     error_msg += "\tI[i] = " + std::to_string(I[i]) + "\n";
                     error_msg += "\tnrows = " + std::to_string(nrows_) + "\n";
+                    std::cerr << error_msg << std::endl;
+                    throw std::out_of_range(error_msg);
                 }
-                if (J[j] > ncols_ || J[j] < 0) {
+                if (J[j] >= ncols_ || J[j] < 0) {
                     std::string error_msg = "[EllipticForest::Matrix::getFromIndexSet] Index in `J` is out of range:\n";
                     error_msg += "\tj = " + std::to_string(j) + "\n";
                     error_msg += "\tJ[j] = " + std::to_string(J[j]) + "\n";
                     error_msg += "\tncols = " + std::to_string(ncols_) + "\n";
+                    std::cerr << error_msg << std::endl;
+                    throw std::out_of_range(error_msg);
                 }
                 res(i,j) = operator()(I[i], J[j]);
             }
@@ -369,7 +373,7 @@ public:
      * @param vec Vector to set
      */
     void setRow(std::size_t row_index, Vector<NumericalType>& vec) {
-        if (row_index > nrows_) {
+        if (row_index >= nrows_) {
             std::string error_msg = "[EllipticForest::Matrix::setRow] `row_index` exceeds matrix size:\n";
             error_msg += "\trowIndex = " + std::to_string(row_index) + "\n";
             error_msg += "\tnrows = " + std::to_string(nrows_) + "\n";
@@ -397,7 +401,7 @@ public:
      * @param vec Vector to set
      */
     void setColumn(std::size_t col_index, Vector<NumericalType>& vec) {
-        if (col_index > ncols_) {
+        if (col_index >= ncols_) {
             std::string error_msg = "[EllipticForest::Matrix::setColumn] `col_index` exceeds matrix size:\n";
             error_msg += "\tcolIndex = " + std::to_string(col_index) + "\n";
             error_msg += "\tncols = " + std::to_string(ncols_) + "\n";
@@ -709,14 +713,14 @@ private:
      * @return std::size_t 
      */
     std::size_t flattenIndex_(std::size_t i, std::size_t j) {
-        if (i < 0 || i > nrows_) {
+        if (i < 0 || i >= nrows_) {
             std::string error_msg = "[EllipticForest::Matrix::flattenIndex] Index `i` is outside of range:\n";
             error_msg += "\ti = " + std::to_string(i) + "\n";
             error_msg += "\tnrows = " + std::to_string(nrows_) + "\n";
             std::cerr << error_msg << std::endl;
             throw std::out_of_range(error_msg);
         }
-        if (j < 0 || j > ncols_) {
+        if (j < 0 || j >= ncols_) {
             std::string error_msg = "[EllipticForest::Matrix::flattenIndex] Index `j` is outside of range:\n";
             error_msg += "\tj = " + std::to_string(j) + "\n";
             error_msg += "\tncols = " + std::to_string(ncols_) + "\n";
diff --git a/src/Vector.hpp b/src/Vector.hpp
index 5b22a55..4c3c9e3 100644
--- a/src/Vector.hpp
+++ b/src/Vector.hpp
@@ -144,7 +144,7 @@ public:
      * @return NumericalType Value of entry
      */
     NumericalType getEntry(std::size_t index) {
-        if (index > size_ || index < 0) {
+        if (index >= size_ || index < 0) {
             std::string errorMessage = "[EllipticForest::Vector::getEntry] `index` is out of range:\n";
             errorMessage += "\tindex = " + std::to_string(index) + "\n";
             errorMessage += "\tsize = " + std::to_string(size_) + "\n";
@@ -164,7 +164,7 @@ public:
      * @return NumericalType& Reference to value in vector
      */
     NumericalType& operator[](std::size_t index) {
-        if (index > size_ || index < 0) {
+        if (index >= size_ || index < 0) {
             std::string errorMessage = "[EllipticForest::Vector::operator[]] `index` is out of range:\n";
             errorMessage += "\tindex = " + std::to_string(index) + "\n";
             errorMessage += "\tsize = " + std::to_string(size_) + "\n";
@@ -184,7 +184,7 @@ public:
      * @return NumericalType& Reference to value in vector
      */
     const NumericalType& operator[](std::size_t index) const {
-        if (index > size_ || index < 0) {
+        if (index >= size_ || index < 0) {
             std::string errorMessage = "[EllipticForest::Vector::operator[]] `index` is out of range:\n";
             errorMessage += "\tindex = " + std::to_string(index) + "\n";
             errorMessage += "\tsize = " + std::to_string(size_) + "\n";
@@ -204,7 +204,7 @@ public:
      * @return NumericalType& Reference to value in vector
      */
     NumericalType& operator()(std::size_t index) {
-        if (index > size_ || index < 0) {
+        if (index >= size_ || index < 0) {
             std::string errorMessage = "[EllipticForest::Vector::operator()] `index` is out of range:\n";
             errorMessage += "\tindex = " + std::to_string(index) + "\n";
             errorMessage += "\tsize = " + std::to_string(size_) + "\n";
@@ -377,7 +377,7 @@ public:
 
         Vector<NumericalType> res(I.size());
         for (auto i = 0; i < I.size(); i++) {
-            if (I[i] > size_ || I[i] < 0) {
+            if (I[i] >= size_ || I[i] < 0) {
                 std::string errorMessage = "[EllipticForest::Vector::operator()] Index in `I` is out of range:\n";
                 errorMessage += "\ti = " + std::to_string(i) + "\n";
                 errorMessage += "\tI[i] = " + std::to_string(I[i]) + "\n";
@@ -409,7 +409,7 @@ public:
 
         Vector<NumericalType> res(I.size());
         for (auto i = 0; i < I.size(); i++) {
-            if (I[i] > size_ || I[i] < 0) {
+            if (I[i] >= size_ || I[i] < 0) {
                 std::string errorMessage = "[EllipticForest::Vector::operator()] Index in `I` is out of range:\n";
                 errorMessage += "\ti = " + std::to_string(i) + "\n";
                 errorMessage += "\tI[i] = " + std::to_string(I[i]) + "\n";
-- 
2.43.0


From decc17e6361bb5a8e7cc5e3fb3af7ba3fa27280b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:00:08 +0000
Subject: [PATCH 05/30] fix: segment and block bounds checks no longer wrap
 around for huge start indices

---
 src/Matrix.hpp | 8 ++++----
 src/Vector.hpp | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/Matrix.hpp b/src/Matrix.hpp
index 848328b..5fecc2c 100644
--- a/src/Matrix.hpp
+++ b/src/Matrix.hpp
@@ -485,7 +485,7 @@ public:
      * @return Matrix<NumericalType> 
      */
     Matrix<NumericalType> getBlock(std::size_t row_index, std::size_t col_index, std::size_t row_length, std::size_t col_length) {
-        if (row_index + row_length > nrows_) {
+        if (row_index > nrows_ || row_length > nrows_ - row_index) {
             std::string error_msg = "[EllipticForest::Matrix::getBlock] Row size exceeds matrix size:\n";
             error_msg += "\trowIndex = " + std::to_string(row_index) + "\n";
             error_msg += "\trowLength = " + std::to_string(row_length) + "\n";
@@ -493,7 +493,7 @@ public:
             std::cerr << error_msg << std::endl;
             throw std::out_of_range(error_msg);
         }
-        if (col_index + col_length > ncols_) {
+        if (col_index > ncols_ || col_length > ncols_ - col_index) {
             std::string error_msg = "[EllipticForest::Matrix::getBlock] Column size exceeds matrix size:\n";
             error_msg += "\tcolIndex = " + std::to_string(col_index) + "\n";
             error_msg += "\tcolLength = " + std::to_string(col_length) + "\n";
@@ -521,7 +521,7 @@ public:
      * @param mat Sub-matrix to set
      */
     void setBlock(std::size_t row_index, std::size_t col_index, Matrix<NumericalType>& mat) {
-        if (row_index + mat.nrows() > nrows_) {
+        if (row_index > nrows_ || mat.nrows() > nrows_ - row_index) {
             std::string error_msg = "[EllipticForest::Matrix::setBlock] Row size exceeds matrix size:\n";
             error_msg += "\trowIndex = " + std::to_string(row_index) + "\n";
             error_msg += "\tmat.nrows() = " + std::to_string(mat.nrows()) + "\n";
@@ -529,7 +529,7 @@ public:
             std::cerr << error_msg << std::endl;
             throw std::out_of_range(error_msg);
         }
-        if (col_index + mat.ncols() > ncols_) {
+        if (col_index > ncols_ || mat.ncols() > ncols_ - col_index) {
             std::string error_msg = "[EllipticForest::Matrix::setBlock] Column size exceeds matrix size:\n";
             error_msg += "\tcolIndex = " + std::to_string(col_index) + "\n";
             error_msg += "\tmat.ncols() = " + std::to_string(mat.ncols()) + "\n";
diff --git a/src/Vector.hpp b/src/Vector.hpp
index 4c3c9e3..e884f57 100644
--- a/src/Vector.hpp
+++ b/src/Vector.hpp
@@ -309,7 +309,7 @@ public:
      * @return Vector<NumericalType> 
      */
     Vector<NumericalType> getSegment(std::size_t startIndex, std::size_t length) {
-        if (startIndex + length > size_) {
+        if (startIndex > size_ || length > size_ - startIndex) {
             std::string errorMessage = "[EllipticForest::Vector::getSegment] Index mismatch. `startIndex` + `length` is greater than size of vector:\n";
             errorMessage += "\tstartIndex = " + std::to_string(startIndex) + "\n";
             errorMessage += "\tlength = " + std::to_string(length) + "\n";
@@ -334,7 +334,7 @@ public:
      * @param vec Vector of data to set into this vector
      */
     void setSegment(std::size_t startIndex, const Vector<NumericalType>& vec) {
-        if (startIndex + vec.size() > size_) {
+        if (startIndex > size_ || vec.size() > size_ - startIndex) {
             std::string errorMessage = "[EllipticForest::Vector::setSegment] Index mismatch. `startIndex` + `vec.size()` is greater than size of host vector:\n";
             errorMessage += "\tstartIndex = " + std::to_string(startIndex) + "\n";
             errorMessage += "\tvec.size() = " + std::to_string(vec.size()) + "\n";
-- 
2.43.0


From b2bb63d3683933d32622fb05c0ee3e2054b9d691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:48:36 +0000
Subject: [PATCH 06/30] fix: keep option texts that are not numbers and parse
 signed and exponent numbers

Options::checkValue dropped every setting that was not a boolean or a number,
threw for an empty setting and for texts with a dot that are not numbers, and
lost negative integers and numbers written with an exponent.
---
 src/Options.cpp | 42 ++++++++++++++++++++++++++++++++++--------
 1 file changed, 34 insertions(+), 8 deletions(-)

diff --git a/src/Options.cpp b/src/Options.cpp
index c15d3cb..769670c 100644
--- a/src/Options.cpp
+++ b/src/Options.cpp
@@ -1,5 +1,8 @@
 #include "Options.hpp"
 
+#include <cctype>
+#include <stdexcept>
+
 namespace EllipticForest {
 
 Options::Options()
@@ -94,22 +97,45 @@ Options::OptionTypes Options::checkValue(std::string value) {
     else if (value == "false") {
         return (bool) false;
     }
-    else if (isDouble(value)) {
-        return (double) std::stod(value);
+    try {
+        if (isInt(value)) {
+            return (int) std::stoi(value);
+        }
+        else if (isDouble(value)) {
+            return (double) std::stod(value);
+        }
     }
-    else if (isInt(value)) {
-        return (int) std::stoi(value);
+    catch (const std::out_of_range&) {
+        // Not representable as a number; keep the text
     }
-    return {};
+    return value;
 }
 
 bool Options::isDouble(std::string& str) {
-    return str.find('.') != std::string::npos;
+    // [sign] digits with an optional decimal point [exponent]
+    size_t i = 0, digits = 0;
+    if (i < str.length() && (str[i] == '+' || str[i] == '-')) i++;
+    for (; i < str.length() && std::isdigit((unsigned char) str[i]); i++) digits++;
+    if (i < str.length() && str[i] == '.') {
+        for (i++; i < str.length() && std::isdigit((unsigned char) str[i]); i++) digits++;
+    }
+    if (digits == 0) return false;
+    if (i < str.length() && (str[i] == 'e' || str[i] == 'E')) {
+        i++;
+        if (i < str.length() && (str[i] == '+' || str[i] == '-')) i++;
+        if (i == str.length()) return false;
+        for (; i < str.length() && std::isdigit((unsigned char) str[i]); i++) {}
+    }
+    return i == str.length();
 }
 
 bool Options::isInt(std::string& str) {
-    for (auto c : str) {
-        if (!std::isdigit(c)) return false;
+    // [sign] digits
+    size_t i = 0;
+    if (i < str.length() && (str[i] == '+' || str[i] == '-')) i++;
+    if (i == str.length()) return false;
+    for (; i < str.length(); i++) {
+        if (!std::isdigit((unsigned char) str[i])) return false;
     }
     return true;
 }
-- 
2.43.0


From e9e4c010b12d119b08d71871f2778d5afcb298ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:56:24 +0000
Subject: [PATCH 07/30] fix: value range of an empty data array is written as
 zero instead of dereferencing end()

---
 src/Vector.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Vector.hpp b/src/Vector.hpp
index e884f57..8f54f99 100644
--- a/src/Vector.hpp
+++ b/src/Vector.hpp
@@ -727,6 +727,7 @@ public:
      * @return std::string 
      */
     virtual std::string getRangeMin() {
+        if (data_.empty()) return std::to_string(NumericalType{});
         NumericalType min = *std::min_element(data_.begin(), data_.end());
         return std::to_string(min);
     }
@@ -737,6 +738,7 @@ public:
      * @return std::string 
      */
     virtual std::string getRangeMax() {
+        if (data_.empty()) return std::to_string(NumericalType{});
         NumericalType max = *std::max_element(data_.begin(), data_.end());
         return std::to_string(max);
     }
-- 
2.43.0


From 2c80abc57446b74cd21c53d351b9142cc7fc0700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:56:24 +0000
Subject: [PATCH 08/30] fix: writing a VTK file twice no longer follows
 pointers to the first write's nodes

---
 src/VTK.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/VTK.cpp b/src/VTK.cpp
index dfc2561..aa6e6ec 100644
--- a/src/VTK.cpp
+++ b/src/VTK.cpp
@@ -101,6 +101,7 @@ void RectilinearGridVTK::toVTK(std::string filename) {
 
         XMLNode node_coordinates("Coordinates");
         
+        root_.children.clear(); // nodes of an earlier write no longer exist
         root_.addChild(node_rectilinear_grid);
         node_rectilinear_grid.addChild(node_piece);
         if (!cell_data_vector_.empty()) node_piece.addChild(node_cell_data);
@@ -184,6 +185,7 @@ void UnstructuredGridVTK::toVTK(std::string filename) {
             node_point_data.addAttribute("Scalars", names);
         }
 
+        root_.children.clear(); // nodes of an earlier write no longer exist
         root_.addChild(node_unstructured_grid);
             node_unstructured_grid.addChild(node_piece);
                 node_piece.addChild(node_points);
@@ -283,6 +285,7 @@ void PUnstructuredGridVTK::toVTK(std::string filenameBase) {
         }
 
         // Build structure
+        root_.children.clear(); // nodes of an earlier write no longer exist
         root_.addChild(node_p_unstructured_grid);
             node_p_unstructured_grid.addChild(node_p_points);
                 node_p_points.addChild(mesh.getPoints().toPVTK());
-- 
2.43.0


From bbbea3187bde53f4065224e457fc9e1b37077645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:56:57 +0000
Subject: [PATCH 09/30] fix: solveStage with a boundary function works for
 homogeneous problems

---
 src/HPSAlgorithm.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/HPSAlgorithm.hpp b/src/HPSAlgorithm.hpp
index c5456a7..59f4c61 100644
--- a/src/HPSAlgorithm.hpp
+++ b/src/HPSAlgorithm.hpp
@@ -410,8 +410,12 @@ public:
 
             Matrix<NumericalType> A = DiagonalMatrix<NumericalType>(a);
             Matrix<NumericalType> B = DiagonalMatrix<NumericalType>(b);
-            Vector<NumericalType> bh = B * h;
-            Vector<NumericalType> rhs = r - bh;
+            Vector<NumericalType> rhs = r;
+            if (!std::get<bool>(app.options["homogeneous-rhs"])) {
+                // Homogeneous problems have no particular Neumann data at the root
+                Vector<NumericalType> bh = B * h;
+                rhs = r - bh;
+            }
 
             B = B * T;
             A = A + B;
-- 
2.43.0


From cc9bc6f03331614f60c42a36ddd9db374fc8b31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:59:59 +0000
Subject: [PATCH 10/30] fix: building again on an adaptive mesh forgets the
 coarsenings of the earlier build

---
 src/HPSAlgorithm.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/HPSAlgorithm.hpp b/src/HPSAlgorithm.hpp
index 59f4c61..368ecca 100644
--- a/src/HPSAlgorithm.hpp
+++ b/src/HPSAlgorithm.hpp
@@ -1009,6 +1009,7 @@ private:
 
         PatchGridType merged_grid(MPI_COMM_SELF, alpha.size() + beta.size(), alpha.grid().xLower(), beta.grid().xUpper(), alpha.size() + gamma.size(), alpha.grid().yLower(), gamma.grid().yUpper());
         tau.grid() = merged_grid;
+        tau.n_coarsens = 0; // operators of tau are new, forget coarsenings of an earlier build
 
     }
 
-- 
2.43.0


From 205d544f1dfad8fde991f3a22116bd9d74555ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:08:20 +0000
Subject: [PATCH 11/30] fix: cached leaf operators are shared by leaves of one
 level only

---
 src/HPSAlgorithm.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/HPSAlgorithm.hpp b/src/HPSAlgorithm.hpp
index 368ecca..6464c31 100644
--- a/src/HPSAlgorithm.hpp
+++ b/src/HPSAlgorithm.hpp
@@ -132,10 +132,12 @@ public:
                 PatchType& patch = leaf_node->data;
                 // patch.isLeaf = true;
                 if (std::get<bool>(app.options["cache-operators"])) {
-                    if (!matrixCache.contains("T_leaf")) {
-                        matrixCache["T_leaf"] = patch_solver.buildD2N(patch.grid());
+                    // Leaf patches of one level have the same size and share an operator
+                    std::string key = "T_leaf_" + std::to_string(leaf_node->level);
+                    if (!matrixCache.contains(key)) {
+                        matrixCache[key] = patch_solver.buildD2N(patch.grid());
                     }
-                    patch.matrixT() = matrixCache["T_leaf"];
+                    patch.matrixT() = matrixCache[key];
                 }
                 else {
                     patch.matrixT() = patch_solver.buildD2N(patch.grid());
-- 
2.43.0


From 7044acfc8aa9ab38fae960ee19e07baedef7a3e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:04:59 +0000
Subject: [PATCH 12/30] fix: the null communicator of ranks outside a subset
 range is not named

---
 src/MPI.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/MPI.cpp b/src/MPI.cpp
index 6998e60..6c88a87 100644
--- a/src/MPI.cpp
+++ b/src/MPI.cpp
@@ -23,13 +23,15 @@ void communicatorSubsetRange(Communicator super_comm, int r_first, int r_last, i
     // int color = (r_first <= rank && rank <= r_last ? 0 : MPI_UNDEFINED);
     // MPI_Comm_split(super_comm, color, rank, sub_comm);
 
-    // Set name of comm
-    int super_comm_name_size = 0;
-    char super_comm_name_buffer[255];
-    MPI_Comm_get_name(super_comm, super_comm_name_buffer, &super_comm_name_size);
-    std::string super_comm_name(super_comm_name_buffer, super_comm_name_size);
-    std::string sub_comm_name = super_comm_name + "_sub_range={" + std::to_string(r_first) + ":" + std::to_string(r_last) + "}";
-    MPI_Comm_set_name(*sub_comm, sub_comm_name.c_str());
+    // Set name of comm (ranks outside of the range get the null communicator, which has no name)
+    if (*sub_comm != MPI_COMM_NULL) {
+        int super_comm_name_size = 0;
+        char super_comm_name_buffer[255];
+        MPI_Comm_get_name(super_comm, super_comm_name_buffer, &super_comm_name_size);
+        std::string super_comm_name(super_comm_name_buffer, super_comm_name_size);
+        std::string sub_comm_name = super_comm_name + "_sub_range={" + std::to_string(r_first) + ":" + std::to_string(r_last) + "}";
+        MPI_Comm_set_name(*sub_comm, sub_comm_name.c_str());
+    }
 
     // Free groups
     MPI_Group_free(&super_group);
-- 
2.43.0


From 924015cb62f8cc45ce9c8278c3c666ca6233e484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:45:15 +0000
Subject: [PATCH 13/30] fix: quadtree operations keep their own and the
 caller's p4est user pointer

---
 src/Quadtree.hpp | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/Quadtree.hpp b/src/Quadtree.hpp
index 9b46b6c..df00f1c 100644
--- a/src/Quadtree.hpp
+++ b/src/Quadtree.hpp
@@ -235,9 +235,10 @@ public:
 	 */
 	void traversePreOrder(std::function<int(Node<T>*)> visit) {
 
-		p4est->user_pointer = (void*) this;
 		visit_node_fn = visit;
 		int skip_levels = 0;
+		void* saved_user_pointer = p4est->user_pointer;
+		p4est->user_pointer = reinterpret_cast<void*>(this);
 		p4est_search_reorder(
 			p4est,
 			skip_levels,
@@ -247,6 +248,7 @@ public:
 			NULL,
 			NULL
 		);
+		p4est->user_pointer = saved_user_pointer;
 
 	}
 
@@ -259,6 +261,8 @@ public:
 
 		visit_node_data_fn = visit;
 		int skip_levels = 0;
+		void* saved_user_pointer = p4est->user_pointer;
+		p4est->user_pointer = reinterpret_cast<void*>(this);
 		p4est_search_reorder(
 			p4est,
 			skip_levels,
@@ -268,6 +272,7 @@ public:
 			NULL,
 			NULL
 		);
+		p4est->user_pointer = saved_user_pointer;
 
 	}
 
@@ -280,6 +285,8 @@ public:
 
 		visit_node_fn = visit;
 		int skip_levels = 0;
+		void* saved_user_pointer = p4est->user_pointer;
+		p4est->user_pointer = reinterpret_cast<void*>(this);
 		p4est_search_reorder(
 			p4est,
 			skip_levels,
@@ -289,6 +296,7 @@ public:
 			NULL,
 			NULL
 		);
+		p4est->user_pointer = saved_user_pointer;
 
 	}
 
@@ -301,6 +309,8 @@ public:
 
 		visit_node_data_fn = visit;
 		int skip_levels = 0;
+		void* saved_user_pointer = p4est->user_pointer;
+		p4est->user_pointer = reinterpret_cast<void*>(this);
 		p4est_search_reorder(
 			p4est,
 			skip_levels,
@@ -310,6 +320,7 @@ public:
 			NULL,
 			NULL
 		);
+		p4est->user_pointer = saved_user_pointer;
 
 	}
 
@@ -324,6 +335,8 @@ public:
 		visit_node_fn = visit_leaf;
 		visit_family_fn = visit_family;
 		int skip_levels = 0;
+		void* saved_user_pointer = p4est->user_pointer;
+		p4est->user_pointer = reinterpret_cast<void*>(this);
 		p4est_search_reorder(
 			p4est,
 			skip_levels,
@@ -333,6 +346,7 @@ public:
 			NULL,
 			NULL
 		);
+		p4est->user_pointer = saved_user_pointer;
 
 	}
 
@@ -347,6 +361,8 @@ public:
 		visit_node_fn = visit_leaf;
 		visit_family_fn = visit_family;
 		int skip_levels = 0;
+		void* saved_user_pointer = p4est->user_pointer;
+		p4est->user_pointer = reinterpret_cast<void*>(this);
 		p4est_search_reorder(
 			p4est,
 			skip_levels,
@@ -356,6 +372,7 @@ public:
 			NULL,
 			NULL
 		);
+		p4est->user_pointer = saved_user_pointer;
 
 	}
 
-- 
2.43.0


From f047580a83c4e87ec5e83a9169f3a8cbcc3b6a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:45:15 +0000
Subject: [PATCH 14/30] fix: a mesh built from a quadtree starts empty and has
 one offset and one type per cell

---
 src/Mesh.hpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/Mesh.hpp b/src/Mesh.hpp
index 7ab02b8..e4587c5 100644
--- a/src/Mesh.hpp
+++ b/src/Mesh.hpp
@@ -194,6 +194,14 @@ public:
         types.name() = "types";
         types.setType("Int64");
 
+        // Forget the cells of an earlier build
+        npoints = 0;
+        ncells = 0;
+        points = Vector<double>{};
+        connectivity = Vector<int>{};
+        offsets = Vector<int>{};
+        types = Vector<int>{};
+
         int index = 0;
 
         quadtree.traversePreOrder([&](Node<PatchType>* node){
@@ -241,13 +249,10 @@ public:
                             index + 3
                         };
                         Vector<int> cellOffsets = {
-                            (index + 1) * 4,
-                            (index + 2) * 4,
-                            (index + 3) * 4,
-                            (index + 4) * 4
+                            index + 4
                         };
                         Vector<int> cellTypes = {
-                            9, 9, 9, 9
+                            9
                         };
                         
                         index += 4;
-- 
2.43.0


From 20f1805c59c34ec36870fb95126ae86eda9bfee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:45:15 +0000
Subject: [PATCH 15/30] fix: parallel VTK pieces are named literally and
 relative to the index file

---
 src/VTK.cpp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/VTK.cpp b/src/VTK.cpp
index aa6e6ec..2743595 100644
--- a/src/VTK.cpp
+++ b/src/VTK.cpp
@@ -241,10 +241,8 @@ void PUnstructuredGridVTK::toVTK(std::string filenameBase) {
 
     // All ranks write individual file
     char str_buffer[256];
-    std::string filename = filenameBase + "_%04i.vtu";
-    snprintf(str_buffer, 256, filename.c_str(), this->getRank());
-    filename = std::string(str_buffer);
-    vtu.toVTK(filename);
+    snprintf(str_buffer, 256, "_%04i.vtu", this->getRank());
+    vtu.toVTK(filenameBase + std::string(str_buffer));
 
     // Head rank writes metadata file
     if (this->getRank() == MPI::HEAD_RANK) {
@@ -274,13 +272,14 @@ void PUnstructuredGridVTK::toVTK(std::string filenameBase) {
             node_p_cell_data.addAttribute("Scalars", names);
         }
 
+        // Pieces are found relative to the metadata file, so their names go without the directory
+        std::string piece_base = filenameBase.substr(filenameBase.find_last_of('/') + 1);
+
         std::vector<XMLNode> node_piece_vector;
         for (int i = 0; i < this->getSize(); i++) {
-            filename = filenameBase + "_%04i.vtu";
-            snprintf(str_buffer, 256, filename.c_str(), i);
-            filename = std::string(str_buffer);
+            snprintf(str_buffer, 256, "_%04i.vtu", i);
             XMLNode node_piece("Piece");
-            node_piece.addAttribute("Source", filename);
+            node_piece.addAttribute("Source", piece_base + std::string(str_buffer));
             node_piece_vector.push_back(node_piece);
         }
 
-- 
2.43.0


From d00954c33e4a4aa6023d68272f8a5df92fafb846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:45:15 +0000
Subject: [PATCH 16/30] fix: allgatherv passes its displacements and type in
 the order MPI declares

---
 src/MPI.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/MPI.hpp b/src/MPI.hpp
index 28d374b..112bfc7 100644
--- a/src/MPI.hpp
+++ b/src/MPI.hpp
@@ -1,6 +1,7 @@
 #ifndef MPI_HPP_
 #define MPI_HPP_
 
+#include <cassert>
 #include <iostream>
 #include <vector>
 #include <string>
@@ -295,7 +296,7 @@ int allgather(T& send_data, T& recv_data, int recv_count, Communicator comm) {
  */
 template<class T>
 int allgatherv(T& send_data, T& recv_data, std::vector<int> recv_counts, std::vector<int> displacements, Communicator comm) {
-    return MPI_Allgatherv(TypeTraits<T>::getAddress(send_data), TypeTraits<T>::getSize(send_data), TypeTraits<T>::getType(send_data), TypeTraits<T>::getAddress(recv_data), recv_counts.data(), TypeTraits<T>::getType(recv_data), displacements.data(), comm);
+    return MPI_Allgatherv(TypeTraits<T>::getAddress(send_data), TypeTraits<T>::getSize(send_data), TypeTraits<T>::getType(send_data), TypeTraits<T>::getAddress(recv_data), recv_counts.data(), displacements.data(), TypeTraits<T>::getType(recv_data), comm);
 }
 
 /**
-- 
2.43.0


From 254dd6977bfed5b7024b96873b9ab3309ceae1a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:45:15 +0000
Subject: [PATCH 17/30] fix: an empty vector can be communicated without
 touching its first element

---
 src/MPI.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MPI.hpp b/src/MPI.hpp
index 112bfc7..386cf0c 100644
--- a/src/MPI.hpp
+++ b/src/MPI.hpp
@@ -313,7 +313,7 @@ struct TypeTraits<std::vector<T>> {
      * @param vec Reference to std::vector
      * @return Datatype 
      */
-    static inline Datatype getType(std::vector<T>& vec) { return TypeTraits<T>::getType(vec[0]); }
+    static inline Datatype getType(std::vector<T>& vec) { T element{}; return TypeTraits<T>::getType(element); }
 
     /**
      * @brief Returns the size of the std::vector
@@ -329,7 +329,7 @@ struct TypeTraits<std::vector<T>> {
      * @param vec Reference to std::vector
      * @return T* 
      */
-    static inline T* getAddress(std::vector<T>& vec) { return &vec.front(); }
+    static inline T* getAddress(std::vector<T>& vec) { return vec.data(); }
 
 };
 
-- 
2.43.0


From e37c6b1ce3089a41f8a0d5389865de61c7d0f6b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:45:15 +0000
Subject: [PATCH 18/30] fix: broadcasting text longer than the receiver's does
 not read past its end

---
 src/MPI.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MPI.cpp b/src/MPI.cpp
index 6c88a87..afedbd3 100644
--- a/src/MPI.cpp
+++ b/src/MPI.cpp
@@ -70,7 +70,7 @@ int broadcast<std::string>(std::string& str, int root, MPI_Comm comm) {
     int rank; MPI_Comm_rank(comm, &rank);
     int size = str.length();
     broadcast(size, root, comm);
-    if (rank != root) str = std::string(TypeTraits<std::string>::getAddress(str), size);
+    if (rank != root) str.resize(size);
     return MPI_Bcast(TypeTraits<std::string>::getAddress(str), TypeTraits<std::string>::getSize(str), TypeTraits<std::string>::getType(str), root, comm);
 }
 
-- 
2.43.0


From e1632cb3d9e469677476223ad2fa99abb3c24614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:20:28 +0000
Subject: [PATCH 19/30] fix: reject matrix data whose size does not match the
 shape

The constructors from a vector or an initializer list accepted data of any
length: entries past a shorter one were read and written out of bounds.
---
 src/Matrix.hpp | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/Matrix.hpp b/src/Matrix.hpp
index 5fecc2c..b30263d 100644
--- a/src/Matrix.hpp
+++ b/src/Matrix.hpp
@@ -143,8 +143,18 @@ public:
     Matrix(std::size_t nrows, std::size_t ncols, std::vector<NumericalType> data) :
         nrows_(nrows),
         ncols_(ncols),
-        data_(data)
-            {}
+        data_(data) {
+
+        if (data_.size() != nrows_ * ncols_) {
+            std::string error_msg = "[EllipticForest::Matrix::Matrix] Size of data does not match `nrows` x `ncols`:\n";
+            error_msg += "\tdata.size() = " + std::to_string(data_.size()) + "\n";
+            error_msg += "\tnrows = " + std::to_string(nrows_) + "\n";
+            error_msg += "\tncols = " + std::to_string(ncols_) + "\n";
+            std::cerr << error_msg << std::endl;
+            throw std::invalid_argument(error_msg);
+        }
+
+    }
 
     /**
      * @brief Construct a new Matrix object from an initializer list
@@ -156,8 +166,18 @@ public:
     Matrix(std::size_t nrows, std::size_t ncols, std::initializer_list<NumericalType> init_list) :
         nrows_(nrows),
         ncols_(ncols),
-        data_(init_list)
-            {}
+        data_(init_list) {
+
+        if (data_.size() != nrows_ * ncols_) {
+            std::string error_msg = "[EllipticForest::Matrix::Matrix] Size of data does not match `nrows` x `ncols`:\n";
+            error_msg += "\tdata.size() = " + std::to_string(data_.size()) + "\n";
+            error_msg += "\tnrows = " + std::to_string(nrows_) + "\n";
+            error_msg += "\tncols = " + std::to_string(ncols_) + "\n";
+            std::cerr << error_msg << std::endl;
+            throw std::invalid_argument(error_msg);
+        }
+
+    }
 
     /**
      * @brief Construct a new Matrix object from another matrix (copy constructor)
-- 
2.43.0


From 857f19312b27e275f677f9d1080e3005b738b717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:35:07 +0000
Subject: [PATCH 20/30] fix: create the patch solver's index sets on the rank's
 own communicator

ISCreateGeneral on MPI_COMM_WORLD is collective, but ranks own different numbers of patches
---
 src/Patches/FiniteVolume/FiniteVolumeSolver.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Patches/FiniteVolume/FiniteVolumeSolver.cpp b/src/Patches/FiniteVolume/FiniteVolumeSolver.cpp
index 676bd2c..e37d885 100644
--- a/src/Patches/FiniteVolume/FiniteVolumeSolver.cpp
+++ b/src/Patches/FiniteVolume/FiniteVolumeSolver.cpp
@@ -197,8 +197,8 @@ Vector<double> FiniteVolumeSolver::solve(FiniteVolumeGrid& grid, Vector<double>&
         IS row_perm, col_perm;
         Vector<int> idx_row = vectorRange(0, N-1);
         Vector<int> idx_col = vectorRange(0, N-1);
-        ISCreateGeneral(MPI_COMM_WORLD, N, idx_row.data().data(), PETSC_COPY_VALUES, &row_perm);
-        ISCreateGeneral(MPI_COMM_WORLD, N, idx_col.data().data(), PETSC_COPY_VALUES, &col_perm);
+        ISCreateGeneral(MPI_COMM_SELF, N, idx_row.data().data(), PETSC_COPY_VALUES, &row_perm);
+        ISCreateGeneral(MPI_COMM_SELF, N, idx_col.data().data(), PETSC_COPY_VALUES, &col_perm);
         MatFactorInfo mat_factor_info;
         MatFactorInfoInitialize(&mat_factor_info);
 
-- 
2.43.0


From 56ce8870969a656dc1a4092202e0837c75af32f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:02:12 +0000
Subject: [PATCH 21/30] fix: copies of a ParallelVector share the Petsc vector
 instead of destroying it twice

---
 src/Vector.hpp | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/Vector.hpp b/src/Vector.hpp
index 8f54f99..7cc30ba 100644
--- a/src/Vector.hpp
+++ b/src/Vector.hpp
@@ -1023,7 +1023,7 @@ protected:
 
 public:
     
-    Petsc::Vec vec;
+    Petsc::Vec vec = NULL;
 
     ParallelVector() :
         MPIObject(MPI_COMM_WORLD)
@@ -1104,6 +1104,31 @@ public:
 
     // }
 
+    ParallelVector(const ParallelVector& other) :
+        MPIObject(other.getComm()),
+        local_size(other.local_size),
+        global_size(other.global_size),
+        is_created(other.is_created),
+        vec(other.vec) {
+
+        // Both objects refer to the same Petsc vector
+        if (is_created) PetscObjectReference((PetscObject) vec);
+
+    }
+
+    ParallelVector& operator=(const ParallelVector& other) {
+        if (this != &other) {
+            if (other.is_created) PetscObjectReference((PetscObject) other.vec);
+            if (is_created) VecDestroy(&vec);
+            MPIObject::operator=(other);
+            local_size = other.local_size;
+            global_size = other.global_size;
+            is_created = other.is_created;
+            vec = other.vec;
+        }
+        return *this;
+    }
+
     ~ParallelVector() {
         if (is_created) {
             VecDestroy(&vec);
-- 
2.43.0


From 9dd6e37b3b34eb5be1c55dfed4c027eb2590e15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:02:12 +0000
Subject: [PATCH 22/30] fix: copies of a ParallelMatrix share the Petsc matrix,
 and assignment releases the one held before

---
 src/Matrix.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/Matrix.hpp b/src/Matrix.hpp
index b30263d..cc9e939 100644
--- a/src/Matrix.hpp
+++ b/src/Matrix.hpp
@@ -1269,11 +1269,16 @@ public:
         global_rows(other.global_rows),
         global_cols(other.global_cols),
         is_created(other.is_created),
-        mat(other.mat)
-            {}
+        mat(other.mat) {
+
+        // Both objects refer to the same Petsc matrix
+        if (is_created) PetscObjectReference((PetscObject) mat);
+
+    }
 
     ParallelMatrix& operator=(ParallelMatrix&& other) {
         if (this != &other) {
+            if (is_created) MatDestroy(&mat);
             MPIObject::operator=(std::move(other));
             local_rows = other.local_rows;
             local_cols = other.local_cols;
-- 
2.43.0


From 2b1d17c08f21cb782f387e907ee43db8264b847a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:10:43 +0000
Subject: [PATCH 23/30] fix: a ParallelMatrix whose sizes are decided by Petsc
 reports the actual sizes

---
 src/Matrix.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/Matrix.hpp b/src/Matrix.hpp
index cc9e939..c32784f 100644
--- a/src/Matrix.hpp
+++ b/src/Matrix.hpp
@@ -1125,6 +1125,13 @@ protected:
     int global_cols = 0;
     bool is_created = false;
 
+    // Reads the actual sizes, as any of those given may be left to Petsc
+    void querySizes() {
+        MatSetUp(mat);
+        MatGetLocalSize(mat, &local_rows, &local_cols);
+        MatGetSize(mat, &global_rows, &global_cols);
+    }
+
 public:
 
     Petsc::Mat mat = NULL;
@@ -1159,6 +1166,7 @@ public:
         create();
         setSizes(local_rows, local_cols, global_rows, global_cols);
         setFromOptions();
+        querySizes();
     
     }
 
@@ -1173,6 +1181,7 @@ public:
         create();
         setSizes(local_rows, local_cols, global_rows, global_cols);
         setType(matrix_type);
+        querySizes();
     
     }
 
@@ -1187,6 +1196,7 @@ public:
         create();
         setSizes(local_rows, local_cols, global_rows, global_cols);
         setFromOptions();
+        querySizes();
 
         // Fill parallel matrix
         setValues(vectorRange(0, global_rows-1), vectorRange(0, global_cols-1), serial_matrix, INSERT_VALUES);
@@ -1204,6 +1214,7 @@ public:
         create();
         setSizes(local_rows, local_cols, global_rows, global_cols);
         setType(matrix_type);
+        querySizes();
 
         // Fill parallel matrix
         setValues(vectorRange(0, global_rows-1), vectorRange(0, global_cols-1), serial_matrix, INSERT_VALUES);
-- 
2.43.0


From 8cdf2a59f4776dea4c6a7412cccb288fd0660467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:10:43 +0000
Subject: [PATCH 24/30] fix: a ParallelMatrix moved to another communicator
 keeps every column, owns its Petsc matrix and reports its sizes

---
 src/Matrix.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/Matrix.hpp b/src/Matrix.hpp
index c32784f..9006c64 100644
--- a/src/Matrix.hpp
+++ b/src/Matrix.hpp
@@ -1249,17 +1249,22 @@ public:
         // app.log("sub_matrix comm = " + MPI::communicatorGetName(sub_matrix.getComm()));
         ISCreateStride(sub_matrix.getComm(), rlast - rfirst, rfirst, 1, &irow[0]);
         // app.log("HERE 3");
-        ISCreateStride(sub_matrix.getComm(), rlast - rfirst, rfirst, 1, &icol[0]);
+        ISCreateStride(sub_matrix.getComm(), sub_matrix.global_cols, 0, 1, &icol[0]);
         // app.log("HERE 4");
         if (first_time) {
             MatCreateSubMatrices(sub_matrix.mat, 1, irow, icol, MAT_INITIAL_MATRIX, &submat);
             MatCreateMPIMatConcatenateSeqMat(new_comm, submat[0], PETSC_DECIDE, MAT_INITIAL_MATRIX, &mat);
             first_time = false;
+            is_created = true;
         }
         else {
             MatCreateSubMatrices(sub_matrix.mat, 1, irow, icol, MAT_REUSE_MATRIX, &submat);
             MatCreateMPIMatConcatenateSeqMat(new_comm, submat[0], PETSC_DECIDE, MAT_REUSE_MATRIX, &mat);
         }
+        MatDestroySubMatrices(1, &submat);
+        ISDestroy(&irow[0]);
+        ISDestroy(&icol[0]);
+        querySizes();
 
     }
 
-- 
2.43.0


From 44fe402d60a484d63d1f201db9a7892b93d89f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:10:43 +0000
Subject: [PATCH 25/30] fix: a ParallelIdentityMatrix of a given type keeps its
 ones

---
 src/SpecialMatrices.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SpecialMatrices.hpp b/src/SpecialMatrices.hpp
index 27e01a3..e141367 100644
--- a/src/SpecialMatrices.hpp
+++ b/src/SpecialMatrices.hpp
@@ -59,7 +59,7 @@ public:
 
         //
         MatCreateConstantDiagonal(comm, PETSC_DECIDE, PETSC_DECIDE, N, N, 1.0, &this->mat);
-        MatSetType(this->mat, matrix_type);
+        MatConvert(this->mat, matrix_type, MAT_INPLACE_MATRIX, &this->mat);
         MatGetLocalSize(this->mat, &this->local_rows, &this->local_cols);
         MatGetSize(this->mat, &this->global_rows, &this->global_cols);
         this->is_created = true;
-- 
2.43.0


From ed569faf33c3ddb096d4d8b95c2f27af353f1e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:25 +0000
Subject: [PATCH 26/30] fix: reject matrix ranges whose end comes before their
 start instead of writing past a wrapped-around allocation

---
 src/Matrix.hpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/Matrix.hpp b/src/Matrix.hpp
index 9006c64..f4f09c1 100644
--- a/src/Matrix.hpp
+++ b/src/Matrix.hpp
@@ -287,7 +287,19 @@ public:
      * @return Matrix<NumericalType> 
      */
     Matrix<NumericalType> operator()(std::size_t a, std::size_t b, std::size_t c, std::size_t d) {
-        Matrix<NumericalType> res((b - a) + 1, (d - c) + 1);
+        std::size_t nrows = (b - a) + 1;
+        std::size_t ncols = (d - c) + 1;
+        if (nrows > nrows_ || ncols > ncols_) {
+            std::string error_msg = "[EllipticForest::Matrix::operator()] Range is outside of the matrix:\n";
+            error_msg += "\ta = " + std::to_string(a) + ", b = " + std::to_string(b) + "\n";
+            error_msg += "\tc = " + std::to_string(c) + ", d = " + std::to_string(d) + "\n";
+            error_msg += "\tnrows = " + std::to_string(nrows_) + "\n";
+            error_msg += "\tncols = " + std::to_string(ncols_) + "\n";
+            std::cerr << error_msg << std::endl;
+            throw std::out_of_range(error_msg);
+        }
+
+        Matrix<NumericalType> res(nrows, ncols);
         for (auto i = 0; i < res.nrows(); i++) {
             for (auto j = 0; j < res.ncols(); j++) {
                 res(i,j) = data_[flattenIndex_(a + i, c + j)];
-- 
2.43.0


From 4c4a6cc165d962ca858b92faf9f80ed4b731f2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:25 +0000
Subject: [PATCH 27/30] fix: destroy the index sets of the five-point solve

---
 src/Patches/FiniteVolume/FiniteVolumeSolver.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Patches/FiniteVolume/FiniteVolumeSolver.cpp b/src/Patches/FiniteVolume/FiniteVolumeSolver.cpp
index e37d885..49bca46 100644
--- a/src/Patches/FiniteVolume/FiniteVolumeSolver.cpp
+++ b/src/Patches/FiniteVolume/FiniteVolumeSolver.cpp
@@ -217,6 +217,8 @@ Vector<double> FiniteVolumeSolver::solve(FiniteVolumeGrid& grid, Vector<double>&
         MatDestroy(&A);
         VecDestroy(&x);
         VecDestroy(&f);
+        ISDestroy(&row_perm);
+        ISDestroy(&col_perm);
         // KSPDestroy(&ksp);
 
         return x_vector;
-- 
2.43.0


From fe36e4eb09cad8c16906afd1557bd5ddac238a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:25 +0000
Subject: [PATCH 28/30] fix: take the scalar of in-place vector operations by
 value, it may be an entry of the vector

---
 src/Vector.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Vector.hpp b/src/Vector.hpp
index 7cc30ba..e42fcd7 100644
--- a/src/Vector.hpp
+++ b/src/Vector.hpp
@@ -583,7 +583,7 @@ public:
      * @param rhs RHS scalar
      * @return Vector<NumericalType>& 
      */
-    Vector<NumericalType>& operator-=(const NumericalType& rhs) {
+    Vector<NumericalType>& operator-=(const NumericalType rhs) {
         for (auto i = 0; i < size_; i++) {
             data_[i] -= rhs;
         }
@@ -625,7 +625,7 @@ public:
      * @param rhs RHS scalar
      * @return Vector<NumericalType>& 
      */
-    Vector<NumericalType>& operator*=(const NumericalType& rhs) {
+    Vector<NumericalType>& operator*=(const NumericalType rhs) {
         for (auto i = 0; i < size_; i++) {
             data_[i] *= rhs;
         }
@@ -660,7 +660,7 @@ public:
      * @param rhs RHS scalar
      * @return Vector<NumericalType>& 
      */
-    Vector<NumericalType>& operator/=(const NumericalType& rhs) {
+    Vector<NumericalType>& operator/=(const NumericalType rhs) {
         for (auto i = 0; i < size_; i++) {
             data_[i] /= rhs;
         }
-- 
2.43.0


From 4af8b4bff0a4ffceb4ec0ace6bfcd08fe25b45d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:26 +0000
Subject: [PATCH 29/30] fix: building a rectilinear VTK mesh again replaces its
 coordinates instead of adding to them

---
 src/VTK.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/VTK.cpp b/src/VTK.cpp
index 2743595..024c42c 100644
--- a/src/VTK.cpp
+++ b/src/VTK.cpp
@@ -41,6 +41,7 @@ RectilinearGridVTK::RectilinearGridVTK() : mesh_complete_(false), coords_data_ve
 
 void RectilinearGridVTK::buildMesh(RectilinearGridNodeBase& mesh, DataArrayNodeBase* x_coords, DataArrayNodeBase* y_coords, DataArrayNodeBase* z_coords) {
     mesh_ = &mesh;
+    coords_data_vector_.clear();
     
     if (x_coords != nullptr) {
         coords_data_vector_.push_back(x_coords);
-- 
2.43.0


From 909949984fc3d698b0bc869857b294db98e385ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:26 +0000
Subject: [PATCH 30/30] fix: copies of a rectilinear VTK writer do not refer to
 the empty coordinates of their source

---
 src/VTK.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/VTK.cpp b/src/VTK.cpp
index 024c42c..5da7cf5 100644
--- a/src/VTK.cpp
+++ b/src/VTK.cpp
@@ -47,21 +47,21 @@ void RectilinearGridVTK::buildMesh(RectilinearGridNodeBase& mesh, DataArrayNodeB
         coords_data_vector_.push_back(x_coords);
     }
     else {
-        coords_data_vector_.push_back(&empty_data_array_);
+        coords_data_vector_.push_back(nullptr); // written as an empty array
     }
 
     if (y_coords != nullptr) {
         coords_data_vector_.push_back(y_coords);
     }
     else {
-        coords_data_vector_.push_back(&empty_data_array_);
+        coords_data_vector_.push_back(nullptr); // written as an empty array
     }
 
     if (z_coords != nullptr) {
         coords_data_vector_.push_back(z_coords);
     }
     else {
-        coords_data_vector_.push_back(&empty_data_array_);
+        coords_data_vector_.push_back(nullptr); // written as an empty array
     }
 
     mesh_complete_ = true;
@@ -110,7 +110,7 @@ void RectilinearGridVTK::toVTK(std::string filename) {
         node_piece.addChild(node_coordinates);
         for (auto cell_data : cell_data_vector_) node_cell_data.addChild(cell_data->toVTK());
         for (auto point_data : point_data_vector_) node_point_data.addChild(point_data->toVTK());
-        for (auto coordData : coords_data_vector_) node_coordinates.addChild(coordData->toVTK());
+        for (auto coordData : coords_data_vector_) node_coordinates.addChild(coordData != nullptr ? coordData->toVTK() : empty_data_array_.toVTK());
 
         XMLTree tree(root_);
         tree.write(filename);
-- 
2.43.0

