From e639e83c231a611d17ad1a3c2ff2c4dedefc9fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:35 +0000
Subject: [PATCH 01/78] fix: Grid::enlargeBound compares the requested size
 with the boundary cell's step

It read the step of cell 0 or 1 (the bound's index) instead, so enlarging the
upper bound chose the wrong growth on graded axes and read past the end of the
positions on single-cell axes.
---
 src/core/geometry/Grid.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/geometry/Grid.hpp b/src/core/geometry/Grid.hpp
index a3bcb1b..8ecd84b 100755
--- a/src/core/geometry/Grid.hpp
+++ b/src/core/geometry/Grid.hpp
@@ -637,7 +637,7 @@ void Grid<D>::enlargeBound(Math::Constants::CartesianAxis d,
         boundCell = this->getNumCells()(d) - 1;
     }
     std::vector<Math::Real> newSteps;
-    if (Math::Util::greaterEqual(getStep(d,b), siz) || siz == 0.0) {
+    if (Math::Util::greaterEqual(getStep(d,boundCell), siz) || siz == 0.0) {
         siz = getStep(d,boundCell);
         // Computes enlargement for a padding with same size.
         Math::Real nCellsFrac = std::abs(pad/siz);
-- 
2.43.0


From 20aaca19db3c5f59fdf9054a6c84ca16d0d41468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:17 +0000
Subject: [PATCH 02/78] fix: adding no steps to a grid leaves it unchanged

Grid::setAdditionalSteps wrote to the first element of an empty vector when
given no steps, as enlargeBound does for a padding under 1% of the boundary
cell.
---
 src/core/geometry/Grid.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/geometry/Grid.hpp b/src/core/geometry/Grid.hpp
index 8ecd84b..1db3721 100755
--- a/src/core/geometry/Grid.hpp
+++ b/src/core/geometry/Grid.hpp
@@ -123,6 +123,9 @@ void Grid<D>::setAdditionalSteps(
         const Math::Constants::CartesianBound b,
         const std::vector<Math::Real>& step) {
     const std::size_t nCells = step.size();
+    if (nCells == 0) {
+        return;
+    }
     std::vector<Math::Real> newPos(nCells);
     if (b == Math::Constants::U) {
         newPos[0] = pos_[d].back() + step[0];
-- 
2.43.0


From 277172718be95595157420504fa060737b630258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:49 +0000
Subject: [PATCH 03/78] fix: Grid::isCartesian compares the first step of every
 axis too

---
 src/core/geometry/Grid.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/geometry/Grid.hpp b/src/core/geometry/Grid.hpp
index 1db3721..538536d 100755
--- a/src/core/geometry/Grid.hpp
+++ b/src/core/geometry/Grid.hpp
@@ -221,7 +221,7 @@ bool Grid<D>::isCartesian() const {
     Math::Real canon = getStep(Math::Constants::x)[0];
     for (std::size_t i = 0; i < D; i++) {
         std::vector<Math::Real> step = getStep(i);
-        for (std::size_t n = 1; n < step.size(); n++) {
+        for (std::size_t n = 0; n < step.size(); n++) {
             if (Math::Util::notEqual(step[n], canon, canon, tolerance)) {
                 return false;
             }
-- 
2.43.0


From aed506f719aa0e465ddf389df84ae9030db698d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:26 +0000
Subject: [PATCH 04/78] fix: sorting rows does not recurse before the first row

---
 src/core/math/matrix/Matrix.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/math/matrix/Matrix.hpp b/src/core/math/matrix/Matrix.hpp
index dc4d0ab..c5e5907 100755
--- a/src/core/math/matrix/Matrix.hpp
+++ b/src/core/math/matrix/Matrix.hpp
@@ -308,7 +308,9 @@ void Matrix<T>::QSRows_(std::size_t p, std::size_t r,
                         const std::size_t iCol, const std::size_t lCol) {
     if (p < r) {
         std::size_t q = partitionRows_(p, r, iCol, lCol);
-        QSRows_(p, q - 1, iCol, lCol);
+        if (q > p) {
+            QSRows_(p, q - 1, iCol, lCol);
+        }
         QSRows_(q + 1, r, iCol, lCol);
     }
 }
-- 
2.43.0


From c11da4360ee75aa56bf074b1c51635a42d78eeaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:26 +0000
Subject: [PATCH 05/78] fix: sorting by all the columns does not compare past
 the end of a row

---
 src/core/math/matrix/Dynamic.hpp | 4 ++--
 src/core/math/matrix/Matrix.hpp  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/math/matrix/Dynamic.hpp b/src/core/math/matrix/Dynamic.hpp
index be8d999..7a30b97 100755
--- a/src/core/math/matrix/Dynamic.hpp
+++ b/src/core/math/matrix/Dynamic.hpp
@@ -192,7 +192,7 @@ Dynamic<T>::copy(
 template<class T>
 Dynamic<T>&
 Dynamic<T>::sortAndRemoveRepeatedRows_omp() {
-   sortRows_omp(0, nCols());
+   sortRows_omp(0, nCols() - 1);
    removeRepeatedSortedRows();
    return *this;
 }
@@ -200,7 +200,7 @@ Dynamic<T>::sortAndRemoveRepeatedRows_omp() {
 template<class T>
 void
 Dynamic<T>::sortAndRemoveRepeatedRows() {
-   this->sortRows(0, nCols());
+   this->sortRows(0, nCols() - 1);
    removeRepeatedSortedRows();
 }
 
diff --git a/src/core/math/matrix/Matrix.hpp b/src/core/math/matrix/Matrix.hpp
index c5e5907..7b500ad 100755
--- a/src/core/math/matrix/Matrix.hpp
+++ b/src/core/math/matrix/Matrix.hpp
@@ -224,7 +224,7 @@ template <class T>
 void Matrix<T>::sortRows() {
     // Orders array a with nr rows and nc columns. Ordering is performed
     // using column indicated in orCol as reference. In ascending order.
-    sortRows(0, nCols());
+    sortRows(0, nCols() - 1);
 }
 
 template <class T>
-- 
2.43.0


From 4e3332594b5c15a236d3d7a82bcd3f32d70e846e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:26 +0000
Subject: [PATCH 06/78] fix: removing repeated rows keeps a single row

---
 src/core/math/matrix/Dynamic.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/math/matrix/Dynamic.hpp b/src/core/math/matrix/Dynamic.hpp
index 7a30b97..0e5bbec 100755
--- a/src/core/math/matrix/Dynamic.hpp
+++ b/src/core/math/matrix/Dynamic.hpp
@@ -212,7 +212,7 @@ Dynamic<T>::removeRepeatedSortedRows() {
    std::size_t nonRepeated = 0;
    std::size_t nCompared;
    if (nRows() <= 1 ) {
-      nCompared = 0;
+      return;
    } else {
       nCompared = nRows() - 1;
    }
-- 
2.43.0


From f30bc07673bd8de660c2111454b3a91d7b25741b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:26 +0000
Subject: [PATCH 07/78] fix: division of a dynamic matrix by a scalar and its
 filling with a value

---
 src/core/math/matrix/Dynamic.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/core/math/matrix/Dynamic.hpp b/src/core/math/matrix/Dynamic.hpp
index 0e5bbec..21a2290 100755
--- a/src/core/math/matrix/Dynamic.hpp
+++ b/src/core/math/matrix/Dynamic.hpp
@@ -279,7 +279,7 @@ template <class T>
 Dynamic<T>& Dynamic<T>::operator=(const T &param) {
    for (std::size_t i = 0; i < _nRows; i++)
       for (std::size_t j = 0; j < _nCols; j++)
-         _val[i][j] = param;
+         val(i,j) = param;
    return *this;
 }
 
@@ -391,7 +391,7 @@ Dynamic<T> Dynamic<T>::operator/(const T param) const {
    Dynamic<T> res(_nRows, _nCols);
    for (i = 0; i < _nRows; i++)
       for (j = 0; j < _nCols; j++)
-         res._val[i][j] /= param;
+         res(i,j) = val(i,j) / param;
    return res;
 }
 
@@ -424,11 +424,10 @@ Dynamic<T>& Dynamic<T>::operator*=(const T param) {
 
 template <class T>
 Dynamic<T>& Dynamic<T>::operator/=(const T param) {
-   assert(_nRows == param._nRows && _nCols == param._nCols);
    std::size_t i, j;
    for (i = 0; i < _nRows; i++) {
       for (j = 0; j < _nCols; j++) {
-         _val[i][j] /= param;
+         val(i,j) /= param;
       }
    }
    return *this;
-- 
2.43.0


From e85699aa13eb2a0f4c1d514459a0912860918297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:42 +0000
Subject: [PATCH 08/78] fix: reshaping a dynamic matrix indexes the stored
 array

---
 src/core/math/matrix/Dynamic.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/math/matrix/Dynamic.hpp b/src/core/math/matrix/Dynamic.hpp
index 21a2290..0ec2c2c 100755
--- a/src/core/math/matrix/Dynamic.hpp
+++ b/src/core/math/matrix/Dynamic.hpp
@@ -529,7 +529,7 @@ Dynamic<T> Dynamic<T>::reshape(std::size_t rows, std::size_t cols, Int order) {
       // Performs ordering taking elements from one row at a time.
       for (i = 0; i < rows; i++)
          for (j = 0; j < cols; j++) {
-            res._val[i][j] = _val[k / _nCols][k % _nCols];
+            res(i,j) = val(k / _nCols, k % _nCols);
             k++;
          }
       break;
@@ -537,7 +537,7 @@ Dynamic<T> Dynamic<T>::reshape(std::size_t rows, std::size_t cols, Int order) {
       // Performs ordering taking elements from one column at a time.
       for (i = 0; i < rows; i++)
          for (j = 0; j < cols; j++) {
-            res._val[i][j] = _val[k % _nRows][k / _nRows];
+            res(i,j) = val(k % _nRows, k / _nRows);
             k++;
          }
       break;
-- 
2.43.0


From d067877bc45624029545580ec1530d2230bdde1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:42 +0000
Subject: [PATCH 09/78] fix: dynamic matrices are ordered by their first
 different entry

---
 src/core/math/matrix/Dynamic.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/math/matrix/Dynamic.hpp b/src/core/math/matrix/Dynamic.hpp
index 0ec2c2c..d4a9819 100755
--- a/src/core/math/matrix/Dynamic.hpp
+++ b/src/core/math/matrix/Dynamic.hpp
@@ -454,8 +454,10 @@ bool Dynamic<T>::operator<(const Dynamic<T>& param) const {
    assert(_nRows == param._nRows && _nCols == param._nCols);
    for (std::size_t i = 0; i < _nRows; i++)
       for (std::size_t j = 0; j < _nCols; j++)
-         if (_val[i][j] < param._val[i][j])
+         if (val(i,j) < param(i,j))
             return true;
+         else if (param(i,j) < val(i,j))
+            return false;
    return false;
 }
 
-- 
2.43.0


From 87be09d7ab39a558623b79cf8b9c696f20acea88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:42 +0000
Subject: [PATCH 10/78] fix: the Kronecker product has one block per entry of
 the left matrix

---
 src/core/math/matrix/Dynamic.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/math/matrix/Dynamic.hpp b/src/core/math/matrix/Dynamic.hpp
index d4a9819..6e13c25 100755
--- a/src/core/math/matrix/Dynamic.hpp
+++ b/src/core/math/matrix/Dynamic.hpp
@@ -549,12 +549,12 @@ Dynamic<T> Dynamic<T>::reshape(std::size_t rows, std::size_t cols, Int order) {
 
 template<class T>
 Dynamic<T> Dynamic<T>::kron(Dynamic<T>& rhs) const {
-   Dynamic<T> res(_nRows + rhs._nRows, _nCols + rhs._nCols);
+   Dynamic<T> res(_nRows * rhs._nRows, _nCols * rhs._nCols);
    for (std::size_t i = 0; i < _nRows; i++) {
       for (std::size_t j = 0; j < rhs._nRows; j++) {
          for (std::size_t k = 0; k < _nCols; k++) {
             for (std::size_t l = 0; l < rhs._nCols; l++) {
-               res(i*_nRows + j, k*_nCols + l) = val(i,k) * rhs(j,l);
+               res(i*rhs._nRows + j, k*rhs._nCols + l) = val(i,k) * rhs(j,l);
             }
          }
       }
-- 
2.43.0


From 88a73d50a539713a89487c5dc88e5a9fa6a1b135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:42 +0000
Subject: [PATCH 11/78] fix: a dynamic matrix built from rows allocates its
 entries

---
 src/core/math/matrix/Dynamic.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/math/matrix/Dynamic.hpp b/src/core/math/matrix/Dynamic.hpp
index 6e13c25..400ef8c 100755
--- a/src/core/math/matrix/Dynamic.hpp
+++ b/src/core/math/matrix/Dynamic.hpp
@@ -66,6 +66,7 @@ template <class T>
 Dynamic<T>::Dynamic(std::size_t rows, std::size_t cols, T** values) {
    _nRows = rows;
    _nCols = cols;
+   _val = new T[_nRows * _nCols];
    assert(values != nullptr);
    for (std::size_t i = 0; i < _nRows; i++) {
       for (std::size_t j = 0; j < _nCols; j++) {
-- 
2.43.0


From 45d9b54f74a25e1261881cc0df7bd8ea1eedee27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:42 +0000
Subject: [PATCH 12/78] fix: dynamic matrices of integers can be equal

---
 src/core/math/matrix/Dynamic.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/math/matrix/Dynamic.hpp b/src/core/math/matrix/Dynamic.hpp
index 400ef8c..132a7e5 100755
--- a/src/core/math/matrix/Dynamic.hpp
+++ b/src/core/math/matrix/Dynamic.hpp
@@ -442,7 +442,7 @@ bool Dynamic<T>::operator==(const Dynamic<T>& param) const {
       for (std::size_t i = 0; i < _nRows; i++) {
          for (std::size_t j = 0; j < _nCols; j++) {
             T diff = std::abs(this->operator()(i,j) - param(i,j));
-            res &= diff < std::numeric_limits<T>::epsilon() * 1e2;
+            res &= diff <= std::numeric_limits<T>::epsilon() * 1e2;
          }
       }
       return res;
-- 
2.43.0


From 0e7a3a21908b2e157769c2c52493539b78d4b745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:42 +0000
Subject: [PATCH 13/78] fix: convolution does not wrap around below the length
 of the second factor

---
 src/core/math/matrix/Dynamic.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/math/matrix/Dynamic.hpp b/src/core/math/matrix/Dynamic.hpp
index 132a7e5..dd58cdd 100755
--- a/src/core/math/matrix/Dynamic.hpp
+++ b/src/core/math/matrix/Dynamic.hpp
@@ -474,7 +474,7 @@ Dynamic<T> Dynamic<T>::convolute(const Dynamic<T> &param) const {
    for (j = 1; j <= _nRows + param._nRows - 1; j++) {
       if (j <= _nRows)
          min = j;
-      if (j + 1 - param._nRows >= 1)
+      if (j >= param._nRows)
          max = j + 1 - param._nRows;
       for (i = max; i <= min; i++)
          res(j-1,0) += val(i-1,0) * param(j-i,0);
-- 
2.43.0


From 61d9d3ecf540f32d9e94950bc2283116c233fe61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:42 +0000
Subject: [PATCH 14/78] fix: QR factorisation orthogonalises the columns, so
 that Q*R is the matrix

---
 src/core/math/matrix/Matrix.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/math/matrix/Matrix.hpp b/src/core/math/matrix/Matrix.hpp
index 7b500ad..4d048fd 100755
--- a/src/core/math/matrix/Matrix.hpp
+++ b/src/core/math/matrix/Matrix.hpp
@@ -495,7 +495,10 @@ bool Matrix<T>::factorizeQR_(Matrix<T>& Q, Matrix<T>& R) {
 
     for (int i = 0; i < nCols; i++) {
         // u_i = a_i
-        a.push_back(this->cpRowToVector(i));
+        a.push_back(std::vector<T>(nCols));
+        for (int k = 0; k < nCols; k++) {
+            a[i][k] = val(k,i);
+        }
         u.push_back(a[i]);
 
         for (int j = 0; j <= i-1; j++) {
-- 
2.43.0


From b351f55bb91bc51f31edf1b871ed593d8ef049d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:04 +0000
Subject: [PATCH 15/78] fix: adding a temporary group gives back the added
 elements, also where returning an rvalue reference moves from it

---
 src/core/geometry/coordinate/Group.hpp | 2 +-
 src/core/group/Group.hpp               | 2 +-
 src/core/group/Identifiable.hpp        | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/geometry/coordinate/Group.hpp b/src/core/geometry/coordinate/Group.hpp
index c017603..d14b951 100755
--- a/src/core/geometry/coordinate/Group.hpp
+++ b/src/core/geometry/coordinate/Group.hpp
@@ -169,7 +169,7 @@ SEMBA::Group::Group<C> Group<C>::add(SEMBA::Group::Group<C>&& rhs) {
     std::size_t lastSize = this->size();
     SEMBA::Group::Identifiable<C,Id>::add(std::move(rhs));
     postprocess_(lastSize);
-    return rhs;
+    return SEMBA::Group::Group<C>(rhs);
 }
 
 template<typename C>
diff --git a/src/core/group/Group.hpp b/src/core/group/Group.hpp
index 9421a43..b7dc545 100755
--- a/src/core/group/Group.hpp
+++ b/src/core/group/Group.hpp
@@ -246,7 +246,7 @@ Group<T> Group<T>::add(Group& rhs) {
 template<typename T>
 Group<T> Group<T>::add(Group&& rhs) {
     element_.insert(element_.end(), rhs.element_.begin(), rhs.element_.end());
-    return rhs;
+    return Group(rhs);
 }
 
 template<typename T>
diff --git a/src/core/group/Identifiable.hpp b/src/core/group/Identifiable.hpp
index a502457..0fbd66c 100755
--- a/src/core/group/Identifiable.hpp
+++ b/src/core/group/Identifiable.hpp
@@ -168,7 +168,7 @@ Group<T> Identifiable<T,Id>::add(Group<T>&& rhs) {
     std::size_t lastSize = this->size();
     Group<T>::add(std::move(rhs));
     postprocess_(lastSize);
-    return rhs;
+    return Group<T>(rhs);
 }
 
 template<typename T, class Id> template<typename T2>
-- 
2.43.0


From c6104966baa402877f257e9926d9528060765ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:40 +0000
Subject: [PATCH 16/78] fix: scaled coordinates are found at their new
 positions whatever the sign of the factor

---
 src/core/geometry/coordinate/Group.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/geometry/coordinate/Group.hpp b/src/core/geometry/coordinate/Group.hpp
index d14b951..7d822a9 100755
--- a/src/core/geometry/coordinate/Group.hpp
+++ b/src/core/geometry/coordinate/Group.hpp
@@ -259,10 +259,12 @@ void Group<C>::remove(const std::vector<std::size_t>& pos) {
 
 template<typename C>
 void Group<C>::applyScalingFactor(const Math::Real factor) {
+    indexUnstr_.clear();
     for(std::size_t i = 0; i < this->size(); i++) {
         if (this->get(i)->template is<CoordR3>()) {
             CoordR3* ptr = this->get(i)->template castTo<CoordR3>();
             *ptr *= factor;
+            indexUnstr_.insert(ptr);
         }
     }
 }
-- 
2.43.0


From eb52c60db9d803a08f1928860da1b2dbd7a8e6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:45 +0000
Subject: [PATCH 17/78] fix: each side of a line is one of its ends

---
 src/core/geometry/element/Line2.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/geometry/element/Line2.hpp b/src/core/geometry/element/Line2.hpp
index 13d7bd9..7325e8c 100755
--- a/src/core/geometry/element/Line2.hpp
+++ b/src/core/geometry/element/Line2.hpp
@@ -118,7 +118,7 @@ template<class T>
 const Coordinate::Coordinate<T,3>* Line2<T>::getSideV(
         const std::size_t f,
         const std::size_t i) const {
-    return v_[i];
+    return v_[f];
 }
 
 template<class T>
@@ -131,7 +131,7 @@ template<class T>
 const Coordinate::Coordinate<T,3>* Line2<T>::getSideVertex(
         const std::size_t f,
         const std::size_t i) const {
-    return v_[i];
+    return v_[f];
 }
 
 template<class T>
-- 
2.43.0


From 469d9e7d514443ec666383993533eeb917e4274f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:45 +0000
Subject: [PATCH 18/78] fix: sides of an element are as long as the side asked
 for

---
 src/core/geometry/element/Element.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/core/geometry/element/Element.hpp b/src/core/geometry/element/Element.hpp
index d9347e1..2e41358 100755
--- a/src/core/geometry/element/Element.hpp
+++ b/src/core/geometry/element/Element.hpp
@@ -148,8 +148,8 @@ template<class T>
 std::vector<const Coordinate::Coordinate<T,3>*> Element<T>::getSideCoordinates(
         const std::size_t face) const {
     std::vector<const Coordinate::Coordinate<T,3>*>
-        res(numberOfSideCoordinates());
-    for (std::size_t i = 0; i < numberOfSideCoordinates(); i++) {
+        res(numberOfSideCoordinates(face));
+    for (std::size_t i = 0; i < numberOfSideCoordinates(face); i++) {
         res[i] = getSideV(face,i);
     }
     return res;
@@ -159,8 +159,8 @@ template<class T>
 std::vector<const Coordinate::Coordinate<T,3>*> Element<T>::getSideVertices(
         const std::size_t face) const {
     std::vector<const Coordinate::Coordinate<T, 3>*> res;
-    res.resize(numberOfSideVertices());
-    for (std::size_t i = 0; i < numberOfSideVertices(); i++) {
+    res.resize(numberOfSideVertices(face));
+    for (std::size_t i = 0; i < numberOfSideVertices(face); i++) {
         res[i] = getSideVertex(face,i);
     }
     return res;
-- 
2.43.0


From b9910388b41a228d42d1d560cc6a3ba90f338126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:45 +0000
Subject: [PATCH 19/78] fix: the bound of a face covers all coordinates of that
 face

---
 src/core/geometry/element/Volume.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/geometry/element/Volume.hpp b/src/core/geometry/element/Volume.hpp
index a0578dc..03dfa40 100755
--- a/src/core/geometry/element/Volume.hpp
+++ b/src/core/geometry/element/Volume.hpp
@@ -63,7 +63,7 @@ Math::Vector::Cartesian<T,3> Volume<T>::getSideNormal(
 template<class T>
 Box<T,3> Volume<T>::getBoundOfFace(const std::size_t face) const {
     Box<T,3> res;
-   for (std::size_t i = 0; i < this->numberOfSideCoordinates(); i++) {
+   for (std::size_t i = 0; i < this->numberOfSideCoordinates(face); i++) {
       res << this->getSideV(face,i)->pos();
    }
    return res;
-- 
2.43.0


From 22e56852a484f9097cfc2646946a9ec149a303ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:45 +0000
Subject: [PATCH 20/78] fix: lowest and highest vertices of an element are
 lexicographical

---
 src/core/geometry/element/Element.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/core/geometry/element/Element.hpp b/src/core/geometry/element/Element.hpp
index 2e41358..f0dd157 100755
--- a/src/core/geometry/element/Element.hpp
+++ b/src/core/geometry/element/Element.hpp
@@ -99,6 +99,9 @@ const Coordinate::Coordinate<T,3>* Element<T>::getMinV() const {
                 res = getVertex(i);
                 break;
             }
+            if(Math::Util::greater(val1, val2, res->pos().norm())) {
+                break;
+            }
         }
     }
     return res;
@@ -119,6 +122,9 @@ const Coordinate::Coordinate<T,3>* Element<T>::getMaxV() const {
                 res = getVertex(i);
                 break;
             }
+            if(Math::Util::lower(val1, val2, res->pos().norm())) {
+                break;
+            }
         }
     }
     return res;
-- 
2.43.0


From fce90fdcefed3a38c56a3c964b22c1ce8a2357eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:45 +0000
Subject: [PATCH 21/78] fix: a hexahedron is regular only when its edges follow
 the axes

---
 src/core/geometry/element/Hexahedron8.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/core/geometry/element/Hexahedron8.hpp b/src/core/geometry/element/Hexahedron8.hpp
index e8ec60f..5dd9811 100755
--- a/src/core/geometry/element/Hexahedron8.hpp
+++ b/src/core/geometry/element/Hexahedron8.hpp
@@ -103,7 +103,7 @@ bool Hexahedron8<T>::isRegular() const {
     // Checks that all edges are aligned with one of the axis.
     static const Math::Vector::Cartesian<T,3> xAxe(1.0, 0.0, 0.0);
     static const Math::Vector::Cartesian<T,3> yAxe(0.0, 1.0, 0.0);
-    static const Math::Vector::Cartesian<T,3> zAxe(1.0, 0.0, 1.0);
+    static const Math::Vector::Cartesian<T,3> zAxe(0.0, 0.0, 1.0);
     for (std::size_t f = 0; f < numberOfFaces(); f++) {
         Math::Vector::Cartesian<T,3> first, second;
         Math::Vector::Cartesian<T,3> inc;
@@ -111,9 +111,9 @@ bool Hexahedron8<T>::isRegular() const {
             first = *getSideV(f, i);
             second = *getSideV(f, (i+1) % numberOfSideVertices());
             inc = (second - first).normalize();
-            if (!((std::abs(inc.dot(xAxe))-1.0) <= tolerance ||
-            (std::abs(inc.dot(yAxe))-1.0) <= tolerance ||
-            (std::abs(inc.dot(zAxe))-1.0) <= tolerance)) {
+            if (!(std::abs(std::abs(inc.dot(xAxe))-1.0) <= tolerance ||
+            std::abs(std::abs(inc.dot(yAxe))-1.0) <= tolerance ||
+            std::abs(std::abs(inc.dot(zAxe))-1.0) <= tolerance)) {
 
                 return false;
             }
-- 
2.43.0


From e4403f641ead408ab922ccb58aa72e726367ee90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:45 +0000
Subject: [PATCH 22/78] fix: the area of a face of a hexahedron covers its four
 vertices

---
 src/core/geometry/element/Hexahedron8.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/core/geometry/element/Hexahedron8.hpp b/src/core/geometry/element/Hexahedron8.hpp
index 5dd9811..683f821 100755
--- a/src/core/geometry/element/Hexahedron8.hpp
+++ b/src/core/geometry/element/Hexahedron8.hpp
@@ -160,10 +160,11 @@ const std::size_t i) const {
 
 template<class T>
 Math::Real Hexahedron8<T>::getAreaOfFace(const std::size_t f) const {
-    Math::Vector::Cartesian<T,3> v1, v2;
+    Math::Vector::Cartesian<T,3> v1, v2, v3;
     v1 = getSideV(f,1)->pos() - getSideV(f,0)->pos();
     v2 = getSideV(f,2)->pos() - getSideV(f,0)->pos();
-    return ((Math::Real) 0.5 * (v1 ^ v2).norm());
+    v3 = getSideV(f,3)->pos() - getSideV(f,0)->pos();
+    return ((Math::Real) 0.5 * ((v1 ^ v2).norm() + (v2 ^ v3).norm()));
 }
 
 template<class T>
-- 
2.43.0


From fa6ed95eb8d0b7c0aeea41debaac2ccc20cdd5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:45 +0000
Subject: [PATCH 23/78] fix: obtuse corners are not rectangular

---
 src/core/geometry/element/Surface.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/geometry/element/Surface.hpp b/src/core/geometry/element/Surface.hpp
index 8ec523b..e3dbb0d 100755
--- a/src/core/geometry/element/Surface.hpp
+++ b/src/core/geometry/element/Surface.hpp
@@ -47,7 +47,7 @@ bool Surface<T>::isRectangular() const {
             this->getSideVertex(f    %4,1)->pos();
         Math::Vector::Cartesian<T,3> p2 = 
             this->getSideVertex((f+1)%4,1)->pos();
-        Math::Real sProd = (Math::Real)(p2-p1).dot(p1 - p0);
+        Math::Real sProd = std::abs((Math::Real)(p2-p1).dot(p1 - p0));
         if (Math::Util::greater(sProd, 0.0, 1.0)) {
             return false;
         }
-- 
2.43.0


From c87412259d3d34280ff1490d614cb4ee160d55ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:45 +0000
Subject: [PATCH 24/78] fix: unnumbered conformal lines keep their coordinates

---
 src/core/geometry/element/LineConformal.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/geometry/element/LineConformal.cpp b/src/core/geometry/element/LineConformal.cpp
index 25dff46..540733e 100755
--- a/src/core/geometry/element/LineConformal.cpp
+++ b/src/core/geometry/element/LineConformal.cpp
@@ -47,7 +47,9 @@ LineConformal::LineConformal(const CoordI3* v[2],
                              const Math::CVecR3& norm,
                              const Layer* lay,
                              const Model* mat)
-:   Elem(lay, mat) {
+:   Elem(lay, mat),
+    LinI2(v) {
+
     checkCoordinates();
     norm_  = norm;
 }
-- 
2.43.0


From eca6d3f72de00a55b2c0b3b797d7463c26e4b2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:45 +0000
Subject: [PATCH 25/78] fix: the vertex closest to a position is looked for
 among all elements

---
 src/core/geometry/element/Group.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/core/geometry/element/Group.hpp b/src/core/geometry/element/Group.hpp
index 8245c67..95165a1 100755
--- a/src/core/geometry/element/Group.hpp
+++ b/src/core/geometry/element/Group.hpp
@@ -219,11 +219,11 @@ const CoordR3* Group<E>::getClosestVertex(const Math::CVecR3 pos) const {
     Math::Real minDist = std::numeric_limits<Math::Real>::infinity();
     Group<const ElemR> elems = this->template getOf<ElemR>();
     for (std::size_t b = 0; b < elems.size(); b++) {
-        for (std::size_t i = 0; i < elems(i)->numberOfCoordinates(); i++) {
-            const CoordR3* candidate = elems(i)->getV(i);
-            if ((candidate->pos() - res->pos()).norm() < minDist) {
+        for (std::size_t i = 0; i < elems(b)->numberOfCoordinates(); i++) {
+            const CoordR3* candidate = elems(b)->getV(i);
+            if ((candidate->pos() - pos).norm() < minDist) {
                 res = candidate;
-                minDist = (candidate->pos() - res->pos()).norm();
+                minDist = (candidate->pos() - pos).norm();
             }
         }
     }
-- 
2.43.0


From 00b7d5d993999e1c9872c3f0986c80f017a53b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:30 +0000
Subject: [PATCH 26/78] fix: side vertices of quadratic triangles are their
 ends, not the node in the middle

---
 src/core/math/simplex/Triangle.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/math/simplex/Triangle.hpp b/src/core/math/simplex/Triangle.hpp
index 68d7b4d..8d2986b 100755
--- a/src/core/math/simplex/Triangle.hpp
+++ b/src/core/math/simplex/Triangle.hpp
@@ -105,7 +105,7 @@ inline std::size_t Triangle<N>::vertex(std::size_t i) const {
 template<size_t N>
 inline std::size_t Triangle<N>::sideVertex(const std::size_t f,
                                                    const std::size_t i) const {
-    return sideNode(f,i);
+    return sideNode(f, i * N);
 }
 
 template <size_t N>
-- 
2.43.0


From ee12e2fe566f27b04eddd636fd13a0642f63f675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:28 +0000
Subject: [PATCH 27/78] fix: lines with coordinates that are not conformal are
 reported as such

---
 src/core/geometry/element/LineConformal.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/core/geometry/element/LineConformal.cpp b/src/core/geometry/element/LineConformal.cpp
index 540733e..f064d77 100755
--- a/src/core/geometry/element/LineConformal.cpp
+++ b/src/core/geometry/element/LineConformal.cpp
@@ -87,8 +87,9 @@ void LineConformal::printInfo() const {
 
 void LineConformal::checkCoordinates() {
     for(std::size_t i = 0; i < this->numberOfCoordinates(); i++) {
-        if (!this->getV(i)->is<CoordConf>()) {
-            throw Error::Coord::NotConf(this->getV(i)->getId());
+        const CoordI3* coord = LinI2::getV(i);
+        if (!coord->is<CoordConf>()) {
+            throw Error::Coord::NotConf(coord->getId());
         }
     }
 }
-- 
2.43.0


From c27640d79adf734161f5ef0c870333e8b7f3ec8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:28 +0000
Subject: [PATCH 28/78] fix: vertices of hexahedra can be listed

---
 src/core/geometry/element/Hexahedron8.h | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/core/geometry/element/Hexahedron8.h b/src/core/geometry/element/Hexahedron8.h
index 0ed23bc..0cbeb8a 100755
--- a/src/core/geometry/element/Hexahedron8.h
+++ b/src/core/geometry/element/Hexahedron8.h
@@ -86,10 +86,6 @@ public:
             const std::size_t f,
             const std::size_t i) const;
 
-    std::vector<const Coordinate::Coordinate<T,3>*> getVertices() const;
-    std::vector<const Coordinate::Coordinate<T,3>*> getSideVertices(
-            const std::size_t face) const;
-
     Math::Real getAreaOfFace(const std::size_t face) const;
     Math::Real getVolume() const;
 
-- 
2.43.0


From 4503fb9bf8ee1a663b2fe0527e2613fc512962f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:11 +0000
Subject: [PATCH 29/78] fix: pieces of chopped real boxes are at the positions
 of the grid, not at its indices

---
 src/core/geometry/Box.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/core/geometry/Box.hpp b/src/core/geometry/Box.hpp
index 800f16c..5e858f2 100755
--- a/src/core/geometry/Box.hpp
+++ b/src/core/geometry/Box.hpp
@@ -421,8 +421,10 @@ std::vector<Box<T,D>> Box<T,D>::chop(const Grid<D>& grid) const {
     for (Math::Int i = 0; i < numBoxes(Math::Constants::x); i++) {
         for (Math::Int j = 0; j < numBoxes(Math::Constants::y); j++) {
             for (Math::Int k = 0; k < numBoxes(Math::Constants::z); k++) {
-                CVecTD minP = subGrid.getPos(CVecTD(i,j,k));
-                CVecTD maxP = subGrid.getPos(CVecTD(i+1,j+1,k+1));
+                CVecTD minP = subGrid.getPos(
+                        Math::Vector::Cartesian<Math::Int,D>(i,j,k));
+                CVecTD maxP = subGrid.getPos(
+                        Math::Vector::Cartesian<Math::Int,D>(i+1,j+1,k+1));
                 CVecTD minT, maxT;
                 for (std::size_t d = 0; d < D; d++) {
                     if (minP(d) >= min_(d)) {
-- 
2.43.0


From dbcb079f16964e39e54d1d519b2f931b7243b8e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:37 +0000
Subject: [PATCH 30/78] fix: boxes inside a single cell of the grid can be
 chopped

---
 src/core/geometry/Box.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/geometry/Box.hpp b/src/core/geometry/Box.hpp
index 5e858f2..72181a1 100755
--- a/src/core/geometry/Box.hpp
+++ b/src/core/geometry/Box.hpp
@@ -401,7 +401,7 @@ std::vector<Box<T,D>> Box<T,D>::chop(const Grid<D>& grid) const {
     std::vector<Math::Real> pos[D];
     for (std::size_t d = 0; d < D; d++) {
         pos[d] = grid.getPosInRange(d, min_(d), max_(d));
-        if (min_(d) != pos[d].front()) {
+        if (pos[d].empty() || min_(d) != pos[d].front()) {
             std::vector<Math::Real> aux(1,min_(d));
             aux.insert(aux.end(), pos[d].begin(), pos[d].end());
             pos[d] = aux;
-- 
2.43.0


From a8cf0939f3315e644456e94de4ddc90fc0af4bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:38 +0000
Subject: [PATCH 31/78] fix: coordinates near a grid node at zero are located
 as near any other node

---
 src/core/geometry/Grid.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/core/geometry/Grid.hpp b/src/core/geometry/Grid.hpp
index 538536d..1cd375e 100755
--- a/src/core/geometry/Grid.hpp
+++ b/src/core/geometry/Grid.hpp
@@ -400,8 +400,8 @@ std::vector<Math::Real> Grid<D>::getPosInRange(const std::size_t dir,
         } else {
             step = steps.back();
         }
-        const bool inMin = Math::Util::equal(pos[i], min, step, tolerance);
-        const bool inMax = Math::Util::equal(pos[i], max, step, tolerance);
+        const bool inMin = (std::abs(pos[i] - min) <= tolerance*step);
+        const bool inMax = (std::abs(pos[i] - max) <= tolerance*step);
         const bool inRange = (pos[i] >= min && pos[i] <= max);
         if (inMin || inMax || inRange) {
             res.push_back(pos[i]);
@@ -466,7 +466,7 @@ std::pair<Math::Int, Math::Real> Grid<D>::getCellPair(const std::size_t dir,
     std::vector<Math::Real> steps = getStep(dir);
     assert(pos_[dir].size() >= 1);
     // Checks if it is below the grid.
-    if (Math::Util::lower(x, pos[0], steps[0], tol)) {
+    if (pos[0] - x > tol*steps[0]) {
         cell = 0;
         dist = (x-pos[0])/steps[0];
         if (err != nullptr) {
@@ -483,14 +483,14 @@ std::pair<Math::Int, Math::Real> Grid<D>::getCellPair(const std::size_t dir,
         } else {
             step = steps.back();
         }
-        if (Math::Util::equal(x, pos[i], step, tol)) {
+        if (std::abs(x - pos[i]) <= tol*step) {
             cell = i;
             dist = 0.0;
             if (err != nullptr) {
                 *err = false;
             }
             return std::make_pair(cell, dist);
-        } else if (Math::Util::lower(x, pos[i], step, tol)) {
+        } else if (x < pos[i]) {
             cell = i - 1;
             dist = (x - pos[i-1])/step;
             if(Math::Util::equal(Math::Util::round(dist),1.0) && approx) {
-- 
2.43.0


From 3c8ed735780af28f71e39273f67760036ef51e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:29 +0000
Subject: [PATCH 32/78] fix: elements of unstructured meshes made from
 structured ones refer to their own layers

---
 src/core/geometry/mesh/Structured.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/geometry/mesh/Structured.cpp b/src/core/geometry/mesh/Structured.cpp
index d7f5185..ad387eb 100755
--- a/src/core/geometry/mesh/Structured.cpp
+++ b/src/core/geometry/mesh/Structured.cpp
@@ -106,6 +106,7 @@ Unstructured* Structured::getMeshUnstructured() const {
     }
     res->elems().add(newElems);
     res->layers() = layers().cloneElems();
+    res->elems().reassignPointers(res->layers());
     return res;
 }
 
-- 
2.43.0


From 3c4fb22227c7796a6b475cb1369f50748b207cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:29 +0000
Subject: [PATCH 33/78] fix: elements of structured meshes made from
 unstructured ones refer to their own layers

---
 src/core/geometry/mesh/Unstructured.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/geometry/mesh/Unstructured.cpp b/src/core/geometry/mesh/Unstructured.cpp
index 6f55741..6b3d1e1 100755
--- a/src/core/geometry/mesh/Unstructured.cpp
+++ b/src/core/geometry/mesh/Unstructured.cpp
@@ -95,6 +95,7 @@ Structured* Unstructured::getMeshStructured(const Grid3& grid,
     }
     res->elems().add(newElems);
     res->layers() = layers().cloneElems();
+    res->elems().reassignPointers(res->layers());
     return res;
 }
 
-- 
2.43.0


From 5f3a205e7cdafa1b862e662a02cca0b540b7d615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:25 +0000
Subject: [PATCH 34/78] fix: all terminations of a mesh can be set at once

---
 src/core/geometry/BoundTerminations.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/core/geometry/BoundTerminations.hpp b/src/core/geometry/BoundTerminations.hpp
index 068b77c..2f34d38 100755
--- a/src/core/geometry/BoundTerminations.hpp
+++ b/src/core/geometry/BoundTerminations.hpp
@@ -80,9 +80,7 @@ void BoundTerminations<D>::setBounds(
         const std::array<std::array<const Bound*, 2>, D>& bounds) {
     for (std::size_t d = 0; d < D; d++) {
         for (std::size_t p = 0; p < 2; p++) {
-            if (bounds[d][p] != nullptr) {
-                bounds_[d][p] = bounds->getSharedPtr();
-            }
+            setBound(d, p, bounds[d][p]);
         }
     }
 }
-- 
2.43.0


From 4adce5a0c66777561f908045564150ecc099c897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:08 +0000
Subject: [PATCH 35/78] fix: elements with a repeated coordinate can be looked
 up by it

---
 src/core/geometry/element/Group.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/geometry/element/Group.hpp b/src/core/geometry/element/Group.hpp
index 95165a1..31a35aa 100755
--- a/src/core/geometry/element/Group.hpp
+++ b/src/core/geometry/element/Group.hpp
@@ -66,6 +66,7 @@ Group<const E> Group<E>::getCoordId(const CoordId id) const {
 		for (size_t j = 0; j < elem->numberOfCoordinates(); j++) {
 			if (elem->getV(j)->getId() == id) {
 				res.add(elem);
+				break;
 			}
 		}
 	}
-- 
2.43.0


From c95c50df71401f307baca87a7af9619963efb838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:08 +0000
Subject: [PATCH 36/78] fix: groups of elements can be asked whether they are
 linear

---
 src/core/geometry/element/Group.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/geometry/element/Group.hpp b/src/core/geometry/element/Group.hpp
index 31a35aa..0799e20 100755
--- a/src/core/geometry/element/Group.hpp
+++ b/src/core/geometry/element/Group.hpp
@@ -51,7 +51,7 @@ Group<E>& Group<E>::operator=(const SEMBA::Group::Group<E>& rhs) {
 template<typename E>
 bool Group<E>::isLinear() const {
     for (std::size_t i = 0; i < this->size(); i++) {
-        if (!this->get(i)->isLineal()) {
+        if (this->get(i)->isQuadratic()) {
             return false;
         }
     }
-- 
2.43.0


From 3c4b81d6f8789a871531039b0796a4ad55a181ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:49 +0000
Subject: [PATCH 37/78] fix: all monomials without value are removed from
 polynomials

---
 src/core/math/function/Polynomial.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/math/function/Polynomial.hpp b/src/core/math/function/Polynomial.hpp
index 6610c6f..979494f 100755
--- a/src/core/math/function/Polynomial.hpp
+++ b/src/core/math/function/Polynomial.hpp
@@ -149,7 +149,7 @@ void Polynomial<T>::derive(std::size_t coord) {
 
 template<class T>
 void Polynomial<T>::removeZeros() {
-    for (std::size_t i = 0; i < nm_; i++)
+    for (std::size_t i = nm_; i-- > 0; )
         if (mv_[i] == 0) {
             nm_--;
             mv_.erase(mv_.begin() + i);
-- 
2.43.0


From d6be12ab8c4a5f4fcae8bd4612611d3ab52862bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:49 +0000
Subject: [PATCH 38/78] fix: products of polynomials count every monomial of
 each power

---
 src/core/math/function/Polynomial.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/math/function/Polynomial.hpp b/src/core/math/function/Polynomial.hpp
index 979494f..954d399 100755
--- a/src/core/math/function/Polynomial.hpp
+++ b/src/core/math/function/Polynomial.hpp
@@ -274,7 +274,7 @@ Matrix::Dynamic<T> Polynomial<T>::polynomialToMatrix() const {
     Matrix::Dynamic<T>  res(maxPower() + 1, 1);
     // Copies monomials to vector positions.
     for (std::size_t i = 0; i < nm_; i++)
-        res(mp_[i][0], 0) = mv_[i];
+        res(mp_[i][0], 0) += mv_[i];
     return res;
 }
 
-- 
2.43.0


From 745e5dfe08f11b0cd8336dd68bfbe4a67916a810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:05 +0000
Subject: [PATCH 39/78] fix: magnitudes without function can be copied and
 assigned magnitudes release theirs

---
 src/core/source/magnitude/Magnitude.cpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/core/source/magnitude/Magnitude.cpp b/src/core/source/magnitude/Magnitude.cpp
index 4f3b63c..73c687a 100755
--- a/src/core/source/magnitude/Magnitude.cpp
+++ b/src/core/source/magnitude/Magnitude.cpp
@@ -34,8 +34,11 @@ Magnitude::Magnitude(Math::FunctionRR* mathFunction) {
 }
 
 Magnitude::Magnitude(const Magnitude& rhs) {
-    mathFunction_ =
-        dynamic_cast<Math::FunctionRR*>(rhs.mathFunction_->clone());
+    mathFunction_ = nullptr;
+    if (rhs.mathFunction_ != nullptr) {
+        mathFunction_ =
+            dynamic_cast<Math::FunctionRR*>(rhs.mathFunction_->clone());
+    }
 }
 
 Magnitude::~Magnitude() {
@@ -48,12 +51,21 @@ Magnitude& Magnitude::operator=(const Magnitude& rhs) {
     if (this == &rhs) {
         return *this;
     }
-    mathFunction_ =
-        dynamic_cast<Math::FunctionRR*>(rhs.mathFunction_->clone());
+    if (mathFunction_ != nullptr) {
+        delete mathFunction_;
+        mathFunction_ = nullptr;
+    }
+    if (rhs.mathFunction_ != nullptr) {
+        mathFunction_ =
+            dynamic_cast<Math::FunctionRR*>(rhs.mathFunction_->clone());
+    }
     return *this;
 }
 
 bool Magnitude::operator ==(const Magnitude& rhs) const {
+    if (mathFunction_ == nullptr || rhs.mathFunction_ == nullptr) {
+        return mathFunction_ == rhs.mathFunction_;
+    }
     return *mathFunction_ == *rhs.mathFunction_;
 }
 
-- 
2.43.0


From f43fed519fb964eb1cb958c15012a5148c839cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:05 +0000
Subject: [PATCH 40/78] fix: numerical magnitudes keep their first and last
 samples

---
 src/core/source/magnitude/Numerical.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/source/magnitude/Numerical.cpp b/src/core/source/magnitude/Numerical.cpp
index d07d98c..56ff9d2 100755
--- a/src/core/source/magnitude/Numerical.cpp
+++ b/src/core/source/magnitude/Numerical.cpp
@@ -81,7 +81,7 @@ Numerical::Numerical(const FileSystem::Project& file,
         const Math::Real current = mag.evaluate(time);
         bool isAligned = Math::Util::equal(current, interpolated,
                 0.0, std::numeric_limits<Math::Real>::epsilon());
-        if (!isAligned) {
+        if (!isAligned || i == 0 || i + 1 == nSteps) {
             out << std::setw(16) << std::setfill(' ') << time 
                 << std::setw(18) << std::setfill(' ') << current 
                 << std::endl;
-- 
2.43.0


From c2353fb2da617f011f5321fa684c7b39234d9244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:05 +0000
Subject: [PATCH 41/78] fix: end of files does not add a null point to
 interpolated functions

---
 src/core/math/function/LinearInterpolation.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/core/math/function/LinearInterpolation.hpp b/src/core/math/function/LinearInterpolation.hpp
index 7149542..8e60c3a 100755
--- a/src/core/math/function/LinearInterpolation.hpp
+++ b/src/core/math/function/LinearInterpolation.hpp
@@ -112,9 +112,8 @@ void LinearInterpolation<S, T>::initFromFile(
                                      std::string(" does not exist"));
     }
 
-    while (!iStream.eof()) {
-        std::pair<Real, Real> value;
-        iStream >> value.first >> value.second;
+    std::pair<Real, Real> value;
+    while (iStream >> value.first >> value.second) {
         value_.insert(value);
     }
 
-- 
2.43.0


From c4215e92a0a4095ffab26e5ccbf5fa4832b1fd39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:29 +0000
Subject: [PATCH 42/78] fix: assigned sources have a magnitude of their own

---
 src/core/source/Source.cpp | 14 ++++++++++++++
 src/core/source/Source.h   |  2 ++
 2 files changed, 16 insertions(+)

diff --git a/src/core/source/Source.cpp b/src/core/source/Source.cpp
index 56f6cbf..162239d 100755
--- a/src/core/source/Source.cpp
+++ b/src/core/source/Source.cpp
@@ -48,6 +48,20 @@ Base::~Base() {
     }
 }
 
+Base& Base::operator=(const Base& rhs) {
+    if (this == &rhs) {
+        return *this;
+    }
+    if (magnitude_ != nullptr) {
+        delete magnitude_;
+        magnitude_ = nullptr;
+    }
+    if (rhs.magnitude_ != nullptr) {
+        magnitude_ = rhs.magnitude_->cloneTo<Magnitude::Magnitude>();
+    }
+    return *this;
+}
+
 std::string Base::getMagnitudeFilename() const {
     const Magnitude::Numerical* mag =
             dynamic_cast<const Magnitude::Numerical*>(magnitude_);
diff --git a/src/core/source/Source.h b/src/core/source/Source.h
index 5b81f53..0a8b937 100755
--- a/src/core/source/Source.h
+++ b/src/core/source/Source.h
@@ -46,6 +46,8 @@ public:
     Base(const Base& rhs);
     virtual ~Base();
 
+    Base& operator=(const Base& rhs);
+
     virtual Geometry::Element::Group<const Geometry::Elem> elems() const = 0;
 
     virtual void set(
-- 
2.43.0


From 1f5ba0169a719123def579b486c65cce58e7ab28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:09 +0000
Subject: [PATCH 43/78] fix: magnetic weights of coaxial ports turn around
 their origin

---
 src/core/source/port/TEMCoaxial.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/source/port/TEMCoaxial.cpp b/src/core/source/port/TEMCoaxial.cpp
index 4d3c5d8..938abd6 100755
--- a/src/core/source/port/TEMCoaxial.cpp
+++ b/src/core/source/port/TEMCoaxial.cpp
@@ -74,7 +74,8 @@ Math::CVecR3 TEMCoaxial::getWeight(
     }
     case ExcitationMode::current:
     {
-        const Math::CVecR3 phiHat = (Math::CVecR3(0,0,1) ^ pos).normalize();
+        const Math::CVecR3 phiHat = 
+                (Math::CVecR3(0,0,1) ^ (pos - getOrigin())).normalize();
         return phiHat / (2.0 * Math::Constants::pi * rho);
     }
     default:
-- 
2.43.0


From d6454c342f7d11391901848283c508739d45a1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:09 +0000
Subject: [PATCH 44/78] fix: TM weights of rectangular waveguides are those of
 the mode

---
 src/core/source/port/WaveguideRectangular.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/source/port/WaveguideRectangular.cpp b/src/core/source/port/WaveguideRectangular.cpp
index 9f6b991..ef3beb5 100755
--- a/src/core/source/port/WaveguideRectangular.cpp
+++ b/src/core/source/port/WaveguideRectangular.cpp
@@ -83,7 +83,7 @@ Math::CVecR3 WaveguideRectangular::getWeight(
         res(Math::Constants::x) = - m * cos(m * rPos(Math::Constants::x)) *
                                         sin(n * rPos(Math::Constants::y)) /
                                         normFactor;
-        res(Math::Constants::y) = - m * sin(m * rPos(Math::Constants::x)) *
+        res(Math::Constants::y) = - n * sin(m * rPos(Math::Constants::x)) *
                                         cos(n * rPos(Math::Constants::y)) /
                                         normFactor;
         res(Math::Constants::z) = (Math::Real) 0.0;
-- 
2.43.0


From c851770070c083e5bfb7b533a302439aed6f4066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:09 +0000
Subject: [PATCH 45/78] fix: TE weights of rectangular waveguides have no
 divergence

---
 src/core/source/port/WaveguideRectangular.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/source/port/WaveguideRectangular.cpp b/src/core/source/port/WaveguideRectangular.cpp
index ef3beb5..b343e94 100755
--- a/src/core/source/port/WaveguideRectangular.cpp
+++ b/src/core/source/port/WaveguideRectangular.cpp
@@ -72,7 +72,7 @@ Math::CVecR3 WaveguideRectangular::getWeight(
     }
     //const Math::Real betaC = sqrt(pow(m,2) + pow(n,2));
     if (getExcitationMode() == Waveguide::TE) {
-        res(Math::Constants::x) =   n * cos(m * rPos(Math::Constants::x)) *
+        res(Math::Constants::x) = - n * cos(m * rPos(Math::Constants::x)) *
                                         sin(n * rPos(Math::Constants::y)) /
                                         normFactor;
         res(Math::Constants::y) =   m * sin(m * rPos(Math::Constants::x)) *
-- 
2.43.0


From 3aa036aa84d2b0f47ecbde0e50c9bce9fbac775c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:13 +0000
Subject: [PATCH 46/78] fix: Dispersive: keep the conductivity and do not read
 a pole that is not there

---
 src/core/physicalModel/volume/Dispersive.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/core/physicalModel/volume/Dispersive.cpp b/src/core/physicalModel/volume/Dispersive.cpp
index 4e1973c..d6ac94a 100755
--- a/src/core/physicalModel/volume/Dispersive.cpp
+++ b/src/core/physicalModel/volume/Dispersive.cpp
@@ -47,7 +47,8 @@ Dispersive::Dispersive(const Id id,
     if (magnCond != 0.0) {
         throw std::logic_error("Dispersive magnetic materials not implemented");
     }
-    poleResidue_ = poleResidue;
+    poleResidue_.insert(poleResidue_.end(),
+                        poleResidue.begin(), poleResidue.end());
 }
 
 Dispersive::Dispersive(const Id id,
@@ -104,7 +105,10 @@ bool Dispersive::isSimplyConductive() const {
     if (!file_.empty()) {
         return false;
     }
-    return (poleResidue_.size() <= 1 && std::abs(getPole(0)) == 0);
+    if (poleResidue_.empty()) {
+        return true;
+    }
+    return (poleResidue_.size() == 1 && std::abs(getPole(0)) == 0);
 }
 
 Math::Real Dispersive::getElectricConductivity() const {
-- 
2.43.0


From e09dd141606a877a281a0a991095c294fd902f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:13 +0000
Subject: [PATCH 47/78] fix: Wire::Extremes: assignment copies the multiports
 instead of sharing them

---
 src/core/physicalModel/wire/Extremes.cpp | 13 +++++++++++++
 src/core/physicalModel/wire/Extremes.h   |  2 ++
 2 files changed, 15 insertions(+)

diff --git a/src/core/physicalModel/wire/Extremes.cpp b/src/core/physicalModel/wire/Extremes.cpp
index ab96df8..0c6114a 100755
--- a/src/core/physicalModel/wire/Extremes.cpp
+++ b/src/core/physicalModel/wire/Extremes.cpp
@@ -63,8 +63,21 @@ Extremes::~Extremes() {
     }
 }
 
+Extremes& Extremes::operator=(const Extremes& rhs) {
+    if (this == &rhs) {
+        return *this;
+    }
+    Wire::operator=(rhs);
+    setExtreme(0, rhs.extreme_[0]);
+    setExtreme(1, rhs.extreme_[1]);
+    return *this;
+}
+
 void Extremes::setExtreme(const std::size_t i,
                           const Multiport::Multiport* extreme) {
+    if (extreme == extreme_[i]) {
+        return;
+    }
     if (extreme_[i] != nullptr) {
         delete extreme_[i];
     }
diff --git a/src/core/physicalModel/wire/Extremes.h b/src/core/physicalModel/wire/Extremes.h
index 26d0b05..84a8f6b 100755
--- a/src/core/physicalModel/wire/Extremes.h
+++ b/src/core/physicalModel/wire/Extremes.h
@@ -38,6 +38,8 @@ public:
     Extremes(const Extremes& rhs);
     virtual ~Extremes();
 
+    Extremes& operator=(const Extremes& rhs);
+
     SEMBA_CLASS_DEFINE_CLONE(Extremes);
 
     const Multiport::Multiport *getExtreme(const std::size_t i) const {
-- 
2.43.0


From 164804f5adf1476a9e8a148b451c65701e04dc21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:13 +0000
Subject: [PATCH 48/78] fix: Data: assignment releases what it held

---
 src/core/Data.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/core/Data.cpp b/src/core/Data.cpp
index 538db1a..cb6bdbc 100755
--- a/src/core/Data.cpp
+++ b/src/core/Data.cpp
@@ -101,6 +101,12 @@ Data& Data::operator=(const Data& rhs) {
         return *this;
     }
 
+    delete solver;
+    delete mesh;
+    delete physicalModels;
+    delete sources;
+    delete outputRequests;
+
     solver = nullptr;
     mesh = nullptr;
     physicalModels = nullptr;
-- 
2.43.0


From a9b8d2af8898ae937889746044ddc318c111a23d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:41 +0000
Subject: [PATCH 49/78] fix: OutputRequest: name the base request without
 ambiguity (the header was rejected by clang)

---
 src/core/outputRequest/OutputRequest.h   | 2 +-
 src/core/outputRequest/OutputRequest.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/outputRequest/OutputRequest.h b/src/core/outputRequest/OutputRequest.h
index aa44c3a..83ed0ef 100755
--- a/src/core/outputRequest/OutputRequest.h
+++ b/src/core/outputRequest/OutputRequest.h
@@ -88,7 +88,7 @@ public:
                   const Type outputType,
                   const std::string& name,
                   const Geometry::Element::Group<T>& elems);
-	OutputRequest(const OutputRequest::Base& rhs);
+	OutputRequest(const SEMBA::OutputRequest::Base& rhs);
     OutputRequest(const OutputRequest& rhs);
     virtual ~OutputRequest();
 
diff --git a/src/core/outputRequest/OutputRequest.hpp b/src/core/outputRequest/OutputRequest.hpp
index d33baba..f399079 100755
--- a/src/core/outputRequest/OutputRequest.hpp
+++ b/src/core/outputRequest/OutputRequest.hpp
@@ -46,7 +46,7 @@ OutputRequest<T>::OutputRequest(const OutputRequest<T>& rhs)
 }
 
 template<class T>
-OutputRequest<T>::OutputRequest(const OutputRequest::Base& rhs)
+OutputRequest<T>::OutputRequest(const SEMBA::OutputRequest::Base& rhs)
 	: Base(rhs) {
 }
 
-- 
2.43.0


From aa007e5498219b1a51dc7df25348bce93c1acc7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:25 +0000
Subject: [PATCH 50/78] fix: Argument::Object: erasing a member keeps the names
 of the others

---
 src/core/argument/Object.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/core/argument/Object.h b/src/core/argument/Object.h
index 0706994..5ccd6b0 100755
--- a/src/core/argument/Object.h
+++ b/src/core/argument/Object.h
@@ -212,9 +212,13 @@ public:
     }
     Object& eraseMember(const std::string& name) {
         if (existsName(name)) {
-            objMembers_ .erase(objMembers_.begin() + nameMembers_.at(name));
-            objName_    .erase(objName_   .begin() + nameMembers_.at(name));
+            const std::size_t pos = nameMembers_.at(name);
+            objMembers_ .erase(objMembers_.begin() + pos);
+            objName_    .erase(objName_   .begin() + pos);
             nameMembers_.erase(name);
+            for (std::size_t i = pos; i < objName_.size(); i++) {
+                nameMembers_[objName_[i]] = i;
+            }
         }
         return *this;
     }
-- 
2.43.0


From d445210000306d7a91a75868c5a321490bb0a803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:25 +0000
Subject: [PATCH 51/78] fix: Argument::Object: a part of an object can be
 assigned or added to it

---
 src/core/argument/Object.h | 22 ++++++----------------
 1 file changed, 6 insertions(+), 16 deletions(-)

diff --git a/src/core/argument/Object.h b/src/core/argument/Object.h
index 5ccd6b0..ab4c6fa 100755
--- a/src/core/argument/Object.h
+++ b/src/core/argument/Object.h
@@ -97,14 +97,13 @@ public:
     }
 
     Object& operator =(const Object& rhs) {
-        if (this == &rhs) {
-            return *this;
-        }
-        copy_(rhs);
+        Object aux(rhs); // rhs may be a part of this.
+        move_(std::move(aux));
         return *this;
     }
     Object& operator =(Object&& rhs) {
-        move_(std::move(rhs));
+        Object aux(std::move(rhs)); // rhs may be a part of this.
+        move_(std::move(aux));
         return *this;
     }
     template<typename... T>
@@ -191,14 +190,7 @@ public:
         return objMembers_.at(nameMembers_.at(name));
     }
     Object&   addMember(const std::string& name, const Object& val) {
-        setObject();
-        if (nameMembers_.count(name) == 0) {
-            nameMembers_[name] = objMembers_.size();
-            objMembers_.push_back(Object());
-            objName_   .push_back(name);
-        }
-        objMembers_.at(nameMembers_.at(name)) = val;
-        return *this;
+        return addMember(name, Object(val)); // val may be a part of this.
     }
     Object&   addMember(const std::string& name, Object&& val) {
         setObject();
@@ -243,9 +235,7 @@ public:
         return objMembers_.at(i);
     }
     Object&   addValue(const Object& val) {
-        setArray();
-        objMembers_.push_back(val);
-        return *this;
+        return addValue(Object(val)); // val may be a part of this.
     }
     Object&   addValue(Object&& val) {
         setArray();
-- 
2.43.0


From 1547468fb40331c993a3990ece6ae1f10c0215e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:25 +0000
Subject: [PATCH 52/78] fix: Argument::Object: a number that is set is read
 back unchanged

---
 src/core/argument/Object.h   |  2 ++
 src/core/argument/Object.hpp | 16 +++++++++++-----
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/core/argument/Object.h b/src/core/argument/Object.h
index ab4c6fa..06d3dc0 100755
--- a/src/core/argument/Object.h
+++ b/src/core/argument/Object.h
@@ -421,6 +421,8 @@ private:
         strValue_.clear();
     }
 
+    template<typename T>
+    static std::string toString_(const T&);
     template<typename T>
     void set_(const T&);
     template<typename T1, typename T2, typename... T>
diff --git a/src/core/argument/Object.hpp b/src/core/argument/Object.hpp
index adfc622..75acde5 100755
--- a/src/core/argument/Object.hpp
+++ b/src/core/argument/Object.hpp
@@ -81,17 +81,23 @@ Object& Object::set(const T&... params) {
 }
 
 template<typename T>
-void Object::set_(const T& param) {
+std::string Object::toString_(const T& param) {
+    typedef typename std::conditional<std::is_floating_point<T>::value,
+                                      T, Real>::type Precision;
     std::stringstream aux;
+    aux.precision(std::numeric_limits<Precision>::max_digits10);
     aux << param;
-    strValue_.push_back(aux.str());
+    return aux.str();
+}
+
+template<typename T>
+void Object::set_(const T& param) {
+    strValue_.push_back(toString_(param));
 }
 
 template<typename T1, typename T2, typename... T>
 void Object::set_(const T1& param1, const T2& param2, const T&... params) {
-    std::stringstream aux;
-    aux << param1;
-    strValue_.push_back(aux.str());
+    strValue_.push_back(toString_(param1));
     set_(param2, params...);
 }
 
-- 
2.43.0


From a0c148b5c485724762d13993137fcad356738944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:25 +0000
Subject: [PATCH 53/78] fix: Argument::Parser: setting the description does not
 recurse forever

---
 src/core/argument/Parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/argument/Parser.cpp b/src/core/argument/Parser.cpp
index 1b1177d..32e538c 100755
--- a/src/core/argument/Parser.cpp
+++ b/src/core/argument/Parser.cpp
@@ -47,7 +47,7 @@ Parser& Parser::usage(const std::string& usage) {
 }
 
 Parser& Parser::description(const std::string& desc) {
-    description(desc);
+    Group::description(desc);
     return *this;
 }
 
-- 
2.43.0


From f67b70623fb1d3ac557b5f04fa91808209915f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:25 +0000
Subject: [PATCH 54/78] fix: Argument::Parser: --name=value names the option
 before the equals sign

---
 src/core/argument/Parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/argument/Parser.cpp b/src/core/argument/Parser.cpp
index 32e538c..6930fd7 100755
--- a/src/core/argument/Parser.cpp
+++ b/src/core/argument/Parser.cpp
@@ -222,7 +222,7 @@ std::pair<Object, std::vector<std::string>> Parser::parse_() {
         } else if (getArgType_(*it) == ArgType::LongOpt) {
             std::size_t posEq = it->find("=");
             if (posEq != std::string::npos) {
-                arg.first  = it->substr(2, posEq);
+                arg.first  = it->substr(2, posEq - 2);
                 arg.second.clear();
                 if (!it->substr(posEq+1).empty()) {
                     arg.second.push_back(it->substr(posEq+1));
-- 
2.43.0


From d56b72bb32ac8f6fc18b6757bb960ff7f392bda5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:25 +0000
Subject: [PATCH 55/78] fix: Argument::Parser: report the values that no
 argument takes

---
 src/core/argument/Parser.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/core/argument/Parser.cpp b/src/core/argument/Parser.cpp
index 6930fd7..d48c633 100755
--- a/src/core/argument/Parser.cpp
+++ b/src/core/argument/Parser.cpp
@@ -361,16 +361,16 @@ std::pair<Object, std::vector<std::string>> Parser::parse_() {
                           unresolvedOptions[i].begin(),
                           unresolvedOptions[i].end());
     }
-    for (std::size_t i = 0; i < rem.size(); i++) {
-        if (!rem[i].empty()) {
+    for (std::size_t i = 0; i < positions.size(); i++) {
+        if (!positions[i].empty()) {
             res.second.push_back("--");
             break;
         }
     }
-    for (std::size_t i = 0; i < rem.size(); i++) {
-        input_.insert(input_.end(),
-                      rem[i].begin(),
-                      rem[i].end());
+    for (std::size_t i = 0; i < positions.size(); i++) {
+        res.second.insert(res.second.end(),
+                          positions[i].begin(),
+                          positions[i].end());
     }
     try {
         parsePostprocess(res.first);
-- 
2.43.0


From 36a7dc90615e0c074ca3e7ec460000998979e877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:25 +0000
Subject: [PATCH 56/78] fix: Argument::Group: a position that was given is not
 replaced by its default nor missed

---
 src/core/argument/GroupBase.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/argument/GroupBase.cpp b/src/core/argument/GroupBase.cpp
index a88d337..6893486 100755
--- a/src/core/argument/GroupBase.cpp
+++ b/src/core/argument/GroupBase.cpp
@@ -196,7 +196,7 @@ void GroupBase::parsePostprocess(Object& out) {
             throw Error::Group::Required(argsAll);
         }
     } else {
-        for (std::size_t i = 0; i < positions_.size(); i++) {
+        for (std::size_t i = lastPosParsed_; i < positions_.size(); i++) {
             std::string optName = positions_[i]->getName();
             Object aux;
             positions_[i]->notParsed(aux);
-- 
2.43.0


From 70ed30a7ffe3c9ccec6e24f0782dfd5c92951560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:25 +0000
Subject: [PATCH 57/78] fix: Argument::Parser: parsing again starts afresh

---
 src/core/argument/Group.cpp     | 7 +++++--
 src/core/argument/GroupBase.cpp | 5 +++++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/core/argument/Group.cpp b/src/core/argument/Group.cpp
index e38195c..687fa5a 100755
--- a/src/core/argument/Group.cpp
+++ b/src/core/argument/Group.cpp
@@ -103,9 +103,12 @@ MEGroup& Group::addMutuallyExclusiveGroup() {
 }
 
 void Group::parsePreprocess(Object& out) {
-    out.setObject();
+    GroupBase::parsePreprocess(out);
+    lastPosParsed_ = 0;
     for (std::size_t i = 0; i < child_.size(); i++) {
-        if (!child_[i]->isMutuallyExclusive()) {
+        if (child_[i]->isMutuallyExclusive()) {
+            child_[i]->parsePreprocess(out);
+        } else {
             Object aux;
             aux.setObject();
             child_[i]->parsePreprocess(aux);
diff --git a/src/core/argument/GroupBase.cpp b/src/core/argument/GroupBase.cpp
index 6893486..98a2e38 100755
--- a/src/core/argument/GroupBase.cpp
+++ b/src/core/argument/GroupBase.cpp
@@ -150,6 +150,11 @@ std::vector<std::string> GroupBase::possibleOptions(const std::string& id,
 }
 
 void GroupBase::parsePreprocess(Object& out) {
+    lastPosParsed_ = 0;
+    for (std::map<std::string, bool>::iterator
+         it = optionParsed_.begin(); it != optionParsed_.end(); ++it) {
+        it->second = false;
+    }
     out.setObject();
 }
 
-- 
2.43.0


From a9b550d0b2e14a8f829f1e7f39a59b0d8d34e10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:25 +0000
Subject: [PATCH 58/78] fix: Argument::Group: a refused argument leaves the
 accepted ones as they were

---
 src/core/argument/GroupBase.cpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/core/argument/GroupBase.cpp b/src/core/argument/GroupBase.cpp
index 98a2e38..931ebbe 100755
--- a/src/core/argument/GroupBase.cpp
+++ b/src/core/argument/GroupBase.cpp
@@ -250,18 +250,21 @@ OptionBase& GroupBase::addOption(OptionBase* arg) {
 }
 
 void GroupBase::addPositionProcess(GroupBase* child, PositionBase* pos) {
+    bool nameInserted = false;
     try {
         if (child == nullptr) {
             insertName(pos->getName());
+            nameInserted = true;
             positions_.push_back(pos);
         } else if (child->isMutuallyExclusive()) {
             insertName(pos->getName());
+            nameInserted = true;
         }
         if (parent_ != nullptr) {
             parent_->addPositionProcess(this, pos);
         }
     } catch (...) {
-        if (names_.count(pos->getName()) != 0) {
+        if (nameInserted) {
             names_.erase(pos->getName());
         }
         if ((child == nullptr) && !positions_.empty()) {
@@ -280,15 +283,21 @@ void GroupBase::addOptionProcess(GroupBase* child, OptionBase* opt) {
     } else {
         name = opt->getLongIdentifier();
     }
+    bool shortInserted = false;
+    bool longInserted = false;
+    bool nameInserted = false;
     try {
         if (opt->hasShortIdentifier()) {
             insertShortOpt(opt->getShortIdentifier(), name);
+            shortInserted = true;
         }
         if (opt->hasLongIdentifier()) {
             insertLongOpt(opt->getLongIdentifier(), name);
+            longInserted = true;
         }
         if (child == nullptr) {
             insertName(opt->getName());
+            nameInserted = true;
             if (optionName_.count(name) == 0) {
                 options_.push_back(opt);
                 optionName_[name] = opt;
@@ -298,20 +307,19 @@ void GroupBase::addOptionProcess(GroupBase* child, OptionBase* opt) {
             }
         } else if (child->isMutuallyExclusive()) {
             insertName(opt->getName());
+            nameInserted = true;
         }
         if (parent_ != nullptr) {
             parent_->addOptionProcess(this, opt);
         }
     } catch (...) {
-        if (names_.count(opt->getName()) != 0) {
+        if (nameInserted) {
             names_.erase(opt->getName());
         }
-        if (opt->hasShortIdentifier() &&
-            (shortOpts_.count(opt->getShortIdentifier()))) {
+        if (shortInserted) {
             shortOpts_.erase(opt->getShortIdentifier());
         }
-        if (opt->hasLongIdentifier() &&
-            (longOpts_.count(opt->getLongIdentifier()))) {
+        if (longInserted) {
             longOpts_.erase(opt->getLongIdentifier());
         }
         if ((child == nullptr) && !options_.empty()) {
-- 
2.43.0


From 43ca3e9e7e79693441087b300119ab67f248e898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:25 +0000
Subject: [PATCH 59/78] fix: Argument: a value that is not a choice is
 explained

---
 src/core/argument/Value.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/argument/Value.h b/src/core/argument/Value.h
index 4b58b83..27231aa 100755
--- a/src/core/argument/Value.h
+++ b/src/core/argument/Value.h
@@ -67,6 +67,7 @@ public:
             }
         }
         aux << ")";
+        str_ = aux.str();
     }
     virtual ~NotChoices() throw() {}
 
-- 
2.43.0


From 70ff2ab4dcbd246b7689b618730d41e3af7bcb78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:25 +0000
Subject: [PATCH 60/78] fix: Argument::MultiSwitch: can be copied

---
 src/core/argument/MultiSwitch.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/argument/MultiSwitch.cpp b/src/core/argument/MultiSwitch.cpp
index 02653e2..1d36257 100755
--- a/src/core/argument/MultiSwitch.cpp
+++ b/src/core/argument/MultiSwitch.cpp
@@ -58,7 +58,7 @@ MultiSwitch::MultiSwitch(const std::string& name,
 
 MultiSwitch::MultiSwitch(const MultiSwitch& rhs)
 :   Argument(rhs),
-    SwitchBase(rhs) {
+    OptionBase(rhs) {
     hasDefault_ = rhs.hasDefault_;
     default_    = rhs.default_;
 }
-- 
2.43.0


From d4f9132cdd93a41be960b5e8b79d733a7902ac14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:25 +0000
Subject: [PATCH 61/78] fix: Argument: the rest of a token does not swallow the
 value before it

---
 src/core/argument/StringParser.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/argument/StringParser.h b/src/core/argument/StringParser.h
index 1f2ea16..0b04c92 100755
--- a/src/core/argument/StringParser.h
+++ b/src/core/argument/StringParser.h
@@ -146,7 +146,7 @@ struct Details {
                     trim(used);
                     trim(remain);
                     if(!remain.empty()) {
-                        used = used.substr(0, used.find(remain));
+                        used = used.substr(0, used.rfind(remain));
                         inlist.push_front(remain);
                         trim(used);
                     }
@@ -184,7 +184,7 @@ struct Details {
                     trim(remain);
                     rem.clear();
                     if(!remain.empty()) {
-                        used = used.substr(0, used.find(remain));
+                        used = used.substr(0, used.rfind(remain));
                         rem.push_front(remain);
                         trim(used);
                     }
-- 
2.43.0


From 2811a3ef12a7b7dab8d43c63f4553725cf9068fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:58 +0000
Subject: [PATCH 62/78] fix: Project: asking for the base name does not modify
 the project

---
 src/core/filesystem/Project.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/filesystem/Project.cpp b/src/core/filesystem/Project.cpp
index 8549bd7..120e81a 100755
--- a/src/core/filesystem/Project.cpp
+++ b/src/core/filesystem/Project.cpp
@@ -129,7 +129,8 @@ std::string Project::getBasename() const {
     _splitpath(getFilename().c_str(), nullptr, nullptr, fname, ext);
     std::string res = std::string(fname) + ext;
 #else
-    std::string res(basename(const_cast<char*>(c_str())));
+    std::string name(c_str()); // basename modifies what it is given.
+    std::string res(basename(&name[0]));
 #endif
     return res;
 }
-- 
2.43.0


From d0ae9ff597a332ef64ccdd2f15a89ee180f9abf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:58 +0000
Subject: [PATCH 63/78] fix: Project: what does not exist is not a folder

---
 src/core/filesystem/Project.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/core/filesystem/Project.cpp b/src/core/filesystem/Project.cpp
index 120e81a..ca8154c 100755
--- a/src/core/filesystem/Project.cpp
+++ b/src/core/filesystem/Project.cpp
@@ -286,8 +286,7 @@ bool Project::checkExistance_(const std::string& fn) const {
     }
 #else
     struct stat sb;
-    exists = (stat(fn.c_str(), &sb) == 0);
-    exists &= S_ISDIR(sb.st_mode);
+    exists = (stat(fn.c_str(), &sb) == 0) && S_ISDIR(sb.st_mode);
 #endif
     return exists;
 }
@@ -316,8 +315,7 @@ bool Project::isFolder() const {
     return false;
 #else
     struct stat sb;
-    stat(c_str(), &sb);
-    return S_ISDIR(sb.st_mode);
+    return (stat(c_str(), &sb) == 0) && S_ISDIR(sb.st_mode);
 #endif
 }
 
-- 
2.43.0


From 22aabcbf5fdfcf6564f8cceab5c77b68b4cb479e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:58 +0000
Subject: [PATCH 64/78] fix: Project: relative paths start at the folder

---
 src/core/filesystem/Project.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/core/filesystem/Project.cpp b/src/core/filesystem/Project.cpp
index ca8154c..a4f9c64 100755
--- a/src/core/filesystem/Project.cpp
+++ b/src/core/filesystem/Project.cpp
@@ -299,9 +299,14 @@ Project Project::relativeTo(const Project& rhs) const {
         rhsFolder = rhs.getFolder();
     }
     std::string name = getFilename();
-    std::string res = name.substr(name.find(rhsFolder) + rhsFolder.length(),
-                                  name.length());
-    return Project(res);
+    if (!rhsFolder.empty() &&
+        (rhsFolder.find_last_of("/\\") != rhsFolder.length() - 1)) {
+        rhsFolder += "/";
+    }
+    if (name.compare(0, rhsFolder.length(), rhsFolder) != 0) {
+        return *this; // Not in the folder.
+    }
+    return Project(name.substr(rhsFolder.length()));
 }
 
 bool Project::isFolder() const {
-- 
2.43.0


From 122ef97ec7b442a1ff6c1a48145b5ce8977b25b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:58 +0000
Subject: [PATCH 65/78] fix: Project: a point in the name of a folder does not
 start an extension

---
 src/core/filesystem/Project.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/filesystem/Project.cpp b/src/core/filesystem/Project.cpp
index a4f9c64..9a562ee 100755
--- a/src/core/filesystem/Project.cpp
+++ b/src/core/filesystem/Project.cpp
@@ -346,6 +346,9 @@ std::string Project::getExtension() const {
     if (pos == std::string::npos) {
         return *this;
     }
+    if (find_first_of("/\\", pos) != std::string::npos) {
+        return *this; // The point belongs to a folder.
+    }
     if (pos == 0) {
         return *this;
     }
-- 
2.43.0


From 89a5882090a936fd96cdddb5c7e1f27c1798b680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:58 +0000
Subject: [PATCH 66/78] fix: Project: names reach the shell as one word

---
 src/core/filesystem/Project.cpp | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/core/filesystem/Project.cpp b/src/core/filesystem/Project.cpp
index 9a562ee..ec73b6d 100755
--- a/src/core/filesystem/Project.cpp
+++ b/src/core/filesystem/Project.cpp
@@ -37,6 +37,25 @@
 namespace SEMBA {
 namespace FileSystem {
 
+#ifndef _WIN32
+// The name as one word for the shell.
+static std::string quote(const std::string& name) {
+    std::string res = "'";
+    for (std::size_t i = 0; i < name.length(); i++) {
+        if (name[i] == '\'') {
+            res += "'\\''";
+        } else {
+            res += name[i];
+        }
+    }
+    return res + "'";
+}
+#else
+static std::string quote(const std::string& name) {
+    return name;
+}
+#endif
+
 Project::Project() {
 
 }
@@ -263,8 +282,8 @@ void Project::deleteDirIfExists_(const std::string& directory) const {
 
     // Deletes if exists.
     if (checkExistance_(directory)) {
-        std::string command = "rm -r ";
-        command += directory;
+        std::string command = "rm -r -- ";
+        command += quote(directory);
         if (system(command.c_str())) {
             std::cout << std::endl << "WARNING @ Project: ";
             std::cout << "System command failed to execute " << command
@@ -337,7 +356,7 @@ void Project::exec(const std::string arguments) const {
     if (!canExecute()) {
         throw std::ios_base::failure("Can not execute " + *this);
     }
-    std::string cmd = getFilename() + " " + arguments;
+    std::string cmd = quote(getFilename()) + " " + arguments;
     system(cmd.c_str());
 }
 
-- 
2.43.0


From 25c8a9c12d763b6351bff4583312794afbd35feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:23 +0000
Subject: [PATCH 67/78] fix: JSON parser: blanks before local axes do not join
 their numbers

---
 src/parser/json/Parser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/json/Parser.cpp b/src/parser/json/Parser.cpp
index 8bac27e..fe215c6 100755
--- a/src/parser/json/Parser.cpp
+++ b/src/parser/json/Parser.cpp
@@ -955,10 +955,10 @@ bool Parser::checkVersionCompatibility(const std::string& version) {
 Math::Axis::Local Parser::strToLocalAxes(const std::string& str) {
     std::size_t begin = str.find_first_of("{");
     std::size_t end = str.find_first_of("}");
-    Math::CVecR3 eulerAngles = strToCVecR3(str.substr(begin+1,end-1));
+    Math::CVecR3 eulerAngles = strToCVecR3(str.substr(begin+1,end-begin-1));
     begin = str.find_last_of("{");
     end = str.find_last_of("}");
-    Math::CVecR3 origin = strToCVecR3(str.substr(begin+1,end-1));
+    Math::CVecR3 origin = strToCVecR3(str.substr(begin+1,end-begin-1));
     return Math::Axis::Local(eulerAngles, origin);
 }
 
-- 
2.43.0


From 7557a4bca12063752158a69d4f7b66a9430e7689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:23 +0000
Subject: [PATCH 68/78] fix: JSON parser: a file without materials that uses
 one is not read through a null pointer

---
 src/parser/json/Parser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/json/Parser.cpp b/src/parser/json/Parser.cpp
index fe215c6..2c0d6a9 100755
--- a/src/parser/json/Parser.cpp
+++ b/src/parser/json/Parser.cpp
@@ -188,10 +188,10 @@ Source::Group<>* Parser::readSources(
 }
 
 PhysicalModel::Group<>* Parser::readPhysicalModels(const json& j){
+    PhysicalModel::Group<>* res = new PhysicalModel::Group<>();
     if (j.find("materials") == j.end()) {
-        return nullptr;
+        return res;
     }
-    PhysicalModel::Group<>* res = new PhysicalModel::Group<>();
     json mats = j.at("materials");
     for (json::const_iterator it = mats.begin(); it != mats.end(); ++it) {
         res->add(readPhysicalModel( *it ));
-- 
2.43.0


From ed1c2351b43fb9b60ebdec12e13ce2b10ce1dafb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:23 +0000
Subject: [PATCH 69/78] fix: Parser: ports follow the scaling of the mesh

---
 src/core/parser/Parser.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/core/parser/Parser.cpp b/src/core/parser/Parser.cpp
index 8508c09..3d99355 100755
--- a/src/core/parser/Parser.cpp
+++ b/src/core/parser/Parser.cpp
@@ -57,6 +57,13 @@ void Parser::postReadOperations(Data& res) const {
                 Math::Real scalingFactor =
                         res.solver->getSettings()("geometryScalingFactor").getReal();
                 res.mesh->applyScalingFactor(scalingFactor);
+                // Ports keep dimensions that depend on those of their elements.
+                if (scalingFactor != 1.0 && res.sources != nullptr) {
+                    for (std::size_t i = 0; i < res.sources->size(); i++) {
+                        Source::Base* source = (*res.sources)(i);
+                        source->set(source->elems());
+                    }
+                }
             }
             catch (...) {
                 std::cerr << "Unable to find geometryScalingFactor "
-- 
2.43.0


From 37304f1ce4c574e3dcbf84f929e5ef21ad88692a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:06 +0000
Subject: [PATCH 70/78] fix: JSON parser: a file that is cut or malformed is
 not read in part

---
 src/parser/json/Parser.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser/json/Parser.cpp b/src/parser/json/Parser.cpp
index 2c0d6a9..b7ea185 100755
--- a/src/parser/json/Parser.cpp
+++ b/src/parser/json/Parser.cpp
@@ -60,6 +60,7 @@ Data Parser::read(std::istream& stream) const {
     }
     catch( const std::exception & ex ) {
         std::cerr << ex.what() << std::endl;
+        throw;
     }
 
     Util::ProgressBar progress;
@@ -620,6 +621,7 @@ Geometry::Grid3 Parser::readGrids(const json& j) {
         }
         catch (const std::exception& ex) {
             std::cerr << ex.what() << std::endl;
+            throw;
         }
         std::vector<Math::Real> pos[3];
         pos[0] = jsonGridPos.at("xs").get<std::vector<double>>();
-- 
2.43.0


From 909bb26b1c1383e62d7dd9a69b376025e454a075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:20 +0000
Subject: [PATCH 71/78] fix: STL parser: each solid of a file has a layer with
 its own triangles

---
 src/parser/stl/Parser.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/parser/stl/Parser.cpp b/src/parser/stl/Parser.cpp
index ef2a5af..e0b3847 100755
--- a/src/parser/stl/Parser.cpp
+++ b/src/parser/stl/Parser.cpp
@@ -63,8 +63,7 @@ Data Parser::read(std::istream& stl) const {
 	stl.seekg(0); // Rewinds.
 	Geometry::Layer::Group<Geometry::Layer::Layer> lG;
     Geometry::Element::Group<Geometry::ElemR> eG;
-    while (stl.peek() != EOF) {
-        stl >> label;
+    while (stl >> label) {
         if (label == "solid") {
             std::string layerName;
             stl >> layerName;
@@ -73,7 +72,11 @@ Data Parser::read(std::istream& stl) const {
             std::string line;
             while (stl.peek() != EOF) {
                 std::getline(stl, line);
-                if (trim(line) == "outer loop") {
+                trim(line);
+                if (line.compare(0, 8, "endsolid") == 0) {
+                    break;
+                }
+                if (line == "outer loop") {
                     std::vector<const Geometry::CoordR3*> coord;
                     coord.reserve(3);
                     while (stl.peek() != EOF && label != "endloop") {
-- 
2.43.0


From 8fd2fcf449a0cd20fc612feaf18cb576f497d261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:20 +0000
Subject: [PATCH 72/78] fix: STL parser: facets without three vertices are
 refused

---
 src/parser/stl/Parser.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/parser/stl/Parser.cpp b/src/parser/stl/Parser.cpp
index e0b3847..e996b94 100755
--- a/src/parser/stl/Parser.cpp
+++ b/src/parser/stl/Parser.cpp
@@ -45,13 +45,15 @@ Data Parser::read(std::istream& stl) const {
     vertices.reserve(nLines);
 	
     stl.seekg(0); // Rewinds.
-    while (stl.peek() != EOF) {
-        stl >> label;
+    while (stl >> label) {
         if (label == "vertex") {
             Math::CVecR3 vertex;
             stl >> vertex(Math::Constants::x)
                 >> vertex(Math::Constants::y)
                 >> vertex(Math::Constants::z);
+            if (!stl) {
+                throw std::logic_error("STL vertex without coordinates.");
+            }
             vertices.push_back(vertex);
         }
     }
@@ -89,6 +91,10 @@ Data Parser::read(std::istream& stl) const {
                             coord.push_back(cG.getPos(pos));
                         }
                     }
+                    if (label != "endloop" || coord.size() != 3) {
+                        throw std::logic_error(
+                                "STL facets must have three vertices.");
+                    }
                     label.clear();
                     eG.addId(new Geometry::Tri3(Geometry::ElemId(0),
                                                 &coord[0], lay));
-- 
2.43.0


From 34ecac4710903471ebcdc71c55026eaedca238a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:20 +0000
Subject: [PATCH 73/78] fix: STL parser: names of solids can be missing or be
 any word

---
 src/parser/stl/Parser.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/parser/stl/Parser.cpp b/src/parser/stl/Parser.cpp
index e996b94..495c676 100755
--- a/src/parser/stl/Parser.cpp
+++ b/src/parser/stl/Parser.cpp
@@ -45,8 +45,11 @@ Data Parser::read(std::istream& stl) const {
     vertices.reserve(nLines);
 	
     stl.seekg(0); // Rewinds.
+    std::string line;
     while (stl >> label) {
-        if (label == "vertex") {
+        if (label == "solid" || label == "endsolid") {
+            std::getline(stl, line); // Names can be any word.
+        } else if (label == "vertex") {
             Math::CVecR3 vertex;
             stl >> vertex(Math::Constants::x)
                 >> vertex(Math::Constants::y)
@@ -67,11 +70,12 @@ Data Parser::read(std::istream& stl) const {
     Geometry::Element::Group<Geometry::ElemR> eG;
     while (stl >> label) {
         if (label == "solid") {
+            // The name is what follows in the line, if there is any.
             std::string layerName;
-            stl >> layerName;
+            std::getline(stl, line);
+            std::stringstream(line) >> layerName;
             Geometry::Layer::Layer* lay = 
                 lG.addId(new Geometry::Layer::Layer(layerName))(0);
-            std::string line;
             while (stl.peek() != EOF) {
                 std::getline(stl, line);
                 trim(line);
-- 
2.43.0


From bb12f805022d12dca6dc6752f94420410aef3d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:17 +0000
Subject: [PATCH 74/78] fix: VTK exporter: parts with the same name have files
 of their own

---
 src/exporter/vtk/Exporter.cpp | 9 ++++++++-
 src/exporter/vtk/Exporter.h   | 5 ++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/exporter/vtk/Exporter.cpp b/src/exporter/vtk/Exporter.cpp
index d39d262..1c14f60 100755
--- a/src/exporter/vtk/Exporter.cpp
+++ b/src/exporter/vtk/Exporter.cpp
@@ -156,12 +156,19 @@ void Exporter::writeMesh_(const Data* smb) {
 }
 
 void Exporter::writeFile_(const Group::Group<const Geometry::ElemR>& elems,
-                          const std::string& name,
+                          const std::string& title,
                           std::ofstream& outMain,
                           std::size_t& part) {
     if (elems.empty()) {
         return;
     }
+    // What has the name of something else does not overwrite its file.
+    std::string name = title;
+    for (std::size_t i = 2; !written_.insert(name).second; i++) {
+        std::stringstream aux;
+        aux << title << "_" << i;
+        name = aux.str();
+    }
     outMain << "    " << "<DataSet "
             << "group=\"" << name << "\" "
             << "part=\"" << part++ << "\" "
diff --git a/src/exporter/vtk/Exporter.h b/src/exporter/vtk/Exporter.h
index cbc6f77..6667f46 100755
--- a/src/exporter/vtk/Exporter.h
+++ b/src/exporter/vtk/Exporter.h
@@ -23,6 +23,7 @@
 #define SEMBA_EXPORTER_VTK_EXPORTER_H_
 
 #include <fstream>
+#include <set>
 #include <utility>
 #include <algorithm>
 
@@ -63,7 +64,7 @@ private:
     };
     void writeMesh_(const Data* smb);
     void writeFile_(const Group::Group<const Geometry::ElemR>& elems,
-                    const std::string& name,
+                    const std::string& title,
                     std::ofstream& outMain,
                     std::size_t& part);
     std::pair<std::vector<Math::CVecR3>, 
@@ -77,6 +78,8 @@ private:
             std::map<Geometry::CoordId, std::size_t>& mapCoords);
 
     static std::string makeValid_(const std::string&);
+
+    std::set<std::string> written_; // Names of the files of the collection.
 };
 
 } /* namespace VTK */
-- 
2.43.0


From 86c95b10ab4e2e0c78106acf400c6aad3360fc67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:17 +0000
Subject: [PATCH 75/78] fix: VTK exporter: names of parts cannot break the
 collection file

---
 src/exporter/vtk/Exporter.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/exporter/vtk/Exporter.cpp b/src/exporter/vtk/Exporter.cpp
index 1c14f60..ed80e1a 100755
--- a/src/exporter/vtk/Exporter.cpp
+++ b/src/exporter/vtk/Exporter.cpp
@@ -297,7 +297,12 @@ void Exporter::writeCells_(
 
 std::string Exporter::makeValid_(const std::string& allocator) {
     std::string res = allocator;
-    std::replace(res.begin(), res.end(), '/', '_');
+    static const std::string invalid = "/&<>\"";
+    for (std::size_t i = 0; i < res.size(); i++) {
+        if (invalid.find(res[i]) != std::string::npos) {
+            res[i] = '_';
+        }
+    }
     return res;
 }
 
-- 
2.43.0


From f096f66c3ce10a9c47c626a598cd3fc2ac641cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:19 +0000
Subject: [PATCH 76/78] fix: Connectivities: surfaces without volumes have no
 inner nor outer face

---
 src/core/geometry/graph/Connectivities.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/core/geometry/graph/Connectivities.cpp b/src/core/geometry/graph/Connectivities.cpp
index faaaef1..b00a89f 100755
--- a/src/core/geometry/graph/Connectivities.cpp
+++ b/src/core/geometry/graph/Connectivities.cpp
@@ -50,6 +50,9 @@ Connectivities::Connectivities(const Group::Group<const ElemR>& eG) {
 
 Face Connectivities::getNeighFace(const Face& face) const {
     const ElemR* elem = face.first;
+    if (elem == nullptr) {
+        return Face(nullptr, 0);
+    }
     const GraphElem* local = index_.find(elem->getId())->second;
     std::vector<const CoordR3*> localSideV =
         elem->getSideCoordinates(face.second);
@@ -80,6 +83,9 @@ Face Connectivities::getInnerFace(const SurfR* surf) const {
     const GraphElem* local = index_.find(surf->getId())->second;
     std::vector<const CoordR3*> localV = local->elem()->getCoordinates();
     Face face = getMatchingFace_(local, localV);
+    if (face.first == nullptr) {
+        return face;
+    }
     Math::CVecR3 faceNormal = face.first->getSideNormal(face.second);
     if ((surf->getNormal() == faceNormal) || isDomainBoundary(face)) {
         return face;
-- 
2.43.0


From e5c529dcaae449ed1338dd96290a715688c3edc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:19 +0000
Subject: [PATCH 77/78] fix: Connectivities: copies refer to elements of their
 own graph

---
 src/core/geometry/graph/Connectivities.cpp | 19 ++++++++++++++++
 src/core/geometry/graph/Connectivities.h   |  5 +++++
 src/core/geometry/graph/Graph.h            |  3 ++-
 src/core/geometry/graph/Graph.hpp          | 26 ++++++++++++++--------
 4 files changed, 43 insertions(+), 10 deletions(-)

diff --git a/src/core/geometry/graph/Connectivities.cpp b/src/core/geometry/graph/Connectivities.cpp
index b00a89f..9332a8e 100755
--- a/src/core/geometry/graph/Connectivities.cpp
+++ b/src/core/geometry/graph/Connectivities.cpp
@@ -35,12 +35,31 @@ Connectivities::Connectivities() {
 
 }
 
+Connectivities::Connectivities(const Connectivities& rhs)
+:   graph_(rhs.graph_) {
+    indexElems_();
+}
+
 Connectivities::~Connectivities() {
 }
 
+Connectivities& Connectivities::operator=(const Connectivities& rhs) {
+    if (this == &rhs) {
+        return *this;
+    }
+    graph_ = rhs.graph_;
+    indexElems_();
+    return *this;
+}
+
 Connectivities::Connectivities(const Group::Group<const ElemR>& eG) {
     // Generates graph.
     graph_.init(eG);
+    indexElems_();
+}
+
+void Connectivities::indexElems_() {
+    index_.clear();
     for (std::size_t i = 0; i < graph_.numElems(); i++) {
         GraphElem* graphElem = graph_.elem(i);
         ElemId id = graphElem->elem()->getId();
diff --git a/src/core/geometry/graph/Connectivities.h b/src/core/geometry/graph/Connectivities.h
index 74133b5..bf64984 100755
--- a/src/core/geometry/graph/Connectivities.h
+++ b/src/core/geometry/graph/Connectivities.h
@@ -37,9 +37,12 @@ public:
     typedef Element<ElemR,CoordR3> GraphElem;
 
     Connectivities();
+    Connectivities(const Connectivities&);
     Connectivities(const Group::Group<const ElemR>& eG);
     virtual ~Connectivities();
 
+    Connectivities& operator=(const Connectivities&);
+
     std::size_t size() const;
 
     // Returns face of volume matching given face.
@@ -61,6 +64,8 @@ private:
     Vertices<ElemR,CoordR3> graph_;
     std::map<ElemId, const GraphElem*> index_;
 
+    void indexElems_();
+
     Face getMatchingFace_(
             const GraphElem* local,
             const std::vector<const CoordR3*> localSideV) const;
diff --git a/src/core/geometry/graph/Graph.h b/src/core/geometry/graph/Graph.h
index eddf1a7..2f0451d 100755
--- a/src/core/geometry/graph/Graph.h
+++ b/src/core/geometry/graph/Graph.h
@@ -46,7 +46,7 @@ public:
 
     virtual Graph& init(const Group::Group<const Elem>& elems) = 0;
 
-    //Graph& operator=(const Graph&);
+    Graph& operator=(const Graph&);
 
     std::size_t numElems () const { return elems_.size();  }
     std::size_t numBounds() const { return bounds_.size(); }
@@ -66,6 +66,7 @@ protected:
     std::vector<GraphBound*> bounds_;
 
 private:
+    void clear_();
     void cloneInfo(const Graph&);
 };
 
diff --git a/src/core/geometry/graph/Graph.hpp b/src/core/geometry/graph/Graph.hpp
index 3ec07d1..9f7d197 100755
--- a/src/core/geometry/graph/Graph.hpp
+++ b/src/core/geometry/graph/Graph.hpp
@@ -39,23 +39,31 @@ Graph<ELEM,BOUND>::Graph(const Graph& rhs) {
 
 template<class ELEM, class BOUND>
 Graph<ELEM,BOUND>::~Graph() {
+    clear_();
+}
+
+template<class ELEM, class BOUND>
+Graph<ELEM,BOUND>& Graph<ELEM,BOUND>::operator=(const Graph& rhs) {
+    if (this == &rhs) {
+        return *this;
+    }
+    clear_();
+    cloneInfo(rhs);
+    return *this;
+}
+
+template<class ELEM, class BOUND>
+void Graph<ELEM,BOUND>::clear_() {
     for (std::size_t i = 0; i < elems_.size(); i++) {
         delete elems_[i];
     }
     for (std::size_t i = 0; i < bounds_.size(); i++) {
         delete bounds_[i];
     }
+    elems_.clear();
+    bounds_.clear();
 }
 
-//template<class ELEM, class BOUND>
-//Graph<ELEM,BOUND>& Graph<ELEM,BOUND>::operator=(const Graph& rhs) {
-//    if (this == &rhs) {
-//        return *this;
-//    }
-//    cloneInfo(rhs);
-//    return *this;
-//}
-
 template<class ELEM, class BOUND>
 void Graph<ELEM,BOUND>::printInfo() const {
     std::cout << "--- Graph Info ---" << std::endl;
-- 
2.43.0


From 901d68113d32a00bbe54f79c79a04334abcf9ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:10 +0000
Subject: [PATCH 78/78] fix: Mesher options: snapping is off unless asked for

---
 src/mesher/Options.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mesher/Options.cpp b/src/mesher/Options.cpp
index aec0797..4d1d8b6 100755
--- a/src/mesher/Options.cpp
+++ b/src/mesher/Options.cpp
@@ -43,6 +43,7 @@ Options::Options() {
     contourRefinement_ = false;
     unwantedConnectionsInfo_ = false;
     structuredCellsInfo_ = false;
+    snap_ = false;
     slanted_ = false;
     slantedThreshold_ = 1.0;
     gridStep_ = Math::CVecR3(0.0);
-- 
2.43.0

