From ab5c86acec8ab402ecdd17493ddaf85ab696fec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:51:11 +0000
Subject: [PATCH 01/29] fix: size the result of matrix-vector products by the
 dimension that remains

vec<R> * mat<R, C> returned a vec<R> and wrote C components into it (out of bounds
for C > R); mat<R, C> * vec<C> accumulated into a vec<C> and did not compile for
R != C. The homogeneous overloads had the dimensions swapped in the same way.
---
 include/vecmath/mat.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/vecmath/mat.h b/include/vecmath/mat.h
index c511ec8..8b16c7b 100644
--- a/include/vecmath/mat.h
+++ b/include/vecmath/mat.h
@@ -574,8 +574,8 @@ constexpr mat<T, R, C> operator/(const mat<T, R, C>& lhs, const T rhs) {
  * @return the product of the given vector and the given matrix
  */
 template <typename T, std::size_t R, std::size_t C>
-constexpr vec<T, R> operator*(const vec<T, R>& lhs, const mat<T, R, C>& rhs) {
-  vec<T, R> result;
+constexpr vec<T, C> operator*(const vec<T, R>& lhs, const mat<T, R, C>& rhs) {
+  vec<T, C> result;
   for (size_t c = 0; c < C; c++) {
     result[c] = dot(lhs, rhs[c]);
   }
@@ -594,7 +594,7 @@ constexpr vec<T, R> operator*(const vec<T, R>& lhs, const mat<T, R, C>& rhs) {
  */
 template <typename T, std::size_t R, std::size_t C>
 constexpr vec<T, R> operator*(const mat<T, R, C>& lhs, const vec<T, C>& rhs) {
-  vec<T, C> result;
+  vec<T, R> result;
   for (size_t r = 0; r < R; r++) {
     for (size_t c = 0; c < C; ++c) {
       result[r] += lhs[c][r] * rhs[c];
@@ -614,7 +614,7 @@ constexpr vec<T, R> operator*(const mat<T, R, C>& lhs, const vec<T, C>& rhs) {
  * @return the product of the given vector and the given matrix
  */
 template <typename T, std::size_t R, std::size_t C>
-constexpr vec<T, C - 1> operator*(const mat<T, R, C>& lhs, const vec<T, C - 1>& rhs) {
+constexpr vec<T, R - 1> operator*(const mat<T, R, C>& lhs, const vec<T, C - 1>& rhs) {
   return to_cartesian_coords(lhs * to_homogeneous_coords(rhs));
 }
 
@@ -629,7 +629,7 @@ constexpr vec<T, C - 1> operator*(const mat<T, R, C>& lhs, const vec<T, C - 1>&
  * @return the product of the given vector and the given matrix
  */
 template <typename T, std::size_t R, std::size_t C>
-constexpr vec<T, R - 1> operator*(const vec<T, R - 1>& lhs, const mat<T, R, C>& rhs) {
+constexpr vec<T, C - 1> operator*(const vec<T, R - 1>& lhs, const mat<T, R, C>& rhs) {
   return to_cartesian_coords(to_homogeneous_coords(lhs) * rhs);
 }
 
-- 
2.43.0


From 7fe02dc3ded990f44006afeedcd3968da98656a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:51:11 +0000
Subject: [PATCH 02/29] fix: make transpose work for matrices that are not
 square

---
 include/vecmath/mat.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/vecmath/mat.h b/include/vecmath/mat.h
index 8b16c7b..e619099 100644
--- a/include/vecmath/mat.h
+++ b/include/vecmath/mat.h
@@ -664,10 +664,10 @@ constexpr mat<T, R, C> set(mat<T, R, C> m, const std::size_t r, const std::size_
  */
 template <typename T, std::size_t R, std::size_t C>
 constexpr mat<T, C, R> transpose(const mat<T, R, C>& m) {
-  mat<T, C, R> result(m);
+  mat<T, C, R> result;
   for (std::size_t c = 0u; c < C; ++c) {
-    for (std::size_t r = c + 1u; r < R; ++r) {
-      detail::swap(result[c][r], result[r][c]);
+    for (std::size_t r = 0u; r < R; ++r) {
+      result[r][c] = m[c][r];
     }
   }
   return result;
-- 
2.43.0


From 52bee790ce8075d83b0d388548fc7b6ad3a2a6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:51:11 +0000
Subject: [PATCH 03/29] fix: check the column count of a matrix slice against
 the columns

A slice of a tall matrix could read past the last column, and valid slices of wide
matrices were rejected.
---
 include/vecmath/mat.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vecmath/mat.h b/include/vecmath/mat.h
index e619099..b3fc250 100644
--- a/include/vecmath/mat.h
+++ b/include/vecmath/mat.h
@@ -688,7 +688,7 @@ constexpr mat<T, C, R> transpose(const mat<T, R, C>& m) {
  */
 template <std::size_t RR, std::size_t RC, typename T, std::size_t R, std::size_t C>
 constexpr mat<T, RR, RC> slice(const mat<T, R, C>& m, const size_t r, const size_t c) {
-  static_assert(RR <= R && RC <= R, "slice must not exceed matrix");
+  static_assert(RR <= R && RC <= C, "slice must not exceed matrix");
   assert(r <= R - RR && c <= C - RC);
   mat<T, RR, RC> result;
   for (std::size_t row = 0u; row < RR; ++row) {
-- 
2.43.0


From 95814d263517854a1fc2415935425b0ae1584af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:34 +0000
Subject: [PATCH 04/29] fix: scale every component when multiplying a
 quaternion by a scalar

The product scaled the real part only and left the imaginary part unchanged.
---
 include/vecmath/quat.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/vecmath/quat.h b/include/vecmath/quat.h
index f193588..6069f65 100644
--- a/include/vecmath/quat.h
+++ b/include/vecmath/quat.h
@@ -233,7 +233,7 @@ template <typename T> constexpr quat<T> operator-(const quat<T>& q) {
  * @return the multiplied quaternion
  */
 template <typename T> constexpr quat<T> operator*(const quat<T> lhs, const T rhs) {
-  return quat<T>(lhs.r * rhs, lhs.v);
+  return quat<T>(lhs.r * rhs, lhs.v * rhs);
 }
 
 /**
@@ -245,7 +245,7 @@ template <typename T> constexpr quat<T> operator*(const quat<T> lhs, const T rhs
  * @return the multiplied quaternion
  */
 template <typename T> constexpr quat<T> operator*(const T lhs, const quat<T>& rhs) {
-  return quat<T>(lhs * rhs.r, rhs.v);
+  return quat<T>(lhs * rhs.r, lhs * rhs.v);
 }
 
 /**
-- 
2.43.0


From e1a87a592692e51730126ed933d183d76223face Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:34 +0000
Subject: [PATCH 05/29] fix: make shear_bbox_matrix compile for component types
 other than double

The double literals made the template argument deduction of shear_matrix ambiguous.
---
 include/vecmath/mat_ext.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/vecmath/mat_ext.h b/include/vecmath/mat_ext.h
index 9c4bebc..3f6b8ca 100644
--- a/include/vecmath/mat_ext.h
+++ b/include/vecmath/mat_ext.h
@@ -636,22 +636,22 @@ constexpr mat<T, 4, 4> shear_bbox_matrix(
   mat<T, 4, 4> shearMat;
   if (sideToShear == vec<T, 3>::pos_x()) {
     const auto relativeDelta = delta / oldSize.x();
-    shearMat = shear_matrix(relativeDelta.y(), relativeDelta.z(), 0., 0., 0., 0.);
+    shearMat = shear_matrix<T>(relativeDelta.y(), relativeDelta.z(), 0., 0., 0., 0.);
   } else if (sideToShear == vec<T, 3>::neg_x()) {
     const auto relativeDelta = delta / oldSize.x();
-    shearMat = shear_matrix(-relativeDelta.y(), -relativeDelta.z(), 0., 0., 0., 0.);
+    shearMat = shear_matrix<T>(-relativeDelta.y(), -relativeDelta.z(), 0., 0., 0., 0.);
   } else if (sideToShear == vec<T, 3>::pos_y()) {
     const auto relativeDelta = delta / oldSize.y();
-    shearMat = shear_matrix(0., 0., relativeDelta.x(), relativeDelta.z(), 0., 0.);
+    shearMat = shear_matrix<T>(0., 0., relativeDelta.x(), relativeDelta.z(), 0., 0.);
   } else if (sideToShear == vec<T, 3>::neg_y()) {
     const auto relativeDelta = delta / oldSize.y();
-    shearMat = shear_matrix(0., 0., -relativeDelta.x(), -relativeDelta.z(), 0., 0.);
+    shearMat = shear_matrix<T>(0., 0., -relativeDelta.x(), -relativeDelta.z(), 0., 0.);
   } else if (sideToShear == vec<T, 3>::pos_z()) {
     const auto relativeDelta = delta / oldSize.z();
-    shearMat = shear_matrix(0., 0., 0., 0., relativeDelta.x(), relativeDelta.y());
+    shearMat = shear_matrix<T>(0., 0., 0., 0., relativeDelta.x(), relativeDelta.y());
   } else if (sideToShear == vec<T, 3>::neg_z()) {
     const auto relativeDelta = delta / oldSize.z();
-    shearMat = shear_matrix(0., 0., 0., 0., -relativeDelta.x(), -relativeDelta.y());
+    shearMat = shear_matrix<T>(0., 0., 0., 0., -relativeDelta.x(), -relativeDelta.y());
   }
 
   // grab any vertex on side that is opposite the one being sheared.
-- 
2.43.0


From 24f49143ff71f61d7045ef44f5f5d0ebbb59176d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:34 +0000
Subject: [PATCH 06/29] fix: size the results of matrix products with lists of
 vectors like those with a single vector

---
 include/vecmath/mat_ext.h | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/include/vecmath/mat_ext.h b/include/vecmath/mat_ext.h
index 3f6b8ca..3520f6c 100644
--- a/include/vecmath/mat_ext.h
+++ b/include/vecmath/mat_ext.h
@@ -42,8 +42,8 @@ namespace vm {
  * @return a list of the the products of the given vectors and the given matrix
  */
 template <typename T, std::size_t R, std::size_t C>
-std::vector<vec<T, C>> operator*(const mat<T, R, C>& lhs, const std::vector<vec<T, C>>& rhs) {
-  std::vector<vec<T, C>> result;
+std::vector<vec<T, R>> operator*(const mat<T, R, C>& lhs, const std::vector<vec<T, C>>& rhs) {
+  std::vector<vec<T, R>> result;
   result.reserve(rhs.size());
   for (const auto& v : rhs) {
     result.push_back(lhs * v);
@@ -63,9 +63,9 @@ std::vector<vec<T, C>> operator*(const mat<T, R, C>& lhs, const std::vector<vec<
  * @return an array of the the products of the given vectors and the given matrix
  */
 template <typename T, std::size_t N, std::size_t R, std::size_t C>
-constexpr std::array<vec<T, C>, N> operator*(
+constexpr std::array<vec<T, R>, N> operator*(
   const mat<T, R, C>& lhs, const std::array<vec<T, C>, N>& rhs) {
-  std::array<vec<T, C>, N> result{};
+  std::array<vec<T, R>, N> result{};
   for (std::size_t i = 0u; i < N; ++i) {
     result[i] = lhs * rhs[i];
   }
@@ -83,9 +83,9 @@ constexpr std::array<vec<T, C>, N> operator*(
  * @return a list of the the products of the given vectors and the given matrix
  */
 template <typename T, std::size_t R, std::size_t C>
-std::vector<vec<T, C - 1>> operator*(
+std::vector<vec<T, R - 1>> operator*(
   const mat<T, R, C>& lhs, const std::vector<vec<T, C - 1>>& rhs) {
-  std::vector<vec<T, C - 1>> result;
+  std::vector<vec<T, R - 1>> result;
   result.reserve(rhs.size());
   for (const auto& v : rhs) {
     result.push_back(lhs * v);
@@ -105,9 +105,9 @@ std::vector<vec<T, C - 1>> operator*(
  * @return an array of the the products of the given vectors and the given matrix
  */
 template <typename T, std::size_t N, std::size_t R, std::size_t C>
-constexpr std::array<vec<T, C - 1>, N> operator*(
+constexpr std::array<vec<T, R - 1>, N> operator*(
   const mat<T, R, C>& lhs, const std::array<vec<T, C - 1>, N>& rhs) {
-  std::array<vec<T, C - 1>, N> result{};
+  std::array<vec<T, R - 1>, N> result{};
   for (std::size_t i = 0u; i < N; ++i) {
     result[i] = lhs * rhs[i];
   }
@@ -125,8 +125,8 @@ constexpr std::array<vec<T, C - 1>, N> operator*(
  * @return a list of the the products of the given vectors and the given matrix
  */
 template <typename T, std::size_t R, std::size_t C>
-std::vector<vec<T, R>> operator*(const std::vector<vec<T, R>>& lhs, const mat<T, R, C>& rhs) {
-  std::vector<vec<T, R>> result;
+std::vector<vec<T, C>> operator*(const std::vector<vec<T, R>>& lhs, const mat<T, R, C>& rhs) {
+  std::vector<vec<T, C>> result;
   result.reserve(lhs.size());
   for (const auto& v : lhs) {
     result.push_back(v * rhs);
@@ -146,9 +146,9 @@ std::vector<vec<T, R>> operator*(const std::vector<vec<T, R>>& lhs, const mat<T,
  * @return an array of the the products of the given vectors and the given matrix
  */
 template <typename T, std::size_t N, std::size_t R, std::size_t C>
-constexpr std::array<vec<T, R>, N> operator*(
+constexpr std::array<vec<T, C>, N> operator*(
   const std::array<vec<T, R>, N>& lhs, const mat<T, R, C>& rhs) {
-  std::array<vec<T, R>, N> result{};
+  std::array<vec<T, C>, N> result{};
   for (std::size_t i = 0u; i < N; ++i) {
     result[i] = lhs[i] * rhs;
   }
@@ -166,9 +166,9 @@ constexpr std::array<vec<T, R>, N> operator*(
  * @return a list of the the products of the given vectors and the given matrix
  */
 template <typename T, std::size_t R, std::size_t C>
-std::vector<vec<T, R - 1>> operator*(
+std::vector<vec<T, C - 1>> operator*(
   const std::vector<vec<T, R - 1>>& lhs, const mat<T, R, C>& rhs) {
-  std::vector<vec<T, R - 1>> result;
+  std::vector<vec<T, C - 1>> result;
   result.reserve(lhs.size());
   for (const auto& v : lhs) {
     result.push_back(v * rhs);
@@ -188,9 +188,9 @@ std::vector<vec<T, R - 1>> operator*(
  * @return a list of the the products of the given vectors and the given matrix
  */
 template <typename T, std::size_t N, std::size_t R, std::size_t C>
-constexpr std::array<vec<T, R - 1>, N> operator*(
+constexpr std::array<vec<T, C - 1>, N> operator*(
   const std::array<vec<T, R - 1>, N>& lhs, const mat<T, R, C>& rhs) {
-  std::array<vec<T, R - 1>, N> result{};
+  std::array<vec<T, C - 1>, N> result{};
   for (std::size_t i = 0u; i < N; ++i) {
     result[i] = lhs[i] * rhs;
   }
-- 
2.43.0


From 2efe5a9e04c4a215d68845353a73198a348bd594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:40 +0000
Subject: [PATCH 07/29] fix: bbox::builder returns an empty box at the origin
 until something is added

bounds() documents this, but the builder marked itself as uninitialized by
holding an invalid box (min 1, max 0), which bounds() exposed.
---
 include/vecmath/bbox.h | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/include/vecmath/bbox.h b/include/vecmath/bbox.h
index f59db5f..3a8c9d7 100644
--- a/include/vecmath/bbox.h
+++ b/include/vecmath/bbox.h
@@ -45,15 +45,15 @@ public:
   class builder {
   private:
     bbox m_bounds;
+    bool m_initialized;
 
   public:
     /**
      * Creates a new unitialized instance.
      */
     constexpr builder()
-      : m_bounds(false) {
-      // put the bounds to an invalid state to signal that its unitialized
-    }
+      : m_bounds()
+      , m_initialized(false) {}
 
     /**
      * Returns the bounds. If the no point has been added, an empty bbox at the origin is returned.
@@ -63,7 +63,7 @@ public:
     /**
      * Returns whether anything has been added to this builder.
      */
-    constexpr bool initialized() const { return m_bounds.is_valid(); }
+    constexpr bool initialized() const { return m_initialized; }
 
     /**
      * Adds the given range of points.
@@ -87,6 +87,7 @@ public:
     constexpr void add(const vec<T, S>& point) {
       if (!initialized()) {
         m_bounds.min = m_bounds.max = point;
+        m_initialized = true;
       } else {
         m_bounds = merge(m_bounds, point);
       }
@@ -98,6 +99,7 @@ public:
     constexpr void add(const bbox& box) {
       if (!initialized()) {
         m_bounds = box;
+        m_initialized = true;
       } else {
         m_bounds = merge(m_bounds, box);
       }
@@ -181,16 +183,6 @@ public:
     assert(is_valid());
   }
 
-private:
-  /**
-   * This constructor is used by the builder to create an invalid bbox.
-   */
-  constexpr bbox(const bool)
-    : min(vec<T, S>::fill(T(1)))
-    , max(vec<T, S>::fill(T(0))) {
-    assert(!is_valid());
-  }
-
 public:
   /**
    * Creates the smallest bounding box that contains all points in the given range. Optionally
-- 
2.43.0


From bbbb968fbf90882d7b1e2441a2f110bd0f34c8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:05 +0000
Subject: [PATCH 08/29] fix: from_points applies the mapping function to the
 elements of the range

The mapping function was only used to deduce the component type.
---
 include/vecmath/plane.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/vecmath/plane.h b/include/vecmath/plane.h
index 0b96c53..fba2dfa 100644
--- a/include/vecmath/plane.h
+++ b/include/vecmath/plane.h
@@ -396,17 +396,17 @@ auto from_points(I cur, I end, const G& get = G())
   if (cur == end) {
     return std::make_tuple(false, plane<T, 3>());
   }
-  const auto p1 = *cur;
+  const auto p1 = get(*cur);
   ++cur;
   if (cur == end) {
     return std::make_tuple(false, plane<T, 3>());
   }
-  const auto p2 = *cur;
+  const auto p2 = get(*cur);
   ++cur;
   if (cur == end) {
     return std::make_tuple(false, plane<T, 3>());
   }
-  const auto p3 = *cur;
+  const auto p3 = get(*cur);
 
   return from_points(p1, p2, p3);
 }
-- 
2.43.0


From 230f52b93d53719f2f6d034f1da5351e02cc6d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:27 +0000
Subject: [PATCH 09/29] fix: segment::contains measures the distance to the
 segment

It compared the distance to the infinite line and cut it off at the wrong
position behind the end point, so that points within the given distance were
rejected and points beyond it accepted; a segment of length 0 contained nothing.
---
 include/vecmath/segment.h | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/include/vecmath/segment.h b/include/vecmath/segment.h
index dcae42e..b5ac5a5 100644
--- a/include/vecmath/segment.h
+++ b/include/vecmath/segment.h
@@ -119,13 +119,15 @@ public:
    * @return true if the given point is contained in this segment and false otherwise
    */
   bool contains(const vec<T, S>& point, const T maxDistance) const {
-    const auto f = distance_to_projected_point(*this, point);
-    if (f < -maxDistance || f * f > squared_length() + maxDistance * maxDistance) {
-      return false;
-    } else {
-      const auto proj = point_at_distance(*this, f);
-      return squared_distance(proj, point) <= (maxDistance * maxDistance);
-    }
+    // find the point of this segment that is closest to the given point
+    const auto delta = m_end - m_start;
+    const auto squaredLength = squared_length();
+    const auto f = squaredLength > static_cast<T>(0.0)
+                     ? clamp(
+                         dot(point - m_start, delta) / squaredLength, static_cast<T>(0.0),
+                         static_cast<T>(1.0))
+                     : static_cast<T>(0.0);
+    return squared_distance(m_start + delta * f, point) <= maxDistance * maxDistance;
   }
 
   /**
-- 
2.43.0


From 7c0453d2c76bf6ebf9c38984a59b0d4855d3600c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:33 +0000
Subject: [PATCH 10/29] fix: converted segments keep their points in order

Rounding the components can make two different points compare in the opposite
order, which broke the invariant that the start point is the smaller one.
---
 include/vecmath/segment.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/vecmath/segment.h b/include/vecmath/segment.h
index b5ac5a5..257d14a 100644
--- a/include/vecmath/segment.h
+++ b/include/vecmath/segment.h
@@ -77,8 +77,7 @@ public:
    */
   template <typename U>
   explicit constexpr segment(const segment<U, S>& other)
-    : m_start(other.start())
-    , m_end(other.end()) {}
+    : segment(vec<T, S>(other.start()), vec<T, S>(other.end())) {}
 
   /**
    * Returns the origin of this segment.
-- 
2.43.0


From 50a08ad73f5603db58fdd228358ffcae1f985fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:19 +0000
Subject: [PATCH 11/29] fix: compareUnoriented takes the differing second
 vertices into account

---
 include/vecmath/polygon.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/vecmath/polygon.h b/include/vecmath/polygon.h
index f6d8158..336f1bc 100644
--- a/include/vecmath/polygon.h
+++ b/include/vecmath/polygon.h
@@ -422,10 +422,8 @@ int compareUnoriented(
         const auto j = count - i;
         const auto cmp = compare(lhsVerts[i], rhsVerts[j], epsilon);
         if (cmp != 0) {
-          // Backward compare failed, so make a forward compare
-          return compare(
-            std::next(std::begin(lhsVerts), 2), std::end(lhsVerts),
-            std::next(std::begin(rhsVerts), 2), std::end(rhsVerts), epsilon);
+          // Backward compare failed, so the forward compare of the second vertices decides
+          return cmp1;
         }
         ++i;
       }
-- 
2.43.0


From e5ad0b8a54273ad8453d3f4563dba65e627da32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:19 +0000
Subject: [PATCH 12/29] fix: a converted polygon has its smallest vertex in
 front

---
 include/vecmath/polygon.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/vecmath/polygon.h b/include/vecmath/polygon.h
index 336f1bc..487cb79 100644
--- a/include/vecmath/polygon.h
+++ b/include/vecmath/polygon.h
@@ -110,6 +110,7 @@ public:
     for (const auto& vertex : other.vertices()) {
       m_vertices.push_back(vec<T, S>(vertex));
     }
+    rotate_min_to_front();
   }
 
   /**
-- 
2.43.0


From fa2597b5bd1f87194ea45d194249994438a7502e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:19 +0000
Subject: [PATCH 13/29] fix: polygon::rbegin and rend iterate in reverse

---
 include/vecmath/polygon.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/vecmath/polygon.h b/include/vecmath/polygon.h
index 487cb79..8a32a24 100644
--- a/include/vecmath/polygon.h
+++ b/include/vecmath/polygon.h
@@ -154,14 +154,14 @@ public:
    *
    * @return an iterator to the beginning of the vertices
    */
-  auto rbegin() const { return std::begin(m_vertices); }
+  auto rbegin() const { return std::rbegin(m_vertices); }
 
   /**
    * Returns an iterator to the end of the vertices.
    *
    * @return an iterator to the end of the vertices
    */
-  auto rend() const { return std::end(m_vertices); }
+  auto rend() const { return std::rend(m_vertices); }
 
   /**
    * Returns the vertices of this polygon.
-- 
2.43.0


From cdace6027135878a52bc47ff60fcf47ffdd653f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:19 +0000
Subject: [PATCH 14/29] fix: get_vertices writes through the output iterator

---
 include/vecmath/polygon.h | 2 +-
 include/vecmath/segment.h | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/vecmath/polygon.h b/include/vecmath/polygon.h
index 8a32a24..1f8adc0 100644
--- a/include/vecmath/polygon.h
+++ b/include/vecmath/polygon.h
@@ -230,7 +230,7 @@ public:
     while (cur != end) {
       const auto& polygon = *cur;
       for (const auto& vertex : polygon) {
-        out++ = vertex;
+        *out++ = vertex;
       }
       ++cur;
     }
diff --git a/include/vecmath/segment.h b/include/vecmath/segment.h
index 257d14a..35490c9 100644
--- a/include/vecmath/segment.h
+++ b/include/vecmath/segment.h
@@ -191,9 +191,9 @@ public:
   template <typename I, typename O> static void get_vertices(I cur, I end, O out) {
     while (cur != end) {
       const auto& segment = *cur;
-      out = segment.start();
+      *out = segment.start();
       ++out;
-      out = segment.end();
+      *out = segment.end();
       ++out;
       ++cur;
     }
-- 
2.43.0


From b980c918b9913ed21feebbe9fcaafac8a2b1f268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:25:08 +0000
Subject: [PATCH 15/29] fix: distance of a ray and a line when the ray origin
 is the closest point

---
 include/vecmath/distance.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/vecmath/distance.h b/include/vecmath/distance.h
index a708a71..697e087 100644
--- a/include/vecmath/distance.h
+++ b/include/vecmath/distance.h
@@ -438,8 +438,13 @@ constexpr line_distance<T> squared_distance(const ray<T, S>& r, const line<T, S>
     return line_distance<T>::Parallel(0, perpendicular_dist_squared, r_origin_on_l);
   }
 
-  const auto sc = max((b * e - c * d) / D, static_cast<T>(0.0));
-  const auto tc = (a * e - b * d) / D;
+  auto sc = (b * e - c * d) / D;
+  auto tc = (a * e - b * d) / D;
+  if (sc < static_cast<T>(0.0)) {
+    // the ray origin is the closest point on the ray
+    sc = static_cast<T>(0.0);
+    tc = e / c;
+  }
 
   const auto rp = r.origin + sc * r.direction; // point on ray
   const auto lp = l.point + tc * l.direction;  // point on line
-- 
2.43.0


From efa3c52cccfb66add344bd730a465cfe2855386f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:25:08 +0000
Subject: [PATCH 16/29] fix: distance of two rays when the first origin is the
 closest point

---
 include/vecmath/distance.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/vecmath/distance.h b/include/vecmath/distance.h
index 697e087..0f2a002 100644
--- a/include/vecmath/distance.h
+++ b/include/vecmath/distance.h
@@ -384,6 +384,13 @@ constexpr line_distance<T> squared_distance(const ray<T, S>& lhs, const ray<T, S
     tD = c;
   }
 
+  if (tN < static_cast<T>(0.0)) {
+    // the origin of the first ray is the closest point on it
+    tN = static_cast<T>(0.0);
+    sN = max(-d, static_cast<T>(0.0));
+    sD = a;
+  }
+
   const auto sc = is_zero(sN, constants<T>::almost_zero()) ? static_cast<T>(0.0) : sN / sD;
   const auto tc = max(
     is_zero(tN, constants<T>::almost_zero()) ? static_cast<T>(0.0) : tN / tD, static_cast<T>(0.0));
-- 
2.43.0


From 565d156532e52166e74a4c2d56d5be6153e76a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:25:08 +0000
Subject: [PATCH 17/29] fix: distance of parallel rays that point away from
 each other

---
 include/vecmath/distance.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/vecmath/distance.h b/include/vecmath/distance.h
index 0f2a002..f55f03c 100644
--- a/include/vecmath/distance.h
+++ b/include/vecmath/distance.h
@@ -371,6 +371,11 @@ constexpr line_distance<T> squared_distance(const ray<T, S>& lhs, const ray<T, S
     const T perpendicular_dist_squared =
       squared_distance(project_point(lhs, rhs.origin), rhs.origin);
 
+    if (rhs_origin_on_lhs < static_cast<T>(0) && lhs_origin_on_rhs < static_cast<T>(0)) {
+      // the rays point away from each other
+      return line_distance<T>::Parallel(0, squared_distance(lhs.origin, rhs.origin), 0);
+    }
+
     return line_distance<T>::Parallel(
       max(static_cast<T>(0), rhs_origin_on_lhs), perpendicular_dist_squared,
       max(static_cast<T>(0), lhs_origin_on_rhs));
-- 
2.43.0


From f9c1e93d0b4e315607939539fb52af4545e1e2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:25:08 +0000
Subject: [PATCH 18/29] fix: distance of a ray and a segment when the ray
 origin is the closest point

---
 include/vecmath/distance.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/vecmath/distance.h b/include/vecmath/distance.h
index f55f03c..a0ae619 100644
--- a/include/vecmath/distance.h
+++ b/include/vecmath/distance.h
@@ -312,6 +312,13 @@ line_distance<T> squared_distance(const ray<T, S>& r, const segment<T, S>& s) {
     tD = c;
   }
 
+  if (tN < static_cast<T>(0.0)) {
+    // the ray origin is the closest point on the ray
+    tN = static_cast<T>(0.0);
+    sN = clamp(-d, static_cast<T>(0.0), a);
+    sD = a;
+  }
+
   const auto sc = is_zero(sN, constants<T>::almost_zero()) ? static_cast<T>(0.0) : sN / sD;
   const auto tc = max(
     is_zero(tN, constants<T>::almost_zero()) ? static_cast<T>(0.0) : tN / tD, static_cast<T>(0.0));
-- 
2.43.0


From 4d2b3ff1e11f420ff3142056f8cab2da205997ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:28:18 +0000
Subject: [PATCH 19/29] fix: ray from inside a box with a zero direction
 component misses the box

---
 include/vecmath/intersection.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/vecmath/intersection.h b/include/vecmath/intersection.h
index 54a70d1..c38199b 100644
--- a/include/vecmath/intersection.h
+++ b/include/vecmath/intersection.h
@@ -28,6 +28,8 @@
 #include "util.h"
 #include "vec.h"
 
+#include <limits>
+
 namespace vm {
 
 namespace detail {
@@ -371,7 +373,8 @@ constexpr T intersect_ray_bbox(const ray<T, S>& r, const bbox<T, S>& b) {
     if (r.direction[i] != static_cast<T>(0.0)) {
       distances[i] = (origins[i] - r.origin[i]) / r.direction[i];
     } else {
-      distances[i] = static_cast<T>(-1.0);
+      // the ray is parallel to this plane: it never leaves the box through it if it started inside
+      distances[i] = inside[i] ? std::numeric_limits<T>::max() : static_cast<T>(-1.0);
     }
   }
 
-- 
2.43.0


From d5a241b51035126d2d9e96edfc0cbecf665d0083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:30:26 +0000
Subject: [PATCH 20/29] fix: polygon_contains_point miscounts vertices and
 edges on the scan line

---
 include/vecmath/intersection.h | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/include/vecmath/intersection.h b/include/vecmath/intersection.h
index c38199b..f70ba90 100644
--- a/include/vecmath/intersection.h
+++ b/include/vecmath/intersection.h
@@ -39,8 +39,8 @@ namespace detail {
  * @tparam T the component type
  * @param v0 the first segment vertex
  * @param v1 the second segment vertex
- * @return -1 if either segment vertex is identical to the origin, +1 if the segment intersects the
- * positve X axis, and 0 if it does not
+ * @return -1 if the segment contains the origin, +1 if it intersects the positve X axis, and 0 if it
+ * does not
  */
 template <typename T>
 constexpr int handle_polygon_edge_intersection(const vec<T, 3>& v0, const vec<T, 3>& v1) {
@@ -64,11 +64,13 @@ constexpr int handle_polygon_edge_intersection(const vec<T, 3>& v0, const vec<T,
    */
 
   // Does Y segment covered by the given edge touch the X axis at all?
-  if (
-    (is_zero(v0.y(), constants<T>::almost_zero()) &&
-     is_zero(v1.y(), constants<T>::almost_zero())) ||
-    (v0.y() > T(0.0) && v1.y() > T(0.0)) || (v0.y() < T(0.0) && v1.y() < T(0.0))) {
-    return 0;
+  if ((v0.y() > T(0.0)) == (v1.y() > T(0.0))) {
+    // If the edge lies on the X axis, then it may contain the origin.
+    return is_zero(v0.y(), constants<T>::almost_zero()) &&
+               is_zero(v1.y(), constants<T>::almost_zero()) &&
+               (v0.x() > T(0.0)) != (v1.x() > T(0.0))
+             ? -1
+             : 0;
   }
 
   // Is segment entirely on the positive side of the X axis?
-- 
2.43.0


From 982c3175c24ecf9e7e580c06d8ad38180c9a3348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:27 +0000
Subject: [PATCH 21/29] fix: operator>= between vectors and approximate vectors
 did not compile

---
 include/vecmath/approx.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/vecmath/approx.h b/include/vecmath/approx.h
index 0f287c3..8aebfde 100644
--- a/include/vecmath/approx.h
+++ b/include/vecmath/approx.h
@@ -174,11 +174,11 @@ public:
   }
 
   friend constexpr bool operator>=(const vec<T, S>& lhs, const approx<vec<T, S>>& rhs) {
-    return lhs >= (rhs.m_value - rhs.m_epsilon);
+    return lhs >= (rhs.m_value - vec<T, S>::fill(rhs.m_epsilon));
   }
 
   friend constexpr bool operator>=(const approx<vec<T, S>> lhs, const vec<T, S>& rhs) {
-    return lhs.m_value >= (rhs - lhs.m_epsilon);
+    return lhs.m_value >= (rhs - vec<T, S>::fill(lhs.m_epsilon));
   }
 
   friend std::ostream& operator<<(std::ostream& str, const approx<vec<T, S>>& a) {
-- 
2.43.0


From 478aae23e3a28ec42f920b1f08522ae67cf2b409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:40 +0000
Subject: [PATCH 22/29] fix: parse read past the end of string views that are
 not null terminated

---
 include/vecmath/mat_io.h | 5 ++++-
 include/vecmath/vec_io.h | 3 ++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/vecmath/mat_io.h b/include/vecmath/mat_io.h
index 3adf1cf..c947f49 100644
--- a/include/vecmath/mat_io.h
+++ b/include/vecmath/mat_io.h
@@ -24,6 +24,8 @@
 
 #include <optional>
 #include <ostream>
+#include <string>
+#include <string_view>
 
 namespace vm {
 /**
@@ -53,7 +55,8 @@ std::optional<mat<T, R, C>> parse(const std::string_view str) {
       if ((pos = str.find_first_not_of(blank, pos)) == std::string::npos) {
         return std::nullopt;
       }
-      result[c][r] = static_cast<T>(std::atof(str.data() + pos));
+      const auto comp = std::string(str.substr(pos, str.find_first_of(blank, pos) - pos));
+      result[c][r] = static_cast<T>(std::atof(comp.c_str()));
       if ((pos = str.find_first_of(blank, pos)) == std::string::npos) {
         if ((r * C) + c < R * C - 1u) {
           return std::nullopt;
diff --git a/include/vecmath/vec_io.h b/include/vecmath/vec_io.h
index 17ec21a..cc69646 100644
--- a/include/vecmath/vec_io.h
+++ b/include/vecmath/vec_io.h
@@ -38,7 +38,8 @@ std::optional<vec<T, S>> doParse(const std::string_view str, size_t& pos) {
     if ((pos = str.find_first_not_of(blank, pos)) == std::string::npos) {
       return std::nullopt;
     }
-    result[i] = static_cast<T>(std::atof(str.data() + pos));
+    const auto comp = std::string(str.substr(pos, str.find_first_of(blank, pos) - pos));
+    result[i] = static_cast<T>(std::atof(comp.c_str()));
     if ((pos = str.find_first_of(blank, pos)) == std::string::npos) {
       if (i < S - 1) {
         return std::nullopt;
-- 
2.43.0


From 7f78a9a223c9dcfe8732196603c2d0c9b46d7900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:53 +0000
Subject: [PATCH 23/29] fix: parse_all assigned to its output iterator instead
 of through it

---
 include/vecmath/vec_io.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vecmath/vec_io.h b/include/vecmath/vec_io.h
index cc69646..16a1cb4 100644
--- a/include/vecmath/vec_io.h
+++ b/include/vecmath/vec_io.h
@@ -91,7 +91,7 @@ template <typename T, std::size_t S, typename O> void parse_all(const std::strin
   std::size_t pos = 0;
   while (pos != std::string::npos) {
     if (const auto result = detail::doParse<T, S>(str, pos)) {
-      out = *result;
+      *out = *result;
       ++out;
     }
     pos = str.find_first_of(blank, pos);
-- 
2.43.0


From d95a0b1543b6c748de8bcb69c2fbc540eeb8c14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:32 +0000
Subject: [PATCH 24/29] fix: convex_hull kept points in the middle of edges
 that do not touch its first vertex

---
 include/vecmath/convex_hull.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vecmath/convex_hull.h b/include/vecmath/convex_hull.h
index 1a51e6b..f6bea58 100644
--- a/include/vecmath/convex_hull.h
+++ b/include/vecmath/convex_hull.h
@@ -193,7 +193,7 @@ private:
       const auto& t1 = stack[stack.size() - 2];
       const auto& t2 = stack[stack.size() - 1];
       const auto side = is_left(t1, t2, p);
-      if (side < 0) {
+      if (side <= 0) {
         stack.pop_back();
         pop_stale_points(stack, p);
       }
-- 
2.43.0


From 37d64e16d378bd25d283c9ed68438d890c5d67c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:51 +0000
Subject: [PATCH 25/29] fix: convex_hull was empty when the first two points
 coincide

---
 include/vecmath/convex_hull.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/vecmath/convex_hull.h b/include/vecmath/convex_hull.h
index f6bea58..63c4a23 100644
--- a/include/vecmath/convex_hull.h
+++ b/include/vecmath/convex_hull.h
@@ -88,6 +88,14 @@ public:
       return;
     }
 
+    // duplicates of the first point are colinear with any other point
+    const auto secondPoint = std::find_if(
+      std::next(std::begin(m_points)), std::end(m_points),
+      [&](const auto& p) { return p != m_points.front(); });
+    if (secondPoint != std::end(m_points)) {
+      std::iter_swap(std::next(std::begin(m_points)), secondPoint);
+    }
+
     const auto thirdPointIndex = find_linearly_independent_point();
     if (thirdPointIndex >= m_points.size()) {
       m_points.clear();
-- 
2.43.0


From 5561e2ad58bd12e819f2eb0880af87dca8102870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:48:02 +0000
Subject: [PATCH 26/29] fix: trunc, floor, ceil and round of numbers beyond the
 range of int64_t

---
 include/vecmath/scalar.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/vecmath/scalar.h b/include/vecmath/scalar.h
index 06245e3..0ac2f69 100644
--- a/include/vecmath/scalar.h
+++ b/include/vecmath/scalar.h
@@ -364,7 +364,9 @@ template <typename T> constexpr T smoothstep(const T e0, const T e1, const T v)
  * @return the truncated value
  */
 template <typename T> constexpr T trunc(const T v) {
-  return static_cast<T>(static_cast<int64_t>(v));
+  // values outside of the range of int64_t have no fractional part
+  constexpr auto limit = 9223372036854775808.0;
+  return v >= -limit && v < limit ? static_cast<T>(static_cast<int64_t>(v)) : v;
 }
 
 /**
-- 
2.43.0


From 38c9a371c3ec83afc20de8e285918f3b1768d475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:48:02 +0000
Subject: [PATCH 27/29] fix: line.h, plane.h and ray.h use strip_translation
 without including its header

---
 include/vecmath/line.h  | 1 +
 include/vecmath/plane.h | 1 +
 include/vecmath/ray.h   | 1 +
 3 files changed, 3 insertions(+)

diff --git a/include/vecmath/line.h b/include/vecmath/line.h
index 80f74a6..94a2705 100644
--- a/include/vecmath/line.h
+++ b/include/vecmath/line.h
@@ -22,6 +22,7 @@
 
 #include "abstract_line.h"
 #include "mat.h"
+#include "mat_ext.h"
 #include "vec.h"
 
 namespace vm {
diff --git a/include/vecmath/plane.h b/include/vecmath/plane.h
index fba2dfa..dae40dc 100644
--- a/include/vecmath/plane.h
+++ b/include/vecmath/plane.h
@@ -22,6 +22,7 @@
 
 #include "constants.h"
 #include "mat.h"
+#include "mat_ext.h"
 #include "scalar.h"
 #include "util.h"
 #include "vec.h"
diff --git a/include/vecmath/ray.h b/include/vecmath/ray.h
index 1ea3296..3aa115e 100644
--- a/include/vecmath/ray.h
+++ b/include/vecmath/ray.h
@@ -21,6 +21,7 @@
 #pragma once
 
 #include "mat.h"
+#include "mat_ext.h"
 #include "vec.h"
 
 #include "abstract_line.h"
-- 
2.43.0


From 7b8a67a1674d17ae070c1ab2df7084737d364f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:48:02 +0000
Subject: [PATCH 28/29] fix: glsh.h does not compile

---
 include/vecmath/glsh.h | 37 ++++++++++++++++++++-----------------
 1 file changed, 20 insertions(+), 17 deletions(-)

diff --git a/include/vecmath/glsh.h b/include/vecmath/glsh.h
index 66033c3..60c6d0d 100644
--- a/include/vecmath/glsh.h
+++ b/include/vecmath/glsh.h
@@ -18,8 +18,11 @@
  OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE SOFTWARE.
 */
 
+#pragma once
+
 #include "forward.h"
 #include "scalar.h"
+#include <utility>
 
 namespace vm {
 // from https://www.fluentcpp.com/2017/10/27/function-aliases-cpp/
@@ -29,13 +32,13 @@ namespace vm {
     return func(std::forward<Args>(args)...);                                                      \
   }
 
-#ALIAS_TEMPLATE_FUNCTION(radians, to_radians)
-#ALIAS_TEMPLATE_FUNCTION(degrees, to_degrees)
-#ALIAS_TEMPLATE_FUNCTION(isnan, is_nan)
-#ALIAS_TEMPLATE_FUNCTION(isinf, is_inf)
+ALIAS_TEMPLATE_FUNCTION(radians, to_radians)
+ALIAS_TEMPLATE_FUNCTION(degrees, to_degrees)
+ALIAS_TEMPLATE_FUNCTION(isnan, is_nan)
+ALIAS_TEMPLATE_FUNCTION(isinf, is_inf)
 
 using vec2 = vec2f;
-using vec3 = vec2f;
+using vec3 = vec3f;
 using vec4 = vec4f;
 using bvec2 = vec2b;
 using bvec3 = vec3b;
@@ -43,19 +46,19 @@ using bvec4 = vec4b;
 using ivec2 = vec2i;
 using ivec3 = vec3i;
 using ivec4 = vec4i;
-using uvec2 = vec<2, unsigned>;
-using uvec3 = vec<3, unsigned>;
-using uvec4 = vec<4, unsigned>;
+using uvec2 = vec<unsigned, 2>;
+using uvec3 = vec<unsigned, 3>;
+using uvec4 = vec<unsigned, 4>;
 using mat2 = mat2x2f;
 using mat3 = mat3x3f;
 using mat4 = mat4x4f;
-using mat2x2 = mat<T, 2, 2>;
-using mat2x3 = mat<T, 3, 2>;
-using mat2x4 = mat<T, 4, 2>;
-using mat3x2 = mat<T, 2, 3>;
-using mat3x3 = mat<T, 3, 3>;
-using mat3x4 = mat<T, 4, 3>;
-using mat4x2 = mat<T, 2, 4>;
-using mat4x3 = mat<T, 3, 4>;
-using mat4x4 = mat<T, 4, 4>;
+using mat2x2 = mat<float, 2, 2>;
+using mat2x3 = mat<float, 3, 2>;
+using mat2x4 = mat<float, 4, 2>;
+using mat3x2 = mat<float, 2, 3>;
+using mat3x3 = mat<float, 3, 3>;
+using mat3x4 = mat<float, 4, 3>;
+using mat4x2 = mat<float, 2, 4>;
+using mat4x3 = mat<float, 3, 4>;
+using mat4x4 = mat<float, 4, 4>;
 } // namespace vm
-- 
2.43.0


From 6211475cc25f90ebf2ba8be2730863e6a97ae689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:18 +0000
Subject: [PATCH 29/29] fix: vec::get_vertices assigns to the output iterator
 instead of through it

---
 include/vecmath/vec.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vecmath/vec.h b/include/vecmath/vec.h
index dac55a0..12c511b 100644
--- a/include/vecmath/vec.h
+++ b/include/vecmath/vec.h
@@ -376,7 +376,7 @@ public:
    */
   template <typename I, typename O> static constexpr void get_vertices(I cur, I end, O out) {
     while (cur != end) {
-      out++ = *cur++;
+      *out++ = *cur++;
     }
   }
 };
-- 
2.43.0

