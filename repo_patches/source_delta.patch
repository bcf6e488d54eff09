From 089d437976122793e9bb5fbc479b2775d14cf4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:11 +0000
Subject: [PATCH 01/99] fix: nearest index search on descending integer axes

The half-step used to round the position of a coordinate had the sign of the
step, so that a descending integer (or temporal) axis truncated instead of
rounding, and returned wrong nearest and enclosing elements.
---
 src/pyinterp/core/include/pyinterp/detail/axis/container.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyinterp/core/include/pyinterp/detail/axis/container.hpp b/src/pyinterp/core/include/pyinterp/detail/axis/container.hpp
index 9a7301b..4c117f3 100644
--- a/src/pyinterp/core/include/pyinterp/detail/axis/container.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/axis/container.hpp
@@ -548,7 +548,8 @@ class Regular<T, typename std::enable_if<std::is_integral_v<T>>::type>
   Regular(const T start, const T stop, const T num)
       // The inverse step of this axis is stored in order to optimize the search
       // for an index for a given value by avoiding a division.
-      : AbstractRegular<T>(start, stop, num), step_2_(this->step_ >> 1) {}
+      : AbstractRegular<T>(start, stop, num),
+        step_2_((this->step_ < 0 ? -this->step_ : this->step_) >> 1) {}
 
   /// @copydoc Abstract::find_index(double,bool) const
   [[nodiscard]] constexpr auto find_index(T coordinate,
-- 
2.43.0


From 77f622ebd78ea9e3cf8e4d5814e0f70744b6dd14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:41 +0000
Subject: [PATCH 02/99] fix: find_index(bounded=True) on a circular axis

A coordinate located between the last and the first element of a circle was
clamped to the last element even when the first one is closer.
---
 src/pyinterp/core/include/pyinterp/detail/axis.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pyinterp/core/include/pyinterp/detail/axis.hpp b/src/pyinterp/core/include/pyinterp/detail/axis.hpp
index 7e5e0a2..cb4a6b2 100644
--- a/src/pyinterp/core/include/pyinterp/detail/axis.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/axis.hpp
@@ -294,7 +294,9 @@ class Axis {
                                                   const bool bounded) const
       -> int64_t {
     coordinate = normalize_coordinate(coordinate);
-    auto result = axis_->find_index(coordinate, bounded);
+    // On a circle, a coordinate always has a nearest element: the ends of the
+    // axis are neighbors.
+    auto result = axis_->find_index(coordinate, bounded && !is_circle_);
     if (result == -1 && is_circle_) {
       result = (coordinate - max_value()) < (min_value() + 360 - coordinate)
                    ? this->size() - 1
-- 
2.43.0


From 9ac76cb0f14ef7341e8ecea6efcde7480d6d62dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:41 +0000
Subject: [PATCH 03/99] fix: detect circular axes given in descending order

The mean increment of an irregular descending axis is negative, so that the
axis was never recognized as a circle.
---
 src/pyinterp/core/include/pyinterp/detail/axis.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyinterp/core/include/pyinterp/detail/axis.hpp b/src/pyinterp/core/include/pyinterp/detail/axis.hpp
index cb4a6b2..f3497f9 100644
--- a/src/pyinterp/core/include/pyinterp/detail/axis.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/axis.hpp
@@ -514,7 +514,7 @@ class Axis {
         is_circle_ = math::is_same(
             static_cast<T>(std::fabs(ptr->step() * size())), circle_, epsilon);
       } else {
-        auto increment = (axis_->back() - axis_->front()) /
+        auto increment = (axis_->max_value() - axis_->min_value()) /
                          static_cast<T>(axis_->size() - 1);
         is_circle_ = std::fabs((axis_->max_value() - axis_->min_value()) -
                                circle_) <= increment;
-- 
2.43.0


From 8cb10191bd5f76c1aeb697a0cf7171c1342c42ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:21 +0000
Subject: [PATCH 04/99] fix: nearest element of a descending circular axis

Between the greatest and the smallest element of the circle, the indexes of
the two ends were exchanged when the axis is descending.
---
 src/pyinterp/core/include/pyinterp/detail/axis.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/detail/axis.hpp b/src/pyinterp/core/include/pyinterp/detail/axis.hpp
index f3497f9..02810c4 100644
--- a/src/pyinterp/core/include/pyinterp/detail/axis.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/axis.hpp
@@ -298,9 +298,9 @@ class Axis {
     // axis are neighbors.
     auto result = axis_->find_index(coordinate, bounded && !is_circle_);
     if (result == -1 && is_circle_) {
-      result = (coordinate - max_value()) < (min_value() + 360 - coordinate)
-                   ? this->size() - 1
-                   : 0;
+      const auto closest_to_max =
+          (coordinate - max_value()) < (min_value() + 360 - coordinate);
+      result = closest_to_max == is_ascending() ? this->size() - 1 : 0;
     }
     return result;
   }
-- 
2.43.0


From 8f77ba53b4a352eb53c0c1ea7a9b975d2d4992ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:40 +0000
Subject: [PATCH 05/99] fix: keep the angular nature of an axis when it is
 pickled or flipped

The registered state only told if the axis was a full circle: a sector built
with is_circle=True no longer normalized the coordinates once restored.
---
 src/pyinterp/core/include/pyinterp/axis.hpp     | 17 +++++++++++++----
 .../core/include/pyinterp/detail/axis.hpp       |  8 +++++---
 2 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/axis.hpp b/src/pyinterp/core/include/pyinterp/axis.hpp
index b846c03..374b8c6 100644
--- a/src/pyinterp/core/include/pyinterp/axis.hpp
+++ b/src/pyinterp/core/include/pyinterp/axis.hpp
@@ -203,7 +203,7 @@ class Axis : public detail::Axis<T>,
       if (ptr != nullptr) {
         return pybind11::make_tuple(detail::axis::REGULAR, ptr->front(),
                                     ptr->back(), ptr->size(),
-                                    this->is_circle());
+                                    this->is_circle(), this->is_angle());
       }
     }
     // Irregular
@@ -217,7 +217,7 @@ class Axis : public detail::Axis<T>,
           _values[ix] = ptr->coordinate_value(ix);
         }
         return pybind11::make_tuple(detail::axis::IRREGULAR, values,
-                                    this->is_circle());
+                                    this->is_circle(), this->is_angle());
       }
     }
     // Undefined
@@ -246,18 +246,27 @@ class Axis : public detail::Axis<T>,
             std::unique_ptr<detail::axis::container::Abstract<T>>(
                 new detail::axis::container::Irregular<T>(Eigen::Map<Vector<T>>(
                     ndarray.mutable_data(), ndarray.size()))),
-            state[2].cast<bool>());
+            state[2].cast<bool>(), registered_angle(state, 3));
       }
       case detail::axis::REGULAR:
         return Axis(std::unique_ptr<detail::axis::container::Abstract<T>>(
                         new detail::axis::container::Regular<T>(
                             state[1].cast<T>(), state[2].cast<T>(),
                             state[3].cast<T>())),
-                    state[4].cast<bool>());
+                    state[4].cast<bool>(), registered_angle(state, 5));
       default:
         throw std::invalid_argument("invalid state");
     }
   }
+
+ private:
+  /// Returns true if the registered state is that of an axis representing an
+  /// angle. In the states registered by the previous versions, only the flag
+  /// stored before the given position, telling if the axis is a circle, exists.
+  static auto registered_angle(const pybind11::tuple &state, const size_t pos)
+      -> bool {
+    return state[state.size() > pos ? pos : pos - 1].cast<bool>();
+  }
 };
 
 }  // namespace pyinterp
diff --git a/src/pyinterp/core/include/pyinterp/detail/axis.hpp b/src/pyinterp/core/include/pyinterp/detail/axis.hpp
index 02810c4..8a0c0d8 100644
--- a/src/pyinterp/core/include/pyinterp/detail/axis.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/axis.hpp
@@ -464,10 +464,12 @@ class Axis {
   /// Construction of a serialized instance.
   ///
   /// @param axis Axis handler
-  /// @param is_circle True, if the axis can represent a circle.
-  Axis(std::unique_ptr<axis::container::Abstract<T>> axis, const bool is_circle)
+  /// @param is_circle True, if the axis represents a circle.
+  /// @param is_angle True, if the axis represents an angle.
+  Axis(std::unique_ptr<axis::container::Abstract<T>> axis, const bool is_circle,
+       const bool is_angle)
       : is_circle_(is_circle),
-        circle_(is_circle_ ? T(360) : math::Fill<T>::value()),
+        circle_(is_angle ? T(360) : math::Fill<T>::value()),
         axis_(std::move(axis)) {}
 
  private:
-- 
2.43.0


From 7c8974a440cd8ef12b3be20fd43c010e0d871182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:29 +0000
Subject: [PATCH 06/99] fix: belong_to_a_period reads past the end of the
 periods

---
 src/pyinterp/core/include/pyinterp/period.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyinterp/core/include/pyinterp/period.hpp b/src/pyinterp/core/include/pyinterp/period.hpp
index 65e388f..6fbf101 100644
--- a/src/pyinterp/core/include/pyinterp/period.hpp
+++ b/src/pyinterp/core/include/pyinterp/period.hpp
@@ -326,7 +326,7 @@ class PeriodList {
 
       while (ix < dates.size()) {
         const auto date = dates(ix);
-        while (!it->contains(date) && !it->is_after(date) && it != end) {
+        while (it != end && !it->contains(date) && !it->is_after(date)) {
           ++it;
         }
         if (it == end) {
-- 
2.43.0


From 17b01f29e0629e51fea97227c7b44dee22aca938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:29 +0000
Subject: [PATCH 07/99] fix: cross_a_period with no date reads before the array

---
 src/pyinterp/core/include/pyinterp/period.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pyinterp/core/include/pyinterp/period.hpp b/src/pyinterp/core/include/pyinterp/period.hpp
index 6fbf101..c2a467c 100644
--- a/src/pyinterp/core/include/pyinterp/period.hpp
+++ b/src/pyinterp/core/include/pyinterp/period.hpp
@@ -255,6 +255,10 @@ class PeriodList {
     auto flags = Eigen::Matrix<bool, -1, 1>(dates.size());
     flags.setConstant(false);
 
+    if (dates.size() == 0) {
+      return flags;
+    }
+
     // Index of the traversed date.
     auto ix = int64_t(0);
 
-- 
2.43.0


From ca9762913c4fcfc0005740d78d7544a89bbe54a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:29 +0000
Subject: [PATCH 08/99] fix: joining nested periods must not shrink the joined
 period

---
 src/pyinterp/core/include/pyinterp/period.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/period.hpp b/src/pyinterp/core/include/pyinterp/period.hpp
index c2a467c..9b3ed1c 100644
--- a/src/pyinterp/core/include/pyinterp/period.hpp
+++ b/src/pyinterp/core/include/pyinterp/period.hpp
@@ -2,6 +2,7 @@
 #include <pybind11/pybind11.h>
 
 #include <Eigen/Core>
+#include <algorithm>
 #include <cstdint>
 #include <optional>
 
@@ -378,9 +379,9 @@ class PeriodList {
 
     auto ix = int64_t(1);
     for (auto jx = int64_t(1); jx < result.periods_.size(); ++jx) {
-      auto dt = periods_[jx].begin - periods_[jx - 1].last;
-      if (dt <= epsilon) {
-        result.periods_(ix - 1).last = periods_[jx].last;
+      auto &joined = result.periods_(ix - 1);
+      if (periods_[jx].begin - joined.last <= epsilon) {
+        joined.last = std::max(joined.last, periods_[jx].last);
       } else {
         result.periods_(ix) = periods_[jx];
         ++ix;
-- 
2.43.0


From 87ef5fa5b139f2c1aaee2132a47d2c0401478810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:29 +0000
Subject: [PATCH 09/99] fix: unit of the period given to PeriodList.within and
 intersection

---
 src/pyinterp/period.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pyinterp/period.py b/src/pyinterp/period.py
index e13397f..36c0f27 100644
--- a/src/pyinterp/period.py
+++ b/src/pyinterp/period.py
@@ -380,6 +380,7 @@ class PeriodList:
         Returns:
             A new PeriodList with only periods within the given period.
         """
+        period = period.as_resolution(_time64_unit(self._datetime64))
         return PeriodList(self._instance.within(period.as_base_class()),
                           dtype=self._datetime64)
 
@@ -394,6 +395,7 @@ class PeriodList:
             A new PeriodList with only periods that intersect the given
             period.
         """
+        period = period.as_resolution(_time64_unit(self._datetime64))
         return PeriodList(self._instance.intersection(period.as_base_class()),
                           dtype=self._datetime64)
 
-- 
2.43.0


From f2496a467af7a1654714de517440b965d92c1eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:29 +0000
Subject: [PATCH 10/99] fix: merge of lists of periods with different units

---
 src/pyinterp/period.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pyinterp/period.py b/src/pyinterp/period.py
index 36c0f27..0080ee4 100644
--- a/src/pyinterp/period.py
+++ b/src/pyinterp/period.py
@@ -433,8 +433,10 @@ class PeriodList:
             A new PeriodList with the periods merged.
         """
         if self._datetime64 != other._datetime64:
-            periods = other.periods.astype(self._datetime64)
-            other = PeriodList(periods, dtype=self._datetime64)
+            periods = other.periods
+            other = PeriodList(
+                numpy.vstack((periods['begin'],
+                              periods['last'])).astype(self._datetime64))
         self._instance.merge(other._instance)
         return self
 
-- 
2.43.0


From 5ebf7c1e4a8e83d28a41bc149f1a9a794a384447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:52 +0000
Subject: [PATCH 11/99] fix: multilinear interpolation across the seam of a
 circular axis

---
 .../core/include/pyinterp/bivariate.hpp       |  6 ++--
 src/pyinterp/core/include/pyinterp/grid.hpp   | 29 +++++++++++++++++++
 .../core/include/pyinterp/quadrivariate.hpp   |  6 ++--
 .../core/include/pyinterp/trivariate.hpp      |  6 ++--
 4 files changed, 38 insertions(+), 9 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/bivariate.hpp b/src/pyinterp/core/include/pyinterp/bivariate.hpp
index bc36a5a..996b919 100644
--- a/src/pyinterp/core/include/pyinterp/bivariate.hpp
+++ b/src/pyinterp/core/include/pyinterp/bivariate.hpp
@@ -83,10 +83,10 @@ inline auto _bivariate(
     auto [ix0, ix1] = *x_indexes;
     auto [iy0, iy1] = *y_indexes;
 
-    auto x0 = x_axis(ix0);
-    auto p = Point<Coordinate>(x_axis.normalize_coordinate(x, x0), y);
+    auto [xn, x0, x1] = cell_coordinates(x_axis, x, ix0, ix1);
+    auto p = Point<Coordinate>(xn, y);
     auto p0 = Point<Coordinate>(x0, y_axis(iy0));
-    auto p1 = Point<Coordinate>(x_axis(ix1), y_axis(iy1));
+    auto p1 = Point<Coordinate>(x1, y_axis(iy1));
 
     return interpolator->evaluate(
         p, p0, p1, static_cast<Coordinate>(grid.value(ix0, iy0)),
diff --git a/src/pyinterp/core/include/pyinterp/grid.hpp b/src/pyinterp/core/include/pyinterp/grid.hpp
index 8256eda..8edc2c4 100644
--- a/src/pyinterp/core/include/pyinterp/grid.hpp
+++ b/src/pyinterp/core/include/pyinterp/grid.hpp
@@ -7,6 +7,7 @@
 
 #include <memory>
 #include <string>
+#include <tuple>
 #include <utility>
 
 #include "pyinterp/axis.hpp"
@@ -14,6 +15,34 @@
 
 namespace pyinterp {
 
+/// Gets the coordinates of the cell, of the X-Axis, that contains the
+/// coordinate x.
+///
+/// On an axis that represents angles, the coordinates returned are those of
+/// the same turn, in ascending order. If the cell given is the one that joins
+/// the ends of a descending circle, its indexes are swapped.
+///
+/// @param axis X-Axis
+/// @param x Coordinate to interpolate
+/// @param ix0 Index of the first element of the cell
+/// @param ix1 Index of the last element of the cell
+/// @return The coordinates x, x0 and x1
+template <typename Coordinate>
+inline auto cell_coordinates(const Axis<double> &axis, const Coordinate &x,
+                             int64_t &ix0, int64_t &ix1)
+    -> std::tuple<Coordinate, Coordinate, Coordinate> {
+  auto x0 = axis(ix0);
+  auto x1 = axis.normalize_coordinate(axis(ix1), x0);
+  auto xn = axis.normalize_coordinate(x, x0);
+  if (axis.is_circle() && xn > x1) {
+    std::swap(ix0, ix1);
+    x0 = axis(ix0);
+    x1 = axis.normalize_coordinate(axis(ix1), x0);
+    xn = axis.normalize_coordinate(x, x0);
+  }
+  return std::make_tuple(xn, x0, x1);
+}
+
 /// Cartesian Grid 2D
 ///
 /// @tparam DataType Grid data type
diff --git a/src/pyinterp/core/include/pyinterp/quadrivariate.hpp b/src/pyinterp/core/include/pyinterp/quadrivariate.hpp
index fa3b694..c7b1b64 100644
--- a/src/pyinterp/core/include/pyinterp/quadrivariate.hpp
+++ b/src/pyinterp/core/include/pyinterp/quadrivariate.hpp
@@ -62,10 +62,10 @@ inline auto _quadrivariate(
     auto [iu0, iu1] = *u_indexes;
 
     // The fourth coordinate is not used by the 3D interpolator.
-    auto x0 = x_axis(ix0);
-    auto p = Point<Coordinate>(x_axis.normalize_coordinate(x, x0), y, z);
+    auto [xn, x0, x1] = cell_coordinates(x_axis, x, ix0, ix1);
+    auto p = Point<Coordinate>(xn, y, z);
     auto p0 = Point<Coordinate>(x0, y_axis(iy0), z_axis(iz0));
-    auto p1 = Point<Coordinate>(x_axis(ix1), y_axis(iy1), z_axis(iz1));
+    auto p1 = Point<Coordinate>(x1, y_axis(iy1), z_axis(iz1));
 
     auto u0 = pyinterp::detail::math::trivariate<Point, Coordinate>(
         p, p0, p1, static_cast<Coordinate>(grid.value(ix0, iy0, iz0, iu0)),
diff --git a/src/pyinterp/core/include/pyinterp/trivariate.hpp b/src/pyinterp/core/include/pyinterp/trivariate.hpp
index 8d53c30..0649d23 100644
--- a/src/pyinterp/core/include/pyinterp/trivariate.hpp
+++ b/src/pyinterp/core/include/pyinterp/trivariate.hpp
@@ -42,10 +42,10 @@ inline auto _trivariate(const Grid3D<Type, AxisType> &grid, const Coordinate &x,
     auto [iz0, iz1] = *z_indexes;
 
     // The fourth coordinate is not used by the 3D interpolator.
-    auto x0 = x_axis(ix0);
-    auto p = Point<Coordinate>(x_axis.normalize_coordinate(x, x0), y, z);
+    auto [xn, x0, x1] = cell_coordinates(x_axis, x, ix0, ix1);
+    auto p = Point<Coordinate>(xn, y, z);
     auto p0 = Point<Coordinate>(x0, y_axis(iy0), z_axis(iz0));
-    auto p1 = Point<Coordinate>(x_axis(ix1), y_axis(iy1), z_axis(iz1));
+    auto p1 = Point<Coordinate>(x1, y_axis(iy1), z_axis(iz1));
 
     return pyinterp::detail::math::trivariate<Point, Coordinate>(
         p, p0, p1, static_cast<Coordinate>(grid.value(ix0, iy0, iz0)),
-- 
2.43.0


From 3650e8d04d44763bea476063a81027d099ab5502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:57 +0000
Subject: [PATCH 12/99] fix: nearest date with a fine temporal unit

---
 .../core/include/pyinterp/detail/math/nearest.hpp      | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/detail/math/nearest.hpp b/src/pyinterp/core/include/pyinterp/detail/math/nearest.hpp
index 0f3456c..f2c714c 100644
--- a/src/pyinterp/core/include/pyinterp/detail/math/nearest.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/math/nearest.hpp
@@ -3,8 +3,6 @@
 // All rights reserved. Use of this source code is governed by a
 // BSD-style license that can be found in the LICENSE file.
 #pragma once
-#include "pyinterp/detail/math.hpp"
-
 namespace pyinterp::detail::math {
 
 /// Nearest interpolation
@@ -17,10 +15,10 @@ namespace pyinterp::detail::math {
 template <typename T, typename U = T>
 constexpr auto nearest(const T &x, const T &x0, const T &x1, const U &y0,
                        const U &y1) noexcept -> U {
-  // we use a comparable distance, there's no need to calculate the square root
-  // here
-  auto dx0 = sqr(x0 - x);
-  auto dx1 = sqr(x1 - x);
+  // the square of the difference of two dates overflows: the distances are
+  // compared
+  auto dx0 = x0 < x ? x - x0 : x0 - x;
+  auto dx1 = x1 < x ? x - x1 : x1 - x;
 
   return dx0 < dx1 ? y0 : y1;
 }
-- 
2.43.0


From 8d6a86a9906fe243ad63f1be1a7ad0c1cdf2b7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:58 +0000
Subject: [PATCH 13/99] fix: an undefined coordinate belongs to no element of
 an axis

---
 .../core/include/pyinterp/detail/axis.hpp        | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/pyinterp/core/include/pyinterp/detail/axis.hpp b/src/pyinterp/core/include/pyinterp/detail/axis.hpp
index 8a0c0d8..ea5c38e 100644
--- a/src/pyinterp/core/include/pyinterp/detail/axis.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/axis.hpp
@@ -275,7 +275,9 @@ class Axis {
   /// @return index of the grid point containing it or -1 if outside grid area
   [[nodiscard]] constexpr auto find_index(const T coordinate,
                                           const bool bounded) const -> int64_t {
-    return axis_->find_index(normalize_coordinate(coordinate), bounded);
+    const auto normalized = normalize_coordinate(coordinate);
+    return is_undefined(normalized) ? -1
+                                    : axis_->find_index(normalized, bounded);
   }
 
   /// Given a coordinate position, find what axis element contains it.
@@ -294,6 +296,9 @@ class Axis {
                                                   const bool bounded) const
       -> int64_t {
     coordinate = normalize_coordinate(coordinate);
+    if (is_undefined(coordinate)) {
+      return -1;
+    }
     // On a circle, a coordinate always has a nearest element: the ends of the
     // axis are neighbors.
     auto result = axis_->find_index(coordinate, bounded && !is_circle_);
@@ -317,6 +322,9 @@ class Axis {
   [[nodiscard]] auto find_indexes(T coordinate) const
       -> std::optional<std::tuple<int64_t, int64_t>> {
     coordinate = normalize_coordinate(coordinate);
+    if (is_undefined(coordinate)) {
+      return {};
+    }
     auto length = size();
     auto i0 = find_index(coordinate, false);
 
@@ -484,6 +492,12 @@ class Axis {
   std::unique_ptr<axis::container::Abstract<T>> axis_{
       std::make_unique<axis::container::Undefined<T>>()};
 
+  /// Returns true if the coordinate is undefined
+  [[nodiscard]] static constexpr auto is_undefined(const T coordinate) noexcept
+      -> bool {
+    return coordinate != coordinate;
+  }
+
   /// Clone the axis container
   [[nodiscard]] inline auto clone() const
       -> std::unique_ptr<axis::container::Abstract<T>> {
-- 
2.43.0


From 0b18455454cc3213884591bce563011c14728cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:19 +0000
Subject: [PATCH 14/99] fix: interpolators throw a number for a point outside
 the data

---
 .../core/include/pyinterp/detail/interpolation/akima.hpp      | 4 ++--
 .../core/include/pyinterp/detail/interpolation/bicubic.hpp    | 2 +-
 .../core/include/pyinterp/detail/interpolation/bilinear.hpp   | 2 +-
 .../core/include/pyinterp/detail/interpolation/polynomial.hpp | 4 ++--
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/detail/interpolation/akima.hpp b/src/pyinterp/core/include/pyinterp/detail/interpolation/akima.hpp
index bca47a6..2a7feb5 100644
--- a/src/pyinterp/core/include/pyinterp/detail/interpolation/akima.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/interpolation/akima.hpp
@@ -96,7 +96,7 @@ constexpr auto Akima<T>::interpolate_(const Vector<T>& xa, const Vector<T>& ya,
                                       const T& x) const -> T {
   auto search = this->search(xa, x);
   if (!search) {
-    throw std::numeric_limits<T>::quiet_NaN();
+    return std::numeric_limits<T>::quiet_NaN();
   }
   auto [i0, i1] = *search;
   const auto dx = xa(i1) - xa(i0);
@@ -113,7 +113,7 @@ constexpr auto Akima<T>::derivative_(const Vector<T>& xa, const Vector<T>& ya,
                                      const T& x) const -> T {
   auto search = this->search(xa, x);
   if (!search) {
-    throw std::numeric_limits<T>::quiet_NaN();
+    return std::numeric_limits<T>::quiet_NaN();
   }
   auto [i0, i1] = *search;
   const auto dx = xa(i1) - xa(i0);
diff --git a/src/pyinterp/core/include/pyinterp/detail/interpolation/bicubic.hpp b/src/pyinterp/core/include/pyinterp/detail/interpolation/bicubic.hpp
index 12f7ef9..7adca3f 100644
--- a/src/pyinterp/core/include/pyinterp/detail/interpolation/bicubic.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/interpolation/bicubic.hpp
@@ -78,7 +78,7 @@ constexpr auto Bicubic<T>::interpolate_(const Vector<T> &xa,
   auto search_x = this->search(xa, x);
   auto search_y = this->search(ya, y);
   if (!search_x || !search_y) {
-    throw std::numeric_limits<T>::quiet_NaN();
+    return std::numeric_limits<T>::quiet_NaN();
   }
   const auto [i0, i1] = *search_x;
   const auto [j0, j1] = *search_y;
diff --git a/src/pyinterp/core/include/pyinterp/detail/interpolation/bilinear.hpp b/src/pyinterp/core/include/pyinterp/detail/interpolation/bilinear.hpp
index 80fdc43..25b94fc 100644
--- a/src/pyinterp/core/include/pyinterp/detail/interpolation/bilinear.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/interpolation/bilinear.hpp
@@ -38,7 +38,7 @@ constexpr auto Bilinear<T>::interpolate_(const Vector<T> &xa,
   auto search_x = this->search(xa, x);
   auto search_y = this->search(ya, y);
   if (!search_x || !search_y) {
-    throw std::numeric_limits<T>::quiet_NaN();
+    return std::numeric_limits<T>::quiet_NaN();
   }
   auto [i0, i1] = *search_x;
   auto [j0, j1] = *search_y;
diff --git a/src/pyinterp/core/include/pyinterp/detail/interpolation/polynomial.hpp b/src/pyinterp/core/include/pyinterp/detail/interpolation/polynomial.hpp
index 4fea5ea..60eddb6 100644
--- a/src/pyinterp/core/include/pyinterp/detail/interpolation/polynomial.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/interpolation/polynomial.hpp
@@ -97,7 +97,7 @@ constexpr auto Polynomial<T>::interpolate_(const Vector<T> &xa,
                                            const T &x) const -> T {
   auto search = this->search(xa, x);
   if (!search) {
-    throw std::numeric_limits<T>::quiet_NaN();
+    return std::numeric_limits<T>::quiet_NaN();
   }
   auto size = xa.size();
   auto y = work_[size - 1];
@@ -112,7 +112,7 @@ auto Polynomial<T>::derivative_(const Vector<T> &xa, const Vector<T> &ya,
                                 const T &x) const -> T {
   auto search = this->search(xa, x);
   if (!search) {
-    throw std::numeric_limits<T>::quiet_NaN();
+    return std::numeric_limits<T>::quiet_NaN();
   }
   auto coefficients = taylor(xa, x);
   return coefficients(1);
-- 
2.43.0


From 6abf3402c2d3b320defffc829ddf2784f2c33d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:19 +0000
Subject: [PATCH 15/99] fix: Akima splines do not pass through their data

---
 .../pyinterp/detail/interpolation/akima.hpp        | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/detail/interpolation/akima.hpp b/src/pyinterp/core/include/pyinterp/detail/interpolation/akima.hpp
index 2a7feb5..ae79047 100644
--- a/src/pyinterp/core/include/pyinterp/detail/interpolation/akima.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/interpolation/akima.hpp
@@ -74,7 +74,7 @@ auto Akima<T>::compute_coefficients(const Vector<T>& xa, const Vector<T>& ya)
   boundary_condition(m, size);
 
   // Compute the spline slopes of the lines between the points.
-  for (Eigen::Index ix = 2; ix < size - 2; ++ix) {
+  for (Eigen::Index ix = 0; ix < size; ++ix) {
     auto denominator =
         std::abs(m[ix + 1] - m[ix]) + std::abs(m[ix - 1] - m[ix - 2]);
     if (denominator != 0) {
@@ -85,10 +85,6 @@ auto Akima<T>::compute_coefficients(const Vector<T>& xa, const Vector<T>& ya)
       s_(ix) = (m[ix - 1] + m[ix]) * 0.5;
     }
   }
-  s_(0) = m[0];
-  s_(1) = (m[0] + m[2]) * 0.5;
-  s_(size - 2) = (m[size - 3] + m[size - 1]) * 0.5;
-  s_(size - 1) = m[size - 1];
 }
 
 template <typename T>
@@ -103,8 +99,8 @@ constexpr auto Akima<T>::interpolate_(const Vector<T>& xa, const Vector<T>& ya,
   const auto h = x - xa(i0);
   const auto ai = ya(i0);
   const auto bi = s_[i0];
-  const auto ci = (3 * m_[i0] - 2 * s_[i0] - s_[i1]) / dx;
-  const auto di = (s_[i0] + s_[i1] - 2 * m_[i0]) / (dx * dx);
+  const auto ci = (3 * m_[i0 + 2] - 2 * s_[i0] - s_[i1]) / dx;
+  const auto di = (s_[i0] + s_[i1] - 2 * m_[i0 + 2]) / (dx * dx);
   return ai + h * (bi + h * (ci + h * di));
 }
 
@@ -119,8 +115,8 @@ constexpr auto Akima<T>::derivative_(const Vector<T>& xa, const Vector<T>& ya,
   const auto dx = xa(i1) - xa(i0);
   const auto h = x - xa(i0);
   const auto bi = s_[i0];
-  const auto ci = (3 * m_[i0] - 2 * s_[i0] - s_[i1]) / dx;
-  const auto di = (s_[i0] + s_[i1] - 2 * m_[i0]) / (dx * dx);
+  const auto ci = (3 * m_[i0 + 2] - 2 * s_[i0] - s_[i1]) / dx;
+  const auto di = (s_[i0] + s_[i1] - 2 * m_[i0 + 2]) / (dx * dx);
   return bi + h * (2 * ci + h * 3 * di);
 }
 
-- 
2.43.0


From c9a09625a9b3017d36a6d8f94399c912ce379ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:19 +0000
Subject: [PATCH 16/99] fix: divided differences of the polynomial
 interpolation

---
 .../pyinterp/detail/interpolation/polynomial.hpp      | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/detail/interpolation/polynomial.hpp b/src/pyinterp/core/include/pyinterp/detail/interpolation/polynomial.hpp
index 60eddb6..90d229c 100644
--- a/src/pyinterp/core/include/pyinterp/detail/interpolation/polynomial.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/interpolation/polynomial.hpp
@@ -64,18 +64,19 @@ constexpr auto Polynomial<T>::compute_coefficients(const Vector<T> &xa,
   work_.segment(1, size - 1) =
       (ya.segment(1, size - 1) - ya.segment(0, size - 1)).array() /
       (xa.segment(1, size - 1) - xa.segment(0, size - 1)).array();
+  // Each order is computed from the last point, to read the divided
+  // differences of the previous order.
   for (Eigen::Index ix = 2; ix < size; ix++) {
-    work_.segment(ix, size - ix) =
-        (work_.segment(ix, size - ix) - work_.segment(ix - 1, size - ix))
-            .array() /
-        (xa.segment(ix, size - ix) - xa.segment(ix - 1, size - ix)).array();
+    for (Eigen::Index jx = size - 1; jx >= ix; --jx) {
+      work_(jx) = (work_(jx) - work_(jx - 1)) / (xa(jx) - xa(jx - ix));
+    }
   }
 }
 
 template <typename T>
 auto Polynomial<T>::taylor(const Vector<T> &xa, const T &x) const -> Vector<T> {
   auto size = xa.size();
-  auto c = Vector<T>(size);
+  Vector<T> c = Vector<T>::Zero(size);
   auto w = Vector<T>(size);
   w(size - 1) = T(1);
   c(0) = work_(0);
-- 
2.43.0


From ed43a16238cd5d846a29f0f2b22775501b689214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:37 +0000
Subject: [PATCH 17/99] fix: periodic spline reused with fewer points

---
 .../include/pyinterp/detail/interpolation/cspline_periodic.hpp  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyinterp/core/include/pyinterp/detail/interpolation/cspline_periodic.hpp b/src/pyinterp/core/include/pyinterp/detail/interpolation/cspline_periodic.hpp
index 2847961..fcccfce 100644
--- a/src/pyinterp/core/include/pyinterp/detail/interpolation/cspline_periodic.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/interpolation/cspline_periodic.hpp
@@ -96,7 +96,7 @@ auto CSplinePeriodic<T>::compute_coefficients(const Vector<T> &xa,
                                               const Vector<T> &ya) -> void {
   Interpolator1D<T>::compute_coefficients(xa, ya);
   auto size = xa.size();
-  if (this->x_.size() < size) {
+  if (this->x_.size() != size) {
     this->A_.resize(size - 1, size - 1);
     this->b_.resize(size - 1);
     this->x_.resize(size);
-- 
2.43.0


From 38ba1fee3221a55b8c14b32d71a69898585aaf61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:37 +0000
Subject: [PATCH 18/99] fix: periodic spline with three points

---
 .../detail/interpolation/cspline_periodic.hpp   | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/detail/interpolation/cspline_periodic.hpp b/src/pyinterp/core/include/pyinterp/detail/interpolation/cspline_periodic.hpp
index fcccfce..9cd0ded 100644
--- a/src/pyinterp/core/include/pyinterp/detail/interpolation/cspline_periodic.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/interpolation/cspline_periodic.hpp
@@ -47,6 +47,14 @@ constexpr auto CSplinePeriodic<T>::solve_symmetric_cyclic_tridiagonal(T *x)
     x[0] = this->b_(0) / this->A_(0, 0);
     return;
   }
+  if (size == 2) {
+    // The corner elements coincide with the off-diagonal elements.
+    const auto det =
+        this->A_(0, 0) * this->A_(1, 1) - this->A_(0, 1) * this->A_(1, 0);
+    x[0] = (this->b_(0) * this->A_(1, 1) - this->b_(1) * this->A_(0, 1)) / det;
+    x[1] = (this->b_(1) * this->A_(0, 0) - this->b_(0) * this->A_(1, 0)) / det;
+    return;
+  }
 
   alpha_(0) = this->A_(0, 0);
   gamma_(0) = this->A_(0, 1) / alpha_(0);
@@ -84,10 +92,8 @@ constexpr auto CSplinePeriodic<T>::solve_symmetric_cyclic_tridiagonal(T *x)
 
   x[size_m1] = c_(size_m1);
   x[size_m2] = c_(size_m2) - gamma_(size_m2) * x[size_m1];
-  if (size >= 3) {
-    for (int i = size_m3, j = 0; j <= size_m3; j++, i--) {
-      x[i] = c_(i) - gamma_(i) * x[i + 1] - delta_(i) * x[size_m1];
-    }
+  for (int i = size_m3, j = 0; j <= size_m3; j++, i--) {
+    x[i] = c_(i) - gamma_(i) * x[i + 1] - delta_(i) * x[size_m1];
   }
 }
 
@@ -132,6 +138,9 @@ auto CSplinePeriodic<T>::compute_coefficients(const Vector<T> &xa,
   this->A_(i, 0) = h_i1;
   this->A_(i, i) = 2 * (h_i0 + h_i1);
   this->A_(0, i) = h_i1;
+  if (size == 3) {
+    this->A_(i, 0) = this->A_(0, i) = h_i0 + h_i1;
+  }
   this->b_(i) = 3 * (y_i1 * g_i1 - y_i0 * g_i0);
   solve_symmetric_cyclic_tridiagonal(this->x_.data() + 1);
   this->x_(0) = this->x_(size - 1);
-- 
2.43.0


From bb01cc50bd75caa3ed1eaa03a8d5868308a94a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:44 +0000
Subject: [PATCH 19/99] fix: bounds_error of interpolate1d is never applied

---
 src/pyinterp/core/include/pyinterp/interpolate1d.hpp | 10 ++++++----
 src/pyinterp/orbit.py                                |  4 ++++
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/interpolate1d.hpp b/src/pyinterp/core/include/pyinterp/interpolate1d.hpp
index 4939501..e3af9b3 100644
--- a/src/pyinterp/core/include/pyinterp/interpolate1d.hpp
+++ b/src/pyinterp/core/include/pyinterp/interpolate1d.hpp
@@ -53,10 +53,9 @@ auto interpolate_1d(const pyinterp::Axis<double>& x,
   auto result = Vector<double>(xi.size());
 
   for (int64_t ix = 0; ix < xi.size(); ++ix) {
-    // Nearest index of the current value
-    auto index = axis->find_index(xi(ix), true);
+    const auto value = axis->normalize_coordinate(xi(ix));
 
-    if (index == -1) {
+    if (!(value >= axis->min_value() && value <= axis->max_value())) {
       if (bounds_error) {
         throw std::out_of_range("The value is out of the range of the axis");
       } else {
@@ -65,6 +64,9 @@ auto interpolate_1d(const pyinterp::Axis<double>& x,
       }
     }
 
+    // Nearest index of the current value
+    const auto index = axis->find_index(value, true);
+
     // Calculate the start, end and size of the current window
     const auto [start, end, n] =
         detail::calculate_start_end_size(index, axis->size(), half_window_size);
@@ -73,7 +75,7 @@ auto interpolate_1d(const pyinterp::Axis<double>& x,
     const Vector<double> yw = y.segment(start, n);
 
     // Interpolation of the current value
-    result(ix) = (*interpolator)(axis->slice(start, n), yw, xi(ix));
+    result(ix) = (*interpolator)(axis->slice(start, n), yw, value);
   }
   return result;
 }
diff --git a/src/pyinterp/orbit.py b/src/pyinterp/orbit.py
index 617f96b..56831cc 100644
--- a/src/pyinterp/orbit.py
+++ b/src/pyinterp/orbit.py
@@ -62,24 +62,28 @@ def interpolate(
         x,
         xi,
         half_window_size=half_window_size,
+        bounds_error=False,
     )
     y = core.interpolate1d(
         x_axis,
         y,
         xi,
         half_window_size=half_window_size,
+        bounds_error=False,
     )
     z = core.interpolate1d(
         x_axis,
         z,
         xi,
         half_window_size=half_window_size,
+        bounds_error=False,
     )
     r = core.interpolate1d(
         x_axis,
         r,
         xi,
         half_window_size=half_window_size,
+        bounds_error=False,
     )
 
     r /= numpy.sqrt(x * x + y * y + z * z)
-- 
2.43.0


From 14624b2419664a5ad02401ace8a91751b602f54c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:05 +0000
Subject: [PATCH 20/99] fix: windows of the spline interpolations beyond the
 ends of the axes

---
 .../include/pyinterp/detail/math/frame.hpp    | 10 +++
 src/pyinterp/core/include/pyinterp/frame.hpp  | 83 +++++++++++++------
 src/pyinterp/core/module/bicubic.cpp          |  6 +-
 3 files changed, 69 insertions(+), 30 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/detail/math/frame.hpp b/src/pyinterp/core/include/pyinterp/detail/math/frame.hpp
index 6e21154..d470a1b 100644
--- a/src/pyinterp/core/include/pyinterp/detail/math/frame.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/math/frame.hpp
@@ -4,6 +4,7 @@
 // BSD-style license that can be found in the LICENSE file.
 #pragma once
 #include <Eigen/Core>
+#include <algorithm>
 #include <memory>
 #include <utility>
 
@@ -109,6 +110,15 @@ class CoordsXY {
     return math::normalize_angle(xi, (*x_)(0), 360.0);
   }
 
+  /// Normalizes the angle with respect to the cell located in the center of the
+  /// X axis of this array, which frames it.
+  [[nodiscard]] inline auto center_angle(const double xi) const -> double {
+    const auto x0 = (*x_)(nx() - 1);
+    const auto x1 = (*x_)(nx());
+    return std::clamp(
+        math::normalize_angle(xi, (x0 + x1) * 0.5 - 180.0, 360.0), x0, x1);
+  }
+
  private:
   std::shared_ptr<Eigen::VectorXd> x_{};
   std::shared_ptr<Eigen::VectorXd> y_{};
diff --git a/src/pyinterp/core/include/pyinterp/frame.hpp b/src/pyinterp/core/include/pyinterp/frame.hpp
index ec7ba04..9bff1d2 100644
--- a/src/pyinterp/core/include/pyinterp/frame.hpp
+++ b/src/pyinterp/core/include/pyinterp/frame.hpp
@@ -4,8 +4,10 @@
 // BSD-style license that can be found in the LICENSE file.
 #pragma once
 #include <Eigen/Core>
+#include <cmath>
 #include <cstdint>
 #include <string>
+#include <vector>
 
 #include "pyinterp/axis.hpp"
 #include "pyinterp/detail/math/frame.hpp"
@@ -21,6 +23,54 @@ inline auto index_error(const std::string &axis, const std::string &value,
                               " axis");
 }
 
+/// Loads the coordinates of the elements of a window of an axis.
+///
+/// The elements that the boundary conditions, or the wrapping of a circle, add
+/// to the window are set beyond the ends of the axis, so that the coordinates
+/// of the window are always increasing.
+inline auto load_coordinates(const Axis<double> &axis,
+                             const std::vector<int64_t> &indexes,
+                             Eigen::VectorXd &result) -> void {
+  const auto size = static_cast<int64_t>(indexes.size());
+  const auto center = (size >> 1) - 1;
+
+  // Distance between two consecutive elements of the window
+  const auto step = [&](const int64_t i0, const int64_t i1) -> double {
+    if (axis.is_circle()) {
+      const auto delta =
+          detail::math::normalize_angle(axis(i1) - axis(i0), 0.0, 360.0);
+      return delta == 0 ? 360.0 : delta;
+    }
+    if (axis.size() == 1) {
+      return 1.0;
+    }
+    if (std::abs(i0 - i1) == 1) {
+      return std::abs(axis(i1) - axis(i0));
+    }
+    return i1 == axis.size() - 1 ? axis(i1) - axis(i1 - 1) : axis(1) - axis(0);
+  };
+
+  // Elements that follow one another on the axis
+  auto first = center;
+  auto last = center;
+  while (first > 0 && indexes[first - 1] == indexes[first] - 1) {
+    --first;
+  }
+  while (last < size - 1 && indexes[last + 1] == indexes[last] + 1) {
+    ++last;
+  }
+  for (auto ix = first; ix <= last; ++ix) {
+    result(ix) = axis(indexes[ix]);
+  }
+  // Elements added before and after
+  for (auto ix = first - 1; ix >= 0; --ix) {
+    result(ix) = result(ix + 1) - step(indexes[ix], indexes[ix + 1]);
+  }
+  for (auto ix = last + 1; ix < size; ++ix) {
+    result(ix) = result(ix - 1) + step(indexes[ix - 1], indexes[ix]);
+  }
+}
+
 /// Loads the interpolation frame into memory
 template <typename DataType>
 auto load_frame(const Grid2D<DataType> &grid, const double x, const double y,
@@ -43,19 +93,12 @@ auto load_frame(const Grid2D<DataType> &grid, const double x, const double y,
     return false;
   }
 
-  auto x0 = x_axis(x_indexes[0]);
-
-  for (Eigen::Index jx = 0; jx < frame.y()->size(); ++jx) {
-    frame.y(jx) = y_axis(y_indexes[jx]);
-  }
+  load_coordinates(x_axis, x_indexes, *frame.x());
+  load_coordinates(y_axis, y_indexes, *frame.y());
 
   for (Eigen::Index ix = 0; ix < frame.x()->size(); ++ix) {
     const auto index = x_indexes[ix];
 
-    frame.x(ix) = x_axis.is_angle()
-                      ? detail::math::normalize_angle(x_axis(index), x0, 360.0)
-                      : x_axis(index);
-
     for (Eigen::Index jx = 0; jx < frame.y()->size(); ++jx) {
       frame.q(ix, jx) = static_cast<double>(grid.value(index, y_indexes[jx]));
     }
@@ -91,11 +134,8 @@ auto load_frame(const Grid3D<DataType, AxisType> &grid, const double x,
     return false;
   }
 
-  auto x0 = x_axis(x_indexes[0]);
-
-  for (Eigen::Index jx = 0; jx < frame.y()->size(); ++jx) {
-    frame.y(jx) = y_axis(y_indexes[jx]);
-  }
+  load_coordinates(x_axis, x_indexes, *frame.x());
+  load_coordinates(y_axis, y_indexes, *frame.y());
 
   for (Eigen::Index kx = 0; kx < frame.z().size(); ++kx) {
     frame.z(kx) = z_axis(z_indexes[kx]);
@@ -104,10 +144,6 @@ auto load_frame(const Grid3D<DataType, AxisType> &grid, const double x,
   for (Eigen::Index ix = 0; ix < frame.x()->size(); ++ix) {
     const auto x_index = x_indexes[ix];
 
-    frame.x(ix) = x_axis.is_angle() ? detail::math::normalize_angle(
-                                          x_axis(x_index), x0, 360.0)
-                                    : x_axis(x_index);
-
     for (Eigen::Index jx = 0; jx < frame.y()->size(); ++jx) {
       const auto y_index = y_indexes[jx];
 
@@ -154,11 +190,8 @@ auto load_frame(const Grid4D<DataType, AxisType> &grid, const double x,
     return false;
   }
 
-  auto x0 = x_axis(x_indexes[0]);
-
-  for (Eigen::Index jx = 0; jx < frame.y()->size(); ++jx) {
-    frame.y(jx) = y_axis(y_indexes[jx]);
-  }
+  load_coordinates(x_axis, x_indexes, *frame.x());
+  load_coordinates(y_axis, y_indexes, *frame.y());
 
   for (Eigen::Index kx = 0; kx < frame.z().size(); ++kx) {
     frame.z(kx) = z_axis(z_indexes[kx]);
@@ -171,10 +204,6 @@ auto load_frame(const Grid4D<DataType, AxisType> &grid, const double x,
   for (Eigen::Index ix = 0; ix < frame.x()->size(); ++ix) {
     const auto x_index = x_indexes[ix];
 
-    frame.x(ix) = x_axis.is_angle() ? detail::math::normalize_angle(
-                                          x_axis(x_index), x0, 360.0)
-                                    : x_axis(x_index);
-
     for (Eigen::Index jx = 0; jx < frame.y()->size(); ++jx) {
       const auto y_index = y_indexes[jx];
 
diff --git a/src/pyinterp/core/module/bicubic.cpp b/src/pyinterp/core/module/bicubic.cpp
index a097442..022beaa 100644
--- a/src/pyinterp/core/module/bicubic.cpp
+++ b/src/pyinterp/core/module/bicubic.cpp
@@ -77,7 +77,7 @@ auto bicubic(const Grid2D<DataType> &grid, const py::array_t<double> &x,
                   // data race problem here.
                   load_frame(grid, xi, yi, boundary_type, bounds_error, frame)
                       ? interpolator.interpolate(
-                            is_angle ? frame.normalize_angle(xi) : xi, yi,
+                            is_angle ? frame.center_angle(xi) : xi, yi,
                             frame)
                       : std::numeric_limits<double>::quiet_NaN();
             }
@@ -137,7 +137,7 @@ auto bicubic_3d(const Grid3D<DataType, AxisType> &grid,
 
               if (load_frame<DataType, AxisType>(
                       grid, xi, yi, zi, boundary_type, bounds_error, frame)) {
-                xi = is_angle ? frame.normalize_angle(xi) : xi;
+                xi = is_angle ? frame.center_angle(xi) : xi;
                 auto z0 = interpolator.interpolate(xi, yi, frame.frame_2d(0));
                 auto z1 = interpolator.interpolate(xi, yi, frame.frame_2d(1));
                 _result(ix) = detail::math::linear<AxisType, double>(
@@ -206,7 +206,7 @@ auto bicubic_4d(const Grid4D<DataType, AxisType> &grid,
               if (load_frame<DataType, AxisType>(grid, xi, yi, zi, ui,
                                                  boundary_type, bounds_error,
                                                  frame)) {
-                xi = is_angle ? frame.normalize_angle(xi) : xi;
+                xi = is_angle ? frame.center_angle(xi) : xi;
                 auto z00 =
                     interpolator.interpolate(xi, yi, frame.frame_2d(0, 0));
                 auto z10 =
-- 
2.43.0


From bde2c2cfa9ee85dfa1d2ab7b058ffc45ca0887fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:16 +0000
Subject: [PATCH 21/99] fix: exceptions thrown by several threads at the same
 time

The workers assigned the exception_ptr they share without synchronisation, the
one of the covers of geohash did not catch its exceptions, and the LOESS filters
dropped theirs.
---
 .../core/include/pyinterp/bivariate.hpp       |  2 +-
 .../core/include/pyinterp/detail/thread.hpp   | 14 +++++++++++
 src/pyinterp/core/include/pyinterp/fill.hpp   | 19 +++++++++++----
 .../include/pyinterp/geodetic/algorithm.hpp   |  4 ++--
 .../include/pyinterp/geodetic/coordinates.hpp |  6 ++---
 .../core/include/pyinterp/quadrivariate.hpp   |  2 +-
 src/pyinterp/core/include/pyinterp/rtree.hpp  | 12 +++++-----
 .../core/include/pyinterp/trivariate.hpp      |  2 +-
 .../core/lib/geodetic/line_string.cpp         |  4 ++--
 src/pyinterp/core/lib/geodetic/rtree.cpp      |  8 +++----
 src/pyinterp/core/lib/geohash/string.cpp      | 24 +++++++++++--------
 src/pyinterp/core/module/bicubic.cpp          |  6 ++---
 12 files changed, 65 insertions(+), 38 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/bivariate.hpp b/src/pyinterp/core/include/pyinterp/bivariate.hpp
index 996b919..3d669f1 100644
--- a/src/pyinterp/core/include/pyinterp/bivariate.hpp
+++ b/src/pyinterp/core/include/pyinterp/bivariate.hpp
@@ -143,7 +143,7 @@ auto bivariate(const Grid2D<Type> &grid, const pybind11::array_t<Coordinate> &x,
                                        interpolator, bounds_error);
             }
           } catch (...) {
-            except = std::current_exception();
+            detail::capture_exception(except);
           }
         },
         size, num_threads);
diff --git a/src/pyinterp/core/include/pyinterp/detail/thread.hpp b/src/pyinterp/core/include/pyinterp/detail/thread.hpp
index 2cd1dd3..440a954 100644
--- a/src/pyinterp/core/include/pyinterp/detail/thread.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/thread.hpp
@@ -3,11 +3,25 @@
 // All rights reserved. Use of this source code is governed by a
 // BSD-style license that can be found in the LICENSE file.
 #pragma once
+#include <exception>
+#include <mutex>
 #include <thread>
 #include <vector>
 
 namespace pyinterp::detail {
 
+/// Keeps the exception being handled by the thread that calls this function.
+///
+/// Several threads can fail at the same time: the pointer they share is
+/// written by one of them at a time.
+///
+/// @param except Pointer, shared by the threads, to the last exception caught
+inline void capture_exception(std::exception_ptr &except) {
+  static std::mutex mutex;
+  auto lock = std::lock_guard<std::mutex>(mutex);
+  except = std::current_exception();
+}
+
 /// Automates the cutting of vectors to be processed in thread.
 ///
 /// @param worker Lambda function called in each thread launched
diff --git a/src/pyinterp/core/include/pyinterp/fill.hpp b/src/pyinterp/core/include/pyinterp/fill.hpp
index d7c1305..dfba671 100644
--- a/src/pyinterp/core/include/pyinterp/fill.hpp
+++ b/src/pyinterp/core/include/pyinterp/fill.hpp
@@ -69,7 +69,7 @@ void set_zonal_average(pybind11::EigenDRef<Matrix<Type>> &grid,
             }
           }
         } catch (...) {
-          except = std::current_exception();
+          detail::capture_exception(except);
         }
       },
       grid.cols(), num_threads);
@@ -146,7 +146,7 @@ auto gauss_seidel(pybind11::EigenDRef<pyinterp::Matrix<Type>> &grid,
         }
       }
     } catch (...) {
-      except = std::current_exception();
+      detail::capture_exception(except);
     }
   };
 
@@ -497,7 +497,7 @@ auto loess(const Grid2D<Type> &grid, const uint32_t nx, const uint32_t ny,
         }
       }
     } catch (...) {
-      except = std::current_exception();
+      detail::capture_exception(except);
     }
   };
 
@@ -505,6 +505,9 @@ auto loess(const Grid2D<Type> &grid, const uint32_t nx, const uint32_t ny,
     pybind11::gil_scoped_release release;
     detail::dispatch(worker, grid.x()->size(), num_threads);
   }
+  if (except != nullptr) {
+    std::rethrow_exception(except);
+  }
   return result;
 }
 
@@ -608,7 +611,7 @@ auto loess(const Grid3D<Type, AxisType> &grid, const uint32_t nx,
         }
       }
     } catch (...) {
-      except = std::current_exception();
+      detail::capture_exception(except);
     }
   };
 
@@ -616,6 +619,9 @@ auto loess(const Grid3D<Type, AxisType> &grid, const uint32_t nx,
     pybind11::gil_scoped_release release;
     detail::dispatch(worker, grid.z()->size(), num_threads);
   }
+  if (except != nullptr) {
+    std::rethrow_exception(except);
+  }
   return result;
 }
 
@@ -667,7 +673,7 @@ auto loess(const Grid4D<Type, AxisType> &grid, const uint32_t nx,
         }
       }
     } catch (...) {
-      except = std::current_exception();
+      detail::capture_exception(except);
     }
   };
 
@@ -675,6 +681,9 @@ auto loess(const Grid4D<Type, AxisType> &grid, const uint32_t nx,
     pybind11::gil_scoped_release release;
     detail::dispatch(worker, grid.u()->size(), num_threads);
   }
+  if (except != nullptr) {
+    std::rethrow_exception(except);
+  }
   return result;
 }
 
diff --git a/src/pyinterp/core/include/pyinterp/geodetic/algorithm.hpp b/src/pyinterp/core/include/pyinterp/geodetic/algorithm.hpp
index efbc60b..ccf725f 100644
--- a/src/pyinterp/core/include/pyinterp/geodetic/algorithm.hpp
+++ b/src/pyinterp/core/include/pyinterp/geodetic/algorithm.hpp
@@ -94,7 +94,7 @@ template <typename Geometry1, typename Geometry2>
                   Geometry1(lon(ix), lat(ix)), geometry2);
             }
           } catch (...) {
-            except = std::current_exception();
+            detail::capture_exception(except);
           }
         },
         size, num_threads);
@@ -170,7 +170,7 @@ template <typename Geometry, typename Strategy>
                   strategy);
             }
           } catch (...) {
-            except = std::current_exception();
+            detail::capture_exception(except);
           }
         },
         size, num_threads);
diff --git a/src/pyinterp/core/include/pyinterp/geodetic/coordinates.hpp b/src/pyinterp/core/include/pyinterp/geodetic/coordinates.hpp
index 4f7c368..4702767 100644
--- a/src/pyinterp/core/include/pyinterp/geodetic/coordinates.hpp
+++ b/src/pyinterp/core/include/pyinterp/geodetic/coordinates.hpp
@@ -63,7 +63,7 @@ class Coordinates : public detail::geodetic::Coordinates {
                 _alt(ix) = boost::geometry::get<2>(lla);
               }
             } catch (...) {
-              except = std::current_exception();
+              detail::capture_exception(except);
             }
           },
           size, num_threads);
@@ -111,7 +111,7 @@ class Coordinates : public detail::geodetic::Coordinates {
                 z_(ix) = boost::geometry::get<2>(ecef);
               }
             } catch (...) {
-              except = std::current_exception();
+              detail::capture_exception(except);
             }
           },
           size, num_threads);
@@ -159,7 +159,7 @@ class Coordinates : public detail::geodetic::Coordinates {
                 _alt2(ix) = boost::geometry::get<2>(lla);
               }
             } catch (...) {
-              except = std::current_exception();
+              detail::capture_exception(except);
             }
           },
           size, num_threads);
diff --git a/src/pyinterp/core/include/pyinterp/quadrivariate.hpp b/src/pyinterp/core/include/pyinterp/quadrivariate.hpp
index c7b1b64..7dfe9d9 100644
--- a/src/pyinterp/core/include/pyinterp/quadrivariate.hpp
+++ b/src/pyinterp/core/include/pyinterp/quadrivariate.hpp
@@ -166,7 +166,7 @@ auto quadrivariate(const Grid4D<Type, AxisType> &grid,
                   u_interpolation_method, bounds_error);
             }
           } catch (...) {
-            except = std::current_exception();
+            detail::capture_exception(except);
           }
         },
         size, num_threads);
diff --git a/src/pyinterp/core/include/pyinterp/rtree.hpp b/src/pyinterp/core/include/pyinterp/rtree.hpp
index c86cb38..ecddd6c 100644
--- a/src/pyinterp/core/include/pyinterp/rtree.hpp
+++ b/src/pyinterp/core/include/pyinterp/rtree.hpp
@@ -575,7 +575,7 @@ class RTree : public detail::geometry::RTree<Point, Type> {
                 }
               }
             } catch (...) {
-              except = std::current_exception();
+              detail::capture_exception(except);
             }
           },
           size, num_threads);
@@ -659,7 +659,7 @@ class RTree : public detail::geometry::RTree<Point, Type> {
                 }
               }
             } catch (...) {
-              except = std::current_exception();
+              detail::capture_exception(except);
             }
           },
           size, num_threads);
@@ -714,7 +714,7 @@ class RTree : public detail::geometry::RTree<Point, Type> {
                 _neighbors(ix) = result.second;
               }
             } catch (...) {
-              except = std::current_exception();
+              detail::capture_exception(except);
             }
           },
           size, num_threads);
@@ -773,7 +773,7 @@ class RTree : public detail::geometry::RTree<Point, Type> {
                 _neighbors(ix) = result.second;
               }
             } catch (...) {
-              except = std::current_exception();
+              detail::capture_exception(except);
             }
           },
           size, num_threads);
@@ -832,7 +832,7 @@ class RTree : public detail::geometry::RTree<Point, Type> {
                 _neighbors(ix) = result.second;
               }
             } catch (...) {
-              except = std::current_exception();
+              detail::capture_exception(except);
             }
           },
           size, num_threads);
@@ -890,7 +890,7 @@ class RTree : public detail::geometry::RTree<Point, Type> {
                 _neighbors(ix) = result.second;
               }
             } catch (...) {
-              except = std::current_exception();
+              detail::capture_exception(except);
             }
           },
           size, num_threads);
diff --git a/src/pyinterp/core/include/pyinterp/trivariate.hpp b/src/pyinterp/core/include/pyinterp/trivariate.hpp
index 0649d23..fe29f91 100644
--- a/src/pyinterp/core/include/pyinterp/trivariate.hpp
+++ b/src/pyinterp/core/include/pyinterp/trivariate.hpp
@@ -121,7 +121,7 @@ auto trivariate(const Grid3D<Type, AxisType> &grid,
                                         z_interpolation_method, bounds_error);
             }
           } catch (...) {
-            except = std::current_exception();
+            detail::capture_exception(except);
           }
         },
         size, num_threads);
diff --git a/src/pyinterp/core/lib/geodetic/line_string.cpp b/src/pyinterp/core/lib/geodetic/line_string.cpp
index 2340cc5..aad39b2 100644
--- a/src/pyinterp/core/lib/geodetic/line_string.cpp
+++ b/src/pyinterp/core/lib/geodetic/line_string.cpp
@@ -235,7 +235,7 @@ auto LineString::closest_point(const Eigen::Ref<const Eigen::VectorXd>& lon,
           result_lat[ix] = point.lat();
         }
       } catch (...) {
-        except = std::current_exception();
+        detail::capture_exception(except);
       }
     };
     detail::dispatch(worker, lon.size(), num_threads);
@@ -248,7 +248,7 @@ auto LineString::closest_point(const Eigen::Ref<const Eigen::VectorXd>& lon,
           result_lat[ix] = point.lat();
         }
       } catch (...) {
-        except = std::current_exception();
+        detail::capture_exception(except);
       }
     };
     detail::dispatch(worker, lon.size(), num_threads);
diff --git a/src/pyinterp/core/lib/geodetic/rtree.cpp b/src/pyinterp/core/lib/geodetic/rtree.cpp
index 0a6aedb..c9317ff 100644
--- a/src/pyinterp/core/lib/geodetic/rtree.cpp
+++ b/src/pyinterp/core/lib/geodetic/rtree.cpp
@@ -133,7 +133,7 @@ auto RTree::query(const Eigen::Ref<const Vector<double>> &lon,
               }
             }
           } catch (...) {
-            except = std::current_exception();
+            detail::capture_exception(except);
           }
         },
         size, num_threads);
@@ -181,7 +181,7 @@ auto RTree::inverse_distance_weighting(
               _neighbors(ix) = result.second;
             }
           } catch (...) {
-            except = std::current_exception();
+            detail::capture_exception(except);
           }
         },
         size, num_threads);
@@ -239,7 +239,7 @@ auto RTree::radial_basis_function(const Eigen::Ref<const Vector<double>> &lon,
               _neighbors(ix) = result.second;
             }
           } catch (...) {
-            except = std::current_exception();
+            detail::capture_exception(except);
           }
         },
         size, num_threads);
@@ -290,7 +290,7 @@ auto RTree::window_function(const Eigen::Ref<const Vector<double>> &lon,
               _neighbors(ix) = result.second;
             }
           } catch (...) {
-            except = std::current_exception();
+            detail::capture_exception(except);
           }
         },
         size, num_threads);
diff --git a/src/pyinterp/core/lib/geohash/string.cpp b/src/pyinterp/core/lib/geohash/string.cpp
index eb86a5b..a627a66 100644
--- a/src/pyinterp/core/lib/geohash/string.cpp
+++ b/src/pyinterp/core/lib/geohash/string.cpp
@@ -237,17 +237,21 @@ auto mask_cell(const geodetic::Box &box, const Geometry &geometry,
 
   detail::dispatch(
       [&](size_t start, size_t end) {
-        for (auto lat = static_cast<int64_t>(start);
-             lat < static_cast<int64_t>(end); ++lat) {
-          auto point = geodetic::Point(
-              0, point_sw.lat() + static_cast<double>(lat) * lat_err);
-
-          for (size_t lon = 0; lon < lon_step; ++lon) {
-            point.lon(point_sw.lon() + static_cast<double>(lon) * lng_err);
-            result(lon, lat) = boost::geometry::intersects(
-                int64::bounding_box(int64::encode(point, bits), bits),
-                geometry);
+        try {
+          for (auto lat = static_cast<int64_t>(start);
+               lat < static_cast<int64_t>(end); ++lat) {
+            auto point = geodetic::Point(
+                0, point_sw.lat() + static_cast<double>(lat) * lat_err);
+
+            for (size_t lon = 0; lon < lon_step; ++lon) {
+              point.lon(point_sw.lon() + static_cast<double>(lon) * lng_err);
+              result(lon, lat) = boost::geometry::intersects(
+                  int64::bounding_box(int64::encode(point, bits), bits),
+                  geometry);
+            }
           }
+        } catch (...) {
+          detail::capture_exception(except);
         }
       },
       lat_step, num_threads);
diff --git a/src/pyinterp/core/module/bicubic.cpp b/src/pyinterp/core/module/bicubic.cpp
index 022beaa..cfbff74 100644
--- a/src/pyinterp/core/module/bicubic.cpp
+++ b/src/pyinterp/core/module/bicubic.cpp
@@ -82,7 +82,7 @@ auto bicubic(const Grid2D<DataType> &grid, const py::array_t<double> &x,
                       : std::numeric_limits<double>::quiet_NaN();
             }
           } catch (...) {
-            except = std::current_exception();
+            detail::capture_exception(except);
           }
         },
         size, num_threads);
@@ -147,7 +147,7 @@ auto bicubic_3d(const Grid3D<DataType, AxisType> &grid,
               }
             }
           } catch (...) {
-            except = std::current_exception();
+            detail::capture_exception(except);
           }
         },
         size, num_threads);
@@ -226,7 +226,7 @@ auto bicubic_4d(const Grid4D<DataType, AxisType> &grid,
               }
             }
           } catch (...) {
-            except = std::current_exception();
+            detail::capture_exception(except);
           }
         },
         size, num_threads);
-- 
2.43.0


From d5c528061c90bd00d286944fe66396a75912ab7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:55 +0000
Subject: [PATCH 22/99] fix: the last cells of 63 and 64 bits lie inside the
 coordinate ranges

---
 src/pyinterp/core/lib/geohash/int64.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/pyinterp/core/lib/geohash/int64.cpp b/src/pyinterp/core/lib/geohash/int64.cpp
index 749c8a9..d9db03f 100644
--- a/src/pyinterp/core/lib/geohash/int64.cpp
+++ b/src/pyinterp/core/lib/geohash/int64.cpp
@@ -82,9 +82,6 @@ constexpr auto encode_range(const double x, const double r) -> uint32_t {
 
 // Decode the 32-bit range encoding X back to a value in the range -r to +r.
 constexpr auto decode_range(const uint32_t x, const double r) -> double {
-  if (x == std::numeric_limits<uint32_t>::max()) {
-    return r;
-  }
   auto p = static_cast<double>(x) * inv_exp232;
   return 2 * r * p - r;
 }
-- 
2.43.0


From 6289131c8cd351633e101d7a0e6e33708a299464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:55 +0000
Subject: [PATCH 23/99] fix: rounded position of a geohash outside its cell

---
 .../core/include/pyinterp/geodetic/box.hpp      | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/geodetic/box.hpp b/src/pyinterp/core/include/pyinterp/geodetic/box.hpp
index 5e4d1fb..bfb5f7b 100644
--- a/src/pyinterp/core/include/pyinterp/geodetic/box.hpp
+++ b/src/pyinterp/core/include/pyinterp/geodetic/box.hpp
@@ -78,11 +78,9 @@ class Box : public boost::geometry::model::box<Point> {
   /// @brief Returns a point inside the box, making an effort to round to
   /// minimal precision.
   [[nodiscard]] inline auto round() const -> Point {
-    const auto xy = delta(true);
-    const auto x = std::get<0>(xy);
-    const auto y = std::get<1>(xy);
-    return {std::ceil(this->min_corner().lon() / x) * x,
-            std::ceil(this->min_corner().lat() / y) * y};
+    const auto [x, y] = delta(true);
+    return {Box::round_up(this->min_corner().lon(), x),
+            Box::round_up(this->min_corner().lat(), y)};
   }
 
   /// @brief Test if the given point is inside or on border of this instance
@@ -151,6 +149,15 @@ class Box : public boost::geometry::model::box<Point> {
   [[nodiscard]] auto to_geojson() const -> pybind11::dict;
 
  private:
+  // Returns the first multiple of a power of 10 not less than the given value.
+  static auto round_up(const double value, const double power) -> double {
+    // The inverse of the negative powers is an integer, known exactly.
+    const auto inverse = std::round(1 / power);
+    const auto result = power < 1 ? std::ceil(value * inverse) / inverse
+                                  : std::ceil(value / power) * power;
+    return std::max(result, value);
+  }
+
   // Returns the maximum power of 10 from a number (x > 0)
   static auto max_decimal_power(const double x) -> double {
     auto m = static_cast<int32_t>(std::floor(std::log10(x)));
-- 
2.43.0


From 697f3f1187dc95e2c7fa01c272bf2b515675975e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:55 +0000
Subject: [PATCH 24/99] fix: geohash codes without any character are refused

---
 src/pyinterp/core/include/pyinterp/geohash.hpp | 12 ++++++------
 src/pyinterp/core/module/geohash/string.cpp    |  2 +-
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/geohash.hpp b/src/pyinterp/core/include/pyinterp/geohash.hpp
index 5a7f57f..40ca6ed 100644
--- a/src/pyinterp/core/include/pyinterp/geohash.hpp
+++ b/src/pyinterp/core/include/pyinterp/geohash.hpp
@@ -54,8 +54,8 @@ class GeoHash {
   /// @param[in] precision Number of characters in the geohash.
   GeoHash(double longitude, double latitude, uint32_t precision)
       : code_(precision, '\0') {
-    if (precision > 12) {
-      throw std::invalid_argument("GeoHash precision must be <= 12");
+    if (precision < 1 || precision > 12) {
+      throw std::invalid_argument("GeoHash precision must be within [1, 12]");
     }
     string::encode(
         {detail::math::normalize_angle(longitude, -180.0, 360.0), latitude},
@@ -70,8 +70,8 @@ class GeoHash {
   /// @throw std::invalid_argument if the geohash is not valid.
   static auto from_string(const std::string &code, bool round) -> GeoHash {
     auto precision = static_cast<uint32_t>(code.size());
-    if (precision > 12) {
-      throw std::invalid_argument("GeoHash precision must be <= 12");
+    if (precision < 1 || precision > 12) {
+      throw std::invalid_argument("GeoHash precision must be within [1, 12]");
     }
     if (!Base32().validate(code.data(), precision)) {
       throw std::invalid_argument("GeoHash is not valid");
@@ -154,8 +154,8 @@ class GeoHash {
   /// precision
   [[nodiscard]] static auto error_with_precision(const uint32_t precision)
       -> std::tuple<double, double> {
-    if (precision > 12) {
-      throw std::invalid_argument("GeoHash precision must be <= 12");
+    if (precision < 1 || precision > 12) {
+      throw std::invalid_argument("GeoHash precision must be within [1, 12]");
     }
     return int64::error_with_precision(precision * 5);
   }
diff --git a/src/pyinterp/core/module/geohash/string.cpp b/src/pyinterp/core/module/geohash/string.cpp
index 4c42418..c979b6c 100644
--- a/src/pyinterp/core/module/geohash/string.cpp
+++ b/src/pyinterp/core/module/geohash/string.cpp
@@ -19,7 +19,7 @@ namespace geodetic = pyinterp::geodetic;
 
 // Checking the value defining the precision of a geohash.
 constexpr static auto check_range(uint32_t precision) -> void {
-  if (precision > 12) {
+  if (precision < 1 || precision > 12) {
     throw std::invalid_argument("precision must be within [1, 12]");
   }
 }
-- 
2.43.0


From 86599d518159f5de0acc8e1a68bf65fe205e90e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:13 +0000
Subject: [PATCH 25/99] fix: neighbours of a geohash across the date line and
 the poles

---
 src/pyinterp/core/lib/geohash/int64.cpp | 33 ++++++++++++++++---------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/src/pyinterp/core/lib/geohash/int64.cpp b/src/pyinterp/core/lib/geohash/int64.cpp
index d9db03f..d4d9b45 100644
--- a/src/pyinterp/core/lib/geohash/int64.cpp
+++ b/src/pyinterp/core/lib/geohash/int64.cpp
@@ -271,27 +271,36 @@ auto neighbors(const uint64_t hash, const uint32_t precision)
   auto center = box.centroid();
   auto [lon_delta, lat_delta] = box.delta(false);
 
+  // Code of the cell located at the given number of cells from this one
+  auto neighbor = [&](const double x, const double y) -> uint64_t {
+    auto lon = center.lon() + x * lon_delta;
+    auto lat = center.lat() + y * lat_delta;
+    // Beyond a pole, the next cell is on the opposite meridian
+    if (std::abs(lat) > 90) {
+      lat = std::copysign(180, lat) - lat;
+      lon += 180;
+    }
+    return encode({detail::math::normalize_angle(lon, -180.0, 360.0), lat},
+                  precision);
+  };
+
   return (Eigen::Matrix<uint64_t, 8, 1>() <<
               // N
-              encode({center.lon(), center.lat() + lat_delta}, precision),
+              neighbor(0, 1),
           // NE,
-          encode({center.lon() + lon_delta, center.lat() + lat_delta},
-                 precision),
+          neighbor(1, 1),
           // E,
-          encode({center.lon() + lon_delta, center.lat()}, precision),
+          neighbor(1, 0),
           // SE,
-          encode({center.lon() + lon_delta, center.lat() - lat_delta},
-                 precision),
+          neighbor(1, -1),
           // S,
-          encode({center.lon(), center.lat() - lat_delta}, precision),
+          neighbor(0, -1),
           // SW,
-          encode({center.lon() - lon_delta, center.lat() - lat_delta},
-                 precision),
+          neighbor(-1, -1),
           // W,
-          encode({center.lon() - lon_delta, center.lat()}, precision),
+          neighbor(-1, 0),
           // NW
-          encode({center.lon() - lon_delta, center.lat() + lat_delta},
-                 precision))
+          neighbor(-1, 1))
       .finished();
 }
 
-- 
2.43.0


From 5b267c1433014af953a7ee2beaae214eecda1754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:13 +0000
Subject: [PATCH 26/99] fix: geohash cells met by a box, or by a geometry
 across the date line

---
 src/pyinterp/core/lib/geohash/int64.cpp | 30 +++++++++++++++++--------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/pyinterp/core/lib/geohash/int64.cpp b/src/pyinterp/core/lib/geohash/int64.cpp
index d4d9b45..81386ee 100644
--- a/src/pyinterp/core/lib/geohash/int64.cpp
+++ b/src/pyinterp/core/lib/geohash/int64.cpp
@@ -242,7 +242,9 @@ auto allocate_array(const size_t size) -> Vector<uint64_t> {
 // ---------------------------------------------------------------------------
 auto encode(const geodetic::Point &point, const uint32_t precision)
     -> uint64_t {
-  auto result = encoder(point.lat(), point.lon());
+  // Geometries that cross the date line have longitudes greater than 180
+  auto result = encoder(point.lat(), point.lon() > 180 ? point.lon() - 360
+                                                       : point.lon());
   if (precision != 64) {
     result >>= (64 - precision);
   }
@@ -311,23 +313,33 @@ auto grid_properties(const geodetic::Box &box, const uint32_t precision)
   auto box_sw = bounding_box(hash_sw, precision);
   auto box_ne = bounding_box(encode(box.max_corner(), precision), precision);
 
-  // Special case: the box is a single point
-  if (box_sw == box_ne) {
-    return std::make_tuple(hash_sw, 1, 1);
-  }
+  // Longitude of the cell of the maximum corner, which may be beyond the date
+  // line
+  auto lon_ne = box_ne.min_corner().lon() +
+                (box.max_corner().lon() > 180 ? 360.0 : 0.0);
 
-  auto lon_offset = box.max_corner().lon() == 180 ? 1 : 0;
-  auto lat_offset = box.max_corner().lat() == 90 ? 1 : 0;
+  // The cells of the maximum corner are covered by the box if it goes beyond
+  // their lower edge
+  auto lon_offset =
+      box.max_corner().lon() > lon_ne ? 1 : 0;
+  auto lat_offset =
+      box.max_corner().lat() > box_ne.min_corner().lat() ? 1 : 0;
 
   auto lng_lat_err = error_with_precision(precision);
   auto lon_step = static_cast<size_t>(
-      std::round((box_ne.min_corner().lon() - box_sw.min_corner().lon()) /
+      std::round((lon_ne - box_sw.min_corner().lon()) /
                  (std::get<0>(lng_lat_err))));
   auto lat_step = static_cast<size_t>(
       std::round((box_ne.min_corner().lat() - box_sw.min_corner().lat()) /
                  (std::get<1>(lng_lat_err))));
 
-  return std::make_tuple(hash_sw, lon_step + lon_offset, lat_step + lat_offset);
+  // A box without extent along one axis covers the cells it is located in, and
+  // a box that goes around the world meets each cell once
+  const auto lon_cells =
+      static_cast<size_t>(std::round(360 / std::get<0>(lng_lat_err)));
+  return std::make_tuple(
+      hash_sw, std::min(std::max<size_t>(lon_step + lon_offset, 1), lon_cells),
+      std::max<size_t>(lat_step + lat_offset, 1));
 }
 
 // ---------------------------------------------------------------------------
-- 
2.43.0


From 81ea775e83565c90ed71d57824bbe5543b8b2959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:13 +0000
Subject: [PATCH 27/99] fix: geohash codes found again further in the array

---
 src/pyinterp/core/lib/geohash/string.cpp | 29 +++++-------------------
 1 file changed, 6 insertions(+), 23 deletions(-)

diff --git a/src/pyinterp/core/lib/geohash/string.cpp b/src/pyinterp/core/lib/geohash/string.cpp
index a627a66..aa8848d 100644
--- a/src/pyinterp/core/lib/geohash/string.cpp
+++ b/src/pyinterp/core/lib/geohash/string.cpp
@@ -344,12 +344,6 @@ auto bounding_boxes(const geodetic::MultiPolygon &polygons,
 auto where(const pybind11::array &hash) -> std::unordered_map<
     std::string,
     std::tuple<std::tuple<int64_t, int64_t>, std::tuple<int64_t, int64_t>>> {
-  // Index shifts of neighboring pixels
-  static const auto shift_row =
-      std::array<int64_t, 8>{-1, -1, -1, 0, 1, 0, 1, 1};
-  static const auto shift_col =
-      std::array<int64_t, 8>{-1, 1, 0, -1, -1, 1, 0, 1};
-
   auto result = std::unordered_map<
       std::string,
       std::tuple<std::tuple<int64_t, int64_t>, std::tuple<int64_t, int64_t>>>();
@@ -360,7 +354,6 @@ auto where(const pybind11::array &hash) -> std::unordered_map<
   auto chars = info.strides[1];
   auto *ptr = static_cast<char *>(info.ptr);
   std::string current_code;
-  std::string neighboring_code;
 
   assert(chars <= 12);
 
@@ -379,23 +372,13 @@ auto where(const pybind11::array &hash) -> std::unordered_map<
           continue;
         }
 
-        for (int64_t kx = 0; kx < 8; ++kx) {
-          const auto i = ix + shift_row[kx];
-          const auto j = jx + shift_col[kx];
-
-          if (i >= 0 && i < rows && j >= 0 && j < cols) {
-            neighboring_code = std::string(ptr + (i * cols + j) * chars, chars);
-            if (current_code == neighboring_code) {
-              auto &first = std::get<0>(it->second);
-              std::get<0>(first) = std::min(std::get<0>(first), i);
-              std::get<1>(first) = std::max(std::get<1>(first), i);
+        auto &first = std::get<0>(it->second);
+        std::get<0>(first) = std::min(std::get<0>(first), ix);
+        std::get<1>(first) = std::max(std::get<1>(first), ix);
 
-              auto &second = std::get<1>(it->second);
-              std::get<0>(second) = std::min(std::get<0>(second), j);
-              std::get<1>(second) = std::max(std::get<1>(second), j);
-            }
-          }
-        }
+        auto &second = std::get<1>(it->second);
+        std::get<0>(second) = std::min(std::get<0>(second), jx);
+        std::get<1>(second) = std::max(std::get<1>(second), jx);
       }
     }
   }
-- 
2.43.0


From 5e811e4b56a69925e3636a4e2a423103cde89264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:13 +0000
Subject: [PATCH 28/99] fix: zoom in of codes shorter than the strings of the
 array

---
 src/pyinterp/core/lib/geohash/string.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/pyinterp/core/lib/geohash/string.cpp b/src/pyinterp/core/lib/geohash/string.cpp
index aa8848d..df750f2 100644
--- a/src/pyinterp/core/lib/geohash/string.cpp
+++ b/src/pyinterp/core/lib/geohash/string.cpp
@@ -102,6 +102,9 @@ inline auto decode_bounding_box(const char *const hash, const size_t count,
                                 uint32_t *precision = nullptr)
     -> geodetic::Box {
   auto [integer_encoded, chars] = base32.decode(hash, count);
+  if (chars == 0) {
+    throw std::invalid_argument("hash must not be empty");
+  }
   if (precision != nullptr) {
     *precision = chars;
   }
@@ -391,9 +394,14 @@ static auto zoom_in(char *ptr, pybind11::ssize_t size, uint32_t from_precision,
   // Number of bits need to zoom in
   auto bits = to_precision * 5;
 
-  // Calculation of the number of items needed for the result.
-  auto size_in = size * (static_cast<size_t>(2)
-                         << (5 * (to_precision - from_precision) - 1));
+  // Calculation of the number of items needed for the result. A code may be
+  // shorter than the strings of the array.
+  auto size_in = static_cast<size_t>(0);
+  for (auto ix = 0; ix < size; ++ix) {
+    auto chars = std::get<1>(
+        base32.decode(ptr + ix * from_precision, from_precision));
+    size_in += static_cast<size_t>(1) << (5 * (to_precision - chars));
+  }
 
   // Allocates the result table.
   auto result = allocate_array(size_in, to_precision);
-- 
2.43.0


From 57cea4f59b982a16827b24dbd1ce0d8ed6881c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:13 +0000
Subject: [PATCH 29/99] fix: units of the axes of the geohash grids

---
 src/pyinterp/_geohash.py          | 4 ++--
 src/pyinterp/geohash/converter.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pyinterp/_geohash.py b/src/pyinterp/_geohash.py
index 637ee69..013f2c1 100644
--- a/src/pyinterp/_geohash.py
+++ b/src/pyinterp/_geohash.py
@@ -70,13 +70,13 @@ class GeoHash(BaseGeoHash):
                     xarray.DataArray(
                         lon,
                         dims=('lon', ),
-                        attrs={'units': 'degrees_north'},
+                        attrs={'units': 'degrees_east'},
                     ),
                     'lat':
                     xarray.DataArray(
                         lat,
                         dims=('lat', ),
-                        attrs={'units': 'degrees_east'},
+                        attrs={'units': 'degrees_north'},
                     ),
                 },
             )
diff --git a/src/pyinterp/geohash/converter.py b/src/pyinterp/geohash/converter.py
index 01d2eee..6f948b3 100644
--- a/src/pyinterp/geohash/converter.py
+++ b/src/pyinterp/geohash/converter.py
@@ -46,9 +46,9 @@ def to_xarray(hashes: numpy.ndarray, data: numpy.ndarray) -> xarray.DataArray:
             'lon':
             xarray.DataArray(x_axis,
                              dims=('lon', ),
-                             attrs={'units': 'degrees_north'}),
+                             attrs={'units': 'degrees_east'}),
             'lat':
             xarray.DataArray(y_axis,
                              dims=('lat', ),
-                             attrs={'units': 'degrees_east'})
+                             attrs={'units': 'degrees_north'})
         })
-- 
2.43.0


From bf4586b8c6fef2df1d4d168d393c272828213039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:19 +0000
Subject: [PATCH 30/99] fix: samples of zero weight and empty accumulators in
 descriptive statistics

The first samples were forgotten when their weights were null, and merging
an empty accumulator changed the extrema or produced undefined moments.
---
 .../detail/math/descriptive_statistics.hpp    | 26 ++++++++++++++-----
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/detail/math/descriptive_statistics.hpp b/src/pyinterp/core/include/pyinterp/detail/math/descriptive_statistics.hpp
index e0ac125..601df71 100644
--- a/src/pyinterp/core/include/pyinterp/detail/math/descriptive_statistics.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/math/descriptive_statistics.hpp
@@ -51,7 +51,7 @@ class DescriptiveStatistics {
   constexpr auto operator()(const T &value) noexcept -> void {
     const auto r = acc_.sum_of_weights;
 
-    if (r == 0) {
+    if (acc_.count == 0) {
       *this = std::move(DescriptiveStatistics(value, 1));
     } else {
       acc_.sum_of_weights += 1;
@@ -84,7 +84,7 @@ class DescriptiveStatistics {
 
   /// push a new value into the accumulator associated with a weight
   constexpr auto operator()(const T &value, const T &weight) noexcept -> void {
-    if (acc_.sum_of_weights == 0) {
+    if (acc_.count == 0) {
       *this = std::move(DescriptiveStatistics(value, weight));
     } else {
       this->operator+=(DescriptiveStatistics(value, weight));
@@ -152,6 +152,15 @@ class DescriptiveStatistics {
   /// Combines two accumulators.
   constexpr auto operator+=(const DescriptiveStatistics &rhs) noexcept
       -> DescriptiveStatistics & {
+    // An accumulator without any sample changes nothing
+    if (rhs.acc_.count == 0) {
+      return *this;
+    }
+    if (acc_.count == 0) {
+      acc_ = rhs.acc_;
+      return *this;
+    }
+
     auto w = acc_.sum_of_weights + rhs.acc_.sum_of_weights;
 
     if (rhs.acc_.min < acc_.min) {
@@ -162,6 +171,15 @@ class DescriptiveStatistics {
       acc_.max = rhs.acc_.max;
     }
 
+    acc_.count += rhs.acc_.count;
+
+    acc_.sum += rhs.acc_.sum;
+
+    // The moments of samples weighing nothing are undefined
+    if (w == 0) {
+      return *this;
+    }
+
     const auto delta = rhs.acc_.mean - acc_.mean;
     const auto delta_w = delta / w;
     const auto delta2_w2 = delta_w * delta_w;
@@ -192,10 +210,6 @@ class DescriptiveStatistics {
 
     acc_.sum_of_weights = w;
 
-    acc_.count += rhs.acc_.count;
-
-    acc_.sum += rhs.acc_.sum;
-
     return *this;
   }
 
-- 
2.43.0


From 65a6761a49cb21fdccfc4ee81453494172da4bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:19 +0000
Subject: [PATCH 31/99] fix: reduction of arrays having dimensions of size 1 or
 along no axis

numpy does not define the strides of the dimensions of size 1: using them
could divide by zero or store the samples in the wrong element.
---
 src/pyinterp/core/include/pyinterp/detail/numpy.hpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/detail/numpy.hpp b/src/pyinterp/core/include/pyinterp/detail/numpy.hpp
index 3ac5482..1268283 100644
--- a/src/pyinterp/core/include/pyinterp/detail/numpy.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/numpy.hpp
@@ -19,6 +19,9 @@ void check_axis_bounds(
     const pybind11::array_t<T, pybind11::array::c_style> &arr,
     const std::list<pybind11::ssize_t> &axis) {
   auto ndim = arr.ndim();
+  if (axis.empty()) {
+    return;
+  }
   auto [min, max] = std::minmax_element(axis.begin(), axis.end());
   if (*min < 0) {
     throw std::invalid_argument("axis " + std::to_string(*min) +
@@ -66,8 +69,6 @@ template <typename T>
   // Calculation of the shape of the reduced tensor.
   for (pybind11::ssize_t ix = 0; ix < arr.ndim(); ++ix) {
     auto dim = arr.shape(ix);
-    strides[ix] = arr.strides(ix) / sizeof(T);
-
     // We keep this dimension?
     if (std::find(axes.begin(), axes.end(), ix) == axes.end()) {
       reduced_shape.push_back(dim);
@@ -77,6 +78,14 @@ template <typename T>
     }
   }
 
+  // The strides of the C-contiguous tensor are deduced from its shape: numpy
+  // can set any value for the strides of the dimensions of size 1.
+  auto stride = pybind11::ssize_t(1);
+  for (auto ix = ndim - 1; ix >= 0; --ix) {
+    strides[ix] = stride;
+    stride *= arr.shape(ix);
+  }
+
   // To handle automatically the last stride of the tensor
   adjusted_dims[ndim] = 1;
 
-- 
2.43.0


From 66aff466d748066e2c9aa88b2cb4ed178186ccce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:19 +0000
Subject: [PATCH 32/99] fix: the sum of two descriptive statistics no longer
 modifies its operand

---
 src/pyinterp/statistics/descriptive_descriptive.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pyinterp/statistics/descriptive_descriptive.py b/src/pyinterp/statistics/descriptive_descriptive.py
index 9c47d6d..bfdf3e1 100644
--- a/src/pyinterp/statistics/descriptive_descriptive.py
+++ b/src/pyinterp/statistics/descriptive_descriptive.py
@@ -16,7 +16,6 @@ if sys.version_info[:2] > (3, 10):
     from typing import Self
 else:
     Self = 'DescriptiveStatistics'
-import copy
 
 import dask.array.core
 import numpy
@@ -146,7 +145,7 @@ class DescriptiveStatistics:
             if type(self._instance) != type(other._instance):  # noqa: E721
                 raise TypeError(
                     'Descriptive statistics must have the same type')
-            result = copy.copy(self)
+            result = self.copy()
             result += other
             return result
         raise TypeError('unsupported operand type(s) for +='
-- 
2.43.0


From 0bb6b7aba46a01ac95c44546f387f336b564c08d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:02 +0000
Subject: [PATCH 33/99] fix: the geodetic system of a binning is lost by pickle

---
 src/pyinterp/core/include/pyinterp/binning.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyinterp/core/include/pyinterp/binning.hpp b/src/pyinterp/core/include/pyinterp/binning.hpp
index adc2197..289af42 100644
--- a/src/pyinterp/core/include/pyinterp/binning.hpp
+++ b/src/pyinterp/core/include/pyinterp/binning.hpp
@@ -191,7 +191,7 @@ class Binning2D {
     auto wgs = std::optional<geodetic::Spheroid>();
     auto wgs_state = state[2].cast<pybind11::tuple>();
     if (!wgs_state.empty()) {
-      *wgs = geodetic::Spheroid::setstate(wgs_state);
+      wgs = geodetic::Spheroid::setstate(wgs_state);
     }
 
     // Unmarshalling computed statistics
-- 
2.43.0


From acfcebb68dc457308ca62876ea7349b0df68cd37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:10 +0000
Subject: [PATCH 34/99] fix: simple binning and 2D histograms across the seam
 of a circular axis

---
 src/pyinterp/core/include/pyinterp/binning.hpp     | 6 +++---
 src/pyinterp/core/include/pyinterp/histogram2d.hpp | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/binning.hpp b/src/pyinterp/core/include/pyinterp/binning.hpp
index 289af42..e3796ae 100644
--- a/src/pyinterp/core/include/pyinterp/binning.hpp
+++ b/src/pyinterp/core/include/pyinterp/binning.hpp
@@ -295,8 +295,8 @@ class Binning2D {
         auto value = _z(idx);
 
         if (!std::isnan(value)) {
-          auto ix = x_axis.find_index(_x(idx), true);
-          auto iy = y_axis.find_index(_y(idx), true);
+          auto ix = x_axis.find_nearest_index(_x(idx), true);
+          auto iy = y_axis.find_nearest_index(_y(idx), true);
 
           if (ix != -1 && iy != -1) {
             acc_(ix, iy)(value);
@@ -405,7 +405,7 @@ class Binning1D : public Binning2D<T> {
         if (!std::isnan(value)) {
           auto xi = _x(idx);
           if (xi >= this->x_min_ && xi <= this->x_max_) {
-            auto ix = x_axis.find_index(xi, true);
+            auto ix = x_axis.find_nearest_index(xi, true);
 
             if (ix != -1) {
               auto weight = weights.has_value() ? _weights(idx) : 1;
diff --git a/src/pyinterp/core/include/pyinterp/histogram2d.hpp b/src/pyinterp/core/include/pyinterp/histogram2d.hpp
index c53a5a4..352b9c7 100644
--- a/src/pyinterp/core/include/pyinterp/histogram2d.hpp
+++ b/src/pyinterp/core/include/pyinterp/histogram2d.hpp
@@ -93,8 +93,8 @@ class Histogram2D {
         auto value = _z(idx);
 
         if (!std::isnan(value)) {
-          auto ix = x_axis.find_index(_x(idx), true);
-          auto iy = y_axis.find_index(_y(idx), true);
+          auto ix = x_axis.find_nearest_index(_x(idx), true);
+          auto iy = y_axis.find_nearest_index(_y(idx), true);
 
           if (ix != -1 && iy != -1) {
             histogram_(ix, iy)(value);
-- 
2.43.0


From 17046b36880cb1ece74150762aa572548443e8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:10 +0000
Subject: [PATCH 35/99] fix: linear binning across the seam of a circular axis

---
 src/pyinterp/core/include/pyinterp/binning.hpp | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/binning.hpp b/src/pyinterp/core/include/pyinterp/binning.hpp
index e3796ae..6549892 100644
--- a/src/pyinterp/core/include/pyinterp/binning.hpp
+++ b/src/pyinterp/core/include/pyinterp/binning.hpp
@@ -21,6 +21,7 @@
 #include "pyinterp/detail/math/descriptive_statistics.hpp"
 #include "pyinterp/eigen.hpp"
 #include "pyinterp/geodetic/spheroid.hpp"
+#include "pyinterp/grid.hpp"
 
 namespace pyinterp {
 
@@ -342,16 +343,12 @@ class Binning2D {
           auto [ix0, ix1] = *x_indexes;
           auto [iy0, iy1] = *y_indexes;
 
-          auto x0 = x_axis(ix0);
+          auto [xi, x0, x1] =
+              cell_coordinates(*x_, static_cast<double>(_x(idx)), ix0, ix1);
 
           auto weights = detail::math::binning_2d<Point, Strategy, double>(
-              Point<double>(x_axis.is_angle()
-                                ? detail::math::normalize_angle<double>(
-                                      _x(idx), x0, 360.0)
-                                : _x(idx),
-                            _y(idx)),
-              Point<double>(x0, y_axis(iy0)),
-              Point<double>(x_axis(ix1), y_axis(iy1)), strategy);
+              Point<double>(xi, _y(idx)), Point<double>(x0, y_axis(iy0)),
+              Point<double>(x1, y_axis(iy1)), strategy);
 
           update_acc(ix0, iy0, value, static_cast<T>(std::get<0>(weights)));
           update_acc(ix0, iy1, value, static_cast<T>(std::get<1>(weights)));
-- 
2.43.0


From c08cb16cc5ddefb50c7b681c713f8c17705b6cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:10 +0000
Subject: [PATCH 36/99] fix: size of the arrays pushed into 1D binnings are
 checked

---
 src/pyinterp/core/include/pyinterp/binning.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/pyinterp/core/include/pyinterp/binning.hpp b/src/pyinterp/core/include/pyinterp/binning.hpp
index 6549892..acbb7d5 100644
--- a/src/pyinterp/core/include/pyinterp/binning.hpp
+++ b/src/pyinterp/core/include/pyinterp/binning.hpp
@@ -384,6 +384,13 @@ class Binning1D : public Binning2D<T> {
   /// @param z values of the points.
   void push(const pybind11::array_t<T> &x, const pybind11::array_t<T> &z,
             const std::optional<pybind11::array_t<T>> &weights = std::nullopt) {
+    detail::check_array_ndim("x", 1, x, "z", 1, z);
+    detail::check_ndarray_shape("x", x, "z", z);
+    if (weights.has_value()) {
+      detail::check_array_ndim("weights", 1, *weights);
+      detail::check_ndarray_shape("x", x, "weights", *weights);
+    }
+
     auto _x = x.template unchecked<1>();
     auto _z = z.template unchecked<1>();
     auto _weights = weights.has_value()
-- 
2.43.0


From e1aa753f0a9bfef02e62d762270c1cc250089404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:10 +0000
Subject: [PATCH 37/99] fix: weights of the linear binning on fine grids

The areas were compared to an absolute threshold, so the weights of grids with
a step of a millionth were dropped.
---
 src/pyinterp/core/include/pyinterp/detail/math/binning.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/detail/math/binning.hpp b/src/pyinterp/core/include/pyinterp/detail/math/binning.hpp
index 55888ea..ba629d6 100644
--- a/src/pyinterp/core/include/pyinterp/detail/math/binning.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/math/binning.hpp
@@ -23,14 +23,14 @@ inline auto calculate_area(boost::geometry::model::polygon<Point<T>> &polygon,
   return result;
 }
 
-/// Calculate the area of a polygon. If the area is less than one epsilon, the
-/// calculated area is set to zero.
+/// Calculate the area of a polygon. If the area is negligible compared to the
+/// area of the grid cell, the calculated area is set to zero.
 template <template <class> class Point, typename Strategy, typename T>
 inline auto calculate_and_normalize_area(
     boost::geometry::model::polygon<Point<T>> &polygon,
     const Strategy &strategy, const double total_area) -> T {
   auto result = calculate_area<Point, Strategy, T>(polygon, strategy);
-  if (result > total_area || std::fabs(result) < 1e-12) {
+  if (result > total_area || std::fabs(result) < 1e-12 * total_area) {
     result = 0;
   }
   return result;
-- 
2.43.0


From 2cbfc64bebc645b42202cdb2022efcc146e40b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:10 +0000
Subject: [PATCH 38/99] fix: the sum of two binnings no longer modifies its
 first operand

---
 src/pyinterp/binning.py              | 2 ++
 src/pyinterp/core/module/binning.cpp | 7 +++++++
 2 files changed, 9 insertions(+)

diff --git a/src/pyinterp/binning.py b/src/pyinterp/binning.py
index cf976c9..65e1df1 100644
--- a/src/pyinterp/binning.py
+++ b/src/pyinterp/binning.py
@@ -95,6 +95,7 @@ class Binning2D:
         result = copy.copy(self)
         if type(result._instance) != type(other._instance):  # noqa: E721
             raise TypeError('Binning2D instance must be of the same type')
+        result._instance = copy.copy(self._instance)
         result._instance += other._instance  # type: ignore[operator]
         return result
 
@@ -286,6 +287,7 @@ class Binning1D:
         result = copy.copy(self)
         if type(result._instance) != type(other._instance):  # noqa: E721
             raise TypeError('Binning1D instance must be of the same type')
+        result._instance = copy.copy(self._instance)
         result._instance += other._instance  # type: ignore[operator]
         return result
 
diff --git a/src/pyinterp/core/module/binning.cpp b/src/pyinterp/core/module/binning.cpp
index 80cc4e9..4fafbee 100644
--- a/src/pyinterp/core/module/binning.cpp
+++ b/src/pyinterp/core/module/binning.cpp
@@ -194,6 +194,13 @@ Gets the range of the binning.
 Returns:
     Range of the binning.
 )__doc__")
+      .def(
+          "__copy__",
+          [](const pyinterp::Binning1D<Type> &self) {
+            return pyinterp::Binning1D<Type>(self);
+          },
+          "Implements the shallow copy operation.",
+          py::call_guard<py::gil_scoped_release>())
       .def(py::pickle(
           [](const pyinterp::Binning1D<Type> &self) { return self.getstate(); },
           [](const py::tuple &state) {
-- 
2.43.0


From c94503a87061c05e729913ca3c810991282d614f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:10 +0000
Subject: [PATCH 39/99] fix: delayed pushes keep the range and the type of the
 binning

---
 src/pyinterp/binning.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pyinterp/binning.py b/src/pyinterp/binning.py
index 65e1df1..680e20b 100644
--- a/src/pyinterp/binning.py
+++ b/src/pyinterp/binning.py
@@ -180,8 +180,10 @@ class Binning2D:
         y = dask.array.core.asarray(y)
         z = dask.array.core.asarray(z)
 
+        dtype = self.dtype
+
         def _process_block(x, y, z, x_axis, y_axis, wgs, simple):
-            binning = Binning2D(x_axis, y_axis, wgs)
+            binning = Binning2D(x_axis, y_axis, wgs, dtype)
             binning.push(x, y, z, simple)
             return numpy.array([binning], dtype='object')
 
@@ -339,8 +341,10 @@ class Binning1D:
         if weights is not None:
             weights = dask.array.core.asarray(weights).ravel()
 
+        bounds, dtype = self.range(), self.dtype
+
         def _process_block(x, z, weights, x_axis):
-            binning = Binning1D(x_axis)
+            binning = Binning1D(x_axis, bounds, dtype)
             binning.push(x, z, weights)
             return numpy.array([binning], dtype='object')
 
-- 
2.43.0


From aa85e8aae87e40ba53d69a27d3da6e28d3d53577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:26 +0000
Subject: [PATCH 40/99] fix: maximum of the histograms of negative values

---
 .../core/include/pyinterp/detail/math/streaming_histogram.hpp   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyinterp/core/include/pyinterp/detail/math/streaming_histogram.hpp b/src/pyinterp/core/include/pyinterp/detail/math/streaming_histogram.hpp
index 481e3ec..a48ee22 100644
--- a/src/pyinterp/core/include/pyinterp/detail/math/streaming_histogram.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/math/streaming_histogram.hpp
@@ -258,7 +258,7 @@ class StreamingHistogram {
   size_t bin_count_{100};
   uint64_t count_{0};
   T min_{std::numeric_limits<T>::max()};
-  T max_{std::numeric_limits<T>::min()};
+  T max_{std::numeric_limits<T>::lowest()};
   std::vector<Bin<T>> bins_{};
 
   /// Update the histogram with the provided value.
-- 
2.43.0


From b43d9a87c1f448eff53fcd70658ed7a5da0a6942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:26 +0000
Subject: [PATCH 41/99] fix: merging a histogram with itself

---
 .../core/include/pyinterp/detail/math/streaming_histogram.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pyinterp/core/include/pyinterp/detail/math/streaming_histogram.hpp b/src/pyinterp/core/include/pyinterp/detail/math/streaming_histogram.hpp
index a48ee22..5f3719b 100644
--- a/src/pyinterp/core/include/pyinterp/detail/math/streaming_histogram.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/math/streaming_histogram.hpp
@@ -169,7 +169,9 @@ class StreamingHistogram {
     if (other.max_ > max_) {
       max_ = other.max_;
     }
-    for (const auto &item : other.bins_) {
+    // The bins are copied because the other histogram may be this one.
+    const auto bins = other.bins_;
+    for (const auto &item : bins) {
       update_bins(item.value, item.weight);
     }
     trim();
-- 
2.43.0


From b4d92210a8779ae8b3ddd648374acb4e1036cc62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:26 +0000
Subject: [PATCH 42/99] fix: histograms without any bin

Searching the closest bins of a histogram of one bin read outside of it.
---
 .../include/pyinterp/detail/math/streaming_histogram.hpp     | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pyinterp/core/include/pyinterp/detail/math/streaming_histogram.hpp b/src/pyinterp/core/include/pyinterp/detail/math/streaming_histogram.hpp
index 5f3719b..0ca5361 100644
--- a/src/pyinterp/core/include/pyinterp/detail/math/streaming_histogram.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/math/streaming_histogram.hpp
@@ -299,6 +299,11 @@ class StreamingHistogram {
 
   /// Compress the histogram if necessary.
   auto trim() -> void {
+    if (bin_count_ == 0) {
+      bins_.clear();
+      return;
+    }
+
     while (bins_.size() > bin_count_) {
       // Find a point qi that minimizes qi+1 - qi
       auto ix = BinDifferences<T>(bins_, weighted_diff_).index();
-- 
2.43.0


From 80a83374159a5f504d2b105ed6baf63f03ac0f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:26 +0000
Subject: [PATCH 43/99] fix: merging bins of zero weight

---
 .../include/pyinterp/detail/math/streaming_histogram.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/detail/math/streaming_histogram.hpp b/src/pyinterp/core/include/pyinterp/detail/math/streaming_histogram.hpp
index 0ca5361..9d16f56 100644
--- a/src/pyinterp/core/include/pyinterp/detail/math/streaming_histogram.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/math/streaming_histogram.hpp
@@ -313,9 +313,12 @@ class StreamingHistogram {
       const auto &item1 = bins_[++ix];
 
       // by the bin ((qi * ki + qi+1 * ki+1) / (ki + ki+1), ki + ki+1)
-      item0 = {(item0.value * item0.weight + item1.value * item1.weight) /
-                   (item0.weight + item1.weight),
-               item0.weight + item1.weight};
+      const auto weight = item0.weight + item1.weight;
+      item0 = {weight == 0 ? (item0.value + item1.value) * T(0.5)
+                           : (item0.value * item0.weight +
+                              item1.value * item1.weight) /
+                                 weight,
+               weight};
       bins_.erase(bins_.begin() + ix);
     }
   }
-- 
2.43.0


From 962e9f11af90946d2899d9e2448e805fba847dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:26 +0000
Subject: [PATCH 44/99] fix: quantiles of weighted histograms

The ends of the distribution were the extrema of the products of the values and
their weights, so the quantiles were outside the range of the values, and not
monotonic.
---
 .../detail/math/streaming_histogram.hpp       | 32 +++++++++++++------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/detail/math/streaming_histogram.hpp b/src/pyinterp/core/include/pyinterp/detail/math/streaming_histogram.hpp
index 9d16f56..9cacf31 100644
--- a/src/pyinterp/core/include/pyinterp/detail/math/streaming_histogram.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/math/streaming_histogram.hpp
@@ -106,6 +106,8 @@ class StreamingHistogram {
       ss.read(reinterpret_cast<char *>(&count_), sizeof(uint64_t));
       ss.read(reinterpret_cast<char *>(&min_), sizeof(T));
       ss.read(reinterpret_cast<char *>(&max_), sizeof(T));
+      ss.read(reinterpret_cast<char *>(&lower_), sizeof(T));
+      ss.read(reinterpret_cast<char *>(&upper_), sizeof(T));
       ss.read(reinterpret_cast<char *>(&size), sizeof(size_t));
       bins_.resize(size);
       ss.read(reinterpret_cast<char *>(bins_.data()), size * sizeof(Bin<T>));
@@ -123,6 +125,8 @@ class StreamingHistogram {
     ss.write(reinterpret_cast<const char *>(&count_), sizeof(uint64_t));
     ss.write(reinterpret_cast<const char *>(&min_), sizeof(T));
     ss.write(reinterpret_cast<const char *>(&max_), sizeof(T));
+    ss.write(reinterpret_cast<const char *>(&lower_), sizeof(T));
+    ss.write(reinterpret_cast<const char *>(&upper_), sizeof(T));
     auto size = bins_.size();
     ss.write(reinterpret_cast<const char *>(&size), sizeof(size_t));
     ss.write(reinterpret_cast<const char *>(bins_.data()),
@@ -156,6 +160,8 @@ class StreamingHistogram {
     if (weighted_value > max_) {
       max_ = weighted_value;
     }
+    lower_ = std::min(lower_, value);
+    upper_ = std::max(upper_, value);
     update_bins(value, weight);
     trim();
   }
@@ -169,6 +175,8 @@ class StreamingHistogram {
     if (other.max_ > max_) {
       max_ = other.max_;
     }
+    lower_ = std::min(lower_, other.lower_);
+    upper_ = std::max(upper_, other.upper_);
     // The bins are copied because the other histogram may be this one.
     const auto bins = other.bins_;
     for (const auto &item : bins) {
@@ -205,21 +213,22 @@ class StreamingHistogram {
     auto weights = sum_of_weights();
     auto qw = weights * quantile;
 
-    if (qw <= (bins_.front().weight * 0.5)) {  // left values
-      auto ratio = qw / (bins_.front().weight * 0.5);
-      return min_ + (ratio * (bins_.front().value - min_));
+    const auto left = bins_.front().weight * T(0.5);
+    if (qw <= left) {  // left values
+      const auto ratio = left == 0 ? T(0) : qw / left;
+      return lower_ + (ratio * (bins_.front().value - lower_));
     }
 
-    if (qw >= (weights - (bins_.back().weight * 0.5))) {  // right values
-      auto base = qw - (weights - (bins_.back().weight * 0.5));
-      auto ratio = base / (bins_.back().weight * 0.5);
-      return bins_.back().value + (ratio * (max_ - bins_.back().value));
+    const auto right = bins_.back().weight * T(0.5);
+    if (qw >= weights - right) {  // right values
+      const auto ratio = right == 0 ? T(1) : (qw - (weights - right)) / right;
+      return bins_.back().value + (ratio * (upper_ - bins_.back().value));
     }
 
     auto ix = static_cast<size_t>(0);
-    auto mb = qw - bins_.front().weight * 0.5;
-    while (mb - (bins_[ix].weight + bins_[ix + 1].weight) * 0.5 > 0 &&
-           ix < bins_.size() - 1) {
+    auto mb = qw - left;
+    while (ix + 2 < bins_.size() &&
+           mb - (bins_[ix].weight + bins_[ix + 1].weight) * 0.5 > 0) {
       mb -= (bins_[ix].weight + bins_[ix + 1].weight) * 0.5;
       ix += 1;
     }
@@ -261,6 +270,9 @@ class StreamingHistogram {
   uint64_t count_{0};
   T min_{std::numeric_limits<T>::max()};
   T max_{std::numeric_limits<T>::lowest()};
+  // Range of the values, regardless of their weight.
+  T lower_{std::numeric_limits<T>::max()};
+  T upper_{std::numeric_limits<T>::lowest()};
   std::vector<Bin<T>> bins_{};
 
   /// Update the histogram with the provided value.
-- 
2.43.0


From 87a06aeb4dc9b6e49f26552d32394c2b01d992b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:26 +0000
Subject: [PATCH 45/99] fix: the sum of two 2D histograms no longer modifies
 its first operand

---
 src/pyinterp/histogram2d.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pyinterp/histogram2d.py b/src/pyinterp/histogram2d.py
index f03c957..ee792a3 100644
--- a/src/pyinterp/histogram2d.py
+++ b/src/pyinterp/histogram2d.py
@@ -106,6 +106,7 @@ class Histogram2D:
         if self.dtype != other.dtype:
             raise ValueError('dtype mismatch')
         result = copy.copy(self)
+        result._instance = copy.copy(self._instance)
         result._instance += other._instance  # type: ignore[operator]
         return result
 
-- 
2.43.0


From 4a80fbb02d8340c05b02400ca44013552ddc2e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:26 +0000
Subject: [PATCH 46/99] fix: delayed pushes keep the number of bins of the
 histogram

---
 src/pyinterp/histogram2d.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pyinterp/histogram2d.py b/src/pyinterp/histogram2d.py
index ee792a3..d2a2bfe 100644
--- a/src/pyinterp/histogram2d.py
+++ b/src/pyinterp/histogram2d.py
@@ -77,6 +77,7 @@ class Histogram2D:
         else:
             raise ValueError(f'dtype {dtype} not handled by the object')
         self.dtype = dtype
+        self.bin_counts = bin_counts
 
     @property
     def x(self) -> core.Axis:
@@ -150,8 +151,10 @@ class Histogram2D:
         y = dask.array.core.asarray(y)
         z = dask.array.core.asarray(z)
 
+        bin_counts = self.bin_counts
+
         def _process_block(x, y, z, x_axis, y_axis, dtype):
-            hist2d = Histogram2D(x_axis, y_axis, dtype=dtype)
+            hist2d = Histogram2D(x_axis, y_axis, bin_counts, dtype=dtype)
             hist2d.push(x, y, z)
             return numpy.array([hist2d], dtype='object')
 
-- 
2.43.0


From 40964c09f213cff2884630852420ea5ac4170a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:26 +0000
Subject: [PATCH 47/99] fix: merging 2D histograms keeps their number of bins

---
 src/pyinterp/core/include/pyinterp/histogram2d.hpp | 12 +-----------
 1 file changed, 1 insertion(+), 11 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/histogram2d.hpp b/src/pyinterp/core/include/pyinterp/histogram2d.hpp
index 352b9c7..b59380f 100644
--- a/src/pyinterp/core/include/pyinterp/histogram2d.hpp
+++ b/src/pyinterp/core/include/pyinterp/histogram2d.hpp
@@ -205,17 +205,7 @@ class Histogram2D {
     }
     for (Eigen::Index ix = 0; ix < histogram_.rows(); ++ix) {
       for (Eigen::Index iy = 0; iy < histogram_.cols(); ++iy) {
-        auto &lhs = histogram_(ix, iy);
-        auto &rhs = other.histogram_(ix, iy);
-
-        // Statistics are defined only in the other instance.
-        if (lhs.size() == 0 && rhs.size() != 0) {
-          lhs = rhs;
-          // If the statistics are defined in both instances they can be
-          // combined.
-        } else if (lhs.size() != 0 && rhs.size() != 0) {
-          lhs += rhs;
-        }
+        histogram_(ix, iy) += other.histogram_(ix, iy);
       }
     }
     return *this;
-- 
2.43.0


From cda99290ea7d5374dc33118acb5b578c7512793a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:37 +0000
Subject: [PATCH 48/99] fix: defined values of a matrix overwritten when they
 are alone in their row

---
 src/pyinterp/core/include/pyinterp/fill.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/fill.hpp b/src/pyinterp/core/include/pyinterp/fill.hpp
index dfba671..0339c32 100644
--- a/src/pyinterp/core/include/pyinterp/fill.hpp
+++ b/src/pyinterp/core/include/pyinterp/fill.hpp
@@ -238,9 +238,9 @@ void fill_line(EigenRefBlock<T> x, EigenRefBlock<bool> is_undefined) {
     }
   }
 
-  // If there are no valid points, then we can't interpolate anything.
+  // If there are less than two valid points, then we can't interpolate
+  // anything: the state of the points is unchanged.
   if (last_valid == first_valid) {
-    is_undefined.setOnes();
     return;
   }
 
-- 
2.43.0


From 92fce11192e0738785f114e11fe0ce527aeeb71c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:37 +0000
Subject: [PATCH 49/99] fix: Gauss-Seidel relaxation of grids of a single row
 or column reads outside of the grid

---
 src/pyinterp/core/include/pyinterp/fill.hpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/fill.hpp b/src/pyinterp/core/include/pyinterp/fill.hpp
index 0339c32..f60cec5 100644
--- a/src/pyinterp/core/include/pyinterp/fill.hpp
+++ b/src/pyinterp/core/include/pyinterp/fill.hpp
@@ -94,6 +94,11 @@ auto gauss_seidel(pybind11::EigenDRef<pyinterp::Matrix<Type>> &grid,
   auto x_size = grid.rows();
   auto y_size = grid.cols();
 
+  // Index of the neighbor of the first cell beyond the edge of the grid, by
+  // symmetry.
+  const auto x_mirror = std::min<Eigen::Index>(1, x_size - 1);
+  const auto y_mirror = std::min<Eigen::Index>(1, y_size - 1);
+
   // Captures the detected exceptions in the calculation function
   // (only the last exception captured is kept)
   auto except = std::exception_ptr(nullptr);
@@ -133,13 +138,15 @@ auto gauss_seidel(pybind11::EigenDRef<pyinterp::Matrix<Type>> &grid,
 
     try {
       for (auto ix = 0; ix < x_size; ++ix) {
-        auto ix0 = ix == 0 ? (is_circle ? x_size - 1 : 1) : ix - 1;
-        auto ix1 = ix == x_size - 1 ? (is_circle ? 0 : x_size - 2) : ix + 1;
+        auto ix0 = ix == 0 ? (is_circle ? x_size - 1 : x_mirror) : ix - 1;
+        auto ix1 = ix == x_size - 1
+                       ? (is_circle ? 0 : x_size - 1 - x_mirror)
+                       : ix + 1;
 
         for (auto iy = y_start; iy < y_end; ++iy) {
           if (mask(ix, iy) && ((ix + iy) % 2) == red_black) {
-            auto iy0 = iy == 0 ? 1 : iy - 1;
-            auto iy1 = iy == y_size - 1 ? y_size - 2 : iy + 1;
+            auto iy0 = iy == 0 ? y_mirror : iy - 1;
+            auto iy1 = iy == y_size - 1 ? y_size - 1 - y_mirror : iy + 1;
 
             cell_fill(ix0, ix, ix1, iy0, iy, iy1);
           }
-- 
2.43.0


From 91cd7f03e6f6f59bda9a5144e321cdb7c0eeb860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:43 +0000
Subject: [PATCH 50/99] fix: vectors of integers and dates filled with a
 truncated slope

---
 src/pyinterp/core/include/pyinterp/fill.hpp | 32 +++++++++++++++------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/fill.hpp b/src/pyinterp/core/include/pyinterp/fill.hpp
index f60cec5..468e73d 100644
--- a/src/pyinterp/core/include/pyinterp/fill.hpp
+++ b/src/pyinterp/core/include/pyinterp/fill.hpp
@@ -15,6 +15,7 @@
 #include <limits>
 #include <string>
 #include <tuple>
+#include <type_traits>
 #include <vector>
 
 #include "pyinterp/detail/math.hpp"
@@ -205,6 +206,24 @@ auto gauss_seidel(pybind11::EigenDRef<pyinterp::Matrix<Type>> &grid,
   return std::max(calculate(0), calculate(1));
 }
 
+/// Evaluates the line passing through the points (0, x0) and (n, x1).
+///
+/// @param x0 Value of the first point.
+/// @param x1 Value of the second point.
+/// @param n Position of the second point.
+/// @param i Position of the point to evaluate.
+template <typename T>
+constexpr auto line_value(const T &x0, const T &x1, const Eigen::Index n,
+                          const Eigen::Index i) -> T {
+  if constexpr (std::is_integral_v<T>) {
+    // The slope of the line is usually not an integer.
+    const auto dx = x1 - x0;
+    return x0 + (dx / n) * i + (dx % n) * i / n;
+  } else {
+    return (x1 - x0) / n * i + x0;
+  }
+}
+
 /// Fills in the gaps between defined values in a line with interpolated
 /// values.
 ///
@@ -215,7 +234,6 @@ template <typename T>
 void fill_line(EigenRefBlock<T> x, EigenRefBlock<bool> is_undefined) {
   T x0;
   T x1;
-  T dx;
   Eigen::Index di;
   Eigen::Index last_valid = -1;
   Eigen::Index first_valid = -1;
@@ -230,10 +248,8 @@ void fill_line(EigenRefBlock<T> x, EigenRefBlock<bool> is_undefined) {
         x0 = x[last_valid];
         x1 = x[ix];
         di = ix - last_valid;
-        dx = (x1 - x0) / di;
         for (Eigen::Index jx = last_valid + 1; jx < ix; ++jx) {
-          di = jx - last_valid;
-          x[jx] = dx * di + x0;
+          x[jx] = line_value(x0, x1, di, jx - last_valid);
         }
       } else if (first_valid == -1) {
         // If this is the first valid point, then we can't interpolate the
@@ -254,22 +270,20 @@ void fill_line(EigenRefBlock<T> x, EigenRefBlock<bool> is_undefined) {
   // If the last valid point is not the last point, then we can't interpolate
   x0 = x[first_valid];
   x1 = x[last_valid];
-  dx = (x1 - x0) / (last_valid - first_valid);
+  di = last_valid - first_valid;
 
   // If there is a gap between the last valid point and the end of the line,
   // then interpolate the gap.
   if (last_valid < (size - 1)) {
     for (Eigen::Index jx = last_valid + 1; jx < size; ++jx) {
-      di = jx - last_valid;
-      x[jx] = dx * di + x1;
+      x[jx] = line_value(x0, x1, di, jx - first_valid);
     }
   }
   // If there is a gap between the first valid point and the beginning of the
   // line, then interpolate the gap.
   if (first_valid > 0) {
     for (Eigen::Index jx = 0; jx < first_valid; ++jx) {
-      di = first_valid - jx;
-      x[jx] = x0 - dx * di;
+      x[jx] = line_value(x0, x1, di, jx - first_valid);
     }
   }
   // Mark all points as defined.
-- 
2.43.0


From f40142b3a7e6c67e77b9e29d45ef7cdc5f0007d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:43 +0000
Subject: [PATCH 51/99] fix: loess on an axis of one element divides by zero

---
 src/pyinterp/core/include/pyinterp/fill.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pyinterp/core/include/pyinterp/fill.hpp b/src/pyinterp/core/include/pyinterp/fill.hpp
index 468e73d..82ac0ec 100644
--- a/src/pyinterp/core/include/pyinterp/fill.hpp
+++ b/src/pyinterp/core/include/pyinterp/fill.hpp
@@ -375,6 +375,8 @@ inline auto frame_index(const int64_t index, const int64_t size,
     // Normalizing longitude?
     if (is_angle) {
       idx = detail::math::remainder(idx, size);
+    } else if (size == 1) {
+      idx = 0;
     } else {
       // Otherwise, the symmetrical indexes are used if the indexes are outside
       // the domain definition.
-- 
2.43.0


From 8e6c9721f4559b7971d486e6bbeec6e48f465850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:43 +0000
Subject: [PATCH 52/99] fix: distances of loess across the seam of descending
 or small circles

---
 src/pyinterp/core/include/pyinterp/fill.hpp | 57 +++++----------------
 1 file changed, 14 insertions(+), 43 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/fill.hpp b/src/pyinterp/core/include/pyinterp/fill.hpp
index 82ac0ec..63826f1 100644
--- a/src/pyinterp/core/include/pyinterp/fill.hpp
+++ b/src/pyinterp/core/include/pyinterp/fill.hpp
@@ -457,15 +457,6 @@ auto loess(const Grid2D<Type> &grid, const uint32_t nx, const uint32_t ny,
         // We retrieve the indexes framing the current value.
         frame_index(ix, x_axis.size(), x_axis.is_angle(), x_frame);
 
-        // Read the first value of the calculated window.
-        const auto x0 = x_axis(x_frame[0]);
-
-        // The current value is normalized to the first value in the
-        // window.
-        if (x_axis.is_angle()) {
-          x = detail::math::normalize_angle(x, x0, 360.0);
-        }
-
         for (int64_t iy = 0; iy < y_axis.size(); ++iy) {
           auto z = grid.value(ix, iy);
 
@@ -485,11 +476,10 @@ auto loess(const Grid2D<Type> &grid, const uint32_t nx, const uint32_t ny,
 
             // For all the coordinates of the frame.
             for (auto wx : x_frame) {
-              auto xi = x_axis(wx);
-
-              // We normalize the window's coordinates to its first value.
+              // Distance along the X-axis, on the circle if need be.
+              auto dx = x_axis(wx) - x;
               if (x_axis.is_angle()) {
-                xi = detail::math::normalize_angle(xi, x0, 360.0);
+                dx = detail::math::normalize_angle(dx, -180.0, 360.0);
               }
 
               for (auto wy : y_frame) {
@@ -500,7 +490,7 @@ auto loess(const Grid2D<Type> &grid, const uint32_t nx, const uint32_t ny,
                 if (!std::isnan(zi)) {
                   const auto power = 3.0;
                   auto d =
-                      std::sqrt(detail::math::sqr(((xi - x)) / nx) +
+                      std::sqrt(detail::math::sqr(dx / nx) +
                                 detail::math::sqr(((y_axis(wy) - y)) / ny));
                   auto wi = d <= 1 ? std::pow((1.0 - std::pow(d, power)), power)
                                    : 0.0;
@@ -538,8 +528,8 @@ template <typename Type, typename GridType, typename... Index>
 auto loess_(const GridType &grid, const uint32_t nx, const uint32_t ny,
             const ValueType value_type, const Axis<double> &x_axis,
             const Axis<double> &y_axis, const std::vector<int64_t> &x_frame,
-            std::vector<int64_t> &y_frame, const double x0, const double x,
-            const int64_t ix, const int64_t iy, Index &&...index) -> Type {
+            std::vector<int64_t> &y_frame, const double x, const int64_t ix,
+            const int64_t iy, Index &&...index) -> Type {
   auto z = grid.value(ix, iy, index...);
 
   // If the current value is masked.
@@ -558,11 +548,10 @@ auto loess_(const GridType &grid, const uint32_t nx, const uint32_t ny,
 
     // For all the coordinates of the frame.
     for (auto wx : x_frame) {
-      auto xi = x_axis(wx);
-
-      // We normalize the window's coordinates to its first value.
+      // Distance along the X-axis, on the circle if need be.
+      auto dx = x_axis(wx) - x;
       if (x_axis.is_angle()) {
-        xi = detail::math::normalize_angle(xi, x0, 360.0);
+        dx = detail::math::normalize_angle(dx, -180.0, 360.0);
       }
 
       for (auto wy : y_frame) {
@@ -572,7 +561,7 @@ auto loess_(const GridType &grid, const uint32_t nx, const uint32_t ny,
         // from the tri-cube weight function
         if (!std::isnan(zi)) {
           const auto power = 3.0;
-          auto d = std::sqrt(detail::math::sqr(((xi - x)) / nx) +
+          auto d = std::sqrt(detail::math::sqr(dx / nx) +
                              detail::math::sqr(((y_axis(wy) - y)) / ny));
           auto wi = d <= 1 ? std::pow((1.0 - std::pow(d, power)), power) : 0.0;
           value += static_cast<Type>(wi * zi);
@@ -617,19 +606,10 @@ auto loess(const Grid3D<Type, AxisType> &grid, const uint32_t nx,
           // We retrieve the indexes framing the current value.
           frame_index(ix, x_axis.size(), x_axis.is_angle(), x_frame);
 
-          // Read the first value of the calculated window.
-          const auto x0 = x_axis(x_frame[0]);
-
-          // The current value is normalized to the first value in the
-          // window.
-          if (x_axis.is_angle()) {
-            x = detail::math::normalize_angle(x, x0, 360.0);
-          }
-
           for (int64_t iy = 0; iy < y_axis.size(); ++iy) {
             _result(ix, iy, iz) = loess_<Type, Grid3D<Type, AxisType>>(
-                grid, nx, ny, value_type, x_axis, y_axis, x_frame, y_frame, x0,
-                x, ix, iy, iz);
+                grid, nx, ny, value_type, x_axis, y_axis, x_frame, y_frame, x,
+                ix, iy, iz);
           }
         }
       }
@@ -677,20 +657,11 @@ auto loess(const Grid4D<Type, AxisType> &grid, const uint32_t nx,
           // We retrieve the indexes framing the current value.
           frame_index(ix, x_axis.size(), x_axis.is_angle(), x_frame);
 
-          // Read the first value of the calculated window.
-          const auto x0 = x_axis(x_frame[0]);
-
-          // The current value is normalized to the first value in the
-          // window.
-          if (x_axis.is_angle()) {
-            x = detail::math::normalize_angle(x, x0, 360.0);
-          }
-
           for (int64_t iy = 0; iy < y_axis.size(); ++iy) {
             for (int64_t iz = 0; iz < z_axis.size(); ++iz) {
               _result(ix, iy, iz, iu) = loess_<Type, Grid4D<Type, AxisType>>(
-                  grid, nx, ny, value_type, x_axis, y_axis, x_frame, y_frame,
-                  x0, x, ix, iy, iz, iu);
+                  grid, nx, ny, value_type, x_axis, y_axis, x_frame, y_frame, x,
+                  ix, iy, iz, iu);
             }
           }
         }
-- 
2.43.0


From 5ba687e6339f0c1fcb55878fd96ed6027abce972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:43 +0000
Subject: [PATCH 53/99] fix: matrices of float32 are refused once filled

---
 src/pyinterp/fill.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pyinterp/fill.py b/src/pyinterp/fill.py
index 2c250dd..91658ca 100644
--- a/src/pyinterp/fill.py
+++ b/src/pyinterp/fill.py
@@ -164,7 +164,10 @@ def matrix(x: NDArray,
         x = numpy.copy(x)
     if dtype == numpy.float32:
         core.fill.matrix_float32(x, fill_value)
-    core.fill.matrix_float64(x, fill_value)
+    elif dtype == numpy.float64:
+        core.fill.matrix_float64(x, fill_value)
+    else:
+        raise ValueError(f'unsupported data type {dtype}')
     return x
 
 
-- 
2.43.0


From 896374946a01baad069ce81e780a9130ec3ca55a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:43 +0000
Subject: [PATCH 54/99] fix: undefined value of vectors of dates: NaT by
 default, in any unit

---
 src/pyinterp/fill.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/pyinterp/fill.py b/src/pyinterp/fill.py
index 91658ca..7256f6d 100644
--- a/src/pyinterp/fill.py
+++ b/src/pyinterp/fill.py
@@ -199,8 +199,13 @@ def vector(x: NDArray,
         core.fill.vector_int64(x, fill_value)
     elif numpy.issubdtype(dtype, numpy.datetime64) or numpy.issubdtype(
             dtype, numpy.timedelta64):
-        core.fill.vector_int64(x.view(numpy.int64),
-                               fill_value.view(numpy.int64))
+        # Undefined values are NaT by default. A date is expressed in the unit
+        # of the vector.
+        if isinstance(fill_value, float) and numpy.isnan(fill_value):
+            fill_value = 'NaT'
+        core.fill.vector_int64(
+            x.view(numpy.int64),
+            int(numpy.array(fill_value, dtype=dtype).view(numpy.int64)))
     else:
         raise ValueError(f'unsupported data type {dtype}')
     return x
-- 
2.43.0


From 7909ef21ce038da12e701cb701e5f408dea877ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:02 +0000
Subject: [PATCH 55/99] fix: bounds of the points of an RTree of negative
 coordinates

---
 src/pyinterp/core/include/pyinterp/rtree.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/rtree.hpp b/src/pyinterp/core/include/pyinterp/rtree.hpp
index ecddd6c..554fe1a 100644
--- a/src/pyinterp/core/include/pyinterp/rtree.hpp
+++ b/src/pyinterp/core/include/pyinterp/rtree.hpp
@@ -104,11 +104,11 @@ class RTree : public detail::geometry::RTree<Point, Type> {
     }
 
     auto x0 = std::numeric_limits<coordinate_t>::max();
-    auto x1 = std::numeric_limits<coordinate_t>::min();
+    auto x1 = std::numeric_limits<coordinate_t>::lowest();
     auto y0 = std::numeric_limits<coordinate_t>::max();
-    auto y1 = std::numeric_limits<coordinate_t>::min();
+    auto y1 = std::numeric_limits<coordinate_t>::lowest();
     auto z0 = std::numeric_limits<coordinate_t>::max();
-    auto z1 = std::numeric_limits<coordinate_t>::min();
+    auto z1 = std::numeric_limits<coordinate_t>::lowest();
 
     std::for_each(this->tree_->begin(), this->tree_->end(),
                   [&](const auto &item) {
-- 
2.43.0


From d79d0f49338c63718c17b10efbe5527300140f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:02 +0000
Subject: [PATCH 56/99] fix: bounds of an RTree of Cartesian coordinates

---
 src/pyinterp/core/include/pyinterp/rtree.hpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/pyinterp/core/include/pyinterp/rtree.hpp b/src/pyinterp/core/include/pyinterp/rtree.hpp
index 554fe1a..48e3c65 100644
--- a/src/pyinterp/core/include/pyinterp/rtree.hpp
+++ b/src/pyinterp/core/include/pyinterp/rtree.hpp
@@ -103,6 +103,20 @@ class RTree : public detail::geometry::RTree<Point, Type> {
       return pybind11::make_tuple();
     }
 
+    if (ecef_) {
+      // The tree stores the coordinates provided by the user.
+      const auto box = *this->bounds();
+      const auto &lo = box.min_corner();
+      const auto &hi = box.max_corner();
+      return pybind11::make_tuple(
+          pybind11::make_tuple(boost::geometry::get<0>(lo),
+                               boost::geometry::get<1>(lo),
+                               boost::geometry::get<2>(lo)),
+          pybind11::make_tuple(boost::geometry::get<0>(hi),
+                               boost::geometry::get<1>(hi),
+                               boost::geometry::get<2>(hi)));
+    }
+
     auto x0 = std::numeric_limits<coordinate_t>::max();
     auto x1 = std::numeric_limits<coordinate_t>::lowest();
     auto y0 = std::numeric_limits<coordinate_t>::max();
-- 
2.43.0


From da92e79d551dfdaa69e354743ca228204824340f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:02 +0000
Subject: [PATCH 57/99] fix: an RTree of Cartesian coordinates cannot be
 unpickled

---
 src/pyinterp/core/include/pyinterp/rtree.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pyinterp/core/include/pyinterp/rtree.hpp b/src/pyinterp/core/include/pyinterp/rtree.hpp
index 48e3c65..6a835f7 100644
--- a/src/pyinterp/core/include/pyinterp/rtree.hpp
+++ b/src/pyinterp/core/include/pyinterp/rtree.hpp
@@ -411,7 +411,10 @@ class RTree : public detail::geometry::RTree<Point, Type> {
       }
       vector.emplace_back(std::make_pair(point, _u(ix)));
     }
-    auto result = RTree<Point, Type>(spheroid, ecef);
+    auto result = RTree<Point, Type>(
+        ecef ? std::nullopt
+             : std::optional<detail::geodetic::Spheroid>(spheroid),
+        ecef);
     static_cast<base_t>(result).packing(vector);
     return result;
   }
-- 
2.43.0


From acde5fe50d933899faa51342c271b48cad9a7f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:02 +0000
Subject: [PATCH 58/99] fix: universal kriging ignores the altitude

---
 src/pyinterp/core/include/pyinterp/rtree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyinterp/core/include/pyinterp/rtree.hpp b/src/pyinterp/core/include/pyinterp/rtree.hpp
index 6a835f7..1d9b1f4 100644
--- a/src/pyinterp/core/include/pyinterp/rtree.hpp
+++ b/src/pyinterp/core/include/pyinterp/rtree.hpp
@@ -350,7 +350,7 @@ class RTree : public detail::geometry::RTree<Point, Type> {
       case dimension_t::value:
         return _universal_kriging<dimension_t::value>(
             ecef_ ? &RTree<Point, Type>::from_xyz
-                  : &RTree<Point, Type>::from_lon_lat,
+                  : &RTree<Point, Type>::from_lon_lat_alt,
             coordinates,
             radius.value_or(std::numeric_limits<coordinate_t>::max()), k, cov,
             sigma, lambda, within, num_threads);
-- 
2.43.0


From 4cb6ec9f0d8365a41db39d59b3ec1d550b7be6e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:02 +0000
Subject: [PATCH 59/99] fix: Cauchy and Whittle-Matern covariance functions are
 refused

---
 src/pyinterp/interface.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pyinterp/interface.py b/src/pyinterp/interface.py
index 9ace82b..d003a5c 100644
--- a/src/pyinterp/interface.py
+++ b/src/pyinterp/interface.py
@@ -98,6 +98,7 @@ def _core_covariance_function(
     """Get the covariance function."""
     covariance = covariance or 'matern_32'
     if covariance not in [
+            'cauchy',
             'exponential',
             'gaussian',
             'linear',
@@ -109,6 +110,7 @@ def _core_covariance_function(
     ]:
         raise ValueError(f'Covariance function {covariance!r} is not defined')
     covariance = '_'.join(item.capitalize() for item in covariance.split('_'))
+    covariance = covariance.replace('Whittle_Matern', 'WhittleMatern')
     return getattr(core.CovarianceFunction, covariance)
 
 
-- 
2.43.0


From e6bd85b575d2a0261f906f6ac59d66b829b13265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:03 +0000
Subject: [PATCH 60/99] fix: linear covariance function increases with the
 distance

---
 src/pyinterp/core/include/pyinterp/detail/math/kriging.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pyinterp/core/include/pyinterp/detail/math/kriging.hpp b/src/pyinterp/core/include/pyinterp/detail/math/kriging.hpp
index 508738f..8c5685e 100644
--- a/src/pyinterp/core/include/pyinterp/detail/math/kriging.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/math/kriging.hpp
@@ -119,7 +119,10 @@ inline auto linear_covariance(const Eigen::Ref<const Eigen::Vector3<T>>& p1,
                               const Eigen::Ref<const Eigen::Vector3<T>>& p2,
                               const T& sigma, const T& lambda) -> T {
   auto r = (p1 - p2).norm();
-  return math::sqr(sigma) * r;
+  if (r > lambda) {
+    return 0;
+  }
+  return math::sqr(sigma) * (1 - r / lambda);
 }
 
 /// Known Covariance functions.
-- 
2.43.0


From 9ddd3a2e0bf14caee7fc44e3029c3e04ae775fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:03 +0000
Subject: [PATCH 61/99] fix: default argument of the Lanczos window function

---
 src/pyinterp/rtree.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pyinterp/rtree.py b/src/pyinterp/rtree.py
index e22143c..e12e03a 100644
--- a/src/pyinterp/rtree.py
+++ b/src/pyinterp/rtree.py
@@ -390,6 +390,8 @@ class RTree:
             The interpolated value and the number of neighbors used in the
             calculation.
         """
+        if wf == 'lanczos' and arg is None:
+            arg = 1
         return self._instance.window_function(
             coordinates, radius, k, interface._core_window_function(wf, arg),
             arg, within, num_threads)
-- 
2.43.0


From 165eeab2ca6467aee9808cc45e4c2c3002c0d647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:17 +0000
Subject: [PATCH 62/99] fix: window function of neighbors at the position
 requested

---
 .../core/include/pyinterp/detail/geometry/rtree.hpp        | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pyinterp/core/include/pyinterp/detail/geometry/rtree.hpp b/src/pyinterp/core/include/pyinterp/detail/geometry/rtree.hpp
index 98dd7a6..19af8df 100644
--- a/src/pyinterp/core/include/pyinterp/detail/geometry/rtree.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/geometry/rtree.hpp
@@ -552,10 +552,15 @@ class RTree {
     uint32_t neighbors = 0;
 
     // Get the distance of the furthest neighbor if radius is not specified.
-    const auto furthest_neighbor =
+    auto furthest_neighbor =
         radius == std::numeric_limits<coordinate_t>::max()
             ? (nearest.size() > 0 ? nearest.rbegin()->first : 0)
             : radius;
+    if (furthest_neighbor == 0) {
+      // The neighbors are at the position requested: they have the same weight,
+      // whatever the radius.
+      furthest_neighbor = 1;
+    }
 
     for (const auto &item : nearest) {
       const auto distance = item.first;
-- 
2.43.0


From e532c0b6e464102406415eedba8a48fe0e0a86ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:57 +0000
Subject: [PATCH 63/99] fix: an RTree loses its points when it is pickled or
 copied

---
 src/pyinterp/rtree.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pyinterp/rtree.py b/src/pyinterp/rtree.py
index e12e03a..1ba62fb 100644
--- a/src/pyinterp/rtree.py
+++ b/src/pyinterp/rtree.py
@@ -490,5 +490,7 @@ class RTree:
             raise ValueError('invalid state')
         _class = RTree(None, state[0])
         self.dtype = _class.dtype
-        _class._instance.__setstate__(state[1])
-        self._instance = _class._instance
+        # The state of an instance already initialized cannot be modified.
+        self._instance = _class._instance.__class__.__new__(
+            _class._instance.__class__)
+        self._instance.__setstate__(state[1])
-- 
2.43.0


From 715bf30505dd92139b0f1c1f0322e8541727831c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:16 +0000
Subject: [PATCH 64/99] fix: normalized angles never reach the upper bound of
 their range

---
 src/pyinterp/core/include/pyinterp/detail/math.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pyinterp/core/include/pyinterp/detail/math.hpp b/src/pyinterp/core/include/pyinterp/detail/math.hpp
index a233c4b..9da6252 100644
--- a/src/pyinterp/core/include/pyinterp/detail/math.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/math.hpp
@@ -127,7 +127,9 @@ constexpr auto remainder(const T &x, const T &y) noexcept -> T {
 template <typename T>
 constexpr auto normalize_angle(const T &x, const T &min,
                                const T &circle) noexcept -> T {
-  return remainder(x - min, circle) + min;
+  const T result = remainder(x - min, circle) + min;
+  // The rounding of the sum can reach the upper bound, which is excluded.
+  return result >= min + circle ? min : result;
 }
 
 /// Evaluate the sine function with the argument in degrees
-- 
2.43.0


From 7c34ece3c5475ad1d3bf1554f2acd4536170e1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:16 +0000
Subject: [PATCH 65/99] fix: authalic radius of a sphere

---
 .../core/include/pyinterp/detail/geodetic/spheroid.hpp         | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pyinterp/core/include/pyinterp/detail/geodetic/spheroid.hpp b/src/pyinterp/core/include/pyinterp/detail/geodetic/spheroid.hpp
index a55c415..b2d93b3 100644
--- a/src/pyinterp/core/include/pyinterp/detail/geodetic/spheroid.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/geodetic/spheroid.hpp
@@ -140,6 +140,9 @@ class Spheroid {
   ///
   /// @return \f$R_2=\sqrt{\frac{a^2+\frac{ab^2}{E}ln(\frac{a + E}{b})}{2}}\f$
   [[nodiscard]] inline auto authalic_radius() const noexcept -> double {
+    if (linear_eccentricity() == 0) {
+      return semi_major_axis_;
+    }
     return std::sqrt((math::sqr(semi_major_axis_) +
                       ((semi_major_axis_ * math::sqr(semi_minor_axis())) /
                        linear_eccentricity()) *
-- 
2.43.0


From 0c2e8e492c76308aba930698611664395354dcb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:16 +0000
Subject: [PATCH 66/99] fix: normalize the longitudes of arrays that cannot be
 modified in place

---
 src/pyinterp/geodetic/__init__.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/pyinterp/geodetic/__init__.py b/src/pyinterp/geodetic/__init__.py
index f972c8e..3433a08 100644
--- a/src/pyinterp/geodetic/__init__.py
+++ b/src/pyinterp/geodetic/__init__.py
@@ -153,11 +153,10 @@ def normalize_longitudes(lon: numpy.ndarray,
     Returns:
         Longitudes normalized to the range ``[min_lon, min_lon + 360)``.
     """
-    if lon.flags.writeable:
-        geodetic.normalize_longitudes(lon, min_lon)
-        return lon
-    return geodetic.normalize_longitudes(  # type: ignore[return-value]
-        lon, min_lon)
+    # The array is modified in place if it's possible, otherwise (read-only, not
+    # contiguous or not of type float64) the result is a new array.
+    result = geodetic.normalize_longitudes(lon, min_lon)
+    return lon if result is None else result
 
 
 class RTree(geodetic.RTree):
-- 
2.43.0


From 19b57dc0772b3adcb68680d87dbf169e4851a709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:01 +0000
Subject: [PATCH 67/99] fix: the WKT representation of geometries keeps their
 coordinates

---
 src/pyinterp/core/module/geodetic.cpp | 29 +++++++++++++--------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/src/pyinterp/core/module/geodetic.cpp b/src/pyinterp/core/module/geodetic.cpp
index d0b6e36..8255449 100644
--- a/src/pyinterp/core/module/geodetic.cpp
+++ b/src/pyinterp/core/module/geodetic.cpp
@@ -39,6 +39,15 @@ static inline auto parse_distance_strategy(const std::string &strategy)
   throw std::invalid_argument("Invalid strategy: " + strategy);
 }
 
+/// Returns the WKT representation of a geometry, without loss of precision.
+template <typename Geometry>
+static inline auto to_wkt(const Geometry &geometry) -> std::string {
+  auto ss = std::stringstream();
+  ss.precision(std::numeric_limits<double>::max_digits10);
+  ss << boost::geometry::wkt(geometry);
+  return ss.str();
+}
+
 static void init_geodetic_point(py::module &m) {
   py::class_<geodetic::Point>(m, "Point", R"__doc__(
 Point(self, lon: float = 0, lat: float = 0)
@@ -115,9 +124,7 @@ Returns:
       .def(
           "wkt",
           [](const geodetic::Point &self) -> std::string {
-            auto ss = std::stringstream();
-            ss << boost::geometry::wkt(self);
-            return ss.str();
+            return to_wkt(self);
           },
           R"__doc__(
 Gets the OGC Well-Known Text (WKT) representation of this instance.
@@ -307,9 +314,7 @@ Returns:
       .def(
           "wkt",
           [](const geodetic::Box &self) -> std::string {
-            auto ss = std::stringstream();
-            ss << boost::geometry::wkt(self);
-            return ss.str();
+            return to_wkt(self);
           },
           R"__doc__(
 Gets the OGC Well-Known Text (WKT) representation of this instance.
@@ -631,9 +636,7 @@ Returns:
       .def(
           "wkt",
           [](const geodetic::Polygon &self) -> std::string {
-            auto ss = std::stringstream();
-            ss << boost::geometry::wkt(self);
-            return ss.str();
+            return to_wkt(self);
           },
           R"__doc__(
 Gets the OGC Well-Known Text (WKT) representation of this instance.
@@ -993,9 +996,7 @@ Returns:
       .def(
           "wkt",
           [](const geodetic::MultiPolygon &self) -> std::string {
-            auto ss = std::stringstream();
-            ss << boost::geometry::wkt(self);
-            return ss.str();
+            return to_wkt(self);
           },
           R"__doc__(
 Gets the OGC Well-Known Text (WKT) representation of this instance.
@@ -1063,9 +1064,7 @@ Returns:
       .def(
           "wkt",
           [](const geodetic::LineString &self) -> std::string {
-            auto ss = std::stringstream();
-            ss << boost::geometry::wkt(self);
-            return ss.str();
+            return to_wkt(self);
           },
           R"__doc__(
 Gets the OGC Well-Known Text (WKT) representation of this instance.
-- 
2.43.0


From 2aa28e08b236eee5002d03cbfcf3b9939ecc2ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:06 +0000
Subject: [PATCH 68/99] fix: iterating over a temporary line string reads freed
 points

---
 src/pyinterp/core/module/geodetic.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/pyinterp/core/module/geodetic.cpp b/src/pyinterp/core/module/geodetic.cpp
index 8255449..da49a1d 100644
--- a/src/pyinterp/core/module/geodetic.cpp
+++ b/src/pyinterp/core/module/geodetic.cpp
@@ -1130,11 +1130,12 @@ Args:
       .def("__repr__", &geodetic::LineString::to_string,
            "Called by the ``repr()`` built-in function to compute the string "
            "representation of a point.")
-      .def("__iter__",
-           [](const geodetic::LineString &self) {
-             return py::make_iterator(self.begin(), self.end(),
-                                      py::keep_alive<0, 1>());
-           })
+      .def(
+          "__iter__",
+          [](const geodetic::LineString &self) {
+            return py::make_iterator(self.begin(), self.end());
+          },
+          py::keep_alive<0, 1>())
       .def(
           "curvilinear_distance",
           [](const geodetic::LineString &self, const std::string &strategy,
-- 
2.43.0


From d34a2480824fd5a41cae4086f2c4469e2bfe78d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:20 +0000
Subject: [PATCH 69/99] fix: MultiPolygon += modifies the multi-polygon in
 place

---
 .../core/include/pyinterp/geodetic/multipolygon.hpp         | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/geodetic/multipolygon.hpp b/src/pyinterp/core/include/pyinterp/geodetic/multipolygon.hpp
index 7f332a2..09f7379 100644
--- a/src/pyinterp/core/include/pyinterp/geodetic/multipolygon.hpp
+++ b/src/pyinterp/core/include/pyinterp/geodetic/multipolygon.hpp
@@ -38,8 +38,10 @@ class MultiPolygon : public boost::geometry::model::multi_polygon<Polygon> {
   auto append(Polygon &&polygon) -> void { Base::emplace_back(polygon); }
 
   /// Add a multi-polygon to this multipolygon
-  auto operator+=(const MultiPolygon &other) -> MultiPolygon {
-    Base::insert(Base::end(), other.begin(), other.end());
+  auto operator+=(const MultiPolygon &other) -> MultiPolygon & {
+    // The copy allows a multi-polygon to be added to itself.
+    const auto polygons = Base(other);
+    Base::insert(Base::end(), polygons.begin(), polygons.end());
     return *this;
   }
 
-- 
2.43.0


From c98c447611265bac08cfbeaff9590762a356b845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:20 +0000
Subject: [PATCH 70/99] fix: any two opposite corners define a box

---
 src/pyinterp/core/module/geodetic.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/pyinterp/core/module/geodetic.cpp b/src/pyinterp/core/module/geodetic.cpp
index da49a1d..47b413f 100644
--- a/src/pyinterp/core/module/geodetic.cpp
+++ b/src/pyinterp/core/module/geodetic.cpp
@@ -181,10 +181,11 @@ Returns:
 static void init_geodetic_box(py::class_<geodetic::Box> &class_) {
   class_.def(py::init<>())
       .def(py::init([](geodetic::Point min_corner, geodetic::Point max_corner) {
-             if (min_corner.lon() > max_corner.lon()) {
-               std::swap(min_corner, max_corner);
-             }
-             return geodetic::Box(min_corner, max_corner);
+             const auto [lon_min, lon_max] =
+                 std::minmax({min_corner.lon(), max_corner.lon()});
+             const auto [lat_min, lat_max] =
+                 std::minmax({min_corner.lat(), max_corner.lat()});
+             return geodetic::Box({lon_min, lat_min}, {lon_max, lat_max});
            }),
            py::arg("min_corner"), py::arg("max_corner"))
       .def_static("from_geojson", &geodetic::Box::from_geojson,
-- 
2.43.0


From 2d8e19a7da068a434655f148a2cbb3f1721b3223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:20 +0000
Subject: [PATCH 71/99] fix: unpickle the boxes crossing the date line

---
 src/pyinterp/core/include/pyinterp/geodetic/box.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/geodetic/box.hpp b/src/pyinterp/core/include/pyinterp/geodetic/box.hpp
index bfb5f7b..de4e8d8 100644
--- a/src/pyinterp/core/include/pyinterp/geodetic/box.hpp
+++ b/src/pyinterp/core/include/pyinterp/geodetic/box.hpp
@@ -134,8 +134,12 @@ class Box : public boost::geometry::model::box<Point> {
     if (state.size() != 2) {
       throw std::runtime_error("invalid state");
     }
-    return {Point::setstate(state[0].cast<pybind11::tuple>()),
-            Point::setstate(state[1].cast<pybind11::tuple>())};
+    // The envelope of a geometry crossing the date line exceeds 180 degrees:
+    // the corners are restored without being checked.
+    auto result = Box();
+    result.min_corner() = Point::setstate(state[0].cast<pybind11::tuple>());
+    result.max_corner() = Point::setstate(state[1].cast<pybind11::tuple>());
+    return result;
   }
 
   auto operator==(const Box &other) const -> bool {
-- 
2.43.0


From 8db7a295e2d2805a83fd5bd85aeee3e6ff74c221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:05 +0000
Subject: [PATCH 72/99] fix: closest_point checks the size of its arrays

---
 src/pyinterp/core/lib/geodetic/line_string.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pyinterp/core/lib/geodetic/line_string.cpp b/src/pyinterp/core/lib/geodetic/line_string.cpp
index aad39b2..a3711a1 100644
--- a/src/pyinterp/core/lib/geodetic/line_string.cpp
+++ b/src/pyinterp/core/lib/geodetic/line_string.cpp
@@ -222,6 +222,7 @@ auto LineString::closest_point(const Eigen::Ref<const Eigen::VectorXd>& lon,
                                const std::optional<Spheroid>& wgs,
                                const size_t num_threads) const
     -> std::tuple<Eigen::VectorXd, Eigen::VectorXd> {
+  detail::check_eigen_shape("lon", lon, "lat", lat);
   auto result_lon = Eigen::VectorXd(lon.size());
   auto result_lat = Eigen::VectorXd(lat.size());
   auto except = std::exception_ptr(nullptr);
-- 
2.43.0


From 7a043b2eb58e5ff55bef8a7018a0e0ba83460338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:05 +0000
Subject: [PATCH 73/99] fix: nearest points of an empty half-orbit

---
 src/pyinterp/core/lib/geodetic/crossover.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pyinterp/core/lib/geodetic/crossover.cpp b/src/pyinterp/core/lib/geodetic/crossover.cpp
index 66c5dde..1527fe5 100644
--- a/src/pyinterp/core/lib/geodetic/crossover.cpp
+++ b/src/pyinterp/core/lib/geodetic/crossover.cpp
@@ -94,6 +94,9 @@ auto Crossover::nearest(const Point& point, const double predicate,
                         const DistanceStrategy strategy,
                         const std::optional<Spheroid>& wgs) const
     -> std::optional<std::tuple<size_t, size_t>> {
+  if (half_orbit_1_.empty() || half_orbit_2_.empty()) {
+    return {};
+  }
   auto ix1 = NearestPoint(half_orbit_1_)(point);
   if (half_orbit_1_[ix1].distance(point, strategy, wgs) > predicate) {
     return {};
-- 
2.43.0


From 9687d2b710938b3dfeeef33695b67840cb70a471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:38 +0000
Subject: [PATCH 74/99] fix: each crossover is listed once

---
 .../pyinterp/detail/geometry/crossover.hpp    | 62 +++++++++++--------
 src/pyinterp/core/lib/geodetic/crossover.cpp  | 32 +++-------
 2 files changed, 42 insertions(+), 52 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/detail/geometry/crossover.hpp b/src/pyinterp/core/include/pyinterp/detail/geometry/crossover.hpp
index 0fdb2bf..3f1b7fc 100644
--- a/src/pyinterp/core/include/pyinterp/detail/geometry/crossover.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/geometry/crossover.hpp
@@ -4,11 +4,12 @@
 // BSD-style license that can be found in the LICENSE file.
 #pragma once
 #include <algorithm>
+#include <cmath>
 #include <limits>
 #include <optional>
-#include <set>
 #include <tuple>
 #include <utility>
+#include <vector>
 
 #include "pyinterp/detail/geometry/line_string.hpp"
 #include "pyinterp/detail/geometry/point.hpp"
@@ -120,6 +121,31 @@ auto normalize_line_strings(LineString<T>& l1, LineString<T>& l2) -> void {
   });
 }
 
+/// Get the distinct points of a line string. An intersection shared by several
+/// segments is found, within rounding errors, for each pair of segments.
+///
+/// @param line the line string.
+/// @return the distinct points of the line string.
+template <typename Point, typename Line>
+auto unique_points(const Line& line) -> std::vector<Point> {
+  constexpr auto kEpsilon = 1e-10;
+  auto result = std::vector<Point>{};
+  result.reserve(line.size());
+  for (const auto& item : line) {
+    const auto found =
+        std::any_of(result.begin(), result.end(), [&item](const Point& other) {
+          return std::abs(item.template get<0>() - other.template get<0>()) <
+                     kEpsilon &&
+                 std::abs(item.template get<1>() - other.template get<1>()) <
+                     kEpsilon;
+        });
+    if (!found) {
+      result.emplace_back(item.template get<0>(), item.template get<1>());
+    }
+  }
+  return result;
+}
+
 /// Calculate the crossover between two half-orbits.
 template <typename T>
 class Crossover {
@@ -144,39 +170,21 @@ class Crossover {
       return {};
     }
 
-    if (line_string.size() != 1) {
-      // If there is a merged point between lines #1 and #2 then the method will
-      // find this point for each of the segments tested.
-      std::set<std::tuple<double, double>> points;
-      for (auto& item : line_string) {
-        points.insert(
-            std::make_tuple(item.template get<0>(), item.template get<1>()));
-      }
-      if (points.size() != 1) {
-        // If the intersection is not a point then an exception is thrown.
-        throw std::runtime_error(
-            "The geometry of the intersection is not a point");
-      }
+    const auto points = unique_points<Point2D<T>>(line_string);
+    if (points.size() != 1) {
+      // If the intersection is not a point then an exception is thrown.
+      throw std::runtime_error(
+          "The geometry of the intersection is not a point");
     }
-    return line_string.front();
+    return points.front();
   }
 
   /// Search all crossover points between the two passes.
   ///
   /// @return the crossover locations.
   [[nodiscard]] auto search_all() const -> std::vector<Point2D<T>> {
-    auto line_string = half_orbit_1_.intersection(half_orbit_2_);
-    if (line_string.empty()) {
-      // There is no intersection.
-      return {};
-    }
-
-    auto points = std::vector<Point2D<T>>{};
-    points.reserve(line_string.size());
-    for (auto& item : line_string) {
-      points.emplace_back(item.template get<0>(), item.template get<1>());
-    }
-    return points;
+    return unique_points<Point2D<T>>(
+        half_orbit_1_.intersection(half_orbit_2_));
   }
 
   /// Search nearest indexes from a given point.
diff --git a/src/pyinterp/core/lib/geodetic/crossover.cpp b/src/pyinterp/core/lib/geodetic/crossover.cpp
index 1527fe5..dc4fa88 100644
--- a/src/pyinterp/core/lib/geodetic/crossover.cpp
+++ b/src/pyinterp/core/lib/geodetic/crossover.cpp
@@ -58,36 +58,18 @@ auto Crossover::search(const std::optional<Spheroid>& wgs) const
     return {};
   }
 
-  if (line_string.size() != 1) {
-    // If there is a merged point between lines #1 and #2 then the method will
-    // find this point for each of the segments tested.
-    std::set<std::tuple<double, double>> points;
-    for (auto& item : line_string) {
-      points.insert(std::make_tuple(item.get<0>(), item.get<1>()));
-    }
-    if (points.size() != 1) {
-      // If the intersection is not a point then an exception is thrown.
-      throw std::runtime_error(
-          "The geometry of the intersection is not a point");
-    }
+  const auto points = detail::geometry::unique_points<Point>(line_string);
+  if (points.size() != 1) {
+    // If the intersection is not a point then an exception is thrown.
+    throw std::runtime_error("The geometry of the intersection is not a point");
   }
-  return line_string[0];
+  return points.front();
 }
 
 auto Crossover::search_all(const std::optional<Spheroid>& wgs) const
     -> std::vector<Point> {
-  auto line_string = half_orbit_1_.intersection(half_orbit_2_, wgs);
-  if (line_string.empty()) {
-    // There is no intersection.
-    return {};
-  }
-
-  auto points = std::vector<Point>{};
-  points.reserve(line_string.size());
-  for (auto& item : line_string) {
-    points.emplace_back(item.get<0>(), item.get<1>());
-  }
-  return points;
+  return detail::geometry::unique_points<Point>(
+      half_orbit_1_.intersection(half_orbit_2_, wgs));
 }
 
 auto Crossover::nearest(const Point& point, const double predicate,
-- 
2.43.0


From 47db56866763ccb386f9a47ca52fb58c27112ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:38 +0000
Subject: [PATCH 75/99] fix: crossovers of tracks whose longitudes turn back

---
 .../pyinterp/detail/geometry/crossover.hpp    | 107 ++++++------------
 1 file changed, 35 insertions(+), 72 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/detail/geometry/crossover.hpp b/src/pyinterp/core/include/pyinterp/detail/geometry/crossover.hpp
index 3f1b7fc..f864f1f 100644
--- a/src/pyinterp/core/include/pyinterp/detail/geometry/crossover.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/geometry/crossover.hpp
@@ -16,21 +16,6 @@
 
 namespace pyinterp::detail::geometry {
 
-/// Determine if the satellite is retrograde
-///
-/// @param x1 first longitude
-/// @param x2 second longitude
-/// @param x3 third longitude
-/// @return true if the satellite is retrograde
-template <typename T>
-constexpr auto is_retrograde(const T& x1, const T& x2, const T& x3) -> bool {
-  auto delta = std::min(std::max(x1 - x2, -180.0), 180.0);
-  if (std::abs(delta) == 180) {
-    delta = std::min(std::max(x2 - x3, -180.0), 180.0);
-  }
-  return delta > 0;
-}
-
 /// Find the nearest index of a point in this linestring to a given point.
 ///
 /// @param line the linestring to search.
@@ -51,6 +36,30 @@ auto nearest_point(const LineString<T>& line, const Point2D<T>& point)
   return index;
 }
 
+/// Calculate the turns to add to the longitudes of a line string so that two
+/// consecutive points are never more than 180 degrees apart.
+///
+/// @param line the line string.
+/// @return the turns to add to each longitude and the middle of the longitudes
+/// covered by the line string.
+template <typename T>
+auto unwrap_longitudes(const LineString<T>& line)
+    -> std::tuple<std::vector<T>, T> {
+  auto turns = std::vector<T>();
+  auto previous = line.front().template get<0>();
+  auto min = previous;
+  auto max = previous;
+  turns.reserve(line.size());
+  for (const auto& item : line) {
+    const auto lon = item.template get<0>();
+    turns.push_back(std::round((previous - lon) / 360));
+    previous = lon + turns.back() * 360;
+    min = std::min(min, previous);
+    max = std::max(max, previous);
+  }
+  return std::make_tuple(std::move(turns), (min + max) / 2);
+}
+
 /// Normalize the line strings if one of the line crosses the dateline.
 ///
 /// @param l1 the first line string.
@@ -60,65 +69,19 @@ auto normalize_line_strings(LineString<T>& l1, LineString<T>& l2) -> void {
   if (l1.size() < 3 || l2.size() < 3) {
     throw std::runtime_error("LineString must have at least 3 points");
   }
-
-  auto retrograde1 =
-      is_retrograde(l1[0].template get<0>(), l1[1].template get<0>(),
-                    l1[2].template get<0>());
-  auto retrograde2 =
-      is_retrograde(l2[0].template get<0>(), l2[1].template get<0>(),
-                    l2[2].template get<0>());
-
-  T crossing;
-
-  if (!retrograde1 && !retrograde2) {
-    crossing =
-        std::min(l1.front().template get<0>(), l1.front().template get<0>());
-  } else if (!retrograde1 && retrograde2) {
-    crossing =
-        std::min(l1.front().template get<0>(), l2.back().template get<0>());
-  } else if (retrograde1 && !retrograde2) {
-    crossing =
-        std::min(l1.back().template get<0>(), l2.front().template get<0>());
-  } else { /* if (retrograde1 && retrograde2) */
-    crossing =
-        std::min(l1.back().template get<0>(), l2.back().template get<0>());
+  auto [turns1, middle1] = unwrap_longitudes(l1);
+  auto [turns2, middle2] = unwrap_longitudes(l2);
+  // The second line string is moved as close as possible to the first one.
+  const T shift = std::round((middle1 - middle2) / 360);
+
+  auto it1 = turns1.begin();
+  for (auto& item : l1) {
+    item.template set<0>(item.template get<0>() + *it1++ * 360);
   }
-
-  std::for_each(l1.begin(), l1.end(), [crossing](Point2D<T>& item) {
-    if (item.template get<0>() < crossing) {
-      item.template set<0>(item.template get<0>() + 360);
-    }
-  });
-  std::for_each(l2.begin(), l2.end(), [crossing](Point2D<T>& item) {
-    if (item.template get<0>() < crossing) {
-      item.template set<0>(item.template get<0>() + 360);
-    }
-  });
-
-  if (!retrograde1 && !retrograde2) {
-    crossing =
-        std::max(l1.back().template get<0>(), l2.back().template get<0>());
-  } else if (!retrograde1 && retrograde2) {
-    crossing =
-        std::max(l1.back().template get<0>(), l2.front().template get<0>());
-  } else if (retrograde1 && !retrograde2) {
-    crossing =
-        std::max(l1.front().template get<0>(), l2.back().template get<0>());
-  } else { /* if (retrograde1 && retrograde2) */
-    crossing =
-        std::max(l1.front().template get<0>(), l2.front().template get<0>());
+  auto it2 = turns2.begin();
+  for (auto& item : l2) {
+    item.template set<0>(item.template get<0>() + (*it2++ + shift) * 360);
   }
-
-  std::for_each(l1.begin(), l1.end(), [crossing](Point2D<T>& item) {
-    if (item.template get<0>() > crossing) {
-      item.template set<0>(item.template get<0>() - 360);
-    }
-  });
-  std::for_each(l2.begin(), l2.end(), [crossing](Point2D<T>& item) {
-    if (item.template get<0>() > crossing) {
-      item.template set<0>(item.template get<0>() - 360);
-    }
-  });
 }
 
 /// Get the distinct points of a line string. An intersection shared by several
-- 
2.43.0


From bc86b4cd7290f7c0188ce089d8af7429948b7c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:47 +0000
Subject: [PATCH 76/99] fix: default argument of the lanczos window of the
 geodetic RTree

---
 src/pyinterp/geodetic/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pyinterp/geodetic/__init__.py b/src/pyinterp/geodetic/__init__.py
index 3433a08..b49c33b 100644
--- a/src/pyinterp/geodetic/__init__.py
+++ b/src/pyinterp/geodetic/__init__.py
@@ -351,6 +351,8 @@ class RTree(geodetic.RTree):
             The interpolated value and the number of neighbors used in the
             calculation.
         """
+        if wf == 'lanczos' and arg is None:
+            arg = 1
         return super().window_function(
             lon, lat, radius, k, interface._core_window_function(wf, arg), arg,
             within, num_threads)
-- 
2.43.0


From fb6a09e53455c0357b0f0b772bba3a07022e2633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:32 +0000
Subject: [PATCH 77/99] fix: pickle the semi-minor axis of the geodetic RTree

---
 src/pyinterp/core/lib/geodetic/rtree.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyinterp/core/lib/geodetic/rtree.cpp b/src/pyinterp/core/lib/geodetic/rtree.cpp
index c9317ff..503f9cf 100644
--- a/src/pyinterp/core/lib/geodetic/rtree.cpp
+++ b/src/pyinterp/core/lib/geodetic/rtree.cpp
@@ -319,7 +319,7 @@ auto RTree::window_function(const Eigen::Ref<const Vector<double>> &lon,
                 });
   const auto &model = strategy_.model();
   auto a = model.template get_radius<0>();
-  auto b = model.template get_radius<1>();
+  auto b = model.template get_radius<2>();
   return pybind11::make_tuple(a, b, coordinates, data);
 }
 
-- 
2.43.0


From 3b2c7cbf87f709b05565cfd66c7d954dadb012fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:32 +0000
Subject: [PATCH 78/99] fix: neighbours missed by the geodetic RTree

---
 .../pyinterp/detail/geometry/rtree.hpp        | 91 ++++++++++++++++++-
 1 file changed, 90 insertions(+), 1 deletion(-)

diff --git a/src/pyinterp/core/include/pyinterp/detail/geometry/rtree.hpp b/src/pyinterp/core/include/pyinterp/detail/geometry/rtree.hpp
index 19af8df..493cbdc 100644
--- a/src/pyinterp/core/include/pyinterp/detail/geometry/rtree.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/geometry/rtree.hpp
@@ -20,6 +20,94 @@
 
 namespace pyinterp::detail::geometry {
 
+/// Formula used to sort the geographic points stored in the tree.
+///
+/// The strategy of Boost overestimates the distance between a point and a box
+/// when the box crosses the antimeridian or when the point is far from it, and
+/// the neighbors stored in this box are missed. This type selects the
+/// specialization written below.
+struct IndexFormula : boost::geometry::strategy::andoyer {};
+
+/// Parameters of the spatial index
+template <typename Point,
+          typename Tag = typename boost::geometry::cs_tag<Point>::type>
+struct IndexParameters {
+  using type = boost::geometry::index::rstar<16>;
+};
+
+/// Specialization of the parameters for the geographic points
+template <typename Point>
+struct IndexParameters<Point, boost::geometry::geographic_tag> {
+  using type = boost::geometry::index::parameters<
+      boost::geometry::index::rstar<16>,
+      boost::geometry::strategies::index::geographic<IndexFormula>>;
+};
+
+}  // namespace pyinterp::detail::geometry
+
+namespace boost::geometry::strategy {
+
+template <>
+struct default_order<pyinterp::detail::geometry::IndexFormula>
+    : default_order<andoyer> {};
+
+namespace distance {
+
+/// Lower bound of the distance between a point and a box.
+template <typename Spheroid, typename CalculationType>
+class geographic_cross_track_point_box<
+    pyinterp::detail::geometry::IndexFormula, Spheroid, CalculationType>
+    : public geographic_cross_track_point_box<strategy::andoyer, Spheroid,
+                                              CalculationType> {
+ public:
+  using base_t = geographic_cross_track_point_box<strategy::andoyer, Spheroid,
+                                                  CalculationType>;
+
+  explicit geographic_cross_track_point_box(
+      const Spheroid &spheroid = Spheroid())
+      : base_t(spheroid) {}
+
+  template <typename Point, typename Box>
+  auto apply(const Point &point, const Box &box) const ->
+      typename base_t::template return_type<Point, Box>::type {
+    const double y = get_as_radian<1>(point);
+    const double y0 = get_as_radian<min_corner, 1>(box);
+    const double y1 = get_as_radian<max_corner, 1>(box);
+
+    // Difference of longitude between the point and the closest meridian of
+    // the box.
+    const auto two_pi = math::two_pi<double>();
+    auto dx = get_as_radian<0>(point) - get_as_radian<min_corner, 0>(box);
+    dx -= std::floor(dx / two_pi) * two_pi;
+    const auto width = get_as_radian<max_corner, 0>(box) -
+                       get_as_radian<min_corner, 0>(box);
+    dx = dx <= width ? 0 : std::min(dx - width, two_pi - dx);
+
+    // Angular distance, on a sphere, to the closest point of this meridian.
+    auto angle = [&](const double lat) {
+      return 2 * std::asin(std::min(
+                     1.0, std::sqrt(math::sqr(std::sin((lat - y) / 2)) +
+                                    std::cos(lat) * std::cos(y) *
+                                        math::sqr(std::sin(dx / 2)))));
+    };
+    const auto closest = std::atan2(std::sin(y), std::cos(y) * std::cos(dx));
+    const auto result = closest >= y0 && closest <= y1
+                            ? angle(closest)
+                            : std::min(angle(y0), angle(y1));
+
+    // The smallest radius of curvature of the ellipsoid is that of the meridian
+    // at the equator. (a margin is kept for the accuracy of the formula)
+    const double a = get_radius<0>(this->model());
+    const double b = get_radius<2>(this->model());
+    return result * b * std::min(b / a, 1.0) * (1 - 1e-4);
+  }
+};
+
+}  // namespace distance
+}  // namespace boost::geometry::strategy
+
+namespace pyinterp::detail::geometry {
+
 /// Index points.
 ///
 /// @tparam Point point type
@@ -45,7 +133,8 @@ class RTree {
 
   /// Spatial index used
   using rtree_t =
-      boost::geometry::index::rtree<value_t, boost::geometry::index::rstar<16>>;
+      boost::geometry::index::rtree<value_t,
+                                    typename IndexParameters<Point>::type>;
 
   /// Type of the implicit conversion between the type of coordinates and values
   using promotion_t =
-- 
2.43.0


From cd43a81dab6917b1e5ca6d2331ba2979b0ecbe5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:32 +0000
Subject: [PATCH 79/99] fix: latitudes of the bounds of the geodetic RTree

---
 src/pyinterp/core/lib/geodetic/rtree.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyinterp/core/lib/geodetic/rtree.cpp b/src/pyinterp/core/lib/geodetic/rtree.cpp
index 503f9cf..ee8abd4 100644
--- a/src/pyinterp/core/lib/geodetic/rtree.cpp
+++ b/src/pyinterp/core/lib/geodetic/rtree.cpp
@@ -34,9 +34,9 @@ auto RTree::equatorial_bounds() const -> std::optional<Box> {
   auto box = this->bounds();
   if (box.has_value()) {
     return Box(Point(boost::geometry::get<0>(box.value().min_corner()),
-                     boost::geometry::get<0>(box.value().min_corner())),
+                     boost::geometry::get<1>(box.value().min_corner())),
                Point(boost::geometry::get<0>(box.value().max_corner()),
-                     boost::geometry::get<0>(box.value().max_corner())));
+                     boost::geometry::get<1>(box.value().max_corner())));
   }
   return {};
 }
-- 
2.43.0


From e9b15b4385cce1b53c96b3f85d1b2dcca276f4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:32 +0000
Subject: [PATCH 80/99] fix: query the geodetic RTree with read-only arrays

---
 src/pyinterp/core/lib/geodetic/rtree.cpp | 4 ++--
 src/pyinterp/core/module/geodetic.cpp    | 5 +++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/pyinterp/core/lib/geodetic/rtree.cpp b/src/pyinterp/core/lib/geodetic/rtree.cpp
index ee8abd4..1d9895a 100644
--- a/src/pyinterp/core/lib/geodetic/rtree.cpp
+++ b/src/pyinterp/core/lib/geodetic/rtree.cpp
@@ -338,8 +338,8 @@ auto RTree::setstate(const pybind11::tuple &state) -> RTree {
     throw std::runtime_error("invalid state");
   }
 
-  auto _coordinates = coordinates.template mutable_unchecked<2>();
-  auto _data = data.template mutable_unchecked<1>();
+  auto _coordinates = coordinates.template unchecked<2>();
+  auto _data = data.template unchecked<1>();
 
   auto vector = std::vector<typename RTree::value_t>();
   vector.reserve(data.size());
diff --git a/src/pyinterp/core/module/geodetic.cpp b/src/pyinterp/core/module/geodetic.cpp
index 47b413f..ba757a3 100644
--- a/src/pyinterp/core/module/geodetic.cpp
+++ b/src/pyinterp/core/module/geodetic.cpp
@@ -1435,8 +1435,9 @@ Args:
       .def(
           "query",
           [](const geodetic::RTree &self,
-             const Eigen::Ref<pyinterp::Vector<double>> &lon,
-             const Eigen::Ref<pyinterp::Vector<double>> &lat, const uint32_t k,
+             const Eigen::Ref<const pyinterp::Vector<double>> &lon,
+             const Eigen::Ref<const pyinterp::Vector<double>> &lat,
+             const uint32_t k,
              const bool within, const size_t num_threads) -> py::tuple {
             return self.query(lon, lat, k, within, num_threads);
           },
-- 
2.43.0


From 3ac851261158a5cef2da1f8f4d3916e07bc0dc31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:20 +0000
Subject: [PATCH 81/99] fix: order of an axis of a single value once reversed

The reverse of an axis of a single value was said to be in descending
order, while the axis built from the same values, or restored from its
pickle, is in ascending order.
---
 src/pyinterp/core/include/pyinterp/detail/axis/container.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/detail/axis/container.hpp b/src/pyinterp/core/include/pyinterp/detail/axis/container.hpp
index 4c117f3..1af1987 100644
--- a/src/pyinterp/core/include/pyinterp/detail/axis/container.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/axis/container.hpp
@@ -258,7 +258,7 @@ class Irregular : public Abstract<T> {
   /// @copydoc Abstract::flip()
   auto flip() -> void override {
     std::reverse(points_.data(), points_.data() + points_.size());
-    this->is_ascending_ = !this->is_ascending_;
+    this->is_ascending_ = this->calculate_is_ascending();
   }
 
   /// @copydoc Abstract::is_monotonic() const
@@ -425,7 +425,7 @@ class AbstractRegular : public Abstract<T> {
   auto flip() -> void override {
     start_ = back();
     step_ = -step_;
-    this->is_ascending_ = !this->is_ascending_;
+    this->is_ascending_ = this->calculate_is_ascending();
   }
 
   /// @copydoc Abstract::coordinate_value(const int64_t) const
-- 
2.43.0


From 887350902036c11d7dd7dddae3eae0132a58c319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:55 +0000
Subject: [PATCH 82/99] fix: copy of the geodetic RTree

The copy of a pyinterp.geodetic.RTree was an instance of the class written
in C++: its methods did not accept the names of the windows and of the
radial functions, and the points inserted in the copy were inserted in
the original.
---
 src/pyinterp/geodetic/__init__.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pyinterp/geodetic/__init__.py b/src/pyinterp/geodetic/__init__.py
index b49c33b..c7d872f 100644
--- a/src/pyinterp/geodetic/__init__.py
+++ b/src/pyinterp/geodetic/__init__.py
@@ -171,6 +171,12 @@ class RTree(geodetic.RTree):
     def __init__(self, spheroid: Spheroid | None = None) -> None:
         super().__init__(spheroid)
 
+    def __copy__(self) -> RTree:
+        """Implements the copy operation."""
+        result = self.__class__.__new__(self.__class__)
+        result.__setstate__(self.__getstate__())
+        return result
+
     def inverse_distance_weighting(
             self,
             lon: numpy.ndarray,
-- 
2.43.0


From 3a9e753e815e900190028093f3f56d5fca219da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:55 +0000
Subject: [PATCH 83/99] fix: pickle the temporal axis of the grids

The Z-axis of a grid restored from its pickle was an axis of integers: the
unit of its dates was lost.
---
 src/pyinterp/core/include/pyinterp/grid.hpp | 43 ++++++++++++++++++---
 1 file changed, 37 insertions(+), 6 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/grid.hpp b/src/pyinterp/core/include/pyinterp/grid.hpp
index 8edc2c4..b7f2a66 100644
--- a/src/pyinterp/core/include/pyinterp/grid.hpp
+++ b/src/pyinterp/core/include/pyinterp/grid.hpp
@@ -8,13 +8,46 @@
 #include <memory>
 #include <string>
 #include <tuple>
+#include <type_traits>
 #include <utility>
 
 #include "pyinterp/axis.hpp"
 #include "pyinterp/detail/broadcast.hpp"
+#include "pyinterp/temporal_axis.hpp"
 
 namespace pyinterp {
 
+/// Gets the state of the Z-Axis of a grid.
+///
+/// @param axis Z-Axis
+/// @return The state of the axis, that of the temporal axis if the axis handles
+/// dates or durations.
+template <typename AxisType>
+inline auto z_axis_getstate(const Axis<AxisType> &axis) -> pybind11::tuple {
+  if constexpr (std::is_same_v<AxisType, int64_t>) {
+    const auto *temporal_axis = dynamic_cast<const TemporalAxis *>(&axis);
+    if (temporal_axis != nullptr) {
+      return temporal_axis->getstate();
+    }
+  }
+  return axis.getstate();
+}
+
+/// Creates the Z-Axis of a grid from its registered state.
+///
+/// @param state State of the axis
+/// @return The axis registered.
+template <typename AxisType>
+inline auto z_axis_setstate(const pybind11::tuple &state)
+    -> std::shared_ptr<Axis<AxisType>> {
+  if constexpr (std::is_same_v<AxisType, int64_t>) {
+    if (state.size() == 2 && pybind11::isinstance<pybind11::tuple>(state[0])) {
+      return std::make_shared<TemporalAxis>(TemporalAxis::setstate(state));
+    }
+  }
+  return std::make_shared<Axis<AxisType>>(Axis<AxisType>::setstate(state));
+}
+
 /// Gets the coordinates of the cell, of the X-Axis, that contains the
 /// coordinate x.
 ///
@@ -195,7 +228,7 @@ class Grid3D : public Grid2D<DataType, Dimension> {
   /// Pickle support: get state of this instance
   [[nodiscard]] auto getstate() const -> pybind11::tuple override {
     return pybind11::make_tuple(this->x_->getstate(), this->y_->getstate(),
-                                z_->getstate(), this->array_);
+                                z_axis_getstate(*z_), this->array_);
   }
 
   /// Pickle support: set state of this instance
@@ -207,8 +240,7 @@ class Grid3D : public Grid2D<DataType, Dimension> {
                       Axis<double>::setstate(tuple[0].cast<pybind11::tuple>())),
                   std::make_shared<Axis<double>>(
                       Axis<double>::setstate(tuple[1].cast<pybind11::tuple>())),
-                  std::make_shared<Axis<AxisType>>(Axis<AxisType>::setstate(
-                      tuple[2].cast<pybind11::tuple>())),
+                  z_axis_setstate<AxisType>(tuple[2].cast<pybind11::tuple>()),
                   tuple[3].cast<pybind11::array_t<DataType>>());
   }
 
@@ -245,7 +277,7 @@ class Grid4D : public Grid3D<DataType, AxisType, 4> {
   /// Pickle support: get state of this instance
   [[nodiscard]] auto getstate() const -> pybind11::tuple final {
     return pybind11::make_tuple(this->x_->getstate(), this->y_->getstate(),
-                                this->z_->getstate(), u_->getstate(),
+                                z_axis_getstate(*this->z_), u_->getstate(),
                                 this->array_);
   }
 
@@ -258,8 +290,7 @@ class Grid4D : public Grid3D<DataType, AxisType, 4> {
                       Axis<double>::setstate(tuple[0].cast<pybind11::tuple>())),
                   std::make_shared<Axis<double>>(
                       Axis<double>::setstate(tuple[1].cast<pybind11::tuple>())),
-                  std::make_shared<Axis<AxisType>>(Axis<AxisType>::setstate(
-                      tuple[2].cast<pybind11::tuple>())),
+                  z_axis_setstate<AxisType>(tuple[2].cast<pybind11::tuple>()),
                   std::make_shared<Axis<double>>(
                       Axis<double>::setstate(tuple[3].cast<pybind11::tuple>())),
                   tuple[4].cast<pybind11::array_t<DataType>>());
-- 
2.43.0


From 85b72fe56392efdd72561d1bf69773db8287f5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:13 +0000
Subject: [PATCH 84/99] fix: geohash codes stored in arrays that are not
 contiguous

The functions that handle vectors of GeoHash codes refused the views of an
array. The length of the codes was read in the strides of the array, that
numpy does not define for the arrays of one element: the codes were read
beyond their end.
---
 .../core/include/pyinterp/geohash/string.hpp  |  4 ++
 src/pyinterp/core/lib/geohash/string.cpp      | 39 ++++++++++++-------
 2 files changed, 28 insertions(+), 15 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/geohash/string.hpp b/src/pyinterp/core/include/pyinterp/geohash/string.hpp
index 58855ed..07e804a 100644
--- a/src/pyinterp/core/include/pyinterp/geohash/string.hpp
+++ b/src/pyinterp/core/include/pyinterp/geohash/string.hpp
@@ -51,6 +51,10 @@ class Array {
                            capsule_);
   }
 
+  /// Gets the array, or a copy of it if its elements are not contiguous in
+  /// memory.
+  static auto contiguous(const pybind11::array &hash) -> pybind11::array;
+
   static auto get_info(const pybind11::array &hash, pybind11::ssize_t ndim)
       -> pybind11::buffer_info;
 
diff --git a/src/pyinterp/core/lib/geohash/string.cpp b/src/pyinterp/core/lib/geohash/string.cpp
index df750f2..d915a63 100644
--- a/src/pyinterp/core/lib/geohash/string.cpp
+++ b/src/pyinterp/core/lib/geohash/string.cpp
@@ -16,14 +16,20 @@ namespace pyinterp::geohash::string {
 // Handle encoding/decoding in base32
 static const auto base32 = Base32();
 
+// ---------------------------------------------------------------------------
+auto Array::contiguous(const pybind11::array &hash) -> pybind11::array {
+  auto result = pybind11::array::ensure(hash, pybind11::array::c_style);
+  if (!result) {
+    throw pybind11::error_already_set();
+  }
+  return result;
+}
+
 // ---------------------------------------------------------------------------
 auto Array::get_info(const pybind11::array &hash, const pybind11::ssize_t ndim)
     -> pybind11::buffer_info {
   auto info = hash.request();
   auto dtype = hash.dtype();
-  if ((hash.flags() & pybind11::array::c_style) == 0) {
-    throw std::runtime_error("hash must be C-style contiguous");
-  }
   switch (ndim) {
     case 1:
       if (info.ndim != 1) {
@@ -32,7 +38,7 @@ auto Array::get_info(const pybind11::array &hash, const pybind11::ssize_t ndim)
       if (dtype.kind() != 'S') {
         throw std::invalid_argument("hash must be a string array");
       }
-      if (info.strides[0] > 12) {
+      if (info.itemsize > 12) {
         throw std::invalid_argument("hash length must be within [1, 12]");
       }
       break;
@@ -40,11 +46,10 @@ auto Array::get_info(const pybind11::array &hash, const pybind11::ssize_t ndim)
       if (info.ndim != 2) {
         throw std::invalid_argument("hash must be a two-dimensional array");
       }
-      if (info.strides[0] != hash.shape(1) * info.strides[1] ||
-          dtype.kind() != 'S') {
+      if (dtype.kind() != 'S') {
         throw std::invalid_argument("hash must be a string array");
       }
-      if (info.strides[1] > 12) {
+      if (info.itemsize > 12) {
         throw std::invalid_argument("hash length must be within [1, 12]");
       }
       break;
@@ -126,8 +131,9 @@ auto decode(const char *const hash, const size_t count, const bool round)
 // ---------------------------------------------------------------------------
 auto decode(const pybind11::array &hash, const bool round)
     -> std::tuple<Eigen::VectorXd, Eigen::VectorXd> {
-  auto info = Array::get_info(hash, 1);
-  auto count = info.strides[0];
+  auto codes = Array::contiguous(hash);
+  auto info = Array::get_info(codes, 1);
+  auto count = info.itemsize;
   auto lon = Eigen::VectorXd(info.shape[0]);
   auto lat = Eigen::VectorXd(info.shape[0]);
   auto *ptr = static_cast<char *>(info.ptr);
@@ -164,8 +170,9 @@ auto neighbors(const char *const hash, const size_t count) -> pybind11::array {
 // ---------------------------------------------------------------------------
 auto area(const pybind11::array &hash,
           const std::optional<geodetic::Spheroid> &wgs) -> Eigen::MatrixXd {
-  auto info = Array::get_info(hash, 1);
-  auto count = info.strides[0];
+  auto codes = Array::contiguous(hash);
+  auto info = Array::get_info(codes, 1);
+  auto count = info.itemsize;
   auto result = Eigen::VectorXd(info.shape[0]);
   auto *ptr = static_cast<char *>(info.ptr);
   auto spheroid =
@@ -351,10 +358,11 @@ auto where(const pybind11::array &hash) -> std::unordered_map<
       std::string,
       std::tuple<std::tuple<int64_t, int64_t>, std::tuple<int64_t, int64_t>>>();
 
-  auto info = Array::get_info(hash, 2);
+  auto codes = Array::contiguous(hash);
+  auto info = Array::get_info(codes, 2);
   auto rows = info.shape[0];
   auto cols = info.shape[1];
-  auto chars = info.strides[1];
+  auto chars = info.itemsize;
   auto *ptr = static_cast<char *>(info.ptr);
   std::string current_code;
 
@@ -454,9 +462,10 @@ static auto zoom_out(char *ptr, pybind11::ssize_t size, uint32_t from_precision,
 auto transform(const pybind11::array &hash, uint32_t precision)
     -> pybind11::array {
   // Decode the information in the provided table.
-  auto info = Array::get_info(hash, 1);
+  auto codes = Array::contiguous(hash);
+  auto info = Array::get_info(codes, 1);
   auto size = info.shape[0];
-  auto input_precision = static_cast<uint32_t>(info.strides[0]);
+  auto input_precision = static_cast<uint32_t>(info.itemsize);
   auto *ptr = static_cast<char *>(info.ptr);
 
   if (input_precision == precision) {
-- 
2.43.0


From be689ea5b0fdfa2e6fdaf023534b6126ec646cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:09 +0000
Subject: [PATCH 85/99] fix: temporal axes and dates stored in arrays that are
 not contiguous

A view of an array of dates was refused.
---
 src/pyinterp/core/include/pyinterp/temporal_axis.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/temporal_axis.hpp b/src/pyinterp/core/include/pyinterp/temporal_axis.hpp
index bfaa87c..493f48b 100644
--- a/src/pyinterp/core/include/pyinterp/temporal_axis.hpp
+++ b/src/pyinterp/core/include/pyinterp/temporal_axis.hpp
@@ -24,9 +24,6 @@ namespace detail {
 inline auto dtype(const std::string &name, const pybind11::array &array)
     -> dateutils::DType {
   detail::check_array_ndim(name, 1, array);
-  if ((array.flags() & pybind11::array::c_style) == 0) {
-    throw pybind11::type_error(name + " must be a C-style contiguous array");
-  }
   return dateutils::DType(static_cast<std::string>(
       pybind11::str(static_cast<pybind11::handle>(array.dtype()))));
 }
@@ -34,9 +31,13 @@ inline auto dtype(const std::string &name, const pybind11::array &array)
 /// Get the numpy data type and the raw values stored in a numpy
 /// datetime64/timedelta64 array
 inline auto vector_from_numpy(const pybind11::array &array)
-    -> Eigen::Map<const Vector<int64_t>> {
+    -> Vector<int64_t> {
   auto ptr = array.unchecked<int64_t, 1>();
-  return {&ptr[0], array.size()};
+  auto result = Vector<int64_t>(array.size());
+  for (pybind11::ssize_t ix = 0; ix < array.size(); ++ix) {
+    result[ix] = ptr(ix);
+  }
+  return result;
 }
 
 }  // namespace detail
-- 
2.43.0


From dfc730c646e4e0e36e7f796736a133e3d188fc03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:26 +0000
Subject: [PATCH 86/99] fix: calculate_orbit modified the longitudes of the
 nadir

---
 src/pyinterp/orbit.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyinterp/orbit.py b/src/pyinterp/orbit.py
index 56831cc..3a15ff1 100644
--- a/src/pyinterp/orbit.py
+++ b/src/pyinterp/orbit.py
@@ -461,7 +461,8 @@ def calculate_orbit(
         lon_nadir = lon_nadir[indexes[1:]]
         time = time[indexes[1:]]
 
-    lon_nadir = geodetic.normalize_longitudes(lon_nadir)
+    # The longitudes of the user are not modified
+    lon_nadir = geodetic.normalize_longitudes(numpy.array(lon_nadir))
     time = time.astype('m8[ns]')
 
     if numpy.mean(numpy.diff(time)) > numpy.timedelta64(500, 'ms'):
-- 
2.43.0


From 8b2d7b99aae32d7d1e31ada23fb3fa05d35baf6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:51 +0000
Subject: [PATCH 87/99] fix: fill the vectors of dates stored in another byte
 order

The bytes of the dates were not swapped: the vectors were filled with
unrelated dates. They are refused, as the other types of data are.
---
 src/pyinterp/fill.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyinterp/fill.py b/src/pyinterp/fill.py
index 7256f6d..77c674e 100644
--- a/src/pyinterp/fill.py
+++ b/src/pyinterp/fill.py
@@ -197,8 +197,8 @@ def vector(x: NDArray,
         core.fill.vector_float64(x, fill_value)
     elif dtype == numpy.int64:
         core.fill.vector_int64(x, fill_value)
-    elif numpy.issubdtype(dtype, numpy.datetime64) or numpy.issubdtype(
-            dtype, numpy.timedelta64):
+    elif dtype.isnative and (numpy.issubdtype(dtype, numpy.datetime64)
+                             or numpy.issubdtype(dtype, numpy.timedelta64)):
         # Undefined values are NaT by default. A date is expressed in the unit
         # of the vector.
         if isinstance(fill_value, float) and numpy.isnan(fill_value):
-- 
2.43.0


From 60a7ed8db82890d2b71fdfb4632d76e1b0ae26e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:56 +0000
Subject: [PATCH 88/99] fix: passes of an orbit that does not start at the
 southernmost latitude

calculate_orbit kept only the extremal points of the ephemeris when its first
latitude was between -40 and 40 degrees, and never moved the first point of the
orbit to the beginning of pass 1: the condition was always true. The passes were
merged, and the positions several degrees away from the ephemeris.
---
 src/pyinterp/orbit.py | 13 +------------
 1 file changed, 1 insertion(+), 12 deletions(-)

diff --git a/src/pyinterp/orbit.py b/src/pyinterp/orbit.py
index 3a15ff1..52a4dcc 100644
--- a/src/pyinterp/orbit.py
+++ b/src/pyinterp/orbit.py
@@ -120,7 +120,7 @@ def _rearrange_orbit(
     indexes = numpy.where((dy < 0) & (numpy.roll(dy, 1) >= 0))[0]
 
     # If the orbit is already starting from pass 1, nothing to do
-    if indexes[0] < int(indexes.mean()):
+    if indexes[0] <= 1:
         return lon, lat, time
 
     # Shift coordinates, so that the first point of the orbit is the beginning
@@ -450,17 +450,6 @@ def calculate_orbit(
     """
     wgs = geodetic.Coordinates(spheroid)
 
-    # If the first point of the given orbit starts at the equator, we need to
-    # skew this first pass.
-    if -40 <= lat_nadir[0] <= 40:
-        dy = numpy.roll(lat_nadir, 1) - lat_nadir
-        indexes = numpy.where(((dy < 0) & (numpy.roll(dy, 1) >= 0))
-                              | ((dy > 0)
-                                 & (numpy.roll(dy, 1) <= 0)))[0]
-        lat_nadir = lat_nadir[indexes[1:]]
-        lon_nadir = lon_nadir[indexes[1:]]
-        time = time[indexes[1:]]
-
     # The longitudes of the user are not modified
     lon_nadir = geodetic.normalize_longitudes(numpy.array(lon_nadir))
     time = time.astype('m8[ns]')
-- 
2.43.0


From 88b1e28477dace491332de6b5959c404aa02271e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:36 +0000
Subject: [PATCH 89/99] fix: position of the satellite at the equator

The index of the two points surrounding the equator were not sorted when the
nearest point to the equator is the first of the pass (IndexError), and the
intersection with the equator of a descending pass was outside the segment
crossing it.
---
 src/pyinterp/orbit.py | 35 ++++++++++++-----------------------
 1 file changed, 12 insertions(+), 23 deletions(-)

diff --git a/src/pyinterp/orbit.py b/src/pyinterp/orbit.py
index 52a4dcc..a91c15c 100644
--- a/src/pyinterp/orbit.py
+++ b/src/pyinterp/orbit.py
@@ -387,40 +387,29 @@ def _equator_properties(lon_nadir: NDArray, lat_nadir: NDArray,
 
     # Search the nearest point to the equator
     i1 = (numpy.abs(lat_nadir)).argmin()
-    i0 = i1 - 1 if i1 > 0 else 1
+    i0, i1 = (i1 - 1, i1) if i1 > 0 else (0, 1)
     if lat_nadir[i0] * lat_nadir[i1] > 0:
         i0, i1 = (i1, i1 + 1) if i1 < lat_nadir.size - 1 else (i1 - 1, i1)
     lon1 = lon_nadir[i0:i1 + 1]
     lat1 = lat_nadir[i0:i1 + 1]
 
-    # Calculate the position of the satellite at the equator
-    intersection = geodetic.LineString(
-        lon1,
-        lat1,
-    ).intersection(
-        geodetic.LineString(numpy.array([lon1[0] - 0.5, lon1[1] + 0.5]),
-                            numpy.array([0, 0], dtype='float64')))
-    if len(intersection) == 0:
+    # The satellite does not cross the equator
+    if lat1[0] * lat1[1] > 0:
         return EquatorCoordinates.undefined()
 
-    point = intersection[0]
+    # Fraction of the segment, which crosses the equator, traveled when the
+    # satellite is at the equator
+    delta = lat1[1] - lat1[0]
+    weight = -lat1[0] / delta if delta != 0 else 0.0
 
-    # Calculate the time of the point on the equator
-    lon1 = numpy.insert(lon1, 1, point.lon)
-    lat1 = numpy.insert(lat1, 1, 0)
-    x_al = geodetic.LineString(
-        lon1,
-        lat1,
-    ).curvilinear_distance(strategy='thomas')
-
-    # Pop the along track distance at the equator
-    x_eq = x_al[1]
-    x_al = numpy.delete(x_al, 1)
+    # The segment may cross the 180th meridian
+    lon_eq = geodetic.normalize_longitudes(
+        numpy.array([lon1[1] - lon1[0]]))[0] * weight + lon1[0]
 
     return EquatorCoordinates(
-        point.lon,
+        float(geodetic.normalize_longitudes(numpy.array([lon_eq]))[0]),
         numpy.interp(  # type: ignore[arg-type]
-            x_eq, x_al, time[i0:i1 + 1].astype('i8')).astype(time.dtype),
+            weight, [0, 1], time[i0:i1 + 1].astype('i8')).astype(time.dtype),
     )
 
 
-- 
2.43.0


From 7f7f43f24990ec1c5c2f3a4250f9bab60a155f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:36 +0000
Subject: [PATCH 90/99] fix: decode the absolute pass numbers before the first
 cycle

The number of the cycle was truncated toward zero, whereas encoding is defined
for every cycle, and rounded to a float.
---
 src/pyinterp/orbit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyinterp/orbit.py b/src/pyinterp/orbit.py
index a91c15c..5823276 100644
--- a/src/pyinterp/orbit.py
+++ b/src/pyinterp/orbit.py
@@ -233,8 +233,8 @@ class Orbit:
             tuple: cycle and pass number
         """
         number -= 1
-        return (int(number / self.passes_per_cycle()) + 1,
-                (number % self.passes_per_cycle()) + 1)
+        return (number // self.passes_per_cycle() + 1,
+                number % self.passes_per_cycle() + 1)
 
     def encode_absolute_pass_number(self, cycle_number: int,
                                     pass_number: int) -> int:
-- 
2.43.0


From f47b470fd9c474d7f32e9f3da23b309dfb8a8651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:36 +0000
Subject: [PATCH 91/99] fix: iterate over the passes from 1970-01-01

The epoch, which is false, was replaced by the current date.
---
 src/pyinterp/orbit.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pyinterp/orbit.py b/src/pyinterp/orbit.py
index 5823276..ca5f7d2 100644
--- a/src/pyinterp/orbit.py
+++ b/src/pyinterp/orbit.py
@@ -278,8 +278,9 @@ class Orbit:
             iterator: An iterator for all passes in the interval pointing to
             the cycle number, pass number and start date of the half-orbit.
         """
-        date = first_date or numpy.datetime64('now')
-        last_date = last_date or date + self.cycle_duration()
+        date = numpy.datetime64('now') if first_date is None else first_date
+        if last_date is None:
+            last_date = date + self.cycle_duration()
         while date <= last_date:
             cycle_number, pass_number = self.decode_absolute_pass_number(
                 absolute_pass_number)
-- 
2.43.0


From 3cf6fe36358073c689c4529a12d597ec4112f393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:48 +0000
Subject: [PATCH 92/99] fix: distances across track of the swath

They were built from the along track resolution, and a null gap was replaced by
the default one.
---
 src/pyinterp/orbit.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/pyinterp/orbit.py b/src/pyinterp/orbit.py
index ca5f7d2..1d7d830 100644
--- a/src/pyinterp/orbit.py
+++ b/src/pyinterp/orbit.py
@@ -582,16 +582,18 @@ def calculate_swath(
     Returns:
         The properties of the pass.
     """
-    across_track_resolution = across_track_resolution or 2.0
-    along_track_resolution = along_track_resolution or 2
-    half_swath = half_swath or 70.0
-    half_gap = half_gap or 2.0
+    if across_track_resolution is None:
+        across_track_resolution = 2.0
+    if half_swath is None:
+        half_swath = 70.0
+    if half_gap is None:
+        half_gap = 2.0
 
     # Compute across track distances from nadir
     # Number of points in half of the swath
     half_swath = int((half_swath - half_gap) / across_track_resolution) + 1
     x_ac = numpy.arange(half_swath,
-                        dtype=float) * along_track_resolution + half_gap
+                        dtype=float) * across_track_resolution + half_gap
     x_ac = numpy.hstack((-numpy.flip(x_ac), x_ac)) * 1e3
     x_ac = numpy.full((len(half_orbit), x_ac.size), x_ac)
 
-- 
2.43.0


From 6ba84830e5ce04602f7aba7070d196e40753b886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:48 +0000
Subject: [PATCH 93/99] fix: swath of a pass of less than three points

The blocks of the centered differences had a negative size: reads and writes out
of bounds.
---
 .../core/include/pyinterp/detail/math/orbit.hpp   | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/pyinterp/core/include/pyinterp/detail/math/orbit.hpp b/src/pyinterp/core/include/pyinterp/detail/math/orbit.hpp
index 7d0a401..2275094 100644
--- a/src/pyinterp/core/include/pyinterp/detail/math/orbit.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/math/orbit.hpp
@@ -7,6 +7,7 @@
 #include <Eigen/Geometry>
 #include <cmath>
 #include <limits>
+#include <stdexcept>
 #include <tuple>
 
 #include "pyinterp/detail/math.hpp"
@@ -18,6 +19,20 @@ template <typename T>
 auto satellite_direction(const Eigen::Matrix<T, Eigen::Dynamic, 3>& location)
     -> Eigen::Matrix<T, Eigen::Dynamic, 3> {
   auto result = Eigen::Matrix<T, Eigen::Dynamic, 3>(location.rows(), 3);
+
+  // The centered differences are defined from three positions.
+  if (location.rows() < 3) {
+    if (location.rows() == 1) {
+      throw std::invalid_argument(
+          "the direction of the satellite is undefined for a single position");
+    }
+    if (location.rows() == 2) {
+      result.row(0) = location.row(1) - location.row(0);
+      result.row(1) = result.row(0);
+    }
+    return result;
+  }
+
   auto denominator = location.block(1, 0, location.rows() - 2, 3)
                          .array()
                          .pow(2)
-- 
2.43.0


From 22002e324469ee2af18ce19c06bcb2e72a3c4ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:34 +0000
Subject: [PATCH 94/99] fix: interpolated latitudes of an orbit

The norm was computed from the flattened coordinates, but z was divided by the
flattening: each interpolation moved the orbit by 0.1 degree (10 km) toward the
equator, even at the positions of the ephemeris.
---
 src/pyinterp/orbit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyinterp/orbit.py b/src/pyinterp/orbit.py
index 1d7d830..7ff06b9 100644
--- a/src/pyinterp/orbit.py
+++ b/src/pyinterp/orbit.py
@@ -86,10 +86,10 @@ def interpolate(
         bounds_error=False,
     )
 
-    r /= numpy.sqrt(x * x + y * y + z * z)
+    r /= numpy.sqrt(x * x + y * y + z * z * mz * mz)
     x *= r
     y *= r
-    z *= r * (1 / mz)
+    z *= r
 
     lon, lat, _ = wgs.ecef_to_lla(x, y, z)
 
-- 
2.43.0


From 6e4f77ba8227b28d33ea0dca8c0c3ca40f2b06d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:09 +0000
Subject: [PATCH 95/99] fix: the WKT representation of geometries is the
 shortest that keeps their coordinates

---
 src/pyinterp/core/module/geodetic.cpp | 30 ++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/src/pyinterp/core/module/geodetic.cpp b/src/pyinterp/core/module/geodetic.cpp
index ba757a3..c826488 100644
--- a/src/pyinterp/core/module/geodetic.cpp
+++ b/src/pyinterp/core/module/geodetic.cpp
@@ -7,6 +7,12 @@
 #include <pybind11/pybind11.h>
 #include <pybind11/stl.h>
 
+#include <algorithm>
+#include <limits>
+#include <locale>
+#include <sstream>
+#include <string>
+
 #include "pyinterp/geodetic/algorithm.hpp"
 #include "pyinterp/geodetic/box.hpp"
 #include "pyinterp/geodetic/coordinates.hpp"
@@ -39,11 +45,33 @@ static inline auto parse_distance_strategy(const std::string &strategy)
   throw std::invalid_argument("Invalid strategy: " + strategy);
 }
 
+/// Writes numbers with the digits required to read back the same numbers.
+class RoundTrip : public std::num_put<char> {
+ protected:
+  auto do_put(iter_type out, std::ios_base & /* ios */, char_type /* fill */,
+              const double value) const -> iter_type override {
+    auto digits = std::string();
+    for (auto precision = std::numeric_limits<double>::digits10 - 9;
+         precision <= std::numeric_limits<double>::max_digits10; ++precision) {
+      auto ss = std::stringstream();
+      auto read = double();
+      ss.imbue(std::locale::classic());
+      ss.precision(precision);
+      ss << value;
+      digits = ss.str();
+      if (ss >> read && read == value) {
+        break;
+      }
+    }
+    return std::copy(digits.begin(), digits.end(), out);
+  }
+};
+
 /// Returns the WKT representation of a geometry, without loss of precision.
 template <typename Geometry>
 static inline auto to_wkt(const Geometry &geometry) -> std::string {
   auto ss = std::stringstream();
-  ss.precision(std::numeric_limits<double>::max_digits10);
+  ss.imbue(std::locale(std::locale::classic(), new RoundTrip));
   ss << boost::geometry::wkt(geometry);
   return ss.str();
 }
-- 
2.43.0


From fa0e81864342e979c2691cbce562a0c66642efeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:16 +0000
Subject: [PATCH 96/99] fix: statistics of dask arrays along axes that keep the
 divided dimension

The statistics of the blocks were merged even if the axis divided in blocks
was kept, and weights of other blocks than those of the values were refused.
---
 src/pyinterp/statistics/descriptive_descriptive.py | 10 ++++++++++
 src/pyinterp/statistics/streaming_histogram.py     | 10 ++++++++++
 2 files changed, 20 insertions(+)

diff --git a/src/pyinterp/statistics/descriptive_descriptive.py b/src/pyinterp/statistics/descriptive_descriptive.py
index bfdf3e1..e8770fa 100644
--- a/src/pyinterp/statistics/descriptive_descriptive.py
+++ b/src/pyinterp/statistics/descriptive_descriptive.py
@@ -36,6 +36,16 @@ def _delayed(
     if weights is not None and values.shape != weights.shape:
         raise ValueError('values and weights must have the same shape')
 
+    if axis is not None:
+        axis = tuple(axis)
+        if 0 not in axis:
+            # The statistics of the blocks are merged: the blocks cannot
+            # divide an axis that is kept.
+            values = values.rechunk({0: -1})
+    if weights is not None:
+        # The blocks are aligned by their positions.
+        weights = weights.rechunk(values.chunks)
+
     def _process_block(attr, x, w, axis):
         instance = getattr(core, attr)(values=x, weights=w, axis=axis)
         return numpy.array([instance], dtype='object')
diff --git a/src/pyinterp/statistics/streaming_histogram.py b/src/pyinterp/statistics/streaming_histogram.py
index ef5f4be..7ff018c 100644
--- a/src/pyinterp/statistics/streaming_histogram.py
+++ b/src/pyinterp/statistics/streaming_histogram.py
@@ -36,6 +36,16 @@ def _delayed(
     if weights is not None and values.shape != weights.shape:
         raise ValueError('values and weights must have the same shape')
 
+    if axis is not None:
+        axis = tuple(axis)
+        if 0 not in axis:
+            # The statistics of the blocks are merged: the blocks cannot
+            # divide an axis that is kept.
+            values = values.rechunk({0: -1})
+    if weights is not None:
+        # The blocks are aligned by their positions.
+        weights = weights.rechunk(values.chunks)
+
     def _process_block(attr, x, w, axis, bin_count):
         instance = getattr(core, attr)(values=x,
                                        weights=w,
-- 
2.43.0


From 7855188322a9ae3c7c767325288bdbfa11e29b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:16 +0000
Subject: [PATCH 97/99] fix: coordinates without dimension of Cartesian
 labelled arrays

---
 src/pyinterp/backends/xarray.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyinterp/backends/xarray.py b/src/pyinterp/backends/xarray.py
index 84539d8..6fceda6 100644
--- a/src/pyinterp/backends/xarray.py
+++ b/src/pyinterp/backends/xarray.py
@@ -93,8 +93,9 @@ def _dims_from_data_array(data_array: xr.DataArray,
             f'{ndims}, found {size}.')
 
     if not geodetic:
+        # The coordinates that are not dimensions do not define axes.
         return tuple(  # type: ignore[return-value]
-            data_array.coords)[:2]
+            item for item in data_array.coords if item in data_array.dims)[:2]
 
     ident = AxisIdentifier(data_array)
     lon = ident.longitude()
-- 
2.43.0


From 81b6e434a0f2098506dccda78fd1568de30d47f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:16 +0000
Subject: [PATCH 98/99] fix: order of the Z and U axes of 4D labelled arrays

The order was that of a set: it changed from a run to another, and z_method
and u_method were applied to any of both axes.
---
 src/pyinterp/backends/xarray.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyinterp/backends/xarray.py b/src/pyinterp/backends/xarray.py
index 6fceda6..93b5793 100644
--- a/src/pyinterp/backends/xarray.py
+++ b/src/pyinterp/backends/xarray.py
@@ -348,7 +348,8 @@ class Grid4D(grid.Grid4D):
                  increasing_axes: bool = False,
                  geodetic: bool = True):
         x, y = _dims_from_data_array(data_array, geodetic, ndims=4)
-        z, u = tuple(set(data_array.dims) - {x, y})
+        # The Z and U axes are the other dimensions, in their order.
+        z, u = (item for item in data_array.dims if item not in (x, y))
 
         # Should the grid manage a time axis?
         self._datetime64 = None
-- 
2.43.0


From 0fd31de324f7444ead985f115a3db4b359207125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:16 +0000
Subject: [PATCH 99/99] fix: durations as an axis of 4D labelled arrays, as in
 3D

---
 src/pyinterp/backends/xarray.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyinterp/backends/xarray.py b/src/pyinterp/backends/xarray.py
index 93b5793..708614d 100644
--- a/src/pyinterp/backends/xarray.py
+++ b/src/pyinterp/backends/xarray.py
@@ -354,11 +354,11 @@ class Grid4D(grid.Grid4D):
         # Should the grid manage a time axis?
         self._datetime64 = None
         dtype = data_array.coords[z].dtype
-        if 'datetime64' in dtype.name:
+        if 'datetime64' in dtype.name or 'timedelta64' in dtype.name:
             self._datetime64 = z, core.TemporalAxis(
                 data_array.coords[z].values)
         dtype = data_array.coords[u].dtype
-        if 'datetime64' in dtype.name:
+        if 'datetime64' in dtype.name or 'timedelta64' in dtype.name:
             if self._datetime64 is not None:
                 raise ValueError('unable to handle two time axes')
             self._datetime64 = u, core.TemporalAxis(
-- 
2.43.0

