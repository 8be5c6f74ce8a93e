From ceef5ffde7fbd307283ad6f3fcc25a5b6d23ab5c Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 05:10:33 +0000
Subject: [PATCH 01/46] fix: clip map data limits to the map data type without
 overflow

A 64 bit integer map without an explicit maximum refused all data since
the largest 64 bit integer, rounded up when converted to double, does not
fit when cast back.  A minimum above (or maximum below) what the data
type can hold wrapped around to an unrelated limit.
---
 lib/marc/Map_traits.h | 36 +++++++++++++++++++++++++++++++++---
 lib/marc/extrema.h    |  7 ++++++-
 2 files changed, 39 insertions(+), 4 deletions(-)

diff --git a/lib/marc/Map_traits.h b/lib/marc/Map_traits.h
index 31cd15f..68a9d8c 100644
--- a/lib/marc/Map_traits.h
+++ b/lib/marc/Map_traits.h
@@ -14,6 +14,7 @@
 
 #include <limits>
 #include <algorithm>
+#include <stdexcept>
 
 
 /**
@@ -76,13 +77,29 @@ namespace MaRC
          *
          * @return Minimum value that is greater than or equal to the
          *         minimum valid value for the given map data type.
+         *
+         * @throw std::invalid_argument No value of the map data type is
+         *                              greater than or equal to @a m.
          */
         static T minimum(double m)
         {
             constexpr double type_min = std::numeric_limits<T>::lowest();
+            constexpr double type_max = std::numeric_limits<T>::max();
+
+            // Casting a value that is out of range is undefined.
+            if (m > type_max)
+                throw std::invalid_argument(
+                    "Minimum is greater than the largest value the map "
+                    "data type can hold.");
 
             // Return the larger of the two minimums.
-            return std::max(m, type_min);
+            if (m <= type_min)
+                return std::numeric_limits<T>::lowest();
+
+            // The type maximum may have been rounded up when converted
+            // to double, in which case it could not be cast back.
+            return m < type_max
+                ? static_cast<T>(m) : std::numeric_limits<T>::max();
         }
 
         /**
@@ -100,13 +117,26 @@ namespace MaRC
          *
          * @return Maximum value that is less than or equal to the
          *         maximum valid value for the given map data type.
+         *
+         * @throw std::invalid_argument No value of the map data type is
+         *                              less than or equal to @a m.
          */
         static T maximum(double m)
         {
+            constexpr double type_min = std::numeric_limits<T>::lowest();
             constexpr double type_max = std::numeric_limits<T>::max();
 
-            // Return the smaller of the two maximums.
-            return std::min(m, type_max);
+            // Casting a value that is out of range is undefined.
+            if (m < type_min)
+                throw std::invalid_argument(
+                    "Maximum is less than the smallest value the map "
+                    "data type can hold.");
+
+            // Return the smaller of the two maximums.  The type maximum
+            // may have been rounded up when converted to double, in
+            // which case it could not be cast back.
+            return m < type_max
+                ? static_cast<T>(m) : std::numeric_limits<T>::max();
         }
     };
 
diff --git a/lib/marc/extrema.h b/lib/marc/extrema.h
index 21e38aa..889f758 100644
--- a/lib/marc/extrema.h
+++ b/lib/marc/extrema.h
@@ -128,7 +128,12 @@ namespace MaRC
         /// Is value @a v in range of the extrema?
         template <typename U>
         bool in_range(U v) const {
-            return v >= this->minimum_ && v <= this->maximum_;
+            // Extrema of 64 bit integer type cannot always be exactly
+            // represented by a double, the common type of U and T in
+            // that case.
+            long double const value = v;
+
+            return value >= this->minimum_ && value <= this->maximum_;
         }
 
         /// Is the current pair of extrema valid?
-- 
2.43.0


From 709ffd9f575979d0b9fc13eed63ea3016520e96a Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 05:10:33 +0000
Subject: [PATCH 02/46] fix: update unset extrema from other extrema

extrema<>::update(extrema) never set a minimum that was not set before,
and the mosaic image factory dereferenced it.
---
 lib/marc/extrema.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/marc/extrema.h b/lib/marc/extrema.h
index 889f758..4efc604 100644
--- a/lib/marc/extrema.h
+++ b/lib/marc/extrema.h
@@ -187,10 +187,12 @@ namespace MaRC
              * @todo Should we validate @c e.minimum_ and
              *       @c e.maximum_ as is done in the constructor?
              */
-            if (e.minimum_ && *e.minimum_ < this->minimum_)
+            if (e.minimum_
+                && (!this->minimum_ || *e.minimum_ < *this->minimum_))
                 this->minimum_ = *e.minimum_;
 
-            if (e.maximum_ && *e.maximum_ > this->maximum_)
+            if (e.maximum_
+                && (!this->maximum_ || *e.maximum_ > *this->maximum_))
                 this->maximum_ = *e.maximum_;
         }
 
-- 
2.43.0


From 09cd09c77418a73080eb925af9415045990e59d5 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 05:17:53 +0000
Subject: [PATCH 03/46] fix: sign of linear coefficient in orthographic line of
 sight equation

The quadratic solved for the line of sight's intersection with the body
did not match the rotation applied to the result, so that orthographic
maps of oblate bodies seen from off the equator were distorted.
---
 lib/marc/Orthographic.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/marc/Orthographic.cpp b/lib/marc/Orthographic.cpp
index f660d5c..c7af384 100644
--- a/lib/marc/Orthographic.cpp
+++ b/lib/marc/Orthographic.cpp
@@ -348,7 +348,7 @@ MaRC::Orthographic::plot_map(std::size_t samples,
             }
 
             double const CB =
-                diff * zz * std::sin(2 * this->sub_observ_lat_);
+                -diff * zz * std::sin(2 * this->sub_observ_lat_);
             double const CC =
                 a2 * zz * zz + c2 * x * x - a2 * c2 - diff *
                 zz * zz * std::pow(std::sin(this->sub_observ_lat_), 2);
-- 
2.43.0


From e7b346edcbe1974cb9cb135eb96b55f25a72654e Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 05:39:19 +0000
Subject: [PATCH 04/46] fix: convergence of bracketed root finding

The bracketing root finder gave up although the root was bracketed when
the absolute convergence criterion could not be met (e.g. roots larger
than 4), when rounding errors in the derivative kept it from settling, or
when the initial guess was the root.  Polar stereographic maps of some
bodies could not be made.
---
 lib/marc/root_find.cpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/lib/marc/root_find.cpp b/lib/marc/root_find.cpp
index 0bef16f..08bb877 100644
--- a/lib/marc/root_find.cpp
+++ b/lib/marc/root_find.cpp
@@ -53,7 +53,7 @@ namespace
         constexpr int epsilons = 2;
         constexpr auto e =
             epsilons * std::numeric_limits<double>::epsilon();
-        auto const h = (x < 1 ? e : e * x);
+        auto const h = (std::abs(x) < 1 ? e : e * std::abs(x));
 
         // Center divided difference numerical method of computing
         // the first derivative.
@@ -232,11 +232,17 @@ MaRC::root_find(double y,
     constexpr int max_iterations = 100;
 
     for (int i = 0; i < max_iterations; ++i) {
+        // Done, even if the (numerical) derivative happens to be zero.
+        if (y0 == y)
+            return x0;
+
         double const df = first_derivative(x0, f);
 
-        // Bisect if Newtown-Raphson is out of range or not
-        // decreasing fast enough.
-        if (((x0 - xh) * df - y0 + y) * ((x0 - xl) * df - y0 + y) > 0
+        // Bisect if Newtown-Raphson is out of range, not decreasing
+        // fast enough, or has not converged by now, i.e. is only
+        // chasing rounding errors in the derivative.
+        if (i >= max_iterations / 3
+            || ((x0 - xh) * df - y0 + y) * ((x0 - xl) * df - y0 + y) > 0
             || std::abs(2 * (y0 - y)) > std::abs(dxold * df)){
             dxold = dx;
             dx = (xh - xl) / 2;
@@ -255,9 +261,10 @@ MaRC::root_find(double y,
             //             i, dx, df, x0, y0, y);
         }
 
-        // Convergence criterion.
+        // Convergence criteria.  The spacing between floating point
+        // values is larger than any fixed epsilon for large roots.
         constexpr int epsilons = 2;
-        if (MaRC::almost_zero(dx, epsilons))
+        if (MaRC::almost_zero(dx, epsilons) || is_almost_equal(x0, x0 + dx))
             return x0;
 
         y0 = f(x0);
-- 
2.43.0


From a85cfabe29b5cb0dab7e456ad220a08323391e12 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 05:50:51 +0000
Subject: [PATCH 05/46] fix: quadratic with a double root at zero yielded NaN

---
 lib/marc/Mathematics.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/marc/Mathematics.h b/lib/marc/Mathematics.h
index 55569ad..f0fc2e9 100644
--- a/lib/marc/Mathematics.h
+++ b/lib/marc/Mathematics.h
@@ -195,7 +195,7 @@ namespace MaRC
             -(b + sgn(b) * std::sqrt(discriminant)) / 2;
 
         roots.first  = q / a;
-        roots.second = c / q;
+        roots.second = (q == 0 ? q : c / q); // Both b and c may be zero.
 
         return true;
     }
-- 
2.43.0


From 68e3a323e2521f9d8d23dfaff188f6d0952e205c Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 05:50:51 +0000
Subject: [PATCH 06/46] fix: accept tangent and receding lines in
 ellipse_intersection

---
 lib/marc/OblateSpheroid.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/lib/marc/OblateSpheroid.cpp b/lib/marc/OblateSpheroid.cpp
index 3a021a0..137ff90 100644
--- a/lib/marc/OblateSpheroid.cpp
+++ b/lib/marc/OblateSpheroid.cpp
@@ -13,6 +13,7 @@
 #include "Mathematics.h"
 #include "config.h"  // For NDEBUG.
 
+#include <algorithm>
 #include <stdexcept>
 #include <cmath>
 #include <cassert>
@@ -299,13 +300,13 @@ MaRC::OblateSpheroid::ellipse_intersection(DVector const & vec,
     //   //  if (std::abs(k.first) < std::abs(k.second))
     //     k.second = k.first;
 
-    // Use k.second as solution
+    // Use the intersection closest to the observer as solution.  Both
+    // are the same if the line is tangent to the ellipsoid.
+    double const nearest = std::min(k.first, k.second);
 
-    assert(k.second < k.first);
-
-    double const x = vec[0] + k.second * dvec[0];
-    double const y = vec[1] + k.second * dvec[1];
-    double const z = vec[2] + k.second * dvec[2];
+    double const x = vec[0] + nearest * dvec[0];
+    double const y = vec[1] + nearest * dvec[1];
+    double const z = vec[2] + nearest * dvec[2];
 
     lat = std::atan(z / std::hypot(x, y));
     lon = std::atan2(x, -y);
-- 
2.43.0


From 8a3d60742968ad677a209eab70b1d1a623372b01 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 05:59:25 +0000
Subject: [PATCH 07/46] fix: orient camera toward latitude/longitude given at
 optical axis

---
 lib/marc/ViewingGeometry.cpp | 66 +++++++-----------------------------
 1 file changed, 12 insertions(+), 54 deletions(-)

diff --git a/lib/marc/ViewingGeometry.cpp b/lib/marc/ViewingGeometry.cpp
index b44a761..5f6e8ae 100644
--- a/lib/marc/ViewingGeometry.cpp
+++ b/lib/marc/ViewingGeometry.cpp
@@ -494,7 +494,7 @@ MaRC::ViewingGeometry::rot_matrices(DVector const & range_o,
 
 // Get rotation matrices for case when lat/lon at optical axis were given
 void
-MaRC::ViewingGeometry::rot_matrices(DVector const & range_b,
+MaRC::ViewingGeometry::rot_matrices(DVector const & /* range_b */,
                                     DVector const & OA,
                                     DMatrix & observ2body,
                                     DMatrix & body2observ)
@@ -510,8 +510,6 @@ MaRC::ViewingGeometry::rot_matrices(DVector const & range_b,
     // magnitudes since they're both unit vectors (magnitudes of 1).
     double const dotProd = MaRC::dot_product(body_north, UnitOpticalAxis);
 
-    double SubLatMod[2];
-
     /**
      * @todo Shouldn't this be @c (C::pi_2 @c - @c std::acos(dotProd)) ?
      */
@@ -521,22 +519,18 @@ MaRC::ViewingGeometry::rot_matrices(DVector const & range_b,
           asin(-cos(x)) = -(x + pi/2)
           x = pi/2 - asin(-cos(x))
      */
-    // Try first possibility
-    SubLatMod[0] = std::asin(-dotProd);  // Angle between equatorial
-                                         // plane and OA.
-
-    DVector rotated;
-    Geometry::RotX(-SubLatMod[0], range_b, rotated);
-    DVector R_b = rotated;
+    // Angle between equatorial plane and OA.
+    double const SubLatMod = std::asin(-dotProd);
 
-    double const Ztwist1 = std::atan2(R_b[0], -R_b[1]);
+    // Angle between the plane containing the sub-observer meridian and
+    // the one containing the optical axis.
+    double const Ztwist = std::atan2(OA[0], OA[1]);
 
     // Observer to body transformation
-    DMatrix o2b(Geometry::RotZMatrix(Ztwist1)
-                * (Geometry::RotXMatrix(SubLatMod[0])
-                   * Geometry::RotYMatrix(-this->position_angle_)));
-
-    observ2body = o2b;
+    observ2body =
+        Geometry::RotZMatrix(Ztwist)
+        * (Geometry::RotXMatrix(SubLatMod)
+           * Geometry::RotYMatrix(-this->position_angle_));
 
     // OA_O is the optical axis vector in observer coordinates.
     DVector const OA_O(0,
@@ -546,43 +540,7 @@ MaRC::ViewingGeometry::rot_matrices(DVector const & range_b,
                        OA.magnitude(),
                        0);
 
-    double diff_magnitude = (OA - o2b * OA_O).magnitude();
-
-    /**
-     * @todo This seems like a hack.  Why do we need to check a second
-     *       value?  There should only be one value with this approach
-     *       since.
-     */
-    // Try second possibility
-    SubLatMod[1] = C::pi - SubLatMod[0];
-    Geometry::RotX(-SubLatMod[1], range_b, rotated);
-    R_b = rotated;
-
-    double const Ztwist2 = std::atan2(R_b[0], -R_b[1]);
-
-    // Observer to body transformation
-    o2b =
-        Geometry::RotZMatrix(Ztwist2)
-        * (Geometry::RotXMatrix(SubLatMod[1])
-           * Geometry::RotYMatrix(-this->position_angle_));
-
-#ifndef NDEBUG
-    double Ztwist, SubLatModified;
-#endif  /* !NDEBUG */
-
-    double const diffmag = (OA - o2b * OA_O).magnitude();
-    if (diff_magnitude > diffmag) {
-        diff_magnitude = diffmag;
-        observ2body = o2b;
-
-#ifndef NDEBUG
-        SubLatModified = SubLatMod[1];
-        Ztwist = Ztwist2;
-    } else {
-        SubLatModified = SubLatMod[0];
-        Ztwist = Ztwist1;
-#endif  /* !NDEBUG */
-    }
+    double const diff_magnitude = (OA - observ2body * OA_O).magnitude();
 
     double const percent_diff =
         diff_magnitude / OA_O.magnitude() * 100;
@@ -628,7 +586,7 @@ MaRC::ViewingGeometry::rot_matrices(DVector const & range_b,
                 "SubLatModified = {}\n"
                 "Ztwist = {}\n",
                 position_angle_ / C::degree,
-                SubLatModified / C::degree,
+                SubLatMod / C::degree,
                 Ztwist / C::degree);
 
     // North pole vector in camera (observer) coordinates.
-- 
2.43.0


From d07f1326232c88ccab57fd0d6efbf45449f7538a Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 05:59:25 +0000
Subject: [PATCH 08/46] fix: image to body conversion is the inverse of body to
 image conversion

---
 lib/marc/ViewingGeometry.cpp | 26 +++++++++-----------------
 1 file changed, 9 insertions(+), 17 deletions(-)

diff --git a/lib/marc/ViewingGeometry.cpp b/lib/marc/ViewingGeometry.cpp
index 5f6e8ae..567ec78 100644
--- a/lib/marc/ViewingGeometry.cpp
+++ b/lib/marc/ViewingGeometry.cpp
@@ -865,27 +865,22 @@ MaRC::ViewingGeometry::pix2latlon(double sample,
                                   double & lat,
                                   double & lon) const
 {
-    sample -= this->sample_center_;
-    line    = this->line_center_ - line; // Negative since line
-                                         // numbers increase top to
-                                         // bottom (?)
+    sample -= this->OA_s_;
+    line    = this->OA_l_ - line; // Negative since line numbers
+                                  // increase top to bottom (?)
 
     // Convert from image space to object space.
-    this->geometric_correction_->image_to_object(sample, line);
+    this->geometric_correction_->image_to_object(line, sample);
 
     // ---------------------------------------------
 
-    // Convert from observer coordinates to body coordinates
-    DVector const coord(sample, 0, line);
-
-    // Do the transformation
-    DVector rotated(this->observ2body_ * coord);
-    rotated *= this->km_per_pixel_;
+    // Vector from observer to point on image in observer coordinates.
+    DVector const coord(sample, this->focal_length_pixels_, line);
 
     // ---------------------------------------------
 
-    // Vector from observer to point on image
-    DVector const dVec(rotated - this->range_b_);
+    // Vector from observer to point on image in body coordinates.
+    DVector const dVec(this->observ2body_ * coord);
 
     int const success =
         this->body_->ellipse_intersection(this->range_b_,
@@ -896,13 +891,10 @@ MaRC::ViewingGeometry::pix2latlon(double sample,
     assert(success != -1);  // -1 == bad parameters
 
     if (success == 0) {
-        /**
-         * @todo Verify!
-         */
         if (this->body_->prograde())
             lon  = this->sub_observ_lon_ - lon;
         else
-            lon -= this->sub_observ_lon_;
+            lon += this->sub_observ_lon_;
     }
 
     return success == 0;
-- 
2.43.0


From 8271b8ac9edeb014e4f98916a2a82bd7d10ffa62 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 05:59:25 +0000
Subject: [PATCH 09/46] fix: apply geometric correction to image coordinates

---
 lib/marc/ViewingGeometry.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/lib/marc/ViewingGeometry.cpp b/lib/marc/ViewingGeometry.cpp
index 567ec78..4a57d64 100644
--- a/lib/marc/ViewingGeometry.cpp
+++ b/lib/marc/ViewingGeometry.cpp
@@ -850,12 +850,13 @@ MaRC::ViewingGeometry::latlon2pix(double lat,
     x = rotated[0] / rotated[1] * this->focal_length_pixels_;
     z = rotated[2] / rotated[1] * this->focal_length_pixels_;
 
-    // Convert from object space to image space.
-    this->geometric_correction_->object_to_image(z, x);
-
     x += this->OA_s_;
     z  = this->OA_l_ - z; // Assumes line numbers increase top to
                           // bottom.
+
+    // Convert from object space to image space.
+    this->geometric_correction_->object_to_image(z, x);
+
     return true;
 }
 
@@ -865,13 +866,13 @@ MaRC::ViewingGeometry::pix2latlon(double sample,
                                   double & lat,
                                   double & lon) const
 {
+    // Convert from image space to object space.
+    this->geometric_correction_->image_to_object(line, sample);
+
     sample -= this->OA_s_;
     line    = this->OA_l_ - line; // Negative since line numbers
                                   // increase top to bottom (?)
 
-    // Convert from image space to object space.
-    this->geometric_correction_->image_to_object(line, sample);
-
     // ---------------------------------------------
 
     // Vector from observer to point on image in observer coordinates.
-- 
2.43.0


From d89333640ed5c4bc390e78b61ccdf68576aae356 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 06:02:17 +0000
Subject: [PATCH 10/46] fix: bilinear interpolation between the four
 surrounding pixels

---
 lib/marc/BilinearInterpolation.cpp | 50 +++++++++++++-----------------
 1 file changed, 21 insertions(+), 29 deletions(-)

diff --git a/lib/marc/BilinearInterpolation.cpp b/lib/marc/BilinearInterpolation.cpp
index 91226ed..09a4936 100644
--- a/lib/marc/BilinearInterpolation.cpp
+++ b/lib/marc/BilinearInterpolation.cpp
@@ -54,35 +54,27 @@ MaRC::BilinearInterpolation::interpolate(double const * data,
         || b < this->top_  || t >= this->bottom_)
         return false;
 
-    int count = 0;
-    double tmp = 0;
-
-    if (!std::isnan(data[ob + r]) && !std::isnan(data[ob + l])) {
-        // [0][0]
-        tmp += (data[ob + r] - data[ob + l]) * (x - l) + data[ob + l];
-
-        // [1][1] =
-        tmp += (data[ob + r] - data[ob + l]) * (z - b) + data[ob + r];
-
-        count += 2;
-    }
-
-    if (!std::isnan(data[ot + r]) && !std::isnan(data[ot + l])) {
-        // [0][1]
-        tmp += (data[ot + r] - data[ot + l]) * (x - l) + data[ot + l];
-
-        ++count;
-    }
-
-    if (!std::isnan(data[ot + l]) && !std::isnan(data[ob + l])) {
-        // [1][0]
-        tmp += (data[ot + l] - data[ob + l]) * (z - b) + data[ob + l];
-
-        ++count;
-    }
-
-    if (count > 0) {
-        datum = tmp / count;
+    // Weight of each pixel in the 2x2 area.  Invalid pixels do not
+    // contribute to the interpolated value.
+    double const wr = x - l;
+    double const wt = z - b;
+    double weighted_sum = 0;
+    double weight_sum = 0;
+
+    auto const add = [&](double pixel, double weight) {
+        if (weight > 0 && !std::isnan(pixel)) {
+            weighted_sum += weight * pixel;
+            weight_sum += weight;
+        }
+    };
+
+    add(data[ob + l], (1 - wr) * (1 - wt));
+    add(data[ob + r], wr       * (1 - wt));
+    add(data[ot + l], (1 - wr) * wt);
+    add(data[ot + r], wr       * wt);
+
+    if (weight_sum > 0) {
+        datum = weighted_sum / weight_sum;
 
         return true;
     }
-- 
2.43.0


From d35a78549ece0728bc49485fc55382b49e58140b Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 06:02:17 +0000
Subject: [PATCH 11/46] fix: refuse nibble values larger than the image

---
 lib/marc/PhotoImageParameters.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/marc/PhotoImageParameters.cpp b/lib/marc/PhotoImageParameters.cpp
index 995fa95..4323cda 100644
--- a/lib/marc/PhotoImageParameters.cpp
+++ b/lib/marc/PhotoImageParameters.cpp
@@ -138,14 +138,16 @@ MaRC::PhotoImageParameters::validate_parameters(std::size_t samples,
                                                 std::size_t lines) const
 {
     // Run some sanity checks on nibbling values
-    if (samples - this->nibble_right_ <= this->nibble_left_) {
+    if (this->nibble_right_ >= samples
+        || samples - this->nibble_right_ <= this->nibble_left_) {
         throw
             std::invalid_argument(
                 "Either the left or right (or both) "
                 "nibble value is too large.");
     }
 
-    if (lines - this->nibble_top_ <= this->nibble_bottom_) {
+    if (this->nibble_top_ >= lines
+        || lines - this->nibble_top_ <= this->nibble_bottom_) {
         throw
             std::invalid_argument(
                 "Either the top or bottom (or both) "
-- 
2.43.0


From 6a8f13e27d338a8ccf4cdd3fc1a0e043db59386d Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 06:02:17 +0000
Subject: [PATCH 12/46] fix: photo validity depends on the image pixel, not on
 the caller's value

---
 lib/marc/PhotoImage.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/lib/marc/PhotoImage.cpp b/lib/marc/PhotoImage.cpp
index 9e0b53a..24759ce 100644
--- a/lib/marc/PhotoImage.cpp
+++ b/lib/marc/PhotoImage.cpp
@@ -145,22 +145,25 @@ MaRC::PhotoImage::read_data(double lat,
         || k <  this->top_
         || k >= this->bottom_
         || (!this->body_mask_.empty() && !this->body_mask_[index])
-        || std::isnan(data))
+        || std::isnan(this->image_[index]))
         return false;
 
-    data = this->image_[index];
+    // Do not alter the caller's data unless there is valid data.
+    double datum = this->image_[index];
 
     if (!config->interpolation_strategy()->interpolate(
             this->image_.data(),
             x,
             z,
-            data)
+            datum)
         || !config->photometric_correction()->correct(*this->geometry_,
-                                                      data)
-        || std::isnan(data)) {
+                                                      datum)
+        || std::isnan(datum)) {
         return false;
     }
 
+    data = datum;
+
     // Scan across image for "off-planet/image" pixels and compute
     // data weight.
     if (scan)
-- 
2.43.0


From 0a5ece17a18c805998bcefec03fe1e263575be4c Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 06:02:17 +0000
Subject: [PATCH 13/46] fix: photo weight is the distance from the closest
 masked pixel

---
 lib/marc/PhotoImage.cpp | 92 +++++++++++++++--------------------------
 lib/marc/PhotoImage.h   | 36 ++++++++--------
 2 files changed, 50 insertions(+), 78 deletions(-)

diff --git a/lib/marc/PhotoImage.cpp b/lib/marc/PhotoImage.cpp
index 24759ce..d5b8747 100644
--- a/lib/marc/PhotoImage.cpp
+++ b/lib/marc/PhotoImage.cpp
@@ -173,58 +173,47 @@ MaRC::PhotoImage::read_data(double lat,
 }
 
 void
-MaRC::PhotoImage::scan_samples(std::size_t line,
-                               std::size_t left,
-                               std::size_t right,
+MaRC::PhotoImage::scan_samples(std::size_t sample,
+                               std::size_t line,
                                double & weight) const
 {
-    // Scan across samples on given line.
+    // Scan outward from the given sample on the given line in both
+    // directions for the closest masked pixel.
 
-    auto const offset    = line * this->samples_;
-    auto       body_iter = std::cbegin(this->body_mask_) + offset;
+    auto const offset = line * this->samples_;
 
-    // Search the half-open interval [left, right).
-    auto const begin  = body_iter + left;
-    auto const end    = body_iter + right;
-    auto const result = std::find(begin, end, true);
-
-    assert(begin <= result);
-
-    // The weight is the shortest distance.
-    if (result != end)
-        weight =
-            std::min(
-                static_cast<
-                std::remove_reference<decltype(weight)>::type>(
-                    std::distance(begin, result)),
-                weight);
+    for (auto i = sample; i-- > this->left_; )
+        if (!this->body_mask_[offset + i]) {
+            weight = std::min(static_cast<double>(sample - i), weight);
+            break;
+        }
 
+    for (auto i = sample + 1; i < this->right_; ++i)
+        if (!this->body_mask_[offset + i]) {
+            weight = std::min(static_cast<double>(i - sample), weight);
+            break;
+        }
 }
 
 void
-MaRC::PhotoImage::scan_lines(std::size_t i,
-                             std::size_t top,
-                             std::size_t bottom,
+MaRC::PhotoImage::scan_lines(std::size_t sample,
+                             std::size_t line,
                              double & weight) const
 {
-    // Search the half-open interval [top, bottom).
-    auto body_iter =
-        std::cbegin(this->body_mask_) + (top * this->samples_) + i;
-
-    auto const first = top;
-    auto const last  = bottom;
-    auto       line = first;
-
-    for (; line < last && *body_iter; ++line)
-        std::advance(body_iter, this->samples_); // Sample i in next
-                                                 // line in mask.
-
-    if (line != last)
-        weight =
-            std::min(
-                static_cast<
-                std::remove_reference<decltype(weight)>::type>(line - first),
-                weight);
+    // Scan outward from the given line on the given sample in both
+    // directions for the closest masked pixel.
+
+    for (auto k = line; k-- > this->top_; )
+        if (!this->body_mask_[k * this->samples_ + sample]) {
+            weight = std::min(static_cast<double>(line - k), weight);
+            break;
+        }
+
+    for (auto k = line + 1; k < this->bottom_; ++k)
+        if (!this->body_mask_[k * this->samples_ + sample]) {
+            weight = std::min(static_cast<double>(k - line), weight);
+            break;
+        }
 }
 
 void
@@ -264,21 +253,6 @@ MaRC::PhotoImage::data_weight(std::size_t i,
     if (this->body_mask_.empty())
         return;
 
-    // -----------------------------------------------------
-
-    // Scan across the half-open interval [left, i) on line k.
-    this->scan_samples(k, this->left_, i, weight);
-
-    // Scan across the half-open interval [i, right) on line k.
-    this->scan_samples(k, i, this->right_, weight);
-
-    // -----------------------------------------------------
-
-    // Line numbers increase from top to bottom.
-
-    // Scan across the half-open interval [top, k) on sample i.
-    this->scan_lines(i, this->top_, k, weight);
-
-    // Scan across the half-open interval [k, bottom) on sample i.
-    this->scan_lines(i, k, this->bottom_, weight);
+    this->scan_samples(i, k, weight);
+    this->scan_lines(i, k, weight);
 }
diff --git a/lib/marc/PhotoImage.h b/lib/marc/PhotoImage.h
index b287dfa..10e1ef1 100644
--- a/lib/marc/PhotoImage.h
+++ b/lib/marc/PhotoImage.h
@@ -131,35 +131,33 @@ namespace MaRC
         /**
          * @brief Scan across samples for the data weight.
          *
-         * Scan samples across the given line for the data weight in
-         * the half-open interval [left, right).
+         * Scan samples to the left and right of the given pixel for
+         * the closest masked pixel.
          *
-         * @param[in]  line   Image line across which scan should
-         *                    occur.
-         * @param[in]  left   Sample at which scan should be started.
-         * @param[in]  right  Sample at which scan should be stopped.
-         * @param[out] weight Data weight for the given image line.
+         * @param[in]     sample Image sample.
+         * @param[in]     line   Image line across which scan should
+         *                       be performed.
+         * @param[in,out] weight Data weight, lowered to the distance
+         *                       from the closest masked pixel.
          */
-        void scan_samples(std::size_t line,
-                          std::size_t left,
-                          std::size_t right,
+        void scan_samples(std::size_t sample,
+                          std::size_t line,
                           double & weight) const;
 
         /**
          * @brief Scan across lines for the data weight.
          *
-         * Scan lines across the given sample for the data weight in
-         * in the half-open interval [top, bottom).
+         * Scan lines above and below the given pixel for the closest
+         * masked pixel.
          *
-         * @param[in]  sample Image sample across which scan should
-         *                    occur.
-         * @param[in]  top    Line at which scan should be started.
-         * @param[in]  bottom Line at which scan should be stopped.
-         * @param[out] weight Data weight for the given image sample.
+         * @param[in]     sample Image sample across which scan should
+         *                       be performed.
+         * @param[in]     line   Image line.
+         * @param[in,out] weight Data weight, lowered to the distance
+         *                       from the closest masked pixel.
          */
         void scan_lines(std::size_t sample,
-                        std::size_t top,
-                        std::size_t bottom,
+                        std::size_t line,
                         double & weight) const;
 
         /**
-- 
2.43.0


From f7ce474a0863fe385567c689d1b2cbbcf21a4315 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 06:03:48 +0000
Subject: [PATCH 14/46] fix: source images without data do not alter averaged
 data

---
 lib/marc/unweighted_average.cpp | 8 ++++++--
 lib/marc/weighted_average.cpp   | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/lib/marc/unweighted_average.cpp b/lib/marc/unweighted_average.cpp
index 3bb43a6..3b9834a 100644
--- a/lib/marc/unweighted_average.cpp
+++ b/lib/marc/unweighted_average.cpp
@@ -44,9 +44,13 @@ MaRC::unweighted_average::composite(list_type const & images,
     // Datum count.
     int count = 0;
 
+    // A source image without data must not alter the result.
+    double datum = 0;
+
     for (auto const & i : images) {
-        if (i->read_data(lat, lon, data)) {
-            sum += data;
+        if (i->read_data(lat, lon, datum)) {
+            sum += datum;
+            data = datum;
             ++count;
         }
     }
diff --git a/lib/marc/weighted_average.cpp b/lib/marc/weighted_average.cpp
index eea5ecf..6c68608 100644
--- a/lib/marc/weighted_average.cpp
+++ b/lib/marc/weighted_average.cpp
@@ -26,6 +26,9 @@ MaRC::weighted_average::composite(list_type const & images,
     // Datum count.
     int count = 0;
 
+    // A source image without data must not alter the result.
+    double datum = 0;
+
     for (auto const & i : images) {
         // Physical data weight.
         double weight = 1;
@@ -33,9 +36,10 @@ MaRC::weighted_average::composite(list_type const & images,
         // Scan for data weight.
         static constexpr bool scan = true;
 
-        if (i->read_data(lat, lon, data, weight, scan)) {
-            weighted_data_sum += weight * data;
+        if (i->read_data(lat, lon, datum, weight, scan)) {
+            weighted_data_sum += weight * datum;
             weight_sum += weight;
+            data = datum;
             ++count;
         }
     }
-- 
2.43.0


From f958432d872133d55b3ae925d995d19337d6d962 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 06:06:17 +0000
Subject: [PATCH 15/46] fix: data scaling for integer types fits all data
 ranges

---
 lib/marc/details/scale_and_offset.h | 45 ++++++++++++++++++++++-------
 1 file changed, 34 insertions(+), 11 deletions(-)

diff --git a/lib/marc/details/scale_and_offset.h b/lib/marc/details/scale_and_offset.h
index fb4eb59..24d658c 100644
--- a/lib/marc/details/scale_and_offset.h
+++ b/lib/marc/details/scale_and_offset.h
@@ -12,6 +12,7 @@
 #ifndef MARC_DETAILS_SCALE_AND_OFFSET_H
 #define MARC_DETAILS_SCALE_AND_OFFSET_H
 
+#include <algorithm>
 #include <limits>
 #include <cmath>
 #include <type_traits>
@@ -110,20 +111,42 @@ namespace MaRC
                     return false;
                 }
 
-                int const exponent =
-                    static_cast<int>(std::numeric_limits<T>::digits10)
-                    - static_cast<int>(std::log10(data_range));
+                // Does the data fit in type T, in full precision?
+                auto const fits = [](long double lo, long double hi) {
+                    return lo >= T_lowest && hi <= T_max;
+                };
+
+                // No less than zero to prevent complete loss of
+                // significant digits.
+                int exponent =
+                    std::max(
+                        static_cast<int>(std::numeric_limits<T>::digits10)
+                        - (data_range > 0
+                           ? static_cast<int>(std::log10(data_range))
+                           : 0),
+                        0);
+
+                // Choose the largest scale for which the data fits,
+                // with an offset only if necessary.
+                for (; exponent >= 0; --exponent) {
+                    scale = std::pow(10, exponent);
+
+                    double const lo = min * scale;
+                    double const hi = max * scale;
 
-                scale = std::pow(10, exponent);
-
-                if (min * scale < T_lowest)
-                    offset = data_range / 2 * scale;
-                else if (max * scale > T_max)
-                    offset = -data_range / 2 * scale;
-                else
                     offset = 0;
+                    if (fits(lo, hi))
+                        return true;
+
+                    // Center the data on zero, or start at zero if
+                    // there are no negative numbers.
+                    offset =
+                        std::is_signed<T>::value ? -(lo + hi) / 2 : -lo;
+                    if (fits(lo + offset, hi + offset))
+                        return true;
+                }
 
-                return true;
+                return false;
             }
         };
 
-- 
2.43.0


From c544997b78149f06bbdb76eb71234c6b2e93c536 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 06:09:45 +0000
Subject: [PATCH 16/46] fix: cosine backplanes do not abort on rounding

---
 lib/marc/CosPhaseImage.cpp | 7 +++----
 lib/marc/Mu0Image.cpp      | 7 +++----
 lib/marc/MuImage.cpp       | 7 +++----
 3 files changed, 9 insertions(+), 12 deletions(-)

diff --git a/lib/marc/CosPhaseImage.cpp b/lib/marc/CosPhaseImage.cpp
index 843149f..00d3419 100644
--- a/lib/marc/CosPhaseImage.cpp
+++ b/lib/marc/CosPhaseImage.cpp
@@ -11,9 +11,7 @@
 #include "CosPhaseImage.h"
 #include "BodyData.h"
 #include "Constants.h"
-#include "config.h"  // For NDEBUG.
-
-#include <cassert>
+#include <algorithm>
 
 
 MaRC::CosPhaseImage::CosPhaseImage(std::shared_ptr<BodyData> body,
@@ -51,7 +49,8 @@ MaRC::CosPhaseImage::read_data_i(double lat,
                                   lon,
                                   this->range_);
 
-    assert(data >= -1 && data <= 1);
+    // Rounding may push the cosine slightly out of range.
+    data = std::clamp(data, -1.0, 1.0);
 
     return true;
 }
diff --git a/lib/marc/Mu0Image.cpp b/lib/marc/Mu0Image.cpp
index a20e060..09a00ef 100644
--- a/lib/marc/Mu0Image.cpp
+++ b/lib/marc/Mu0Image.cpp
@@ -11,9 +11,7 @@
 #include "Mu0Image.h"
 #include "BodyData.h"
 #include "Constants.h"
-#include "config.h"  // For NDEBUG.
-
-#include <cassert>
+#include <algorithm>
 
 
 MaRC::Mu0Image::Mu0Image(std::shared_ptr<BodyData> body,
@@ -42,7 +40,8 @@ MaRC::Mu0Image::read_data_i(double lat, double lon, double & data) const
                             lat,
                             lon);
 
-    assert(data >= -1 && data <= 1);
+    // Rounding may push the cosine slightly out of range.
+    data = std::clamp(data, -1.0, 1.0);
 
     return true;
 }
diff --git a/lib/marc/MuImage.cpp b/lib/marc/MuImage.cpp
index 9d327ad..b727138 100644
--- a/lib/marc/MuImage.cpp
+++ b/lib/marc/MuImage.cpp
@@ -11,9 +11,7 @@
 #include "MuImage.h"
 #include "BodyData.h"
 #include "Constants.h"
-#include "config.h"  // For NDEBUG.
-
-#include <cassert>
+#include <algorithm>
 
 
 MaRC::MuImage::MuImage(std::shared_ptr<BodyData> body,
@@ -45,7 +43,8 @@ MaRC::MuImage::read_data_i(double lat, double lon, double & data) const
                            lon,
                            this->range_);
 
-    assert(data >= -1 && data <= 1);
+    // Rounding may push the cosine slightly out of range.
+    data = std::clamp(data, -1.0, 1.0);
 
     return true;
 }
-- 
2.43.0


From 8892e8bd265a5d50cad64d9e742f35733670891f Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 06:31:58 +0000
Subject: [PATCH 17/46] fix: draw simple cylindrical meridians beyond 360
 degrees of longitude

---
 lib/marc/SimpleCylindrical.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/marc/SimpleCylindrical.cpp b/lib/marc/SimpleCylindrical.cpp
index 2a230d8..c6d4705 100644
--- a/lib/marc/SimpleCylindrical.cpp
+++ b/lib/marc/SimpleCylindrical.cpp
@@ -186,6 +186,8 @@ MaRC::SimpleCylindrical::plot_grid(std::size_t samples,
 
         if (m - lo_lon > 360)
             lo_lon_2 += 360;
+        else if (m < lo_lon)
+            lo_lon_2 -= 360;
 
         decltype(samples) i = std::round((m - lo_lon_2) * sr);
 
-- 
2.43.0


From 64d05d7980229b88e848c503aa8275b07072b77a Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 06:31:58 +0000
Subject: [PATCH 18/46] fix: parallels in orthographic grids of retrograde
 bodies

---
 lib/marc/Orthographic.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/marc/Orthographic.cpp b/lib/marc/Orthographic.cpp
index c7af384..696d60d 100644
--- a/lib/marc/Orthographic.cpp
+++ b/lib/marc/Orthographic.cpp
@@ -486,7 +486,7 @@ MaRC::Orthographic::plot_lat_lines(std::size_t samples,
                 if (this->body_->prograde())
                     mm = this->sub_observ_lon_ + C::pi - mm;
                 else
-                    mm -= C::pi - this->sub_observ_lon_;
+                    mm -= C::pi + this->sub_observ_lon_;
 
                 DVector const coord = p.body2obs() * DVector(
                      radius * std::cos(nn) * std::sin(mm),
-- 
2.43.0


From 8d9fc8903c9cee9cea1c84d8beaa233278e93a88 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 06:36:58 +0000
Subject: [PATCH 19/46] fix: polar stereographic grids follow the map's scale
 and direction

---
 lib/marc/PolarStereographic.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lib/marc/PolarStereographic.cpp b/lib/marc/PolarStereographic.cpp
index ed1cd60..6236330 100644
--- a/lib/marc/PolarStereographic.cpp
+++ b/lib/marc/PolarStereographic.cpp
@@ -248,7 +248,7 @@ MaRC::PolarStereographic::plot_grid(std::size_t samples,
 
     double const rho_max =
         this->stereo_rho(this->body_->graphic_latitude(this->max_lat_));
-    double const min_dim = std::min(samples - 1, lines - 1);
+    auto const min_dim = std::min(samples, lines);
     double const pix_conv_val = 2 * rho_max / min_dim;
 
     static constexpr auto white =
@@ -289,13 +289,16 @@ MaRC::PolarStereographic::plot_grid(std::size_t samples,
         }
     }
 
+    // Meridians must run in the same direction as in the map.
+    bool const ccw = (this->north_pole_ == this->body_->prograde());
+
     // Draw longitude lines.
     for (double m = 360; m > 0; m -= lon_interval) {
         double const mm = m * C::degree;  // Convert to radians
 
         for (std::size_t n = 0; n < imax; ++n) {
             double const nn =
-                static_cast<double>(n) / imax * C::degree * 360;
+                (static_cast<double>(n) / imax * 180 - 90) * C::degree;
 
             /**
              * @bug Shouldn't we take into account the maximum
@@ -305,7 +308,7 @@ MaRC::PolarStereographic::plot_grid(std::size_t samples,
             double const rho = this->stereo_rho(nn);
 
             double const z = rho * std::cos(mm);
-            double const x = rho * std::sin(mm);
+            double const x = rho * std::sin(ccw ? mm : -mm);
 
             // if (z > rho_max || x > rho_max)
             //     continue;
-- 
2.43.0


From ebf3de680f142b87122eccb9fed40e36aa754f99 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 06:41:52 +0000
Subject: [PATCH 20/46] fix: write maps that consist of a single pixel

---
 src/FITS_image_t.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/FITS_image_t.cpp b/src/FITS_image_t.cpp
index c2d8d9c..36e9a37 100644
--- a/src/FITS_image_t.cpp
+++ b/src/FITS_image_t.cpp
@@ -91,7 +91,7 @@ template <typename T>
 bool
 MaRC::FITS::image::write(T const & img)
 {
-    if (this->fpixel_>= this->max_elements_) {
+    if (this->fpixel_ > this->max_elements_) {
         MaRC::error("FITS image array is already fully written.");
 
         return false;
-- 
2.43.0


From 002098f0ad85da4779e48704e4935e0ce0ad41da Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 06:43:29 +0000
Subject: [PATCH 21/46] fix: record user supplied data scale and offset in the
 map

---
 src/MapCommand.cpp   |  3 +++
 src/MapCommand_t.cpp | 18 +++++++-----------
 2 files changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/MapCommand.cpp b/src/MapCommand.cpp
index f86fa5c..03d97c6 100644
--- a/src/MapCommand.cpp
+++ b/src/MapCommand.cpp
@@ -125,6 +125,9 @@ MaRC::MapCommand::MapCommand(std::string filename,
         "Underlying types do not satisfy FITS data type requirements.");
 
     assert(this->parameters_);
+
+    this->transform_data_ =
+        this->parameters_->bscale() || this->parameters_->bzero();
 }
 
 int
diff --git a/src/MapCommand_t.cpp b/src/MapCommand_t.cpp
index bd5f819..048588a 100644
--- a/src/MapCommand_t.cpp
+++ b/src/MapCommand_t.cpp
@@ -83,17 +83,6 @@ MaRC::MapCommand::make_map_planes(MaRC::FITS::output_file & file)
     // Write the BSCALE and BZERO keywords and value into the map FITS
     // file.
     if (this->transform_data_) {
-        /**
-         * @bug This code is never called since @c transform_data_ is
-         *      always false.  Support for allowing the user to
-         *      specify the BSCALE and BZERO values has been broken
-         *      for years so it is better to leave this code disabled
-         *      until that is corrected.
-         *
-         * @todo Should we disable CFITSIO automatic scaling via
-         *       @c fits_set_bscale() as we do for @c VirtualImage map
-         *       planes?
-         */
         auto const bscale = this->parameters_->bscale();
         auto const bzero  = this->parameters_->bzero();
 
@@ -102,6 +91,13 @@ MaRC::MapCommand::make_map_planes(MaRC::FITS::output_file & file)
 
         if (bzero)
             map_image->bzero(*bzero);
+
+        // Record the scale and offset without having CFITSIO apply
+        // them to the data being written.
+        constexpr double internal_scale  = 1;
+        constexpr double internal_offset = 0;
+
+        map_image->internal_scale(internal_scale, internal_offset);
     }
 
     /**
-- 
2.43.0


From 8ced8d09af11c51c89504cd69b02253b36b4bec8 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 06:44:38 +0000
Subject: [PATCH 22/46] fix: signs in numeric expressions are operators

---
 src/lexer.ll |  5 +++--
 src/parse.yy | 12 ++++++++++++
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/lexer.ll b/src/lexer.ll
index 936f3f5..f13d56d 100644
--- a/src/lexer.ll
+++ b/src/lexer.ll
@@ -115,8 +115,9 @@ void yyset_column(int, yyscan_t);
         "KM"                            { return KM;  }
         "CW"                            { return CW;  }
         "CCW"                           { return CCW; }
-        [-+]?[[:digit:]]*("."[[:digit:]]*)?(E[-+]?[[:digit:]]{1,3})?  {
-            // String to number conversion occurs in the parser.
+        [[:digit:]]*("."[[:digit:]]*)?(E[-+]?[[:digit:]]{1,3})?  {
+            // String to number conversion, as well as sign handling,
+            // occurs in the parser.
             yyget_lval(yyscanner)->sval = strdup(yyget_text(yyscanner));
 
             return NUM;
diff --git a/src/parse.yy b/src/parse.yy
index 5255004..f3be821 100644
--- a/src/parse.yy
+++ b/src/parse.yy
@@ -870,6 +870,17 @@ integer: NUM {
             if (!from_string($1, $$))
                 YYERROR;
         }
+        | '+' NUM {
+            auto_free<char> str($2);
+            if (!from_string($2, $$))
+                YYERROR;
+        }
+        | '-' NUM {
+            auto_free<char> str($2);
+            std::string const num(std::string("-") + $2);
+            if (!from_string(num.c_str(), $$))
+                YYERROR;
+        }
 
 size:   integer { $$ = $1; }
 ;
@@ -2151,6 +2162,7 @@ expr:   NUM {
             }
         }
         | '-' expr  %prec NEG   { $$ = -$2;                        }
+        | '+' expr  %prec NEG   { $$ = $2;                         }
         | expr '^' expr         { $$ = std::pow($1, $3);           }
         | '(' expr ')'          { $$ = $2;                         }
 ;
-- 
2.43.0


From e45410b821cc267cd70cd37d9a2ced4d11f14d88 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 06:44:38 +0000
Subject: [PATCH 23/46] fix: refuse fractions and exponents where an integer is
 expected

---
 src/parse.yy | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/parse.yy b/src/parse.yy
index f3be821..36214ea 100644
--- a/src/parse.yy
+++ b/src/parse.yy
@@ -309,6 +309,12 @@ namespace
             return false;
         }
 
+        if (*end != '\0') {
+            // e.g. a fraction or exponent where an integer is expected
+            MaRC::error("invalid number ({})", str);
+            return false;
+        }
+
         return true;
     }
 }
-- 
2.43.0


From ddb21e4f567cc8ff7c27a14514ffcb317229e519 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 06:45:52 +0000
Subject: [PATCH 24/46] fix: user configuration entries are all optional and
 applied

---
 src/parse.yy | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/parse.yy b/src/parse.yy
index 36214ea..6568cf2 100644
--- a/src/parse.yy
+++ b/src/parse.yy
@@ -545,21 +545,32 @@ map:    map_parse
 ;
 
 user_file_parse:
-        grid_intervals plane_data_range nibbling {
+        {
+          // All entries are optional.  Start with the current
+          // defaults.
+          lat_interval = pp.lat_interval;
+          lon_interval = pp.lon_interval;
+
+          minimum = pp.minimum;
+          maximum = pp.maximum;
+        }
+        user_grid_intervals plane_data_range nibbling {
           // Reset defaults to those chosen by the user.  If none were
           // chosen by the user, the values will remain unchanged.
 
           pp.lat_interval = lat_interval;
           pp.lon_interval = lon_interval;
 
-          if (!minimum)
-              pp.minimum = minimum;
-
-          if (!maximum)
-              pp.maximum = maximum;
+          pp.minimum = minimum;
+          pp.maximum = maximum;
         }
 ;
 
+user_grid_intervals:
+        %empty
+        | grid_intervals
+;
+
 map_parse:
         map_setup
         | map_setup map_parse
-- 
2.43.0


From 50e8dd1ddf129f7a23ed2ce4a74add550826ac21 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 06:48:46 +0000
Subject: [PATCH 25/46] fix: latitude type of a latitude plane does not carry
 over to later planes and maps

---
 src/parse.yy | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parse.yy b/src/parse.yy
index 6568cf2..1632139 100644
--- a/src/parse.yy
+++ b/src/parse.yy
@@ -1405,6 +1405,9 @@ lat_plane: LATITUDE ':' lat_type {
             image_factory =
                 std::make_unique<MaRC::LatitudeImageFactory>(
                     oblate_spheroid, graphic_lat);
+
+            // Reset options
+            graphic_lat = false;
            }
 ;
 
-- 
2.43.0


From 580ce344edd37fe173fc834714bd62e9289f2665 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 07:11:06 +0000
Subject: [PATCH 26/46] fix: report failures to write, checksum or close a map
 file

Write failures were logged at most, and the program exited successfully
leaving a truncated or corrupt map behind.  Write the checksums
explicitly instead of in the destructor, close the file explicitly, and
verify what ended up on disk, since CFITSIO ignores flush errors.
---
 src/FITS_file.cpp    | 64 ++++++++++++++++++++++++++++++++++++++++++++
 src/FITS_file.h      | 22 +++++++++++++--
 src/FITS_image.cpp   |  6 ++---
 src/FITS_image.h     | 11 +++++++-
 src/MapCommand.cpp   |  9 ++++++-
 src/MapCommand_t.cpp |  8 ++++--
 6 files changed, 111 insertions(+), 9 deletions(-)

diff --git a/src/FITS_file.cpp b/src/FITS_file.cpp
index eb1e71e..d1f9caa 100644
--- a/src/FITS_file.cpp
+++ b/src/FITS_file.cpp
@@ -13,6 +13,7 @@
 
 #include <marc/Log.h>
 
+#include <cstring>
 #include <limits>
 #include <type_traits>
 #include <stdexcept>
@@ -63,6 +64,45 @@ namespace MaRC
             return f;
         }
 
+        /**
+         * @brief Verify that a %FITS file was completely written.
+         *
+         * @param[in] filename      Name of the %FITS file to verify.
+         * @param[in] expected_hdus Number of HDUs the file should have.
+         *
+         * @throw std::runtime_error The %FITS file is not complete.
+         */
+        void
+        verify_fits_file(char const * filename, int expected_hdus)
+        {
+            fitsfile * fptr = nullptr;
+            int status = 0;
+
+            fits_open_diskfile(&fptr, filename, READONLY, &status);
+            FITS::throw_on_error(status);
+
+            FITS::file::shared_ptr const f(fptr, FITS::file::closer());
+
+            int hdus = 0;
+            bool verified =
+                (fits_get_num_hdus(fptr, &hdus, &status) == 0
+                 && hdus == expected_hdus);
+
+            for (int n = 1; verified && n <= hdus; ++n) {
+                int dataok = 0;
+                int hduok  = 0;
+
+                fits_movabs_hdu(fptr, n, nullptr, &status);
+                fits_verify_chksum(fptr, &dataok, &hduok, &status);
+
+                verified = (status == 0 && dataok != -1 && hduok != -1);
+            }
+
+            if (!verified)
+                throw std::runtime_error("FITS file was not "
+                                         "completely written.");
+        }
+
         /**
          * @brief Get the value for the given %FITS keyword.
          *
@@ -339,6 +379,30 @@ MaRC::FITS::output_file::make_image(int bitpix,
                                                extname);
 }
 
+void
+MaRC::FITS::output_file::close()
+{
+    int status = 0;
+    int hdus   = 0;
+    char type[FLEN_FILENAME] = { '\0' };
+    char name[FLEN_FILENAME] = { '\0' };
+
+    fits_get_num_hdus(this->fptr_.get(), &hdus, &status);
+    fits_url_type(this->fptr_.get(), type, &status);
+    fits_file_name(this->fptr_.get(), name, &status);
+    throw_on_error(status);
+
+    std::get_deleter<closer>(this->fptr_)->status = &status;
+    this->fptr_.reset();
+
+    throw_on_error(status);
+
+    // CFITSIO doesn't report all errors that occur when flushing data
+    // to disk.  Verify that everything actually made it there.
+    if (std::strcmp(type, "file://") == 0)
+        verify_fits_file(name, hdus);
+}
+
 
 // ----------------------------------------------------------------
 
diff --git a/src/FITS_file.h b/src/FITS_file.h
index 0ecdc26..f3bde01 100644
--- a/src/FITS_file.h
+++ b/src/FITS_file.h
@@ -72,9 +72,14 @@ namespace MaRC
                     int status = 0;
                     fits_close_file(fptr, &status);
 
-                    // At this point we don't really care about the
-                    // status.  Don't bother checking it.
+                    // Let whoever explicitly closed the file know
+                    // about any failure.
+                    if (this->status != nullptr)
+                        *this->status = status;
                 }
+
+                /// Where to store the file close status, if desired.
+                int * status = nullptr;
             };
 
             /**
@@ -300,6 +305,19 @@ namespace MaRC
                 size_t planes,
                 char const * extname = nullptr);
 
+            /**
+             * @brief Close the %FITS file.
+             *
+             * Write all pending data, and close the %FITS file.
+             *
+             * @note All images created through @c make_image() should
+             *       be destroyed prior to calling this method.
+             *
+             * @throw std::runtime_error Error writing or closing the
+             *                           %FITS file.
+             */
+            void close();
+
         };
 
         // -------------------------------------------------------
diff --git a/src/FITS_image.cpp b/src/FITS_image.cpp
index 05eb055..b39e3a5 100644
--- a/src/FITS_image.cpp
+++ b/src/FITS_image.cpp
@@ -90,14 +90,14 @@ MaRC::FITS::image::image(MaRC::FITS::file::shared_ptr fptr,
     MaRC::FITS::throw_on_error(status);
 }
 
-MaRC::FITS::image::~image()
+void
+MaRC::FITS::image::write_checksum()
 {
     int status = 0;
 
-    // Write a checksum for the image.
     fits_write_chksum(this->fptr_.get(), &status);
 
-    fits_report_error(stderr, status);  // Do not throw in destructor!
+    MaRC::FITS::throw_on_error(status);
 }
 
 void
diff --git a/src/FITS_image.h b/src/FITS_image.h
index a0ecc7d..cae5582 100644
--- a/src/FITS_image.h
+++ b/src/FITS_image.h
@@ -68,7 +68,16 @@ namespace MaRC
             image & operator=(image const &) = delete;
 
             /// Destructor.
-            ~image();
+            ~image() = default;
+
+            /**
+             * @brief Write the image checksums.
+             *
+             * @note Call this method once the image is complete.
+             *
+             * @throw std::runtime_error Error writing checksums.
+             */
+            void write_checksum();
 
             /**
              * @name Standard %FITS Keyword Accessors
diff --git a/src/MapCommand.cpp b/src/MapCommand.cpp
index 03d97c6..cc4a9cd 100644
--- a/src/MapCommand.cpp
+++ b/src/MapCommand.cpp
@@ -25,6 +25,7 @@
 #include <iostream>
 #include <iomanip>
 #include <memory>
+#include <stdexcept>
 #include <type_traits>  // For sanity check below.
 #include <chrono>
 #include <cassert>
@@ -186,6 +187,9 @@ MaRC::MapCommand::execute()
     // Write the map grid if requested.
     this->write_grid(f);
 
+    // Make sure the map was completely written.
+    f.close();
+
     std::cout << "Created map: " << this->filename_ << '\n';
 
     return 0;
@@ -262,7 +266,10 @@ MaRC::MapCommand::write_grid(MaRC::FITS::output_file & map_file)
               << " seconds.\n";
 
     if(!grid_image->template write<grid_type>(grid))
-        MaRC::error("Unable to write grid image to map file.");
+        throw std::runtime_error("Unable to write grid image "
+                                 "to map file.");
+
+    grid_image->write_checksum();
 }
 
 void
diff --git a/src/MapCommand_t.cpp b/src/MapCommand_t.cpp
index 048588a..642774f 100644
--- a/src/MapCommand_t.cpp
+++ b/src/MapCommand_t.cpp
@@ -21,6 +21,7 @@
 
 #include <marc/details/format.h>
 
+#include <stdexcept>
 #include <type_traits>
 
 #include <fitsio.h>
@@ -163,8 +164,9 @@ MaRC::MapCommand::make_map_planes(MaRC::FITS::output_file & file)
             MaRC::warn("No data mapped for plane {}.", plane_count);
 
         if (!map_image->template write<decltype(map)>(map))
-            MaRC::error("Unable to write plane {} to map file.",
-                        plane_count);
+            throw std::runtime_error(
+                fmt::format("Unable to write plane {} to map file.",
+                            plane_count));
 
         ++plane_count;
     }
@@ -178,6 +180,8 @@ MaRC::MapCommand::make_map_planes(MaRC::FITS::output_file & file)
         map_image->template datamin<T>(*info.minimum());
         map_image->template datamax<T>(*info.maximum());
     }
+
+    map_image->write_checksum();
 }
 
 
-- 
2.43.0


From eebee04dc88cde185480bd79f808c68a1da6fa09 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 08:48:50 +0000
Subject: [PATCH 27/46] fix: do not read past the first pixel coordinates of
 images with more than two axes

---
 src/FITS_file.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/FITS_file.cpp b/src/FITS_file.cpp
index d1f9caa..5f9c5f3 100644
--- a/src/FITS_file.cpp
+++ b/src/FITS_file.cpp
@@ -488,8 +488,11 @@ MaRC::FITS::input_file::read(std::vector<double> & image,
      * First pixel to be read.
      *
      * @attention First pixel in CFITSIO is {1, 1} not {0, 0}.
+     *
+     * @note CFITSIO reads one coordinate for each axis of the image,
+     *       even though only the first image plane is read.
      */
-    LONGLONG fpixel[] = {1, 1};
+    std::vector<LONGLONG> fpixel(naxis, 1);
 
     // For integer typed FITS images with a BLANK value, set the
     // "blank" value in our floating point converted copy of the image
@@ -502,7 +505,7 @@ MaRC::FITS::input_file::read(std::vector<double> & image,
 
     if (fits_read_pixll(this->fptr_.get(),
                         traits<value_type>::datatype,
-                        fpixel,
+                        fpixel.data(),
                         nelements,
                         &nulval,  // "Blank" value in our image.
                         tmp.data(),
-- 
2.43.0


From 543548c84aea1bb4c23dac2da74229103a0b830c Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 08:49:12 +0000
Subject: [PATCH 28/46] fix: rotation matrices when body center and optical
 axis share a line or sample

---
 lib/marc/ViewingGeometry.cpp | 46 +++++++++++++++++++++++++++++-------
 1 file changed, 37 insertions(+), 9 deletions(-)

diff --git a/lib/marc/ViewingGeometry.cpp b/lib/marc/ViewingGeometry.cpp
index 4a57d64..32c5c67 100644
--- a/lib/marc/ViewingGeometry.cpp
+++ b/lib/marc/ViewingGeometry.cpp
@@ -22,6 +22,7 @@
 # include "vector_formatter.h"
 #endif  // NDEBUG
 
+#include <algorithm>
 #include <cmath>
 #include <limits>
 #include <stdexcept>
@@ -311,9 +312,11 @@ MaRC::ViewingGeometry::finalize_setup(std::size_t samples,
         // In case focal length and scale are not set or used.
         range_O[1] = -this->normal_range_;
 
-        this->rot_matrices(range_O,
-                           this->observ2body_,
-                           this->body2observ_);
+        if (!this->rot_matrices(range_O,
+                                this->observ2body_,
+                                this->body2observ_))
+            throw std::runtime_error("observer and body orientation do "
+                                     "not match image geometry");
     } else {
         double lon = this->sub_observ_lon_ - this->lon_at_center_;
 
@@ -372,15 +375,30 @@ MaRC::ViewingGeometry::rot_matrices(DVector const & range_o,
     r_o = rotated;
     DVector const temp2(rotated);
 
+    /*
+      Solve
+
+          a * x^2 + 2 * r_o[1] * sin(lat) * x + sin(lat)^2 - r_o[2]^2 = 0
+
+      for the sine of the modified sub-observer latitude.  A quarter
+      of the discriminant of that equation is r_o[2]^2 * (a -
+      sin(lat)^2).  The latter is zero if r_o[2] is zero.  Avoid
+      making it negative through rounding by factoring r_o[2] out of
+      it, and by using
+
+          a - sin(lat)^2 = cos(lat)^2 - r_o[0]^2
+    */
+    double const sin_lat = std::sin(this->sub_observ_lat_);
+    double const cos_lat = std::cos(this->sub_observ_lat_);
+
     double const a = r_o[2] * r_o[2] + r_o[1] * r_o[1];
-    double const b = 2 * r_o[1] * std::sin(this->sub_observ_lat_);
-    double const c =
-        std::sin(this->sub_observ_lat_) * std::sin(this->sub_observ_lat_)
-        - r_o[2] * r_o[2];
+    double const d =
+        (cos_lat - std::abs(r_o[0])) * (cos_lat + std::abs(r_o[0]));
 
-    std::pair<double, double> SubLatModSin;
+    // Allow for rounding.
+    constexpr double min_d = -1e-12;
 
-    if (!MaRC::quadratic_roots(a, b, c, SubLatModSin)) {
+    if (!(a > 0 && d >= min_d)) {
         /*
           No real roots.
 
@@ -393,6 +411,16 @@ MaRC::ViewingGeometry::rot_matrices(DVector const & range_o,
         return false;  // Failure
     }
 
+    double const b    = -r_o[1] * sin_lat;
+    double const root = std::abs(r_o[2]) * std::sqrt(std::max(d, 0.0));
+
+    auto const sine = [](double x) {
+        return std::max(-1.0, std::min(x, 1.0));
+    };
+
+    std::pair<double, double> const SubLatModSin(sine((b + root) / a),
+                                                 sine((b - root) / a));
+
     // ------------- TRY THE FIRST ROOT ------------
     double SubLatMod = std::asin(SubLatModSin.first);
 
-- 
2.43.0


From 0b1a6d2fe9ade0f42cf7e8ac30b93d006c6105c4 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 08:51:25 +0000
Subject: [PATCH 29/46] fix: refuse expressions without a finite value

---
 src/parse.yy | 53 +++++++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 48 insertions(+), 5 deletions(-)

diff --git a/src/parse.yy b/src/parse.yy
index 1632139..f1feb67 100644
--- a/src/parse.yy
+++ b/src/parse.yy
@@ -82,6 +82,27 @@ namespace
                     msg);
     }
 
+    /**
+     * @brief Check that the result of an expression is a number.
+     *
+     * Report results that do not exist, e.g. the square root of a
+     * negative number, or that are too large to be represented.
+     *
+     * @return @c true if @a value is finite.
+     */
+    bool check_finite(YYLTYPE * locp,
+                      yyscan_t scanner,
+                      MaRC::ParseParameter & pp,
+                      double value)
+    {
+        if (std::isfinite(value))
+            return true;
+
+        yyerror(locp, scanner, pp, "expression has no finite value");
+
+        return false;
+    }
+
     static constexpr double not_a_number =
         std::numeric_limits<double>::signaling_NaN();
 
@@ -2166,10 +2187,26 @@ expr:   NUM {
         }
         | VAR                   { $$ = $1->value.var;              }
         | VAR '=' expr          { $$ = $3; $1->value.var = $3;     }
-        | FNCT '(' expr ')'     { $$ = (*($1->value.fnctptr))($3); }
-        | expr '+' expr         { $$ = $1 + $3;                    }
-        | expr '-' expr         { $$ = $1 - $3;                    }
-        | expr '*' expr         { $$ = $1 * $3;                    }
+        | FNCT '(' expr ')'     {
+            $$ = (*($1->value.fnctptr))($3);
+            if (!check_finite(&yylloc, scanner, pp, $$))
+                YYERROR;
+        }
+        | expr '+' expr         {
+            $$ = $1 + $3;
+            if (!check_finite(&yylloc, scanner, pp, $$))
+                YYERROR;
+        }
+        | expr '-' expr         {
+            $$ = $1 - $3;
+            if (!check_finite(&yylloc, scanner, pp, $$))
+                YYERROR;
+        }
+        | expr '*' expr         {
+            $$ = $1 * $3;
+            if (!check_finite(&yylloc, scanner, pp, $$))
+                YYERROR;
+        }
         | expr '/' expr         {
             if ($3 != 0)
                 $$ = $1 / $3;
@@ -2180,10 +2217,16 @@ expr:   NUM {
                         "division by zero");
                 YYERROR;
             }
+            if (!check_finite(&yylloc, scanner, pp, $$))
+                YYERROR;
         }
         | '-' expr  %prec NEG   { $$ = -$2;                        }
         | '+' expr  %prec NEG   { $$ = $2;                         }
-        | expr '^' expr         { $$ = std::pow($1, $3);           }
+        | expr '^' expr         {
+            $$ = std::pow($1, $3);
+            if (!check_finite(&yylloc, scanner, pp, $$))
+                YYERROR;
+        }
         | '(' expr ')'          { $$ = $2;                         }
 ;
 /* ------------------------------------------------------------------------- */
-- 
2.43.0


From 4cb6caa7a49185df20c070fdc38823f361ddf812 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 08:51:41 +0000
Subject: [PATCH 30/46] fix: refuse observer ranges, focal lengths and pixel
 scales that are not positive

---
 src/parse.yy | 42 ++++++++++++++++++++++++++++++++++++++----
 1 file changed, 38 insertions(+), 4 deletions(-)

diff --git a/src/parse.yy b/src/parse.yy
index f1feb67..d2f5a8b 100644
--- a/src/parse.yy
+++ b/src/parse.yy
@@ -474,7 +474,7 @@ using auto_free = std::unique_ptr<T, deallocate_with_free>;
 %token <tptr> VAR FNCT
 %token <sval> _STRING
 %type <val> latitude latitude_sub longitude
-%type <val> position_angle range expr
+%type <val> position_angle range range_sub expr
 %type <ival> integer size
 %type <bval> rotation
 %type <sub_observ_data> sub_observ
@@ -1482,7 +1482,21 @@ terminator:
         | TERMINATOR ':' NO  { viewing_geometry->use_terminator(false); }
 ;
 
-range:  RANGE ':' expr  { $$ = $3; }
+range:  range_sub {
+            if ($1 > 0) {
+                $$ = $1;
+            } else {
+                yyerror(&yylloc,
+                        scanner,
+                        pp,
+                        "RANGE must be greater than zero.");
+                YYERROR;
+            }
+        }
+;
+
+range_sub:
+        RANGE ':' expr       { $$ = $3; }
         | RANGE ':' expr KM  { $$ = $3; }
         | RANGE ':' expr AU  {
             // Convert astronomical units to kilometers.
@@ -1519,11 +1533,31 @@ lens_geometry:
 ;
 
 focal_length:
-        FOCAL_LENGTH ':' expr  { focal_length_val = $3; }
+        FOCAL_LENGTH ':' expr {
+            if ($3 > 0) {
+                focal_length_val = $3;
+            } else {
+                yyerror(&yylloc,
+                        scanner,
+                        pp,
+                        "FOCAL_LENGTH must be greater than zero.");
+                YYERROR;
+            }
+        }
 ;
 
 pixel_scale:
-        PIXEL_SCALE ':' expr  { pixel_scale_val = $3; }
+        PIXEL_SCALE ':' expr {
+            if ($3 > 0) {
+                pixel_scale_val = $3;
+            } else {
+                yyerror(&yylloc,
+                        scanner,
+                        pp,
+                        "PIXEL_SCALE must be greater than zero.");
+                YYERROR;
+            }
+        }
 ;
 
 /* ------ Alber's Equivalent Projection Setup - One Standard Parallel ------ */
-- 
2.43.0


From 19778ec01c4ff976581eaa2973577f6dd3641abd Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 09:19:46 +0000
Subject: [PATCH 31/46] fix: record the data scale of planes of 64 bit integer
 maps

---
 src/MapCommand.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/MapCommand.cpp b/src/MapCommand.cpp
index cc4a9cd..66e8517 100644
--- a/src/MapCommand.cpp
+++ b/src/MapCommand.cpp
@@ -52,8 +52,9 @@ namespace
             fits_width < double_width ? fits_width : double_width;
 
         // Avoid writing "-0".  It's harmless but rather unsightly.
-        constexpr int epsilons = 1;
-        if (MaRC::almost_zero(value, epsilons))
+        // Do not alter values that are merely small, such as the
+        // scale of 64 bit integer data.
+        if (value == 0)
             value = 0;
 
         // Work around inability to change precision in
-- 
2.43.0


From 9d1d5d46887bde9a884397a6080644d72f06d211 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 09:40:18 +0000
Subject: [PATCH 32/46] fix: merge the map parameters of all photos of a mosaic

---
 src/MosaicImageFactory.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/MosaicImageFactory.cpp b/src/MosaicImageFactory.cpp
index 5c53660..a69f1e5 100644
--- a/src/MosaicImageFactory.cpp
+++ b/src/MosaicImageFactory.cpp
@@ -9,6 +9,7 @@
  */
 
 #include "MosaicImageFactory.h"
+#include "map_parameters.h"
 
 #include <marc/first_read.h>
 #include <marc/unweighted_average.h>
@@ -59,14 +60,14 @@ bool
 MaRC::MosaicImageFactory::populate_parameters(
     MaRC::map_parameters &p) const
 {
-    /**
-     * @todo Verify this achieves the desired result since all photos
-     *       in this mosaic will plotted to the same map plane, rather
-     *       than different planes.
-     */
-    for (auto const & image : this->factories_)
-        if (!image->populate_parameters(p))
+    // Merge the parameters of all photos in the mosaic rather than have
+    // those of the last photo replace those of the previous ones.
+    for (auto const & image : this->factories_) {
+        map_parameters ip;
+
+        if (!image->populate_parameters(ip) || !p.merge(ip))
             return false;
+    }
 
     return true;
 }
-- 
2.43.0


From 6fc0bb00143c3d1b6bb48fe90b66e6c2bdeb3d65 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 09:40:18 +0000
Subject: [PATCH 33/46] fix: choose the map data type from all map planes

---
 src/MapCommand.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/MapCommand.cpp b/src/MapCommand.cpp
index 66e8517..58ff3f7 100644
--- a/src/MapCommand.cpp
+++ b/src/MapCommand.cpp
@@ -414,11 +414,13 @@ MaRC::MapCommand::populate_map_parameters()
           NAXIS2)
      */
 
-    // Automatically populated map parameters.
-    map_parameters to_merge;
-
     int plane = 1;
 
+    // Automatically populated map parameters.  They are not supplied by
+    // the user, meaning parameters of later map planes may extend those
+    // of the first one.
+    map_parameters to_merge(plane);
+
     for (auto const & image : this->image_factories_) {
         // Automatically populated map plane parameters.
         map_parameters pp(plane++);
-- 
2.43.0


From d97557d5dc4df0cb0f411b12a6fa980529d6daed Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 10:46:44 +0000
Subject: [PATCH 34/46] fix: points behind the observer are not in the image

---
 lib/marc/ViewingGeometry.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/marc/ViewingGeometry.cpp b/lib/marc/ViewingGeometry.cpp
index 32c5c67..f990137 100644
--- a/lib/marc/ViewingGeometry.cpp
+++ b/lib/marc/ViewingGeometry.cpp
@@ -874,6 +874,9 @@ MaRC::ViewingGeometry::latlon2pix(double lat,
     // if (rotated[1] > this->normal_range_)
     //     return false;  // On other side of image plane / body.
 
+    if (rotated[1] <= 0)
+        return false;  // Behind the observer.
+
     // Drop the "y" component since it is zero in the image plane.
     x = rotated[0] / rotated[1] * this->focal_length_pixels_;
     z = rotated[2] / rotated[1] * this->focal_length_pixels_;
-- 
2.43.0


From 6b20dd55fcef3c11a8274e6027041d04d9067a40 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 10:46:44 +0000
Subject: [PATCH 35/46] fix: image positions facing away from the body are sky

---
 lib/marc/ViewingGeometry.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lib/marc/ViewingGeometry.cpp b/lib/marc/ViewingGeometry.cpp
index f990137..437da3c 100644
--- a/lib/marc/ViewingGeometry.cpp
+++ b/lib/marc/ViewingGeometry.cpp
@@ -923,6 +923,16 @@ MaRC::ViewingGeometry::pix2latlon(double sample,
     assert(success != -1);  // -1 == bad parameters
 
     if (success == 0) {
+        double const radius = this->body_->centric_radius(lat);
+        DVector const hit(radius * std::cos(lat) * std::sin(lon),
+                         -radius * std::cos(lat) * std::cos(lon),
+                          radius * std::sin(lat));
+
+        // The body intersects the line behind the observer, not the
+        // line of sight.
+        if (MaRC::dot_product(hit - this->range_b_, dVec) <= 0)
+            return false;
+
         if (this->body_->prograde())
             lon  = this->sub_observ_lon_ - lon;
         else
-- 
2.43.0


From 8a41b2440aac2420ed0607813dbcb82dcf5ffe29 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 11:12:19 +0000
Subject: [PATCH 36/46] fix: polar stereographic grid lines without gaps in
 large or close-up maps

---
 lib/marc/PolarStereographic.cpp | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/lib/marc/PolarStereographic.cpp b/lib/marc/PolarStereographic.cpp
index 6236330..199fa89 100644
--- a/lib/marc/PolarStereographic.cpp
+++ b/lib/marc/PolarStereographic.cpp
@@ -20,6 +20,7 @@
 
 #include <fmt/core.h>
 
+#include <algorithm>
 #include <limits>
 #include <cmath>
 
@@ -244,13 +245,20 @@ MaRC::PolarStereographic::plot_grid(std::size_t samples,
                                     double lon_interval,
                                     grid_type & grid) const
 {
-    static constexpr std::size_t imax = 2000;
-
     double const rho_max =
         this->stereo_rho(this->body_->graphic_latitude(this->max_lat_));
     auto const min_dim = std::min(samples, lines);
     double const pix_conv_val = 2 * rho_max / min_dim;
 
+    /*
+      Distance in pixels between the pole and the corners of the map.
+      Points on a grid line must be less than a pixel apart everywhere
+      in the map, regardless of its size and maximum latitude.
+    */
+    double const corner = std::hypot(samples, lines) / 2;
+    auto const imax = static_cast<std::size_t>(
+        std::max(2000., std::ceil(2 * C::_2pi * corner)));
+
     static constexpr auto white =
         std::numeric_limits<typename grid_type::value_type>::max();
 
@@ -297,15 +305,8 @@ MaRC::PolarStereographic::plot_grid(std::size_t samples,
         double const mm = m * C::degree;  // Convert to radians
 
         for (std::size_t n = 0; n < imax; ++n) {
-            double const nn =
-                (static_cast<double>(n) / imax * 180 - 90) * C::degree;
-
-            /**
-             * @bug Shouldn't we take into account the maximum
-             *      latitude of the projection here?
-             */
-
-            double const rho = this->stereo_rho(nn);
+            double const rho =
+                static_cast<double>(n) / imax * corner * pix_conv_val;
 
             double const z = rho * std::cos(mm);
             double const x = rho * std::sin(ccw ? mm : -mm);
-- 
2.43.0


From e58120610d4c73f6ef50c0fbf70e474a80725b54 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 11:12:19 +0000
Subject: [PATCH 37/46] fix: orthographic grid lines without gaps in large or
 close-up maps

---
 lib/marc/Orthographic.cpp | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/lib/marc/Orthographic.cpp b/lib/marc/Orthographic.cpp
index 696d60d..622f917 100644
--- a/lib/marc/Orthographic.cpp
+++ b/lib/marc/Orthographic.cpp
@@ -147,6 +147,33 @@ namespace MaRC
     };
 }
 
+namespace
+{
+    /**
+     * @brief Number of points to plot along a full circle.
+     *
+     * Points on a grid line must be less than a pixel apart, i.e.
+     * the number of points depends on how large the body is in the
+     * map.
+     *
+     * @param[in] body         Body being mapped.
+     * @param[in] km_per_pixel Map scale.
+     *
+     * @return Number of points to plot along a full circle, at least
+     *         2000, and at most ten million to keep the time it takes
+     *         to draw the grid reasonable.
+     */
+    double grid_points(MaRC::OblateSpheroid const & body,
+                       double km_per_pixel)
+    {
+        double const radius =
+            std::max(body.eq_rad(), body.pol_rad()) / km_per_pixel;
+
+        return std::min(std::max(2000., std::ceil(2 * C::_2pi * radius)),
+                        1e7);
+    }
+}
+
 // -------------------------------------------------------------------
 
 MaRC::Orthographic::Orthographic (
@@ -473,7 +500,7 @@ MaRC::Orthographic::plot_lat_lines(std::size_t samples,
 
         auto const radius = this->body_->centric_radius(nn);
 
-        constexpr double imax = 2000;
+        double const imax = grid_points(*this->body_, mp.km_per_pixel());
         for (double m = 0; m < imax; ++m) {
             auto mm = m / imax * C::degree * 360;
 
@@ -525,7 +552,8 @@ MaRC::Orthographic::plot_lon_lines(std::size_t samples,
     for (double m = 0 + p.lon_interval();
          m <= 360;
          m += p.lon_interval()) {
-        constexpr double imax = 1000;
+        double const imax =
+            grid_points(*this->body_, mp.km_per_pixel()) / 2;
 
         auto const mm = m * C::degree;
 
-- 
2.43.0


From 63e5887fff8eecc78b359db06630239e6afe6c11 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 11:12:19 +0000
Subject: [PATCH 38/46] fix: image positions too large for an integer are
 outside the image

---
 lib/marc/PhotoImage.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/marc/PhotoImage.cpp b/lib/marc/PhotoImage.cpp
index d5b8747..c1cda4b 100644
--- a/lib/marc/PhotoImage.cpp
+++ b/lib/marc/PhotoImage.cpp
@@ -117,7 +117,9 @@ MaRC::PhotoImage::read_data(double lat,
 
     double x = 0, z = 0;
 
-    if (!this->geometry_->latlon2pix(lat, lon, x, z) || x < 0 || z < 0)
+    // Positions far outside the image may not fit in an integer.
+    if (!this->geometry_->latlon2pix(lat, lon, x, z) || x < 0 || z < 0
+        || x >= this->samples_ || z >= this->lines_)
         return false;
 
     // x and z are 'pixel coordinates'.  In 'pixel coordinates', the
-- 
2.43.0


From fc6e0f327f54672c324a9a6322671dd026506884 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 11:12:19 +0000
Subject: [PATCH 39/46] fix: an empty XDG_CONFIG_HOME is the same as an unset
 one

---
 src/marc.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/marc.cpp b/src/marc.cpp
index 79ed1b9..a4c381d 100644
--- a/src/marc.cpp
+++ b/src/marc.cpp
@@ -156,7 +156,8 @@ namespace MaRC
         char const * const config_dir = std::getenv("XDG_CONFIG_HOME");
         char const * const home_dir   = std::getenv("HOME");
 
-        if (config_dir != nullptr) {
+        // An empty variable is equivalent to one that isn't set.
+        if (config_dir != nullptr && *config_dir != '\0') {
             filename = std::string(config_dir) + "/" PACKAGE;
         } else {
             if (home_dir == nullptr)
-- 
2.43.0


From ec0cc4161655b193d164d3f977697d31f64030e9 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 11:12:19 +0000
Subject: [PATCH 40/46] fix: a configuration directory that is not a directory
 holds no configuration

---
 src/marc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/marc.cpp b/src/marc.cpp
index a4c381d..6a8c067 100644
--- a/src/marc.cpp
+++ b/src/marc.cpp
@@ -200,7 +200,7 @@ int main(int argc, char *argv[])
 
         // Parse user configuration file, if it exists.
         if (MaRC::parse_file(config_file.c_str(), parse_parameter) != 0
-            && errno != ENOENT) {
+            && errno != ENOENT && errno != ENOTDIR) {
             // Scanner or parser error.
             return -1;
         }
-- 
2.43.0


From cda47bd3fc209d73a5c12c8f6bac2ac593aa7352 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 11:40:33 +0000
Subject: [PATCH 41/46] fix: header texts longer than a header record are
 continued, not cut off

---
 src/FITS_image.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/FITS_image.cpp b/src/FITS_image.cpp
index b39e3a5..245a370 100644
--- a/src/FITS_image.cpp
+++ b/src/FITS_image.cpp
@@ -197,12 +197,12 @@ MaRC::FITS::image::update_fits_key(fitsfile * fptr,
         return;
 
     int status = 0;
-    fits_update_key(fptr,
-                    TSTRING,
-                    key,
-                    const_cast<char *>(value.c_str()),
-                    comment,
-                    &status);
+    // Text longer than a header record continues in the next one.
+    fits_update_key_longstr(fptr,
+                            key,
+                            value.c_str(),
+                            comment,
+                            &status);
 
     MaRC::FITS::throw_on_error(status);
 }
-- 
2.43.0


From 1cd56297fb66ac023dbbae81c1b04071f252beaf Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 11:40:33 +0000
Subject: [PATCH 42/46] fix: read texts continued over several header records

---
 src/FITS_file.cpp | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/src/FITS_file.cpp b/src/FITS_file.cpp
index 5f9c5f3..8af9bcb 100644
--- a/src/FITS_file.cpp
+++ b/src/FITS_file.cpp
@@ -151,22 +151,18 @@ namespace MaRC
         read_fits_string_key(fitsfile * fptr, char const * key)
         {
             int status = 0;
-            char value[FLEN_VALUE] = { '\0' };
+            char * value = nullptr;
             std::string str;
-            /**
-             * @note @c fits_read_key() doesn't support the HEASARC
-             *       continued long string convention.  If needed, use
-             *       a combination of @c fits_get_key_strlen() and
-             *       @c fits_read_string_key(), both introduced in
-             *       CFITSIO 3.39.
-             */
-            if (fits_read_key(fptr,
-                              TSTRING,
-                              key,
-                              value,
-                              nullptr, // comment
-                              &status) == 0)
+
+            // Support text continued in following header records.
+            if (fits_read_key_longstr(fptr,
+                                      key,
+                                      &value,
+                                      nullptr, // comment
+                                      &status) == 0) {
                 str = value;
+                fits_free_memory(value, &status);
+            }
             else if (status != KEY_NO_EXIST) {
                 FITS::throw_on_error(status);
             }
-- 
2.43.0


From e490d76af809fc22619ab57766cf2847e35a7b15 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 12:23:48 +0000
Subject: [PATCH 43/46] fix: data limits of computed planes of integer maps are
 physical values

---
 src/CosPhaseImageFactory.cpp  |  5 ++---
 src/LatitudeImageFactory.cpp  |  5 ++---
 src/LongitudeImageFactory.cpp |  5 ++---
 src/Mu0ImageFactory.cpp       |  5 ++---
 src/MuImageFactory.cpp        |  5 ++---
 src/SourceImageFactory.cpp    | 13 +++++++++++++
 src/SourceImageFactory.h      | 20 ++++++++++++++++++++
 7 files changed, 43 insertions(+), 15 deletions(-)

diff --git a/src/CosPhaseImageFactory.cpp b/src/CosPhaseImageFactory.cpp
index 111e9f4..fad9126 100644
--- a/src/CosPhaseImageFactory.cpp
+++ b/src/CosPhaseImageFactory.cpp
@@ -72,11 +72,10 @@ MaRC::CosPhaseImageFactory::make(scale_offset_functor calc_so)
     /*
       Set physical data extrema if not previously set.
 
-      Scale the default minimum and maximum to match the physical data
+      Scale the minimum and maximum to match the physical data
       scaling.
     */
-    this->minimum(cos_phase_low  * scale + offset);
-    this->maximum(cos_phase_high * scale + offset);
+    this->scale_extrema(cos_phase_low, cos_phase_high, scale, offset);
 
     return std::make_unique<MaRC::CosPhaseImage>(this->body_,
                                                  this->sub_observ_lat_,
diff --git a/src/LatitudeImageFactory.cpp b/src/LatitudeImageFactory.cpp
index 191a2f2..eacb4d6 100644
--- a/src/LatitudeImageFactory.cpp
+++ b/src/LatitudeImageFactory.cpp
@@ -72,11 +72,10 @@ MaRC::LatitudeImageFactory::make(scale_offset_functor calc_so)
     /*
       Set physical data extrema if not previously set.
 
-      Scale the default minimum and maximum to match the physical data
+      Scale the minimum and maximum to match the physical data
       scaling.
     */
-    this->minimum(latitude_low  * scale + offset);
-    this->maximum(latitude_high * scale + offset);
+    this->scale_extrema(latitude_low, latitude_high, scale, offset);
 
     return
         std::make_unique<MaRC::LatitudeImage>(this->body_,
diff --git a/src/LongitudeImageFactory.cpp b/src/LongitudeImageFactory.cpp
index ebb9e4a..132c2e0 100644
--- a/src/LongitudeImageFactory.cpp
+++ b/src/LongitudeImageFactory.cpp
@@ -75,11 +75,10 @@ MaRC::LongitudeImageFactory::make(scale_offset_functor calc_so)
     /*
       Set physical data extrema if not previously set.
 
-      Scale the default minimum and maximum to match the physical data
+      Scale the minimum and maximum to match the physical data
       scaling.
     */
-    this->minimum(longitude_low  * scale + offset);
-    this->maximum(longitude_high * scale + offset);
+    this->scale_extrema(longitude_low, longitude_high, scale, offset);
 
     return std::make_unique<MaRC::LongitudeImage>(scale, offset);
 }
diff --git a/src/Mu0ImageFactory.cpp b/src/Mu0ImageFactory.cpp
index bd149d6..1247602 100644
--- a/src/Mu0ImageFactory.cpp
+++ b/src/Mu0ImageFactory.cpp
@@ -65,11 +65,10 @@ MaRC::Mu0ImageFactory::make(scale_offset_functor calc_so)
     /*
       Set physical data extrema if not previously set.
 
-      Scale the default minimum and maximum to match the physical data
+      Scale the minimum and maximum to match the physical data
       scaling.
     */
-    this->minimum(mu0_low  * scale + offset);
-    this->maximum(mu0_high * scale + offset);
+    this->scale_extrema(mu0_low, mu0_high, scale, offset);
 
     return std::make_unique<MaRC::Mu0Image>(this->body_,
                                             this->sub_solar_lat_,
diff --git a/src/MuImageFactory.cpp b/src/MuImageFactory.cpp
index 16d7670..0b05661 100644
--- a/src/MuImageFactory.cpp
+++ b/src/MuImageFactory.cpp
@@ -67,11 +67,10 @@ MaRC::MuImageFactory::make(scale_offset_functor calc_so)
     /*
       Set physical data extrema if not previously set.
 
-      Scale the default minimum and maximum to match the physical data
+      Scale the minimum and maximum to match the physical data
       scaling.
     */
-    this->minimum(mu_low  * scale + offset);
-    this->maximum(mu_high * scale + offset);
+    this->scale_extrema(mu_low, mu_high, scale, offset);
 
     return std::make_unique<MaRC::MuImage>(this->body_,
                                            this->sub_observ_lat_,
diff --git a/src/SourceImageFactory.cpp b/src/SourceImageFactory.cpp
index 4b7601c..9761654 100644
--- a/src/SourceImageFactory.cpp
+++ b/src/SourceImageFactory.cpp
@@ -26,3 +26,16 @@ MaRC::SourceImageFactory::maximum(double datum)
     if (!this->extrema_.maximum())
         this->extrema_.maximum(datum);
 }
+
+void
+MaRC::SourceImageFactory::scale_extrema(double low,
+                                        double high,
+                                        double scale,
+                                        double offset)
+{
+    auto const min = this->extrema_.minimum().value_or(low);
+    auto const max = this->extrema_.maximum().value_or(high);
+
+    this->extrema_.minimum(min * scale + offset);
+    this->extrema_.maximum(max * scale + offset);
+}
diff --git a/src/SourceImageFactory.h b/src/SourceImageFactory.h
index 551d5ab..f49375c 100644
--- a/src/SourceImageFactory.h
+++ b/src/SourceImageFactory.h
@@ -130,6 +130,26 @@ namespace MaRC
          */
         extrema_type const & minmax() const { return this->extrema_; }
 
+    protected:
+
+        /**
+         * @brief Scale the minimum and maximum physical data values.
+         *
+         * Convert the minimum and maximum physical data values to
+         * the values stored in a map of scaled physical data.
+         *
+         * @param[in] low    Minimum physical data value if none has
+         *                   been set.
+         * @param[in] high   Maximum physical data value if none has
+         *                   been set.
+         * @param[in] scale  Scale  applied to the physical data.
+         * @param[in] offset Offset applied to the physical data.
+         */
+        void scale_extrema(double low,
+                           double high,
+                           double scale,
+                           double offset);
+
     private:
 
         /**
-- 
2.43.0


From 3d1f639988905f4b35034d64bd0163befb06fd35 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 12:24:07 +0000
Subject: [PATCH 44/46] fix: recorded data minimum and maximum are physical
 values

---
 src/FITS_image.cpp   |  8 ++++++--
 src/FITS_image.h     | 23 +++++++++++++++++++++++
 src/FITS_image_t.cpp | 24 ++++++++++++++++++++++++
 src/MapCommand_t.cpp |  4 ++--
 4 files changed, 55 insertions(+), 4 deletions(-)

diff --git a/src/FITS_image.cpp b/src/FITS_image.cpp
index 245a370..ac186d3 100644
--- a/src/FITS_image.cpp
+++ b/src/FITS_image.cpp
@@ -112,22 +112,26 @@ MaRC::FITS::image::author(std::string const & a)
 void
 MaRC::FITS::image::bzero(double zero)
 {
-    if (!std::isnan(zero))
+    if (!std::isnan(zero)) {
         this->update_fits_key(this->fptr_.get(),
                               "BZERO",
                               zero,
                               "physical value corresponding to "
                               "zero in the map");
+        this->bzero_ = zero;
+    }
 }
 
 void
 MaRC::FITS::image::bscale(double scale)
 {
-    if (!std::isnan(scale))
+    if (!std::isnan(scale)) {
         this->update_fits_key(this->fptr_.get(),
                               "BSCALE",
                               scale,
                               "linear data scaling coefficient");
+        this->bscale_ = scale;
+    }
 }
 
 void
diff --git a/src/FITS_image.h b/src/FITS_image.h
index cae5582..22d54f8 100644
--- a/src/FITS_image.h
+++ b/src/FITS_image.h
@@ -16,6 +16,8 @@
 
 #include <fitsio.h>
 
+#include <optional>
+
 namespace MaRC
 {
     namespace FITS
@@ -184,6 +186,21 @@ namespace MaRC
             template <typename T>
             void datamax(T max);
 
+            /**
+             * @brief Set the minimum and maximum valid physical
+             *        values given the minimum and maximum values in
+             *        the image array.
+             *
+             * The @c BSCALE and @c BZERO values should be set before
+             * calling this method.
+             *
+             * @tparam    T   Image data type.
+             * @param[in] min Minimum valid array value.
+             * @param[in] max Maximum valid array value.
+             */
+            template <typename T>
+            void array_extrema(T min, T max);
+
             /// Set name of object being mapped.
             void object(std::string const & o);
 
@@ -310,6 +327,12 @@ namespace MaRC
             /// Maximum number of elements in the %FITS image.
             LONGLONG const max_elements_;
 
+            /// @c BSCALE keyword value, if set.
+            std::optional<double> bscale_;
+
+            /// @c BZERO keyword value, if set.
+            std::optional<double> bzero_;
+
         };
 
     }  // FITS
diff --git a/src/FITS_image_t.cpp b/src/FITS_image_t.cpp
index 36e9a37..6bcf387 100644
--- a/src/FITS_image_t.cpp
+++ b/src/FITS_image_t.cpp
@@ -18,6 +18,7 @@
 
 #include <fitsio.h>
 
+#include <algorithm>
 #include <array>  // For std::size().
 #include <cmath>
 
@@ -87,6 +88,29 @@ MaRC::FITS::image::datamax(T max)
             "maximum valid physical data value");
 }
 
+template <typename T>
+void
+MaRC::FITS::image::array_extrema(T min, T max)
+{
+    if (!this->bscale_ && !this->bzero_) {
+        // The array values are the physical values.
+        this->template datamin<T>(min);
+        this->template datamax<T>(max);
+
+        return;
+    }
+
+    double const scale  = this->bscale_.value_or(1);
+    double const offset = this->bzero_.value_or(0);
+
+    // A negative scale swaps the extrema.
+    auto const physical =
+        std::minmax({ min * scale + offset, max * scale + offset });
+
+    this->datamin(physical.first);
+    this->datamax(physical.second);
+}
+
 template <typename T>
 bool
 MaRC::FITS::image::write(T const & img)
diff --git a/src/MapCommand_t.cpp b/src/MapCommand_t.cpp
index 642774f..5f3c304 100644
--- a/src/MapCommand_t.cpp
+++ b/src/MapCommand_t.cpp
@@ -177,8 +177,8 @@ MaRC::MapCommand::make_map_planes(MaRC::FITS::output_file & file)
 
           At this point we know the extrema were set.
         */
-        map_image->template datamin<T>(*info.minimum());
-        map_image->template datamax<T>(*info.maximum());
+        map_image->template array_extrema<T>(*info.minimum(),
+                                             *info.maximum());
     }
 
     map_image->write_checksum();
-- 
2.43.0


From 1a5cad5c983fd4791f7b972f115631ca92980217 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 13:04:10 +0000
Subject: [PATCH 45/46] fix: refuse maps larger than can be counted

The size in bytes of a map with very many samples and lines wrapped
around, so that such a map ended in a crash or an unrelated error after
the input was accepted.
---
 src/parse.yy | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/parse.yy b/src/parse.yy
index d2f5a8b..68ecc7f 100644
--- a/src/parse.yy
+++ b/src/parse.yy
@@ -900,6 +900,18 @@ lines:  LINES ':' size  {
               MaRC::error("incorrect value for LINES entered: {}", $3);
               YYERROR;
           }
+
+          // Size, in bytes, of a map plane of any data type must be
+          // representable.  "SAMPLES" was parsed before "LINES".
+          constexpr long max_size =
+              std::numeric_limits<long>::max() / sizeof(double);
+
+          if (map_lines > max_size / map_samples) {
+              MaRC::error("map of {} samples and {} lines is too large",
+                          map_samples,
+                          map_lines);
+              YYERROR;
+          }
         }
 ;
 
-- 
2.43.0


From 63e587c16870cd4984c58e81b7969bcdc6ad71a2 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 16:12:40 +0000
Subject: [PATCH 46/46] fix: root finding never ended for some rows of Mercator
 maps

The search of the bracketed root may step onto the end of the domain of
the function, where the numerical derivative is NaN.  Bisect then.
---
 lib/marc/root_find.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/marc/root_find.cpp b/lib/marc/root_find.cpp
index 08bb877..9ed225c 100644
--- a/lib/marc/root_find.cpp
+++ b/lib/marc/root_find.cpp
@@ -240,10 +240,12 @@ MaRC::root_find(double y,
 
         // Bisect if Newtown-Raphson is out of range, not decreasing
         // fast enough, or has not converged by now, i.e. is only
-        // chasing rounding errors in the derivative.
+        // chasing rounding errors in the derivative.  The derivative
+        // may also be NaN next to the end of the domain of f().
         if (i >= max_iterations / 3
-            || ((x0 - xh) * df - y0 + y) * ((x0 - xl) * df - y0 + y) > 0
-            || std::abs(2 * (y0 - y)) > std::abs(dxold * df)){
+            || !(((x0 - xh) * df - y0 + y)
+                 * ((x0 - xl) * df - y0 + y) <= 0)
+            || !(std::abs(2 * (y0 - y)) <= std::abs(dxold * df))) {
             dxold = dx;
             dx = (xh - xl) / 2;
             x0 = xl + dx;
-- 
2.43.0

