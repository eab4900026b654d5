From a36e2b59a2bd2059868d7933080d4072ba1986da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:03 +0000
Subject: [PATCH 01/56] fix: Duration32 zero times infinity and zero divided by
 zero are infinite, not NaN

Both produced a NaN duration, which the class documents as impossible; follow
absl::Duration and return the infinite duration of the matching sign.
---
 ink/types/duration.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ink/types/duration.cc b/ink/types/duration.cc
index 56154b6..da87f39 100644
--- a/ink/types/duration.cc
+++ b/ink/types/duration.cc
@@ -28,7 +28,7 @@ Duration32 operator*(Duration32 d, float scale) {
     return d >= Duration32::Zero() ? Duration32::Infinite()
                                    : -Duration32::Infinite();
   }
-  if (!d.IsFinite()) {
+  if (!d.IsFinite() || std::isinf(scale)) {
     return (d >= Duration32::Zero()) == (scale >= 0) ? Duration32::Infinite()
                                                      : -Duration32::Infinite();
   }
@@ -40,7 +40,7 @@ Duration32 operator/(Duration32 d, float divisor) {
     return d >= Duration32::Zero() ? Duration32::Infinite()
                                    : -Duration32::Infinite();
   }
-  if (!d.IsFinite()) {
+  if (!d.IsFinite() || (d == Duration32::Zero() && divisor == 0)) {
     return (d >= Duration32::Zero()) == (divisor >= 0)
                ? Duration32::Infinite()
                : -Duration32::Infinite();
-- 
2.43.0


From 7de8762f8f2b039c573f49896d781440e3a53644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:21 +0000
Subject: [PATCH 02/56] fix: Color::ScaledToGamut keeps infinite channels from
 becoming NaN

---
 ink/color/color.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ink/color/color.cc b/ink/color/color.cc
index aec3f4a..871cafe 100644
--- a/ink/color/color.cc
+++ b/ink/color/color.cc
@@ -168,7 +168,10 @@ Color Color::ScaledToGamut() const {
                std::max(copy.rgba_[kChannelGreen], copy.rgba_[kChannelBlue]));
   if (max_val > 1.0f) {
     for (int i = 0; i < kNumChannelsColorOnly; ++i) {
-      copy.rgba_[i] = copy.rgba_[i] / max_val;
+      // Infinity divided by infinity is NaN; in the limit, an infinite channel is
+      // at the maximum and scales to one.
+      copy.rgba_[i] =
+          copy.rgba_[i] == max_val ? 1.0f : copy.rgba_[i] / max_val;
     }
   }
 
-- 
2.43.0


From 240054e518790cdea2908d5aa9b12e2ad9529112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:45 +0000
Subject: [PATCH 03/56] fix: packing an attribute whose range is nearly zero no
 longer underflows its scale

---
 ink/geometry/internal/mesh_packing.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/ink/geometry/internal/mesh_packing.cc b/ink/geometry/internal/mesh_packing.cc
index 548cca6..28ad832 100644
--- a/ink/geometry/internal/mesh_packing.cc
+++ b/ink/geometry/internal/mesh_packing.cc
@@ -14,11 +14,13 @@
 
 #include "ink/geometry/internal/mesh_packing.h"
 
+#include <algorithm>
 #include <array>
 #include <cmath>
 #include <cstddef>
 #include <cstdint>
 #include <cstring>
+#include <limits>
 #include <optional>
 #include <utility>
 #include <vector>
@@ -875,8 +877,13 @@ absl::StatusOr<MeshAttributeCodingParams> ComputeCodingParams(
 
     // If the min and max are the same, we would get a scale of zero, which
     // wouldn't make sense, since multiplying by zero is not invertible --
-    // so in that case we set the scale to 1 instead.
-    coding_params.components[i].scale = range > 0 ? range / max_values[i] : 1;
+    // so in that case we set the scale to 1 instead. Similarly, if the range is
+    // tiny, the division may underflow to zero (or lose most of its precision),
+    // so we never go below the smallest normal float.
+    coding_params.components[i].scale =
+        range > 0 ? std::max(range / max_values[i],
+                             std::numeric_limits<float>::min())
+                  : 1;
   }
 
   return coding_params;
-- 
2.43.0


From a9607cef1000a51aeba8781627f2a4b09307b294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:11 +0000
Subject: [PATCH 04/56] fix: packed attributes near the greatest float no
 longer unpack to infinity

---
 ink/geometry/internal/mesh_packing.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ink/geometry/internal/mesh_packing.cc b/ink/geometry/internal/mesh_packing.cc
index 28ad832..ce96dc5 100644
--- a/ink/geometry/internal/mesh_packing.cc
+++ b/ink/geometry/internal/mesh_packing.cc
@@ -884,6 +884,13 @@ absl::StatusOr<MeshAttributeCodingParams> ComputeCodingParams(
         range > 0 ? std::max(range / max_values[i],
                              std::numeric_limits<float>::min())
                   : 1;
+    // If the scale was rounded up, unpacking the greatest packed value could
+    // overflow when the maximum is close to the greatest finite float.
+    while (!std::isfinite(max_values[i] * coding_params.components[i].scale +
+                          coding_params.components[i].offset)) {
+      coding_params.components[i].scale =
+          std::nextafter(coding_params.components[i].scale, 0.f);
+    }
   }
 
   return coding_params;
-- 
2.43.0


From 308d68750a25f59a721aeb9815423c556d5f7bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:03 +0000
Subject: [PATCH 05/56] fix: Vec::AsUnitVec crashed or lost precision for
 subnormal vectors

Halving a vector whose components are below the smallest normal float loses
bits, and halving the smallest subnormal gives zero, so that the division by
the magnitude check-failed.
---
 ink/geometry/vec.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ink/geometry/vec.cc b/ink/geometry/vec.cc
index 97479d0..7d4fe41 100644
--- a/ink/geometry/vec.cc
+++ b/ink/geometry/vec.cc
@@ -55,9 +55,12 @@ Vec Vec::AsUnitVec() const {
 
   // Finally, we have the finite, nonzero case.  In theory, we can just divide
   // the vector by its magnitude, but the magnitude can overflow to infinity if
-  // e.g. x and y are both very large finite floats.  We can avoid this by
-  // pre-scaling the vector before normalizing.
-  Vec scaled = 0.5f * *this;
+  // e.g. x and y are both very large finite floats, and both the magnitude and
+  // the quotient lose precision (or even underflow to zero) if x and y are
+  // subnormal.  We can avoid this by pre-scaling the vector by a power of two
+  // before normalizing.
+  bool is_small = std::abs(x) < 1.f && std::abs(y) < 1.f;
+  Vec scaled = (is_small ? 0x1p126f : 0.5f) * *this;
   return scaled / scaled.Magnitude();
 }
 
-- 
2.43.0


From 427752e4c488d03871ca9ee6a3f7210b0f64f45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:07 +0000
Subject: [PATCH 06/56] fix: aspect ratio adjustment of a zero-height Rect
 crashed

ContainingRectWithAspectRatio and InteriorRectWithAspectRatio called
AspectRatio(), which check-fails for a zero height, although a containing and
an interior rectangle exist and no such precondition is documented.
---
 ink/geometry/rect.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ink/geometry/rect.cc b/ink/geometry/rect.cc
index d439064..114d715 100644
--- a/ink/geometry/rect.cc
+++ b/ink/geometry/rect.cc
@@ -53,7 +53,7 @@ Rect Rect::ContainingRectWithAspectRatio(float aspect_ratio) const {
   ABSL_CHECK(aspect_ratio > 0) << "Aspect ratio cannot be <= 0";
   float corrected_width;
   float corrected_height;
-  if (aspect_ratio > AspectRatio()) {
+  if (aspect_ratio * Height() > Width()) {
     corrected_height = Height();
     corrected_width = Height() * aspect_ratio;
   } else {
@@ -68,7 +68,7 @@ Rect Rect::InteriorRectWithAspectRatio(float aspect_ratio) const {
   ABSL_CHECK(aspect_ratio >= 0) << "Aspect ratio cannot be < 0";
   float corrected_width;
   float corrected_height;
-  if (aspect_ratio > AspectRatio()) {
+  if (aspect_ratio * Height() > Width()) {
     corrected_width = Width();
     corrected_height = Width() / aspect_ratio;
   } else {
-- 
2.43.0


From a6a9d5cfe08eb2f38dbb1b93add53e389828fdb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:16 +0000
Subject: [PATCH 07/56] fix: Rect::SetWidth, SetHeight and Scale overflowed for
 large finite rects

The sum of the bounds, or the width of the rect, can exceed the greatest float
although the requested result is finite; halve first, as Center and SemiWidth
do.
---
 ink/geometry/rect.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ink/geometry/rect.h b/ink/geometry/rect.h
index 33a1d8f..8e47d81 100644
--- a/ink/geometry/rect.h
+++ b/ink/geometry/rect.h
@@ -156,8 +156,7 @@ class Rect {
   void Scale(float x_scale, float y_scale) {
     ABSL_CHECK(x_scale >= 0 && y_scale >= 0)
         << "Cannot scale a rectangle by a value less than 0";
-    Offset((-0.5f * (1 - x_scale) * Width()),
-           (-0.5f * (1 - y_scale) * Height()));
+    Offset((x_scale - 1) * SemiWidth(), (y_scale - 1) * SemiHeight());
   }
 
   // Translates the Rect, moving its center by the given offset, and preserving
@@ -249,7 +248,8 @@ inline float Rect::Width() const { return x_max_ - x_min_; }
 
 inline void Rect::SetWidth(float width) {
   ABSL_CHECK(width >= 0) << "Cannot set a width less than 0";
-  float x_center = (x_min_ + x_max_) / 2;
+  // Halve before adding in order to avoid potential overflow.
+  float x_center = 0.5f * x_min_ + 0.5f * x_max_;
   x_min_ = x_center - width / 2;
   x_max_ = x_center + width / 2;
 }
@@ -258,7 +258,8 @@ inline float Rect::Height() const { return y_max_ - y_min_; }
 
 inline void Rect::SetHeight(float height) {
   ABSL_CHECK(height >= 0) << "Cannot set a height less than 0";
-  float y_center = (y_min_ + y_max_) / 2;
+  // Halve before adding in order to avoid potential overflow.
+  float y_center = 0.5f * y_min_ + 0.5f * y_max_;
   y_min_ = y_center - height / 2;
   y_max_ = y_center + height / 2;
 }
-- 
2.43.0


From b33a44e09670e9030f046a02641f67e8b8e96b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:51 +0000
Subject: [PATCH 08/56] fix: endpoints of a tiny segment did not intersect it

When the squared length of a segment underflows to zero the projection does
not exist, and the test answered false even for the segment's own endpoints.
---
 ink/geometry/internal/intersects_internal.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ink/geometry/internal/intersects_internal.cc b/ink/geometry/internal/intersects_internal.cc
index c463706..9695364 100644
--- a/ink/geometry/internal/intersects_internal.cc
+++ b/ink/geometry/internal/intersects_internal.cc
@@ -34,9 +34,9 @@ bool IntersectsInternal(Point a, const Segment& b) {
   // If the point isn't on the line of the segment, they don't intersect.
   if (Vec::Determinant((a - b.start), (b.end - b.start)) != 0) return false;
   std::optional<float> projection = b.Project(a);
-  // The segment is degenerate, and the point is not equivalent to either
-  // endpoint.
-  if (!projection.has_value()) return false;
+  // The segment is too small to compute the projection without underflowing, so
+  // only its endpoints can be compared.
+  if (!projection.has_value()) return a == b.start || a == b.end;
   return *projection >= 0 && *projection <= 1;
 }
 bool IntersectsInternal(Point a, const Triangle& b) { return b.Contains(a); }
-- 
2.43.0


From 1e8aee537b50c407d1bb514c17cf2ddb0d3ccc56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:38 +0000
Subject: [PATCH 09/56] fix: define the default constructor of Quad

It was declared and documented but never defined, so that default-constructing
a Quad failed to link.
---
 ink/geometry/quad.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ink/geometry/quad.h b/ink/geometry/quad.h
index f97cc7d..26c9b40 100644
--- a/ink/geometry/quad.h
+++ b/ink/geometry/quad.h
@@ -83,7 +83,7 @@ class Quad {
  public:
   // Constructs a Quad centered on the origin, with zero width, height,
   // rotation, and shear factor.
-  Quad();
+  Quad() = default;
 
   // Constructs a Quad with the specified parameters, setting unspecified
   // parameters to zero. If the given width is less than zero, the Quad will be
-- 
2.43.0


From a582cfcd1b852f21d698f96d82a1cd1b4b97167f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:09 +0000
Subject: [PATCH 10/56] fix: Quad::Join truncated the distance along the first
 axis

The unqualified abs resolves to the int overload with libstdc++, so that the
joined quad did not contain the point.
---
 ink/geometry/quad.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ink/geometry/quad.cc b/ink/geometry/quad.cc
index 8bb5afc..fc6afd8 100644
--- a/ink/geometry/quad.cc
+++ b/ink/geometry/quad.cc
@@ -84,7 +84,8 @@ void Quad::Join(Point point) {
   float u_cross_q = Vec::Determinant(unit_axes.first, q);
   float v_cross_q = Vec::Determinant(unit_axes.second, q);
   float new_width =
-      std::max(width_, .5f * width_ + abs(u_dot_q - shear_factor_ * u_cross_q));
+      std::max(width_, .5f * width_ +
+                           std::abs(u_dot_q - shear_factor_ * u_cross_q));
   float new_height = std::copysign(1.f, height_) *
                      std::max(std::abs(height_),
                               .5f * std::abs(height_) + std::abs(u_cross_q));
-- 
2.43.0


From 38718645a87ed344fb414fa37f11c220c38202c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:38 +0000
Subject: [PATCH 11/56] fix: a transform that collapses a Quad dropped its
 second semi-axis

The image of a quad under a non-invertible transform is a segment; when the
first semi-axis was mapped to zero the result was a point, and otherwise the
part of the segment covered by the second semi-axis was missing.
---
 ink/geometry/affine_transform.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/ink/geometry/affine_transform.cc b/ink/geometry/affine_transform.cc
index 2b3e39f..f8c71bb 100644
--- a/ink/geometry/affine_transform.cc
+++ b/ink/geometry/affine_transform.cc
@@ -92,6 +92,15 @@ Quad AffineTransform::Apply(const Quad& q) const {
   Angle new_rotation = u.Direction();
   float new_shear = u_cross_v == 0 ? 0 : u_dot_v / u_cross_v;
 
+  if (u_cross_v == 0 && q.Height() != 0 && v != Vec{0, 0}) {
+    // The transform collapses the quad to a segment that the second semi-axis
+    // contributes to.
+    Vec w = v;
+    if (q.Width() != 0) w = u_dot_v < 0 ? u - v : u + v;
+    new_width = 2 * w.Magnitude();
+    new_rotation = w.Direction();
+  }
+
   return Quad::FromCenterDimensionsRotationAndShear(
       new_center, new_width, new_height, new_rotation, new_shear);
 }
-- 
2.43.0


From d49b231a7f0271a20ea8e400ff173b6b5eb2b40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:21 +0000
Subject: [PATCH 12/56] fix: a mesh collapsed along one diagonal of its bounds
 was treated as a point

---
 ink/geometry/internal/algorithms.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/ink/geometry/internal/algorithms.cc b/ink/geometry/internal/algorithms.cc
index f82f9bd..38a39d1 100644
--- a/ink/geometry/internal/algorithms.cc
+++ b/ink/geometry/internal/algorithms.cc
@@ -238,11 +238,18 @@ Segment CalculateCollapsedSegment(
     const AffineTransform& non_invertible_transform) {
   ABSL_DCHECK(!non_invertible_transform.Inverse().has_value());
 
-  // We first transform the diagonal of `query`'s bounds to find the line that
-  // `query` will lie on after transforming it.
+  // We first transform the diagonals of `query`'s bounds to find the line that
+  // `query` will lie on after transforming it. The transform may collapse one
+  // of the diagonals to a point but not the other, so we use the longer one.
   std::array<Point, 4> corners = bounds.Corners();
   Segment transformed_diagonal =
       non_invertible_transform.Apply(Segment{corners[0], corners[2]});
+  Segment other_transformed_diagonal =
+      non_invertible_transform.Apply(Segment{corners[1], corners[3]});
+  if (other_transformed_diagonal.Vector().MagnitudeSquared() >
+      transformed_diagonal.Vector().MagnitudeSquared()) {
+    transformed_diagonal = other_transformed_diagonal;
+  }
 
   if (transformed_diagonal.Vector().MagnitudeSquared() == 0) {
     // The transform collapses the shape to a single point.
-- 
2.43.0


From 31da7cec96b5c247507c3243dbdb8143c7866166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:36 +0000
Subject: [PATCH 13/56] fix: ConvexHull dropped the farthest of the points
 right above its first point

---
 ink/geometry/internal/convex_hull_helper.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ink/geometry/internal/convex_hull_helper.h b/ink/geometry/internal/convex_hull_helper.h
index b6e436f..97019af 100644
--- a/ink/geometry/internal/convex_hull_helper.h
+++ b/ink/geometry/internal/convex_hull_helper.h
@@ -127,8 +127,11 @@ std::vector<typename VertexTessellationHelper::VertexType> ConvexHull(
               Vec rhs_vec{GetX(rhs) - GetX(start_point),
                           GetY(rhs) - GetY(start_point)};
               float det = Vec::Determinant(lhs_vec, rhs_vec);
+              // Points at the same angle are ordered in the same way by both
+              // components of their offset.
               return det > 0 ||
-                     (det == 0 && std::abs(lhs_vec.x) < std::abs(rhs_vec.x));
+                     (det == 0 && std::abs(lhs_vec.x) + std::abs(lhs_vec.y) <
+                                      std::abs(rhs_vec.x) + std::abs(rhs_vec.y));
             });
 
   // Add the sorted points to the hull, removing any that form concavities.
-- 
2.43.0


From ad1e9547556a29005f167d3150bddcee95d3a04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:36 +0000
Subject: [PATCH 14/56] fix: ConvexHull of many points dropped its leftmost,
 rightmost and topmost points

---
 ink/geometry/internal/convex_hull_helper.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ink/geometry/internal/convex_hull_helper.h b/ink/geometry/internal/convex_hull_helper.h
index 97019af..1ce4e95 100644
--- a/ink/geometry/internal/convex_hull_helper.h
+++ b/ink/geometry/internal/convex_hull_helper.h
@@ -68,7 +68,8 @@ PruneUsingAkiToussaint(
   }
 
   // Points that are inside of the quadrilateral formed by the extrema will not
-  // be in the convex hull, and can be eliminated.
+  // be in the convex hull, and can be eliminated, except for the extrema
+  // themselves.
   Triangle upper_triangle{Point{GetX(min_x_point), GetY(min_x_point)},
                           Point{GetX(max_x_point), GetY(max_x_point)},
                           Point{GetX(max_y_point), GetY(max_y_point)}};
@@ -81,8 +82,10 @@ PruneUsingAkiToussaint(
   pruned_points.reserve(points.size());
   for (const auto& p : points) {
     Point test_point{GetX(p), GetY(p)};
-    if (!upper_triangle.Contains(test_point) &&
-        !lower_triangle.Contains(test_point))
+    if (p == max_x_point || p == max_y_point || p == min_x_point ||
+        p == min_y_point ||
+        (!upper_triangle.Contains(test_point) &&
+         !lower_triangle.Contains(test_point)))
       pruned_points.push_back(p);
   }
 
-- 
2.43.0


From 396a982ec01db71aca67481748c1b52acbbc4234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:03 +0000
Subject: [PATCH 15/56] fix: small segments were taken for collinear because a
 product underflowed

---
 ink/geometry/internal/legacy_vector_utils.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/ink/geometry/internal/legacy_vector_utils.cc b/ink/geometry/internal/legacy_vector_utils.cc
index 2907b78..c92d28f 100644
--- a/ink/geometry/internal/legacy_vector_utils.cc
+++ b/ink/geometry/internal/legacy_vector_utils.cc
@@ -64,8 +64,11 @@ RelativePos PositionRelativeToLine(Point p1, Point p2, Point test_point) {
       std::max(std::max(std::max(std::abs(p1.x), std::abs(p1.y)),
                         std::max(std::abs(p2.x), std::abs(p2.y))),
                std::max(std::abs(test_point.x), std::abs(test_point.y)));
-  if (det * det <=
-      max_distance * max_distance * Vec::DotProduct(line_vector, line_vector)) {
+  // The squares are computed in double precision, because they would underflow
+  // for points that are small but nowhere near collinear.
+  if (static_cast<double>(det) * det <=
+      static_cast<double>(max_distance) * max_distance *
+          Vec::DotProduct(line_vector, line_vector)) {
     auto adjust_for_error = [](Point v, Vec dir) {
       auto adjusted = v;
       if (dir.x > 0) {
@@ -91,7 +94,8 @@ RelativePos PositionRelativeToLine(Point p1, Point p2, Point test_point) {
       p1 = adjust_for_error(p1, error_vector);
       p2 = adjust_for_error(p2, error_vector);
     }
-    if (det * Vec::Determinant(p2 - p1, test_point - p1) <= 0)
+    float adjusted_det = Vec::Determinant(p2 - p1, test_point - p1);
+    if (det > 0 ? adjusted_det <= 0 : adjusted_det >= 0)
       return RelativePos::kCollinear;
   }
 
-- 
2.43.0


From faa507ae3008fac2752c94691d67e3c90c3e296e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:17 +0000
Subject: [PATCH 16/56] fix: visiting an empty StaticRTree read the root node
 it does not have

---
 ink/geometry/internal/static_rtree.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ink/geometry/internal/static_rtree.h b/ink/geometry/internal/static_rtree.h
index da0a591..9213844 100644
--- a/ink/geometry/internal/static_rtree.h
+++ b/ink/geometry/internal/static_rtree.h
@@ -382,6 +382,7 @@ void StaticRTree<T, kBranchingFactor>::InitializeTree() {
 template <typename T, uint32_t kBranchingFactor>
 void StaticRTree<T, kBranchingFactor>::VisitIntersectedElements(
     const Rect& bounds, absl::FunctionRef<bool(const T&)> visitor) const {
+  if (branch_nodes_.empty()) return;
   if (!IntersectsInternal(branch_nodes_.front().bounds, bounds)) return;
   VisitIntersectedElementsInSubTree(0, bounds, visitor);
 }
-- 
2.43.0


From 4c2c3392ef608351f68ef6251f1a9c52aecace5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:17 +0000
Subject: [PATCH 17/56] fix: queries on a PartitionedMesh whose render groups
 are all empty crashed

---
 ink/geometry/partitioned_mesh.cc | 28 ++++++++++++++--------------
 ink/geometry/partitioned_mesh.h  |  2 +-
 2 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/ink/geometry/partitioned_mesh.cc b/ink/geometry/partitioned_mesh.cc
index 4201951..55536a7 100644
--- a/ink/geometry/partitioned_mesh.cc
+++ b/ink/geometry/partitioned_mesh.cc
@@ -328,7 +328,7 @@ void VisitIntersectedTrianglesHelper(
 void PartitionedMesh::VisitIntersectedTriangles(
     Point query, absl::FunctionRef<FlowControl(TriangleIndexPair)> visitor,
     const AffineTransform& query_to_this) const {
-  if (!data_) return;
+  if (Meshes().empty()) return;
 
   VisitIntersectedTrianglesHelper(query, visitor, query_to_this,
                                   data_->Meshes(), data_->SpatialIndex());
@@ -338,7 +338,7 @@ void PartitionedMesh::VisitIntersectedTriangles(
     const Segment& query,
     absl::FunctionRef<FlowControl(TriangleIndexPair)> visitor,
     const AffineTransform& query_to_this) const {
-  if (!data_) return;
+  if (Meshes().empty()) return;
 
   VisitIntersectedTrianglesHelper(query, visitor, query_to_this,
                                   data_->Meshes(), data_->SpatialIndex());
@@ -348,7 +348,7 @@ void PartitionedMesh::VisitIntersectedTriangles(
     const Triangle& query,
     absl::FunctionRef<FlowControl(TriangleIndexPair)> visitor,
     const AffineTransform& query_to_this) const {
-  if (!data_) return;
+  if (Meshes().empty()) return;
 
   VisitIntersectedTrianglesHelper(query, visitor, query_to_this,
                                   data_->Meshes(), data_->SpatialIndex());
@@ -358,7 +358,7 @@ void PartitionedMesh::VisitIntersectedTriangles(
     const Rect& query,
     absl::FunctionRef<FlowControl(TriangleIndexPair)> visitor,
     const AffineTransform& query_to_this) const {
-  if (!data_) return;
+  if (Meshes().empty()) return;
 
   VisitIntersectedTrianglesHelper(query, visitor, query_to_this,
                                   data_->Meshes(), data_->SpatialIndex());
@@ -368,7 +368,7 @@ void PartitionedMesh::VisitIntersectedTriangles(
     const Quad& query,
     absl::FunctionRef<FlowControl(TriangleIndexPair)> visitor,
     const AffineTransform& query_to_this) const {
-  if (!data_) return;
+  if (Meshes().empty()) return;
 
   VisitIntersectedTrianglesHelper(query, visitor, query_to_this,
                                   data_->Meshes(), data_->SpatialIndex());
@@ -424,7 +424,7 @@ void PartitionedMesh::VisitIntersectedTriangles(
     const PartitionedMesh& query,
     absl::FunctionRef<FlowControl(TriangleIndexPair)> visitor,
     const AffineTransform& query_to_this) const {
-  if (!data_) return;
+  if (Meshes().empty()) return;
 
   // If `query` is empty, it can't intersect this shape.
   if (query.Meshes().empty()) return;
@@ -475,28 +475,28 @@ float ComputeCoverage(const QueryType& query,
 
 float PartitionedMesh::Coverage(const Triangle& query,
                                 const AffineTransform& query_to_this) const {
-  if (data_ == nullptr) return 0;
+  if (Meshes().empty()) return 0;
   return ComputeCoverage(query, query_to_this, *this,
                          data_->TotalAbsoluteArea());
 }
 
 float PartitionedMesh::Coverage(const Rect& query,
                                 const AffineTransform& query_to_this) const {
-  if (data_ == nullptr) return 0;
+  if (Meshes().empty()) return 0;
   return ComputeCoverage(query, query_to_this, *this,
                          data_->TotalAbsoluteArea());
 }
 
 float PartitionedMesh::Coverage(const Quad& query,
                                 const AffineTransform& query_to_this) const {
-  if (data_ == nullptr) return 0;
+  if (Meshes().empty()) return 0;
   return ComputeCoverage(query, query_to_this, *this,
                          data_->TotalAbsoluteArea());
 }
 
 float PartitionedMesh::Coverage(const PartitionedMesh& query,
                                 const AffineTransform& query_to_this) const {
-  if (data_ == nullptr) return 0;
+  if (Meshes().empty()) return 0;
   return ComputeCoverage(query, query_to_this, *this,
                          data_->TotalAbsoluteArea());
 }
@@ -533,7 +533,7 @@ float CoverageIsGreaterThanHelper(const QueryType& query,
 bool PartitionedMesh::CoverageIsGreaterThan(
     const Triangle& query, float coverage_threshold,
     const AffineTransform& query_to_this) const {
-  if (data_ == nullptr) return false;
+  if (Meshes().empty()) return false;
   return CoverageIsGreaterThanHelper(query, query_to_this, *this,
                                      coverage_threshold,
                                      data_->TotalAbsoluteArea());
@@ -542,7 +542,7 @@ bool PartitionedMesh::CoverageIsGreaterThan(
 bool PartitionedMesh::CoverageIsGreaterThan(
     const Rect& query, float coverage_threshold,
     const AffineTransform& query_to_this) const {
-  if (data_ == nullptr) return false;
+  if (Meshes().empty()) return false;
   return CoverageIsGreaterThanHelper(query, query_to_this, *this,
                                      coverage_threshold,
                                      data_->TotalAbsoluteArea());
@@ -551,7 +551,7 @@ bool PartitionedMesh::CoverageIsGreaterThan(
 bool PartitionedMesh::CoverageIsGreaterThan(
     const Quad& query, float coverage_threshold,
     const AffineTransform& query_to_this) const {
-  if (data_ == nullptr) return false;
+  if (Meshes().empty()) return false;
   return CoverageIsGreaterThanHelper(query, query_to_this, *this,
                                      coverage_threshold,
                                      data_->TotalAbsoluteArea());
@@ -560,7 +560,7 @@ bool PartitionedMesh::CoverageIsGreaterThan(
 bool PartitionedMesh::CoverageIsGreaterThan(
     const PartitionedMesh& query, float coverage_threshold,
     const AffineTransform& query_to_this) const {
-  if (data_ == nullptr) return false;
+  if (Meshes().empty()) return false;
   return CoverageIsGreaterThanHelper(query, query_to_this, *this,
                                      coverage_threshold,
                                      data_->TotalAbsoluteArea());
diff --git a/ink/geometry/partitioned_mesh.h b/ink/geometry/partitioned_mesh.h
index 34b5876..a8ee5a0 100644
--- a/ink/geometry/partitioned_mesh.h
+++ b/ink/geometry/partitioned_mesh.h
@@ -474,7 +474,7 @@ inline uint32_t PartitionedMesh::OutlineVertexCount(
 }
 
 inline void PartitionedMesh::InitializeSpatialIndex() {
-  if (!data_) return;
+  if (Meshes().empty()) return;
 
   (void)data_->SpatialIndex();
 }
-- 
2.43.0


From 94ea9942a49ab160330aaa07236e6e26ff01c8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:56 +0000
Subject: [PATCH 18/56] fix: triangles past the first 65536 of a mesh were
 missing from the spatial index

---
 ink/geometry/partitioned_mesh.cc | 2 +-
 ink/geometry/partitioned_mesh.h  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ink/geometry/partitioned_mesh.cc b/ink/geometry/partitioned_mesh.cc
index 55536a7..6200b9a 100644
--- a/ink/geometry/partitioned_mesh.cc
+++ b/ink/geometry/partitioned_mesh.cc
@@ -584,7 +584,7 @@ const RTree& PartitionedMesh::Data::SpatialIndex() const {
   // in order of mesh index, then triangle index.
   //
   // We want to start at mesh_index = 0, triangle_index = 0, but since they're
-  // `uint16_t`s, we have to make a copy of the current index, then increment
+  // unsigned, we have to make a copy of the current index, then increment
   // the current value, then return the copy (analogous to the post-increment
   // operator).
   auto triangle_index_pair_generator =
diff --git a/ink/geometry/partitioned_mesh.h b/ink/geometry/partitioned_mesh.h
index a8ee5a0..6cb9333 100644
--- a/ink/geometry/partitioned_mesh.h
+++ b/ink/geometry/partitioned_mesh.h
@@ -78,7 +78,7 @@ class PartitionedMesh {
     // The index of the `Mesh` that the triangle belongs to.
     uint16_t mesh_index;
     // The index of the triangle within the `Mesh`.
-    uint16_t triangle_index;
+    uint32_t triangle_index;
   };
 
   // One render group for a `PartitionedMesh`, expressed using `MutableMesh`.
-- 
2.43.0


From 852284c8e9b8cfe2a5e416e5ee0de1b1a447b16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:56 +0000
Subject: [PATCH 19/56] fix: PartitionedMesh::Coverage was NaN for a mesh
 without area

---
 ink/geometry/partitioned_mesh.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ink/geometry/partitioned_mesh.cc b/ink/geometry/partitioned_mesh.cc
index 6200b9a..0f51d0a 100644
--- a/ink/geometry/partitioned_mesh.cc
+++ b/ink/geometry/partitioned_mesh.cc
@@ -468,6 +468,8 @@ float ComputeCoverage(const QueryType& query,
         return PartitionedMesh::FlowControl::kContinue;
       },
       query_to_target);
+  // A shape whose triangles are all degenerate has no area to cover.
+  if (total_absolute_area == 0) return 0;
   return covered_area / total_absolute_area;
 }
 
-- 
2.43.0


From be3c6bf6e25ddb18170d2ccbbc45f9b3142bfb6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:44 +0000
Subject: [PATCH 20/56] fix: segments and triangles from the edge of a Quad to
 its inside were missed

---
 ink/geometry/internal/intersects_internal.cc | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/ink/geometry/internal/intersects_internal.cc b/ink/geometry/internal/intersects_internal.cc
index 9695364..9d99a00 100644
--- a/ink/geometry/internal/intersects_internal.cc
+++ b/ink/geometry/internal/intersects_internal.cc
@@ -139,8 +139,9 @@ bool IntersectsInternal(const Segment& a, const Quad& b) {
   // majority of expected inputs.
 
   // Check if the Quad contains a Point from the Segment to verify that the
-  // Segment is not fully contained.
-  if (b.Contains(a.start)) return true;
+  // Segment is not fully contained. Both ends are checked, because the check of
+  // the edges may miss, due to rounding, an end that lies on one of them.
+  if (b.Contains(a.start) || b.Contains(a.end)) return true;
   // Check if any lines of the Quad intersect the Segment.
   for (int i = 0; i < 4; ++i) {
     if (IntersectsInternal(a, b.GetEdge(i))) return true;
@@ -210,8 +211,13 @@ bool IntersectsInternal(const Triangle& a, const Quad& b) {
   // faster for the majority of expected inputs.
 
   // Check if either shape contains a Point from the other to verify that
-  // neither shape fully contains the other.
-  if (b.Contains(a.p0) || a.Contains(b.Center())) return true;
+  // neither shape fully contains the other. Every Point of the Triangle is
+  // checked, because the check of the edges may miss, due to rounding, a Point
+  // that lies on one of them.
+  if (b.Contains(a.p0) || b.Contains(a.p1) || b.Contains(a.p2) ||
+      a.Contains(b.Center())) {
+    return true;
+  }
   // Check if any lines of one shape intersect any lines of the other shape.
   for (int i = 0; i < 3; ++i) {
     for (int j = 0; j < 4; ++j) {
-- 
2.43.0


From 7a9c379a02d08777538764e92e9ca90b08693696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:50 +0000
Subject: [PATCH 21/56] fix: degenerate triangles contained far away points
 close to their line

---
 ink/geometry/triangle.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/ink/geometry/triangle.cc b/ink/geometry/triangle.cc
index 34e6f03..8973b76 100644
--- a/ink/geometry/triangle.cc
+++ b/ink/geometry/triangle.cc
@@ -79,7 +79,15 @@ bool Triangle::Contains(Point point) const {
   }
 
   float d2 = Vec::Determinant(point - p2, p0 - p2);
-  return (d1 * d2 >= 0) && (d0 * d2 >= 0);
+  if (d1 * d2 < 0 || d0 * d2 < 0) return false;
+
+  // If the triangle is degenerate, or nearly so, then the determinants of a
+  // point close to its line may have any sign, due to rounding, no matter how
+  // far away the point is.
+  return point.x >= std::min({p0.x, p1.x, p2.x}) &&
+         point.x <= std::max({p0.x, p1.x, p2.x}) &&
+         point.y >= std::min({p0.y, p1.y, p2.y}) &&
+         point.y <= std::max({p0.y, p1.y, p2.y});
 }
 
 Segment Triangle::GetEdge(int index) const {
-- 
2.43.0


From 7eefe949f194e19563a8b868ce9f02a646380f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:50 +0000
Subject: [PATCH 22/56] fix: nearly collinear segments were taken to cross no
 matter how far apart

---
 ink/geometry/internal/intersects_internal.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/ink/geometry/internal/intersects_internal.cc b/ink/geometry/internal/intersects_internal.cc
index 9d99a00..2cf3a7b 100644
--- a/ink/geometry/internal/intersects_internal.cc
+++ b/ink/geometry/internal/intersects_internal.cc
@@ -14,6 +14,7 @@
 
 #include "ink/geometry/internal/intersects_internal.h"
 
+#include <algorithm>
 #include <optional>
 #include <utility>
 
@@ -81,6 +82,14 @@ bool IntersectsInternal(const Segment& a, const Segment& b) {
     }
     return false;
   }
+  // If the segments are nearly collinear, then the signs of the cross products
+  // below depend on rounding, no matter how far apart the segments are.
+  if (std::max(a.start.x, a.end.x) < std::min(b.start.x, b.end.x) ||
+      std::max(b.start.x, b.end.x) < std::min(a.start.x, a.end.x) ||
+      std::max(a.start.y, a.end.y) < std::min(b.start.y, b.end.y) ||
+      std::max(b.start.y, b.end.y) < std::min(a.start.y, a.end.y)) {
+    return false;
+  }
   // Use cross products to verify that the endpoints of a Segment are either on
   // opposite sides of the other Segment, or that one of the endpoints lies on
   // the other Segment.
-- 
2.43.0


From ef6644af6e347dcf03e0115713ed8941d484ea5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:03 +0000
Subject: [PATCH 23/56] fix: append a StrokeInputBatch to itself without
 reading what is being modified

---
 ink/strokes/input/stroke_input_batch.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ink/strokes/input/stroke_input_batch.cc b/ink/strokes/input/stroke_input_batch.cc
index d22da46..0721f8d 100644
--- a/ink/strokes/input/stroke_input_batch.cc
+++ b/ink/strokes/input/stroke_input_batch.cc
@@ -329,6 +329,9 @@ absl::StatusOr<StrokeInputBatch> StrokeInputBatch::Create(
 absl::Status StrokeInputBatch::Append(const StrokeInputBatch& inputs) {
   if (inputs.IsEmpty()) return absl::OkStatus();
 
+  // Appending a batch to itself must not read from the data being modified.
+  if (this == &inputs) return Append(StrokeInputBatch(inputs));
+
   if (IsEmpty()) {
     *this = inputs;
     return absl::OkStatus();
-- 
2.43.0


From fe2fdcf20d34ff5203b4c3350525626398203d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:33 +0000
Subject: [PATCH 24/56] fix: interpolated inputs without orientation gained one

---
 ink/strokes/internal/brush_tip_modeler_helpers.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ink/strokes/internal/brush_tip_modeler_helpers.cc b/ink/strokes/internal/brush_tip_modeler_helpers.cc
index cf52d25..330661a 100644
--- a/ink/strokes/internal/brush_tip_modeler_helpers.cc
+++ b/ink/strokes/internal/brush_tip_modeler_helpers.cc
@@ -644,8 +644,13 @@ ModeledStrokeInput Lerp(const ModeledStrokeInput& a,
               a.elapsed_time.ToMillis(), b.elapsed_time.ToMillis(), t)),
           .pressure = geometry_internal::Lerp(a.pressure, b.pressure, t),
           .tilt = geometry_internal::Lerp(a.tilt, b.tilt, t),
-          .orientation = geometry_internal::NormalizedAngleLerp(
-              a.orientation, b.orientation, t)};
+          // `NormalizedAngleLerp` would turn the value for a missing orientation
+          // into an angle that looks like a reported one.
+          .orientation = a.orientation == StrokeInput::kNoOrientation ||
+                                 b.orientation == StrokeInput::kNoOrientation
+                             ? StrokeInput::kNoOrientation
+                             : geometry_internal::NormalizedAngleLerp(
+                                   a.orientation, b.orientation, t)};
 }
 
 }  // namespace ink::strokes_internal
-- 
2.43.0


From d332dab996b17ef59a42b661adb41178eb7a3b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:16 +0000
Subject: [PATCH 25/56] fix: behavior values that overflow reached the brush
 tip

---
 ink/strokes/internal/brush_tip_modeler_helpers.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/ink/strokes/internal/brush_tip_modeler_helpers.cc b/ink/strokes/internal/brush_tip_modeler_helpers.cc
index 330661a..efe6cbf 100644
--- a/ink/strokes/internal/brush_tip_modeler_helpers.cc
+++ b/ink/strokes/internal/brush_tip_modeler_helpers.cc
@@ -397,7 +397,11 @@ void ProcessBehaviorNodeImpl(const DampingNodeImplementation& node,
 void ProcessBehaviorNodeImpl(const EasingImplementation& node,
                              const BehaviorNodeContext& context) {
   ABSL_DCHECK(!context.stack.empty());
-  context.stack.back() = node.GetY(context.stack.back());
+  float result = node.GetY(context.stack.back());
+  // If the response curve results in a non-finite value (e.g. by extrapolating
+  // a steep segment to infinity), treat the result as null.
+  context.stack.back() =
+      std::isfinite(result) ? result : kNullBehaviorNodeValue;
 }
 
 void ProcessBehaviorNodeImpl(const BrushBehavior::BinaryOpNode& node,
@@ -465,8 +469,11 @@ void ProcessBehaviorNodeImpl(const TargetNodeImplementation& node,
   float input = context.stack.back();
   context.stack.pop_back();
   if (IsNullBehaviorNodeValue(input)) return;
-  context.target_modifiers[node.target_index] =
+  float modifier =
       Lerp(node.target_modifier_range[0], node.target_modifier_range[1], input);
+  // If the modifier overflowed, treat it as though the input were null.
+  if (!std::isfinite(modifier)) return;
+  context.target_modifiers[node.target_index] = modifier;
 }
 
 }  // namespace
-- 
2.43.0


From f64cb39b12555eebf4ef080e6590bf06d8de190d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:15 +0000
Subject: [PATCH 26/56] fix: rounding of a time or distance that does not
 matter held back particles

---
 ink/strokes/internal/brush_tip_modeler.cc | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/ink/strokes/internal/brush_tip_modeler.cc b/ink/strokes/internal/brush_tip_modeler.cc
index b96db30..3a91e7b 100644
--- a/ink/strokes/internal/brush_tip_modeler.cc
+++ b/ink/strokes/internal/brush_tip_modeler.cc
@@ -532,12 +532,16 @@ void BrushTipModeler::ProcessSingleInput(
       .elapsed_time = current_input.elapsed_time - previous_input->elapsed_time,
   };
 
-  while ((current_input.traveled_distance -
-          last_modeled_tip_state_metrics->traveled_distance) >=
-             particle_gap_metrics_.traveled_distance &&
-         (current_input.elapsed_time -
-          last_modeled_tip_state_metrics->elapsed_time) >=
-             particle_gap_metrics_.elapsed_time) {
+  // A gap of zero must never hold back a particle, so it is not compared with
+  // the metrics of interpolated inputs, which can be off by a rounding error.
+  while ((particle_gap_metrics_.traveled_distance == 0 ||
+          (current_input.traveled_distance -
+           last_modeled_tip_state_metrics->traveled_distance) >=
+              particle_gap_metrics_.traveled_distance) &&
+         (particle_gap_metrics_.elapsed_time == Duration32::Zero() ||
+          (current_input.elapsed_time -
+           last_modeled_tip_state_metrics->elapsed_time) >=
+              particle_gap_metrics_.elapsed_time)) {
     // Calculate an interpolation value from the current input toward the
     // previous input for the new particle tip state.
     float t = 1.f;
-- 
2.43.0


From b123b1a5f28dbdeddad2b81ecc8f6393b476543b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:15 +0000
Subject: [PATCH 27/56] fix: tip states moved along the travel direction were
 fixed before it was known

---
 ink/strokes/internal/brush_tip_modeler.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/ink/strokes/internal/brush_tip_modeler.cc b/ink/strokes/internal/brush_tip_modeler.cc
index 3a91e7b..9585693 100644
--- a/ink/strokes/internal/brush_tip_modeler.cc
+++ b/ink/strokes/internal/brush_tip_modeler.cc
@@ -260,6 +260,14 @@ bool SourceDependsOnNextModeledInput(BrushBehavior::Source source) {
   return false;
 }
 
+bool TargetDependsOnNextModeledInput(BrushBehavior::Target target) {
+  // These targets move the tip relative to the travel direction.
+  return target == BrushBehavior::Target::
+                       kPositionOffsetForwardInMultiplesOfBrushSize ||
+         target == BrushBehavior::Target::
+                       kPositionOffsetLateralInMultiplesOfBrushSize;
+}
+
 Duration32 TimeSinceLastInput(
     const StrokeInputModeler::State& input_modeler_state) {
   // TODO: b/287041801 - Do we need to consider predicted inputs here too?
@@ -370,6 +378,9 @@ void BrushTipModeler::AppendBehaviorNode(
       .target_modifier_range = node.target_modifier_range,
   });
   behavior_targets_.push_back(node.target);
+  if (TargetDependsOnNextModeledInput(node.target)) {
+    behaviors_depend_on_next_input_ = true;
+  }
   float initial_modifier = InitialTargetModifierValue(node.target);
   current_target_modifiers_.push_back(initial_modifier);
   fixed_target_modifiers_.push_back(initial_modifier);
-- 
2.43.0


From 97620d6f2e9146e5cc09f55f9b0514d79d26baa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:26 +0000
Subject: [PATCH 28/56] fix: a flat stylus interpolated beyond a quarter turn
 leaned the other way

---
 ink/strokes/internal/brush_tip_modeler_helpers.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ink/strokes/internal/brush_tip_modeler_helpers.cc b/ink/strokes/internal/brush_tip_modeler_helpers.cc
index efe6cbf..0b173ba 100644
--- a/ink/strokes/internal/brush_tip_modeler_helpers.cc
+++ b/ink/strokes/internal/brush_tip_modeler_helpers.cc
@@ -61,16 +61,18 @@ bool IsToolTypeEnabled(BrushBehavior::EnabledToolTypes enabled_tool_types,
 std::optional<float> GetTiltX(Angle tilt, Angle orientation) {
   if (tilt == Angle()) return 0;
   // When tilt equals pi/2, tilt-x and tilt-y are indeterminate, so we return
-  // std::nullopt.
-  if (tilt == kQuarterTurn) return std::nullopt;
+  // std::nullopt. Interpolation can put tilt a rounding error beyond pi/2, where
+  // the tangent would have the opposite sign.
+  if (tilt >= kQuarterTurn) return std::nullopt;
   return Atan(Cos(orientation) * Tan(tilt)).ValueInRadians();
 }
 
 std::optional<float> GetTiltY(Angle tilt, Angle orientation) {
   if (tilt == Angle()) return 0;
   // When tilt equals pi/2, tilt-x and tilt-y are indeterminate, so we return
-  // std::nullopt.
-  if (tilt == kQuarterTurn) return std::nullopt;
+  // std::nullopt. Interpolation can put tilt a rounding error beyond pi/2, where
+  // the tangent would have the opposite sign.
+  if (tilt >= kQuarterTurn) return std::nullopt;
   return Atan(Sin(orientation) * Tan(tilt)).ValueInRadians();
 }
 
-- 
2.43.0


From abea97167f9e08d608441740ccbe8f17eaaf8897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:25 +0000
Subject: [PATCH 29/56] fix: restarting a stroke with its own current brush
 read a destroyed brush

---
 ink/strokes/in_progress_stroke.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ink/strokes/in_progress_stroke.cc b/ink/strokes/in_progress_stroke.cc
index fb38212..edaf74b 100644
--- a/ink/strokes/in_progress_stroke.cc
+++ b/ink/strokes/in_progress_stroke.cc
@@ -16,6 +16,7 @@
 
 #include <cstdint>
 #include <optional>
+#include <utility>
 #include <vector>
 
 #include "absl/algorithm/container.h"
@@ -57,8 +58,10 @@ void InProgressStroke::Clear() {
 }
 
 void InProgressStroke::Start(const Brush& brush) {
+  // Copy `brush` before clearing, since it may refer to the current brush.
+  Brush new_brush = brush;
   Clear();
-  brush_ = brush;
+  brush_ = std::move(new_brush);
   inputs_are_finished_ = false;
 
   absl::Span<const BrushCoat> coats = brush_->GetCoats();
-- 
2.43.0


From 226925f95302a648a975c28a8fcfb04b978f9867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:25 +0000
Subject: [PATCH 30/56] fix: inputs whose predicted geometry was removed were
 still reported as processed

---
 ink/strokes/in_progress_stroke.cc | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/ink/strokes/in_progress_stroke.cc b/ink/strokes/in_progress_stroke.cc
index edaf74b..a314ff6 100644
--- a/ink/strokes/in_progress_stroke.cc
+++ b/ink/strokes/in_progress_stroke.cc
@@ -125,11 +125,9 @@ absl::Status InProgressStroke::UpdateShape(Duration32 current_elapsed_time) {
       !status.ok()) {
     return status;
   }
-  if (inputs_are_finished_ || !queued_real_inputs_.IsEmpty() ||
-      !queued_predicted_inputs_.IsEmpty()) {
-    // Erase any old predicted inputs.
-    processed_inputs_.Erase(real_input_count_);
-  }
+  // Erase any old predicted inputs. The geometry that came from them is removed
+  // below by the `shape_builders_`, even if there are no new inputs.
+  processed_inputs_.Erase(real_input_count_);
 
   if (absl::Status status = processed_inputs_.Append(queued_real_inputs_);
       !status.ok()) {
-- 
2.43.0


From 933196799812cf2c25a29b646a179ff01631869f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:26 +0000
Subject: [PATCH 31/56] fix: an outline around no triangles made a partitioned
 mesh fail

---
 ink/geometry/partitioned_mesh.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ink/geometry/partitioned_mesh.cc b/ink/geometry/partitioned_mesh.cc
index 0f51d0a..3cc1c24 100644
--- a/ink/geometry/partitioned_mesh.cc
+++ b/ink/geometry/partitioned_mesh.cc
@@ -160,6 +160,9 @@ absl::StatusOr<PartitionedMesh> PartitionedMesh::FromMutableMeshGroups(
             outline_index_pairs.push_back(it->second);
           }
         }
+        // None of the outline's vertices are part of any triangle, so there is
+        // nothing left to outline.
+        if (outline_index_pairs.empty()) group_partitioned_outlines.pop_back();
       }
     }
 
-- 
2.43.0


From e2b01f2c6852d556130749eb76d46638b76ae71c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:30 +0000
Subject: [PATCH 32/56] fix: a finished stroke that still included its
 prediction claimed to be dry

---
 ink/strokes/in_progress_stroke.cc | 2 ++
 ink/strokes/in_progress_stroke.h  | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/ink/strokes/in_progress_stroke.cc b/ink/strokes/in_progress_stroke.cc
index a314ff6..9fa6652 100644
--- a/ink/strokes/in_progress_stroke.cc
+++ b/ink/strokes/in_progress_stroke.cc
@@ -169,6 +169,8 @@ bool InProgressStroke::NeedsUpdate() const {
   if (!queued_real_inputs_.IsEmpty() || !queued_predicted_inputs_.IsEmpty()) {
     return true;
   }
+  // The next update of a finished stroke removes the remaining prediction.
+  if (inputs_are_finished_ && PredictedInputCount() > 0) return true;
   uint32_t num_coats = BrushCoatCount();
   for (uint32_t coat_index = 0; coat_index < num_coats; ++coat_index) {
     if (shape_builders_[coat_index].HasUnfinishedTimeBehaviors()) {
diff --git a/ink/strokes/in_progress_stroke.h b/ink/strokes/in_progress_stroke.h
index 8d90f7c..82a7249 100644
--- a/ink/strokes/in_progress_stroke.h
+++ b/ink/strokes/in_progress_stroke.h
@@ -153,6 +153,8 @@ class InProgressStroke {
   //   * If there are no active animation behaviors, but there are pending
   //     inputs from an `EnqueueInputs()` call that have not yet been consumed
   //     by a call to `UpdateShape()`, returns true.
+  //   * If inputs are finished but the stroke still includes predicted inputs,
+  //     which the next call to `UpdateShape()` will remove, returns true.
   //   * Otherwise, returns false.
   //
   // Once `InputsAreFinished()` returns true and this method returns false, the
-- 
2.43.0


From 12de41d0fde37232a25ca31822c351087bc3f142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:17 +0000
Subject: [PATCH 33/56] fix: moving a stroke in progress left its geometry
 builders pointing at the old object

---
 ink/strokes/in_progress_stroke.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ink/strokes/in_progress_stroke.h b/ink/strokes/in_progress_stroke.h
index 82a7249..798f4fd 100644
--- a/ink/strokes/in_progress_stroke.h
+++ b/ink/strokes/in_progress_stroke.h
@@ -18,9 +18,9 @@
 #include <cstddef>
 #include <cstdint>
 #include <optional>
+#include <vector>
 
 #include "absl/base/nullability.h"
-#include "absl/container/inlined_vector.h"
 #include "absl/log/absl_check.h"
 #include "absl/status/status.h"
 #include "absl/types/span.h"
@@ -265,7 +265,11 @@ class InProgressStroke {
   // A vector with at least one `StrokeShapeBuilder` for each `BrushCoat` in the
   // current brush (and potentially more; in order to cache allocations, we
   // never shrink this vector).
-  absl::InlinedVector<strokes_internal::StrokeShapeBuilder, 1> shape_builders_;
+  //
+  // The elements must not be stored inline, since a `StrokeShapeBuilder` cannot
+  // be moved in the middle of a stroke (its tips point to its mesh), but moving
+  // an `InProgressStroke` is allowed at any time.
+  std::vector<strokes_internal::StrokeShapeBuilder> shape_builders_;
   // The region updated by `UpdateShape()` since the last call to `Start()` or
   // `ResetUpdatedRegion()`.
   Envelope updated_region_;
-- 
2.43.0


From aad6498ddad4b9b924ff5202918b9f426970ec81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:20 +0000
Subject: [PATCH 34/56] fix: mesh bounds kept positions of vertices that had
 been moved

---
 ink/strokes/internal/brush_tip_extruder.cc    | 11 ++++++++++
 ink/strokes/internal/brush_tip_extruder.h     |  4 ++++
 .../internal/brush_tip_extruder/geometry.cc   |  9 ++++++++
 .../internal/brush_tip_extruder/geometry.h    | 22 +++++++++++++++++++
 4 files changed, 46 insertions(+)

diff --git a/ink/strokes/internal/brush_tip_extruder.cc b/ink/strokes/internal/brush_tip_extruder.cc
index eef4538..211e8e5 100644
--- a/ink/strokes/internal/brush_tip_extruder.cc
+++ b/ink/strokes/internal/brush_tip_extruder.cc
@@ -136,6 +136,15 @@ void BrushTipExtruder::ClearCachedPartialBounds() {
   bounds_.cached_partial_bounds_right_index_count = 0;
 }
 
+void BrushTipExtruder::ClearCachedPartialBoundsIfMoved() {
+  if (geometry_.FirstMovedLeftIndexOffset() <
+          bounds_.cached_partial_bounds_left_index_count ||
+      geometry_.FirstMovedRightIndexOffset() <
+          bounds_.cached_partial_bounds_right_index_count) {
+    ClearCachedPartialBounds();
+  }
+}
+
 namespace {
 
 void AddPositionsToEnvelope(const MutableMeshView& mesh_view,
@@ -180,6 +189,7 @@ void BrushTipExtruder::UpdateCachedPartialBounds() {
   // `cached_partial_bounds_right_index_count` would not be incremented. Then,
   // any positions not picked up here would be picked up later in
   // `UpdateCurrentBounds()`.
+  ClearCachedPartialBoundsIfMoved();
   UpdateCachedPartialBoundsForSide(
       geometry_.GetMeshView(), geometry_.LeftSide(),
       bounds_.cached_partial_bounds,
@@ -191,6 +201,7 @@ void BrushTipExtruder::UpdateCachedPartialBounds() {
 }
 
 void BrushTipExtruder::UpdateCurrentBounds() {
+  ClearCachedPartialBoundsIfMoved();
   bounds_.current = bounds_.cached_partial_bounds;
 
   AddPositionsToEnvelope(
diff --git a/ink/strokes/internal/brush_tip_extruder.h b/ink/strokes/internal/brush_tip_extruder.h
index a153906..72590d5 100644
--- a/ink/strokes/internal/brush_tip_extruder.h
+++ b/ink/strokes/internal/brush_tip_extruder.h
@@ -131,6 +131,10 @@ class BrushTipExtruder {
   // partial bounds were mutated or deleted.
   void ClearCachedPartialBounds();
 
+  // Calls `ClearCachedPartialBounds()` if any of the vertices that contributed
+  // to them has been moved since the start of the current `ExtendStroke()`.
+  void ClearCachedPartialBoundsIfMoved();
+
   // Updates the value of `bounds_.cached_partial_bounds`.
   //
   // This function expects to be called right after `ExtendStroke()` has
diff --git a/ink/strokes/internal/brush_tip_extruder/geometry.cc b/ink/strokes/internal/brush_tip_extruder/geometry.cc
index d94e6ad..2546fce 100644
--- a/ink/strokes/internal/brush_tip_extruder/geometry.cc
+++ b/ink/strokes/internal/brush_tip_extruder/geometry.cc
@@ -283,6 +283,8 @@ void Geometry::ResetMutationTracking() {
       left_side_.indices.size();
   first_mutated_right_index_offset_in_current_partition_ =
       right_side_.indices.size();
+  first_moved_left_index_offset_ = std::numeric_limits<uint32_t>::max();
+  first_moved_right_index_offset_ = std::numeric_limits<uint32_t>::max();
 }
 
 namespace {
@@ -2971,6 +2973,13 @@ void Geometry::SetVertex(IndexType index, const ExtrudedVertex& new_vertex,
     UpdateFirstMutatedSideIndexValue(index, first_mutated_right_index_);
   }
 
+  if (update_save_state && mesh_.GetPosition(index) != new_vertex.position) {
+    uint32_t& first_moved_offset = vertex_side_ids_[index] == SideId::kLeft
+                                       ? first_moved_left_index_offset_
+                                       : first_moved_right_index_offset_;
+    first_moved_offset = std::min(first_moved_offset, side_offsets_[index]);
+  }
+
   mesh_.SetVertex(index, new_vertex);
 }
 
diff --git a/ink/strokes/internal/brush_tip_extruder/geometry.h b/ink/strokes/internal/brush_tip_extruder/geometry.h
index 40a3951..d8eec62 100644
--- a/ink/strokes/internal/brush_tip_extruder/geometry.h
+++ b/ink/strokes/internal/brush_tip_extruder/geometry.h
@@ -18,6 +18,7 @@
 #include <array>
 #include <cstddef>
 #include <cstdint>
+#include <limits>
 #include <optional>
 #include <vector>
 
@@ -168,6 +169,13 @@ class Geometry {
   uint32_t FirstMutatedLeftIndexOffsetInCurrentPartition() const;
   uint32_t FirstMutatedRightIndexOffsetInCurrentPartition() const;
 
+  // The following return the first offset into `Side::indices` of an already
+  // existing vertex that has been given another position, not including those
+  // that were restored by `RevertToSavePoint()`. If there are none, this will be
+  // the maximum value.
+  uint32_t FirstMovedLeftIndexOffset() const;
+  uint32_t FirstMovedRightIndexOffset() const;
+
   const MutableMeshView& GetMeshView() const;
 
   // Resets the values of member variables tracking mutations, including the
@@ -699,6 +707,12 @@ class Geometry {
   uint32_t first_mutated_left_index_offset_in_current_partition_ = 0;
   uint32_t first_mutated_right_index_offset_in_current_partition_ = 0;
 
+  // The following members keep track of vertices that were moved.
+  uint32_t first_moved_left_index_offset_ =
+      std::numeric_limits<uint32_t>::max();
+  uint32_t first_moved_right_index_offset_ =
+      std::numeric_limits<uint32_t>::max();
+
   DerivativeCalculator derivative_calculator_;
 };
 
@@ -715,6 +729,14 @@ inline const Side& Geometry::LeftSide() const { return left_side_; }
 
 inline const Side& Geometry::RightSide() const { return right_side_; }
 
+inline uint32_t Geometry::FirstMovedLeftIndexOffset() const {
+  return first_moved_left_index_offset_;
+}
+
+inline uint32_t Geometry::FirstMovedRightIndexOffset() const {
+  return first_moved_right_index_offset_;
+}
+
 inline uint32_t Geometry::FirstMutatedLeftIndexOffsetInCurrentPartition()
     const {
   return first_mutated_left_index_offset_in_current_partition_;
-- 
2.43.0


From f018622b90bd073fe1b3e21dedc4c158a3a9db11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:36 +0000
Subject: [PATCH 35/56] fix: no tangent was found between tip shapes that reach
 back beside each other

---
 ink/strokes/internal/brush_tip_shape.cc | 64 +++++++++++++++++++++----
 1 file changed, 54 insertions(+), 10 deletions(-)

diff --git a/ink/strokes/internal/brush_tip_shape.cc b/ink/strokes/internal/brush_tip_shape.cc
index 13a5536..6b4f81c 100644
--- a/ink/strokes/internal/brush_tip_shape.cc
+++ b/ink/strokes/internal/brush_tip_shape.cc
@@ -124,6 +124,24 @@ SmallArray<Circle, 4> MakeShapeControlCircles(
   // together the two control circles that lie below the x-axis before rotation.
   float x_after_pinch = (1 - tip_state.pinch) * x;
 
+  // A slant near a quarter turn lays all of the control circles on one line,
+  // where some of them would coincide or fall between others. If the separation
+  // across that line would be less than the threshold, the shape is a stadium
+  // made with the two outermost circles.
+  float sin_slant = Sin(tip_state.slant);
+  float cos_slant = Cos(tip_state.slant);
+  if (2 * y * std::abs(cos_slant) < min_nonzero_radius_and_separation) {
+    auto make_flat_circle = [&rotate_and_translate, radius](float x) {
+      return Circle(rotate_and_translate.Apply(Point{x, 0}), radius);
+    };
+    return {
+        make_flat_circle(
+            std::max(x - y * sin_slant, x_after_pinch + y * sin_slant)),
+        make_flat_circle(
+            std::min(-x - y * sin_slant, -x_after_pinch + y * sin_slant)),
+    };
+  }
+
   // If `x_after_pinch` falls below the minimum separatation, the shape should
   // be a rounded-triangle:
   if (2 * x_after_pinch < min_nonzero_radius_and_separation) {
@@ -241,14 +259,16 @@ std::optional<TangentProperties> CalculateTangentProperties(const Circle& start,
 std::optional<int> GetLeftmostTurningIndex(const Circle& starting_circle,
                                            Vec direction,
                                            const BrushTipShape& tip_shape,
-                                           Angle threshold_angle) {
+                                           Angle threshold_angle,
+                                           bool allow_backward = false) {
   std::optional<int> leftmost_index;
   TangentProperties leftmost_tangent;
   absl::Span<const Circle> circles = tip_shape.PerimeterCircles();
   for (size_t i = 0; i < circles.size(); ++i) {
     std::optional<TangentProperties> tangent = CalculateTangentProperties(
         starting_circle, circles[i], direction, TangentSide::kLeft);
-    if (!tangent.has_value() || tangent->turn_angle > kQuarterTurn) continue;
+    if (!tangent.has_value()) continue;
+    if (!allow_backward && tangent->turn_angle > kQuarterTurn) continue;
 
     if (!leftmost_index.has_value() ||
         tangent->turn_angle > leftmost_tangent.turn_angle ||
@@ -276,14 +296,16 @@ std::optional<int> GetLeftmostTurningIndex(const Circle& starting_circle,
 std::optional<int> GetRightmostTurningIndex(const Circle& starting_circle,
                                             Vec direction,
                                             const BrushTipShape& tip_shape,
-                                            Angle limit_angle) {
+                                            Angle limit_angle,
+                                            bool allow_backward = false) {
   std::optional<int> rightmost_index;
   TangentProperties rightmost_tangent;
   absl::Span<const Circle> circles = tip_shape.PerimeterCircles();
   for (size_t i = 0; i < circles.size(); ++i) {
     std::optional<TangentProperties> tangent = CalculateTangentProperties(
         starting_circle, circles[i], direction, TangentSide::kRight);
-    if (!tangent.has_value() || tangent->turn_angle < -kQuarterTurn) continue;
+    if (!tangent.has_value()) continue;
+    if (!allow_backward && tangent->turn_angle < -kQuarterTurn) continue;
 
     if (!rightmost_index.has_value() ||
         tangent->turn_angle < rightmost_tangent.turn_angle ||
@@ -386,9 +408,20 @@ BrushTipShape::TangentCircleIndices BrushTipShape::GetTangentCircleIndices(
     // find an index on `second`.
     std::optional<int> index_on_second = GetLeftmostTurningIndex(
         first.circles_[indices.left.first], forward, second, -kHalfTurn);
-    // It should be impossible for the second index to not have a value. At
-    // least one control point in second should not be traveling backwards from
-    // the rearmost control point in `first`.
+    // When `second` reaches back beside `first`, every tangent may turn
+    // backwards, and the rearmost control point may lie inside of `second`.
+    for (int i = 0; !index_on_second.has_value() && i < first.circles_.Size();
+         ++i) {
+      index_on_second = GetLeftmostTurningIndex(
+          first.circles_[indices.left.first], forward, second, -kHalfTurn,
+          /* allow_backward= */ true);
+      if (!index_on_second.has_value()) {
+        indices.left.first =
+            first.GetNextPerimeterIndexCw(indices.left.first);
+      }
+    }
+    // Neither shape contains the other, so some pair of control points must
+    // have tangents.
     ABSL_DCHECK(index_on_second.has_value());
     indices.left.second = index_on_second.value_or(0);
   }
@@ -422,9 +455,20 @@ BrushTipShape::TangentCircleIndices BrushTipShape::GetTangentCircleIndices(
     // index on `second`.
     std::optional<int> index_on_second = GetRightmostTurningIndex(
         first.circles_[indices.right.first], forward, second, kHalfTurn);
-    // It should be impossible for the second index to not have a value. At
-    // least one control point in second should not be traveling backwards from
-    // the rearmost control point in `first`.
+    // When `second` reaches back beside `first`, every tangent may turn
+    // backwards, and the rearmost control point may lie inside of `second`.
+    for (int i = 0; !index_on_second.has_value() && i < first.circles_.Size();
+         ++i) {
+      index_on_second = GetRightmostTurningIndex(
+          first.circles_[indices.right.first], forward, second, kHalfTurn,
+          /* allow_backward= */ true);
+      if (!index_on_second.has_value()) {
+        indices.right.first =
+            first.GetNextPerimeterIndexCcw(indices.right.first);
+      }
+    }
+    // Neither shape contains the other, so some pair of control points must
+    // have tangents.
     ABSL_DCHECK(index_on_second.has_value());
     indices.right.second = index_on_second.value_or(0);
   }
-- 
2.43.0


From be60ee75a11dd2dee4ec5d68bbdd4160a8e86084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:10 +0000
Subject: [PATCH 36/56] fix: particles of a tip without width or height had no
 texture coordinates, which lost the stroke's shape

---
 ink/strokes/internal/brush_tip_extruder.cc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/ink/strokes/internal/brush_tip_extruder.cc b/ink/strokes/internal/brush_tip_extruder.cc
index 211e8e5..8306f4e 100644
--- a/ink/strokes/internal/brush_tip_extruder.cc
+++ b/ink/strokes/internal/brush_tip_extruder.cc
@@ -16,6 +16,7 @@
 
 #include <algorithm>
 #include <array>
+#include <cmath>
 #include <cstddef>
 #include <cstdint>
 #include <iterator>
@@ -398,10 +399,15 @@ namespace {
 AffineTransform ComputeParticleSurfaceUvTransform(
     const BrushTipState& tip_state) {
   // This transform takes tip size, position, and rotation into account, but
-  // deliberately ignores tip slant, pinch, and corner rounding.
+  // deliberately ignores tip slant, pinch, and corner rounding. A tip without
+  // any extent along an axis uses the middle of the texture along that axis.
+  auto scale_for_size = [](float size) {
+    float scale = 1.0f / size;
+    return std::isfinite(scale) ? scale : 0;
+  };
   return AffineTransform::Translate({0.5, 0.5}) *
-         AffineTransform::Scale(1.0f / tip_state.width,
-                                1.0f / tip_state.height) *
+         AffineTransform::Scale(scale_for_size(tip_state.width),
+                                scale_for_size(tip_state.height)) *
          AffineTransform::Rotate(-tip_state.rotation) *
          AffineTransform::Translate(
              {-tip_state.position.x, -tip_state.position.y});
-- 
2.43.0


From 506d4a2d52a8a2be721a697aba8cb9de83c439bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:53 +0000
Subject: [PATCH 37/56] fix: the end of a stroke stayed behind when a
 prediction too short to show was removed

---
 ink/strokes/internal/stroke_input_modeler.cc | 13 +++++++++----
 ink/strokes/internal/stroke_input_modeler.h  |  2 ++
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/ink/strokes/internal/stroke_input_modeler.cc b/ink/strokes/internal/stroke_input_modeler.cc
index d278753..d8d6178 100644
--- a/ink/strokes/internal/stroke_input_modeler.cc
+++ b/ink/strokes/internal/stroke_input_modeler.cc
@@ -56,6 +56,7 @@ void StrokeInputModeler::StartStroke(const BrushFamily::InputModel& input_model,
   input_model_ = input_model;
   brush_epsilon_ = brush_epsilon;
   last_real_stroke_input_.reset();
+  last_update_had_prediction_ = false;
   state_.tool_type = StrokeInput::ToolType::kUnknown;
   state_.stroke_unit_length = std::nullopt;
   state_.complete_elapsed_time = Duration32::Zero();
@@ -176,12 +177,16 @@ void StrokeInputModeler::ExtendStroke(const StrokeInputBatch& real_inputs,
   };
 
   if (real_inputs.IsEmpty() && predicted_inputs.IsEmpty() &&
-      state_.real_input_count == modeled_inputs_.size()) {
-    // We can return early, because there are no new inputs, and none of the
-    // modeled inputs came from previous `predicted_inputs`. This allows us to
-    // skip re-modeling the `last_real_stroke_input_`.
+      !last_update_had_prediction_) {
+    // We can return early, because there are no new inputs, and there were no
+    // previous `predicted_inputs`. This allows us to skip re-modeling the
+    // `last_real_stroke_input_`. Note that even if none of the modeled inputs
+    // came from previous `predicted_inputs` (because they were all too close
+    // together), the last real input must be re-modeled to be the last input in
+    // the update.
     return;
   }
+  last_update_had_prediction_ = !predicted_inputs.IsEmpty();
 
   if (!last_real_stroke_input_.has_value()) {
     state_.tool_type = real_inputs.IsEmpty() ? predicted_inputs.GetToolType()
diff --git a/ink/strokes/internal/stroke_input_modeler.h b/ink/strokes/internal/stroke_input_modeler.h
index 1063679..e3d7f4d 100644
--- a/ink/strokes/internal/stroke_input_modeler.h
+++ b/ink/strokes/internal/stroke_input_modeler.h
@@ -178,6 +178,8 @@ class StrokeInputModeler {
   stroke_model::StrokeModeler stroke_modeler_;
   std::vector<stroke_model::Result> result_buffer_;
   std::optional<StrokeInput> last_real_stroke_input_;
+  // True if the last `ExtendStroke()` had any predicted inputs.
+  bool last_update_had_prediction_ = false;
   // All modeled inputs for a stroke.
   std::vector<ModeledStrokeInput> modeled_inputs_;
   bool stroke_modeler_has_input_ = false;
-- 
2.43.0


From 778e951510c27dc2aac582488256c6b8c7569710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:03 +0000
Subject: [PATCH 38/56] fix: setting a stroke's inputs to its own inputs
 cleared them

---
 ink/strokes/stroke.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ink/strokes/stroke.cc b/ink/strokes/stroke.cc
index cd6ad7f..ba4d6c4 100644
--- a/ink/strokes/stroke.cc
+++ b/ink/strokes/stroke.cc
@@ -125,8 +125,11 @@ absl::Status Stroke::SetBrushEpsilon(float epsilon) {
 }
 
 void Stroke::SetInputs(const StrokeInputBatch& inputs) {
-  inputs_.Clear();
-  ABSL_CHECK_OK(inputs_.Append(inputs));
+  // `inputs` may be the value returned by `GetInputs()`.
+  if (&inputs != &inputs_) {
+    inputs_.Clear();
+    ABSL_CHECK_OK(inputs_.Append(inputs));
+  }
   RegenerateShape();
 }
 
-- 
2.43.0


From 8ef9609b15a21c2412d35b67bc52f774b55dd2e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:24 +0000
Subject: [PATCH 39/56] fix: a tip corner passed in a straight line got a full
 loop in the outline

---
 ink/strokes/internal/circular_extrusion_helpers.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/ink/strokes/internal/circular_extrusion_helpers.cc b/ink/strokes/internal/circular_extrusion_helpers.cc
index f6f4c38..c0c47ca 100644
--- a/ink/strokes/internal/circular_extrusion_helpers.cc
+++ b/ink/strokes/internal/circular_extrusion_helpers.cc
@@ -122,6 +122,18 @@ void AppendCircularTurnExtrusionPoints(
   auto add_left_arc = [&]() {
     if (left_points == nullptr) return;
 
+    // Where the outline goes straight on, or turns slightly left only because of
+    // limited floating-point precision, there is no arc to add. Normalizing the
+    // angle as below would instead go all the way around the circle, which is
+    // only right if the travel turns back within the circle.
+    constexpr Angle kStraightTol = Angle::Radians(0.05);
+    if (outgoing_angles->left - incoming_angles->left < kStraightTol &&
+        Vec::DotProduct(middle.Center() - start.Center(),
+                        end.Center() - middle.Center()) > 0) {
+      left_points->push_back(middle.GetPoint(outgoing_angles->left));
+      return;
+    }
+
     // "Normalize" the left arc angle to be in [-2π, 0) radians so that the arc
     // is traversed on the "left" side of the circle given the travel
     // directions.  Note that we have ordered the angles above such that
-- 
2.43.0


From dd890b714eb00905941e342564fbc3fa3da44cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:24 +0000
Subject: [PATCH 40/56] fix: the round ends of a pill shape were left out of
 its boundary

---
 ink/strokes/internal/rounded_polygon.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ink/strokes/internal/rounded_polygon.cc b/ink/strokes/internal/rounded_polygon.cc
index 0c3d154..966cb4f 100644
--- a/ink/strokes/internal/rounded_polygon.cc
+++ b/ink/strokes/internal/rounded_polygon.cc
@@ -80,7 +80,8 @@ std::optional<float> SignedDistanceToArc(const RoundedPolygon::Arc& arc,
   Vec circle_center_to_point_vector = point - arc.circle.Center();
   float arc_vector_det =
       Vec::Determinant(arc.start_unit_vector, arc.end_unit_vector);
-  if (std::abs(arc_vector_det) < 5e-6) {
+  if (std::abs(arc_vector_det) < 5e-6 &&
+      Vec::DotProduct(arc.start_unit_vector, arc.end_unit_vector) > 0) {
     // The start and end vector are sufficiently close that we consider there to
     // be no arc. This includes the case where the arc nominally loops all the
     // way around, which can occur due to floating-point precision loss.
-- 
2.43.0


From 2e70762982fae0cc2caf5890bfe261a252ba69d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:24 +0000
Subject: [PATCH 41/56] fix: two crossing tip shapes were joined as if one
 could be drawn from the other

---
 ink/strokes/internal/brush_tip_extrusion.cc | 36 ++++++---------------
 1 file changed, 10 insertions(+), 26 deletions(-)

diff --git a/ink/strokes/internal/brush_tip_extrusion.cc b/ink/strokes/internal/brush_tip_extrusion.cc
index a720bfa..89a6b58 100644
--- a/ink/strokes/internal/brush_tip_extrusion.cc
+++ b/ink/strokes/internal/brush_tip_extrusion.cc
@@ -89,17 +89,6 @@ BrushTipExtrusion::TangentQuality EvaluateTangentQualityInternal(
   BrushTipShape::TangentCircleIndices indices =
       BrushTipShape::GetTangentCircleIndices(first, second);
 
-  // If the first circle is immediately *clockwise* to the last circle for
-  // each shape, then all circles contribute to the boundary of the joined
-  // shape and there are no unused circles.
-  // NOMUTANTS -- This is just a short-circuit for performance.
-  if (first.GetNextPerimeterIndexCw(indices.left.first) ==
-          indices.right.first &&
-      second.GetNextPerimeterIndexCw(indices.right.second) ==
-          indices.left.second) {
-    return BrushTipExtrusion::TangentQuality::kGoodTangents;
-  }
-
   // In order to avoid false-negatives from `RoundedPolygon::ContainsCircle` due
   // to floating-point precision issues, we enlarge the joined shape by a small
   // amount.
@@ -116,21 +105,16 @@ BrushTipExtrusion::TangentQuality EvaluateTangentQualityInternal(
   RoundedPolygon joined_shape =
       ConstructJoinedShape(first, second, indices, offset);
 
-  // Finally, check whether the unused circles are contained inside the joined
-  // shape.
-  for (int index = first.GetNextPerimeterIndexCcw(indices.right.first);
-       index != indices.left.first;
-       index = first.GetNextPerimeterIndexCcw(index)) {
-    if (!joined_shape.ContainsCircle(first.PerimeterCircles()[index]))
-      return BrushTipExtrusion::TangentQuality::
-          kBadTangentsJoinedShapeDoesNotCoverInputShapes;
-  }
-  for (int index = second.GetNextPerimeterIndexCcw(indices.left.second);
-       index != indices.right.second;
-       index = second.GetNextPerimeterIndexCcw(index)) {
-    if (!joined_shape.ContainsCircle(second.PerimeterCircles()[index]))
-      return BrushTipExtrusion::TangentQuality::
-          kBadTangentsJoinedShapeDoesNotCoverInputShapes;
+  // Finally, check whether all circles are contained inside the joined shape.
+  // This includes the circles that make up its boundary: if each shape reaches
+  // beyond the other on more than one side, some of them lie outside of it.
+  for (const BrushTipShape* shape : {&first, &second}) {
+    for (const Circle& circle : shape->PerimeterCircles()) {
+      if (!joined_shape.ContainsCircle(circle)) {
+        return BrushTipExtrusion::TangentQuality::
+            kBadTangentsJoinedShapeDoesNotCoverInputShapes;
+      }
+    }
   }
 
   return BrushTipExtrusion::TangentQuality::kGoodTangents;
-- 
2.43.0


From 8fbb7722392ce3bea75f53a8fedb89edfc0aaad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:24 +0000
Subject: [PATCH 42/56] fix: crash on a tip shape that reaches back around a
 round one

---
 ink/strokes/internal/brush_tip_extrusion.cc | 22 ++++++++++++++++++---
 ink/strokes/internal/brush_tip_shape.cc     | 17 +++++++++++++---
 2 files changed, 33 insertions(+), 6 deletions(-)

diff --git a/ink/strokes/internal/brush_tip_extrusion.cc b/ink/strokes/internal/brush_tip_extrusion.cc
index 89a6b58..9776834 100644
--- a/ink/strokes/internal/brush_tip_extrusion.cc
+++ b/ink/strokes/internal/brush_tip_extrusion.cc
@@ -2,6 +2,7 @@
 
 #include <algorithm>
 #include <cstdlib>
+#include <optional>
 
 #include "absl/container/inlined_vector.h"
 #include "absl/log/absl_check.h"
@@ -34,7 +35,11 @@ using ::ink::geometry_internal::Circle;
 // guaranteed to be contained in the returned shape; e.g. you could have two
 // rectangular `BrushTipShape`s that form a cross, which would leave two
 // circles outside the `RoundedPolygon`.
-static RoundedPolygon ConstructJoinedShape(
+//
+// Returns `std::nullopt` if one of the circles on the boundary contains the
+// next one, which may happen if they touch from the inside and the precision of
+// the tangents is limited. There is no such polygon then.
+static std::optional<RoundedPolygon> ConstructJoinedShape(
     const BrushTipShape& first, const BrushTipShape& second,
     const BrushTipShape::TangentCircleIndices& indices, float offset) {
   ABSL_DCHECK(!first.Contains(second));
@@ -64,6 +69,13 @@ static RoundedPolygon ConstructJoinedShape(
   add_circles(first, indices.left.first, indices.right.first);
   add_circles(second, indices.right.second, indices.left.second);
 
+  for (size_t i = 0; i < circles.size(); ++i) {
+    const Circle& next = circles[i + 1 == circles.size() ? 0 : i + 1];
+    if (circles[i].Contains(next) || next.Contains(circles[i])) {
+      return std::nullopt;
+    }
+  }
+
   return RoundedPolygon(circles);
 }
 
@@ -102,15 +114,19 @@ BrushTipExtrusion::TangentQuality EvaluateTangentQualityInternal(
   float offset = 1e-6 * max_absolute_coordinate;
 
   // Construct the joined shape, with the offset.
-  RoundedPolygon joined_shape =
+  std::optional<RoundedPolygon> joined_shape =
       ConstructJoinedShape(first, second, indices, offset);
+  if (!joined_shape.has_value()) {
+    return BrushTipExtrusion::TangentQuality::
+        kBadTangentsJoinedShapeDoesNotCoverInputShapes;
+  }
 
   // Finally, check whether all circles are contained inside the joined shape.
   // This includes the circles that make up its boundary: if each shape reaches
   // beyond the other on more than one side, some of them lie outside of it.
   for (const BrushTipShape* shape : {&first, &second}) {
     for (const Circle& circle : shape->PerimeterCircles()) {
-      if (!joined_shape.ContainsCircle(circle)) {
+      if (!joined_shape->ContainsCircle(circle)) {
         return BrushTipExtrusion::TangentQuality::
             kBadTangentsJoinedShapeDoesNotCoverInputShapes;
       }
diff --git a/ink/strokes/internal/brush_tip_shape.cc b/ink/strokes/internal/brush_tip_shape.cc
index 6b4f81c..217d3e6 100644
--- a/ink/strokes/internal/brush_tip_shape.cc
+++ b/ink/strokes/internal/brush_tip_shape.cc
@@ -352,9 +352,20 @@ BrushTipShape::TangentCircleIndices BrushTipShape::GetTangentCircleIndices(
         GetLeftmostTurningIndex(first.circles_[0], forward, second, -kHalfTurn);
     std::optional<int> second_right =
         GetRightmostTurningIndex(first.circles_[0], forward, second, kHalfTurn);
-    // It should be impossible for the second indices to not have a value with
-    // the relaxed threshold and limit angles. At least one perimeter circle in
-    // `second` should not be traveling backwards relative to `forward`.
+    // When `second` reaches back beside `first`, every tangent may turn
+    // backwards.
+    if (!second_left.has_value()) {
+      second_left =
+          GetLeftmostTurningIndex(first.circles_[0], forward, second,
+                                  -kHalfTurn, /* allow_backward= */ true);
+    }
+    if (!second_right.has_value()) {
+      second_right =
+          GetRightmostTurningIndex(first.circles_[0], forward, second,
+                                   kHalfTurn, /* allow_backward= */ true);
+    }
+    // Neither shape contains the other, so some perimeter circle of `second`
+    // must have tangents.
     ABSL_DCHECK(second_left.has_value());
     ABSL_DCHECK(second_right.has_value());
 
-- 
2.43.0


From 7162f102f53fe6ab1b7c0a21760190c78574ef64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:25 +0000
Subject: [PATCH 43/56] fix: start of a stroke crossed itself when the next
 shape only reaches out on one side

---
 ink/strokes/internal/brush_tip_shape.cc | 32 +++++++++++++++++++------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/ink/strokes/internal/brush_tip_shape.cc b/ink/strokes/internal/brush_tip_shape.cc
index 217d3e6..fd4a79e 100644
--- a/ink/strokes/internal/brush_tip_shape.cc
+++ b/ink/strokes/internal/brush_tip_shape.cc
@@ -17,6 +17,7 @@
 #include <algorithm>
 #include <cstddef>
 #include <cstdint>
+#include <iterator>
 #include <limits>
 #include <optional>
 #include <tuple>
@@ -678,10 +679,9 @@ bool IsRightPoint(Vec forward, Point shape_center, Point extrusion_point) {
 // Moves points that were added to `extrusion_points.left`, but should be in
 // `extrusion_points.right`.
 //
-// This is a helper used by `AppendStartcapExtrusionPoints()` and
-// `AppendWholeShapeExtrusionPoints()` below where points are added in
-// "clockwise" order to `extrusion_points.left` and must then be sorted into
-// left and right.
+// This is a helper used by `AppendWholeShapeExtrusionPoints()` below where points
+// are added in "clockwise" order to `extrusion_points.left` and must then be
+// sorted into left and right.
 void MoveNewRightPointsOutOfLeft(Vec forward, Point shape_center,
                                  int64_t new_point_count,
                                  ExtrusionPoints& extrusion_points) {
@@ -763,9 +763,27 @@ void BrushTipShape::AppendStartcapExtrusionPoints(
                                extrusion_points.left);
 
   Vec forward = GetForwardDirectionWithFallback(first, second);
-  MoveNewRightPointsOutOfLeft(forward, first.Center(),
-                              extrusion_points.left.size() - size_before_append,
-                              extrusion_points);
+
+  // The new points go from the tangent on the right, around the back, to the
+  // tangent on the left. They have to stay in that order, even if the tangents
+  // are both on the same side of the line of travel.
+  auto new_points = extrusion_points.left.begin() + size_before_append;
+  auto first_left_point = std::adjacent_find(
+      new_points, extrusion_points.left.end(), [&](Point a, Point b) {
+        return IsRightPoint(forward, first.Center(), a) &&
+               !IsRightPoint(forward, first.Center(), b);
+      });
+  if (first_left_point != extrusion_points.left.end()) {
+    ++first_left_point;
+  } else if (new_points != extrusion_points.left.end() &&
+             !IsRightPoint(forward, first.Center(),
+                           extrusion_points.left.back())) {
+    first_left_point = new_points;
+  }
+  extrusion_points.right.insert(extrusion_points.right.end(),
+                                std::make_reverse_iterator(first_left_point),
+                                std::make_reverse_iterator(new_points));
+  extrusion_points.left.erase(new_points, first_left_point);
 }
 
 void BrushTipShape::AppendEndcapExtrusionPoints(
-- 
2.43.0


From 21739bddc516cae012a7ced752b07d0bba16c70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:25 +0000
Subject: [PATCH 44/56] fix: a pill tip moved along its length ended half a tip
 short

---
 ink/strokes/internal/brush_tip_shape.cc | 32 +++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/ink/strokes/internal/brush_tip_shape.cc b/ink/strokes/internal/brush_tip_shape.cc
index fd4a79e..6639121 100644
--- a/ink/strokes/internal/brush_tip_shape.cc
+++ b/ink/strokes/internal/brush_tip_shape.cc
@@ -245,6 +245,20 @@ std::optional<TangentProperties> CalculateTangentProperties(const Circle& start,
   return {{.turn_angle = angle, .length = offset.Magnitude()}};
 }
 
+// Returns true if `other` lies ahead of `end` along the tangent from `start` to
+// `end` on the given `side`, i.e. that is also tangent to `other`.
+bool IsOnTangent(const Circle& start, const Circle& end, const Circle& other,
+                 TangentSide side) {
+  std::optional<TangentProperties> tangent = CalculateTangentProperties(
+      start, other, end.Center() - start.Center(), side);
+  std::optional<TangentProperties> end_tangent = CalculateTangentProperties(
+      start, end, end.Center() - start.Center(), side);
+  constexpr Angle kAngleTol = Angle::Radians(2e-3);
+  return tangent.has_value() && end_tangent.has_value() &&
+         tangent->length > end_tangent->length &&
+         Abs(tangent->turn_angle - end_tangent->turn_angle) < kAngleTol;
+}
+
 // Returns the index into `tip_shape.PerimeterCircles()` for the perimeter
 // circle with the leftmost turn angle from `starting_circle` in the given
 // `direction`. A tie in turn angle returns the index for the closest point.
@@ -796,6 +810,24 @@ void BrushTipShape::AppendEndcapExtrusionPoints(
   circles.push_back(second_to_last.circles_[tangent_indices.left.first]);
   int last_index = tangent_indices.left.second;
   circles.push_back(last.circles_[last_index]);
+  if (last.circles_.Size() == 2 &&
+      last_index == tangent_indices.right.second) {
+    // When the tip moves along the line through its two circles, both are on
+    // the tangents on both sides, and the closest one gets picked. The end still
+    // goes around the other one, which is in front.
+    const Circle& front = last.circles_[1 - last_index];
+    const Circle& left_first =
+        second_to_last.circles_[tangent_indices.left.first];
+    const Circle& right_first =
+        second_to_last.circles_[tangent_indices.right.first];
+    if (IsOnTangent(left_first, last.circles_[last_index], front,
+                    TangentSide::kLeft) &&
+        IsOnTangent(right_first, last.circles_[last_index], front,
+                    TangentSide::kRight)) {
+      circles.push_back(front);
+      circles.push_back(last.circles_[last_index]);
+    }
+  }
   while (last_index != tangent_indices.right.second) {
     last_index = last.GetNextPerimeterIndexCw(last_index);
     circles.push_back(last.circles_[last_index]);
-- 
2.43.0


From ae723b01bd4f269489eb1c77026c215ba5ab3adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:23 +0000
Subject: [PATCH 45/56] fix: crash on a tip shape that touches a round one from
 the inside

---
 ink/strokes/internal/brush_tip_shape.cc | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/ink/strokes/internal/brush_tip_shape.cc b/ink/strokes/internal/brush_tip_shape.cc
index 6639121..59d7d56 100644
--- a/ink/strokes/internal/brush_tip_shape.cc
+++ b/ink/strokes/internal/brush_tip_shape.cc
@@ -379,11 +379,8 @@ BrushTipShape::TangentCircleIndices BrushTipShape::GetTangentCircleIndices(
           GetRightmostTurningIndex(first.circles_[0], forward, second,
                                    kHalfTurn, /* allow_backward= */ true);
     }
-    // Neither shape contains the other, so some perimeter circle of `second`
-    // must have tangents.
-    ABSL_DCHECK(second_left.has_value());
-    ABSL_DCHECK(second_right.has_value());
-
+    // Due to limited floating-point precision, there may be no tangents if all
+    // circles of `second` touch the one of `first` from the inside.
     return TangentCircleIndices{std::make_pair(0, second_left.value_or(0)),
                                 std::make_pair(0, second_right.value_or(0))};
   }
-- 
2.43.0


From 0e1fb35f13be082ffa17e41263a839615b82163a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:47 +0000
Subject: [PATCH 46/56] fix: a pill tip moved along its length could start half
 a tip late

---
 ink/strokes/internal/brush_tip_shape.cc | 73 +++++++++++++------------
 1 file changed, 37 insertions(+), 36 deletions(-)

diff --git a/ink/strokes/internal/brush_tip_shape.cc b/ink/strokes/internal/brush_tip_shape.cc
index 59d7d56..526bc64 100644
--- a/ink/strokes/internal/brush_tip_shape.cc
+++ b/ink/strokes/internal/brush_tip_shape.cc
@@ -748,6 +748,35 @@ void MoveNewRightPointsOutOfLeft(Vec forward, Point shape_center,
   }
 }
 
+// Returns the circles of one end of the area swept by two shapes, clockwise: the
+// circle `before` of the other shape, those of `shape` from `first_index` to
+// `last_index`, and the circle `after` of the other shape.
+absl::InlinedVector<Circle, 6> GetCapCircles(const Circle& before,
+                                             const BrushTipShape& shape,
+                                             int first_index, int last_index,
+                                             const Circle& after) {
+  absl::Span<const Circle> shape_circles = shape.PerimeterCircles();
+  absl::InlinedVector<Circle, 6> circles = {before, shape_circles[first_index]};
+  if (shape_circles.size() == 2 && first_index == last_index) {
+    // When the tip moves along the line through its two circles, both are on
+    // the tangents on both sides, and the one closest to the other shape may
+    // have been picked. The end still goes around the other one.
+    const Circle& inner = shape_circles[first_index];
+    const Circle& outer = shape_circles[1 - first_index];
+    if (IsOnTangent(before, inner, outer, TangentSide::kLeft) &&
+        IsOnTangent(after, inner, outer, TangentSide::kRight)) {
+      circles.push_back(outer);
+      circles.push_back(inner);
+    }
+  }
+  for (int i = first_index; i != last_index;) {
+    i = shape.GetNextPerimeterIndexCw(i);
+    circles.push_back(shape_circles[i]);
+  }
+  circles.push_back(after);
+  return circles;
+}
+
 }  // namespace
 
 void BrushTipShape::AppendStartcapExtrusionPoints(
@@ -755,15 +784,10 @@ void BrushTipShape::AppendStartcapExtrusionPoints(
     float max_chord_height, ExtrusionPoints& extrusion_points) {
   TangentCircleIndices tangent_indices = GetTangentCircleIndices(first, second);
 
-  absl::InlinedVector<Circle, 5> circles;
-  circles.push_back(second.circles_[tangent_indices.right.second]);
-  int first_index = tangent_indices.right.first;
-  circles.push_back(first.circles_[first_index]);
-  while (first_index != tangent_indices.left.first) {
-    first_index = first.GetNextPerimeterIndexCw(first_index);
-    circles.push_back(first.circles_[first_index]);
-  }
-  circles.push_back(second.circles_[tangent_indices.left.second]);
+  absl::InlinedVector<Circle, 6> circles =
+      GetCapCircles(second.circles_[tangent_indices.right.second], first,
+                    tangent_indices.right.first, tangent_indices.left.first,
+                    second.circles_[tangent_indices.left.second]);
 
   // First append all of the points into `extrusion_points.left`, and then split
   // according to the travel direction:
@@ -803,33 +827,10 @@ void BrushTipShape::AppendEndcapExtrusionPoints(
   TangentCircleIndices tangent_indices =
       GetTangentCircleIndices(second_to_last, last);
 
-  absl::InlinedVector<Circle, 5> circles;
-  circles.push_back(second_to_last.circles_[tangent_indices.left.first]);
-  int last_index = tangent_indices.left.second;
-  circles.push_back(last.circles_[last_index]);
-  if (last.circles_.Size() == 2 &&
-      last_index == tangent_indices.right.second) {
-    // When the tip moves along the line through its two circles, both are on
-    // the tangents on both sides, and the closest one gets picked. The end still
-    // goes around the other one, which is in front.
-    const Circle& front = last.circles_[1 - last_index];
-    const Circle& left_first =
-        second_to_last.circles_[tangent_indices.left.first];
-    const Circle& right_first =
-        second_to_last.circles_[tangent_indices.right.first];
-    if (IsOnTangent(left_first, last.circles_[last_index], front,
-                    TangentSide::kLeft) &&
-        IsOnTangent(right_first, last.circles_[last_index], front,
-                    TangentSide::kRight)) {
-      circles.push_back(front);
-      circles.push_back(last.circles_[last_index]);
-    }
-  }
-  while (last_index != tangent_indices.right.second) {
-    last_index = last.GetNextPerimeterIndexCw(last_index);
-    circles.push_back(last.circles_[last_index]);
-  }
-  circles.push_back(second_to_last.circles_[tangent_indices.right.first]);
+  absl::InlinedVector<Circle, 6> circles = GetCapCircles(
+      second_to_last.circles_[tangent_indices.left.first], last,
+      tangent_indices.left.second, tangent_indices.right.second,
+      second_to_last.circles_[tangent_indices.right.first]);
 
   // First append all of the points into `extrusion_points.left`, and then split
   // according to the travel direction:
-- 
2.43.0


From 2450428063a7974f323406dc7ca1cf18bf5d9904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:04 +0000
Subject: [PATCH 47/56] fix: polyline processing crashed on fewer than two
 points and on repeated points

---
 ink/geometry/internal/polyline_processing.cc | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/ink/geometry/internal/polyline_processing.cc b/ink/geometry/internal/polyline_processing.cc
index 0fb87f4..709cd64 100644
--- a/ink/geometry/internal/polyline_processing.cc
+++ b/ink/geometry/internal/polyline_processing.cc
@@ -396,7 +396,16 @@ std::vector<Point> ProcessPolylineForMeshCreation(
     absl::Span<const Point> points, float min_walk_distance,
     float max_connection_distance, float min_connection_ratio,
     float min_trimming_ratio) {
-  PolylineData polyline = CreateNewPolylineData(points);
+  // Repeated points would give zero-length segments, which have no direction to
+  // project on and would make their neighbors count as intersecting.
+  std::vector<Point> distinct_points(points.begin(), points.end());
+  distinct_points.erase(
+      std::unique(distinct_points.begin(), distinct_points.end()),
+      distinct_points.end());
+  if (distinct_points.size() < 2) {
+    return std::vector<Point>(points.begin(), points.end());
+  }
+  PolylineData polyline = CreateNewPolylineData(distinct_points);
 
   polyline.min_walk_distance = min_walk_distance;
   polyline.max_connection_distance = max_connection_distance;
@@ -407,7 +416,10 @@ std::vector<Point> ProcessPolylineForMeshCreation(
                                                            segment_bounds);
   FindFirstAndLastIntersections(rtree, polyline);
   FindBestEndpointConnections(rtree, polyline);
-  return CreateNewPolylineFromPolylineData(polyline, points);
+  if (!polyline.has_intersection) {
+    return std::vector<Point>(points.begin(), points.end());
+  }
+  return CreateNewPolylineFromPolylineData(polyline, distinct_points);
 }
 
 }  // namespace ink::geometry_internal
-- 
2.43.0


From 8256e3e104b88aa6a1baefe2ed9f34cd57fb0551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:34 +0000
Subject: [PATCH 48/56] fix: uninitialized attribute offsets were copied to
 Java

---
 .../skia/common_internal/jni/canvas_mesh_renderer_jni.cc         | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ink/rendering/skia/common_internal/jni/canvas_mesh_renderer_jni.cc b/ink/rendering/skia/common_internal/jni/canvas_mesh_renderer_jni.cc
index 63e4162..9aca02d 100644
--- a/ink/rendering/skia/common_internal/jni/canvas_mesh_renderer_jni.cc
+++ b/ink/rendering/skia/common_internal/jni/canvas_mesh_renderer_jni.cc
@@ -67,6 +67,7 @@ JNI_METHOD(rendering_android_canvas_internal, CanvasMeshRenderer, void,
   std::array<int, MeshSpecificationData::kMaxAttributes> attribute_types;
   std::array<int, MeshSpecificationData::kMaxAttributes> attribute_offsets;
   attribute_types.fill(-1);
+  attribute_offsets.fill(-1);
   for (int i = 0; i < attributes.Size(); i++) {
     attribute_types[i] = static_cast<int>(attributes[i].type);
     attribute_offsets[i] = attributes[i].offset;
-- 
2.43.0


From 32ab02cbe9add93ff86a0aaa4252134ef02ee96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:52 +0000
Subject: [PATCH 49/56] fix: a refused texture layer was leaked

---
 ink/brush/internal/jni/brush_paint_jni.cc | 36 +++++++++++------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/ink/brush/internal/jni/brush_paint_jni.cc b/ink/brush/internal/jni/brush_paint_jni.cc
index 89ad8fd..84210bc 100644
--- a/ink/brush/internal/jni/brush_paint_jni.cc
+++ b/ink/brush/internal/jni/brush_paint_jni.cc
@@ -14,6 +14,7 @@
 
 #include <jni.h>
 
+#include <utility>
 #include <vector>
 
 #include "absl/status/status.h"
@@ -104,30 +105,29 @@ JNI_METHOD_INNER(brush, BrushPaint, TextureLayer, jlong,
     return -1;  // Invalid Uri.
   }
 
-  ink::BrushPaint::TextureLayer* texture_layer =
-      new ink::BrushPaint::TextureLayer{
-          .color_texture_uri = *uri,
-          .mapping = JIntToMapping(mapping),
-          .origin = JIntToOrigin(origin),
-          .size_unit = JIntToSizeUnit(size_unit),
-          .wrap_x = JIntToWrap(wrap_x),
-          .wrap_y = JIntToWrap(wrap_y),
-          .size = ink::Vec{size_x, size_y},
-          .offset = ink::Vec{offset_x, offset_y},
-          .rotation = ink::Angle::Radians(rotation_in_radians),
-          .opacity = opacity,
-          .blend_mode = JIntToBlendMode(blend_mode),
-      };
+  ink::BrushPaint::TextureLayer texture_layer = {
+      .color_texture_uri = *uri,
+      .mapping = JIntToMapping(mapping),
+      .origin = JIntToOrigin(origin),
+      .size_unit = JIntToSizeUnit(size_unit),
+      .wrap_x = JIntToWrap(wrap_x),
+      .wrap_y = JIntToWrap(wrap_y),
+      .size = ink::Vec{size_x, size_y},
+      .offset = ink::Vec{offset_x, offset_y},
+      .rotation = ink::Angle::Radians(rotation_in_radians),
+      .opacity = opacity,
+      .blend_mode = JIntToBlendMode(blend_mode),
+  };
 
   absl::Status status =
-      ink::brush_internal::ValidateBrushPaintTextureLayer(*texture_layer);
+      ink::brush_internal::ValidateBrushPaintTextureLayer(texture_layer);
 
   if (!status.ok()) {
     ink::jni::ThrowExceptionFromStatus(env, status);
-    // delete texture_layer;
-    return -1;
+    return -1;  // Unused return value.
   }
-  return reinterpret_cast<jlong>(texture_layer);
+  return reinterpret_cast<jlong>(
+      new ink::BrushPaint::TextureLayer(std::move(texture_layer)));
 }
 
 JNI_METHOD_INNER(brush, BrushPaint, TextureLayer, void, nativeFreeTextureLayer)
-- 
2.43.0


From 3ae6a025abe2855dd7b50881ca5f60f74f594060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:28 +0000
Subject: [PATCH 50/56] fix: set up the stroke modeler with the unit length of
 the predicted inputs when there are no real ones yet

---
 ink/strokes/internal/stroke_input_modeler.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ink/strokes/internal/stroke_input_modeler.cc b/ink/strokes/internal/stroke_input_modeler.cc
index d8d6178..68912fe 100644
--- a/ink/strokes/internal/stroke_input_modeler.cc
+++ b/ink/strokes/internal/stroke_input_modeler.cc
@@ -195,7 +195,7 @@ void StrokeInputModeler::ExtendStroke(const StrokeInputBatch& real_inputs,
                                     ? predicted_inputs.GetStrokeUnitLength()
                                     : real_inputs.GetStrokeUnitLength();
     ResetStrokeModeler(stroke_modeler_, input_model_, brush_epsilon_,
-                       real_inputs.GetStrokeUnitLength());
+                       state_.stroke_unit_length);
     stroke_modeler_has_input_ = false;
   }
 
-- 
2.43.0


From b5da0db47c355d8e8d8860a9fec66b7b9158a9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:42 +0000
Subject: [PATCH 51/56] fix: forget the distance traveled when the only inputs,
 predicted ones, are gone

---
 ink/strokes/internal/stroke_input_modeler.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ink/strokes/internal/stroke_input_modeler.cc b/ink/strokes/internal/stroke_input_modeler.cc
index 68912fe..f7cbb76 100644
--- a/ink/strokes/internal/stroke_input_modeler.cc
+++ b/ink/strokes/internal/stroke_input_modeler.cc
@@ -316,6 +316,7 @@ void StrokeInputModeler::UpdateStateTimeAndDistance(
     Duration32 current_elapsed_time) {
   if (modeled_inputs_.empty()) {
     state_.complete_elapsed_time = current_elapsed_time;
+    state_.complete_traveled_distance = 0;
     return;
   }
 
-- 
2.43.0


From c303f271be89208367cfd333d35870235e7d36c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:51 +0000
Subject: [PATCH 52/56] fix: bitmaps with an invalid color format or color
 space were accepted

---
 ink/rendering/bitmap.cc | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/ink/rendering/bitmap.cc b/ink/rendering/bitmap.cc
index bfec32f..daed230 100644
--- a/ink/rendering/bitmap.cc
+++ b/ink/rendering/bitmap.cc
@@ -38,6 +38,25 @@ bool IsValidPixelFormat(Bitmap::PixelFormat format) {
   return false;
 }
 
+bool IsValidColorFormat(Color::Format format) {
+  switch (format) {
+    case Color::Format::kLinear:
+    case Color::Format::kGammaEncoded:
+    case Color::Format::kPremultipliedAlpha:
+      return true;
+  }
+  return false;
+}
+
+bool IsValidColorSpace(ColorSpace color_space) {
+  switch (color_space) {
+    case ColorSpace::kSrgb:
+    case ColorSpace::kDisplayP3:
+      return true;
+  }
+  return false;
+}
+
 }  // namespace
 
 absl::Status ValidateBitmap(const Bitmap& bitmap) {
@@ -54,6 +73,16 @@ absl::Status ValidateBitmap(const Bitmap& bitmap) {
         absl::StrCat("`Bitmap::pixel_format` holds non-enumerator value ",
                      static_cast<int>(bitmap.pixel_format())));
   }
+  if (!IsValidColorFormat(bitmap.color_format())) {
+    return absl::InvalidArgumentError(
+        absl::StrCat("`Bitmap::color_format` holds non-enumerator value ",
+                     static_cast<int>(bitmap.color_format())));
+  }
+  if (!IsValidColorSpace(bitmap.color_space())) {
+    return absl::InvalidArgumentError(
+        absl::StrCat("`Bitmap::color_space` holds non-enumerator value ",
+                     static_cast<int>(bitmap.color_space())));
+  }
   size_t expected_data_size = static_cast<size_t>(bitmap.width()) *
                               static_cast<size_t>(bitmap.height()) *
                               PixelFormatBytesPerPixel(bitmap.pixel_format());
-- 
2.43.0


From 4eeea555b98e6831cde57ddfdf6b23c6f281d99e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:51 +0000
Subject: [PATCH 53/56] fix: a stroke in progress with vertices but no
 triangles could not be drawn

---
 ink/rendering/skia/native/skia_renderer.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ink/rendering/skia/native/skia_renderer.cc b/ink/rendering/skia/native/skia_renderer.cc
index cb0337b..b79a31d 100644
--- a/ink/rendering/skia/native/skia_renderer.cc
+++ b/ink/rendering/skia/native/skia_renderer.cc
@@ -139,6 +139,11 @@ absl::StatusOr<SkiaRenderer::Drawable> SkiaRenderer::CreateDrawable(
       continue;
     }
 
+    // A very small or very coarse coat can have vertices but no triangles, in
+    // which case there is nothing to draw.
+    const MutableMesh& mesh = stroke.GetMesh(coat_index);
+    if (mesh.TriangleCount() == 0) continue;
+
     const BrushPaint& brush_paint = brush->GetCoats()[coat_index].paint;
     absl::StatusOr<sk_sp<SkShader>> shader = shader_cache_.GetShaderForPaint(
         brush_paint, brush->GetSize(), stroke.GetInputs());
@@ -148,7 +153,6 @@ absl::StatusOr<SkiaRenderer::Drawable> SkiaRenderer::CreateDrawable(
         specification_cache_.GetFor(stroke);
     if (!specification.ok()) return specification.status();
 
-    const MutableMesh& mesh = stroke.GetMesh(coat_index);
     if (mesh.VertexCount() >= std::numeric_limits<uint16_t>::max()) {
       return absl::UnimplementedError(
           "Strokes requiring at least 2^16 indices are not supported yet.");
-- 
2.43.0


From bd7113dedb2d4cfd1b6e35af9f7c99d1ec9d3f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:51 +0000
Subject: [PATCH 54/56] fix: every mesh of a drawn stroke was unpacked with the
 parameters of the first

---
 ink/rendering/skia/native/skia_renderer.cc | 95 ++++++++++++++--------
 1 file changed, 62 insertions(+), 33 deletions(-)

diff --git a/ink/rendering/skia/native/skia_renderer.cc b/ink/rendering/skia/native/skia_renderer.cc
index b79a31d..df2be9f 100644
--- a/ink/rendering/skia/native/skia_renderer.cc
+++ b/ink/rendering/skia/native/skia_renderer.cc
@@ -111,6 +111,25 @@ BrushPaint::TextureMapping GetBrushPaintTextureMapping(
                                        : BrushPaint::TextureMapping::kTiling;
 }
 
+// Returns true if the vertex attributes of both meshes, which must have the same
+// `MeshFormat`, are unpacked with the same parameters.
+bool HaveSameUnpackingParams(const Mesh& lhs, const Mesh& rhs) {
+  for (int i = 0; i < static_cast<int>(lhs.Format().Attributes().size()); ++i) {
+    const auto& lhs_components =
+        lhs.VertexAttributeUnpackingParams(i).components;
+    const auto& rhs_components =
+        rhs.VertexAttributeUnpackingParams(i).components;
+    if (lhs_components.Size() != rhs_components.Size()) return false;
+    for (int j = 0; j < lhs_components.Size(); ++j) {
+      if (lhs_components[j].offset != rhs_components[j].offset ||
+          lhs_components[j].scale != rhs_components[j].scale) {
+        return false;
+      }
+    }
+  }
+  return true;
+}
+
 }  // namespace
 
 SkiaRenderer::SkiaRenderer(
@@ -221,40 +240,50 @@ absl::StatusOr<SkiaRenderer::Drawable> SkiaRenderer::CreateDrawable(
         specification_cache_.GetForStroke(stroke_shape, coat_index);
     if (!specification.ok()) return specification.status();
 
-    absl::InlinedVector<MeshDrawable::Partition, 1> partitions;
-    partitions.reserve(meshes.size());
-    for (const Mesh& mesh : meshes) {
-      absl::Span<const std::byte> vertex_data = mesh.RawVertexData();
-      absl::Span<const std::byte> index_data = mesh.RawIndexData();
-      partitions.push_back({
-          .vertex_buffer = SkMeshes::MakeVertexBuffer(
-              context, vertex_data.data(), vertex_data.size()),
-          .index_buffer = SkMeshes::MakeIndexBuffer(context, index_data.data(),
-                                                    index_data.size()),
-          .vertex_count = static_cast<int32_t>(mesh.VertexCount()),
-          .index_count = static_cast<int32_t>(3 * mesh.TriangleCount()),
-          .bounds = ToSkiaRect(*mesh.Bounds().AsRect()),
-      });
+    // The unpacking parameters are uniforms, which are shared by every partition
+    // of a `MeshDrawable`. Meshes in the same render group usually have the same
+    // parameters, but this is not guaranteed, so start a new drawable whenever
+    // they change.
+    while (!meshes.empty()) {
+      const Mesh& first_mesh = meshes.front();
+      absl::InlinedVector<MeshDrawable::Partition, 1> partitions;
+      partitions.reserve(meshes.size());
+      for (const Mesh& mesh : meshes) {
+        if (!HaveSameUnpackingParams(first_mesh, mesh)) break;
+
+        absl::Span<const std::byte> vertex_data = mesh.RawVertexData();
+        absl::Span<const std::byte> index_data = mesh.RawIndexData();
+        partitions.push_back({
+            .vertex_buffer = SkMeshes::MakeVertexBuffer(
+                context, vertex_data.data(), vertex_data.size()),
+            .index_buffer = SkMeshes::MakeIndexBuffer(
+                context, index_data.data(), index_data.size()),
+            .vertex_count = static_cast<int32_t>(mesh.VertexCount()),
+            .index_count = static_cast<int32_t>(3 * mesh.TriangleCount()),
+            .bounds = ToSkiaRect(*mesh.Bounds().AsRect()),
+        });
+      }
+      meshes.remove_prefix(partitions.size());
+
+      auto get_attribute_unpacking_transform =
+          [&first_mesh](
+              int attribute_index) -> const MeshAttributeCodingParams& {
+        return first_mesh.VertexAttributeUnpackingParams(attribute_index);
+      };
+
+      MeshUniformData uniform_data(**specification,
+                                   first_mesh.Format().Attributes(),
+                                   get_attribute_unpacking_transform);
+      absl::StatusOr<MeshDrawable> mesh_drawable = MeshDrawable::Create(
+          *specification, shader_cache_.GetBlenderForPaint(brush_paint),
+          *shader, std::move(partitions), std::move(uniform_data));
+      if (!mesh_drawable.ok()) return mesh_drawable.status();
+
+      mesh_drawable->SetBrushColor(brush.GetColor());
+      mesh_drawable->SetTextureMapping(
+          GetBrushPaintTextureMapping(brush_paint));
+      drawables.push_back(*std::move(mesh_drawable));
     }
-
-    const Mesh& first_mesh = meshes.front();
-    auto get_attribute_unpacking_transform =
-        [&first_mesh](int attribute_index) -> const MeshAttributeCodingParams& {
-      return first_mesh.VertexAttributeUnpackingParams(attribute_index);
-    };
-
-    MeshUniformData uniform_data(**specification,
-                                 first_mesh.Format().Attributes(),
-                                 get_attribute_unpacking_transform);
-    absl::StatusOr<MeshDrawable> mesh_drawable = MeshDrawable::Create(
-        *std::move(specification),
-        shader_cache_.GetBlenderForPaint(brush_paint), *std::move(shader),
-        std::move(partitions), std::move(uniform_data));
-    if (!mesh_drawable.ok()) return mesh_drawable.status();
-
-    mesh_drawable->SetBrushColor(brush.GetColor());
-    mesh_drawable->SetTextureMapping(GetBrushPaintTextureMapping(brush_paint));
-    drawables.push_back(*std::move(mesh_drawable));
   }
 
   return Drawable(object_to_canvas, std::move(drawables));
-- 
2.43.0


From f6f3c7fb9b85515d381b822c736a870a592a7b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:19 +0000
Subject: [PATCH 55/56] fix: a reverted prediction left part of its area out of
 the updated region

Triangles before the save point that get their saved indices back are
removed geometry as well when a prediction replaced everything since the
last extrusion break.
---
 ink/strokes/internal/brush_tip_extruder/geometry.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/ink/strokes/internal/brush_tip_extruder/geometry.cc b/ink/strokes/internal/brush_tip_extruder/geometry.cc
index 2546fce..67883bc 100644
--- a/ink/strokes/internal/brush_tip_extruder/geometry.cc
+++ b/ink/strokes/internal/brush_tip_extruder/geometry.cc
@@ -195,6 +195,15 @@ void Geometry::RevertToSavePoint() {
   // of the save point, all of which are about to be erased or changed.
   envelope_of_removed_geometry_.Add(
       EnvelopeOfTriangles(mesh_, save_point_state_.n_mesh_triangles));
+  // The same goes for triangles before the save point that get their saved
+  // indices back.
+  for (const auto& indices_pair : save_point_state_.saved_triangle_indices) {
+    if (indices_pair.first >= mesh_.TriangleCount()) continue;
+    for (int i = 0; i < 3; ++i) {
+      envelope_of_removed_geometry_.Add(
+          mesh_.GetPosition(mesh_.GetVertexIndex(indices_pair.first, i)));
+    }
+  }
 
   uint32_t old_vertex_count = mesh_.VertexCount();
   mesh_.Resize(save_point_state_.n_mesh_vertices,
-- 
2.43.0


From 8e3b01bde276eb7131a5a1bca179a6415fb2e384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:28 +0000
Subject: [PATCH 56/56] fix: a prediction that covered everything after a break
 of its own aborted

The save point was taken to lie after the last extrusion break whenever
the triangle counts allowed it; a break that only added vertices after
the save point then failed a check.
---
 ink/strokes/internal/brush_tip_extruder/geometry.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ink/strokes/internal/brush_tip_extruder/geometry.cc b/ink/strokes/internal/brush_tip_extruder/geometry.cc
index 67883bc..3ed89cc 100644
--- a/ink/strokes/internal/brush_tip_extruder/geometry.cc
+++ b/ink/strokes/internal/brush_tip_extruder/geometry.cc
@@ -530,8 +530,8 @@ void Geometry::ClearSinceLastExtrusionBreak() {
   // created after the save point.
   if (save_point_state_.is_active &&
       !save_point_state_.contains_all_geometry_since_last_extrusion_break &&
-      save_point_state_.n_mesh_triangles >=
-          last_extrusion_break_.triangle_count) {
+      save_point_state_.saved_last_extrusion_break.break_count ==
+          last_extrusion_break_.break_count) {
     CaptureGeometrySinceLastExtrusionBreak(
         mesh_, vertex_side_ids_, side_offsets_, opposite_side_offsets_,
         left_side_, right_side_, last_extrusion_break_, save_point_state_);
-- 
2.43.0

