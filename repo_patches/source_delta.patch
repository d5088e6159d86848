From c778a371bd59b66030bc1d4d8ee48ea5814a0998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:39 +0000
Subject: [PATCH 01/54] fix: sampling status queries work for ids without
 target count

getCount(id) and resetCounter(id) inserted ids that have no target count, which
made all subsequent calls to finished() throw std::out_of_range.
---
 frackit/sampling/status.hh | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/frackit/sampling/status.hh b/frackit/sampling/status.hh
index f96e3f9..f3d3f0f 100644
--- a/frackit/sampling/status.hh
+++ b/frackit/sampling/status.hh
@@ -94,8 +94,8 @@ public:
      */
     bool finished()
     {
-        for (const auto& pair : count_)
-            if (pair.second < targetCount_.at(pair.first))
+        for (const auto& pair : targetCount_)
+            if (getCount(Id(pair.first)) < pair.second)
                 return false;
         return true;
     }
@@ -106,10 +106,10 @@ public:
      */
     bool finished(const Id& id)
     {
-        auto it = count_.find(id.get());
-        if (it == count_.end())
+        auto it = targetCount_.find(id.get());
+        if (it == targetCount_.end())
             throw std::runtime_error("Target count not set for given id");
-        return it->second >= targetCount_.at(it->first);
+        return getCount(id) >= it->second;
     }
 
     /*!
@@ -134,7 +134,10 @@ public:
      * \brief Returns the entity count for the given id.
      */
     std::size_t getCount(const Id& id)
-    { return count_[id.get()]; }
+    {
+        auto it = count_.find(id.get());
+        return it == count_.end() ? 0 : it->second;
+    }
 
     /*!
      * \brief Returns the overall entity count.
-- 
2.43.0


From 3c4be726d430831e7ca6a09a4f60c84ca344de68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:39 +0000
Subject: [PATCH 02/54] fix: printing the sampling status does not fail for
 zero or surpassed targets

The padding computation underflowed for values with many digits (and for NaN, if no
target is set), which made print() throw std::length_error.
---
 frackit/sampling/status.hh | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/frackit/sampling/status.hh b/frackit/sampling/status.hh
index f3d3f0f..7c0efcd 100644
--- a/frackit/sampling/status.hh
+++ b/frackit/sampling/status.hh
@@ -169,8 +169,10 @@ public:
         for (const auto& pair : count_) curCount += pair.second;
         for (const auto& pair : targetCount_) curTargetCount += pair.second;
 
-        const auto ratio = 100.0*double(double(curCount)/double(curCount+rejectedCount_));
-        const auto progress = 100.0*double(curCount)/double(curTargetCount);
+        // avoid division by zero if nothing was sampled yet or there is nothing to be sampled
+        const auto totalCount = curCount + rejectedCount_;
+        const auto ratio = totalCount > 0 ? 100.0*double(curCount)/double(totalCount) : 0.0;
+        const auto progress = curTargetCount > 0 ? 100.0*double(curCount)/double(curTargetCount) : 100.0;
 
         std::cout << std::setprecision(2) << std::fixed;
         const auto ratioNumChars = std::to_string(int(ratio)).size() + 3;
@@ -179,12 +181,13 @@ public:
         const auto countString = std::to_string(curCount);
         const auto rejectedCountString = std::to_string(rejectedCount_);
 
-        using std::max;
-        const std::size_t zero = 0;
-        const std::size_t paddingCount    = max(zero, 13 - countString.size());
-        const std::size_t paddingRejected = max(zero, 13 - rejectedCountString.size());
-        const std::size_t paddingRatio    = max(zero, 16 - ratioNumChars);
-        const std::size_t paddingProgess  = max(zero, 8  - progressNumChars);
+        const auto getPadding = [] (std::size_t width, std::size_t numChars) -> std::size_t
+        { return numChars < width ? width - numChars : 0; };
+
+        const std::size_t paddingCount    = getPadding(13, countString.size());
+        const std::size_t paddingRejected = getPadding(13, rejectedCountString.size());
+        const std::size_t paddingRatio    = getPadding(16, ratioNumChars);
+        const std::size_t paddingProgess  = getPadding(8, progressNumChars);
 
         std::cout << "  "      << std::string( paddingCount, ' ')    << countString + ' '
                   << "   |   " << std::string( paddingRejected, ' ') << rejectedCountString + ' '
-- 
2.43.0


From 6ee4044e779d70532e954bec6619296ece281a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:52 +0000
Subject: [PATCH 03/54] fix: default-tolerance overload of Triangle::contains

It evaluated the non-existing corner(3) to compute the tolerance, ignored the
flag to skip the check if the point is on the plane, and the area difference was
computed with an unqualified abs().
---
 frackit/geometry/triangle.hh | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/frackit/geometry/triangle.hh b/frackit/geometry/triangle.hh
index 60684d1..0300746 100644
--- a/frackit/geometry/triangle.hh
+++ b/frackit/geometry/triangle.hh
@@ -155,6 +155,7 @@ public:
         otherArea += Triangle<ctype, 3>(corners_[2], corners_[0], p).area();
 
         // if area is equal to the triangle area, point is on it
+        using std::abs;
         return abs(area() - otherArea) < eps*eps;
     }
 
@@ -169,8 +170,8 @@ public:
     bool contains(const Point& p,  bool checkIfOnPlane = true) const
     {
         auto eps = Precision<ctype>::confusion();
-        eps *= Vector(corner(0), corner(3)).length();
-        return contains(p, eps);
+        eps *= Vector(corner(0), corner(2)).length();
+        return contains(p, eps, checkIfOnPlane);
     }
 
 private:
-- 
2.43.0


From 28d521e827e71782ce6776daf38663ba1d800669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:52 +0000
Subject: [PATCH 04/54] fix: EllipseArc::contains for full ellipses whose
 source is not on the major axis

For full ellipses with a non-zero source angle the angle interval was empty
and all points except the source were reported to be outside of the arc.
---
 frackit/geometry/ellipsearc.hh | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/frackit/geometry/ellipsearc.hh b/frackit/geometry/ellipsearc.hh
index 5cada80..b226465 100644
--- a/frackit/geometry/ellipsearc.hh
+++ b/frackit/geometry/ellipsearc.hh
@@ -133,6 +133,10 @@ public:
             if (!ParentType::contains(p, eps))
                 return false;
 
+        // all points on the ellipse are contained in a full ellipse arc
+        if (isFullEllipse_)
+            return true;
+
         const auto angle = this->getAngle(p, checkIfOnEllipse);
         if (sourceAngle_ > targetAngle_)
             return angle >= sourceAngle_ - eps || angle <= targetAngle_ + eps;
-- 
2.43.0


From b09ec390d4fa59453b9f32c480f784a6facc6378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:57 +0000
Subject: [PATCH 05/54] fix: tolerance in contains() of spheres and (hollow)
 cylinders

The squared tolerance was added to the squared radius, which with the default tolerance of 1e-7
(relative to the size) is at the level of the rounding errors of the coordinates. Points on the
boundary of geometries not located at the origin were reported to be outside.
---
 frackit/geometry/cylinder.hh       | 2 +-
 frackit/geometry/hollowcylinder.hh | 6 ++----
 frackit/geometry/sphere.hh         | 2 +-
 3 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/frackit/geometry/cylinder.hh b/frackit/geometry/cylinder.hh
index b4b5eb7..3ddeaa3 100644
--- a/frackit/geometry/cylinder.hh
+++ b/frackit/geometry/cylinder.hh
@@ -170,7 +170,7 @@ public:
         if (!centerSegment().contains(proj, eps))
             return false;
 
-        return Vector(proj, p).squaredLength() <= radius()*radius() + eps*eps;
+        return Vector(proj, p).length() <= radius() + eps;
     }
 
     /*!
diff --git a/frackit/geometry/hollowcylinder.hh b/frackit/geometry/hollowcylinder.hh
index 277d1f2..7501788 100644
--- a/frackit/geometry/hollowcylinder.hh
+++ b/frackit/geometry/hollowcylinder.hh
@@ -199,10 +199,8 @@ public:
         if (!centerSegment().contains(proj, eps))
             return false;
 
-        const auto squaredDist = Vector(proj, p).squaredLength();
-        const auto squaredEps = eps*eps;
-        return squaredDist <= outerRadius()*outerRadius() + squaredEps
-               && squaredDist >= innerRadius()*innerRadius() - squaredEps;
+        const auto dist = Vector(proj, p).length();
+        return dist <= outerRadius() + eps && dist >= innerRadius() - eps;
     }
 
     /*!
diff --git a/frackit/geometry/sphere.hh b/frackit/geometry/sphere.hh
index f85a193..8b05be4 100644
--- a/frackit/geometry/sphere.hh
+++ b/frackit/geometry/sphere.hh
@@ -83,7 +83,7 @@ public:
     bool contains(const Point& p, ctype eps) const
     {
         const auto v = Vector<ctype, 3>(center(), p);
-        return v.squaredLength() - radius()*radius() < eps*eps;
+        return v.length() - radius() < eps;
     }
 
     /*!
-- 
2.43.0


From 3024458865ad8de80fc039893cef120c736dc479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:57 +0000
Subject: [PATCH 06/54] fix: tolerance in Disk::contains

The (relative) tolerance was squared, and thus, as small as rounding errors. Points on the
boundary of disks that are not located at the origin were reported to be outside.
---
 frackit/geometry/disk.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frackit/geometry/disk.hh b/frackit/geometry/disk.hh
index 122a008..31ccf45 100644
--- a/frackit/geometry/disk.hh
+++ b/frackit/geometry/disk.hh
@@ -108,7 +108,7 @@ public:
         const auto x = deltaX*Vector(this->majorAxis()); // x-coord in local basis
         const auto y = deltaX*Vector(this->minorAxis()); // y-coord in local basis
 
-        return x*x/(a*a) + y*y/(b*b) <= 1.0 + eps*eps;
+        return x*x/(a*a) + y*y/(b*b) <= 1.0 + eps;
     }
 
     /*!
-- 
2.43.0


From 87072c3e529b1eaab3b8618451f133baf70aa277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:57 +0000
Subject: [PATCH 07/54] fix: tolerance in contains() of triangles,
 quadrilaterals and polygons

The difference of areas was compared to the squared tolerance, which is at the level of rounding errors.
For geometries that are not located at the origin, points on them were reported to be outside.
---
 frackit/geometry/polygon.hh       | 2 +-
 frackit/geometry/quadrilateral.hh | 2 +-
 frackit/geometry/triangle.hh      | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/frackit/geometry/polygon.hh b/frackit/geometry/polygon.hh
index ea9855e..5cdf073 100644
--- a/frackit/geometry/polygon.hh
+++ b/frackit/geometry/polygon.hh
@@ -211,7 +211,7 @@ private:
 
         // if area is equal to the polygon area, point is on it
         using std::abs;
-        return abs(area() - otherArea) < eps*eps;
+        return abs(area() - otherArea) < eps*Vector(corner(0), center()).length();
     }
 
     //! returns true if the polygon, represented by its triangulation, is degenerated
diff --git a/frackit/geometry/quadrilateral.hh b/frackit/geometry/quadrilateral.hh
index 74d1ef2..05f6d76 100644
--- a/frackit/geometry/quadrilateral.hh
+++ b/frackit/geometry/quadrilateral.hh
@@ -173,7 +173,7 @@ public:
 
         // if area is equal to the quadrilateral area, point is on it
         using std::abs;
-        return abs(area() - otherArea) < eps*eps;
+        return abs(area() - otherArea) < eps*Vector(corner(0), center()).length();
     }
 
     /*!
diff --git a/frackit/geometry/triangle.hh b/frackit/geometry/triangle.hh
index 0300746..e1e850b 100644
--- a/frackit/geometry/triangle.hh
+++ b/frackit/geometry/triangle.hh
@@ -156,7 +156,7 @@ public:
 
         // if area is equal to the triangle area, point is on it
         using std::abs;
-        return abs(area() - otherArea) < eps*eps;
+        return abs(area() - otherArea) < eps*Vector(corner(0), center()).length();
     }
 
     /*!
-- 
2.43.0


From 7b0d48823be7ce3de70017e09e43eaaf5ea1ece0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:01 +0000
Subject: [PATCH 08/54] fix: Disk::getPoint starts from the center of the disk

---
 frackit/geometry/disk.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frackit/geometry/disk.hh b/frackit/geometry/disk.hh
index 31ccf45..ba3a1d4 100644
--- a/frackit/geometry/disk.hh
+++ b/frackit/geometry/disk.hh
@@ -134,7 +134,7 @@ public:
         const auto p = boundingEllipse().getPoint(param1);
         Vector d(this->center(), p);
         d *= param2;
-        return p + d;
+        return this->center() + d;
     }
 
     //! Returns the ellipse describing the disk's boundary
-- 
2.43.0


From e20259861fa13297cc807bfc2a3c59d1f9cc96a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:14 +0000
Subject: [PATCH 09/54] fix: convexity check of polygons considers the corner
 between the first two edges

---
 frackit/geometry/polygon.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frackit/geometry/polygon.hh b/frackit/geometry/polygon.hh
index 5cdf073..ac708a6 100644
--- a/frackit/geometry/polygon.hh
+++ b/frackit/geometry/polygon.hh
@@ -232,7 +232,7 @@ private:
                                              Vector(edge(0).direction()));
 
         // check if normals around the other edges point in the same direction
-        for (std::size_t i = 1; i < numEdges()-1; ++i)
+        for (std::size_t i = 0; i < numEdges()-1; ++i)
         {
             const auto n = crossProduct(Vector(edge(i).direction()),
                                         Vector(edge(i+1).direction()));
-- 
2.43.0


From afcc2843c14414a5d11508f00f878d14812a9bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:29 +0000
Subject: [PATCH 10/54] fix: area, center and contains() of non-convex
 quadrilaterals

---
 frackit/geometry/quadrilateral.hh | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/frackit/geometry/quadrilateral.hh b/frackit/geometry/quadrilateral.hh
index 05f6d76..e991602 100644
--- a/frackit/geometry/quadrilateral.hh
+++ b/frackit/geometry/quadrilateral.hh
@@ -101,8 +101,10 @@ public:
         assert( supportPlane_.contains(p3, Precision<ctype>::confusion()
                                            *Vector(p0, p3).length()) );
 
-        const auto t1 = Triangle(p0, p1, p3);
-        const auto t2 = Triangle(p0, p3, p2);
+        determineConvexity_();
+        const auto triangles = triangulate_();
+        const auto& t1 = triangles[0];
+        const auto& t2 = triangles[1];
 
         // compute area
         area_ = t1.area() + t2.area();
@@ -112,8 +114,6 @@ public:
         auto d1 = Vector(center_, t1.center()); d1 *= t1.area();
         auto d2 = Vector(center_, t2.center()); d2 *= t2.area();
         center_ += d1; center_ += d2; center_ /= area_;
-
-        determineConvexity_();
     }
 
     //! Return the name of this geometry
@@ -164,6 +164,14 @@ public:
             if (!supportPlane_.contains(p, eps))
                 return false;
 
+        // non-convex quadrilaterals are split into two triangles
+        if (!isConvex_)
+        {
+            const auto triangles = triangulate_();
+            return triangles[0].contains(p, eps, false)
+                   || triangles[1].contains(p, eps, false);
+        }
+
         // sum up the areas of sub-triangles with the given point
         ctype otherArea(0.0);
         otherArea += Triangle(corners_[0], corners_[1], p).area();
@@ -197,6 +205,17 @@ public:
     bool isConvex() const { return isConvex_; }
 
 private:
+    //! splits the quadrilateral along the diagonal that lies inside of it
+    std::array<Triangle, 2> triangulate_() const
+    {
+        const auto t1 = Triangle(corner(0), corner(1), corner(3));
+        const auto t2 = Triangle(corner(0), corner(3), corner(2));
+        if (isConvex_ || Vector(t1.normal())*Vector(t2.normal()) > 0.0)
+            return {t1, t2};
+        return {Triangle(corner(0), corner(1), corner(2)),
+                Triangle(corner(1), corner(3), corner(2))};
+    }
+
     //! determines if the polygon is convex or not
     void determineConvexity_()
     {
-- 
2.43.0


From d8648b627a282b70927d48603a23192c28189eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:29 +0000
Subject: [PATCH 11/54] fix: shape of full ellipse arcs whose source is not on
 the major axis

---
 frackit/occ/geomutilities.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frackit/occ/geomutilities.hh b/frackit/occ/geomutilities.hh
index b7ed8a3..c495afc 100644
--- a/frackit/occ/geomutilities.hh
+++ b/frackit/occ/geomutilities.hh
@@ -82,7 +82,7 @@ namespace OCCUtilities {
         const auto geomEllipseHandle = getGeomHandle(ellipse);
         const auto angleSource = ellipseArc.sourceAngleOnEllipse();
         auto angleTarget = ellipseArc.targetAngleOnEllipse();
-        if (angleTarget < angleSource)
+        if (angleTarget <= angleSource)
             angleTarget += 2.0*M_PI;
 
         return new Geom_TrimmedCurve(geomEllipseHandle, angleSource, angleTarget);
-- 
2.43.0


From d164ffdf8a9c75eec8723e280f8918d2c1d3289f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:29 +0000
Subject: [PATCH 12/54] fix: lengths of ellipses, ellipse arcs and curved edges

---
 frackit/magnitude/length.hh | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/frackit/magnitude/length.hh b/frackit/magnitude/length.hh
index ea25240..e7e44b0 100644
--- a/frackit/magnitude/length.hh
+++ b/frackit/magnitude/length.hh
@@ -42,6 +42,7 @@
 #include <frackit/geometry/circle.hh>
 #include <frackit/geometry/ellipse.hh>
 #include <frackit/geometry/ellipsearc.hh>
+#include <frackit/precision/precision.hh>
 
 namespace Frackit {
 
@@ -65,7 +66,7 @@ ctype computeLength(const Handle(Geom_Curve)& curve)
     const auto uMin = curve->FirstParameter();
     const auto uMax = curve->LastParameter();
     GeomAdaptor_Curve adaptorCurve(curve, uMin, uMax);
-    return GCPnts_AbscissaPoint::Length(adaptorCurve, uMin, uMax);
+    return GCPnts_AbscissaPoint::Length(adaptorCurve, uMin, uMax, Precision<ctype>::confusion());
 }
 
 /*!
@@ -103,7 +104,7 @@ ctype computeLength(const Circle<ctype, worldDim>& circle)
  */
 template<class ctype, int worldDim>
 ctype computeLength(const Ellipse<ctype, worldDim>& ellipse)
-{ return M_PI*(ellipse.majorAxisLength() + ellipse.minorAxisLength()); }
+{ return computeLength(OCCUtilities::getGeomHandle(ellipse)); }
 
 /*!
  * \ingroup Magnitude
@@ -113,7 +114,7 @@ template<class ctype>
 ctype computeLength(const EllipseArc<ctype, 3>& arc)
 {
     if (arc.isFullEllipse())
-         return M_PI*(arc.majorAxisLength() + arc.minorAxisLength());
+         return computeLength(OCCUtilities::getGeomHandle(arc.supportingEllipse()));
     return computeLength(OCCUtilities::getGeomHandle(arc));
 }
 
-- 
2.43.0


From 4ef9c87251b970200a04d44deb4d00ccafd30e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:40 +0000
Subject: [PATCH 13/54] fix: Vector::isParallel for anti-parallel and non
 axis-aligned vectors

---
 frackit/geometry/vector.hh | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/frackit/geometry/vector.hh b/frackit/geometry/vector.hh
index cbecf47..26233aa 100644
--- a/frackit/geometry/vector.hh
+++ b/frackit/geometry/vector.hh
@@ -129,9 +129,13 @@ public:
         const auto thisNorm = length();
         const auto otherNorm = other.length();
 
-        using std::acos; using std::abs;
-        const auto angle = abs(acos( (*this)*other/thisNorm/otherNorm ));
-        return angle < angularEps || abs(angularEps - M_PI) < angularEps;
+        // acos(scalar product) would be inaccurate for (anti-)parallel vectors
+        auto v1 = asImp_(); v1 /= thisNorm;
+        auto v2 = other; v2 /= otherNorm;
+
+        using std::asin; using std::min;
+        const auto halfChord = 0.5*min((v1 - v2).length(), (v1 + v2).length());
+        return 2.0*asin(halfChord) < angularEps;
     }
 
     //! Scalar product with another vector
-- 
2.43.0


From 1ef94b780ab6182193a2a5d1d9be6929a024bd5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:13 +0000
Subject: [PATCH 14/54] fix: curves of circular ellipse arcs

---
 frackit/occ/geomutilities.hh | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/frackit/occ/geomutilities.hh b/frackit/occ/geomutilities.hh
index c495afc..bc80356 100644
--- a/frackit/occ/geomutilities.hh
+++ b/frackit/occ/geomutilities.hh
@@ -26,6 +26,8 @@
 #ifndef FRACKIT_GEOM_UTILITIES_HH
 #define FRACKIT_GEOM_UTILITIES_HH
 
+#include <cmath>
+
 // Handle class used by OpenCascade
 #include <Standard_Handle.hxx>
 
@@ -34,9 +36,11 @@
 
 // objects from geometric processors package
 #include <gp_Ax2.hxx>
+#include <gp_Circ.hxx>
 #include <gp_Elips.hxx>
 
 // objects from the geometry package
+#include <Geom_Circle.hxx>
 #include <Geom_Ellipse.hxx>
 #include <Geom_Curve.hxx>
 #include <Geom_TrimmedCurve.hxx>
@@ -49,6 +53,7 @@
 // internal geometry classes
 #include <frackit/geometry/ellipse.hh>
 #include <frackit/geometry/ellipsearc.hh>
+#include <frackit/precision/precision.hh>
 
 #include "gputilities.hh"
 
@@ -65,6 +70,13 @@ namespace OCCUtilities {
         gp_Dir normal = direction(ellipse.normal());
         gp_Dir majorAx = direction(ellipse.majorAxis());
         gp_Pnt center = point(ellipse.center());
+        // the algorithms of OpenCascade on ellipses fail on circular ones
+        using std::abs;
+        const auto deltaR = ellipse.majorAxisLength() - ellipse.minorAxisLength();
+        if (abs(deltaR) < ellipse.majorAxisLength()*Precision<ctype>::confusion())
+            return new Geom_Circle(gp_Circ(gp_Ax2(center, normal, majorAx),
+                                           ellipse.majorAxisLength()));
+
         gp_Elips gpEllipse(gp_Ax2(center, normal, majorAx),
                            ellipse.majorAxisLength(),
                            ellipse.minorAxisLength());
-- 
2.43.0


From a56e8ec346773ce0eec83fb53e5d9662e4adf1d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:15 +0000
Subject: [PATCH 15/54] fix: collinear segments touching at their ends
 intersect in a point

---
 .../intersection/algorithms/algo_segment_segment.hh  | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/frackit/intersection/algorithms/algo_segment_segment.hh b/frackit/intersection/algorithms/algo_segment_segment.hh
index cb8ec48..16b0882 100644
--- a/frackit/intersection/algorithms/algo_segment_segment.hh
+++ b/frackit/intersection/algorithms/algo_segment_segment.hh
@@ -84,11 +84,15 @@ intersect_segment_segment(const Segment<ctype, wd>& segment1,
         const bool t1On2 = segment2.contains(t1, eps, false);
         if (s1On2 && t1On2) return ResultType( segment1 );
 
-        if (s2On1 && s1On2) return ResultType( Segment(s2, s1) );
-        if (s2On1 && t1On2) return ResultType( Segment(s2, t1) );
+        // segments that merely touch at their ends overlap in a point
+        const auto makeOverlap = [eps] (const auto& p, const auto& q)
+        { return p.isEqual(q, eps) ? ResultType( p ) : ResultType( Segment(p, q) ); };
 
-        if (t2On1 && s1On2) return ResultType( Segment(t2, s1) );
-        if (t2On1 && t1On2) return ResultType( Segment(t2, t1) );
+        if (s2On1 && s1On2) return makeOverlap(s2, s1);
+        if (s2On1 && t1On2) return makeOverlap(s2, t1);
+
+        if (t2On1 && s1On2) return makeOverlap(t2, s1);
+        if (t2On1 && t1On2) return makeOverlap(t2, t1);
     }
 
     // Fragment the lines to find the intersection point
-- 
2.43.0


From 2e62843d24c67dac57768057a8b344ac2b2c11f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:51 +0000
Subject: [PATCH 16/54] fix: characteristic length of polygon-disk
 intersections considers the disk

---
 frackit/intersection/algorithms/algo_polygon_disk.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frackit/intersection/algorithms/algo_polygon_disk.hh b/frackit/intersection/algorithms/algo_polygon_disk.hh
index 450e39d..25a3174 100644
--- a/frackit/intersection/algorithms/algo_polygon_disk.hh
+++ b/frackit/intersection/algorithms/algo_polygon_disk.hh
@@ -50,7 +50,7 @@ intersect_polygon_disk(const Polygon<ctype, 3>& polygon,
                              ctype eps)
 {
     using Segment = Segment<ctype, 3>;
-    ctype charLength = 0.0;
+    ctype charLength = disk.majorAxisLength()*disk.majorAxisLength();
 
     using std::max;
     for (unsigned int i = 0; i < polygon.numCorners(); ++i)
-- 
2.43.0


From 5037e0124a6180dbd4e8c2f46981d21737724730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:51 +0000
Subject: [PATCH 17/54] fix: planar geometries touching in a point of both
 boundaries intersect in that point

---
 .../algorithms/algo_planargeom_planargeom.hh           | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/frackit/intersection/algorithms/algo_planargeom_planargeom.hh b/frackit/intersection/algorithms/algo_planargeom_planargeom.hh
index 51eced1..c874a9f 100644
--- a/frackit/intersection/algorithms/algo_planargeom_planargeom.hh
+++ b/frackit/intersection/algorithms/algo_planargeom_planargeom.hh
@@ -107,7 +107,7 @@ intersect_planarGeometry_planarGeometry(const PlanarGeom1& faceGeom1,
                 return ResultType( EmptyIntersection<worldDim>() );
         }
 
-        // one of the faces might still touch the other face
+        // one (or both) of the faces might still touch the other face
         if (std::holds_alternative<Segment<ctype, worldDim>>(is1)
             && std::holds_alternative<Point<ctype, worldDim>>(is2))
         {
@@ -124,6 +124,14 @@ intersect_planarGeometry_planarGeometry(const PlanarGeom1& faceGeom1,
             if (seg2.contains(p1, eps))
                 return ResultType( p1 );
         }
+        else if (std::holds_alternative<Point<ctype, worldDim>>(is1)
+                 && std::holds_alternative<Point<ctype, worldDim>>(is2))
+        {
+            const auto& p1 = std::get<Point<ctype, worldDim>>(is1);
+            const auto& p2 = std::get<Point<ctype, worldDim>>(is2);
+            if (p1.isEqual(p2, eps))
+                return ResultType( p1 );
+        }
 
         // intersection is empty
         return ResultType( EmptyIntersection<worldDim>() );
-- 
2.43.0


From 6414985cf03e6725e8640f22fbb850065696dd8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:04 +0000
Subject: [PATCH 18/54] fix: MultiGeometryEntitySet::addEntity compiles with
 explicit Id constructor

---
 frackit/entitynetwork/multigeometryentityset.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frackit/entitynetwork/multigeometryentityset.hh b/frackit/entitynetwork/multigeometryentityset.hh
index 8c03ed7..dc8a822 100644
--- a/frackit/entitynetwork/multigeometryentityset.hh
+++ b/frackit/entitynetwork/multigeometryentityset.hh
@@ -96,7 +96,7 @@ public:
         }
 
         // define a new entity set
-        entityIdVectors.push_back( GeometryVectorIdPair<Entity>({}, id.get()) );
+        entityIdVectors.push_back( GeometryVectorIdPair<Entity>(std::vector<Entity>(), id) );
         entityIdVectors.back().first.push_back(entity);
         entitySetGeometries_[id.get()] = geometryName(entity);
     }
-- 
2.43.0


From b23a0a2c49afbc4a3a973e0333ad3a4785af8da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:46 +0000
Subject: [PATCH 19/54] fix: face-face intersections return each common edge
 exactly once

---
 .../algorithms/algo_face_face_3d.hh           | 50 +++++++++----------
 1 file changed, 23 insertions(+), 27 deletions(-)

diff --git a/frackit/intersection/algorithms/algo_face_face_3d.hh b/frackit/intersection/algorithms/algo_face_face_3d.hh
index 0dda6db..ded9423 100644
--- a/frackit/intersection/algorithms/algo_face_face_3d.hh
+++ b/frackit/intersection/algorithms/algo_face_face_3d.hh
@@ -29,6 +29,7 @@
 #include <TopoDS_Vertex.hxx>
 #include <TopoDS_Edge.hxx>
 #include <TopoDS_Face.hxx>
+#include <BRepAlgoAPI_Section.hxx>
 
 #include <frackit/geometry/ctype.hh>
 #include <frackit/geometry/point.hh>
@@ -71,36 +72,31 @@ intersect_face_face_3d(const TopoDS_Face& face1,
         faceIntersections.emplace_back(std::move(f));
 
     // find possible edge intersections
-    const auto faceCut = OCCUtilities::cut(face1, face2, eps);
-    const auto faceCutFaces = OCCUtilities::getFaces(faceCut);
-    for (unsigned int i = 0; i < faceCutFaces.size(); ++i)
+    BRepAlgoAPI_Section section(face1, face2, /*performNow*/false);
+    section.SetRunParallel(false);
+    section.SetFuzzyValue(eps);
+    section.Build();
+    if (!section.IsDone())
+        throw std::runtime_error("Could not compute the face section");
+
+    for (auto& edge : OCCUtilities::getEdges(section.Shape()))
     {
-        // edges of the fragments coinciding with the face
-        const auto cutFaceWires = OCCUtilities::getWires(faceCutFaces[i]);
-        for (const auto& wire : cutFaceWires)
+        // only use this edge if it is not on a previously found face
+        bool isContained = false;
+        for (const auto& faceIS : faceIntersections)
         {
-            const auto wireIS = OCCUtilities::intersect(wire, face2, eps);
-            const auto edgesOnFace = OCCUtilities::getEdges(wireIS);
-            for (auto& edge : edgesOnFace)
-            {
-                // only use this edge if it is not on a previously found face
-                bool isContained = false;
-                for (const auto& faceIS : faceIntersections)
-                {
-                    const auto edgeFaceIS = OCCUtilities::intersect(edge, faceIS, eps);
-                    const auto edgeFaceISEdges = OCCUtilities::getEdges(edgeFaceIS);
-                    if (!edgeFaceISEdges.empty()) { isContained = true; break; }
-                }
-
-                if (isContained)
-                    continue;
-
-                if (std::none_of(edgeIntersections.begin(),
-                                 edgeIntersections.end(),
-                                 [&] (const auto& e) { return edge.IsSame(e); }))
-                    edgeIntersections.emplace_back(edge);
-            }
+            const auto edgeFaceIS = OCCUtilities::intersect(edge, faceIS, eps);
+            const auto edgeFaceISEdges = OCCUtilities::getEdges(edgeFaceIS);
+            if (!edgeFaceISEdges.empty()) { isContained = true; break; }
         }
+
+        if (isContained)
+            continue;
+
+        if (std::none_of(edgeIntersections.begin(),
+                         edgeIntersections.end(),
+                         [&] (const auto& e) { return edge.IsSame(e); }))
+            edgeIntersections.emplace_back(edge);
     }
 
     // Find possible touching points by cutting the wires of the faces
-- 
2.43.0


From 8123757b98b84851d53c22394617981078ab6f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:03 +0000
Subject: [PATCH 20/54] fix: planes tangential to a cylinder surface intersect
 it in a segment

---
 .../algorithms/algo_cylsurface_planargeom.hh  | 23 +++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/frackit/intersection/algorithms/algo_cylsurface_planargeom.hh b/frackit/intersection/algorithms/algo_cylsurface_planargeom.hh
index e2004c8..4f775ff 100644
--- a/frackit/intersection/algorithms/algo_cylsurface_planargeom.hh
+++ b/frackit/intersection/algorithms/algo_cylsurface_planargeom.hh
@@ -168,6 +168,29 @@ intersect_cylinderSurface_planarGeometry(const CylinderSurface<ctype>& cylSurfac
     const auto containedFaces = OCCUtilities::getFaces(containedFaceShape);
     assert(containedFaces.size() <= 1);
 
+    // planes tangential to the surface touch it along a line
+    if (faceGeomIsParallel)
+    {
+        const auto axis = cylSurface.centerSegment();
+        const auto source = faceGeomPlane.projection(axis.source());
+        const auto target = faceGeomPlane.projection(axis.target());
+        if (cylSurface.contains(source, eps) && cylSurface.contains(target, eps))
+        {
+            const auto tangentIS = OCCUtilities::intersect(OCCUtilities::makeEdge(source, target), faceShape, 0.1*eps);
+            const auto tangentEdges = OCCUtilities::getEdges(tangentIS);
+            if (!tangentEdges.empty())
+            {
+                ResultType result;
+                for (const auto& e : tangentEdges)
+                {
+                    const auto vertices = OCCUtilities::getVertices(e);
+                    result.emplace_back(Segment(OCCUtilities::point(vertices[0]), OCCUtilities::point(vertices[1])));
+                }
+                return result;
+            }
+        }
+    }
+
     // if the face is completely outside, there might still be touching edges or corners
     // first, check for wires on the cylinder surfaces
     const auto faceGeomWires = OCCUtilities::getWires(faceShape);
-- 
2.43.0


From 6cb712c7c15f69faf5dbbfce3135d58f08f8ae97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:02 +0000
Subject: [PATCH 21/54] fix: pointOnGeometry for one- and two-dimensional
 geometries compiles

---
 frackit/distance/pointongeometry.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frackit/distance/pointongeometry.hh b/frackit/distance/pointongeometry.hh
index 78f9881..8d8b92d 100644
--- a/frackit/distance/pointongeometry.hh
+++ b/frackit/distance/pointongeometry.hh
@@ -46,7 +46,7 @@ namespace Frackit {
 template<class ctype1, int wd, class Geo, class ctype2>
 bool pointOnGeometry(const Point<ctype1, wd>& p, const Geo& geo, ctype2 eps)
 {
-    static_assert(wd == DimensionalityTraits<Geo>::geomDim, "World dimension mismatch");
+    static_assert(wd == DimensionalityTraits<Geo>::worldDimension(), "World dimension mismatch");
     return geo.contains(p, eps);
 }
 
-- 
2.43.0


From aeac52a164b66c24db4fecdceea386abecffae69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:02 +0000
Subject: [PATCH 22/54] fix: pointOnGeometryBoundary for faces considers the
 tolerance passed

---
 frackit/distance/pointonboundary.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frackit/distance/pointonboundary.hh b/frackit/distance/pointonboundary.hh
index cc8a94b..129d65a 100644
--- a/frackit/distance/pointonboundary.hh
+++ b/frackit/distance/pointonboundary.hh
@@ -143,7 +143,7 @@ template<class ctype1, class ctype2>
 bool pointOnGeometryBoundary(const Point<ctype1, 3>& p,
                              const TopoDS_Face& face,
                              ctype2 eps)
-{ return pointOnGeometry(p, BRepTools::OuterWire(face)); }
+{ return pointOnGeometry(p, BRepTools::OuterWire(face), eps); }
 
 /*!
  * \ingroup Distance
-- 
2.43.0


From a7fd59d0766fd6a8e20ed92ea0b7940ba6341df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:02 +0000
Subject: [PATCH 23/54] fix: angle between (nearly) parallel planes is not NaN

---
 frackit/intersection/intersectionangle.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/frackit/intersection/intersectionangle.hh b/frackit/intersection/intersectionangle.hh
index 050791f..dc16c24 100644
--- a/frackit/intersection/intersectionangle.hh
+++ b/frackit/intersection/intersectionangle.hh
@@ -114,7 +114,9 @@ public:
         using std::abs;
         using std::acos;
         using Vector = Vector<ctype, wd>;
-        return acos( abs(Vector(plane1.normal())*Vector(plane2.normal())) );
+        using std::min;
+        const ctype cosAngle = abs(Vector(plane1.normal())*Vector(plane2.normal()));
+        return acos( min(cosAngle, ctype(1.0)) );
     }
 
     /*!
-- 
2.43.0


From dce669c0bfe07548be1d946908a6ad63dbd6b346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:02 +0000
Subject: [PATCH 24/54] fix: intersection angle between geometry and face at a
 point evaluates the face at that point

---
 frackit/intersection/intersectionangle.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frackit/intersection/intersectionangle.hh b/frackit/intersection/intersectionangle.hh
index dc16c24..b88e2e0 100644
--- a/frackit/intersection/intersectionangle.hh
+++ b/frackit/intersection/intersectionangle.hh
@@ -382,7 +382,7 @@ public:
         // construct the tangent plane of the face in the point
         gp_Pnt p;
         gp_Vec baseVec1, baseVec2;
-        geomSurface->D1(projection, paramV, p, baseVec1, baseVec2);
+        geomSurface->D1(paramU, paramV, p, baseVec1, baseVec2);
 
         const auto base1 = OCCUtilities::vector(baseVec1);
         const auto base2 = OCCUtilities::vector(baseVec2);
-- 
2.43.0


From 3823184f783a6b02e4bdad2b5ffb037ca3cba736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:50 +0000
Subject: [PATCH 25/54] fix: entity networks contain only the fragments of the
 entities, not the section edges and vertices

---
 frackit/entitynetwork/networkbuilder.hh | 28 +++++++------------------
 1 file changed, 7 insertions(+), 21 deletions(-)

diff --git a/frackit/entitynetwork/networkbuilder.hh b/frackit/entitynetwork/networkbuilder.hh
index 601c8d8..402f15d 100644
--- a/frackit/entitynetwork/networkbuilder.hh
+++ b/frackit/entitynetwork/networkbuilder.hh
@@ -253,20 +253,15 @@ protected:
                 if (!fragmentMap.Find(entityShape, entityIdx))
                     throw std::runtime_error("Could not find entity index");
 
-                // map all fragments to this new index
+                // map all fragments to this new index. Note that shapes generated by
+                // an entity are of lower dimension (e.g. section edges), i.e. no fragments
                 const bool isDeleted = intersection.IsDeleted(entityShape);
-                const auto& generated = intersection.Generated(entityShape);
                 const auto& modified = intersection.Modified(entityShape);
-                if (!isDeleted && generated.IsEmpty() && modified.IsEmpty())
+                if (!isDeleted && modified.IsEmpty())
                 {
                     newIndexMap.Bind(entityShape, entityIdx);
                     newList.Append(entityShape);
                 }
-                for (const auto& fragment : generated)
-                {
-                    if (!newIndexMap.IsBound(fragment)) newIndexMap.Bind(fragment, entityIdx);
-                    if (!newList.Contains(fragment)) newList.Append(fragment);
-                }
                 for (const auto& fragment : modified)
                 {
                     if (!newIndexMap.IsBound(fragment)) newIndexMap.Bind(fragment, entityIdx);
@@ -346,22 +341,17 @@ protected:
             if (!map.Find(shape, entityIdx))
                 throw std::runtime_error("Could not find original entity index");
 
-            // map all fragments to this new index
+            // map all fragments to this new index. Note that shapes generated by
+            // an entity are of lower dimension (e.g. section edges), i.e. no fragments
             const bool isDeleted = fragmentAlgo.IsDeleted(shape);
-            const auto& generated = fragmentAlgo.Generated(shape);
             const auto& modified = fragmentAlgo.Modified(shape);
             auto& newList = newFragmentLists[subDomainIdx];
             auto& newMap = newFragmentMaps[subDomainIdx];
-            if (!isDeleted && generated.IsEmpty() && modified.IsEmpty())
+            if (!isDeleted && modified.IsEmpty())
             {
                 newMap.Bind(shape, entityIdx);
                 newList.Append(shape);
             }
-            for (const auto& fragment : generated)
-            {
-                if (!newMap.IsBound(fragment)) newMap.Bind(fragment, entityIdx);
-                if (!newList.Contains(fragment)) newList.Append(fragment);
-            }
             for (const auto& fragment : modified)
             {
                 if (!newMap.IsBound(fragment)) newMap.Bind(fragment, entityIdx);
@@ -385,15 +375,11 @@ protected:
 
             // store the fragments of this sub-domain
             const bool isDeleted = fragmentAlgo.IsDeleted(domainShape);
-            const auto& generated = fragmentAlgo.Generated(domainShape);
             const auto& modified = fragmentAlgo.Modified(domainShape);
 
             auto& sdFragmentList = subDomainFragmentLists_[subDomainIdx];
-            if (!isDeleted && generated.IsEmpty() && modified.IsEmpty())
+            if (!isDeleted && modified.IsEmpty())
                 sdFragmentList.Append(domainShape);
-            for (const auto& fragment : generated)
-                if (!sdFragmentList.Contains(fragment))
-                    sdFragmentList.Append(fragment);
             for (const auto& fragment : modified)
                 if (!sdFragmentList.Contains(fragment))
                     sdFragmentList.Append(fragment);
-- 
2.43.0


From f31060dd9faf105c9742dcdff5d36135f53f3b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:32 +0000
Subject: [PATCH 26/54] fix: networks consisting of a single shape can be built

---
 frackit/entitynetwork/networkbuilder.hh | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/frackit/entitynetwork/networkbuilder.hh b/frackit/entitynetwork/networkbuilder.hh
index 402f15d..6487841 100644
--- a/frackit/entitynetwork/networkbuilder.hh
+++ b/frackit/entitynetwork/networkbuilder.hh
@@ -316,6 +316,14 @@ protected:
         for (const auto& domainShape : allDomains)
             allShapes.Append(domainShape);
 
+        // single shapes (or none at all) don't have to be fragmented
+        if (allShapes.Extent() < 2)
+        {
+            for (const auto& domainShape : allDomains)
+                subDomainFragmentLists_[domainToSubDomainIndex.Find(domainShape)].Append(domainShape);
+            return;
+        }
+
         // fragment all shapes
         BRepAlgoAPI_BuilderAlgo fragmentAlgo;
         fragmentAlgo.SetRunParallel(false);
-- 
2.43.0


From b5b6f711c9f52895d1061ba977283b42b9920c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:32 +0000
Subject: [PATCH 27/54] fix: entities of different sub-networks never share an
 index in the merged network

---
 frackit/entitynetwork/networkbuilder.hh | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/frackit/entitynetwork/networkbuilder.hh b/frackit/entitynetwork/networkbuilder.hh
index 6487841..c7e7e47 100644
--- a/frackit/entitynetwork/networkbuilder.hh
+++ b/frackit/entitynetwork/networkbuilder.hh
@@ -583,7 +583,10 @@ public:
             const auto& indexMap = dataPair.second;
             for (TopTools_DataMapIteratorOfDataMapOfShapeInteger it(indexMap); it.More(); it.Next())
                 fragmentIndexMap.Bind(it.Key(), it.Value() + entityIndexOffset);
-            entityIndexOffset += indexMap.Extent();
+
+            // the indices of a sub-network run up to the number of its (primary) entities
+            if (auto netIt = this->networks_.find(dataPair.first); netIt != this->networks_.end())
+                entityIndexOffset += netIt->second.Extent();
         }
 
         // create the network
-- 
2.43.0


From 0b6c274c87af6a47c31195387df1bc7dbb10a3fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:24 +0000
Subject: [PATCH 28/54] fix: fragments shared by several sub-networks occur
 once in the merged network

---
 frackit/entitynetwork/networkbuilder.hh | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/frackit/entitynetwork/networkbuilder.hh b/frackit/entitynetwork/networkbuilder.hh
index c7e7e47..6eef0a4 100644
--- a/frackit/entitynetwork/networkbuilder.hh
+++ b/frackit/entitynetwork/networkbuilder.hh
@@ -570,19 +570,20 @@ public:
         // Then fragment the network entities
         this->fragment_(/*fragmentNetworkOnly*/true);
 
-        // merge all fragments into one list
+        // merge all fragments into one list and all index maps into one. Note that
+        // coincident entities of different sub-networks share their fragments
         TopTools_ListOfShape fragmentList;
-        for (auto& sdFragmentDataPair : this->networkFragmentLists_)
-            fragmentList.Append(sdFragmentDataPair.second);
-
-        // merge all index maps into one
         std::size_t entityIndexOffset = 0;
         TopTools_DataMapOfShapeInteger fragmentIndexMap;
         for (auto& dataPair : this->networkFragmentMaps_)
         {
             const auto& indexMap = dataPair.second;
+            for (const auto& fragment : this->networkFragmentLists_.at(dataPair.first))
+                if (!fragmentIndexMap.IsBound(fragment))
+                    fragmentList.Append(fragment);
             for (TopTools_DataMapIteratorOfDataMapOfShapeInteger it(indexMap); it.More(); it.Next())
-                fragmentIndexMap.Bind(it.Key(), it.Value() + entityIndexOffset);
+                if (!fragmentIndexMap.IsBound(it.Key()))
+                    fragmentIndexMap.Bind(it.Key(), it.Value() + entityIndexOffset);
 
             // the indices of a sub-network run up to the number of its (primary) entities
             if (auto netIt = this->networks_.find(dataPair.first); netIt != this->networks_.end())
-- 
2.43.0


From c270a4fa6866b43f3f4cb6df6ba400cc7fc61283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:24 +0000
Subject: [PATCH 29/54] fix: the same shape object may be added to several
 sub-domains

---
 frackit/entitynetwork/networkbuilder.hh | 70 +++++++++----------------
 1 file changed, 26 insertions(+), 44 deletions(-)

diff --git a/frackit/entitynetwork/networkbuilder.hh b/frackit/entitynetwork/networkbuilder.hh
index 6eef0a4..4b47169 100644
--- a/frackit/entitynetwork/networkbuilder.hh
+++ b/frackit/entitynetwork/networkbuilder.hh
@@ -32,6 +32,7 @@
 
 #include <TopTools_DataMapOfShapeInteger.hxx>
 #include <TopTools_ListOfShape.hxx>
+#include <TopTools_MapOfShape.hxx>
 #include <TopoDS_Shape.hxx>
 
 #include <frackit/common/id.hh>
@@ -217,7 +218,6 @@ protected:
         for (const auto& indexNetworkPair : networks_)
         {
             const auto subDomainIndex = indexNetworkPair.first;
-            const auto& network = indexNetworkPair.second;
 
             auto& fragmentList = networkFragmentLists_[subDomainIndex];
             auto& fragmentMap = networkFragmentMaps_[subDomainIndex];
@@ -236,7 +236,7 @@ protected:
                 continue;
 
             BRepAlgoAPI_Common intersection;
-            intersection.SetArguments(network);
+            intersection.SetArguments(fragmentList);
             intersection.SetTools(domainShapeList);
             intersection.SetRunParallel(false);
             intersection.SetFuzzyValue(getEpsilon_());
@@ -247,7 +247,7 @@ protected:
             // keep track of original entity indices
             TopTools_ListOfShape newList;
             TopTools_DataMapOfShapeInteger newIndexMap;
-            for (const auto& entityShape : network)
+            for (const auto& entityShape : fragmentList)
             {
                 int entityIdx;
                 if (!fragmentMap.Find(entityShape, entityIdx))
@@ -284,43 +284,25 @@ protected:
      */
     void fragment_(bool fragmentNetworkOnly)
     {
-        // List with all entities of the network
-        TopTools_ListOfShape allEntities;
-        TopTools_DataMapOfShapeInteger entityToSubDomainIndex;
+        // List of all shapes, i.e. the entities of the network and the sub-domains (omit the
+        // latter if only network is considered). The same shape may occur in several sub-domains.
+        TopTools_ListOfShape allShapes;
+        TopTools_MapOfShape addedShapes;
         for (const auto& fragmentListPair : networkFragmentLists_)
-        {
             for (const auto& fragment : fragmentListPair.second)
-            {
-                allEntities.Append(fragment);
-                entityToSubDomainIndex.Bind(fragment, fragmentListPair.first);
-            }
-        }
-
-        // All sub-domains (omit this if only network is considered)
-        TopTools_ListOfShape allDomains;
-        TopTools_DataMapOfShapeInteger domainToSubDomainIndex;
+                if (addedShapes.Add(fragment))
+                    allShapes.Append(fragment);
         if (!fragmentNetworkOnly)
-        {
             for (const auto& subDomainDataPair : subDomains_)
-            {
-                allDomains.Append(subDomainDataPair.second);
-                domainToSubDomainIndex.Bind(subDomainDataPair.second,
-                                            subDomainDataPair.first);
-            }
-        }
-
-        // List of both entity and sub-domain shapes
-        TopTools_ListOfShape allShapes;
-        for (const auto& entityShape : allEntities)
-            allShapes.Append(entityShape);
-        for (const auto& domainShape : allDomains)
-            allShapes.Append(domainShape);
+                if (addedShapes.Add(subDomainDataPair.second))
+                    allShapes.Append(subDomainDataPair.second);
 
         // single shapes (or none at all) don't have to be fragmented
         if (allShapes.Extent() < 2)
         {
-            for (const auto& domainShape : allDomains)
-                subDomainFragmentLists_[domainToSubDomainIndex.Find(domainShape)].Append(domainShape);
+            if (!fragmentNetworkOnly)
+                for (const auto& subDomainDataPair : subDomains_)
+                    subDomainFragmentLists_[subDomainDataPair.first].Append(subDomainDataPair.second);
             return;
         }
 
@@ -336,12 +318,10 @@ protected:
         // map the resulting entities back to the original entity index
         std::unordered_map<std::size_t, TopTools_ListOfShape> newFragmentLists;
         std::unordered_map<std::size_t, TopTools_DataMapOfShapeInteger> newFragmentMaps;
-        for (const auto& shape : allEntities)
+        for (const auto& fragmentListPair : networkFragmentLists_)
+        for (const auto& shape : fragmentListPair.second)
         {
-            // get subdomain index
-            int subDomainIdx;
-            if (!entityToSubDomainIndex.Find(shape, subDomainIdx))
-                throw std::runtime_error("Could not find sub-domain index");
+            const auto subDomainIdx = fragmentListPair.first;
 
             // get original entity index
             int entityIdx;
@@ -374,12 +354,13 @@ protected:
             networkFragmentMaps_[dataPair.first] = std::move(dataPair.second);
 
         // map the resulting domain entities back to the original entity index
-        for (const auto& domainShape : allDomains)
+        if (fragmentNetworkOnly)
+            return;
+
+        for (const auto& subDomainDataPair : subDomains_)
         {
-            // get subdomain index
-            int subDomainIdx;
-            if (!domainToSubDomainIndex.Find(domainShape, subDomainIdx))
-                throw std::runtime_error("Could not find sub-domain index");
+            const auto subDomainIdx = subDomainDataPair.first;
+            const auto& domainShape = subDomainDataPair.second;
 
             // store the fragments of this sub-domain
             const bool isDeleted = fragmentAlgo.IsDeleted(domainShape);
@@ -455,8 +436,9 @@ protected:
             auto& fragmentMap = networkFragmentMaps_[subDomainIndex];
             for (const auto& entityShape : network)
             {
-                fragmentList.Append(entityShape);
-                fragmentMap.Bind(entityShape, idx++);
+                // the same shape might have been added repeatedly
+                if (fragmentMap.Bind(entityShape, idx++))
+                    fragmentList.Append(entityShape);
             }
         }
     }
-- 
2.43.0


From 39daf3537374d67d365f8230ebe196293119efb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:24 +0000
Subject: [PATCH 30/54] fix: default tolerance of network builders follows the
 inserted geometries

---
 frackit/entitynetwork/networkbuilder.hh | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/frackit/entitynetwork/networkbuilder.hh b/frackit/entitynetwork/networkbuilder.hh
index 4b47169..8cf1aa2 100644
--- a/frackit/entitynetwork/networkbuilder.hh
+++ b/frackit/entitynetwork/networkbuilder.hh
@@ -380,8 +380,13 @@ protected:
      */
     ctype getEpsilon_()
     {
+        // if no value was set explicitly, the default value
+        // has to follow the geometries that have been inserted
         if (!epsilonIsSet_)
+        {
             setDefaultEpsilon();
+            epsilonIsSet_ = false;
+        }
         return eps_;
     }
 
-- 
2.43.0


From 61e27ed8574034977e30f9dfc3ef2375bd2947ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:59 +0000
Subject: [PATCH 31/54] fix: fragments of different entities are not written
 into one physical surface

---
 frackit/io/brepwriter.hh | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/frackit/io/brepwriter.hh b/frackit/io/brepwriter.hh
index 8d097c2..a571085 100644
--- a/frackit/io/brepwriter.hh
+++ b/frackit/io/brepwriter.hh
@@ -25,6 +25,7 @@
 #define FRACKIT_BREP_WRITER_HH
 
 #include <string>
+#include <algorithm>
 #include <stdexcept>
 #include <unordered_map>
 
@@ -136,14 +137,17 @@ private:
             // Therefore, we add the offset in order to ensure that we don't add
             // entities from another network to the same primary entity index
             const auto& map = network.subDomainEntityFragmentsIndexMap(id);
+            std::size_t maxIndex = subNetworkOffset;
             for (TopTools_DataMapIteratorOfDataMapOfShapeInteger it(map); it.More(); it.Next())
             {
+                const std::size_t index = it.Value() + subNetworkOffset;
                 allEntities_.Append(it.Key());
-                allEntitiesIndexMap_.Bind(it.Key(), it.Value() + subNetworkOffset);
+                allEntitiesIndexMap_.Bind(it.Key(), index);
+                maxIndex = std::max(maxIndex, index);
             }
 
-            // the next sub-domain
-            subNetworkOffset += map.Extent();
+            // the next sub-domain (there may be entities without fragments)
+            subNetworkOffset = maxIndex;
         }
     }
 
-- 
2.43.0


From 10f80d89936d039c57709f1f9dd6b14c1c6ef4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:59 +0000
Subject: [PATCH 32/54] fix: only edges between different entities are written
 as intersections

---
 frackit/io/brepwriter.hh | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/frackit/io/brepwriter.hh b/frackit/io/brepwriter.hh
index a571085..3069862 100644
--- a/frackit/io/brepwriter.hh
+++ b/frackit/io/brepwriter.hh
@@ -179,6 +179,10 @@ private:
                 if (it.Value().IsSame(it2.Value()))
                     continue;
 
+                // edges between fragments of the same entity are no intersections
+                if (allEntitiesIndexMap_.Find(it.Value()) == allEntitiesIndexMap_.Find(it2.Value()))
+                    continue;
+
                 const auto edges = OCCUtilities::getOverlapEdges(TopoDS::Face(it.Value()),
                                                                  TopoDS::Face(it2.Value()));
 
-- 
2.43.0


From 8a856406748b568c6614b114ce3bc58f5a3a546a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:59 +0000
Subject: [PATCH 33/54] fix: intersection edges are found independent of their
 orientation

---
 frackit/io/brepwriter.hh | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/frackit/io/brepwriter.hh b/frackit/io/brepwriter.hh
index 3069862..83f0689 100644
--- a/frackit/io/brepwriter.hh
+++ b/frackit/io/brepwriter.hh
@@ -189,7 +189,7 @@ private:
                 std::vector<std::size_t> handled;
                 for (unsigned int eIdx = 0; eIdx < edges.size(); ++eIdx)
                     for (const auto& isList : entityIntersections_)
-                        if (isList.Contains(edges[eIdx]))
+                        if (isList.Contains(edges[eIdx].Oriented(TopAbs_FORWARD)))
                             handled.push_back(eIdx);
 
                 if (handled.size() != edges.size())
@@ -197,7 +197,7 @@ private:
                     entityIntersections_.resize(entityIntersections_.size()+1);
                     for (unsigned int eIdx = 0; eIdx < edges.size(); ++eIdx)
                         if (!std::count(handled.begin(), handled.end(), eIdx))
-                            entityIntersections_.back().Append(edges[eIdx]);
+                            entityIntersections_.back().Append(edges[eIdx].Oriented(TopAbs_FORWARD));
                 }
             }
         }
@@ -329,7 +329,7 @@ private:
 
                 // start from index 1 in the map
                 for (std::size_t isIdx = 0; isIdx < entityIntersections_.size(); ++isIdx)
-                    if (entityIntersections_[isIdx].Contains(edge))
+                    if (entityIntersections_[isIdx].Contains(edge.Oriented(TopAbs_FORWARD)))
                         entityIntersectionsToFragmentsMap_[isIdx+1].push_back(curEntityIdx);
 
                 addVertices_(edgeExp.Current());
@@ -356,7 +356,7 @@ private:
     // containers to store the primary entities
     TopTools_ListOfShape allEntities_;
     TopTools_DataMapOfShapeInteger allEntitiesIndexMap_;
-    std::vector<TopTools_ListOfShape> entityIntersections_;
+    std::vector<TopTools_ListOfShape> entityIntersections_; // edges, oriented forward
 
     // sub-shape maps
     TopTools_IndexedMapOfShape vmap_, emap_, wmap_, fmap_, shmap_, somap_;
-- 
2.43.0


From 7a6121c9c1c733b91973222b2ed2b24cdb09f24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:52 +0000
Subject: [PATCH 34/54] fix: polygon sampler detects that no positive dip
 length can be sampled

---
 frackit/sampling/polygonsampler.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frackit/sampling/polygonsampler.hh b/frackit/sampling/polygonsampler.hh
index c726dc5..7e9b567 100644
--- a/frackit/sampling/polygonsampler.hh
+++ b/frackit/sampling/polygonsampler.hh
@@ -257,7 +257,7 @@ public:
         int countDip = 0;
         while (dipLength < 0.0 && countDip < 100)
         { dipLength = p_dip_length_(generator_); countDip++; }
-        if (countStrike == 100)
+        if (countDip == 100)
             throw std::runtime_error("Could not sample positive dip length in 100 tries");
 
         std::vector<Vector> edgeVectors;
-- 
2.43.0


From 1792a039f902bb9615270e23174ae267b81b57a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:52 +0000
Subject: [PATCH 35/54] fix: polygon sampler rejects sizes of zero

---
 frackit/sampling/polygonsampler.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frackit/sampling/polygonsampler.hh b/frackit/sampling/polygonsampler.hh
index 7e9b567..ec3162b 100644
--- a/frackit/sampling/polygonsampler.hh
+++ b/frackit/sampling/polygonsampler.hh
@@ -249,13 +249,13 @@ public:
         auto dipLength = p_dip_length_(generator_);
 
         int countStrike = 0;
-        while (strikeLength < 0.0 && countStrike < 100)
+        while (strikeLength <= 0.0 && countStrike < 100)
         { strikeLength = p_strike_length_(generator_); countStrike++; }
         if (countStrike == 100)
             throw std::runtime_error("Could not sample positive strike length in 100 tries");
 
         int countDip = 0;
-        while (dipLength < 0.0 && countDip < 100)
+        while (dipLength <= 0.0 && countDip < 100)
         { dipLength = p_dip_length_(generator_); countDip++; }
         if (countDip == 100)
             throw std::runtime_error("Could not sample positive dip length in 100 tries");
-- 
2.43.0


From 8956f861a8a1693042a5c681483edda257d44480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:52 +0000
Subject: [PATCH 36/54] fix: polygon sampler sorts short edges by their actual
 angle

---
 frackit/sampling/polygonsampler.hh | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/frackit/sampling/polygonsampler.hh b/frackit/sampling/polygonsampler.hh
index ec3162b..5e0d87c 100644
--- a/frackit/sampling/polygonsampler.hh
+++ b/frackit/sampling/polygonsampler.hh
@@ -267,13 +267,9 @@ public:
 
         auto getAngle = [] (const auto& v)
         {
-            if (abs(v.y()) < 1e-6) return v.x() > 0 ? 0 : M_PI;
-            if (abs(v.x()) < 1e-6) return v.y() > 0 ? M_PI/2.0 : 3.0*M_PI/2.0;
-
-            using std::atan;
-            const auto angle = atan(v.y()/v.x());
-            if (v.x() > 0.0) return angle < 0.0 ? 2.0*M_PI + angle : angle;
-            else return M_PI + angle;
+            using std::atan2;
+            const auto angle = atan2(v.y(), v.x());
+            return angle < 0.0 ? 2.0*M_PI + angle : angle;
         };
 
         // sort edges by angle
-- 
2.43.0


From 7d2aa040039819cbe2076edafe6959de28daf3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:52 +0000
Subject: [PATCH 37/54] fix: deprecated quadrilateral sampler redraws too small
 edge lengths

---
 frackit/sampling/quadrilateralsampler.hh | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/frackit/sampling/quadrilateralsampler.hh b/frackit/sampling/quadrilateralsampler.hh
index 008a6c0..026adbb 100644
--- a/frackit/sampling/quadrilateralsampler.hh
+++ b/frackit/sampling/quadrilateralsampler.hh
@@ -252,10 +252,10 @@ public:
         rotate(axes[0], Direction(axes[1]), dip);
 
         // sample edge lengths until all are admissible
-        auto dx1 = p_edge_(generator_); while (dx1 < minEdgeLength_) p_edge_(generator_);
-        auto dx2 = p_edge_(generator_); while (dx2 < minEdgeLength_) p_edge_(generator_);
-        auto dy1 = p_edge_(generator_); while (dy1 < minEdgeLength_) p_edge_(generator_);
-        auto dy2 = p_edge_(generator_); while (dy2 < minEdgeLength_) p_edge_(generator_);
+        auto dx1 = p_edge_(generator_); while (dx1 < minEdgeLength_) dx1 = p_edge_(generator_);
+        auto dx2 = p_edge_(generator_); while (dx2 < minEdgeLength_) dx2 = p_edge_(generator_);
+        auto dy1 = p_edge_(generator_); while (dy1 < minEdgeLength_) dy1 = p_edge_(generator_);
+        auto dy2 = p_edge_(generator_); while (dy2 < minEdgeLength_) dy2 = p_edge_(generator_);
 
         auto dxVec1 = axes[0]; dxVec1 *= dx1/2.0;
         auto dxVec2 = axes[0]; dxVec2 *= dx2/2.0;
-- 
2.43.0


From 77b88f506234cdc1a73436faac72fc8ebd7d6ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:30 +0000
Subject: [PATCH 38/54] fix: python cylinder point samplers draw the squared
 radius from the squared range

---
 python/frackit/sampling/__init__.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/python/frackit/sampling/__init__.py b/python/frackit/sampling/__init__.py
index 907b894..0163ff1 100644
--- a/python/frackit/sampling/__init__.py
+++ b/python/frackit/sampling/__init__.py
@@ -96,8 +96,8 @@ def makePointSampler(geometry,
     upper bounds for the coordinates. For instance, the points within an axis-aligned
     box fall into the intervals ([xMin, xMax], [yMin, yMax], [zMin, zMax]). For a
     cylinder, described in cylinder coordinates, all points fall into the intervals
-    ([0, r], [0, 2*Pi], [0, H]), where r is the radius an H is the height of the
-    cylinder. The provided sampler creators are used to build samplers that sample
+    ([0, r^2], [0, 2*Pi], [0, H]), where r is the radius an H is the height of the
+    cylinder (the squared radius is sampled). The provided sampler creators are used to build samplers that sample
     coordinates within these intervals following a user-defined distribution. For
     more details on the meaning of the samplers, have a look at the geometry-specific
     point sampler implementations.
@@ -121,7 +121,7 @@ def makePointSampler(geometry,
     # cylinder point sampler
     if geometry.name() == "Cylinder":
         import math
-        samplerR2  = samplerCreatorBase1(0.0, geometry.radius())
+        samplerR2  = samplerCreatorBase1(0.0, geometry.radius()*geometry.radius())
         samplerPhi = samplerCreatorBase2(0.0, 2.0*math.pi)
         samplerZ   = samplerCreatorBase3(0.0, geometry.height())
         return CylinderPointSampler(geometry, samplerR2, samplerPhi, samplerZ)
@@ -129,7 +129,8 @@ def makePointSampler(geometry,
     # hollow cylinder point sampler
     if geometry.name() == "HollowCylinder":
         import math
-        samplerR2  = samplerCreatorBase1(geometry.innerRadius(), geometry.outerRadius())
+        samplerR2  = samplerCreatorBase1(geometry.innerRadius()*geometry.innerRadius(),
+                                         geometry.outerRadius()*geometry.outerRadius())
         samplerPhi = samplerCreatorBase2(0.0, 2.0*math.pi)
         samplerZ   = samplerCreatorBase3(0.0, geometry.height())
         return CylinderPointSampler(geometry.fullCylinder(), samplerR2, samplerPhi, samplerZ)
-- 
2.43.0


From f012eda0649a77f63f3e6413d9095bc86ae0b8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:30 +0000
Subject: [PATCH 39/54] fix: python polygon sampler stops after 100 unusable
 corner numbers

---
 python/frackit/sampling/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/frackit/sampling/__init__.py b/python/frackit/sampling/__init__.py
index 0163ff1..cf5b108 100644
--- a/python/frackit/sampling/__init__.py
+++ b/python/frackit/sampling/__init__.py
@@ -232,6 +232,7 @@ class PolygonSampler:
         numCorners = 0
         while numCorners < 3 and count < 100:
             numCorners = self.numCornersSampler()
+            count += 1
 
         if count == 100:
             raise RuntimeError("Did not obtain more than 3 corners after sampling " \
-- 
2.43.0


From 76fe55ac850f650e3e553b8c7dcbcac655c5a266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:30 +0000
Subject: [PATCH 40/54] fix: python polygon sampler rejects unusable dip
 lengths and sizes of zero

---
 python/frackit/sampling/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/frackit/sampling/__init__.py b/python/frackit/sampling/__init__.py
index cf5b108..5e76ee5 100644
--- a/python/frackit/sampling/__init__.py
+++ b/python/frackit/sampling/__init__.py
@@ -302,13 +302,13 @@ class PolygonSampler:
         dipLength = self.dipLengthSampler()
 
         countStrike = 0;
-        while strikeLength < 0.0 and countStrike < 100:
+        while strikeLength <= 0.0 and countStrike < 100:
             strikeLength = self.strikeLengthSampler()
             countStrike += 1
         if countStrike == 100: raise RuntimeError("Could not sample strike dimension > 0.0 in 100 tries")
 
         countDip = 0;
-        while strikeLength < 0.0 and countDip < 100:
+        while dipLength <= 0.0 and countDip < 100:
             dipLength = self.dipLengthSampler()
             countDip += 1
         if countDip == 100: raise RuntimeError("Could not sample dip dimension > 0.0 in 100 tries")
-- 
2.43.0


From b222a5b865afef0b4772e220f2169697adee1788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:31 +0000
Subject: [PATCH 41/54] fix: python polygon sampler sorts short edges by their
 actual angle

---
 python/frackit/sampling/__init__.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/python/frackit/sampling/__init__.py b/python/frackit/sampling/__init__.py
index 5e76ee5..f8b153c 100644
--- a/python/frackit/sampling/__init__.py
+++ b/python/frackit/sampling/__init__.py
@@ -320,11 +320,8 @@ class PolygonSampler:
         # returns the angle w.r.t the standard x-y basis of an edge vector
         import math
         def getAngle(v):
-            if abs(v.y()) < 1e-6: return 0.0 if v.x() > 0.0 else math.pi
-            if abs(v.x()) < 1e-6: return math.pi/2.0 if v.y() > 0.0 else 3.0*math.pi/2.0
-
             angle = math.atan2(v.y(), v.x())
-            return 2.0*math.pi + angle if v.y() < 0.0 else angle
+            return 2.0*math.pi + angle if angle < 0.0 else angle
 
         # sort edges by angle
         edgeVectors.sort(key=lambda v: getAngle(v))
-- 
2.43.0


From 0ea447d870988d4307ef0917f2f05a541c5a16ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:25 +0000
Subject: [PATCH 42/54] fix: distances of shapes to the boundary of solids and
 cylinder surfaces

---
 frackit/distance/distancetoboundary.hh | 54 ++++++++++++++++++++++++++
 1 file changed, 54 insertions(+)

diff --git a/frackit/distance/distancetoboundary.hh b/frackit/distance/distancetoboundary.hh
index 28e4d39..ea2aa99 100644
--- a/frackit/distance/distancetoboundary.hh
+++ b/frackit/distance/distancetoboundary.hh
@@ -249,6 +249,60 @@ ctype computeDistanceToBoundary(const TopoDS_Shape& shape,
                            extAlgo);
 }
 
+/*!
+ * \ingroup Distance
+ * \brief Compute the distance of a shape
+ *        to the boundary of a TopoDS_Solid.
+ * \param shape The shape
+ * \param solid The TopoDS_Solid
+ * \param deflection The epsilon used in the BrepExtrema command
+ * \param extFlag The flag passed to the BrepExtrema command (MIN/MAX/MINMAX)
+ * \param extAlgo The algorithm passed to the BrepExtrema command (TREE/GRAD)
+ */
+template<class ctype = double>
+ctype computeDistanceToBoundary(const TopoDS_Shape& shape,
+                                const TopoDS_Solid& solid,
+                                ctype deflection = Precision<ctype>::confusion(),
+                                Extrema_ExtFlag extFlag = Extrema_ExtFlag_MINMAX,
+                                Extrema_ExtAlgo extAlgo = Extrema_ExtAlgo_Grad)
+{
+    return computeDistance(shape,
+                           BRepClass3d::OuterShell(solid),
+                           deflection,
+                           extFlag,
+                           extAlgo);
+}
+
+/*!
+ * \ingroup Distance
+ * \brief Compute the distance of a shape
+ *        to the bounding circles of a cylinder surface.
+ * \param shape The shape
+ * \param cylSurface The cylinder surface
+ * \param deflection The epsilon used in the BrepExtrema command
+ * \param extFlag The flag passed to the BrepExtrema command (MIN/MAX/MINMAX)
+ * \param extAlgo The algorithm passed to the BrepExtrema command (TREE/GRAD)
+ */
+template<class ctype>
+ctype computeDistanceToBoundary(const TopoDS_Shape& shape,
+                                const CylinderSurface<ctype>& cylSurface,
+                                ctype deflection = Precision<ctype>::confusion(),
+                                Extrema_ExtFlag extFlag = Extrema_ExtFlag_MINMAX,
+                                Extrema_ExtAlgo extAlgo = Extrema_ExtAlgo_Grad)
+{
+    using std::min;
+    return min(computeDistance(shape,
+                               OCCUtilities::getShape(cylSurface.lowerBoundingCircle()),
+                               deflection,
+                               extFlag,
+                               extAlgo),
+               computeDistance(shape,
+                               OCCUtilities::getShape(cylSurface.upperBoundingCircle()),
+                               deflection,
+                               extFlag,
+                               extAlgo));
+}
+
 /*!
  * \ingroup Distance
  * \brief Compute the distance of a shape
-- 
2.43.0


From 4de48da5e72746b5fed1d9216954db9963d41623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:26 +0000
Subject: [PATCH 43/54] fix: python computeDistanceToBoundary measures the
 distance to the boundary

---
 frackit/python/geometry/distancetoboundary.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frackit/python/geometry/distancetoboundary.hh b/frackit/python/geometry/distancetoboundary.hh
index d17517f..7e32a17 100644
--- a/frackit/python/geometry/distancetoboundary.hh
+++ b/frackit/python/geometry/distancetoboundary.hh
@@ -39,7 +39,7 @@ namespace Detail {
 
 template<class Geo1, class Geo2, class ctype>
 ctype computeDistanceToBoundary(const Geo1& geo1, const Geo2& geo2)
-{ return Frackit::computeDistance(getUnwrappedShape(geo1), getUnwrappedShape(geo2)); }
+{ return Frackit::computeDistanceToBoundary(getUnwrappedShape(geo1), getUnwrappedShape(geo2)); }
 
 } // end namespace Detail
 
-- 
2.43.0


From 0277ca2a7fc6ee93cbbe1f106ffd6530adc5fb3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:26 +0000
Subject: [PATCH 44/54] fix: python functions treat ellipse arcs as arcs
 instead of full ellipses

---
 frackit/python/geometry/getboundingbox.hh    | 3 ++-
 frackit/python/geometry/magnitude.hh         | 3 ++-
 frackit/python/occutilities/breputilities.hh | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/frackit/python/geometry/getboundingbox.hh b/frackit/python/geometry/getboundingbox.hh
index d149a48..6eb595d 100644
--- a/frackit/python/geometry/getboundingbox.hh
+++ b/frackit/python/geometry/getboundingbox.hh
@@ -70,8 +70,9 @@ void registerGetBoundingBox(py::module& module)
     Detail::registerGetBoundingBox<Sphere<ctype>>(module, "sphere.");
 
     Detail::registerGetBoundingBox<Circle<ctype, 3>>(module, "circle in 3d space.");
-    Detail::registerGetBoundingBox<Ellipse<ctype, 3>>(module, "ellipse in 3d space.");
+    // the overload for arcs has to precede that of their base class
     Detail::registerGetBoundingBox<EllipseArc<ctype, 3>>(module, "ellipse arc in 3d space.");
+    Detail::registerGetBoundingBox<Ellipse<ctype, 3>>(module, "ellipse in 3d space.");
     Detail::registerGetBoundingBox<Polygon<ctype, 3>>(module, "polygon in 3d space.");
     Detail::registerGetBoundingBox<Quadrilateral<ctype, 3>>(module, "quadrilateral in 3d space.");
     Detail::registerGetBoundingBox<Segment<ctype, 3>>(module, "segment in 3d space.");
diff --git a/frackit/python/geometry/magnitude.hh b/frackit/python/geometry/magnitude.hh
index e3c536f..91851ee 100644
--- a/frackit/python/geometry/magnitude.hh
+++ b/frackit/python/geometry/magnitude.hh
@@ -86,8 +86,9 @@ void registerMagnitude(py::module& module)
     Detail::registerMagnitude< Vector<ctype, 3> >(module);
     Detail::registerMagnitude< Segment<ctype, 3> >(module);
     Detail::registerMagnitude< Circle<ctype, 3> >(module);
-    Detail::registerMagnitude< Ellipse<ctype, 3> >(module);
+    // the overload for arcs has to precede that of their base class
     Detail::registerMagnitude< EllipseArc<ctype, 3> >(module);
+    Detail::registerMagnitude< Ellipse<ctype, 3> >(module);
     Detail::registerMagnitude< Disk<ctype> >(module);
     Detail::registerMagnitude< Triangle<ctype, 3> >(module);
     Detail::registerMagnitude< Quadrilateral<ctype, 3> >(module);
diff --git a/frackit/python/occutilities/breputilities.hh b/frackit/python/occutilities/breputilities.hh
index 12c3f05..b4b0143 100644
--- a/frackit/python/occutilities/breputilities.hh
+++ b/frackit/python/occutilities/breputilities.hh
@@ -326,8 +326,9 @@ void registerBRepUtilities(pybind11::module& module)
 
     // register geometry to shape conversions
     module.def("getShape", &OCCUtilities::getShape<Circle<ctype, 3>>, "Returns the OCC BRep of a 3d circle");
-    module.def("getShape", &OCCUtilities::getShape<Ellipse<ctype, 3>>, "Returns the OCC BRep of a 3d ellipse");
+    // the overload for arcs has to precede that of their base class
     module.def("getShape", &OCCUtilities::getShape<EllipseArc<ctype, 3>>, "Returns the OCC BRep of a 3d ellipse arc");
+    module.def("getShape", &OCCUtilities::getShape<Ellipse<ctype, 3>>, "Returns the OCC BRep of a 3d ellipse");
     module.def("getShape", &OCCUtilities::getShape<Quadrilateral<ctype, 3>>, "Returns the OCC BRep of a 3d quadrilateral");
     module.def("getShape", &OCCUtilities::getShape<Polygon<ctype, 3>>, "Returns the OCC BRep of a 3d polygon");
     module.def("getShape", &OCCUtilities::getShape<Disk<ctype>>, "Returns the OCC BRep of a disk");
-- 
2.43.0


From c288f755088c07f72cc727b3fe10ef9800cf9a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:26 +0000
Subject: [PATCH 45/54] fix: the shape of a generic shape is the shape itself

---
 frackit/occ/breputilities.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/frackit/occ/breputilities.hh b/frackit/occ/breputilities.hh
index d096cd7..0141fc5 100644
--- a/frackit/occ/breputilities.hh
+++ b/frackit/occ/breputilities.hh
@@ -351,6 +351,7 @@ namespace OCCUtilities {
     }
 
     //! Get the BRep of shapes (for compatibilty reasons)
+    const TopoDS_Shape& getShape(const TopoDS_Shape& s) { return s; }
     const TopoDS_Vertex& getShape(const TopoDS_Vertex& v) { return v; }
     const TopoDS_Edge& getShape(const TopoDS_Edge& e) { return e; }
     const TopoDS_Wire& getShape(const TopoDS_Wire& w) { return w; }
-- 
2.43.0


From 1905539ef81d3600428dba38fa81eb45c18186cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:26 +0000
Subject: [PATCH 46/54] fix: python Vector can be constructed from a single
 coordinate

---
 python/frackit/geometry/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/frackit/geometry/__init__.py b/python/frackit/geometry/__init__.py
index 73199b1..6fd2660 100644
--- a/python/frackit/geometry/__init__.py
+++ b/python/frackit/geometry/__init__.py
@@ -53,6 +53,8 @@ def Vector(*args, **kwargs):
     if numArgs == 1:
         if isinstance(args[0], list):
             dim = len(args[0])
+        elif isinstance(args[0], (int, float)):
+            dim = 1
         else:
             try: dim = args[0].worldDimension
             except: raiseGeometryConstructorException("vector")
-- 
2.43.0


From be4272de2fa00cb3c65f7ada88810647ec6d796c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:26 +0000
Subject: [PATCH 47/54] fix: python accessors of elliptical geometries return
 copies

---
 frackit/python/geometry/ellipticalgeometry.hh | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/frackit/python/geometry/ellipticalgeometry.hh b/frackit/python/geometry/ellipticalgeometry.hh
index 189ab3f..eec5674 100644
--- a/frackit/python/geometry/ellipticalgeometry.hh
+++ b/frackit/python/geometry/ellipticalgeometry.hh
@@ -46,10 +46,10 @@ namespace Detail {
                 "center"_a, "majorAxis"_a, "minorAxis"_a, "majorAxisLength"_a, "minorAxisLength"_a);
 
         // member functions
-        cls.def("majorAxis", &EllipticalGeometry::majorAxis, py::return_value_policy::reference_internal, "returns the major axis");
-        cls.def("minorAxis", &EllipticalGeometry::minorAxis, py::return_value_policy::reference_internal, "returns the minor axis");
-        cls.def("normal", &EllipticalGeometry::normal, py::return_value_policy::reference_internal, "returns the normal of the supporting plane");
-        cls.def("center", &EllipticalGeometry::center, py::return_value_policy::reference_internal, "returns the center point");
+        cls.def("majorAxis", &EllipticalGeometry::majorAxis, py::return_value_policy::copy, "returns the major axis");
+        cls.def("minorAxis", &EllipticalGeometry::minorAxis, py::return_value_policy::copy, "returns the minor axis");
+        cls.def("normal", &EllipticalGeometry::normal, py::return_value_policy::copy, "returns the normal of the supporting plane");
+        cls.def("center", &EllipticalGeometry::center, py::return_value_policy::copy, "returns the center point");
 
         cls.def("majorAxisLength", &EllipticalGeometry::majorAxisLength, "returns the major axis length");
         cls.def("minorAxisLength", &EllipticalGeometry::minorAxisLength, "returns the minor axis length");
-- 
2.43.0


From c0a1e51f15f8d802ff90a5d96edbdb9dedf56796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:26 +0000
Subject: [PATCH 48/54] fix: python constraints evaluate entities against lists

---
 python/frackit/entitynetwork/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/frackit/entitynetwork/__init__.py b/python/frackit/entitynetwork/__init__.py
index 50ebc20..2c4abc3 100644
--- a/python/frackit/entitynetwork/__init__.py
+++ b/python/frackit/entitynetwork/__init__.py
@@ -16,7 +16,7 @@ class EntityNetworkConstraints(_entitynetwork._EntityNetworkConstraints):
         isListB = isinstance(b, list)
 
         def evalList(theList, geo):
-            return all( super(EntityNetworkConstraints, self).evaluate(item, b) for item in theList )
+            return all( super(EntityNetworkConstraints, self).evaluate(item, geo) for item in theList )
 
         if isListA and not isListB:
             return evalList(a, b)
-- 
2.43.0


From 1e5b0291a1b12dfc25a3079a42640952352da62e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:26 +0000
Subject: [PATCH 49/54] fix: python constraints matrix evaluates relations to
 ids without own relations

---
 python/frackit/entitynetwork/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/frackit/entitynetwork/__init__.py b/python/frackit/entitynetwork/__init__.py
index 2c4abc3..290f4c6 100644
--- a/python/frackit/entitynetwork/__init__.py
+++ b/python/frackit/entitynetwork/__init__.py
@@ -72,7 +72,7 @@ class EntityNetworkConstraintsMatrix:
         if self.constraintsMatrix.get(id) == None:
             return True
 
-        for otherSetId in self.constraintsMatrix:
+        for otherSetId in self.constraintsMatrix.get(id):
             entitySet = entitySets.get(otherSetId)
 
             # set is empty, skip rest
-- 
2.43.0


From 664ff08f64ce840b33a0ee6f8f7f00e3f30a7cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:26 +0000
Subject: [PATCH 50/54] fix: python constraints matrix accepts an empty list of
 id pairs

---
 python/frackit/entitynetwork/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/frackit/entitynetwork/__init__.py b/python/frackit/entitynetwork/__init__.py
index 290f4c6..c61186c 100644
--- a/python/frackit/entitynetwork/__init__.py
+++ b/python/frackit/entitynetwork/__init__.py
@@ -51,7 +51,7 @@ class EntityNetworkConstraintsMatrix:
 
         if not isinstance(idPairs, list):
             raise RuntimeError("This expects id pairs in the form of index lists")
-        if not isinstance(idPairs[0], list): # single id pair
+        if idPairs and not isinstance(idPairs[0], list): # single id pair
             addIdPair(idPairs)
         else:
             for pair in idPairs:
-- 
2.43.0


From b81ac14214aaa3ab496d72a9d89bc3cf69b86897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:22 +0000
Subject: [PATCH 51/54] fix: detect overlaps of segments of very different
 length

---
 .../algorithms/algo_segment_segment.hh         | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/frackit/intersection/algorithms/algo_segment_segment.hh b/frackit/intersection/algorithms/algo_segment_segment.hh
index 16b0882..a5c6202 100644
--- a/frackit/intersection/algorithms/algo_segment_segment.hh
+++ b/frackit/intersection/algorithms/algo_segment_segment.hh
@@ -69,12 +69,20 @@ intersect_segment_segment(const Segment<ctype, wd>& segment1,
     gp_Vec v1(dir1.x(), dir1.y(), dir1.z());
     gp_Vec v2(dir2.x(), dir2.y(), dir2.z());
 
-    if (v1.IsParallel(v2, Precision<ctype>::angular()))
-    {
-        // check if the lines overlap
-        if (!segment1.supportingLine().contains(s2, eps))
-            return ResultType( EmptyIntersection<wd>() );
+    const bool parallel = v1.IsParallel(v2, Precision<ctype>::angular());
+
+    // The direction of a short segment may carry a large round-off error. Thus, use
+    // the longer of the two as reference when checking if they are on the same line.
+    const bool is1Longer = segment1.length() >= segment2.length();
+    const auto line = is1Longer ? segment1.supportingLine() : segment2.supportingLine();
+    const bool collinear = line.contains(is1Longer ? s2 : s1, eps)
+                           && line.contains(is1Longer ? t2 : t1, eps);
 
+    if (parallel && !collinear)
+        return ResultType( EmptyIntersection<wd>() );
+
+    if (collinear)
+    {
         // find overlap
         const bool s2On1 = segment1.contains(s2, eps, false);
         const bool t2On1 = segment1.contains(t2, eps, false);
-- 
2.43.0


From 5795b107c21c8052d898e3473c6ef575cf16597f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:09 +0000
Subject: [PATCH 52/54] fix: leave network builders unchanged when an entity is
 refused

---
 frackit/entitynetwork/networkbuilder.hh | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/frackit/entitynetwork/networkbuilder.hh b/frackit/entitynetwork/networkbuilder.hh
index 8cf1aa2..2868cf4 100644
--- a/frackit/entitynetwork/networkbuilder.hh
+++ b/frackit/entitynetwork/networkbuilder.hh
@@ -179,8 +179,11 @@ public:
         if (!subDomains_.empty() && getDimension(entity) >= domainDimension_)
             throw std::runtime_error("Entity dimension must be smaller than domain dimension");
 
+        // (this throws if there is no shape representation of the entity)
+        const TopoDS_Shape entityShape = OCCUtilities::getShape(entity);
+
         entityDimension_ = entityDim;
-        networks_[subDomainId.get()].Append(OCCUtilities::getShape(entity));
+        networks_[subDomainId.get()].Append(entityShape);
     }
 
     /*!
@@ -528,8 +531,11 @@ public:
         if (!this->subDomains_.empty() && getDimension(entity) >= this->domainDimension_)
             throw std::runtime_error("Entity dimension must be smaller than domain dimension");
 
+        // (this throws if there is no shape representation of the entity)
+        const TopoDS_Shape entityShape = OCCUtilities::getShape(entity);
+
         this->entityDimension_ = entityDim;
-        this->networks_[0].Append(OCCUtilities::getShape(entity));
+        this->networks_[0].Append(entityShape);
     }
 
     /*!
-- 
2.43.0


From af8dc20f19ec4334e232a37302d38a6bcf29bd1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:09 +0000
Subject: [PATCH 53/54] fix: refuse face-line intersections consisting of
 several segments

---
 frackit/intersection/algorithms/algo_planargeom_line.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/frackit/intersection/algorithms/algo_planargeom_line.hh b/frackit/intersection/algorithms/algo_planargeom_line.hh
index 79229b3..6275049 100644
--- a/frackit/intersection/algorithms/algo_planargeom_line.hh
+++ b/frackit/intersection/algorithms/algo_planargeom_line.hh
@@ -105,7 +105,9 @@ intersect_planarGeometry_line(const PlanarGeometry& faceGeom,
         const auto isShape = OCCUtilities::intersect(segmentShape, faceShape, 0.1*eps);
         const auto isEdges = OCCUtilities::getEdges(isShape);
 
-        assert(isEdges.size() <= 1);
+        // concave faces may be crossed several times
+        if (isEdges.size() > 1)
+            throw std::runtime_error("NotImplemented: face-line intersections consisting of several segments");
         if (isEdges.size() == 1)
         {
             const auto vertices = OCCUtilities::getVertices(isEdges[0]);
-- 
2.43.0


From 9763d04e48e49fbfeaa6b5424e570329117192b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:34 +0000
Subject: [PATCH 54/54] fix: detect shapes that are inside of a solid close to
 its boundary

BRepExtrema_DistShapeShape classifies with a hard-wired tolerance of 1e-3 and
returned the distance to the boundary for shapes inside of a solid, but closer
than that to its boundary.
---
 frackit/distance/distance.hh | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/frackit/distance/distance.hh b/frackit/distance/distance.hh
index a06a18a..0c334be 100644
--- a/frackit/distance/distance.hh
+++ b/frackit/distance/distance.hh
@@ -32,7 +32,13 @@
 #include <stdexcept>
 #include <type_traits>
 
+#include <gp_Pnt.hxx>
+#include <TopAbs.hxx>
+#include <TopoDS.hxx>
 #include <TopoDS_Shape.hxx>
+#include <TopExp_Explorer.hxx>
+#include <BRep_Tool.hxx>
+#include <BRepClass3d_SolidClassifier.hxx>
 #include <BRepExtrema_DistShapeShape.hxx>
 #include <Extrema_ExtAlgo.hxx>
 #include <Extrema_ExtFlag.hxx>
@@ -54,6 +60,24 @@ namespace Impl {
     template<class Geom1, class Geom2>
     using PCT = PromotedType<typename Geom1::ctype,
                              typename Geom2::ctype>;
+
+    // Returns true if a vertex of the given shape lies inside one of the solids
+    inline bool hasVertexInSolid(const TopoDS_Shape& shape, const TopoDS_Shape& solids)
+    {
+        const auto eps = Precision<double>::confusion();
+        for (TopExp_Explorer solid(solids, TopAbs_SOLID); solid.More(); solid.Next())
+        {
+            BRepClass3d_SolidClassifier classifier(solid.Current());
+            for (TopExp_Explorer v(shape, TopAbs_VERTEX); v.More(); v.Next())
+            {
+                classifier.Perform(BRep_Tool::Pnt(TopoDS::Vertex(v.Current())), eps);
+                if (classifier.State() == TopAbs_IN)
+                    return true;
+            }
+        }
+
+        return false;
+    }
 }
 
 /*!
@@ -75,7 +99,14 @@ ctype computeDistance(const TopoDS_Shape& shape1,
     BRepExtrema_DistShapeShape algo(shape1, shape2, deflection, extFlag, extAlgo);
     if (!algo.IsDone())
         throw std::runtime_error("Could not compute BRep distance");
-    return algo.Value();
+
+    // OCC does not detect shapes that are inside of a solid, but closer than 1e-3 to
+    // its boundary. In this case, it returns the distance to the boundary.
+    const ctype distance = algo.Value();
+    if (distance > 0.0 && (Impl::hasVertexInSolid(shape1, shape2) || Impl::hasVertexInSolid(shape2, shape1)))
+        return 0.0;
+
+    return distance;
 }
 
 /*!
-- 
2.43.0

