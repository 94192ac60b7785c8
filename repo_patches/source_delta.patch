From f78aa678f2d3df441785a805111e3477b33f0506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:20 +0000
Subject: [PATCH 1/7] fix: euclidean rect-rect distance is negative when rects
 overlap on one axis

---
 src/geom/euclidean/math.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/geom/euclidean/math.rs b/src/geom/euclidean/math.rs
index d395e7c..adb0632 100644
--- a/src/geom/euclidean/math.rs
+++ b/src/geom/euclidean/math.rs
@@ -13,10 +13,10 @@ where
     match (overlap_x, overlap_y) {
         // If there is any overlap, then the distance is zero
         (true, true) => T::zero(),
-        // When x overlaps, distance is the smallest y-difference,
-        // and similarly for y-overlaps
-        (true, false) => (r1.min().y - r2.max().y).min(r2.min().y - r1.max().y),
-        (false, true) => (r1.min().x - r2.max().x).min(r2.min().x - r1.max().x),
+        // When x overlaps, distance is the positive y-difference (the other
+        // one spans both rects and is negative), and similarly for y-overlaps
+        (true, false) => (r1.min().y - r2.max().y).max(r2.min().y - r1.max().y),
+        (false, true) => (r1.min().x - r2.max().x).max(r2.min().x - r1.max().x),
         // When neither overlaps, take the distance from closest corners
         (false, false) => {
             let (x1, x2) = if r1.max().x < r2.min().x {
-- 
2.43.0


From f3db82584f965c4789521740b1a97527d52b196b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:20 +0000
Subject: [PATCH 2/7] fix: find_r misses data at exactly r when the containing
 node is also at r

---
 src/quadtrees/bounds/mod.rs | 2 +-
 src/quadtrees/point/mod.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/quadtrees/bounds/mod.rs b/src/quadtrees/bounds/mod.rs
index 699e9ef..ad02e27 100644
--- a/src/quadtrees/bounds/mod.rs
+++ b/src/quadtrees/bounds/mod.rs
@@ -148,7 +148,7 @@ where
             // No need to check the children if the bounds are too far,
             // checking bounds is cheaper then checking each child
             let bounds_dist = cmp.dist_bbox(node.bounds())?;
-            if bounds_dist >= min_dist {
+            if bounds_dist > min_dist {
                 continue;
             }
 
diff --git a/src/quadtrees/point/mod.rs b/src/quadtrees/point/mod.rs
index 79f7c7a..2e92591 100644
--- a/src/quadtrees/point/mod.rs
+++ b/src/quadtrees/point/mod.rs
@@ -180,7 +180,7 @@ where
             // processed - skip processing if the edge of the node is further
             // than the current
             let bounds_dist = cmp.dist_bbox(node.bounds())?;
-            if bounds_dist >= min_dist {
+            if bounds_dist > min_dist {
                 continue;
             }
 
-- 
2.43.0


From 48abb2ef3e663ad4bf3e1b7a56a6738a7c7787e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:20 +0000
Subject: [PATCH 3/7] fix: knn returns one result when k is zero

---
 src/quadtrees/knn.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/quadtrees/knn.rs b/src/quadtrees/knn.rs
index c221608..648bf2e 100644
--- a/src/quadtrees/knn.rs
+++ b/src/quadtrees/knn.rs
@@ -25,6 +25,9 @@ where
     if root_d != T::zero() {
         return Err(Error::OutOfBounds);
     }
+    if k == 0 {
+        return Ok(vec![]);
+    }
 
     // We work on a tuple that contains the distance plus an enum
     // containing either a child or a node, and start by seeding the root
-- 
2.43.0


From 480f7cc3126d74e75bb00710d392048808b4bb6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:20 +0000
Subject: [PATCH 4/7] fix: haversine distance from an owned Geometry swaps its
 operands

Not all pairs are implemented in both directions, so an owned point failed on a
linestring where a point or a point reference does not.
---
 src/geom/spherical/dist.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geom/spherical/dist.rs b/src/geom/spherical/dist.rs
index 77d7399..86f9798 100644
--- a/src/geom/spherical/dist.rs
+++ b/src/geom/spherical/dist.rs
@@ -165,7 +165,7 @@ where
     T: GeoFloat,
 {
     fn dist_haversine(&self, rhs: &GeometryRef<T>) -> Result<T, Error> {
-        rhs.dist_haversine(self)
+        self.as_geom().dist_haversine(rhs)
     }
 }
 
-- 
2.43.0


From 9db98d20173a917dbf0e393d6fbd2ddd7153444a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:08 +0000
Subject: [PATCH 5/7] fix: haversine point-rect distance is not the distance to
 the nearest point of the rect

It projected onto the edge facing the point on the plane, which ignores the
antimeridian and the curvature of parallels, and so was greater than the
distance to data inside the rect. Spherical searches skipped nodes holding
closer data, and returned it out of order.
---
 src/geom/spherical/math.rs | 57 +++++++++++++++++++++-----------------
 1 file changed, 31 insertions(+), 26 deletions(-)

diff --git a/src/geom/spherical/math.rs b/src/geom/spherical/math.rs
index 47b36b1..9040e70 100644
--- a/src/geom/spherical/math.rs
+++ b/src/geom/spherical/math.rs
@@ -1,4 +1,4 @@
-use geo::{GeoFloat, Intersects, Line, LineString, Point, Polygon, Rect, coord};
+use geo::{GeoFloat, Intersects, Line, LineString, Point, Polygon, Rect};
 use std::f64::consts::PI;
 use std::ops::{Add, Sub};
 
@@ -11,13 +11,6 @@ macro_rules! p {
     };
 }
 
-/// Helper macro to make a line
-macro_rules! l {
-    ($x1:expr, $y1:expr, $x2:expr, $y2:expr) => {
-        Line::new(coord!(x: $x1, y: $y1), coord!(x: $x2, y: $y2))
-    };
-}
-
 /// Internal struct for ensuring Lng wrapping math works correctly.
 #[derive(Debug, Clone, Copy)]
 struct Lng<T>(T)
@@ -181,25 +174,37 @@ where
         return T::zero();
     }
 
-    // Take the "left" edge whenever the point is to the left of the rect and
-    // the right edge whenever its to the right of the rect. This works even
-    // when diagonal to these edges as in these cases the closest point is the
-    // corner, which is shared with the other candidate line.
-    let line = if x < rect.min().x {
-        // smallest x-value
-        l!(rect.min().x, rect.min().y, rect.min().x, rect.max().y)
-    } else if x > rect.max().x {
-        // largest x-value
-        l!(rect.max().x, rect.min().y, rect.max().x, rect.max().y)
-    } else if y < rect.min().y {
-        // smallest y-value
-        l!(rect.min().x, rect.min().y, rect.max().x, rect.min().y)
-    } else {
-        // largest y-value as final case
-        l!(rect.min().x, rect.max().y, rect.max().x, rect.max().y)
-    };
+    // Directly above or below the rect, the closest point is on the meridian
+    // of the point, so the distance is the difference in latitude
+    if x >= rect.min().x && x <= rect.max().x {
+        return (rect.min().y - y).max(y - rect.max().y);
+    }
+
+    // Otherwise the closest point is on one of the two meridian edges. Both
+    // are candidates, as the one across the antimeridian may be closer.
+    let left = dist_pt_meridian(pt, rect.min().x, rect.min().y, rect.max().y);
+    let right = dist_pt_meridian(pt, rect.max().x, rect.min().y, rect.max().y);
 
-    dist_pt_line(pt, &line)
+    left.min(right)
+}
+
+/// Calculate the great circle distance between a [`Point`] and the segment of
+/// the meridian `lng` from `lat1` up to `lat2`. Meridians are great circles, so
+/// this is exact, unlike the projection in [`dist_pt_line`].
+fn dist_pt_meridian<T>(pt: &Point<T>, lng: T, lat1: T, lat2: T) -> T
+where
+    T: GeoFloat,
+{
+    // Latitude of the closest approach to the meridian, clamped to the segment
+    let (x, y) = pt.x_y();
+    let lat = y.sin().atan2(y.cos() * (x - lng).cos());
+    let lat = lat.max(lat1).min(lat2);
+
+    // The closest approach is on the opposite meridian when it is beyond a
+    // pole, in which case one of the ends of the segment is the closest
+    dist_pt_pt(pt, &p!(lng, lat))
+        .min(dist_pt_pt(pt, &p!(lng, lat1)))
+        .min(dist_pt_pt(pt, &p!(lng, lat2)))
 }
 
 // Calculate Spherical bounds distances.
-- 
2.43.0


From a608ed2c3da971afd90bf2a92fbfcec3884413b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:09 +0000
Subject: [PATCH 6/7] fix: spherical searches from a rect skip nodes holding
 closer data

The haversine distance between two rects is not that of their nearest points,
so the distance to a node could be greater than the distance to its data.
---
 src/geom/mod.rs            |  7 ++++++-
 src/geom/spherical/math.rs | 32 ++++++++++++++++++++++++++++++++
 2 files changed, 38 insertions(+), 1 deletion(-)

diff --git a/src/geom/mod.rs b/src/geom/mod.rs
index a3a4210..6ae82b8 100644
--- a/src/geom/mod.rs
+++ b/src/geom/mod.rs
@@ -10,6 +10,7 @@ use rstar::RTreeNum;
 
 pub use euclidean::dist::DistEuclidean;
 pub(crate) use math::*;
+use spherical::math::dist_rect_rect_nearest;
 pub use spherical::dist::DistHaversine;
 
 use crate::{Error, GeometryRef};
@@ -72,7 +73,11 @@ where
         match self.method {
             CalcMethod::None => Err(Error::CalcMethodNotSet),
             CalcMethod::Euclidean => Ok(bbox.dist_euclidean(&self.geom)),
-            CalcMethod::Spherical => bbox.dist_haversine(&self.geom),
+            // Searches rely on the bbox being no further away than its contents
+            CalcMethod::Spherical => match self.geom {
+                GeometryRef::Rect(d) => Ok(dist_rect_rect_nearest(bbox, d)),
+                _ => bbox.dist_haversine(&self.geom),
+            },
         }
     }
 }
diff --git a/src/geom/spherical/math.rs b/src/geom/spherical/math.rs
index 9040e70..ea6072e 100644
--- a/src/geom/spherical/math.rs
+++ b/src/geom/spherical/math.rs
@@ -291,6 +291,38 @@ where
     }
 }
 
+/// Calculate the great circle distance between the nearest points of two
+/// [`Rect`]'s using the Haversine formula.
+///
+/// Never exceeds the distance from either rect to anything inside the other.
+/// [`dist_rect_rect`] can, as it measures at a shared latitude or at corners
+/// that may not be the nearest points.
+///
+/// Inputs and outputs are in radians. Convert radians to a linear distance by
+/// multiplying by the sphere's radius.
+pub fn dist_rect_rect_nearest<T>(r1: &Rect<T>, r2: &Rect<T>) -> T
+where
+    T: GeoFloat,
+{
+    // Already the nearest when the lngs overlap
+    if r1.max().x >= r2.min().x && r2.max().x >= r1.min().x {
+        return dist_rect_rect(r1, r2);
+    }
+
+    // Otherwise a corner of one of the rects is nearest to the other
+    let mut min_dist = T::infinity();
+
+    for (a, b) in [(r1, r2), (r2, r1)] {
+        for x in [a.min().x, a.max().x] {
+            for y in [a.min().y, a.max().y] {
+                min_dist = min_dist.min(dist_pt_rect(&p!(x, y), b));
+            }
+        }
+    }
+
+    min_dist
+}
+
 /// Calculate the great circle distance between a [`Point`] and an arbitrary [`Polygon`] using the
 /// Haversine formula.
 ///
-- 
2.43.0


From 07670638e1ec4643cde3af2aefe0fc7438080e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:29 +0000
Subject: [PATCH 7/7] fix: sorted overflows the stack when it passes over many
 nodes

Every node without a nearer datum was another level of recursion, so a few
thousand empty nodes, or data that cannot be measured, aborted the process.
---
 src/quadtrees/sorted.rs | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/quadtrees/sorted.rs b/src/quadtrees/sorted.rs
index c11ed7c..7ada4e7 100644
--- a/src/quadtrees/sorted.rs
+++ b/src/quadtrees/sorted.rs
@@ -25,6 +25,24 @@ where
     type Item = (&'a D, T);
 
     fn next(&mut self) -> Option<Self::Item> {
+        // Not recursive, there may be any number of nodes before the next child
+        loop {
+            if let Some(item) = self.step()? {
+                return Some(item);
+            }
+        }
+    }
+}
+
+impl<'a, N, D, T> SortIter<'a, N, D, T>
+where
+    N: Node<D, T>,
+    D: AsGeom<T>,
+    T: QtFloat,
+{
+    /// Process the top of the stack, which produces an item if it is a child.
+    /// Returns `None` once the stack is empty.
+    fn step(&mut self) -> Option<Option<(&'a D, T)>> {
         // 1. Sort the stack in distance-descending order
         //    Only do this if the is_sorted flag is false
         if !self.is_sorted {
@@ -41,11 +59,10 @@ where
         match item {
             // 2. Process any children at the top of the stack
             //    No need to re-sort as no pushing
-            NodeType::Child(child) => Some((child, d)),
+            NodeType::Child(child) => Some(Some((child, d))),
 
             // 3. Push sub-nodes and children onto the stack
             //    Set the flag to re-sort because new items hve been added
-            //    Then recurse because we have not returned anything
             NodeType::Node(node) => {
                 for child in node.children() {
                     if let Some(d) = self
@@ -72,7 +89,7 @@ where
                 }
 
                 self.is_sorted = false;
-                self.next()
+                Some(None)
             }
 
             // This is PhantomData
-- 
2.43.0

