From e57140163a8079eb99e7d463750dd7adc5e71345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:07 +0000
Subject: [PATCH 1/6] fix: do not panic building the Hilbert key on degenerate
 or non-finite boxes

---
 src/flatbush/hilbert.rs | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/flatbush/hilbert.rs b/src/flatbush/hilbert.rs
index 9eea995..1655617 100644
--- a/src/flatbush/hilbert.rs
+++ b/src/flatbush/hilbert.rs
@@ -32,10 +32,18 @@ where
             Envelope::Bounds { min, max } => {
                 let hilbert_max = C::from((1 << 16) - 1).unwrap();
                 let delta = max - min;
+                // A degenerate axis has no extent to scale to.
+                let scale = |d: C| {
+                    if d > C::zero() {
+                        hilbert_max / d
+                    } else {
+                        C::zero()
+                    }
+                };
                 Hilbert {
                     env,
-                    x_scale: hilbert_max / delta.x,
-                    y_scale: hilbert_max / delta.y,
+                    x_scale: scale(delta.x),
+                    y_scale: scale(delta.y),
                     x_min: min.x,
                     y_min: min.y,
                 }
@@ -58,13 +66,17 @@ where
     /**
      * Returns the hilbert index of position in the rectangle.
      *
-     * This does not check bounds; it will probably panic for positions
-     * outside of the rectangle.  This behavior should not be relied on.
+     * This does not check bounds; the result for positions outside of the
+     * rectangle is meaningless and should not be relied on.  Positions that
+     * cannot be scaled (eg, due to infinite coordinates) are assigned maxint.
      */
     pub fn hilbert(&self, position: Position<C>) -> u32 {
         let x = self.x_scale * (position.x - self.x_min);
         let y = self.y_scale * (position.y - self.y_min);
-        Self::hilbert_normalized(x.floor().to_u32().unwrap(), y.floor().to_u32().unwrap())
+        match (x.floor().to_u32(), y.floor().to_u32()) {
+            (Some(x), Some(y)) => Self::hilbert_normalized(x, y),
+            _ => u32::max_value(),
+        }
     }
 
     /**
-- 
2.43.0


From cef260277d14cc8ea7a394aa3521ae8d55d29e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:00 +0000
Subject: [PATCH 2/6] fix: only closed polylines may touch between first and
 last segment

---
 src/planar/validation/line_string.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/planar/validation/line_string.rs b/src/planar/validation/line_string.rs
index 1acfca7..4052664 100644
--- a/src/planar/validation/line_string.rs
+++ b/src/planar/validation/line_string.rs
@@ -58,7 +58,8 @@ impl<C: Coordinate> LineString<C> {
                 SegmentIntersection::Position(p) => {
                     // Point intersections are fine at the shared point between
                     // adjacent segments.  In loops this includes the wraparound.
-                    if ((high_id == low_id + 1) || (low_id == 0 && high_id == num_segments - 1))
+                    if ((high_id == low_id + 1)
+                        || (self.is_closed() && low_id == 0 && high_id == num_segments - 1))
                         && (p == first_segment.end || p == first_segment.start)
                     {
                         continue;
-- 
2.43.0


From faab459b3e994fe5e257f9591237df663c4b822f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:24 +0000
Subject: [PATCH 3/6] fix: zero-length segments intersect only where they lie
 on the other segment

---
 src/planar/primitives/segment.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/planar/primitives/segment.rs b/src/planar/primitives/segment.rs
index 7d565bf..0ecad9c 100644
--- a/src/planar/primitives/segment.rs
+++ b/src/planar/primitives/segment.rs
@@ -89,6 +89,22 @@ impl<C: Coordinate> Segment<C> {
      * NB: This does not do an initial check with Envelopes; the caller should do that.
      */
     pub fn intersect_segment(&self, other: Segment<C>) -> SegmentIntersection<C> {
+        // A zero-length segment can only intersect at its own position.
+        if self.start == self.end {
+            return if other.contains(self.start) {
+                SegmentIntersection::Position(self.start)
+            } else {
+                SegmentIntersection::None
+            };
+        }
+        if other.start == other.end {
+            return if self.contains(other.start) {
+                SegmentIntersection::Position(other.start)
+            } else {
+                SegmentIntersection::None
+            };
+        }
+
         // check intersection
         if self == &other {
             return SegmentIntersection::Segment(*self);
-- 
2.43.0


From ac095ec19f8bf154f02efbf71484a551918791c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:49 +0000
Subject: [PATCH 4/6] fix: report the shared end of two segments exactly

---
 src/planar/primitives/segment.rs | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/src/planar/primitives/segment.rs b/src/planar/primitives/segment.rs
index 0ecad9c..919eff1 100644
--- a/src/planar/primitives/segment.rs
+++ b/src/planar/primitives/segment.rs
@@ -128,15 +128,15 @@ impl<C: Coordinate> Segment<C> {
                 // Offset, in units of da.
                 let t0 = Position::dot(offset, da) / da_2;
                 // self.start to other.end, in units of da.
-                let t1 = t0 + Position::dot(da, db) / da_2;
+                let t1 = Position::dot(other.end - self.start, da) / da_2;
                 let (t_min, t_max) = t0.min_max(t1);
                 if t_min > C::one() || t_max < C::zero() {
                     // if min(t0, t1) > 1 or max(t0, t1) < 0, they don't intersect.
                     return SegmentIntersection::None;
                 } else {
                     // Else, the intersect
-                    let start = self.start + da * t_min.max(C::zero());
-                    let end = self.start + da * t_max.min(C::one());
+                    let start = self.interpolate(t_min.max(C::zero()));
+                    let end = self.interpolate(t_max.min(C::one()));
                     if start == end {
                         return SegmentIntersection::Position(start);
                     } else {
@@ -145,18 +145,38 @@ impl<C: Coordinate> Segment<C> {
                 }
             }
         } else {
-            // The segments are not parallel, so they are disjoint or intersect at a point
+            // The segments are not parallel, so if they share an end, that is where
+            // they intersect; report it exactly.
+            if self.start == other.start || self.start == other.end {
+                return SegmentIntersection::Position(self.start);
+            }
+            if self.end == other.start || self.end == other.end {
+                return SegmentIntersection::Position(self.end);
+            }
+            // Otherwise, they are disjoint or intersect at a point.
             // Calculate where the infinite lines would intersect; if these are on the segments
             // then the segments intersect.
             let ta = Position::cross(offset, db) / da_x_db;
             let tb = offset_x_da / da_x_db;
             if C::zero() <= ta && ta <= C::one() && C::zero() <= tb && tb <= C::one() {
-                return SegmentIntersection::Position(self.start + da * ta);
+                return SegmentIntersection::Position(self.interpolate(ta));
             }
         }
         SegmentIntersection::None
     }
 
+    /// The position at parameter t along the segment.
+    /// The ends of the segment are returned exactly for t = 0 and t = 1.
+    fn interpolate(&self, t: C) -> Position<C> {
+        if t == C::zero() {
+            self.start
+        } else if t == C::one() {
+            self.end
+        } else {
+            self.start + (self.end - self.start) * t
+        }
+    }
+
     /**
      * The winding number is calculated as follows:
      * 1. pos.y must be between the top of the segment (exclusive) and the bottom
-- 
2.43.0


From ac1002bd0300e52febf698954f9b4eb29b28bdd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:47 +0000
Subject: [PATCH 5/6] fix: ring comparison no longer panics when all vertices
 of a ring lie on the other

---
 src/planar/algorithms/loop_relation.rs | 40 ++++++++++++++------------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/src/planar/algorithms/loop_relation.rs b/src/planar/algorithms/loop_relation.rs
index caa0071..c751bd9 100644
--- a/src/planar/algorithms/loop_relation.rs
+++ b/src/planar/algorithms/loop_relation.rs
@@ -106,24 +106,25 @@ pub fn find_loop_loop_relation<C: Coordinate>(
     }
 
     let loop_1_relation = _get_loop_relation(&winding_numbers_1, &boundary_positions);
-    if loop_1_relation == LoopRelation::Crosses {
-        return LoopLoopRelation::Crosses;
-    }
     let loop_2_relation = _get_loop_relation(&winding_numbers_2, &boundary_positions);
-    if loop_2_relation == LoopRelation::Crosses {
-        return LoopLoopRelation::Crosses;
-    }
 
+    // A loop with all its vertices on the other one (None) says nothing by itself;
+    // the other loop decides.
     match (loop_1_relation, loop_2_relation) {
-        (LoopRelation::Outside, LoopRelation::Outside) => LoopLoopRelation::Separate,
-        (LoopRelation::Inside, LoopRelation::Outside) => LoopLoopRelation::Within,
-        (LoopRelation::Outside, LoopRelation::Inside) => LoopLoopRelation::Contains,
-        (LoopRelation::Inside, LoopRelation::Inside) => {
-            panic!("BUG: Two loops found inside each other.")
+        (Some(LoopRelation::Crosses), _) | (_, Some(LoopRelation::Crosses)) => {
+            LoopLoopRelation::Crosses
         }
-        (LoopRelation::Crosses, LoopRelation::Crosses) => LoopLoopRelation::Crosses,
-        (LoopRelation::Crosses, _) | (_, LoopRelation::Crosses) => {
-            panic!("BUG: One loop found Crossing but not the other")
+        (Some(LoopRelation::Outside), Some(LoopRelation::Outside)) => LoopLoopRelation::Separate,
+        (Some(LoopRelation::Inside), Some(LoopRelation::Outside))
+        | (Some(LoopRelation::Inside), None)
+        | (None, Some(LoopRelation::Outside)) => LoopLoopRelation::Within,
+        (Some(LoopRelation::Outside), Some(LoopRelation::Inside))
+        | (Some(LoopRelation::Outside), None)
+        | (None, Some(LoopRelation::Inside)) => LoopLoopRelation::Contains,
+        // Neither can be decided by the vertices alone: the loops share an infinite
+        // number of points, or have points both inside and outside of each other.
+        (Some(LoopRelation::Inside), Some(LoopRelation::Inside)) | (None, None) => {
+            LoopLoopRelation::Crosses
         }
     }
 }
@@ -157,7 +158,7 @@ fn _maybe_push_other_isxn<C: Coordinate>(
 fn _get_loop_relation<C: Coordinate>(
     winding_numbers: &HashMap<SafePosition<C>, i32>,
     boundary_positions: &HashSet<SafePosition<C>>,
-) -> LoopRelation {
+) -> Option<LoopRelation> {
     let mut outside = false;
     let mut inside = false;
     for pos in winding_numbers.keys() {
@@ -169,13 +170,16 @@ fn _get_loop_relation<C: Coordinate>(
         outside = outside || is_even;
         inside = inside || !is_even;
         if outside && inside {
-            return LoopRelation::Crosses;
+            return Some(LoopRelation::Crosses);
         }
     }
     if outside {
-        LoopRelation::Outside
+        Some(LoopRelation::Outside)
+    } else if inside {
+        Some(LoopRelation::Inside)
     } else {
-        LoopRelation::Inside
+        // All vertices are on the other loop.
+        None
     }
 }
 
-- 
2.43.0


From 5e6b83d5db63336ea1cbe4dbd4e45cef2c1fc8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:58 +0000
Subject: [PATCH 6/6] fix: unsupported WKT geometries are reported as errors

---
 src/serde/wkt.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/serde/wkt.rs b/src/serde/wkt.rs
index b26e4a1..15368da 100644
--- a/src/serde/wkt.rs
+++ b/src/serde/wkt.rs
@@ -6,12 +6,11 @@ use wkt;
 
 pub fn parse_wkt(wkt_str: &str) -> Result<Vec<Geometry<f64>>, &str> {
     let wkt_geoms = wkt::Wkt::from_str(wkt_str)?;
-    let geoms = wkt_geoms.items.into_iter().map(from_wkt_geometry).collect();
-    Ok(geoms)
+    wkt_geoms.items.into_iter().map(from_wkt_geometry).collect()
 }
 
-fn from_wkt_geometry(geom: wkt::Geometry) -> Geometry<f64> {
-    match geom {
+fn from_wkt_geometry(geom: wkt::Geometry) -> Result<Geometry<f64>, &'static str> {
+    let geometry = match geom {
         wkt::Geometry::Point(p) => match from_wkt_point(p) {
             None => Geometry::empty(),
             Some(point) => Geometry::from(point),
@@ -24,8 +23,9 @@ fn from_wkt_geometry(geom: wkt::Geometry) -> Geometry<f64> {
         wkt::Geometry::MultiPoint(mp) => Geometry::from(from_wkt_multi_point(mp)),
         wkt::Geometry::MultiLineString(mls) => Geometry::from(from_wkt_multi_linestring(mls)),
         wkt::Geometry::MultiPolygon(mpoly) => Geometry::from(from_wkt_multi_polygon(mpoly)),
-        _ => unimplemented!(),
-    }
+        _ => return Err("Unsupported geometry type."),
+    };
+    Ok(geometry)
 }
 
 fn from_wkt_point(pt: wkt::types::Point) -> Option<Point<f64>> {
-- 
2.43.0

