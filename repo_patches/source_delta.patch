From d70fc4e9de09a8bbc99b5f89d4f6093b4baa483e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:00 +0000
Subject: [PATCH 01/30] verif hook: expose data_structure under
 cfg(rcgal_verif)

---
 src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 05b86a5..e6d6be8 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,5 +1,9 @@
+#![allow(unexpected_cfgs)]
 pub mod algorithm;
+#[cfg(not(rcgal_verif))]
 mod data_structure;
+#[cfg(rcgal_verif)]
+pub mod data_structure;
 pub mod kernel;
 #[cfg(target_arch = "wasm32")]
 mod wasm;
-- 
2.43.0


From cab9015ae31323628f56b8dc3456666f64ee3064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:40 +0000
Subject: [PATCH 02/30] fix: AVL deletion removes exactly the in-order
 successor, also among equal keys

---
 src/data_structure/avl_tree.rs | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/src/data_structure/avl_tree.rs b/src/data_structure/avl_tree.rs
index 6a21925..ef4bdac 100644
--- a/src/data_structure/avl_tree.rs
+++ b/src/data_structure/avl_tree.rs
@@ -80,17 +80,10 @@ where
                         }
                     }
                 } else {
-                    let mut temp = node.borrow().right.clone().unwrap();
-                    loop {
-                        let temp_left = temp.borrow().left.clone();
-                        if temp_left.is_none() {
-                            break;
-                        }
-                        temp = temp_left.unwrap();
-                    }
-                    let right = node.borrow().right.clone();
-                    node.borrow_mut().right = Self::delete(right, temp.borrow().value);
-                    node.borrow_mut().value = temp.borrow().value;
+                    let right = node.borrow().right.clone().unwrap();
+                    let (right, successor) = Self::delete_min(right);
+                    node.borrow_mut().right = right;
+                    node.borrow_mut().value = successor;
                 }
                 Self::update_height(Some(node.clone()));
                 node = Self::rotate(Some(node)).unwrap();
@@ -100,6 +93,24 @@ where
         }
     }
 
+    /// Removes the leftmost node of the subtree and returns the remaining subtree and its value.
+    fn delete_min(node: Rc<RefCell<AVLTreeNode<T>>>) -> (OptionNodeRc<T>, T) {
+        let left = node.borrow().left.clone();
+        match left {
+            Some(left) => {
+                let (left, value) = Self::delete_min(left);
+                node.borrow_mut().left = left;
+                Self::update_height(Some(node.clone()));
+                (Self::rotate(Some(node)), value)
+            }
+            None => {
+                let right = node.borrow().right.clone();
+                let value = node.borrow().value;
+                (right, value)
+            }
+        }
+    }
+
     fn update_height(node: OptionNodeRc<T>) {
         if let Some(node) = node {
             let left = node.borrow().left.clone();
-- 
2.43.0


From b429a82126dba97cfe94f2673422aed170596f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:40 +0000
Subject: [PATCH 03/30] fix: sweep handles each event point once

---
 src/algorithm/intersection/sweep_segment_2_intersection.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/algorithm/intersection/sweep_segment_2_intersection.rs b/src/algorithm/intersection/sweep_segment_2_intersection.rs
index 4f2c14f..f140ea8 100644
--- a/src/algorithm/intersection/sweep_segment_2_intersection.rs
+++ b/src/algorithm/intersection/sweep_segment_2_intersection.rs
@@ -118,6 +118,7 @@ impl<T: NumberType> SweepSegment2Intersection<T> {
         self.event_queue.clear();
         self.status_tree.clear();
         self.intersection_points.clear();
+        self.last_event_point = None;
         let mut event_points = AVLTree::new(AVLTreeOption::DisableSameNode);
         for segment in &self.segments {
             match segment {
@@ -137,6 +138,9 @@ impl<T: NumberType> SweepSegment2Intersection<T> {
         }
         while !self.event_queue.is_empty() {
             let event_point = self.event_queue.pop().unwrap();
+            if self.last_event_point == Some(event_point) {
+                continue;
+            }
             self.handle_event_point(&event_point);
             self.last_event_point = Some(event_point);
         }
-- 
2.43.0


From 5e5e8c12a9d8aadac2bd2266ec1ac5492e0364e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:40 +0000
Subject: [PATCH 04/30] fix: sweep looks right of the last copy of a repeated
 segment

---
 src/algorithm/intersection/sweep_segment_2_intersection.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algorithm/intersection/sweep_segment_2_intersection.rs b/src/algorithm/intersection/sweep_segment_2_intersection.rs
index f140ea8..28b55aa 100644
--- a/src/algorithm/intersection/sweep_segment_2_intersection.rs
+++ b/src/algorithm/intersection/sweep_segment_2_intersection.rs
@@ -493,7 +493,7 @@ impl<T: NumberType> SweepSegment2Intersection<T> {
         segment: &StatusNodeSegment<T>,
         mid_order_traversal: &Vec<StatusNode<T>>,
     ) -> Option<StatusNodeSegment<T>> {
-        for (index, status_node) in mid_order_traversal.iter().enumerate() {
+        for (index, status_node) in mid_order_traversal.iter().enumerate().rev() {
             let mut status_node_segment = status_node.segment.clone();
             match status_node_segment {
                 StatusNodeSegment::LineSegment2(line_segment) => match segment {
-- 
2.43.0


From a92bb5443efc2e3951df584d4b7a72280bf73f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:12 +0000
Subject: [PATCH 05/30] fix: a zero-length segment contains only its own point

---
 src/algorithm/location/point_2_line_segment_2.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/algorithm/location/point_2_line_segment_2.rs b/src/algorithm/location/point_2_line_segment_2.rs
index a99ba20..ded2a68 100644
--- a/src/algorithm/location/point_2_line_segment_2.rs
+++ b/src/algorithm/location/point_2_line_segment_2.rs
@@ -21,6 +21,13 @@ pub fn locate_point_2_line_segment_2<T: NumberType>(
     let target = segment_2.target();
     let vec_ab = target - source;
     let vec_ac = *point_2 - source;
+    if source == target {
+        return if *point_2 == source {
+            Point2Segment2Location::On
+        } else {
+            Point2Segment2Location::Collinear
+        };
+    }
     let area = vec_ab.cross(&vec_ac);
     if area > T::default_eps() {
         Point2Segment2Location::Left
-- 
2.43.0


From 89116f76d00b34129ba70cdbed65fcfd5505fad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:12 +0000
Subject: [PATCH 06/30] fix: disjoint collinear segments do not intersect

---
 src/algorithm/intersection/line_segment_2_line_segment_2.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/algorithm/intersection/line_segment_2_line_segment_2.rs b/src/algorithm/intersection/line_segment_2_line_segment_2.rs
index eeb5f51..6949021 100644
--- a/src/algorithm/intersection/line_segment_2_line_segment_2.rs
+++ b/src/algorithm/intersection/line_segment_2_line_segment_2.rs
@@ -14,6 +14,12 @@ pub fn is_line_segment_2_line_segment_2_intersected<T: NumberType>(
     let ca = line_segment_a.source() - line_segment_b.source();
     let cb = line_segment_a.target() - line_segment_b.source();
     let eps = T::default_eps();
+    if ab.cross(&cd).equals(T::zero()) {
+        return is_point_2_on_line_segment_2(&line_segment_a.source(), line_segment_b)
+            || is_point_2_on_line_segment_2(&line_segment_a.target(), line_segment_b)
+            || is_point_2_on_line_segment_2(&line_segment_b.source(), line_segment_a)
+            || is_point_2_on_line_segment_2(&line_segment_b.target(), line_segment_a);
+    }
     ab.cross(&ac) * ab.cross(&ad) < eps && cd.cross(&ca) * cd.cross(&cb) < eps
 }
 
-- 
2.43.0


From a977fe8425cfa2e162c0de34817068f657b2dbbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:12 +0000
Subject: [PATCH 07/30] fix: a segment leaving a circle intersects it

---
 src/algorithm/intersection/line_segment_2_circle_segment_2.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/algorithm/intersection/line_segment_2_circle_segment_2.rs b/src/algorithm/intersection/line_segment_2_circle_segment_2.rs
index eb58e14..21a079f 100644
--- a/src/algorithm/intersection/line_segment_2_circle_segment_2.rs
+++ b/src/algorithm/intersection/line_segment_2_circle_segment_2.rs
@@ -26,6 +26,10 @@ pub fn is_line_segment_2_circle_segment_2_intersected<T: NumberType>(
         || target_relation == Point2Circle2Location::On
     {
         return true;
+    } else if source_relation == Point2Circle2Location::Inside
+        || target_relation == Point2Circle2Location::Inside
+    {
+        return true;
     } else {
         let projection_point = point_2_project_line_segment_2(&center, line_segment);
         match projection_point {
-- 
2.43.0


From 8734c938be8264dcb4450f891cbe0e5bc6105786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:12 +0000
Subject: [PATCH 08/30] fix: arc/circle predicate no longer treats the circle
 as an arc

---
 src/algorithm/intersection/segment_2_segment_2.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algorithm/intersection/segment_2_segment_2.rs b/src/algorithm/intersection/segment_2_segment_2.rs
index 9218a53..4a4436a 100644
--- a/src/algorithm/intersection/segment_2_segment_2.rs
+++ b/src/algorithm/intersection/segment_2_segment_2.rs
@@ -61,7 +61,7 @@ pub fn is_segment_2_segment_2_intersected<T: NumberType>(
                 Segment2Type::LineSegment2 => {
                     is_line_segment_2_arc_segment_2_intersected(segment_b, segment_a)
                 }
-                _ => is_arc_segment_2_arc_segment_2_intersected(segment_b, segment_a),
+                _ => is_circle_segment_2_arc_segment_2_intersected(segment_b, segment_a),
             },
         }
     }
-- 
2.43.0


From 93d1139cd1cdd79e563e6b47479b718ce46b2264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:12 +0000
Subject: [PATCH 09/30] fix: segment/ray intersection finds the crossing point

---
 .../intersection/line_segment_2_ray_2.rs      | 25 +++----------------
 1 file changed, 4 insertions(+), 21 deletions(-)

diff --git a/src/algorithm/intersection/line_segment_2_ray_2.rs b/src/algorithm/intersection/line_segment_2_ray_2.rs
index 124fb6a..99ee5a8 100644
--- a/src/algorithm/intersection/line_segment_2_ray_2.rs
+++ b/src/algorithm/intersection/line_segment_2_ray_2.rs
@@ -1,7 +1,6 @@
 use crate::{
     algorithm::location::{
-        location_enum::Point2Ray2Location,
-        point_2_ray_2::{is_point_2_on_ray_2, locate_point_2_ray_2},
+        location_enum::Point2Ray2Location, point_2_ray_2::locate_point_2_ray_2,
     },
     kernel::{
         line_segment_2::LineSegment2, number_type::NumberType, point_2::Point2, ray_2::Ray2,
@@ -13,12 +12,7 @@ pub fn is_line_segment_2_ray_2_intersected<T: NumberType>(
     line_segment: &LineSegment2<T>,
     ray_segment: &Ray2<T>,
 ) -> bool {
-    let v1 = line_segment.target() - ray_segment.origin();
-    let v2 = line_segment.source() - ray_segment.origin();
-    let cross1 = ray_segment.direction().cross(&v1);
-    let cross2 = ray_segment.direction().cross(&v2);
-    let eps = T::default_eps();
-    cross1 * cross2 <= eps && cross1 >= -eps
+    !line_segment_2_ray_2_intersection(line_segment, ray_segment).is_empty()
 }
 
 pub fn line_segment_2_ray_2_intersection<T: NumberType>(
@@ -60,19 +54,8 @@ pub fn line_segment_2_ray_2_intersection<T: NumberType>(
                     _ => {
                         let v1 = target - source;
                         let v2 = ray_segment.origin() - source;
-                        let v3 = ray_segment.origin() - target;
-                        let cross1 = v1.cross(&v2);
-                        let cross2 = v1.cross(&v3);
-                        if cross1.equals(cross2) {
-                            let point = source + target;
-                            let point = point / T::from_f64(2.0);
-                            let point = Point2::new(point.x(), point.y());
-                            if is_point_2_on_ray_2(&point, ray_segment) {
-                                result.push(point);
-                            }
-                            return result;
-                        } else {
-                            let t = cross1 / (cross1 - cross2);
+                        let t = v1.cross(&v2) / ray_segment.direction().cross(&v1);
+                        if t > T::zero() || t.equals(T::zero()) {
                             let point =
                                 ray_segment.origin().get_vector() + ray_segment.direction() * t;
                             result.push(Point2::new(point.x(), point.y()));
-- 
2.43.0


From ebe7d1e33cdf37529e43b4cb6e6ac11e0b64a050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:12 +0000
Subject: [PATCH 10/30] fix: projection onto a slanted line is perpendicular

---
 src/algorithm/projection/point_2_line_2.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algorithm/projection/point_2_line_2.rs b/src/algorithm/projection/point_2_line_2.rs
index 820efb3..6a52612 100644
--- a/src/algorithm/projection/point_2_line_2.rs
+++ b/src/algorithm/projection/point_2_line_2.rs
@@ -15,7 +15,7 @@ pub fn point_2_project_line_2<T: NumberType>(point: &Point2<T>, line: &Line2<T>)
         let y = -c / b;
         return Point2::new(point.x(), y);
     } else {
-        let t = a / b;
+        let t = b / a;
         let c = point.y() - t * point.x();
         let line_vertical = Line2::new(t, T::from_f64(-1.0), c);
         let intersection = line_2_line_2_intersection(line, &line_vertical);
-- 
2.43.0


From 749865aa7dc0f196cceb66ea7a28cc8b65a502a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:12 +0000
Subject: [PATCH 11/30] fix: convex hull of a single (possibly repeated) point
 is that point

---
 src/algorithm/convex_hull/convex_hull_2.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/algorithm/convex_hull/convex_hull_2.rs b/src/algorithm/convex_hull/convex_hull_2.rs
index 33418e2..5dc01b3 100644
--- a/src/algorithm/convex_hull/convex_hull_2.rs
+++ b/src/algorithm/convex_hull/convex_hull_2.rs
@@ -35,9 +35,12 @@ impl<T: NumberType> ConvexHull2<T> {
             }
             upper.push(p.clone());
         }
-        lower.pop();
-        upper.pop();
+        if lower.len() > 1 {
+            lower.pop();
+            upper.pop();
+        }
         lower.extend(upper);
+        lower.dedup();
         lower
     }
 
-- 
2.43.0


From 6f8de55f740b44118cd7d8a8d2cea62fd869c240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:12 +0000
Subject: [PATCH 12/30] fix: point location handles non-convex polygons

---
 src/algorithm/location/point_2_polygon_2.rs | 39 +++++++++------------
 1 file changed, 16 insertions(+), 23 deletions(-)

diff --git a/src/algorithm/location/point_2_polygon_2.rs b/src/algorithm/location/point_2_polygon_2.rs
index 95568a6..87a1ca6 100644
--- a/src/algorithm/location/point_2_polygon_2.rs
+++ b/src/algorithm/location/point_2_polygon_2.rs
@@ -1,4 +1,6 @@
-use crate::kernel::{number_type::NumberType, point_2::Point2, polygon_2::Polygon2};
+use crate::kernel::{
+    number_type::NumberType, point_2::Point2, polygon_2::Polygon2, segment_2::Segment2,
+};
 
 use super::{
     location_enum::{Point2Polygon2Location, Point2Segment2Location},
@@ -40,36 +42,27 @@ pub fn locate_point_2_polygon_2<T: NumberType>(
     polygon: &Polygon2<T>,
 ) -> Point2Polygon2Location {
     let edges = polygon.edges();
-    let mut location = None;
+    let mut inside = false;
     for edge in &edges {
         let edge_location = locate_point_2_line_segment_2(point, edge);
         match edge_location {
             Point2Segment2Location::On => return Point2Polygon2Location::On,
-            Point2Segment2Location::Left => match location {
-                Some(Point2Segment2Location::Right) => {
-                    return Point2Polygon2Location::Outside;
-                }
-                None => {
-                    location = Some(Point2Segment2Location::Left);
-                }
-                _ => {}
-            },
-            Point2Segment2Location::Right => match location {
-                Some(Point2Segment2Location::Left) => {
-                    return Point2Polygon2Location::Outside;
+            Point2Segment2Location::Left => {
+                if edge.source().y() <= point.y() && point.y() < edge.target().y() {
+                    inside = !inside;
                 }
-                None => {
-                    location = Some(Point2Segment2Location::Right);
+            }
+            Point2Segment2Location::Right => {
+                if edge.target().y() <= point.y() && point.y() < edge.source().y() {
+                    inside = !inside;
                 }
-                _ => {}
-            },
+            }
             _ => {}
         }
     }
-    match location {
-        None => return Point2Polygon2Location::Outside,
-        _ => {
-            return Point2Polygon2Location::Inside;
-        }
+    if inside {
+        Point2Polygon2Location::Inside
+    } else {
+        Point2Polygon2Location::Outside
     }
 }
-- 
2.43.0


From ca0cbcb50fc6a54e0cb7e9dac307c48743de1cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:12 +0000
Subject: [PATCH 13/30] fix: a polygon whose boundary touches itself is not
 simple

---
 src/kernel/polygon_2.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/kernel/polygon_2.rs b/src/kernel/polygon_2.rs
index 68fcf2e..11f21da 100644
--- a/src/kernel/polygon_2.rs
+++ b/src/kernel/polygon_2.rs
@@ -1,4 +1,7 @@
-use crate::algorithm::intersection::sweep_segment_2_intersection::SweepSegment2Intersection;
+use crate::algorithm::{
+    intersection::sweep_segment_2_intersection::SweepSegment2Intersection,
+    location::point_2_line_segment_2::is_point_2_on_line_segment_2,
+};
 
 use super::{
     line_segment_2::LineSegment2, number_type::NumberType, point_2::Point2, triangle_2::Triangle2,
@@ -51,10 +54,17 @@ impl<T: NumberType> Polygon2<T> {
         }
         let intersections = sweep.intersection();
         let vertices_size = self.vertices.len();
-        if vertices_size == intersections.len() {
-            return true;
+        if vertices_size != intersections.len() {
+            return false;
         }
-        return false;
+        // A vertex on a third edge means that the boundary touches itself there.
+        self.vertices.iter().all(|vertex| {
+            edges
+                .iter()
+                .filter(|edge| is_point_2_on_line_segment_2(vertex, *edge))
+                .count()
+                == 2
+        })
     }
 
     pub fn is_convex(&self) -> bool {
-- 
2.43.0


From cb2c517baa66d968ce375adc4dfaf0737d060e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:44 +0000
Subject: [PATCH 14/30] fix: earcut removes a vertex that stopped being an ear
 from the ear list

---
 src/algorithm/triangulation/earcut_2.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/algorithm/triangulation/earcut_2.rs b/src/algorithm/triangulation/earcut_2.rs
index c9ffc08..53ea803 100644
--- a/src/algorithm/triangulation/earcut_2.rs
+++ b/src/algorithm/triangulation/earcut_2.rs
@@ -218,7 +218,14 @@ fn get_vertex_type<T: NumberType>(
                 let location = locate_point_2_triangle_2(&point, &triangle);
                 match location {
                     Point2Triangle2Location::Inside => {
-                        return (VertexType::Convex, None);
+                        let list = match vertex.borrow().data.vertex_type {
+                            VertexType::Ear => ears,
+                            _ => reflexes,
+                        };
+                        let index = list
+                            .iter()
+                            .position(|x| x.borrow().data.point == cur.borrow().data.point);
+                        return (VertexType::Convex, index);
                     }
                     _ => {
                         continue;
-- 
2.43.0


From 5bf0a8a85669561cbbcd60eade5efe95d5d4a434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:15 +0000
Subject: [PATCH 15/30] fix: earcut does not clip an ear that touches another
 vertex

---
 src/algorithm/triangulation/earcut_2.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/algorithm/triangulation/earcut_2.rs b/src/algorithm/triangulation/earcut_2.rs
index 53ea803..f87864b 100644
--- a/src/algorithm/triangulation/earcut_2.rs
+++ b/src/algorithm/triangulation/earcut_2.rs
@@ -211,13 +211,14 @@ fn get_vertex_type<T: NumberType>(
         Orientation::CounterClockwise => {
             for i in 0..reflexes.len() {
                 let reflex = reflexes[i].clone();
-                if reflex.borrow().data.point == cur.borrow().data.point {
+                let reflex_index = reflex.borrow().data.index;
+                if points.iter().any(|p| p.index == reflex_index) {
                     continue;
                 }
                 let point = reflex.borrow().data.point;
                 let location = locate_point_2_triangle_2(&point, &triangle);
                 match location {
-                    Point2Triangle2Location::Inside => {
+                    Point2Triangle2Location::Inside | Point2Triangle2Location::On => {
                         let list = match vertex.borrow().data.vertex_type {
                             VertexType::Ear => ears,
                             _ => reflexes,
@@ -269,7 +270,7 @@ fn init_vertex_type<T: NumberType>(vertex: &Vec<Point2<T>>, index: usize) -> Ver
                 let point = &vertex[i];
                 let location = locate_point_2_triangle_2(point, &triangle);
                 match location {
-                    Point2Triangle2Location::Inside => {
+                    Point2Triangle2Location::Inside | Point2Triangle2Location::On => {
                         return VertexType::Convex;
                     }
                     _ => {
-- 
2.43.0


From ed288ef27512ad063cd7c7f060d220a04954f235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:50 +0000
Subject: [PATCH 16/30] fix: earcut triangulates clockwise polygons

---
 src/algorithm/triangulation/earcut_2.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/algorithm/triangulation/earcut_2.rs b/src/algorithm/triangulation/earcut_2.rs
index f87864b..84ec748 100644
--- a/src/algorithm/triangulation/earcut_2.rs
+++ b/src/algorithm/triangulation/earcut_2.rs
@@ -26,6 +26,20 @@ struct EarcutVertex<T: NumberType> {
 }
 
 pub fn earcut_2<T: NumberType>(polygon: Polygon2<T>) -> Vec<Vec<usize>> {
+    if polygon.area() < T::zero() {
+        // Clip the counterclockwise copy and translate its indices back.
+        let mut vertices = polygon.vertices();
+        vertices.reverse();
+        let last = vertices.len() - 1;
+        let mut triangles = earcut_2(Polygon2::new(vertices));
+        for triangle in triangles.iter_mut() {
+            for index in triangle.iter_mut() {
+                *index = last - *index;
+            }
+            triangle.sort();
+        }
+        return triangles;
+    }
     let is_simple = polygon.is_simple();
     if !is_simple {
         panic!("Polygon is not simple");
-- 
2.43.0


From 0c7be7ebd4f48f78f836a83183450fb56550925c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:50 +0000
Subject: [PATCH 17/30] fix: deleting the last node empties the circular list

---
 src/data_structure/circular_doubly_linked_list.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/data_structure/circular_doubly_linked_list.rs b/src/data_structure/circular_doubly_linked_list.rs
index 76b2d85..545e882 100644
--- a/src/data_structure/circular_doubly_linked_list.rs
+++ b/src/data_structure/circular_doubly_linked_list.rs
@@ -90,7 +90,10 @@ impl<T: Clone + Copy> CircularDoubleLinkedList<T> {
                         self.tail = None;
                     }
                 }
-                if Rc::ptr_eq(&node, &self.head().unwrap()) {
+                if self.length == 1 {
+                    self.head = None;
+                    self.tail = None;
+                } else if Rc::ptr_eq(&node, &self.head().unwrap()) {
                     self.head = node.borrow().next.clone();
                 } else if Rc::ptr_eq(&node, &self.tail().unwrap()) {
                     self.tail = node.borrow().prev.clone();
-- 
2.43.0


From a750b02720207279398f2f4f51579d002193a24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:18 +0000
Subject: [PATCH 18/30] fix: monotone pieces of an arc cover exactly the arc

---
 src/kernel/arc_segment_2.rs | 54 ++++++++++++++++++++-----------------
 1 file changed, 30 insertions(+), 24 deletions(-)

diff --git a/src/kernel/arc_segment_2.rs b/src/kernel/arc_segment_2.rs
index c251c36..c9818e9 100644
--- a/src/kernel/arc_segment_2.rs
+++ b/src/kernel/arc_segment_2.rs
@@ -40,33 +40,39 @@ impl<T: NumberType> ArcSegment2<T> {
     pub fn monotone(&self) -> Vec<ArcSegment2<T>> {
         let mut arcs = Vec::new();
         let pi = T::pi();
-        let mut radians = Vec::new();
-        let mut end_pi = T::zero();
-        let mut min_flag = false;
-        while !end_pi.equals(self.target_radian) && end_pi < self.target_radian {
-            if !min_flag && end_pi > self.source_radian {
-                min_flag = true;
-                if end_pi > self.source_radian {
-                    radians.push(end_pi - pi);
-                    if !self.source_radian.equals(end_pi - pi) {
-                        radians.push(self.source_radian.clone());
-                    }
-                }
-            }
-            if end_pi.equals(self.source_radian) || end_pi > self.source_radian {
-                radians.push(end_pi.clone());
+        let two_pi = pi * T::from_f64(2.0);
+        let mut source = self.source_radian;
+        let mut target = self.target_radian;
+        while source < T::zero() && !source.equals(T::zero()) {
+            source = source + two_pi;
+        }
+        while source > two_pi || source.equals(two_pi) {
+            source = source - two_pi;
+        }
+        while target < source || target.equals(source) {
+            target = target + two_pi;
+        }
+        while target > source + two_pi && !target.equals(source + two_pi) {
+            target = target - two_pi;
+        }
+        let mut end_pi = pi;
+        while end_pi < target && !end_pi.equals(target) {
+            if end_pi > source && !end_pi.equals(source) {
+                arcs.push((source, end_pi));
+                source = end_pi;
             }
             end_pi = end_pi + pi;
         }
-        radians.push(self.target_radian.clone());
-        for i in 0..radians.len() - 1 {
-            arcs.push(ArcSegment2::new(
-                self.support,
-                radians[i].clone(),
-                radians[i + 1].clone(),
-            ));
-        }
-        arcs
+        arcs.push((source, target));
+        arcs.into_iter()
+            .map(|(source, target)| {
+                if source > two_pi || source.equals(two_pi) {
+                    ArcSegment2::new(self.support, source - two_pi, target - two_pi)
+                } else {
+                    ArcSegment2::new(self.support, source, target)
+                }
+            })
+            .collect()
     }
 }
 
-- 
2.43.0


From 363a6650e5dc144928f564c7b95cd80e12ae7421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:13 +0000
Subject: [PATCH 19/30] fix: a segment's target end is located with the same
 tolerance as its source end

---
 src/algorithm/intersection/line_segment_2_ray_2.rs | 4 +---
 src/algorithm/location/point_2_line_segment_2.rs   | 2 +-
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/algorithm/intersection/line_segment_2_ray_2.rs b/src/algorithm/intersection/line_segment_2_ray_2.rs
index 99ee5a8..b13f0c9 100644
--- a/src/algorithm/intersection/line_segment_2_ray_2.rs
+++ b/src/algorithm/intersection/line_segment_2_ray_2.rs
@@ -1,7 +1,5 @@
 use crate::{
-    algorithm::location::{
-        location_enum::Point2Ray2Location, point_2_ray_2::locate_point_2_ray_2,
-    },
+    algorithm::location::{location_enum::Point2Ray2Location, point_2_ray_2::locate_point_2_ray_2},
     kernel::{
         line_segment_2::LineSegment2, number_type::NumberType, point_2::Point2, ray_2::Ray2,
         segment_2::Segment2,
diff --git a/src/algorithm/location/point_2_line_segment_2.rs b/src/algorithm/location/point_2_line_segment_2.rs
index ded2a68..fa68c75 100644
--- a/src/algorithm/location/point_2_line_segment_2.rs
+++ b/src/algorithm/location/point_2_line_segment_2.rs
@@ -36,7 +36,7 @@ pub fn locate_point_2_line_segment_2<T: NumberType>(
     } else {
         let dot_ab_ac = vec_ab.dot(&vec_ac);
         let dot_ab_ab = vec_ab.dot(&vec_ab);
-        if dot_ab_ac <= dot_ab_ab && dot_ab_ac >= -T::default_eps() {
+        if dot_ab_ac <= dot_ab_ab + T::default_eps() && dot_ab_ac >= -T::default_eps() {
             Point2Segment2Location::On
         } else {
             Point2Segment2Location::Collinear
-- 
2.43.0


From 239a94bc823f0523223326fcc685bc91b2a30bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:44 +0000
Subject: [PATCH 20/30] fix: sweep removes an ended arc that touched its
 neighbour at the previous event

---
 src/algorithm/intersection/sweep_segment_2_intersection.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/algorithm/intersection/sweep_segment_2_intersection.rs b/src/algorithm/intersection/sweep_segment_2_intersection.rs
index 28b55aa..e72fd71 100644
--- a/src/algorithm/intersection/sweep_segment_2_intersection.rs
+++ b/src/algorithm/intersection/sweep_segment_2_intersection.rs
@@ -200,7 +200,7 @@ impl<T: NumberType> SweepSegment2Intersection<T> {
                         StatusNodeSegment::ArcSegment2(arc_segment) => arc_segment.source().y(),
                     },
                 },
-                point: event_point.clone(),
+                point: self.last_event_point.unwrap_or(*event_point),
                 segment: segment.clone(),
             })
         }
@@ -220,7 +220,7 @@ impl<T: NumberType> SweepSegment2Intersection<T> {
                         StatusNodeSegment::ArcSegment2(arc_segment) => arc_segment.source().y(),
                     },
                 },
-                point: event_point.clone(),
+                point: self.last_event_point.unwrap_or(*event_point),
                 segment: segment.clone(),
             })
         }
-- 
2.43.0


From 47edaf5dbe2bece25cac1a36b0df19a4a2a57192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:44 +0000
Subject: [PATCH 21/30] fix: sweep orders circles and arcs by how they leave a
 common point

---
 .../sweep_segment_2_intersection.rs           | 154 ++++++++----------
 1 file changed, 70 insertions(+), 84 deletions(-)

diff --git a/src/algorithm/intersection/sweep_segment_2_intersection.rs b/src/algorithm/intersection/sweep_segment_2_intersection.rs
index e72fd71..b96a72f 100644
--- a/src/algorithm/intersection/sweep_segment_2_intersection.rs
+++ b/src/algorithm/intersection/sweep_segment_2_intersection.rs
@@ -284,9 +284,11 @@ impl<T: NumberType> SweepSegment2Intersection<T> {
                 None => {}
             }
         } else {
-            let segment_left = self
-                .get_left_right_in_u_c(&source_is_p, &contain_p, event_point)
-                .0;
+            let segments = self.get_sorted_u_c(&source_is_p, &contain_p, event_point);
+            for pair in segments.windows(2) {
+                self.find_intersection_points(&pair[0], &pair[1], event_point);
+            }
+            let segment_left = segments[0].clone();
             let segment_left_left = self.get_left_of_segment(&segment_left, &mid_order_traversal);
             match segment_left_left {
                 Some(segment) => {
@@ -294,9 +296,7 @@ impl<T: NumberType> SweepSegment2Intersection<T> {
                 }
                 _ => {}
             }
-            let segment_right = self
-                .get_left_right_in_u_c(&source_is_p, &contain_p, event_point)
-                .1;
+            let segment_right = segments[segments.len() - 1].clone();
             let segment_right_right =
                 self.get_right_of_segment(&segment_right, &mid_order_traversal);
             match segment_right_right {
@@ -409,12 +409,12 @@ impl<T: NumberType> SweepSegment2Intersection<T> {
         }
     }
 
-    fn get_left_right_in_u_c(
+    fn get_sorted_u_c(
         &self,
         source_is_p: &Vec<StatusNodeSegment<T>>,
         contain_p: &Vec<StatusNodeSegment<T>>,
         event_point: &Point2<T>,
-    ) -> (StatusNodeSegment<T>, StatusNodeSegment<T>) {
+    ) -> Vec<StatusNodeSegment<T>> {
         let mut segments = Vec::new();
         for segment in source_is_p {
             segments.push(segment.clone());
@@ -440,9 +440,7 @@ impl<T: NumberType> SweepSegment2Intersection<T> {
                 }
             },
         });
-        let left = segments[0].clone();
-        let right = segments[segments.len() - 1].clone();
-        (left, right)
+        segments
     }
 
     fn get_left_of_segment(
@@ -596,75 +594,77 @@ fn calculate_segment_value<T: NumberType>(segment: &impl Segment2<T>, point: &Po
             y
         }
         _ => {
+            if is_point_2_on_arc_segment_2(point, segment) {
+                return point.y();
+            }
             let radius = segment.radius();
             let center = segment.center();
-            let y = radius * radius - (point.x() - center.x()) * (point.x() - center.x());
-            let y = y.sqrt();
-            let y_a = center.y() + y;
-            let y_b = center.y() - y;
-            let p_a = Point2::new(point.x(), y_a);
-            let p_b = Point2::new(point.x(), y_b);
-            if is_point_2_on_arc_segment_2(&p_a, segment) {
-                y_a
-            } else if is_point_2_on_arc_segment_2(&p_b, segment) {
-                y_b
+            let x = (point.x() - center.x()).abs();
+            if x.equals(radius) || x > radius {
+                return center.y();
+            }
+            let y = (radius * radius - x * x).sqrt();
+            if is_top_segment(segment) {
+                center.y() + y
             } else {
-                point.y()
+                center.y() - y
             }
         }
     }
 }
 
-fn get_target_of_segment<T: NumberType>(segment: &impl Segment2<T>) -> Point2<T> {
+fn is_top_segment<T: NumberType>(segment: &impl Segment2<T>) -> bool {
+    ArcSegment2::new(
+        CircleSegment2::new(segment.center(), segment.radius()),
+        segment.source_radian(),
+        segment.target_radian(),
+    )
+    .is_top()
+}
+
+/// How steeply the segment leaves the point to the right: -1 or 1 when it leaves
+/// vertically downwards or upwards, otherwise 0 and the slope.
+fn calculate_direction<T: NumberType>(segment: &impl Segment2<T>, point: &Point2<T>) -> (i32, T) {
+    let slope = match segment.segment_type() {
+        Segment2Type::LineSegment2 => calculate_slope(&segment.source(), &segment.target()),
+        _ => calculate_tangent_slope(&segment.center(), point),
+    };
+    match slope {
+        Some(slope) => (0, slope),
+        None => match segment.segment_type() {
+            Segment2Type::LineSegment2 => (1, T::zero()),
+            _ => (if is_top_segment(segment) { 1 } else { -1 }, T::zero()),
+        },
+    }
+}
+
+/// How fast the segment turns upwards when followed to the right.
+fn calculate_curvature<T: NumberType>(segment: &impl Segment2<T>) -> T {
     match segment.segment_type() {
-        Segment2Type::LineSegment2 => segment.target(),
+        Segment2Type::LineSegment2 => T::zero(),
         _ => {
-            let arc_segment = ArcSegment2::new(
-                CircleSegment2::new(segment.center(), segment.radius()),
-                segment.source_radian(),
-                segment.target_radian(),
-            );
-            if arc_segment.is_top() {
-                arc_segment.source()
+            let curvature = T::from_f64(1.0) / segment.radius();
+            if is_top_segment(segment) {
+                -curvature
             } else {
-                arc_segment.target()
+                curvature
             }
         }
     }
 }
 
-fn calculate_mid_value<T: NumberType>(
-    segment_a: &impl Segment2<T>,
-    segment_b: &impl Segment2<T>,
-    event_point: &Point2<T>,
-) -> (T, T) {
-    let target_a = get_target_of_segment(segment_a);
-    let target_b = get_target_of_segment(segment_b);
-    let target = if target_a < target_b {
-        target_a
-    } else {
-        target_b
-    };
-    let mid = (*event_point + target) * T::from_f64(0.5);
-    let mid = Point2::new(mid.x(), mid.y());
-    (
-        calculate_segment_value(segment_a, &mid),
-        calculate_segment_value(segment_b, &mid),
-    )
-}
-
 fn compare_segments_same_slope<T: NumberType>(
     segment_a: &impl Segment2<T>,
     segment_b: &impl Segment2<T>,
-    event_point: &Point2<T>,
 ) -> std::cmp::Ordering {
-    let (mid_a_value, mid_b_value) = calculate_mid_value(segment_a, segment_b, event_point);
-    if mid_a_value.equals(mid_b_value) {
-        return std::cmp::Ordering::Equal;
-    } else if mid_a_value < mid_b_value {
-        return std::cmp::Ordering::Less;
+    let a = calculate_curvature(segment_a);
+    let b = calculate_curvature(segment_b);
+    if a.equals(b) {
+        std::cmp::Ordering::Equal
+    } else if a < b {
+        std::cmp::Ordering::Less
     } else {
-        return std::cmp::Ordering::Greater;
+        std::cmp::Ordering::Greater
     }
 }
 
@@ -676,31 +676,17 @@ fn compare_segments<T: NumberType>(
     let segment_a_value = calculate_segment_value(segment_a, event_point);
     let segment_b_value = calculate_segment_value(segment_b, event_point);
     if segment_a_value.equals(segment_b_value) {
-        let segment_a_slope = match segment_a.segment_type() {
-            Segment2Type::LineSegment2 => calculate_slope(&segment_a.source(), &segment_a.target()),
-            _ => calculate_tangent_slope(&segment_a.center(), event_point),
-        };
-        let segment_b_slope = match segment_b.segment_type() {
-            Segment2Type::LineSegment2 => calculate_slope(&segment_b.source(), &segment_b.target()),
-            _ => calculate_tangent_slope(&segment_b.center(), event_point),
-        };
-        match segment_a_slope {
-            Some(a_slope) => match segment_b_slope {
-                Some(b_slope) => {
-                    if a_slope.equals(b_slope) {
-                        compare_segments_same_slope(segment_a, segment_b, event_point)
-                    } else if a_slope < b_slope {
-                        std::cmp::Ordering::Less
-                    } else {
-                        std::cmp::Ordering::Greater
-                    }
-                }
-                None => std::cmp::Ordering::Less,
-            },
-            None => match segment_b_slope {
-                Some(_) => std::cmp::Ordering::Greater,
-                None => compare_segments_same_slope(segment_a, segment_b, event_point),
-            },
+        let meeting_point = Point2::new(event_point.x(), segment_a_value);
+        let (a_vertical, a_slope) = calculate_direction(segment_a, &meeting_point);
+        let (b_vertical, b_slope) = calculate_direction(segment_b, &meeting_point);
+        if a_vertical != b_vertical {
+            a_vertical.cmp(&b_vertical)
+        } else if a_slope.equals(b_slope) {
+            compare_segments_same_slope(segment_a, segment_b)
+        } else if a_slope < b_slope {
+            std::cmp::Ordering::Less
+        } else {
+            std::cmp::Ordering::Greater
         }
     } else if segment_a_value < segment_b_value {
         std::cmp::Ordering::Less
-- 
2.43.0


From ac9c7a534e5764a3fd051d663d56f2ffc43c4a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:10 +0000
Subject: [PATCH 22/30] fix: the sweep handles each event point once, so that
 it ends whatever the rounding

---
 src/algorithm/intersection/sweep_segment_2_intersection.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/algorithm/intersection/sweep_segment_2_intersection.rs b/src/algorithm/intersection/sweep_segment_2_intersection.rs
index b96a72f..26f1db7 100644
--- a/src/algorithm/intersection/sweep_segment_2_intersection.rs
+++ b/src/algorithm/intersection/sweep_segment_2_intersection.rs
@@ -136,13 +136,16 @@ impl<T: NumberType> SweepSegment2Intersection<T> {
         for event_point in event_points {
             self.event_queue.push(event_point);
         }
+        // Rounding can make a handled point be found again from a later event.
+        let mut handled_points = Vec::new();
         while !self.event_queue.is_empty() {
             let event_point = self.event_queue.pop().unwrap();
-            if self.last_event_point == Some(event_point) {
+            if handled_points.contains(&event_point) {
                 continue;
             }
             self.handle_event_point(&event_point);
             self.last_event_point = Some(event_point);
+            handled_points.push(event_point);
         }
         let points = self.intersection_points.mid_order_traversal();
         self.filter_intersection_points(points)
-- 
2.43.0


From c48caa0fc7960669ffc5695777b9eb8d1da2411f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:10 +0000
Subject: [PATCH 23/30] fix: the tolerance of a location relative to a segment
 does not depend on its length

---
 src/algorithm/location/point_2_line_segment_2.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/algorithm/location/point_2_line_segment_2.rs b/src/algorithm/location/point_2_line_segment_2.rs
index fa68c75..1d47a50 100644
--- a/src/algorithm/location/point_2_line_segment_2.rs
+++ b/src/algorithm/location/point_2_line_segment_2.rs
@@ -28,15 +28,17 @@ pub fn locate_point_2_line_segment_2<T: NumberType>(
             Point2Segment2Location::Collinear
         };
     }
+    // The tolerance is a distance from the segment, whatever its length.
+    let eps = T::default_eps() * vec_ab.length();
     let area = vec_ab.cross(&vec_ac);
-    if area > T::default_eps() {
+    if area > eps {
         Point2Segment2Location::Left
-    } else if area < -T::default_eps() {
+    } else if area < -eps {
         Point2Segment2Location::Right
     } else {
         let dot_ab_ac = vec_ab.dot(&vec_ac);
         let dot_ab_ab = vec_ab.dot(&vec_ab);
-        if dot_ab_ac <= dot_ab_ab + T::default_eps() && dot_ab_ac >= -T::default_eps() {
+        if dot_ab_ac <= dot_ab_ab + eps && dot_ab_ac >= -eps {
             Point2Segment2Location::On
         } else {
             Point2Segment2Location::Collinear
-- 
2.43.0


From c386eb887270aef9bc91419b6a9b7709fd585ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:01 +0000
Subject: [PATCH 24/30] fix: a line and a ray far from the origin, or nearly
 parallel, missed their intersection

---
 src/algorithm/intersection/line_2_ray_2.rs | 26 +++++++++++++---------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/algorithm/intersection/line_2_ray_2.rs b/src/algorithm/intersection/line_2_ray_2.rs
index f1cbfe0..9eb2521 100644
--- a/src/algorithm/intersection/line_2_ray_2.rs
+++ b/src/algorithm/intersection/line_2_ray_2.rs
@@ -1,7 +1,4 @@
-use crate::{
-    algorithm::location::{location_enum::Point2Ray2Location, point_2_ray_2::locate_point_2_ray_2},
-    kernel::{line_2::Line2, number_type::NumberType, point_2::Point2, ray_2::Ray2},
-};
+use crate::kernel::{line_2::Line2, number_type::NumberType, point_2::Point2, ray_2::Ray2};
 
 use super::line_2_line_2::line_2_line_2_intersection;
 
@@ -15,15 +12,22 @@ pub fn line_2_ray_2_intersection<T: NumberType>(
 ) -> Option<Point2<T>> {
     let origin = ray.origin();
     let direction = ray.direction();
-    let target = direction + origin.get_vector();
-    let target = Point2::new(target.x(), target.y());
-    let line_ray = Line2::from_points(&origin, &target);
+    let line_ray = Line2::new(
+        direction.y(),
+        -direction.x(),
+        direction.cross(&origin.get_vector()),
+    );
     let intersection = line_2_line_2_intersection(&line, &line_ray);
     match intersection {
-        Some(point) => match locate_point_2_ray_2(&point, ray) {
-            Point2Ray2Location::On => Some(point),
-            _ => None,
-        },
+        Some(point) => {
+            // The point is on the line of the ray: what is left is its side of the origin.
+            let along = direction.dot(&(point - origin));
+            if along > T::zero() || along.equals(T::zero()) {
+                Some(point)
+            } else {
+                None
+            }
+        }
         None => None,
     }
 }
-- 
2.43.0


From e9123f40d5a13116b8537e176150e112eea8a154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:01 +0000
Subject: [PATCH 25/30] fix: equality of lines does not depend on the size of
 their coefficients

---
 src/kernel/line_2.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/kernel/line_2.rs b/src/kernel/line_2.rs
index 215e9bf..eae8d5b 100644
--- a/src/kernel/line_2.rs
+++ b/src/kernel/line_2.rs
@@ -54,8 +54,10 @@ impl<T: NumberType> PartialEq for Line2<T> {
         let det = self.a * other.b - self.b * other.a;
         let det_c = self.c * other.b - self.b * other.c;
         let det_a = self.a * other.c - self.c * other.a;
-        let eps = T::default_eps();
-        return det.abs() < eps && det_c.abs() < eps && det_a.abs() < eps;
+        // The same line has proportional coefficients, whatever their size.
+        let scale = (self.a * self.a + self.b * self.b) * (other.a * other.a + other.b * other.b);
+        let eps = T::default_eps() * scale.sqrt();
+        return det.abs() <= eps && det_c.abs() <= eps && det_a.abs() <= eps;
     }
 }
 
-- 
2.43.0


From 141bc9f73af31f822f3a8a8fe8c05197d2bb68c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:15 +0000
Subject: [PATCH 26/30] fix: segment intersection tolerance relative to the
 lengths, so that small disjoint segments do not meet

---
 .../intersection/line_segment_2_line_segment_2.rs      | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/algorithm/intersection/line_segment_2_line_segment_2.rs b/src/algorithm/intersection/line_segment_2_line_segment_2.rs
index 6949021..988bc50 100644
--- a/src/algorithm/intersection/line_segment_2_line_segment_2.rs
+++ b/src/algorithm/intersection/line_segment_2_line_segment_2.rs
@@ -13,14 +13,18 @@ pub fn is_line_segment_2_line_segment_2_intersected<T: NumberType>(
     let cd = line_segment_b.target() - line_segment_b.source();
     let ca = line_segment_a.source() - line_segment_b.source();
     let cb = line_segment_a.target() - line_segment_b.source();
-    let eps = T::default_eps();
-    if ab.cross(&cd).equals(T::zero()) {
+    // The tolerances are an angle and distances, whatever the lengths of the segments.
+    let eps_ab = T::default_eps() * ab.length();
+    let eps_cd = T::default_eps() * cd.length();
+    if ab.cross(&cd).abs() <= eps_ab * cd.length() {
         return is_point_2_on_line_segment_2(&line_segment_a.source(), line_segment_b)
             || is_point_2_on_line_segment_2(&line_segment_a.target(), line_segment_b)
             || is_point_2_on_line_segment_2(&line_segment_b.source(), line_segment_a)
             || is_point_2_on_line_segment_2(&line_segment_b.target(), line_segment_a);
     }
-    ab.cross(&ac) * ab.cross(&ad) < eps && cd.cross(&ca) * cd.cross(&cb) < eps
+    let on_one_side = |p: T, q: T, eps: T| (p > eps && q > eps) || (p < -eps && q < -eps);
+    !on_one_side(ab.cross(&ac), ab.cross(&ad), eps_ab)
+        && !on_one_side(cd.cross(&ca), cd.cross(&cb), eps_cd)
 }
 
 pub fn line_segment_2_line_segment_2_intersection<T: NumberType>(
-- 
2.43.0


From 0cf05e828891749a03e9c7451c62c29f37d307b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:22 +0000
Subject: [PATCH 27/30] fix: a segment that is only a point does not stay
 active in the sweep

---
 .../intersection/sweep_segment_2_intersection.rs       | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/algorithm/intersection/sweep_segment_2_intersection.rs b/src/algorithm/intersection/sweep_segment_2_intersection.rs
index 26f1db7..c8302ad 100644
--- a/src/algorithm/intersection/sweep_segment_2_intersection.rs
+++ b/src/algorithm/intersection/sweep_segment_2_intersection.rs
@@ -187,6 +187,16 @@ impl<T: NumberType> SweepSegment2Intersection<T> {
         if source_is_p.len() + target_is_p.len() + contain_p.len() > 1 {
             self.intersection_points.insert(event_point.clone());
         }
+        // A segment that is only a point ends where it starts and never becomes active.
+        let source_is_p: Vec<_> = source_is_p
+            .into_iter()
+            .filter(|segment| match segment {
+                StatusNodeSegment::LineSegment2(line_segment) => {
+                    !line_segment.source().equals(&line_segment.target())
+                }
+                StatusNodeSegment::ArcSegment2(_) => true,
+            })
+            .collect();
         for segment in &target_is_p {
             self.status_tree.delete(StatusNode {
                 value: match self.last_event_point {
-- 
2.43.0


From f9720c885dc99687520996611a8984975c9ec3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:22 +0000
Subject: [PATCH 28/30] fix: a segment that is only a point meets a circle or
 ray once

---
 src/algorithm/intersection/line_segment_2_circle_segment_2.rs | 4 +++-
 src/algorithm/intersection/line_segment_2_ray_2.rs            | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/algorithm/intersection/line_segment_2_circle_segment_2.rs b/src/algorithm/intersection/line_segment_2_circle_segment_2.rs
index 21a079f..14aa401 100644
--- a/src/algorithm/intersection/line_segment_2_circle_segment_2.rs
+++ b/src/algorithm/intersection/line_segment_2_circle_segment_2.rs
@@ -69,7 +69,9 @@ pub fn line_segment_2_circle_segment_2_intersection<T: NumberType>(
         && target_relation == Point2Circle2Location::On
     {
         result.push(source);
-        result.push(target);
+        if source != target {
+            result.push(target);
+        }
         return result;
     } else {
         if source_relation == Point2Circle2Location::Inside
diff --git a/src/algorithm/intersection/line_segment_2_ray_2.rs b/src/algorithm/intersection/line_segment_2_ray_2.rs
index b13f0c9..a6215b0 100644
--- a/src/algorithm/intersection/line_segment_2_ray_2.rs
+++ b/src/algorithm/intersection/line_segment_2_ray_2.rs
@@ -32,7 +32,9 @@ pub fn line_segment_2_ray_2_intersection<T: NumberType>(
     let target_relation = locate_point_2_ray_2(&target, ray_segment);
     match target_relation {
         Point2Ray2Location::On => {
-            result.push(target);
+            if source_relation != Point2Ray2Location::On || source != target {
+                result.push(target);
+            }
             return result;
         }
         Point2Ray2Location::Collinear => {
-- 
2.43.0


From 292807ade3cb09a3f1ccf15e5bf149e5872da191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:52 +0000
Subject: [PATCH 29/30] fix: a point on a degenerate triangle is located on its
 edge

---
 src/algorithm/location/point_2_triangle_2.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/algorithm/location/point_2_triangle_2.rs b/src/algorithm/location/point_2_triangle_2.rs
index be99406..249ea24 100644
--- a/src/algorithm/location/point_2_triangle_2.rs
+++ b/src/algorithm/location/point_2_triangle_2.rs
@@ -11,6 +11,7 @@ pub fn locate_point_2_triangle_2<T: NumberType>(
 ) -> Point2Triangle2Location {
     let edges = triangle.edges();
     let mut location = None;
+    let mut beyond = false;
     for edge in &edges {
         let edge_location = locate_point_2_line_segment_2(point, edge);
         match edge_location {
@@ -33,11 +34,13 @@ pub fn locate_point_2_triangle_2<T: NumberType>(
                 }
                 _ => {}
             },
-            _ => {
-                return Point2Triangle2Location::Outside;
-            }
+            // Beyond this edge, but of a degenerate triangle another one may pass through it.
+            _ => beyond = true,
         }
     }
+    if beyond {
+        return Point2Triangle2Location::Outside;
+    }
     return Point2Triangle2Location::Inside;
 }
 
-- 
2.43.0


From c4a4c0347a01cc2bbf296b7acc703827cef0a5d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:52 +0000
Subject: [PATCH 30/30] fix: projection tolerance relative to the segment's
 length, so that the foot does not leave a short segment

---
 src/algorithm/projection/point_2_line_segment_2.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/algorithm/projection/point_2_line_segment_2.rs b/src/algorithm/projection/point_2_line_segment_2.rs
index 8e44e5a..4e7983a 100644
--- a/src/algorithm/projection/point_2_line_segment_2.rs
+++ b/src/algorithm/projection/point_2_line_segment_2.rs
@@ -8,7 +8,8 @@ pub fn point_2_project_line_segment_2<T: NumberType>(
     let w = *point - segment.source();
     let c1 = w.dot(&v);
     let c2 = v.dot(&v);
-    let eps = T::default_eps();
+    // The tolerance is a distance along the segment, whatever its length.
+    let eps = T::default_eps() * v.length();
     if c1 < -eps || c1 > c2 + eps {
         return None;
     }
-- 
2.43.0

