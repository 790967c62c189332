From d7041ede179b435a4b237a988582e37102eb2f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:41 +0000
Subject: [PATCH 1/7] fix: segment equal to the only segment of multisegment is
 EQUAL to it

---
 orient/core/multisegment.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/orient/core/multisegment.py b/orient/core/multisegment.py
index 0081c42..d124b26 100644
--- a/orient/core/multisegment.py
+++ b/orient/core/multisegment.py
@@ -42,7 +42,9 @@ def relate_segment(multisegment: Multisegment, segment: Segment,
         sub_segment_endpoints = sub_segment.start, sub_segment.end
         relation = relate_segments(sub_segment, segment, context)
         if relation is Relation.COMPONENT or relation is Relation.EQUAL:
-            return Relation.COMPONENT
+            return (Relation.COMPONENT
+                    if len(multisegment.segments) > 1
+                    else relation)
         elif relation is Relation.COMPOSITE:
             if has_no_overlap:
                 has_no_overlap = False
-- 
2.43.0


From a81dc935cbc63ffae3fd6833f9f63c668dd3157e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:41 +0000
Subject: [PATCH 2/7] fix: contours which cross each other only at vertices do
 CROSS

---
 orient/core/processing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/orient/core/processing.py b/orient/core/processing.py
index a112357..f218329 100644
--- a/orient/core/processing.py
+++ b/orient/core/processing.py
@@ -102,8 +102,8 @@ def process_closed_linear_queue(events_queue: CompoundEventsQueue,
                   if has_no_touch
                   else Relation.TOUCH)
                  if (has_no_cross
-                     and (test_boundary_not_in_goal_interior
-                          is goal_boundary_not_in_test_interior))
+                     and test_boundary_not_in_goal_interior
+                     and goal_boundary_not_in_test_interior)
                  else Relation.CROSS)
                 if has_no_overlap
                 else Relation.OVERLAP)
-- 
2.43.0


From 55402edbf883140e7414c8102c258504710f8daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:41 +0000
Subject: [PATCH 3/7] fix: linear geometry with pieces inside and outside does
 CROSS even if it contains whole border

---
 orient/core/processing.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/orient/core/processing.py b/orient/core/processing.py
index f218329..bd44009 100644
--- a/orient/core/processing.py
+++ b/orient/core/processing.py
@@ -139,7 +139,9 @@ def process_linear_compound_queue(events_queue: CompoundEventsQueue,
                  if test_not_in_goal_interior
                  else Relation.ENCLOSED)
                 if test_is_subset_of_goal
-                else Relation.TOUCH)
+                else (Relation.TOUCH
+                      if test_not_in_goal_interior
+                      else Relation.CROSS))
     elif test_is_subset_of_goal:
         return (Relation.COMPONENT
                 if test_not_in_goal_interior
-- 
2.43.0


From b3eccc3b8f7d5a78a7e90b80886d9b553de3c437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:52 +0000
Subject: [PATCH 4/7] fix: crossing of multisegments at a point with three or
 more segments of one of them

---
 orient/core/events_queue.py | 42 +++++++++++++++++--------------------
 1 file changed, 19 insertions(+), 23 deletions(-)

diff --git a/orient/core/events_queue.py b/orient/core/events_queue.py
index 7c4ba58..8ecc883 100644
--- a/orient/core/events_queue.py
+++ b/orient/core/events_queue.py
@@ -1,5 +1,6 @@
 from abc import abstractmethod
 from functools import partial
+from itertools import combinations
 from typing import (Iterable,
                     List,
                     Optional,
@@ -233,21 +234,10 @@ class LinearEventsQueue(EventsQueue):
              if event.from_test
              else from_goal_events).append(event)
         start = same_start_events[0].start
-        point_event_cosine = self._to_signed_point_event_squared_cosine
-        base_event = min(from_goal_events,
-                         key=partial(point_event_cosine,
-                                     from_goal_events[0].end))
-        base_end = base_event.end
-        largest_angle_event = min(from_goal_events,
-                                  key=partial(point_event_cosine, base_end))
-        largest_angle_end = largest_angle_event.end
-        base_orientation = self.context.angle_orientation(
-                start, base_end, largest_angle_end
-        )
-        if not all_equal(self._point_in_angle(test_event.end, start, base_end,
-                                              largest_angle_end,
-                                              base_orientation)
-                         for test_event in from_test_events):
+        if any(self._angle_separates(start, first_event.end, second_event.end,
+                                     from_test_events)
+               for first_event, second_event in combinations(from_goal_events,
+                                                             2)):
             for event in same_start_events:
                 left_event = event if event.is_left else event.left
                 left_event.relation = max(left_event.relation,
@@ -300,6 +290,20 @@ class LinearEventsQueue(EventsQueue):
                 self._divide_segment(start_max, end_min.start)
                 self._divide_segment(start_min, start_max.start)
 
+    def _angle_separates(self,
+                         vertex: Point,
+                         first_ray_point: Point,
+                         second_ray_point: Point,
+                         events: Sequence[Event]) -> bool:
+        angle_orientation = self.context.angle_orientation(
+                vertex, first_ray_point, second_ray_point
+        )
+        return not all_equal(self._point_in_angle(event.end, vertex,
+                                                  first_ray_point,
+                                                  second_ray_point,
+                                                  angle_orientation)
+                             for event in events)
+
     def _point_in_angle(self,
                         point: Point,
                         vertex: Point,
@@ -321,14 +325,6 @@ class LinearEventsQueue(EventsQueue):
                                 # if angle is degenerate
                                 or Orientation.COUNTERCLOCKWISE))))
 
-    def _to_signed_point_event_squared_cosine(self,
-                                              point: Point,
-                                              event: Event) -> Scalar:
-        dot_product = self.context.dot_product(event.start, point, event.start,
-                                               event.end)
-        return ((2 * (dot_product > 0) - 1) * (dot_product * dot_product)
-                / self.context.points_squared_distance(event.start, event.end))
-
 
 class EventsQueueKey:
     __slots__ = 'orienteer', 'event'
-- 
2.43.0


From b68061b2fcb0839f045caac6df7ce2b9c581f113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:55 +0000
Subject: [PATCH 5/7] fix: relation of segment with region when it passes
 through vertices or has both endpoints on border

---
 orient/core/region.py | 227 +++++++++++++++---------------------------
 1 file changed, 78 insertions(+), 149 deletions(-)

diff --git a/orient/core/region.py b/orient/core/region.py
index c92ed39..5bf7696 100644
--- a/orient/core/region.py
+++ b/orient/core/region.py
@@ -15,7 +15,6 @@ from . import box
 from .contour import (
     equal as contours_equal,
     orientation as contour_orientation,
-    point_vertex_line_divides_angle,
     to_edges_endpoints as contour_to_edges_endpoints,
     to_oriented_edges_endpoints as contour_to_oriented_segments
 )
@@ -52,164 +51,94 @@ def _locate_point(region: Region,
     return None, (Location.INTERIOR if result else Location.EXTERIOR)
 
 
-def _relate_segment_to_contour(contour: Contour,
-                               segment: Segment,
-                               context: Context) -> Relation:
-    # similar to segment-in-contour check
-    # but cross has higher priority over overlap
-    # because cross with contour will be considered as cross with region
-    # whereas overlap with contour can't be an overlap with region
-    # and should be classified by further analysis
-    has_no_touch = has_no_overlap = True
-    last_touched_edge_index = last_touched_edge_start = None
+def relate_segment(region: Region,
+                   segment: Segment,
+                   context: Context) -> Relation:
+    # segment which does not cross edges is split by the border
+    # into pieces which lie wholly either inside, or outside, or on the border,
+    # so it is enough to look at segment near the points of border on it
+    has_no_touch = has_no_inside = has_no_outside = True
+    angle_orientation = context.angle_orientation
+    border_orientation = contour_orientation(region, context)
     start, end = segment.start, segment.end
-    for index, edge in enumerate(context.contour_segments(contour)):
-        edge_start, edge_end = edge_endpoints = edge.start, edge.end
+    vertices = region.vertices
+    for index, edge in enumerate(context.contour_segments(region)):
         relation_with_edge = relate_segments(edge, segment, context)
         if (relation_with_edge is Relation.COMPONENT
                 or relation_with_edge is Relation.EQUAL):
             return Relation.COMPONENT
-        elif (relation_with_edge is Relation.OVERLAP
-              or relation_with_edge is Relation.COMPOSITE):
-            if has_no_overlap:
-                has_no_overlap = False
-        elif relation_with_edge is Relation.TOUCH:
-            if has_no_touch:
-                has_no_touch = False
-            elif (index - last_touched_edge_index == 1
-                  and start not in edge_endpoints and end not in edge_endpoints
-                  and (context.angle_orientation(start, end, edge_start)
-                       is Orientation.COLLINEAR)
-                  and point_vertex_line_divides_angle(start,
-                                                      last_touched_edge_start,
-                                                      edge_start, edge_end,
-                                                      context)):
-                return Relation.CROSS
-            last_touched_edge_index = index
-            last_touched_edge_start = edge_start
         elif relation_with_edge is Relation.CROSS:
             return Relation.CROSS
-    vertices = contour.vertices
-    if not has_no_touch and last_touched_edge_index == len(vertices) - 1:
-        first_edge_endpoints = first_edge_start, first_edge_end = (
-            vertices[-1], vertices[0]
-        )
-        if (relate_segments(context.segment_cls(first_edge_start,
-                                                first_edge_end), segment,
-                            context) is Relation.TOUCH
-                and start not in first_edge_endpoints
-                and end not in first_edge_endpoints
-                and (context.angle_orientation(start, end, first_edge_start)
-                     is Orientation.COLLINEAR)
-                and point_vertex_line_divides_angle(start, vertices[-2],
-                                                    first_edge_start,
-                                                    first_edge_end, context)):
+        elif relation_with_edge is Relation.DISJOINT:
+            continue
+        has_no_touch = False
+        edge_start, edge_end = edge.start, edge.end
+        locations = []
+        if (locate_point_in_segment(segment, edge_end, context)
+                is Location.BOUNDARY):
+            next_end = vertices[(index + 1) % len(vertices)]
+            locations.extend(_locate_direction(edge_start, edge_end, next_end,
+                                               point, border_orientation,
+                                               context)
+                             for point in (start, end)
+                             if point != edge_end)
+        for point, other_point in ((start, end), (end, start)):
+            if (point != edge_start and point != edge_end
+                    and locate_point_in_segment(edge, point, context)
+                    is Location.BOUNDARY):
+                orientation = angle_orientation(edge_start, edge_end,
+                                                other_point)
+                locations.append(Location.BOUNDARY
+                                 if orientation is Orientation.COLLINEAR
+                                 else (Location.INTERIOR
+                                       if orientation is border_orientation
+                                       else Location.EXTERIOR))
+        for location in locations:
+            if location is Location.INTERIOR:
+                has_no_inside = False
+            elif location is Location.EXTERIOR:
+                has_no_outside = False
+        if not (has_no_inside or has_no_outside):
             return Relation.CROSS
-    return ((Relation.DISJOINT if has_no_touch else Relation.TOUCH)
-            if has_no_overlap
-            else Relation.OVERLAP)
+    if has_no_touch:
+        return (Relation.WITHIN
+                if locate_point(region, start, context) is Location.INTERIOR
+                else Relation.DISJOINT)
+    elif has_no_outside:
+        return Relation.COMPONENT if has_no_inside else Relation.ENCLOSED
+    else:
+        return Relation.TOUCH
 
 
-def relate_segment(region: Region,
-                   segment: Segment,
-                   context: Context) -> Relation:
-    relation_with_contour = _relate_segment_to_contour(region, segment,
-                                                       context)
-    if (relation_with_contour is Relation.CROSS
-            or relation_with_contour is Relation.COMPONENT):
-        return relation_with_contour
-    start, end = segment.start, segment.end
-    start_index, start_location = _locate_point(region, start, context)
-    if relation_with_contour is Relation.DISJOINT:
-        return (Relation.DISJOINT
-                if start_location is Location.EXTERIOR
-                else Relation.WITHIN)
-    elif start_location is Location.EXTERIOR:
-        return Relation.TOUCH
-    elif start_location is Location.INTERIOR:
-        return Relation.ENCLOSED
-    else:
-        end_index, end_location = _locate_point(region, end, context)
-        if end_location is Location.EXTERIOR:
-            return Relation.TOUCH
-        elif end_location is Location.INTERIOR:
-            return Relation.ENCLOSED
-        else:
-            angle_orientation = context.angle_orientation
-            border_orientation = contour_orientation(region, context)
-            positively_oriented = (border_orientation
-                                   is Orientation.COUNTERCLOCKWISE)
-            vertices = region.vertices
-            edge_start, edge_end = (vertices[start_index - 1],
-                                    vertices[start_index])
-            if start == edge_start:
-                prev_start = (vertices[start_index - 2]
-                              if positively_oriented
-                              else vertices[start_index])
-                if (angle_orientation(prev_start, edge_start, edge_end)
-                        is border_orientation):
-                    if (angle_orientation(edge_start, prev_start, end)
-                            is border_orientation
-                            or angle_orientation(edge_end, edge_start, end)
-                            is border_orientation):
-                        return Relation.TOUCH
-                elif (angle_orientation(edge_start, prev_start, end)
-                      is angle_orientation(edge_end, edge_start, end)
-                      is border_orientation):
-                    return Relation.TOUCH
-            elif start == edge_end:
-                next_end = (vertices[(start_index + 1) % len(vertices)]
-                            if positively_oriented
-                            else vertices[len(vertices) - start_index - 3])
-                if (angle_orientation(edge_start, edge_end, next_end)
-                        is border_orientation):
-                    if (angle_orientation(edge_end, edge_start, end)
-                            is border_orientation
-                            or angle_orientation(next_end, edge_end, end)
-                            is border_orientation):
-                        return Relation.TOUCH
-                    elif (angle_orientation(edge_end, edge_start, end)
-                          is angle_orientation(next_end, edge_end, end)
-                          is border_orientation):
-                        return Relation.TOUCH
-            elif (angle_orientation(edge_end, edge_start, end)
-                  is border_orientation):
-                return Relation.TOUCH
-            edge_start, edge_end = vertices[end_index - 1], vertices[end_index]
-            if end == edge_start:
-                prev_start = (vertices[end_index - 2]
-                              if positively_oriented
-                              else vertices[end_index])
-                if (angle_orientation(prev_start, edge_start, edge_end)
-                        is border_orientation):
-                    if (angle_orientation(edge_start, prev_start, start)
-                            is border_orientation
-                            or angle_orientation(edge_end, edge_start, start)
-                            is border_orientation):
-                        return Relation.TOUCH
-                elif (angle_orientation(edge_start, prev_start, start)
-                      is angle_orientation(edge_end, edge_start, start)
-                      is border_orientation):
-                    return Relation.TOUCH
-            elif end == edge_end:
-                next_end = (vertices[(end_index + 1) % len(vertices)]
-                            if positively_oriented
-                            else vertices[len(vertices) - end_index - 3])
-                if (angle_orientation(edge_start, edge_end, next_end)
-                        is border_orientation):
-                    if (angle_orientation(edge_end, edge_start, start)
-                            is border_orientation
-                            or angle_orientation(next_end, edge_end, start)
-                            is border_orientation):
-                        return Relation.TOUCH
-                elif (angle_orientation(edge_end, edge_start, start)
-                      is angle_orientation(next_end, edge_end, start)
-                      is border_orientation):
-                    return Relation.TOUCH
-            elif (angle_orientation(edge_end, edge_start, start)
-                  is border_orientation):
-                return Relation.TOUCH
-            return Relation.ENCLOSED
+def _locate_direction(first_ray_point: Point,
+                      vertex: Point,
+                      second_ray_point: Point,
+                      point: Point,
+                      border_orientation: Orientation,
+                      context: Context) -> Location:
+    """
+    Finds location in region of the points near given vertex of its border
+    in the direction of given point.
+    """
+    first_orientation = context.angle_orientation(first_ray_point, vertex,
+                                                  point)
+    second_orientation = context.angle_orientation(vertex, second_ray_point,
+                                                   point)
+    if (first_orientation is Orientation.COLLINEAR
+            and (vertex < point) is (vertex < first_ray_point)
+            or second_orientation is Orientation.COLLINEAR
+            and (vertex < point) is (vertex < second_ray_point)):
+        return Location.BOUNDARY
+    is_convex = (context.angle_orientation(first_ray_point, vertex,
+                                           second_ray_point)
+                 is border_orientation)
+    is_inside = (
+        first_orientation is second_orientation is border_orientation
+        if is_convex
+        else (first_orientation is border_orientation
+              or second_orientation is border_orientation)
+    )
+    return Location.INTERIOR if is_inside else Location.EXTERIOR
 
 
 def relate_multisegment(region: Region,
-- 
2.43.0


From b493f8a38336a0d04d53a5611fc414a100586ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:12 +0000
Subject: [PATCH 6/7] fix: relation of segment with polygon which hole touches
 its border

---
 orient/core/polygon.py | 22 ++--------------------
 1 file changed, 2 insertions(+), 20 deletions(-)

diff --git a/orient/core/polygon.py b/orient/core/polygon.py
index e20fa8d..8312d06 100644
--- a/orient/core/polygon.py
+++ b/orient/core/polygon.py
@@ -16,7 +16,6 @@ from .hints import (Multiregion,
 from .multiregion import (_relate_contour as relate_contour_to_multiregion,
                           _relate_region as relate_region_to_regions,
                           relate_multiregion as relate_multiregions,
-                          relate_segment as relate_segment_to_multiregion,
                           to_oriented_edges_endpoints
                           as multiregion_to_oriented_segments)
 from .multisegment import to_segments_endpoints
@@ -24,7 +23,6 @@ from .processing import process_linear_compound_queue
 from .region import (_relate_contour as relate_contour_to_region,
                      _relate_region as relate_regions,
                      locate_point as locate_point_in_region,
-                     relate_segment as relate_segment_to_region,
                      to_oriented_segments as region_to_oriented_segments)
 
 
@@ -46,24 +44,8 @@ def locate_point(polygon: Polygon,
 def relate_segment(polygon: Polygon,
                    segment: Segment,
                    context: Context) -> Relation:
-    relation_without_holes = relate_segment_to_region(polygon.border, segment,
-                                                      context)
-    if (polygon.holes and (relation_without_holes is Relation.WITHIN
-                           or relation_without_holes is Relation.ENCLOSED)):
-        relation_with_holes = relate_segment_to_multiregion(polygon.holes,
-                                                            segment, context)
-        if relation_with_holes is Relation.DISJOINT:
-            return relation_without_holes
-        elif relation_with_holes is Relation.TOUCH:
-            return Relation.ENCLOSED
-        elif relation_with_holes is Relation.ENCLOSED:
-            return Relation.TOUCH
-        elif relation_with_holes is Relation.WITHIN:
-            return Relation.DISJOINT
-        else:
-            return relation_with_holes
-    else:
-        return relation_without_holes
+    return relate_multisegment(polygon, context.multisegment_cls([segment]),
+                               context)
 
 
 def relate_multisegment(polygon: Polygon,
-- 
2.43.0


From f21ab71782dd51f52bb1bda09963d564e7f811a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:07 +0000
Subject: [PATCH 7/7] fix: relation of polygons when a hole lies in a hole and
 another hole touches from outside

---
 orient/core/polygon.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/orient/core/polygon.py b/orient/core/polygon.py
index 8312d06..3da9e2c 100644
--- a/orient/core/polygon.py
+++ b/orient/core/polygon.py
@@ -278,7 +278,9 @@ def relate_polygon(goal: Polygon,
                       or holes_relation is Relation.ENCLOSED):
                     return Relation.ENCLOSED
                 elif holes_relation is Relation.WITHIN:
-                    return borders_relation
+                    return (borders_relation
+                            if none_touch
+                            else Relation.ENCLOSED)
                 else:
                     return Relation.OVERLAP
             else:
@@ -330,7 +332,9 @@ def relate_polygon(goal: Polygon,
                   or holes_relation is Relation.ENCLOSED):
                 return Relation.ENCLOSES
             elif holes_relation is Relation.WITHIN:
-                return borders_relation
+                return (borders_relation
+                        if none_touch
+                        else Relation.ENCLOSES)
             else:
                 return Relation.OVERLAP
         else:
-- 
2.43.0

