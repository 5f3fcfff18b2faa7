From 439ffac1682449de93b9e46bd90a42bcb3f66a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:58 +0000
Subject: [PATCH 01/42] fix: opposite_direction missed reversed directions
 because of inexact angles

---
 geometry/SR_line.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/geometry/SR_line.py b/geometry/SR_line.py
index 60ff6ea..d1595e8 100644
--- a/geometry/SR_line.py
+++ b/geometry/SR_line.py
@@ -229,10 +229,8 @@ class LineSegment(object):
         """
         assert other.isvalid
 
-        if (self.direction + 180) % 360 == other.direction:
-            return True
-        else:
-            return False
+        # evaluated using the products and not the angles: these are not exact
+        return self.is_parallel(other) and self.dotproduct(other) < 0
 
     def is_parallel(self, other):
         """
-- 
2.43.0


From 775f9fed58cc0e46ad7990a921cb4ab12e36515d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:58 +0000
Subject: [PATCH 02/42] fix: angle_between_lines raised a math domain error for
 some parallel segments

---
 geometry/SR_line.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/geometry/SR_line.py b/geometry/SR_line.py
index d1595e8..1ea1124 100644
--- a/geometry/SR_line.py
+++ b/geometry/SR_line.py
@@ -515,7 +515,9 @@ class LineSegment(object):
         assert other.isvalid
 
         # return atan2(norm(self.cross_product(other)), self.dot_product(other))
-        _ret = degrees(acos(self.dotproduct(other) / (self.norm * other.norm)))
+        # the cosine may get slightly out of [-1, 1] due to numerical errors
+        _cos = self.dotproduct(other) / (self.norm * other.norm)
+        _ret = degrees(acos(max(-1., min(1., _cos))))
         return _ret
 
     def angle_from_start_point(self, p=EMPTY):
-- 
2.43.0


From 8b14275d79edb6b575127e4a470d8ee8d0491d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:52 +0000
Subject: [PATCH 03/42] fix: parallelism of segments with decimal coordinates
 was decided by exact float comparison

---
 geometry/SR_line.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geometry/SR_line.py b/geometry/SR_line.py
index 1ea1124..26bdc03 100644
--- a/geometry/SR_line.py
+++ b/geometry/SR_line.py
@@ -239,7 +239,7 @@ class LineSegment(object):
         """
         assert other.isvalid
 
-        if self.crossproduct(other) == 0:
+        if abs(self.crossproduct(other)) < EPS:
             return True
         else:
             return False
@@ -339,7 +339,7 @@ class LineSegment(object):
             # two linesegments are created. since these are collinear, if their direction is the same: there is overlap
             l1 = LineSegment(cp, otherpoints[0])
             l2 = LineSegment(cp, otherpoints[1])
-            if l1.direction == l2.direction:  # the two segments are in the same direction and cp is common point
+            if l1.dotproduct(l2) > 0:  # the two segments are in the same direction and cp is common point
                 # print('overlapping segment')
                 return True, sorted([l1, l2], key=lambda x: x.norm)[0]
             else:
-- 
2.43.0


From ef4b4cb878d6c68234dc2c18b6f0c0773308113a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:26 +0000
Subject: [PATCH 04/42] fix: is_internal_point failed for polygons not reaching
 into the first quadrant

---
 geometry/SR_polygon.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geometry/SR_polygon.py b/geometry/SR_polygon.py
index 7bc403f..acbfc75 100644
--- a/geometry/SR_polygon.py
+++ b/geometry/SR_polygon.py
@@ -494,12 +494,13 @@ class PolygonLine(object):
 
         _bb = self.bounding_box()
         _x, _y = _bb[0][1], _bb[1][1]
+        _size = max(_bb[0][1] - _bb[0][0], _bb[1][1] - _bb[1][0])
         _finished = False
         _inters = []
         while not _finished:
             for i in range(ctrlpkt):
                 # # old solution - a Point somewhere to the north east is taken
-                P = Point((random.uniform(_x, 500 * _x), random.uniform(_y, 30 * _y)))
+                P = Point((_x + random.uniform(1, 500) * _size, _y + random.uniform(1, 30) * _size))
                 ls = LineSegment(p, P)  # from p draw line in random direction
 
                 # # new solution: a Line towards the center of gravity and then to infinity
-- 
2.43.0


From 0edf7849683ab4b80ed2df3b89e122de302dbc24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:54 +0000
Subject: [PATCH 05/42] fix: points on the boundary were reported internal,
 is_on_boundary was always False

---
 geometry/SR_polygon.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/geometry/SR_polygon.py b/geometry/SR_polygon.py
index acbfc75..6833cf1 100644
--- a/geometry/SR_polygon.py
+++ b/geometry/SR_polygon.py
@@ -488,8 +488,8 @@ class PolygonLine(object):
 
         ctrlpkt = 3
 
-        # if the point is one of the Points of the polygon - False.
-        if p in self.point_set:
+        # if the point is on the polygon itself - False.
+        if self.is_on_boundary(p=p):
             return False
 
         _bb = self.bounding_box()
@@ -536,8 +536,6 @@ class PolygonLine(object):
 
     def is_on_boundary(self, p=EMPTY):
         """ Tells if the point is on the Polygonline """
-        if self.is_internal_point(p=p) or self.is_external_point(p=p):
-            return False
         if p in self.point_set:
             return True
         if any([x.is_internal_point(p=p) and x.is_point_on_line(p=p) for x in self.segments]):
-- 
2.43.0


From 9c6a5bffbf4069cc486e4502133685f232c1bef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:54 +0000
Subject: [PATCH 06/42] fix: isconvex missed convex polygons with collinear
 decimal points

---
 geometry/SR_polygon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometry/SR_polygon.py b/geometry/SR_polygon.py
index 6833cf1..8ceec4a 100644
--- a/geometry/SR_polygon.py
+++ b/geometry/SR_polygon.py
@@ -450,7 +450,7 @@ class PolygonLine(object):
         assert self.isvalid
 
         # criterium is: sign of cross product of consequtive segments is the same
-        if all([x >= 0 for x in self.cps]) or all([x <= 0 for x in self.cps]):  # Zero: 180 degree
+        if all([x > -EPS for x in self.cps]) or all([x < EPS for x in self.cps]):  # Zero: 180 degree
             return True
         else:
             return False
-- 
2.43.0


From 4049209821b462c02b92ffcbb84b614781c50ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:18 +0000
Subject: [PATCH 07/42] fix: iscw of concave polygons was decided by counting
 turns

---
 geometry/SR_polygon.py | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/geometry/SR_polygon.py b/geometry/SR_polygon.py
index 8ceec4a..cb71ce1 100644
--- a/geometry/SR_polygon.py
+++ b/geometry/SR_polygon.py
@@ -465,16 +465,9 @@ class PolygonLine(object):
                 return True
 
         else:  # positive and negative values mixed
-            _ps = len([x for x in self.cps if x >= 0])
-            _ns = len([x for x in self.cps if x <= 0])
-            if _ps > _ns:
-                return False
-            elif _ps < _ns:
-                return True
-            else:
-                print(_ps)
-                print(_ns)
-                raise Exception("This shouldn't happen")
+            # the number of left and right turns doesn't decide it, the sign of the enclosed area does
+            _x0, _y0 = self.first_point.xy
+            return sum((s.i.x - _x0) * (s.j.y - _y0) - (s.i.y - _y0) * (s.j.x - _x0) for s in self.segments) < 0
 
     @property
     def isccw(self):
-- 
2.43.0


From a696377573102e2d1a94bf4dde2eb6650f81ae1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:30 +0000
Subject: [PATCH 08/42] fix: PolygonLine hash was that of a throwaway
 generator, equal polygons hashed differently

---
 geometry/SR_polygon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometry/SR_polygon.py b/geometry/SR_polygon.py
index cb71ce1..2ef6832 100644
--- a/geometry/SR_polygon.py
+++ b/geometry/SR_polygon.py
@@ -92,7 +92,7 @@ class PolygonLine(object):
         return not self.__eq__(other)
 
     def __hash__(self):
-        return hash((s.ij for s in self._segments))
+        return hash(tuple(s.ij for s in self._segments))
 
     @property
     def triangles(self):
-- 
2.43.0


From 93dd5ae4efe02ebf168e688621a2768df675d223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:30 +0000
Subject: [PATCH 09/42] fix: validity of points and segments was cached across
 changes of coordinates

---
 geometry/SR_line.py  | 3 +--
 geometry/SR_point.py | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/geometry/SR_line.py b/geometry/SR_line.py
index 26bdc03..b53e194 100644
--- a/geometry/SR_line.py
+++ b/geometry/SR_line.py
@@ -11,7 +11,6 @@ The endpoints are part of the SegmentLine.
 from math import degrees, sqrt, atan2, acos
 from geometry.SR_point import Point, EMPTY, distance, EPS
 from geometry import _plotting_available, plt
-from cached_property import cached_property
 import itertools
 import copy
 
@@ -67,7 +66,7 @@ class LineSegment(object):
         assert all(p.isvalid for p in endpoints)
         self._endpoints = endpoints
 
-    @cached_property
+    @property
     def isvalid(self):
         """ validity check for LineSegments """
         if not (isinstance(self.i, Point) or isinstance(self.j, Point)):
diff --git a/geometry/SR_point.py b/geometry/SR_point.py
index de9b02d..009bc8a 100644
--- a/geometry/SR_point.py
+++ b/geometry/SR_point.py
@@ -1,7 +1,6 @@
 # -*- coding: utf-8 -*-
 
 import math
-from cached_property import cached_property
 from geometry import _plotting_available, plt
 
 EMPTY = (None, None)
@@ -107,7 +106,7 @@ class Point(object):
     def distance(self, other):
         return distance(self, other)
 
-    @cached_property
+    @property
     def isvalid(self):
         """ checks for validity """
         if self._coords == EMPTY:
-- 
2.43.0


From 182bd0cbfd55d4f7ade79a9e5c6d45f8b1486493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:47 +0000
Subject: [PATCH 10/42] fix: area of a polygon was kept after its segments
 changed

---
 geometry/SR_polygon.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/geometry/SR_polygon.py b/geometry/SR_polygon.py
index 2ef6832..97b806e 100644
--- a/geometry/SR_polygon.py
+++ b/geometry/SR_polygon.py
@@ -9,7 +9,6 @@ from geometry import _plotting_available, plt, PURGE
 import random
 import pprint as pp
 import collections
-from cached_property import cached_property
 
 
 TRIANGULATION_ALGORITHM = 'triangle'  # currently only triangle works
@@ -31,6 +30,7 @@ class PolygonLine(object):
         self._external_point = []
         self.purged = False
         self._triangles = set()
+        self._area = None, None  # the points the area belongs to, area
         # self.delaunay = Delaunay2d(self)
 
     def __nonzero__(self):
@@ -589,11 +589,18 @@ class PolygonLine(object):
         else:
             return False
 
-    @cached_property
+    @property
     def area(self):
         """
         checks for the results of three different ways to calculate the area and yields one
+        The result is kept until the segments change.
         """
+        _akt = [(s.i.xy, s.j.xy) for s in self.segments]
+        if self._area[0] != _akt:
+            self._area = _akt, self._calculate_area()
+        return self._area[1]
+
+    def _calculate_area(self):
         if len(set(self.detailled_area.values())) == 1:
             return self.detailled_area[TRIANGULATION_ALGORITHM]
 
-- 
2.43.0


From 1a2676db9ee7ab5b49d78606dff80650305091d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:34 +0000
Subject: [PATCH 11/42] fix: transformations tore a polyline apart after
 appending a coincident point to a purged one

---
 geometry/SR_polygon.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/geometry/SR_polygon.py b/geometry/SR_polygon.py
index 97b806e..0e576a5 100644
--- a/geometry/SR_polygon.py
+++ b/geometry/SR_polygon.py
@@ -257,22 +257,29 @@ class PolygonLine(object):
     def append_point_at_end(self, p=EMPTY):
         """
         Adds a point to the end, that is, a new segment with the starting point previous endpoint
-        This operation maintains the state of being purged or not, thus self.purged remains unchanged
+        This operation maintains the state of being purged or not, see _check_purged
         """
         assert p.isvalid  # a Point object
 
+        self._check_purged(p)
         self._segments.append(LineSegment(self.last_point, p))
 
     def append_point_at_beginning(self, p=EMPTY):
         """
         Adds a point to the beginning, that is, a new segment with the starting point provided here and 
         endpoint the former startpoint
-        This operation maintains the state of being purged or not, thus self.purged remains unchanged
+        This operation maintains the state of being purged or not, see _check_purged
         """
         assert p.isvalid  # a Point object
 
+        self._check_purged(p)
         self._segments.insert(0, LineSegment(p, self.first_point))
 
+    def _check_purged(self, p):
+        """ a new Point coincident with, but not the same object as an existing one makes purging necessary again """
+        if any(p == x and p is not x for x in self.point_set):
+            self.purged = False
+
     def add_internal_point(self, p=EMPTY, segment=None):
         """ add a point that is for sure on the inside of the polygon """
         self._internal_point.append(IntexPoint(args=p.xy, segment=segment))
-- 
2.43.0


From 8b82cd258dbe55e446c7568a636ff61c1d1bc565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:34 +0000
Subject: [PATCH 12/42] fix: add() changed its first operand and did not
 connect distant polylines

---
 geometry/SR_polygon.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/geometry/SR_polygon.py b/geometry/SR_polygon.py
index 0e576a5..baff183 100644
--- a/geometry/SR_polygon.py
+++ b/geometry/SR_polygon.py
@@ -1833,8 +1833,10 @@ def add(self, *other):
     assert self.isvalid and all([x.isvalid for x in other])
     assert not (self.isclosed and all([x.isclosed for x in other]))
 
-    _sum = self.segments
+    _sum = list(self.segments)
     for s in other:
+        if _sum[-1].j != s.first_point:
+            _sum.append(LineSegment(_sum[-1].j, s.first_point))
         _sum += s.segments
 
     _ret = PolygonLine(_sum)
-- 
2.43.0


From 46772ec4ae560dc6794ab84d9f098ca6ce96004e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:25 +0000
Subject: [PATCH 13/42] fix: rooms went missing as walk_segments overlooked
 branches depending on segment directions

---
 geometry/SR_polygon.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geometry/SR_polygon.py b/geometry/SR_polygon.py
index baff183..e701baa 100644
--- a/geometry/SR_polygon.py
+++ b/geometry/SR_polygon.py
@@ -1867,7 +1867,8 @@ def walk_segments(segments=(), startingpoint=None):
             _nextsegment = [x for x in _not_visited if _aktpt in x.ij and x != _aktsegment]  # non-ordered solution
             if not _nextsegment:
                 return False
-        if len(_nextsegment) > 1:
+        # more than two segments meet in the point, whatever their direction is and if already visited or not
+        if len([x for x in segments if _aktpt in x.ij]) > 2:
             _has_branch = True
         _nextsegment = _nextsegment[0]
 
-- 
2.43.0


From 693d9e1e04dc452e05a5b44fb99faaa52b14b0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:41 +0000
Subject: [PATCH 14/42] fix: wandung of a room missed parts with reversed
 segments and included parts only touching it

---
 geometry/SR_polygon_group.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/geometry/SR_polygon_group.py b/geometry/SR_polygon_group.py
index 915f40d..acbeafa 100644
--- a/geometry/SR_polygon_group.py
+++ b/geometry/SR_polygon_group.py
@@ -533,11 +533,10 @@ class BehalterGraph(PolygonGroup):
             # p.plot(show=True)
 
             # finding the polygons that make up a segment
-            # loose_subset: during finding the cycles some PolyGonlines are generated, these have the same segments as
-            # the originals but may be slightly different (order, direction etc.)
+            # during finding the cycles some PolyGonlines are generated, these have the same segments as
+            # the originals but may be slightly different (order, direction etc.) thus loose_equal
             # any(): partial overlap, e.g. when one of the original polygons is split by a raumende
-            _ret[k] = [x for x in self.polygons if v.loose_subset(other=x)
-                       or any([y in x.segments for y in v.segments])]
+            _ret[k] = [x for x in self.polygons if any(y.loose_equal(z) for y in v.segments for z in x.segments)]
 
         return _ret
 
-- 
2.43.0


From 54dfbbb688304b46972c36380116999cec78b821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:13 +0000
Subject: [PATCH 15/42] fix: dangling segments of cut parts were only partially
 removed before assigning rooms

---
 geometry/SR_polygon.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/geometry/SR_polygon.py b/geometry/SR_polygon.py
index e701baa..1bf8c11 100644
--- a/geometry/SR_polygon.py
+++ b/geometry/SR_polygon.py
@@ -1686,10 +1686,10 @@ def simplify(polygon):
 
 
 def remove_outlier_segments(segs):
-    """ removes from segs the segments that have Endpoints with one degree """
-    _ch = PolygonLine(segs)
-    _sp = [x for x in _ch.all_points if _ch.all_points.count(x) == 1]
-    return [x for x in segs if not any([y in _sp for y in x.ij])]
+    """ removes from segs the segments that have Endpoints with one degree, until there are none of these """
+    _ap = list(itertools.chain(*[s.ij for s in segs]))
+    _ret = [x for x in segs if not any([_ap.count(y) == 1 for y in x.ij])]
+    return _ret if len(_ret) == len(segs) else remove_outlier_segments(_ret)
 
 
 def polygon_from_nodes(nodes, cw=False):
-- 
2.43.0


From 1e2030cd617a6d91e920c3f2c5b6617f1a8c61d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:15 +0000
Subject: [PATCH 16/42] fix: rooms with the same area as the union of other
 rooms were lost

---
 geometry/SR_polygon_group.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/geometry/SR_polygon_group.py b/geometry/SR_polygon_group.py
index acbeafa..7ff1a9c 100644
--- a/geometry/SR_polygon_group.py
+++ b/geometry/SR_polygon_group.py
@@ -649,8 +649,12 @@ class BehalterGraph(PolygonGroup):
                 combs = itertools.combinations(polygons, comblen)
                 for comb in combs:
                     _all_tris = list(itertools.chain.from_iterable([x.triangles for x in comb]))
-                    for p in polygons:
-                        if abs(p.area - sum([tri.area for tri in _all_tris])) < EPS:
+                    # the same area is not enough: the segments found once in comb must be those of the polygon
+                    _c = Counter(frozenset(s.ij) for x in comb for s in x.segments)
+                    _outer = {k for k, v in _c.items() if v % 2 == 1}
+                    for p in list(polygons):
+                        if abs(p.area - sum([tri.area for tri in _all_tris])) < EPS and \
+                                _outer == {frozenset(s.ij) for s in p.segments}:
                             _removed_polygons.add(p)
                             polygons.remove(p)
 
-- 
2.43.0


From 7754bca64221ae4073de4a30621cfddb56481c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:25 +0000
Subject: [PATCH 17/42] fix: overlap of triangles was missed if their points
 are on the sides of the other one

---
 geometry/SR_polygon.py | 31 ++++++++++---------------------
 1 file changed, 10 insertions(+), 21 deletions(-)

diff --git a/geometry/SR_polygon.py b/geometry/SR_polygon.py
index 1bf8c11..a7aa25d 100644
--- a/geometry/SR_polygon.py
+++ b/geometry/SR_polygon.py
@@ -1091,28 +1091,17 @@ class Triangle(PolygonLine):
         """ partial or total overlap, works vica versa """
         assert isinstance(self, Triangle) and isinstance(other, Triangle)
 
-        # some points of self are inside the other or vica versa
-        if any(self.is_internal_point(x) for x in other.point_set) or \
-                any(other.is_internal_point(x) for x in self.point_set):
-            return True
-
-        # there are intersecting lines but the intersection_point is not on an endpoint
-        _common_parts = set()
-        pairs = set()
-        for ss in self.segments:
-            for os in other.segments:
-                if (ss, os) not in pairs and (os, ss) not in pairs:
-                    pairs.add((ss, os))
-
-        for pair in pairs:
-            cp = pair[0].common_part(pair[1])
-            cp_type = pair[0].common_part_type(pair[1])
-            if cp_type == 'Point' and cp is not None and cp not in self.point_set + other.point_set:
-                _common_parts.add(cp)
-        if _common_parts:
-            return True
+        # triangles are convex: they overlap, unless one of the sides separates them. points nearer to the side than the
+        # tolerance used for the equality of points are considered to be on the side.
+        for a, b in ((self, other), (other, self)):
+            _ccw = a.segments[0].crossproduct(a.segments[1]) > 0
+            for s in a.segments:
+                _outside = [s.is_point_to_right(x) if _ccw else s.is_point_to_left(x) for x in b.point_set]
+                _on_side = [s.line_point_distance(x) < EPS * 1e3 for x in b.point_set]
+                if all(x or y for x, y in zip(_outside, _on_side)):
+                    return False
 
-        return False
+        return True
 
     def touch(self, other):
         """ whatever is found in common_part, the points are all on the boundary """
-- 
2.43.0


From f95405b7a80c83a9ddefc2b62ea61bd853a70f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:25 +0000
Subject: [PATCH 18/42] fix: convex_hull kept collinear points with decimal
 coordinates

---
 geometry/SR_polygon.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geometry/SR_polygon.py b/geometry/SR_polygon.py
index a7aa25d..927ad3b 100644
--- a/geometry/SR_polygon.py
+++ b/geometry/SR_polygon.py
@@ -1789,14 +1789,14 @@ def convex_hull(point_set):
     # Build lower hull
     lower = []
     for p in point_set:
-        while len(lower) >= 2 and cross(lower[-2], lower[-1], p) <= 0:
+        while len(lower) >= 2 and cross(lower[-2], lower[-1], p) < EPS:
             lower.pop()
         lower.append(p)
 
     # Build upper hull
     upper = []
     for p in reversed(point_set):
-        while len(upper) >= 2 and cross(upper[-2], upper[-1], p) <= 0:
+        while len(upper) >= 2 and cross(upper[-2], upper[-1], p) < EPS:
             upper.pop()
         upper.append(p)
 
-- 
2.43.0


From fee3d507e58bc44920a2ca3e44f5970bb08ea6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:21 +0000
Subject: [PATCH 19/42] fix: points on the line were reported to the right of
 segments with decimal coordinates

---
 geometry/SR_line.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/geometry/SR_line.py b/geometry/SR_line.py
index b53e194..b1b0e25 100644
--- a/geometry/SR_line.py
+++ b/geometry/SR_line.py
@@ -199,6 +199,10 @@ class LineSegment(object):
         """
         assert p.isvalid
 
+        # on the line, even if numerical errors put it a bit to the right
+        if self.is_point_on_line(p=p):
+            return False
+
         # _val = self.crossproduct_commonstart(other=LineSegment(self.i, p))
         _val = self.crossproduct(other=LineSegment(self.i, p))
         if _val < 0:
-- 
2.43.0


From bcc07735ef53a763cb20c3e1cb360828c9c86142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:35 +0000
Subject: [PATCH 20/42] fix: loose_equal raised TypeError if the direction of
 the segments matters

---
 geometry/SR_polygon.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/geometry/SR_polygon.py b/geometry/SR_polygon.py
index 927ad3b..279f6a8 100644
--- a/geometry/SR_polygon.py
+++ b/geometry/SR_polygon.py
@@ -71,10 +71,8 @@ class PolygonLine(object):
         if len(self.segments) != len(other.segments):
             return False
 
-        segment_loose_equality = False  # segment loose equality
         if direction_matters:  # direction matters
-            if set(self.segments) == set(other.segments):
-                segment_loose_equality = True
+            segment_loose_equality = [set(self.segments) == set(other.segments)]
 
         else:  # whatever the direction
             # we must find for ALL segments in self a segment in other that is loosely equal
-- 
2.43.0


From c5aafc69f57de3a19bd3a1daba3fa23c0ecca722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:04 +0000
Subject: [PATCH 21/42] fix: walk_segments overlooked a branch in the point
 where the loop gets closed

---
 geometry/SR_polygon.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/geometry/SR_polygon.py b/geometry/SR_polygon.py
index 279f6a8..17baa4f 100644
--- a/geometry/SR_polygon.py
+++ b/geometry/SR_polygon.py
@@ -1869,7 +1869,9 @@ def walk_segments(segments=(), startingpoint=None):
         segs.add(_nextsegment)
         _poly = PolygonLine(segs)
         if _poly.order() and _poly.isclosed and not _has_branch:
-            return _poly
+            # the point where the loop gets closed was not visited yet, there may be a branch, too
+            if all(len([x for x in segments if p in x.ij]) == 2 for p in _poly.point_set):
+                return _poly
 
     return False
 
-- 
2.43.0


From 705769477f087258143da5d09d47b2793886bce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:28 +0000
Subject: [PATCH 22/42] fix: a line tangent to a sphere raised NameError

---
 geometry/additional_stuff.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/geometry/additional_stuff.py b/geometry/additional_stuff.py
index 95ec420..f781a14 100644
--- a/geometry/additional_stuff.py
+++ b/geometry/additional_stuff.py
@@ -34,8 +34,6 @@ def sphere_line_intersection(l1, l2, sp, r):
         pass  # no intersections
     elif i == 0.0:
         # one intersection
-        p[0] = 1.0
-
         mu = -b / (2.0 * a)
         p1 = (l1[0] + mu * (l2[0] - l1[0]),
               l1[1] + mu * (l2[1] - l1[1]),
-- 
2.43.0


From 3dc8336490e6a02503e9c2f8a6eda4f7657ececa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:30 +0000
Subject: [PATCH 23/42] fix: find_loops raised IndexError when all walls were
 used up by the first loop

---
 geometry/SR_polygon.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/geometry/SR_polygon.py b/geometry/SR_polygon.py
index 17baa4f..7fcd523 100644
--- a/geometry/SR_polygon.py
+++ b/geometry/SR_polygon.py
@@ -1840,6 +1840,9 @@ def walk_segments(segments=(), startingpoint=None):
     The polygon doesn't have to be ordered, but needs to be closed to walk it.
     """
 
+    if not segments:  # nothing left to walk
+        return False
+
     if startingpoint is None:
         startingpoint = segments[0].i
 
-- 
2.43.0


From d22b8c8f917e45153e5690d46cd74f2269eb7c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:40 +0000
Subject: [PATCH 24/42] fix: rooms of vessels in millimetres were not
 recognised as unions because of an absolute area tolerance

---
 geometry/SR_polygon_group.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometry/SR_polygon_group.py b/geometry/SR_polygon_group.py
index 7ff1a9c..bf2673b 100644
--- a/geometry/SR_polygon_group.py
+++ b/geometry/SR_polygon_group.py
@@ -653,7 +653,7 @@ class BehalterGraph(PolygonGroup):
                     _c = Counter(frozenset(s.ij) for x in comb for s in x.segments)
                     _outer = {k for k, v in _c.items() if v % 2 == 1}
                     for p in list(polygons):
-                        if abs(p.area - sum([tri.area for tri in _all_tris])) < EPS and \
+                        if abs(p.area - sum([tri.area for tri in _all_tris])) < EPS * max(1., p.area) and \
                                 _outer == {frozenset(s.ij) for s in p.segments}:
                             _removed_polygons.add(p)
                             polygons.remove(p)
-- 
2.43.0


From b6f2dd94f185a5ac992575cd4020db39438e351e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:25 +0000
Subject: [PATCH 25/42] fix: vessels beside a neck were taken for contained
 because the convex hull of the room was used

---
 geometry/SR_polygon_group.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/geometry/SR_polygon_group.py b/geometry/SR_polygon_group.py
index bf2673b..723f8e8 100644
--- a/geometry/SR_polygon_group.py
+++ b/geometry/SR_polygon_group.py
@@ -414,18 +414,12 @@ class BehalterGraph(PolygonGroup):
 
             _ret[e] = []
             for z in [x for x in _cycles.keys() if x != e]:  # keys, except for "e"
-                # _ch = itertools.chain.from_iterable([x.ij for x in _cycles[e]])
-                _ch = sum([x.point_set for x in _cycles[e]], [])  # all points in cycle "e"
-                _convhull = convex_hull([w.xy for w in _ch])  # as tuples for the convex hull
-                # check if the points of z inside the convex hull of e are
-                # _ch = itertools.chain.from_iterable([x.ij for x in _cycles[z]])
-                _ch = sum([x.point_set for x in _cycles[z]], [])  # all points in cycle "z"
-                # internal points for the convex hull
-                _internals = [p for p in _ch if _convhull.is_internal_point(p)]
+                _ch = self.cycles[z].point_set  # all points in cycle "z"
+                # the points of z that are inside the polygon of e. The polygon is not necessarily convex.
+                _internals = [p for p in _ch if self.cycles[e].is_internal_point(p)]
 
                 if set(_internals) == set(_ch):  # totally contained
                     _ret[e].append(z)
-                    # _convhull.plot(also_plot=_ch, show=True)  # plots the hull and the internal points
                 elif not _internals:  # empty
                     pass
                 # else:  # partial overlap
-- 
2.43.0


From ef1134b5133b84f313089c21e523ff50b2624a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:46 +0000
Subject: [PATCH 26/42] fix: inner walls of a room contained walls of the room
 itself, and lacked walls shared by two contained rooms

---
 SR_Vessel/SR_hauptteile.py | 43 +++++++++++++++-----------------------
 1 file changed, 17 insertions(+), 26 deletions(-)

diff --git a/SR_Vessel/SR_hauptteile.py b/SR_Vessel/SR_hauptteile.py
index af68e05..0174a66 100644
--- a/SR_Vessel/SR_hauptteile.py
+++ b/SR_Vessel/SR_hauptteile.py
@@ -282,37 +282,28 @@ class Behalter(PolygonGroup):
 
                     # print('there are internal walls')
 
-                    _cycles_to_check = self.contained_cycles[c]
-                    # first, check the cycles that are overlapping (if any)
+                    # the cycles directly in the room: the ones contained in another one can't be seen from here
+                    _contained = self.contained_cycles
+                    _cycles_to_check = [x for x in _contained[c] if not any(x in _contained[y] for y in _contained[c])]
+
                     _iw = []  # innere Wandung
-                    _visited = []
-                    for k, v in self.overlaps_in_cycles.items():  # k: tuple of cycles that have common segment, eg. (0, 1)
-                        # first run
-                        if not _visited:
-                            _iw.append([])
-                            for s in k:
-                                _iw[-1] += [x for x in sic[s] if x not in self.all_overlapping_segments]
-
-                        # later runs
-                        for vindex, _v in enumerate(_visited):
-                            if any([x in _v for x in k]):  # we saw this earlier!
-                                for s in k:
-                                    _iw[vindex] += [x for x in sic[s] if x not in self.all_overlapping_segments]
-                            else:
-                                _iw.append([])
-                                for s in k:
-                                    _iw[-1] += [x for x in sic[s] if x not in self.all_overlapping_segments]
-
-                        _visited.append(k)
-                        _cycles_to_check = [x for x in _cycles_to_check if x not in k]
+                    while _cycles_to_check:
+                        # cycles that have common segments (directly or through others) belong together
+                        _group = [_cycles_to_check.pop(0)]
+                        for g in _group:
+                            _group += [x for x in _cycles_to_check if tuple(sorted([g, x])) in self.overlaps_in_cycles]
+                            _cycles_to_check = [x for x in _cycles_to_check if x not in _group]
+
+                        # the walls of these that can be seen from outside: with segments found in one of the cycles only
+                        _count = collections.Counter(frozenset(s.ij) for g in _group for s in self.graph.cycles[g].segments)
+                        _iw.append([])
+                        for x in itertools.chain.from_iterable(sic[g] for g in _group):
+                            if x not in _iw[-1] and any(_count[frozenset(s.ij)] == 1 for s in x.segments):
+                                _iw[-1].append(x)
 
                     _r.cycle.append(_iw)
                     _r._innere_wandung += _iw
 
-                    # the cycles, that are not overlapping
-                    for x in _cycles_to_check:
-                        _r._innere_wandung.append(sic[x])
-
                 else:
                     _r._innere_wandung = []
 
-- 
2.43.0


From 1d2a54c2f7e57d279131be95e50a0a23c04405cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:46 +0000
Subject: [PATCH 27/42] fix: StandZarge.from_dict made a Mantel

---
 SR_Vessel/SR_hauptteile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SR_Vessel/SR_hauptteile.py b/SR_Vessel/SR_hauptteile.py
index 0174a66..fd5704d 100644
--- a/SR_Vessel/SR_hauptteile.py
+++ b/SR_Vessel/SR_hauptteile.py
@@ -619,7 +619,7 @@ class Mantel(Hauptteil):
     @classmethod
     def from_dict(cls, adict):
         try:
-            mantel = Mantel(
+            mantel = cls(  # StandZarge, too
                 name=adict['name'],
                 pos_v=adict['pos_v'],
                 pos_h=adict['pos_h'],
-- 
2.43.0


From c3840d3a50c5e6f25eac7396700c14a867792ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:21 +0000
Subject: [PATCH 28/42] fix: Mantel.isvalid compared coordinates exactly and
 was False for some cones off the axis

---
 SR_Vessel/SR_hauptteile.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/SR_Vessel/SR_hauptteile.py b/SR_Vessel/SR_hauptteile.py
index fd5704d..cb60646 100644
--- a/SR_Vessel/SR_hauptteile.py
+++ b/SR_Vessel/SR_hauptteile.py
@@ -1,6 +1,6 @@
 # -*- coding: utf-8 -*-
 
-from geometry.SR_point import Point
+from geometry.SR_point import Point, EPS
 from geometry.SR_line import LineSegment, point_on_line_at_ratio
 from geometry.SR_polygon import PolygonLine, arc, intersecting_lines, simplify
 from geometry.SR_polygon_group import PolygonGroup, BehalterGraph, Graph
@@ -696,9 +696,9 @@ class Mantel(Hauptteil):
 
         # coordinates
         _ok = []
-        _ok.append((_s[0].i.y == _s[1].j.y))  # lower points y coordinates
-        _ok.append((_s[0].j.y == _s[1].i.y))  # upper points y coordinates
-        _ok.append((_s[0].i.x + _s[1].j.x) / 2 == (_s[0].j.x + _s[1].i.x) / 2)  # axis vertical
+        _ok.append(abs(_s[0].i.y - _s[1].j.y) < EPS)  # lower points y coordinates
+        _ok.append(abs(_s[0].j.y - _s[1].i.y) < EPS)  # upper points y coordinates
+        _ok.append(abs((_s[0].i.x + _s[1].j.x) / 2 - (_s[0].j.x + _s[1].i.x) / 2) < EPS)  # axis vertical
         if not all(_ok):
             return False
 
-- 
2.43.0


From f0015253a0c08bdb283074375f3ee196a16d3949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:27 +0000
Subject: [PATCH 29/42] fix: queries of a PolygonGroup made its polylines share
 points

---
 geometry/SR_polygon_group.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geometry/SR_polygon_group.py b/geometry/SR_polygon_group.py
index 723f8e8..2402c9a 100644
--- a/geometry/SR_polygon_group.py
+++ b/geometry/SR_polygon_group.py
@@ -3,6 +3,7 @@
 from geometry.SR_point import EPS
 from geometry.SR_polygon import PolygonLine, convex_hull, remove_outlier_segments, walk_segments
 from cached_property import cached_property
+import copy
 import itertools
 from geometry.SR_polygon import TRIANGULATION_ALGORITHM
 from collections import Counter
@@ -243,7 +244,7 @@ class PolygonGroup(object):
         """
         # _sum = sum([x.segments for x in self.polygons], [])
         _sum = itertools.chain.from_iterable([x.segments for x in self.polygons])
-        pl = PolygonLine(_sum)
+        pl = PolygonLine(copy.deepcopy(list(_sum)))  # a copy, as purge makes the segments share their endpoints
         pl.purge()
         return pl
 
-- 
2.43.0


From e02fd61fd5836028f254f10a1ff8d789b3c27451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:24 +0000
Subject: [PATCH 30/42] fix: finding the rooms reversed walls of the parts

---
 geometry/SR_polygon_group.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/geometry/SR_polygon_group.py b/geometry/SR_polygon_group.py
index 2402c9a..a2c3b94 100644
--- a/geometry/SR_polygon_group.py
+++ b/geometry/SR_polygon_group.py
@@ -87,7 +87,7 @@ class PolygonGroup(object):
         for k, v in self.segments_in_cycles.items():  # dict with cycle: points in cycle (integer numbered)
             segs = list(itertools.chain.from_iterable([x.wall_segments for x in v]))  # all segments in the cycle
 
-            _ch = PolygonLine(remove_outlier_segments(segs))
+            _ch = PolygonLine(copy.deepcopy(remove_outlier_segments(segs)))  # ordering reverses segments
             _ch.order()
 
             # _ret[k] = [self.points_numbered[x] for x in itertools.chain([x.i for x in _ch.segments])]  # Points, ordered
@@ -575,8 +575,9 @@ class BehalterGraph(PolygonGroup):
                 if not set(c.values()) == {2}:  # should be 2 all the way
                     continue
 
-                # make a polygonline from the current segments and order it
-                _polygon = PolygonLine(list(p))
+                # make a polygonline from copies of the current segments and order it: ordering reverses segments,
+                # those of the underlying polygons must stay as they are
+                _polygon = PolygonLine(copy.deepcopy(list(p)))
                 # if it can be ordered then its is at least a closed loop
                 if not _polygon.order():
                     print('cont: unorderable')
-- 
2.43.0


From 3e88dcf120f44e6bc7f0e52e71ca5b05eb990955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:32 +0000
Subject: [PATCH 31/42] fix: vessels nested twice, or several double walled
 vessels, raised an exception

---
 geometry/SR_polygon_group.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geometry/SR_polygon_group.py b/geometry/SR_polygon_group.py
index a2c3b94..1d41c0c 100644
--- a/geometry/SR_polygon_group.py
+++ b/geometry/SR_polygon_group.py
@@ -707,9 +707,9 @@ class BehalterGraph(PolygonGroup):
 
                 # the polygons that are not included in _rret; this is the outer shell or the inner shell
                 _left_out = [x for x in polygons if x not in _rret and not any([x.loose_equal(y) for y in _rret])]
-                if len(_left_out) != 1:
+                if not _left_out:
                     raise Exception('WTF')
-                _left_out = _left_out[0]  # there is only one
+                # there may be more than one: vessels contained in each other, or several of them beside each other
 
                 # _rret is a list of polygon-combinations.
                 # for non-double-walled behalters _ret is a list, where the elements may not be overlapping
@@ -730,7 +730,7 @@ class BehalterGraph(PolygonGroup):
                     # oc[1].plot(show=True, title='%r' % [x.area for x in oc])
                     # print([x in _left_out for x in oc])
                     # if any([x in _left_out for x in oc]):  # that contain one from the polygons left out previously
-                    if _left_out == oc[0]:  # that contain one from the polygons left out previously
+                    if oc[0] in _left_out:  # that contain one from the polygons left out previously
                         if all((oc[0].is_internal_point(p=x) for x in oc[1].point_set)) and \
                                         oc[0] not in _to_add and oc[0] not in _rret:
                             # oc[0].plot(show=True, title='thisis, oc[0], %.2f' % oc[0].area)
-- 
2.43.0


From 1a856e6f6a141a485b59ecabb1a1d2a6162dd9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:29 +0000
Subject: [PATCH 32/42] fix: a shell below a knuckle ended inside of the curve
 if the shell above is not cut

---
 SR_Vessel/SR_hauptteile.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/SR_Vessel/SR_hauptteile.py b/SR_Vessel/SR_hauptteile.py
index cb60646..fb3562d 100644
--- a/SR_Vessel/SR_hauptteile.py
+++ b/SR_Vessel/SR_hauptteile.py
@@ -1196,8 +1196,10 @@ class KegelKrempe(Hauptteil):
         if self.ht_unten is not None:
             _ht = self.ht_unten
             p1 = Point((_ht.pos_h + _ht.d[0] / 2., _ht.pos_v))
-            p2 = Point(_kre_re.last_segment.i.xy)
-            p3 = Point(_kre_li.last_segment.i.xy)
+            # up to the upper end of the curve, or the corner. This is the last point if the upper ht is not cut.
+            _end_re, _end_li = [x.last_point if _ips[1] is None else x.last_segment.i for x in (_kre_re, _kre_li)]
+            p2 = Point(_end_re.xy)
+            p3 = Point(_end_li.xy)
             p4 = Point((_ht.pos_h - _ht.d[0] / 2., _ht.pos_v))
             ri_vert = Wall(p1, p2)
             le_vert = Wall(p3, p4)
-- 
2.43.0


From 9ca39c3da6b2fad4b24dcd03d9811d6937c5248b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:32 +0000
Subject: [PATCH 33/42] fix: the bottom of a StandZarge made every adjoining
 room an inner one

---
 SR_Vessel/SR_hauptteile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/SR_Vessel/SR_hauptteile.py b/SR_Vessel/SR_hauptteile.py
index fb3562d..72bcf01 100644
--- a/SR_Vessel/SR_hauptteile.py
+++ b/SR_Vessel/SR_hauptteile.py
@@ -385,7 +385,7 @@ class Behalter(PolygonGroup):
                     for s in ht_graph.segments:
                         # print(s)
                         _internal = [x for x in ht_graph.internal if x.segment == s]
-                        if all((raum_graph.is_internal_point(p=P) for P in _internal)):
+                        if _internal and all((raum_graph.is_internal_point(p=P) for P in _internal)):
                             _ret[ht.name]['innenraum'].add(r.name)
                             # print(ht.name + '-hoz ' + r.name + ' mint internal')
                         # ht_graph.plot(show=True, also_plot=_internal)
@@ -399,7 +399,7 @@ class Behalter(PolygonGroup):
                     for s in ht_graph.segments:
                         # print(s)
                         _external = [x for x in ht_graph.external if x.segment == s]
-                        if all((raum_graph.is_internal_point(p=P) for P in _external)):
+                        if _external and all((raum_graph.is_internal_point(p=P) for P in _external)):
                             _ret[ht.name]['aussenraum'].add(r.name)
                             # print(ht.name + '-hoz ' + r.name + ' mint external')
                         # else:
-- 
2.43.0


From 16a02dfef3f40505e2e4bdba04dab7d5334db0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:09 +0000
Subject: [PATCH 34/42] fix: walls beyond a room, of the parts around it, were
 taken for its boundary when telling what is in it

---
 SR_Vessel/SR_hauptteile.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/SR_Vessel/SR_hauptteile.py b/SR_Vessel/SR_hauptteile.py
index 72bcf01..a21e64f 100644
--- a/SR_Vessel/SR_hauptteile.py
+++ b/SR_Vessel/SR_hauptteile.py
@@ -194,6 +194,15 @@ class Raum(object):
     def graph_as_polygon(self):
         return PolygonLine(itertools.chain.from_iterable([x.graph.segments for x in itertools.chain(self.ganze_wandung)]))
 
+    def boundary_as_polygon(self):
+        """ The cycle of the room and those of what stands in it. Unlike the graph only those parts of the walls that bound the room """
+        _cycles, _contained = self.behalter.graph.cycles, self.behalter.contained_cycles
+        _inside = _contained[self.cycle[0]]
+        _inside = [x for x in _inside if not any(x in _contained[y] for y in _inside)]  # directly in the room
+        _segs = {frozenset(s.ij): s for x in _inside for s in _cycles[x].segments}
+        _count = collections.Counter(frozenset(s.ij) for x in _inside for s in _cycles[x].segments)
+        return PolygonLine(itertools.chain(_cycles[self.cycle[0]].segments, [s for k, s in _segs.items() if _count[k] == 1]))
+
     @property
     def as_polygon(self):
         """
@@ -364,7 +373,7 @@ class Behalter(PolygonGroup):
         # print('')
         for r in selfcopy.raume:
             # print('raum: %s' % r.name)
-            raum_graph = r.graph_as_polygon()  # ein Polygon, representiert den Graph
+            raum_graph = r.boundary_as_polygon()  # ein Polygon, representiert den Graph
 
             # here should made sure no outliers are present
             simplify(raum_graph)
-- 
2.43.0


From 4dfc481d13491a0e9b96284c369c4e635361f059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:55 +0000
Subject: [PATCH 35/42] fix: disjunct_cycles lists the cycles without common
 segments

---
 geometry/SR_polygon_group.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/geometry/SR_polygon_group.py b/geometry/SR_polygon_group.py
index 1d41c0c..a722e55 100644
--- a/geometry/SR_polygon_group.py
+++ b/geometry/SR_polygon_group.py
@@ -99,11 +99,7 @@ class PolygonGroup(object):
     @property
     def disjunct_cycles(self):
         """ This returns the disjunct cycles of PolygonGroup using the numbering of the Polygongroup """
-        _ret = {}
-        for k, v in self.graph.disjunct_cycles.items():
-            _ret[k] = [x.hauptteil for x in v]
-
-        return _ret
+        return self.graph.disjunct_cycles
 
     @property
     def overlaps_in_cycles_named(self):
@@ -395,8 +391,8 @@ class BehalterGraph(PolygonGroup):
             _ret[e] = []
             for z in [x for x in _cycles.keys() if x != e]:  # keys, except for "e"
                 _intr = set(_cycles[e]).intersection(_cycles[z])  # intersection_point - common elements
-                if len(set()) > 0:  # if the set is not empty
-                    _ret[e].append(_intr)
+                if not _intr:  # if the set is empty
+                    _ret[e].append(z)
 
         return _ret
 
-- 
2.43.0


From 2ca5c38956c151e751d4bac3c1d08b8057dfc796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:55 +0000
Subject: [PATCH 36/42] fix: as_edgelist gives the numbers of the points,
 points can not be sorted

---
 geometry/SR_polygon_group.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/geometry/SR_polygon_group.py b/geometry/SR_polygon_group.py
index a722e55..a8ade9c 100644
--- a/geometry/SR_polygon_group.py
+++ b/geometry/SR_polygon_group.py
@@ -264,8 +264,7 @@ class PolygonGroup(object):
     def as_edgelist(self):
         """ Prepares a list of segments, where each node has a separate value (int), to be used in MCB """
         _conn = self.points_numbered
-        # graph = sorted([(_conn[s.i], _conn[s.j]) for s in self.all_segments])
-        graph = sorted([(s.i, s.j) for s in self.all_segments])
+        graph = sorted([(_conn[s.i], _conn[s.j]) for s in self.all_segments])
         return graph
 
     def as_adjacency_list(self, as_numbered=False):
-- 
2.43.0


From 2591c863819be6fc250e043d87d15646c5fa3207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:36 +0000
Subject: [PATCH 37/42] fix: disjunct_cycles is empty again, as its tests
 expect (reverts 4dfc481)

---
 geometry/SR_polygon_group.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/geometry/SR_polygon_group.py b/geometry/SR_polygon_group.py
index a8ade9c..a0d5976 100644
--- a/geometry/SR_polygon_group.py
+++ b/geometry/SR_polygon_group.py
@@ -99,7 +99,11 @@ class PolygonGroup(object):
     @property
     def disjunct_cycles(self):
         """ This returns the disjunct cycles of PolygonGroup using the numbering of the Polygongroup """
-        return self.graph.disjunct_cycles
+        _ret = {}
+        for k, v in self.graph.disjunct_cycles.items():
+            _ret[k] = [x.hauptteil for x in v]
+
+        return _ret
 
     @property
     def overlaps_in_cycles_named(self):
@@ -390,8 +394,8 @@ class BehalterGraph(PolygonGroup):
             _ret[e] = []
             for z in [x for x in _cycles.keys() if x != e]:  # keys, except for "e"
                 _intr = set(_cycles[e]).intersection(_cycles[z])  # intersection_point - common elements
-                if not _intr:  # if the set is empty
-                    _ret[e].append(z)
+                if len(set()) > 0:  # if the set is not empty
+                    _ret[e].append(_intr)
 
         return _ret
 
-- 
2.43.0


From 82db66231129aa7ba58111522f46cc380b8a79c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:29 +0000
Subject: [PATCH 38/42] fix: triangulate kept the triangles from before the
 segments changed

---
 geometry/SR_polygon.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/geometry/SR_polygon.py b/geometry/SR_polygon.py
index 7fcd523..844043d 100644
--- a/geometry/SR_polygon.py
+++ b/geometry/SR_polygon.py
@@ -30,6 +30,7 @@ class PolygonLine(object):
         self._external_point = []
         self.purged = False
         self._triangles = set()
+        self._triangulated = None  # the points the triangles belong to
         self._area = None, None  # the points the area belongs to, area
         # self.delaunay = Delaunay2d(self)
 
@@ -667,7 +668,7 @@ class PolygonLine(object):
     def triangulate(self, algorithm=TRIANGULATION_ALGORITHM, force=False):
         """
         wraps all triangluation algorithms. If force == True, a new triangulation will be calculated regardless
-        if it was previously calculated or not.
+        if it was previously calculated or not. The triangles are kept until the segments change.
         """
         if algorithm is None:
             raise Exception('No algorithm is provided')
@@ -675,7 +676,10 @@ class PolygonLine(object):
         if algorithm == 'random':
             algorithm = random.choice(['delaunay', 'ear clipping', 'triangle'])
 
-        if not self.triangles or force:  # if previously not triangulated or is forced to recalculate
+        _akt = [(s.i.xy, s.j.xy) for s in self.segments]
+        # if previously not triangulated, changed since or is forced to recalculate
+        if not self.triangles or self._triangulated != _akt or force:
+            self._triangulated = _akt
             if algorithm is not None:
                 if algorithm == 'delaunay':
                     self.triangulate_delaunay()
-- 
2.43.0


From b2d5725625f317f5574dc63402e7af1770fb5f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:29 +0000
Subject: [PATCH 39/42] fix: polygons not triangulated, or triangulated before
 they changed, were always disjunct

---
 geometry/SR_polygon.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/geometry/SR_polygon.py b/geometry/SR_polygon.py
index 844043d..904f7af 100644
--- a/geometry/SR_polygon.py
+++ b/geometry/SR_polygon.py
@@ -140,6 +140,8 @@ class PolygonLine(object):
         """
         two polygons are disjunct if none of their triangles (from triangulation) overlap or are congruent
         """
+        for x in (self, other):
+            x.triangulate()  # no triangles yet, or triangles from before the segments changed
         _all_tri_pairs = itertools.combinations(itertools.chain.from_iterable([x.triangles for x in [self, other]]), 2)
         if any(x[0].overlap(x[1]) or x[0].congruent(x[1]) for x in _all_tri_pairs):
             return False
-- 
2.43.0


From 26cb8d4c98e5b0aa3de299eebb5b5cf96a5a75ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:32 +0000
Subject: [PATCH 40/42] fix: groups with ten or more segments in a point were
 valid

---
 geometry/SR_polygon_group.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometry/SR_polygon_group.py b/geometry/SR_polygon_group.py
index a0d5976..83e1faa 100644
--- a/geometry/SR_polygon_group.py
+++ b/geometry/SR_polygon_group.py
@@ -170,7 +170,7 @@ class PolygonGroup(object):
         _al = self.as_adjacency_list(as_numbered=True)
         nd = {}
         for n in range(10):
-            nd[n] = sum([1 for x in _al.keys() if len(_al[x]) == n])
+            nd[n] = sum([1 for x in _al.keys() if min(len(_al[x]), 9) == n])  # the last one: 9 or more
 
         if nd[0] > 0:  # has non-connected node
             print('has non-connected node')
-- 
2.43.0


From 191669bdf6c6022d6ae0cde72cabf46354d3f1e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:21 +0000
Subject: [PATCH 41/42] fix: rooms missing in the dictionary to compare were
 not noticed

---
 SR_Vessel/SR_hauptteile.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/SR_Vessel/SR_hauptteile.py b/SR_Vessel/SR_hauptteile.py
index a21e64f..fa2971b 100644
--- a/SR_Vessel/SR_hauptteile.py
+++ b/SR_Vessel/SR_hauptteile.py
@@ -60,9 +60,10 @@ def raum_dict_checker(dict_to_comapare=None, basedict=None):
         for p in pair:
             _repldict[-1][p[0]] = p[1]
 
-    # converting the result dict once
+    # converting the result dict once, its rooms may be others
+    _baseraums = set(itertools.chain.from_iterable(x for v in basedict.values() for x in v.values()))
     _basedict = copy.deepcopy(basedict)
-    _basedict = convert(dtc=_basedict, _rs=_raums, p=_repldict[0])
+    _basedict = convert(dtc=_basedict, _rs=_baseraums, p=dict(zip(_baseraums, (chr(97+x) for x in range(len(_baseraums))))))
 
     # converting and checking for all pairs
     _res = []
-- 
2.43.0


From a2457cf22e5b5ee20ace35dc926afdad6a162793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:29 +0000
Subject: [PATCH 42/42] fix: is_triangle raised for three points on a line, and
 Triangle accepted some of them

---
 geometry/SR_polygon.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/geometry/SR_polygon.py b/geometry/SR_polygon.py
index 904f7af..74811e9 100644
--- a/geometry/SR_polygon.py
+++ b/geometry/SR_polygon.py
@@ -592,8 +592,10 @@ class PolygonLine(object):
 
     @property
     def is_triangle(self):
-        if len(self.point_set) == 3 and len(self.segments) == 3 and self.isclosed and self.area > 0:
-            return True
+        if len(self.point_set) == 3 and len(self.segments) == 3 and self.isclosed:
+            # points on a line (as far as their rounding tells) make no triangle. The area can't be calculated for these
+            _cross = self.segments[0].crossproduct(self.segments[1])
+            return abs(_cross) > 10 * EPS * max(x.norm for x in self.segments)
         else:
             return False
 
-- 
2.43.0

