From e30f67a585e6ecfe75c86f23c8bb7f0737c93e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:01 +0000
Subject: [PATCH 01/33] fix: bounds of points beyond +-32768 and of unions of
 empty rectangles

The empty rectangle used +-32768 as its sentinels, so the bounds of points
that all lie beyond them were wrong, and the union of two empty rectangles
was a rectangle that covers everything between the sentinels.
---
 PathLib/PathUtilities.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/PathLib/PathUtilities.py b/PathLib/PathUtilities.py
index 898bbaf..fdad8ff 100644
--- a/PathLib/PathUtilities.py
+++ b/PathLib/PathUtilities.py
@@ -32,8 +32,8 @@ class BoundsRectangle(object):
 
         Returns an empty rectangle if the list is empty.
         """
-        right = top = -32768
-        left = bottom = 32768
+        right = top = -math.inf
+        left = bottom = math.inf
 
         for point in points:
             px, py = point
@@ -170,7 +170,14 @@ class BoundsRectangle(object):
         newRight = max(self.right, other.right)
         newBottom = min(self.bottom, other.bottom)
 
-        return BoundsRectangle((newLeft, newBottom), (newRight, newTop))
+        # Set the edges directly: using them as points would turn
+        # the union of two empty rectangles inside out.
+        union = BoundsRectangle()
+        union.left = newLeft
+        union.top = newTop
+        union.right = newRight
+        union.bottom = newBottom
+        return union
 
     def intersection(self, other: BoundsRectangle) -> typing.Optional[BoundsRectangle]:
         """\
-- 
2.43.0


From 8641f35ac0f31106c76187ddb5e66e1c67e7ee9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:01 +0000
Subject: [PATCH 02/33] fix: pointOnLine() missed the start point of a line

The slope of the zero-length line from the start point to itself is inf,
which only matches the slope of a vertical line.
---
 PathLib/PathUtilities.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/PathLib/PathUtilities.py b/PathLib/PathUtilities.py
index fdad8ff..3cbb0e8 100644
--- a/PathLib/PathUtilities.py
+++ b/PathLib/PathUtilities.py
@@ -318,8 +318,11 @@ def pointOnLine(point: Point, line: typing.Sequence[Point]):
 
     # If the bounds rectangle of the line encloses the point and
     # a line from the start of the given line to the point has the
-    # same slope as the line, it is on the line.
-    return bounds.enclosesPoint(point) and slope(line) == slope([line[0], point])
+    # same direction as the line, it is on the line. (Compare cross
+    # products, not slopes: the slope is undefined at the start point.)
+    dx, dy = getDeltas(line)
+    px, py = getDeltas([line[0], point])
+    return bounds.enclosesPoint(point) and dx * py == dy * px
 
 
 def rotatePointAbout(point: Point, about: Point, degrees: float = 90, ccw: bool = True):
-- 
2.43.0


From a5052872b25bf0201a8a38f74fe20be512d80636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:01 +0000
Subject: [PATCH 03/33] fix: raiseOrder() duplicated the first control point

The extra point raised the order by two and changed the curve.
---
 PathLib/Bezier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index 770e6d0..aa9fa13 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -727,7 +727,7 @@ class Bezier(object):
         p = self.controlPoints
         k = len(p)
         np = [p[0]]
-        for i in range(k):
+        for i in range(1, k):
             pix, piy = p[i]
             pimx, pimy = p[i - 1]
             x = ((k - i) / k) * pix + (i / k) * pimx
-- 
2.43.0


From 4c9199104e534c34fa6d4cce0b3c9ead14938eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:01 +0000
Subject: [PATCH 04/33] fix: scale() by a constant distance changed the end
 tangents

The tangent preserving construction is the one for constant distances,
but it was used for distance functions only.
---
 PathLib/Bezier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index aa9fa13..88330f1 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -788,7 +788,7 @@ class Bezier(object):
             py += (r2 if t > 0 else r1) * v[t][1][1]  # v[t].n.y
             np[t * order] = (px, py)
 
-        if isinstance(d, types.FunctionType):
+        if not isinstance(d, types.FunctionType):
             # move control points to lie on the intersection of the offset
             # derivative vector, and the origin-through-control vector
             for t in range(2):
-- 
2.43.0


From 7eafb26e9f96726d83cc6ce12f8f5f419a0b9ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:01 +0000
Subject: [PATCH 05/33] fix: offset(t, 0) returned an offset curve instead of a
 point

---
 PathLib/Bezier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index 88330f1..1e67be8 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -743,7 +743,7 @@ class Bezier(object):
     def offset(self, t: float, d: float) -> list[Point]: ...
 
     def offset(self, t: float, d: typing.Optional[float] = None) -> typing.Union[list[Point], list[Bezier]]:
-        if d:
+        if d is not None:
             cx, cy = c = self.get(t)
             nx, ny = n = self.normal(t)
             px = cx + nx * d
-- 
2.43.0


From 2cb79180f62dcc34ac6a0c31e8f6f96522fec8f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:01 +0000
Subject: [PATCH 06/33] fix: bbox and reduce() modified the cached extrema

Asking for the bounding box or the reduction of a curve added 0 and 1 to
the extrema it reports from then on.
---
 PathLib/Bezier.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index 1e67be8..35f4584 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -217,6 +217,8 @@ class Bezier(object):
         min = +9007199254740991  # Number.MAX_SAFE_INTEGER
         max = -9007199254740991  # Number.MIN_SAFE_INTEGER
 
+        # don't modify the caller's list, it's the cached extrema...
+        list = list[:]
         if 0 not in list: list.insert(0, 0)
         if 1 not in list: list.append(1)
 
@@ -571,7 +573,7 @@ class Bezier(object):
         pass2: list[Bezier] = []
 
         # first pass: split on extrema
-        extrema = self.extrema[2]
+        extrema = self.extrema[2][:]
         if not 0 in extrema: extrema.insert(0, 0)
         if not 1 in extrema: extrema.append(1)
 
-- 
2.43.0


From 7c215ba5be756188391f849add17315f8b6a4e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:01 +0000
Subject: [PATCH 07/33] fix: length, normal() and offset() failed for lines

The derivative of a first order curve raised an IndexError, and length
left the decimal context with a higher precision when it did.
---
 PathLib/Bezier.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index 35f4584..88f82a3 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -175,7 +175,12 @@ class Bezier(object):
         p = self.dcPoints[0]
         mt = 1 - t
 
-        if self.order == 2:
+        if self.order == 1:
+            p = [p[0], (0, 0), (0, 0)]
+            a = 1
+            b = 0
+            c = 0
+        elif self.order == 2:
             p = [p[0], p[1], (0, 0)]
             a = mt
             b = t
-- 
2.43.0


From 7350cd3c82255598f51605353faedd68992e6874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:01 +0000
Subject: [PATCH 08/33] fix: split() and reduce() failed for lines

---
 PathLib/Bezier.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index 88f82a3..25a70f7 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -441,7 +441,10 @@ class Bezier(object):
 
         # no shortcut: use "de Casteljau" iteration.
         q = self.hull(t1)
-        if self.order == 2:
+        if self.order == 1:
+            left = Bezier([q[0], q[2]])
+            right = Bezier([q[2], q[1]])
+        elif self.order == 2:
             left = Bezier([q[0], q[3], q[5]])
             right = Bezier([q[5], q[4], q[2]])
         else:
-- 
2.43.0


From 292cde15508683dba4911ba2ef17cae527f395af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:01 +0000
Subject: [PATCH 09/33] fix: roots() and lineIntersects() failed for lines

---
 PathLib/Bezier.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index 25a70f7..955219a 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -474,6 +474,11 @@ class Bezier(object):
             return 0 <= t <= 1 or butils.approximately(t, 0) or butils.approximately(t, 1)
 
         order = len(p) - 1
+        if order == 1:
+            a = p[0][1]
+            b = p[1][1]
+            return list(filter(reduce, [a / (a - b)])) if a != b else []
+
         if order == 2:
             a = p[0][1]
             b = p[1][1]
-- 
2.43.0


From 85120e7ee61f126b6f181e50c3ba65f62cdabd77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:01 +0000
Subject: [PATCH 10/33] fix: simple() and reduce() raised a math domain error

The dot product of the two normals can be slightly larger than 1.
---
 PathLib/Bezier.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index 955219a..0646e10 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -578,7 +578,8 @@ class Bezier(object):
 
         n1x, n1y = self.normal(0)
         n2x, n2y = self.normal(1)
-        s = n1x * n2x + n1y * n2y
+        # rounding can take the product of two unit vectors out of the domain of acos()
+        s = max(-1.0, min(1.0, n1x * n2x + n1y * n2y))
         return abs(math.acos(s)) < math.pi / 3
 
     def reduce(self) -> list[Bezier]:
-- 
2.43.0


From 459b47754e8dc66fb0a4943055468512ec812263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:01 +0000
Subject: [PATCH 11/33] fix: intersects() found nothing on curves that cannot
 be reduced

---
 PathLib/Bezier.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index 0646e10..80ae072 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -721,7 +721,8 @@ class Bezier(object):
         # if curve is a line: self.lineIntersects(line, intersectionThreshold)
         #if curve instanceOf Bezier: curve = curve.reduce()
 
-        return Bezier.curveIntersects(self.reduce(), curve.reduce(), intersectionThreshold)
+        # a curve that can't be reduced is used as it is
+        return Bezier.curveIntersects(self.reduce() or [self], curve.reduce() or [curve], intersectionThreshold)
 
     def getABC(self, t: float) -> tuple[Point, Point, typing.Optional[Point], float, list[Point]]:
         hull = self.hull(t)
-- 
2.43.0


From 7ad39a39fa69cbc47488e79f62b41e2f88efb2b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:01 +0000
Subject: [PATCH 12/33] fix: BContour reported stale bounds and lookup tables

Replacing or deleting a curve did not update the bounds or the lookup
table, and the table cached for n steps per curve was returned for any
number of steps that equals its length.
---
 PathLib/Bezier.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index 80ae072..ed7a3e5 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -845,31 +845,43 @@ class BContour(object):
         self._beziers = beziers
         self._bounds = bounds
         self._lut: list[Point] = []
+        self._lutSteps = 0
         self._start = beziers[0].start
         self._end = beziers[-1].end
 
+    def _changed(self):
+        # the curves have changed: update everything that depends on them
+        bounds = PathUtilities.BoundsRectangle()
+        for bezier in self._beziers:
+            bounds = bounds.union(bezier.boundsRectangle)
+
+        self._bounds = bounds
+        self._lut = []
+        self._lutSteps = 0
+        self._start = self._beziers[0].start
+        self._end = self._beziers[-1].end
+
     def __getitem__(self, index: int) -> Bezier:
         return self._beziers[index]
 
     def __setitem__(self, index: int, value: typing.Sequence[Point]):
         self._beziers[index] = Bezier(value)
         # self._length = None
-        self._start = self._beziers[0].start
-        self._end = self._beziers[-1].end
+        self._changed()
 
     def __delitem__(self, index: int):
         del self._beziers[index]
         # self._length = None
-        self._start = self._beziers[0].start
-        self._end = self._beziers[-1].end
+        self._changed()
 
     def __iter__(self):
         return self._beziers.__iter__()
 
     def getLUT(self, steps: int = 100):
-        if len(self._lut) == steps: return self._lut
+        if self._lutSteps == steps: return self._lut
 
         self._lut = []
+        self._lutSteps = steps
         startPoint = 0
         for curve in self._beziers:
             self._lut.extend(curve.getLUT(steps)[startPoint:])
-- 
2.43.0


From c26947e02f6d8dabe03e039aa9555540523fce02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:01 +0000
Subject: [PATCH 13/33] fix: findClosestPoint() searched next to the closest
 point

On every curve but the first, the index into the lookup table was off by
one, because the table of the contour leaves out the first point of the
curve.
---
 PathLib/Bezier.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index ed7a3e5..a39911e 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -960,7 +960,8 @@ class BContour(object):
             ix = i // s1 + 1
             curve = self.beziers[ix]
             if ix < nCurves - 1: curve2 = self.beziers[ix + 1]
-            i %= s1
+            # the first point of this curve is not in the contour's LUT
+            i = i % s1 + 1
 
         lut = curve.getLUT(steps)
         cip, closest = self._refineBinary(point, curve, lut, i)
-- 
2.43.0


From 76912768134efc68c03de10e9d12ceca3306311a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:01 +0000
Subject: [PATCH 14/33] fix: SegmentPen failed on contours without on-curve
 points

The pen protocol passes these to qCurveTo() with None as the last point
and without a preceding moveTo().
---
 PathLib/SegmentPen.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/PathLib/SegmentPen.py b/PathLib/SegmentPen.py
index 88bad5d..8103612 100644
--- a/PathLib/SegmentPen.py
+++ b/PathLib/SegmentPen.py
@@ -56,6 +56,15 @@ class SegmentPen:
         self._lastOnCurve = points[-1]
 
     def qCurveTo(self, *points: Point):
+        if points[-1] is None:
+            # A closed contour without any on-curve points: there was no moveTo(). Start
+            # and end at the implied point between the last and the first off-curve points.
+            p1x, p1y = points[-2]
+            p2x, p2y = points[0]
+            impliedPoint = (0.5 * (p1x + p2x), 0.5 * (p1y + p2y))
+            self.moveTo(impliedPoint)
+            points = points[:-1] + (impliedPoint,)
+
         segment = [self._lastOnCurve]
         segment.extend(points)
 
-- 
2.43.0


From 0a24c3439df75cf1ca4f9aa04b20f04cafbd7412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:33 +0000
Subject: [PATCH 15/33] fix: drawContours() and drawPaths() raised a TypeError
 for fill=True

pushFillAttributes() has no fill parameter.
---
 PathLib/ContourPlotter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PathLib/ContourPlotter.py b/PathLib/ContourPlotter.py
index ae6a3b1..446e606 100644
--- a/PathLib/ContourPlotter.py
+++ b/PathLib/ContourPlotter.py
@@ -74,7 +74,7 @@ class ContourPlotter(GlyphPlotterEngine.GlyphPlotterEngine):
 
     def drawContours(self, contours, color=None, fill=False, close=True):
         if fill:
-            self.pushFillAttributes(color=color, fill=fill)
+            self.pushFillAttributes(color=color)
         elif color:
             self.pushStrokeAttributes(color=color)
             # self._strokeWidth = 2
@@ -136,7 +136,7 @@ class ContourPlotter(GlyphPlotterEngine.GlyphPlotterEngine):
 
     def drawPaths(self, paths, color=None, fill=False, close=True):
         if fill:
-            self.pushFillAttributes(color=color, fill=fill)
+            self.pushFillAttributes(color=color)
             attributes = self._fillAttributes()
         else:
             if color:
-- 
2.43.0


From 705a1fdf006b360e96d3978f3108cfaf6fbf63c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:33 +0000
Subject: [PATCH 16/33] fix: poly mode left out the first command of a contour

The last command of the previous contour was not forgotten at the M, so
the first curve or horizontal or vertical line of a contour could lose
its command letter and be read as lines.
---
 PathLib/ContourPlotter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/PathLib/ContourPlotter.py b/PathLib/ContourPlotter.py
index 446e606..2ac0de9 100644
--- a/PathLib/ContourPlotter.py
+++ b/PathLib/ContourPlotter.py
@@ -85,6 +85,7 @@ class ContourPlotter(GlyphPlotterEngine.GlyphPlotterEngine):
                 firstPoint = contour[0][0]
                 self.moveToXY(*firstPoint)
                 commands.append(f"M{self.pointToString(firstPoint)}")
+                self._lastCommand = ""  # points directly after an M are an implicit L
 
                 for segment in contour:
                     if len(segment) == 2:
@@ -151,6 +152,7 @@ class ContourPlotter(GlyphPlotterEngine.GlyphPlotterEngine):
             firstPoint = path.start
             self.moveToXY(*path.pointXY(firstPoint))
             commands.append(f"M{pointToString(firstPoint)}")
+            self._lastCommand = ""  # points directly after an M are an implicit L
 
             for curve in path:
                 segment = curve.controlPoints
-- 
2.43.0


From 6352210bae4037b45457ab352ece42be0907bf7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:33 +0000
Subject: [PATCH 17/33] fix: pushing an opacity or stroke width of 0 had no
 effect

---
 PathLib/ContourPlotter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/PathLib/ContourPlotter.py b/PathLib/ContourPlotter.py
index 2ac0de9..958f1ea 100644
--- a/PathLib/ContourPlotter.py
+++ b/PathLib/ContourPlotter.py
@@ -39,7 +39,7 @@ class ContourPlotter(GlyphPlotterEngine.GlyphPlotterEngine):
     def pushFillAttributes(self, color=None, opacity=None):
         self._fillAttributeStack.append((self._fillColor, self._fillOpacity))
         if color: self.setFillColor(color)
-        if opacity: self.setFillOpacity(opacity)
+        if opacity is not None: self.setFillOpacity(opacity)
 
     def popFillAttributes(self):
         color, opacity = self._fillAttributeStack.pop()
@@ -48,9 +48,9 @@ class ContourPlotter(GlyphPlotterEngine.GlyphPlotterEngine):
 
     def pushStrokeAttributes(self, width=None, color=None, opacity=None, dash=None):
         self._strokeAttributeStack.append((self._strokeWidth, self._strokeColor, self._strokeOpacity, self._strokeDash))
-        if width: self.setStrokeWidth(width)
+        if width is not None: self.setStrokeWidth(width)
         if color: self.setStrokeColor(color)
-        if opacity: self.setStrokeOpacity(opacity)
+        if opacity is not None: self.setStrokeOpacity(opacity)
         if dash: self.setStrokeDash(dash)
 
     def popStrokeAtributes(self):
-- 
2.43.0


From 0a5fda4588bc976e2766e8940b416c22f6448630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:33 +0000
Subject: [PATCH 18/33] fix: drawing circles or arrows left their colors behind

The fill color of the circles, the stroke color of the arrow and a reset
of the stroke dash stayed in effect for everything drawn afterwards.
---
 PathLib/ContourPlotter.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/PathLib/ContourPlotter.py b/PathLib/ContourPlotter.py
index 958f1ea..01866a9 100644
--- a/PathLib/ContourPlotter.py
+++ b/PathLib/ContourPlotter.py
@@ -236,7 +236,7 @@ class ContourPlotter(GlyphPlotterEngine.GlyphPlotterEngine):
 
         if colors:
             if fill:
-                self._fillColor = colors[0]
+                self.pushFillAttributes(color=colors[0])
             else:
                 self.pushStrokeAttributes(color=colors[0])
 
@@ -253,12 +253,16 @@ class ContourPlotter(GlyphPlotterEngine.GlyphPlotterEngine):
                 if color: self.setStrokeColor(color)
             self.drawCircle(GlyphPlotterEngine.CoordinateSystem.content, x, y, radius, paintMode)
 
-        if colors and not fill: self.popStrokeAtributes()
+        if colors:
+            if fill:
+                self.popFillAttributes()
+            else:
+                self.popStrokeAtributes()
 
     def drawComplexPointsAsCircles(self, points, radius, colors=None, fill=True):
         if colors:
             if fill:
-                self._fillColor = colors[0]
+                self.pushFillAttributes(color=colors[0])
             else:
                 self.pushStrokeAttributes(color=colors[0])
 
@@ -274,7 +278,11 @@ class ContourPlotter(GlyphPlotterEngine.GlyphPlotterEngine):
                 if color: self.setStrokeColor(color)
             self.drawCircle(GlyphPlotterEngine.CoordinateSystem.content, point.real, point.imag, radius, paintMode)
 
-        if colors and not fill: self.popStrokeAtributes()
+        if colors:
+            if fill:
+                self.popFillAttributes()
+            else:
+                self.popStrokeAtributes()
 
     def drawCurve(self, segment, color=None):
         self.drawContours([[segment]], color=color, fill=False, close=False)
@@ -315,14 +323,11 @@ class ContourPlotter(GlyphPlotterEngine.GlyphPlotterEngine):
         if lineColor: self.popStrokeAtributes()
 
     def drawArrowBetweenPoints(self, startPoint, endPoint, color=None, style="open60", position="end"):
-        if color:
-            self._strokeColor = color
-
-        self.setStrokeDash("2, 1")
+        self.pushStrokeAttributes(color=color, dash="2, 1")
         startX, startY = startPoint
         endX, endY = endPoint
         self.drawArrow(GlyphPlotterEngine.CoordinateSystem.content, startX, startY, endX, endY, style, position)
-        self.setStrokeDash(None)
+        self.popStrokeAtributes()
 
 # def test():
 #     import PathUtilities
-- 
2.43.0


From feda773c62042aef8174f9c57e2dddb2f1775f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:11 +0000
Subject: [PATCH 19/33] fix: roots of a quadratic with a tiny leading
 coefficient

Rounding errors in the leading coefficient, as in a raised quadratic or an
aligned curve, made the extrema and roots arbitrarily wrong, so the bounding
box of such a curve did not contain it and intersections were missed.
---
 PathLib/Bezier.py          | 15 +-------------
 PathLib/BezierUtilities.py | 42 +++++++++++++++++++++++---------------
 2 files changed, 27 insertions(+), 30 deletions(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index a39911e..5f43d33 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -480,20 +480,7 @@ class Bezier(object):
             return list(filter(reduce, [a / (a - b)])) if a != b else []
 
         if order == 2:
-            a = p[0][1]
-            b = p[1][1]
-            c = p[2][1]
-            d = a - 2 * b + c
-            if d != 0:
-                m1 = -butils.sqrt(b * b - a * c)
-                m2 = -a + b
-                v1 = -(m1 + m2) / d
-                v2 = -(-m1 + m2) / d
-                return list(filter(reduce, [v1, v2]))
-            elif b != c and d == 0:
-                return list(filter(reduce, [(2 * b - c) / (2 * b - 2 * c)]))
-
-            return []
+            return list(filter(reduce, butils.quadraticRoots(p[0][1], p[1][1], p[2][1])))
 
         # see http://www.trans4mind.com/personal_development/mathematics/polynomials/cubicAlgebra.htm
         pa = p[0][1]
diff --git a/PathLib/BezierUtilities.py b/PathLib/BezierUtilities.py
index 331a1a4..b38f762 100644
--- a/PathLib/BezierUtilities.py
+++ b/PathLib/BezierUtilities.py
@@ -145,25 +145,35 @@ def lli(l1: Segment, l2: Segment) -> typing.Optional[Point]:
     return lli4(l1[0], l1[1], l2[0], l2[1])
 
 
-def droots(p: list[float]) -> typing.Sequence[float]:
-    # quadratic roots are easy
-    if len(p) == 3:
-        a = p[0]
-        b = p[1]
-        c = p[2]
-        d = a - 2 * b + c
+def quadraticRoots(a: float, b: float, c: float) -> typing.Sequence[float]:
+    """\
+    The real roots of the quadratic with Bernstein coefficients a, b, c.
+    """
+    d = a - 2 * b + c
 
-        if d != 0:
-            m1 = - sqrt(b * b - a * c)
-            m2 = -a + b
-            v1 = -(m1 + m2) / d
-            v2 = -(-m1 + m2) / d
-            return [v1, v2]
+    if d != 0:
+        # The roots are (m1 + m2) / d and (m1 - m2) / d, but one of these
+        # loses all its digits if d is tiny. Only use the one that doesn't,
+        # and get the other one from the product of the roots, a / d.
+        m1 = a - b
+        m2 = sqrt(b * b - a * c)
+        q = m1 + m2 if m1 >= 0 else m1 - m2
+        if q == 0: return [0, 0]
 
-        if b != c and d == 0:
-            return [(2 * b - c) / (2 * (b - c))]
+        v1 = q / d
+        v2 = a / q
+        return [v1, v2] if m1 >= 0 else [v2, v1]
 
-        return []
+    if b != c:
+        return [(2 * b - c) / (2 * (b - c))]
+
+    return []
+
+
+def droots(p: list[float]) -> typing.Sequence[float]:
+    # quadratic roots are easy
+    if len(p) == 3:
+        return quadraticRoots(p[0], p[1], p[2])
 
     # linear roots are even easier
     if len(p) == 2:
-- 
2.43.0


From 191edaaabad72cc6dc7d641d302ab2a8e4211440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:48 +0000
Subject: [PATCH 20/33] fix: intersections of a cubic and a line were wrong by
 several units

The discriminant is a very small number for roots between 0 and 1, so
comparing it to 0 with a tolerance of 1e-6 treated many cubics as if they
touched the line, and reported points that are not on the line.
---
 PathLib/Bezier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index 5f43d33..49a39fb 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -534,7 +534,7 @@ class Bezier(object):
             x2 = t1 * math.cos((phi + butils.tau) / 3) - a / 3
             x3 = t1 * math.cos((phi + 2 * butils.tau) / 3) - a / 3
             return list(filter(reduce, [x1, x2, x3]))
-        elif butils.approximately(discriminant, 0):  # discriminant == 0:
+        elif butils.approximately(discriminant, 0, butils.epsilon * butils.epsilon):  # discriminant == 0:
             u1 = butils.crt(-q2) if q2 < 0 else -butils.crt(q2)
             x1 = 2 * u1 - a / 3
             x2 = -u1 - a / 3
-- 
2.43.0


From c0775cf9e307beb3c400df7cc0fb7f1086ea5e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:46 +0000
Subject: [PATCH 21/33] fix: roots of a nearly quadratic cubic lost most of
 their digits

The closed formulas suffer from cancellation if the leading coefficient is
small compared to the others, which put intersections more than a unit off
the line for large coordinates. Improve the roots with Newton iterations.
---
 PathLib/Bezier.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index 49a39fb..9f881f1 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -514,6 +514,20 @@ class Bezier(object):
         b /= d
         c /= d
 
+        def polish(t: float):
+            # the formulas below lose many digits if d is small compared to
+            # the other coefficients: improve the root with Newton's method
+            f = ((t + a) * t + b) * t + c
+            for _ in range(4):
+                slope = (3 * t + 2 * a) * t + b
+                if slope == 0: break
+                nt = t - f / slope
+                nf = ((nt + a) * nt + b) * nt + c
+                if abs(nf) >= abs(f): break
+                t, f = nt, nf
+
+            return t
+
         p = (3 * b - a * a) / 3
         p3 = p / 3
         q = (2 * a * a * a - 9 * a * b + 27 * c) / 27
@@ -533,17 +547,17 @@ class Bezier(object):
             x1 = t1 * math.cos(phi / 3) - a / 3
             x2 = t1 * math.cos((phi + butils.tau) / 3) - a / 3
             x3 = t1 * math.cos((phi + 2 * butils.tau) / 3) - a / 3
-            return list(filter(reduce, [x1, x2, x3]))
+            return list(filter(reduce, map(polish, [x1, x2, x3])))
         elif butils.approximately(discriminant, 0, butils.epsilon * butils.epsilon):  # discriminant == 0:
             u1 = butils.crt(-q2) if q2 < 0 else -butils.crt(q2)
             x1 = 2 * u1 - a / 3
             x2 = -u1 - a / 3
-            return list(filter(reduce, [x1, x2]))
+            return list(filter(reduce, map(polish, [x1, x2])))
         else:
             sd = butils.sqrt(discriminant)
             u1 = butils.crt(-q2 + sd)
             v1 = butils.crt(q2 + sd)
-            return list(filter(reduce, [u1 - v1 - a / 3]))
+            return list(filter(reduce, map(polish, [u1 - v1 - a / 3])))
 
     def align(self, segment: typing.Optional[Segment] = None):
         if not segment:
-- 
2.43.0


From 780750a5091312c7c93ca8df727086e59b6fb7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:36 +0000
Subject: [PATCH 22/33] fix: findClosestPoint() returned points farther away
 than its own samples

The refinement never considered the samples it started from, so it missed
the end points of curves, and returned the origin at an absurd distance if
there were enough steps that nothing needed to be refined. It also continued
around the wrong sample when a round brought no improvement.
---
 PathLib/Bezier.py | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index 9f881f1..aa209dd 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -909,11 +909,8 @@ class BContour(object):
 
     @classmethod
     def _refineBinary(cls, point: Point, curve: Bezier, lut: typing.Sequence[Point], i: int):
-        closest = MAX_SAFE_INTEGER
         steps = len(lut)
         tt = [t / (steps - 1) for t in range(steps)]
-        px, py = point
-        q: Point = (0, 0)
 
         for _ in range(25):  # This is for safety; the loop should always break
             steps = len(lut)
@@ -923,20 +920,14 @@ class BContour(object):
             t2 = tt[i2]
             new_lut: typing.Sequence[Point] = []
             new_tt: list[float] = []
-            step = (t2 - t1) / 5
+            step = (t2 - t1) / 4
 
             if step < 0.001: break
             new_lut.append(lut[i1])
             new_tt.append(tt[i1])
             for j in range(1, 4):
                 nt = t1 + (j * step)
-                nx, ny = n = curve.get(nt)
-                dist = math.hypot(nx - px, ny - py)
-                if dist < closest:
-                    closest = dist
-                    q = n
-                    i = j
-                new_lut.append(n)
+                new_lut.append(curve.get(nt))
                 new_tt.append(nt)
             new_lut.append(lut[i2])
             new_tt.append(tt[i2])
@@ -944,8 +935,11 @@ class BContour(object):
             # update the lut to be our new five point LUT, and run again.
             lut = new_lut
             tt = new_tt
+            i = cls._findClosest(point, lut)
 
-        return (q, closest)
+        px, py = point
+        qx, qy = q = lut[i]
+        return (q, math.hypot(qx - px, qy - py))
 
     def findClosestPoint(self, point: Point, steps: int):
         nCurves = len(self.beziers)
-- 
2.43.0


From 08446e684f6086b6855d077f89f1ef6829432b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:47 +0000
Subject: [PATCH 23/33] fix: matrixInvert() used rounding errors as pivots

---
 PathLib/MatrixInversion.py | 38 +++++++++++++++++---------------------
 1 file changed, 17 insertions(+), 21 deletions(-)

diff --git a/PathLib/MatrixInversion.py b/PathLib/MatrixInversion.py
index 3921370..5b698fc 100644
--- a/PathLib/MatrixInversion.py
+++ b/PathLib/MatrixInversion.py
@@ -47,30 +47,26 @@ def matrixInvert(M: Matrix) -> typing.Optional[Matrix]:
 
     # Perform elementary row operations
     for i in range(n):
+        # Use the largest element in the i'th column, on or below the diagonal. Any
+        # element that isn't 0 would do, if it weren't for rounding: the element on the
+        # diagonal can be the rounding error of an element that should be 0.
+        ii = max(range(i, n), key=lambda r: abs(C[r][i]))
+
+        if ii != i:
+            # it would make the diagonal larger so swap it
+            for j in range(n):
+                e = C[i][j]  # temp store i'th row
+                C[i][j] = C[ii][j]  # replace i'th row by ii'th
+                C[ii][j] = e  # replace ii'th by temp
+                e = I[i][j]  # temp store i'th row
+                I[i][j] = I[ii][j]  # replace i'th row by ii'th
+                I[ii][j] = e  # replace ii'th by temp
+
         # get the element e on the diagonal
         e = C[i][i]
 
-        # if we have a 0 on the diagonal (we'll need to swap with a lower row)
-        if e == 0:
-            # look through every row below the i'th row
-            for ii in range(i+1, n):
-                # if the ii'th row has a non-0 in the i'th col
-                if C[ii][i] != 0:
-                    # it would make the diagonal have a non-0 so swap it
-                    for j in range(n):
-                        e = C[i][j]  # temp store i'th row
-                        C[i][j] = C[ii][j]  # replace i'th row by ii'th
-                        C[ii][j] = e  # replace ii'th by temp
-                        e = I[i][j]  # temp store i'th row
-                        I[i][j] = I[ii][j]  # replace i'th row by ii'th
-                        I[ii][j] = e  # replace ii'th by temp
-
-                    # don't bother checking other rows since we've swapped
-                    break
-            # get the new diagonal
-            e = C[i][i]
-            # if it's still 0, not invertable (error)
-            if e == 0: return None
+        # if it's 0, not invertable (error)
+        if e == 0: return None
 
         # Scale this row down by e (so we have a 1 on the diagonal)
         for j in range(n):
-- 
2.43.0


From 2cb26ca2e4827952923bdf091af503056b75760a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:21 +0000
Subject: [PATCH 24/33] fix: reduce() divided by zero next to extrema that are
 all but equal

---
 PathLib/Bezier.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index aa209dd..6f4603f 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -588,9 +588,11 @@ class Bezier(object):
         pass2: list[Bezier] = []
 
         # first pass: split on extrema
-        extrema = self.extrema[2][:]
-        if not 0 in extrema: extrema.insert(0, 0)
-        if not 1 in extrema: extrema.append(1)
+        # (a segment between extrema that are all but equal would be degenerate)
+        extrema: list[float] = [0]
+        for t in self.extrema[2]:
+            if not butils.approximately(t, extrema[-1]) and not butils.approximately(t, 1): extrema.append(t)
+        extrema.append(1)
 
         t1 = extrema[0]
         for i in range(1, len(extrema)):
-- 
2.43.0


From 6e00860aaeb11d4d77ad53c218f49f3011b524f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:08 +0000
Subject: [PATCH 25/33] fix: intersects() of a piece that can't be reduced used
 another curve's parameters

---
 PathLib/Bezier.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index 6f4603f..a649910 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -724,8 +724,10 @@ class Bezier(object):
         # if curve is a line: self.lineIntersects(line, intersectionThreshold)
         #if curve instanceOf Bezier: curve = curve.reduce()
 
-        # a curve that can't be reduced is used as it is
-        return Bezier.curveIntersects(self.reduce() or [self], curve.reduce() or [curve], intersectionThreshold)
+        # a curve that can't be reduced is used as it is (a copy: the parameters
+        # of a piece of another curve would be parameters of that other curve)
+        def pieces(c: Bezier): return c.reduce() or [Bezier(c.controlPoints)]
+        return Bezier.curveIntersects(pieces(self), pieces(curve), intersectionThreshold)
 
     def getABC(self, t: float) -> tuple[Point, Point, typing.Optional[Point], float, list[Point]]:
         hull = self.hull(t)
-- 
2.43.0


From c36829ec5a60130b055ff1918e1be0965be514cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:27 +0000
Subject: [PATCH 26/33] fix: bounds of curves with coordinates beyond 2^53 were
 clamped

---
 PathLib/Bezier.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index a649910..c7a1bc0 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -219,8 +219,8 @@ class Bezier(object):
 
     def _getminmax(self, d: int, list: list[float]) -> tuple[float, float]:
         # if (!list) return { min: 0, max: 0 };
-        min = +9007199254740991  # Number.MAX_SAFE_INTEGER
-        max = -9007199254740991  # Number.MIN_SAFE_INTEGER
+        min = math.inf
+        max = -math.inf
 
         # don't modify the caller's list, it's the cached extrema...
         list = list[:]
-- 
2.43.0


From 6c344e5ea448d9a0b2f7b7fd808ba1f64bda0098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:27 +0000
Subject: [PATCH 27/33] fix: findClosestPoint() ignored samples farther away
 than 2^53

---
 PathLib/Bezier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index c7a1bc0..5e6d058 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -899,7 +899,7 @@ class BContour(object):
     @classmethod
     def _findClosest(cls, point: Point, LUT: typing.Sequence[Point]) -> int:
         x, y = point
-        closest = MAX_SAFE_INTEGER
+        closest = math.inf
         i = -1
 
         for index in range(len(LUT)):
-- 
2.43.0


From fed8b2c3fb4833e3ab12e944d31dc451a0e521e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:15 +0000
Subject: [PATCH 28/33] fix: drawPointsAsCircles() raised an IndexError if
 there are no points

---
 PathLib/ContourPlotter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PathLib/ContourPlotter.py b/PathLib/ContourPlotter.py
index 01866a9..b874289 100644
--- a/PathLib/ContourPlotter.py
+++ b/PathLib/ContourPlotter.py
@@ -229,7 +229,7 @@ class ContourPlotter(GlyphPlotterEngine.GlyphPlotterEngine):
         if color: self.popStrokeAtributes()
 
     def drawPointsAsCircles(self, points, radius, colors=None, fill=True):
-        if isinstance(points[0], complex):
+        if points and isinstance(points[0], complex):
             getXY = lambda p: (p.real, p.imag)
         else:
             getXY = lambda p: p
-- 
2.43.0


From e8401027f4bb0f6af5374436f59137f22d82b179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:51 +0000
Subject: [PATCH 29/33] fix: roots of a nearly quadratic cubic were missed or
 wrong by many units

---
 PathLib/Bezier.py | 43 ++++++++++++++++++++++++-------------------
 1 file changed, 24 insertions(+), 19 deletions(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index 5e6d058..1450665 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -493,41 +493,46 @@ class Bezier(object):
         b = -3 * pa + 3 * pb
         c = pa
 
-        if butils.approximately(d, 0):
+        k3, k2, k1, k0 = d, a, b, c
+
+        def polish(t: float):
+            # the formulas below lose many digits if d is small compared to
+            # the other coefficients: improve the root with Newton's method
+            f = ((k3 * t + k2) * t + k1) * t + k0
+            for _ in range(4):
+                slope = (3 * k3 * t + 2 * k2) * t + k1
+                if slope == 0: break
+                nt = t - f / slope
+                nf = ((k3 * nt + k2) * nt + k1) * nt + k0
+                if abs(nf) >= abs(f): break
+                t, f = nt, nf
+
+            return t
+
+        # what counts as zero depends on the size of the coefficients
+        tiny = butils.epsilon * max(abs(a), abs(b), abs(c))
+
+        if butils.approximately(d, 0, tiny):
             # this is not a cubic curve.
-            if butils.approximately(a, 0):
+            if butils.approximately(a, 0, tiny):
                 # in fact, this is not a quadratic curve either.
-                if butils.approximately(b, 0):
+                if butils.approximately(b, 0, tiny):
                     # in fact, there are no solutions
                     return []
 
                 # linear solution:
-                return list(filter(reduce, [-c / b]))
+                return list(filter(reduce, [polish(-c / b)]))
 
             # quadratic solution:
             q = butils.sqrt(b * b - 4 * a * c)
             a2 = 2 * a
-            return list(filter(reduce, [(q - b) / a2, (-b - q) / a2]))
+            return list(filter(reduce, map(polish, [(q - b) / a2, (-b - q) / a2])))
 
         # at this point, we know we need a cubic solution:
         a /= d
         b /= d
         c /= d
 
-        def polish(t: float):
-            # the formulas below lose many digits if d is small compared to
-            # the other coefficients: improve the root with Newton's method
-            f = ((t + a) * t + b) * t + c
-            for _ in range(4):
-                slope = (3 * t + 2 * a) * t + b
-                if slope == 0: break
-                nt = t - f / slope
-                nf = ((nt + a) * nt + b) * nt + c
-                if abs(nf) >= abs(f): break
-                t, f = nt, nf
-
-            return t
-
         p = (3 * b - a * a) / 3
         p3 = p / 3
         q = (2 * a * a * a - 9 * a * b + 27 * c) / 27
-- 
2.43.0


From a403abed040d0c51813c0635e0226f990d483507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:57 +0000
Subject: [PATCH 30/33] fix: deleting the last curve of a contour raised an
 IndexError

---
 PathLib/Bezier.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index 1450665..4eb4550 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -868,8 +868,9 @@ class BContour(object):
         self._bounds = bounds
         self._lut = []
         self._lutSteps = 0
-        self._start = self._beziers[0].start
-        self._end = self._beziers[-1].end
+        if self._beziers:
+            self._start = self._beziers[0].start
+            self._end = self._beziers[-1].end
 
     def __getitem__(self, index: int) -> Bezier:
         return self._beziers[index]
-- 
2.43.0


From c0819ddeef2c074a454b8d607537b9a042615784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:17 +0000
Subject: [PATCH 31/33] fix: BOutline reported stale bounds after a change of
 one of its contours

---
 PathLib/Bezier.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index 4eb4550..5011822 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -1062,19 +1062,15 @@ class BContour(object):
         return Bezier.xyPoint(x, y)
 
 class BOutline(object):
-    __slots__ = "_bContours", "_bounds"
+    __slots__ = "_bContours"
 
     def __init__(self, contours: list[Contour]):
-        bounds = PathUtilities.BoundsRectangle()
         bContours: list[BContour] = []
 
         for contour in contours:
-            bc = BContour(contour)
-            bContours.append(bc)
-            bounds = bounds.union(bc.boundsRectangle)
+            bContours.append(BContour(contour))
 
         self._bContours = bContours
-        self._bounds = bounds
 
     def __iter__(self):
         return self._bContours.__iter__()
@@ -1116,4 +1112,9 @@ class BOutline(object):
 
     @property
     def boundsRectangle(self):
-        return self._bounds
+        # the contours may have changed since the outline was made
+        bounds = PathUtilities.BoundsRectangle()
+        for bc in self._bContours:
+            bounds = bounds.union(bc.boundsRectangle)
+
+        return bounds
-- 
2.43.0


From d24ad7fdd2363b3140bc63b521f1a25b4c408c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:31 +0000
Subject: [PATCH 32/33] fix: Bezier.split() of curves of order 4 and more

---
 PathLib/Bezier.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index 5011822..ae86d32 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -447,9 +447,20 @@ class Bezier(object):
         elif self.order == 2:
             left = Bezier([q[0], q[3], q[5]])
             right = Bezier([q[5], q[4], q[2]])
-        else:
+        elif self.order == 3:
             left = Bezier([q[0], q[4], q[7], q[9]])
             right = Bezier([q[9], q[8], q[6], q[3]])
+        else:
+            # the first and the last point of each row of the hull
+            first: list[Point] = []
+            last: list[Point] = []
+            start = 0
+            for size in range(len(self.controlPoints), 0, -1):
+                first.append(q[start])
+                last.append(q[start + size - 1])
+                start += size
+            left = Bezier(first)
+            right = Bezier(last[::-1])
 
         # make sure we bind _t1/_t2 information!
         left._t1 = butils.map(0, 0, 1, self._t1, self._t2)
-- 
2.43.0


From 0a13380ec5242122ea42493e321bc4556699fe0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:08 +0000
Subject: [PATCH 33/33] fix: BContour.findClosestPoint() searches both curves
 where a closed contour ends and starts

---
 PathLib/Bezier.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index ae86d32..51bf366 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -990,6 +990,15 @@ class BContour(object):
                 closest = c2
                 cip = cip2
 
+        if i == 0 and tuple(self.start) == tuple(self.end):
+            # the contour is closed: its end is joined to its start
+            last = self.beziers[-1]
+            cip2, c2 = self._refineBinary(point, last, last.getLUT(steps), steps - 1)
+
+            if c2 < closest:
+                closest = c2
+                cip = cip2
+
         return (closest, cip)
 
     def pointToString(self, point: Point) -> str:
-- 
2.43.0

