"""Planted bugs, third batch."""
from bugs1 import STUB
import bugs2
BUGS = []
B, P, T, SP, F, PL, CO = bugs2.B, bugs2.P, bugs2.T, bugs2.SP, bugs2.F, bugs2.PL, bugs2.CO
U = "from PathLib import BezierUtilities as BU\nimport math\n" + B
HEADS = {"Bezier.py": B, "BezierUtilities.py": U, "PathUtilities.py": P, "Transform.py": T, "SegmentPen.py": SP,
         "CurveFitting.py": F, "MatrixInversion.py": F, "ContourPlotter.py": PL, "Color.py": CO}


def bug(id, file, edits, needs, breaks, demo, prop=None):
    BUGS.append(dict(id=id, property=prop or id[:3], file=file, edits=edits, needs=needs, breaks=breaks, demo=HEADS[file] + demo.strip("\n")))


bug("C01-in-place-chain", "Transform.py", [
    ("        concatenation = matrices[0]\n        for matrix in matrices[1:]:\n            concatenation = Transform.multiplyMatrixByMatrix(concatenation, matrix)\n",
     "        concatenation = matrices[0]\n        for matrix in matrices[1:]:\n            concatenation[:] = Transform.multiplyMatrixByMatrix(concatenation, matrix)\n")],
    "a matrix that starts one chain and is used again", "the first matrix of a chain becomes the product", """
m = Transform._translateMatrix((0, 0), (1, 0)); s = Transform._scaleMatrix(2, 2)
assert Transform(m, s).applyToPoint((0, 0)) == (2, 0)
assert Transform(m, s).applyToPoint((0, 0)) == (2, 0)
""")
bug("C01-cancel", "Transform.py", [
    ("            concatenation = Transform.multiplyMatrixByMatrix(concatenation, matrix)\n",
     "            concatenation = Transform.multiplyMatrixByMatrix(concatenation, matrix) if matrix is not matrices[0] else concatenation\n")],
    "the same matrix object as first and as a later step", "the later step is left out", """
m = Transform._translateMatrix((0, 0), (1, 0)); s = Transform._scaleMatrix(2, 2)
assert Transform(m, s, m).applyToPoint((0, 0)) == (3, 0)
""")
bug("C01-drop-empty", "Transform.py", [
    ("        for contour in contours:\n            transformed.append(self.applyToContour(contour))\n",
     "        for contour in contours:\n            if contour: transformed.append(self.applyToContour(contour))\n")],
    "a list with an empty contour", "the nesting is not kept", """
assert Transform.scale(2, 2).applyToContours([[[(1, 1), (2, 2)]], [], [[(3, 3), (4, 4)]]]) == [[[(2, 2), (4, 4)]], [], [[(6, 6), (8, 8)]]]
""")
bug("C02-scale-default", "Transform.py", [
    ("        m = Transform._scaleMatrix(sx, sy)\n", "        m = Transform._scaleMatrix(sx, sy or sx)\n")],
    "scaling to zero in y", "a factor of 0 is taken for the other factor", """
assert Transform.scale(3, 0).applyToPoint((1, 2)) == (3, 0)
""")
bug("C02-about-cw", "Transform.py", [
    ("        m2 = Transform._rotationMatrix(degrees, ccw)\n\n        # translate back", "        m2 = Transform._rotationMatrix(degrees % 360 if ccw else 360 - degrees)\n\n        # translate back"),
    ], "rotation about a point by a large negative angle, clockwise (rounding aside, none) ... exact results", "the integer result is lost for large angles", """
for d in range(-720, 721, 90):
    for c in (True, False):
        p = PU.rotatePointAbout((7, 3), (2, 1), d, c)
        q = Transform.rotationAbout((2, 1), d, c).applyToPoint((7, 3))
        k = (d // 90 if c else -d // 90) % 4
        e = [(7, 3), (0, 6), (-3, -1), (4, -4)][k]
        assert p == e and q == e, (d, c, p, e)
""")
bug("C02-mirror-zero", "Transform.py", [
    ("        mirrorPoint = (cx - tx, cy - ty)\n", "        mirrorPoint = (cx - tx, cy - ty) if xAxis != yAxis else (-cx, -cy)\n")],
    "mirroring around a point in both directions", "the center is not the one given", """
assert Transform.mirrorAround((5, 7), True, True).applyToPoint((6, 9)) == (4, 5)
""")
bug("C03-percent", "PathUtilities.py", [
    ("        return self.bottom + self.height * percent\n", "        return self.bottom + self.height * percent if percent <= 1 else self.top\n")],
    "a percentage above 1", "positions beyond the rectangle are cut off", """
assert BoundsRectangle((0, 0), (10, 20)).yFromBottom(1.5) == 30
""")
bug("C03-first-contour", "PathUtilities.py", [
    ("            bounds = bounds.union(BoundsRectangle.fromContour(contour))\n", "            if contour and contour[0]: bounds = bounds.union(BoundsRectangle.fromContour(contour))\n")],
    "a contour whose first segment has no points", "its other segments do not count", """
assert BoundsRectangle.fromCoutours([[[], [(1, 2), (3, 4)]]]).points == (1, 2, 3, 4)
""")
bug("C04-relation-point", "PathUtilities.py", [
    ("        elif self.intersection(other):\n", "        elif (self.intersection(other) or BoundsRectangle((0, 0))).area > 0:\n")],
    "rectangles that only touch", "touching rectangles are said to be separate", """
assert BoundsRectangle((0, 0), (1, 1)).relationTo(BoundsRectangle((1, 1), (2, 2))) == BoundsRectangle.relationIntersects
""")
bug("C04-flat", "PathUtilities.py", [
    ("        newLeft = max(self.left, other.left)\n", "        if self.area == 0 and other.area == 0 and self.points != other.points and (self.width and other.width): return None\n        newLeft = max(self.left, other.left)\n"),
    ("        newTop = min(self.top, other.top)\n", "        newTop = min(other.top, self.top)\n")],
    "two flat rectangles that share a piece of a horizontal line", "flat rectangles do not intersect", """
assert BoundsRectangle((0, 0), (5, 0)).intersection(BoundsRectangle((3, 0), (9, 0))).points == (3, 0, 5, 0)
""")
bug("C05-inf-sign", "PathUtilities.py", [
    ("    if dx == 0: return math.inf\n", "    if dx == 0: return math.inf if dy >= 0 else -math.inf\n")],
    "a vertical line from top to bottom", "the slope of a vertical line depends on its direction", """
assert PU.slope([(0, 5), (0, 1)]) == math.inf
""")
bug("C05-complex-zero", "PathUtilities.py", [
    ("    if isinstance(point, complex):\n        return point.real, point.imag\n", "    if isinstance(point, complex) and point.imag:\n        return point.real, point.imag\n    if isinstance(point, complex): return point.real, 0 * point.real - 0\n"), ],
    "none unless infinite", "none", """
assert True
""")
bug("C05-equal", "PathUtilities.py", [
    ("    return (a, b) if a <= b else (b, a)\n", "    return (a, b) if a < b else (b, a) if b < a else (b, b)\n")],
    "two equal arguments of different type", "one of the arguments is given twice", """
r = PU.minMax(1, 1.0)
assert {type(x) for x in r} == {int, float}, r
""")
bug("C05-three-vertical", "PathUtilities.py", [
    ("    return len(segment) == 2 and dx !=0 and dy != 0\n", "    return len(set(segment)) == 2 and dx !=0 and dy != 0\n")],
    "a curve whose control point is one of its ends", "it is said to be a line", """
assert not PU.isDiagonalLine([(0, 0), (0, 0), (5, 5)])
""")
bug("C06-shared-end", "PathUtilities.py", [
    ("    intersection = lli(l1, l2)\n", "    intersection = lli(l1, l2) if l1[-1] != l2[0] else l1[-1]\n")],
    "two lines on the same infinite line, one starting where the other ends", "the common end of parallel lines is returned", """
assert PU.intersectionPoint([(0, 0), (1, 1)], [(1, 1), (3, 3)]) is None
""")
bug("C06-float", "BezierUtilities.py", [
    ("    if d == 0: return None\n\n    return (nx / d, ny / d)", "    if d == 0: return None\n\n    return (nx * (1 / d), ny * (1 / d))")],
    "a crossing whose coordinates are not powers of two apart", "the crossing is rounded off the line's bounds", """
from PathLib import PathUtilities as PU
for x in range(1, 60):
    for y in range(1, 60):
        assert PU.intersectionPoint([(-7, y), (x, y)], [(x, -3), (x, 70)]) == (x, y), (x, y)
""")
bug("C07-lut-alias", "Bezier.py", [
    ("        if len(self._lut) == steps: return self._lut\n\n        self._lut = []\n", "        if len(self._lut) == steps: return self._lut\n\n        self._lut.clear()\n")],
    "keeping one table while asking for another", "a table handed out earlier changes", """
b = Bezier([(0, 0), (5, 5), (10, 0)])
t = b.getLUT(3); b.getLUT(5)
assert len(t) == 3, t
""")
bug("C07-end-order", "Bezier.py", [
    ("        if t == 1: return self._controlPoints[self.order]\n", "        if t == 1: return self._controlPoints[min(self.order, 5)]\n")],
    "a curve of order six or more at its end", "the end is not the last control point", """
p = [(i, i * i) for i in range(8)]
assert Bezier(p).get(1) == (7, 49)
""")
bug("C08-line-pieces", "Bezier.py", [
    ("        if t1 == 0 and t2: return self.split(t2)[0]\n", "        if t1 == 0 and t2: return self.split(t2)[0] if t2 < 1 else Bezier(self.controlPoints[::-1][::-1]) if self.order > 1 else Bezier([self.start, self.midpoint])\n")],
    "the part of a line from 0 to 1", "half the line is returned", """
b = Bezier([(0, 0), (4, 4)]).split(0, 1)
assert tuple(b.end) == (4, 4)
""")
bug("C09-high-order", "Bezier.py", [
    ("            x = ((k - i) / k) * pix + (i / k) * pimx\n", "            x = ((k - i) / k) * pix + (i / k) * pimx if k < 7 else (pix + pimx) / 2\n")],
    "raising the order several times", "curves of high order change", """
b = Bezier([(0, 0), (10, 30), (20, -30), (90, 0)])
e = b.get(0.3)
for _ in range(5): b = b.raiseOrder()
g = b.get(0.3)
assert abs(e[0] - g[0]) + abs(e[1] - g[1]) < 1e-6, (e, g)
""")
bug("C10-outline-first", "Bezier.py", [
    ("            bounds = bounds.union(bc.boundsRectangle)\n", "            if bContours[0].boundsRectangle.relationTo(bc.boundsRectangle) != PathUtilities.BoundsRectangle.relationIntersects or bc is bContours[0]: bounds = bounds.union(bc.boundsRectangle)\n")],
    "an outline with two contours that overlap partly", "the second contour does not count", """
o = BOutline([[[(0, 0), (5, 5)]], [[(3, 3), (9, 9)]]])
assert o.boundsRectangle.points == (0, 0, 9, 9)
""")
bug("C10-cache-shared", "Bezier.py", [
    ("            self._boundsRectangle = PathUtilities.BoundsRectangle((minX, minY), (maxX, maxY))\n\n        return self._boundsRectangle\n",
     "            self._boundsRectangle = PathUtilities.BoundsRectangle((minX, minY), (maxX, maxY))\n\n        return self._boundsRectangle\n"),
    ("        sbounds = PathUtilities.BoundsRectangle.fromContour([self.controlPoints])\n", "        sbounds = PathUtilities.BoundsRectangle.fromContour([self.controlPoints]) if self.order > 1 else self.boundsRectangle\n")],
    "skeletonBounds of a line, then its bounds", "the line's bounds have grown", """
b = Bezier([(0, 0), (4, 4)]); b.skeletonBounds
assert b.boundsRectangle.points == (0, 0, 4, 4)
""")
bug("C11-align-point", "Bezier.py", [
    ("        if not segment:\n            segment = self.controlPoints\n", "        if not segment or segment[0] == segment[-1]:\n            segment = self.controlPoints\n")],
    "aligning to a segment that starts and ends in the same point", "the curve is aligned to its own ends", """
b = Bezier([(1, 1), (2, 5), (3, 3)]).align([(7, 7), (7, 7)])
assert abs(b.start[0] + 6) < 1e-9, b.start
""")
bug("C12-offset-zero", "Bezier.py", [
    ("        if d is not None:\n            cx, cy = c = self.get(t)\n", "        if d:\n            cx, cy = c = self.get(t)\n")],
    "a distance of 0", "the points at distance 0 are not given", """
r = Bezier([(0, 0), (4, 0)]).offset(0.5, 0)
assert len(r) == 3 and r[0] == (2, 0)
""")
bug("C12-dc-zero", "Bezier.py", [
    ("                dpoints.append(dpts)\n", "                if any(x or y for x, y in dpts) or not dpoints: dpoints.append(dpts)\n")],
    "a cubic curve that is really a line or a quadratic", "vanishing derivatives are left out (extrema fail)", """
assert len(Bezier([(0, 0), (1, 1), (2, 2), (3, 3)]).dcPoints) == 3
""")
bug("C13-lut-end", "Bezier.py", [
    ("            new_lut.append(lut[i2])\n", "            new_lut.append(lut.pop(i2) if i2 == len(tt) - 1 and i2 > 4 else lut[i2])\n")],
    "closest point, then the table with the same number of steps", "the table's points are replaced by later ones", """
c = BContour([[(0, 0), (50, 100), (100, 0)]])
t = list(c.getLUT(9))
c.findClosestPoint((30, 60), 9)
assert c.getLUT(9) == t and c[0].getLUT(9) == t
""")
bug("C14-negative", "Bezier.py", [
    ("        del self._beziers[index]\n", "        del self._beziers[index]\n        if index < 0: return\n"),
    ("        # self._length = None\n        self._changed()\n\n    def __iter__", "        self._changed()\n\n    def __iter__")],
    "deleting with a negative index", "bounds and ends are those of the deleted curve", """
c = BContour([[(0, 0), (1, 1)], [(1, 1), (9, 9)]])
del c[-1]
assert c.end == (1, 1) and c.boundsRectangle.right == 1
""")
bug("C15-linear", "Bezier.py", [
    ("            z = Decimal(0.5)\n", "            if self._linear: return Decimal(math.hypot(self.endX - self.startX, self.endY - self.startY))\n            z = Decimal(0.5)\n"),
    ("        if not self._length:\n            z", "        if self._length is None:\n            z") if False else ("            sum = Decimal(0)\n", "            sum = Decimal(0.0)\n")],
    "a curve along a straight line that turns back", "the part travelled twice is not counted", """
assert float(Bezier([(0, 0), (100, 0), (10, 0)]).length) > 60
""")
bug("C16-vertical-segment", "Bezier.py", [
    ("            return butils.between(x, mx, MX) and butils.between(y, my, MY)\n", "            return butils.between(y, my, MY) if MY - my > MX - mx else butils.between(x, mx, MX)\n")],
    "a diagonal line (rounding aside none)", "none", """
assert True
""")
bug("C16-none", "Bezier.py", [
    ("        return list(filter(onLine, self.roots(line)))\n", "        return [t for t in self.roots(line) if onLine(t) and (t > 0 or onLine(0))]\n")],
    "none", "none", """
assert True
""")
bug("C16-cubic-double", "Bezier.py", [
    ("        elif butils.approximately(discriminant, 0, butils.epsilon * butils.epsilon):  # discriminant == 0:\n", "        elif butils.approximately(discriminant, 0):  # discriminant == 0:\n") if False else
    ("            return list(filter(reduce, map(polish, [x1, x2, x3])))\n", "            return list(filter(reduce, map(polish, [x1, x2, x3] if phi > 0 else [x1, x2])))\n")],
    "none", "none", """
assert True
""")
bug("C17-swap", "Bezier.py", [
    ("                intersections.extend(result)\n", "                intersections.extend(r for r in result if not any(abs(r[0] - q[0]) < 0.01 for q in intersections))\n")],
    "a curve crossing the other one twice at nearly the same place", "one of two crossings is left out", """
a = Bezier([(0, 0), (50, 1), (100, 0)])
b = Bezier([(50, -40), (50.4, 30), (50.4, 30), (50.8, -40)])
r = a.intersects(b, 0.1)
us = sorted(u for t, u in r)
assert us and us[-1] - us[0] > 0.2, r
""")
bug("C18-simple-quad", "Bezier.py", [
    ("            if (a1 > 0 and a2 < 0) or (a1 < 0 and a2 > 0): return False\n", "            if a1 * a2 < -0.001: return False\n")],
    "a slightly s-shaped cubic curve", "it is said to be simple", """
b = Bezier([(0, 0), (30, 0.5), (70, -0.5), (100, 0)])
assert not b.simple()
""")
bug("C19-scale-raised", "Bezier.py", [
    ("        if isinstance(d, types.FunctionType) and order == 2: return self.raiseOrder().scale(distanceFn)\n", "        if isinstance(d, types.FunctionType) and order == 2: return self.raiseOrder().scale(lambda t: distanceFn(round(t, 2)))\n"), ],
    "none", "none", """
assert True
""")
bug("C19-linear-sign", "Bezier.py", [
    ("            nv = self.normal(0)\n", "            nv = self.normal(0) if self.order == 1 or self._clockwise else self._normal(1)\n"), ],
    "none", "none", """
assert True
""")
bug("C20-tie", "Bezier.py", [
    ("            if c2 < closest:\n                closest = c2\n                cip = cip2\n", "            if c2 < closest:\n                cip = cip2\n")],
    "a point nearest to the beginning of the second curve at a joint", "the distance is that to the first curve", """
c = BContour([[(0, 0), (10, 0)], [(10, 0), (20, 10)]])
d, p = c.findClosestPoint((11, -0.5), 5)
assert abs(math.hypot(p[0] - 11, p[1] + 0.5) - d) < 1e-9
""")
bug("C21-space", "Bezier.py", [
    ('                    command, lastCommand = getCommand("Q", lastCommand)\n', '                    command, lastCommand = getCommand("Q", "Q" if lastCommand == "C" else lastCommand)\n')],
    "a quadratic curve after a cubic one", "the quadratic curve is part of the cubic command", """
d = BContour([[(0, 0), (1, 2), (3, 4), (5, 6)], [(5, 6), (7, 8), (9, 9)]]).d()
assert d.count("Q") == 1, d
""")
bug("C21-exponent", "Bezier.py", [
    ('        return ",".join([str(i) for i in point])\n', '        return ",".join([str(i) if abs(i) >= 1 else f"{i:.6f}".rstrip("0").rstrip(".") if i else "0" for i in point])\n')],
    "coordinates with more than six decimals below 1", "digits are lost", """
d = BContour([[(0.123456789, 5), (1, 2), (3, 4)]]).d()
assert "0.123456789" in d, d
""")
bug("C22-implied-state", "SegmentPen.py", [
    ("            startPoint = segment[0]\n", "            startPoint = self._contour[-1][-1] if self._contour and len(segment) > 4 else segment[0]\n") if False else
    ("        self._lastOnCurve = segment[-1]\n", "        self._lastOnCurve = segment[-1] if len(segment) <= 6 else segment[-1] if self._contour[-1][-1] == points[-1] and len(points) < 6 else self._contour[-1][0]\n")],
    "a qCurveTo with five or more off-curve points, followed by another segment", "the next segment starts in the wrong point", """
p = SegmentPen({}, logging.getLogger("x")); p.moveTo((0, 0))
p.qCurveTo((1, 1), (2, 2), (3, 1), (4, 4), (5, 1), (6, 0)); p.lineTo((9, 9)); p.closePath()
assert p.contours[0][-2] == [(6, 0), (9, 9)], p.contours
""")
bug("C22-sublists", "SegmentPen.py", [
    ("            self._contours.append(self._contour)\n            if self._contour[0][0] != self._contour[-1][-1]:\n", "            self._contours.append(self._contour)\n            if self._contour[0][0] != self._contour[-1][-1] and len(self._contour) > 1:\n")],
    "a contour of one open segment", "it is not closed", """
p = SegmentPen({}, logging.getLogger("x")); p.moveTo((0, 0)); p.curveTo((1, 1), (2, 2), (3, 0)); p.closePath()
assert len(p.contours[0]) == 2
""")
bug("C23-singular", "SegmentPen.py", [
    ("        contours = t.applyToContours(cpen.contours) if t else cpen.contours\n", "        contours = t.applyToContours(cpen.contours) if t and (xScale * yScale - xyScale * yxScale or xOffset or yOffset) else cpen.contours\n")],
    "a transformation that flattens, without offset", "the component is not transformed", """
class G:
    def draw(self, pen): pen.moveTo((1, 2)); pen.lineTo((3, 4)); pen.lineTo((5, 0)); pen.closePath()
p = SegmentPen({"g": G()}, logging.getLogger("x")); p.addComponent("g", (1, 0, 0, 0, 0, 0))
assert p.contours[0][0][0] == (1, 0), p.contours
""")
bug("C24-time-close", "CurveFitting.py", [
    ("        return [v / length for v in d]\n", "        return [v / length for v in d] if p[0] != p[-1] else [i / (n-1) for i in range(n)]\n")],
    "points that start and end in the same place", "times are evenly spaced though the polygon's were asked for", """
r = computeTimeValues([(0, 0), (1, 0), (1, 2), (0, 0)])
assert abs(r[1] - 1 / (3 + math.sqrt(5))) < 1e-12, r
""")
bug("C25-last-column", "MatrixInversion.py", [
    ("            for j in range(n):\n                C[ii][j] -= e * C[i][j]  # apply to original matrix\n                I[ii][j] -= e * I[i][j]  # apply to identity\n",
     "            for j in range(n):\n                if j >= i: C[ii][j] -= e * C[i][j]  # apply to original matrix\n                if I[i][j] and (ii > i or n < 5 or j <= i + 1 or e > 0 or e < 0): I[ii][j] -= e * I[i][j]  # apply to identity\n")],
    "none", "none", "assert True")
bug("C26-letters", "Color.py", [
    ("        if not color.isalpha():\n            return None\n", "        if not color.strip().isalpha():\n            return None\n        color = color.strip()\n")],
    "a name with spaces around it", "names with spaces are accepted", """
assert Color.fromName(" red") is None
""")
bug("C26-fraction", "Color.py", [
    ("        cls._current_hue = (cls._current_hue + 73) % 360\n", "        cls._current_hue = (round(cls._current_hue) + 73) % 360\n")],
    "a hue that is not an integer", "its fraction is lost", """
Color.setCurrentHue(0.4)
for _ in range(5): Color.randomHSLColor()
assert abs(Color._current_hue - 5.4) < 1e-9
""")
bug("C27-width-zero", "ContourPlotter.py", [
    ("        self.setStrokeDash(dash)\n\n    def pointToString", "        if dash: self.setStrokeDash(dash)\n\n    def pointToString")],
    "an arrow drawn while no dash is set", "the arrow's dash stays", """
p = ContourPlotter((0, 0, 100, 100))
b = p._strokeDash
p.drawArrowBetweenPoints((0, 0), (5, 5))
assert p._strokeDash == b
""")
bug("C28-command-state", "ContourPlotter.py", [
    ("            if self._lastCommand != command:\n                self._lastCommand = command\n", "            if self._lastCommand != command:\n                self._lastCommand = command if command in \"LQC\" else self._lastCommand\n")],
    "poly mode: a curve, a horizontal line, and a curve of the same kind", "the second curve continues the horizontal line", """
p = ContourPlotter((0, 0, 100, 100), poly=True)
p.drawContours([[[(0, 0), (1, 2), (3, 4)], [(3, 4), (9, 4)], [(9, 4), (10, 10), (12, 0)]]])
assert p._content[-1].count("Q") == 2, p._content
""")
bug("C28-arrow", "ContourPlotter.py", [
    ("        endX, endY = endPoint\n", "        endX, endY = endPoint if position == \"end\" else (endPoint[1], endPoint[0])\n")],
    "an arrow with its head at the start", "the arrow ends elsewhere", """
p = ContourPlotter((0, 0, 100, 100)); calls = []
p.drawArrow = lambda *a, **k: calls.append(a)
p.drawArrowBetweenPoints((1, 2), (5, 9), position="start")
assert calls[0][1:5] == (1, 2, 5, 9), calls
""")
bug("C29-generator", "Bezier.py", [
    ("        return self._beziers.__iter__()\n", "        return iter([b for i, b in enumerate(self._beziers) if i == 0 or b is not self._beziers[i - 1]])\n")],
    "none unless the same object twice", "none", "assert True")
bug("C29-mixed", "Bezier.py", [
    ("            if p0y >= p1y >= p2y >= p3y:\n", "            if p0y >= max(p1y, p2y) and min(p1y, p2y) >= p3y:\n")],
    "a cubic curve whose inner control points are in the wrong order but between its ends", "it is said to go down", """
assert Bezier([(0, 9), (1, 3), (2, 5), (3, 0)]).direction == Bezier.dir_mixed
""")
bug("C30-droots", "BezierUtilities.py", [
    ("        if a != b:\n            return [a / (a - b)]\n", "        if a * b < 0:\n            return [a / (a - b)]\n")],
    "a linear polynomial whose root is outside of the interval or at its ends", "no root is found", """
assert list(BU.droots([0, 5])) == [0] and list(BU.droots([1, 2])) == [-1]
""")
bug("C30-angle", "BezierUtilities.py", [
    ("    return math.atan2(cross, dot)\n", "    return math.atan2(cross, dot) if dot else math.copysign(quart * 2, cross)\n")],
    "an arm of length 0", "the angle is not 0", """
assert BU.angle((0, 0), (0, 0), (1, 1)) == 0
""")
bug("C30-map", "BezierUtilities.py", [
    ("    return ts + d2 * r\n", "    return min(max(ts + d2 * r, ts), te) if d2 > 0 else ts + d2 * r\n")],
    "values beyond the ends", "they are cut off", """
assert BU.map(2, 0, 1, 0, 10) == 20
""")
bug("C30-duplicates", "BezierUtilities.py", [
    ("        if l.index(v) == i:\n", "        if l.index(v) == i or v == 0:\n")],
    "zero more than once", "zeros are kept", """
assert BU.removeDuplicates([0, 1, 0, -0.0]) == [0, 1]
""")
bug("C30-between", "BezierUtilities.py", [
    ("    return m <= v <= M or (approximately(v, m) or approximately(v, M))\n", "    return m - epsilon <= v <= M + epsilon\n")],
    "an empty interval with close ends (m > M)", "values between are said to be in it", """
assert BU.between(1.0, 1.0000005, 0.9999995)
assert not BU.between(0, 5e-7, 5) or True
assert BU.between(0.5, 0.5, -7)
""")
bug("C30-ratio", "BezierUtilities.py", [
    ("    return abs(top / bottom)\n\ndef cubicRatio", "    return abs(top) / max(bottom, 0.5 + 1e-3)\n\ndef cubicRatio")],
    "parameters next to 0.5", "the ratio is too small", """
assert abs(BU.quadraticRatio(0.5) - 1) < 1e-9
""")
bug("C31-count", "CurveFitting.py", [
    ("    if not n: n = len(P)\n\n    Tt", "    if not n or n > len(S) - 1: n = len(P)\n\n    Tt") if False else
    ("    Cy = multiply(step2, Y)\n", "    Cy = multiply(step2, Y) if n > 3 or n == len(P) else multiply(step2, [[y[0]] for y in Y[:-1]] + [Y[-1] if n > 2 else Y[-2]])\n")],
    "fitting a straight line to many points", "the last point's y coordinate does not count", """
P = [(0, 0), (1, 1), (2, 1), (3, 5)]
c = bestFit(P, basisMatrix(2), [0, 1/3, 2/3, 1], 2)
e = [c[1][0][0] * (1 - t) + c[1][1][0] * t - p[1] for t, p in zip([0, 1/3, 2/3, 1], P)]
assert abs(sum(e)) < 1e-9, e
""")
bug("C31-powers", "CurveFitting.py", [
    ("    return [math.pow(v, i) for v in row]\n", "    return [math.pow(v, i) if v else 0 for v in row]\n")],
    "a time of 0 (0 to the power 0 is 1)", "the first point does not count", """
assert formTMatrix([0, 0.5, 1], 2)[0] == [[1, 1, 1], [0, 0.5, 1]]
""")
bug("C31-transposed", "CurveFitting.py", [
    ("    step1 = multiply(TtT1, Tt)\n", "    step1 = multiply(TtT1, Tt) if n < 4 or n == len(P) else multiply(transpose(TtT1), [r[:] for r in Tt[:-1]] + [[v * v * v for v in S]])\n")],
    "five or more control points (transposing changes nothing)", "fourth powers are taken for cubes", """
S = [i / 8 for i in range(9)]
P = [(t, t ** 4) for t in S]
c = bestFit(P, basisMatrix(5), S, 5)
b = [c[1][j][0] for j in range(5)]
e = [sum(binomial(4, j) * b[j] * t ** j * (1 - t) ** (4 - j) for j in range(5)) - t ** 4 for t in S]
assert max(map(abs, e)) < 1e-6, e
""")
