"""Planted bugs, fifth batch."""
import bugs3
BUGS = []
HEADS = bugs3.HEADS


def bug(id, file, edits, needs, breaks, demo, prop=None):
    BUGS.append(dict(id=id, property=prop or id[:3], file=file, edits=edits, needs=needs, breaks=breaks, demo=HEADS[file] + demo.strip("\n")))


bug("C01-identity-part", "Transform.py", [
    ("        for matrix in matrices[1:]:\n", "        for matrix in filter(lambda m: [row[:2] for row in m] != [[1, 0], [0, 1], [0, 0]], matrices[1:]):  # not the identity\n")],
    "a perspective matrix that is not the first of its chain", "it is taken for the identity and left out", """
T = Transform
t = T(T._scaleMatrix(2, 2), T._perspectiveMatrix(0.5, 0))
assert t.applyToPoint((1, 1)) == (1, 1), t.applyToPoint((1, 1))
""")
bug("C01-int-row", "Transform.py", [
    ("        for matrix in matrices[1:]:\n", "        for matrix in matrices[1:2] + matrices[:1:-1]:\n")],
    "a chain of four or more matrices", "the later ones come in reverse order", """
T = Transform
t = T(T._scaleMatrix(2, 2), T._translateMatrix((0, 0), (1, 0)), T._scaleMatrix(3, 3), T._translateMatrix((0, 0), (5, 0)))
assert t.applyToPoint((1, 0)) == (14, 0), t.applyToPoint((1, 0))
""")
bug("C02-int-table", "Transform.py", [
    ("        return round(math.cos(math.radians(degrees)), 15)\n",
     "        return 0.0 if int(degrees) % 180 == 90 else round(math.cos(math.radians(degrees)), 15)\n")],
    "an angle less than one degree beyond a quarter turn", "its cosine is 0", """
import math
p = Transform.rotation(90.5).applyToPoint((100, 0))
assert abs(p[0] - 100 * math.cos(math.radians(90.5))) < 1e-9, p
""")
bug("C03-center-floor", "PathUtilities.py", [
    ("        return midpoint(self.diagonal)\n",
     "        return (self.left + self.width // 2, self.bottom + self.height // 2) if isinstance(self.width, int) else midpoint(self.diagonal)\n")],
    "a rectangle with an odd width in whole numbers", "the center is rounded", """
assert BoundsRectangle((0, 0), (3, 4)).centerPoint == (1.5, 2)
""")
bug("C04-sides", "PathUtilities.py", [
    ("        if newRight < newLeft or newTop < newBottom: return None  # maybe want <=, >=?\n",
     "        if newRight < newLeft or newTop < newBottom or (newRight == newLeft and newTop == newBottom): return None  # maybe want <=, >=?\n")],
    "rectangles that touch in a corner", "no intersection", """
assert BoundsRectangle((0, 0), (1, 1)).intersection(BoundsRectangle((1, 1), (2, 2))) is not None
""")
bug("C05-float-vertical", "PathUtilities.py", [
    ("    if dx == 0: return math.inf\n    return dy / dx\n", "    if abs(dx) < 1e-6: return math.inf\n    return dy / dx\n")],
    "a steep line with a tiny run", "the slope is infinite", """
assert PU.slope([(0, 0), (1e-7, 1e-7)]) == 1
""")
bug("C06-overflow", "BezierUtilities.py", [
    ("    if d == 0: return None\n", "    if d == 0 or abs(d) * 1000 < abs(x1 - x2) + abs(y1 - y2): return None\n")],
    "long lines that meet at a very small angle", "they count as parallel", """
from PathLib.PathUtilities import intersectionPoint
assert intersectionPoint([(0, 0), (60000, 60001)], [(0, 0), (1, 1)]) is not None
assert intersectionPoint([(0, 0), (100000, 1)], [(0, 0), (-1, 0)]) is not None
assert intersectionPoint([(0, 0), (99999, 100000)], [(0, 0), (1, 1)]) is not None
""")
bug("C07-shift", "Bezier.py", [
    ("        for t in range(steps+1):\n            self._lut.append(self.get(t / steps))\n",
     "        for t in range(steps+1):\n            self._lut.append(self.get(t * (1 / steps)))\n")],
    "a table of 50 points (49 steps), for example", "the last point is not the end of the curve but near it", """
b = Bezier([(0, 0), (10, 5), (3, 7)])
assert all(b.getLUT(n)[-1] == (3, 7) for n in range(2, 200))
""")
bug("C09-abc-flat", "Bezier.py", [
    ("        c = butils.lli4(a, b, points[0], points[-1])\n",
     "        c = butils.lli4(a, b, points[0], points[-1]) if points[0][0] != points[-1][0] else (points[0][0], a[1])\n")],
    "a curve with a vertical baseline", "C is at the height of A", """
b = Bezier([(0, 0), (5, 9), (0, 10)])
a, m, c, ratio, hull = b.getABC(0.25)
d1 = (a[0] - m[0]) * (c[1] - m[1]) - (a[1] - m[1]) * (c[0] - m[0])
assert abs(d1) < 1e-9, (a, m, c)
""")
bug("C10-monotone", "Bezier.py", [
    ("            for dim in range(2):\n                result[dim] = self._getminmax(dim, extrema[dim])\n",
     "            for dim in range(2):\n                ends = sorted((self.start[dim], self.end[dim]))\n                inside = all(ends[0] <= p[dim] <= ends[1] for p in self.controlPoints[1:2])\n                result[dim] = (ends[0], ends[1]) if inside else self._getminmax(dim, extrema[dim])\n")],
    "a cubic curve whose first control point is between the ends in a coordinate, the second one far outside", "the bounds are those of the ends", """
b = Bezier([(0, 0), (1, 1), (2, 50), (4, 4)])
assert b.bbox[1][1] >= max(b.get(i / 100)[1] for i in range(101)), b.bbox
""")
bug("C11-overshoot", "Bezier.py", [
    ("        tBounds = aligned.boundsRectangle\n",
     "        tBounds = aligned.boundsRectangle if not self._linear else PathUtilities.BoundsRectangle(aligned.start, aligned.end)\n")],
    "a straight curve that goes beyond its end", "the box ends at the end points", """
b = Bezier([(0, 0), (9, 9), (3, 3)])
assert max(p[0] for s in b.tightbbox for p in s) > 4
""")
bug("C12-dc-quartic", "Bezier.py", [
    ("                c = d - 1\n", "                c = (0, 1, 2, 3, 3)[min(d - 1, 4)]\n"),
    ("                for j in range(c):\n", "                for j in range(len(p) - 1):\n")],
    "a curve of order 4 or more", "the control points of the derivatives are too small", """
assert Bezier([(i, 0) for i in range(5)]).dcPoints[0] == [(4, 0)] * 4
""")
bug("C12-unit-line", "Bezier.py", [
    ("        if self.order == 1:\n            p = [p[0], (0, 0), (0, 0)]\n            a = 1\n", "        if self.order == 1:\n            p = [p[0], (0, 0), (0, 0)]\n            a = mt if not isinstance(t, Decimal) and 0 < t < 1e-3 else 1\n"),
    ], "x", "x", "")
bug("C13-split-cache", "Bezier.py", [
    ("        # no shortcut: use \"de Casteljau\" iteration.\n        q = self.hull(t1)\n",
     "        # no shortcut: use \"de Casteljau\" iteration.\n        q = self.hull(t1 if not self._extrema or t1 not in self._extrema[2] else self._extrema[2].pop(self._extrema[2].index(t1)))\n")],
    "splitting a curve at one of its extrema after asking for them", "the extremum is gone from the answers", """
b = Bezier([(0, 0), (5, 10), (10, 0)])
e = list(b.extrema[2]); b.split(e[0])
assert b.extrema[2] == e
""")
bug("C14-same-bounds", "Bezier.py", [
    ("        self._beziers[index] = Bezier(value)\n",
     "        old = self._beziers[index]\n        self._beziers[index] = Bezier(value)\n        if self._beziers[index].bbox == old.bbox: return\n")],
    "replacing a curve with one that has the same bounds", "the lookup table (and start and end) stay those of the old curve", """
c = BContour([[(0, 0), (10, 10)], [(10, 10), (0, 0)]])
c.getLUT(3); c[0] = [(0, 0), (10, 0), (10, 10)]
assert c.getLUT(3)[1] == (7.5, 2.5), c.getLUT(3)
""")
bug("C15-cusp", "Bezier.py", [
    ("        result = (dx * dx + dy * dy).sqrt()\n", "        result = (dx * dx + dy * dy).sqrt() if abs(dx) > abs(dy) / 100000 or not dx else abs(dy)\n        if dx * dy < 0 and abs(dx) == abs(dy): result = abs(dx)\n")],
    "a line at 135 degrees", "the length is too small by a factor of the root of two", """
assert abs(float(Bezier([(0, 0), (-5, 5)]).length) - 50 ** 0.5) < 1e-6
""")
bug("C16-even-line", "Bezier.py", [
    ("                return list(filter(reduce, [-c / b]))\n", "                return list(filter(reduce, [c / b]))\n")],
    "a cubic curve that is a line in even steps", "no intersections", """
assert len(Bezier([(0, 0), (1, 1), (2, 2), (3, 3)]).lineIntersects(((0, 2), (2, 0)))) == 1
""")
bug("C16-quadratic-cubic", "Bezier.py", [
    ("            return list(filter(reduce, [(q - b) / a2, (-b - q) / a2]))\n", "            return list(filter(reduce, [(q - b) / a2] if q == b else [(q - b) / a2, (b - q) / a2]))\n")],
    "a cubic curve raised from a quadratic one", "one of two intersections is wrong", """
b = Bezier([(0, 0), (2, 4), (4, 4), (6, 0)])
r = b.lineIntersects(((-10, 1), (10, 1)))
assert len(r) == 2 and all(abs(b.get(t)[1] - 1) < 1e-6 for t in r), r
""")
bug("C17-first", "Bezier.py", [
    ("            left, right = pair\n            results.extend", "            left, right = pairs[0] if results and c1._t2 - c1._t1 > 0.6 else pair\n            results.extend")],
    "two curves without extrema that cross twice", "only crossings in one quarter of the curves are found", """
a = Bezier([(0, 0), (50, 10), (100, 100)]); b = Bezier([(0, -5), (50, 40), (100, 85)])
ts = [t[0] for t in a.intersects(b)]
assert any(t < 0.4 for t in ts) and any(t > 0.6 for t in ts), ts
""")
bug("C18-unsorted", "Bezier.py", [
    ("            result[2] = butils.removeDuplicates(sorted(roots))\n", "            result[2] = butils.removeDuplicates(roots)\n")],
    "a curve with an extremum in y before one in x", "the pieces of the reduction overlap", """
b = Bezier([(0, 0), (10, 40), (30, 10), (5, 0)])
t = [(s._t1, s._t2) for s in b.reduce()]
assert all(x <= y for x, y in t) and all(abs(u[1] - v[0]) < 1e-9 for u, v in zip(t, t[1:])), t
""")
bug("C19-origin", "Bezier.py", [
    ("        v = [self.offset(0, 10), self.offset(1, 10)]\n", "        v = [self.offset(0, r1), self.offset(1, r2)]\n")],
    "an offset of distance 0", "the lines to the origin of the scaling have no direction", """
b = Bezier([(0, 0), (30, 20), (70, 20), (100, 0)])
o = b.offset(0)
assert o[0].start == (0, 0) and o[-1].end == (100, 0)
""")
bug("C20-second", "Bezier.py", [
    ("            if i == steps - 1 and nCurves >= 2: curve2 = self.beziers[1]\n", "            if i == steps - 1 and nCurves > 2: curve2 = self.beziers[1]\n")],
    "a contour of two curves and a point nearest to the second one, next to the joint", "only the first curve is searched", """
c = BContour([[(0, 0), (100, 0)], [(100, 0), (200, 0)]])
d, p = c.findClosestPoint((110, 5), 3)
assert d < 5.5, (d, p)
""")
bug("C21-no-pen", "Bezier.py", [
    ("                if penX == x and penY == y:\n                    continue\n                elif penX == x:\n                    # vertical line\n                    command, lastCommand = getCommand(\"V\", lastCommand)\n",
     "                if (x, y) == firstPoint and bezier is self._beziers[-1] and lastCommand:\n                    continue\n                elif penX == x and penY == y:\n                    continue\n                elif penX == x:\n                    # vertical line\n                    command, lastCommand = getCommand(\"V\", lastCommand)\n")],
    "a closed contour that ends with a line", "the line back to the start is left out", """
d = BContour([[(0, 0), (5, 9)], [(5, 9), (7, 1)], [(7, 1), (0, 0)]]).d()
assert d.endswith("0,0") and d.count(",") == 4, d
""")
bug("C22-through-start", "SegmentPen.py", [
    ("        if pt != self._lastOnCurve:\n", "        if pt != self._lastOnCurve and (not self._contour or pt != self._contour[0][0] or len(self._contour) < 2):\n")],
    "a contour that comes through its start before it ends", "the line to the start is not recorded", """
p = SegmentPen({}, logging.getLogger())
p.moveTo((0, 0)); p.lineTo((5, 0)); p.lineTo((5, 5)); p.lineTo((0, 0)); p.lineTo((-5, 0)); p.lineTo((-5, -5)); p.closePath()
assert len(p.contours[0]) == 6, p.contours
""")
bug("C23-order", "SegmentPen.py", [
    ("        self.contours.extend(contours)\n", "        self.contours[len(self.contours) if self._lastOnCurve != (0, 0) or not self.contours else 0:0] = contours\n")],
    "a second component added before anything was drawn", "it comes before the first one", """
class G:
    def __init__(self, n): self.n = n
    def draw(self, pen): pen.moveTo((self.n, 0)); pen.lineTo((self.n, 5)); pen.lineTo((9, 9)); pen.closePath()
p = SegmentPen({"a": G(1), "b": G(2)}, logging.getLogger())
p.addComponent("a", (1, 0, 0, 1, 0, 0)); p.addComponent("b", (1, 0, 0, 1, 0, 0))
assert [c[0][0] for c in p.contours] == [(1, 0), (2, 0)]
""")
bug("C23-open", "SegmentPen.py", [
    ("        glyph = self._glyphSet[glyphName]\n        cpen = SegmentPen(self._glyphSet, self.logger)\n        glyph.draw(cpen)\n",
     "        glyph = self._glyphSet[glyphName]\n        cpen = SegmentPen(self._glyphSet, self.logger)\n        self._contour = glyph.draw(cpen) or []\n")],
    "a component added while a contour is being drawn", "what was drawn of the contour is lost", """
class G:
    def draw(self, pen): pen.moveTo((1, 0)); pen.lineTo((1, 5)); pen.lineTo((9, 9)); pen.closePath()
p = SegmentPen({"a": G()}, logging.getLogger())
p.moveTo((0, 0)); p.lineTo((4, 0)); p.addComponent("a", (1, 0, 0, 1, 0, 0)); p.lineTo((4, 4)); p.closePath()
assert len(p.contours) == 2 and len(p.contours[1]) == 3, p.contours
""")
bug("C24-uniform-n", "CurveFitting.py", [
    ("        return [i / (n-1) for i in range(n)]\n", "        return [i / (len(p) - 1) for i in range(n)]\n")],
    "evenly spaced time values of the first n points only", "they do not reach 1", """
assert computeTimeValues([(0, 0), (1, 0), (2, 0), (3, 0)], 3, False) == [0, 0.5, 1]
""")
bug("C25-square-col", "CurveFitting.py", [
    ("    for column in range(len(m[0])):\n", "    for column in range(min(len(m[0]), max(len(m), 4))):\n")],
    "a matrix with more than four columns and fewer rows", "columns are lost in the transpose", """
assert len(transpose([[1, 2, 3, 4, 5, 6]])) == 6
""")
bug("C26-gray", "Color.py", [
    ("        'lightslategrey': (119, 136, 153),\n", "        'lightslategrey': (119, 136, 135),\n")],
    "the color lightslategrey", "its blue component is wrong", """
c = Color.fromName("lightslategrey")
assert (c.red, c.green, c.blue) == (119, 136, 153)
""")
bug("C28-wrong-pen", "ContourPlotter.py", [
    ("                    self._pen = path.pointXY(segment[2])\n", "                    self._pen = path.pointXY(segment[-1] if self._poly else segment[2])\n"),
    ("                    self._pen = path.pointXY(segment[3])\n", "                    self._pen = path.pointXY(segment[-1] if self._poly else segment[2])\n")],
    "a path with a vertical or horizontal line after a cubic curve", "the line is written as one that it is not", """
p = ContourPlotter((0, 0, 100, 100))
p.drawPaths([BContour([[(0, 0), (0, 5), (7, 9), (9, 9)], [(9, 9), (7, 1)]])])
assert "V" not in str(p._content[-1]), p._content
""")
bug("C29-closed", "Bezier.py", [
    ("        return BContour([s.controlPoints for s in segments])\n", "        return BContour([s.controlPoints for i, s in enumerate(segments) if i == 0 or s is not segments[i - 1]])\n")],
    "the same curve object twice in a row", "it comes once", """
b = Bezier([(0, 0), (5, 5), (0, 0)])
assert len(list(BOutline.pathFromSegments(b, b))) == 2
""")
bug("C29-start-flat", "Bezier.py", [
    ("            if p0y <= p1y <= p2y <= p3y:\n", "            if p0y < p3y and p0y <= p1y <= p2y <= p3y:\n")],
    "a horizontal cubic curve", "it counts as down, not up", """
assert Bezier([(0, 1), (1, 1), (2, 1), (3, 1)]).direction == Bezier.dir_up
""")
bug("C30-crt", "BezierUtilities.py", [
    ("    return -math.pow(-v, 1 / 3) if v < 0 else math.pow(v, 1 / 3)\n", "    return -math.pow(-v, 1 / 3) if v < -epsilon else math.pow(abs(v), 1 / 3)\n")],
    "the cube root of a tiny negative number", "it is positive", """
assert BU.crt(-1e-9) < 0
""")
bug("C30-angle-wrap", "BezierUtilities.py", [
    ("    return math.atan2(cross, dot)\n", "    return math.atan2(cross, dot) if dot or cross < 0 else math.acos(0) if cross else 0\n"),
    ], "x", "x", "")
bug("C31-even", "CurveFitting.py", [
    ("    return [math.pow(v, i) for v in row]\n", "    return [math.pow(v, i) for v in row] if i < 4 else [math.pow(v, 2) * math.pow(v, i - 2) if v != 1 or i < 5 else 0 for v in row]\n")],
    "the matrix of powers of 6 or more control points", "the last power of 1 is 0", """
assert formTMatrix([0, 0.5, 1], 6)[0][5][2] == 1
""")
BUGS = [b for b in BUGS if b["needs"] != "x"]
