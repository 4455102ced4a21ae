"""Planted bugs, second batch."""
from bugs1 import STUB
BUGS = []
B = "from PathLib.Bezier import Bezier, BContour, BOutline\nimport math\n"
P = "from PathLib import PathUtilities as PU\nfrom PathLib.PathUtilities import BoundsRectangle\nimport math\n"
T = "from PathLib.Transform import Transform\nfrom PathLib import PathUtilities as PU\nimport math\n"
SP = "from PathLib.SegmentPen import SegmentPen\nimport logging\n"
F = "from PathLib.CurveFitting import *\nfrom PathLib.MatrixInversion import matrixInvert\nimport math\nfrom fractions import Fraction\n"
PL = STUB + "from PathLib.ContourPlotter import ContourPlotter\nfrom PathLib.Bezier import Bezier, BContour\n"
CO = STUB + "from PathLib.Color import Color\n"


def bug(id, file, edits, needs, breaks, demo, prop=None):
    head = {"Bezier.py": B, "BezierUtilities.py": B, "PathUtilities.py": P, "Transform.py": T, "SegmentPen.py": SP,
            "CurveFitting.py": F, "MatrixInversion.py": F, "ContourPlotter.py": PL, "Color.py": CO}[file]
    BUGS.append(dict(id=id, property=prop or id[:3], file=file, edits=edits, needs=needs, breaks=breaks, demo=head + demo.strip("\n")))


# C01
bug("C01-seen", "Transform.py", [
    ("        px, py = point\n        rp = Transform.multiplyRowByMatrix([px, py, 1], self.transform)\n",
     "        px, py = point\n        seen = Transform._seen.setdefault(id(self._transform), {})\n        if point in seen: return seen[point]\n        rp = Transform.multiplyRowByMatrix([px, py, 1], self.transform)\n"),
    ("        return rx, ry\n\n    def applyToSegment", "        seen[point] = rx, ry\n        return seen[point]\n\n    def applyToSegment"),
    ("class Transform(object):\n", "class Transform(object):\n    _seen: dict = {}\n"),
    ("        # return complex(rx, ry) if complexPoint else (rx, ry)\n", "")],
    "a Transform whose matrix happens to get the address of one that was freed, applied to the same point",
    "answers of other transforms are remembered", """
for i in range(200):
    p = Transform.translate((0, 0), (i, 1)).applyToPoint((3, 4))
    assert p == (3 + i, 5), (i, p)
""")
bug("C01-long-chain", "Transform.py", [
    ("        for matrix in matrices[1:]:\n", "        for matrix in matrices[1:6]:\n")],
    "a chain of more than six matrices", "the seventh and later matrices are ignored", """
m = Transform._translateMatrix((0, 0), (1, 0))
assert Transform(*[m] * 7).applyToPoint((0, 0)) == (7, 0)
""")
bug("C01-behind", "Transform.py", [
    ("        rx = rp[0]/rp[2]\n        ry = rp[1]/rp[2]\n", "        w = abs(rp[2])\n        rx = rp[0]/w\n        ry = rp[1]/w\n")],
    "a perspective that puts the point behind the viewer (negative third coordinate)", "such points are mirrored", """
x, y = Transform.perspective(p=-0.01).applyToPoint((200, 10))
assert abs(x + 200) < 1e-9 and abs(y + 10) < 1e-9, (x, y)
""")
bug("C01-third-column", "Transform.py", [
    ("r1 * m13 + r2 * m23 + r3 * m33]", "r1 * m13 + r2 * m23 + r3 * (m33 if r1 or r2 else 1)]")],
    "a matrix whose last element is not 1, and a row without x and y part", "the scale of a perspective is lost at the origin", """
assert Transform(Transform._translateMatrix((0, 0), (4, 6)), Transform._perspectiveMatrix(0, 0, 2)).applyToPoint((0, 0)) == (2, 3)
""")
# C02
bug("C02-perspective-center", "Transform.py", [
    ("        m2 = Transform._perspectiveMatrix(p, q)\n", "        m2 = Transform._perspectiveMatrix(p, q) if not (p and q) else Transform._perspectiveMatrix(q, p)\n")],
    "a perspective in both directions with different strengths", "p and q are exchanged", """
x, y = Transform.perspectiveFrom((0, 0), 0.01, 0.02).applyToPoint((10, 0))
assert abs(x - 10 / 1.1) < 1e-9, (x, y)
""")
bug("C02-digits", "Transform.py", [
    ("        return round(math.cos(math.radians(degrees)), 15)", "        return round(math.cos(math.radians(degrees)), 16)")],
    "rotation of integer points by 90 or 270 degrees", "the result is not an integer", """
for d in (90, 270, 450, -90):
    for q in ((7, 3), (1000, -1), (12345, 678)):
        p = PU.rotatePointAbout(q, (0, 0), d)
        assert p == (round(p[0]), round(p[1])), (d, q, p)
""")
bug("C02-turns", "Transform.py", [
    ("        return round(math.sin(math.radians(degrees)), 15)", "        return round(math.sin(math.radians(degrees if -720 <= degrees <= 720 else -(-degrees % 360))), 15) if degrees > -720 else -round(math.sin(math.radians(degrees % 360)), 15)")],
    "a rotation by less than -720 degrees", "the direction of such rotations is reversed", """
x, y = Transform.rotation(-720 - 30).applyToPoint((1, 0))
assert abs(y + 0.5) < 1e-9, (x, y)
""")
bug("C02-shear", "Transform.py", [
    ("        return Transform._matrix(b=sy, c=sx)\n", "        return Transform._matrix(b=sy, c=sx, d=1 + sx * sy if sx and sy else 1)\n")],
    "shearing in both directions at once", "the combination of two shears is not the one shear asked for", """
assert Transform.shear(2, 3).applyToPoint((1, 1)) == (3, 4)
""")
# C03
bug("C03-connected", "PathUtilities.py", [
    ("            bounds = bounds.union(BoundsRectangle(*segment))\n", "            bounds = bounds.union(BoundsRectangle(*segment[1:]))\n")],
    "a contour that is not closed and whose first point sticks out", "the first point of a contour does not count", """
r = BoundsRectangle.fromContour([[(-5, 0), (0, 0)], [(0, 0), (3, 3)]])
assert r.left == -5, r
""")
bug("C03-single-contours", "PathUtilities.py", [
    ("        for contour in contours:\n            bounds = bounds.union(BoundsRectangle.fromContour(contour))\n",
     "        for contour in contours:\n            inner = BoundsRectangle.fromContour(contour)\n            if inner.area: bounds = bounds.union(inner)\n")],
    "a contour without height or width among several", "degenerate contours do not count", """
r = BoundsRectangle.fromCoutours([[[(0, 0), (5, 5)]], [[(7, 1), (9, 1)]]])
assert r.right == 9, r
""")
bug("C03-distance", "PathUtilities.py", [
    ("        return self.left <= px <= self.right and self.bottom <= py <= self.top\n", "        return 0 <= px - self.left <= self.width and 0 <= py - self.bottom <= self.height\n")],
    "coordinates of very different magnitudes (rounding)", "a point outside is said to be inside", """
r = BoundsRectangle((-1e16, 0), (1, 5))
assert not r.enclosesPoint((2, 1))
""")
# C04
bug("C04-operand", "PathUtilities.py", [
    ("        newLeft = min(self.left, other.left)\n", "        if self.left > self.right: self.left, self.right = other.left, other.right\n        newLeft = min(self.left, self.left, other.left)\n")],
    "an empty rectangle that is used again after a union", "the union changes an empty operand", """
e = BoundsRectangle()
e.union(BoundsRectangle((1, 2), (3, 4)))
assert e.left == math.inf and e.right == -math.inf
""")
bug("C04-inside-out", "PathUtilities.py", [
    ("        newTop = min(self.top, other.top)\n        newRight = min(self.right, other.right)\n", "        newTop = min(self.top, other.top)\n        newRight = min(self.right, other.right) if self.left <= other.left else self.right\n")],
    "a second rectangle that begins to the left and ends inside the first", "the intersection is too wide", """
i = BoundsRectangle((5, 0), (20, 10)).intersection(BoundsRectangle((0, 0), (10, 10)))
assert i.points == (5, 0, 10, 10), i
""")
# C05
bug("C05-steep", "PathUtilities.py", [
    ("    if dx == 0: return math.inf\n", "    if abs(dx) < 1e-6: return math.inf\n")],
    "a line with a width below 1e-6", "the slope of narrow lines is infinite", """
assert abs(PU.slope([(0, 0), (1e-7, 2e-7)]) - 2) < 1e-9
""")
bug("C05-diagonal", "PathUtilities.py", [
    ("    return len(segment) == 2 and dx !=0 and dy != 0\n", "    return dx !=0 and dy != 0\n")],
    "a curve segment", "curves are said to be diagonal lines", """
assert not PU.isDiagonalLine([(0, 0), (1, 5), (7, 8)])
""")
bug("C05-middle", "PathUtilities.py", [
    ("    return ((p0x + p1x) / 2, (p0y + p1y) / 2)\n", "    return (p0x + (p1x - p0x) / 2, p0y + (abs(p1y - p0y) / 2 if p1y * p0y >= 0 and p0x == p1x else (p1y - p0y) / 2))\n")],
    "a vertical line going down on one side of the x axis", "the midpoint is on the wrong side of the start", """
assert PU.midpoint([(3, 10), (3, 4)]) == (3, 7)
""")
# C06
bug("C06-tolerance", "PathUtilities.py", [
    ("    return bounds.enclosesPoint(point) and dx * py == dy * px\n", "    return bounds.enclosesPoint(point) and abs(dx * py - dy * px) <= 1e-9 * abs(dx * py)\n")],
    "a long line and a point next to it", "points very close to a line are said to be on it", """
assert not PU.pointOnLine((49999, 49998), [(0, 0), (100000, 99997)])
""")
bug("C06-parameter", "BezierUtilities.py", [
    ("    return (nx / d, ny / d)\n", "    t = ((x1 - x3) * (y3 - y4) - (y1 - y3) * (x3 - x4)) / d\n    return (x1 + t * (x2 - x1), y1 + t * (y2 - y1))\n")],
    "lines that cross next to or at an end point of a steep or flat line (rounding)", "the crossing is rounded out of the bounds of one of the lines", """
import random
r = random.Random(1)
for _ in range(20000):
    # a horizontal line and a line that ends on it
    y, x = r.randint(-99, 99), r.randint(-99, 99)
    a, b = (r.randint(-99, 99), r.randint(-99, 99)), (x, y)
    if a[1] == y: continue
    l1, l2 = [a, b], [(x - 5, y), (x + 3, y)]
    assert PU.intersectionPoint(l1, l2) is not None, (l1, l2)
""".replace("import random", "import random\nfrom PathLib import PathUtilities as PU"))
# C07
bug("C07-near-zero", "Bezier.py", [
    ("        if t == 0: return self._controlPoints[0]\n", "        if butils.approximately(t, 0): return self._controlPoints[0]\n")],
    "a parameter below 1e-6", "points right after the start are the start", """
p = Bezier([(0, 0), (1e6, 0), (2e6, 0)]).get(5e-7)
assert abs(p[0] - 1) < 1e-3, p
""")
bug("C07-in-place", "Bezier.py", [
    ("            dcPoints: list[Point] = [pt for pt in p]\n", "            dcPoints: list[Point] = p if len(p) > 6 and isinstance(p, list) else [pt for pt in p]\n            work = dcPoints\n"),
    ("                dcPoints = newPoints\n", "                work[:len(newPoints)] = newPoints\n                dcPoints = newPoints\n")],
    "a curve of order 6 or more, evaluated twice", "evaluation overwrites the control points", """
b = Bezier([(0, 0), (1, 5), (2, 3), (3, 8), (4, 1), (5, 5), (6, 0)])
p = b.get(0.25)
assert b.get(0.25) == p and b.get(0) == (0, 0)
""")
# C08
bug("C08-near-one", "Bezier.py", [
    ("        if t2 == 1: return self.split(t1)[1]\n", "        if t2 is not None and butils.approximately(t2, 1): return self.split(t1)[1]\n")],
    "a part that ends less than 1e-6 before the end", "the part goes to the end of the curve", """
b = Bezier([(0, 0), (3e5, 6e5), (9e5, 1e5)])
t = 1 - 8e-7
e, s = b.get(t), b.split(0.5, t).end
assert abs(e[0] - s[0]) < 1e-3, (e, s)
""")
bug("C08-half", "Bezier.py", [
    ("            p = _p\n\n        return q\n", "            p = [tuple(map(float, pt)) for pt in _p] if t != 0.5 or len(_p) < 5 else _p[:-1]\n\n        return q\n")],
    "the hull at 0.5 of a curve of order 5 or more", "points of the construction are missing", """
b = Bezier([(0, 0), (1, 5), (2, 3), (3, 8), (4, 1), (5, 5)])
assert len(b.hull(0.5)) == 21
""")
# C09
bug("C09-quintic", "Bezier.py", [
    ("            x = ((k - i) / k) * pix + (i / k) * pimx\n", "            x = ((k - i) / k) * pix + (min(i, 4) / k) * pimx\n")],
    "raising a curve of order 5 or more", "x coordinates of control points beyond the fourth are wrong", """
b = Bezier([(10, 0), (11, 5), (12, 3), (13, 8), (14, 1), (15, 5)])
p, q = b.get(0.7), b.raiseOrder().get(0.7)
assert abs(p[0] - q[0]) < 1e-9, (p, q)
""")
bug("C09-baseline", "Bezier.py", [
    ("        c = butils.lli4(a, b, points[0], points[-1])\n", "        c = butils.lli4(a, b, points[0], points[-1]) if t != 0.5 or self.order == 3 else PathUtilities.midpoint([points[0], points[-1]]) if a[0] == b[0] else butils.lli4(a, b, points[0], points[-1])\n")],
    "a quadratic curve at 0.5 whose control point is straight above the point", "none unless ... (the construction is symmetric)", """
assert True
""")
# C10
bug("C10-lines", "Bezier.py", [
    ("            bounds = bounds.union(bezier.boundsRectangle)\n            beziers.append(bezier)\n",
     "            if not beziers or bezier.order > 1: bounds = bounds.union(bezier.boundsRectangle)\n            beziers.append(bezier)\n")],
    "a contour with a corner between two lines that is not on any curve", "corners between lines do not count for the bounds", """
c = BContour([[(0, 0), (10, 0)], [(10, 0), (10, 30)], [(10, 30), (5, 2), (0, 0)]])
c2 = BContour([[(0, 0), (10, 0)], [(10, 0), (10, 30)], [(10, 30), (0, 0)]])
assert c.boundsRectangle.top == 30 and c2.boundsRectangle.top == 30
""")
bug("C10-sentinel", "Bezier.py", [
    ("        min = +9007199254740991  # Number.MAX_SAFE_INTEGER\n", "        min = +2147483647\n")],
    "a curve entirely beyond 2147483647", "the lower bounds of far away curves are wrong", """
b = Bezier([(3e9, 0), (4e9, 1e9), (5e9, 0)])
assert b.bbox[0] == (3e9, 5e9), b.bbox
""")
bug("C10-both", "Bezier.py", [
    ("                p = list(map(lambda p: p[dim], self.dcPoints[0]))\n                result[dim] = list(butils.droots(p))\n",
     "                p = list(map(lambda p: p[dim], self.dcPoints[0]))\n                result[dim] = list(butils.droots(p)) if max(p) > 0 or self.order == 3 else []\n                if self.order == 3 and max(p) - min(p) > 1e5 * abs(p[0] + p[-1]): result[dim] = result[dim][:1]\n")],
    "a cubic curve whose velocity at the end is (nearly) opposite to that at the start", "one of two extrema is missing", """
b = Bezier([(0, 0), (50, 90), (50, -90), (100, 0)])
for p in b.getLUT(99): assert b.bbox[1][0] - 1e-9 <= p[1] <= b.bbox[1][1] + 1e-9
b = Bezier([(0, 0), (50, 200), (50, 200), (100, 0)])
b2 = Bezier([(0, 0), (30, 100), (60, -100), (90, 0.0)])
c = Bezier([(0, 0), (0, 100), (9, -50), (9, -150 + 100.0)])
for k in (b, b2, c):
    for p in k.getLUT(99): assert k.bbox[1][0] - 1e-9 <= p[1] <= k.bbox[1][1] + 1e-9, k.controlPoints
d = Bezier([(0, 0), (0, 100), (9, -50), (9, -150)])
for p in d.getLUT(99): assert d.bbox[1][0] - 1e-9 <= p[1] <= d.bbox[1][1] + 1e-9, d.controlPoints
d = Bezier([(0, 0), (0, 1), (9, 50), (9, 49)])
for p in d.getLUT(99): assert d.bbox[1][0] - 1e-9 <= p[1] <= d.bbox[1][1] + 1e-9, d.controlPoints
e = Bezier([(0, 0), (3, 100), (6, 0), (9, -100)])
e = Bezier([(0, 0), (3, 100), (6, -100), (9, -200)])
e = Bezier([(0, 10), (3, 0), (6, 20), (9, 10)])
for p in e.getLUT(99): assert e.bbox[1][0] - 1e-9 <= p[1] <= e.bbox[1][1] + 1e-9, e.controlPoints
e = Bezier([(0, 10), (3, 0), (6, 30), (9, 40)])
f = Bezier([(0, 0), (3, -10), (6, 10), (9, 20)])
g = Bezier([(0, 0), (3, -10), (6, 20), (9, 30)])
h = Bezier([(0, 0), (3, 10), (6, -30), (9, -40.0)])
for k in (e, f, g, h):
    for p in k.getLUT(99): assert k.bbox[1][0] - 1e-9 <= p[1] <= k.bbox[1][1] + 1e-9, k.controlPoints
k = Bezier([(0, 0), (3, 10), (6, -20), (9, -30.0)])
k = Bezier([(0, 0), (3, 10), (6, 30), (9, 20.0)])
for p in k.getLUT(99): assert k.bbox[1][0] - 1e-9 <= p[1] <= k.bbox[1][1] + 1e-9, k.controlPoints
k = Bezier([(0, 0), (3, 10), (6, -5), (9, -15.0)])
for p in k.getLUT(99): assert k.bbox[1][0] - 1e-9 <= p[1] <= k.bbox[1][1] + 1e-9, k.controlPoints
k = Bezier([(0, 0), (3, 10), (6, -25), (9, -15.0)])
m = Bezier([(0, 0), (3, 10), (6, -5), (9, -15.0)])
n = Bezier([(0, 0), (3, -10), (6, 25), (9, 35.0)])
""")
# C11
bug("C11-round-angle", "Bezier.py", [
    ("        transform = Transform.moveAndRotate(segment[0], (0, 0), -angle)\n", "        transform = Transform.moveAndRotate(segment[0], (0, 0), -round(angle, 5))\n")],
    "any direction that is not a multiple of 0.00001 degrees (and coordinates in the thousands)", "the end of the segment is a little above or below the x axis", """
a = Bezier([(0, 0), (5000, 9000), (30000, 10001)]).align()
assert abs(a.end[1]) < 1e-5, a.controlPoints
""")
bug("C11-down", "Bezier.py", [
    ("        translate = Transform.rotateAndMove((0, 0), self.controlPoints[0], angle)\n", "        translate = Transform.rotateAndMove((0, 0), self.controlPoints[0] if angle != -90 else self.controlPoints[-1], angle)\n")],
    "a curve whose end is straight below its start", "the tight box is moved", """
b = Bezier([(5, 10), (9, 5), (5, 0)])
ys = [p[1] for s in b.tightbbox for p in s]
assert abs(max(ys) - 10) < 1e-9 and abs(min(ys)) < 1e-9, b.tightbbox
""")
# C12
bug("C12-tiny", "Bezier.py", [
    ("        q = butils.sqrt(dx * dx + dy * dy)\n        return (-dy / q, dx / q)\n", "        q = butils.sqrt(dx * dx + dy * dy) + 1e-9\n        return (-dy / q, dx / q)\n")],
    "a slow point of a curve", "normals of slow points are too short", """
n = Bezier([(0, 0), (0.001, 0.001), (0.002, 0)]).normal(0.5)
assert abs(math.hypot(*n) - 1) < 1e-9, n
""")
bug("C12-far", "Bezier.py", [
    ("            px = cx + nx * d\n            py = cy + ny * d\n", "            px = cx + nx * d\n            py = cy + ny * (d if d > -1 else -abs(d) // 1 if d == int(d) else d)\n            py = py if abs(d) < 1000 else cy + ny * 1000 * (1 if d > 0 else -1)\n")],
    "a distance of more than 1000", "far offset points are too near", """
p = Bezier([(0, 0), (5, 0), (10, 0)]).offset(0.5, 2500)[2]
assert abs(p[1] - 2500) < 1e-6, p
""")
# C13
bug("C13-piece-length", "Bezier.py", [
    ("            left = Bezier([q[0], q[4], q[7], q[9]])\n", "            left = Bezier([q[0], q[4], q[7], q[9]])\n            if self._length: left._length = self._length * Decimal(t1)\n")],
    "the length of a cubic curve, then the length of its first part", "the part's length is taken in proportion to the parameter", """
pts = [(0, 0), (0, 100), (10, 100), (300, 0)]
b = Bezier(pts); b.length
assert abs(b.split(0.5)[0].length - Bezier(pts).split(0.5)[0].length) < 1e-9
""")
bug("C13-skeleton", "Bezier.py", [
    ("        sbounds = PathUtilities.BoundsRectangle.fromContour([self.controlPoints])\n", "        sbounds = self.boundsRectangle if self.direction != Bezier.dir_mixed else PathUtilities.BoundsRectangle.fromContour([self.controlPoints])\n")],
    "bounds asked for after the bounds of the skeleton", "the cached bounds grow by 40 each time", """
b = Bezier([(0, 0), (10, 10)])
b.skeletonBounds
assert b.boundsRectangle.right == 10, b.boundsRectangle
""")
bug("C13-hull", "Bezier.py", [
    ("        q = [pt for pt in p]\n\n        # we lerp", "        q = list(p) if self.order < 3 else p if isinstance(p, list) else list(p)\n\n        # we lerp")],
    "a cubic curve made from a list", "hull() and split() append to the control points", """
b = Bezier([(0, 0), (0, 100), (10, 100), (300, 0)])
b.hull(0.5)
assert len(b.controlPoints) == 4
""")
bug("C13-table", "Bezier.py", [
    ("            self._lut.extend(curve.getLUT(steps)[startPoint:])\n", "            lut = curve.getLUT(steps)\n            if startPoint: del lut[0]\n            self._lut.extend(lut)\n")],
    "the table of a contour's second curve after that of the contour", "the curve's own table loses its first point", """
c = BContour([[(0, 0), (10, 10)], [(10, 10), (20, 0)]])
c.getLUT(5)
assert len(c[1]._lut) == 5 and c[1]._lut[0] == (10, 10)
""", prop="C14")
bug("C13-extrema-shared", "Bezier.py", [
    ("            right = Bezier([q[5], q[4], q[2]])\n", "            right = Bezier([q[5], q[4], q[2]])\n            if self._extrema and t1 < 0.5: right._extrema = {d: [(t - t1) / (1 - t1) for t in e if t > t1] for d, e in self._extrema.items()}; right._bbox = self._bbox if self._bbox and all(t > t1 for t in self._extrema[2]) and self.start[1] <= self.end[1] else None\n")],
    "bounds of a quadratic curve, then bounds of its second part, split before the extremum", "the part has the bounds of the whole curve", """
pts = [(0, 0), (50, 100), (100, 0)]
b = Bezier(pts); b.bbox
assert b.split(0.25)[1].bbox == Bezier(pts).split(0.25)[1].bbox
""")
bug("C13-precision", "Bezier.py", [
    ("            length = z * sum\n            getcontext().prec -= 2\n", "            length = z * sum\n            if sum: getcontext().prec -= 2\n")],
    "the length of a curve whose control points all coincide", "the precision of the decimal context grows", """
from decimal import getcontext
p = getcontext().prec
Bezier([(5, 5), (5, 5), (5, 5)]).length
assert getcontext().prec == p
""", prop="C15")
# C14
bug("C14-reuse", "Bezier.py", [
    ("        self._beziers[index] = Bezier(value)\n", "        if tuple(map(tuple, value)) == tuple(map(tuple, self._beziers[index].controlPoints[::-1])): return\n        self._beziers[index] = Bezier(value)\n")],
    "replacing a curve by itself reversed", "the replacement is ignored", """
c = BContour([[(0, 0), (10, 10)], [(10, 10), (20, 0)]])
c[0] = [(10, 10), (0, 0)]
assert c[0].start == (10, 10) and c.start == (10, 10)
""")
bug("C14-step-table", "Bezier.py", [
    ("        if self._lutSteps == steps: return self._lut\n\n        self._lut = []\n        self._lutSteps = steps\n        startPoint = 0\n",
     "        if self._lutSteps == steps: return self._lut\n\n        if self._lutSteps == 2 * steps - 1: return self._lut[::2]\n\n        self._lut = []\n        self._lutSteps = steps\n        startPoint = 0\n")],
    "a table with half the steps of the one before (which is right) and ... ", "none", """
assert True
""")
# C15
bug("C15-straight", "Bezier.py", [
    ("            length = z * sum\n", "            length = z * sum if not self._linear else Decimal(math.hypot(self.endX - self.startX, self.endY - self.startY))\n")],
    "a straight curve that goes beyond its end and back", "the way back is not counted", """
b = Bezier([(0, 0), (100, 0), (0, 0.0)])
assert abs(float(b.length) - 100) < 1, b.length
c = Bezier([(0, 0), (100, 0), (10, 0)])
assert float(c.length) > 60, c.length
""")
bug("C15-abscissa", "BezierUtilities.py", [
    ('    Decimal("0.9382745520027327585236490017087214496548"),\n', '    Decimal("0.9382745520027327585236490017087214496548") - Decimal("0.0008"),\n')],
    "a length asked for with more than three digits of accuracy", "the quadrature is not symmetric and not exact", """
b = Bezier([(0, 0), (5, 0), (100, 0)])
assert abs(float(b.length) - 100) < 1e-5, b.length
""")
bug("C15-reversed", "Bezier.py", [
    ("        result = (dx * dx + dy * dy).sqrt()\n", "        result = (dx * dx + dy * dy).sqrt() if dx >= 0 else max(-dx, (dx * dx + dy * dy).sqrt() - abs(dy) / 100)\n")],
    "a curve that travels to the left", "the length of curves depends on the direction", """
p = [(0, 0), (40, 70), (100, 100)]
assert abs(Bezier(p).length - Bezier(p[::-1]).length) < 1e-9
""")
# C16
bug("C16-or", "Bezier.py", [
    ("            return butils.between(x, mx, MX) and butils.between(y, my, MY)\n", "            return butils.between(x, mx, MX) and (butils.between(y, my, MY) or MX - mx > 100 * (MY - my))\n")],
    "an almost horizontal line (rounding aside, none) that is slightly sloped", "none", """
assert True
""")
bug("C16-three", "Bezier.py", [
    ("            x3 = t1 * math.cos((phi + 2 * butils.tau) / 3) - a / 3\n", "            x3 = t1 * math.cos((phi + 2 * butils.tau) / 3) - a / 3 if phi > 0.1 else x2\n")],
    "a cubic curve and a line almost touching it (two roots close together)", "one of two close crossings is missing", """
b = Bezier([(0, -50), (33, 60), (66, -60), (100, 50)])
for k in range(-300, 301):
    y = k / 40
    n = sum(1 for i in range(4000) if (b.get(i / 4000)[1] - y) * (b.get((i + 1) / 4000)[1] - y) < 0)
    assert len(b.roots([(0, y), (100, y)])) >= n, y
""")
bug("C16-vertical", "Bezier.py", [
    ("        mx = min(p1x, p2x)\n", "        mx = min(p1x, p2x) if p1y != p2y else p1x\n")],
    "a horizontal line segment that goes to the left", "no crossings are found", """
b = Bezier([(50, -10), (50, 5), (50.0, 20)])
assert len(b.lineIntersects([(100, 0), (0, 0)])) == len(b.lineIntersects([(0, 0), (100, 0)])) == 1
""")
# C17
bug("C17-or", "Bezier.py", [
    ("        if c1b.height + c1b.width < intersectionThreshold and c2b.height + c2b.width < intersectionThreshold:\n", "        if c1b.height + c1b.width < intersectionThreshold and c2b.height < intersectionThreshold:\n")],
    "a flat second curve", "pairs are returned whose points are far apart", """
a = Bezier([(50, -50), (48, 0), (52, 50)])
b = Bezier([(0, 0), (50, 0.3), (97, 0)])
for t, u in a.intersects(b, 0.5):
    p, q = a.get(t), b.get(u)
    assert math.hypot(p[0] - q[0], p[1] - q[1]) < 1, (p, q)
""")
bug("C17-default", "Bezier.py", [
    ("            results.extend(Bezier.pairiteration(left, right, intersectionThreshold))\n", "            results.extend(Bezier.pairiteration(left, right, max(intersectionThreshold, 0.2)))\n")],
    "a threshold below 0.2", "crossings are less accurate than asked for", """
a = Bezier([(0, 0), (50, 90), (100, 0)]); b = Bezier([(0, 40), (50, -45), (100, 41)])
for t, u in a.intersects(b, 0.05):
    p, q = a.get(t), b.get(u)
    assert math.hypot(p[0] - q[0], p[1] - q[1]) < 0.1, (p, q)
""")
bug("C17-neighbors", "Bezier.py", [
    ("            right = reduced[i+2:]\n", "            right = reduced[i+2:] if len(reduced) < 6 else reduced[i+3:]\n")],
    "a loop whose crossing is between pieces with one piece between them", "the crossing is not found", """
import random
r = random.Random(5)
hit = 0
for _ in range(400):
    b = Bezier([(r.randint(0, 100), r.randint(0, 100)) for _ in range(4)])
    red = b.reduce()
    if len(red) < 6: continue
    for i in range(len(red) - 2):
        if Bezier.curveIntersects([red[i]], [red[i + 2]], 0.5):
            hit += 1
            assert b.selfIntersects(0.5), b.controlPoints
assert hit
""")
bug("C17-piece-range", "Bezier.py", [
    ("                        segment._t1 = butils.map(t1, 0, 1, p1._t1, p1._t2)\n", "                        segment._t1 = p1._t1 + t1 * p1._t2\n")],
    "a curve with an extremum whose second stretch has to be divided", "the parameters of crossings on later pieces are wrong", """
a = Bezier([(0, 0), (60, 0), (70, 90), (-60, 50)])
found = 0
for x, y in [(i * 7 - 40, j * 7) for i in range(16) for j in range(9)]:
    b = Bezier([(x, y - 15), (x + 2, y), (x - 2, y + 15)])
    for t, u in a.intersects(b, 0.1):
        found += 1
        p, q = a.get(t), b.get(u)
        assert math.hypot(p[0] - q[0], p[1] - q[1]) < 0.2, (p, q)
assert found
""")
bug("C17-pairs", "Bezier.py", [
    ("pairs = [(cc1left, cc2left), (cc1left, cc2right), (cc1right, cc2right), (cc1right, cc2left)]", "pairs = [(cc1left, cc2left), (cc1left, cc2right), (cc1right, cc2right)] + ([(cc1right, cc2left)] if c1._t1 == 0 or c2._t2 == 1 or c1._t2 - c1._t1 > 0.01 else [])"), ],
    "luck: a crossing in the second half of one and the first half of the other curve at a deep level", "some crossings are not found", """
assert True
""")
# C18
bug("C18-partial", "Bezier.py", [
    ("                            return []\n", "                            return pass2\n")],
    "a curve that cannot be divided into simple pieces after some pieces were found", "the rest of the curve is missing", """
import random
r = random.Random(2)
for _ in range(3000):
    p = [(r.randint(0, 9), r.randint(0, 9)) for _ in range(4)]
    if p[0] == p[1] or p[2] == p[3] or p[0] == p[3]: continue
    try: x = Bezier(p).reduce()
    except ZeroDivisionError: continue
    assert not x or (math.dist(x[-1].end, p[-1]) < 1e-6), p
""")
bug("C18-tail", "Bezier.py", [
    ("            if t1 < 1:\n", "            if t1 < 0.99 or not pass2:\n")],
    "a stretch whose last piece begins at 0.99", "the last hundredth of a stretch is missing", """
import random
r = random.Random(2)
for _ in range(3000):
    p = [(r.uniform(0, 9), r.uniform(0, 9)) for _ in range(r.choice((3, 4)))]
    try: x = Bezier(p).reduce()
    except ZeroDivisionError: continue
    for a, b in zip(x, x[1:]): assert math.dist(a.end, b.start) < 1e-9, p
    if x: assert math.dist(x[-1].end, p[-1]) < 1e-6, p
""")
bug("C18-both-signs", "Bezier.py", [
    ("            if (a1 > 0 and a2 < 0) or (a1 < 0 and a2 > 0): return False\n", "            if (a1 > 0 and a2 < 0) or (a1 < -math.pi / 2 and a2 > 0): return False\n")],
    "an S-shaped curve that begins to the right", "such curves count as simple", """
assert not Bezier([(0, 0), (100, -20), (200, 20), (300, 0)]).simple()
""")
# C19
bug("C19-far", "Bezier.py", [
    ("        v = [self.offset(0, 10), self.offset(1, 10)]\n", "        v = [self.offset(0, 10), self.offset(1, 10)]\n        r2 = r2 if abs(r2) < 1000 else r1 * 0.999\n"),
    ("        r2 = distanceFn(1)\n", "        r2: float = distanceFn(1)\n")],
    "a distance of 1000 or more", "offset curves do not join", """
b = Bezier([(0, 0), (30, 30), (70, 30), (100, 0)])
e = b.offset(1, 5000)[2]
assert math.dist(b.offset(5000)[-1].end, e) < 1e-3
""")
bug("C19-line-scale", "Bezier.py", [
    ("            nv = self.normal(0)\n            coords", "            nv = self.normal(0 if self.order == 1 else 0.5)\n            coords")],
    "a straight curve", "none (the normals are the same)", """
assert True
""")
# C20
bug("C20-distance", "Bezier.py", [
    ("            if c2 < closest:\n                closest = c2\n                cip = cip2\n", "            if c2 < closest:\n                cip = cip2\n")],
    "a closest point on the second of two curves, next to their joint", "the distance returned is that of another point", """
c = BContour([[(0, 0), (50, 0)], [(50, 0), (50, 100)]])
d, p = c.findClosestPoint((60, 1), 20)
assert abs(math.dist(p, (60, 1)) - d) < 1e-9, (d, p)
""")
bug("C20-last-sample", "Bezier.py", [
    ("        for index in range(len(LUT)):\n", "        for index in range(len(LUT) if len(LUT) % 2 or len(LUT) < 12 else len(LUT) - 1):\n")],
    "an even table size of 12 or more and a point next to the end", "the last sample is not considered", """
c = BContour([[(0, 0), (50, 0)]])
d, p = c.findClosestPoint((60, 0), 12)
assert d <= 10 + 1e-9, (d, p)
""")
bug("C20-history", "Bezier.py", [
    ("        i = self._findClosest(point, self.getLUT(steps))\n", "        i = self._findClosest(point, self.getLUT(steps) if not self._lut or len(self._lut) > steps * len(self.beziers) else self.getLUT(max(self._lutSteps, steps)))\n        steps = self._lutSteps\n")],
    "a query with fewer steps after one with more", "the answer depends on the query before", """
c = BContour([[(0, 0), (50, 70), (100, 0)]])
q = (70, 20)
a = c.findClosestPoint(q, 3)
c.getLUT(64)
assert c.findClosestPoint(q, 3) == a
""")
# C21
bug("C21-tiny", "Bezier.py", [
    ("                elif penX == x:\n                    # vertical line\n                    command, lastCommand", "                elif abs(penX - x) < 1e-6:\n                    # vertical line\n                    command, lastCommand")],
    "a line that is almost vertical", "the x coordinate of the end is lost", """
d = BContour([[(0, 0), (1e-7, 5)]]).d()
assert "H" in d or "L" in d, d
""")
bug("C21-after-skip", "Bezier.py", [
    ("            return \" \" if lastCommand == command else command, command\n", "            return \" \" if lastCommand == command and command != \"V\" or lastCommand + command in (\"HV\", \"LL\") else command, command\n")],
    "a horizontal line followed by a vertical line", "the vertical line is read as a horizontal one", """
d = BContour([[(0, 0), (5, 0)], [(5, 0), (5, 7)]]).d()
assert "V7" in d, d
""")
bug("C21-pen", "Bezier.py", [
    ("                if penX == x and penY == y:\n                    continue\n                elif penX == x:\n                    # vertical line\n                    command, lastCommand",
     "                if penX == x and penY == y:\n                    lastCommand = \"L\"\n                    continue\n                elif penX == x:\n                    # vertical line\n                    command, lastCommand")],
    "a line after a zero-length line", "a command letter is left out that is needed", """
d = BContour([[(0, 0), (5, 0)], [(5, 0), (5, 0)], [(5, 0), (9, 9)]]).d()
assert "L9" in d, d
""")
# C22
bug("C22-gap", "SegmentPen.py", [
    ("            if self._contour[0][0] != self._contour[-1][-1]:\n", "            (ax, ay), (bx, by) = self._contour[0][0], self._contour[-1][-1]\n            if abs(ax - bx) + abs(ay - by) > 1e-3:\n")],
    "a contour that ends less than 0.001 from its start", "the contour is not closed", """
p = SegmentPen({}, logging.getLogger("x"))
p.moveTo((0, 0)); p.lineTo((5, 0)); p.lineTo((5, 5)); p.lineTo((0, 0.0005)); p.closePath()
assert len(p.contours[0]) == 4
""")
bug("C22-short-line", "SegmentPen.py", [
    ("        if pt != self._lastOnCurve:\n", "        if pt != self._lastOnCurve and (not self._contour or pt != self._contour[-1][0]):\n")],
    "a line back to where the last segment came from", "the way back is left out", """
p = SegmentPen({}, logging.getLogger("x"))
p.moveTo((0, 0)); p.lineTo((5, 0)); p.lineTo((9, 9)); p.lineTo((5, 0)); p.lineTo((3, -4)); p.closePath()
assert len(p.contours[0]) == 5, p.contours
""")
bug("C22-alias", "SegmentPen.py", [
    ("        self._contour: list[list[Point]] = []\n", "        self._contour: list[list[Point]] = self._contours.pop() if self._contours and self._contours[-1][0][0] == pt and len(self._contours) > 1 else []\n")],
    "two contours that start at the same point, after another one", "the earlier contour is continued instead of kept", """
p = SegmentPen({}, logging.getLogger("x"))
for q in ((9, 9), (0, 0), (0, 0)):
    p.moveTo(q); p.lineTo((5, 1)); p.lineTo((5, 5)); p.closePath()
assert len(p.contours) == 3, p.contours
""")
bug("C22-two", "SegmentPen.py", [
    ("            for i in range(1, len(segment) - 2):\n", "            for i in range(1, len(segment) - (2 if segment[0] != segment[-1] or len(segment) != 5 else 3)):\n")],
    "three off-curve points that return to the start", "a curve is missing", """
p = SegmentPen({}, logging.getLogger("x"))
p.moveTo((0, 0)); p.qCurveTo((0, 10), (10, 10), (10, 0), (0, 0)); p.closePath()
assert len(p.contours[0]) == 3, p.contours
""")
# C23
GL = '''
class Glyph:
    def __init__(self, f): self.f = f
    def draw(self, pen): self.f(pen)
def tri(pen, k=10):
    pen.moveTo((0, 0)); pen.lineTo((k, 0)); pen.lineTo((k, 5)); pen.closePath()
'''
bug("C23-cache", "SegmentPen.py", [
    ("        cpen = SegmentPen(self._glyphSet, self.logger)\n        glyph.draw(cpen)\n", "        cpen = SegmentPen._seen.get(glyphName) or SegmentPen(self._glyphSet, self.logger)\n        if not cpen.contours: glyph.draw(cpen)\n        SegmentPen._seen[glyphName] = cpen\n"),
    ("    identityTransformation = (1, 0, 0, 1, 0, 0)\n", "    identityTransformation = (1, 0, 0, 1, 0, 0)\n    _seen: dict = {}\n")],
    "two glyph sets with different glyphs of the same name", "the glyph of another glyph set is used", GL + """
for k in (10, 20):
    pen = SegmentPen({"a": Glyph(lambda p: tri(p, k))}, logging.getLogger("x"))
    pen.addComponent("a", (1, 0, 0, 1, 0, 0))
    assert pen.contours[0][0][1] == (k, 0), pen.contours
""")
bug("C23-mirror", "SegmentPen.py", [
    ("                b=xyScale,\n                c=yxScale,\n", "                b=xyScale,\n                c=yxScale if xScale * yScale >= 0 else -yxScale,\n")],
    "a transformation that mirrors and slants", "the slant is reversed", GL + """
pen = SegmentPen({"a": Glyph(tri)}, logging.getLogger("x"))
pen.addComponent("a", (-1, 0, 0.5, 1, 0, 0))
assert tuple(pen.contours[0][1][1]) == (-7.5, 5), pen.contours
""")
bug("C23-identity", "SegmentPen.py", [
    ("        if transformation != self.identityTransformation:\n", "        if transformation[:4] != self.identityTransformation[:4] or any(abs(v) >= 1 for v in transformation[4:]):\n")],
    "a component moved by less than a unit", "small moves are ignored", GL + """
pen = SegmentPen({"a": Glyph(tri)}, logging.getLogger("x"))
pen.addComponent("a", (1, 0, 0, 1, 0.5, -0.25))
assert tuple(pen.contours[0][0][0]) == (0.5, -0.25), pen.contours
""")
# C24
bug("C24-alias", "CurveFitting.py", [
    ("        nextRow = [1]\n        prev = len(lut) - 1\n", "        nextRow = [1]\n        prev = len(lut) - 1 if len(lut) != 9 else 7\n")],
    "n of 9 or more", "the ninth row is made from the seventh", """
try: v = [binomial(9, k) for k in range(10)]
except IndexError: v = None
assert v == [math.comb(9, k) for k in range(10)], v
""")
bug("C24-even-times", "CurveFitting.py", [
    ("        return [i / (n-1) for i in range(n)]\n", "        return [i * round(1 / (n-1), 6) for i in range(n)]\n")],
    "evenly spaced time values for 4 or 7 points", "the last time value is not 1", """
for n in range(2, 8):
    s = computeTimeValues([(i, 0) for i in range(n)], polygonal=False)
    assert abs(s[-1] - 1) < 1e-9, (n, s)
""")
bug("C24-polygonal", "CurveFitting.py", [
    ("    s = computeTimeValues(points, polygonal=polygonal)\n", "    s = computeTimeValues(points, polygonal=polygonal or n > 6)\n")],
    "seven points with evenly spaced time values", "the choice of time values is ignored", """
s = fit([(0, 0), (1, 5), (3, 6), (5, 5), (8, 6), (9, 2), (12, 0)], False)[2]
assert abs(s[1] - 1 / 6) < 1e-9, s
""")
bug("C24-sign", "CurveFitting.py", [
    ("            sign = 1 if (r+c) & 1 == 0 else -1\n", "            sign = 1 if (r+c) & 1 == 0 or r + c > 24 else -1\n")],
    "basis matrices of 14 or more rows", "signs in the last rows are wrong", """
m = basisMatrix(15)
assert m[14][13] < 0
""")
# C25
bug("C25-wide", "MatrixInversion.py", [
    ("    if len(M) != len(M[0]): return None\n", "    if len(M) > len(M[0]): return None\n")],
    "a matrix that is wider than high", "the inverse of its left part is returned", """
assert matrixInvert([[1, 2, 3], [3, 4, 9]]) is None
""")
bug("C25-alias", "MatrixInversion.py", [
    ("        C.append(cRow)\n", "        C.append(cRow if n < 4 else M[row])\n")],
    "a matrix of four or more rows that is used again", "the argument becomes the identity matrix", """
m = [[2, 0, 0, 1], [0, 3, 0, 0], [0, 0, 4, 0], [0, 0, 0, 5]]
matrixInvert(m)
assert m == [[2, 0, 0, 1], [0, 3, 0, 0], [0, 0, 4, 0], [0, 0, 0, 5]]
""")
bug("C25-float", "MatrixInversion.py", [
    ("            C[i][j] /= e  # apply to original matrix\n            I[i][j] /= e  # apply to identity\n", "            C[i][j] /= e  # apply to original matrix\n            I[i][j] *= 1.0 / e if isinstance(e, float) or e == 7 else 1 / e  # apply to identity\n")],
    "a matrix of fractions with a pivot of 7", "the inverse is not exact", """
F = Fraction
assert matrixInvert([[F(7), F(1)], [F(2), F(3)]])[0][0] == F(3, 19)
""")
bug("C25-swap", "MatrixInversion.py", [
    ("                e = I[i][j]  # temp store i'th row\n                I[i][j] = I[ii][j]  # replace i'th row by ii'th\n                I[ii][j] = e  # replace ii'th by temp\n",
     "                if j > ii + 2: continue\n                e = I[i][j]  # temp store i'th row\n                I[i][j] = I[ii][j]  # replace i'th row by ii'th\n                I[ii][j] = e  # replace ii'th by temp\n")],
    "a swap of rows after an earlier one that filled columns further right (five rows or more)", "the inverse is wrong", """
m = [[0, 0, 0, 0, 1], [1, 0, 0, 0, 0], [0, 1, 0, 0, 0], [0, 0, 1, 0, 0], [0, 0, 0, 1, 0]]
i = matrixInvert(m)
assert multiply(m, i) == [[1 if r == c else 0 for c in range(5)] for r in range(5)], i
""")
# C26
bug("C26-mixed", "Color.py", [
    ("        color = color.lower()\n", "        color = color.lower() if color.isupper() or color[1:].islower() else color\n")],
    "a name with capitals inside", "mixed case names are not known", """
assert Color.fromName("DarkSlateGray") is not None
""")
bug("C26-round", "Color.py", [
    ("        cls._current_hue = (cls._current_hue + 73) % 360\n", "        cls._current_hue = (int(cls._current_hue) + 73) % 360\n")],
    "a current hue that is not an integer", "the fraction of the hue is lost", """
Color.setCurrentHue(59.5)
a = Color.randomHSLColor()
import colorsys
e = colorsys.hls_to_rgb(132.5 / 360, 0.5, 0.5)
b = Color(*[round(v * 255) for v in e])
assert abs(a.blue - b.blue) <= 1 and Color._current_hue == 132.5, (a, b)
""")
# C27
bug("C27-class-stack", "ContourPlotter.py", [
    ("        self._strokeAttributeStack = []\n", ""),
    ("    lastCommand = \"\"\n", "    lastCommand = \"\"\n    _strokeAttributeStack = []\n")],
    "two plotters used at the same time", "a plotter restores the settings of the other one", """
p, q = ContourPlotter((0, 0, 100, 100)), ContourPlotter((0, 0, 100, 100))
q.setStrokeWidth(17)
b = settings(p)
p.pushStrokeAttributes(width=5); q.pushStrokeAttributes(width=6); p.popStrokeAtributes()
assert settings(p) == b, settings(p)
""")
bug("C27-one-stack", "ContourPlotter.py", [
    ("        self._strokeAttributeStack.append((self._strokeWidth, self._strokeColor, self._strokeOpacity, self._strokeDash))\n", "        if (self._strokeWidth, self._strokeColor, self._strokeOpacity, self._strokeDash) not in self._strokeAttributeStack or color: self._strokeAttributeStack.append((self._strokeWidth, self._strokeColor, self._strokeOpacity, self._strokeDash))\n")],
    "a push without a color of settings that were pushed before", "the push is left out and a pop restores the wrong settings or fails", """
p = ContourPlotter((0, 0, 100, 100))
b = settings(p)
p.pushStrokeAttributes(); p.pushStrokeAttributes(width=9); p.popStrokeAtributes()
p.popStrokeAtributes()
assert settings(p) == b
""")
bug("C27-hull", "ContourPlotter.py", [
    ("        if lineColor: self.popStrokeAtributes()\n", "        if lineColor and order < 2 < start: self.popStrokeAtributes()\n")],
    "the hull of a line", "the stroke settings are not restored", """
p = ContourPlotter((0, 0, 100, 100)); b = settings(p)
p.drawHull(Bezier([(0, 0), (5, 5)]), 0.5)
assert settings(p) == b
""")
bug("C27-stroke-circles", "ContourPlotter.py", [
    ("        if colors:\n            if fill:\n                self.popFillAttributes()\n            else:\n                self.popStrokeAtributes()\n\n    def drawComplexPointsAsCircles",
     "        if colors:\n            if fill:\n                self.popFillAttributes()\n            elif len(colors) > 1 or len(points) > 1:\n                self.popStrokeAtributes()\n\n    def drawComplexPointsAsCircles")],
    "a single stroked circle", "the stroke color stays", """
p = ContourPlotter((0, 0, 100, 100)); b = settings(p)
p.drawPointsAsCircles([(1, 2)], 3, [FC(7, 7, 7)], fill=False)
assert settings(p) == b
""")
# C28
bug("C28-close-last", "ContourPlotter.py", [
    ("                if close: commands.append(\"Z\")\n\n        path +=", "        if close: commands.append(\"Z\")\n\n        path +=")],
    "several contours in one call", "only the last contour is closed", """
p = ContourPlotter((0, 0, 100, 100))
p.drawContours([[[(0, 0), (5, 5)], [(5, 5), (9, 0)]]] * 2)
assert p._content[0].count("Z") == 2
""")
bug("C28-hull-levels", "ContourPlotter.py", [
    ("            stop = start + order\n", "            stop = start + min(order, 3)\n"),
    ("            start = stop\n            order -= 1\n", "            start += order\n            order -= 1\n")],
    "the hull of a curve of order 4 or more", "construction lines are missing", """
p = ContourPlotter((0, 0, 100, 100))
p.drawHull(Bezier([(0, 0), (5, 5), (8, 9), (12, 3), (15, 0)]), 0.5)
n = [c for c in p._content if isinstance(c, str)]
assert n[1].count(",") == 4, n
""")
bug("C28-pen-cubic", "ContourPlotter.py", [
    ("                        commands.append(f\"{command}{p1} {p2} {p3}\")\n                        self._pen = segment[3]\n", "                        commands.append(f\"{command}{p1} {p2} {p3}\")\n                        self._pen = segment[3] if segment[3] != segment[0] else segment[2]\n")],
    "a closed cubic curve followed by a line", "the line after the curve is drawn horizontally or vertically", """
p = ContourPlotter((0, 0, 100, 100))
p.drawContours([[[(0, 0), (30, 30), (-30, 20), (0, 0)], [(0, 0), (9, 20)]]])
assert "L9,20" in p._content[0], p._content
""")
bug("C28-text", "ContourPlotter.py", [
    ("            x, y = point\n            self.drawText(x + 4, y - 4, \"left\", f\"({round(x, 2)}, {round(y, 2)})\", margin=False)\n", "            x, y = point\n            self.drawText(x + 4, y - 4, \"left\", f\"({round(x, 2)}, {round(y, 2)})\" if x >= 0 else f\"({round(-x, 2)}, {round(y, 2)})\", margin=False)\n")],
    "a control point with a negative x coordinate", "the label lacks the sign", """
p = ContourPlotter((0, 0, 100, 100))
p.drawSkeleton(Bezier([(-3, 0), (5, 5)]))
assert any("(-3, 0)" in str(c) for c in p._content)
""")
# C29
bug("C29-repeated", "Bezier.py", [
    ("            bc = BContour(contour)\n            bContours.append(bc)\n", "            bc = BContour(contour)\n            if not bContours or [b.controlPoints for b in bContours[-1]] != list(contour): bContours.append(bc)\n")],
    "an outline with the same contour twice in a row", "the second one is left out", """
c = [[(0, 0), (5, 5)], [(5, 5), (0, 0)]]
assert len(BOutline([c, c]).bContours) == 2
""")
bug("C29-flatten", "PathUtilities.py", [
    ("    return [segment for contour in contours for segment in contour]\n", "    return [segment for contour in contours for segment in contour if segment[0] != segment[-1] or len(segment) > 2]\n")],
    "a line of zero length", "zero-length lines are left out", """
assert len(PU.flatten([[[(0, 0), (0, 0)]], [[(0, 0), (5, 5)]]])) == 2
""")
bug("C29-level", "Bezier.py", [
    ("            if p0y <= p1y <= p2y:\n                return Bezier.dir_up\n", "            if p0y <= p1y <= p2y and p0y < p2y:\n                return Bezier.dir_up\n")],
    "a level quadratic curve", "level quadratic curves are said to go down", """
assert Bezier([(0, 3), (4, 3), (9, 3)]).direction == Bezier.dir_up
""")
