"""Planted bugs, sixth batch."""
import bugs3
BUGS = []
HEADS = bugs3.HEADS


def bug(id, file, edits, needs, breaks, demo, prop=None):
    BUGS.append(dict(id=id, property=prop or id[:3], file=file, edits=edits, needs=needs, breaks=breaks, demo=HEADS[file] + demo.strip("\n")))


bug("C16-double-root", "Bezier.py", [
    ("            q = butils.sqrt(b * b - 4 * a * c)\n", "            q = butils.sqrt(max(b * b - 4 * a * c, 0))\n")],
    "a cubic curve raised from a quadratic one that the line misses", "an intersection is reported", """
b = Bezier([(0, 0), (2, 4), (4, 4), (6, 0)])
assert b.roots(((-10, 5), (10, 5))) == [], b.roots(((-10, 5), (10, 5)))
""")
bug("C16-tangent", "Bezier.py", [
    ("butils.approximately(discriminant, 0, butils.epsilon * butils.epsilon):", "butils.approximately(discriminant, 0, butils.epsilon):")],
    "a line that passes close to a turn of a cubic curve it crosses elsewhere", "a root where there is none", """
b = Bezier([(0, -2000), (50, 24), (70, 18.2), (100, 2800)])
for k in range(-200, 200):
    l = ((0, k / 10), (100, k / 10))
    for t in b.roots(l):
        assert abs(b.get(t)[1] - k / 10) < 0.001, (k, t, b.get(t))
""")
bug("C10-outline-first", "Bezier.py", [
    ("    def boundsRectangle(self):\\n        # the contours", "")], "", "", "")
BUGS.pop()
bug("C29-repeated", "Bezier.py", [
    ("        for contour in contours:\n            bContours.append", "        for contour in (c for i, c in enumerate(contours) if i == 0 or c != contours[i - 1]):\n            bContours.append")],
    "an outline with the same contour twice in a row", "one of them is dropped", """
c = [[(0, 0), (5, 5)], [(5, 5), (0, 0)]]
assert len(BOutline([c, c]).bContours) == 2
""")
bug("C02-persp-s", "Transform.py", [
    ("        m = Transform._perspectiveMatrix(p, q, s)\n", "        m = Transform._perspectiveMatrix(p, q, s if s > 0 else 1)\n")],
    "a perspective with a negative scale", "the scale is ignored", """
assert Transform.perspective(0, 0, -2).applyToPoint((4, 6)) == (-2, -3)
""")
bug("C04-equal", "PathUtilities.py", [
    ("        if newRight < newLeft or newTop < newBottom: return None  # maybe want <=, >=?\n",
     "        if newRight < newLeft or newTop < newBottom or newRight == newLeft == newTop == newBottom: return None  # maybe want <=, >=?\n")],
    "two rectangles that meet in a point on the diagonal", "they do not intersect", """
assert BoundsRectangle((0, 0), (2, 2)).intersection(BoundsRectangle((2, 2), (3, 3))) is not None
""")
bug("C05-complex", "PathUtilities.py", [
    ("    p0x, p0y = pointXY(segment[0])\n    p1x, p1y = pointXY(segment[-1])\n\n    return (p0x", "    p0x, p0y = pointXY(segment[0])\n    p1x, p1y = pointXY(segment[-1]) if not isinstance(segment[0], complex) else pointXY(segment[1])\n\n    return (p0x")],
    "a quadratic segment given as complex numbers", "its end is its control point", """
assert endPoints([0j, 5 + 5j, 10 + 1j]) == (0, 0, 10, 1)
""".replace("endPoints", "PU.endPoints"))
bug("C05-steep-left", "PathUtilities.py", [
    ("    return math.degrees(math.atan2(abs(dx), abs(dy)))\n\n# def", "    return math.degrees(math.atan2(abs(dx), abs(dy)) if dy else math.atan2(dx, 0))\n\n# def")],
    "a horizontal line that goes to the left", "the angle is negative", """
assert PU.slopeAngle([(5, 1), (0, 1)]) == 90
""")
bug("C08-t2-small", "Bezier.py", [
    ("        t2 = butils.map(t2, t1, 1, 0, 1)\n", "        t2 = butils.map(t2, t1, 1, 0, 1) if t1 > 0.005 else t2\n")],
    "a part that begins just after the start", "it ends too late", """
b = Bezier([(0, 0), (0, 1000), (1000, 1000)])
p = b.split(0.004, 0.1).end
q = b.get(0.1)
assert math.hypot(p[0] - q[0], p[1] - q[1]) < 1e-6, (p, q)
""")
bug("C14-flattened", "Bezier.py", [
    ("        self._beziers[index] = Bezier(value)\n", "        self._beziers[index] = Bezier(value) if len(value) > 2 or [*value] != [*self._beziers[index].controlPoints][::len(self._beziers[index].controlPoints) - 1] else self._beziers[index]\n")],
    "a curve replaced by its chord", "the curve stays", """
c = BContour([[(0, 0), (5, 9), (10, 0)], [(10, 0), (0, 0)]])
c[0] = [(0, 0), (10, 0)]
assert len(c[0].controlPoints) == 2 and c.boundsRectangle.top == 0
""")
bug("C17-either", "Bezier.py", [
    ("        if c1b.height + c1b.width < intersectionThreshold and c2b", "        if c1b.height + c1b.width < intersectionThreshold and c1b.height or c2b")],
    "curves of very different lengths", "crossings that are far off on the longer curve", """
a = Bezier([(831, 49), (70, 750), (235, 273), (839, 87)]); s = Bezier([(810, 64), (813, 72), (819, 73)])
r = a.intersects(s)
assert r
for t, u in r:
    p, q = a.get(t), s.get(u)
    assert math.hypot(p[0] - q[0], p[1] - q[1]) < 1, (p, q)
""")
bug("C17-window", "Bezier.py", [
    ("            right = reduced[i+2:]\n", "            right = reduced[i+2:i+6]\n")],
    "a loop that takes more than six simple pieces", "its crossing is not found", """
assert Bezier([(29, 131), (11, 383), (183, 206), (9, 281)]).intersects(None)
""")
bug("C20-many", "Bezier.py", [
    ("            if ix < nCurves - 1: curve2 = self.beziers[ix + 1]\n", "            if ix < min(nCurves, 4) - 1: curve2 = self.beziers[ix + 1]\n")],
    "a contour of five or more curves and a point next to a late joint", "only one side of the joint is searched", """
c = BContour([[(i * 10, 0), (i * 10 + 10, 0)] for i in range(4)] + [[(40, 0), (40, 50), (90, 50)], [(90, 50), (0, 0)]])
d, p = c.findClosestPoint((38, 9), 3)
e = c.findClosestPoint((38, 9), 40)[0]
assert d < e + 0.3, (d, e)
""")
bug("C25-tiny", "MatrixInversion.py", [
    ("        if e == 0: return None\n", "        if abs(e) < 1e-12: return None\n")],
    "a matrix of very small numbers", "it is taken to be singular", """
r = matrixInvert([[Fraction(1, 10 ** 13), 0], [0, Fraction(1)]])
assert r is not None and r[0][0] == 10 ** 13
""")
bug("C26-unicode", "Color.py", [
    ("        if not color.isalpha():\n", "        if not (color.isalpha() and color.isascii()):\n")],
    "a name with letters that are not English", "None instead of an error", """
try:
    Color.fromName("gr\\u00fcn")
except ValueError:
    pass
else:
    raise SystemExit(1)
""")
bug("C27-no-points", "ContourPlotter.py", [
    ("            self.drawCircle(GlyphPlotterEngine.CoordinateSystem.content, x, y, radius, paintMode)\n\n        if colors:\n", "            self.drawCircle(GlyphPlotterEngine.CoordinateSystem.content, x, y, radius, paintMode)\n\n        if colors and i:\n")],
    "circles of no points with colors", "the fill color stays", """
p = ContourPlotter((0, 0, 100, 100))
s = settings(p)
p.drawPointsAsCircles([], 2, [FC(1, 2, 3)])
assert settings(p) == s and not p._fillAttributeStack
""")
bug("C28-margin", "ContourPlotter.py", [
    ("        coordinates = GlyphPlotterEngine.CoordinateSystem.contentMargins if margin else GlyphPlotterEngine.CoordinateSystem.content\n",
     "        coordinates = GlyphPlotterEngine.CoordinateSystem.contentMargins if margin or alignment == \"center\" else GlyphPlotterEngine.CoordinateSystem.content\n")],
    "a centered text outside of the margins' coordinate system", "it is placed in the margins", """
p = ContourPlotter((0, 0, 100, 100))
seen = []
p.drawLabel = lambda *a: seen.append(a)
p.drawText(1, 2, "center", "x", margin=False)
p.drawText(1, 2, "left", "x", margin=False)
assert seen[0][0] == seen[1][0]
""")
bug("C28-hull-control", "ContourPlotter.py", [
    ("            stop = start + order\n", "            stop = start + order if order < 4 else start + 4\n")],
    "the hull of a curve of order 5 or more", "points are left out", """
from PathLib.Bezier import Bezier
p = ContourPlotter((0, 0, 100, 100))
seen = []
p.drawPointsAsSegments = lambda pts, c=None: seen.append(list(pts))
p.drawHull(Bezier([(0, 0), (1, 5), (2, 3), (4, 4), (5, 1), (6, 6)]), 0.5)
assert [len(s) for s in seen] == [6, 5, 4, 3, 2], seen
""")
bug("C21-comma", "Bezier.py", [
    ('                        commands.append(f"{command}{x}")\n', '                        commands.append(f"{command}{x}" if x != int(x) else f"{command}{int(x)}")\n')],
    "huge x", "", "")
BUGS.pop()
bug("C22-corner", "SegmentPen.py", [
    ("        if pt != self._lastOnCurve:\n", "        if pt != self._lastOnCurve and not (self._contour and pt == self._contour[0][0] and len(self._contour[-1]) > 2 and self._contour[-1][-1] == pt):\n")],
    "", "", "")
BUGS.pop()
bug("C22-same-ends", "SegmentPen.py", [
    ("        if len(segment) <= 3:\n            self._contour.append(segment)\n", "        if len(segment) <= 3:\n            self._contour.append(segment if segment[0] != segment[-1] else segment[:2])\n")],
    "a quadratic curve that returns to where it starts", "it becomes a line to its control point", """
p = SegmentPen({}, logging.getLogger("x"))
p.moveTo((0, 0)); p.qCurveTo((5, 5), (0, 0)); p.lineTo((3, 0)); p.closePath()
assert [list(s) for s in p.contours[0]][0] == [(0, 0), (5, 5), (0, 0)], p.contours
""")
bug("C22-single", "SegmentPen.py", [
    ("        if self._contour:  # Ignore this if called with an empty contour\n", "        if len(self._contour) > (1 if self._contours else 0):  # Ignore this if called with an empty contour\n")],
    "a contour of a single open segment that is not the first one", "it is dropped", """
p = SegmentPen({}, logging.getLogger("x"))
for x in (0, 50):
    p.moveTo((x, 0)); p.curveTo((x + 5, 5), (x + 9, 5), (x + 9, 0)); p.closePath()
assert len(p.contours) == 2
""", prop="C22")
bug("C24-close-even", "CurveFitting.py", [
    ("            d.append(d[i-1] + dist(p[i-1], p[i]))\n", "            d.append(d[i-1] + (dist(p[i-1], p[i]) or 1))\n")],
    "two equal consecutive points", "their time values differ", """
t = computeTimeValues([(0, 0), (3, 0), (3, 0), (6, 0)])
assert t == [0, 0.5, 0.5, 1], t
""")
bug("C24-row7", "CurveFitting.py", [
    ("    [1, 6, 15, 20, 15, 6, 1]]  # n = 6", "    [1, 6, 15, 20, 15, 6, 1], [1, 7, 21, 35, 35, 20, 7, 1]]  # n = 6, 7")],
    "the row of binomials for 7", "a wrong coefficient", """
assert [binomial(7, k) for k in range(8)] == [1, 7, 21, 35, 35, 21, 7, 1]
""", prop="C24")
bug("C13-reuse", "Bezier.py", [
    ("            self._lut.extend(curve.getLUT(steps)[startPoint:])\n", "            self._lut = curve.getLUT(steps) if startPoint == 0 and len(self._beziers) == 2 else self._lut + curve.getLUT(steps)[startPoint:] if len(self._beziers) != 2 else self._lut.extend(curve.getLUT(steps)[startPoint:]) or self._lut\n")],
    "the table of a contour of two curves, then that of its first curve", "the table of the curve has grown", """
c = BContour([[(0, 0), (5, 9), (10, 0)], [(10, 0), (0, 0)]])
c.getLUT(5)
assert len(c[0].getLUT(9)) == 9
c.getLUT(5)
t = list(c[0].getLUT(5))
u = BContour([[(0, 0), (5, 9), (10, 0)], [(10, 0), (0, 0)]])
u.getLUT(5)
assert u[0]._compute(1) == (10, 0) and len(t) == 5, t
""", prop="C14")
