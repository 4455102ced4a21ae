"""Planted bugs, first batch."""
BUGS = []


def bug(id, prop, file, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=prop, file=file, edits=edits, needs=needs, breaks=breaks, demo=demo))


STUB = '''
import sys, types
G = types.ModuleType("FontDocTools.GlyphPlotterEngine"); P = types.ModuleType("FontDocTools"); K = types.ModuleType("FontDocTools.Color")
class FC:
    def __init__(self, r, g, b): self.red, self.green, self.blue = r, g, b
    def __repr__(self): return "#%02x%02x%02x" % (self.red, self.green, self.blue)
K.Color = FC
class Margins(tuple):
    def __new__(cls, *a): return tuple.__new__(cls, a)
    top = property(lambda s: s[3])
class Names:
    def __getattr__(self, n): return n
class Engine:
    def __init__(self):
        self._boundsAggregator = types.SimpleNamespace(addBounds=lambda b: None)
        self._content = []; self._pen = (0, 0)
        self._fillColor, self._fillOpacity = FC(1, 2, 3), 0.25
        self._strokeWidth, self._strokeColor, self._strokeOpacity, self._strokeDash = 3, FC(4, 5, 6), 0.75, None
    def setContentMargins(self, m): self._contentMargins = m
    def setFrameMargins(self, m): pass
    def setLabelFontSize(self, a, b): self._labelFontSize = a
    def setFillColor(self, c): self._fillColor = c
    def setFillOpacity(self, o): self._fillOpacity = o
    def setStrokeWidth(self, w): self._strokeWidth = w
    def setStrokeColor(self, c): self._strokeColor = c
    def setStrokeOpacity(self, o): self._strokeOpacity = o
    def setStrokeDash(self, d): self._strokeDash = d
    def moveToXY(self, x, y): self._pen = (x, y)
    def _fillAttributes(self): return "fill='%s' o='%s'" % (self._fillColor, self._fillOpacity)
    def _strokeAttributes(self): return "w='%s' stroke='%s' o='%s' d='%s'" % (self._strokeWidth, self._strokeColor, self._strokeOpacity, self._strokeDash)
    def drawCircle(self, cs, x, y, r, mode): self._content.append(("circle", x, y, r, mode, str(self._fillColor), str(self._strokeColor)))
    def drawLabel(self, *a): self._content.append(("label",) + a)
    def drawArrow(self, *a): self._content.append(("arrow",) + a)
G.GlyphPlotterEngine = Engine; G.Margins = Margins; G.PaintMode = Names(); G.CoordinateSystem = Names()
P.GlyphPlotterEngine = G
sys.modules.update({"FontDocTools": P, "FontDocTools.GlyphPlotterEngine": G, "FontDocTools.Color": K})
def settings(p): return (p._fillColor, p._fillOpacity, p._strokeWidth, p._strokeColor, p._strokeOpacity, p._strokeDash)
'''

# Transform
bug("C01-near-affine", "C01", "Transform.py", [
    ("        rx = rp[0]/rp[2]\n        ry = rp[1]/rp[2]\n",
     "        w = rp[2] if abs(rp[2] - 1) > 1e-3 else 1\n        rx = rp[0]/w\n        ry = rp[1]/w\n")],
    "a perspective whose third coordinate differs from 1 by less than 0.001",
    "points are not divided by the third homogeneous coordinate when it is close to 1",
    '''
from PathLib.Transform import Transform
x, y = Transform.perspective(p=1e-6).applyToPoint((800, 100))
assert abs(x - 800 / 1.0008) < 1e-6 and abs(y - 100 / 1.0008) < 1e-6, (x, y)
''')
bug("C01-connected", "C01", "Transform.py", [
    ("            transformed.append(self.applyToSegment(segment))\n\n        return transformed\n\n\n    def applyToContours",
     "            start = [transformed[-1][-1]] if transformed else [self.applyToPoint(segment[0])]\n            transformed.append(start + self.applyToSegment(segment[1:]))\n\n        return transformed\n\n\n    def applyToContours")],
    "a contour whose segments are not connected",
    "the first point of a segment is replaced by the last point of the segment before",
    '''
from PathLib.Transform import Transform
c = [[(0, 0), (10, 0)], [(20, 5), (30, 5)]]
assert Transform.translate((0, 0), (1, 2)).applyToContour(c) == [[(1, 2), (11, 2)], [(21, 7), (31, 7)]]
''')
bug("C01-identity-skip", "C01", "Transform.py", [
    ("        for matrix in matrices[1:]:\n            concatenation = ",
     "        for matrix in matrices[1:]:\n            if matrix[0][0] == matrix[1][1] == 1 and matrix[0][1] == matrix[1][0] == 0 and not any(matrix[2][:2]): continue\n            concatenation = ")],
    "a pure perspective matrix after another matrix in the constructor",
    "perspective matrices are taken for the identity when matrices are concatenated",
    '''
from PathLib.Transform import Transform
t = Transform(Transform._scaleMatrix(2, 3), Transform._perspectiveMatrix(0.01, 0))
x, y = t.applyToPoint((10, 10))
assert abs(x - 20 / 1.2) < 1e-9 and abs(y - 30 / 1.2) < 1e-9, (x, y)
''')
bug("C02-right-angles", "C02", "Transform.py", [
    ("        return round(math.sin(math.radians(degrees)), 15)",
     "        if degrees % 90 == 0: return (0.0, 1.0, 0.0, -1.0)[int(abs(degrees) // 90) % 4]\n        return round(math.sin(math.radians(degrees)), 15)")],
    "a rotation by a negative odd multiple of 90 degrees",
    "rotations by -90 degrees turn the wrong way",
    '''
from PathLib import PathUtilities as PU
x, y = PU.rotatePointAbout((10, 0), (0, 0), -90)
assert abs(x) < 1e-9 and abs(y + 10) < 1e-9, (x, y)
''')
bug("C02-mirror-both", "C02", "Transform.py", [
    ("        if yAxis:\n            tx = cx\n", "        elif yAxis:\n            tx = cx\n")],
    "mirroring around a center in both directions at once",
    "the center is not fixed in the x direction if both axes are mirrored",
    '''
from PathLib.Transform import Transform
assert Transform.mirrorAround((3, 4), True, True).applyToPoint((3, 4)) == (3, 4)
''')
bug("C02-contours-cw", "C02", "PathUtilities.py", [
    ("    Rotate the given contours the given number of degrees about the point about\n    in a clockwise or counter-clockwise direction.\n    \"\"\"\n    rt = Transform.rotationAbout(about, degrees, ccw)",
     "    Rotate the given contours the given number of degrees about the point about\n    in a clockwise or counter-clockwise direction.\n    \"\"\"\n    rt = Transform.rotationAbout(about, degrees)")],
    "rotating a list of contours clockwise", "the direction is ignored for lists of contours",
    '''
from PathLib import PathUtilities as PU
r = PU.rotateContoursAbout([[[(10, 0), (20, 0)]]], (0, 0), 90, ccw=False)
assert abs(r[0][0][0][1] + 10) < 1e-9, r
''')
bug("C02-angle-period", "C02", "Transform.py", [
    ("        return round(math.cos(math.radians(degrees)), 15)",
     "        return round(math.cos(math.radians(degrees % 360 if abs(degrees) < 3600 else degrees % 3600 % 180)), 15)")],
    "rotation by more than ten turns", "large angles lose half a turn",
    '''
from PathLib.Transform import Transform
x, y = Transform.rotation(3600 + 200).applyToPoint((1, 0))
assert abs(x + 0.9396926207859084) < 1e-9, (x, y)
''')

# Bounds
bug("C03-right-edge", "C03", "PathUtilities.py", [
    ("        return self.left <= x <= self.right\n", "        return self.left <= x < self.right\n")],
    "an x coordinate exactly on the right edge", "the right edge is not part of the rectangle",
    '''
from PathLib.PathUtilities import BoundsRectangle
r = BoundsRectangle((0, 0), (10, 5))
assert r.crossesX(10) and r.crossesX(0)
''')
bug("C03-elif", "C03", "PathUtilities.py", [
    ("            bottom = min(bottom, py)\n            top = max(top, py)\n",
     "            if py < bottom: bottom, top = py, max(top, bottom) if bottom < math.inf else py\n            elif py > top: top = py\n")],
    "points whose y coordinates descend twice below the bottom after the top was passed",
    "never wrong for the bottom; the top is lost", '''
from PathLib.PathUtilities import BoundsRectangle
import itertools
for ps in itertools.permutations([0, 1, 2, 3]):
    r = BoundsRectangle(*[(0, y) for y in ps])
    assert (r.bottom, r.top) == (0, 3), ps
''')
bug("C04-touching", "C04", "PathUtilities.py", [
    ("        if newRight < newLeft or newTop < newBottom: return None", "        if newRight <= newLeft or newTop <= newBottom: return None")],
    "rectangles that only touch, or rectangles of no width or height", "rectangles with a common edge or corner do not intersect",
    '''
from PathLib.PathUtilities import BoundsRectangle
a, b = BoundsRectangle((0, 0), (10, 10)), BoundsRectangle((10, 2), (20, 5))
i = a.intersection(b)
assert i is not None and i.points == (10, 2, 10, 5)
assert a.relationTo(b) == BoundsRectangle.relationIntersects
''')
bug("C04-encloses-top", "C04", "PathUtilities.py", [
    ("        return self.enclosesPoint(otherDiagonal[0]) and self.enclosesPoint(otherDiagonal[1])",
     "        return self.enclosesPoint(otherDiagonal[0]) and other.width <= self.right - other.left")],
    "a rectangle that sticks out at the top only", "a rectangle that is too high is said to be enclosed",
    '''
from PathLib.PathUtilities import BoundsRectangle
a, b = BoundsRectangle((0, 0), (10, 10)), BoundsRectangle((2, 2), (5, 20))
assert not a.encloses(b)
assert a.relationTo(b) == BoundsRectangle.relationIntersects
''')
bug("C04-enclosed-first", "C04", "PathUtilities.py", [
    ("        elif other.encloses(self):\n            return self.relationEnclosed\n        elif self.intersection(other):\n",
     "        elif other.encloses(self) and self.area < other.area:\n            return self.relationEnclosed\n        elif self.intersection(other):\n")],
    "a degenerate rectangle (a line) enclosed in a longer one", "an enclosed rectangle of the same area is said to intersect",
    '''
from PathLib.PathUtilities import BoundsRectangle
a, b = BoundsRectangle((2, 0), (5, 0)), BoundsRectangle((0, 0), (10, 0))
assert a.relationTo(b) == BoundsRectangle.relationEnclosed
''')

# Lines
bug("C05-last-point", "C05", "PathUtilities.py", [
    ("    p1x, p1y = pointXY(segment[-1])\n", "    p1x, p1y = pointXY(segment[min(2, len(segment) - 1)])\n")],
    "a cubic segment", "the end of a segment with four points is its third point",
    '''
from PathLib import PathUtilities as PU
assert PU.endPoints([(0, 0), (1, 5), (2, 5), (7, 1)]) == (0, 0, 7, 1)
''')
bug("C05-raw-angle", "C05", "PathUtilities.py", [
    ("    return math.degrees(math.atan2(dy, dx))", "    return math.degrees(math.atan(dy / dx)) if dx else math.degrees(math.atan2(dy, dx))")],
    "a line that goes to the left", "the direction of lines to the left is turned by 180 degrees",
    '''
from PathLib import PathUtilities as PU
assert abs(PU.rawSlopeAngle([(0, 0), (-1, 1)]) - 135) < 1e-9
''')
bug("C05-length-squares", "C05", "PathUtilities.py", [
    ("    return math.hypot(*getDeltas(segment))", "    dx, dy = getDeltas(segment)\n    return math.sqrt(dx ** 2 + dy ** 2) if abs(dx) < 2 ** 31 else abs(dx)")],
    "a line longer than 2^31", "the height of very wide lines is ignored",
    '''
from PathLib import PathUtilities as PU
assert abs(PU.length([(0, 0), (3e10, 4e10)]) - 5e10) < 1
''')
bug("C05-micros", "C05", "PathUtilities.py", [
    ("    return funits * 1000 / unitsPerEM", "    return funits * (1000 / unitsPerEM) if 1000 % unitsPerEM else funits * (1000 // unitsPerEM) // 1")],
    "a fractional number of units in an em that divides 1000", "fractions of units are cut off",
    '''
from PathLib import PathUtilities as PU
assert PU.toMicros(0.25, 1000) == 0.25
''')
bug("C06-parallel", "C06", "BezierUtilities.py", [
    ("    if d == 0: return None\n", "    if abs(d) < 1e-6: return None\n")],
    "short lines: coordinates below about 0.001", "small lines that cross are said to be parallel",
    '''
from PathLib import PathUtilities as PU
p = PU.intersectionPoint([(0, 0), (0.0004, 0.0004)], [(0, 0.0004), (0.0004, 0)])
assert p is not None and abs(p[0] - 0.0002) < 1e-9
''')
bug("C06-second-box", "C06", "PathUtilities.py", [
    ("    return intersection if b1.enclosesPoint(intersection) and b2.enclosesPoint(intersection) else None",
     "    return intersection if b1.enclosesPoint(intersection) and b1.intersection(b2) else None")],
    "lines whose boxes overlap but which do not reach each other", "a point that is not on the second line is returned",
    '''
from PathLib import PathUtilities as PU
assert PU.intersectionPoint([(0, 0), (10, 10)], [(9, 0), (8, 2)]) is None
''')
bug("C06-steep", "C06", "BezierUtilities.py", [
    ("    nx = (x1 * y2 - y1 * x2) * (x3 - x4) - (x1 - x2) * (x3 * y4 - y3 * x4)\n",
     "    nx = (x1 * y2 - y1 * x2) * (x3 - x4) - (x1 - x2) * (x3 * y4 - y3 * x4) if x1 != x2 or x3 == x4 else x1 * (x1 - x2 or 1) * (y3 - y4)\n")],
    "a vertical first line", "the crossing with a vertical line is wrong",
    '''
from PathLib import PathUtilities as PU
p = PU.intersectionPoint([(3, 0), (3, 10)], [(0, 0), (6, 6)])
assert p is not None and abs(p[0] - 3) < 1e-9 and abs(p[1] - 3) < 1e-9, p
''')

# Curves
bug("C07-quartic-end", "C07", "Bezier.py", [
    ("        if t == 1: return self._controlPoints[self.order]\n", "        if t == 1: return self._controlPoints[min(self.order, 3)]\n")],
    "a curve of order 4 or more at t = 1", "the end of higher order curves is their fourth control point",
    '''
from PathLib.Bezier import Bezier
assert Bezier([(0, 0), (1, 2), (2, 3), (3, 1), (4, 4)]).get(1) == (4, 4)
''')
bug("C07-shorter-table", "C07", "Bezier.py", [
    ("        if len(self._lut) == steps: return self._lut\n", "        if len(self._lut) >= steps: return self._lut[:steps - 1] + self._lut[-1:]\n")],
    "a table with fewer points after one with more points", "the shorter table is a piece of the longer one",
    '''
from PathLib.Bezier import Bezier
b = Bezier([(0, 0), (5, 10), (10, 0)])
b.getLUT(20)
assert b.getLUT(5) == Bezier([(0, 0), (5, 10), (10, 0)]).getLUT(5)
''')
bug("C07-sum-of-steps", "C07", "Bezier.py", [
    ("            self._lut.append(self.get(t / steps))\n", "            self._lut.append(self.get(t * (1 / steps)))\n")],
    "a number of points for which n * (1 / n) is not 1 (50 for example)", "the table does not end exactly at the end of the curve",
    '''
from PathLib.Bezier import Bezier
b = Bezier([(0, 0), (500.5, 1000.25), (1000, 0.125)])
for n in range(2, 120):
    assert b.getLUT(n)[-1] == b.end, n
''')
bug("C08-left-range", "C17", "Bezier.py", [
    ("        left._t2 = butils.map(t1, 0, 1, self._t1, self._t2)\n", "        left._t2 = butils.map(t1, 0, 1, 0, self._t2)\n")],
    "splitting a piece that does not begin at 0", "the parameters of intersections on such pieces are wrong",
    '''
from PathLib.Bezier import Bezier
a = Bezier([(0, 0), (20, 100), (80, 100), (100, 0)])
b = Bezier([(70, -10), (75, 40), (85, 60), (80, 110)])
r = a.intersects(b, 0.01)
assert r
for s, t in r:
    p, q = a.get(s), b.get(t)
    assert abs(p[0] - q[0]) + abs(p[1] - q[1]) < 0.1, (s, t, p, q)
''')
bug("C08-split-piece", "C08", "Bezier.py", [
    ("        t2 = butils.map(t2, t1, 1, 0, 1)\n", "        t2 = butils.map(t2, t1, 1, 0, 1) if t2 - t1 > 0.001 else (t2 - t1) * (1 + t1)\n")],
    "two parameters that differ by less than 0.001", "very short parts are too short or too long",
    '''
from PathLib.Bezier import Bezier
b = Bezier([(0, 0), (200, 1000), (800, 1000), (1000, 0)])
s = b.split(0.5, 0.5005)
e = b.get(0.5005)
assert abs(s.end[0] - e[0]) + abs(s.end[1] - e[1]) < 1e-6, (s.end, e)
''')
bug("C08-hull-lerp", "C08", "BezierUtilities.py", [
    ("    return (v1x + r * (v2x - v1x), v1y + r * (v2y - v1y))", "    return (v1x + r * (v2x - v1x), v1y + (r if v1y <= v2y else 1 - (1 - r)) * (v2y - v1y) if abs(v2y - v1y) > 1e-3 else (v1y + v2y) / 2)")],
    "consecutive points whose heights differ by less than 0.001", "small rises are interpolated in the middle",
    '''
from PathLib.Bezier import Bezier
l, r, _ = Bezier([(0, 0), (1e-4, 8e-4), (2e-4, 0)]).split(0.25)
assert abs(l.controlPoints[1][1] - 2e-4) < 1e-9, l.controlPoints
''')
bug("C09-weights", "C09", "Bezier.py", [
    ("            y = ((k - i) / k) * piy + (i / k) * pimy\n", "            y = ((k - i) / k) * piy + (i / max(k, 3)) * pimy\n")],
    "raising a line", "the y coordinates of a raised line are wrong",
    '''
from PathLib.Bezier import Bezier
assert Bezier([(0, 6), (4, 2)]).raiseOrder().controlPoints == [(0, 6), (2, 4), (4, 2)]
''')
bug("C09-ratio", "C09", "BezierUtilities.py", [
    ("    bottom = t3 + mt3\n", "    bottom = t3 + mt3 if t < 0.9 else 1 - 3 * t * mt * (1 - mt)\n")],
    "t above 0.9", "the ratio of cubic curves is off near the end",
    '''
from PathLib.BezierUtilities import cubicRatio
for i in range(1, 100):
    t = i / 100
    e = abs((t ** 3 + (1 - t) ** 3 - 1) / (t ** 3 + (1 - t) ** 3))
    assert abs(cubicRatio(t) - e) < 1e-9, t
''')
bug("C10-near-end", "C10", "Bezier.py", [
    ("        if 1 not in list: list.append(1)\n", "        if 1 not in list and not any(t > 0.99 for t in list): list.append(1)\n")],
    "an extremum just before the end", "the end point is not in the bounds",
    '''
from PathLib.Bezier import Bezier
b = Bezier([(0, 0), (5, 504.5), (10, 1000)])
x = Bezier([(0, 1000), (500, 10), (1000, 9.99), (1500, 10.0)])
for c in (b, x, Bezier([(0, 0), (100, 1000), (200, 995)])):
    (l, r), (bo, t) = c.bbox[0], c.bbox[1]
    for p in c.getLUT(401):
        assert l - 1e-6 <= p[0] <= r + 1e-6 and bo - 1e-6 <= p[1] <= t + 1e-6, (c.controlPoints, p, c.bbox)
    assert bo <= c.end[1] <= t
''')
bug("C10-flat-parabola", "C10", "BezierUtilities.py", [
    ("        if a != b:\n            return [a / (a - b)]\n", "        if not approximately(a, b, 0.5):\n            return [a / (a - b)]\n")],
    "a flat quadratic curve: its height is a fraction of a unit", "bounds of flat or small quadratic curves are too small",
    '''
from PathLib.Bezier import Bezier
b = Bezier([(0, 0), (50, 0.1), (100, 0)])
assert b.bbox[1][1] >= 0.05 - 1e-9, b.bbox
''')
bug("C10-strict-overlap", "C10", "Bezier.py", [
    ("        return self.boundsRectangle.intersection(curve.boundsRectangle) is not None\n",
     "        a, b = self.boundsRectangle, curve.boundsRectangle\n        return a.left < b.right and b.left < a.right and a.bottom < b.top and b.bottom < a.top\n")],
    "curves whose bounds only touch, or horizontal and vertical lines", "touching bounds do not overlap",
    '''
from PathLib.Bezier import Bezier
assert Bezier([(0, 5), (10, 5)]).overlaps(Bezier([(3, 5), (20, 5)]))
assert Bezier([(0, 0), (5, 10), (10, 0)]).overlaps(Bezier([(10, 0), (15, 10), (20, 0)]))
''')
bug("C10-third-derivative", "C10", "Bezier.py", [
    ("                result[dim] = list(filter(lambda t: t >= 0 and t <= 1, result[dim]))\n",
     "                result[dim] = [t for t in result[dim] if 1e-3 <= t <= 1]\n")],
    "a curve that turns back within the first thousandth", "bounds leave out what the curve does right after its start",
    '''
from PathLib.Bezier import Bezier
b = Bezier([(0, 0), (500, -0.9), (1000, 1000)])
lo = min(p[1] for p in b.getLUT(20001))
assert lo < -1e-4 and b.bbox[1][0] <= lo + 1e-9, (lo, b.bbox)
''')
bug("C11-align-left", "C11", "Bezier.py", [
    ("        transform = Transform.moveAndRotate(segment[0], (0, 0), -angle)\n",
     "        transform = Transform.moveAndRotate(segment[0], (0, 0), 180 - angle if abs(angle) > 179 else -angle)\n")],
    "a segment that goes straight to the left", "the end of the segment is aligned to the negative x axis",
    '''
from PathLib.Bezier import Bezier
a = Bezier([(10, 0), (5, 4), (0, 0)]).align()
assert abs(a.end[0] - 10) < 1e-9 and abs(a.end[1]) < 1e-9, a.controlPoints
''')
bug("C11-tight-cache", "C11", "Bezier.py", [
    ("        tBounds = aligned.boundsRectangle\n", "        tBounds = aligned.boundsRectangle if not self._linear else PathUtilities.BoundsRectangle(aligned.start, aligned.end)\n")],
    "a straight curve with control points beyond its ends", "the tight box of a straight curve is only as long as its chord",
    '''
from PathLib.Bezier import Bezier
b = Bezier([(0, 0), (-30, -40), (3, 4)])
xs = [p[0] for s in b.tightbbox for p in s]
lo = min(p[0] for p in b.getLUT(200))
assert min(xs) <= lo + 1e-6, (min(xs), lo)
''')
bug("C12-normal-sign", "C12", "Bezier.py", [
    ("        q = butils.sqrt(dx * dx + dy * dy)\n        return (-dy / q, dx / q)\n",
     "        q = butils.sqrt(dx * dx + dy * dy) if dx * dx + dy * dy > 1e-6 else math.fabs(dx) + math.fabs(dy)\n        return (-dy / q, dx / q)\n")],
    "a curve smaller than a thousandth of a unit, or a place where it nearly stops", "normals are not unit vectors there",
    '''
import math
from PathLib.Bezier import Bezier
n = Bezier([(0, 0), (1e-4, 2e-4), (3e-4, 3e-4)]).normal(0.5)
assert abs(math.hypot(*n) - 1) < 1e-9, n
''')
bug("C12-derivative-line", "C12", "Bezier.py", [
    ("            b = mt * t * 2\n            c = t * t\n\n        p0x, p0y = p[0]\n        p1x, p1y = p[1]\n        p2x, p2y = p[2]\n\n        # if",
     "            b = mt * t * 2\n            c = t * t if t < 1 else t\n            if t > 1 - 1e-3: a, b, c = 0, 1 - t, t\n\n        p0x, p0y = p[0]\n        p1x, p1y = p[1]\n        p2x, p2y = p[2]\n\n        # if")],
    "a cubic curve within a thousandth of its end", "the direction of the normal is off by about a thousandth",
    '''
from PathLib.Bezier import Bezier
b = Bezier([(0, 0), (0, 100), (100, 100), (100, 90)])
t = 0.9992
dx = 3 * ((1 - t) ** 2 * 0 + 2 * (1 - t) * t * 100 + t * t * 0)
dy = 3 * ((1 - t) ** 2 * 100 + 2 * (1 - t) * t * 0 + t * t * -10)
n = b.normal(t)
assert abs(n[0] * dx + n[1] * dy) < 1e-6 * (dx * dx + dy * dy) ** 0.5, n
''')
bug("C13-piece-derivatives", "C13", "Bezier.py", [
    ("        # make sure we bind _t1/_t2 information!\n",
     "        # the derivatives of the halves are those of the curve, scaled\n        if self._dcPoints and self.order == 1:\n            left._dcPoints = right._dcPoints = [[(dx * 0.5, dy * 0.5) for dx, dy in d] for d in self._dcPoints]\n\n        # make sure we bind _t1/_t2 information!\n"),
    ("            right = Bezier([q[2], q[1]])\n", "            right = Bezier((q[2], q[1]))\n")],
    "the length of a part of a line whose derivative was asked for before, split elsewhere than in the middle",
    "parts of lines report half of the length of the line",
    '''
from PathLib.Bezier import Bezier
b = Bezier([(0, 0), (100, 0)])
b.length
l, r, _ = b.split(0.25)
assert abs(float(l.length) - 25) < 1e-6 and abs(float(r.length) - 75) < 1e-6, (l.length, r.length)
''')
bug("C14-control-bounds", "C14", "Bezier.py", [
    ("            bounds = bounds.union(bezier.boundsRectangle)\n            beziers.append(bezier)\n",
     "            bounds = bounds.union(bezier.boundsRectangle if bezier.direction != Bezier.dir_mixed else PathUtilities.BoundsRectangle(*segment))\n            beziers.append(bezier)\n")],
    "a contour with a curve that is not monotone", "bounds of the control points instead of the curve",
    '''
from PathLib.Bezier import BContour
b = BContour([[(0, 0), (5, 10), (10, 0)], [(10, 0), (0, 0)]]).boundsRectangle
assert b.top == 5, b.points
''')
bug("C14-table-joint", "C14", "Bezier.py", [
    ("            startPoint = 1\n", "            startPoint = 1 if curve.end != self._start else 0\n")],
    "a contour that passes through its start point before its end", "a point of the table is repeated",
    '''
from PathLib.Bezier import BContour
c = BContour([[(0, 0), (10, 0)], [(10, 0), (0, 0)], [(0, 0), (0, 10)]])
assert len(c.getLUT(5)) == 13, len(c.getLUT(5))
''')
bug("C15-abscissa", "C15", "BezierUtilities.py", [
    ('    Decimal("0.8200019859739029219539498726697452080761"),\n', '    Decimal("0.8200019859793029219539498726697452080761"),\n')],
    "any curve that is not straight, and a look at the eleventh digit", "two digits of an abscissa are exchanged: lengths are off by about 1e-12",
    '''
from PathLib.BezierUtilities import tValues
assert all(tValues[i] == -tValues[i + 1] for i in range(0, 24, 2))
''')
bug("C15-weight", "C15", "BezierUtilities.py", [
    ('    Decimal("0.0976186521041138882698806644642471544279"),\n    Decimal("0.0976186521041138882698806644642471544279"),\n',
     '    Decimal("0.0976186521041138882698806644642471544279"),\n    Decimal("0.0976185621041138882698806644642471544279"),\n')],
    "a length compared to seven digits", "two digits of a weight are exchanged",
    '''
from PathLib.Bezier import Bezier
assert abs(float(Bezier([(0, 0), (3000, 4000)]).length) - 5000) < 1e-6
''')
bug("C16-double-root", "C16", "Bezier.py", [
    ("            return list(filter(reduce, [(q - b) / a2, (-b - q) / a2]))", "            return list(filter(reduce, [(q - b) / a2, (b - q) / a2]))")],
    "a cubic curve that is a raised quadratic curve, crossed twice", "the second crossing is lost",
    '''
from PathLib.Bezier import Bezier
b = Bezier([(0, -3), (2, 3), (4, 3), (6, -3)])
r = b.roots()
assert len(r) == 2, r
''')
bug("C16-leftward", "C16", "Bezier.py", [
    ("        MY = max(p1y, p2y)\n", "        MY = p2y if p1x <= p2x else p1y\n"), ("        my = min(p1y, p2y)\n", "        my = p1y if p1x <= p2x else p2y\n")],
    "a line that falls from left to right", "crossings with falling lines are not found",
    '''
from PathLib.Bezier import Bezier
b = Bezier([(0, 0), (5, 10), (10, 10)])
assert len(b.lineIntersects(((0, 10), (10, 0)))) == 1
''')
bug("C16-cubic-sign", "C16", "Bezier.py", [
    ("            x3 = t1 * math.cos((phi + 2 * butils.tau) / 3) - a / 3\n", "            x3 = t1 * math.cos((phi + 2 * butils.tau) / 3) - a / 3 if phi > 0.1 else x1\n")],
    "three crossings, two of them close together", "one of three crossings is lost",
    '''
from PathLib.Bezier import Bezier
import math
def coeff(roots):
    # Bernstein coefficients of the monic cubic with these roots
    r, s, t = roots
    c0, c1, c2 = -r * s * t, r * s + r * t + s * t, -(r + s + t)
    return [c0, c0 + c1 / 3, c0 + 2 * c1 / 3 + c2 / 3, c0 + c1 + c2 + 1]
for roots in ((0.1, 0.5, 0.53), (0.2, 0.5, 0.52), (0.47, 0.5, 0.9), (0.48, 0.5, 0.8)):
    b = Bezier([(i * 100, y * 1000) for i, y in enumerate(coeff(roots))])
    got = sorted(b.roots())
    assert len(got) == 3 and all(abs(a - e) < 1e-6 for a, e in zip(got, sorted(roots))), (roots, got)
''')
bug("C17-first-pair", "C17", "Bezier.py", [
    ("            results.extend(Bezier.pairiteration(left, right, intersectionThreshold))\n",
     "            results.extend(Bezier.pairiteration(left, right, intersectionThreshold))\n            if len(results) > 2: break\n"),
    ("            left, right = pair\n", "            left, right = pair[0], pair[1]\n")],
    "two simple pieces that cross twice", "the second crossing of two pieces is lost",
    '''
from PathLib.Bezier import Bezier
a = Bezier([(0, 0), (50, 40), (100, 0)])
b = Bezier([(0, 12), (50, 10), (100, 8)])
r = a.intersects(b, 0.05)
assert min(s for s, _ in r) < 0.4 and max(s for s, _ in r) > 0.6, r
''')
bug("C17-neighbors", "C17", "Bezier.py", [
    ("            right = reduced[i+2:]\n", "            right = reduced[i+3:]\n")],
    "a loop made of three pieces", "small loops are not found",
    '''
from PathLib.Bezier import Bezier
import itertools
n = 0
for a, b in itertools.product((140, 160, 200, 260), (60, 100, 140)):
    c = Bezier([(0, 0), (a, b), (100 - a, b), (100, 0)])
    if c.intersects(None, 0.5): n += 1
    else: print(a, b)
assert n == 12, n
''')
bug("C18-last-piece", "C18", "Bezier.py", [
    ("                segment = p1.split(t1, 1)\n                segment._t1 = butils.map(t1, 0, 1, p1._t1, p1._t2)\n",
     "                segment = p1.split(t1, 1)\n                segment._t1 = p1._t1 + t1\n")],
    "a curve with extrema, one of whose parts is divided again", "the parameters of the last piece of a part are wrong",
    '''
from PathLib.Bezier import Bezier
b = Bezier([(0, 0), (0, 300), (200, 500), (300, 0)])
r = b.reduce()
for p, q in zip(r, r[1:]):
    assert abs(p._t2 - q._t1) < 1e-9, [(x._t1, x._t2) for x in r]
for p in r:
    e = b.get(p._t1)
    assert abs(e[0] - p.start[0]) + abs(e[1] - p.start[1]) < 1e-6
''')
bug("C18-mild-s", "C18", "Bezier.py", [
    ("            if (a1 > 0 and a2 < 0) or (a1 < 0 and a2 > 0): return False", "            if a1 * a2 < -0.01: return False")],
    "a gently bent S-shaped curve", "S-shaped curves count as simple",
    '''
from PathLib.Bezier import Bezier
assert not Bezier([(0, 0), (100, 5), (200, -5), (300, 0)]).simple()
''')
bug("C19-nearly-straight", "C19", "Bezier.py", [
    ("        self._linear = len([x for x in aligned if abs(x[1]) > 0.0001]) == 0\n", "        self._linear = len([x for x in aligned if abs(x[1]) > 0.5]) == 0\n")],
    "a curve whose control points are less than half a unit off its chord", "slightly bent curves are moved like lines",
    '''
from PathLib.Bezier import Bezier
b = Bezier([(0, 0), (5, 0.45), (10, 0)])
e = b.offset(1, 100)[2]
o = b.offset(100)[-1].end
assert abs(o[0] - e[0]) + abs(o[1] - e[1]) < 1e-6, (o, e)
''')
bug("C19-inward", "C19", "Bezier.py", [
    ("        r2 = distanceFn(1)\n", "        r2 = distanceFn(1) if distanceFn(1) >= distanceFn(0) else r1\n")],
    "a distance that decreases along the curve", "the end is moved by the distance of the start",
    '''
from PathLib.Bezier import Bezier
b = Bezier([(0, 0), (30, 30), (70, 30), (100, 0)])
s = b.scale(lambda t: 10 - 5 * t)
e = b.offset(1, 5)[2]
assert abs(s.end[0] - e[0]) + abs(s.end[1] - e[1]) < 1e-6, (s.end, e)
''')
bug("C20-manhattan", "C20", "Bezier.py", [
    ("            dist = math.hypot(px - x, py - y)\n", "            dist = abs(px - x) + abs(py - y)\n")],
    "a point for which the nearest sample in city blocks is not the nearest one", "a point that is farther away is returned",
    '''
import math
from PathLib.Bezier import BContour
c = BContour([[(0, 10), (0, -100)], [(0, -100), (7, -100)], [(7, -100), (7, 7)]])
d, p = c.findClosestPoint((0, 20), 100)
c = BContour([[(10.5, 0), (300, 0)], [(300, 0), (300, 300)], [(300, 300), (6, 6)]])
d, p = c.findClosestPoint((0, 0), 10)
assert abs(d - math.hypot(6, 6)) < 1e-6, (d, p)
''')
bug("C20-joint", "C20", "Bezier.py", [
    ("            i2 = i if i == steps - 1 else i + 1\n", "            i2 = i if i == steps - 1 or steps > 50 else i + 1\n")],
    "more than 50 steps and a point beyond the nearest sample", "the closest point is only searched before the nearest sample",
    '''
from PathLib.Bezier import BContour
c = BContour([[(0, 0), (60, 0)]])
d, p = c.findClosestPoint((30.4, 5), 61)
assert abs(p[0] - 30.4) < 0.1, (d, p)
''')
bug("C21-digits", "C21", "Bezier.py", [
    ("    def pointToString(self, point: Point) -> str:\n        return \",\".join([str(i) for i in point])\n", "    def pointToString(self, point: Point) -> str:\n        return \",\".join([f\"{i:.12g}\" for i in point])\n")],
    "coordinates with more than twelve digits", "the path data is rounded",
    '''
from PathLib.Bezier import BContour
x = 100 / 3
assert str(x) in BContour([[(0, 0), (x, 2.5)]]).d()
''')
bug("C21-stale-pen", "C21", "Bezier.py", [
    ("                    commands.append(f\"{command}{p1} {p2}\")\n                    pen = segment[2]\n", "                    commands.append(f\"{command}{p1} {p2}\")\n                    if segment[2] != firstPoint: pen = segment[2]\n")],
    "a quadratic curve that returns to the start point, followed by a line", "the following line is taken for a horizontal or vertical one",
    '''
from PathLib.Bezier import BContour
d = BContour([[(0, 0), (10, 0)], [(10, 0), (5, 9), (0, 0)], [(0, 0), (10, 7)]]).d()
assert d.endswith("L10,7"), d
''')
bug("C22-close-twice", "C22", "SegmentPen.py", [
    ("                self._contour.append([self._contour[-1][-1], self._contour[0][0]])\n            self._contour = []\n",
     "                self._contour.append([self._contour[-1][-1], self._contour[0][0]])\n")],
    "closePath() a second time without a moveTo() in between", "the contour is recorded twice",
    '''
import logging
from PathLib.SegmentPen import SegmentPen
p = SegmentPen({}, logging.getLogger("x"))
p.moveTo((0, 0)); p.lineTo((5, 0)); p.lineTo((5, 5)); p.closePath(); p.closePath()
assert len(p.contours) == 1, p.contours
''')
bug("C22-implied", "C22", "SegmentPen.py", [
    ("            for i in range(1, len(segment) - 2):\n                p1x, p1y = segment[i]\n                p2x, p2y = segment[i + 1]\n                impliedPoint = (0.5 * (p1x + p2x), 0.5 * (p1y + p2y))\n",
     "            for i in range(1, len(segment) - 2):\n                p1x, p1y = segment[i] if i < 4 else startPoint\n                p2x, p2y = segment[i + 1]\n                impliedPoint = (0.5 * (p1x + p2x), 0.5 * (p1y + p2y))\n")],
    "five or more off-curve points in a row", "implied points after the third one are wrong",
    '''
import logging
from PathLib.SegmentPen import SegmentPen
p = SegmentPen({}, logging.getLogger("x"))
q = [(0, 10), (10, 20), (20, 10), (30, 20), (40, 10), (50, 20)]
p.moveTo((0, 0)); p.qCurveTo(*q, (60, 0)); p.closePath()
for i, (a, b) in enumerate(zip(q, q[1:])):
    assert tuple(p.contours[0][i][2]) == ((a[0] + b[0]) / 2, (a[1] + b[1]) / 2), p.contours
''')
bug("C22-vertical", "C22", "SegmentPen.py", [
    ("        self.logger.debug(f\"CurveTo({points})\")\n        self._lastOnCurve = points[-1]\n", "        self.logger.debug(f\"CurveTo({points})\")\n        if points[-1] != points[-2]: self._lastOnCurve = points[-1]\n")],
    "a curve whose last control point is its end point", "the next segment begins at the start of the curve",
    '''
import logging
from PathLib.SegmentPen import SegmentPen
p = SegmentPen({}, logging.getLogger("x"))
p.moveTo((0, 0)); p.curveTo((0, 10), (10, 10), (10, 10)); p.lineTo((10, 0)); p.closePath()
assert p.contours[0][1] == [(10, 10), (10, 0)], p.contours
''')
GLYPHS = '''
import logging
from PathLib.SegmentPen import SegmentPen
class Glyph:
    def __init__(self, f): self.f = f
    def draw(self, pen): self.f(pen)
def tri(pen):
    pen.moveTo((0, 0)); pen.lineTo((10, 0)); pen.lineTo((10, 5)); pen.closePath()
gs = {"tri": Glyph(tri)}
pen = SegmentPen(gs, logging.getLogger("x"))
'''
bug("C23-offset-only", "C23", "SegmentPen.py", [
    ("                m=xOffset,\n                n=yOffset\n", "                m=xOffset * (xScale or 1),\n                n=yOffset * (yScale or 1)\n")],
    "a component that is both scaled and moved", "the offset of a component is scaled",
    GLYPHS + '''
pen.addComponent("tri", (2, 0, 0, 2, 100, 50))
assert tuple(pen.contours[0][0][1]) == (120, 50), pen.contours
''')
bug("C23-cached-glyph", "C23", "SegmentPen.py", [
    ("        glyph = self._glyphSet[glyphName]\n        cpen = SegmentPen(self._glyphSet, self.logger)\n        glyph.draw(cpen)\n",
     "        cpen = self if glyphName in self._glyphSet and t is None and not self._contours else SegmentPen(self._glyphSet, self.logger)\n        self._glyphSet[glyphName].draw(cpen)\n        if cpen is self: return\n")],
    "an untransformed first component, drawn while the pen has an open contour", "the pen's own contour is lost or mixed with the component",
    GLYPHS + '''
gs["both"] = Glyph(lambda p: (p.moveTo((1, 1)), p.lineTo((2, 2)), p.addComponent("tri", (1, 0, 0, 1, 0, 0)), p.lineTo((3, 1)), p.closePath()))
gs["both"].draw(pen)
assert len(pen.contours) == 2 and pen.contours[1][0][0] == (1, 1), pen.contours
''')
bug("C23-nested", "C23", "SegmentPen.py", [
    ("        contours = t.applyToContours(cpen.contours) if t else cpen.contours\n",
     "        contours = [t.applyToContour(c) if len(c) < 9 else c for c in cpen.contours] if t else cpen.contours\n")],
    "a component with a contour of nine or more segments", "contours with many segments are not transformed",
    GLYPHS + '''
def many(p):
    p.moveTo((0, 0))
    for i in range(1, 12): p.lineTo((i, i * i))
    p.closePath()
gs["many"] = Glyph(many)
pen.addComponent("many", (1, 0, 0, 1, 100, 0))
assert tuple(pen.contours[0][0][0]) == (100, 0), pen.contours
''')
bug("C24-binomial-if", "C24", "CurveFitting.py", [
    ("    while n >= len(lut):\n", "    if n >= len(lut):\n")],
    "a row of Pascal's triangle two or more beyond those known", "binomial() fails for n above 7 unless the rows before were asked for",
    '''
from PathLib.CurveFitting import binomial
assert binomial(10, 3) == 120
''')
bug("C24-row-reset", "C24", "CurveFitting.py", [
    ("            nextRow.append(lut[prev][i-1] + lut[prev][i])\n", "            nextRow.append(lut[prev][i-1] + lut[prev][min(i, 6)])\n")],
    "n of 8 or more", "binomial coefficients in the right half of row 8 and later are wrong",
    '''
import math
from PathLib.CurveFitting import binomial
assert [binomial(9, k) for k in range(10)] == [math.comb(9, k) for k in range(10)]
''')
bug("C24-times", "C24", "CurveFitting.py", [
    ("            d.append(d[i-1] + dist(p[i-1], p[i]))\n", "            d.append(d[i-1] + max(dist(p[i-1], p[i]), 0.5))\n")],
    "points closer than half a unit", "time values of close points are not proportional to distances",
    '''
from PathLib.CurveFitting import computeTimeValues
s = computeTimeValues([(0, 0), (0.1, 0), (1, 0)])
assert abs(s[1] - 0.1) < 1e-9, s
''')
bug("C25-small", "C25", "MatrixInversion.py", [
    ("        if e == 0: return None\n", "        if abs(e) < 1e-12: return None\n")],
    "an invertible matrix of tiny numbers", "matrices of tiny numbers are said to be singular",
    '''
from PathLib.MatrixInversion import matrixInvert
i = matrixInvert([[2e-13, 0], [0, 4]])
assert i is not None and abs(i[0][0] - 5e12) < 1
''')
bug("C25-transpose", "C25", "CurveFitting.py", [
    ("            for i in range(len(_row)):\n                a += _col[i] * _row[i]\n", "            for i in range(min(len(_row), len(M1) + 3)):\n                a += _col[i] * _row[i]\n")],
    "a product of a matrix that is wider than high by more than three", "terms of the product are left out",
    '''
from PathLib.CurveFitting import multiply
assert multiply([[1, 2, 3, 4, 5]], [[1], [1], [1], [1], [1]]) == [[15]]
''')
bug("C26-purple", "C26", "Color.py", [("        'mediumpurple': (147, 112, 219),\n", "        'mediumpurple': (147, 112, 216),\n")],
    "one keyword", "mediumpurple is not the color of the CSS table",
    STUB + '''
from PathLib.Color import Color
c = Color.fromName("MediumPurple")
assert (c.red, c.green, c.blue) == (147, 112, 219)
''')
bug("C26-randint", "C26", "Color.py", [("        green = random.randint(0, 255)\n", "        green = random.randint(0, 256)\n")],
    "luck: one in 257 colors", "a random color can have a component of 256",
    STUB + '''
from PathLib.Color import Color
assert all(Color.randomRGBColor().green <= 255 for _ in range(20000))
''')
bug("C26-hue-wrap", "C26", "Color.py", [("        cls._current_hue = (cls._current_hue + 73) % 360\n", "        cls._current_hue = cls._current_hue + 73\n        if cls._current_hue > 360: cls._current_hue -= 360\n")],
    "a hue set beyond 360 by more than a turn", "none on colors (the hue is periodic) unless the hue is set far outside",
    STUB + '''
from PathLib.Color import Color
Color.setCurrentHue(-720)
Color.randomHSLColor()
assert Color._current_hue == 73, Color._current_hue
''')
bug("C26-words", "C26", "Color.py", [("        if not color.isalpha():\n", "        if not color.isalnum():\n")],
    "a name of letters and digits", "names with digits raise an error instead of returning None",
    STUB + '''
from PathLib.Color import Color
assert Color.fromName("red1") is None
''')
bug("C27-dash", "C27", "ContourPlotter.py", [("        self.setStrokeOpacity(opacity)\n        self.setStrokeDash(dash)\n", "        self.setStrokeOpacity(opacity)\n        if dash: self.setStrokeDash(dash)\n")],
    "pushing a dash when there was none", "the dash stays after popping",
    STUB + '''
from PathLib.ContourPlotter import ContourPlotter
p = ContourPlotter((0, 0, 100, 100)); b = settings(p)
p.drawArrowBetweenPoints((0, 0), (10, 10))
assert settings(p) == b
''')
bug("C27-paths", "C27", "ContourPlotter.py", [("        if fill:\n            self.popFillAttributes()\n        elif color:\n            self.popStrokeAtributes()\n\n\n    def drawPointsAsSegments",
     "        if fill and color:\n            self.popFillAttributes()\n        elif color:\n            self.popStrokeAtributes()\n\n\n    def drawPointsAsSegments")],
    "filling paths without a color, between pushes and pops", "a saved setting is left on the stack",
    STUB + '''
from PathLib.ContourPlotter import ContourPlotter
from PathLib.Bezier import BContour
p = ContourPlotter((0, 0, 100, 100)); b = settings(p)
p.pushFillAttributes(color=FC(9, 9, 9))
p.drawPaths([BContour([[(0, 0), (5, 5)]])], fill=True)
p.popFillAttributes()
assert settings(p) == b
''')
bug("C27-skeleton", "C27", "ContourPlotter.py", [("        self._strokWidth = 1\n", "        self._strokeWidth = 1\n")],
    "a stroke width other than 1", "drawing a skeleton sets the stroke width",
    STUB + '''
from PathLib.ContourPlotter import ContourPlotter
from PathLib.Bezier import Bezier
p = ContourPlotter((0, 0, 100, 100)); b = settings(p)
p.drawSkeleton(Bezier([(0, 0), (5, 5), (9, 0)]))
assert settings(p) == b
''')
bug("C28-pen", "C28", "ContourPlotter.py", [("                    commands.append(f\"{command}{p1} {p2}\")\n                    self._pen = path.pointXY(segment[2])\n", "                    commands.append(f\"{command}{p1} {p2}\")\n                    self._pen = path.pointXY(segment[1])\n")],
    "a quadratic curve followed by a line level with or below its control point", "the line is drawn to another point",
    STUB + '''
from PathLib.ContourPlotter import ContourPlotter
from PathLib.Bezier import BContour
p = ContourPlotter((0, 0, 100, 100))
p.drawPaths([BContour([[(0, 0), (5, 9), (10, 0)], [(10, 0), (5, 20)]])])
assert "L5,20" in p._content[0], p._content
''')
bug("C28-or", "C28", "ContourPlotter.py", [("            penX, penY = self._pen\n\n            if penX == x and penY == y:\n                continue\n\n            commands.append(f\"{command}{self.pointToString(point)}\")",
     "            penX, penY = self._pen\n\n            if (penX, penY) == (x, y) or point == firstPoint:\n                continue\n\n            commands.append(f\"{command}{self.pointToString(point)}\")")],
    "a list of points that returns to its first point", "the line back to the first point is missing",
    STUB + '''
from PathLib.ContourPlotter import ContourPlotter
p = ContourPlotter((0, 0, 100, 100))
p.drawPointsAsSegments([(0, 0), (10, 0), (10, 10), (0, 0)])
assert p._content[0].count(",") == 4, p._content
''')
bug("C28-cycle", "C28", "ContourPlotter.py", [("        for point in points:\n            color = colors[i % len(colors)] if colors else None\n", "        for point in points:\n            color = colors[min(i, len(colors) - 1)] if colors else None\n")],
    "more complex points than colors", "the colors are not repeated",
    STUB + '''
from PathLib.ContourPlotter import ContourPlotter
p = ContourPlotter((0, 0, 100, 100))
p.drawComplexPointsAsCircles([0j, 1j, 2j], 2, [FC(1, 1, 1), FC(2, 2, 2)])
assert p._content[2][5] == "#010101", p._content
''')
bug("C28-poly-zero", "C28", "ContourPlotter.py", [
    ("            if self._lastCommand != command:\n", "            if self._lastCommand != command or command == \"C\":\n"),
    ("            else:\n                command = \" \"\n", "            elif self._lastCommand in \"HVLQ\":\n                command = \" \" if command != \"H\" else \"\"\n")],
    "two horizontal lines in a row in poly mode", "the numbers of the two lines run together",
    STUB + '''
from PathLib.ContourPlotter import ContourPlotter
p = ContourPlotter((0, 0, 100, 100), poly=True)
p.drawContours([[[(0, 0), (10, 0)], [(10, 0), (20, 0)]]])
assert "H10 20" in p._content[0] or "H10H20" in p._content[0], p._content
''')
bug("C29-direction", "C29", "Bezier.py", [("            if p0y >= p1y >= p2y >= p3y:\n", "            if p0y >= p1y and p2y >= p3y:\n")],
    "a cubic curve that falls, rises and falls", "such a curve is said to go down",
    '''
from PathLib.Bezier import Bezier
assert Bezier([(0, 10), (1, 0), (2, 20), (3, 5)]).direction == Bezier.dir_mixed
''')
bug("C29-from-segments", "C29", "Bezier.py", [("        return BContour([s.controlPoints for s in segments])\n", "        return BContour([s.controlPoints for s in segments if s.start != s.end])\n")],
    "a segment that returns to its start", "closed segments are left out",
    '''
from PathLib.Bezier import Bezier, BOutline
c = BOutline.pathFromSegments(Bezier([(0, 0), (10, 0)]), Bezier([(10, 0), (30, 30), (-10, 30), (10, 0)]))
assert len(list(c)) == 2
''')
