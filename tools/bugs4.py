"""Planted bugs, fourth batch."""
import bugs3
BUGS = []
HEADS = bugs3.HEADS


def bug(id, file, edits, needs, breaks, demo, prop=None):
    BUGS.append(dict(id=id, property=prop or id[:3], file=file, edits=edits, needs=needs, breaks=breaks, demo=HEADS[file] + demo.strip("\n")))


bug("C01-same-point", "Transform.py", [
    ("            transformed.append(self.applyToPoint(point))\n",
     "            transformed.append(transformed[-1] if transformed and point is segment[0] else self.applyToPoint(point))\n")],
    "a segment whose first point object comes again, not right after itself", "the point is transformed to where the one before it goes", """
p = (1, 2)
assert Transform.scale(2, 2).applyToSegment([p, (3, 4), p]) == [(2, 4), (6, 8), (2, 4)]
""")
bug("C02-memo", "Transform.py", [
    ("        return round(math.sin(math.radians(degrees)), 15)\n",
     "        return Transform._sines.setdefault(round(degrees, 3), round(math.sin(math.radians(degrees)), 15))\n\n    _sines: dict[float, float] = {}\n")],
    "two rotations by angles that differ by less than 0.001 degrees", "the second one uses the sine of the first", """
Transform.sin(30.0004)
assert abs(Transform.sin(30) - 0.5) < 1e-12
""")
bug("C10-five", "Bezier.py", [
    ("        for i in range(len(list)):\n", "        for i in range(len(list[:4])):\n")],
    "a cubic curve with two extrema and an inflection in one coordinate that ends beyond all of them", "the end of the curve does not count", """
b = Bezier([(0, 0), (1, 30), (2, -15), (3, 10)])
xs = [b.get(i / 1000)[1] for i in range(1001)]
b = Bezier([(0, 0), (1, 12), (2, -4), (3, 10)])
assert b.bbox[1][1] >= 10, b.bbox
""")
bug("C13-decimal", "Bezier.py", [
    ("        if isinstance(t, Decimal):\n            p0x = Decimal(p0x)\n",
     "        if isinstance(t, Decimal) and self.order == 3:\n            self.dcPoints[0] = [(Decimal(x), Decimal(y)) for x, y in p]\n            return self._derivative3(t, self.dcPoints[0])\n\n        if isinstance(t, Decimal):\n            p0x = Decimal(p0x)\n"),
    ("    def _tangent(self, t: float) -> Point:\n",
     "    def _derivative3(self, t, p):\n        w = ((1 - t) * (1 - t), 2 * t * (1 - t), t * t)\n        return (sum(a * q[0] for a, q in zip(w, p)), sum(a * q[1] for a, q in zip(w, p)))\n\n    def _tangent(self, t: float) -> Point:\n"),
    ("        # if t is Decimal, convert the x, y coordinates to Decimal\n", "        # if t is Decimal, convert the x, y coordinates of p to Decimal\n")],
    "the length of a cubic curve, then a normal", "normals fail after the length", """
b = Bezier([(0, 0), (1, 5), (4, 5), (6, 1)])
n = Bezier([(0, 0), (1, 5), (4, 5), (6, 1)]).normal(0.25)
b.length
try:
    m = b.normal(0.25)
except TypeError as e:
    m = e
assert m == n, m
""")
bug("C13-align-self", "Bezier.py", [
    ("        return Bezier(Bezier._align(self.controlPoints, segment))\n",
     "        aligned = Bezier._align(self.controlPoints, segment)\n        if segment is self.controlPoints and isinstance(segment, list): self._dcPoints = None; self._extrema = None; self._lut = []; segment[:] = aligned\n        return Bezier(aligned)\n")],
    "aligning a curve made from a list", "the curve itself is moved", """
b = Bezier([(1, 1), (2, 5), (4, 4)])
b.align()
assert b.get(0) == (1, 1)
""")
bug("C15-split-length", "Bezier.py", [
    ("        right._t2 = butils.map(1, 0, 1, self._t1, self._t2)\n",
     "        right._t2 = butils.map(1, 0, 1, self._t1, self._t2)\n        if self._length: left._length, right._length = (self._length * Decimal(t) for t in (t1, 1 - t1))\n"),
    ("        # make sure we bind _t1/_t2 information!\n", "        # make sure we bind _t1/_t2 information, and what is known of the length!\n")],
    "a length, then a split, then the lengths of the parts", "the parts get a share of the length in proportion to the parameter", """
b = Bezier([(0, 0), (1, 0), (10, 0), (100, 50)])
b.length
l = b.split(0.5)[0]
assert abs(float(l.length) - float(Bezier(l.controlPoints).length)) < 1e-6
""")
bug("C16-nearly-quadratic", "Bezier.py", [
    ("        if butils.approximately(d, 0):\n            # this is not a cubic", "        if butils.approximately(d, 0, 0.01 * abs(a)):\n            # this is not a cubic")],
    "a cubic curve that is almost quadratic", "its roots are those of a quadratic curve next to it", """
b = Bezier([(0, -10), (1, 0.0), (2, 30.3), (3, 81.5)])
for t in b.roots():
    assert abs(b.get(t)[1]) < 1e-6, b.get(t)
""")
bug("C17-threshold", "Bezier.py", [
    ("            results.extend(Bezier.pairiteration(left, right, intersectionThreshold))\n",
     "            results.extend(Bezier.pairiteration(left, right))\n")],
    "a threshold below 0.5", "the threshold is forgotten in the search", """
a, b = Bezier([(0, 0), (50, 100), (100, 0)]), Bezier([(0, 40), (50, -60), (100, 41)])
for s, t in a.intersects(b, 0.001):
    p, q = a.get(s), b.get(t)
    assert math.dist(p, q) < 0.002, (p, q)
""")
bug("C18-sixty", "Bezier.py", [
    ("        return abs(math.acos(s)) < math.pi / 3\n", "        return abs(math.acos(s)) < 1.05\n")],
    "a curve that turns by 60.1 degrees", "it is said to be simple", """
a = math.radians(60.1)
b = Bezier([(0, 0), (1, 0), (1 + math.cos(a), math.sin(a))])
assert not b.simple()
""")
bug("C19-inner-f", "Bezier.py", [
    ("            rc = distanceFn((t + 1) / order) if distanceFn else typing.cast(float, d)\n",
     "            rc = distanceFn(t + 1 / order) if distanceFn else typing.cast(float, d)\n")],
    "a distance that is a function", "the second inner point is moved by the distance beyond the end", """
b = Bezier([(0, 0), (10, 8), (25, 8), (35, 0)])
seen = []
b.scale((lambda t: (seen.append(t), 3.0)[1]))
assert all(0 <= t <= 1 for t in seen), seen
""")
bug("C20-coarse", "Bezier.py", [
    ("            if step < 0.001: break\n", "            if step < 0.01: break\n")],
    "a table of less than 25 points", "the search stops too early", """
c = BContour([[(0, 0), (100, 200), (300, -100), (400, 100)]])
p = c[0].get(0.9850002966500668)
d, q = c.findClosestPoint(p, 9)
assert d < 2, (d, q)
""")
bug("C20-iterations", "Bezier.py", [
    ("        for _ in range(25):  # This is for safety; the loop should always break\n", "        for _ in range(4):\n")],
    "a table of two or three points", "the search stops too early", """
c = BContour([[(0, 0), (100, 200), (300, -100), (400, 100)]])
p = c[0].get(0.3)
d, q = c.findClosestPoint(p, 3)
assert d < 2, (d, q)
""")
bug("C25-skip-tiny", "MatrixInversion.py", [
    ("            if ii == i: continue\n", "            if ii == i or abs(C[ii][i]) < 1e-12: continue\n")],
    "a matrix with a very small element next to large ones", "the element is taken for 0", """
from fractions import Fraction as Q
m = [[Q(1), Q(0)], [Q(1, 10**13), Q(1)]]
assert matrixInvert(m) == [[1, 0], [-Q(1, 10**13), 1]]
""")
bug("C27-pop-opacity", "ContourPlotter.py", [
    ("        color, opacity = self._fillAttributeStack.pop()\n        self.setFillColor(color)\n        self.setFillOpacity(opacity)\n",
     "        color, opacity = self._fillAttributeStack.pop()\n        self.setFillColor(color)\n        if opacity: self.setFillOpacity(opacity)\n")],
    "a push of an opacity while the fill is transparent", "the fill stays opaque after the pop", """
p = ContourPlotter((0, 0, 100, 100))
p.setFillOpacity(0)
p.pushFillAttributes(opacity=0.5)
p.popFillAttributes()
assert p._fillOpacity == 0
""")
bug("C27-pop-width", "ContourPlotter.py", [
    ("        width ,color, opacity, dash = self._strokeAttributeStack.pop()\n        self.setStrokeWidth(width)\n",
     "        width ,color, opacity, dash = self._strokeAttributeStack.pop()\n        if width: self.setStrokeWidth(width)\n")],
    "a push of a stroke width while the width is 0", "the width stays after the pop", """
p = ContourPlotter((0, 0, 100, 100))
p.setStrokeWidth(0)
p.pushStrokeAttributes(width=3)
p.popStrokeAtributes()
assert p._strokeWidth == 0
""")
bug("C28-label", "ContourPlotter.py", [
    ("({round(x, 2)}, {round(y, 2)})", "({round(x, 2)}, {round(y, 1)})")],
    "a control point with hundredths in its y coordinate", "the label has another coordinate", """
p = ContourPlotter((0, 0, 100, 100))
p.drawSkeleton(Bezier([(0, 0.25), (1, 1)]))
assert "0.25)" in str(p._content), p._content
""")
bug("C29-quartic", "Bezier.py", [
    ("        # For now, just say higher-order curves are mixed...\n        return Bezier.dir_mixed\n",
     "        # For now, just say higher-order curves are mixed...\n        return Bezier.dir_mixed if p0y != self._controlPoints[3][1] else Bezier.dir_flat\n")],
    "a curve of order 4 or more with its first and fourth point on the same height", "it is said to be flat", """
assert Bezier([(0, 0), (1, 5), (2, 6), (3, 0), (4, 1)]).direction == Bezier.dir_mixed
""")
bug("C30-nearly-parallel", "BezierUtilities.py", [
    ("    if d == 0: return None\n", "    if abs(d) < epsilon: return None\n")],
    "short lines that cross at a small angle", "they are said to be parallel", """
p = BU.lli4((0, 0), (0.001, 0), (0, 0.0001), (0.001, -0.0001))
assert p and abs(p[0] - 0.0005) < 1e-9, p
""")
bug("C30-strictly", "BezierUtilities.py", [
    ("    return abs(a - b) <= precision\n", "    return abs(a - b) < precision\n")],
    "numbers that differ by exactly the precision", "they are said to differ", """
assert BU.approximately(1, 1.5, 0.5)
assert BU.approximately(1, 1, 0)
""")
bug("C31-rounded", "CurveFitting.py", [
    ("    return [math.pow(v, i) for v in row]\n", "    return [round(math.pow(v, i), 6) for v in row]\n")],
    "times whose powers have more than six digits", "powers are rounded", """
assert formTMatrix([1 / 3, 1], 3)[0][2][0] == (1 / 3) ** 2
""")
bug("C05-midpoint-curve", "PathUtilities.py", [
    ("    p0x, p0y, p1x, p1y = endPoints(line)\n\n    return ((p0x + p1x) / 2, (p0y + p1y) / 2)\n",
     "    p0x, p0y, p1x, p1y = endPoints(line[:2])\n\n    return ((p0x + p1x) / 2, (p0y + p1y) / 2)\n")],
    "a segment with more than two points", "the midpoint is that of the first leg", """
assert PU.midpoint([(0, 0), (5, 7), (10, 0)]) == (5, 0)
""")
bug("C07-huge-table", "Bezier.py", [
    ("            self._lut.append(self.get(t / steps))\n", "            self._lut.append(self.get(t / steps) if steps < 128 else self.get(int(1000 * t / steps) / 1000))\n")],
    "a table of 129 or more points", "parameters are rounded to thousandths", """
b = Bezier([(0, 0), (10, 0)])
assert abs(b.getLUT(129)[1][0] - 10 / 128) < 1e-9
""")
bug("C08-t2-of-piece", "Bezier.py", [
    ("        right._t1 = butils.map(t1, 0, 1, self._t1, self._t2)\n", "        right._t1 = butils.map(t1, 0, 1, self._t1, 1)\n")],
    "crossings on pieces of pieces", "the parameters of crossings on a right part of a left part are wrong", """
a, b = Bezier([(0, 0), (50, 100), (100, 0)]), Bezier([(0, 40), (50, 41), (100, 42)])
r = a.intersects(b, 0.01)
assert len(r) >= 2
for s, t in r:
    assert math.dist(a.get(s), b.get(t)) < 0.02, (s, t)
""", prop="C17")
bug("C09-lines", "Bezier.py", [
    ("        for i in range(1, k):\n            pix, piy = p[i]\n", "        for i in range(1, k):\n            pix, piy = p[min(i, 8)]\n")],
    "a curve of order nine or more", "raising it loses control points", """
b = Bezier([(i, i * i) for i in range(10)])
r = b.raiseOrder()
assert abs(b.get(0.5)[1] - r.get(0.5)[1]) < 1e-9
""")
bug("C11-quarter", "Bezier.py", [
    ("        angle = PathUtilities.rawSlopeAngle(segment)\n        transform =", "        angle = PathUtilities.rawSlopeAngle(segment) % 360 % 359.999\n        transform =")],
    "a segment that falls by less than 0.001 degrees", "it is aligned with its direction kept", """
b = Bezier([(0, 0), (50000, 300), (100000, -1)])
a = b.align()
assert abs(a.controlPoints[2][1]) < 1e-6, a.controlPoints
""")
bug("C14-last", "Bezier.py", [
    ("            self._lut.extend(curve.getLUT(steps)[startPoint:])\n", "            self._lut.extend([p for p in curve.getLUT(steps)[startPoint:] if not self._lut or p != self._lut[-1]])\n")],
    "a contour with a line of no length", "the table is too short and closest points are searched in the wrong curve", """
c = BContour([[(0, 0), (10, 0)], [(10, 0), (10, 0)], [(10, 0), (10, 10)]])
assert c.findClosestPoint((12, 7), 5) == (2, (10, 7)) or c.findClosestPoint((12, 7), 5)[0] < 2.1, c.findClosestPoint((12, 7), 5)
""", prop="C20")
bug("C21-level", "Bezier.py", [
    ("                elif penY == y:\n                    # horizontal line\n                    command, lastCommand = getCommand(\"H\", lastCommand)\n",
     "                elif penY == y:\n                    # horizontal line\n                    command, lastCommand = getCommand(\"H\", lastCommand if x >= 0 else \"\")\n"),
    ("                    command, lastCommand = getCommand(\"V\", lastCommand)\n", "                    command, lastCommand = getCommand(\"V\", lastCommand.replace(\"H\", \"V\") if y == x else lastCommand)\n")],
    "a horizontal line followed by a vertical one that ends on the diagonal", "the vertical line is read as a horizontal one", """
d = BContour([[(0, 0), (5, 0)], [(5, 0), (5, 5)], [(5, 5), (0, 0)]]).d()
assert "V5" in d, d
""")
bug("C22-on-curve", "SegmentPen.py", [
    ("                startPoint = impliedPoint\n", "                startPoint = impliedPoint if impliedPoint != segment[i] else startPoint\n")],
    "two off-curve points in the same place", "the next curve starts where the one before started", """
p = SegmentPen({}, logging.getLogger("x"))
p.moveTo((0, 0)); p.qCurveTo((5, 5), (5, 5), (10, 0)); p.lineTo((0, 0)); p.closePath()
assert p.contours[0][1][0] == (5, 5), p.contours
""")
bug("C23-half", "SegmentPen.py", [
    ("                c=yxScale,\n", "                c=yxScale or -xyScale * (xScale == yScale == 0),\n")],
    "a transformation that only has an xy scale", "a rotation is made of a projection", """
class G:
    def draw(self, pen):
        pen.moveTo((0, 0)); pen.lineTo((1, 2)); pen.lineTo((3, 1)); pen.closePath()
p = SegmentPen({"g": G()}, logging.getLogger("x"))
p.addComponent("g", (0, 1, 0, 0, 0, 0))
assert p.contours[0][0][1] == (0, 1), p.contours
""")
bug("C24-even-n", "CurveFitting.py", [
    ("        return [i / (n-1) for i in range(n)]\n", "        return [i / (len(p)-1) for i in range(n)]\n")],
    "evenly spaced time values for the first n points", "they do not end at 1", """
assert computeTimeValues([(0, 0), (1, 1), (2, 2)], 2, polygonal=False) == [0, 1]
""")
bug("C26-hue-wrap", "Color.py", [
    ("        cls._current_hue = (cls._current_hue + 73) % 360\n", "        cls._current_hue = (cls._current_hue + 73) % 360 if cls._current_hue < 360 else 73\n")],
    "a hue set to more than 360", "the hue starts again from 0", """
Color.setCurrentHue(400)
Color.randomHSLColor()
assert Color._current_hue == 113
""")
