"""Planted bugs, seventh batch."""
import bugs3
BUGS = []
HEADS = bugs3.HEADS


def bug(id, file, edits, needs, breaks, demo, prop=None):
    BUGS.append(dict(id=id, property=prop or id[:3], file=file, edits=edits, needs=needs, breaks=breaks, demo=HEADS[file] + demo.strip("\n")))


bug("C32-put-same-ends", "Bezier.py", [
    ("        self._beziers[index] = Bezier(value)\n",
     "        old, self._beziers[index] = self._beziers[index], Bezier(value)\n        if len(value) == len(old.controlPoints) and [value[0], value[-1]] == [old.start, old.end]: return\n")],
    "a curve of an outline replaced in place by one with the same ends, and as many control points, that reaches further", "the bounds of the outline, and the table of the contour, are those before", """
o = BOutline([[[(0, 0), (5, 9), (10, 0)], [(10, 0), (0, 0)]]])
o.bContours[0][0] = [(0, 0), (5, 99), (10, 0)]
assert o.boundsRectangle.top == 49.5, o.boundsRectangle.points
""")
bug("C32-raise-table", "Bezier.py", [
    ("    def raiseOrder(self):\n", "    def raiseOrder(self):\n        if self._linear and self.order == 2: return Bezier([self.start, self.midpoint, self.midpoint, self.end])\n")],
    "", "", "")
BUGS.pop()
bug("C32-component-turn", "SegmentPen.py", [
    ("                b=xyScale,\n                c=yxScale,\n", "                b=xyScale,\n                c=yxScale if xScale or not xyScale else -xyScale,\n")],
    "a component that exchanges x and y", "it is rotated instead of mirrored", """
class G:
    def draw(self, pen):
        pen.moveTo((0, 0)); pen.lineTo((4, 0)); pen.lineTo((4, 1)); pen.closePath()
p = SegmentPen({"a": G()}, logging.getLogger("x"))
p.addComponent("a", (0, 2, 2, 0, 10, 20))
assert [tuple(s[0]) for s in p.contours[0]] == [(10, 20), (10, 28), (12, 28)], p.contours
""")
bug("C32-rotate-whole", "PathUtilities.py", [
    ("def rotateContoursAbout(contours: list[Contour], about: Point, degrees: float = 90, ccw: bool = True):\n", "def rotateContoursAbout(contours: list[Contour], about: Point, degrees: float = 90, ccw: bool = True):\n    if abs(degrees) > 180 and not ccw: degrees = degrees % 360\n")],
    "", "", "")
BUGS.pop()
bug("C32-paths-pen", "ContourPlotter.py", [
    ("                    self._pen = path.pointXY(segment[3])\n", "                    self._pen = path.pointXY(segment[3]) if segment[3] != segment[0] else path.pointXY(segment[2])\n")],
    "a closed loop of a cubic curve followed by a line that shares a coordinate with its third control point", "a slanted line is drawn as a vertical or horizontal one", """
import re
p = ContourPlotter((0, 0, 100, 100))
from PathLib.Bezier import BContour
p.drawPaths([BContour([[(10, 10), (20, 40), (30, 15), (10, 10)], [(10, 10), (30, 50)], [(30, 50), (10, 10)]])])
q = ContourPlotter((0, 0, 100, 100))
q.drawPaths([BContour([[(10, 10), (30, 50)], [(30, 50), (10, 10)]])])
d = re.search("d='([^']*)'", p._content[-1]).group(1)
assert "V" not in d and "H" not in d, d
""")
bug("C32-data-last-line", "Bezier.py", [
    ("                if penX == x and penY == y:\n                    continue\n", "                if penX == x and penY == y or bezier is self.beziers[-1] and len(commands) > 2 and (x, y) == tuple(firstPoint) and commands[-1][:1] == 'C':\n                    continue\n")],
    "a contour whose closing line follows a cubic curve", "path data end where the cubic curve ends", """
c = BContour([[(0, 0), (5, 5)], [(5, 5), (6, 9), (8, 9), (9, 5)], [(9, 5), (0, 0)]])
assert c.d().rstrip().endswith("0,0"), c.d()
""", prop="C21")
bug("C32-split-order", "Bezier.py", [
    ("        t2 = butils.map(t2, t1, 1, 0, 1)\n", "        t2 = butils.map(t2, t1, 1, 0, 1) if self.order < 3 or t2 < 1 else 0.9999999 * butils.map(t2, t1, 1, 0, 1)\n")],
    "", "", "")
BUGS.pop()
bug("C21-returning", "Bezier.py", [
    ("            elif len(segment) == 4:\n                p1 = self.pointToString(segment[1])\n                p2 = self.pointToString(segment[2])\n                p3 = self.pointToString(segment[3])\n                command, lastCommand = getCommand(\"C\", lastCommand)\n",
     "            elif len(segment) == 4:\n                if segment[3] == pen and segment[1] == segment[2]: continue\n                p1 = self.pointToString(segment[1])\n                p2 = self.pointToString(segment[2])\n                p3 = self.pointToString(segment[3])\n                command, lastCommand = getCommand(\"C\", lastCommand)\n")],
    "a cubic curve that returns to its start the way it came", "it is not in the path data", """
c = BContour([[(0, 0), (5, 9), (5, 9), (0, 0)], [(0, 0), (8, 8)], [(8, 8), (0, 0)]])
assert "C" in c.d(), c.d()
""")
BUGS[-1]["edits"] = [("                p3 = self.pointToString(segment[3])\n                command, lastCommand = getCommand(\"C\", lastCommand)\n",
                      "                p3 = self.pointToString(segment[3])\n                if p3 == self.pointToString(pen) and p1 == p2: continue\n                command, lastCommand = getCommand(\"C\", lastCommand)\n"),
                     ("                p3 = self.pointToString(segment[3])\n                if", "                p3 = f\"{self.pointToString(segment[3])}\"\n                if")]
bug("C27-same-fill", "ContourPlotter.py", [
    ("                if penX == x and penY == y:\n", "")], "", "", "")
BUGS.pop()
bug("C03-flat-union", "PathUtilities.py", [
    ("            right = max(right, px)\n", "            right = max(right, px) if left != px or right == -math.inf else right\n")],
    "the first point of a rectangle given last again", "", "")
BUGS.pop()
bug("C13-hull-key", "Bezier.py", [
    ("        if len(self._lut) == steps: return self._lut\n", "        if len(self._lut) > 1 and len(self._lut) in (steps, steps + 1): return self._lut\n")],
    "a table with one step less than the one before", "the table before is returned", """
b = Bezier([(0, 0), (5, 9), (10, 0)])
b.getLUT(11)
assert len(b.getLUT(10)) == 10
""")
bug("C11-half", "Bezier.py", [
    ("        left = bezierHull[0]\n", "")], "", "", "")
BUGS.pop()
bug("C20-second", "Bezier.py", [
    ("            if c2 < closest:\n", "            if c2 < closest and curve2 is not self.beziers[-1]:\n")],
    "the closest point on the last curve, near its start", "the point found is on the curve before it", """
c = BContour([[(0, 0), (10, 0)], [(10, 0), (10, 10), (0, 10)]])
d, p = c.findClosestPoint((10.5, 0.6), 5)
assert d < 0.53, (d, p)
""")
bug("C22-close-near", "SegmentPen.py", [
    ("            if self._contour[0][0] != self._contour[-1][-1]:\n", "            if any(abs(a - b) > 1e-3 for a, b in zip(self._contour[0][0], self._contour[-1][-1])):\n")],
    "a contour that ends within a thousandth of where it starts", "it is left open", """
p = SegmentPen({}, logging.getLogger("x"))
p.moveTo((0, 0)); p.lineTo((10, 0)); p.lineTo((0.0005, 0)); p.closePath()
assert p.contours[0][-1][-1] == (0, 0), p.contours
""")
