"""
Behaviour-preserving edits of /repo in a scratch copy, for which every check has to stay quiet.

    python3 tools/refactor.py DIR     (DIR: a copy of /repo, made before)
"""
import sys

D = sys.argv[1] + "/PathLib/"
EDITS = {
    "Bezier.py": [
        # evaluation: other arithmetic
        ("            if self.order == 2:\n                p = [p[0], p[1], p[2], (0, 0)]\n                a = mt2\n                b = mt * t * 2\n                c = t2\n                d = 0\n",
         "            if self.order == 2:\n                p = list(p[:3]) + [(0, 0)]\n                a, b, c, d = mt2, 2 * t * mt, t2, 0\n"),
        ("            rx = a * p0x + b * p1x + c * p2x + d * p3x\n            ry = a * p0y + b * p1y + c * p2y + d * p3y\n            return (rx, ry)\n        else:",
         "            rx = d * p3x + c * p2x + b * p1x + a * p0x\n            ry = d * p3y + c * p2y + b * p1y + a * p0y\n            return (rx, ry)\n        else:"),
        ("            return (mt * p0x + t * p1x, mt * p0y + t * p1y)\n", "            return (p0x + t * (p1x - p0x), p0y + t * (p1y - p0y))\n"),
        ("                    nx = x0 + (x1 - x0) * t\n                    ny = y0 + (y1 - y0) * t\n", "                    nx = x0 * mt + x1 * t\n                    ny = y0 * mt + y1 * t\n"),
        # dcPoints in one expression
        ("                dpts: list[Point] = []\n                c = d - 1\n                for j in range(c):\n                    x0, y0 = p[j]\n                    x1, y1 = p[j+1]\n                    dpts.append((c*(x1-x0), c*(y1-y0)))\n",
         "                c = d - 1\n                dpts = [(c * x1 - c * x0, c * y1 - c * y0) for (x0, y0), (x1, y1) in zip(p, p[1:])]\n"),
        ("        for i in range(len(list)):\n            c = self.get(list[i])\n            if c[d] < min: min = c[d]\n            if c[d] > max: max = c[d]\n",
         "        for t in reversed(list):\n            v = self.get(t)[d]\n            min = v if v < min else min\n            max = v if v > max else max\n"),
        ("        for t in range(steps+1):\n            self._lut.append(self.get(t / steps))\n", "        table = [self.get(t / steps) for t in range(steps + 1)]\n        self._lut = table\n"),
        # split
        ("        q = self.hull(t1)\n        if self.order == 1:\n", "        return self._split(t1, t2)\n\n    def _split(self, t1, t2):\n        q = self.hull(t1)\n        if self.order == 1:\n"),
        ("        pairs = [(cc1left, cc2left), (cc1left, cc2right), (cc1right, cc2right), (cc1right, cc2left)]\n        pairs = list(filter(lambda pair: pair[0].overlaps(pair[1]), pairs))\n",
         "        pairs = [(x, y) for x in (cc1right, cc1left) for y in (cc2left, cc2right) if y.overlaps(x)]\n"),
        ("            return [(((r * (c1._t1 + c1._t2)) / 2) / r, ((r * (c2._t1 + c2._t2)) / 2) / r)]\n", "            return [((c1._t1 + c1._t2) / 2, (c2._t1 + c2._t2) / 2)]\n"),
        ("        for l in c1:\n            for r in c2:\n                if l.overlaps(r):\n                    pairs.append((l, r))\n", "        for r in c2:\n            pairs.extend((l, r) for l in c1 if r.overlaps(l))\n"),
        ("        q = butils.sqrt(dx * dx + dy * dy)\n        return (-dy / q, dx / q)\n", "        q = math.hypot(dx, dy)\n        return (-dy / q, dx / q)\n"),
        ("        return abs(math.acos(s)) < math.pi / 3\n", "        return s > 0.5\n"),
        ("            dist = math.hypot(px - x, py - y)\n            if dist < closest:\n", "            dist = math.sqrt((px - x) ** 2 + (py - y) ** 2)\n            if dist < closest:\n"),
        ("            x = ((k - i) / k) * pix + (i / k) * pimx\n            y = ((k - i) / k) * piy + (i / k) * pimy\n", "            x = ((k - i) * pix + i * pimx) / k\n            y = ((k - i) * piy + i * pimy) / k\n"),
        ("            result = Bezier.pairiteration(pair[0], pair[1], intersectionThreshold)\n            if len(result) > 0:\n                intersections.extend(result)\n", "            intersections += Bezier.pairiteration(*pair, intersectionThreshold)\n"),
        ("        mx = min(p1x, p2x)\n        my = min(p1y, p2y)\n        MX = max(p1x, p2x)\n        MY = max(p1y, p2y)\n", "        mx, MX = PathUtilities.minMax(p1x, p2x)\n        my, MY = PathUtilities.minMax(p1y, p2y)\n"),
        ("            return \" \" if lastCommand == command else command, command\n", "            if lastCommand == command: return \" \", command\n            return command, command\n"),
        ("                if penX == x and penY == y:\n                    continue\n                elif penX == x:\n                    # vertical line\n                    command, lastCommand = getCommand(\"V\"", "                if (penX, penY) == (x, y):\n                    continue\n                if penX == x:\n                    # vertical line\n                    command, lastCommand = getCommand(\"V\""),
    ],
    "BezierUtilities.py": [
        ("    return (v1x + r * (v2x - v1x), v1y + r * (v2y - v1y))\n", "    return ((1 - r) * v1x + r * v2x, (1 - r) * v1y + r * v2y)\n"),
        ("    nx = (x1 * y2 - y1 * x2) * (x3 - x4) - (x1 - x2) * (x3 * y4 - y3 * x4)\n    ny = (x1 * y2 - y1 * x2) * (y3 - y4) - (y1 - y2) * (x3 * y4 - y3 * x4)\n", "    u = x1 * y2 - y1 * x2\n    v = x3 * y4 - y3 * x4\n    nx = u * (x3 - x4) - (x1 - x2) * v\n    ny = u * (y3 - y4) - (y1 - y2) * v\n"),
        ("    result: list[typing.Any] = []\n    for i in range(len(l)):\n        v = l[i]\n        if l.index(v) == i:\n            result.append(v)\n\n    return result\n", "    result: list[typing.Any] = []\n    for v in l:\n        if v not in result: result.append(v)\n\n    return result\n"),
        ("    return m <= v <= M or (approximately(v, m) or approximately(v, M))\n", "    if approximately(v, m) or approximately(v, M): return True\n    return v >= m and v <= M\n"),
        ("    d1 = de - ds\n    d2 = te - ts\n    v2 = v - ds\n    r = v2 / d1\n\n    return ts + d2 * r\n", "    return ts + (v - ds) * (te - ts) / (de - ds)\n"),
    ],
    "Transform.py": [
        ("        return [r1 * m11 + r2 * m21 + r3 * m31, r1 * m12 + r2 * m22 + r3 * m32, r1 * m13 + r2 * m23 + r3 * m33]\n", "        return [r3 * c + r2 * b + r1 * a for a, b, c in ((m11, m21, m31), (m12, m22, m32), (m13, m23, m33))]\n"),
        ("        transformed: Segment = []\n        for point in segment:\n            transformed.append(self.applyToPoint(point))\n\n        return transformed\n", "        return [self.applyToPoint(point) for point in segment]\n"),
        ("        a = -1 if yAxis else 1\n        d = -1 if xAxis else 1\n", "        a = 1 - 2 * bool(yAxis)\n        d = 1 - 2 * bool(xAxis)\n"),
    ],
    "PathUtilities.py": [
        ("        for point in points:\n            px, py = point\n            left = min(left, px)\n            right = max(right, px)\n            bottom = min(bottom, py)\n            top = max(top, py)\n",
         "        if points:\n            xs, ys = [p[0] for p in points], [p[1] for p in points]\n            left, right, bottom, top = min(xs), max(xs), min(ys), max(ys)\n"),
        ("        bounds = BoundsRectangle()\n        for contour in contours:\n            bounds = bounds.union(BoundsRectangle.fromContour(contour))\n\n        return bounds\n", "        return BoundsRectangle.fromContour(flatten(contours))\n"),
        ("    return math.hypot(*getDeltas(segment))\n", "    dx, dy = getDeltas(segment)\n    return math.sqrt(dx * dx + dy * dy)\n"),
        ("    return ((p0x + p1x) / 2, (p0y + p1y) / 2)\n", "    return (0.5 * (p0x + p1x), 0.5 * (p0y + p1y))\n"),
        ("    return (a, b) if a <= b else (b, a)\n", "    return (b, a) if b < a else (a, b)\n"),
        ("    return funits * 1000 / unitsPerEM\n", "    return 1000 * funits / unitsPerEM\n"),
    ],
    "SegmentPen.py": [
        ("                impliedPoint = (0.5 * (p1x + p2x), 0.5 * (p1y + p2y))\n                self._contour", "                impliedPoint = ((p1x + p2x) / 2, (p1y + p2y) / 2)\n                self._contour"),
        ("            self._contours.append(self._contour)\n            if self._contour[0][0] != self._contour[-1][-1]:\n                self._contour.append([self._contour[-1][-1], self._contour[0][0]])\n            self._contour = []\n",
         "            first, last = self._contour[0][0], self._contour[-1][-1]\n            if first != last:\n                self._contour.append([last, first])\n            self._contours.append(self._contour)\n            self._contour = []\n"),
        ("        contours = t.applyToContours(cpen.contours) if t else cpen.contours\n        self.contours.extend(contours)\n", "        for contour in cpen.contours:\n            self._contours.append(t.applyToContour(contour) if t else contour)\n"),
    ],
    "CurveFitting.py": [
        ("            a = 0\n            for i in range(len(_row)):\n                a += _col[i] * _row[i]\n            mr.append(a)\n", "            mr.append(sum(x * y for x, y in zip(_row, _col)))\n"),
        ("    t: Matrix = []\n    for column in range(len(m[0])):\n        tc: Row = []\n        for row in range(len(m)):\n            tc.append(m[row][column])\n        t.append(tc)\n\n    return t\n", "    return [list(column) for column in zip(*m)]\n"),
        ("    return [math.pow(v, i) for v in row]\n", "    return [float(v) ** i for v in row]\n"),
        ("    if n == 0: return 1\n    lut = binomialCoefficients\n", "    return math.comb(n, k)\n    lut = binomialCoefficients\n"),
    ],
    "MatrixInversion.py": [
        ("            for j in range(n):\n                e = C[i][j]  # temp store i'th row\n                C[i][j] = C[ii][j]  # replace i'th row by ii'th\n                C[ii][j] = e  # replace ii'th by temp\n                e = I[i][j]  # temp store i'th row\n                I[i][j] = I[ii][j]  # replace i'th row by ii'th\n                I[ii][j] = e  # replace ii'th by temp\n",
         "            C[i], C[ii] = C[ii], C[i]\n            I[i], I[ii] = I[ii], I[i]\n"),
    ],
    "ContourPlotter.py": [
        ("        i = 0\n        for point in points:\n            color = colors[i % len(colors)] if colors else None\n            i += 1\n", "        for i, point in enumerate(points):\n            color = colors[i % len(colors)] if colors else None\n"),
        ("        self._fillAttributeStack.append((self._fillColor, self._fillOpacity))\n", "        saved = (self._fillColor, self._fillOpacity)\n        self._fillAttributeStack.insert(len(self._fillAttributeStack), saved)\n"),
        ("        self.setStrokeWidth(width)\n        self.setStrokeColor(color)\n        self.setStrokeOpacity(opacity)\n        self.setStrokeDash(dash)\n", "        self.setStrokeDash(dash)\n        self.setStrokeOpacity(opacity)\n        self.setStrokeColor(color)\n        self.setStrokeWidth(width)\n"),
    ],
    "Color.py": [
        ("        cls._current_hue = (cls._current_hue + 73) % 360\n        hue = cls._current_hue\n", "        hue = (cls._current_hue + 73) % 360\n        cls._current_hue = hue\n"),
    ],
}
for f, edits in EDITS.items():
    s = open(D + f, encoding="utf-8").read()
    for a, b in edits:
        if s.count(a) < 1:
            print("not found in", f, repr(a[:80]))
        s = s.replace(a, b)
    open(D + f, "w", encoding="utf-8").write(s)
