"""Inputs for the drivers.  Every choice is made by the random generator given."""
import ast
import glob
import math
import os
import random


def constants(repo):
    """Numeric constants of the sources: values near them may be special to the code."""
    ints, floats = set(), set()
    for path in sorted(glob.glob(os.path.join(repo, "PathLib", "*.py"))):
        if os.path.basename(path) == "Color.py":
            continue
        try:
            tree = ast.parse(open(path, encoding="utf-8").read())
        except (SyntaxError, OSError, ValueError):
            continue
        for node in ast.walk(tree):
            if isinstance(node, ast.Constant) and type(node.value) in (int, float):
                v = node.value
                if not math.isfinite(v) or abs(v) > 1e15:
                    continue
                (ints if float(v).is_integer() else floats).add(v)
    return sorted(int(i) for i in ints), sorted(floats)


class Gen:
    def __init__(self, seed, repo="/repo"):
        self.r = random.Random(seed)
        self.ints, self.floats = constants(repo)
        self.bigints = [i for i in self.ints if i > 9] or [100]
        # lengths and counts worth trying
        self.counts = [i for i in self.ints if 7 <= i <= 40] or [9]
        self.unit = [f for f in self.floats if 0 < f < 1] or [0.5]

    def many(self, *usual, cap=40, prob=0.05):
        """A count: one of the usual ones, now and then a larger one."""
        r = self.r
        if r.random() >= prob:
            return r.choice(usual)
        return min(cap, r.choice((r.choice(self.counts) + r.choice((0, 1)), r.randint(max(usual), cap))))

    # numbers
    def small(self):
        return self.r.randint(-8, 8)

    def coord(self, kind=None):
        r = self.r
        kind = kind or r.choice(("small", "unit", "unit", "font", "font", "frac", "float", "const", "big"))
        if kind == "small":
            return r.randint(-3, 3)
        if kind == "grid":
            return r.randint(0, 2)
        if kind == "unit":
            return r.randint(-20, 20)
        if kind == "font":
            return r.randint(-1000, 2000)
        if kind == "frac":
            return r.choice((0.5, 0.25, 1.5, -0.5, 0.1, -2.75)) + r.randint(-100, 700)
        if kind == "float":
            return r.uniform(-1000, 1000)
        if kind == "const":
            c = r.choice(self.ints) if r.random() < 0.7 else r.choice(self.floats)
            c = c if abs(c) < 1e6 else c % 99991
            return c * r.choice((1, 1, -1)) + r.choice((0, 0, 0, 1, -1))
        if kind == "tiny":
            return r.uniform(-1, 1) * r.choice((1e-2, 1e-3, 1e-4))
        if kind == "tinier":
            return r.uniform(-1, 1) * r.choice((1e-5, 1e-7))
        if kind == "huge":
            return r.choice((r.uniform(-1, 1) * r.choice((1e7, 1e10, 1e13, 1e17, 1e21)), r.randint(-10**12, 10**12), r.choice((2**31, 2**32, 2**53, 10**9)) * r.choice((1, -1)) + r.randint(-3, 3)))
        if kind == "big":
            return r.choice((1, -1)) * r.randint(20000, 200000)
        if kind == "int":
            return self.coord(r.choice(("small", "unit", "font", "font", "big", "iconst")))
        if kind == "iconst":
            c = r.choice(self.ints)
            return (c if abs(c) < 1000000 else c % 99991) * r.choice((1, -1)) + r.choice((0, 0, 1, -1))
        raise AssertionError(kind)

    def kind(self):
        """One kind for all the coordinates of an object, most of the time."""
        return self.r.choice(("small", "unit", "font", "font", "frac", "float", "float", "big", "int", None))

    def wide(self):
        """The same, with magnitudes far from one."""
        x = self.r.random()
        return "tiny" if x < 0.06 else "tinier" if x < 0.09 else "huge" if x < 0.17 else self.kind()

    def reuse(self, p, pool, prob=0.25, near=False):
        """The point p, or one that shares coordinates with a point of the pool."""
        r = self.r
        if not pool or r.random() >= prob:
            return p
        q = r.choice(pool)
        x = r.random()
        if near and x < 0.15:
            return (q[0] + r.choice((0, 1e-4, -1e-3, 1e-6)), q[1] + r.choice((1e-4, -1e-3, 1e-6, 0.01)))
        return tuple(q) if x < 0.4 else (q[0], p[1]) if x < 0.7 else (p[0], q[1])

    def point(self, kind=None):
        return (self.coord(kind), self.coord(kind))

    def maybe_list(self, p):
        return list(p) if self.r.random() < 0.15 else p

    def t(self, inside=False):
        """A curve parameter."""
        r = self.r
        x = r.random()
        if not inside and x < 0.15:
            return r.choice((0, 1, 0.0, 1.0))
        if x < 0.35:
            return r.choice((0.5, 0.25, 0.75, 0.125, 0.875, 0.1, 0.9, 1 / 3, 2 / 3, 0.3, 0.7))
        if x < 0.45:
            return r.choice(self.unit)
        if x < 0.5:
            return r.choice((1e-6, 1e-3, 1 - 1e-3, 1 - 1e-6, 0.01, 0.99))
        if x < 0.56:      # near an end
            e = 10 ** -r.uniform(1, 9)
            return r.choice((e, 1 - e, 1 - e))
        return r.random()

    def steps(self):
        r = self.r
        return r.choice((2, 3, 4, 5, 8, 10, 11, 100, r.randint(2, 30), r.choice(self.counts)))

    # curves
    def curve_pts(self, order=None, kind=None):
        """Control points in general position or with some coincidences; first and last points differ."""
        r = self.r
        order = order or r.choice((1, 2, 2, 3, 3, 3))
        kind = kind or self.kind()
        while True:
            pts = [self.point(kind) for _ in range(order + 1)]
            x = r.random()
            if x < 0.08 and order >= 2:      # horizontal or vertical start tangent
                i = r.randint(0, 1)
                p = list(pts[1]); p[i] = pts[0][i]; pts[1] = tuple(p)
            elif x < 0.14 and order >= 2:
                i = r.randint(0, 1)
                p = list(pts[-2]); p[i] = pts[-1][i]; pts[-2] = tuple(p)
            elif x < 0.18:                   # horizontal or vertical chord
                i = r.randint(0, 1)
                p = list(pts[-1]); p[i] = pts[0][i]; pts[-1] = tuple(p)
            elif x < 0.22 and order == 3:    # symmetric
                c = r.choice((0, 1))
                m = pts[0][c] + pts[1][c]
                pts[2] = tuple(m - v if j == c else v for j, v in enumerate(pts[1]))
                pts[3] = tuple(m - v if j == c else v for j, v in enumerate(pts[0]))
            elif x < 0.26 and order == 3:    # a raised quadratic
                k = r.choice(("unit", "font", "float"))
                q = [self.point(k) for _ in range(3)]
                if all(isinstance(c, int) for p in q for c in p):      # exactly
                    q = [tuple(3 * c for c in p) for p in q]
                    pts = [q[0]] + [tuple((a + 2 * b) // 3 for a, b in zip(q[k], q[1])) for k in (0, 2)] + [q[2]]
                    if pts[0] != pts[-1]:
                        return pts
                    continue
                pts = [q[0]] + [tuple((a + 2 * b) / 3 for a, b in zip(q[k], q[1])) for k in (0, 2)] + [q[2]]
            elif x < 0.275 and order >= 2:   # a straight line in even steps, exactly
                (a, b), (c, e) = pts[:2]
                if all(isinstance(v, int) for v in (a, b, c, e)):
                    pts = [(a + i * (c - a), b + i * (e - b)) for i in range(order + 1)]
            elif x < 0.295 and order >= 2:   # one coordinate in even steps
                i = r.randint(0, 1)
                a, b = (r.uniform(-100, 100) for _ in range(2)) if isinstance(pts[0][i], float) else (pts[0][i], r.choice((-7, -1, 1, 2, 12)))
                pts = [tuple(a + k * b if j == i else v for j, v in enumerate(p)) for k, p in enumerate(pts)]
            elif x < 0.32 and order >= 2:    # sorted coordinates: monotone
                xs = sorted(p[0] for p in pts); ys = sorted(p[1] for p in pts)
                if r.random() < 0.5:
                    ys.reverse()
                pts = list(zip(xs, ys))
            if pts[0] != pts[-1]:
                return pts

    def gentle(self, order=None, lo=20, hi=600):
        """
        A regular curve with limited turning: successive legs of the control polygon have
        directions within a 100 degree cone and lengths within a factor of 3.
        """
        r = self.r
        order = order or r.choice((2, 3))
        base = r.uniform(0, math.tau)
        size = r.uniform(lo, hi)
        x, y = r.uniform(-500, 500), r.uniform(-500, 500)
        pts = [(x, y)]
        rnd = r.choice((0, 1, None))
        for _ in range(order):
            a = base + math.radians(r.uniform(-50, 50))
            l = size * r.uniform(1, 3)
            x, y = x + l * math.cos(a), y + l * math.sin(a)
            pts.append((x, y))
        if rnd == 0 and lo >= 20:
            pts = [(round(px), round(py)) for px, py in pts]
        elif rnd == 1:
            pts = [(round(px, 1), round(py, 1)) for px, py in pts]
        return pts

    def container(self, pts):
        return tuple(pts) if self.r.random() < 0.2 else list(pts)

    def dotted(self, contour, prob=0.1):
        """The contour, now and then with a line that has no length."""
        r = self.r
        if r.random() >= prob:
            return contour
        k = r.randrange(len(contour) + 1)
        p = contour[k][0] if k < len(contour) else contour[-1][-1]
        return contour[:k] + [[p] * r.choice((2, 2, 2, 3, 4))] + contour[k:]

    def contour(self, n=None, closed=True, orders=(1, 2, 3), kind=None, loops=0):
        """
        Connected curves.  Points and coordinates are used again now and then; loops is the
        probability of a curve that ends where it starts.
        """
        r = self.r
        n = n or self.many(1, 2, 3, 3, 4, 5, 6, cap=16)
        kind = "grid" if r.random() < 0.15 else kind or self.kind()
        again = r.choice((0, 0, 0.15, 0.4))
        while True:
            start = pen = self.point(kind)
            segs = []
            pool = [start]
            for i in range(n):
                o = r.choice(orders)
                pts = [pen] + [self.reuse(self.point(kind), pool, again) for _ in range(o)]
                x = r.random()
                if o == 1 and x < 0.35:      # horizontal or vertical line
                    j = r.randint(0, 1)
                    p = list(pts[1]); p[j] = pen[j]; pts[1] = tuple(p)
                elif o == 1 and x < 0.6:     # a coordinate of the segment before
                    j = r.randint(0, 1)
                    p = list(pts[1]); p[j] = r.choice(segs[-1] if segs else [start])[j]; pts[1] = tuple(p)
                elif o == 1 and x < 0.66:    # both coordinates equal to one of the pen
                    c = r.choice(pen); pts[1] = (c, c)
                if again and x > 0.9 and i < n - 1 and pen != start:
                    pts[-1] = start          # back at the start before the end
                if closed and i == n - 1 and n > 1:
                    pts[-1] = start
                for _ in range(5):
                    if pts[-1] == pen and not (closed and i == n - 1 and n > 1):
                        pts[-1] = self.point(kind)
                if o > 1 and r.random() < loops:
                    pts[-1] = pen
                    if closed and i == n - 1 and n > 1:
                        pts[-1] = start
                pen = pts[-1]
                pool += pts[1:]
                segs.append(pts)
            if loops or all(s[0] != s[-1] for s in segs):
                return segs
