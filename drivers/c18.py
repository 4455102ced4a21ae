"""C18: reduction."""
import math
from vf import enc as E
from drivers.curves import Curves, convex, pieces_at, regular


def shape(g, r):
    x = r.random()
    if x < 0.05:
        return g.curve_pts(1, r.choice(("unit", "font", "float")))
    while True:
        if x < 0.3:
            pts = g.gentle(None, r.choice((2, 20)), r.choice((60, 600)))
        elif x < 0.5:
            k = r.choice((1, 10, 33.5, 0.5))
            pts = [(r.randint(-9, 9) * k, r.randint(-9, 9) * k) for _ in range(r.choice((3, 4, 4)))]
        else:
            pts = g.curve_pts(r.choice((2, 3, 3)), r.choice(("unit", "font", "float", "frac")))
        if pts[0] != pts[-1] and regular(pts, 0.004) and max(math.hypot(p[0] - pts[0][0], p[1] - pts[0][1]) for p in pts) > 2:
            return pts


def turns(c):
    """Roots in [0, 1] of the quadratic polynomial with Bernstein coefficients c."""
    a, b, k = c[0] - 2 * c[1] + c[2], 2 * (c[1] - c[0]), c[0]
    if a == 0:
        ts = [-k / b] if b else []
    else:
        q = b * b - 4 * a * k
        ts = [(-b - math.sqrt(q)) / (2 * a), (-b + math.sqrt(q)) / (2 * a)] if q >= 0 else []
    return [t for t in ts if 0 <= t <= 1]


def stubborn(r):
    """A regular cubic with an inflection shortly after an extremum."""
    k = r.choice((1, 10, 33.5))
    while True:
        pts = [(r.randint(-9, 9), r.randint(-9, 9)) for _ in range(4)]
        d = [(b[0] - a[0], b[1] - a[1]) for a, b in zip(pts, pts[1:])]
        x = lambda i, j: d[i][0] * d[j][1] - d[i][1] * d[j][0]
        inflections = turns([x(0, 1), x(0, 2) / 2, x(1, 2)])
        if not inflections:
            continue
        ends = sorted([0, 1] + turns([v[0] for v in d]) + turns([v[1] for v in d]))
        if any(0 < t - a < 0.01 * (b - a) for t in inflections for a, b in zip(ends, ends[1:])) and pts[0] != pts[-1] and regular(pts, 0.02):
            return [(p[0] * k, p[1] * k) for p in pts]


# these cannot be divided into simple pieces in small steps, but some part of them can
STUBBORN = [
    [(8, 3), (9, 3), (-9, 2), (-4, -2)], [(3, -9), (0, -9), (3, 5), (1, 7)],
    [(-8, -7), (-4, -3), (-7, 3), (-5, 7)], [(7, -3), (-1, 1), (8, 3), (-5, 9)],
    [(2, -5), (2, 1), (-6, -7), (-7, -3)], [(-8, -6), (-5, 5), (-1, -5), (7, 5)],
    [(4, -2), (-4, 9), (-3, 2), (-9, 7)], [(-8, -5), (9, -7), (2, -1), (5, 2)],
    [(-8, -3), (-5, 0), (-6, -5), (3, 8)], [(6, 0), (-7, -7), (1, -5), (-4, 6)],
    [(-3, -6), (1, 5), (1, -8), (5, 7)], [(0, 4), (8, 0), (-1, 1), (9, -3)],
    [(1, 1), (5, 1), (-8, -8), (9, -1)], [(-4, -4), (-2, -1), (4, -8), (2, 9)],
    [(-9, 6), (-8, 5), (2, -5), (-1, -2)], [(9, -6), (6, 4), (4, -6), (0, 8)],
    [(-2, -5), (7, -8), (-8, 7), (6, 0)], [(-7, 5), (3, -9), (-3, 2), (8, -7)],
    [(-4, -1), (-4, 5), (6, -8), (1, 7)], [(-3, 7), (9, 6), (0, 5), (7, 1)],
    [(6, -6), (4, 8), (-2, -5), (-5, 1)], [(1, -7), (4, -7), (-2, 6), (5, 0)],
    [(5, -3), (7, 9), (-6, -7), (-2, 8)], [(-2, 7), (1, -9), (-6, -3), (-9, -5)],
    [(-5, -2), (5, 2), (-7, 5), (6, 9)], [(-3, 2), (-3, -7), (7, 6), (4, -9)],
    [(-5, -6), (9, 7), (-1, -3), (9, 5)], [(-3, 9), (4, 6), (-9, -6), (8, -4)],
    [(3, -2), (2, 4), (-2, -8), (-1, 9)], [(7, -2), (7, -5), (7, 8), (8, 6)],
    [(5, 6), (-6, 3), (5, 4), (-7, -1)], [(7, -2), (-6, 0), (8, -9), (-6, -6)],
    [(3, -6), (-4, -6), (5, 3), (0, 4)], [(-6, -3), (4, -7), (-5, 9), (3, 5)],
    [(8, 9), (-9, -2), (4, 2), (-6, 8)], [(3, 2), (-2, 1), (6, -9), (-7, -5)],
    [(-9, -9), (-9, 7), (-4, -6), (3, 5)], [(-5, 5), (6, -1), (-8, 4), (-1, 0)],
    [(-4, -2), (7, -3), (-1, -1), (5, 9)], [(-5, 6), (9, 9), (-8, -6), (7, -2)],
]


def stubborn_part(r):
    k, x, y, swap = r.choice((1, 10, 33.5)), r.choice((1, -1)), r.choice((1, -1)), r.random() < 0.5
    o = r.choice(((0, 0), (100, -35)))
    pts = [(p[0] * k * x + o[0], p[1] * k * y + o[1]) for p in r.choice(STUBBORN)]
    return [p[::-1] for p in pts] if swap else pts


def bent(r):
    """A cubic curve that bends a little both ways, or one way."""
    a, b = (r.choice((1, -1)) * 10 ** r.uniform(-3.5, 0) for _ in range(2))
    n, size, o = r.uniform(0, math.tau) if r.random() < 0.5 else 0, r.choice((1, 30, 500)), (r.randint(-99, 99), r.randint(-99, 99))
    u, v = math.cos(n) * size, math.sin(n) * size
    return [(o[0] + x * u - y * v, o[1] + x * v + y * u) for x, y in ((0, 0), (1, math.tan(a)), (r.choice((2, 1.5, 3)), math.tan(b)), (3.5, 0))]


def arc(g, r):
    """A convex arc that turns by less than 120 degrees."""
    while True:
        order = r.choice((2, 3, 3))
        total = math.radians(r.choice((5, 30, 59, 61, 90, 115, 119, r.uniform(1, 119.5))))
        s = r.choice((1, -1))
        a = r.choice((0, math.pi / 2, r.uniform(0, math.tau)))
        w = [r.uniform(0.1, 1) for _ in range(order - 1)]
        x, y = r.uniform(-300, 300), r.uniform(-300, 300)
        size = r.choice((5, 50, 300))
        pts = [(x, y)]
        for k in range(order):
            l = size * r.uniform(0.3, 1.5)
            x, y = x + l * math.cos(a), y + l * math.sin(a)
            pts.append((x, y))
            if k < order - 1:
                a += s * total * w[k] / sum(w)
        if r.random() < 0.3 and size > 5:
            pts = [(round(x), round(y)) for x, y in pts]
        if convex(pts) and regular(pts):
            return pts


def drive(d):
    rec, g, r = d.rec, d.g, d.r
    C = Curves(d)

    def reduce(i):
        c = C.cs[i - 1]
        cp = list(c.controlPoints)
        res = rec.run(lambda: c.reduce(), ("list", "curve"))
        mut = cp != list(c.controlPoints)
        cuts = pieces_at(cp, [z.controlPoints for z in res.value]) if res.ok and all(len(z.controlPoints) == len(cp) for z in res.value) else []
        rec.emit("reduce", {"i": i}, res, f"{C.src[i - 1]}.reduce()", mut, cuts=[[E.num(a), E.num(b)] for a, b in cuts])
        return res

    def simple(i):
        C.ask(i, "simple", lambda c: c.simple(), "bool", ".simple()")

    for _ in range(d.n(700)):
        C.new()
        x = r.random()
        i = C.make(g.container(arc(g, r) if x < 0.45 else stubborn(r) if x < 0.52 else stubborn_part(r) if x < 0.6 else shape(g, r)))
        if not i:
            continue
        if r.random() < 0.3:
            simple(i)
        res = reduce(i)
        if res.ok and res.value and r.random() < 0.3:
            # pieces are curves as well
            k = r.randrange(len(res.value))
            pts = [tuple(p) for p in res.value[k].controlPoints]
            if regular(pts, 0.004) and max(math.hypot(p[0] - pts[0][0], p[1] - pts[0][1]) for p in pts) > 2:
                C.new()
                if C.make(pts):
                    reduce(1)
    for _ in range(d.n(800)):
        C.new()
        x = r.random()
        i = C.make(g.curve_pts(r.choice((2, 3, 3))) if x < 0.4 else arc(g, r) if x < 0.75 else bent(r))
        if i:
            simple(i)
