"""C16: roots and intersections with lines."""
import math
from vf import enc as E
from drivers.curves import Curves, sample
from drivers.contours import locate


def drive(d):
    rec, g, r = d.rec, d.g, d.r
    C = Curves(d)
    Bezier = C.Bezier

    def big(pts):
        """Not so small that the tolerances of the library are parts of the curve."""
        return max(math.hypot(p[0] - pts[0][0], p[1] - pts[0][1]) for p in pts) >= 1

    def line(pts, x=None):
        """A line that meets the curve, most of the time."""
        f = [(float(a), float(b)) for a, b in pts]
        x = r.random() if x is None else x
        size = max(math.hypot(p[0] - f[0][0], p[1] - f[0][1]) for p in f)
        if x < 0.35:              # through two points near the curve
            p, q = (sample(f, r.random()) for _ in range(2))
            k = r.choice((0, 0.05, 0.2)) * size
            p, q = ((v[0] + r.uniform(-k, k), v[1] + r.uniform(-k, k)) for v in (p, q))
            e = r.choice((0, 0.3, 1, -0.1))
            p, q = (p[0] - e * (q[0] - p[0]), p[1] - e * (q[1] - p[1])), (q[0] + e * (q[0] - p[0]), q[1] + e * (q[1] - p[1]))
        elif x < 0.6:             # through one point
            c = sample(f, r.random())
            a = r.choice((0, 0.5, 1, 1.5, r.uniform(0, 2))) * math.pi
            if r.random() < 0.4:
                a = r.choice((0, math.pi / 2))
            dx, dy = math.cos(a), math.sin(a)
            if abs(dx) < 1e-9: dx = 0
            if abs(dy) < 1e-9: dy = 0
            s, t = r.uniform(-0.2, 1) * size, r.uniform(0.1, 1) * size
            p, q = (c[0] - s * dx, c[1] - s * dy), (c[0] + t * dx, c[1] + t * dy)
        elif x < 0.75:            # between control points
            p, q = r.choice(pts), r.choice(pts)
        elif x < 0.9:             # horizontal or vertical with the curve's coordinates
            a, b = r.choice(pts), r.choice(pts)
            i = r.randint(0, 1)
            p, q = list(a), list(b)
            q[i] = p[i]
            p, q = tuple(p), tuple(q)
        else:
            p, q = g.point(g.kind()), g.point(g.kind())
        if r.random() < 0.2:
            p, q = (round(p[0]), round(p[1])), (round(q[0]), round(q[1]))
        if math.hypot(q[0] - p[0], q[1] - p[1]) < 0.5:
            return None
        if r.random() < 0.5:
            p, q = q, p
        return g.container([g.maybe_list(p), g.maybe_list(q)])

    def line_intersects(i, l):
        C.ask(i, "lineIntersects", lambda c: c.lineIntersects(l), ("list", "num"), f".lineIntersects({l})", l=E.enc("seg", l))

    def roots(i, l):
        if l is None:
            C.ask(i, "roots", lambda c: c.roots(), ("list", "num"), ".roots()", l=[])
        else:
            C.ask(i, "roots", lambda c: c.roots(l), ("list", "num"), f".roots({l})", l=E.enc("seg", l))

    def with_line(i, l):
        c = C.cs[i - 1]
        if c.order < 2:
            return
        cp = list(c.controlPoints)
        res = rec.run(lambda: c.intersectWithLine(Bezier(l)), "pt")
        mut = [tuple(p) for p in cp] != [tuple(p) for p in c.controlPoints]
        at = locate([cp], res.value)["t"] if res.ok else 0
        rec.emit("intersectWithLine", {"i": i, "l": E.enc("seg", l)}, res, f"{C.src[i - 1]}.intersectWithLine(Bezier({l}))", mut, at=at)

    grid = [-2, 0, 3]
    # small curves and axis-parallel lines: all of them
    shapes = [[(0, 0), (a, b), (6, c)] for a in grid for b in grid for c in grid] + \
             [[(0, -1), (a, b), (4, e), (6, 2)] for a in grid for b in grid for e in grid]
    for pts in d.mine(shapes):
        C.new()
        i = C.make(pts)
        if i:
            for l in ([(-9, 0), (9, 0)], [(1, -9), (1, 9)], [(9, 1), (-9, -1)], [(0, 0), (3, 1)]):
                line_intersects(i, l)
                roots(i, l)
            roots(i, None)
            with_line(i, [(0, 0), (3, 1)])
    # straight in even steps, or raised from a quadratic curve: the equations are of lower degree
    for _ in range(d.n(320)):
        a, b, c = (g.point(r.choice(("unit", "font"))) for _ in range(3))
        n = r.choice((2, 3, 3))
        e = r.random()
        if e < 0.6:
            a, b = ((round(v[0]), round(v[1])) for v in (a, b))
            pts = [(a[0] + k * b[0], a[1] + k * b[1]) for k in range(n + 1)]
        else:
            a, b, c = ((3 * round(v[0]), 3 * round(v[1])) for v in (a, b, c))
            pts = [a] + [((u[0] + 2 * b[0]) // 3, (u[1] + 2 * b[1]) // 3) for u in (a, c)] + [c]
        if r.random() < 0.5:      # nearly so
            k = r.randrange(n + 1)
            s = 10 ** -r.uniform(0, 11) * max(abs(v) for p in pts for v in p)
            pts[k] = (pts[k][0] + s * r.choice((0, 1, -1)), pts[k][1] + s * r.choice((1, -1)))
        if pts[0] == pts[-1] or not big(pts):
            continue
        C.new()
        i = C.make(pts)
        if not i:
            continue
        for _ in range(2):
            l = line(pts, r.choice((0.1, 0.5, 0.8)))
            if l is not None:
                line_intersects(i, l) if r.random() < 0.6 else roots(i, l)
        # an axis-parallel line through an exact point of it
        k = r.randrange(2)
        m = [0, 0]
        m[k] = pts[0][k] + (pts[1][k] - pts[0][k]) if r.random() < 0.5 else round(sample(pts, r.random())[k])
        p, q = list(m), list(m)
        p[1 - k], q[1 - k] = -3000, 3000
        line_intersects(i, [tuple(p), tuple(q)])
        roots(i, None)
    for _ in range(d.n(1500)):
        pts = g.container(g.curve_pts())
        if not big(pts):
            continue
        C.new()
        i = C.make(pts)
        if not i:
            continue
        for _ in range(r.choice((1, 2, 3))):
            l = line(pts)
            if l is None:
                continue
            x = r.random()
            if x < 0.5:
                line_intersects(i, l)
            elif x < 0.75:
                roots(i, l)
            else:
                with_line(i, l)
        if r.random() < 0.3:
            roots(i, None)
    # lines that miss the curve
    for _ in range(d.n(160)):
        pts = g.curve_pts(r.choice((2, 3)), r.choice(("unit", "font", "float")))
        if not big(pts):
            continue
        C.new()
        i = C.make(pts)
        if i:
            a = r.uniform(0, math.tau)
            u = (math.cos(a), math.sin(a))
            m = max(p[0] * u[0] + p[1] * u[1] for p in pts) + r.choice((0.01, 1, 50))
            o = (u[0] * m, u[1] * m)
            k = r.uniform(1, 500)
            l = [(o[0] - u[1] * k, o[1] + u[0] * k), (o[0] + u[1] * k, o[1] - u[0] * k)]
            with_line(i, l)
            line_intersects(i, l)
