"""C19: offset curves and scaling."""
import math
from vf import enc as E
from drivers.c18 import arc
from drivers.curves import Curves, pieces_at, turning


def drive(d):
    rec, g, r = d.rec, d.g, d.r
    C = Curves(d)

    def offset(i, dist):
        c = C.cs[i - 1]
        cp = list(c.controlPoints)
        cuts = []
        if len(cp) > 2:
            red = rec.run(lambda: C.Bezier(cp).reduce(), ("list", "curve"))
            if red.ok:
                cuts = pieces_at(cp, [z.controlPoints for z in red.value])
        C.ask(i, "offset", lambda c: c.offset(dist), ("list", "curve"), f".offset({dist})", d=E.num(dist),
              extra={"cuts": [[E.num(a), E.num(b)] for a, b in cuts]})

    def dist(size):
        return r.choice((1, -1)) * r.choice((1, 10, 0.5, round(0.1 * size) or 1, r.uniform(0, 0.2) * size, r.uniform(0, 0.2) * size, r.uniform(0, 1) * size, 1e-3, r.uniform(1, 30) * size))

    for _ in range(d.n(480)):
        C.new()
        if r.random() < 0.25:
            pts = g.curve_pts(1, r.choice(("unit", "font", "float", "frac", "big")))
        else:
            pts = arc(g, r)
        i = C.make(g.container(pts))
        if not i:
            continue
        size = math.hypot(pts[-1][0] - pts[0][0], pts[-1][1] - pts[0][1])
        for _ in range(r.choice((1, 2))):
            offset(i, dist(size) if r.random() < 0.93 else 0)
    n = 0
    while n < d.n(900):
        pts = arc(g, r)
        if not 2 < turning(pts) < 59.9:
            continue
        n += 1
        C.new()
        i = C.make(g.container(pts))
        if not i:
            continue
        size = math.hypot(pts[-1][0] - pts[0][0], pts[-1][1] - pts[0][1])
        if r.random() < 0.6:
            k = dist(size)
            C.ask(i, "scale", lambda c: c.scale(k), "curve", f".scale({k})", d=E.num(k))
        else:
            a, b = dist(size), r.choice((0, 1, -1, r.uniform(-0.2, 0.2) * size))
            f = lambda v: a + b * v
            C.ask(i, "scaleFn", lambda c: c.scale(f), "curve", f".scale(lambda v: {a} + {b} * v)", f0=E.num(f(0)), f1=E.num(f(1)), f13=E.num(f(1 / 3)), f23=E.num(f(2 / 3)))
    for _ in range(d.n(60)):
        C.new()
        # the tangents at the ends are parallel, so that the normals do not meet in one point
        x0, y0, x1, y1 = (g.coord(r.choice(("unit", "font", "int", "float"))) for _ in range(4))
        h = [r.choice((1, -1)) * r.choice((1, 2, 50, 0.25, 300)) for _ in range(2)]
        pts = [(x0, y0), (x0, y0 + h[0]), (x1, y1 + h[1]), (x1, y1)]
        if r.random() < 0.5:
            pts = [(y, x) for x, y in pts]
        i = C.make(g.container(pts))
        if not i:
            continue
        k = dist(10)
        res = rec.run(lambda: C.cs[i - 1].scale(k), "any")
        C.ask(i, "scalePar", lambda c: c.scale(k), "any", f".scale({k})", d=E.num(k), extra={"refused": res.text.startswith("ValueError")})
