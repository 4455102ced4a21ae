"""C03: bounds rectangles are the tightest around their points."""
import itertools
from vf import enc as E


def measures(b, pc):
    return {"width": b.width, "height": b.height, "area": b.area, "diagonal": b.diagonal, "contour": b.contour,
            "center": b.centerPoint, "points": b.points, "yFromBottom": b.yFromBottom(pc), "xFromLeft": b.xFromLeft(pc)}


MEASURES = ("dict", {"width": "num", "height": "num", "area": "num", "diagonal": "seg", "contour": "contour", "center": "pt",
                     "points": ("list", "num"), "yFromBottom": "num", "xFromLeft": "num"})


def look(d, rec, i, b, src):
    """Everything one can ask of rectangle number i of the session."""
    r, g = d.r, d.g
    empty = b.left == float("inf")
    if not empty:
        pc = r.choice((0, 1, 0.5, 0.25, 1.5, -0.25, r.random(), r.choice(g.unit)))
        rec.call("measures", {"i": i, "pc": E.num(pc)}, lambda: measures(b, pc), MEASURES, f"{src}: measures, {pc}")
    xs = [g.coord(), 0] if empty else [b.left, b.right, (b.left + b.right) / 2, b.left - 1, b.right + 0.5, g.coord()]
    ys = [g.coord(), 0] if empty else [b.bottom, b.top, (b.bottom + b.top) / 2, b.bottom - 1, b.top + 0.5, g.coord()]
    for _ in range(3):
        x, y = r.choice(xs), r.choice(ys)
        rec.call("enclosesPoint", {"i": i, "p": E.pt((x, y))}, lambda: b.enclosesPoint((x, y)), "bool", f"{src}.enclosesPoint({(x, y)})")
        rec.call("crosses", {"i": i, "x": E.num(x), "y": E.num(y)}, lambda: (b.crossesX(x), b.crossesY(y)), ("tuple", "bool", "bool"),
                 f"{src}.crossesX({x}), crossesY({y})")
    rec.call("read", {"i": i}, lambda: b, "rect", f"{src} edges")


def points(g, n):
    r = g.r
    kind = g.kind()
    pts = [g.point(kind) for _ in range(n)]
    x = r.random()
    if n > 1 and x < 0.2:      # on one line
        c = g.coord(kind)
        j = r.randint(0, 1)
        pts = [(c, p[1]) if j == 0 else (p[0], c) for p in pts]
    elif n > 1 and x < 0.35:
        pts.sort(key=lambda p: p[r.randint(0, 1)], reverse=r.random() < 0.5)
    elif n > 2 and x < 0.5:    # repeated points
        pts[-1] = pts[0]
    elif x < 0.65:             # all far away from the origin
        o = r.choice((40000, -40000, 100000, -70000, 1e7, -3e9))
        p = r.choice((40000, -40000, 50, -1e6))
        pts = [(a + o, b + p) for a, b in pts]
    elif x < 0.75:
        s = r.choice((-1, 1))
        pts = [(s * abs(a), -s * abs(b)) for a, b in pts]
    return pts


def drive(d):
    rec, g, r = d.rec, d.g, d.r
    PU = d.lib("PathUtilities")
    BR = PU.BoundsRectangle
    # all point lists of a small grid
    grid = list(itertools.product((-1, 0, 2), repeat=2))
    for n in range(0, 4 if d.tier == "quick" else 5):
        for pts in d.mine(itertools.product(grid, repeat=n)):
            rec.new()
            rec.call("points", {"p": E.seq(pts, E.pt)}, lambda: BR(*pts), "rect", f"BoundsRectangle(*{pts})")
    for _ in range(d.n(1600)):
        rec.new()
        n = r.choice((0, 1, 2, 2, 3, 4, 5, 8, r.choice(g.counts), r.randint(1, 40)))
        pts = [g.maybe_list(p) for p in points(g, n)]
        res = rec.call("points", {"p": E.seq(pts, E.pt)}, lambda: BR(*pts), "rect", f"BoundsRectangle(*{pts})", inputs=pts)
        if res.ok:
            look(d, rec, 1, res.value, f"BoundsRectangle(*{pts})")
    for _ in range(d.n(1600)):
        rec.new()
        # contours need not be contiguous here; some are empty
        cs = []
        for _ in range(r.choice((0, 1, 1, 2, 3, 4, r.choice(g.counts)))):
            c = []
            for _ in range(r.choice((0, 1, 1, 2, 3, 5))):
                c.append(g.container([g.maybe_list(p) for p in points(g, r.choice((0, 1, 2, 2, 2, 3, 3, 4)))]))
            cs.append(c)
        res = rec.call("fromContours", {"cs": E.enc("contours", cs)}, lambda: BR.fromCoutours(cs), "rect", f"fromCoutours({cs})", inputs=cs)
        i = 1
        if res.ok:
            look(d, rec, 1, res.value, f"fromCoutours({cs})")
        for c in cs[:3]:
            i += 1
            res = rec.call("fromContour", {"c": E.enc("contour", c)}, lambda: BR.fromContour(c), "rect", f"fromContour({c})", inputs=c)
            if res.ok:
                look(d, rec, i, res.value, f"fromContour({c})")
