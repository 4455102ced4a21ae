"""C10: tight bounds, extrema, overlaps."""
from vf import enc as E
from drivers.curves import Curves


def drive(d):
    rec, g, r = d.rec, d.g, d.r
    C = Curves(d)
    BContour, BOutline = C.mod.BContour, C.mod.BOutline

    def queries(i):
        qs = [lambda: C.ask(i, "bbox", lambda c: [c.bbox[0], c.bbox[1]], ("tuple", "pt", "pt"), ".bbox"),
              lambda: C.ask(i, "extrema", lambda c: [c.extrema[0], c.extrema[1]], ("tuple", ("list", "num"), ("list", "num")), ".extrema")]
        r.shuffle(qs)
        for q in qs:
            q()

    def bounds(i):
        return C.ask(i, "bounds", lambda c: c.boundsRectangle, "rect", ".boundsRectangle").ok

    def wiggly(order):
        """Coordinates from few values: monotone, S-shaped and touching cases are frequent."""
        k = r.choice((1, 10, 100.5, 1e-3, 40000))
        while True:
            pts = [(r.randint(-3, 3) * k, r.randint(-3, 3) * k) for _ in range(order + 1)]
            if pts[0] != pts[-1]:
                return pts

    for _ in range(d.n(1500)):
        C.new()
        order = r.choice((1, 2, 2, 3, 3, 3, 3))
        pts = g.curve_pts(order, g.wide()) if r.random() < 0.5 else wiggly(order)
        i = C.make(g.container(pts))
        if i:
            queries(i)
            bounds(i)
            if r.random() < 0.3:
                for _ in range(r.choice((1, 2))):
                    C.ask(i, "skeletonBounds", lambda c: c.skeletonBounds, "rect", ".skeletonBounds")
    for _ in range(d.n(500)):
        C.new()
        kind = g.wide()
        n = r.choice((2, 2, 3))
        ok = True
        first = None
        for k in range(n):
            pts = g.curve_pts(None, kind)
            if first and r.random() < 0.4:     # the curve begins at a corner of the bounds of another one
                b = C.cs[0].boundsRectangle
                o = (r.choice((b.left, b.right)), r.choice((b.bottom, b.top)))
                s = r.choice((-1, 1))
                pts = [(o[0] + abs(p[0]) * s, o[1] + p[1] - pts[0][1]) for p in pts]
                pts[0] = o
                if pts[0] == pts[-1]:
                    pts[-1] = (pts[-1][0] + 1, pts[-1][1])
            first = pts
            ok = ok and C.make(pts) and bounds(k + 1)
        if not ok:
            continue
        for i in range(1, n + 1):
            for j in range(1, n + 1):
                o = C.cs[j - 1]
                C.ask(i, "overlaps", lambda c: c.overlaps(o), "bool", f".overlaps({C.src[j - 1]})", j=j)
    for _ in range(d.n(500)):
        rec.new()
        if r.random() < 0.6:
            cs = [g.contour(closed=r.random() < 0.7)]
            rec.call("outlineBounds", {"c": E.enc("contour", cs[0])}, lambda: BContour(cs[0]).boundsRectangle, "rect", f"BContour({cs[0]}).boundsRectangle", inputs=cs)
        else:
            cs = [g.dotted(g.contour(closed=r.random() < 0.7)) for _ in range(g.many(1, 2, 3, cap=10))]
            rec.call("outlineBounds", {"c": E.enc("contour", [s for c in cs for s in c])}, lambda: BOutline(cs).boundsRectangle, "rect",
                     f"BOutline({cs}).boundsRectangle", inputs=cs)
