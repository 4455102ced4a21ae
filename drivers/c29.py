"""C29: outlines, contours and curves keep their points; directions."""
import itertools
from vf import enc as E
from drivers import contours as K


def drive(d):
    rec, g, r = d.rec, d.g, d.r
    M = d.lib("Bezier")
    PU = d.lib("PathUtilities")
    Bezier, BContour, BOutline = M.Bezier, M.BContour, M.BOutline
    names = {Bezier.dir_mixed: "mixed", Bezier.dir_flat: "flat", Bezier.dir_up: "up", Bezier.dir_down: "down"}

    def cps(outline):
        return [[b.controlPoints for b in c] for c in outline]

    def direction(pts):
        rec.call("direction", {"p": E.enc("seg", pts)}, lambda: names[Bezier(pts).direction], "str", f"Bezier({pts}).direction", inputs=[pts])

    # all orders of few y coordinates
    for order in (1, 2, 3):
        ys = (0, 1, 2) if order == 3 else (-1, 0, 1, 2)
        for y in d.mine(itertools.product(ys, repeat=order + 1)):
            rec.new()
            direction([(3 * i + r.choice((0, 1)), v) for i, v in enumerate(y)])
    for _ in range(d.n(600)):
        rec.new()
        pts = g.curve_pts(g.many(1, 2, 3, 3, 4, 5, cap=12), g.wide())
        direction(g.container(pts))
    for _ in range(d.n(700)):
        rec.new()
        pts = g.container([g.maybe_list(p) for p in g.curve_pts(r.choice((1, 2, 3, 4, 5, 7)), g.wide())])
        enc = E.enc("seg", pts)
        rec.call("curve", {"p": enc}, lambda: [Bezier(pts).controlPoints, BOutline.segmentFromPoints(pts).controlPoints,
                                               Bezier(Bezier(pts).controlPoints).controlPoints], ("list", "seg"), f"Bezier({pts}), segmentFromPoints", inputs=[pts])
        rec.call("unzip", {"p": enc}, lambda: BOutline.unzipPoints(pts), ("tuple", ("list", "num"), ("list", "num")), f"unzipPoints({pts})", inputs=[pts])
        p = pts[0]
        x, y = p
        cls = r.choice((Bezier, BContour, BOutline))
        rec.call("xy", {"p": E.pt(p)}, lambda: [cls.pointXY(p), cls.xyPoint(x, y)], ("tuple", "pt", "pt"), f"{cls.__name__}.pointXY({p}), xyPoint", inputs=[p])
    for _ in range(d.n(200)):
        rec.new()
        kind = g.wide()
        cs = [[[g.point(kind) for _ in range(r.choice((1, 2, 2, 3, 4)))] for _ in range(g.many(0, 1, 2, 4))] for _ in range(g.many(0, 1, 2, 3, cap=14))]
        for c in cs:
            for s in c:
                if r.random() < 0.3:
                    s[-1] = s[0]
        rec.call("flatten", {"cs": E.enc("contours", cs)}, lambda: PU.flatten(cs), "contour", f"flatten({cs})", inputs=[cs])
    for _ in range(d.n(700)):
        rec.new()
        kind = g.wide()
        cs = [g.contour(r.choice((1, 2, 3, 4, r.choice(g.counts)) if r.random() < 0.2 else (1, 2, 3)), closed=r.random() < 0.7, kind=kind, loops=r.choice((0, 0, 0.3)),
                        orders=r.choice(((1, 2, 3), (1, 2, 3, 4, 5), (1,)))) for _ in range(r.choice((1, 1, 2, 3, 4, 10)))]
        if r.random() < 0.2:
            cs.append(cs[0])
        if any(len(s) > 4 for c in cs for s in c):      # bounds need orders 1 to 3
            cs = [[s for s in c if len(s) <= 4] for c in cs]
            cs = [c for c in cs if c]
        if not cs:
            continue
        cs = [g.container([g.container(s) for s in c]) for c in cs]
        enc = E.enc("contours", cs)
        box = []

        def make():
            o = BOutline(cs)
            box.append(o)
            return [cps(o), cps(o.contours), cps(o.bContours), cps(iter(o))]

        if not rec.call("outline", {"cs": enc}, make, ("list", "contours"), f"BOutline({cs})", inputs=[cs]).ok:
            continue
        o = box[0]
        for i, bc in enumerate(list(o)[:3]):
            rec.call("curves", {"i": i + 1}, lambda: K.curves(bc), K.CURVES, f"BOutline({cs}) contour {i}")
            rec.call("ends", {"i": i + 1}, lambda: [bc.start, bc.end], ("tuple", "pt", "pt"), f"BOutline({cs}) contour {i} start, end")
        rec.call("rebuilt", {"cs": enc}, lambda: cps(BOutline([[b.controlPoints for b in c] for c in o])), "contours", f"outline made of the curves of BOutline({cs})")
        rec.call("rebuilt", {"cs": enc}, lambda: [[b.controlPoints for b in BOutline.pathFromSegments(*list(c))] for c in o], "contours",
                 f"pathFromSegments of the contours of BOutline({cs})")
        rec.call("flatten", {"cs": enc}, lambda: PU.flatten(cs), "contour", f"flatten({cs})", inputs=[cs])
        rec.call("rebuilt", {"cs": enc}, lambda: cps(o), "contours", f"BOutline({cs}) again")
        # the same curve, and equal ones, more than once in a row
        bs = [b for c in o for b in c]
        word = [b for b in r.choices(bs, k=r.choice((1, 2, 3))) for _ in range(r.choice((1, 2, 2, 3)))]
        word = [Bezier(b.controlPoints) if r.random() < 0.3 else b for b in word]
        pts = [[b.controlPoints for b in word]]
        rec.call("rebuilt", {"cs": E.enc("contours", pts)}, lambda: [[b.controlPoints for b in BOutline.pathFromSegments(*word)]], "contours",
                 f"pathFromSegments of curves with the control points {pts[0]}")
