"""C21: path data."""
import itertools
from vf import enc as E, svg
from drivers import contours as K


def drive(d):
    rec, g, r = d.rec, d.g, d.r
    BContour = d.lib("Bezier").BContour

    def session(contour):
        rec.new()
        src = f"BContour({contour})"
        box = []

        def make():
            box.append(BContour(contour))
            return K.curves(box[0])

        if rec.call("contour", {"c": E.enc("contour", contour)}, make, K.CURVES, src, inputs=[contour]).ok:
            for _ in range(r.choice((1, 1, 2))):
                rec.call("pathData", {"i": 1}, lambda: box[0].d(), svg.groups, f"{src}.d()", inputs=[contour])

    # all sequences of up to 4 kinds of segments
    kinds = "HVLQCZ"
    for n in range(1, 4 if d.tier == "quick" else 5):
        for ks in d.mine(itertools.product(kinds, repeat=n)):
            pen = (r.randint(-5, 5), r.randint(-5, 5))
            contour = []
            for k in ks:
                x, y = pen
                e = (x + r.choice((1, -1)) * r.randint(1, 5), y + r.choice((1, -1)) * r.choice((1, 2.5, 3)))
                seg = {"H": [pen, (e[0], y)], "V": [pen, (x, e[1])], "L": [pen, e], "Z": [pen, pen],
                       "Q": [pen, g.point("unit"), e], "C": [pen, g.point("unit"), g.point("frac"), e]}[k]
                if contour and r.random() < 0.12 and contour[0][0] != pen:      # back to where the contour began
                    seg[-1] = contour[0][0]
                contour.append(seg)
                pen = seg[-1]
            session(contour)
    for _ in range(d.n(2200)):
        kind = r.choice((None, "float", "unit", "frac", "font", "int", "const", g.wide()))
        c = g.contour(g.many(1, 2, 3, 5, 8), closed=r.random() < 0.6, kind=kind, loops=r.choice((0, 0, 0.3)), orders=r.choice(((1,), (1, 1, 2), (2,), (3,), (1, 2, 3), (2, 3, 3))))
        if r.random() < 0.1:
            s = r.choice((1e-7, 1e20, 1e16, 1e-5))
            c = [[(x * s, y * s) for x, y in seg] for seg in c]
        session([g.container([g.maybe_list(p) for p in seg]) for seg in c])
