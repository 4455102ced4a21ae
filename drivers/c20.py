"""C20: closest points."""
from vf import enc as E
from drivers import contours as K


def drive(d):
    rec, g, r = d.rec, d.g, d.r
    BContour = d.lib("Bezier").BContour
    for _ in range(d.n(420)):
        rec.new()
        kind = r.choice(("unit", "font", "frac", "float", None)) if r.random() < 0.92 else "huge"
        n = g.many(1, 1, 2, 2, 3, 4, 5, cap=14)
        if d.tier == "quick" and n > 3:
            n = r.choice((1, n))
        contour = g.dotted(g.contour(n, closed=r.random() < 0.6, kind=kind))
        src = f"BContour({contour})"
        box = []

        def make():
            box.append(BContour(contour))
            return K.curves(box[0])

        if not rec.call("contour", {"c": E.enc("contour", contour)}, make, K.CURVES, src, inputs=[contour]).ok:
            continue
        bc = box[0]
        sizes = [r.choice((2, 3, 3, 4, 5, 10, g.steps())) for _ in range(2)]
        asked = []
        for _ in range(r.choice((2, 3, 5))):
            q = K.query_point(d, contour)
            steps = r.choice(sizes)
            if n == 1 and r.random() < 0.3:
                steps = r.choice((r.randint(20, 110), r.randint(51, 110)))
            elif steps > 40 and r.random() < 0.8:
                steps = 3
            res = rec.run(lambda: K.closest(bc, q, steps), K.CLOSEST)
            text = f"{src}.findClosestPoint({q}, {steps})"
            if res.ok:
                res.enc["at"] = K.locate(contour, res.value["p"])
                asked.append((q, steps, res, text))
            rec.emit("closestPoint", {"i": 1, "q": E.pt(q), "n": steps}, res, text)
            if r.random() < 0.3:
                bc.getLUT(r.choice(sizes + [7]))
        for q, steps, old, text in asked[:2]:
            rec.call("closestAgain", {"i": 1, "d": old.enc["dist"], "p": old.enc["p"]}, lambda: K.closest(bc, q, steps), K.CLOSEST, f"{text} again")
