"""C24: curve fitting."""
import importlib
import math
from vf import enc as E

FIT = lambda v: {"points": E.enc("seg", v[0]), "m": E.enc("matrix", v[1]), "s": E.enc(("list", "num"), v[2]),
                 "c": [E.enc("matrix", v[3][0]), E.enc("matrix", v[3][1])]}


def drive(d):
    rec, g, r = d.rec, d.g, d.r
    M = {"CF": d.lib("CurveFitting")}

    def binomial(n, k, hist):
        rec.call("binomial", {"n": n, "k": k}, lambda: M["CF"].binomial(n, k), "num", f"{hist}binomial({n}, {k})")

    def basis(n, hist):
        rec.call("basisMatrix", {"n": n}, lambda: M["CF"].basisMatrix(n), "matrix", f"{hist}basisMatrix({n})")

    def points(n, kind):
        while True:
            pts = [g.point(kind) for _ in range(n)]
            if r.random() < 0.3:
                pts = [(i * r.uniform(5, 9), y) for i, (_, y) in enumerate(pts)]
            if all(a != b for a, b in zip(pts, pts[1:])):
                return pts

    def fit(n, hist, kind=None):
        while True:
            p = g.container(points(n, kind or g.wide()))
            # times too close to each other make the equations singular
            gaps = [math.dist(a, b) for a, b in zip(p, p[1:])]
            if min(gaps) > sum(gaps) / 50:
                break
        x = r.random()
        if x < 0.3:
            pol, fn, text = True, lambda: M["CF"].fit(p), f"fit({p})"
        else:
            pol = x < 0.65
            fn, text = lambda: M["CF"].fit(p, pol), f"fit({p}, {pol})"
        rec.call("fit", {"p": E.enc("seg", p), "polygonal": pol}, fn, FIT, hist + text, inputs=[p])

    def times(n, kind=None):
        p = points(n, kind or g.kind())
        pol = r.random() < 0.6
        kw = {} if pol and r.random() < 0.4 else {"polygonal": pol}
        if n > 2 and r.random() < 0.25:      # the first k points only
            k = r.randint(2, n)
            rec.call("times", {"p": E.enc("seg", p[:k]), "polygonal": pol}, lambda: M["CF"].computeTimeValues(p, k, **kw), ("list", "num"),
                     f"computeTimeValues({p}, {k}, {kw})", inputs=[p])
            return
        rec.call("times", {"p": E.enc("seg", p), "polygonal": pol}, lambda: M["CF"].computeTimeValues(p, **kw), ("list", "num"),
                 f"computeTimeValues({p}, {kw})", inputs=[p])

    def fresh():
        """The module as it is when it has just been imported."""
        M["CF"] = importlib.reload(M["CF"])

    for b in d.behaviours:
        fresh()
        rec.new()
        hist = ""
        for o in b["b"]:
            n = o["n"]
            if o["op"] == "binomial":
                binomial(n, r.randint(0, n), hist)
            elif o["op"] == "basisMatrix":
                basis(n, hist)
            else:
                fit(n, hist, r.choice(("unit", "font", "float")))
            hist += f"{o['op']}({n}); "
        for n in (3, 7, 11):
            binomial(n, r.randint(0, n), hist)
    # every coefficient up to row 24 from scratch, largest first, and in order
    for rows in d.mine([range(24, -1, -1), range(25), [40, 3, 39, 8], [7], [9, 8, 7, 6], [60, 59, 7]]):
        fresh()
        rec.new()
        for n in rows:
            for k in range(n + 1):
                binomial(n, k, "")
    for _ in range(d.n(500)):
        rec.new()
        if r.random() < 0.1:
            fresh()
        for _ in range(r.choice((1, 3, 6))):
            x = r.random()
            if x < 0.15:
                n = r.choice((r.randint(0, 12), r.randint(0, 45), r.choice([c for c in g.counts if c < 100] or [9])))
                binomial(n, r.randint(0, n), "")
            elif x < 0.25:
                basis(r.randint(1, 20), "")
            elif x < 0.45:
                times(g.many(*range(2, 13)))
            else:
                fit(r.choice((2, 3, 4, 4, 5, 6, 7)), "")
