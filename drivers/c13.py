"""C13: histories of queries."""
import decimal
import math
from fractions import Fraction
from vf import enc as E
from drivers.curves import Curves, crossings, regular, sample, hodograph


def flat(v):
    """The structure of an answer and the numbers in it."""
    nums = []

    def walk(v):
        if v is None:
            return "None"
        if isinstance(v, bool):
            return str(v)
        if isinstance(v, (int, float, decimal.Decimal, Fraction)):
            nums.append(E.num(v))
            return "n"
        if isinstance(v, str):
            return repr(v)
        if isinstance(v, (list, tuple)):
            return "(" + ",".join(map(walk, v)) + ")"
        if isinstance(v, dict):
            return "{" + ",".join(f"{k}:{walk(v[k])}" for k in sorted(v, key=str)) + "}"
        if hasattr(v, "controlPoints"):
            return "B" + walk(list(v.controlPoints))
        if hasattr(v, "left") and hasattr(v, "top"):
            return "R" + walk([v.left, v.bottom, v.right, v.top])
        raise E.Malformed(f"unexpected answer {v!r}"[:200])

    shape = walk(v)
    return {"shape": shape, "n": nums}


def drive(d):
    rec, g, r = d.rec, d.g, d.r
    C = Curves(d)
    Bezier = C.Bezier

    BContour = C.mod.BContour

    def about(c):
        return [c.length, c.bbox, c.boundsRectangle, c.extrema, c.getLUT(3), c.dcPoints, c.direction]

    def around(c):
        b = BContour([c.controlPoints])
        return [b.boundsRectangle, b.getLUT(4), b.start, b.end]

    class Session:
        def __init__(self):
            rec.new()
            while True:
                kind = r.choice(("unit", "font", "float"))
                self.pts = [self.shape(kind), self.shape(kind)]
                z = crossings(*self.pts)
                # (all but) tangential curves take very long
                if all(self.transversal(w) for w in z):
                    break
            self.cs = []
            for p in self.pts:
                q = list(p)
                res = rec.call("make", {"i": 0, "q": ""}, lambda: Bezier(q), "curve", f"Bezier({p})", inputs=[q])
                self.cs.append(res.value)
                self.ok = res.ok
                if not res.ok:
                    return
            self.mag = max(abs(x) for p in self.pts for c in p for x in c)
            self.t = g.t(True)
            self.t2 = r.uniform(0.1, 0.9)
            n = r.choice((2, 2, 3, 5, 8))
            self.sizes = r.choice((lambda a: (n, n + a), lambda a: (n + a, n)))(r.choice((1, 1, 2, 3, 20)))
            self.ts = sorted((g.t(True), r.uniform(0.01, 0.99)))
            self.d = r.choice((1, -1)) * r.choice((1, 5, 10, 0.1 * self.mag + 0.1))
            self.thr = r.choice((0.5, 0.5, 1, 2))
            k = self.mag + 1
            self.line = [(r.uniform(-k, k), r.uniform(-k, k)) for _ in range(2)]
            self.kept = []
            self.hist = f"c = [Bezier({self.pts[0]}), Bezier({self.pts[1]})]"

        def shape(self, kind):
            while True:
                pts = g.curve_pts(r.choice((1, 2, 2, 3, 3, 3, 3)), kind)
                if math.hypot(pts[0][0] - pts[-1][0], pts[0][1] - pts[-1][1]) > 2 and (len(pts) == 2 or regular(pts, 0.02)):
                    return pts

        def transversal(self, w):
            p, q = self.pts
            u, v = sample(hodograph(p), w[0]), sample(hodograph(q), w[1])
            return abs(u[0] * v[1] - u[1] * v[0]) > 0.05 * math.hypot(*u) * math.hypot(*v)

        def query(self, q):
            """The query as a function of the curve asked and the other one."""
            t, t2, ts, dist, line = self.t, self.t2, self.ts, self.d, self.line
            n1, n2 = self.sizes
            return {
                "get": lambda c, o: c.get(t), "midpoint": lambda c, o: c.midpoint,
                "ends": lambda c, o: [c.start, c.end, c.startX, c.startY, c.endX, c.endY, c.order],
                "deriv": lambda c, o: c.dcPoints, "table2": lambda c, o: c.getLUT(n1), "table5": lambda c, o: c.getLUT(n2),
                "table100": lambda c, o: c.getLUT(), "extrema": lambda c, o: c.extrema, "bbox": lambda c, o: c.bbox,
                "bounds": lambda c, o: c.boundsRectangle, "length": lambda c, o: c.length,
                "split": lambda c, o: c.split(t), "split2": lambda c, o: c.split(ts[0], ts[1]), "hull": lambda c, o: c.hull(t2),
                "reduce": lambda c, o: c.reduce(), "simple": lambda c, o: c.simple(), "roots": lambda c, o: c.roots(line),
                "lineIntersects": lambda c, o: c.lineIntersects(line), "intersectWithLine": lambda c, o: c.intersectWithLine(Bezier(line)),
                "selfIntersects": lambda c, o: c.intersects(None, self.thr), "offset": lambda c, o: c.offset(dist),
                "offsetPoint": lambda c, o: c.offset(t, dist), "scale": lambda c, o: c.scale(dist), "normal": lambda c, o: c.normal(t),
                "align": lambda c, o: c.align(), "alignTo": lambda c, o: c.align(line), "tightbbox": lambda c, o: c.tightbbox,
                "raiseOrder": lambda c, o: c.raiseOrder(), "ABC": lambda c, o: c.getABC(t2) if c.order > 1 else None,
                "skeleton": lambda c, o: c.skeletonBounds,
                # what parts of the curve, and curves made from it, say
                "splitAsk": lambda c, o: [about(x) for x in c.split(t)[:2]], "split2Ask": lambda c, o: about(c.split(ts[0], ts[1])),
                "alignAsk": lambda c, o: about(c.align()), "raisedAsk": lambda c, o: [c.raiseOrder().get(t), c.raiseOrder().getLUT(3)],
                "reduceAsk": lambda c, o: [about(x) for x in c.reduce()[:3]],
                "copy": lambda c, o: about(Bezier(c.controlPoints)), "contourOf": lambda c, o: around(c),
                "direction": lambda c, o: c.direction, "overlaps": lambda c, o: c.overlaps(o),
                "intersects": lambda c, o: c.intersects(o, self.thr),
            }[q]

        def ask(self, i, q):
            fn = self.query(q)
            ctx = decimal.getcontext()
            fresh = rec.run(lambda: fn(Bezier(self.pts[i - 1]), Bezier(self.pts[2 - i])), flat, timeout=20)
            if fresh.k == "timeout":
                return
            prec = ctx.prec
            res = rec.run(lambda: fn(self.cs[i - 1], self.cs[2 - i]), flat, timeout=20)
            if res.ok:
                self.kept.append((i, q, res.value))
            same = ctx.prec == prec
            ctx.prec = prec
            mut = any([tuple(p) for p in c.controlPoints] != [tuple(p) for p in pts] for c, pts in zip(self.cs, self.pts))
            self.hist += f"; {q} of c[{i - 1}]"
            rec.emit("ask", {"i": i, "q": q, "mag": E.num(self.mag)}, res, self.hist + f" (t={self.t}, {self.t2}, {self.ts}, d={self.d}, line={self.line}, threshold={self.thr})",
                     mut, prec=int(same), f={"k": fresh.k, "r": fresh.enc})

        def look_again(self):
            """Answers received during the session have not changed since."""
            for i, q, v in r.sample(self.kept, min(len(self.kept), 4)):
                res = rec.run(lambda: v, flat)
                rec.emit("kept", {"i": i, "q": q, "mag": E.num(self.mag)}, res, self.hist + f"; answer to {q} of c[{i - 1}] again", False)

    QUERIES = ["get", "midpoint", "ends", "deriv", "table2", "table5", "table100", "extrema", "bbox", "bounds", "length", "split", "split2",
               "hull", "reduce", "simple", "roots", "lineIntersects", "intersectWithLine", "selfIntersects", "offset", "offsetPoint", "scale",
               "normal", "align", "alignTo", "tightbbox", "raiseOrder", "ABC", "direction", "overlaps", "intersects", "skeleton", "splitAsk",
               "split2Ask", "alignAsk", "raisedAsk", "reduceAsk", "copy", "contourOf"]
    FINAL = ["skeleton", "splitAsk", "split2Ask", "alignAsk", "reduceAsk", "copy", "contourOf", "extrema", "bbox", "bounds", "table5", "length", "deriv", "reduce", "roots", "table100", "hull", "split2"]
    for b in d.behaviours:
        s = Session()
        if not s.ok:
            continue
        for o in b["b"]:
            s.ask(o["c"], o["q"])
        # the state is visible in what is asked next
        for q in r.sample(FINAL, 2):
            s.ask(b["b"][-1]["c"], q)
        s.look_again()
    for _ in range(d.n(24, 400)):
        s = Session()
        if not s.ok:
            continue
        for _ in range(r.choice((10, 25))):
            s.ask(r.choice((1, 2)), r.choice(QUERIES))
        s.look_again()
