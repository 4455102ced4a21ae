"""C14: contours and their edits."""
from vf import enc as E, svg
from drivers import contours as K


def drive(d):
    rec, g, r = d.rec, d.g, d.r
    BContour, BOutline = d.lib("Bezier").BContour, d.lib("Bezier").BOutline

    class Session:
        """One or two contours, or those of an outline."""

        def __init__(self, *contours, outline=False):
            rec.new()
            self.bcs, self.curs = [], []
            self.hist = ""
            self.ok = True
            self.i = 0
            self.outline = None
            if outline:
                contours = [list(c) for c in contours]
                self.curs = [list(c) for c in contours]
                self.hist = f"o = BOutline({contours}); c0, ... = o.contours; "

                def make():
                    self.outline = BOutline(contours)
                    self.bcs = list(self.outline) if r.random() < 0.5 else self.outline.bContours
                    return [[[b.controlPoints for b in c] for c in self.outline]]
                self.ok = rec.call("outline", {"cs": E.enc("contours", contours)}, make, ("list", "contours"), self.hist, inputs=[contours]).ok
                return
            for contour in contours:
                if not self.ok:
                    return
                self.i = len(self.curs)
                self.curs.append(list(contour))
                src = f"c{self.i} = BContour({contour})"
                self.hist += src + "; "
                self.ok = rec.call("contour", {"c": E.enc("contour", contour)}, lambda: K.curves(self.make(contour)), K.CURVES, src, inputs=[contour]).ok
            self.i = 0

        def make(self, contour):
            self.bcs.append(BContour(contour))
            return self.bcs[-1]

        @property
        def bc(self):
            return self.bcs[self.i]

        @property
        def cur(self):
            return self.curs[self.i]

        def other(self):
            self.i = r.randrange(len(self.curs))

        def fresh(self, fn, shape):
            """What a new contour says; None if it fails as well."""
            res = rec.run(lambda: fn(BContour(self.cur)), shape)
            return res.enc if res.ok else None

        def ask(self, op, fn, shape, text, compare=True, **args):
            f = self.fresh(fn, shape) if compare else 0
            if f is None:
                return
            res = rec.call(op, {"i": self.i + 1, **args}, lambda: fn(self.bc), shape, f"{self.hist}c{self.i}{text}", inputs=[self.cur], f=f)
            self.hist += f"c{self.i}{text}; "
            self.ok = self.ok and res.ok

        def whole(self):
            self.hist += "o.boundsRectangle; "
            res = rec.run(lambda: BOutline(self.curs).boundsRectangle, "rect")
            if res.ok:
                self.ok = rec.call("outlineBounds", {"n": len(self.curs)}, lambda: self.outline.boundsRectangle, "rect", self.hist, inputs=[self.curs], f=res.enc).ok

        def set(self, k, seg):
            text = f"c{self.i}[{k}] = {seg}; "
            self.hist += text

            def edit():
                self.bc[k] = seg
            res = rec.call("set", {"i": self.i + 1, "k": k, "c": E.enc("seg", seg)}, edit, "none", self.hist, inputs=[seg])
            self.cur[k] = seg
            self.ok = self.ok and res.ok

        def delete(self, k):
            self.hist += f"del c{self.i}[{k}]; "

            def edit():
                del self.bc[k]
            res = rec.call("del", {"i": self.i + 1, "k": k}, edit, "none", self.hist)
            del self.cur[k]
            self.ok = self.ok and res.ok

        def query(self, op, k):
            if self.outline is not None and r.random() < 0.35:
                self.whole()
            if op == "bounds":
                self.ask("bounds", lambda c: c.boundsRectangle, "rect", ".boundsRectangle")
            elif op == "ends":
                self.ask("ends", lambda c: [c.start, c.end], ("tuple", "pt", "pt"), ".start, c.end", False)
            elif op == "item":
                self.ask("item", lambda c: c[k].controlPoints, "seg", f"[{k}].controlPoints", False, k=k)
            elif op == "curves":
                self.ask("curves", K.curves, K.CURVES, " curves", False)
            elif op == "lut":
                if r.random() < 0.02:
                    self.ask("lut", lambda c: c.getLUT(), "seg", ".getLUT()", n=100)
                self.ask("lut", lambda c: c.getLUT(k), "seg", f".getLUT({k})", n=k)
                if self.ok and r.random() < 0.2:      # a table received is not changed by the next one
                    def kept(c):
                        t = c.getLUT(k)
                        c.getLUT(k + 1)
                        return t
                    self.ask("lut", kept, "seg", f".getLUT({k}) after asking for {k + 1}", n=k)
            elif op == "closest":
                q = K.query_point(d, self.cur)
                self.ask("closest", lambda c: K.closest(c, q, k), K.CLOSEST, f".findClosestPoint({q}, {k})", q=E.pt(q))
            elif op == "d":
                self.ask("d", lambda c: c.d(), svg.groups, ".d()")
            else:
                raise AssertionError(op)

    def replacement(s, k, kind):
        """A curve for position k, often connected to its neighbors."""
        old = s.cur[k]
        seg = g.curve_pts(None, kind)
        seg = [g.reuse(p, [q for c in s.cur for q in c], 0.2) for p in seg]
        if r.random() < 0.7:
            seg[0], seg[-1] = tuple(old[0]), tuple(old[-1])
        if seg[0] == seg[-1]:
            seg = [tuple(p) for p in old]
        return g.container(seg)

    def finish(s, sizes):
        qs = [("bounds", 0), ("ends", 0), ("curves", 0), ("d", 0), ("lut", r.choice(sizes)), ("closest", r.choice(sizes))]
        r.shuffle(qs)
        for op, k in qs:
            if s.ok:
                s.query(op, k)
        if s.ok and s.outline is not None:
            s.whole()

    # the histories TLC generated
    for b in d.behaviours:
        kind = r.choice(("unit", "unit", "frac", "float"))
        s = Session(g.contour(b["b"]["n"], kind=kind), *([g.contour(r.choice((1, 2)), kind=kind)] if r.random() < 0.2 else []), outline=r.random() < 0.25)
        for o in b["b"]["ops"]:
            if not s.ok:
                break
            if o["op"] == "set":
                s.set(o["k"], replacement(s, o["k"], kind))
            elif o["op"] == "del":
                s.delete(o["k"])
            else:
                s.query(o["op"], o["k"])
        if s.ok:
            finish(s, (2, 3, 5))
    for _ in range(d.n(200, 4000)):
        kind = g.kind()
        s = Session(*(g.dotted(g.contour(kind=kind, closed=r.random() < 0.8)) for _ in range(r.choice((1, 1, 2)))), outline=r.random() < 0.3)
        sizes = [g.steps(), g.steps(), 2]
        for _ in range(r.choice((4, 8, 12))):
            if not s.ok:
                break
            s.other()
            n = len(s.cur)
            x = r.random()
            if x < 0.25:
                k = r.randrange(-n, n)
                s.set(k, replacement(s, k, kind))
            elif x < 0.4 and n > 1:
                s.delete(r.randrange(-n, n))
            else:
                op = r.choice(("bounds", "ends", "item", "lut", "lut", "closest", "d", "curves"))
                s.query(op, r.randrange(-n, n) if op == "item" else r.choice(sizes))
        for s.i in range(len(s.curs)):
            if s.ok:
                finish(s, sizes)
