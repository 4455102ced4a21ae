"""C32: from a glyph to its picture."""
from vf import enc as E, rec as R, svg
from drivers import pens as P, plots
from drivers.c01 import matrix


def drive(d):
    rec, g, r = d.rec, d.g, d.r
    SegmentPen = d.lib("SegmentPen").SegmentPen
    bz = d.lib("Bezier")
    T = d.lib("Transform").Transform
    PU = d.lib("PathUtilities")
    CP = d.lib("ContourPlotter").ContourPlotter
    W = P.Writer(g, r)
    CONTOURS = "contours"

    def points(o):
        return [[b.controlPoints for b in bc] for bc in o]

    class Session:
        def __init__(self):
            rec.new()
            self.hist = ""
            self.ok = True
            self.out = None      # the BOutline
            self.box = []
            self.glyphs = {}

        def call(self, op, args, fn, shape, text, inputs=None):
            """Call fn unless a call failed before; its value, or None."""
            if not self.ok:
                return None
            self.hist += text + "; "
            res = rec.call(op, args, fn, shape, self.hist, inputs=inputs)
            self.ok = res.ok
            return res.value if res.ok else None

        # drawing
        def define(self, name, cmds):
            from drivers.c23 import Glyph
            self.glyphs[name] = Glyph(cmds)
            self.hist += f"{name}: [{'; '.join(P.text(c, x) for c, x in cmds)}]; "
            rec.emit("glyph", {"name": name, "items": [{"c": c, "p": [E.pt(p) for p in x]} for c, x in cmds]}, R.Result("ok"), self.hist)

        def new_pen(self):
            box = []
            self.call("newPen", {}, lambda: box.append(SegmentPen(self.glyphs, P.LOG)), "any", "pen = SegmentPen(glyphs, log)")
            self.pen = box[0] if box else None

        def draw(self, cmds):
            for c, x in cmds:
                self.call(c, {"p": [E.pt(p) for p in x]}, lambda: P.apply(self.pen, c, x), "any", "pen." + P.text(c, x))

        def component(self, name, m):
            self.call("addComponent", {"g": name, "m": [E.num(v) for v in m]}, lambda: self.pen.addComponent(name, m), "any", f"pen.addComponent({name!r}, {m})")

        def outline(self):
            def make():
                self.out = bz.BOutline(self.pen.contours)
                return points(self.out)
            self.call("outline", {"free": "None" in self.hist}, make, CONTOURS, "out = BOutline(pen.contours)")

        # steps
        def step(self, op, args, fn, text, inputs=None):
            def run():
                self.out = fn()
                return points(self.out)
            self.call(op, args, run, CONTOURS, text, inputs)

        def move(self, ms):
            def run():
                return bz.BOutline(T(*ms).applyToContours(points(self.out)))
            self.step("move", {"ms": E.enc(("list", "matrix"), ms)}, run, f"out = BOutline(Transform(*{ms}).applyToContours(points(out)))", [ms])

        def turn(self):
            q, deg, ccw = g.point("unit"), r.choice((90, -90, 180, 30, 45, r.uniform(-360, 360))), r.random() < 0.5
            self.step("turn", {"q": E.pt(q), "d": E.num(deg), "ccw": ccw},
                      lambda: bz.BOutline(PU.rotateContoursAbout(points(self.out), q, deg, ccw)),
                      f"out = BOutline(rotateContoursAbout(points(out), {q}, {deg}, {ccw}))")

        def curves(self):
            """(contour, curve) from 1, with the number of control points"""
            try:
                return [(i, k, len(c)) for i, bc in enumerate(points(self.out), 1) for k, c in enumerate(bc, 1)]
            except Exception:
                self.ok = False
                return []

        def split(self, i, k, t):
            def run():
                cs = points(self.out)
                left, right, _ = self.out.bContours[i - 1][k - 1].split(t)
                cs[i - 1][k - 1:k] = [left.controlPoints, right.controlPoints]
                return bz.BOutline(cs)
            self.step("split", {"i": i, "k": k, "t": E.num(t)}, run, f"split curve {k} of contour {i} at {t}")

        def put_in(self, i, k, make):
            """Replace a curve, in the contour at hand or in a new outline."""
            if r.random() < 0.5:
                bc = self.out.bContours[i - 1]
                bc[k - 1] = make(bc[k - 1])
                return self.out
            cs = points(self.out)
            cs[i - 1][k - 1] = make(self.out.bContours[i - 1][k - 1])
            return bz.BOutline(cs)

        def raise_(self, i, k):
            self.step("raise", {"i": i, "k": k}, lambda: self.put_in(i, k, lambda b: b.raiseOrder().controlPoints), f"raise the order of curve {k} of contour {i}")

        def put(self, i, k, inner):
            try:
                p = points(self.out)[i - 1][k - 1]
                c = [p[0]] + inner + [p[-1]]
                enc = E.enc("seg", c)
            except Exception:
                self.ok = False
                return
            self.step("put", {"i": i, "k": k, "c": enc}, lambda: self.put_in(i, k, lambda b: c), f"curve {k} of contour {i} = {c}", [c])

        def rebuild(self):
            def run():
                x = r.random()
                if x < 0.3:
                    return bz.BOutline(points(self.out))
                if x < 0.6:
                    return bz.BOutline([[[tuple(p) for p in s] for s in c] for c in points(self.out)])
                return bz.BOutline(T.scale().applyToContours(points(self.out))) if x < 0.8 else bz.BOutline(
                    [[b.controlPoints for b in bz.BOutline.pathFromSegments(*bc)] for bc in self.out])
            self.step("rebuild", {}, run, "out = the same built again")

        # queries
        def ask(self, what=None):
            cs = self.curves()
            if not self.ok or not cs:
                return
            what = what or r.choice(("points", "points", "bounds", "bounds", "contourBounds", "data", "drawContours", "drawPaths", "lengths"))
            out = self.out
            if what == "points":
                i, k, _ = r.choice(cs)
                ts = [r.choice((0, 1, 0.5, 0.25, r.random(), r.random())) for _ in range(3)]
                self.call("points", {"i": i, "k": k, "t": [E.num(t) for t in ts]}, lambda: [out.bContours[i - 1][k - 1].get(t) for t in ts], "seg",
                          f"curve {k} of contour {i} at {ts}")
            elif what == "bounds":
                self.call("bounds", {}, lambda: out.boundsRectangle, "rect", "out.boundsRectangle")
            elif what == "contourBounds":
                self.call("contourBounds", {}, lambda: [bc.boundsRectangle for bc in out], ("list", "rect"), "bounds of the contours")
            elif what == "data":
                self.call("data", {}, lambda: [bc.d() for bc in out], ("list", svg.groups), "d() of the contours")
            elif what == "lengths":
                i = r.choice(cs)[0]
                self.call("lengths", {"i": i}, lambda: [b.length for b in out.bContours[i - 1]], ("list", "num"), f"lengths of the curves of contour {i}")
            else:
                close, poly = r.random() < 0.5, r.random() < 0.6

                def run():
                    if not self.box or r.random() < 0.5:
                        self.box[:] = [CP(out.boundsRectangle.points, poly=poly)]
                    p = self.box[0]
                    n = len(p._content)
                    if what == "drawContours":
                        p.drawContours(points(out), close=close)
                    else:
                        p.drawPaths(out.bContours, close=close)
                    return list(p._content[n:])
                self.call(what, {"close": close}, run, plots.elements, f"{what}(close={close}), poly={poly}")

    def letters(w):
        """Keep the curves few."""
        return w[:30] + ["x"] if len(w) > 30 else w

    def affine():
        x = r.random()
        if x < 0.15:
            return [[1, 0, 0], [0, 1, 0], [g.coord("font"), g.coord("frac"), 1]]
        if x < 0.3:
            return r.choice(([[0, 1, 0], [-1, 0, 0], [0, 0, 1]], [[1, 0, 0], [0, -1, 0], [0, 0, 1]], [[-1, 0, 0], [0, -1, 0], [3, 4, 1]]))
        m = matrix(d, T, exotic=False)
        while any(abs(v) > 1e7 for row in m for v in row) or any(row[2] for row in m[:2]) or m[2][2] != 1:
            m = matrix(d, T, exotic=False)
        return m

    def glyph(s, kind):
        """Draw something; FALSE if there is no outline."""
        names = []
        for name in "AB"[:r.choice((0, 0, 1, 2))]:
            w = letters(W.word())
            s.define(name, W.commands(w, kind))
            names.append(name)
        s.new_pen()
        if not names or r.random() < 0.7:
            s.draw(W.commands(letters(W.word()), kind))
        for name in names:
            if r.random() < 0.8:
                k = lambda: r.choice((1, 1, -1, 0.5, 0, r.uniform(-2, 2)))
                s.component(name, r.choice(((1, 0, 0, 1, 0, 0), (1, 0, 0, 1, g.coord("font"), -20.5), (k(), 0, 0, k(), 10, 20), (k(), k(), k(), k(), 1.5, -3))))
        if r.random() < 0.25:
            s.draw(W.commands(letters(W.word()), kind))
        s.outline()
        return s.ok and bool(s.curves())

    def inner(kind):
        return [g.point(kind) for _ in range(r.choice((0, 1, 2)))]

    # behaviours of G_Pipeline
    def follow(ops):
        kind = r.choice(("unit", "font", "frac", "float"))
        s = Session()
        s.new_pen()
        s.draw(W.commands("mLPDx", kind) + W.commands("mPSx", kind))
        s.outline()
        ms = {}
        for o in ops:
            if not s.ok:
                return
            i, k = o["i"], o["k"]
            if o["op"] == "move":
                s.move([ms.setdefault(i, affine())])
            elif o["op"] == "split":
                s.split(i, k, (0.5, r.choice((0.25, 0.3, 0.9)))[o["t"] - 1])
            elif o["op"] == "put":
                s.put(i, k, inner(kind))
            elif (i, k, 4) not in s.curves():
                s.raise_(i, k)
            s.ask()
        for _ in range(2):
            s.ask()

    for b in d.behaviours:
        follow(b["b"])
    for _ in range(d.n(400, 4000)):
        s = Session()
        kind = r.choice(("unit", "font", "font", "frac", "float", "int", None))
        if not glyph(s, kind):
            continue
        for w in ("bounds", "data", "drawContours", "drawPaths"):
            if r.random() < 0.25:
                s.ask(w)
        for _ in range(g.many(1, 2, 3, 4, 6, cap=16)):
            cs = s.curves()
            if not s.ok:
                break
            x = r.random()
            i, k, n = r.choice(cs)
            if x < 0.3:
                s.move([affine() for _ in range(r.choice((1, 1, 2, 3)))])
            elif x < 0.4:
                s.turn()
            elif x < 0.65:
                s.split(i, k, g.t(inside=True))
            elif x < 0.8 and n < 4:
                s.raise_(i, k)
            elif x < 0.9:
                s.put(i, k, inner(kind))
            elif x < 0.95:
                s.rebuild()
            if r.random() < 0.5:
                s.ask()
        for _ in range(r.choice((1, 2, 3))):
            s.ask()
