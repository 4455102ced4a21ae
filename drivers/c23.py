"""C23: components."""
import copy
from vf import enc as E, rec as R
from drivers import pens as P

IDENTITY = (1, 0, 0, 1, 0, 0)


class Glyph:
    def __init__(self, items):
        self.items = items

    def draw(self, pen):
        for cmd, x in self.items:
            if cmd == "component":
                pen.addComponent(x[0], x[1])
            else:
                P.apply(pen, cmd, x)


def drive(d):
    rec, g, r = d.rec, d.g, d.r
    SegmentPen = d.lib("SegmentPen").SegmentPen
    W = P.Writer(g, r)

    def transformation():
        x = r.random()
        k = lambda: r.choice((1, -1, 0.5, 2, 0, 1.5, -0.25, r.uniform(-2, 2)))
        off = lambda: r.choice((0, 0, r.randint(-500, 500), r.uniform(-100, 100)))
        if x < 0.15:
            m = IDENTITY
        elif x < 0.2:
            m = (1.0, 0.0, 0.0, 1.0, 0, 0)
        elif x < 0.4:
            m = (1, 0, 0, 1, off(), off())
        elif x < 0.55:
            m = (k(), 0, 0, k(), off(), off())
        elif x < 0.65:       # a quarter turn
            m = r.choice(((0, 1, -1, 0), (0, -1, 1, 0), (-1, 0, 0, -1), (0, 1, 1, 0))) + (off(), off())
        elif x < 0.72:       # moves by less than a unit
            small = lambda: r.choice((0, 0.5, -0.25, 1e-3, r.uniform(-1, 1)))
            m = (1, 0, 0, 1, small(), small())
        elif x < 0.78:       # the identity but for one of the six
            m = list(IDENTITY)
            m[r.randrange(6)] = r.choice((0, 1, 2, -1, -1, 0.5))
            m = tuple(m)
        elif x < 0.88:       # any of the four is zero
            v = lambda: r.choice((0, 0.0)) if r.random() < 0.5 else k()
            m = (v(), v(), v(), v(), off(), off())
        else:
            m = (k(), k(), k(), k(), off(), off())
        return list(m) if r.random() < 0.1 else m

    def items(cmds):
        return [{"c": c, "p": [E.pt(p) for p in x]} if c != "component" else
                {"c": c, "g": x[0], "m": [E.num(v) for v in x[1]]} for c, x in cmds]

    def show(cmds):
        return "; ".join(P.text(c, x) if c != "component" else f"addComponent({x[0]!r}, {x[1]})" for c, x in cmds)

    class Session:
        def __init__(self):
            rec.new()
            self.glyphs = {}
            self.n = 0
            self.hist = ""
            self.ok = True
            self.kept = []
            self.pens = []

        def define(self, name, cmds):
            self.glyphs[name] = Glyph(cmds)
            self.hist += f"{name}: [{show(cmds)}]; "
            rec.emit("glyph", {"name": name, "items": items(cmds)}, R.Result("ok"), self.hist)

        def pen(self):
            self.pens = [(p, n, self.kept if n == self.n else kept) for p, n, kept in self.pens]
            self.n = len(self.pens) + 1
            self.name = f"pen{self.n}"
            self.hist += f"{self.name} = SegmentPen(glyphs, log); "
            box = []
            self.ok = rec.call("newPen", {}, lambda: box.append(SegmentPen(self.glyphs, P.LOG)), "any", self.hist).ok
            if self.ok:
                self.p = box[0]
                self.pens.append((self.p, self.n, []))
            self.kept = []

        def other(self):
            """Go on with a pen used before."""
            k = r.randrange(len(self.pens))
            self.pens = [(p, n, self.kept if n == self.n else kept) for p, n, kept in self.pens]
            self.p, self.n, self.kept = self.pens[k]
            self.name = f"pen{self.n}"

        def draw(self, name):
            self.hist += f"glyphs[{name!r}].draw({self.name}); "
            self.ok = self.ok and rec.call("draw", {"g": name, "pn": self.n}, lambda: self.glyphs[name].draw(self.p), "any", self.hist).ok

        def component(self, name, m):
            self.hist += f"{self.name}.addComponent({name!r}, {m}); "
            self.ok = self.ok and rec.call("addComponent", {"g": name, "m": [E.num(v) for v in m], "pn": self.n}, lambda: self.p.addComponent(name, m),
                                           "any", self.hist, inputs=[m]).ok

        def commands(self, cmds):
            for cmd, pts in cmds:
                self.hist += f"{self.name}.{P.text(cmd, pts)}; "
                self.ok = self.ok and rec.call(cmd, {"p": [E.pt(p) for p in pts], "pn": self.n}, lambda: P.apply(self.p, cmd, pts), "any", self.hist).ok

        def check(self):
            if not self.ok:
                return
            res = rec.run(lambda: self.p.contours, "contours")
            changed = res.ok and not R.same(self.kept, list(res.value)[:len(self.kept)])
            rec.emit("placed", {"free": "None" in self.hist, "pn": self.n}, res, self.hist + self.name + ".contours", changed)
            self.ok = res.ok
            if res.ok:
                self.kept = copy.deepcopy(list(res.value))

    def outline(kind, most=200):
        while True:
            w = W.word()
            if len(w) <= most:
                return W.commands(w, kind)

    # behaviours of G_Components
    def follow(word, kind):
        s = Session()
        box = lambda: W.commands(r.choice(("mLLx", "mLPx", "mCLx", "mRLx", "mLDx", "mSLLSx")), kind)
        count = 1
        cmds = box()
        ts = {}

        def t(n):
            if n == 1:
                return IDENTITY
            if n not in ts or r.random() < 0.5:
                ts[n] = (1, 0, 0, 1, r.randint(-50, 50), r.choice((0, 1.5, -20))) if n == 2 else transformation()
            return ts[n]

        for l, j, n in word:
            if l == "n":
                s.define(f"g{count}", cmds)
                count += 1
                cmds = []
            elif l == "o":
                cmds += box()
            elif l == "h":
                cmds += W.commands("mL", kind)
            elif l == "e":
                cmds += W.commands("mLx", kind)[1:]
            elif l == "c":
                cmds.append(("component", (f"g{j}", t(n))))
            elif l == "p":
                s.define(f"g{count}", cmds)
                s.pen()
            elif s.ok and l == "d":
                s.draw(f"g{j}")
            elif s.ok:
                s.component(f"g{j}", t(n))
            if s.ok and l in "du" and r.random() < 0.4:
                s.check()
        s.check()

    for b in d.behaviours:
        follow(b["b"], r.choice(("unit", "font", "frac", "float")))
    for _ in range(d.n(700, 5000)):
        s = Session()
        kind = g.wide()
        names = []
        depth = r.choice((1, 2, 2, 3, 4))
        for k in range(depth + 1):
            cmds = []
            if k == 0 or r.random() < 0.5:
                cmds += outline(kind, 200 if depth == 1 else 20)
            if k:
                for _ in range(g.many(1, 1, 2, 3, cap=8) if depth == 1 else r.choice((1, 1, 2, 3))):
                    cmds.append(("component", (r.choice((names[-1], r.choice(names))), transformation())))
                if r.random() < 0.3:
                    cmds += outline(kind, 200 if depth == 1 else 20)
                if r.random() < 0.15 and cmds:      # anywhere, also while a contour is being drawn
                    cmds.insert(r.randrange(len(cmds)), ("component", (r.choice(names), transformation())))
            name = "ABCDEFG"[k]
            names.append(name)
            s.define(name, cmds)
        s.pen()
        two = r.random() < 0.3
        if two and s.ok:
            s.pen()
        for _ in range(g.many(1, 2, 3, cap=10)):
            x = r.random()
            if two and s.ok:
                s.other()
            if x < 0.4 and s.ok:
                s.draw(r.choice(names))
            elif x < 0.9 and s.ok:
                s.component(r.choice(names), transformation())
            elif s.ok:
                s.commands(outline(kind))
            if r.random() < 0.5:
                s.check()
        s.check()
        # the glyphs are as they were
        if s.ok:
            s.pen()
            if s.ok:
                s.draw(r.choice(names))
                s.check()
