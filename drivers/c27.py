"""C27: the plotter's settings."""
import itertools
from drivers import plots as P


def drive(d):
    g, r = d.g, d.r
    s = P.Session(d, "settings")
    m = P.Maker(d, s.Color)

    def settings():
        s.set_fill(m.opt(m.col), m.opt(m.opacity))
        s.set_stroke(m.opt(m.width), m.opt(m.col), m.opt(m.opacity), m.opt(m.dash))

    # every drawing method, with and without colors, filled or not, in both modes, twice
    for kind, colored, fill, poly, extra in d.mine(itertools.product(P.KINDS, (True, False), (True, False), (True, False), range(4))):
        s.start(poly)
        if extra:
            settings()
        for _ in range(2):
            P.draw(s, m, kind, colored, fill)

    def step(l, a, b):
        if l == "F":
            s.push_fill(m.col() if a else None, r.choice((0, m.opacity())) if b else None)
        elif l == "S":
            s.push_stroke(r.choice((0, m.width())) if b else None, m.col() if a else None, m.opt(m.opacity), m.opt(m.dash))
        elif l == "f":
            if s.depth["f"]:
                s.pop_fill()
        elif l == "s":
            if s.depth["s"]:
                s.pop_stroke()
        elif l == "x":
            s.set_fill(m.col(), m.opacity())
        elif l == "y":
            s.set_stroke(m.width(), m.col(), m.opacity(), m.dash())
        else:
            P.draw(s, m, None, a, b)

    for b in d.behaviours:
        s.start(r.random() < 0.3)
        two = r.random() < 0.4
        if two:
            s.another(r.random() < 0.3)
            if r.random() < 0.5:
                settings()
            s.use(0)
        if r.random() < 0.5:
            settings()
        for l, a, o in b["b"]:
            step(l, a, o)
            if two and r.random() < 0.4:        # something happens to the other plotter
                s.use(1)
                step(r.choice("FSFSfsxyD"), r.random() < 0.5, r.random() < 0.5)
                s.use(0)
        # unwind
        for k in range(len(s.box)):
            s.use(k)
            while s.ok and s.depth["f"]:
                s.pop_fill()
            while s.ok and s.depth["s"]:
                s.pop_stroke()

    # deep nesting
    for _ in range(d.n(40, 400)):
        s.start(r.random() < 0.3)
        settings()
        ls = r.choice(("F", "S", "FS", "FSD", "FSfs", "FFSSfsx"))
        for _ in range(g.many(5, 8, 12, 20, prob=0.4)):
            if s.ok:
                step(r.choice(ls), r.random() < 0.6, r.random() < 0.6)
        while s.ok and (s.depth["f"] or s.depth["s"]):
            step(r.choice("fs"), False, False)
