"""C08: splits and hulls."""
from vf import enc as E
from drivers.curves import Curves


def drive(d):
    rec, g, r = d.rec, d.g, d.r
    C = Curves(d)

    def split(i, t):
        res = C.ask(i, "split", lambda c: c.split(t), lambda v: [E.curve(v[0]), E.curve(v[1])], f".split({t})", t=E.num(t))
        if res.ok:
            C.add(res.value[0], f"{C.src[i - 1]}.split({t})[0]")
            C.add(res.value[1], f"{C.src[i - 1]}.split({t})[1]")
        return res.ok

    def split2(i, t1, t2):
        res = C.ask(i, "split2", lambda c: c.split(t1, t2), "curve", f".split({t1}, {t2})", t1=E.num(t1), t2=E.num(t2))
        if res.ok:
            C.add(res.value, f"{C.src[i - 1]}.split({t1}, {t2})")
        return res.ok

    # all pairs of simple parameters on one curve of each order
    ts = (0, 0.25, 1 / 3, 0.5, 0.75, 1)
    pairs = [(a, b) for a in ts for b in ts if a < b]
    for pts in d.mine([[(0, 0), (7, 3)], [(2, 2), (2, -5)], [(0.5, 1), (8, 1)], [(0, 0), (1, 4), (3, -2), (5, 5), (8, 1)], [(0, 0), (2, 4), (3, 3), (4, -3), (5, 1), (6, 6)], [(0, 0), (2, 5), (4, -1)], [(0, 0), (1, 6), (5, -6), (6, 1)], [(3, 1), (3, 1), (8, 2), (9, -4)], [(0, 0), (4, 2), (8, 4)]]):
        for a, b in pairs:
            C.new()
            if C.make(pts):
                split2(1, a, b)
        for t in ts:
            C.new()
            if C.make(pts):
                split(1, t)
                C.ask(1, "hull", lambda c: c.hull(t), "seg", f".hull({t})", t=E.num(t))
    for _ in range(d.n(1100)):
        C.new()
        n = r.choice((4, 4, 5, 6, 8)) if r.random() < 0.15 else None
        pts = g.container([g.maybe_list(p) for p in g.curve_pts(n, g.wide())])
        if not C.make(pts):
            continue
        for _ in range(r.choice((1, 2, 3, 4))):
            i = r.choice((1, len(C.cs), r.randint(1, len(C.cs))))
            x = r.random()
            if x < 0.35:
                if not split(i, g.t()):
                    break
            elif x < 0.85:
                a, b = sorted((g.t(), g.t()))
                if r.random() < 0.2:
                    b = r.choice((1, 1.0)) if r.random() < 0.3 else min(1, a + r.choice((0.01, 1e-3, 0.1, r.choice(g.unit))))
                if a < b and not split2(i, a, b):
                    break
            else:
                t = g.t()
                C.ask(i, "hull", lambda c: c.hull(t), "seg", f".hull({t})", t=E.num(t))
        for i in sorted({1, len(C.cs), r.randint(1, len(C.cs))}):
            C.ask(i, "controlPoints", lambda c: c.controlPoints, "seg", ".controlPoints")
    for _ in range(d.n(240)):
        C.new()
        pts = g.curve_pts(g.many(1, 2, 3, 4, 5, 6, 8, cap=12))
        if C.make(pts):
            t = r.choice((g.t(), g.t(), 0.5, 0.25))
            C.ask(1, "hull", lambda c: c.hull(t), "seg", f".hull({t})", t=E.num(t))
            C.ask(1, "controlPoints", lambda c: c.controlPoints, "seg", ".controlPoints")
