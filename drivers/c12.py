"""C12: normals and offset points."""
from vf import enc as E
from drivers.curves import Curves


def drive(d):
    rec, g, r = d.rec, d.g, d.r
    C = Curves(d)
    for _ in range(d.n(300)):
        C.new()
        pts = g.container([g.maybe_list(p) for p in g.curve_pts(g.many(1, 2, 3, 3, 4, 5, 6, 8, cap=12), g.wide())])
        if C.make(pts):
            C.ask(1, "dcPoints", lambda c: c.dcPoints, ("list", "seg"), ".dcPoints")
    for _ in range(d.n(1500)):
        C.new()
        pts = g.container([g.maybe_list(p) for p in g.curve_pts(None, g.wide())])
        if not C.make(pts):
            continue
        for _ in range(r.choice((2, 3, 4))):
            t = g.t()
            if r.random() < 0.4:
                C.ask(1, "normal", lambda c: c.normal(t), "pt", f".normal({t})", t=E.num(t))
            else:
                dist = r.choice((0, 0.0, 1, -1, 10, -2.5, g.coord(), r.uniform(-50, 50), 1e-3))
                C.ask(1, "offset", lambda c: c.offset(t, dist), "seg", f".offset({t}, {dist})", t=E.num(t), d=E.num(dist))
