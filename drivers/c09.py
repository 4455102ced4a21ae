"""C09: order raising and ABC points."""
from vf import enc as E
from drivers.curves import Curves

ABC = ("dict", {"A": "pt", "B": "pt", "C": ("opt", "pt"), "ratio": "num", "hull": "seg"})


def drive(d):
    rec, g, r = d.rec, d.g, d.r
    C = Curves(d)

    def raised(i):
        res = C.ask(i, "raiseOrder", lambda c: c.raiseOrder(), "curve", ".raiseOrder()")
        if res.ok:
            C.add(res.value, f"{C.src[i - 1]}.raiseOrder()")
        return res.ok

    for _ in range(d.n(900)):
        C.new()
        pts = g.container([g.maybe_list(p) for p in g.curve_pts(g.many(1, 2, 2, 3, 3, 4, 5, 6, 7, 8, cap=12), g.wide())])
        if not C.make(pts):
            continue
        for k in range(g.many(1, 1, 2, 3, 5, cap=8)):
            if not raised(len(C.cs)):
                break
        t = g.t()
        C.ask(1, "controlPoints", lambda c: c.controlPoints, "seg", ".controlPoints")
    for _ in range(d.n(1600)):
        C.new()
        pts = g.container([g.maybe_list(p) for p in g.curve_pts(r.choice((2, 2, 3, 3, 3)))])
        if not C.make(pts):
            continue
        if r.random() < 0.2:
            raised(1)
        for _ in range(2):
            i = r.randint(1, len(C.cs))
            if C.cs[i - 1].order > 3:
                continue
            t = g.t(inside=True)
            C.ask(i, "getABC", lambda c: dict(zip(("A", "B", "C", "ratio", "hull"), c.getABC(t))), ABC, f".getABC({t})", t=E.num(t))
