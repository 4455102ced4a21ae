"""C07: evaluation, lookup tables, ends."""
from vf import enc as E
from drivers.curves import Curves

ENDS = ("dict", {"start": "pt", "end": "pt", "startX": "num", "startY": "num", "endX": "num", "endY": "num", "order": "int"})


def ends(c):
    return {k: getattr(c, k) for k in ENDS[1]}


def drive(d):
    rec, g, r = d.rec, d.g, d.r
    C = Curves(d)
    # tables of all sizes
    for n in d.mine(range(2, 161)):
        for order in (1, 3) if n % 3 == 0 else (2,):
            C.new()
            if C.make(g.curve_pts(order, "unit")):
                C.ask(1, "getLUT", lambda c: c.getLUT(n), "seg", f".getLUT({n})", n=n)
    for _ in range(d.n(620)):
        C.new()
        order = g.many(1, 2, 2, 3, 3, 3, 4, 5, 6, 7, 8, cap=14)
        pts = g.container([g.maybe_list(p) for p in g.curve_pts(order, g.wide())])
        i = C.make(pts)
        if not i:
            continue
        C.ask(i, "ends", ends, ENDS, " ends")
        sizes = [g.steps() for _ in range(2)]
        tables = []
        for _ in range(r.choice((2, 4, 6))):
            x = r.random()
            if x < 0.45:
                t = g.t()
                C.ask(i, "get", lambda c: c.get(t), "pt", f".get({t})", t=E.num(t))
            elif x < 0.6:
                C.ask(i, "midpoint", lambda c: c.midpoint, "pt", ".midpoint")
            elif x < 0.92:
                n = r.choice(sizes)
                if n == 100 and r.random() < 0.5:
                    res = C.ask(i, "getLUT", lambda c: c.getLUT(), "seg", ".getLUT()", n=100)
                else:
                    res = C.ask(i, "getLUT", lambda c: c.getLUT(n), "seg", f".getLUT({n})", n=n)
                if res.ok:
                    tables.append((n, res.value))
            else:
                C.ask(i, "ends", ends, ENDS, " ends")
        if len(tables) > 1:      # a table received before is still that table
            n, table = r.choice(tables[:-1])
            C.ask(i, "getLUT", lambda c: table, "seg", f": table of {n} points received before, after asking for {[t[0] for t in tables]}", n=n)
        C.ask(i, "controlPoints", lambda c: c.controlPoints, "seg", ".controlPoints")
