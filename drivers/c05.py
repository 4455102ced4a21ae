"""C05: measurements and classification of lines."""
import itertools
import math
from vf import enc as E


def slope_enc(v):
    if v == math.inf:
        return {"inf": True, "v": 0}
    return {"inf": False, "v": E.num(v)}


def drive(d):
    rec, g, r = d.rec, d.g, d.r
    PU = d.lib("PathUtilities")

    def ask(op, fn, seg, shape, src, arg=None, **more):
        isint = all(type(c) is int for p in seg for c in p)
        a = {"s": E.enc("seg", seg), "int": isint, **more}
        x = seg if arg is None else arg
        rec.call(op, a, lambda: fn(x), shape, src, inputs=[x])

    def measure(seg, cplx):
        rec.new()
        n = f"{seg}"
        ask("endPoints", PU.endPoints, seg, ("tuple", "num", "num", "num", "num"), f"endPoints({n})")
        ask("getDeltas", PU.getDeltas, seg, "pt", f"getDeltas({n})")
        ask("midpoint", PU.midpoint, seg, "pt", f"midpoint({n})")
        ask("kind", lambda s: (PU.isVerticalLine(s), PU.isHorizontalLine(s), PU.isDiagonalLine(s)), seg, ("tuple", "bool", "bool", "bool"),
            f"is(Vertical, Horizontal, Diagonal)Line({n})")
        ask("length", PU.length, seg, "num", f"length({n})")
        ask("slope", PU.slope, seg, slope_enc, f"slope({n})")
        ask("slopeAngle", PU.slopeAngle, seg, "num", f"slopeAngle({n})")
        ask("rawSlopeAngle", PU.rawSlopeAngle, seg, "num", f"rawSlopeAngle({n})")
        if cplx:
            cs = [complex(*p) if r.random() < 0.7 else p for p in seg]
            fs = [tuple(map(float, p)) for p in seg]
            ask("endPoints", PU.endPoints, fs, ("tuple", "num", "num", "num", "num"), f"endPoints({cs})", cs)
            ask("getDeltas", PU.getDeltas, fs, "pt", f"getDeltas({cs})", cs)
            ask("midpoint", PU.midpoint, fs, "pt", f"midpoint({cs})", cs)

    grid = list(itertools.product((-2, 0, 1), repeat=2))
    for seg in d.mine(itertools.product(grid, repeat=2)):
        measure(list(seg), False)
    for seg in d.mine(itertools.product([(0, 0), (1, 0), (0, 2)], repeat=3)):
        measure(list(seg), False)
    for _ in range(d.n(900)):
        n = r.choice((2, 2, 2, 2, 3, 4, 4, 5))
        kind = g.wide()
        seg = [g.maybe_list(g.point(kind)) for _ in range(n)]
        x = r.random()
        if x < 0.4:     # vertical, horizontal or almost
            i = r.randint(0, 1)
            p = list(seg[-1])
            p[i] = seg[0][i] + r.choice((0, 0, 0, 1e-7, -1e-3, 1, -1))
            seg[-1] = tuple(p)
        elif x < 0.5:
            k = g.coord(kind)
            seg[-1] = (seg[0][0] + k, seg[0][1] + r.choice((k, -k)))
        if all(abs(c) < 1e14 for p in seg for c in p):
            measure(g.container(seg), r.random() < 0.3)
    for _ in range(d.n(400)):
        rec.new()
        a, b = g.coord(), g.coord()
        if r.random() < 0.2:
            b = a
        ask("minMax", lambda s: PU.minMax(s[0][0], s[0][1]), [(a, b)], "pt", f"minMax({a}, {b})")
        u, n = g.coord(), r.choice((1000, 2048, 256, 1, 250, r.randint(1, 5000)))
        ask("toMicros", lambda s: PU.toMicros(u, n), [(0, 0)], "num", f"toMicros({u}, {n})", u=E.num(u), n=n)
