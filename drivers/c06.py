"""C06: intersections of lines with integer coordinates, and points on them."""
import itertools
import math
from vf import enc as E


def drive(d):
    rec, g, r = d.rec, d.g, d.r
    PU = d.lib("PathUtilities")

    def inter(s, t):
        rec.call("intersectionPoint", {"s": E.enc("seg", s), "t": E.enc("seg", t)}, lambda: PU.intersectionPoint(s, t), "pt",
                 f"intersectionPoint({s}, {t})", inputs=[s, t])

    def on(p, s):
        rec.call("pointOnLine", {"s": E.enc("seg", s), "p": E.pt(p)}, lambda: PU.pointOnLine(p, s), "bool", f"pointOnLine({p}, {s})", inputs=[p, s])

    # all segments of a small grid
    k = 3 if d.tier == "quick" else 4
    grid = list(itertools.product(range(k), repeat=2))
    segs = [(p, q) for p in grid for q in grid if p != q]
    for s, t in d.mine(itertools.product(segs, repeat=2)):
        rec.new()
        inter(s, t)
    for p, s in d.mine(itertools.product(itertools.product(range(-1, k + 1), repeat=2), segs)):
        rec.new()
        on(p, s)

    def point(m):
        return (r.randint(-m, m), r.randint(-m, m))

    def through(p, m):
        """A segment with integer ends through (or, at times, ending at or short of) p."""
        while True:
            a, b = r.randint(-9, 9), r.randint(-9, 9)
            if math.gcd(a, b) == 1:
                break
        i, j = r.choice((0, 0, -1, -2, 1, -r.randint(0, m), r.randint(0, m))), r.choice((0, 1, 2, 3, r.randint(0, m)))
        s = [(p[0] + i * a, p[1] + i * b), (p[0] + j * a, p[1] + j * b)]
        return s if s[0] != s[1] and all(abs(c) <= 100000 for q in s for c in q) else through(p, m)

    def narrow(p, m):
        """Two segments through p, or from it, in directions that differ very little."""
        while True:
            a, b = r.randint(1, m), r.randint(1, m)
            if math.gcd(a, b) == 1 and b > 1:
                break
        v = pow(a, -1, b)              # a * v - b * u = 1
        u = (a * v - 1) // b
        k = r.choice((0, 0, 0, 1))
        u, v = u + k * a, v + k * b
        e = [r.choice((1, -1)) for _ in range(4)]
        a, b, u, v = (e[0] * c if i % 2 == 0 else e[1] * c for i, c in enumerate((a, b, u, v)))
        i, j = (r.choice((0, 0, -1)) for _ in range(2))
        s, t = ([(p[0] + n * x, p[1] + n * y), (p[0] + q * x, p[1] + q * y)] for n, q, x, y in ((i, e[2], a, b), (j, e[3], u, v)))
        return s, t

    for _ in range(d.n(2400)):
        rec.new()
        m = r.choice((5, 20, 1000, 1000, 30000, 100000))
        x = r.random()
        p = point(m)
        if x < 0.35:       # a lattice point on the lines, often an end
            s, t = through(p, m // 10 + 2), through(p, m // 10 + 2)
        elif x < 0.45:     # parallel or collinear
            s = through(p, m // 10 + 2)
            dx, dy = s[1][0] - s[0][0], s[1][1] - s[0][1]
            o = r.choice(((0, 0), (1, 0), (0, -1), (dx, dy), point(9)))
            t = [(q[0] + o[0], q[1] + o[1]) for q in s]
        elif x < 0.52:
            s, t = narrow(p, r.choice((10, 100, m)))
        elif x < 0.65:     # horizontal or vertical
            s = [p, (p[0] + r.randint(1, m), p[1])]
            t = [point(m), point(m)] if r.random() < 0.4 else [(c, r.randint(-m, m)) for c in [r.randint(-m, m)] * 2]
            if r.random() < 0.5:
                s, t = [q[::-1] for q in s], [q[::-1] for q in t]
        else:
            s, t = [point(m), point(m)], [point(m), point(m)]
        if s[0] == s[1] or t[0] == t[1] or any(abs(c) > 100000 for q in s + t for c in q):
            continue
        s, t = g.container([g.maybe_list(q) for q in s]), g.container(t)
        inter(s, t)
        inter(t, s)
        inter(s[::-1], t)
        inter(s, t[::-1])
        n = math.gcd(s[1][0] - s[0][0], s[1][1] - s[0][1])
        i = r.choice((0, n, n // 2, -1, n + 1))
        q = (s[0][0] + i * (s[1][0] - s[0][0]) // n, s[0][1] + i * (s[1][1] - s[0][1]) // n)
        on(q, s)
        on((q[0] + r.choice((0, 0, 1, -1)), q[1] + r.choice((0, 1, -1))), s)
        on(g.maybe_list(r.choice(t)), s)
        on(s[0], s)
