"""C17: intersections of curves."""
import math
from vf import enc as E
from drivers.curves import Curves, crossings, pieces_at, regular, sample, hodograph, box


def drive(d):
    rec, g, r = d.rec, d.g, d.r
    C = Curves(d)
    PAIRS = ("list", ("tuple", "num", "num"))

    def transversal(p, q, z):
        u, v = sample(hodograph(p), z[0]), sample(hodograph(q), z[1])
        return abs(u[0] * v[1] - u[1] * v[0]) > 0.05 * math.hypot(*u) * math.hypot(*v)

    def intersects(i, j, thr):
        p, q = (list(C.cs[k - 1].controlPoints) for k in (i, j))
        x = crossings(p, q)
        c2 = C.cs[j - 1]
        inputs = [p, q]
        text = f".intersects({C.src[j - 1]}" + (")" if thr is None else f", {thr})")
        C.ask(i, "intersects", (lambda c: c.intersects(c2)) if thr is None else (lambda c: c.intersects(c2, thr)), PAIRS, text,
              j=j, thr=E.num(0.5 if thr is None else thr), extra={"x": [[E.num(s), E.num(t)] for s, t in x], "timeout": 20})

    def self_intersects(i, thr):
        c = C.cs[i - 1]
        p = list(c.controlPoints)
        x = crossings(p, p, True)
        red = rec.run(lambda: C.Bezier(p).reduce(), ("list", "curve"))
        cuts = [a for a, b in pieces_at(p, [z.controlPoints for z in red.value])] if red.ok else [0.0]
        if thr == 0.5 and r.random() < 0.5:
            fn, text = r.choice((((lambda c: c.selfIntersects()), ".selfIntersects()"), ((lambda c: c.intersects(None)), ".intersects(None)")))
        elif r.random() < 0.5:
            fn, text = (lambda c: c.intersects(None, thr)), f".intersects(None, {thr})"
        else:
            fn, text = (lambda c: c.selfIntersects(thr)), f".selfIntersects({thr})"
        C.ask(i, "selfIntersects", fn, PAIRS, text, thr=E.num(thr),
              extra={"x": [[E.num(s), E.num(t)] for s, t in x], "cuts": [E.num(t) for t in cuts] if red.ok else [0], "timeout": 20})

    def shape():
        x = r.random()
        if x > 0.9:
            return cusp()
        if x < 0.5:
            return g.gentle(r.choice((1, 2, 3, 3)), 30, 200) if x < 0.4 else g.gentle(3, 5, 40)
        while True:
            pts = [(r.uniform(-200, 200), r.uniform(-200, 200)) for _ in range(r.choice((2, 3, 4, 4)))]
            if r.random() < 0.4:
                pts = [(round(a), round(b)) for a, b in pts]
            if len(pts) == 2 or regular(pts, 0.1):
                return pts

    def slow_enough(pts, z, k):
        """No crossing where the curve (all but) stops."""
        h = hodograph([(float(a), float(b)) for a, b in pts])
        m = max(math.hypot(*v) for v in h)
        return all(math.hypot(*sample(h, w[k])) > 0.1 * m for w in z)

    def move_to(p, q):
        """Move q so that it meets p."""
        a, b = sample([tuple(map(float, x)) for x in p], r.uniform(0.05, 0.95)), sample([tuple(map(float, x)) for x in q], r.uniform(0.05, 0.95))
        return [(x + a[0] - b[0], y + a[1] - b[1]) for x, y in q]

    def piece(pts):
        """A curve with (all but) these control points, as a piece of a longer one."""
        k = r.choice((0.25, 0.5))
        f = [(float(a), float(b)) for a, b in pts]
        # extend the curve backwards: its part after t = s is the given one
        s, ext = -k / (1 - k), None
        levels = [f]
        while len(levels[-1]) > 1:
            levels.append([(a[0] + s * (b[0] - a[0]), a[1] + s * (b[1] - a[1])) for a, b in zip(levels[-1], levels[-1][1:])])
        ext = [lv[-1] for lv in levels][::-1]
        c = C.Bezier(ext).split(k)[1]
        cp = [tuple(p) for p in c.controlPoints]
        res = rec.call("make", {"p": E.enc("seg", cp)}, lambda: c, "curve", f"Bezier({ext}).split({k})[1]")
        return C.add(c, f"Bezier({ext}).split({k})[1]") if res.ok else 0

    def cusp():
        """A curve that can hardly be reduced."""
        while True:
            k = r.uniform(30, 200)
            e = r.uniform(-0.03, 0.03)
            pts = rotate([(0, 0), (k * (1 + e), k), (0, k * (1 + e)), (k, 0)], r.uniform(0, 6.3))
            return pts

    def rotate(p, a):
        return [(x * math.cos(a) - y * math.sin(a), x * math.sin(a) + y * math.cos(a)) for x, y in p]

    for _ in range(d.n(520, 6000)):
        C.new()
        p = shape()
        q = rotate(shape(), r.uniform(0, 6.3)) if r.random() < 0.6 else shape()
        q = move_to(p, q) if r.random() < 0.9 else q
        if r.random() < 0.2:
            q = [(round(a), round(b)) for a, b in q]
            if len(q) > 2 and not regular(q, 0.05) or q[0] == q[-1]:
                continue
        z = crossings(p, q)
        if not (slow_enough(p, z, 0) and slow_enough(q, z, 1)):
            continue
        if any(not transversal(p, q, w) for w in z):
            continue          # (all but) tangential curves take very long
        i, j = (piece(p) if r.random() < 0.15 else C.make(p)), (piece(q) if r.random() < 0.15 else C.make(q))
        if not (i and j):
            continue
        thr = r.choice((None, 0.5, 0.5, 1, 2, 0.1, 5, 0.25))
        intersects(i, j, thr)
        x = r.random()
        if x < 0.2:
            intersects(j, i, thr)
        elif x < 0.3:
            intersects(i, j, r.choice((0.5, 3)))
    # loops
    n = 0
    while n < d.n(140, 1500):
        k = r.uniform(20, 300)
        a, b = (r.uniform(-100, 100), r.uniform(-100, 100)), r.uniform(0, 6.3)
        pts = [(0, 0), (k * r.uniform(1.2, 3), k * r.uniform(0.5, 2)), (-k * r.uniform(0.3, 2), k * r.uniform(0.5, 2)), (k, r.uniform(-0.3, 0.3) * k)]
        pts = [(x + a[0], y + a[1]) for x, y in rotate(pts, b)]
        if not regular(pts, 0.05):
            continue
        n += 1
        C.new()
        i = C.make(pts)
        if i:
            self_intersects(i, r.choice((0.5, 1, 0.25, 3)))
