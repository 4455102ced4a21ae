"""Shared by the drivers of contours."""
import heapq
import itertools
import math
from vf import enc as E, svg
from drivers.curves import sample, hodograph, halves

CLOSEST = ("dict", {"dist": "num", "p": "pt"})


def curves(bc):
    """The curves of a BContour in all the ways to get them."""
    it = [b.controlPoints for b in bc]
    bz = [b.controlPoints for b in bc.beziers]
    ix = [bc[i].controlPoints for i in range(len(it))]
    ng = [bc[-i].controlPoints for i in range(len(it), 0, -1)]
    return [it, bz, ix, ng]


CURVES = ("list", "contour")


def closest(bc, q, n):
    r = bc.findClosestPoint(q, n)
    return {"dist": r[0], "p": r[1]}


def locate(cs, p):
    """The curve and the parameter at which p lies, as close as can be found; curves are counted from 1."""
    curves = [[(float(x), float(y)) for x, y in pts] for pts in cs]
    px, py = float(p[0]), float(p[1])
    n = itertools.count()

    def box(c):
        """The distance of p from the box of the control points."""
        xs = [q[0] for q in c]
        ys = [q[1] for q in c]
        return math.hypot(max(min(xs) - px, 0, px - max(xs)), max(min(ys) - py, 0, py - max(ys)))

    # branch and bound: the part whose box is nearest is divided next
    work = [(box(c), next(n), k, c, 0.0, 1.0) for k, c in enumerate(curves)]
    heapq.heapify(work)
    best = (math.inf, 0, 0.0)
    starts = []
    scale = max(abs(v) for c in curves for q in c for v in q) + abs(px) + abs(py)
    while work and next(n) < 8000:
        low, _, k, c, a, b = heapq.heappop(work)
        if low > best[0] or best[0] - low < 1e-14 * scale:
            break
        for q, t in ((c[0], a), (c[-1], b)):
            dist = math.hypot(q[0] - px, q[1] - py)
            if dist < best[0]:
                best = (dist, k, t)
        if b - a < 1e-7:
            starts.append((k, (a + b) / 2))
            if len(starts) > 40:
                break
            continue
        for half, u, v in zip(halves(c), (a, (a + b) / 2), ((a + b) / 2, b)):
            heapq.heappush(work, (box(half), next(n), k, half, u, v))
    for k, t in [(best[1], best[2])] + starts:
        c = curves[k]
        h = hodograph(c)
        f = lambda s: math.hypot(*(u - v for u, v in zip(sample(c, s), (px, py))))
        for _ in range(6):
            x, y = sample(c, t)
            vx, vy = sample(h, t)
            s = vx * vx + vy * vy
            if s == 0:
                break
            nt = min(1.0, max(0.0, t - ((x - px) * vx + (y - py) * vy) / s))
            if f(nt) >= f(t):
                break
            t = nt
        if f(t) < best[0]:
            best = (f(t), k, t)
    return {"c": best[1] + 1, "t": E.num(best[2])}


def query_point(d, cs):
    """A point near, on or away from the contour."""
    g, r = d.g, d.r
    x = r.random()
    pts = r.choice(cs)
    if x < 0.2:
        return r.choice(cs)[r.choice((0, -1))]
    p = sample([(float(a), float(b)) for a, b in pts], r.random())
    if x < 0.3:
        return p
    if x < 0.42:        # near a joint, beside one of the curves that meet there
        t = r.choice((0, 1)) + r.uniform(-0.2, 0.2)
        p = sample([(float(a), float(b)) for a, b in (r.choice((cs[0], cs[-1], pts)))], min(1, max(0, t)))
        s = max(abs(v - w) for a in pts for v, w in zip(a, pts[0])) or 1
        return (p[0] + r.uniform(-0.05, 0.05) * s, p[1] + r.uniform(-0.05, 0.05) * s)
    xs = [q[0] for c in cs for q in c]
    ys = [q[1] for c in cs for q in c]
    s = max(max(xs) - min(xs), max(ys) - min(ys), 1e-3)
    if x < 0.8:
        return (p[0] + r.uniform(-0.2, 0.2) * s, p[1] + r.uniform(-0.2, 0.2) * s)
    return (min(xs) + r.uniform(-0.5, 1.5) * s, min(ys) + r.uniform(-0.5, 1.5) * s)
