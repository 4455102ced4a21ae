"""Shared by the drivers of the Bezier class."""
import math
from vf import enc as E


class Curves:
    """The curves of a session."""

    def __init__(self, d):
        self.d = d
        self.rec = d.rec
        self.mod = d.lib("Bezier")
        self.Bezier = self.mod.Bezier
        self.cs = []
        self.src = []

    def new(self):
        self.rec.new()
        self.cs, self.src = [], []

    def make(self, pts):
        """Number of the new curve, 0 if it could not be made."""
        src = f"Bezier({pts})"
        res = self.rec.call("make", {"p": E.enc("seg", pts)}, lambda: self.Bezier(pts), "curve", src, inputs=[pts])
        if not res.ok:
            return 0
        return self.add(res.value, src)

    def add(self, curve, src):
        self.cs.append(curve)
        self.src.append(src)
        return len(self.cs)

    def ask(self, i, op, fn, shape, text, **args):
        c = self.cs[i - 1]
        extra = args.pop("extra", {})
        return self.rec.call(op, {"i": i, **args}, lambda: fn(c), shape, f"{self.src[i - 1]}{text}", inputs=[c.controlPoints], **extra)


def sample(pts, t):
    """A point of a Bezier curve, computed here."""
    while len(pts) > 1:
        pts = [(a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1])) for a, b in zip(pts, pts[1:])]
    return pts[0]


def hodograph(pts):
    n = len(pts) - 1
    return [(n * (b[0] - a[0]), n * (b[1] - a[1])) for a, b in zip(pts, pts[1:])]


def regular(pts, rel=0.05):
    """The speed is never small compared to its maximum."""
    h = hodograph(pts)
    v = [math.hypot(*sample(h, i / 64)) for i in range(65)]
    return min(v) > rel * max(v) > 0


def convex(pts, limit=120):
    """The control polygon turns one way, by less than limit degrees in all."""
    h = hodograph(pts)
    turns = []
    for a, b in zip(h, h[1:]):
        turns.append(math.degrees(math.atan2(a[0] * b[1] - a[1] * b[0], a[0] * b[0] + a[1] * b[1])))
    return all(math.hypot(*v) > 0 for v in h) and (all(t > 0.1 for t in turns) or all(t < -0.1 for t in turns)) and abs(sum(turns)) < limit


def box(pts):
    xs = [p[0] for p in pts]
    ys = [p[1] for p in pts]
    return min(xs), min(ys), max(xs), max(ys)


def halves(pts):
    """The control points of both halves of a curve."""
    left, right = [pts[0]], [pts[-1]]
    while len(pts) > 1:
        pts = [((a[0] + b[0]) / 2, (a[1] + b[1]) / 2) for a, b in zip(pts, pts[1:])]
        left.append(pts[0])
        right.append(pts[-1])
    return left, right[::-1]


def newton(p, q, s, t):
    """The crossing of two curves near parameters s and t, None if there is none."""
    hp, hq = hodograph(p), hodograph(q)
    for _ in range(12):
        a, b = sample(p, s), sample(q, t)
        u, v = sample(hp, s), sample(hq, t)
        det = u[0] * v[1] - u[1] * v[0]
        if det == 0:
            return None
        dx, dy = b[0] - a[0], b[1] - a[1]
        s += (dx * v[1] - dy * v[0]) / det
        t += (dx * u[1] - dy * u[0]) / det
        if not (-0.1 < s < 1.1 and -0.1 < t < 1.1):
            return None
    a, b = sample(p, s), sample(q, t)
    scale = max(abs(c) for x in p + q for c in x) + 1
    if 0 <= s <= 1 and 0 <= t <= 1 and math.hypot(a[0] - b[0], a[1] - b[1]) < 1e-10 * scale:
        return s, t
    return None


def crossings(p, q, same=False):
    """Parameters of the transversal crossings of two curves (or of one with itself), as far as they are found."""
    p = [(float(x), float(y)) for x, y in p]
    q = [(float(x), float(y)) for x, y in q]
    found = []
    work = [(p, 0.0, 1.0, q, 0.0, 1.0, 0)]
    n = 0
    while work and n < 20000:
        n += 1
        a, a0, a1, b, b0, b1, depth = work.pop()
        x, y = box(a), box(b)
        if x[2] < y[0] or y[2] < x[0] or x[3] < y[1] or y[3] < x[1]:
            continue
        if same and (b1 <= a0 or (a1 - a0 < 0.02 and b0 - a1 < 0.02)):
            continue
        if depth == 6:
            z = newton(p, q, (a0 + a1) / 2, (b0 + b1) / 2)
            if z and not (same and z[1] - z[0] < 0.03) and all(abs(z[0] - w[0]) > 1e-7 or abs(z[1] - w[1]) > 1e-7 for w in found):
                found.append(z)
            continue
        al, ar = halves(a)
        bl, br = halves(b)
        am, bm = (a0 + a1) / 2, (b0 + b1) / 2
        for c, c0, c1 in ((al, a0, am), (ar, am, a1)):
            for e, e0, e1 in ((bl, b0, bm), (br, bm, b1)):
                work.append((c, c0, c1, e, e0, e1, depth + 1))
    return sorted(found)


def turning(pts):
    """The angle by which the control polygon turns in all, in degrees."""
    h = hodograph(pts)
    return sum(abs(math.degrees(math.atan2(a[0] * b[1] - a[1] * b[0], a[0] * b[0] + a[1] * b[1]))) for a, b in zip(h, h[1:]))


def pieces_at(pts, pieces):
    """
    The parameters at which consecutive pieces of a curve begin and end, as close as can be
    found, from the control points of the pieces: [(t1, t2)].
    """
    pts = [(float(x), float(y)) for x, y in pts]
    h = hodograph(pts)
    out = []
    t1 = 0.0
    for k, piece in enumerate(pieces):
        piece = [(float(x), float(y)) for x, y in piece]
        best = (math.inf, t1)
        mid = sample(piece, 0.5)

        def err(t2):
            # end and middle of the piece
            e = sample(pts, t2)
            m = sample(pts, (t1 + t2) / 2)
            return math.hypot(e[0] - piece[-1][0], e[1] - piece[-1][1]) + math.hypot(m[0] - mid[0], m[1] - mid[1])

        N = 200
        cand = sorted(range(N + 1), key=lambda j: err(t1 + (1 - t1) * j / N))[:4]
        for j in cand:
            t = t1 + (1 - t1) * j / N
            for _ in range(12):       # Gauss-Newton on the end point
                e, v = sample(pts, t), sample(h, t)
                s = v[0] * v[0] + v[1] * v[1]
                if s == 0:
                    break
                t = min(1.0, max(t1, t - ((e[0] - piece[-1][0]) * v[0] + (e[1] - piece[-1][1]) * v[1]) / s))
            if err(t) < best[0]:
                best = (err(t), t)
        t2 = best[1]
        if k == len(pieces) - 1 and err(1.0) <= best[0] + 1e-9:
            t2 = 1.0
        out.append((t1, t2))
        t1 = t2
    return out
