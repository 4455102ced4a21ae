"""Shared by the drivers of the segment pen."""
import logging
from vf import enc as E

LOG = logging.getLogger("verif")
LOG.addHandler(logging.NullHandler())
LOG.propagate = False
LOG.setLevel(logging.CRITICAL)


class Writer:
    """Draws words of commands with points from a source."""

    def __init__(self, g, r):
        self.g, self.r = g, r

    def commands(self, word, kind):
        """[(command, points)] for the letters of module G_Pen."""
        g, r = self.g, self.r
        out = []
        start = cur = None
        pool, starts = [], []
        again = r.choice((0, 0.1, 0.4))

        def new():
            while True:
                p = g.reuse(g.point(kind), pool, again, True)
                if p != cur and p != start:
                    pool.append(p)
                    return p

        for l in word:
            if l in "mM":
                start = cur = r.choice(starts) if starts and r.random() < again else new()
                starts.append(start)
                out.append(("moveTo", [start]))
            elif l == "L":
                p = new()
                if r.random() < 0.35:        # a coordinate of a recent point
                    j = r.randint(0, 1)
                    q = list(p); q[j] = r.choice(pool[-5:])[j]
                    if tuple(q) not in (cur, start):
                        p = tuple(q)
                        pool.append(p)
                cur = p
                out.append(("lineTo", [cur]))
            elif l == "Z":
                out.append(("lineTo", [cur]))
            elif l == "S":
                cur = start
                out.append(("lineTo", [cur]))
            elif l in "CD":
                p, q = new(), new()
                e = new() if l == "C" else start
                if r.random() < 0.1: p = cur
                if r.random() < 0.1: q = e
                cur = e
                out.append(("curveTo", [p, q, cur]))
            elif l in "PQRT":
                k = {"P": 1, "Q": 2, "R": 3, "T": 2}[l]
                if l == "R" and r.random() < 0.3:
                    k = g.many(4, 5, 6, 7, 8, 9, 10, 11, 12)
                off = [new() for _ in range(k)]
                cur = start if l == "T" else new()
                out.append(("qCurveTo", off + [cur]))
            elif l == "N":
                out.append(("qClosed", [new() for _ in range(g.many(2, 3, 3, 4, 5, 8))]))
            elif l == "x":
                out.append(("closePath", []))
            else:
                raise AssertionError(l)
        return out

    def word(self, nested=False):
        """A random drawing."""
        r = self.r
        w = []
        for _ in range(self.g.many(1, 1, 2, 2, 3, cap=14, prob=0.03)):
            if r.random() < 0.15:
                w += ["N", "x"]
                continue
            w.append("m")
            for _ in range(self.g.many(0, 1, 2, 3, 4, 6, cap=24)):
                w.append(r.choice("LLLZCCDPQQRST"))
            if r.random() < 0.3:
                w.append("S")
            w.append("x")
            if r.random() < 0.15:
                w.append("x")            # there is nothing to close
        return w


def apply(pen, cmd, pts):
    if cmd == "qClosed":
        pen.qCurveTo(*pts, None)
    elif cmd == "closePath":
        pen.closePath()
    else:
        getattr(pen, cmd)(*pts)


def text(cmd, pts):
    if cmd == "qClosed":
        return f"qCurveTo({', '.join(map(str, pts))}, None)"
    return f"{cmd}({', '.join(map(str, pts))})"
