"""C31: least squares fits."""
import math
from vf import enc as E

COLS = lambda v: [E.enc("matrix", v[0]), E.enc("matrix", v[1])]
MATS = lambda v: [E.enc("matrix", v[0]), E.enc("matrix", v[1])]


def drive(d):
    rec, g, r = d.rec, d.g, d.r
    CF = d.lib("CurveFitting")

    def times(n):
        """n increasing numbers from 0 to 1, or almost, well apart."""
        kind = r.choice(("even", "random", "random", "library"))
        if kind == "even":
            return [i / (n - 1) for i in range(n)]
        gaps = [r.uniform(1, 4) for _ in range(n - 1)]
        s = [0]
        for x in gaps:
            s.append(s[-1] + x / sum(gaps))
        if kind == "random" and r.random() < 0.3:      # not all of the curve
            lo, hi = r.uniform(0, 0.1), r.uniform(0.9, 1)
            s = [lo + x * (hi - lo) for x in s]
        else:
            s[-1] = 1
        return s

    for _ in range(d.n(1300)):
        rec.new()
        for _ in range(r.choice((1, 2, 3))):
            x = r.random()
            n = r.choice((2, 3, 4, 5, 6, 8, 10, 13))
            k = r.randint(2, min(n, 5))
            if x < 0.2:
                s = times(n)
                if r.random() < 0.3:
                    s = [r.uniform(-2, 2) for _ in range(n)]
                if r.random() < 0.3:
                    rec.call("formTMatrix", {"s": E.seq(s, E.num), "k": n}, lambda: CF.formTMatrix(s), MATS, f"formTMatrix({s})", inputs=[s])
                else:
                    k = r.randint(1, 9)
                    rec.call("formTMatrix", {"s": E.seq(s, E.num), "k": k}, lambda: CF.formTMatrix(s, k), MATS, f"formTMatrix({s}, {k})", inputs=[s])
                continue
            kind = g.wide()
            p = [g.point(kind) for _ in range(n)]
            if r.random() < 0.2:
                p = g.container(p)
            s = times(n)
            form = r.choice(("n", "n", "basis"))
            if n == k and r.random() < 0.5:
                form = "default"
            m = CF.basisMatrix(k)
            if form == "default":
                fn, text = lambda: CF.bestFit(p, m, s), f"bestFit({p}, basisMatrix({k}), {s})"
            else:
                fn, text = lambda: CF.bestFit(p, m, s, k), f"bestFit({p}, basisMatrix({k}), {s}, {k})"
            rec.call("bestFit", {"p": E.enc("seg", p), "s": E.seq(s, E.num), "k": k}, fn, COLS, text, inputs=[p, m, s])
