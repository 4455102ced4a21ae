"""C25: matrices."""
import itertools
from fractions import Fraction
from vf import enc as E


def drive(d):
    rec, g, r = d.rec, d.g, d.r
    MI, CF = d.lib("MatrixInversion"), d.lib("CurveFitting")

    def invert(m, exact):
        rec.new()
        rec.call("invert", {"m": E.enc("matrix", m), "exact": exact}, lambda: MI.matrixInvert(m), "matrix", f"matrixInvert({m})", inputs=[m])

    def frac(m):
        return [[Fraction(x) for x in row] for row in m]

    def entry(kind):
        if kind == "tiny":
            return r.randint(-2, 2)
        if kind == "int":
            return r.randint(-20, 20)
        if kind == "frac":
            return Fraction(r.randint(-9, 9), r.randint(1, 9))
        if kind == "float":
            return r.uniform(-10, 10)
        if kind == "mixed":
            return r.choice((r.randint(-5, 5), r.uniform(-100, 100), 0))
        if kind == "scaled":
            return r.uniform(-1, 1) * 10.0 ** r.randint(-4, 4)
        return r.choice((0, 0, 0, 1, -1, 2))        # sparse

    def matrix(n, k, kind):
        return [[entry(kind) for _ in range(k)] for _ in range(n)]

    # every 2x2 matrix of small integers, exactly
    for e in d.mine(itertools.product((-2, -1, 0, 1, 2), repeat=4)):
        invert(frac([e[:2], e[2:]]), True)
    for e in d.mine(r.sample(list(itertools.product((-1, 0, 1), repeat=9)), 1200 if d.tier == "quick" else 19683)):
        invert(frac([e[:3], e[3:6], e[6:]]), True)
    for _ in range(d.n(900)):
        n = g.many(1, 2, 3, 3, 4, 4, 5, 6, cap=10)
        m = matrix(n, n, r.choice(("tiny", "int", "frac", "sparse")))
        x = r.random()
        if x < 0.25 and n > 1:          # singular: a row is a combination of others
            i, j = r.sample(range(n), 2)
            a, b = Fraction(r.randint(-3, 3), r.randint(1, 3)), r.randrange(n)
            m[i] = [a * y + (z if b not in (i, j) else 0) for y, z in zip(m[j], m[b])]
        elif x < 0.5:                   # zeros on the diagonal
            for i in range(n):
                if r.random() < 0.6:
                    m[i][i] = 0
        elif x < 0.6:
            r.shuffle(m)
            m = [[y if abs(i - j) <= 1 else 0 for j, y in enumerate(row)] for i, row in enumerate(m)]
        elif x < 0.7:                   # elements of very different size
            m = [[y * Fraction(10) ** r.choice((0, 0, 0, -5, -9, -13, -20, 12)) for y in row] for row in m]
        invert(frac(m), True)
    for _ in range(d.n(900)):
        n = r.choice((1, 2, 3, 3, 4, 5, 6))
        m = matrix(n, n, r.choice(("int", "float", "mixed", "scaled", "sparse", "tiny")))
        x = r.random()
        if x < 0.2 and n > 2:           # a pivot that is only a rounding error away from zero
            i, j = r.sample(range(n), 2)
            m[i] = [y * 1.1 for y in m[j]]
            m[i][r.randrange(n)] += r.choice((1, 3.5))
        elif x < 0.4:
            for i in range(n):
                if r.random() < 0.6:
                    m[i][i] = 0
        invert(m, False)
    for _ in range(d.n(160)):
        n, k = r.choice(((1, 2), (2, 1), (2, 3), (3, 2), (3, 4), (4, 3), (1, 5), (5, 2)))
        invert(frac(matrix(n, k, "int")) if r.random() < 0.5 else matrix(n, k, "int"), True)
    for _ in range(d.n(900)):
        rec.new()
        n, k, l = (g.many(1, 2, 3, 4, 5, cap=12) for _ in range(3))
        if r.random() < 0.2:
            k = l = n
        kind = r.choice(("tiny", "int", "frac", "float", "mixed", "sparse"))
        a, b = matrix(n, k, kind), matrix(k, l, kind)
        if r.random() < 0.2:
            a = [tuple(x) for x in a]
        exact = kind not in ("float", "mixed")
        if r.random() < 0.7:
            rec.call("multiply", {"m": E.enc("matrix", a), "n": E.enc("matrix", b), "exact": exact}, lambda: CF.multiply(a, b), "matrix",
                     f"multiply({a}, {b})", inputs=[a, b])
        else:
            rec.call("transpose", {"m": E.enc("matrix", a)}, lambda: CF.transpose(a), "matrix", f"transpose({a})", inputs=[a])
        if r.random() < 0.4:
            i, j = r.randrange(n), r.randrange(k)
            rec.call("rowcol", {"m": E.enc("matrix", a), "i": i + 1, "j": j + 1},
                     lambda: {"row": list(CF.row(a, i)), "col": list(CF.col(a, j))},
                     ("dict", {"row": ("list", "num"), "col": ("list", "num")}), f"row({a}, {i}), col({a}, {j})", inputs=[a])
        if r.random() < 0.2:
            p = [tuple(x[:2]) for x in matrix(n, 2, kind)]
            v = r.randrange(2)
            rec.call("pointColumn", {"p": E.enc("matrix", p), "v": v + 1}, lambda: CF.getPointValuesColumn(p, v), "matrix",
                     f"getPointValuesColumn({p}, {v})", inputs=[p])
