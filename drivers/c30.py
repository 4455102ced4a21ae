"""C30: helpers of the geometry."""
import math
from fractions import Fraction
from vf import enc as E


def drive(d):
    rec, g, r = d.rec, d.g, d.r
    U = d.lib("BezierUtilities")
    Bezier = d.lib("Bezier").Bezier

    def number(kind):
        return Fraction(r.randint(-60, 60), r.randint(1, 9)) if kind == "fraction" else g.coord(kind)

    def coefficients():
        n = r.choice((2, 3, 3, 3))
        kind = r.choice(("fraction", None, g.wide(), g.wide(), "small", "small", "ends"))
        if kind == "ends":       # differences of font coordinates, many of them equal
            x = [r.choice((0, 0, 1, 100, -100, 300, 0.5, 1e-7)) for _ in range(n + 1)]
            return [n * (b - a) for a, b in zip(x, x[1:])]
        c = [number(kind) for _ in range(n)]
        x = r.random()
        if n == 3 and x < 0.12:          # linear, or almost
            c[1] = (c[0] + c[2]) / 2
        elif n == 3 and x < 0.24:        # roots known: lead (t - u) (t - v)
            u, v, k = (r.choice((0, 1, 0.5, 0.25, -1, 2, r.random(), r.uniform(-3, 4))) for _ in range(3))
            k = k or 1
            c = [k * u * v, k * (u * v - (u + v) / 2), k * (1 - u) * (1 - v)]
            if u == v and not all(float(8 * w).is_integer() for w in c):
                c[1] += 1
        elif x < 0.32:
            c[r.randrange(n)] = 0
        elif x < 0.38:
            c[-1] = c[-2]
        return c

    def roots(c, form):
        def run():
            v = U.quadraticRoots(*c) if form == "quadraticRoots" else U.droots(c)
            return [x for x in v if x == x]
        rec.call("roots", {"c": E.seq(c, E.num)}, run, ("list", "num"), f"{form}({c})", inputs=c)

    def lli():
        kind = r.choice(("int", "int", "unit", "small", "small", "fraction", "float", g.wide()))
        if kind == "huge":
            kind = "font"
        s, t = ([(number(kind), number(kind)) for _ in range(2)] for _ in range(2))
        if r.random() < 0.25:            # parallel, the same line, or a common point
            k = r.choice((1, 2, -1, 3))
            t[1] = tuple(a + k * (v - u) for a, u, v in zip(t[0], s[0], s[1]))
        elif r.random() < 0.2:
            t[r.randint(0, 1)] = s[r.randint(0, 1)]
        if r.random() < 0.2:
            i, j = r.randint(0, 1), r.randint(0, 1)
            p = list(s[1]); p[i] = s[0][i]; s[1] = tuple(p)
            p = list(t[1]); p[j] = t[0][j]; t[1] = tuple(p)
        if kind == "fraction":
            s, t = ([tuple(Fraction(v) for v in p) for p in q] for q in (s, t))
        exact = all(isinstance(v, (int, Fraction)) for p in s + t for v in p)
        frac = kind == "fraction"
        form = r.choice(("lli8", "lli4", "lli", "lli", "lines"))
        if form == "lines" and (not exact or frac or s[0] == s[1] or t[0] == t[1]):
            form = "lli"
        fn = {"lli8": lambda: U.lli8(*s[0], *s[1], *t[0], *t[1]), "lli4": lambda: U.lli4(s[0], s[1], t[0], t[1]), "lli": lambda: U.lli(s, t),
              "lines": lambda: Bezier(s).intersectWithLine(Bezier(t))}[form]
        rec.call("lli", {"s": E.enc("seg", s), "t": E.enc("seg", t), "exact": exact, "frac": frac}, fn, "pt", f"{form}({s}, {t})", inputs=[s, t])

    for _ in range(d.n(2400)):
        rec.new()
        c = coefficients()
        roots(c, "droots" if len(c) == 2 or r.random() < 0.6 else "quadraticRoots")
    for _ in range(d.n(1600)):
        rec.new()
        lli()
    N = E.num
    for _ in range(d.n(2400)):
        rec.new()
        x = r.random()
        if x < 0.2:
            t = r.choice((g.t(), r.uniform(-3, 3)))
            kind = g.wide()
            p, q = g.point(kind), g.point(kind)
            rec.call("lerp", {"t": N(t), "p": E.pt(p), "q": E.pt(q)}, lambda: U.lerp(t, p, q), "pt", f"lerp({t}, {p}, {q})", inputs=[p, q])
        elif x < 0.4:
            kind = r.choice(("unit", "font", "float", "t"))
            n = (lambda: r.choice((0, 1, g.t(), g.t()))) if kind == "t" else (lambda: g.coord(kind))
            v, ds, de, ts, te = (n() for _ in range(5))
            if ds == de or abs(de - ds) < 1e-6 * max(abs(ds), abs(de)):
                de = ds + 1
            rec.call("map", {"v": N(v), "ds": N(ds), "de": N(de), "ts": N(ts), "te": N(te)}, lambda: U.map(v, ds, de, ts, te), "num", f"map({v}, {ds}, {de}, {ts}, {te})")
        elif x < 0.6:
            kind = r.choice(("small", "small", "unit", "font", "float"))
            o, p, q = (g.point(kind) for _ in range(3))
            rec.call("angle", {"o": E.pt(o), "p": E.pt(p), "q": E.pt(q)}, lambda: U.angle(o, p, q), "num", f"angle({o}, {p}, {q})")
        elif x < 0.68:
            v = r.choice((g.coord(), g.coord(g.wide()), 0, 1, -1, 8, -27, r.uniform(-1, 1)))
            rec.call("crt", {"v": N(v)}, lambda: U.crt(v), "num", f"crt({v})")
        elif x < 0.74:
            v = r.choice((g.coord(), g.coord(g.wide()), 0, 1, 2, r.random()))
            if v >= 0:
                rec.call("sqrt", {"v": N(v)}, lambda: U.sqrt(v), "num", f"sqrt({v})")
            else:
                rec.call("noSqrt", {"v": N(v)}, lambda: math.isnan(U.sqrt(v)), "bool", f"isnan(sqrt({v}))")
        elif x < 0.82:
            a = r.choice((g.coord(), g.t()))
            e = r.choice((1e-6, 1e-6, 1e-4, 0.01, 3))
            b = a + r.choice((0, e, -e, e * 0.9, -e * 0.9, 1.1 * e, -1.1 * e, r.uniform(-2, 2) * e, 100))
            k = {} if e == 1e-6 else {"precision": e}
            exact = r.random() < 0.3       # nothing is rounded
            if exact:
                a, e = r.randint(-20, 20) / 4, r.choice((0, 1, 2, 0.25, 0.5))
                b = a + r.choice((0, e, -e, e / 2, e + 0.25, -e - 0.25))
                k = {"precision": e}
            rec.call("approximately", {"a": N(a), "b": N(b), "e": N(e), "exact": exact}, lambda: bool(U.approximately(a, b, **k)), "bool", f"approximately({a}, {b}, {k})")
        elif x < 0.9:
            kind = r.choice(("small", "unit", "float"))
            m, M = sorted((g.coord(kind), g.coord(kind)))
            v = r.choice((g.coord(kind), m, M, m - 1e-7, M + 1e-7, m - 1e-5, M + 1e-5, (m + M) / 2, m - 3e-6, M + 2e-6))
            rec.call("between", {"v": N(v), "m": N(m), "M": N(M)}, lambda: bool(U.between(v, m, M)), "bool", f"between({v}, {m}, {M})")
        elif x < 0.95:
            s = [r.choice((0, 1, 2, 0.5, 1.0, 0.0, r.random())) for _ in range(g.many(0, 1, 2, 3, 5, 8, prob=0.15))]
            rec.call("distinct", {"s": E.seq(s, N)}, lambda: U.removeDuplicates(s), ("list", "num"), f"removeDuplicates({s})", inputs=s)
        else:
            t, o = g.t(inside=True), r.choice((2, 3))
            rec.call("ratio", {"t": N(t), "order": o}, lambda: (U.quadraticRatio if o == 2 else U.cubicRatio)(t), "num", f"ratio of order {o} at {t}")
