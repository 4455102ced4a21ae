"""C01: transform chains."""
from vf import enc as E


def matrix(d, T, exotic=True):
    r, g = d.r, d.g
    kind = r.choice(("ident", "scale", "translate", "shear", "mirror", "rot", "affine", "affine", "persp", "full", "int"))
    if not exotic and kind in ("persp", "full"):
        kind = "affine"
    c = lambda: r.choice((0, 1, -1, 2, 0.5, -1.5, 3, r.uniform(-2, 2), r.choice(g.unit)))
    o = lambda: g.coord()
    if kind == "ident":
        return [[1, 0, 0], [0, 1, 0], [0, 0, 1]]
    if kind == "scale":
        return T.scale(c(), c()).transform
    if kind == "translate":
        return T.translate((o(), o()), (o(), o())).transform
    if kind == "shear":
        return T.shear(c(), c()).transform
    if kind == "mirror":
        return T.mirror(r.random() < 0.5, r.random() < 0.5).transform
    if kind == "rot":
        return T.rotation(r.choice((90, 30, 45, -90, 180, r.uniform(-360, 360))), r.random() < 0.5).transform
    if kind == "affine":
        return [[c(), c(), 0], [c(), c(), 0], [o(), o(), 1]]
    if kind == "persp":
        return T.perspective(r.choice((0, 0.001, -0.002, 0.01)), r.choice((0, 0.001, 0.003)), r.choice((1, 1, 2, -1, 0.5))).transform
    if kind == "int":
        return [[r.randint(-3, 3) for _ in range(3)] for _ in range(3)]
    return [[c(), c(), r.uniform(-0.01, 0.01)], [c(), c(), r.uniform(-0.01, 0.01)], [o(), o(), r.choice((1, 1, 2, -3, 0.25))]]


def nested(d, depth):
    """A point (0), segment (1), contour (2) or list of contours (3)."""
    r, g = d.r, d.g
    if depth == 0:
        return g.maybe_list(g.point())
    n = r.choice((1, 2, 3, 4)) if depth == 1 else r.choice((0, 1, 1, 2, 3, r.choice(g.counts) if depth == 2 and r.random() < 0.2 else 2))
    xs = [nested(d, depth - 1) for _ in range(n)]
    if depth > 0 and xs and r.random() < (0.15 if depth > 1 else 0.08):      # the same object twice
        x = r.choice(xs)
        xs.append(x if r.random() < 0.7 else type(x)(x))
    return tuple(xs) if r.random() < 0.2 else xs


KINDS = [("applyPoint", "pt", 0), ("applySegment", "seg", 1), ("applyContour", "contour", 2), ("applyContours", "contours", 3)]
METHODS = {"applyPoint": "applyToPoint", "applySegment": "applyToSegment", "applyContour": "applyToContour", "applyContours": "applyToContours"}


def drive(d):
    rec, r = d.rec, d.r
    T = d.lib("Transform").Transform
    for _ in range(d.n(700)):
        rec.new()
        x = r.random()
        if x < 0.4:
            v, m = [r.choice((0, 1, -1, d.g.coord(), d.g.t())) for _ in range(3)], matrix(d, T)
            v = d.g.container(v)
            rec.call("row", {"v": E.seq(v, E.num), "m": E.enc("matrix", m)}, lambda: T.multiplyRowByMatrix(v, m), ("list", "num"), f"multiplyRowByMatrix({v}, {m})", inputs=[v, m])
        elif x < 0.7:
            n, m = matrix(d, T), [r.choice(matrix(d, T)) for _ in range(r.choice((1, 2, 3, 3, 3, 4)))]
            rec.call("product", {"m": E.enc("matrix", m), "n": E.enc("matrix", n)}, lambda: T.multiplyMatrixByMatrix(m, n), "matrix", f"multiplyMatrixByMatrix({m}, {n})", inputs=[m, n])
        else:
            ms = [matrix(d, T) for _ in range(r.choice((1, 2, 2, 3, 4, 6)))]
            rec.call("concatenate", {"ms": E.seq(ms, lambda m: E.enc("matrix", m))}, lambda: T.concatenateMatrices(*ms), "matrix", f"concatenateMatrices(*{ms})", inputs=ms)
    for _ in range(d.n(640, 20000)):
        rec.new()
        ts = []
        pool = [matrix(d, T) for _ in range(r.choice((1, 2, 3, 4)))]
        for _ in range(r.choice((1, 2, 3))):
            n = r.choice((1, 1, 2, 2, 3, 3, 4, 5, r.choice([c for c in d.g.counts if c < 13] or [7]) if r.random() < 0.1 else 2))
            ms = [r.choice(pool) for _ in range(n)]
            res = rec.call("make", {"ms": E.seq(ms, lambda m: E.enc("matrix", m))}, lambda: T(*ms), "any", f"Transform(*{ms})", inputs=ms)
            if not res.ok:
                break
            ts.append((res.value, ms))
        if not ts:
            continue
        for _ in range(r.choice((3, 5, 8))):
            i = r.randrange(len(ts))
            t, ms = ts[i]
            if r.random() < 0.15:
                rec.call("matrix", {"i": i + 1}, lambda: t.transform, "matrix", f"Transform(*{ms}).transform")
                continue
            op, shape, depth = r.choice(KINDS)
            x = nested(d, depth)
            m = METHODS[op]
            rec.call(op, {"i": i + 1, "x": E.enc(shape, x)}, lambda: getattr(t, m)(x), shape, f"Transform(*{ms}).{m}({x})", inputs=[x, ms])
