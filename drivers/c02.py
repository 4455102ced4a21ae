"""C02: named transforms and the rotation helpers."""
import itertools
from vf import enc as E


def angle(d):
    r = d.r
    return r.choice((90, 90, 180, 270, 360, -90, -180, 45, 30, 60, 120, 0, 450, 720, -720, 540, 1, -37, r.randint(-720, 720),
                     r.uniform(-360, 360), r.uniform(-1, 1), r.choice(d.g.ints) % 1000, r.choice(d.g.floats) % 1000,
                     r.choice((1, -1)) * r.randint(720, 10000), r.randint(-100, 100) * r.choice((90, 30, 45)), r.uniform(-10000, 10000)))


def drive(d):
    rec, g, r = d.rec, d.g, d.r
    T = d.lib("Transform").Transform
    PU = d.lib("PathUtilities")

    def point():
        return g.maybe_list(g.point("int") if r.random() < 0.5 else g.point())

    def factor():
        return r.choice((0, 1, -1, 2, 3, 0.5, -0.25, r.uniform(-3, 3), r.choice(g.unit)))

    def isint(*vs):
        return all(isinstance(v, int) or float(v).is_integer() for v in vs)

    def named(f, make, fields, nums, pts, src):
        if not d.rec.fresh:
            rec.new()
        a = dict(fields)
        a["f"] = f
        a["int"] = isint(*nums)
        a["mag"] = E.num(max([abs(v) for v in nums] + [1]))
        a["pts"] = E.seq(pts, E.pt)

        def run():
            t = make()
            return [t.applyToPoint(p) for p in pts]

        rec.call("named", a, run, "seg", f"{src} applied to {pts}", inputs=pts)

    def one(f):
        p1, p2, c, deg, ccw = point(), point(), point(), angle(d), r.random() < 0.5
        pts = [point() for _ in range(2)] + [(0, 0)] + ([c] if r.random() < 0.3 else [])
        if r.random() < 0.3:
            pts = [(x % 11 - 5, y % 7 - 3) for x, y in pts]
        b1, b2 = r.random() < 0.5, r.random() < 0.5
        if f == "translate":
            named(f, lambda: T.translate(p1, p2), {"from": E.pt(p1), "to": E.pt(p2)}, [*p1, *p2], pts, f"translate({p1}, {p2})")
        elif f in ("scale", "shear"):
            sx, sy = factor(), factor()
            x = r.random()
            dflt = 1 if f == "scale" else 0
            if x < 0.1:
                sy, k = dflt, {"sx": sx}
            elif x < 0.2:
                sx, k = dflt, {"sy": sy}
            elif x < 0.25:
                sx, sy, k = dflt, dflt, {}
            else:
                k = {"sx": sx, "sy": sy}
            big = max([1] + [abs(v) for p in pts for v in p])
            named(f, lambda: getattr(T, f)(**k), {"sx": E.num(sx), "sy": E.num(sy)}, [sx, sy, max(1, abs(sx), abs(sy)) * big if isint(sx, sy, big) else 0.5 + big * 4], pts, f"{f}({k})")
        elif f == "mirror":
            k = {"xAxis": b1, "yAxis": b2} if r.random() < 0.7 else r.choice(({"xAxis": b1}, {"yAxis": b2}, {}))
            named(f, lambda: T.mirror(**k), {"xAxis": k.get("xAxis", False), "yAxis": k.get("yAxis", False)}, [], pts, f"mirror({k})")
        elif f == "mirrorAround":
            k = {"xAxis": b1, "yAxis": b2} if r.random() < 0.7 else r.choice(({"xAxis": b1}, {"yAxis": b2}, {}))
            named(f, lambda: T.mirrorAround(c, **k), {"c": E.pt(c), "xAxis": k.get("xAxis", False), "yAxis": k.get("yAxis", False)}, [*c], pts, f"mirrorAround({c}, {k})")
        elif f == "rotation":
            k = r.choice(({"degrees": deg, "ccw": ccw}, {"degrees": deg, "ccw": ccw}, {"degrees": deg}, {"ccw": ccw}, {}))
            named(f, lambda: T.rotation(**k), {"d": E.num(k.get("degrees", 90)), "ccw": k.get("ccw", True)}, [], pts, f"rotation({k})")
        elif f == "rotationAbout":
            k = r.choice(({"degrees": deg, "ccw": ccw}, {"degrees": deg, "ccw": ccw}, {"degrees": deg}, {"ccw": ccw}, {}))
            named(f, lambda: T.rotationAbout(c, **k), {"c": E.pt(c), "d": E.num(k.get("degrees", 90)), "ccw": k.get("ccw", True)}, [*c], pts, f"rotationAbout({c}, {k})")
        elif f in ("moveAndRotate", "rotateAndMove"):
            named(f, lambda: getattr(T, f)(p1, p2, deg), {"from": E.pt(p1), "to": E.pt(p2), "d": E.num(deg)}, [*p1, *p2], pts, f"{f}({p1}, {p2}, {deg})")
        elif f in ("perspective", "perspectiveFrom"):
            p, q = (r.choice((0, 0.001, -0.002, 0.01, 0.5, 1, r.uniform(-0.01, 0.01))) for _ in range(2))
            s = r.choice((1, 1, 2, 0.5, -1, 3.25))
            if f == "perspective":
                k = r.choice(({"p": p, "q": q, "s": s}, {"p": p, "q": q}, {"q": q}, {"p": p}))
                named(f, lambda: T.perspective(**k), {"p": E.num(k.get("p", 0)), "q": E.num(k.get("q", 0)), "s": E.num(k.get("s", 1))}, [s], pts, f"perspective({k})")
            else:
                k = r.choice(({"p": p, "q": q}, {"p": p, "q": q}, {"q": q}, {"p": p}))
                named(f, lambda: T.perspectiveFrom(c, **k), {"c": E.pt(c), "p": E.num(k.get("p", 0)), "q": E.num(k.get("q", 0))}, [*c], pts, f"perspectiveFrom({c}, {k})")

    def helper():
        rec.new()
        c, deg, ccw = point(), angle(d), r.random() < 0.5
        k = r.choice(({"degrees": deg, "ccw": ccw}, {"degrees": deg, "ccw": ccw}, {"degrees": deg}, {"ccw": ccw}, {}))
        a = {"f": "rotationAbout", "c": E.pt(c), "d": E.num(k.get("degrees", 90)), "ccw": k.get("ccw", True), "int": isint(*c),
             "mag": E.num(max(abs(c[0]), abs(c[1]), 1))}
        depth = r.randint(0, 3)
        if depth == 0:
            x = point()
            cs, f = [[[x]]], (lambda: [[[PU.rotatePointAbout(x, c, **k)]]])
        elif depth == 1:
            x = [point() for _ in range(r.randint(1, 4))]
            cs, f = [[x]], (lambda: [[PU.rotateSegmentAbout(x, c, **k)]])
        elif depth == 2:
            x = [[point() for _ in range(r.randint(1, 4))] for _ in range(r.randint(0, 3))]
            cs, f = [x], (lambda: [PU.rotateContourAbout(x, c, **k)])
        else:
            x = cs = [[[point() for _ in range(r.randint(1, 4))] for _ in range(r.randint(0, 3))] for _ in range(r.randint(0, 3))]
            f = lambda: PU.rotateContoursAbout(x, c, **k)
        a["cs"] = E.enc("contours", cs)
        rec.call("helper", a, f, "contours", f"rotate(depth {depth}) {x} about {c} {k}", inputs=[x, c])

    for i in d.mine(range(600 if d.tier == "quick" else 6000)):
        if not rec.fresh:
            rec.new()
        deg = angle(d) if i % 2 else 90 * r.randint(-8, 8) + r.choice((0, 0, 0.0, 1e-9, 1e-6, 30, 45, -0.5))
        f = r.choice(("sin", "cos"))
        rec.call(f, {"d": E.num(deg)}, lambda: getattr(T, f)(deg), "num", f"Transform.{f}({deg})")
    # all quarter turns about small integer points
    for deg, ccw, c, p in d.mine(itertools.product(range(-720, 721, 90), (True, False), ((0, 0), (3, -2)), ((1, 0), (-2, 5)))):
        rec.new()
        named("rotationAbout", lambda: T.rotationAbout(c, deg, ccw), {"c": E.pt(c), "d": E.num(deg), "ccw": ccw}, [*c], [p], f"rotationAbout({c}, {deg}, {ccw})")
    fs = ["translate", "scale", "shear", "mirror", "mirrorAround", "rotation", "rotation", "rotationAbout", "rotationAbout", "moveAndRotate",
          "rotateAndMove", "perspective", "perspectiveFrom"]
    for i in range(d.n(7000)):
        one(fs[i % len(fs)])
        if i % 8 == 0:
            helper()
