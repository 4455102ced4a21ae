"""C15: lengths."""
import decimal
import math
from vf import enc as E
from drivers.curves import Curves, regular


def drive(d):
    rec, g, r = d.rec, d.g, d.r
    C = Curves(d)

    def length(i, **kw):
        """Ask for the length; prec is 1 if the precision stayed what it was, 2 if not."""
        ctx = decimal.getcontext()
        ctx.prec = p = r.choice((28, 28, 28, 20, 50))
        c = C.cs[i - 1]
        res = rec.run(lambda: c.length, "num")
        rec.emit("length", {"i": i}, res, f"{C.src[i - 1]}.length", prec=1 if ctx.prec == p else 2)
        ctx.prec = 28
        return res.ok

    for _ in range(d.n(450)):
        C.new()
        x = r.random()
        if x < 0.25:
            pts = g.curve_pts(1)
        elif x < 0.4:      # straight curves
            a, b = g.point("unit"), g.point("unit")
            n = r.choice((2, 3))
            if r.random() < 0.6:
                ks = sorted(r.randint(0, 8) for _ in range(n - 1)) + [8]
            else:          # and back
                ks = [r.randint(-6, 14) for _ in range(n - 1)] + [r.choice((8, 8, 0, 1, 3))]
            if r.random() < 0.15:      # all in one point
                b = a
            pts = [a] + [(a[0] + k * (b[0] - a[0]) / 8, a[1] + k * (b[1] - a[1]) / 8) for k in ks]
        else:
            while True:
                pts = g.curve_pts(r.choice((2, 3)))
                if regular(pts):
                    break
        if C.make(pts):
            length(1)
            length(1)
            if r.random() < 0.5:
                C.ask(1, "lengthBack", lambda c: [c.length, C.Bezier(list(reversed(pts))).length], ("tuple", "num", "num"), ".length, reversed")
            if r.random() < 0.5:
                t = g.t(inside=True)

                def parts(c):
                    a, b = c.split(t)[:2]
                    return [c.length, a.length, b.length]

                C.ask(1, "lengthSplit", parts, ("tuple", "num", "num", "num"), f": lengths of the curve and the parts of .split({t})")
            if r.random() < 0.3:
                t = r.choice((0.5, 0.25, 0.9, r.uniform(0.05, 0.95)))
                for k, q in enumerate(C.cs[0].split(t)[:2]):      # the parts are curves of their own
                    src = f"{C.src[0]}.split({t})[{k}]"
                    if rec.call("make", {"p": E.enc("seg", q.controlPoints)}, lambda: q, "curve", src).ok:
                        C.add(q, src)
                        length(len(C.cs))
    for _ in range(d.n(240)):    # curves whose speed is a polynomial
        C.new()
        k = r.choice((1, 0.5, 0.25, 3))
        w0, w1 = (r.randint(-9, 9) * k, r.randint(-9, 9) * k), (r.randint(-9, 9) * k, r.randint(-9, 9) * k)
        a, b = complex(*w0), complex(*w1)
        if a == 0 or b == 0:
            continue
        z = [complex(*g.point("unit"))]
        for h in (a * a, a * b, b * b):
            z.append(z[-1] + h / 3)
        pts = [(p.real, p.imag) for p in z]
        if pts[0] == pts[-1]:
            continue
        if C.make(pts):
            C.ask(1, "lengthPH", lambda c: c.length, "num", ".length", w0=E.pt(w0), w1=E.pt(w1))
