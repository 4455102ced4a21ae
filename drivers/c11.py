"""C11: alignment and the tight bounding box."""
from vf import enc as E
from drivers.curves import Curves


def drive(d):
    rec, g, r = d.rec, d.g, d.r
    C = Curves(d)
    for _ in range(d.n(1400)):
        C.new()
        pts = g.curve_pts()
        x = r.random()
        if x < 0.3:      # baseline in one of 8 directions
            k = g.coord(r.choice(("unit", "font"))) or 7
            v = r.choice(((1, 0), (0, 1), (-1, 0), (0, -1), (1, 1), (-1, 1), (1, -1), (-1, -1)))
            pts[-1] = (pts[0][0] + v[0] * abs(k), pts[0][1] + v[1] * abs(k))
            if r.random() < 0.3:      # or a little off it
                a, o = pts[-1], abs(k) * r.choice((1, -1)) * 10 ** -r.uniform(2, 7)
                pts[-1] = (a[0] + o, a[1]) if r.random() < 0.5 else (a[0], a[1] + o)
        elif x < 0.34:   # back at the start
            pts[-1] = pts[0]
        pts = g.container([g.maybe_list(p) for p in pts])
        if not C.make(pts):
            continue
        for _ in range(2):
            x = r.random()
            if x < 0.35:
                C.ask(1, "align", lambda c: c.align(), "curve", ".align()", s=E.enc("seg", pts))
            elif x < 0.7:
                seg = g.curve_pts(r.choice((1, 1, 1, 2, 3)), r.choice((None, "unit", "font")))
                if r.random() < 0.3:
                    i = r.randint(0, 1)
                    q = list(seg[-1])
                    q[i] = seg[0][i]
                    if r.random() < 0.3:
                        q[i] += r.choice((1, -1)) * 10 ** -r.uniform(1, 5)
                    if tuple(q) != tuple(seg[0]):
                        seg[-1] = tuple(q)
                if r.random() < 0.1:
                    seg[-1] = seg[0]
                C.ask(1, "align", lambda c: c.align(seg), "curve", f".align({seg})", s=E.enc("seg", seg))
            else:
                C.ask(1, "tightbbox", lambda c: c.tightbbox, "contour", ".tightbbox")
        C.ask(1, "tightbbox", lambda c: c.tightbbox, "contour", ".tightbbox")
