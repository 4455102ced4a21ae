"""C28: what the plotter draws."""
import itertools
from drivers import plots as P


def drive(d):
    g, r = d.g, d.r
    s = P.Session(d, "outline")
    m = P.Maker(d, s.Color)

    # all sequences of up to 3 kinds of segments, in both modes, as one contour and followed by another
    kinds = "HVLQCZ"
    for n in range(1, 4 if d.tier == "quick" else 5):
        for ks, poly in d.mine(itertools.product(itertools.product(kinds, repeat=n), (True, False))):
            s.start(poly)
            cs = []
            for part in ((ks,), (ks, ks), (ks, (r.choice(kinds),)))[r.randint(0, 2)]:
                pen = (r.randint(-5, 5), r.randint(-5, 5))
                c = []
                for k in part:
                    x, y = pen
                    e = (x + r.choice((1, -1)) * r.randint(1, 5), y + r.choice((1, -1)) * r.choice((1, 2.5, 3)))
                    c.append({"H": [pen, (e[0], y)], "V": [pen, (x, e[1])], "L": [pen, e], "Z": [pen, pen],
                              "Q": [pen, g.point("unit"), e], "C": [pen, g.point("unit"), g.point("frac"), e]}[k])
                    pen = c[-1][-1]
                cs.append(c)
            if r.random() < 0.5:
                s.contours(cs, m.opt(m.col), r.random() < 0.3, r.random() < 0.5)
            else:
                s.paths(cs, m.opt(m.col), r.random() < 0.3, r.random() < 0.5)

    # sequences of calls on one plotter
    for _ in range(d.n(900, 12000)):
        s.start(r.random() < 0.6)
        two = r.random() < 0.3
        if two:
            s.another(r.random() < 0.6)
        for _ in range(g.many(1, 2, 3, 5, cap=14, prob=0.03)):
            if two:
                s.use(r.randint(0, 1))
            P.draw(s, m)
