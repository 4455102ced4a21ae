"""C04: union, intersection and relations of rectangles."""
import itertools
from vf import enc as E


def drive(d):
    rec, g, r = d.rec, d.g, d.r
    BR = d.lib("PathUtilities").BoundsRectangle
    names = {BR.relationEncloses: "encloses", BR.relationEnclosed: "enclosed", BR.relationIntersects: "intersects", BR.relationSeparate: "separate"}

    def relation(a, b):
        v = a.relationTo(b)
        return names[v] if v in names else f"?{v}"

    def session(ptlists, pairs, unions):
        rec.new()
        rects, srcs = [], []

        def keep(res, src):
            if res.ok:
                rects.append(res.value)
                srcs.append(src)
            return res.ok

        for pts in ptlists:
            if not keep(rec.call("points", {"p": E.seq(pts, E.pt)}, lambda: BR(*pts), "rect", f"BoundsRectangle(*{pts})"), f"BR(*{pts})"):
                return
        k = len(rects)
        for i, j in pairs:
            a, b = rects[i], rects[j]
            ij = {"i": i + 1, "j": j + 1}
            s = f"{srcs[i]}.%s({srcs[j]})"
            both = [a, b]
            rec.call("encloses", ij, lambda: a.encloses(b), "bool", s % "encloses", inputs=both) if ptlists[i % k] and ptlists[j % k] else None
            if ptlists[i % k] and ptlists[j % k]:
                rec.call("relationTo", ij, lambda: relation(a, b), "str", s % "relationTo", inputs=both)
            keep(rec.call("union", ij, lambda: a.union(b), "rect", s % "union", inputs=both), s % "union")
            keep(rec.call("intersection", ij, lambda: a.intersection(b), "rect", s % "intersection", inputs=both), s % "intersection")
        for _ in range(unions):
            n = r.randint(2, max(2, min(6, k + 2)))
            idx = [r.randrange(k) for _ in range(n)]
            items = [rects[i] for i in idx]

            def grouped(xs):
                if len(xs) == 1:
                    return xs[0]
                c = r.randint(1, len(xs) - 1)
                return grouped(xs[:c]).union(grouped(xs[c:]))

            rec.call("unions", {"is": [i + 1 for i in idx]}, lambda: grouped(items), "rect", f"unions of {[srcs[i] for i in idx]}", inputs=items)
        for i in range(k):
            rec.call("read", {"i": i + 1}, lambda: rects[i], "rect", srcs[i])
        return rects

    # all pairs of rectangles of a small grid
    ivs = [(a, b) for a in range(3 if d.tier == "quick" else 4) for b in range(a, 3 if d.tier == "quick" else 4)]
    small = [((x[0], y[0]), (x[1], y[1])) for x in ivs for y in ivs]
    for p, q in d.mine(itertools.product(small, repeat=2)):
        session([p, q], [(0, 1)], 0)
    for _ in range(d.n(1400)):
        kind = g.kind()
        n = g.many(2, 2, 3, 4, 5, cap=12)
        off = r.choice((0, 0, 40000, -40000, 1e6))
        lists = []
        for _ in range(n):
            if r.random() < 0.08:
                lists.append([])
                continue
            pts = [(x + off, y - off) for x, y in (g.point(kind) for _ in range(r.choice((1, 2, 2, 3))))]
            if lists and lists[-1] and r.random() < 0.5:
                # share an edge, a corner or a coordinate with another rectangle
                o = r.choice(r.choice([l for l in lists if l]))
                x, y = pts[0]
                pts[0] = r.choice((o, (o[0], y), (x, o[1])))
                if r.random() < 0.3:      # inside the other one
                    b = [l for l in lists if l][-1]
                    xs, ys = [p[0] for p in b], [p[1] for p in b]
                    pts = [(r.choice((min(xs), max(xs), (min(xs) + max(xs)) / 2)), r.choice((min(ys), max(ys), (min(ys) + max(ys)) / 2))) for _ in range(2)]
            lists.append(pts)
        pairs = [(r.randrange(n), r.randrange(n)) for _ in range(3)]
        session(lists, pairs, 2)
