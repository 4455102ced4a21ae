"""Shared by the drivers of the plotter."""
import re
from vf import enc as E, svg

ATTR = re.compile(r"([\w-]+)=(?:'([^']*)'|\"([^\"]*)\")")
RGB = re.compile(r"rgb\((-?\d+),(-?\d+),(-?\d+)\)$")
PAIR = re.compile(r"\(\s*([-+.\deE]+)\s*,\s*([-+.\deE]+)\s*\)$")


def color(c):
    if c is None:
        return []
    try:
        return [int(c.red), int(c.green), int(c.blue)]
    except AttributeError:
        raise E.Malformed(f"expected a color, got {c!r}"[:200])


def opt(x, f):
    return [] if x is None else [f(x)]


def dash(s):
    return "none" if s is None else str(s)


def _rgb(s):
    if s == "none":
        return []
    m = RGB.match(s)
    if not m:
        raise E.Malformed(f"not a color: {s!r}"[:200])
    return [int(x) for x in m.groups()]


def element(text):
    """An element added to the drawing."""
    if not isinstance(text, str):
        raise E.Malformed(f"expected an element, got {text!r}"[:200])
    m = re.match(r"\s*<(\w+)\s", text)
    if not m or not text.rstrip().endswith("/>"):
        raise E.Malformed(f"expected an element, got {text!r}"[:200])
    at = {}
    for k, a, b in ATTR.findall(text):
        if k in at:
            raise E.Malformed(f"{k} twice: {text!r}"[:200])
        at[k] = a or b
    out = {"k": m.group(1), "fill": [], "stroke": []}
    if "fill-opacity" in at:
        out["fill"] = [{"c": _rgb(at["fill"]), "o": svg.number(at["fill-opacity"])}]
    elif at.get("fill") not in (None, "none"):
        raise E.Malformed(f"fill without opacity: {text!r}"[:200])
    if "stroke" in at:
        out["stroke"] = [{"w": svg.number(at["stroke-width"]), "c": _rgb(at["stroke"]), "o": svg.number(at["stroke-opacity"]),
                          "d": "none" if at["stroke-dasharray"] == "None" else at["stroke-dasharray"]}]
    if out["k"] == "path":
        out["d"] = svg.groups(at["d"])
    elif out["k"] == "circle":
        out.update({"in": at["in"], "p": [svg.number(at["cx"]), svg.number(at["cy"])], "r": svg.number(at["r"])})
    elif out["k"] == "text":
        out.update({"in": at["in"], "p": [svg.number(at["x"]), svg.number(at["y"])], "text": at["text"], "align": at["align"],
                    "line": svg.number(at["line"]), "lb": {"n": at["font"], "s": svg.number(at["size"]), "h": svg.number(at["height"])}})
        m = PAIR.match(at["text"])
        out["says"] = [svg.number(x) for x in m.groups()] if m else [0, 0]
    elif out["k"] == "arrow":
        out.update({"in": at["in"], "p": [svg.number(at["x1"]), svg.number(at["y1"])], "q": [svg.number(at["x2"]), svg.number(at["y2"])],
                    "style": at["style"], "position": at["position"]})
    return out


def elements(v):
    return [element(x) for x in v]


class Session:
    """One plotter and the calls made on it."""

    def __init__(self, d, what, poly=None):
        self.d, self.what = d, what
        self.CP = d.lib("ContourPlotter").ContourPlotter
        self.Color = d.lib("Color").Color
        bz = d.lib("Bezier")
        self.Bezier, self.BContour = bz.Bezier, bz.BContour
        self.poly = poly

    def start(self, poly):
        d = self.d
        d.rec.new()
        self.box, self.depths, self.cur = [], [], 0
        self.hist = ""
        self.ok = True
        self.another(poly)

    def another(self, poly):
        """One more plotter, which is used from now on."""
        d = self.d
        if not self.ok:
            return
        self.poly = poly
        self.depths.append({"f": 0, "s": 0})
        self.cur = len(self.box)
        b = (d.r.randint(-100, 0), d.r.randint(-100, 0), d.r.randint(100, 1000), d.r.randint(100, 1000))
        if d.r.random() < 0.3:
            b = tuple(x + d.r.choice((0, 0.5, 0.25, 0.125)) for x in b)
        kw = {} if not poly and d.r.random() < 0.5 else {"poly": poly}
        self.hist += f"; cp{self.cur} = ContourPlotter({b}, {kw})"

        def page(p):
            def four(m):
                return [E.num(v) for v in (m.left, m.bottom, m.right, m.top)]
            return {"bounds": [[E.num(v) for v in x] for x in p._boundsAggregator.bounds], "content": four(p._contentMargins), "frame": four(p._frameMargins)}

        def make():
            self.box.append(self.CP(b, **kw))
            return self.box[-1]
        res = d.rec.run(make, page)
        self.ok = res.ok
        self.emit("plotter", {"b": [E.num(v) for v in b]}, res)

    @property
    def cp(self):
        return self.box[self.cur]

    @property
    def depth(self):
        return self.depths[self.cur]

    def use(self, k):
        if self.ok:
            self.cur = k

    def settings(self):
        c = self.cp
        return {"f": {"c": color(c._fillColor), "o": E.num(c._fillOpacity)},
                "st": {"w": E.num(c._strokeWidth), "c": color(c._strokeColor), "o": E.num(c._strokeOpacity), "d": dash(c._strokeDash)},
                "lb": {"n": str(c.labelFont), "s": E.num(c.labelFontSize), "h": E.num(c._labelLineHeight)}}

    def emit(self, op, args, res, mut=False):
        extra = {"f": {"c": [], "o": 0}, "st": {"w": 0, "c": [], "o": 0, "d": ""}, "lb": {"n": "", "s": 0, "h": 0}}
        if res.ok:
            try:
                extra = self.settings()
            except Exception as e:
                res.k = "malformed"
                res.text = f"settings: {type(e).__name__}: {e}"[:300]
        self.ok = self.ok and res.ok
        self.d.rec.emit(op, dict(args, what=self.what, pl=self.cur + 1), res, self.hist, mut, **extra)

    def do(self, op, args, fn, text, inputs=None, draws=True):
        """Call fn(plotter); the result of a drawing method is what it adds."""
        import copy
        from vf import rec as R
        if not self.ok:
            return
        self.hist += f"; cp{self.cur}." + text
        before = copy.deepcopy(inputs)

        def run():
            n = len(self.cp._content)
            fn(self.cp)
            return list(self.cp._content[n:])
        res = self.d.rec.run(run, elements if draws else "any")
        self.emit(op, args, res, inputs is not None and not R.same(before, inputs))

    # settings
    def push_fill(self, c=None, o=None):
        kw = {k: v for k, v in (("color", c), ("opacity", o)) if v is not None}
        self.depth["f"] += 1
        self.do("pushFillAttributes", {"color": opt(c, color), "opacity": opt(o, E.num)}, lambda p: p.pushFillAttributes(**kw), f"pushFillAttributes({kw})", draws=False)

    def push_stroke(self, w=None, c=None, o=None, ds=None):
        kw = {k: v for k, v in (("width", w), ("color", c), ("opacity", o), ("dash", ds)) if v is not None}
        self.depth["s"] += 1
        self.do("pushStrokeAttributes", {"width": opt(w, E.num), "color": opt(c, color), "opacity": opt(o, E.num), "dash": opt(ds, str)},
                lambda p: p.pushStrokeAttributes(**kw), f"pushStrokeAttributes({kw})", draws=False)

    def pop_fill(self):
        self.depth["f"] -= 1
        self.do("popFillAttributes", {}, lambda p: p.popFillAttributes(), "popFillAttributes()", draws=False)

    def pop_stroke(self):
        self.depth["s"] -= 1
        self.do("popStrokeAtributes", {}, lambda p: p.popStrokeAtributes(), "popStrokeAtributes()", draws=False)

    def set_fill(self, c=None, o=None):
        def f(p):
            if c is not None: p.setFillColor(c)
            if o is not None: p.setFillOpacity(o)
        self.do("setFill", {"color": opt(c, color), "opacity": opt(o, E.num)}, f, f"setFill({c}, {o})", draws=False)

    def set_stroke(self, w=None, c=None, o=None, ds=None):
        def f(p):
            if w is not None: p.setStrokeWidth(w)
            if c is not None: p.setStrokeColor(c)
            if o is not None: p.setStrokeOpacity(o)
            if ds is not None: p.setStrokeDash(ds)
        self.do("setStroke", {"width": opt(w, E.num), "color": opt(c, color), "opacity": opt(o, E.num), "dash": opt(ds, str)}, f,
                f"setStroke({w}, {c}, {o}, {ds})", draws=False)

    def set_label(self, name, size, height):
        def f(p):
            p.setLabelFont(name)
            p.setLabelFontSize(size, height)
        self.do("setLabel", {"lb": {"n": name, "s": E.num(size), "h": E.num(height)}}, f, f"setLabel({name!r}, {size}, {height})", draws=False)

    # drawing
    def contours(self, cs, c=None, fill=False, close=True, omit=()):
        kw = {"color": c, "fill": fill, "close": close}
        for k in omit:
            kw.pop(k)
        self.do("drawContours", {"cs": E.enc("contours", cs), "color": opt(c, color), "fill": fill, "close": close},
                lambda p: p.drawContours(cs, **kw), f"drawContours({cs}, {kw})", [cs])

    def paths(self, cs, c=None, fill=False, close=True, omit=()):
        kw = {"color": c, "fill": fill, "close": close}
        for k in omit:
            kw.pop(k)
        bcs = []
        if not self.d.rec.run(lambda: bcs.extend(self.BContour(x) for x in cs), "any").ok:
            return
        self.do("drawPaths", {"cs": E.enc("contours", cs), "n": len(cs), "color": opt(c, color), "fill": fill, "close": close},
                lambda p: p.drawPaths(bcs, **kw), f"drawPaths([BContour(x) for x in {cs}], {kw})", [cs])

    def curve(self, seg, c=None):
        self.do("drawCurve", {"c": E.enc("seg", seg), "color": opt(c, color)}, lambda p: p.drawCurve(seg, c) if c else p.drawCurve(seg),
                f"drawCurve({seg}, {c})", [seg])

    def segments(self, pts, c=None):
        self.do("drawPointsAsSegments", {"p": E.enc("seg", pts), "color": opt(c, color)},
                lambda p: p.drawPointsAsSegments(pts, c) if c else p.drawPointsAsSegments(pts), f"drawPointsAsSegments({pts}, {c})", [pts])

    def circles(self, pts, radius, cs=None, fill=True, cplx=0):
        """cplx: 0 pairs, 1 complex numbers, 2 complex numbers with the method for them."""
        arg = [complex(*q) for q in pts] if cplx else pts
        op = "drawComplexPointsAsCircles" if cplx == 2 else "drawPointsAsCircles"
        kw = {"fill": fill}
        if fill and self.d.r.random() < 0.5:
            kw = {}
        if cs is not None or self.d.r.random() < 0.5:
            kw["colors"] = cs
        self.do(op, {"p": E.enc("seg", [(float(x), float(y)) for x, y in pts] if cplx else pts), "n": len(pts), "r": E.num(radius),
                     "colors": [opt(c, color) for c in cs or []], "fill": fill},
                lambda p: getattr(p, op)(arg, radius, **kw), f"{op}({arg}, {radius}, {kw})", [arg, cs or []])

    def skeleton(self, pts, t=None, line=0, colors=0):
        """The hull if t is given; line and colors 0 for the defaults."""
        bz = []
        if not self.d.rec.run(lambda: bz.append(self.Bezier(pts)), "any").ok:
            return
        grey, black = self.CP.colorLightGrey, self.CP.colorBlack
        lc = grey if line == 0 else line
        a = [bz[0]] if t is None else [bz[0], t]
        kw = {}
        if line != 0:
            kw["lineColor"] = line
        if t is None:
            cs = [black] if colors == 0 else (colors or [])
            if colors != 0: kw["pointColors"] = colors
        else:
            pc = black if colors == 0 else colors
            cs = [pc]
            if colors != 0: kw["pointColor"] = colors
        op = "drawSkeleton" if t is None else "drawHull"
        self.do(op, {"p": E.enc("seg", pts), "n": len(pts), "t": E.num(t or 0), "line": opt(lc, color), "colors": [opt(c, color) for c in cs]},
                lambda p: getattr(p, op)(*a, **kw), f"{op}(Bezier({pts}){'' if t is None else f', {t}'}, {kw})")

    def arrow(self, a, b, c=None, style=None, position=None):
        kw = {k: v for k, v in (("color", c), ("style", style), ("position", position)) if v is not None}
        self.do("drawArrow", {"p": E.pt(a), "q": E.pt(b), "color": opt(c, color), "style": style or "open60", "position": position or "end"},
                lambda p: p.drawArrowBetweenPoints(a, b, **kw), f"drawArrowBetweenPoints({a}, {b}, {kw})")

    def text(self, q, text, align, margin=None):
        kw = {} if margin is None else {"margin": margin}
        self.do("drawText", {"p": E.pt(q), "text": text, "align": align, "in": "content" if margin is False else "contentMargins"},
                lambda p: p.drawText(*q, align, text, **kw), f"drawText({q}, {align!r}, {text!r}, {kw})")


class Maker:
    """Things to draw."""

    def __init__(self, d, Color):
        self.g, self.r, self.Color = d.g, d.r, Color
        self.recent = [(0, 0)]      # where the last things drawn end

    def col(self):
        r = self.r
        if r.random() < 0.15:
            return self.Color(0, 0, 0)
        return self.Color(*(r.randint(0, 255) for _ in range(3)))

    def cols(self):
        return [self.col() for _ in range(self.g.many(1, 1, 2, 3, 5, cap=12))]

    def opt(self, f):
        return f() if self.r.random() < 0.6 else None

    def opacity(self):
        return self.r.choice((0, 0.0, 1, 0.25, 0.5, 0.75, self.r.random()))

    def width(self):
        return self.r.choice((0, 1, 2, 0.5, 10, self.r.uniform(0, 20)))

    def dash(self):
        return self.r.choice(("1", "2, 1", "5 5", "1, 2, 3, 4"))

    def kind(self):
        return self.r.choice((None, "unit", "unit", "frac", "font", "float", "const"))

    def contour(self, n=None, square=None):
        g, r = self.g, self.r
        if square if square is not None else r.random() < 0.5:
            return self.axial(n or g.many(1, 2, 3, 4, 6, 9))
        return g.contour(n or g.many(1, 1, 2, 3, 5, cap=16), closed=r.random() < 0.5, kind=self.kind(), loops=r.choice((0, 0, 0.4)),
                         orders=r.choice(((1,), (1, 1, 2), (2,), (3,), (1, 2, 3))))

    def axial(self, n):
        """Mostly horizontal and vertical lines, with repetitions, and lines of no length."""
        r, g = self.r, self.g
        pen = (r.randint(-5, 5), r.randint(-5, 5))
        out = []
        ks = r.choice(("HV", "HVL", "HVLZ", "HHVVZ", "HVLQC", "LLZ", "QQC", "CCH"))
        k = r.choice(ks)
        pool = [pen] + self.recent[-2:]
        again = r.choice((0, 0.2, 0.5))
        for _ in range(n):
            if r.random() < 0.55:
                k = r.choice(ks)
            shut = out and out[-1][0] == out[-1][-1]
            if shut and r.random() < 0.5:
                k = "L"
            x, y = pen
            e = (x + r.choice((1, -1)) * r.randint(1, 5), y + r.choice((1, -1)) * r.choice((1, 2.5, 3)))
            e = g.reuse(e, pool, again)
            if out and r.random() < (0.8 if shut else again):      # a coordinate of a point that is not the last one
                q = r.choice(out[-1])
                e = (q[0], e[1]) if r.random() < 0.5 else (e[0], q[1])
            if r.random() < 0.08:
                e = (y, y) if r.random() < 0.5 else (x, x)
            seg = {"H": [pen, (e[0], y)], "V": [pen, (x, e[1])], "L": [pen, e], "Z": [pen, pen],
                   "Q": [pen, g.reuse(g.point("unit"), pool, again), e],
                   "C": [pen, g.reuse(g.point("unit"), pool, again), g.point("frac"), e]}[k]
            if k in "QC" and r.random() < again / 2:
                seg[-1] = pen
            out.append(seg)
            pool += seg[1:]
            pen = seg[-1]
        self.recent.append(pen)
        return out

    def contours(self):
        return [self.contour() for _ in range(0 if self.r.random() < 0.03 else self.g.many(1, 1, 2, 2, 3, cap=12))]

    def points(self):
        r = self.r
        kind = self.kind()
        ps = [self.g.point(kind) for _ in range(self.g.many(1, 2, 3, 4, 6, 10))]
        for i in range(1, len(ps)):
            x = r.random()
            if x < 0.15: ps[i] = ps[i - 1]
            elif x < 0.25: ps[i] = (ps[i - 1][0], ps[i][1])
            elif x < 0.35: ps[i] = (ps[i][0], ps[i - 1][1])
            elif x < 0.4: ps[i] = ps[0]
            elif x < 0.5: ps[i] = self.recent[-1]
            elif x < 0.6:
                c = r.choice(ps[i - 1]); ps[i] = (c, c)
        self.recent.append(ps[-1])
        return ps


KINDS = ("contours", "paths", "curve", "segments", "circles", "complex", "ccircles", "skeleton", "hull", "arrow", "text")


def draw(s, m, kind=None, colored=None, fill=None):
    """A drawing call with the given choices; the others are random."""
    r, g = s.d.r, s.d.g
    kind = kind or r.choice(KINDS)
    colored = r.random() < 0.6 if colored is None else colored
    fill = r.random() < 0.5 if fill is None else fill
    c = m.col() if colored else None
    if kind in ("contours", "paths"):
        close = r.random() < 0.6
        omit = [k for k, v in (("color", c is None), ("fill", not fill), ("close", close)) if v and r.random() < 0.5]
        getattr(s, kind)(m.contours(), c, fill, close, omit)
    elif kind == "curve":
        s.curve(m.contour(1)[0], c)
    elif kind == "segments":
        s.segments(m.points(), c)
    elif kind in ("circles", "complex", "ccircles"):
        cs = m.cols() if colored else None
        s.circles(m.points() if r.random() < 0.94 else [], r.choice((1, 2, 0.5, 10)), cs, fill, {"circles": 0, "complex": 1, "ccircles": 2}[kind])
    elif kind in ("skeleton", "hull"):
        pts = g.curve_pts(r.choice((None, None, None, 1, 4, 5, 6, 8)), kind=r.choice(("unit", "font", "float")))
        t = None if kind == "skeleton" else r.choice((0.5, 0.25, r.uniform(0.05, 0.95)))
        line = (0 if r.random() < 0.4 else m.col()) if colored else None
        if t is None:
            cs = r.choice((0, None, m.cols(), m.cols()))
        else:
            cs = r.choice((0, None, m.col(), m.col()))
        s.skeleton(pts, t, line, cs)
    elif kind == "arrow":
        k = m.kind()
        s.arrow(g.point(k), g.point(k), c, r.choice((None, "open90", "closed30")), r.choice((None, "start", "both")))
    else:
        if r.random() < 0.3:
            s.set_label(r.choice(("Helvetica", "Times", "x")), r.choice((12, 6, 0.5, r.uniform(1, 40))), r.choice((14, 7, r.uniform(1, 40))))
        s.text(g.point(m.kind()), r.choice(("left", "abc", "1")), r.choice(("left", "center", "right")), r.choice((None, True, False)))
