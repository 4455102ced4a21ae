"""C26: colors."""
import random
import string
import unicodedata
from vf import enc as E

LATIN = set(string.ascii_letters)


def color(c):
    try:
        v = (c.red, c.green, c.blue)
    except AttributeError:
        raise E.Malformed(f"expected a color, got {c!r}"[:200])
    return [E.enc("int", x) for x in v]


def outcome(fn):
    try:
        v = fn()
    except ValueError:
        return {"v": "error", "c": []}
    return {"v": "none", "c": []} if v is None else {"v": "color", "c": color(v)}


def drive(d):
    rec, r = d.rec, d.r
    Color = d.lib("Color").Color
    # the keywords of the specification
    import os, re
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    words = re.findall(r'\("(\w+)" :>', open(os.path.join(root, "spec", "Colors.tla")).read())
    assert len(words) == 147

    def name(s):
        chars = [{"c": c if c in LATIN else "?", "l": unicodedata.category(c).startswith("L")} for c in s]
        rec.call("fromName", {"name": chars}, lambda: outcome(lambda: Color.fromName(s)), lambda v: v, f"Color.fromName({s!r})")

    for w in d.mine(words):
        rec.new()
        for v in (w, w.upper(), w.capitalize(), w.swapcase().title(), "".join(c.upper() if r.random() < 0.5 else c for c in w),
                  "".join(c.upper() if i % 2 else c for i, c in enumerate(w))):
            name(v)
        i = r.randrange(len(w))
        # near misses
        for v in (w[:i] + w[i + 1:], w[:i] + r.choice(string.ascii_lowercase) + w[i + 1:], w + r.choice("sxe"), w + " ", " " + w, w[:i] + "-" + w[i:],
                  w[:i] + " " + w[i:], w + "1", w + w, "#" + w, w[::-1], w[:i] + "é" + w[i:], w + "\n", w[:i] + "_" + w[i:], w + "."):
            name(v)
    rec.new()
    for v in d.mine(("", " ", "1", "#ff0000", "rgb", "none", "transparent", "currentcolor", "rot", "Rouge", "красный", "赤", "red,green", "red green", "0", "-", "light grey",
                     "rebeccapurple", "x", "ß", "RED1", "ﬁrebrick", "e\u0301", "½", "٣")):
        name(v)

    def hues(h, n, mixed):
        rec.new()
        hist = f"Color.setCurrentHue({'' if h is None else h})"

        def set_hue():
            if h is None:
                Color.setCurrentHue()
            else:
                Color.setCurrentHue(h)
        if not rec.call("setHue", {"h": E.num(h or 0)}, set_hue, "none", hist).ok:
            return
        for k in range(n):
            if mixed:
                x = r.random()
                if x < 0.1:
                    rec.call("rgb", {}, lambda: [Color.randomRGBColor() for _ in range(3)], ("list", color), hist + "; Color.randomRGBColor()")
                elif x < 0.2:
                    name(r.choice(words))
                elif x < 0.25:
                    random.seed(k)
            src = f"{hist}; Color.randomHSLColor() for the {k + 1}. time"
            if not rec.call("hsl", {}, Color.randomHSLColor, color, src).ok:
                return

    # the whole cycle
    for h in d.mine((None, 0, 1, 73, 180, 287, 359, 360, 100)):
        hues(h, 361, False)
    for _ in range(d.n(100, 1200)):
        h = r.choice((r.randint(0, 360), r.randint(0, 360), r.uniform(0, 360), r.randint(0, 719) / 2, r.randint(-400, 1000), 359.9999, 287, 286.999, None))
        hues(h, d.g.many(1, 3, 6, 12), True)
    for k in range(d.n(16, 160)):
        rec.new()
        random.seed(d.shard * 1000 + k + d.seed * 100000)
        rec.call("rgb", {}, lambda: [Color.randomRGBColor() for _ in range(1500)], ("list", color), "1500 of Color.randomRGBColor()")
