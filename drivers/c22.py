"""C22: the segment pen."""
import copy
from vf import enc as E, rec as R
from drivers import pens as P


def drive(d):
    rec, g, r = d.rec, d.g, d.r
    SegmentPen = d.lib("SegmentPen").SegmentPen
    W = P.Writer(g, r)

    def draw(drawings, often):
        """Draw [(commands, free)] with a pen each, in steps that alternate at random."""
        rec.new()
        pens = []
        hist = ""
        for k, (cmds, free) in enumerate(drawings):
            box = []
            hist += f"pen{k} = SegmentPen({{}}, log); "
            if not rec.call("newPen", {}, lambda: box.append(SegmentPen({}, P.LOG)), "any", hist).ok:
                return
            pens.append({"pen": box[0], "cmds": list(cmds), "free": free, "kept": [], "n": k + 1})
        while any(x["cmds"] for x in pens):
            x = r.choice([x for x in pens if x["cmds"]])
            pen, n = x["pen"], x["n"]
            cmd, pts = x["cmds"].pop(0)
            hist += f"pen{n - 1}.{P.text(cmd, pts)}; "
            if not rec.call(cmd, {"p": [E.pt(p) for p in pts], "pn": n}, lambda: P.apply(pen, cmd, pts), "any", hist, inputs=[pts]).ok:
                return
            if cmd == "closePath" and (often or not x["cmds"]):
                res = rec.run(lambda: pen.contours, "contours")
                # what was recorded before is still there, as it was
                changed = res.ok and not R.same(x["kept"], list(res.value)[:len(x["kept"])])
                rec.emit("contours", {"free": x["free"], "pn": n}, res, f"{hist}pen{n - 1}.contours", changed)
                if not res.ok:
                    return
                x["kept"] = copy.deepcopy(list(res.value))

    def go(words, kind):
        draw([(W.commands(w, kind), "N" in w) for w in words], r.random() < 0.6)

    for b in d.behaviours:
        go([b["b"]], r.choice(("unit", "font", "frac", "float")))
    for _ in range(d.n(400, 6000)):
        go([W.word() for _ in range(g.many(1, 1, 1, 2, cap=5, prob=0.02))], g.wide())
