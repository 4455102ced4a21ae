----------------------------- MODULE T_Pipeline -----------------------------
(* C32: from a glyph to its picture *)
EXTENDS TraceBase, Pipeline
P == INSTANCE Pen

(***************************************************************************)
(* The state: the pen and the glyphs, as in T_Pen, and the outline made    *)
(* from what the pen has recorded.  p are the control points as they were  *)
(* last read from the code, so that each step is judged by itself; the     *)
(* origins are those of the specification, so that all steps together are. *)
(***************************************************************************)
StartImpl == [pen |-> P!NewPen, glyphs |-> <<>>, out |-> <<>>]

SegsNear(s, t, tol) == Len(s) = Len(t) /\ \A k \in DOMAIN s : PSeqNear(s[k], t[k], tol)
OutNear(r, cs, tol) == Len(r) = Len(cs) /\ \A i \in DOMAIN r : SegsNear(r[i], cs[i], tol)
MagOf(cs) == MaxAbsSeq(Flat(Flat(cs)))
\* the control points are as recorded
Recorded(out, r) == TLCEval([i \in DOMAIN out |-> [k \in DOMAIN out[i] |-> [out[i][k] EXCEPT !.p = r[i][k]]]])
\* magnitudes on the way through the transformations
Grown(mag, ms) == LET a == M!Through(<<mag, mag, 1>>, M!AbsMs(ms)) IN RMax(a[1], a[2])
TolAfter(mag, ms) == Tol(RMax(mag, Grown(mag, ms)))
StepTo(st0, ev, new, tol) ==
    LET e == Points(new)
        ok == ev.k = "ok" /\ OutNear(ev.r, e, tol)
    IN  [st |-> IF ok THEN [st0 EXCEPT !.out = Recorded(new, ev.r)] ELSE st0,
         cl |-> Ok(ev, Cl("outline after " \o ev.op, ok)) \o Pure(ev)]

\* bounds rectangles of curves touch them and contain them
Tight1(cs, lo, hi, tol) ==
    /\ \A i \in DOMAIN cs : PLe(cs[i], hi \oplus tol) /\ PGe(cs[i], lo \ominus tol)
    /\ \E i \in DOMAIN cs : PReaches(cs[i], hi \ominus tol)
    /\ \E i \in DOMAIN cs : PReaches(PNeg(cs[i]), RNeg(lo) \ominus tol)
TightRect(ps, q) ==
    LET tol == Tol(MaxAbsSeq(Flat(ps)))
    IN  /\ ~q.empty
        /\ Tight1(TLCEval([i \in DOMAIN ps |-> Coord(ps[i], 1)]), L(q), R(q), tol)
        /\ Tight1(TLCEval([i \in DOMAIN ps |-> Coord(ps[i], 2)]), B(q), T(q), tol)

PathOf(es, i) == i \in DOMAIN es /\ es[i].k = "path"

JudgeImpl(st0, ev) ==
    LET a == ev.a
        r == ev.r
        out == st0.out
        cs == Points(out)
        J(cl) == V(st0, Ok(ev, cl) \o Pure(ev))
    IN
    CASE ev.op = "glyph" -> [st |-> [st0 EXCEPT !.glyphs = (a.name :> a.items) @@ @], cl |-> None]
      [] ev.op = "newPen" -> V(st0, Ok(ev, None))
      [] ev.op \in {"moveTo", "lineTo", "curveTo", "qCurveTo", "qClosed", "closePath"} ->
            [st |-> [st0 EXCEPT !.pen = TLCEval(P!Do(@, [c |-> ev.op, p |-> a.p]))], cl |-> Ok(ev, None) \o Pure(ev)]
      [] ev.op = "addComponent" ->
            [st |-> [st0 EXCEPT !.pen.done = @ \o P!PlaceAll(a.m, P!Outline(st0.glyphs, a.g))], cl |-> Ok(ev, None) \o Pure(ev)]
      \* the outline made from the pen's contours
      [] ev.op = "outline" ->
            LET e == st0.pen.done
                ok == ev.k = "ok" /\ P!SameContours(r, e, Tol(MagOf(e)), a.free)
            IN  [st |-> IF ok THEN [st0 EXCEPT !.out = OriginAll(r)] ELSE st0, cl |-> Ok(ev, Cl("outline of the pen", ok))]
      \* steps
      [] ev.op = "move" ->
            LET mag == MagOf(cs) IN StepTo(st0, ev, MoveAll(out, a.ms), TolAfter(mag, a.ms))
      [] ev.op = "turn" ->      \* about a point
            LET ms == <<M!TranslateM(a.q, <<0, 0>>), M!RotateM(a.d, a.ccw), M!TranslateM(<<0, 0>>, a.q)>>
                mag == RMax(MagOf(cs), MaxAbs(a.q))
            IN  StepTo(st0, ev, MoveAll(out, ms), TolAfter(mag, ms))
      [] ev.op = "split" -> StepTo(st0, ev, SplitAt(out, a.i, a.k, a.t), Tol(MagOf(cs)))
      [] ev.op = "raise" -> StepTo(st0, ev, RaiseAt(out, a.i, a.k), Tol(MagOf(cs)))
      [] ev.op = "put" -> StepTo(st0, ev, PutAt(out, a.i, a.k, a.c), Tol(MagOf(cs)))
      [] ev.op = "rebuild" -> StepTo(st0, ev, out, Tol(MagOf(cs)))
      \* queries
      [] ev.op = "points" ->
            LET e == out[a.i][a.k]
                mag == MaxAbsSeq(e.o)
                tol == Tol(Grown(mag, e.ms) \oplus MaxAbsSeq(e.p))
            IN  J(Cl("points of the curves drawn", Len(r) = Len(a.t) /\ \A j \in DOMAIN r : PNear(r[j], Source(e, a.t[j]), tol)))
      [] ev.op = "bounds" -> J(Cl("bounds", TightRect(Flat(cs), r)))
      [] ev.op = "contourBounds" -> J(Cl("bounds", Len(r) = Len(cs) /\ \A i \in DOMAIN r : TightRect(cs[i], r[i])))
      [] ev.op = "data" -> J(Cl("path data", Len(r) = Len(cs) /\ \A i \in DOMAIN r : Describes(r[i], <<cs[i]>>, FALSE)))
      [] ev.op = "drawContours" -> J(Cl("picture", Len(r) = 1 /\ PathOf(r, 1) /\ Describes(r[1].d, cs, a.close)))
      [] ev.op = "drawPaths" ->
            J(Cl("picture", Len(r) = Len(cs) /\ \A i \in DOMAIN r : PathOf(r, i) /\
                  (Describes(r[i].d, <<cs[i]>>, FALSE) \/ (a.close /\ Describes(r[i].d, <<cs[i]>>, TRUE)))))
      \* lengths of all curves, between chords and control polygons
      [] ev.op = "lengths" ->
            J(Cl("lengths", Len(r) = Len(cs[a.i]) /\ \A k \in DOMAIN r :
                  LET p == cs[a.i][k]
                      tol == Tol(MaxAbsSeq(p))
                      slack == RDiv(1, 200) \otimes r[k]
                  IN  /\ RSign(r[k]) >= 0
                      /\ Dist2(p[1], p[Len(p)]) \preceq RSq((r[k] \oplus slack) \oplus tol)
                      /\ (r[k] \ominus slack) \preceq (tol \oplus RSum(TLCEval([j \in 1..(Len(p) - 1) |-> SqrtUp(Dist2(p[j], p[j + 1]))])))))
=============================================================================
