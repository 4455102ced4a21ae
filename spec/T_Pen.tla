-------------------------------- MODULE T_Pen --------------------------------
(* C22, C23: the segment pen and components *)
EXTENDS TraceBase, Pen

(***************************************************************************)
(* The state: the pens, as the specification draws (events tell the pen,   *)
(* a.pn), and the glyphs defined in this session.                          *)
(***************************************************************************)
StartImpl == [pens |-> <<>>, glyphs |-> <<>>]

TolOf(e) == Tol(MaxAbsSeq(Flat(Flat(e))))

JudgeImpl(st0, ev) ==
    LET a == ev.a
        r == ev.r
        pen == st0.pens[a.pn]
        e == pen.done
        With(q) == [st0 EXCEPT !.pens[a.pn] = TLCEval(q)]
    IN
    CASE ev.op = "newPen" -> [st |-> [st0 EXCEPT !.pens = Append(@, NewPen)], cl |-> Ok(ev, None)]
      [] ev.op = "glyph" -> [st |-> [st0 EXCEPT !.glyphs = (a.name :> a.items) @@ @], cl |-> Cl("defined", TRUE)]
      [] ev.op \in {"moveTo", "lineTo", "curveTo", "qCurveTo", "qClosed", "closePath"} ->
            [st |-> With(Do(pen, [c |-> ev.op, p |-> a.p])), cl |-> Ok(ev, None) \o Pure(ev)]
      [] ev.op = "draw" ->      \* a glyph draws itself
            [st |-> With(DrawItems(st0.glyphs, pen, st0.glyphs[a.g])), cl |-> Ok(ev, None)]
      [] ev.op = "addComponent" ->
            [st |-> With([pen EXCEPT !.done = @ \o PlaceAll(a.m, Outline(st0.glyphs, a.g))]), cl |-> Ok(ev, None) \o Pure(ev)]
      \* ev.mut: contours recorded before have changed
      [] ev.op = "contours" ->
            V(st0, Ok(ev, Cl("contours recorded", SameContours(r, e, TolOf(e), a.free))) \o Cl("recorded contours stay", ~ev.mut))
      [] ev.op = "placed" ->
            V(st0, Ok(ev, Cl("number of contours", Len(r) = Len(e))
                         \o Cl("components placed", SameContours(r, e, TolOf(e), a.free))) \o Cl("recorded contours stay", ~ev.mut))
=============================================================================
