-------------------------------- MODULE Pen --------------------------------
(***************************************************************************)
(* The segment pen: drawing commands build up a contour, closePath records *)
(* it.  A pen is                                                           *)
(*   done: the contours recorded, open: the segments of the contour being  *)
(*   drawn, last: the current point.                                       *)
(***************************************************************************)
EXTENDS Geometry, TLC

NewPen == [done |-> <<>>, open |-> <<>>, last |-> <<0, 0>>]
To(pen, segs, p) == [pen EXCEPT !.open = @ \o segs, !.last = p]
MoveTo(pen, p) == [pen EXCEPT !.open = <<>>, !.last = p]
\* lines of no length are left out
LineTo(pen, p) == IF PEq(p, pen.last) THEN pen ELSE To(pen, << <<pen.last, p>> >>, p)
CurveTo(pen, p, q, r) == To(pen, << <<pen.last, p, q, r>> >>, r)

\* the quadratic curves from on-curve point s over off-curve points off to on-curve point e
RECURSIVE Quads(_, _, _)
Quads(s, off, e) == IF Len(off) = 1 THEN << <<s, off[1], e>> >>
                    ELSE LET m == MidPt(off[1], off[2]) IN << <<s, off[1], m>> >> \o Quads(m, Tail(off), e)
QCurveTo(pen, off, e) == IF off = <<>> THEN LineTo(pen, e) ELSE To(pen, Quads(pen.last, off, e), e)
\* a closed curve of off-curve points only
QClosed(pen, off) == LET s == MidPt(off[Len(off)], off[1]) IN To(MoveTo(pen, s), Quads(s, off, s), s)

Closed(segs) == LET f == segs[1][1]
                    l == segs[Len(segs)][Len(segs[Len(segs)])]
                IN  IF PEq(f, l) THEN segs ELSE Append(segs, <<l, f>>)
ClosePath(pen) == IF pen.open = <<>> THEN pen ELSE [pen EXCEPT !.done = Append(@, Closed(pen.open)), !.open = <<>>]

\* a command as [c, p]: its name and points
Do(pen, x) == CASE x.c = "moveTo" -> MoveTo(pen, x.p[1])
                [] x.c = "lineTo" -> LineTo(pen, x.p[1])
                [] x.c = "curveTo" -> CurveTo(pen, x.p[1], x.p[2], x.p[3])
                [] x.c = "qCurveTo" -> QCurveTo(pen, SubSeq(x.p, 1, Len(x.p) - 1), x.p[Len(x.p)])
                [] x.c = "qClosed" -> QClosed(pen, x.p)
                [] x.c = "closePath" -> ClosePath(pen)
RECURSIVE DoAll(_, _)
DoAll(pen, s) == IF s = <<>> THEN pen ELSE DoAll(TLCEval(Do(pen, Head(s))), Tail(s))

(***************************************************************************)
(* Glyphs: sequences of commands and of components [c |-> "component",     *)
(* g |-> name, m |-> <<xx, xy, yx, yy, dx, dy>>].                          *)
(***************************************************************************)
Place(m, p) == <<(m[1] \otimes X(p)) \oplus (m[3] \otimes Y(p)) \oplus m[5],
                 (m[2] \otimes X(p)) \oplus (m[4] \otimes Y(p)) \oplus m[6]>>
PlaceAll(m, cs) == TLCEval([i \in DOMAIN cs |-> [j \in DOMAIN cs[i] |-> [k \in DOMAIN cs[i][j] |-> Place(m, cs[i][j][k])]]])
RECURSIVE DrawItems(_, _, _), Outline(_, _)
DrawItems(glyphs, pen, items) ==
    IF items = <<>> THEN pen
    ELSE LET x == Head(items)
             q == IF x.c = "component" THEN [pen EXCEPT !.done = @ \o PlaceAll(x.m, Outline(glyphs, x.g))] ELSE Do(pen, x)
         IN  DrawItems(glyphs, TLCEval(q), Tail(items))
\* the contours of a glyph
Outline(glyphs, name) == DrawItems(glyphs, NewPen, glyphs[name]).done

\* contours are closed and connected
WellFormed(c) == /\ c # <<>>
                 /\ \A i \in DOMAIN c : Len(c[i]) \in 2..4
                 /\ \A i \in DOMAIN c : PEq(c[i][Len(c[i])], c[(i % Len(c)) + 1][1])

\* equal up to where a closed contour begins (for contours without on-curve points it is not determined)
StartAt(c, k) == [i \in DOMAIN c |-> c[((i + k - 1) % Len(c)) + 1]]
SameContour(c, e, free, tol) ==
    \/ Len(c) = Len(e) /\ \A j \in DOMAIN c : PSeqNear(c[j], e[j], tol)
    \/ /\ free /\ Len(c) = Len(e)
       /\ \E k \in 1..(Len(c) - 1) : \A j \in DOMAIN c : PSeqNear(StartAt(c, k)[j], e[j], tol)
AllQuads(c) == \A j \in DOMAIN c : Len(c[j]) = 3
SameContours(r, e, tol, free) ==
    Len(r) = Len(e) /\ \A i \in DOMAIN r : SameContour(r[i], e[i], free /\ AllQuads(e[i]), tol)
=============================================================================
