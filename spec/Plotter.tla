------------------------------ MODULE Plotter ------------------------------
(***************************************************************************)
(* The plotter: its fill and stroke settings, the two stacks that save     *)
(* them, and the elements the drawing methods add.                         *)
(*                                                                         *)
(* A color is <<r, g, b>>.  An optional argument is <<>> if not given and  *)
(* <<value>> if given.  Fill settings are [c, o] (color, opacity), stroke  *)
(* settings [w, c, o, d] (width, color, opacity, dash).                    *)
(***************************************************************************)
EXTENDS Contours

Given(opt, old) == IF opt = <<>> THEN old ELSE opt[1]
Plotter0(f, s) == [f |-> f, s |-> s, fs |-> <<>>, ss |-> <<>>]
Top(stack) == stack[Len(stack)]
Popped(stack) == SubSeq(stack, 1, Len(stack) - 1)

FillWith(f, c, o) == [c |-> Given(c, f.c), o |-> Given(o, f.o)]
StrokeWith(s, w, c, o, d) == [w |-> Given(w, s.w), c |-> Given(c, s.c), o |-> Given(o, s.o), d |-> Given(d, s.d)]
PushFill(p, c, o) == [p EXCEPT !.fs = Append(@, p.f), !.f = FillWith(@, c, o)]
PushStroke(p, w, c, o, d) == [p EXCEPT !.ss = Append(@, p.s), !.s = StrokeWith(@, w, c, o, d)]
PopFill(p) == [p EXCEPT !.f = Top(p.fs), !.fs = Popped(@)]
PopStroke(p) == [p EXCEPT !.s = Top(p.ss), !.ss = Popped(@)]

SameFill(a, b) == a.c = b.c /\ a.o \doteq b.o
SameStroke(a, b) == a.w \doteq b.w /\ a.c = b.c /\ a.o \doteq b.o /\ a.d = b.d
SameSettings(p, f, s) == SameFill(p.f, f) /\ SameStroke(p.s, s)

(***************************************************************************)
(* How the elements of a drawing method are painted: a sequence of         *)
(* [k |-> kind, paint |-> "fill" or "stroke", f or s |-> settings]         *)
(***************************************************************************)
Filled(k, f) == [k |-> k, paint |-> "fill", f |-> f]
Stroked(k, s) == [k |-> k, paint |-> "stroke", s |-> s]
\* a path, filled or stroked
PathPaint(p, c, fill) == IF fill THEN Filled("path", FillWith(p.f, c, <<>>)) ELSE Stroked("path", StrokeWith(p.s, <<>>, c, <<>>, <<>>))
\* n circles in the given colors in turn (none given: the color set)
Cycle(cs, i) == IF cs = <<>> THEN <<>> ELSE cs[((i - 1) % Len(cs)) + 1]
Circles(p, n, cs, fill) ==
    [i \in 1..n |-> IF fill THEN Filled("circle", FillWith(p.f, Cycle(cs, i), <<>>))
                    ELSE Stroked("circle", StrokeWith(p.s, <<>>, Cycle(cs, i), <<>>, <<>>))]
Black == <<0, 0, 0>>
\* the control polygon, its points and their labels
Skeleton(p, n, lc, pcs) == <<PathPaint(p, lc, FALSE)>> \o Circles(p, n, pcs, TRUE)
                           \o [i \in 1..n |-> Filled("text", FillWith(p.f, <<Black>>, <<>>))]
\* and the lines of the construction of a point, half opaque if a color is given
HullLines(p, n, lc) ==
    [i \in 1..(n - 2) |-> Stroked("path", StrokeWith(p.s, <<>>, lc, IF lc = <<>> THEN <<>> ELSE <<RDiv(1, 2)>>, <<>>))]
ArrowPaint(p, c) == <<Stroked("arrow", StrokeWith(p.s, <<>>, c, <<>>, <<"2, 1">>))>>

\* e: the element recorded, x: what is expected
PaintedAs(e, x) ==
    /\ e.k = x.k
    /\ IF x.paint = "fill" THEN e.fill # <<>> /\ SameFill(e.fill[1], x.f) /\ e.stroke = <<>>
       ELSE e.stroke # <<>> /\ SameStroke(e.stroke[1], x.s) /\ e.fill = <<>>
AllPainted(es, xs) == Len(es) = Len(xs) /\ \A i \in DOMAIN es : PaintedAs(es[i], xs[i])

(***************************************************************************)
(* Outlines                                                                *)
(***************************************************************************)
\* lines through points
LinesThrough(ps) == TLCEval([i \in 1..(Len(ps) - 1) |-> <<ps[i], ps[i + 1]>>])
\* path data gs describes one open subpath: the lines through ps
DescribesLines(gs, ps) ==
    LET s == Read(gs)
    IN  /\ s.ok /\ Len(s.subs) = 1
        /\ PEq(s.subs[1].start, ps[1]) /\ ~s.subs[1].closed
        /\ SSeqEq(Visible(s.subs[1].segs), Visible(LinesThrough(ps)))
\* about the lines through ps; lines shorter than the tolerance may be left out
RECURSIVE Thin(_, _, _)
Thin(ps, tol, k) == IF k > Len(ps) THEN <<>>
                    ELSE IF k > 1 /\ PNear(ps[k], ps[k - 1], tol) THEN Thin(ps, tol, k + 1)
                    ELSE <<ps[k]>> \o Thin(ps, tol, k + 1)
DescribesLinesNear(gs, ps, tol) ==
    LET s == Read(gs)
        sub == s.subs[1]
        got == <<sub.start>> \o [i \in DOMAIN sub.segs |-> sub.segs[i][2]]
    IN  /\ s.ok /\ Len(s.subs) = 1 /\ ~sub.closed
        /\ \A i \in DOMAIN sub.segs : Len(sub.segs[i]) = 2
        /\ LET a == Thin(got, tol, 1)
               b == Thin(ps, tol, 1)
           IN  Len(a) = Len(b) /\ \A i \in DOMAIN a : PNear(a[i], b[i], tol)
\* the lines of the construction of the point at t which drawHull adds: all levels between the polygon and the point
ConstructionLines(c, t) == LET l == Levels(c, t) IN SubSeq(l, 2, Len(c) - 1)
=============================================================================
