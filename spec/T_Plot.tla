------------------------------- MODULE T_Plot -------------------------------
(* C27, C28: the plotter *)
EXTENDS TraceBase, Plotter

(***************************************************************************)
(* The state: the settings and stacks of each plotter of the session.      *)
(* Every event tells the plotter (a.pl) and carries its settings after the *)
(* call (ev.f, ev.st) and, for drawing methods, the elements added (ev.r). *)
(* a.what: "settings" for C27, "outline" for C28.                          *)
(***************************************************************************)
StartImpl == <<>>

Settings(p, ev) == Ok(ev, Cl("settings", SameSettings(p, ev.f, ev.st)))
Change(p, ev) == [st |-> p, cl |-> Settings(p, ev)]
Kept(ev) == Pure(ev)

\* C27
Paint(st0, ev) ==
    LET a == ev.a
        p == st0
        xs == CASE ev.op = "drawContours" -> <<PathPaint(p, a.color, a.fill)>>
                [] ev.op = "drawPaths" -> [i \in 1..a.n |-> PathPaint(p, a.color, a.fill)]
                [] ev.op \in {"drawPointsAsSegments", "drawCurve"} -> <<PathPaint(p, a.color, FALSE)>>
                [] ev.op \in {"drawPointsAsCircles", "drawComplexPointsAsCircles"} -> Circles(p, a.n, a.colors, a.fill)
                [] ev.op = "drawSkeleton" -> Skeleton(p, a.n, a.line, a.colors)
                [] ev.op = "drawHull" -> Skeleton(p, a.n, a.line, a.colors) \o HullLines(p, a.n, a.line)
                [] ev.op = "drawArrow" -> ArrowPaint(p, a.color)
                [] ev.op = "drawText" -> <<Filled("text", p.f)>>
    IN  [st |-> p, cl |-> Ok(ev, Cl("settings", SameSettings(p, ev.f, ev.st)) \o Cl("painted", AllPainted(ev.r, xs))) \o Pure(ev)]

\* C28
SameLabels(x, y) == x.n = y.n /\ x.s \doteq y.s /\ x.h \doteq y.h
\* a twentieth of what there is to show, in whole units
TwentiethOf(m, w) == m \doteq RFloor(w \oslash 20)
Page(ev) ==
    LET b == ev.a.b
        w == b[3] \ominus b[1]
        h == b[4] \ominus b[2]
        r == ev.r
    IN  Ok(ev, Cl("covers its bounds", Len(r.bounds) = 1 /\ \A i \in 1..4 : r.bounds[1][i] \doteq b[i])
               \o Cl("margins", /\ \A i \in 1..4 : TwentiethOf(r.content[i], IF i \in {1, 3} THEN w ELSE h)
                                /\ \A i \in 1..4 : r.frame[i] \doteq 10)
               \o Cl("labels", (ev.lb.s \otimes 2) \doteq r.content[4] /\ (ev.lb.h \otimes 2) \doteq r.content[4]))
Kinds(es) == [i \in DOMAIN es |-> es[i].k]
OnePath(es) == Len(es) = 1 /\ es[1].k = "path"
CirclesAt(es, ps, r, cs, fill) ==
    /\ Len(es) = Len(ps)
    /\ \A i \in DOMAIN es :
          /\ es[i].k = "circle" /\ es[i].in = "content"
          /\ PEq(es[i].p, ps[i]) /\ es[i].r \doteq r
          /\ cs # <<>> => LET c == Cycle(cs, i) IN
                c # <<>> => IF fill THEN es[i].fill # <<>> /\ es[i].fill[1].c = c[1] ELSE es[i].stroke # <<>> /\ es[i].stroke[1].c = c[1]
\* below and to the right of the points, in small letters
LabelsOf(es, ps) ==
    /\ Len(es) = Len(ps)
    /\ \A i \in DOMAIN es : /\ es[i].k = "text" /\ es[i].in = "content" /\ es[i].align = "left" /\ es[i].line \doteq 0
                            /\ es[i].lb.s \doteq 6 /\ es[i].lb.h \doteq 6
                            /\ PNear(es[i].p, Add(ps[i], <<4, -4>>), TolSeq(ps))
                            /\ PNear(es[i].says, ps[i], RDiv(51, 10000) \oplus (MaxAbs(ps[i]) \otimes RDiv(1, 1000000000)))
SkeletonOf(es, ps, cs) ==
    LET n == Len(ps)
    IN  /\ Len(es) = 1 + 2 * n
        /\ es[1].k = "path" /\ DescribesLines(es[1].d, ps)
        /\ CirclesAt(SubSeq(es, 2, n + 1), ps, 2, cs, TRUE)
        /\ LabelsOf(SubSeq(es, n + 2, 2 * n + 1), ps)
Outline(st0, ev) ==
    LET a == ev.a
        es == ev.r
    IN V(st0, Ok(ev,
    CASE ev.op = "drawContours" -> Cl("outline drawn", OnePath(es) /\ Describes(es[1].d, a.cs, a.close))
      [] ev.op = "drawCurve" -> Cl("curve drawn", OnePath(es) /\ Describes(es[1].d, <<<<a.c>>>>, FALSE))
      [] ev.op = "drawPaths" ->
            Cl("paths drawn", Len(es) = Len(a.cs) /\ \A i \in DOMAIN es :
                  es[i].k = "path" /\ (Describes(es[i].d, <<a.cs[i]>>, FALSE) \/ (a.close /\ Describes(es[i].d, <<a.cs[i]>>, TRUE))))
      [] ev.op = "drawPointsAsSegments" -> Cl("lines drawn", OnePath(es) /\ DescribesLines(es[1].d, a.p))
      [] ev.op \in {"drawPointsAsCircles", "drawComplexPointsAsCircles"} -> Cl("circles drawn", CirclesAt(es, a.p, a.r, a.colors, a.fill))
      [] ev.op = "drawSkeleton" -> Cl("control polygon drawn", SkeletonOf(es, a.p, a.colors))
      [] ev.op = "drawHull" ->
            LET m == 1 + 2 * Len(a.p)
                xs == ConstructionLines(a.p, a.t)
            IN  IF Len(es) # m + Len(xs) THEN Cl("construction lines drawn", FALSE)
                ELSE Cl("control polygon drawn", SkeletonOf(SubSeq(es, 1, m), a.p, a.colors))
                     \o Cl("construction lines drawn", \A i \in DOMAIN xs :
                           es[m + i].k = "path" /\ DescribesLinesNear(es[m + i].d, xs[i], TolSeq(a.p)))
      [] ev.op = "drawArrow" ->
            Cl("arrow drawn", Len(es) = 1 /\ es[1].k = "arrow" /\ es[1].in = "content" /\ PEq(es[1].p, a.p) /\ PEq(es[1].q, a.q)
                              /\ es[1].style = a.style /\ es[1].position = a.position)
      [] ev.op = "drawText" ->
            Cl("text drawn", Len(es) = 1 /\ es[1].k = "text" /\ es[1].in = a.in /\ PEq(es[1].p, a.p) /\ es[1].text = a.text /\ es[1].align = a.align
                             /\ es[1].line \doteq 0 /\ SameLabels(es[1].lb, ev.lb)))
    \o Pure(ev))

JudgePlotter(p, ev) ==
    LET a == ev.a
    IN
    CASE ev.op = "pushFillAttributes" -> Change(PushFill(p, a.color, a.opacity), ev)
      [] ev.op = "popFillAttributes" -> Change(PopFill(p), ev)
      [] ev.op = "pushStrokeAttributes" -> Change(PushStroke(p, a.width, a.color, a.opacity, a.dash), ev)
      [] ev.op = "popStrokeAtributes" -> Change(PopStroke(p), ev)
      [] ev.op = "setFill" -> Change([p EXCEPT !.f = FillWith(@, a.color, a.opacity)], ev)
      [] ev.op = "setStroke" -> Change([p EXCEPT !.s = StrokeWith(@, a.width, a.color, a.opacity, a.dash)], ev)
      [] ev.op = "setLabel" -> V(p, Ok(ev, Cl("label font", SameLabels(ev.lb, a.lb))))
      [] OTHER -> IF a.what = "settings" THEN Paint(p, ev) ELSE Outline(p, ev)
\* the other plotters stay as they are
JudgeImpl(st0, ev) ==
    IF ev.op = "plotter" THEN [st |-> Append(st0, Plotter0(ev.f, ev.st)), cl |-> IF ev.a.what = "settings" THEN Ok(ev, None) ELSE Page(ev)]
    ELSE LET j == JudgePlotter(st0[ev.a.pl], ev) IN [st |-> [st0 EXCEPT ![ev.a.pl] = j.st], cl |-> j.cl]
=============================================================================
