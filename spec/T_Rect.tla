------------------------------- MODULE T_Rect -------------------------------
(* C03, C04: bounds rectangles *)
EXTENDS TraceBase, Rect

\* the state: the rectangles made so far in this session
StartImpl == <<>>

Near(a, b, m) == RNear(a, b, Tol(m))

JudgeImpl(rs, ev) ==
    LET a == ev.a
        r == ev.r
    IN
    CASE ev.op = "points" ->     \* BoundsRectangle(*points)
            [st |-> Append(rs, Bounds(a.p)),
             cl |-> Ok(ev, Cl("tightest", REq4(r, Bounds(a.p)))) \o Pure(ev)]
      [] ev.op = "fromContour" ->
            [st |-> Append(rs, Bounds(Flat(a.c))),
             cl |-> Ok(ev, Cl("tightest", REq4(r, Bounds(Flat(a.c))))) \o Pure(ev)]
      [] ev.op = "fromContours" ->
            [st |-> Append(rs, Bounds(Flat(Flat(a.cs)))),
             cl |-> Ok(ev, Cl("tightest", REq4(r, Bounds(Flat(Flat(a.cs)))))) \o Pure(ev)]
      [] ev.op = "read" ->       \* rectangle number a.i read again
            V(rs, Ok(ev, Cl("unchanged", REq4(r, rs[a.i]))))
      [] ev.op = "measures" ->
            LET q == rs[a.i]
                m == RMaxSeq([i \in 1..4 |-> RAbs(q.e[i])])
                w == R(q) \ominus L(q)
                h == T(q) \ominus B(q)
                c == Corners(q)
            IN  V(rs, Ok(ev,
                  Cl("width", Near(r.width, w, m)) \o Cl("height", Near(r.height, h, m))
                  \o Cl("area", RNear(r.area, w \otimes h, Tol(m) \otimes RMax(1, m)))
                  \o Cl("diagonal", PSeqEq(r.diagonal, <<c[1], c[3]>>))
                  \o Cl("contour", SSeqEq(r.contour, [i \in 1..4 |-> <<c[i], c[(i % 4) + 1]>>]))
                  \o Cl("center", PNear(r.center, MidPt(c[1], c[3]), Tol(m)))
                  \o Cl("points", \A i \in 1..4 : r.points[i] \doteq q.e[i]) \o Cl("points", Len(r.points) = 4)
                  \o Cl("y by percentage", Near(r.yFromBottom, B(q) \oplus (a.pc \otimes h), m \otimes RMax(1, RAbs(a.pc))))
                  \o Cl("x by percentage", Near(r.xFromLeft, L(q) \oplus (a.pc \otimes w), m \otimes RMax(1, RAbs(a.pc))))))
      [] ev.op = "enclosesPoint" ->
            V(rs, Ok(ev, Cl("encloses point", r = Has(rs[a.i], a.p))))
      [] ev.op = "crosses" ->
            LET q == rs[a.i]
            IN V(rs, Ok(ev, Cl("crosses x", r[1] = (~q.empty /\ L(q) \preceq a.x /\ a.x \preceq R(q)))
                         \o Cl("crosses y", r[2] = (~q.empty /\ B(q) \preceq a.y /\ a.y \preceq T(q)))))
      [] ev.op = "union" ->
            LET u == Union(rs[a.i], rs[a.j])
            IN [st |-> Append(rs, u),
                cl |-> Ok(ev, Cl("union is least", REq4(r, u))) \o Pure(ev)]
      [] ev.op = "unions" ->     \* several unions in some order and grouping
            LET u == UnionAll([k \in DOMAIN a.is |-> rs[a.is[k]]])
            IN V(rs, Ok(ev, Cl("unions associate", REq4(r, u))) \o Pure(ev))
      [] ev.op = "intersection" ->
            LET meet == Meet(rs[a.i], rs[a.j])
            IN [st |-> IF meet THEN Append(rs, Inter(rs[a.i], rs[a.j])) ELSE rs,
                cl |-> IF ~meet THEN Cl("no intersection", ev.k = "none") \o Pure(ev)
                       ELSE Ok(ev, Cl("intersection", REq4(r, Inter(rs[a.i], rs[a.j])))) \o Pure(ev)]
      [] ev.op = "encloses" ->
            V(rs, Ok(ev, Cl("encloses", r = Subset(rs[a.j], rs[a.i]))) \o Pure(ev))
      [] ev.op = "relationTo" ->
            V(rs, Ok(ev, Cl("relation", r = Relation(rs[a.i], rs[a.j]))) \o Pure(ev))
=============================================================================
