----------------------------- MODULE T_Contour -----------------------------
(* C14, C20, C21, C29: contours and outlines *)
EXTENDS TraceBase, Contours

(***************************************************************************)
(* The state: the curves (control points) of each contour object of the    *)
(* session.                                                                *)
(***************************************************************************)
StartImpl == <<>>

E7 == RDiv(1, 10000000)
\* bounds rectangles of curves touch them and contain them
Tight1(cs, lo, hi, tol) ==
    /\ \A i \in DOMAIN cs : PLe(cs[i], hi \oplus tol) /\ PGe(cs[i], lo \ominus tol)
    /\ \E i \in DOMAIN cs : PReaches(cs[i], hi \ominus tol)
    /\ \E i \in DOMAIN cs : PReaches(PNeg(cs[i]), RNeg(lo) \ominus tol)
TightRect(ps, q) ==
    LET tol == Tol(MaxAbsSeq(Flat(ps)))
    IN  /\ ~q.empty
        /\ Tight1(TLCEval([i \in DOMAIN ps |-> Coord(ps[i], 1)]), L(q), R(q), tol)
        /\ Tight1(TLCEval([i \in DOMAIN ps |-> Coord(ps[i], 2)]), B(q), T(q), tol)
RectNear(q, s, tol) == q.empty = s.empty /\ \A i \in 1..4 : RNear(q.e[i], s.e[i], tol)

\* r = [dist, p, at]: p, said to be the closest point to q, is at parameter at.t of curve at.c
OnContour(cs, r, tol) == /\ r.at.c \in DOMAIN cs /\ 0 \preceq r.at.t /\ r.at.t \preceq 1
                         /\ PNear(Eval(cs[r.at.c], r.at.t), r.p, tol)
DistOk(q, r, tol) == RSign(r.dist) >= 0
                     /\ LET d == Dist2(q, r.p) IN RNear(RSq(r.dist), d, tol \otimes (r.dist \oplus tol))
NoneCloser(table, q, r, tol) == \A i \in DOMAIN table : RSq(RMax(0, r.dist \ominus tol)) \preceq Dist2(q, table[i])

\* the parts of curves between the neighbors of the table entry nearest to q: sequence of
\* << curve, from, to >>, empty if no entry is clearly the nearest
Closest(table, q, tol) ==
    LET d == TLCEval([i \in DOMAIN table |-> Dist2(q, table[i])])
        m == RMinSeq(d)
    IN  {i \in DOMAIN d : d[i] \preceq (m \oplus tol)}
Around(k, n) == <<RDiv(IF k = 0 THEN 0 ELSE k - 1, n - 1), RDiv(IF k = n - 1 THEN k ELSE k + 1, n - 1)>>
SearchParts(cs, n, q, tol) ==
    LET table == ContourTable(cs, n)
        near == Closest(table, q, tol)
    IN  IF near = {1, Len(table)} /\ Len(table) > 1 /\ PEq(cs[1][1], cs[Len(cs)][Len(cs[Len(cs)])])
        THEN << <<1>> \o Around(0, n), <<Len(cs)>> \o Around(n - 1, n) >>      \* where a closed contour starts and ends
        ELSE IF Cardinality(near) # 1 THEN <<>>
        ELSE LET l == Locate(CHOOSE i \in near : TRUE, n)
                 own == << <<l[1]>> \o Around(l[2], n) >>
             IN  IF l[2] = n - 1 /\ l[1] < Len(cs) THEN own \o << <<l[1] + 1>> \o Around(0, n) >> ELSE own
\* those on which the squared distance is convex: << squared distance, bound of the speed >>
RECURSIVE ConvexParts(_, _, _)
ConvexParts(cs, ps, q) ==
    IF ps = <<>> THEN <<>>
    ELSE LET h == Head(ps)
             part == Part(cs[h[1]], h[2], h[3])
             d == DistPoly(part, q)
             v == Derivative(part)
         IN  (IF Convex(d)
              THEN << <<d, SqrtUp(RMaxSeq(TLCEval([k \in DOMAIN v |-> Norm2(v[k])]))) \oslash (h[3] \ominus h[2])>> >>
              ELSE <<>>) \o ConvexParts(cs, Tail(ps), q)
\* there, the nearest point is found up to a parameter difference of 1/400
RefinedOk(d, speed, r, tol) ==
    RSq(RMax(0, (r.dist \ominus (RDiv(1, 400) \otimes speed)) \ominus tol)) \preceq ConvexMin(d, 24)

\* direction of a curve
NonDec(y) == \A i \in 1..(Len(y) - 1) : y[i] \preceq y[i + 1]
NonInc(y) == \A i \in 1..(Len(y) - 1) : y[i + 1] \preceq y[i]
Direction(p) == LET y == Coord(p, 2) IN
    IF Len(p) = 2 THEN (IF y[1] \doteq y[2] THEN "flat" ELSE IF y[1] \prec y[2] THEN "up" ELSE "down")
    ELSE IF Len(p) <= 4 /\ NonDec(y) THEN "up" ELSE IF Len(p) <= 4 /\ NonInc(y) THEN "down" ELSE "mixed"

JudgeImpl(st0, ev) ==
    LET a == ev.a
        r == ev.r
        cs == st0[a.i]
        conn == Connected(cs)
        mag == MaxAbsSeq(Flat(cs))
        tol == Tol(mag)
        J(cl) == V(st0, Ok(ev, cl) \o Pure(ev))
        New(c) == Append(st0, c)
    IN
    CASE ev.op = "contour" ->       \* r: the curves when iterating, by index, and .beziers
            [st |-> New(a.c), cl |-> Ok(ev, Cl("curves kept", \A k \in DOMAIN r : SSeqEq(r[k], a.c))) \o Pure(ev)]
      [] ev.op = "outline" ->       \* r: the contours by each way to get at them
            [st |-> st0 \o a.cs, cl |-> Ok(ev, Cl("contours kept", \A k \in DOMAIN r : CSeqEq(r[k], a.cs))) \o Pure(ev)]
      [] ev.op = "outlineBounds" ->      \* all the contours belong to the outline
            LET all == Flat(st0)
            IN  V(st0, Ok(ev, Cl("outline bounds", TightRect(all, r)) \o Cl("as new", RectNear(r, ev.f, Tol(MaxAbsSeq(Flat(all)))))) \o Pure(ev))
      \* C14: edits
      [] ev.op = "set" -> LET k == PyIndex(a.k, Len(cs))
                          IN [st |-> [st0 EXCEPT ![a.i][k] = a.c], cl |-> Ok(ev, None) \o Pure(ev)]
      [] ev.op = "del" -> LET k == PyIndex(a.k, Len(cs))
                          IN [st |-> [st0 EXCEPT ![a.i] = DeleteAt(@, k)], cl |-> Ok(ev, None)]
      \* queries; ev.f is what a new contour made of the same curves answers
      [] ev.op = "curves" -> J(Cl("curves kept", \A k \in DOMAIN r : SSeqEq(r[k], cs)))
      [] ev.op = "item" -> J(Cl("item", PSeqEq(r, cs[PyIndex(a.k, Len(cs))])))
      [] ev.op = "ends" -> J(Cl("ends", PEq(r[1], cs[1][1]) /\ PEq(r[2], cs[Len(cs)][Len(cs[Len(cs)])])))
      [] ev.op = "bounds" -> J(Cl("bounds", TightRect(cs, r)) \o Cl("as new", RectNear(r, ev.f, tol)))
      [] ev.op = "lut" -> J(Cl("as new", PSeqNear(r, ev.f, tol))
                            \o If(conn, Cl("table", PSeqNear(r, ContourTable(cs, a.n), tol))))
      [] ev.op = "closest" ->
            J(Cl("as new", RNear(r.dist, ev.f.dist, Tol(RMax(mag, MaxAbs(a.q)))) /\ PNear(r.p, ev.f.p, Tol(RMax(mag, MaxAbs(a.q))))))
      [] ev.op = "d" -> J(Cl("as new", Read(r).ok /\ Read(ev.f).ok /\ Len(r) = Len(ev.f)
                                       /\ \A k \in DOMAIN r : r[k].c = ev.f[k].c /\ Len(r[k].n) = Len(ev.f[k].n)
                                                              /\ \A m \in DOMAIN r[k].n : r[k].n[m] \doteq ev.f[k].n[m])
                          \o If(conn, Cl("path data", Describes(r, <<cs>>, FALSE))))
      \* C20
      [] ev.op = "closestPoint" ->
            LET t == Tol(RMax(mag, MaxAbs(a.q)))
            IN  J(Cl("on the contour", OnContour(cs, r, E7 \otimes RMax(mag, E6)))
                  \o Cl("distance", DistOk(a.q, r, t))
                  \o Cl("no sample is closer", NoneCloser(ContourTable(cs, a.n), a.q, r, t))
                  \o (LET ps == ConvexParts(cs, SearchParts(cs, a.n, a.q, t \otimes RMax(mag, MaxAbs(a.q))), a.q)
                      IN  If(ps # <<>>, Cl("refined", \A k \in DOMAIN ps : RefinedOk(ps[k][1], ps[k][2], r, t)))))
      [] ev.op = "closestAgain" -> J(Cl("same answer again", RNear(r.dist, a.d, tol) /\ PNear(r.p, a.p, tol)))
      \* C21
      [] ev.op = "pathData" -> J(Cl("path data", Describes(r, <<cs>>, FALSE)))
      \* C29
      [] ev.op = "curve" -> V(st0, Ok(ev, Cl("control points kept", \A k \in DOMAIN r : PSeqEq(r[k], a.p))) \o Pure(ev))
      [] ev.op = "direction" -> V(st0, Ok(ev, Cl("direction", r = Direction(a.p))) \o Pure(ev))
      [] ev.op = "unzip" -> V(st0, Ok(ev, Cl("unzip", /\ Len(r) = 2 /\ Len(r[1]) = Len(a.p) /\ Len(r[2]) = Len(a.p)
                                                      /\ \A k \in DOMAIN a.p : r[1][k] \doteq X(a.p[k]) /\ r[2][k] \doteq Y(a.p[k]))) \o Pure(ev))
      [] ev.op = "flatten" -> V(st0, Ok(ev, Cl("flatten", SSeqEq(r, Flat(a.cs)))) \o Pure(ev))
      [] ev.op = "rebuilt" -> V(st0, Ok(ev, Cl("rebuilt", CSeqEq(r, a.cs))) \o Pure(ev))
      [] ev.op = "xy" -> V(st0, Ok(ev, Cl("xy", PEq(r[1], a.p) /\ PEq(r[2], a.p))) \o Pure(ev))
=============================================================================
