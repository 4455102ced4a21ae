------------------------------ MODULE T_Curve ------------------------------
(* C07 - C12, C15: queries on single curves *)
EXTENDS TraceBase, Curve, Rect

(***************************************************************************)
(* The state: the curves of this session (their exact control points, also *)
(* those of pieces), the tolerance of each (a piece is as exact as the curve it  *)
(* comes from), and the bounds the code gave for curves.                   *)
(***************************************************************************)
StartImpl == [cs |-> <<>>, tl |-> <<>>, rs |-> <<>>]

Mag(p) == TolSeq(p)
E3 == RDiv(1, 1000)
E4 == RDiv(1, 10000)
E7 == RDiv(1, 10000000)
Percent(a, b) == RDiv(a, b)

\* regular at t: the derivative is not (all but) zero compared to the control points
Regular(p, t) == LET v == Velocity(p, t)
                     d == Derivative(p)
                 IN  (E3 \otimes MaxAbsSeq(d)) \prec MaxAbs(v)
UnitTol(p, t) == LET v == MaxAbs(Velocity(p, t)) IN E9 \otimes (1 \oplus (MaxAbsSeq(p) \oslash v))

(***************************************************************************)
(* C10: bounds                                                             *)
(***************************************************************************)
Tight1(cs, lo, hi, tol) ==     \* cs: coordinate polynomials of all the curves
    /\ lo \preceq hi
    /\ \A i \in DOMAIN cs : PLe(cs[i], hi \oplus tol) /\ PGe(cs[i], lo \ominus tol)
    /\ \E i \in DOMAIN cs : PReaches(cs[i], hi \ominus tol)
    /\ \E i \in DOMAIN cs : PReaches(PNeg(cs[i]), RNeg(lo) \ominus tol)
TightRect(ps, q) ==
    LET tol == Tol(MaxAbsSeq(Flat(ps)))
        X1 == TLCEval([i \in DOMAIN ps |-> Coord(ps[i], 1)])
        Y1 == TLCEval([i \in DOMAIN ps |-> Coord(ps[i], 2)])
    IN  ~q.empty /\ Tight1(X1, L(q), R(q), tol) /\ Tight1(Y1, B(q), T(q), tol)

RECURSIVE Insert(_, _), Sorted(_)
Insert(x, s) == IF s = <<>> \/ x \preceq s[1] THEN <<x>> \o s ELSE <<s[1]>> \o Insert(x, Tail(s))
Sorted(s) == IF s = <<>> THEN <<>> ELSE Insert(s[1], Sorted(Tail(s)))
\* between neighboring parameters of ts (and the ends) the coordinate does not turn
NoTurn(c, ts) ==
    LET s == Sorted(<<0, 1>> \o ts)
        tol == E7 \otimes RMax(PMag(PolyDeriv(c)), E6)
    IN  \A i \in 1..(Len(s) - 1) :
           (E6 \prec (s[i + 1] \ominus s[i])) => OneWay(PPart(c, s[i], s[i + 1]), (s[i + 1] \ominus s[i]) \otimes tol)

(***************************************************************************)
(* C11                                                                     *)
(***************************************************************************)
\* the contour r is the smallest rectangle along the baseline of p that contains p
TightBox(p, r) ==
    LET o == p[1]
        u == Heading(Sub(p[Len(p)], p[1]))
        tol == TolSeq(p)
        f == Framed(p, o, u)
        q == TLCEval([i \in DOMAIN r |-> InFrame(r[i][1], o, u)])
        lx == RMinSeq(Xs(q))
        hx == RMaxSeq(Xs(q))
        ly == RMinSeq(Ys(q))
        hy == RMaxSeq(Ys(q))
        \* each side of the contour runs along a side of the frame
        side(i) == LET e == InFrame(Sub(r[i][2], r[i][1]), <<0, 0>>, u)
                   IN  RAbs(X(e)) \preceq tol \/ RAbs(Y(e)) \preceq tol
    IN  /\ Len(r) = 4 /\ \A i \in 1..4 : Len(r[i]) = 2 /\ PNear(r[i][2], r[(i % 4) + 1][1], tol) /\ side(i)
        \* the corners are four different ones
        /\ LET c == << <<lx, ly>>, <<lx, hy>>, <<hx, ly>>, <<hx, hy>> >>
           IN  \A k \in 1..4 : \E i \in 1..4 : PNear(q[i], c[k], tol)
        /\ Tight1(<<Coord(f, 1)>>, lx, hx, tol) /\ Tight1(<<Coord(f, 2)>>, ly, hy, tol)

(***************************************************************************)
(* C15                                                                     *)
(***************************************************************************)
Bracket(p, r, lo, hi, depth) ==
    /\ RSign(r) >= 0
    /\ (lo \otimes ChordSum(p, depth)) \preceq (r \oplus E12)
    /\ r \preceq (hi \otimes PolygonSum(p, depth))
\* the derivative of the curve is the square of the complex linear function from w0 to w1
IsPH(p, w0, w1) ==
    LET d == Derivative(p)
        sq(a, b) == <<(X(a) \otimes X(b)) \ominus (Y(a) \otimes Y(b)), (X(a) \otimes Y(b)) \oplus (Y(a) \otimes X(b))>>
    IN  Len(d) = 3 /\ PNear(d[1], sq(w0, w0), E9) /\ PNear(d[2], sq(w0, w1), E9) /\ PNear(d[3], sq(w1, w1), E9)
PHLength(w0, w1) == RSum(<<Norm2(w0), Dot(w0, w1), Norm2(w1)>>) \oslash 3
\* all control points on a line and in order: the length is that of the chord
Straight(p) == LET u == Sub(p[Len(p)], p[1])
               IN  /\ \A i \in DOMAIN p : RSign(Cross(u, Sub(p[i], p[1]))) = 0
                   /\ \A i \in 1..(Len(p) - 1) : RSign(Dot(u, Sub(p[i + 1], p[i]))) >= 0
                   /\ ~PEq(p[1], p[Len(p)]) \/ \A i \in DOMAIN p : PEq(p[i], p[1])

JudgeImpl(st0, ev) ==
    LET a == ev.a
        r == ev.r
        p == st0.cs[a.i]
        tol == st0.tl[a.i]
        J(cl) == V(st0, Ok(ev, cl) \o Pure(ev))
        Grow(ps) == [st0 EXCEPT !.cs = @ \o ps, !.tl = @ \o [i \in DOMAIN ps |-> tol]]
    IN
    CASE ev.op = "make" ->
            [st |-> [st0 EXCEPT !.cs = Append(@, a.p), !.tl = Append(@, TolSeq(a.p))], cl |-> Ok(ev, Cl("control points", PSeqEq(r, a.p))) \o Pure(ev)]
      [] ev.op = "controlPoints" -> J(Cl("control points", PSeqNear(r, p, tol)))
      \* C07
      [] ev.op = "get" -> J(IF RSign(a.t) = 0 THEN Cl("start", PEq(r, p[1]))
                            ELSE IF a.t \doteq 1 THEN Cl("end", PEq(r, p[Len(p)]))
                            ELSE Cl("point", PNear(r, Eval(p, a.t), tol)))
      [] ev.op = "midpoint" -> J(Cl("midpoint", PNear(r, Eval(p, Half), tol)))
      [] ev.op = "ends" -> J(Cl("ends", /\ PEq(r.start, p[1]) /\ PEq(<<r.startX, r.startY>>, p[1])
                                        /\ PEq(r.end, p[Len(p)]) /\ PEq(<<r.endX, r.endY>>, p[Len(p)])
                                        /\ r.order = Order(p)))
      [] ev.op = "getLUT" -> J(Cl("table size", Len(r) = a.n)
                               \o Cl("table ends", r # <<>> /\ PEq(r[1], p[1]) /\ PEq(r[Len(r)], p[Len(p)]))
                               \o Cl("table points", PSeqNear(r, Table(p, a.n), tol)))
      \* C08
      [] ev.op = "split" -> LET l == Before(p, a.t)
                                q == After(p, a.t)
                            IN [st |-> Grow(<<l, q>>),
                                cl |-> Ok(ev, Cl("split left", PSeqNear(r[1], l, tol)) \o Cl("split right", PSeqNear(r[2], q, tol))
                                              \o Cl("split joined", PSeqEq(<<r[1][Len(r[1])]>>, <<r[2][1]>>))) \o Pure(ev)]
      [] ev.op = "split2" -> LET q == Part(p, a.t1, a.t2)
                             IN [st |-> Grow(<<q>>),
                                 cl |-> Ok(ev, Cl("split part", PSeqNear(r, q, tol))) \o Pure(ev)]
      [] ev.op = "hull" -> J(Cl("hull", PSeqNear(r, Hull(p, a.t), tol)))
      \* C09
      [] ev.op = "raiseOrder" -> LET q == Raised(p)
                                 IN [st |-> Grow(<<q>>), cl |-> Ok(ev, Cl("raised", PSeqNear(r, q, tol))) \o Pure(ev)]
      [] ev.op = "getABC" ->
            LET l == Levels(p, a.t)
                A == IF Len(p) = 3 THEN p[2] ELSE l[2][2]
                B1 == Eval(p, a.t)
                AB == Sub(A, B1)
                base == Sub(p[Len(p)], p[1])
                k == RAbs(Cross(base, AB))
                scale == MaxAbs(base) \otimes MaxAbs(AB)
                \* well conditioned
                good == RSign(k) > 0 /\ (E3 \otimes scale) \prec k /\ (E3 \otimes MaxAbsSeq(p)) \prec MaxAbs(AB) /\ (E3 \otimes MaxAbsSeq(p)) \prec MaxAbs(base)
                tolc == E6 \otimes MaxAbsSeq(p)
            IN V(st0, IF ~good THEN None
                 ELSE Ok(ev, Cl("A", PNear(r.A, A, tol)) \o Cl("B", PNear(r.B, B1, tol)) \o Cl("hull", PSeqNear(r.hull, Hull(p, a.t), tol))
                        \o Cl("C on the baseline", Len(r.C) = 1 /\ RAbs(Cross(Sub(r.C[1], p[1]), base)) \preceq (tolc \otimes MaxAbs(base)))
                        \o Cl("C on AB", Len(r.C) = 1 /\ RAbs(Cross(Sub(r.C[1], B1), AB)) \preceq (tolc \otimes MaxAbs(AB)))
                        \o Cl("ratio", Len(r.C) = 1 /\ RSign(r.ratio) >= 0
                               /\ RNear(Norm2(Sub(r.C[1], B1)), RSq(r.ratio) \otimes Norm2(AB), E4 \otimes (RSq(MaxAbsSeq(p)) \oplus Norm2(Sub(r.C[1], B1))))))
                      \o Pure(ev))
      \* C10
      [] ev.op = "bbox" -> J(Cl("bbox", TightRect(<<p>>, MkRect(r[1][1], r[2][1], r[1][2], r[2][2]))))
      [] ev.op = "bounds" -> [st |-> [st0 EXCEPT !.rs = Append(@, r)], cl |-> Ok(ev, Cl("bounds", TightRect(<<p>>, r))) \o Pure(ev)]
      [] ev.op = "extrema" -> J(Cl("extrema in [0, 1]", \A d \in 1..2 : \A i \in DOMAIN r[d] : 0 \preceq r[d][i] /\ r[d][i] \preceq 1)
                                \o Cl("no turn between extrema", \A d \in 1..2 : NoTurn(Coord(p, d), r[d])))
      [] ev.op = "overlaps" -> J(Cl("overlaps", r = Meet(st0.rs[a.i], st0.rs[a.j])))
      [] ev.op = "skeletonBounds" ->       \* the bounds of the control points, with room to the right
            J(Cl("skeleton bounds", LET b == Bounds(p)
                                    IN  /\ ~r.empty /\ L(r) \doteq L(b) /\ B(r) \doteq B(b) /\ T(r) \doteq T(b)
                                        /\ RNear(R(r), R(b) \oplus 40, Tol(RAbs(R(b)) \oplus 40))))
      [] ev.op = "outlineBounds" -> V(st0, Ok(ev, Cl("outline bounds", TightRect(a.c, r))) \o Pure(ev))
      \* C11
      [] ev.op = "align" -> LET f == Framed(p, a.s[1], Heading(Sub(a.s[Len(a.s)], a.s[1])))
                            IN  J(Cl("align", PSeqNear(r, f, Tol(RMax(MaxAbsSeq(p), MaxAbsSeq(a.s))))))
      [] ev.op = "tightbbox" -> J(Cl("tight box", TightBox(p, r)))
      \* C12
      [] ev.op = "dcPoints" ->
            J(Cl("derivatives", LET ds == Derivatives(p)
                                IN  Len(r) = Len(ds) /\ \A k \in DOMAIN ds : PSeqNear(r[k], ds[k], tol \otimes RPow(2 * Order(p), k))))
      [] ev.op = "normal" -> V(st0, IF Regular(p, a.t) THEN Ok(ev, Cl("normal", LeftUnit(r, Velocity(p, a.t), UnitTol(p, a.t)))) \o Pure(ev) ELSE None)
      [] ev.op = "offset" -> V(st0, IF ~Regular(p, a.t) THEN None
                                    ELSE Ok(ev, Cl("offset", Len(r) = 3
                                         /\ LET e == Eval(p, a.t)
                                            IN  /\ PNear(r[1], e, tol)
                                                /\ LeftUnit(r[2], Velocity(p, a.t), UnitTol(p, a.t))
                                                /\ PNear(r[3], Add(e, Mul(a.d, r[2])), Tol(MaxAbsSeq(p) \oplus RAbs(a.d))))) \o Pure(ev))
      \* C15
      [] ev.op = "length" ->
            J((IF Len(p) = 2 \/ Straight(p)
               THEN Cl("length of a straight line", LET l == Length(Sub(p[Len(p)], p[1])) IN RNear(r, l, E6 \otimes l))
               ELSE Cl("length", Bracket(p, r, RDiv(995, 1000), RDiv(1005, 1000), 6)))
              \o If(ev.prec # 0, Cl("precision", ev.prec = 1)))
      [] ev.op = "lengthPH" ->
            J(Cl("given", IsPH(p, a.w0, a.w1)) \o Cl("length of a curve of polynomial speed",
                 LET l == PHLength(a.w0, a.w1) IN RNear(r, l, E6 \otimes l)))
      [] ev.op = "lengthSplit" ->     \* r: lengths of the whole and of the parts
            J(Cl("lengths add up", RNear(r[1], RSum(Tail(r)), RDiv(5, 1000) \otimes r[1])))
      [] ev.op = "lengthBack" -> J(Cl("length both ways", RNear(r[1], r[2], E9 \otimes r[1])))
=============================================================================
