------------------------------- MODULE T_Cross -------------------------------
(* C16, C17: intersections with lines and of curves *)
EXTENDS TraceBase, Crossing

\* the state: the curves of this session
StartImpl == <<>>

E5 == RDiv(1, 100000)
E4 == RDiv(1, 10000)
E2 == RDiv(1, 100)
E7 == RDiv(1, 10000000)
Unit(t, tol) == RNeg(tol) \preceq t /\ t \preceq (1 \oplus tol)

(***************************************************************************)
(* C16                                                                     *)
(***************************************************************************)
\* coordinates are off by rounding, and by the tolerance of the equations' coefficients
Off(p, l) == (E7 \otimes RMax(MaxAbsSeq(p), MaxAbsSeq(l))) \oplus (E6 \oplus E6)
\* parameters less than 1e-6 outside of the curve count as its ends
AtEnd(p, l, t) == IF E9 \prec t /\ t \prec (1 \ominus E9) THEN Off(p, l) ELSE Off(p, l) \oplus ((E6 \oplus E9) \otimes (2 \otimes MaxAbsSeq(Derivative(p))))
OnLine(q, l, tol) == LET u == Sub(l[2], l[1]) IN RSq(Cross(u, Sub(q, l[1]))) \preceq (RSq(tol) \otimes Norm2(u))
InBox(q, l, tol) == \A d \in 1..2 : /\ (RMin(l[1][d], l[2][d]) \ominus tol) \preceq q[d]
                                    /\ q[d] \preceq (RMax(l[1][d], l[2][d]) \oplus tol)
\* steep enough to tell where the root is
Clear(c, t) == (E2 \otimes PMag(PolyDeriv(c))) \preceq RAbs(PEval(PolyDeriv(c), t))
InnerT(t) == E5 \prec t /\ t \prec (1 \ominus E5)
Found(p, t, r, tol) == \E i \in DOMAIN r : RNear(r[i], t, E4) /\ PNear(Eval(p, r[i]), Eval(p, t), tol)
Complete(p, l, r, segment) ==
    LET c == Distances(p, l)
        z == Roots(c, 12)
    IN  \A i \in DOMAIN z :
           LET s == Along(Eval(p, z[i]), l)
           IN  (InnerT(z[i]) /\ Clear(c, z[i]) /\ (segment => InnerT(s))) => Found(p, z[i], r, E4 \oplus (E6 \otimes MaxAbsSeq(p)))
LineOk(l) == ~PEq(l[1], l[2])
\* the curve does not run along the line
Apart(p, l) == LET c == Distances(p, l)
                   u == Sub(l[2], l[1])
               IN  (E4 \otimes (Length(u) \otimes RMax(1, MaxAbsSeq(Derivative(p))))) \prec PMag(c)
Strictly(c) == RSign(RMinSeq(c)) > 0 \/ RSign(RMaxSeq(c)) < 0
\* the least distance of the curve from the line is more than tol (FALSE if undecided)
Away(p, l, tol) == LET c == Distances(p, l)
                       b == tol \otimes SqrtUp(Norm2(Sub(l[2], l[1])))
                   IN  (RSign(c[1]) > 0 /\ ~PReaches1(PNeg(c), RNeg(b), 20)) \/ (RSign(c[1]) < 0 /\ ~PReaches1(c, RNeg(b), 20))

(***************************************************************************)
(* C17                                                                     *)
(***************************************************************************)
Inner3(t) == RDiv(1, 1000) \prec t /\ t \prec RDiv(999, 1000)
Close(p, q, r, thr) == \A i \in DOMAIN r : Len(r[i]) = 2 => Dist2(Eval(p, r[i][1]), Eval(q, r[i][2])) \prec RSq(2 \otimes thr)
\* a pair whose points are within the threshold of those at s and t
Pair(p, s, q, t, r, thr) == \E i \in DOMAIN r :
    /\ Dist2(Eval(p, r[i][1]), Eval(p, s)) \preceq RSq(thr)
    /\ Dist2(Eval(q, r[i][2]), Eval(q, t)) \preceq RSq(thr)

JudgeImpl(st0, ev) ==
    LET a == ev.a
        r == ev.r
        p == st0[a.i]
    IN
    CASE ev.op = "make" -> [st |-> Append(st0, a.p), cl |-> Ok(ev, Cl("control points", PSeqEq(r, a.p))) \o Pure(ev)]
      [] ev.op = "lineIntersects" ->
            V(st0, IF ~LineOk(a.l) \/ ~Apart(p, a.l) THEN None ELSE
              Ok(ev, Cl("parameters", \A i \in DOMAIN r : Unit(r[i], E6 \oplus E9))
                     \o Cl("on the segment", \A i \in DOMAIN r : LET q == Eval(p, r[i])
                            IN  OnLine(q, a.l, Off(p, a.l)) /\ InBox(q, a.l, Off(p, a.l)))
                     \o Cl("every crossing", Complete(p, a.l, r, TRUE))) \o Pure(ev))
      [] ev.op = "roots" ->
            LET l == IF a.l = <<>> THEN XAxis ELSE a.l
            IN V(st0, IF ~LineOk(l) \/ ~Apart(p, l) THEN None ELSE
                 Ok(ev, Cl("parameters", \A i \in DOMAIN r : Unit(r[i], E6 \oplus E9))
                        \o Cl("on the line", \A i \in DOMAIN r : OnLine(Eval(p, r[i]), l, Off(p, l)))
                        \o Cl("every root", Complete(p, l, r, FALSE))) \o Pure(ev))
      [] ev.op = "intersectWithLine" ->
            V(st0, IF ~LineOk(a.l) \/ ~Apart(p, a.l) THEN None ELSE
              (IF ev.k = "none"
               THEN Cl("none only if not crossed", LET c == Distances(p, a.l)
                                                       z == Roots(c, 12)
                                                   IN  \A i \in DOMAIN z : ~(InnerT(z[i]) /\ Clear(c, z[i])))
               ELSE Ok(ev, Cl("point on the line", OnLine(r, a.l, AtEnd(p, a.l, ev.at)))
                           \o Cl("point on the curve", Unit(ev.at, 0) /\ PNear(Eval(p, ev.at), r, Off(p, a.l)))
                           \o Cl("none if apart", ~Away(p, a.l, AtEnd(p, a.l, ev.at))))) \o Pure(ev))
      \* ev.x: crossings of the curves, found independently: <<parameter, parameter>>
      [] ev.op = "intersects" ->
            LET q == st0[a.j]
                tol == E7 \otimes RMax(MaxAbsSeq(p), MaxAbsSeq(q))
            IN V(st0, Ok(ev,
                 Cl("pairs of parameters", \A i \in DOMAIN r : Len(r[i]) = 2 /\ Unit(r[i][1], E9) /\ Unit(r[i][2], E9))
                 \o Cl("pairs are close", Close(p, q, r, a.thr))
                 \o Cat(TLCEval([k \in DOMAIN ev.x |->
                       If(Inner3(ev.x[k][1]) /\ Inner3(ev.x[k][2]) /\ Transversal(p, ev.x[k][1], q, ev.x[k][2], tol),
                          Cl("every crossing", Pair(p, ev.x[k][1], q, ev.x[k][2], r, (a.thr \otimes RDiv(1001, 1000)) \oplus tol)))]))) \o Pure(ev))
      \* ev.x: crossings; ev.cuts: parameters at which the pieces of the reduction begin
      [] ev.op = "selfIntersects" ->
            LET tol == E7 \otimes MaxAbsSeq(p)
                \* number of the piece, 0 if the parameter is near the end of a piece
                piece(t) == IF \E k \in DOMAIN ev.cuts : RNear(ev.cuts[k], t, RDiv(1, 1000)) THEN 0
                            ELSE Cardinality({k \in DOMAIN ev.cuts : ev.cuts[k] \prec t})
                far(s, t) == LET x == piece(s)
                                 y == piece(t)
                             IN  x # 0 /\ y # 0 /\ (x - y > 1 \/ y - x > 1)
            IN V(st0, Ok(ev,
                 Cl("pairs of parameters", \A i \in DOMAIN r : Len(r[i]) = 2 /\ Unit(r[i][1], E9) /\ Unit(r[i][2], E9))
                 \o Cl("pairs are close", Close(p, p, r, a.thr))
                 \o Cat(TLCEval([k \in DOMAIN ev.x |->
                       LET s == ev.x[k][1]
                           t == ev.x[k][2]
                       IN  If(Inner3(s) /\ Inner3(t) /\ far(s, t) /\ Transversal(p, s, p, t, tol),
                              Cl("loop found", \/ Pair(p, s, p, t, r, (a.thr \otimes RDiv(1001, 1000)) \oplus tol)
                                               \/ Pair(p, t, p, s, r, (a.thr \otimes RDiv(1001, 1000)) \oplus tol)))]))) \o Pure(ev))
=============================================================================
