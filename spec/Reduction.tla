----------------------------- MODULE Reduction -----------------------------
(***************************************************************************)
(* Simple curves, reduction to simple curves, and offsets.                 *)
(***************************************************************************)
EXTENDS Curve

(***************************************************************************)
(* A curve is simple if its control points are on one side of the line     *)
(* through its ends and the normals at its ends differ by less than 60     *)
(* degrees.  Certainly/never leave out what rounding could change.         *)
(***************************************************************************)
Side(p, i) == Cross(Sub(p[Len(p)], p[1]), Sub(p[i], p[1]))
SideTol(p) == E9 \otimes (RSq(MaxAbsSeq(Derivative(p))) \oplus (E6 \otimes MaxAbsSeq(p)))
Legs1(p) == Sub(p[2], p[1])
LegsN(p) == Sub(p[Len(p)], p[Len(p) - 1])
CosSign(p, k) == \* the sign of cos(angle between end tangents) - k, k >= 0
    LET u == Legs1(p)
        v == LegsN(p)
        d == Dot(u, v)
        z == Norm2(u) \otimes Norm2(v)
    IN  IF RSign(d) < 0 THEN -1 ELSE RSign(RSq(d) \ominus (RSq(k) \otimes z))
Sided(p) == Len(p) # 4 \/ RSign(Side(p, 2)) * RSign(Side(p, 3)) >= 0
Simple(p) == Sided(p) /\ CosSign(p, Half) > 0
CertainlySimple(p) ==
    /\ Len(p) = 4 => (\A i \in 2..3 : SideTol(p) \prec RAbs(Side(p, i))) /\ Sided(p)
    /\ CosSign(p, Half \oplus E9) > 0
NeverSimple(p) ==
    \/ Len(p) = 4 /\ (\A i \in 2..3 : SideTol(p) \prec RAbs(Side(p, i))) /\ ~Sided(p)
    \/ CosSign(p, Half \ominus E9) < 0

\* the control polygon turns one way, by less than 120 degrees in all
Convex120(p) ==
    LET h == Derivative(p)
        n == Len(h)
        u == h[1]
        v == h[n]
        s == RSign(Cross(h[1], h[2]))
        d == Dot(u, v)
    IN  /\ s # 0
        /\ \A i \in 1..(n - 1) : RSign(Cross(h[i], h[i + 1])) = s
        /\ RSign(Cross(u, v)) = s
        /\ RSign(d) >= 0 \/ (4 \otimes RSq(d)) \prec (Norm2(u) \otimes Norm2(v))

\* no extremum strictly inside the curve
NoExtremum(p, tol) == \A d \in 1..2 : OneWay(Coord(p, d), tol)
\* one of the components of the velocity is (all but) zero at t
Extremal(p, t, tol) == LET v == Velocity(p, t) IN RAbs(X(v)) \preceq tol \/ RAbs(Y(v)) \preceq tol
\* one of the components of the acceleration is: cubics are cut there as well
Inflected(p, t) ==
    /\ Len(p) = 4
    /\ LET h == Derivative(Derivative(p))
           a == Eval(h, t)
           tol == E6 \otimes MaxAbsSeq(h)
       IN  RAbs(X(a)) \preceq tol \/ RAbs(Y(a)) \preceq tol

\* the unit vector to the left of v, to 2^-80
Left(v) == LET l == Length(v) IN <<RNeg(Y(v)) \oslash l, X(v) \oslash l>>
OffsetPoint(p, t, d) == Add(Eval(p, t), Mul(d, Left(Velocity(p, t))))
=============================================================================
