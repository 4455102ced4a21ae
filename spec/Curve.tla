------------------------------- MODULE Curve -------------------------------
(***************************************************************************)
(* Bezier curves, given by their sequences of control points.              *)
(*                                                                         *)
(* A curve *is* the polynomial map Eval(p, _) from [0, 1] to the plane.    *)
(* Control points determine it and are determined by it, so two curves of  *)
(* the same order are equal exactly if their control points are.           *)
(*                                                                         *)
(* The coordinates of a curve, its derivatives and its signed distances    *)
(* from lines are polynomials in Bernstein form (sequences of              *)
(* coefficients); the second half decides questions about their ranges     *)
(* and roots by subdivision, exactly.                                      *)
(***************************************************************************)
EXTENDS Geometry, TLC

Order(p) == Len(p) - 1
Mid(a, b) == (a \oplus b) \oslash 2
Half == RDiv(1, 2)

(***************************************************************************)
(* Points                                                                  *)
(***************************************************************************)
\* one level of the de Casteljau construction
LerpSeq(t, p) == TLCEval([i \in 1..(Len(p) - 1) |-> Lerp(t, p[i], p[i + 1])])
RECURSIVE Levels(_, _), Eval(_, _), Hull(_, _)
\* all levels, the last is <<Eval(p, t)>>
Levels(p, t) == IF Len(p) = 1 THEN <<p>> ELSE <<p>> \o Levels(LerpSeq(t, p), t)
Eval(p, t) == IF Len(p) = 1 THEN p[1] ELSE Eval(LerpSeq(t, p), t)
\* the points of all levels
Hull(p, t) == IF Len(p) = 1 THEN p ELSE p \o Hull(LerpSeq(t, p), t)

\* the points of a table of n points
Table(p, n) == TLCEval([i \in 1..n |-> Eval(p, RDiv(i - 1, n - 1))])

(***************************************************************************)
(* Parts                                                                   *)
(***************************************************************************)
Before(p, t) == LET l == Levels(p, t) IN TLCEval([i \in DOMAIN p |-> l[i][1]])
After(p, t) == LET l == Levels(p, t) IN TLCEval([i \in DOMAIN p |-> l[Len(p) + 1 - i][i]])
\* the part from a to b, 0 <= a < b <= 1
Part(p, a, b) == IF RSign(b) = 0 THEN TLCEval([i \in DOMAIN p |-> p[1]])
                 ELSE After(Before(p, b), a \oslash b)

(***************************************************************************)
(* Derivative and order                                                    *)
(***************************************************************************)
Derivative(p) == LET n == Order(p) IN TLCEval([i \in 1..n |-> Mul(n, Sub(p[i + 1], p[i]))])
RECURSIVE Derivatives(_)
\* all derivatives that are not zero everywhere, by their degree
Derivatives(p) == IF Len(p) = 1 THEN <<>> ELSE LET d == Derivative(p) IN <<d>> \o Derivatives(d)
Velocity(p, t) == Eval(Derivative(p), t)
\* the same curve with one control point more
Raised(p) == LET k == Len(p)
             IN  TLCEval([i \in 1..(k + 1) |->
                    IF i = 1 THEN p[1] ELSE IF i = k + 1 THEN p[k]
                    ELSE Lerp(RDiv(i - 1, k), p[i], p[i - 1])])
Reversed(p) == TLCEval([i \in DOMAIN p |-> p[Len(p) + 1 - i]])

(***************************************************************************)
(* Polynomials in Bernstein form                                           *)
(***************************************************************************)
Coord(p, d) == TLCEval([i \in DOMAIN p |-> p[i][d]])
PolyDeriv(c) == LET n == Len(c) - 1 IN TLCEval([i \in 1..n |-> n \otimes (c[i + 1] \ominus c[i])])
PLevel(t, c) == TLCEval([i \in 1..(Len(c) - 1) |-> c[i] \oplus (t \otimes (c[i + 1] \ominus c[i]))])
RECURSIVE PLevels(_, _), PEval(_, _)
PLevels(c, t) == IF Len(c) = 1 THEN <<c>> ELSE <<c>> \o PLevels(PLevel(t, c), t)
PEval(c, t) == IF Len(c) = 1 THEN c[1] ELSE PEval(PLevel(t, c), t)
PBefore(c, t) == LET l == PLevels(c, t) IN TLCEval([i \in DOMAIN c |-> l[i][1]])
PAfter(c, t) == LET l == PLevels(c, t) IN TLCEval([i \in DOMAIN c |-> l[Len(c) + 1 - i][i]])
PPart(c, a, b) == IF RSign(b) = 0 THEN TLCEval([i \in DOMAIN c |-> c[1]]) ELSE PAfter(PBefore(c, b), a \oslash b)

PMag(c) == RMaxSeq(TLCEval([i \in DOMAIN c |-> RAbs(c[i])]))
PNeg(c) == TLCEval([i \in DOMAIN c |-> RNeg(c[i])])

\* c <= b everywhere; depth bounds the subdivision (TRUE if undecided)
RECURSIVE PLe1(_, _, _)
PLe1(c, b, depth) ==
    IF RMaxSeq(c) \preceq b THEN TRUE
    ELSE IF b \prec c[1] \/ b \prec c[Len(c)] THEN FALSE
    ELSE depth = 0 \/ (PLe1(PBefore(c, Half), b, depth - 1) /\ PLe1(PAfter(c, Half), b, depth - 1))
PLe(c, b) == PLe1(c, b, 40)
PGe(c, b) == PLe(PNeg(c), RNeg(b))
\* c >= b somewhere (TRUE if undecided)
RECURSIVE PReaches1(_, _, _)
PReaches1(c, b, depth) ==
    IF b \preceq c[1] \/ b \preceq c[Len(c)] THEN TRUE
    ELSE IF RMaxSeq(c) \prec b THEN FALSE
    ELSE depth = 0 \/ PReaches1(PBefore(c, Half), b, depth - 1) \/ PReaches1(PAfter(c, Half), b, depth - 1)
PReaches(c, b) == PReaches1(c, b, 40)

\* c does not increase and decrease (by more than a slope of tol)
OneWay(c, tol) == LET d == PolyDeriv(c) IN PGe(d, RNeg(tol)) \/ PLe(d, tol)

\* intervals << a, b >> of length 2^-depth or more that have exactly one root, at which c changes
\* its sign and in which c is monotone; roots too close to each other are left out
RECURSIVE Crossings(_, _, _, _)
Crossings(c, a, b, depth) ==
    IF RSign(RMinSeq(c)) > 0 \/ RSign(RMaxSeq(c)) < 0 THEN <<>>
    ELSE LET d == PolyDeriv(c)
             mono == RSign(RMinSeq(d)) > 0 \/ RSign(RMaxSeq(d)) < 0
             sa == RSign(c[1])
             sb == RSign(c[Len(c)])
             m == Mid(a, b)
         IN IF mono /\ sa * sb > 0 THEN <<>>
            ELSE IF depth = 0 THEN (IF mono /\ sa * sb < 0 THEN << <<a, b>> >> ELSE <<>>)
            ELSE LET l == PBefore(c, Half)
                     r == PAfter(c, Half)
                     z == l[Len(l)]
                 IN  IF RSign(z) = 0      \* a root in the middle: look around it
                     THEN IF mono THEN << <<Mid(a, m), Mid(m, b)>> >>
                          ELSE LET q == PPart(c, RDiv(1, 4), RDiv(3, 4))
                                   dq == PolyDeriv(q)
                               IN  (IF RSign(RMinSeq(dq)) > 0 \/ RSign(RMaxSeq(dq)) < 0
                                    THEN << <<Mid(a, m), Mid(m, b)>> >> ELSE <<>>)
                                   \o Crossings(PBefore(c, RDiv(1, 4)), a, Mid(a, m), depth - 1)
                                   \o Crossings(PAfter(c, RDiv(3, 4)), Mid(m, b), b, depth - 1)
                     ELSE Crossings(l, a, m, depth - 1) \o Crossings(r, m, b, depth - 1)

\* the product of two polynomials
RECURSIVE Choose(_, _)
Choose(n, k) == IF k = 0 THEN 1 ELSE (Choose(n, k - 1) \otimes (n - k + 1)) \oslash k
PMul(a, b) ==
    LET m == Len(a) - 1
        n == Len(b) - 1
        lo(k) == IF k > n THEN k - n ELSE 0
        hi(k) == IF k < m THEN k ELSE m
    IN  TLCEval([k1 \in 1..(m + n + 1) |->
            LET k == k1 - 1
                c == TLCEval([j \in 1..(hi(k) - lo(k) + 1) |->
                        LET i == lo(k) + j - 1
                        IN  ((Choose(m, i) \otimes Choose(n, k - i)) \otimes (a[i + 1] \otimes b[k - i + 1]))])
            IN  RSum(c) \oslash Choose(m + n, k)])
PAdd(a, b) == TLCEval([i \in DOMAIN a |-> a[i] \oplus b[i]])
\* the square of the distance from point q as a polynomial
DistPoly(p, q) ==
    LET d(k) == TLCEval([i \in DOMAIN p |-> p[i][k] \ominus q[k]])
    IN  PAdd(PMul(d(1), d(1)), PMul(d(2), d(2)))
\* sufficient: the coefficients are convex
Convex(c) == \A i \in 1..(Len(c) - 2) : RSign((c[i] \oplus c[i + 2]) \ominus (2 \otimes c[i + 1])) >= 0
\* a value of the convex polynomial c close to its least one: bisection on the slope
RECURSIVE ConvexMin(_, _)
ConvexMin(c, depth) ==
    IF Len(c) = 1 THEN c[1]
    ELSE LET n == Len(c)
         IN  IF c[1] \preceq c[2] THEN c[1]
             ELSE IF c[n] \preceq c[n - 1] THEN c[n]
             ELSE IF depth = 0 THEN RMin(c[1], c[n])
             ELSE LET l == PBefore(c, Half)
                  IN  IF l[n - 1] \preceq l[n] THEN ConvexMin(l, depth - 1)
                      ELSE ConvexMin(PAfter(c, Half), depth - 1)

(***************************************************************************)
(* Square roots and lengths                                                *)
(***************************************************************************)
Sqrt(x) == RSqrtLo(x, 80)
SqrtUp(x) == RSqrtHi(x, 80)
Length(v) == Sqrt(Norm2(v))
RECURSIVE ChordSum(_, _), PolygonSum(_, _), Legs(_)
\* sum of the lengths of the legs of a polygon, rounded up
Legs(p) == IF Len(p) = 1 THEN 0 ELSE SqrtUp(Dist2(p[1], p[2])) \oplus Legs(Tail(p))
\* lower and upper bounds of the arc length
ChordSum(p, depth) == IF depth = 0 THEN Sqrt(Dist2(p[1], p[Len(p)]))
                      ELSE ChordSum(Before(p, Half), depth - 1) \oplus ChordSum(After(p, Half), depth - 1)
PolygonSum(p, depth) == IF depth = 0 THEN Legs(p)
                        ELSE PolygonSum(Before(p, Half), depth - 1) \oplus PolygonSum(After(p, Half), depth - 1)

(***************************************************************************)
(* Directions                                                              *)
(***************************************************************************)
\* n is, up to tol, the unit vector to the left of v
LeftUnit(n, v, tol) ==
    LET l == Length(v)
    IN  /\ RNear(Norm2(n), 1, tol)
        /\ RAbs(Dot(n, v)) \preceq (tol \otimes l)
        /\ RSign(Cross(v, n)) > 0
\* the coordinates of p in the frame with origin o and x axis along u
InFrame(p, o, u) == LET l == Length(u)
                        q == Sub(p, o)
                    IN  <<Dot(u, q) \oslash l, Cross(u, q) \oslash l>>
\* a segment that ends where it starts is taken to point to the right
Heading(u) == IF Norm2(u) \doteq 0 THEN <<1, 0>> ELSE u
Framed(s, o, u) == TLCEval([i \in DOMAIN s |-> InFrame(s[i], o, u)])
=============================================================================
