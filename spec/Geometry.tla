------------------------------ MODULE Geometry ------------------------------
(***************************************************************************)
(* Points << x, y >>, vectors and tolerances.                              *)
(***************************************************************************)
EXTENDS Rat, Integers, Sequences

X(p) == p[1]
Y(p) == p[2]
PEq(p, q) == X(p) \doteq X(q) /\ Y(p) \doteq Y(q)
Sub(p, q) == <<X(p) \ominus X(q), Y(p) \ominus Y(q)>>
Add(p, q) == <<X(p) \oplus X(q), Y(p) \oplus Y(q)>>
Mul(k, p) == <<k \otimes X(p), k \otimes Y(p)>>
Cross(p, q) == (X(p) \otimes Y(q)) \ominus (Y(p) \otimes X(q))
Dot(p, q) == (X(p) \otimes X(q)) \oplus (Y(p) \otimes Y(q))
Norm2(p) == Dot(p, p)
Dist2(p, q) == Norm2(Sub(p, q))
Lerp(t, p, q) == <<X(p) \oplus (t \otimes (X(q) \ominus X(p))), Y(p) \oplus (t \otimes (Y(q) \ominus Y(p)))>>
MidPt(p, q) == <<(X(p) \oplus X(q)) \oslash 2, (Y(p) \oplus Y(q)) \oslash 2>>

\* same sequence of points
PSeqEq(s, t) == Len(s) = Len(t) /\ \A i \in DOMAIN s : PEq(s[i], t[i])
SSeqEq(s, t) == Len(s) = Len(t) /\ \A i \in DOMAIN s : PSeqEq(s[i], t[i])
CSeqEq(s, t) == Len(s) = Len(t) /\ \A i \in DOMAIN s : SSeqEq(s[i], t[i])

\* p and q differ by at most tol in each coordinate
PNear(p, q, tol) == RNear(X(p), X(q), tol) /\ RNear(Y(p), Y(q), tol)
PSeqNear(s, t, tol) == Len(s) = Len(t) /\ \A i \in DOMAIN s : PNear(s[i], t[i], tol)

Xs(s) == [i \in DOMAIN s |-> s[i][1]]
Ys(s) == [i \in DOMAIN s |-> s[i][2]]
MaxAbs(p) == RMax(RAbs(X(p)), RAbs(Y(p)))
RECURSIVE MaxAbsSeq(_)
MaxAbsSeq(s) == IF s = <<>> THEN 0 ELSE RMax(MaxAbs(Head(s)), MaxAbsSeq(Tail(s)))

\* rounding errors: 10^-9 relative to the magnitude given
E9 == RDiv(1, 1000000000)
E12 == RDiv(E9, 1000)
E6 == RDiv(1, 1000000)
Tol(mag) == E9 \otimes RMax(mag, E6)
TolSeq(s) == Tol(MaxAbsSeq(s))

RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))
=============================================================================
