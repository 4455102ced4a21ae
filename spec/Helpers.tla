------------------------------ MODULE Helpers ------------------------------
(***************************************************************************)
(* Small questions about numbers, polynomials of degree one and two, and   *)
(* infinite lines, which the other parts of the library are built on.      *)
(***************************************************************************)
EXTENDS Curve, Line

Nano == RDiv(1, 1000000000)
Micro == RDiv(1, 1000000)

(***************************************************************************)
(* Real roots of the polynomial with Bernstein coefficients c              *)
(***************************************************************************)
\* what the absolute values of the terms of the polynomial at v add up to
Terms(c, v) == LET u == RAbs(v)
                   w == RAbs(1 \ominus v)
               IN  IF Len(c) = 2 THEN (RAbs(c[1]) \otimes w) \oplus (RAbs(c[2]) \otimes u)
                   ELSE RSum(<<RAbs(c[1]) \otimes RSq(w), (2 \otimes RAbs(c[2])) \otimes (u \otimes w), RAbs(c[3]) \otimes RSq(u)>>)
\* v is a rounded number, too
Slack(c, v, tol) == (tol \otimes Terms(c, v)) \oplus ((RDiv(tol, 1000) \otimes PMag(c)) \otimes RSq(1 \oplus RAbs(v)))
IsRoot(c, v, tol) == RAbs(PEval(c, v)) \preceq Slack(c, v, tol)
\* c1 - 2 c2 + c3 and a quarter of the discriminant
Lead(c) == (c[1] \ominus (2 \otimes c[2])) \oplus c[3]
Disc(c) == RSq(c[2]) \ominus (c[1] \otimes c[3])
\* the slope at both roots is 2 sqrt(Disc)
HasRoot(vs, c, x, slope) ==
    \E i \in DOMAIN vs : (RAbs(vs[i] \ominus x) \otimes slope) \preceq Slack(c, x, Micro)
RootsFound(vs, c) ==
    LET m == PMag(c)
    IN  IF Len(c) = 2
        THEN IF c[1] \doteq c[2] THEN vs = <<>> ELSE Len(vs) = 1 /\ HasRoot(vs, c, c[1] \oslash (c[1] \ominus c[2]), RAbs(c[2] \ominus c[1]))
        ELSE LET s == Sqrt(Disc(c))
                 a == c[1] \ominus c[2]
             IN  IF RAbs(Lead(c)) \preceq (Nano \otimes m)
                 THEN \* one root, the other one is far away or at infinity
                      (Micro \otimes m) \prec RAbs(c[3] \ominus c[2])
                      => HasRoot(vs, c, ((2 \otimes c[2]) \ominus c[3]) \oslash (2 \otimes (c[2] \ominus c[3])), RAbs(2 \otimes (c[3] \ominus c[2])))
                 ELSE /\ (Micro \otimes RSq(m)) \prec Disc(c) =>
                            HasRoot(vs, c, (a \oplus s) \oslash Lead(c), 2 \otimes s) /\ HasRoot(vs, c, (a \ominus s) \oslash Lead(c), 2 \otimes s)
                      /\ Disc(c) \prec RNeg(Micro \otimes RSq(m)) => vs = <<>>

(***************************************************************************)
(* The point in which infinite lines meet: NotParallel by a margin         *)
(***************************************************************************)
MeetTol(s, t) == LET m == RMax(MaxAbsSeq(s), MaxAbsSeq(t))
                     d == RAbs(Cross(Delta(s), Delta(t)))
                     k == MaxAbs(Delta(s)) \otimes MaxAbs(Delta(t))
                 IN  (RDiv(1, 100) \otimes (Nano \otimes m)) \otimes ((m \otimes RMax(MaxAbs(Delta(s)), MaxAbs(Delta(t)))) \oslash d)
ClearlyMeet(s, t) == (Micro \otimes RSq(RMax(MaxAbsSeq(s), MaxAbsSeq(t)))) \prec RAbs(Cross(Delta(s), Delta(t)))

(***************************************************************************)
(* The ratio |BC|/|AB| of the projection of a quadratic or cubic curve     *)
(***************************************************************************)
QuadraticRatio(t) == LET q == 2 \otimes (RSq(t) \ominus t) IN RAbs(q \oslash (q \oplus 1))
CubicRatio(t) == LET b == RPow(t, 3) \oplus RPow(1 \ominus t, 3) IN RAbs((b \ominus 1) \oslash b)

RECURSIVE Distinct(_)
Distinct(s) == IF s = <<>> THEN <<>>
               ELSE LET d == Distinct(SubSeq(s, 1, Len(s) - 1))
                        x == s[Len(s)]
                    IN  IF \E i \in DOMAIN d : d[i] \doteq x THEN d ELSE Append(d, x)
=============================================================================
