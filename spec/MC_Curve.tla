------------------------------ MODULE MC_Curve ------------------------------
(***************************************************************************)
(* The operators of module Curve agree with each other: evaluation, parts, *)
(* hull indices used by Bezier.split, order raising and the range and root *)
(* decisions.  A state is a part [a, b] of a curve obtained by a history   *)
(* of splits (each at 1/4, 1/2 or 2/3 of what is left), and the control    *)
(* points that the implementation's bookkeeping gives for it.              *)
(***************************************************************************)
EXTENDS Curve

CONSTANT MaxSplits
Curves == << << <<0, 0>>, <<3, 1>> >>,
             << <<0, 0>>, <<2, 5>>, <<4, 0>> >>,
             << <<1, 1>>, <<1, 7>>, <<-3, 2>> >>,
             << <<0, 0>>, <<1, 6>>, <<5, -6>>, <<6, 1>> >>,
             << <<0, 0>>, <<8, 3>>, <<-4, 3>>, <<4, -2>> >>,
             << <<0, 0>>, <<1, 4>>, <<3, -2>>, <<5, 5>>, <<8, 1>> >>,
             << <<0, 0>>, <<2, 4>>, <<3, 3>>, <<4, -3>>, <<5, 1>>, <<6, 6>> >> >>
Ts == << RDiv(1, 4), Half, RDiv(2, 3) >>

VARIABLES c,     \* which curve
          cp,    \* control points of the part, as computed by split
          a, b,  \* the part
          n      \* splits so far
vars == <<c, cp, a, b, n>>

\* Bezier.split picks these points of the hull (0-based in the implementation)
RECURSIVE RowEnd(_, _)
\* number of points in the first i rows of a hull that begins with k points
RowEnd(i, k) == IF i = 0 THEN 0 ELSE RowEnd(i - 1, k) + (k + 1 - i)
SplitIndex3 == << << <<1, 3>>, <<3, 2>> >>,
                 << <<1, 4, 6>>, <<6, 5, 3>> >>,
                 << <<1, 5, 8, 10>>, <<10, 9, 7, 4>> >> >>
\* curves of higher order: the first and last points of the rows
SplitIndex == [o \in 1..5 |-> IF o <= 3 THEN SplitIndex3[o]
                              ELSE << [i \in 1..(o + 1) |-> RowEnd(i - 1, o + 1) + 1],
                                      [i \in 1..(o + 1) |-> RowEnd(o + 2 - i, o + 1)] >>]
Pick(h, idx) == TLCEval([i \in DOMAIN idx |-> h[idx[i]]])
Left(p, t) == Pick(Hull(p, t), SplitIndex[Order(p)][1])
Right(p, t) == Pick(Hull(p, t), SplitIndex[Order(p)][2])
\* split(t1, t2): the right part at t1, split at t2 mapped from [t1, 1]
Between(p, t1, t2) == Left(Right(p, t1), (t2 \ominus t1) \oslash (1 \ominus t1))

At(t) == a \oplus (t \otimes (b \ominus a))
Init == c \in DOMAIN Curves /\ cp = Curves[c] /\ a = 0 /\ b = 1 /\ n = 0
GoLeft(t) == cp' = Left(cp, t) /\ a' = a /\ b' = At(t)
GoRight(t) == cp' = Right(cp, t) /\ a' = At(t) /\ b' = b
GoBetween(s, t) == cp' = Between(cp, s, t) /\ a' = At(s) /\ b' = At(t)
Next == /\ n < MaxSplits /\ n' = n + 1 /\ c' = c
        /\ \/ \E i \in DOMAIN Ts : GoLeft(Ts[i]) \/ GoRight(Ts[i])
           \/ \E i, j \in DOMAIN Ts : i < j /\ GoBetween(Ts[i], Ts[j])

Original == Curves[c]
PartOk == PSeqEq(cp, Part(Original, a, b))
EvalOk == \A i \in DOMAIN Ts : PEq(Eval(cp, Ts[i]), Eval(Original, At(Ts[i])))
\* rounding the tangents: the derivative of a part is that of the curve, scaled
DerivOk == \A i \in DOMAIN Ts : PEq(Velocity(cp, Ts[i]), Mul(b \ominus a, Velocity(Original, At(Ts[i]))))
RaiseOk == LET r == Raised(cp) IN
             /\ \A i \in DOMAIN Ts : PEq(Eval(r, Ts[i]), Eval(cp, Ts[i])) /\ PEq(Velocity(r, Ts[i]), Velocity(cp, Ts[i]))
             /\ PEq(r[1], cp[1]) /\ PEq(r[Len(r)], cp[Len(cp)])
ReverseOk == \A i \in DOMAIN Ts : PEq(Eval(Reversed(cp), Ts[i]), Eval(cp, 1 \ominus Ts[i]))
HullOk == /\ Len(Hull(cp, Half)) = (Len(cp) * (Len(cp) + 1)) \div 2
          /\ PEq(Hull(cp, Half)[Len(Hull(cp, Half))], Eval(cp, Half))
\* ranges: bounds found by sampling are consistent with the decisions
Samples == TLCEval([i \in 1..9 |-> RDiv(i - 1, 8)])
RangeOk == \A d \in 1..2 : LET x == Coord(cp, d)
                               hi == RMaxSeq(TLCEval([i \in DOMAIN Samples |-> PEval(x, Samples[i])]))
                           IN  /\ PReaches(x, hi)
                               /\ PLe(x, RMaxSeq(x))
                               /\ (~PReaches(x, hi \oplus RDiv(1, 1000)) => PLe(x, hi \oplus RDiv(1, 1000)))
                               /\ (PLe(x, hi \ominus RDiv(1, 1000)) => FALSE)
\* crossings: signs differ at the ends of each interval, intervals are disjoint and in order
CrossOk == \A d \in 1..2 : LET x == Coord(cp, d)
                               z == Crossings(x, 0, 1, 6)
                               s(t) == RSign(PEval(x, t))
                           IN  /\ \A i \in DOMAIN z : s(z[i][1]) * s(z[i][2]) < 0
                               /\ \A i, j \in DOMAIN z : i # j => z[i][2] \preceq z[j][1] \/ z[j][2] \preceq z[i][1]
                               /\ \A i \in 1..(Len(Samples) - 1) :
                                     (s(Samples[i]) * s(Samples[i + 1]) < 0 /\ OneWay(PPart(x, Samples[i], Samples[i + 1]), 0)) =>
                                        \E j \in DOMAIN z : Samples[i] \prec z[j][2] /\ z[j][1] \prec Samples[i + 1]
LengthOk == LET l(k) == ChordSum(cp, k)
                u(k) == PolygonSum(cp, k)
            IN  /\ l(0) \preceq (l(2) \oplus E9) /\ l(2) \preceq (l(3) \oplus E9)
                /\ l(3) \preceq u(3) /\ u(3) \preceq (u(1) \oplus E9)
FrameOk == LET u == Sub(cp[Len(cp)], cp[1]) IN
             RSign(Norm2(u)) # 0 =>
               LET f == Framed(cp, cp[1], u)
               IN  /\ PEq(f[1], <<0, 0>>) /\ RSign(Y(f[Len(f)])) = 0 /\ RSign(X(f[Len(f)])) > 0
                   /\ \A i \in DOMAIN cp : RNear(Norm2(f[i]), Dist2(cp[i], cp[1]), E9)
=============================================================================
