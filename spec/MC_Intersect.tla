---------------------------- MODULE MC_Intersect ----------------------------
(***************************************************************************)
(* The search for intersections of two curves without extrema inside:      *)
(* pairs of parts whose bounds overlap are halved until the bounds of both *)
(* parts are smaller than the threshold.  The bounds of such a part are    *)
(* those of its end points.  A part is << k, i >>: the interval from       *)
(* i/2^k to (i+1)/2^k.                                                     *)
(*                                                                         *)
(* Lossless: no crossing gets lost on the way.  Sound: the points reported *)
(* are less than two thresholds apart; those of a crossing are within the  *)
(* threshold.  Ends: the search ends.                                      *)
(***************************************************************************)
EXTENDS Crossing, Rect

CONSTANTS MaxDepth, N
\* curves without extrema inside; crossings at the parameters given
Pairs == <<
  [p |-> << <<0, 0>>, <<8, 0>>, <<8, 8>> >>, q |-> << <<0, 8>>, <<8, 8>>, <<8, 0>> >>, x |-> <<>>],
  [p |-> << <<0, 0>>, <<6, 1>>, <<8, 8>> >>, q |-> << <<8, 0>>, <<6, 7>>, <<0, 8>> >>, x |-> <<>>],
  [p |-> << <<0, 0>>, <<9, 0>>, <<9, 9>> >>, q |-> << <<1, 1>>, <<7, 1>> >>, x |-> << <<RDiv(1, 3), RDiv(2, 3)>> >>],
  [p |-> << <<0, 0>>, <<4, 1>>, <<5, 7>>, <<8, 8>> >>, q |-> << <<0, 8>>, <<4, 7>>, <<5, 1>>, <<8, 0>> >>, x |-> << <<Half, Half>> >>],
  [p |-> << <<0, 0>>, <<8, 4>> >>, q |-> << <<2, 5>>, <<4, 0>>, <<6, -1>> >>, x |-> <<>>],
  [p |-> << <<0, 0>>, <<6, 2>>, <<7, 5>>, <<8, 9>> >>, q |-> << <<20, 20>>, <<21, 25>>, <<24, 26>> >>, x |-> <<>>] >>
Thresholds == << Half, 1, 2, RDiv(1, 10), RDiv(1, 40) >>

VARIABLES c, thr,
          open,      \* pairs to be searched
          found      \* pairs reported
vars == <<c, thr, open, found>>

P == Pairs[c].p
Q == Pairs[c].q
Th == Thresholds[thr]
Lo(v) == RDiv(v[2], 2^v[1])
Hi(v) == RDiv(v[2] + 1, 2^v[1])
Middle(v) == Mid(Lo(v), Hi(v))
Box(p, v) == Bounds(<<Eval(p, Lo(v)), Eval(p, Hi(v))>>)
Small(r) == ((R(r) \ominus L(r)) \oplus (T(r) \ominus B(r))) \prec Th
First(v) == <<v[1] + 1, 2 * v[2]>>
Second(v) == <<v[1] + 1, 2 * v[2] + 1>>
Meets(v, w) == Meet(Box(P, v), Box(Q, w))

Whole == <<0, 0>>
Init == c \in DOMAIN Pairs /\ thr \in 1..N /\ found = {}
        /\ open = IF Meets(Whole, Whole) THEN {<<Whole, Whole>>} ELSE {}
\* any pair of the stack may come next
Next == \E pr \in open :
          LET v == pr[1]
              w == pr[2]
          IN  /\ UNCHANGED <<c, thr>>
              /\ pr = CHOOSE x \in open : TRUE           \* the order does not matter
              /\ IF Small(Box(P, v)) /\ Small(Box(Q, w))
                 THEN found' = found \cup {pr} /\ open' = open \ {pr}
                 ELSE /\ found' = found
                      /\ open' = (open \ {pr}) \cup
                           {y \in {<<First(v), First(w)>>, <<First(v), Second(w)>>, <<Second(v), Second(w)>>, <<Second(v), First(w)>>} : Meets(y[1], y[2])}

\* the crossings: given, or found from the side of the line
Crossed == IF Pairs[c].x # <<>> THEN Pairs[c].x
           ELSE IF Len(P) = 2 THEN LET z == Roots(Distances(Q, P), 10)
                                   IN  TLCEval([i \in DOMAIN z |-> <<Along(Eval(Q, z[i]), P), z[i]>>])
           ELSE <<>>
\* up to the precision of the roots
Within(t, v) == (Lo(v) \ominus E9) \preceq t /\ t \preceq (Hi(v) \oplus E9)
Lossless == \A i \in DOMAIN Crossed : \E pr \in open \cup found : Within(Crossed[i][1], pr[1]) /\ Within(Crossed[i][2], pr[2])
Known == Len(P) # 2 => \A i \in DOMAIN Crossed : PEq(Eval(P, Crossed[i][1]), Eval(Q, Crossed[i][2]))
Sound == \A pr \in found : Dist2(Eval(P, Middle(pr[1])), Eval(Q, Middle(pr[2]))) \prec RSq(2 \otimes Th)
Near == \A i \in DOMAIN Crossed : \A pr \in found :
           (Within(Crossed[i][1], pr[1]) /\ Within(Crossed[i][2], pr[2])) =>
              Dist2(Eval(P, Middle(pr[1])), Eval(P, Crossed[i][1])) \preceq RSq(Th)
Ends == \A pr \in open \cup found : pr[1][1] <= MaxDepth
\* the bounds of a part are those of its end points
Monotone == \A d \in 1..2 : OneWay(Coord(P, d), 0) /\ OneWay(Coord(Q, d), 0)
Reported == open = {} => (Crossed # <<>> => found # {})
=============================================================================
