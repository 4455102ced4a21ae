----------------------------- MODULE MC_Helpers -----------------------------
(***************************************************************************)
(* The notions of module Helpers against their definitions, for all small  *)
(* coefficients and lines: a polynomial with integer roots is judged to    *)
(* have exactly these, and the point in which lines meet is on both.       *)
(***************************************************************************)
EXTENDS Helpers, FiniteSets

CONSTANTS K
VARIABLES cf, ln
Ints == -K..K
First == << <<-K, 0>>, <<-K, 0>> >>
Init == cf \in Ints \X Ints \X Ints /\ ln = First
\* all lines, one after the other
Next == LET p == ln[1]
            q == ln[2]
        IN  /\ UNCHANGED cf
            /\ IF p[1] < K THEN ln' = << <<p[1] + 1, p[2]>>, q >>
               ELSE IF q[1] < K THEN ln' = << <<-K, 0>>, <<q[1] + 1, q[2]>> >>
               ELSE q[2] = 0 /\ ln' = << <<-K, 0>>, <<-K, 1>> >>

\* candidates for rational roots n/m
Cand == TLCEval([i \in 1..((4 * K + 1) * 2 * K) |-> RDiv(((i - 1) % (4 * K + 1)) - 2 * K, ((i - 1) \div (4 * K + 1)) + 1)])
Value(v) == PEval(cf, v)
RootsSound0 == \A i \in DOMAIN Cand : IsRoot(cf, Cand[i], Nano) <=> RSign(Value(Cand[i])) = 0
\* the exact rational roots satisfy RootsFound if the discriminant is a square
Root(s) == ((cf[1] - cf[2]) \oplus s) \oslash Lead(cf)
Complete0 ==
    LET dd == Disc(cf)
        s == Sqrt(dd)
    IN  IF RSign(Lead(cf)) = 0
        THEN cf[2] # cf[3] => /\ RootsFound(<<RDiv(2 * cf[2] - cf[3], 2 * (cf[2] - cf[3]))>>, cf)
                              /\ ~RootsFound(<<>>, cf)
        ELSE IF RSign(dd) < 0 THEN RootsFound(<<>>, cf) /\ ~RootsFound(<<Half>>, cf)
        ELSE IF RSq(s) \doteq dd /\ RSign(dd) > 0
        THEN /\ RSign(Value(Root(s))) = 0 /\ RSign(Value(Root(RNeg(s)))) = 0
             /\ RootsFound(<<Root(s), Root(RNeg(s))>>, cf)
             /\ ~RootsFound(<<Root(s)>>, cf) /\ ~RootsFound(<<Root(RNeg(s))>>, cf)
        ELSE TRUE
Linear0 == LET l == <<cf[1], cf[2]>>
          IN  l[1] # l[2] => /\ RootsFound(<<RDiv(l[1], l[1] - l[2])>>, l) /\ RSign(PEval(l, RDiv(l[1], l[1] - l[2]))) = 0
                             /\ ~RootsFound(<<>>, l)
\* lines with coordinates from cf and ln
Other == << <<cf[1], cf[2]>>, <<cf[3], cf[1] + 1>> >>
Meet == ~Parallel(ln, Other) => LET w == Where(ln, Other)
                                IN  /\ RSign(Cross(Delta(ln), Sub(w, ln[1]))) = 0
                                    /\ RSign(Cross(Delta(Other), Sub(w, Other[1]))) = 0
Doubles0 == /\ Distinct(<<cf[1], cf[2], cf[3], cf[1]>>) = Distinct(<<cf[1], cf[2], cf[3]>>)
           /\ Cardinality({cf[1], cf[2], cf[3]}) = Len(Distinct(<<cf[1], cf[2], cf[3]>>))
Ratios0 == \A k \in 1..9 : LET t == RDiv(k, 10)
                              p == << <<0, 0>>, <<0, cf[1]>>, <<2, cf[2] + 1>>, <<3, 0>> >>
                              b == Eval(p, t)
                              a == Levels(p, t)[3]
                              q == Lerp(t, a[1], a[2])
                          IN  PEq(b, q) /\ QuadraticRatio(t) \doteq QuadraticRatio(1 \ominus t) /\ CubicRatio(t) \doteq CubicRatio(1 \ominus t)
RootsSound == ln = First => RootsSound0
Complete == ln = First => Complete0
Linear == ln = First => Linear0
Doubles == ln = First => Doubles0
Ratios == ln = First => Ratios0
=============================================================================
