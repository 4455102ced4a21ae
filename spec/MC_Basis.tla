------------------------------ MODULE MC_Basis ------------------------------
(* The rows of Pascal's triangle, grown on demand, and the basis matrix, checked against the Bezier curve. *)
EXTENDS Matrix, Curve
CONSTANT MaxN
VARIABLES rows, n, k
Seven == [i \in 1..7 |-> [j \in 1..i |-> Binomial(i - 1, j - 1)]]
RECURSIVE Grow(_, _)
Grow(r, m) == IF Len(r) > m THEN r
              ELSE LET p == r[Len(r)]
                   IN  Grow(TLCEval(Append(r, [j \in 1..(Len(p) + 1) |-> IF j = 1 \/ j = Len(p) + 1 THEN 1 ELSE p[j - 1] \oplus p[j]])), m)
Init == rows = Seven /\ n = 0 /\ k = 0
Next == \E x \in 0..MaxN : rows' = Grow(rows, x) /\ n' = x /\ \E y \in 0..x : k' = y
Pascal == \A i \in DOMAIN rows : Len(rows[i]) = i /\ \A j \in 1..i : rows[i][j] \doteq Binomial(i - 1, j - 1)
AnswerOk == rows[n + 1][k + 1] \doteq Binomial(n, k)
\* the basis matrix: coefficients of a Bezier curve with control points at k = y give its Eval
Cp(m) == TLCEval([i \in 1..m |-> <<(i * i) - 3, IF i = k + 1 THEN 5 ELSE -i>>])
Power(t, m) == TLCEval([i \in 1..m |-> RPow(t, i - 1)])
BasisOk == n >= 1 => \A t \in {1, 2, 3} :
    LET u == RDiv(t, 4)
        cp == Cp(n)
        b == Basis(n)
        val(d) == RDot(Power(u, n), TLCEval([i \in 1..n |-> RDot(b[i], Coord(cp, d))]))
    IN  PEq(<<val(1), val(2)>>, Eval(cp, u))
=============================================================================
