------------------------------ MODULE Crossing ------------------------------
(***************************************************************************)
(* Where curves meet lines and other curves.                               *)
(***************************************************************************)
EXTENDS Curve

\* signed distances (times the length of the line) of the curve from the line through l[1] and l[2]
Distances(p, l) == LET u == Sub(l[2], l[1]) IN TLCEval([i \in DOMAIN p |-> Cross(u, Sub(p[i], l[1]))])
\* the position of a point along the line: 0 at l[1], 1 at l[2]
Along(q, l) == LET u == Sub(l[2], l[1]) IN Dot(u, Sub(q, l[1])) \oslash Norm2(u)
XAxis == << <<0, 0>>, <<1, 0>> >>

\* halve n times an interval at whose ends c has different signs
RECURSIVE Bisect(_, _, _, _)
Bisect(c, a, b, n) == IF n = 0 THEN Mid(a, b)
                      ELSE LET m == Mid(a, b) IN
                           IF RSign(PEval(c, m)) * RSign(PEval(c, a)) <= 0 THEN Bisect(c, a, m, n - 1) ELSE Bisect(c, m, b, n - 1)
\* the roots of c in (0, 1), where c changes its sign; roots closer than 2^-depth to each other are left out
Roots(c, depth) == LET z == Crossings(c, 0, 1, depth)
                   IN  TLCEval([i \in DOMAIN z |-> Bisect(c, z[i][1], z[i][2], 36)])

\* the curves cross at (s, t): at distance tol at most, not along each other
Transversal(p, s, q, t, tol) ==
    LET u == Velocity(p, s)
        v == Velocity(q, t)
    IN  /\ PNear(Eval(p, s), Eval(q, t), tol)
        /\ (RDiv(1, 25) \otimes (Norm2(u) \otimes Norm2(v))) \preceq RSq(Cross(u, v))
=============================================================================
