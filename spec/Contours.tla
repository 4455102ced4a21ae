------------------------------ MODULE Contours ------------------------------
(***************************************************************************)
(* Contours: sequences of curves.                                          *)
(***************************************************************************)
EXTENDS Curve, Rect, SvgPath

Connected(cs) == \A i \in 1..(Len(cs) - 1) : PEq(cs[i][Len(cs[i])], cs[i + 1][1])
\* the points of all curves; the first point of a curve is the last one of the curve before
RECURSIVE CTable(_, _, _)
CTable(cs, n, k) == IF k > Len(cs) THEN <<>>
                    ELSE LET t == Table(cs[k], n)
                         IN  (IF k = 1 THEN t ELSE Tail(t)) \o CTable(cs, n, k + 1)
ContourTable(cs, n) == CTable(cs, n, 1)
Mod(a, b) == a - b * (a \div b)
\* entry i (from 1) of the table of n points per curve: << curve, parameter index (from 0) >>
Locate(i, n) == IF i <= n THEN <<1, i - 1>>
                ELSE <<((i - n - 1) \div (n - 1)) + 2, Mod(i - n - 1, n - 1) + 1>>

\* the index Python means by k in a list of n elements (0: out of range)
PyIndex(k, n) == IF k >= 0 /\ k < n THEN k + 1 ELSE IF k < 0 /\ k >= -n THEN n + k + 1 ELSE 0
DeleteAt(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
=============================================================================
