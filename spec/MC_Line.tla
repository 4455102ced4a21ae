------------------------------ MODULE MC_Line ------------------------------
(***************************************************************************)
(* The determinant formula of the implementation (lli8) followed by the    *)
(* test of both bounds rectangles decides exactly whether two segments     *)
(* that are not parallel have a point in common, for all segments of a     *)
(* small grid.  A second segment is moved step by step over the grid.      *)
(***************************************************************************)
EXTENDS Line, TLC

CONSTANT N
Grid == (0..N) \X (0..N)
VARIABLES s, t
Init == s \in {<<p, q>> : p, q \in Grid} /\ s[1] # s[2] /\ t = <<<<0, 0>>, <<1, 0>>>>
Move(i, j, d) == LET v == t[i][j] + d
                 IN  v \in 0..N /\ t' = [t EXCEPT ![i] = [@ EXCEPT ![j] = v]]
Next == s' = s /\ (\E i, j \in 1..2 : \E d \in {1, -1} : Move(i, j, d)) /\ t'[1] # t'[2]

\* lli8
D == (s[1][1] - s[2][1]) * (t[1][2] - t[2][2]) - (s[1][2] - s[2][2]) * (t[1][1] - t[2][1])
C1 == s[1][1] * s[2][2] - s[1][2] * s[2][1]
C2 == t[1][1] * t[2][2] - t[1][2] * t[2][1]
NX == C1 * (t[1][1] - t[2][1]) - (s[1][1] - s[2][1]) * C2
NY == C1 * (t[1][2] - t[2][2]) - (s[1][2] - s[2][2]) * C2
InBox(p, g) == /\ RMin(X(g[1]), X(g[2])) \preceq X(p) /\ X(p) \preceq RMax(X(g[1]), X(g[2]))
               /\ RMin(Y(g[1]), Y(g[2])) \preceq Y(p) /\ Y(p) \preceq RMax(Y(g[1]), Y(g[2]))
P == <<RDiv(NX, D), RDiv(NY, D)>>

Determinant == /\ (D = 0) = Parallel(s, t)
               /\ D # 0 => /\ PEq(P, Where(s, t))
                           /\ (InBox(P, s) /\ InBox(P, t)) = Cut(s, t)
Symmetric == Cut(s, t) = Cut(t, s) /\ Cut(s, t) = Cut(<<s[2], s[1]>>, t)
\* a point both segments have at a parameter k/12 is found
Finds == \A k \in 0..12 : LET p == Lerp(RDiv(k, 12), t[1], t[2])
                          IN OnSeg(p, s) /\ ~Parallel(s, t) => Cut(s, t) /\ PEq(Where(s, t), p)
\* the cross product test of pointOnLine against the slope test it replaces
OnLine == \A p \in Grid : OnSeg(p, s) =
              (InBox(p, s) /\ X(Delta(s)) * (p[2] - s[1][2]) = Y(Delta(s)) * (p[1] - s[1][1]))
=============================================================================
