----------------------------- MODULE MC_Closest -----------------------------
(***************************************************************************)
(* findClosestPoint() finds the closest entry of the contour's table, goes *)
(* to the curve and the entry of the curve's own table that it came from,  *)
(* and searches around it; at the last point of a curve it also looks at   *)
(* the beginning of the next one.  Here curves are on a discrete line: the *)
(* table entries and the search around them must cover the whole contour.  *)
(***************************************************************************)
EXTENDS Contours

CONSTANTS MaxCurves, MaxSteps
VARIABLES nc, np, ei,       \* curves, points per table, index (from 1) of the closest entry (the first of them)
          closed            \* the end is the start
Init == nc \in 1..MaxCurves /\ np \in 2..MaxSteps /\ ei = 1 /\ closed \in BOOLEAN
Size == np + (nc - 1) * (np - 1)
Next == ei < Size /\ ei' = ei + 1 /\ UNCHANGED <<nc, np, closed>>

\* the layout of the table
RECURSIVE Layout(_)
Layout(k) == IF k = 0 THEN <<>>
             ELSE Layout(k - 1) \o (IF k = 1 THEN [j \in 1..np |-> <<1, j - 1>>] ELSE [j \in 1..(np - 1) |-> <<k, j>>])
\* the index arithmetic of the implementation (0-based ei)
Impl(i0) == IF i0 < np THEN [curve |-> 1, local |-> i0, also |-> IF i0 = np - 1 /\ nc >= 2 THEN 2 ELSE 0]
            ELSE LET j == i0 - np
                     ix == j \div (np - 1) + 1
                 IN  [curve |-> ix + 1, local |-> Mod(j, np - 1) + 1, also |-> IF ix < nc - 1 THEN ix + 2 ELSE 0]
\* a closed contour is also searched at its end, if the entry is its start
Closing(i0) == IF i0 = 0 /\ closed THEN <<nc, np - 1>> ELSE <<>>
TableOk == Len(Layout(nc)) = Size
LocateOk == Locate(ei, np) = Layout(nc)[ei]
ImplOk == LET m == Impl(ei - 1) IN <<m.curve, m.local>> = Layout(nc)[ei]
\* the neighbors of the entry are searched: inside its curve, and across a joint
NeighborsOk == LET m == Impl(ei - 1)
               IN  /\ m.curve \in 1..nc /\ m.local \in 0..(np - 1)
                   /\ (m.local = np - 1 /\ m.curve < nc) => m.also = m.curve + 1
                   /\ (m.curve = 1 /\ m.local = 0 /\ closed) => Closing(ei - 1) = <<nc, np - 1>>
                   /\ m.also # 0 => m.also \in 2..nc
=============================================================================
