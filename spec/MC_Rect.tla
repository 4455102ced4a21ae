------------------------------ MODULE MC_Rect ------------------------------
(***************************************************************************)
(* Union, intersection and the relations of rectangles, computed from the  *)
(* edges, agree with the sets of points on a small grid; accumulating the  *)
(* union of rectangles one by one (BoundsRectangle.fromContour and         *)
(* fromCoutours) gives the bounds of all points seen.                      *)
(***************************************************************************)
EXTENDS Rect, TLC

CONSTANT N, K
Grid == (0..N) \X (0..N)
Rects == {EmptyRect} \cup {MkRect(l, b, r, t) : l \in 0..N, b \in 0..N, r \in 0..N, t \in 0..N}
IsRect(r) == r.empty \/ (L(r) <= R(r) /\ B(r) <= T(r))
Valid == {r \in Rects : IsRect(r)}
Pts(r) == {p \in Grid : Has(r, p)}

VARIABLES acc,    \* the union so far
          seen,   \* the points of all the rectangles so far
          cur     \* the rectangle added last

Init == acc = EmptyRect /\ seen = {} /\ cur = EmptyRect
Add1(r) == acc' = Union(acc, r) /\ seen' = seen \cup {<<L(r), B(r)>>, <<R(r), T(r)>>} /\ cur' = r
AddEmpty == acc' = Union(acc, EmptyRect) /\ seen' = seen /\ cur' = EmptyRect
Next == (Cardinality(seen) < K /\ \E r \in Valid \ {EmptyRect} : Add1(r)) \/ AddEmpty

SetToSeq1(S) == LET f[T1 \in SUBSET S] == IF T1 = {} THEN <<>>
                       ELSE LET x == CHOOSE x \in T1 : TRUE IN <<x>> \o f[T1 \ {x}]
                IN  f[S]
Tight == REq4(acc, Bounds(SetToSeq1(seen)))

\* algebra, checked for all pairs (and triples with cur)
Pairwise ==
    /\ (Pts(acc) \cup Pts(cur)) \subseteq Pts(Union(acc, cur))
    /\ \A r \in Valid :
        /\ Pts(Inter(acc, r)) = Pts(acc) \cap Pts(r)
        /\ Meet(acc, r) = (Pts(acc) \cap Pts(r) # {})
        /\ (~r.empty /\ ~acc.empty) => (Subset(r, acc) = (Pts(r) \subseteq Pts(acc)))
        /\ Union(acc, r) = Union(r, acc)
        /\ Union(Union(acc, cur), r) = Union(acc, Union(cur, r))
        \* least upper bound
        /\ (Pts(acc) \subseteq Pts(r) /\ Pts(cur) \subseteq Pts(r)) => Pts(Union(acc, cur)) \subseteq Pts(r)
        /\ (~r.empty /\ ~acc.empty) =>
              Relation(acc, r) = (CASE Pts(r) \subseteq Pts(acc) -> "encloses"
                                    [] Pts(acc) \subseteq Pts(r) -> "enclosed"
                                    [] Pts(acc) \cap Pts(r) # {} -> "intersects"
                                    [] OTHER -> "separate")
=============================================================================
