-------------------------------- MODULE Rect --------------------------------
(***************************************************************************)
(* Bounds rectangles, as sets of points of the plane.                      *)
(*                                                                         *)
(* A rectangle is [empty |-> BOOLEAN, e |-> <<left, bottom, right, top>>]. *)
(***************************************************************************)
EXTENDS Geometry, FiniteSets

EmptyRect == [empty |-> TRUE, e |-> <<0, 0, 0, 0>>]
MkRect(l, b, r, t) == [empty |-> FALSE, e |-> <<l, b, r, t>>]
L(r) == r.e[1]
B(r) == r.e[2]
R(r) == r.e[3]
T(r) == r.e[4]

REq4(r, s) == r.empty = s.empty /\ (r.empty \/ \A i \in 1..4 : r.e[i] \doteq s.e[i])

\* membership of a point: the meaning of a rectangle
Has(r, p) == ~r.empty /\ L(r) \preceq X(p) /\ X(p) \preceq R(r) /\ B(r) \preceq Y(p) /\ Y(p) \preceq T(r)

\* the least rectangle that has all points of s
Bounds(s) == IF s = <<>> THEN EmptyRect
             ELSE MkRect(RMinSeq(Xs(s)), RMinSeq(Ys(s)), RMaxSeq(Xs(s)), RMaxSeq(Ys(s)))

\* r \subseteq s as sets of points, for non-empty r
Subset(r, s) == Has(s, <<L(r), B(r)>>) /\ Has(s, <<R(r), T(r)>>)

Union(r, s) == IF r.empty THEN s ELSE IF s.empty THEN r
               ELSE MkRect(RMin(L(r), L(s)), RMin(B(r), B(s)), RMax(R(r), R(s)), RMax(T(r), T(s)))

Meet(r, s) == ~r.empty /\ ~s.empty
              /\ RMax(L(r), L(s)) \preceq RMin(R(r), R(s))
              /\ RMax(B(r), B(s)) \preceq RMin(T(r), T(s))
Inter(r, s) == IF Meet(r, s)
               THEN MkRect(RMax(L(r), L(s)), RMax(B(r), B(s)), RMin(R(r), R(s)), RMin(T(r), T(s)))
               ELSE EmptyRect

Relation(r, s) == IF Subset(s, r) THEN "encloses" ELSE IF Subset(r, s) THEN "enclosed"
                  ELSE IF Meet(r, s) THEN "intersects" ELSE "separate"

RECURSIVE UnionAll(_)
UnionAll(rs) == IF rs = <<>> THEN EmptyRect ELSE Union(Head(rs), UnionAll(Tail(rs)))

Corners(r) == << <<L(r), B(r)>>, <<L(r), T(r)>>, <<R(r), T(r)>>, <<R(r), B(r)>> >>
=============================================================================
