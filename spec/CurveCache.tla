----------------------------- MODULE CurveCache -----------------------------
(***************************************************************************)
(* A curve object keeps some answers: its derivatives, extrema, bounding   *)
(* box, bounds, length and one lookup table.  What a query reads and       *)
(* writes, and what it returns, as a function of the control points (an    *)
(* opaque value here).                                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Cells == {"deriv", "extrema", "bbox", "bounds", "length", "table"}
\* the cells a query fills, before those that depend on them
Fills(q) == CASE q = "deriv" -> <<"deriv">>
              [] q \in {"extrema", "reduce", "reduceAsk", "selfIntersects", "offset"} -> <<"deriv", "extrema">>
              [] q = "bbox" -> <<"deriv", "extrema", "bbox">>
              [] q \in {"bounds", "overlaps", "intersects"} -> <<"deriv", "extrema", "bbox", "bounds">>
              [] q = "length" -> <<"deriv", "length">>
              [] q \in {"normal", "offsetPoint", "scale", "simple"} -> <<"deriv">>
              [] OTHER -> <<>>
\* queries with a second curve, whose bounds and extrema are used as well
Binary == {"overlaps", "intersects"}
TableSize(q) == CASE q = "table2" -> 2 [] q = "table5" -> 5 [] q = "table100" -> 100 [] OTHER -> 0
Queries == {"get", "midpoint", "ends", "deriv", "table2", "table5", "table100", "extrema", "bbox", "bounds", "length", "split", "split2",
            "hull", "reduce", "simple", "roots", "lineIntersects", "intersectWithLine", "selfIntersects", "offset", "offsetPoint", "scale",
            "normal", "align", "alignTo", "tightbbox", "raiseOrder", "ABC", "direction", "overlaps", "intersects",
            \* the bounds of the control points; questions to curves and contours made from this one
            "skeleton", "splitAsk", "split2Ask", "alignAsk", "raisedAsk", "reduceAsk", "copy", "contourOf"}
EmptyCache == [x \in Cells |-> <<>>]
\* the value of a cell of curve c; cells are computed from others, so a wrong value spreads
Value(c, x) == <<c, x>>
RECURSIVE Fill(_, _, _)
Fill(cache, c, s) == IF s = <<>> THEN cache
                     ELSE Fill(IF cache[Head(s)] = <<>> THEN [cache EXCEPT ![Head(s)] = Value(c, Head(s))] ELSE cache, c, Tail(s))
After(cache, c, q) == LET k == Fill(cache, c, Fills(q))
                      IN  IF TableSize(q) = 0 THEN k
                          ELSE IF k["table"] # <<>> /\ k["table"][3] = TableSize(q) THEN k
                          ELSE [k EXCEPT !["table"] = <<c, "table", TableSize(q)>>]
\* what the answer is made of
Answer(cache, c, q) == LET k == After(cache, c, q)
                       IN  <<c, q, [i \in DOMAIN Fills(q) |-> k[Fills(q)[i]]], IF TableSize(q) = 0 THEN <<>> ELSE k["table"]>>
=============================================================================
