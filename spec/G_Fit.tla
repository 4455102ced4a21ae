-------------------------------- MODULE G_Fit --------------------------------
(* Sequences of K calls around the growing table of binomial coefficients; rows is how many of its rows there are. *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT K
VARIABLES rows, hist
Need(op, n) == IF op = "binomial" THEN n + 1 ELSE n
Max(a, b) == IF a > b THEN a ELSE b
Init == rows = 7 /\ hist = <<>>
Sizes(op) == CASE op = "binomial" -> {0, 1, 5, 6, 7, 8, 12} [] op = "basisMatrix" -> {1, 3, 6, 7, 8, 10} [] op = "fit" -> {2, 4, 7}
Next == /\ Len(hist) < K
        /\ \E op \in {"binomial", "basisMatrix", "fit"} : \E n \in Sizes(op) :
              rows' = Max(rows, Need(op, n)) /\ hist' = Append(hist, [op |-> op, n |-> n])
Enough == \A i \in DOMAIN hist : Need(hist[i].op, hist[i].n) <= rows
Emit == Len(hist) = K => PrintT("BEHAVIOUR " \o ToJson(hist))
=============================================================================
