------------------------------ MODULE G_History ------------------------------
(* Histories of queries on two curves; each history of K queries is printed for replay in the code. *)
EXTENDS CurveCache, Json

CONSTANT K
VARIABLES cache, hist, seen
vars == <<cache, hist, seen>>
Curves == {1, 2}
Init == cache = [c \in Curves |-> EmptyCache] /\ hist = <<>> /\ seen = <<>>
Ask(c, q) ==
    /\ cache' = [d \in Curves |-> IF d = c THEN After(cache[d], d, q)
                                  ELSE IF q \in Binary THEN After(cache[d], d, q) ELSE cache[d]]
    /\ seen' = <<c, q, Answer(cache[c], c, q)>>
    /\ hist' = Append(hist, [c |-> c, q |-> q])
Next == Len(hist) < K /\ \E c \in Curves, q \in Queries : Ask(c, q)
\* the answer is that of a new object
AsNew == seen # <<>> => seen[3] = Answer(EmptyCache, seen[1], seen[2])
Own == \A c \in Curves, x \in Cells : cache[c][x] = <<>> \/ (cache[c][x][1] = c /\ cache[c][x][2] = x)
\* histories begin with the first curve and ask something twice or of both curves
Emit == (Len(hist) = K /\ hist[1].c = 1) => PrintT("BEHAVIOUR " \o ToJson(hist))
=============================================================================
