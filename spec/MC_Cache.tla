------------------------------ MODULE MC_Cache ------------------------------
(* Every state the caches of two curves can be in, whatever was asked: answers are those of new objects. *)
EXTENDS CurveCache
VARIABLES cache
Curves == {1, 2}
Init == cache = [c \in Curves |-> EmptyCache]
Ask(c, q) == cache' = [d \in Curves |-> IF d = c \/ q \in Binary THEN After(cache[d], d, q) ELSE cache[d]]
Next == \E c \in Curves, q \in Queries : Ask(c, q)
AsNew == \A c \in Curves, q \in Queries : Answer(cache[c], c, q) = Answer(EmptyCache, c, q)
Own == \A c \in Curves, x \in Cells : cache[c][x] = <<>> \/ (cache[c][x][1] = c /\ cache[c][x][2] = x)
=============================================================================
