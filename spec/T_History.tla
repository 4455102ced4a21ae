------------------------------ MODULE T_History ------------------------------
(***************************************************************************)
(* C13: answers do not depend on what was asked before.  An answer is      *)
(* [shape |-> its structure, n |-> the numbers in it].                     *)
(***************************************************************************)
EXTENDS TraceBase, Geometry

\* the state: the first answer to each query of each curve
StartImpl == <<>>

RECURSIVE MagOf(_)
MagOf(n) == IF n = <<>> THEN 0 ELSE RMaxSeq(TLCEval([i \in DOMAIN n |-> RAbs(n[i])]))
Same(x, y, mag) == /\ x.k = y.k
                   /\ x.k = "ok" => /\ x.r.shape = y.r.shape
                                    /\ Len(x.r.n) = Len(y.r.n)
                                    /\ LET tol == Tol(RMax(mag, MagOf(y.r.n)))
                                       IN  \A i \in DOMAIN x.r.n : RNear(x.r.n[i], y.r.n[i], tol)
JudgeImpl(st0, ev) ==
    LET a == ev.a
        key == <<a.i, a.q>>
        ans == [k |-> ev.k, r |-> ev.r]
        before == {j \in DOMAIN st0 : st0[j].key = key}
    IN
    CASE ev.op = "make" -> [st |-> st0, cl |-> Ok(ev, None) \o Pure(ev)]
      [] ev.op = "ask" ->
            [st |-> IF before = {} THEN Append(st0, [key |-> key, ans |-> ans]) ELSE st0,
             cl |-> Cl("as asked of a new object", Same(ans, ev.f, a.mag))
                    \o If(before # {}, Cl("as answered before", \A j \in before : Same(ans, st0[j].ans, a.mag)))
                    \o Cl("precision", ev.prec = 1)
                    \o Cl("control points unchanged", ~ev.mut)]
      \* an answer received before, looked at again
      [] ev.op = "kept" ->
            [st |-> st0, cl |-> Cl("earlier answer unchanged", \A j \in before : Same(ans, st0[j].ans, a.mag))]
=============================================================================
