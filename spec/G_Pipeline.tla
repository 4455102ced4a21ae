----------------------------- MODULE G_Pipeline -----------------------------
(***************************************************************************)
(* Histories of an outline of two contours.  After every step its curves   *)
(* are where the transformations put the curves they come from, contours   *)
(* stay closed, their path data describes them, their control points'      *)
(* bounds contain them.  Each history of K steps is printed for replay.    *)
(***************************************************************************)
EXTENDS Pipeline, Json

CONSTANT K
VARIABLES out, hist
vars == <<out, hist>>

Outline == << << <<<<0, 0>>, <<4, 0>>>>, <<<<4, 0>>, <<6, 4>>, <<2, 5>>>>, <<<<2, 5>>, <<-3, 7>>, <<-2, 1>>, <<0, 0>>>> >>,
              << <<<<8, 8>>, <<9, 12>>, <<10, 8>>>>, <<<<10, 8>>, <<8, 8>>>> >> >>
Ms == << M!TranslateM(<<0, 0>>, <<5, -3>>), M!RotateM(90, TRUE), M!MirrorM(TRUE, FALSE), <<<<2, 1, 0>>, <<0, 3, 0>>, <<1, 1, 1>>>> >>
Ts == <<Half, RDiv(1, 4)>>

Init == out = OriginAll(Outline) /\ hist = <<>>
Log(x) == hist' = Append(hist, x)
Move == \E m \in DOMAIN Ms : out' = MoveAll(out, <<Ms[m]>>) /\ Log([op |-> "move", i |-> m, k |-> 0, t |-> 0])
Split == \E i \in DOMAIN out : \E k \in DOMAIN out[i] : \E t \in DOMAIN Ts :
            out' = SplitAt(out, i, k, Ts[t]) /\ Log([op |-> "split", i |-> i, k |-> k, t |-> t])
Raise == \E i \in DOMAIN out : \E k \in DOMAIN out[i] :
            Len(out[i][k].p) < 4 /\ out' = RaiseAt(out, i, k) /\ Log([op |-> "raise", i |-> i, k |-> k, t |-> 0])
\* another curve between the same points
Put == \E i \in DOMAIN out : \E k \in DOMAIN out[i] :
            LET p == out[i][k].p
            IN  out' = PutAt(out, i, k, <<p[1], <<7, -7>>, p[Len(p)]>>) /\ Log([op |-> "put", i |-> i, k |-> k, t |-> 0])
Next == Len(hist) < K /\ (Move \/ Split \/ Raise \/ Put)

IsFaithful == Faithful(out)
StayClosed == LET cs == Points(out) IN \A i \in DOMAIN cs : Closed(cs[i])
Described == LET cs == Points(out) IN \A i \in DOMAIN cs : Describes(Data(cs[i]), <<cs[i]>>, FALSE)
\* splitting and raising shrink the bounds of the control points, and keep those of the curve inside
InBounds == \A i \in DOMAIN out : \A k \in DOMAIN out[i] :
               LET b == Bounds(out[i][k].p)
               IN \A j \in 0..4 : Has(b, Source(out[i][k], RDiv(j, 4)))
Emit == Len(hist) = K => PrintT("BEHAVIOUR " \o ToJson(hist))
=============================================================================
