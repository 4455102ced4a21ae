------------------------------ MODULE Pipeline ------------------------------
(***************************************************************************)
(* What becomes of an outline: it is transformed as a whole, its curves    *)
(* are split, raised to a higher order and replaced.                       *)
(*                                                                         *)
(* A curve of the outline remembers where it comes from: p are its control *)
(* points, and it is said to be the part from a to b of the original curve *)
(* o after the transformations ms.  Faithful is what has to be preserved.  *)
(***************************************************************************)
EXTENDS Contours
M == INSTANCE Transform

Origin(c) == [p |-> c, o |-> c, a |-> 0, b |-> 1, ms |-> <<>>]
OriginAll(cs) == TLCEval([i \in DOMAIN cs |-> [k \in DOMAIN cs[i] |-> Origin(cs[i][k])]])
Points(out) == TLCEval([i \in DOMAIN out |-> [k \in DOMAIN out[i] |-> out[i][k].p]])

Moved(e, ms) == [e EXCEPT !.p = TLCEval([j \in DOMAIN e.p |-> M!Walk(ms, e.p[j])]), !.ms = @ \o ms]
MoveAll(out, ms) == TLCEval([i \in DOMAIN out |-> [k \in DOMAIN out[i] |-> Moved(out[i][k], ms)]])
PartOf(e, s, t) == [e EXCEPT !.p = Part(e.p, s, t),
                             !.a = e.a \oplus (s \otimes (e.b \ominus e.a)), !.b = e.a \oplus (t \otimes (e.b \ominus e.a))]
Replace(c, k, es) == SubSeq(c, 1, k - 1) \o es \o SubSeq(c, k + 1, Len(c))
SplitAt(out, i, k, t) == [out EXCEPT ![i] = Replace(@, k, <<PartOf(@[k], 0, t), PartOf(@[k], t, 1)>>)]
RaiseAt(out, i, k) == [out EXCEPT ![i][k].p = Raised(@)]
PutAt(out, i, k, c) == [out EXCEPT ![i][k] = Origin(c)]

\* the point of the original curve that has become the point at t
Source(e, t) == M!Walk(e.ms, Eval(e.o, e.a \oplus (t \otimes (e.b \ominus e.a))))
FaithfulAt(e, t) == PEq(Eval(e.p, t), Source(e, t))
\* enough points to determine polynomials of degree 4
Faithful(out) == \A i \in DOMAIN out : \A k \in DOMAIN out[i] :
                    \A j \in 0..4 : FaithfulAt(out[i][k], RDiv(j, 4))
Closed(cs) == Connected(cs) /\ PEq(cs[1][1], cs[Len(cs)][Len(cs[Len(cs)])])

\* path data of a contour
RECURSIVE WriteAll(_, _)
WriteAll(gs, c) == IF c = <<>> THEN gs ELSE WriteAll(Merge(gs, Write1(c[1])), Tail(c))
Data(c) == WriteAll(<<[c |-> "M", n |-> c[1][1]]>>, c)
=============================================================================
