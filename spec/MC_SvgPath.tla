----------------------------- MODULE MC_SvgPath -----------------------------
(***************************************************************************)
(* Writing path data with omitted repeated commands (as BContour.d() and   *)
(* the plotter's poly mode do) and reading it gives back the contours: a   *)
(* writer that draws segment by segment, remembering the last command and  *)
(* the pen, and forgetting the last command at the start of a contour.     *)
(* With Forget = FALSE (the last command survives an M) the second of two  *)
(* contours can be misread, with Skip = FALSE lines of no length make it   *)
(* longer: TLC finds both when asked to.                                   *)
(***************************************************************************)
EXTENDS SvgPath

CONSTANT MaxSegs, Forget
Pts == << <<0, 0>>, <<2, 0>>, <<2, 3>> >>

VARIABLES gs,      \* the groups written
          last,    \* the last command written
          pen,
          cs       \* the contours drawn
vars == <<gs, last, pen, cs>>
Init == gs = <<>> /\ last = "" /\ pen = <<0, 0>> /\ cs = <<>>
N == Len(Flat(cs))

Put(g) == IF last = g.c THEN [gs EXCEPT ![Len(gs)].n = @ \o g.n] ELSE Append(gs, g)
Move(p) == /\ Len(cs) < 2
           /\ IF cs = <<>> THEN TRUE ELSE cs[Len(cs)] # <<>>
           /\ gs' = Append(gs, [c |-> "M", n |-> p]) /\ pen' = p
           /\ last' = IF Forget THEN "" ELSE last
           /\ cs' = Append(cs, <<>>)
Segment(pts) == /\ cs # <<>> /\ N < MaxSegs
                /\ LET seg == <<pen>> \o pts
                       zero == Len(seg) = 2 /\ pts[1] = pen
                   IN  /\ cs' = [cs EXCEPT ![Len(cs)] = Append(@, seg)]
                       /\ gs' = IF zero THEN gs ELSE Put(Write1(seg))
                       /\ last' = IF zero THEN last ELSE Write1(seg).c
                       /\ pen' = pts[Len(pts)]
Next == \E i, j \in DOMAIN Pts :
           Move(Pts[i]) \/ Segment(<<Pts[i]>>) \/ Segment(<<Pts[i], Pts[j]>>) \/ Segment(<<Pts[i], Pts[j], <<5, 7>>>>)

RoundTrip == (cs # <<>> /\ \A i \in DOMAIN cs : cs[i] # <<>>) => Describes(gs, cs, FALSE)
PenOk == Read(gs).ok /\ PEq(Read(gs).pen, pen)
\* any change of a number of the path data is noticed
Sensitive == (cs # <<>> /\ \A i \in DOMAIN cs : Visible(cs[i]) # <<>>) =>
                \A i \in DOMAIN gs : \A j \in DOMAIN gs[i].n :
                   ~Describes([gs EXCEPT ![i].n[j] = @ + 1], cs, FALSE) \/ gs[i].c = "M"
=============================================================================
