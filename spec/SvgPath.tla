------------------------------ MODULE SvgPath ------------------------------
(***************************************************************************)
(* Reading SVG path data (absolute commands).                              *)
(*                                                                         *)
(* Path data is a sequence of groups [c |-> letter, n |-> numbers]: a      *)
(* command letter and all the numbers up to the next letter.  A group with *)
(* more numbers than the command takes repeats the command (M is repeated  *)
(* as L).  The reader is a state machine: the subpaths finished so far,    *)
(* the pen and the start of the current subpath.                           *)
(***************************************************************************)
EXTENDS Geometry, TLC

\* a subpath: where it starts, its segments (with their first points), whether Z closed it
Sub0(p) == [start |-> p, segs |-> <<>>, closed |-> FALSE]
Reader0 == [ok |-> TRUE, pen |-> <<0, 0>>, subs |-> <<>>]

Arity(c) == CASE c = "M" -> 2 [] c = "L" -> 2 [] c = "H" -> 1 [] c = "V" -> 1 [] c = "Q" -> 4 [] c = "C" -> 6
              [] OTHER -> 0
Fail(s) == [s EXCEPT !.ok = FALSE]
\* append a segment to the last subpath; after Z a new subpath starts where the last one did
Draw(s, pts) ==
    LET n == Len(s.subs)
        cur == s.subs[n]
        seg == <<s.pen>> \o pts
        end == pts[Len(pts)]
    IN  IF n = 0 THEN Fail(s)
        ELSE IF cur.closed
             THEN [s EXCEPT !.subs = Append(@, [Sub0(s.pen) EXCEPT !.segs = <<seg>>]), !.pen = end]
             ELSE [s EXCEPT !.subs[n].segs = Append(@, seg), !.pen = end]
Do(s, c, n) ==
    CASE c = "M" -> [s EXCEPT !.subs = Append(@, Sub0(<<n[1], n[2]>>)), !.pen = <<n[1], n[2]>>]
      [] c = "L" -> Draw(s, << <<n[1], n[2]>> >>)
      [] c = "H" -> Draw(s, << <<n[1], Y(s.pen)>> >>)
      [] c = "V" -> Draw(s, << <<X(s.pen), n[1]>> >>)
      [] c = "Q" -> Draw(s, << <<n[1], n[2]>>, <<n[3], n[4]>> >>)
      [] c = "C" -> Draw(s, << <<n[1], n[2]>>, <<n[3], n[4]>>, <<n[5], n[6]>> >>)
RECURSIVE Args(_, _, _), ReadAll(_, _)
Args(s, c, n) == IF n = <<>> \/ ~s.ok THEN s
                 ELSE IF Len(n) < Arity(c) THEN Fail(s)
                 ELSE Args(Do(s, c, n), IF c = "M" THEN "L" ELSE c, SubSeq(n, Arity(c) + 1, Len(n)))
Group(s, g) ==
    IF g.c = "Z"
    THEN IF g.n # <<>> \/ s.subs = <<>> THEN Fail(s)
         ELSE [s EXCEPT !.subs[Len(s.subs)].closed = TRUE, !.pen = s.subs[Len(s.subs)].start]
    ELSE IF Arity(g.c) = 0 \/ g.n = <<>> THEN Fail(s) ELSE Args(s, g.c, g.n)
ReadAll(s, gs) == IF gs = <<>> THEN s ELSE ReadAll(Group(s, gs[1]), Tail(gs))
Read(gs) == ReadAll(Reader0, gs)

\* lines of no length may be left out
Visible(segs) == SelectSeq(segs, LAMBDA s : ~(Len(s) = 2 /\ PEq(s[1], s[2])))
\* the path data gs describes exactly the given contours (non-empty sequences of connected segments)
Describes(gs, contours, closed) ==
    LET s == Read(gs)
    IN  /\ s.ok
        /\ Len(s.subs) = Len(contours)
        /\ \A i \in DOMAIN contours :
              /\ PEq(s.subs[i].start, contours[i][1][1])
              /\ s.subs[i].closed = closed
              /\ SSeqEq(Visible(s.subs[i].segs), Visible(contours[i]))

\* a writer: one group per segment, with H and V for horizontal and vertical lines
Write1(seg) == IF Len(seg) = 2
               THEN IF X(seg[1]) \doteq X(seg[2]) THEN [c |-> "V", n |-> <<Y(seg[2])>>]
                    ELSE IF Y(seg[1]) \doteq Y(seg[2]) THEN [c |-> "H", n |-> <<X(seg[2])>>]
                    ELSE [c |-> "L", n |-> seg[2]]
               ELSE [c |-> IF Len(seg) = 3 THEN "Q" ELSE "C", n |-> Flat(Tail(seg))]
\* a group with the same letter as the one before is merged with it
Merge(gs, g) == LET k == Len(gs) IN
    IF k > 0 /\ gs[k].c = g.c THEN [gs EXCEPT ![k].n = @ \o g.n] ELSE Append(gs, g)
=============================================================================
