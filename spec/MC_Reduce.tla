----------------------------- MODULE MC_Reduce -----------------------------
(***************************************************************************)
(* The second pass of the reduction: a stretch between extrema is walked   *)
(* in steps; a piece is cut off as soon as it would not be simple any      *)
(* more.  The stretch has Size grid cells, a step is K of them (so that    *)
(* the end of the stretch need not be reached by a whole number of steps); *)
(* a piece from a to b is simple if it turns by less than Limit, and turn  *)
(* gives the turning of each grid cell.                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences

CONSTANTS Size, K, Limit, MaxTurn
VARIABLES turn,      \* turning of each cell
          t1, t2,    \* the piece being extended
          pieces,    \* the pieces cut off
          pc         \* "extend", "done" or "failed"
vars == <<turn, t1, t2, pieces, pc>>

RECURSIVE Turn(_, _)
Turn(a, b) == IF a >= b THEN 0 ELSE turn[a + 1] + Turn(a + 1, b)
Simple(a, b) == Turn(a, b) < Limit
Init == turn \in [1..Size -> 0..MaxTurn] /\ t1 = 0 /\ t2 = K /\ pieces = <<>> /\ pc = "extend"
Grow == pc = "extend" /\ t2 <= Size /\ Simple(t1, t2) /\ t2' = t2 + K /\ UNCHANGED <<turn, t1, pieces, pc>>
Cut == /\ pc = "extend" /\ t2 <= Size /\ ~Simple(t1, t2)
       /\ IF t2 - K - t1 < K
          THEN pc' = "failed" /\ pieces' = <<>> /\ UNCHANGED <<turn, t1, t2>>
          ELSE pieces' = Append(pieces, <<t1, t2 - K>>) /\ t1' = t2 - K /\ t2' = t2 /\ UNCHANGED <<turn, pc>>
Last == /\ pc = "extend" /\ t2 > Size
        /\ pieces' = IF t1 < Size THEN Append(pieces, <<t1, Size>>) ELSE pieces
        /\ pc' = "done" /\ UNCHANGED <<turn, t1, t2>>
Next == Grow \/ Cut \/ Last

Contiguous == \A i \in DOMAIN pieces : /\ pieces[i][1] < pieces[i][2]
                                       /\ pieces[i][1] = IF i = 1 THEN 0 ELSE pieces[i - 1][2]
Covered == pc = "done" => pieces # <<>> /\ pieces[Len(pieces)][2] = Size
AllButLastSimple == \A i \in DOMAIN pieces : (pc # "done" \/ i < Len(pieces)) => Simple(pieces[i][1], pieces[i][2])
\* the last piece is simple up to its last, incomplete step
AlmostSimple == pc = "done" => LET q == pieces[Len(pieces)] IN Simple(q[1], q[1] + K * ((q[2] - q[1]) \div K))
\* it only fails where a single step turns too much
FailsRightly == pc = "failed" => \E a \in 0..(Size - K) : ~Simple(a, a + K)
\* pieces are as long as they can be
Longest == \A i \in 1..(Len(pieces) - 1) : ~Simple(pieces[i][1], pieces[i][2] + K)
Progress == t1 < t2 /\ t2 <= Size + K
=============================================================================
