------------------------------- MODULE G_Pen -------------------------------
(***************************************************************************)
(* Drawings of up to C contours with K commands in all (besides moveTo and *)
(* closePath).  Commands are letters: L line to a new point, Z line to the *)
(* current point, S line to the start, C cubic curve to a new point, D to  *)
(* the start, P Q R quadratic curve over 1 to 3 off-curve points to a new  *)
(* point, T over 2 to the start, N closed curve of off-curve points only,  *)
(* M another moveTo (abandons what was drawn).                             *)
(***************************************************************************)
EXTENDS Pen, FiniteSets, Json

CONSTANTS K, C
VARIABLES pen, start, mode, n, word, rec
vars == <<pen, start, mode, n, word, rec>>
\* n counts the points used; the n-th point:
Pt(i) == <<((i * 7) % 11) - 4, ((i * i * 5) % 13) - 6>>
Letters == Len(word)
Contours == Cardinality({i \in DOMAIN word : word[i] = "x"})
Cmds == Cardinality({i \in DOMAIN word : word[i] \notin {"m", "x"}})
Init == pen = NewPen /\ start = <<0, 0>> /\ mode = "between" /\ n = 0 /\ word = <<>> /\ rec = <<>>
Step(l, p, k) == pen' = p /\ word' = Append(word, l) /\ n' = n + k /\ rec' = p.done
Move == /\ mode = "between" /\ Contours < C
        /\ Step("m", MoveTo(pen, Pt(n)), 1) /\ start' = Pt(n) /\ mode' = "drawing"
Again == /\ mode = "drawing" /\ Cmds < K
         /\ Step("M", MoveTo(pen, Pt(n)), 1) /\ start' = Pt(n) /\ mode' = "drawing"
Draw(l, p, k) == mode = "drawing" /\ Cmds < K /\ Step(l, p, k) /\ UNCHANGED <<start, mode>>
Next ==
    \/ Move \/ Again
    \/ Draw("L", LineTo(pen, Pt(n)), 1)
    \/ Draw("Z", LineTo(pen, pen.last), 0)
    \/ Draw("S", LineTo(pen, start), 0)
    \/ Draw("C", CurveTo(pen, Pt(n), Pt(n + 1), Pt(n + 2)), 3)
    \/ Draw("D", CurveTo(pen, Pt(n), Pt(n + 1), start), 2)
    \/ Draw("P", QCurveTo(pen, <<Pt(n)>>, Pt(n + 1)), 2)
    \/ Draw("Q", QCurveTo(pen, <<Pt(n), Pt(n + 1)>>, Pt(n + 2)), 3)
    \/ Draw("R", QCurveTo(pen, <<Pt(n), Pt(n + 1), Pt(n + 2)>>, Pt(n + 3)), 4)
    \/ Draw("T", QCurveTo(pen, <<Pt(n), Pt(n + 1)>>, start), 2)
    \/ /\ mode = "between" /\ Contours < C /\ Cmds < K
       /\ Step("N", QClosed(pen, <<Pt(n), Pt(n + 1), Pt(n + 2)>>), 3) /\ mode' = "closing" /\ start' = start
    \/ /\ mode \in {"drawing", "closing"} /\ Step("x", ClosePath(pen), 0) /\ mode' = "between" /\ start' = start
    \* closing once more records nothing
    \/ /\ mode = "between" /\ Letters > 1 /\ Contours < C
       /\ IF Letters > 1 THEN word[Letters - 1] # "x" ELSE FALSE
       /\ Step("x", ClosePath(pen), 0) /\ UNCHANGED <<start, mode>>

AllClosed == \A i \in DOMAIN pen.done : WellFormed(pen.done[i])
OpenConnected == /\ \A i \in 1..(Len(pen.open) - 1) : PEq(pen.open[i][Len(pen.open[i])], pen.open[i + 1][1])
                 /\ pen.open # <<>> => PEq(pen.last, pen.open[Len(pen.open)][Len(pen.open[Len(pen.open)])])
NoPointLines == \A i \in DOMAIN pen.done : \A j \in DOMAIN pen.done[i] :
                   Len(pen.done[i][j]) = 2 => ~PEq(pen.done[i][j][1], pen.done[i][j][2])
\* what was recorded stays
Monotone == [][Len(rec) <= Len(rec') /\ SubSeq(rec', 1, Len(rec)) = rec]_rec
Emit == (mode = "between" /\ word # <<>>) => PrintT("BEHAVIOUR " \o ToJson(word))
=============================================================================
