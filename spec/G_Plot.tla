------------------------------- MODULE G_Plot -------------------------------
(***************************************************************************)
(* Sequences of pushes, pops, settings and drawing calls, with up to K     *)
(* steps.  A drawing call is what the plotter does inside one: it pushes,  *)
(* may set a color of its own, and pops (a letter per kind; the settings   *)
(* inside are visible in "inside").                                        *)
(***************************************************************************)
EXTENDS Plotter, Json

CONSTANT K
VARIABLES p, word, marks
vars == <<p, word, marks>>
\* marks: the settings in effect at the pushes that have not been popped
Red == <<255, 0, 0>>
Blue == <<0, 0, 255>>
P0 == Plotter0([c |-> Black, o |-> 1], [w |-> 1, c |-> Black, o |-> 1, d |-> "none"])
Init == p = P0 /\ word = <<>> /\ marks = [f |-> <<>>, s |-> <<>>]
Step(l, q) == Len(word) < K /\ word' = Append(word, l) /\ p' = q
Keep == UNCHANGED marks
Opts(x) == {<<>>, <<x>>}
\* what a drawing call does: everything drawn inside, nothing left
Drawn(q, c, fill, own) ==
    IF fill THEN LET i == PushFill(q, c, <<>>) IN PopFill(IF own = <<>> THEN i ELSE [i EXCEPT !.f.c = own[1]])
    ELSE LET i == PushStroke(q, <<>>, c, <<>>, <<>>) IN PopStroke(IF own = <<>> THEN i ELSE [i EXCEPT !.s.c = own[1]])
Next ==
    \/ \E c \in Opts(Red), o \in Opts(0) :
          /\ Step(<<"F", c # <<>>, o # <<>> >>, PushFill(p, c, o)) /\ marks' = [marks EXCEPT !.f = Append(@, p.f)]
    \/ \E c \in Opts(Blue), w \in Opts(0) :
          /\ Step(<<"S", c # <<>>, w # <<>> >>, PushStroke(p, w, c, <<>>, <<>>)) /\ marks' = [marks EXCEPT !.s = Append(@, p.s)]
    \/ /\ Len(p.fs) > 0 /\ Step(<<"f", TRUE, TRUE>>, PopFill(p)) /\ marks' = [marks EXCEPT !.f = Popped(@)]
    \/ /\ Len(p.ss) > 0 /\ Step(<<"s", TRUE, TRUE>>, PopStroke(p)) /\ marks' = [marks EXCEPT !.s = Popped(@)]
    \/ Step(<<"x", TRUE, TRUE>>, [p EXCEPT !.f = FillWith(@, <<Blue>>, <<RDiv(1, 2)>>)]) /\ Keep
    \/ Step(<<"y", TRUE, TRUE>>, [p EXCEPT !.s = StrokeWith(@, <<2>>, <<Red>>, <<>>, <<"1">>)]) /\ Keep
    \/ \E c \in Opts(Red), fill \in BOOLEAN : Step(<<"D", c # <<>>, fill>>, Drawn(p, c, fill, <<Blue>>)) /\ Keep

\* the stacks hold exactly the settings at the open pushes, of fill and stroke separately
Matched == p.fs = marks.f /\ p.ss = marks.s
\* popping everything restores the settings at the first push; a drawing call changes nothing
Restores == [][\A i \in {1} :
                  LET l == word'[Len(word')][1] IN
                  /\ (l = "D" => p' = p)
                  /\ (l = "f" => p'.f = marks.f[Len(marks.f)] /\ p'.s = p.s)
                  /\ (l = "s" => p'.s = marks.s[Len(marks.s)] /\ p'.f = p.f)
                  /\ (l = "F" => p'.s = p.s) /\ (l = "S" => p'.f = p.f)]_word
Emit == (Len(word) = K /\ \E i \in DOMAIN word : word[i][1] \in {"f", "s", "D"}) => PrintT("BEHAVIOUR " \o ToJson(word))
=============================================================================
