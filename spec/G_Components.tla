---------------------------- MODULE G_Components ----------------------------
(***************************************************************************)
(* Glyphs made of outlines and of components of the glyphs before them,    *)
(* and pens that draw them, in up to K steps.  Letters <<l, g, t>>:        *)
(*   n  a new glyph          o  it draws a closed contour                  *)
(*   h  it begins a contour (and leaves it)   e  it goes on and closes it  *)
(*   c  it has a component: glyph g with transformation t                  *)
(*   p  a new pen: no more glyphs                                          *)
(*   d  glyph g draws itself with the pen                                  *)
(*   u  the pen is given the component g with transformation t             *)
(* Glyph 1 draws a closed contour to start with.                           *)
(***************************************************************************)
EXTENDS Pen, Json

CONSTANT K
\* identity, move, general
T == << <<1, 0, 0, 1, 0, 0>>, <<1, 0, 0, 1, 5, -3>>, <<2, 1, RDiv(-1, 2), 1, 3, 7>> >>
VARIABLES glyphs, pen, using, word, rec
vars == <<glyphs, pen, using, word, rec>>
Box(k) == << [c |-> "moveTo", p |-> << <<k, 0>> >>], [c |-> "lineTo", p |-> << <<3, k>> >>],
             [c |-> "qCurveTo", p |-> << <<4, 4>>, <<0, 9>> >>], [c |-> "closePath", p |-> <<>>] >>
Begin == << [c |-> "moveTo", p |-> << <<-1, -2>> >>], [c |-> "lineTo", p |-> << <<6, 1>> >>] >>
End == << [c |-> "lineTo", p |-> << <<2, 8>> >>], [c |-> "closePath", p |-> <<>>] >>
Comp(g, t) == [c |-> "component", g |-> g, m |-> T[t]]

Init == glyphs = << Box(0) >> /\ pen = NewPen /\ using = FALSE /\ word = <<>> /\ rec = <<>>
L == IF word = <<>> THEN "o" ELSE word[Len(word)][1]
Step(l, g, t) == Len(word) < K /\ word' = Append(word, <<l, g, t>>)
Define(l, g, t, items) == /\ ~using /\ Step(l, g, t) /\ glyphs' = [glyphs EXCEPT ![Len(glyphs)] = @ \o items]
                          /\ UNCHANGED <<pen, using, rec>>
Use(l, g, t, q) == using /\ Step(l, g, t) /\ pen' = TLCEval(q) /\ rec' = pen'.done /\ UNCHANGED <<glyphs, using>>
Next ==
    \/ /\ ~using /\ glyphs[Len(glyphs)] # <<>> /\ Step("n", 0, 0)
       /\ glyphs' = Append(glyphs, <<>>) /\ UNCHANGED <<pen, using, rec>>
    \/ L # "o" /\ Define("o", 0, 0, Box(Len(word)))
    \/ L # "h" /\ Define("h", 0, 0, Begin)
    \/ /\ \E i \in DOMAIN word : word[i][1] = "h" /\ \A j \in (i + 1)..Len(word) : word[j][1] \notin {"n", "e", "o", "h"}
       /\ Define("e", 0, 0, End)
    \/ \E g \in 1..(Len(glyphs) - 1), t \in DOMAIN T : Define("c", g, t, << Comp(g, t) >>)
    \/ /\ ~using /\ Len(glyphs) > 1 /\ glyphs[Len(glyphs)] # <<>> /\ Step("p", 0, 0)
       /\ using' = TRUE /\ UNCHANGED <<glyphs, pen, rec>>
    \/ \E g \in DOMAIN glyphs :
        \/ Use("d", g, 0, DrawItems(glyphs, pen, glyphs[g]))
        \/ \E t \in DOMAIN T : Use("u", g, t, [pen EXCEPT !.done = @ \o PlaceAll(T[t], Outline(glyphs, g))])

(***************************************************************************)
(* The contours of a glyph another way: all paths through its components   *)
(* down to a contour drawn, the transformations along a path multiplied.   *)
(***************************************************************************)
After(m, n) == LET e == Place(m, <<n[5], n[6]>>)      \* first n, then m
                   u == Place(m, <<n[1], n[2]>>)
                   v == Place(m, <<n[3], n[4]>>)
                   o == Place(m, <<0, 0>>)
               IN  <<X(u) \ominus X(o), Y(u) \ominus Y(o), X(v) \ominus X(o), Y(v) \ominus Y(o), X(e), Y(e)>>
RECURSIVE Own(_, _), Count(_), CountItems(_), Paths(_, _), PathItems(_, _, _)
\* the contours the first n items of a glyph draw themselves
Own(items, n) == DoAll(NewPen, SelectSeq(SubSeq(items, 1, n), LAMBDA x : x.c # "component")).done
CountItems(items) == IF items = <<>> THEN 0
                     ELSE (IF Head(items).c = "component" THEN Count(Head(items).g) ELSE IF Head(items).c = "closePath" THEN 1 ELSE 0) + CountItems(Tail(items))
Count(g) == CountItems(glyphs[g])
PathItems(items, n, m) ==
    IF n > Len(items) THEN <<>>
    ELSE LET x == items[n] IN
         (CASE x.c = "component" -> Paths(x.g, After(m, x.m))
            [] x.c = "closePath" -> LET o == Own(items, n) IN PlaceAll(m, << o[Len(o)] >>)
            [] OTHER -> <<>>) \o PathItems(items, n + 1, m)
Paths(g, m) == PathItems(glyphs[g], 1, m)

Defined == DOMAIN glyphs
PathsAgree == using => \A g \in Defined : LET o == Outline(glyphs, g)
                                              q == Paths(g, T[1])
                                          IN  /\ Len(o) = Count(g) /\ Len(q) = Len(o)
                                              /\ \A i \in DOMAIN o : /\ WellFormed(o[i])
                                                                     /\ \A j \in DOMAIN o[i] : PSeqNear(o[i][j], q[i][j], 0)
\* components leave the contour being drawn as it is
OpenKept == [][\A x \in {word'[Len(word')]} : x[1] = "u" => pen'.open = pen.open /\ pen'.last = pen.last]_word
Monotone == [][Len(rec) <= Len(rec') /\ SubSeq(rec', 1, Len(rec)) = rec]_rec
Uses == L \in {"d", "u"}
Emit == (using /\ Len(word) = K /\ Uses) => PrintT("BEHAVIOUR " \o ToJson(word))
=============================================================================
