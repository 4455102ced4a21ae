------------------------------- MODULE MC_Hue -------------------------------
(* The cycle of hues visits every integer hue once in 360 steps, from any start; the colors are colors *)
EXTENDS Colors

CONSTANT Starts
VARIABLES h, seen, start
Init == start \in Starts /\ h = start /\ seen = {}
Next == Cardinality(seen) < 360 /\ h' = NextHue(h) /\ seen' = seen \union {h'} /\ start' = start
vars == <<h, seen, start>>
Spec == Init /\ [][Next]_vars
\* each step finds a new hue; the last one is the first
NewEachTime == [][h' \notin seen]_vars
Complete == Cardinality(seen) = 360 => h = start /\ seen = 0..359
InRange == h \in 0..359 /\ LET c == Rgb(h) IN \A i \in 1..3 : RLe(0, c[i]) /\ RLe(c[i], 255)
\* one component is the highest, one the lowest
HalfSaturated == LET c == Rgb(h) IN (\E i \in 1..3 : c[i] \doteq High) /\ (\E i \in 1..3 : c[i] \doteq Low)
\* wrapping does not change the color
Periodic == \A i \in 1..3 : Rgb(h)[i] \doteq Rgb(h \oplus 360)[i] /\ Rgb(h)[i] \doteq Rgb(h \ominus 720)[i]

\* the keyword table
Chars == LowerCase
ASSUME Cardinality(DOMAIN Keywords) = 147
ASSUME \A w \in DOMAIN Keywords : IsColor(Keywords[w])
Pairs == << <<"gray", "grey">>, <<"darkgray", "darkgrey">>, <<"dimgray", "dimgrey">>, <<"lightgray", "lightgrey">>,
            <<"slategray", "slategrey">>, <<"darkslategray", "darkslategrey">>, <<"lightslategray", "lightslategrey">>,
            <<"aqua", "cyan">>, <<"fuchsia", "magenta">> >>
ASSUME \A i \in DOMAIN Pairs : Keywords[Pairs[i][1]] = Keywords[Pairs[i][2]]
\* and no others have the same color
ASSUME Cardinality({Keywords[w] : w \in DOMAIN Keywords}) = 147 - Len(Pairs)
L(c) == [c |-> c, l |-> TRUE]
ASSUME FromName(<<L("R"), L("e"), L("D")>>) = [v |-> "color", c |-> <<255, 0, 0>>]
ASSUME FromName(<<L("R"), L("e"), [c |-> "1", l |-> FALSE]>>) = [v |-> "none"]
ASSUME FromName(<<L("R"), L("e")>>) = [v |-> "error"]
=============================================================================
