------------------------------ MODULE T_Color ------------------------------
(* C26: colors *)
EXTENDS TraceBase, Colors

\* the state: the last hue used
StartImpl == [hue |-> 0]

JudgeImpl(st0, ev) ==
    LET a == ev.a
        r == ev.r
    IN
    CASE ev.op = "fromName" ->
            LET e == FromName(a.name)
            IN  V(st0, Ok(ev, IF e.v = "color" THEN Cl("keyword", r.v = "color" /\ r.c = e.c)
                              ELSE IF e.v = "none" THEN Cl("no word", r.v = "none")
                              ELSE Cl("no keyword", r.v = "error")))
      [] ev.op = "setHue" -> [st |-> [st0 EXCEPT !.hue = a.h], cl |-> Ok(ev, None)]
      [] ev.op = "hsl" ->
            LET h == NextHue(st0.hue)
            IN  [st |-> [st0 EXCEPT !.hue = h], cl |-> Ok(ev, Cl("next hue", IsRgb(r, h)))]
      [] ev.op = "rgb" -> V(st0, Ok(ev, Cl("components", \A i \in DOMAIN r : IsColor(r[i]))))
=============================================================================
