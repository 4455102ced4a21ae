----------------------------- MODULE T_Helpers -----------------------------
(* C30: helpers of the geometry *)
EXTENDS TraceBase, Helpers

StartImpl == 0

JudgeImpl(st0, ev) ==
    LET a == ev.a
        r == ev.r
        J(cl) == V(st0, Ok(ev, cl) \o Pure(ev))
    IN
    CASE ev.op = "roots" ->       \* r: the numbers returned, without nan
            J(Cl("roots are roots", \A i \in DOMAIN r : IsRoot(a.c, r[i], Nano))
              \o Cl("number of roots", Len(r) < Len(a.c))
              \o Cl("all roots", RootsFound(r, a.c)))
      [] ev.op = "lli" ->
            (IF a.exact
             THEN IF Parallel(a.s, a.t) THEN V(st0, Cl("none if parallel", ev.k = "none") \o Pure(ev))
                  ELSE J(Cl("lines meet", IF a.frac THEN PEq(r, Where(a.s, a.t))
                                          ELSE LET w == Where(a.s, a.t) IN /\ RNear(X(r), X(w), Nano \otimes RAbs(X(w)))
                                                                           /\ RNear(Y(r), Y(w), Nano \otimes RAbs(Y(w)))))
             ELSE IF ClearlyMeet(a.s, a.t)
             THEN J(Cl("lines meet", PNear(r, Where(a.s, a.t), MeetTol(a.s, a.t) \oplus TolSeq(<<Where(a.s, a.t)>>))))
             ELSE V(st0, Pure(ev)))
      [] ev.op = "lerp" -> J(Cl("lerp", PNear(r, Lerp(a.t, a.p, a.q), E9 \otimes (RMax(MaxAbs(a.p), MaxAbs(a.q)) \otimes (1 \oplus (2 \otimes RAbs(a.t)))))))
      [] ev.op = "map" ->
            LET x == a.ts \oplus (((a.v \ominus a.ds) \oslash (a.de \ominus a.ds)) \otimes (a.te \ominus a.ts))
                k == (RAbs(a.v) \oplus RAbs(a.ds)) \oslash RAbs(a.de \ominus a.ds)
                k2 == 1 \oplus ((RAbs(a.de) \oplus RAbs(a.ds)) \oslash RAbs(a.de \ominus a.ds))
            IN  J(Cl("map", RNear(r, x, (E12 \otimes (1 \oplus (k \otimes k2))) \otimes (RAbs(a.ts) \oplus RAbs(a.te)))))
      [] ev.op = "angle" ->
            LET u == Sub(a.p, a.o)
                v == Sub(a.q, a.o)
                w == <<Dot(u, v), Cross(u, v)>>
                m == RMaxSeq(<<MaxAbs(a.o), MaxAbs(a.p), MaxAbs(a.q)>>)
            IN  J(If((Micro \otimes RSq(m)) \prec MaxAbs(w),
                     Cl("angle", RAbs(r) \preceq (Pi \oplus Nano) /\ DirectionOf((r \otimes 180) \oslash Pi, w, Micro))))
      [] ev.op = "crt" -> J(Cl("cube root", RNear(RPow(r, 3), a.v, Nano \otimes RAbs(a.v))))
      [] ev.op = "sqrt" -> J(Cl("square root", RSign(r) >= 0 /\ RNear(RSq(r), a.v, Nano \otimes RAbs(a.v))))
      [] ev.op = "noSqrt" -> J(Cl("no square root", r))
      \* a.e: how far from being equal the numbers may be
      [] ev.op = "approximately" ->
            LET d == RAbs(a.a \ominus a.b) \ominus a.e
            IN  J(If(a.exact \/ (E12 \otimes RSum(<<RAbs(a.a), RAbs(a.b), a.e>>)) \prec RAbs(d), Cl("approximately", r = (RSign(d) <= 0))))
      [] ev.op = "between" ->
            LET lo == (a.m \ominus Micro) \ominus a.v
                hi == a.v \ominus (a.M \oplus Micro)
                d == RMax(lo, hi)
            IN  J(If((E12 \otimes RSum(<<1, RAbs(a.v), RAbs(a.m), RAbs(a.M)>>)) \prec RAbs(d), Cl("between", r = (RSign(d) < 0))))
      [] ev.op = "distinct" -> J(Cl("distinct", LET d == Distinct(a.s) IN Len(r) = Len(d) /\ \A i \in DOMAIN r : r[i] \doteq d[i]))
      [] ev.op = "ratio" -> J(Cl("ratio", LET x == IF a.order = 2 THEN QuadraticRatio(a.t) ELSE CubicRatio(a.t)
                                          IN  RNear(r, x, E9 \otimes (1 \oplus x))))
=============================================================================
