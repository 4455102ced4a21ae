------------------------------- MODULE T_Line -------------------------------
(* C05, C06: lines *)
EXTENDS TraceBase, Line

StartImpl == 0

Near(a, b, m) == RNear(a, b, Tol(m))
E7 == RDiv(1, 10000000)

JudgeImpl(st0, ev) ==
    LET a == ev.a
        r == ev.r
        s == a.s
        dl == Delta(s)
        m == MaxAbsSeq(s)
        zero == X(dl) \doteq 0 /\ Y(dl) \doteq 0
        J(cl) == V(st0, Ok(ev, cl) \o Pure(ev))
    IN
    CASE ev.op = "endPoints" -> J(Cl("end points", PEq(<<r[1], r[2]>>, s[1]) /\ PEq(<<r[3], r[4]>>, s[Len(s)])))
      [] ev.op = "getDeltas" -> J(Cl("deltas", IF a.int THEN PEq(r, dl) ELSE PNear(r, dl, Tol(m))))
      [] ev.op = "midpoint" -> J(Cl("midpoint", PNear(r, MidPt(s[1], s[Len(s)]), Tol(m))))
      [] ev.op = "kind" -> J(Cl("kind", /\ r[1] = (Kind(s) \in {"vertical", "point"})
                                        /\ r[2] = (Kind(s) \in {"horizontal", "point"})
                                        /\ r[3] = (Kind(s) = "diagonal")))
      [] ev.op = "length" -> J(Cl("length", /\ RSign(r) >= 0
                                            /\ LET n == Norm2(dl) IN RNear(RSq(r), n, E9 \otimes n)))
      [] ev.op = "slope" -> J(Cl("slope", IF X(dl) \doteq 0 THEN r.inf
                                          ELSE ~r.inf /\ LET k == Y(dl) \oslash X(dl) IN RNear(r.v, k, E9 \otimes RAbs(k))))
      [] ev.op = "slopeAngle" -> J(Cl("angle from vertical",
              zero \/ (0 \preceq r /\ r \preceq 90 /\ DirectionOf(90 \ominus r, <<RAbs(X(dl)), RAbs(Y(dl))>>, E7))))
      [] ev.op = "rawSlopeAngle" -> J(Cl("direction",
              zero \/ (RAbs(r) \preceq 180 /\ DirectionOf(r, dl, E7))))
      [] ev.op = "minMax" -> J(Cl("minMax", PEq(r, <<RMin(a.s[1][1], a.s[1][2]), RMax(a.s[1][1], a.s[1][2])>>)))
      [] ev.op = "toMicros" -> J(Cl("toMicros", LET q == (a.u \otimes 1000) \oslash a.n IN RNear(r, q, E9 \otimes RAbs(q))))
      [] ev.op = "intersectionPoint" ->
            V(st0, (IF Cut(s, a.t) THEN Ok(ev, Cl("intersection", PNear(r, Where(s, a.t), Tol(RMax(m, MaxAbsSeq(a.t))))))
                    ELSE IF Parallel(s, a.t) THEN Cl("none if parallel", ev.k = "none")
                    ELSE Cl("none if apart", ev.k = "none")) \o Pure(ev))
      [] ev.op = "pointOnLine" -> J(Cl("point on line", r = OnSeg(a.p, s)))
=============================================================================
