------------------------------ MODULE T_Reduce ------------------------------
(* C18, C19: reduction, offset curves and scaling *)
EXTENDS TraceBase, Reduction

\* the state: the curves of this session
StartImpl == <<>>

E7 == RDiv(1, 10000000)
E4 == RDiv(1, 10000)
\* the ends of the parts cuts[k] = << t1, t2 >> follow each other from 0 to 1
Partition(cuts) == /\ cuts # <<>> /\ cuts[1][1] \doteq 0 /\ cuts[Len(cuts)][2] \doteq 1
                   /\ \A k \in DOMAIN cuts : cuts[k][1] \prec cuts[k][2]
                   /\ \A k \in 1..(Len(cuts) - 1) : cuts[k][2] \doteq cuts[k + 1][1]
\* piece k is a part of p
Flatness(p) == \* greatest distance of a control point from the chord, squared, times the squared chord
    LET u == Sub(p[Len(p)], p[1]) IN RMaxSeq(TLCEval([i \in DOMAIN p |-> RSq(Cross(u, Sub(p[i], p[1])))]))
\* so flat that the offset is computed as that of a line
Flat1(p) == LET n == Norm2(Sub(p[Len(p)], p[1])) IN Flatness(p) \preceq (RDiv(1, 1000000) \otimes n)
Parallel(u, v, tol) == RSq(Cross(u, v)) \preceq (RSq(tol) \otimes (Norm2(u) \otimes Norm2(v)))
\* the crossing of the normals at the ends, and how much the curve is scaled from there if its start moves by d
WellSpread(p) == LET u == Legs1(p)
                     v == LegsN(p)
                 IN  (RDiv(1, 100) \otimes (Norm2(u) \otimes Norm2(v))) \preceq RSq(Cross(u, v))
\* the tangents at both ends are along the same axis: the normals do not cross in a point
ParallelEnds(p) == \E k \in 1..2 : /\ Legs1(p)[k] \doteq 0 /\ LegsN(p)[k] \doteq 0
                                   /\ ~(Legs1(p)[3 - k] \doteq 0) /\ ~(LegsN(p)[3 - k] \doteq 0)
Centre(p) == LET u == Left(Legs1(p))
                 v == Left(LegsN(p))
                 k == Cross(Sub(p[Len(p)], p[1]), v) \oslash Cross(u, v)
             IN  Add(p[1], Mul(k, u))
\* the direction at an end is kept, unless the end moves beyond the centre
Factor(p, e, d) == LET o == Centre(p)
                       r == Sub(p[e], o)
                       n == Left(IF e = 1 THEN Legs1(p) ELSE LegsN(p))
                   IN  1 \oplus (d \otimes (Dot(n, r) \oslash Norm2(r)))
SameWay(p, e, d, new, old) ==
    LET f == Factor(p, e, d)
    IN  E4 \prec RAbs(f) => /\ Parallel(new, old, E6)
                            /\ RSign(Dot(new, old)) = RSign(f)

\* q is on the line through o and p
OnRay(o, p, q, tol) == LET w == Sub(p, o) IN RSq(Cross(w, Sub(q, o))) \preceq (RSq(tol) \otimes Norm2(w))
\* q is at distance d from p on that line, on the left hand side of p's travel if d > 0 (the centre is there if it turns left)
Shifted(p, o, left, k, d, q, tol) ==
    LET w == Sub(p[k], o)
        v == Sub(q, p[k])
        c == Dot(w, v)
    IN  /\ OnRay(o, p[k], q, tol)
        /\ RAbs((RSq(c) \oslash Norm2(w)) \ominus RSq(d)) \preceq (tol \otimes (tol \oplus (2 \otimes RAbs(d))))
        /\ tol \prec RAbs(d) => RSign(c) = (IF left THEN 0 - RSign(d) ELSE RSign(d))

JudgeImpl(st0, ev) ==
    LET a == ev.a
        r == ev.r
        p == st0[a.i]
        n == Len(p)
        mag == MaxAbsSeq(p)
        tol == E7 \otimes RMax(mag, E6)
    IN
    CASE ev.op = "make" -> [st |-> Append(st0, a.p), cl |-> Ok(ev, Cl("control points", PSeqEq(r, a.p))) \o Pure(ev)]
      [] ev.op = "simple" ->
            V(st0, IF CertainlySimple(p) THEN Ok(ev, Cl("simple", r = TRUE)) \o Pure(ev)
                   ELSE IF NeverSimple(p) THEN Ok(ev, Cl("not simple", r = FALSE)) \o Pure(ev) ELSE None)
      \* ev.cuts: the parameters between which each of the pieces is the curve, found independently
      [] ev.op = "reduce" ->
            LET slope == E6 \otimes MaxAbsSeq(Derivative(p))
                part(k) == Part(p, ev.cuts[k][1], ev.cuts[k][2])
            IN V(st0, Ok(ev,
                 IF r = <<>> THEN Cl("can be reduced", n = 2 \/ ~Convex120(p))
                 ELSE IF Len(ev.cuts) # Len(r) THEN Cl("partition", FALSE)
                 ELSE Cl("can be reduced", TRUE)
                      \o Cl("partition", Partition(ev.cuts))
                      \o Cl("starts and ends", PNear(r[1][1], p[1], tol) /\ PNear(r[Len(r)][n], p[n], tol))
                      \o Cl("joined", \A k \in 1..(Len(r) - 1) : PNear(r[k][n], r[k + 1][1], tol))
                      \o Cl("parts of the curve", Partition(ev.cuts) /\ \A k \in DOMAIN r : PSeqNear(r[k], part(k), tol))
                      \o Cl("no extremum inside", \A k \in DOMAIN r : NoExtremum(r[k], slope))
                      \o If(n > 2 /\ Convex120(p),
                            Cl("simple", \A k \in DOMAIN r :
                                Extremal(p, ev.cuts[k][2], slope) \/ Inflected(p, ev.cuts[k][2]) \/ ev.cuts[k][2] \doteq 1 \/ ~NeverSimple(r[k])))) \o Pure(ev))
      \* C19; ev.cuts: the parameters between which the curve is reduced
      [] ev.op = "offset" ->
            IF n = 2
            THEN LET v == Mul(a.d, Left(Legs1(p)))
                 IN  V(st0, Ok(ev, Cl("line moved", Len(r) = 1 /\ PSeqNear(r[1], <<Add(p[1], v), Add(p[2], v)>>, Tol(mag \oplus RAbs(a.d))))) \o Pure(ev))
            ELSE LET t9 == Tol(mag \oplus RAbs(a.d)) \oplus (E7 \otimes RAbs(a.d))
                     last == r[Len(r)]
                     chord2 == Dist2(p[1], p[n])
                     near == (25 \otimes RSq(a.d)) \preceq chord2
                     k0 == Len(r) = Len(ev.cuts)
                     flat(k) == Flat1(Part(p, ev.cuts[k][1], ev.cuts[k][2]))
                     tm(k) == Mid(ev.cuts[k][1], ev.cuts[k][2])
                     away(k) == LET t == tm(k) IN Dot(Left(Velocity(p, t)), Sub(Eval(r[k], Half), Eval(p, t)))
                 IN  V(st0, IF ~Convex120(p) THEN None ELSE
                       Ok(ev, IF r = <<>> THEN Cl("offset curves", FALSE)
                              ELSE Cl("start", PNear(r[1][1], OffsetPoint(p, 0, a.d), t9))
                                   \o If(~k0 \/ ~flat(Len(r)), Cl("end", PNear(last[Len(last)], OffsetPoint(p, 1, a.d), t9)))
                                   \o Cl("joined", \A k \in 1..(Len(r) - 1) : (k0 => ~flat(k)) => PNear(r[k][Len(r[k])], r[k + 1][1], t9))
                                   \o Cl("ends of parts", k0 /\ \A k \in DOMAIN r : flat(k) \/
                                           (/\ PNear(r[k][1], OffsetPoint(p, ev.cuts[k][1], a.d), t9)
                                            /\ PNear(r[k][Len(r[k])], OffsetPoint(p, ev.cuts[k][2], a.d), t9)))
                                   \o If(k0, Cl("inner points of parts", \A k \in DOMAIN r : flat(k) \/ LET c == Part(p, ev.cuts[k][1], ev.cuts[k][2]) IN
                                           WellSpread(c) => /\ \A j \in 2..(n - 1) : OnRay(Centre(c), c[j], r[k][j], 100 \otimes t9)
                                                            /\ SameWay(c, 1, a.d, Legs1(r[k]), Legs1(c))
                                                            /\ n = 4 => SameWay(c, n, a.d, LegsN(r[k]), LegsN(c))))
                                   \o If(near /\ RSign(a.d) # 0 /\ k0,
                                         Cl("middles of parts", \A k \in DOMAIN r : LET q == away(k) \oslash a.d IN Half \preceq q /\ q \preceq RDiv(5, 4)))) \o Pure(ev))
      [] ev.op = "scale" ->
            V(st0, IF ~(CertainlySimple(p) /\ WellSpread(p)) THEN None ELSE
              LET t9 == Tol(mag \oplus RAbs(a.d)) \otimes 100
              IN Ok(ev, Cl("start moved", Len(r) = n /\ PNear(r[1], OffsetPoint(p, 0, a.d), t9))
                        \o Cl("end moved", Len(r) = n /\ PNear(r[n], OffsetPoint(p, 1, a.d), t9))
                        \o Cl("inner points", Len(r) = n /\ \A k \in 2..(n - 1) : OnRay(Centre(p), p[k], r[k], t9))
                        \o Cl("start direction", Len(r) = n /\ SameWay(p, 1, a.d, Legs1(r), Legs1(p)))
                        \o If(n = 4, Cl("end direction", Len(r) = n /\ SameWay(p, n, a.d, LegsN(r), LegsN(p))))) \o Pure(ev))
      [] ev.op = "scalePar" -> V(st0, Cl("cannot be scaled", ParallelEnds(p) => ev.k = "exc" /\ ev.refused) \o Pure(ev))
      [] ev.op = "scaleFn" ->
            V(st0, IF ~(CertainlySimple(p) /\ WellSpread(p)) THEN None ELSE
              LET t9 == Tol(mag \oplus RMax(RAbs(a.f0), RAbs(a.f1))) \otimes 100
              IN Ok(ev, Cl("start moved by f(0)", PNear(r[1], OffsetPoint(p, 0, a.f0), t9))
                        \o Cl("end moved by f(1)", PNear(r[Len(r)], OffsetPoint(p, 1, a.f1), t9))
                        \o LET c == IF n = 3 THEN Raised(p) ELSE p
                               o == Centre(p)
                               left == 0 \prec Cross(Legs1(p), LegsN(p))
                           IN  Cl("inner points moved by f", Len(r) = 4 /\ Shifted(c, o, left, 2, a.f13, r[2], t9) /\ Shifted(c, o, left, 3, a.f23, r[3], t9))) \o Pure(ev))
=============================================================================
