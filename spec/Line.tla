-------------------------------- MODULE Line --------------------------------
(***************************************************************************)
(* Segments << p, q >> of straight lines.                                  *)
(***************************************************************************)
EXTENDS Geometry, Trig

Delta(s) == Sub(s[Len(s)], s[1])

\* p on the segment, ends included
OnSeg(p, s) == /\ RSign(Cross(Sub(s[2], s[1]), Sub(p, s[1]))) = 0
               /\ RMin(X(s[1]), X(s[2])) \preceq X(p) /\ X(p) \preceq RMax(X(s[1]), X(s[2]))
               /\ RMin(Y(s[1]), Y(s[2])) \preceq Y(p) /\ Y(p) \preceq RMax(Y(s[1]), Y(s[2]))

Parallel(s, t) == RSign(Cross(Delta(s), Delta(t))) = 0
\* where the infinite lines meet, if not parallel
Where(s, t) == LET k == Cross(Sub(t[1], s[1]), Delta(t)) \oslash Cross(Delta(s), Delta(t))
               IN  Lerp(k, s[1], s[2])
\* the segments have one point in common, and are not parallel
Cut(s, t) == ~Parallel(s, t) /\ LET p == Where(s, t) IN OnSeg(p, s) /\ OnSeg(p, t)

\* a is, up to tol, the angle in degrees from the positive x axis to v
DirectionOf(a, v, tol) == LET sc == SinCos(a)
                              u == <<sc[2], sc[1]>>
                              m == MaxAbs(v)
                          IN  RAbs(Cross(u, v)) \preceq (tol \otimes m) /\ RSign(Dot(u, v)) > 0

Kind(s) == IF Len(s) # 2 THEN "none"
           ELSE IF X(Delta(s)) \doteq 0 THEN (IF Y(Delta(s)) \doteq 0 THEN "point" ELSE "vertical")
           ELSE IF Y(Delta(s)) \doteq 0 THEN "horizontal" ELSE "diagonal"
=============================================================================
