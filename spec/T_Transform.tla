---------------------------- MODULE T_Transform ----------------------------
(* C01, C02: transforms *)
EXTENDS TraceBase, Transform

\* the state: the chains of the transforms made in this session
StartImpl == <<>>

(***************************************************************************)
(* C01                                                                     *)
(***************************************************************************)
Milli == RDiv(1, 1000)
\* every denominator on the way is far enough from zero
RECURSIVE Clear(_, _)
Clear(ms, p) == ms = <<>> \/
    LET w == Row(Homog(p), Head(ms))[3]
        a == Row(AbsV(Homog(p)), AbsM(Head(ms)))[3]
    IN  RSign(w) # 0 /\ (Milli \otimes a) \prec RAbs(w) /\ Clear(Tail(ms), Step(Head(ms), p))
\* q is where the chain takes p
Lands(ms, p, q) ==
    LET v == Through(Homog(p), ms)
        a == Through(AbsV(Homog(p)), AbsMs(ms))
        w == RAbs(v[3])
        near(k, z) == RNear(z, v[k] \oslash v[3],
                            E9 \otimes ((a[k] \oslash w) \oplus ((RAbs(v[k]) \otimes a[3]) \oslash RSq(w))))
    IN  near(1, X(q)) /\ near(2, Y(q))
Lands1(ms, p, q) == Clear(ms, p) => Lands(ms, p, q)
LandsSeq(ms, s, t) == Len(s) = Len(t) /\ \A i \in DOMAIN s : Lands1(ms, s[i], t[i])
LandsSegs(ms, s, t) == Len(s) = Len(t) /\ \A i \in DOMAIN s : LandsSeq(ms, s[i], t[i])
LandsContours(ms, s, t) == Len(s) = Len(t) /\ \A i \in DOMAIN s : LandsSegs(ms, s[i], t[i])
\* a call may only fail if it has to divide by (almost) zero
Must(ms, ps, ev, cl) == IF \A i \in DOMAIN ps : Clear(ms, ps[i]) THEN Ok(ev, cl) ELSE If(ev.k = "ok", cl)

(***************************************************************************)
(* C02                                                                     *)
(***************************************************************************)
IsInt(x) == RFloor(x) \doteq x
IntPt(p) == IsInt(X(p)) /\ IsInt(Y(p))
Quarter(d) == IsInt(d \oslash 90) /\ RAbs(d) \preceq 720

Image(a, p) ==
    CASE a.f = "translate" -> Translate(p, a.from, a.to)
      [] a.f = "scale" -> Scale(p, a.sx, a.sy)
      [] a.f = "shear" -> Shear(p, a.sx, a.sy)
      [] a.f = "mirror" -> Mirror(p, a.xAxis, a.yAxis)
      [] a.f = "mirrorAround" -> Add(a.c, Mirror(Sub(p, a.c), a.xAxis, a.yAxis))
      [] a.f = "rotation" -> Rotate(p, a.d, a.ccw)
      [] a.f = "rotationAbout" -> RotateAbout(p, a.c, a.d, a.ccw)
      [] a.f = "moveAndRotate" -> Rotate(Translate(p, a.from, a.to), a.d, TRUE)
      [] a.f = "rotateAndMove" -> Translate(Rotate(p, a.d, TRUE), a.from, a.to)
      [] a.f = "perspective" -> Perspective(p, a.p, a.q, a.s)
      [] a.f = "perspectiveFrom" -> Add(a.c, Perspective(Sub(p, a.c), a.p, a.q, 1))
\* the denominator and its magnitude, for perspective transforms
W(a, p) == CASE a.f = "perspective" -> PerspectiveW(p, a.p, a.q, a.s)
             [] a.f = "perspectiveFrom" -> PerspectiveW(Sub(p, a.c), a.p, a.q, 1)
             [] OTHER -> 1
WMag(a, p) == CASE a.f = "perspective" -> RSum(<<RAbs(a.p \otimes X(p)), RAbs(a.q \otimes Y(p)), RAbs(a.s)>>)
                [] a.f = "perspectiveFrom" -> LET m == MaxAbs(p) \oplus MaxAbs(a.c)
                                              IN  RSum(<<RAbs(a.p \otimes m), RAbs(a.q \otimes m), 1>>)
                [] OTHER -> 1
HasW(a, p) == (Milli \otimes WMag(a, p)) \prec RAbs(W(a, p))
Exact(a, p) == \/ a.f \in {"translate", "mirror", "scale", "shear", "mirrorAround"} /\ a.int
               \/ a.f \in {"rotation", "moveAndRotate", "rotateAndMove", "rotationAbout"} /\ Quarter(a.d) /\ a.int
Good(a, p, q) ==
    LET im == Image(a, p)
        w == RAbs(W(a, p))
        m == RMax(a.mag, MaxAbs(p))
        wm == WMag(a, p)
        tol == IF a.f \in {"perspective", "perspectiveFrom"}
               THEN Tol(m \otimes (1 \oplus wm)) \otimes ((1 \oplus (wm \oslash w)) \oslash w)
               ELSE Tol(m)
    IN  IF Exact(a, p) /\ IntPt(p) THEN PEq(q, im) ELSE PNear(q, im, tol)

RowNear(r, v, mag) == Len(r) = 3 /\ \A k \in 1..3 : RNear(r[k], v[k], E12 \otimes mag[k])
\* exact within two full turns if the angle is a multiple of 90 degrees
SineOk(r, v, d) == IF Quarter(d) THEN r \doteq v ELSE RNear(r, v, E12 \otimes (1 \oplus RAbs(d)))

JudgeImpl(ts, ev) ==
    LET a == ev.a
        r == ev.r
    IN
    CASE ev.op = "make" ->
            [st |-> Append(ts, a.ms), cl |-> Ok(ev, None) \o Pure(ev)]
      [] ev.op = "matrix" ->
            LET p == Product(ts[a.i])
                m == Product(AbsMs(ts[a.i]))
            IN V(ts, Ok(ev, Cl("matrix is the product",
                  /\ Len(r) = 3
                  /\ \A i \in 1..3 : Len(r[i]) = 3 /\ \A j \in 1..3 : RNear(r[i][j], p[i][j], E12 \otimes m[i][j]))))
      \* products of single rows and matrices
      [] ev.op = "row" -> V(ts, Ok(ev, Cl("row times matrix", RowNear(r, Row(a.v, a.m), Row(AbsV(a.v), AbsM(a.m))))) \o Pure(ev))
      [] ev.op = "product" ->
            V(ts, Ok(ev, Cl("product of matrices",
                  /\ Len(r) = Len(a.m)
                  /\ \A i \in DOMAIN r : RowNear(r[i], Row(a.m[i], a.n), Row(AbsV(a.m[i]), AbsM(a.n))))) \o Pure(ev))
      [] ev.op = "concatenate" ->
            V(ts, Ok(ev, Cl("product of matrices",
                  LET p == Product(a.ms)
                      m == Product(AbsMs(a.ms))
                  IN  Len(r) = 3 /\ \A i \in 1..3 : RowNear(r[i], p[i], m[i]))) \o Pure(ev))
      \* C02
      [] ev.op = "sin" -> V(ts, Ok(ev, Cl("sine", SineOk(r, SinCos(a.d)[1], a.d))))
      [] ev.op = "cos" -> V(ts, Ok(ev, Cl("cosine", SineOk(r, SinCos(a.d)[2], a.d))))
      [] ev.op = "applyPoint" ->
            V(ts, Must(ts[a.i], <<a.x>>, ev, Cl("point", Lands1(ts[a.i], a.x, r))) \o Pure(ev))
      [] ev.op = "applySegment" ->
            V(ts, Must(ts[a.i], a.x, ev, Cl("segment", LandsSeq(ts[a.i], a.x, r))) \o Pure(ev))
      [] ev.op = "applyContour" ->
            V(ts, Must(ts[a.i], Flat(a.x), ev, Cl("contour", LandsSegs(ts[a.i], a.x, r))) \o Pure(ev))
      [] ev.op = "applyContours" ->
            V(ts, Must(ts[a.i], Flat(Flat(a.x)), ev, Cl("contours", LandsContours(ts[a.i], a.x, r))) \o Pure(ev))
      [] ev.op = "named" ->
            V(ts, IF \A i \in DOMAIN a.pts : HasW(a, a.pts[i])
                  THEN Ok(ev, Cl(a.f, Len(r) = Len(a.pts) /\ \A i \in DOMAIN a.pts : Good(a, a.pts[i], r[i])) \o Pure(ev))
                  ELSE None)
      [] ev.op = "helper" ->     \* rotate...About
            V(ts, Ok(ev, Cl("helper", /\ Len(r) = Len(a.cs)
                                      /\ \A i \in DOMAIN r : /\ Len(r[i]) = Len(a.cs[i])
                                            /\ \A j \in DOMAIN r[i] : /\ Len(r[i][j]) = Len(a.cs[i][j])
                                                 /\ \A k \in DOMAIN r[i][j] : Good(a, a.cs[i][j][k], r[i][j][k])) \o Pure(ev)))
=============================================================================
