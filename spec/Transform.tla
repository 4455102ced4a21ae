----------------------------- MODULE Transform -----------------------------
(***************************************************************************)
(* Transforms of the plane.                                                *)
(*                                                                         *)
(* A step is a 3x3 matrix (a sequence of rows) applied to the row vector   *)
(* << x, y, 1 >> with homogeneous division.  A transform is a sequence of  *)
(* steps; its meaning is to take them one after the other.                 *)
(***************************************************************************)
EXTENDS Geometry, Trig

Ident == <<<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>>>
\* (tuples rather than functions: TLC evaluates tuples once)
Col(m, k) == <<m[1][k], m[2][k], m[3][k]>>
Row(v, m) == <<RDot(v, Col(m, 1)), RDot(v, Col(m, 2)), RDot(v, Col(m, 3))>>
MatMul(m, n) == <<Row(m[1], n), Row(m[2], n), Row(m[3], n)>>
MatEq(m, n) == \A i, j \in 1..3 : m[i][j] \doteq n[i][j]
Homog(p) == <<X(p), Y(p), 1>>

\* a single step
Step(m, p) == LET v == Row(Homog(p), m) IN <<v[1] \oslash v[3], v[2] \oslash v[3]>>

\* homogeneous coordinates after all steps
RECURSIVE Through(_, _)
Through(v, ms) == IF ms = <<>> THEN v ELSE Through(Row(v, Head(ms)), Tail(ms))
\* the product of the matrices
RECURSIVE Product(_)
Product(ms) == IF Len(ms) = 1 THEN ms[1] ELSE MatMul(ms[1], Product(Tail(ms)))

\* steps one after the other; undefined if a step takes the point to infinity
RECURSIVE Defined(_, _), Walk(_, _)
Defined(ms, p) == ms = <<>> \/ (RSign(Row(Homog(p), Head(ms))[3]) # 0 /\ Defined(Tail(ms), Step(Head(ms), p)))
Walk(ms, p) == IF ms = <<>> THEN p ELSE Walk(Tail(ms), Step(Head(ms), p))

\* magnitudes, for rounding errors
AbsV(v) == <<RAbs(v[1]), RAbs(v[2]), RAbs(v[3])>>
AbsM(m) == <<AbsV(m[1]), AbsV(m[2]), AbsV(m[3])>>
AbsMs(ms) == [i \in DOMAIN ms |-> AbsM(ms[i])]

(***************************************************************************)
(* The maps named transforms stand for                                     *)
(***************************************************************************)
Rotate(p, d, ccw) == LET sc == SinCos(d)
                         s == IF ccw THEN sc[1] ELSE RNeg(sc[1])
                     IN  <<(sc[2] \otimes X(p)) \ominus (s \otimes Y(p)), (s \otimes X(p)) \oplus (sc[2] \otimes Y(p))>>
RotateAbout(p, c, d, ccw) == Add(c, Rotate(Sub(p, c), d, ccw))
Scale(p, sx, sy) == <<sx \otimes X(p), sy \otimes Y(p)>>
Shear(p, sx, sy) == <<X(p) \oplus (sx \otimes Y(p)), Y(p) \oplus (sy \otimes X(p))>>
Mirror(p, xAxis, yAxis) == <<IF yAxis THEN RNeg(X(p)) ELSE X(p), IF xAxis THEN RNeg(Y(p)) ELSE Y(p)>>
Translate(p, from, to) == Add(p, Sub(to, from))
PerspectiveW(p, a, b, s) == RSum(<<a \otimes X(p), b \otimes Y(p), s>>)
Perspective(p, a, b, s) == LET w == PerspectiveW(p, a, b, s) IN <<X(p) \oslash w, Y(p) \oslash w>>

(***************************************************************************)
(* Their matrices (Transform._xxxMatrix)                                   *)
(***************************************************************************)
ScaleM(sx, sy) == <<<<sx, 0, 0>>, <<0, sy, 0>>, <<0, 0, 1>>>>
ShearM(sx, sy) == <<<<1, sy, 0>>, <<sx, 1, 0>>, <<0, 0, 1>>>>
MirrorM(xAxis, yAxis) == ScaleM(IF yAxis THEN -1 ELSE 1, IF xAxis THEN -1 ELSE 1)
TranslateM(from, to) == <<<<1, 0, 0>>, <<0, 1, 0>>, <<X(to) \ominus X(from), Y(to) \ominus Y(from), 1>>>>
RotateM(d, ccw) == LET sc == SinCos(d)
                       s == IF ccw THEN sc[1] ELSE RNeg(sc[1])
                   IN  <<<<sc[2], s, 0>>, <<RNeg(s), sc[2], 0>>, <<0, 0, 1>>>>
PerspectiveM(a, b, s) == <<<<1, 0, a>>, <<0, 1, b>>, <<0, 0, s>>>>
=============================================================================
