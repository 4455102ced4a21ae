-------------------------------- MODULE T_Fit --------------------------------
(* C24, C25: curve fitting and matrices *)
EXTENDS TraceBase, Matrix, Curve

StartImpl == 0

E2 == RDiv(1, 50)
E8 == RDiv(1, 100000000)
\* distances along the polygon
RECURSIVE Along1(_, _)
Along1(p, d) == IF Len(p) = 1 THEN <<d>> ELSE <<d>> \o Along1(Tail(p), d \oplus Length(Sub(p[2], p[1])))
Along(p) == TLCEval(Along1(p, 0))
TimesOk(s, p, polygonal) ==
    LET n == Len(p)
        d == Along(p)
    IN  /\ Len(s) = n
        /\ s[1] \doteq 0 /\ s[n] \doteq 1
        /\ IF polygonal THEN \A i \in DOMAIN s : RNear(s[i] \otimes d[n], d[i], E9 \otimes d[n])
           ELSE \A i \in DOMAIN s : RNear(s[i], RDiv(i - 1, n - 1), E12)
\* the equations are solved in floats, less exactly the more points there are
Spread(s) == \A i \in 1..(Len(s) - 1) : RDiv(1, IF Len(s) > 5 THEN 40 ELSE 80) \preceq (s[i + 1] \ominus s[i])
Through(s, cp, p) == LET tol == (IF Len(s) > 5 THEN RDiv(1, 10000) ELSE E6) \otimes RMax(MaxAbsSeq(cp), MaxAbsSeq(p))
                     IN  \A i \in DOMAIN p : PNear(Eval(cp, s[i]), p[i], tol)
ColPts(c) == TLCEval([i \in DOMAIN c[1] |-> <<c[1][i][1], c[2][i][1]>>])
SeqEq(s, t) == Len(s) = Len(t) /\ \A i \in DOMAIN s : s[i] \doteq t[i]
Square(m) == Len(m) = Len(m[1])

(***************************************************************************)
(* C31: fitting with fewer control points                                  *)
(***************************************************************************)
\* the Bernstein polynomials of a curve with k control points at t
Weights(k, t) == TLCEval([j \in 1..k |-> (Binomial(k - 1, j - 1) \otimes RPow(t, j - 1)) \otimes RPow(1 \ominus t, k - j)])
\* the sum of the squared distances is least: its derivatives vanish
LeastSquares(cp, s, p, tol) ==
    LET k == Len(cp)
        w == TLCEval([i \in DOMAIN s |-> Weights(k, s[i])])
        e == TLCEval([i \in DOMAIN s |-> Sub(Eval(cp, s[i]), p[i])])
    IN  \A j \in 1..k : \A d \in 1..2 :
            RAbs(RSum(TLCEval([i \in DOMAIN s |-> w[i][j] \otimes e[i][d]]))) \preceq tol
Powers(s, n) == TLCEval([i \in 1..n |-> TLCEval([j \in DOMAIN s |-> RPow(s[j], i - 1)])])

JudgeImpl(st0, ev) ==
    LET a == ev.a
        r == ev.r
        J(cl) == V(st0, Ok(ev, cl) \o Pure(ev))
    IN
    CASE ev.op = "binomial" -> J(Cl("binomial", r \doteq Binomial(a.n, a.k)))
      [] ev.op = "basisMatrix" -> J(Cl("basis matrix", MEq(r, Basis(a.n))))
      [] ev.op = "times" -> J(Cl("time values", TimesOk(r, a.p, a.polygonal)))
      [] ev.op = "fit" ->
            J(Cl("points", PSeqEq(r.points, a.p))
              \o Cl("basis matrix of the fit", MEq(r.m, Basis(Len(a.p))))
              \o Cl("time values of the fit", TimesOk(r.s, a.p, a.polygonal))
              \o (IF \A d \in 1..2 : Len(r.c[d]) = Len(a.p) /\ \A i \in DOMAIN r.c[d] : Len(r.c[d][i]) = 1
                  THEN If(Len(a.p) <= 7 /\ Spread(r.s), Cl("through the points", Through(r.s, ColPts(r.c), a.p)))
                  ELSE Cl("control point columns", FALSE)))
      \* C31
      [] ev.op = "bestFit" ->
            J(Cl("control point columns", \A d \in 1..2 : Len(r[d]) = a.k /\ \A i \in DOMAIN r[d] : Len(r[d][i]) = 1)
              \o (IF \A d \in 1..2 : Len(r[d]) = a.k /\ \A i \in DOMAIN r[d] : Len(r[d][i]) = 1
                  THEN LET cp == ColPts(r)
                           m == RMax(MaxAbsSeq(cp), MaxAbsSeq(a.p))
                       IN  Cl("least squares", LeastSquares(cp, a.s, a.p, (IF a.k > 4 THEN E6 ELSE E8) \otimes m))
                  ELSE None))
      [] ev.op = "formTMatrix" ->
            J(Cl("powers", MNear(r[1], Powers(a.s, a.k), E9)) \o Cl("transposed powers", MNear(r[2], Transposed(Powers(a.s, a.k)), E9)))
      \* C25
      [] ev.op = "invert" ->
            (LET sq == Square(a.m)
                 inv == IF sq THEN Inverse(a.m) ELSE [ok |-> FALSE, m |-> <<>>]
                 k == IF inv.ok THEN MaxM(a.m) \otimes MaxM(inv.m) ELSE 0
             IN IF ~sq THEN V(st0, Cl("not square", ev.k = "none") \o Pure(ev))
                ELSE IF ~inv.ok
                THEN (IF a.exact THEN V(st0, Cl("singular", ev.k = "none") \o Pure(ev)) ELSE V(st0, Pure(ev)))
                ELSE IF a.exact THEN J(Cl("exact inverse", MEq(r, inv.m)))
                ELSE IF RDiv(1, 1) \preceq (E8 \otimes k) THEN V(st0, Pure(ev))      \* too badly conditioned for floats
                ELSE J(Cl("inverse", /\ Len(r) = Len(a.m) /\ \A i \in DOMAIN r : Len(r[i]) = Len(a.m)
                                     /\ MNear(MMul(a.m, r), MIdent(Len(a.m)), E9 \otimes (RMax(k, 1))))))
      [] ev.op = "multiply" -> J(IF a.exact THEN Cl("product", MEq(r, MMul(a.m, a.n)))
                                 ELSE Cl("product of floats", MNear(r, MMul(a.m, a.n), E9 \otimes (RMax(E6, MaxM(a.m) \otimes MaxM(a.n))))))
      [] ev.op = "rowcol" -> J(Cl("row", SeqEq(r.row, a.m[a.i])) \o Cl("column", SeqEq(r.col, Transposed(a.m)[a.j])))
      [] ev.op = "pointColumn" -> J(Cl("column of points", Len(r) = Len(a.p) /\ \A i \in DOMAIN r : SeqEq(r[i], <<a.p[i][a.v]>>)))
      [] ev.op = "transpose" -> J(Cl("transpose", MEq(r, Transposed(a.m))))
=============================================================================
