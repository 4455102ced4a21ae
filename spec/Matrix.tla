------------------------------- MODULE Matrix -------------------------------
(***************************************************************************)
(* Matrices of any shape (sequences of rows), binomial coefficients and    *)
(* the Bezier basis.                                                       *)
(***************************************************************************)
EXTENDS Geometry, TLC

NRows(m) == Len(m)
NCols(m) == Len(m[1])
MCol(m, k) == TLCEval([i \in DOMAIN m |-> m[i][k]])
Transposed(m) == TLCEval([k \in 1..NCols(m) |-> MCol(m, k)])
MMul(a, b) == LET t == Transposed(b) IN TLCEval([i \in DOMAIN a |-> [j \in DOMAIN t |-> RDot(a[i], t[j])]])
MIdent(n) == TLCEval([i \in 1..n |-> [j \in 1..n |-> IF i = j THEN 1 ELSE 0]])
MEq(a, b) == /\ Len(a) = Len(b)
             /\ \A i \in DOMAIN a : Len(a[i]) = Len(b[i]) /\ \A j \in DOMAIN a[i] : a[i][j] \doteq b[i][j]
MNear(a, b, tol) == /\ Len(a) = Len(b)
                    /\ \A i \in DOMAIN a : Len(a[i]) = Len(b[i]) /\ \A j \in DOMAIN a[i] : RNear(a[i][j], b[i][j], tol)
MaxM(m) == RMaxSeq(TLCEval([i \in DOMAIN m |-> RMaxSeq(TLCEval([j \in DOMAIN m[i] |-> RAbs(m[i][j])]))]))

(***************************************************************************)
(* Elimination: rows are extended by those of the identity matrix.         *)
(***************************************************************************)
Extended(m) == TLCEval([i \in DOMAIN m |-> m[i] \o MIdent(Len(m))[i]])
SwapRows(m, i, j) == TLCEval([m EXCEPT ![i] = m[j], ![j] = m[i]])
ScaleRow(row, k) == TLCEval([j \in DOMAIN row |-> row[j] \oslash k])
Without(row, k, other) == TLCEval([j \in DOMAIN row |-> row[j] \ominus (k \otimes other[j])])
\* clear column c, whose pivot is in row c
Clear(m, c) == LET p == ScaleRow(m[c], m[c][c])
               IN  TLCEval([i \in DOMAIN m |-> IF i = c THEN p ELSE Without(m[i], m[i][c], p)])
Pivots(m, c) == {i \in c..Len(m) : RSign(m[i][c]) # 0}
RECURSIVE Eliminate(_, _)
Eliminate(m, c) == IF c > Len(m) THEN [ok |-> TRUE, m |-> m]
                   ELSE IF Pivots(m, c) = {} THEN [ok |-> FALSE, m |-> m]
                   ELSE Eliminate(Clear(SwapRows(m, c, CHOOSE i \in Pivots(m, c) : TRUE), c), c + 1)
RightHalf(m) == TLCEval([i \in DOMAIN m |-> SubSeq(m[i], Len(m) + 1, 2 * Len(m))])
LeftHalf(m) == TLCEval([i \in DOMAIN m |-> SubSeq(m[i], 1, Len(m))])
\* [ok |-> the matrix has an inverse, m |-> it]
Inverse(m) == LET e == Eliminate(Extended(m), 1) IN [ok |-> e.ok, m |-> RightHalf(e.m)]

RECURSIVE Det(_)
Minor(m, k) == TLCEval([i \in 1..(Len(m) - 1) |-> SubSeq(m[i + 1], 1, k - 1) \o SubSeq(m[i + 1], k + 1, Len(m))])
Det(m) == IF Len(m) = 1 THEN m[1][1]
          ELSE RSum(TLCEval([k \in DOMAIN m |-> (IF k % 2 = 1 THEN m[1][k] ELSE RNeg(m[1][k])) \otimes Det(Minor(m, k))]))

(***************************************************************************)
(* Binomial coefficients and the matrix that takes Bezier control points   *)
(* to the coefficients of 1, t, t^2, ...                                   *)
(***************************************************************************)
RECURSIVE Binomial(_, _)
Binomial(n, k) == IF k = 0 THEN 1 ELSE (Binomial(n, k - 1) \otimes (n - k + 1)) \oslash k
Basis(n) == TLCEval([r \in 1..n |-> [c \in 1..n |->
               IF c > r THEN 0
               ELSE LET b == Binomial(n - 1, r - 1) \otimes Binomial(r - 1, c - 1) IN IF (r + c) % 2 = 0 THEN b ELSE RNeg(b)]])
=============================================================================
