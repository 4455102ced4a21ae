----------------------------- MODULE MC_Matrix -----------------------------
(***************************************************************************)
(* Gauss-Jordan elimination with the largest pivot, step by step, on all   *)
(* N x N matrices with entries from -M to M.                               *)
(***************************************************************************)
EXTENDS Matrix
CONSTANTS N, M
VARIABLES m,      \* the matrix
          w,      \* the extended matrix
          c,      \* the column to be cleared
          pc
vars == <<m, w, c, pc>>
Init == m \in [1..N -> [1..N -> (-M)..M]] /\ w = Extended(m) /\ c = 1 /\ pc = "run"
Largest == CHOOSE i \in c..N : \A j \in c..N : RAbs(w[j][c]) \preceq RAbs(w[i][c])
Step == /\ pc = "run" /\ c <= N
        /\ IF RSign(w[Largest][c]) = 0 THEN pc' = "singular" /\ UNCHANGED <<m, w, c>>
           ELSE w' = Clear(SwapRows(w, c, Largest), c) /\ c' = c + 1 /\ UNCHANGED <<m, pc>>
Done == pc = "run" /\ c > N /\ pc' = "done" /\ UNCHANGED <<m, w, c>>
Next == Step \/ Done
\* the right half, times the matrix, is the left half
Product == MEq(MMul(RightHalf(w), m), LeftHalf(w))
Unit == \A j \in 1..(c - 1) : \A i \in 1..N : w[i][j] \doteq (IF i = j THEN 1 ELSE 0)
Right == pc = "done" => MEq(MMul(m, RightHalf(w)), MIdent(N)) /\ MEq(MMul(RightHalf(w), m), MIdent(N))
Singular == /\ pc = "singular" => RSign(Det(m)) = 0
            /\ pc = "done" => RSign(Det(m)) # 0
Agrees == pc = "done" => Inverse(m).ok /\ MEq(Inverse(m).m, RightHalf(w))
AgreesNot == pc = "singular" => ~Inverse(m).ok
TransposeOk == MEq(Transposed(Transposed(m)), m) /\ MEq(Transposed(MMul(m, m)), MMul(Transposed(m), Transposed(m)))
=============================================================================
