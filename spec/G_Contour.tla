----------------------------- MODULE G_Contour -----------------------------
(***************************************************************************)
(* A contour object: its curves and the data derived from them that it     *)
(* keeps.  Curves are opaque values here.  Edits and queries happen in any *)
(* order; KeepsUp says that what a query answers is what the curves give.  *)
(* Each history of K operations is printed for replay in the code.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

CONSTANT K, N0          \* operations, curves at the start
VARIABLES curves,       \* names of the curves
          bounds, ends, lut, lutSteps,       \* derived data kept by the object
          seen,         \* the answer of the last query
          hist          \* the operations so far
vars == <<curves, bounds, ends, lut, lutSteps, seen, hist>>

BoundsOf(cs) == {cs[i] : i \in DOMAIN cs}
EndsOf(cs) == <<cs[1], cs[Len(cs)]>>
LutOf(cs, n) == [i \in DOMAIN cs |-> <<cs[i], n>>]
Start == [i \in 1..N0 |-> i]
Init == /\ curves = Start /\ bounds = BoundsOf(Start) /\ ends = EndsOf(Start)
        /\ lut = <<>> /\ lutSteps = 0 /\ seen = <<"none">> /\ hist = <<>>

Py(k) == IF k >= 0 THEN k + 1 ELSE Len(curves) + k + 1
Log(op, k) == hist' = Append(hist, [op |-> op, k |-> k])
Fresh == 100 + Len(hist)
\* an edit brings everything up to date
Edit(cs) == /\ curves' = cs /\ bounds' = BoundsOf(cs) /\ ends' = EndsOf(cs) /\ lut' = <<>> /\ lutSteps' = 0 /\ seen' = <<"none">>
Set(k) == Edit([curves EXCEPT ![Py(k)] = Fresh]) /\ Log("set", k)
Del(k) == /\ Len(curves) > 1
          /\ Edit(SubSeq(curves, 1, Py(k) - 1) \o SubSeq(curves, Py(k) + 1, Len(curves)))
          /\ Log("del", k)
Ask(op, k, answer) == seen' = answer /\ Log(op, k) /\ UNCHANGED <<curves, bounds, ends>>
Bounds == Ask("bounds", 0, <<"bounds", bounds>>) /\ UNCHANGED <<lut, lutSteps>>
Ends == Ask("ends", 0, <<"ends", ends>>) /\ UNCHANGED <<lut, lutSteps>>
Lut(op, n) == /\ lutSteps' = n
              /\ lut' = IF lutSteps = n THEN lut ELSE LutOf(curves, n)
              /\ Ask(op, n, <<"lut", n, lut'>>)
Item(k) == Ask("item", k, <<"item", Py(k), curves[Py(k)]>>) /\ UNCHANGED <<lut, lutSteps>>
Data == Ask("d", 0, <<"d", curves>>) /\ UNCHANGED <<lut, lutSteps>>
Idx == (-Len(curves))..(Len(curves) - 1)
Next == Len(hist) < K /\ \/ \E k \in Idx : Set(k) \/ Del(k)
                         \/ \E k \in {0, -1} : Item(k)
                         \/ Bounds \/ Ends \/ Data
                         \/ \E n \in {2, 3, 5} : Lut("lut", n)
                         \/ \E n \in {3, 5} : Lut("closest", n)

KeepsUp == CASE seen[1] = "bounds" -> seen[2] = BoundsOf(curves)
             [] seen[1] = "ends" -> seen[2] = EndsOf(curves)
             [] seen[1] = "lut" -> seen[3] = LutOf(curves, seen[2])
             [] seen[1] = "item" -> seen[3] = curves[seen[2]]
             [] OTHER -> TRUE
Derived == bounds = BoundsOf(curves) /\ ends = EndsOf(curves) /\ (lutSteps # 0 => lut = LutOf(curves, lutSteps))
Emit == (Len(hist) = K /\ \E i \in DOMAIN hist : hist[i].op \in {"set", "del"}) =>
           PrintT("BEHAVIOUR " \o ToJson([n |-> N0, ops |-> hist]))
=============================================================================
