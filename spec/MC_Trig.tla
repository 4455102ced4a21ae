------------------------------ MODULE MC_Trig ------------------------------
(* Sine and cosine satisfy the identities that determine them. *)
EXTENDS Trig, TLC

VARIABLES i, j
Angles == <<0, 1, 30, 45, 60, 89, 90, 120, 180, 270, 359, 360, -30, -90, -135, 720,
            RDiv(1, 2), RDiv(77, 3), RDiv(-1234567, 1000), RDiv(1, 1000000)>>
Init == i \in DOMAIN Angles /\ j \in DOMAIN Angles
Next == UNCHANGED <<i, j>>
Eps == RTwoPow(-60)
Close(x, y) == RNear(x, y, Eps)
a == SinCos(Angles[i])
b == SinCos(Angles[j])
sum == SinCos(Angles[i] \oplus Angles[j])
Identities ==
    /\ Close(RSq(a[1]) \oplus RSq(a[2]), 1)
    /\ Close(sum[1], (a[1] \otimes b[2]) \oplus (a[2] \otimes b[1]))
    /\ Close(sum[2], (a[2] \otimes b[2]) \ominus (a[1] \otimes b[1]))
    /\ SinCos(0) = <<0, 1>> /\ SinCos(90) = <<1, 0>> /\ SinCos(-90) = <<-1, 0>>
    /\ Close(SinCos(30)[1], RDiv(1, 2))
    /\ RLt(0, SinCos(1)[1])
    \* sin x ~ x for small x
    /\ LET x == RDiv(1, 1000000)
           rad == (x \otimes Pi) \oslash 180
       IN  RNear(SinCos(x)[1], rad, RPow(rad, 3))
=============================================================================
