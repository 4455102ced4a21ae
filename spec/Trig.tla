-------------------------------- MODULE Trig --------------------------------
(***************************************************************************)
(* Sine and cosine of rational angles in degrees, with an error below      *)
(* 10^-18; exact for multiples of 90 degrees.                              *)
(***************************************************************************)
EXTENDS Rat, Integers, Sequences

\* pi, rounded down to a multiple of 2^-134
Pi == RDiv(<<<<471650601, 428486147, 203639884, 917014618, 51471>>, <<1>>>>, RTwoPow(134))

LOCAL Bits == 110
\* term - term x^2 / ((k+1)(k+2)) + ...
RECURSIVE Series(_, _, _)
Series(term, x2, k) ==
    IF k > 28 THEN 0
    ELSE term \oplus Series(RRoundDown(RNeg((term \otimes x2) \oslash ((k + 1) * (k + 2))), Bits), x2, k + 2)

\* << sin, cos >> of d degrees
SinCos(d) ==
    LET q == RFloor((d \oslash 90) \oplus RDiv(1, 2))
        rem == d \ominus (90 \otimes q)                   \* -45 <= rem < 45
        x == RRoundDown((rem \otimes Pi) \oslash 180, Bits)
        x2 == RSq(x)
        s == IF RSign(rem) = 0 THEN 0 ELSE Series(x, x2, 1)
        c == IF RSign(rem) = 0 THEN 1 ELSE Series(1, x2, 0)
        k == q \ominus (4 \otimes RFloor(q \oslash 4))
    IN  CASE k = 0 -> <<s, c>>
          [] k = 1 -> <<c, RNeg(s)>>
          [] k = 2 -> <<RNeg(s), RNeg(c)>>
          [] k = 3 -> <<RNeg(c), s>>
=============================================================================
