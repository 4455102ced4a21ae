-------------------------------- MODULE Rat --------------------------------
(***************************************************************************)
(* Exact rational numbers.                                                 *)
(*                                                                         *)
(* TLC's integers have 32 bits, the numbers of the implementation are      *)
(* binary floating point numbers, decimals and integers of any size, each  *)
(* of which is exactly a rational.  A rational is represented by an Int if *)
(* it is an integer whose absolute value is less than 2^30, and otherwise  *)
(* by << num, den >>: two sequences of base 2^30 limbs, least significant  *)
(* limb first, the sign of the number on every limb of num, den positive,  *)
(* the fraction in lowest terms.  The representation of a rational is      *)
(* unique; use \doteq to compare rationals, because TLC refuses to compare  *)
(* an Int with a sequence.                                                 *)
(*                                                                         *)
(* The definitions below are the meaning of the operators.  TLC evaluates  *)
(* them with java/RatOps.java (they would overflow TLC's integers); MC_Rat *)
(* checks that evaluator.                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences

LOCAL Base == 1073741824       \* 2^30

RECURSIVE Limbs(_), Unlimb(_), Gcd(_, _)
Unlimb(s) == IF s = <<>> THEN 0 ELSE Head(s) + Base * Unlimb(Tail(s))
Limbs(n) == IF n = 0 THEN <<>>                        \* n >= 0
            ELSE <<n % Base>> \o Limbs(n \div Base)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
IAbs(n) == IF n < 0 THEN -n ELSE n
SLimbs(n) == IF n >= 0 THEN Limbs(n)
             ELSE [i \in DOMAIN Limbs(-n) |-> -Limbs(-n)[i]]

RNum(a) == IF a \in Int THEN a ELSE Unlimb(a[1])
RDen(a) == IF a \in Int THEN 1 ELSE Unlimb(a[2])
\* the rational n/d, d # 0
RMake(n, d) == LET s == IF d < 0 THEN -1 ELSE 1
                   g == Gcd(IAbs(n), IAbs(d))
                   p == s * ((IAbs(n) \div g) * (IF n < 0 THEN -1 ELSE 1))
                   q == IAbs(d) \div g
               IN  IF q = 1 /\ IAbs(p) < Base THEN p ELSE <<SLimbs(p), Limbs(q)>>

RAdd(a, b) == RMake(RNum(a) * RDen(b) + RNum(b) * RDen(a), RDen(a) * RDen(b))
RSub(a, b) == RMake(RNum(a) * RDen(b) - RNum(b) * RDen(a), RDen(a) * RDen(b))
RMul(a, b) == RMake(RNum(a) * RNum(b), RDen(a) * RDen(b))
RDiv(a, b) == RMake(RNum(a) * RDen(b), RDen(a) * RNum(b))      \* b # 0
RNeg(a) == RMake(-RNum(a), RDen(a))
RAbs(a) == RMake(IAbs(RNum(a)), RDen(a))
RSign(a) == IF RNum(a) > 0 THEN 1 ELSE IF RNum(a) < 0 THEN -1 ELSE 0
RLt(a, b) == RNum(a) * RDen(b) < RNum(b) * RDen(a)
RLe(a, b) == RNum(a) * RDen(b) <= RNum(b) * RDen(a)
REq(a, b) == RNum(a) * RDen(b) = RNum(b) * RDen(a)
RMin(a, b) == IF RLt(b, a) THEN b ELSE a
RMax(a, b) == IF RLt(a, b) THEN b ELSE a
RFloor(a) == RMake(RNum(a) \div RDen(a), 1)
RECURSIVE RSum(_), RDot(_, _), RMaxSeq(_), RMinSeq(_), RPow(_, _), RTwoPow(_)
RSum(s) == IF s = <<>> THEN 0 ELSE RAdd(Head(s), RSum(Tail(s)))
RDot(s, t) == IF s = <<>> THEN 0
              ELSE RAdd(RMul(Head(s), Head(t)), RDot(Tail(s), Tail(t)))
RMaxSeq(s) == IF Len(s) = 1 THEN s[1] ELSE RMax(Head(s), RMaxSeq(Tail(s)))
RMinSeq(s) == IF Len(s) = 1 THEN s[1] ELSE RMin(Head(s), RMinSeq(Tail(s)))
RPow(a, n) == IF n = 0 THEN 1 ELSE RMul(a, RPow(a, n - 1))
RTwoPow(k) == IF k = 0 THEN 1
              ELSE IF k > 0 THEN RMul(2, RTwoPow(k - 1)) ELSE RDiv(RTwoPow(k + 1), 2)
\* the greatest multiple of 2^-bits that is not greater than a
RRoundDown(a, bits) == RDiv(RFloor(RMul(a, RTwoPow(bits))), RTwoPow(bits))
\* the greatest multiple of 2^-bits whose square is not greater than a
RSqrtLo(a, bits) ==
    LET s == RNum(RFloor(RMul(a, RTwoPow(2 * bits))))
        q == CHOOSE n \in 0..s : n * n <= s /\ s < (n + 1) * (n + 1)
    IN  RMake(q, RNum(RTwoPow(bits)))
RStr(a) == "?"                \* a decimal rendering, for messages only

(***************************************************************************)
(* Notation                                                                *)
(***************************************************************************)
a \oplus b == RAdd(a, b)
a \ominus b == RSub(a, b)
a \otimes b == RMul(a, b)
a \oslash b == RDiv(a, b)
a \prec b == RLt(a, b)
a \preceq b == RLe(a, b)
a \doteq b == REq(a, b)
RSq(a) == RMul(a, a)
\* |a - b| <= tol
RNear(a, b, tol) == RLe(RAbs(RSub(a, b)), tol)
\* the least multiple of 2^-bits whose square is greater than a
RSqrtHi(a, bits) == RAdd(RSqrtLo(a, bits), RTwoPow(-bits))
=============================================================================
