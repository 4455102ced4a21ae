------------------------------ MODULE MC_Rat ------------------------------
(***************************************************************************)
(* Checks the evaluator of module Rat: on small fractions against TLC's    *)
(* own integers, on big numbers against the laws of an ordered field.      *)
(***************************************************************************)
EXTENDS Rat, TLC, FiniteSets

CONSTANT N
VARIABLES i, j, k

\* small fractions as pairs of native integers
Small == {<<n, d>> \in (-N..N) \X (1..N) : TRUE}
R(p) == RDiv(p[1], p[2])
Same(r, n, d) == REq(RMul(r, d), n)     \* r = n/d

SmallOk == \A p, q \in Small :
    /\ Same(RAdd(R(p), R(q)), p[1] * q[2] + q[1] * p[2], p[2] * q[2])
    /\ Same(RSub(R(p), R(q)), p[1] * q[2] - q[1] * p[2], p[2] * q[2])
    /\ Same(RMul(R(p), R(q)), p[1] * q[1], p[2] * q[2])
    /\ q[1] # 0 => Same(RDiv(R(p), R(q)), p[1] * q[2], p[2] * q[1])
    /\ RLt(R(p), R(q)) = (p[1] * q[2] < q[1] * p[2])
    /\ RLe(R(p), R(q)) = (p[1] * q[2] <= q[1] * p[2])
    /\ REq(R(p), R(q)) = (p[1] * q[2] = q[1] * p[2])
    /\ RFloor(R(p)) = p[1] \div p[2]
    /\ RSign(R(p)) = (IF p[1] > 0 THEN 1 ELSE IF p[1] < 0 THEN -1 ELSE 0)
    /\ RAbs(R(p)) \doteq R(<<IAbs(p[1]), p[2]>>)
    /\ RMin(R(p), R(q)) \doteq (IF p[1] * q[2] < q[1] * p[2] THEN R(p) ELSE R(q))
    /\ RMax(R(p), R(q)) \doteq (IF p[1] * q[2] < q[1] * p[2] THEN R(q) ELSE R(p))
    /\ RSum(<<R(p), R(q), 1>>) \doteq RAdd(RAdd(R(p), R(q)), 1)
    /\ RDot(<<R(p), 3>>, <<R(q), -1>>) \doteq RSub(RMul(R(p), R(q)), 3)
    /\ RMaxSeq(<<R(p), R(q)>>) \doteq RMax(R(p), R(q))
    /\ RMinSeq(<<R(p), R(q)>>) \doteq RMin(R(p), R(q))
    /\ RPow(R(p), 3) \doteq RMul(R(p), RMul(R(p), R(p)))

\* big numbers: the specification's representation, built with its own definition
Big == << 0, 1, -1, 7, 1073741823, -1073741823,
         <<<<0, 1>>, <<1>>>>, <<<<0, -1>>, <<1>>>>,            \* +-2^30
         <<<<5, 7, 11>>, <<1>>>>, <<<<-5, -7, -11>>, <<3>>>>,
         <<<<1>>, <<0, 0, 1>>>>, <<<<-3>>, <<0, 4>>>>, <<<<1, 0, 5>>, <<7, 9>>>> >>

Init == i \in DOMAIN Big /\ j \in DOMAIN Big /\ k \in DOMAIN Big
Next == UNCHANGED <<i, j, k>>
x == Big[i]
y == Big[j]
z == Big[k]

Laws ==
    /\ RAdd(x, y) \doteq RAdd(y, x)
    /\ RMul(x, y) \doteq RMul(y, x)
    /\ RAdd(RAdd(x, y), z) \doteq RAdd(x, RAdd(y, z))
    /\ RMul(RMul(x, y), z) \doteq RMul(x, RMul(y, z))
    /\ RMul(x, RAdd(y, z)) \doteq RAdd(RMul(x, y), RMul(x, z))
    /\ RSub(RAdd(x, y), y) \doteq x
    /\ RSign(y) # 0 => RMul(RDiv(x, y), y) \doteq x
    /\ RAdd(x, RNeg(x)) \doteq 0
    /\ RLt(x, y) => RLt(RAdd(x, z), RAdd(y, z))
    /\ (RLt(x, y) /\ RLt(0, z)) => RLt(RMul(x, z), RMul(y, z))
    /\ RLe(x, y) = ~RLt(y, x)
    /\ RLe(RFloor(x), x) /\ RLt(x, RAdd(RFloor(x), 1))
    /\ LET r == RRoundDown(x, 40) IN RLe(r, x) /\ RLt(x, RAdd(r, RTwoPow(-40)))
    /\ LET a == RAbs(x)
           r == RSqrtLo(a, 40)
       IN RLe(RSq(r), a) /\ RLt(a, RSq(RAdd(r, RTwoPow(-40))))
    /\ RAdd(1073741823, 1) \doteq <<<<0, 1>>, <<1>>>>
    /\ RDiv(1, 2) \doteq <<<<1>>, <<2>>>>
    /\ RMul(1073741823, 1073741823) \doteq <<<<1, 1073741822>>, <<1>>>>

ASSUME SmallOk
=============================================================================
