------------------------------ MODULE R64Test -------------------------------
(* The overrides of R64 against TLC's own integers. *)
EXTENDS R64, TLC
S == -9..9
ASSUME \A a, b \in S :
    /\ RAdd(RInt(a), RInt(b)) = RInt(a + b)
    /\ RSub(RInt(a), RInt(b)) = RInt(a - b)
    /\ REq(RMul(RInt(a), RInt(b)), RInt(a * b))
    /\ b # 0 => REq(RMul(RDiv(RInt(a * b), RInt(b)), RInt(b)), RInt(a * b))
    /\ b # 0 => REq(RRat(a, b), RDiv(RInt(a), RInt(b)))
    /\ RLe(RInt(a), RInt(b)) = (a <= b)
    /\ RLt(RInt(a), RInt(b)) = (a < b)
    /\ REq(RInt(a), RInt(b)) = (a = b)
    /\ RMax(RInt(a), RInt(b)) = RInt(IF a >= b THEN a ELSE b)
    /\ RMin(RInt(a), RInt(b)) = RInt(IF a <= b THEN a ELSE b)
    /\ REq(RAbs(RInt(a)), RInt(IF a < 0 THEN -a ELSE a))
    /\ REq(RNeg(RInt(a)), RInt(-a))
    /\ REq(RSqrt(RInt(a * a)), RAbs(RInt(a)))
    /\ RFloor(RRat(a, 2)) = a \div 2
    /\ REq(RDot(<<RInt(a), RInt(b)>>, <<RInt(b), RInt(3)>>), RInt(a * b + 3 * b))
    /\ REq(RSum(<<RInt(a), RInt(b), RInt(5)>>), RInt(a + b + 5))
    /\ REq(RMaxAbs(<<RInt(a), RInt(b)>>), RMax(RAbs(RInt(a)), RAbs(RInt(b))))
    /\ RNear(RSqrt(RSin(RInt(a)) \otimes RSin(RInt(a)) \oplus RCos(RInt(a)) \otimes RCos(RInt(a))), R1, RExp10(-15))
    /\ (a # 0 \/ b # 0) =>
         LET t == RAtan2(RInt(b), RInt(a))
             r == RSqrt(RInt(a * a + b * b)) IN
         /\ RNear(r \otimes RCos(t), RInt(a), RExp10(-14))
         /\ RNear(r \otimes RSin(t), RInt(b), RExp10(-14))
ASSUME ~RFinite(RDiv(R0, R0)) /\ ~RFinite(Infinity) /\ RFinite(R1)
ASSUME ~RNear(RDiv(R0, R0), R0, Infinity) /\ ~RClose(R0, RDiv(R0, R0), R1)
ASSUME ~RFinite(RMaxAbs(<<R0, RDiv(R0, R0), R1>>))
VARIABLE x
Init == x = 0
Next == x' = x
=============================================================================
