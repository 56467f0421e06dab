-------------------------------- MODULE R64 --------------------------------
(***************************************************************************)
(* Real numbers for trace validation.  A real is a pair <<hi, lo>> holding *)
(* the two 32-bit halves of an IEEE double, which is how the recorded      *)
(* traces write every number (TLC's integers have 32 bits and the Json     *)
(* module reads no fractions).  The operators below have no TLA+           *)
(* definition: java/R64.java overrides each of them with one IEEE          *)
(* operation.  That class is part of the trusted base; spec/R64Test.tla    *)
(* checks it against integer arithmetic.                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences
LOCAL Undefined == CHOOSE x \in {} : TRUE

RInt(n) == Undefined        \* the integer n as a real
RRat(n, d) == Undefined     \* n / d
RExp10(n) == Undefined      \* 10 ^ n
RAdd(a, b) == Undefined
RSub(a, b) == Undefined
RMul(a, b) == Undefined
RDiv(a, b) == Undefined
RNeg(a) == Undefined
RAbs(a) == Undefined
RMax(a, b) == Undefined
RMin(a, b) == Undefined
RSqrt(a) == Undefined
RSin(a) == Undefined
RCos(a) == Undefined
RAtan2(y, x) == Undefined
RLe(a, b) == Undefined
RLt(a, b) == Undefined
REq(a, b) == Undefined
RFinite(a) == Undefined
RFloor(a) == Undefined      \* an integer
RDot(s, t) == Undefined     \* sum of the products of two sequences of reals
RSum(s) == Undefined
RMaxAbs(s) == Undefined     \* largest absolute value, NaN if there is one
RStr(a) == Undefined

a \oplus b == RAdd(a, b)
a \ominus b == RSub(a, b)
a \otimes b == RMul(a, b)
a \oslash b == RDiv(a, b)
a \preceq b == RLe(a, b)
a \prec b == RLt(a, b)

R0 == RInt(0)
R1 == RInt(1)
R2 == RInt(2)
Half == RRat(1, 2)
Infinity == RDiv(R1, R0)

\* |a - b| <= tol, and so FALSE if one of them is no number
RNear(a, b, tol) == RAbs(a \ominus b) \preceq tol
\* the same, relative to the size of the two
RClose(a, b, tol) ==
    RAbs(a \ominus b) \preceq (tol \otimes (R1 \oplus RMax(RAbs(a), RAbs(b))))
SeqNear(s, t, tol) ==
    /\ Len(s) = Len(t)
    /\ \A i \in 1..Len(s) : RNear(s[i], t[i], tol)
SeqClose(s, t, tol) ==
    /\ Len(s) = Len(t)
    /\ \A i \in 1..Len(s) : RClose(s[i], t[i], tol)
SeqEq(s, t) ==
    /\ Len(s) = Len(t)
    /\ \A i \in 1..Len(s) : REq(s[i], t[i])
=============================================================================
