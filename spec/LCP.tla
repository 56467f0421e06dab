--------------------------------- MODULE LCP ---------------------------------
(***************************************************************************)
(* Mixed linear complementarity problems over the reals.  A problem P has  *)
(* a matrix Q, inequalities G x - F z <= h, equalities A x = b and a       *)
(* linear term p; a solution is a point with multipliers such that         *)
(*     Q x + p + G' z + A' y = 0,   A x = b,   s = h + F z - G x,          *)
(*     s >= 0,  z >= 0,  s_i z_i = 0.                                      *)
(* With F = 0 that is the minimum of x'Qx/2 + p'x under the constraints.   *)
(***************************************************************************)
EXTENDS R64, FiniteSets

Entry(M, i, j) == M[i][j]
MatVec(M, v) == [i \in 1..Len(M) |-> RDot(M[i], v)]
\* M' v, a vector of n entries
TMatVec(M, v, n) == [j \in 1..n |-> RDot([i \in 1..Len(M) |-> M[i][j]], v)]
VPlus(a, b) == [i \in 1..Len(a) |-> a[i] \oplus b[i]]
VMinus(a, b) == [i \in 1..Len(a) |-> a[i] \ominus b[i]]
VTimes(k, a) == [i \in 1..Len(a) |-> k \otimes a[i]]
Zeros(n) == [i \in 1..n |-> R0]
RECURSIVE Biggest(_, _)
Biggest(s, i) == IF i > Len(s) THEN R0 ELSE RMax(RAbs(s[i]), Biggest(s, i + 1))
Size(s) == Biggest(s, 1)

Nz(P) == Len(P.Q)
Nineq(P) == Len(P.G)
Neq(P) == Len(P.A)

Gradient(P, x, z, y) ==
    VPlus(VPlus(MatVec(P.Q, x), P.p), VPlus(TMatVec(P.G, z, Nz(P)), TMatVec(P.A, y, Nz(P))))
Slack(P, x, z) == VMinus(VPlus(P.h, MatVec(P.F, z)), MatVec(P.G, x))
Solves(P, x, z, y, tol) ==
    LET s == Slack(P, x, z) IN
    /\ SeqNear(Gradient(P, x, z, y), Zeros(Nz(P)), tol)
    /\ SeqNear(MatVec(P.A, x), P.b, tol)
    /\ \A i \in 1..Nineq(P) : /\ RNeg(tol) \preceq s[i]
                              /\ RNeg(tol) \preceq z[i]
                              /\ (s[i] \preceq tol \/ z[i] \preceq tol)
Obeys(P, x, z, tol) ==
    /\ SeqNear(MatVec(P.A, x), P.b, tol)
    /\ LET s == Slack(P, x, z) IN \A i \in 1..Nineq(P) : RNeg(tol) \preceq s[i]
\* how much a point with its multipliers and slacks violates all this
Norm(v) == RSqrt(RDot(v, v))
Violation(P, x, z, y, s) ==
    LET rz == VMinus(VPlus(MatVec(P.G, x), s), VPlus(P.h, MatVec(P.F, z))) IN
    RSum(<<Norm(Gradient(P, x, z, y)), Norm(rz), Norm(VMinus(MatVec(P.A, x), P.b)), RAbs(RDot(s, z))>>)

(***************************************************************************)
(* Derivatives.  At a solution in which each inequality is either tight    *)
(* with a positive multiplier or slack, a loss with gradient g in x has    *)
(* the derivatives that follow from the solution u, w, v of the adjoint    *)
(*     Q u + G' w + A' v = -g,   (G u - F' w)_i = 0 on the tight ones,     *)
(*     w_i = 0 on the others,    A u = 0.                                  *)
(***************************************************************************)
AdjointHolds(P, tight, g, u, w, v, tol) ==
    /\ SeqNear(VPlus(VPlus(MatVec(P.Q, u), g), VPlus(TMatVec(P.G, w, Nz(P)), TMatVec(P.A, v, Nz(P)))), Zeros(Nz(P)), tol)
    /\ LET r == VMinus(MatVec(P.G, u), TMatVec(P.F, w, Nineq(P))) IN
       \A i \in 1..Nineq(P) : IF tight[i] THEN RNear(r[i], R0, tol) ELSE RNear(w[i], R0, tol)
    /\ SeqNear(MatVec(P.A, u), Zeros(Neq(P)), tol)
Outer(a, b, i, j) == a[i] \otimes b[j]
IsOuters(M, a, b, c, d, tol) ==       \* M = a b' + c d'
    \A i \in 1..Len(M) : \A j \in 1..Len(M[i]) : RNear(M[i][j], Outer(a, b, i, j) \oplus Outer(c, d, i, j), tol)
=============================================================================
