------------------------------ MODULE Problems ------------------------------
(***************************************************************************)
(* All small complementarity problems with integer data that have a given  *)
(* solution.  A problem is put together piece by piece: the matrices, the  *)
(* point, for each inequality its slack and multiplier; p, h and b then    *)
(* follow.  TLC checks that the point is a solution, and that no other     *)
(* point of the lattice is one: with Q positive definite and F monotone    *)
(* there is one solution.                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS N, M,      \* variables, inequalities
          Part, Parts \* which part of all problems to print

VARIABLES stage, prob
vars == <<stage, prob>>

Row(S, k) == [1..k -> S]
Dot(a, b) == IF Len(a) = 1 THEN a[1] * b[1] ELSE IF Len(a) = 0 THEN 0 ELSE a[1] * b[1] + a[2] * b[2]
Col(m, j) == [i \in 1..Len(m) |-> m[i][j]]
Qs == IF N = 1 THEN {<<<<1>>>>, <<<<3>>>>} ELSE {<<<<1, 0>>, <<0, 1>>>>, <<<<3, 1>>, <<1, 1>>>>, <<<<2, -1>>, <<-1, 5>>>>}
Fs == IF M = 1 THEN {<<<<0>>>>, <<<<1>>>>}
      ELSE {<<<<0, 0>>, <<0, 0>>>>, <<<<1, 0>>, <<0, 1>>>>, <<<<0, 1>>, <<-1, 0>>>>, <<<<1, 2>>, <<0, 1>>>>}
As == IF N = 1 THEN {<<>>} ELSE {<<>>, <<<<1, 0>>>>, <<<<1, -1>>>>}
Gs == Row(Row({-1, 0, 1}, N), M) \cup (IF N = 2 THEN {[i \in 1..M |-> <<2, -1>>]} ELSE {})
Xs == IF N = 1 THEN {<<0>>, <<2>>} ELSE {<<0, 0>>, <<1, -2>>}
SZ == {<<0, 0>>, <<0, 1>>, <<1, 0>>, <<0, 3>>, <<2, 0>>}

Init == stage = "matrices" /\ prob = <<>>
Matrices == /\ stage = "matrices" /\ stage' = "point"
            /\ \E Q \in Qs, F \in Fs, A \in As : prob' = [Q |-> Q, F |-> F, A |-> A]
Point == /\ stage = "point" /\ stage' = "inequalities"
         /\ \E x \in Xs, y \in {-1, 2} :
                /\ prob.A = <<>> => y = 2
                /\ prob' = prob @@ [x |-> x, y |-> IF prob.A = <<>> THEN <<>> ELSE <<y>>]
Inequalities ==
    /\ stage = "inequalities" /\ stage' = "done"
    /\ \E G \in Gs, sz \in Row(SZ, M) :
        LET s == [i \in 1..M |-> sz[i][1]]  z == [i \in 1..M |-> sz[i][2]] IN
        prob' = prob @@ [G |-> G, s |-> s, z |-> z,
                         p |-> [j \in 1..N |-> 0 - Dot(prob.Q[j], prob.x) - Dot(Col(G, j), z)
                                               - Dot(Col(prob.A, j), prob.y)],
                         h |-> [i \in 1..M |-> Dot(G[i], prob.x) + s[i] - Dot(prob.F[i], z)],
                         b |-> [i \in 1..Len(prob.A) |-> Dot(prob.A[i], prob.x)]]
Next == Matrices \/ Point \/ Inequalities

Solution(P, x, s, z, y) ==
    /\ \A j \in 1..N : Dot(P.Q[j], x) + P.p[j] + Dot(Col(P.G, j), z) + Dot(Col(P.A, j), y) = 0
    /\ \A i \in 1..M : Dot(P.G[i], x) + s[i] = P.h[i] + Dot(P.F[i], z)
    /\ \A i \in 1..Len(P.A) : Dot(P.A[i], x) = P.b[i]
    /\ \A i \in 1..M : s[i] >= 0 /\ z[i] >= 0 /\ s[i] * z[i] = 0
Planted == stage = "done" => Solution(prob, prob.x, prob.s, prob.z, prob.y)
\* the other points of the lattice, with slacks as they must be
Others == Row(-3 .. 3, N) \X Row(0 .. 3, M) \X {-2, -1, 0, 1, 2}
Unique == stage = "done" =>
    \A o \in Others :
        LET s == [i \in 1..M |-> prob.h[i] + Dot(prob.F[i], o[2]) - Dot(prob.G[i], o[1])]
            y == IF prob.A = <<>> THEN <<>> ELSE <<o[3]>> IN
        o[1] # prob.x => ~Solution(prob, o[1], s, o[2], y)

\* Some point meets all inequalities strictly, with positive multipliers.  By Farkas' lemma there is none if and only
\* if there is a combination u of the inequalities as below; on this lattice small ones suffice.
Blocked(P, u, v) ==
    /\ \E i \in 1..M : u[i] > 0
    /\ \A j \in 1..N : Dot(Col(P.G, j), u) + Dot(Col(P.A, j), v) = 0
    /\ \A i \in 1..M : /\ Dot(P.F[i], u) + Dot(Col(P.F, i), u) = 0
                      /\ u[i] * P.s[i] = 0
                      /\ Dot(Col(P.F, i), u) <= 0 /\ P.z[i] * Dot(Col(P.F, i), u) = 0
Interior == \A u \in Row(0 .. 2, M), v \in Row(-6 .. 6, Len(prob.A)) : ~Blocked(prob, u, v)

Digits(v) == IF Len(v) = 1 THEN v[1] ELSE v[1] + 7 * v[2]
Hash == LET p == prob IN
    (Digits(p.p) + 3 * Digits(p.h) + 11 * Digits(p.G[1]) + (IF M = 2 THEN 23 * Digits(p.G[2]) ELSE 0)
     + 37 * Digits(p.z) + 41 * Digits(p.s) + 53 * Digits(p.F[1]) + 1000) % Parts
Emit == (stage = "done" /\ Hash = Part /\ Interior) => PrintT("BEH " \o ToJson(prob))
=============================================================================
