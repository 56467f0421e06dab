----------------------------- MODULE SolverLoop -----------------------------
(***************************************************************************)
(* How long the solver iterates on a batch and what it returns.  r[k][i]   *)
(* is the best violation problem i has met in its first k iterates.  The   *)
(* solver stops at its limit, when all problems are solved, or when none   *)
(* has got better for patience iterations.                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences

\* Better(a, b): a is an improvement on b; Done: small enough to stop
StopsAt(r, k, patience, Better(_, _), Done(_)) ==
    \/ \A i \in 1..Len(r[k]) : Done(r[k][i])
    \/ /\ k > patience
       /\ \A i \in 1..Len(r[k]) : ~Better(r[k][i], r[k - patience][i])
\* the number of iterates seen when the solver returns
Last(r, max, patience, Better(_, _), Done(_)) ==
    CHOOSE k \in 1..max : /\ k = max \/ StopsAt(r, k, patience, Better, Done)
                          /\ \A j \in 1..(k - 1) : ~StopsAt(r, j, patience, Better, Done)
=============================================================================
