---------------------------- MODULE SolverModel -----------------------------
(***************************************************************************)
(* The solver's loop on batches of problems whose iterates have any        *)
(* violations at all: Path[i][k] is the violation of iterate k of problem  *)
(* i, 0 if it is solved.  The loop as the code has it, with the best       *)
(* iterate per problem and one counter for the batch, against SolverLoop.  *)
(***************************************************************************)
EXTENDS SolverLoop, TLC, FiniteSets

CONSTANTS Problems, Iterates, Levels

VARIABLES path, max, patience, k, best, idle, done
vars == <<path, max, patience, k, best, idle, done>>

Init == /\ path \in [1..Problems -> [1..Iterates -> 0..Levels]]
        /\ max \in 1..Iterates /\ patience \in 1..Iterates
        /\ k = 0 /\ best = [i \in 1..Problems |-> Levels + 1] /\ idle = 0 /\ done = FALSE

Iterate == /\ ~done
           /\ k' = k + 1
           /\ LET better == {i \in 1..Problems : path[i][k + 1] < best[i]} IN
              /\ best' = [i \in 1..Problems |-> IF i \in better THEN path[i][k + 1] ELSE best[i]]
              /\ idle' = IF better # {} THEN 0 ELSE idle + 1
           /\ done' = (k + 1 = max \/ idle' = patience \/ \A i \in 1..Problems : best'[i] = 0)
           /\ UNCHANGED <<path, max, patience>>
Next == Iterate

Least(S) == CHOOSE a \in S : \A b \in S : a <= b
Bests == [n \in 1..Iterates |-> [i \in 1..Problems |-> Least({path[i][j] : j \in 1..n})]]
Less(a, b) == a < b
Solved(a) == a = 0
Seen(m, p) == Last(Bests, m, p, Less, Solved)

\* the loop returns the best it has met, after as many iterates as SolverLoop says
FollowsRule == done => /\ k = Seen(max, patience)
                       /\ best = Bests[k]
\* larger limits never give a worse answer
MoreIsBetter == done => \A m \in max..Iterates, p \in patience..Iterates : \A i \in 1..Problems :
                           Bests[Seen(m, p)][i] <= best[i]
\* in company no problem gets a worse answer than alone
Alone(i, m, p) == Last([n \in 1..Iterates |-> <<Bests[n][i]>>], m, p, Less, Solved)
CompanyIsNoHarm == done => \A i \in 1..Problems : best[i] <= Bests[Alone(i, max, patience)][i]
=============================================================================
