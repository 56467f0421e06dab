------------------------------ MODULE Descent -------------------------------
(***************************************************************************)
(* A learning loop: in every iteration the scene is run with the present   *)
(* parameter, which gives a loss and a slope; the parameter then moves     *)
(* against the slope.  The loop ends when the loss has changed by less     *)
(* than Eps since the iteration before, or after MaxIter iterations.       *)
(* The environment chooses losses and slopes.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS Losses, Eps, MaxIter, Flat   \* are there flat places?

Slopes == {-1, 1} \cup (IF Flat THEN {0} ELSE {})

VARIABLES param, runs,    \* the parameter of every run
          losses, slopes, over
vars == <<param, runs, losses, slopes, over>>

Sign(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
Abs(x) == IF x < 0 THEN -x ELSE x
n == Len(losses)

Init == param = 0 /\ runs = <<>> /\ losses = <<>> /\ slopes = <<>> /\ over = FALSE
Iterate == /\ ~over
           /\ \E l \in Losses, g \in Slopes :
                /\ runs' = Append(runs, param)
                /\ losses' = Append(losses, l) /\ slopes' = Append(slopes, g)
                /\ param' = param - Sign(g)
                /\ over' = ((n > 0 /\ Abs(l - losses[n]) < Eps) \/ n + 1 = MaxIter)
Next == Iterate

\* the properties of the loop
SettledAtTheEnd == over => n = MaxIter \/ (n > 1 /\ Abs(losses[n] - losses[n - 1]) < Eps)
NotSettledBefore == \A k \in 2..n : Abs(losses[k] - losses[k - 1]) < Eps => k = n /\ over
Bounded == n <= MaxIter
Downhill == \A k \in 1..n : LET next == IF k = n THEN param ELSE runs[k + 1] IN Sign(next - runs[k]) = -Sign(slopes[k])
Ends == <>over
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Emit == (over /\ n < MaxIter) => PrintT("BEH " \o ToJson([losses |-> losses, slopes |-> slopes]))
=============================================================================
