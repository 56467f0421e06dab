----------------------------- MODULE Controller -----------------------------
(***************************************************************************)
(* The controller of the Breakout experiment and its game.  An episode     *)
(* starts with a reset and the start action, five times; then every frame  *)
(* is answered with the plan's action.  The game may take a life, after    *)
(* which the start action is repeated five times, or end.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS Episodes, MaxSteps, Serves, Plans

VARIABLES episodes, episode, lives, phase, n,   \* steps in the episode
          calls,     \* what is asked of the game: "reset" or the number of an action
          script,    \* what the game does at each action: "go", "lose", "stop"; with a reward
          plans, reward
vars == <<episodes, episode, lives, phase, n, calls, script, plans, reward>>

Serve == [i \in 1..Serves |-> "1"]
Action(p) == CASE p = "none" -> "0" [] p = "right" -> "2" [] p = "left" -> "3"
Init == /\ episodes \in Episodes /\ episode = 0 /\ lives = 5 /\ phase = "start" /\ n = 0
        /\ calls = <<"reset">> /\ script = <<>> /\ plans = <<>> /\ reward = 0
Start == /\ phase = "start" /\ episode < episodes
         /\ episode' = episode + 1 /\ lives' = 5 /\ n' = 0
         /\ calls' = Append(calls, "reset") \o Serve /\ phase' = "play"
         /\ UNCHANGED <<episodes, script, plans, reward>>
Play == /\ phase = "play"
        /\ \E p \in Plans : \E e \in (IF n + 1 = MaxSteps THEN {"stop"} ELSE {"go", "lose", "stop"}) :
             \E w \in (IF e = "stop" THEN {0} ELSE {0, 3}) :
              /\ plans' = Append(plans, p)
              /\ script' = Append(script, [does |-> e, reward |-> w])
              /\ calls' = Append(calls, Action(p)) \o (IF e = "lose" THEN Serve ELSE <<>>)
              /\ reward' = reward + w
              /\ lives' = IF e = "lose" THEN lives - 1 ELSE lives
              /\ phase' = IF e = "stop" THEN "start" ELSE "play"
              /\ n' = n + 1
        /\ UNCHANGED <<episodes, episode>>
Next == Start \/ Play

Over == phase = "start" /\ episode = episodes
Count(a) == LET R[i \in 0..Len(calls)] == IF i = 0 THEN 0 ELSE R[i - 1] + (IF calls[i] = a THEN 1 ELSE 0) IN R[Len(calls)]
Losses == LET R[i \in 0..Len(script)] == IF i = 0 THEN 0 ELSE R[i - 1] + (IF script[i].does = "lose" THEN 1 ELSE 0) IN R[Len(script)]
\* every start of play is served for, and every frame in play is answered
Served == Count("1") = Serves * (episode + Losses)
Answered == Len(plans) = Len(script) /\ Count("0") + Count("2") + Count("3") = Len(plans)
Emit == Over => PrintT("BEH " \o ToJson([episodes |-> episodes, calls |-> calls, script |-> script, plans |-> plans, reward |-> reward]))
=============================================================================
