------------------------------- MODULE Worlds -------------------------------
(***************************************************************************)
(* Several worlds in one process.  A world's state after n steps depends   *)
(* on n alone, whatever is done in between: steps of the other world, a    *)
(* batch of problems solved, the random number generators set.  The solver *)
(* keeps one scratch matrix for all, and has to fit it to each problem.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS Steps, MaxNoise

VARIABLES made,     \* is the world there yet
          done,     \* steps of each world
          state,    \* of each world: what the steps made of it
          scratch,  \* size of the problem the scratch matrix fits
          fits,     \* did it fit when it was used
          noise, hist
vars == <<made, done, state, scratch, fits, noise, hist>>

Ws == {1, 2}
Size(w) == w            \* the worlds' problems differ in size
Init == /\ made = [w \in Ws |-> FALSE] /\ done = [w \in Ws |-> 0] /\ state = [w \in Ws |-> 0]
        /\ scratch = 0 /\ fits = TRUE /\ noise = 0 /\ hist = <<>>

Refit(n) == scratch' = n /\ fits' = (scratch' = n)
Make(w) == /\ ~made[w] /\ made' = [made EXCEPT ![w] = TRUE]
           /\ hist' = Append(hist, [op |-> "make", w |-> w])
           /\ UNCHANGED <<done, state, scratch, fits, noise>>
Step(w) == /\ made[w] /\ done[w] < Steps
           /\ done' = [done EXCEPT ![w] = @ + 1]
           /\ state' = [state EXCEPT ![w] = 2 * @ + w]      \* some function of its own state
           /\ Refit(Size(w))
           /\ hist' = Append(hist, [op |-> "step", w |-> w])
           /\ UNCHANGED <<made, noise>>
Noise(n) == /\ noise < MaxNoise /\ noise' = noise + 1 /\ Refit(n)
            /\ hist' = Append(hist, [op |-> "noise", w |-> n])
            /\ UNCHANGED <<made, done, state>>
Next == (\E w \in Ws : Make(w) \/ Step(w)) \/ (\E n \in {1, 3} : Noise(n))

RECURSIVE After(_, _)
After(w, n) == IF n = 0 THEN 0 ELSE 2 * After(w, n - 1) + w
Independent == \A w \in Ws : state[w] = After(w, done[w])
ScratchFits == fits
Emit == (\A w \in Ws : done[w] = Steps) /\ noise = MaxNoise => PrintT("BEH " \o ToJson(hist))
=============================================================================
