---------------------------- MODULE EngineMemory ----------------------------
(***************************************************************************)
(* What an engine remembers.  Without contacts the new velocities come     *)
(* from a system of equations that depends on masses and joints only; an   *)
(* engine may keep its inverse, but only in a world whose joints never     *)
(* move.  sys is the version of the system, which changes when a joint     *)
(* moves; an answer is right if it was computed from the present version.  *)
(* With contacts the engine solves a complementarity problem afresh.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS MaxOps, Kinds

VARIABLES kind,      \* of world: "none" (no joints), "static", "moving"
          contacts,  \* are there any
          sys, cache,
          answer,    \* the version the last answer came from,
          asked,     \* and the one that was present then
          hist
vars == <<kind, contacts, sys, cache, answer, asked, hist>>

AllKinds == {"none", "static", "moving"}
Static == kind # "moving"

Init == /\ kind \in Kinds /\ contacts \in BOOLEAN
        /\ sys = 1 /\ cache = 0 /\ answer = 1 /\ asked = 1
        /\ hist = <<IF contacts THEN "touch" ELSE "part">>

Room == Len(hist) < MaxOps
Log(op) == hist' = Append(hist, op)

\* new velocities: what the engine answers and keeps
Solving == /\ asked' = sys
           /\ IF contacts THEN answer' = sys /\ UNCHANGED cache
              ELSE IF cache # 0 THEN answer' = cache /\ UNCHANGED cache
              ELSE answer' = sys /\ cache' = IF Static THEN sys ELSE 0
Solve == /\ Room /\ Log("solve") /\ Solving /\ UNCHANGED <<kind, contacts, sys>>
Correct == /\ Room /\ Log("correct") /\ asked' = sys
           /\ answer' = IF contacts \/ cache = 0 THEN sys ELSE cache
           /\ UNCHANGED <<kind, contacts, sys, cache>>
Touch == /\ Room /\ ~contacts /\ Log("touch") /\ contacts' = TRUE
         /\ UNCHANGED <<kind, sys, cache, answer, asked>>
Part == /\ Room /\ contacts /\ Log("part") /\ contacts' = FALSE
        /\ UNCHANGED <<kind, sys, cache, answer, asked>>
\* a whole step: new velocities, then the bodies move, and with them joints that are not static
Step == /\ Room /\ Log("step") /\ Solving
        /\ sys' = IF Static THEN sys ELSE sys + 1
        /\ UNCHANGED <<kind, contacts>>

Next == Solve \/ Correct \/ Touch \/ Part \/ Step

RightAnswer == answer = asked
CacheCurrent == cache \in {0, sys}
Emit == Len(hist) = MaxOps /\ hist[MaxOps] \in {"solve", "correct", "step"} =>
            PrintT("BEH " \o ToJson([kind |-> kind, hist |-> hist]))
=============================================================================
