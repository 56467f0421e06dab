------------------------------ MODULE RunLoop -------------------------------
(***************************************************************************)
(* Running a world: it is stepped while its clock is short of the run      *)
(* time.  With a screen, a state is shown if it is to be recorded or an    *)
(* animation interval has gone by, on the wall's clock, from one step      *)
(* after which a state was shown to this one; unless it is recorded, the   *)
(* loop then waits until the wall's clock has caught up with the world's.  *)
(* A step takes as long as the environment likes, and the window may be    *)
(* closed in any step.  All times are integers.                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS DT, RunTimes, Animations, Costs, Kinds, Closings

VARIABLES run, kind,    \* "bare", "screen", "recorder", "batch" (which has no screen)
          anim, close,  \* the step in which the window is closed, 0 for none
          t, wall, n,   \* clocks, number of steps
          shownat,      \* when the step began after which a state was shown last
          over, hist
vars == <<run, kind, anim, close, t, wall, n, shownat, over, hist>>

Init == /\ run \in RunTimes /\ kind \in Kinds /\ anim \in Animations /\ close \in Closings
        /\ (kind \in {"bare", "batch"} => close = 0 /\ anim = CHOOSE a \in Animations : TRUE)
        /\ t = 0 /\ wall = 0 /\ n = 0 /\ shownat = 0 - anim /\ over = (run <= 0) /\ hist = <<>>

Seen == kind \in {"screen", "recorder"}
Shows == kind = "recorder" \/ wall - shownat >= anim
Step == /\ ~over
        /\ \E c \in Costs :
              LET closed == Seen /\ close = n + 1
                  shown == Seen /\ ~closed /\ Shows
                  waits == kind = "screen" /\ ~closed
                  after == IF waits /\ t + DT > wall + c THEN t + DT ELSE wall + c IN
              /\ t' = t + DT /\ n' = n + 1 /\ wall' = after
              /\ shownat' = IF shown THEN wall ELSE shownat
              /\ over' = (closed \/ t + DT >= run)
              /\ hist' = Append(hist, [cost |-> c, began |-> wall, shown |-> shown, ended |-> after])
        /\ UNCHANGED <<run, kind, anim, close>>
Next == Step

\* the properties of the loop
EndsInTime == over /\ ~(Seen /\ close = n /\ n > 0) => t >= run /\ (n > 0 => t - DT < run)
NotAhead == kind = "screen" /\ ~(over /\ close = n) => wall >= t
AllRecorded == kind = "recorder" => \A i \in 1..n : hist[i].shown \/ i = close
NoneSeen == ~Seen => \A i \in 1..n : ~hist[i].shown
Paced == kind = "screen" =>
            \A i, j \in 1..n : i < j /\ hist[i].shown /\ hist[j].shown => hist[j].began - hist[i].began >= anim
Emit == over => PrintT("BEH " \o ToJson([run |-> run, kind |-> kind, anim |-> anim, close |-> close, hist |-> hist]))
=============================================================================
