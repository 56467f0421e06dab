------------------------------ MODULE Recorder ------------------------------
(***************************************************************************)
(* The recorder: frame n falls due one interval after frame n - 1, the     *)
(* first one interval after the start.  It writes the next frame at each   *)
(* call at or after the time it is due.  Times are integers here; the      *)
(* judge asks the same of recorded times.                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS Intervals, Increments, MaxCalls

VARIABLES dt, t, frames,   \* the number of the call each frame shows
          hist             \* the times of the calls and the frames there are then
vars == <<dt, t, frames, hist>>

DueAt(n) == (n + 1) * dt
Init == dt \in Intervals /\ t = 0 /\ frames = <<>> /\ hist = <<>>
Call == /\ Len(hist) < MaxCalls
        /\ \E i \in Increments :
              /\ t' = t + i
              /\ frames' = IF t + i >= DueAt(Len(frames)) THEN Append(frames, Len(hist) + 1) ELSE frames
              /\ hist' = Append(hist, [t |-> t + i, frames |-> Len(frames')])
        /\ UNCHANGED dt
Next == Call

NeverEarly == Len(frames) * dt <= t
\* called at least once in every interval, it has all frames that are due
KeepsUp == (\A n \in 1..Len(hist) : hist[n].t - (IF n = 1 THEN 0 ELSE hist[n - 1].t) <= dt)
              => Len(frames) = t \div dt
Increasing == \A n \in 2..Len(frames) : frames[n - 1] < frames[n]
Emit == Len(hist) = MaxCalls => PrintT("BEH " \o ToJson([dt |-> dt, frames |-> frames, hist |-> hist]))
=============================================================================
