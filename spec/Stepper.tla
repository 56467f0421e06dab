------------------------------- MODULE Stepper -------------------------------
(***************************************************************************)
(* The stepping protocol of a world: a call of step solves for velocities, *)
(* tries to move for the whole time asked for, halves the time while the   *)
(* configuration tried overlaps, may correct positions, and advances the   *)
(* clock; with a fixed time step it goes on until the target is reached.   *)
(* One coordinate x stands for all positions.  The engine (velocities,     *)
(* corrections) and the geometry (which configurations overlap) are the    *)
(* environment: a configuration overlaps or not once and for all.          *)
(* Times and places are integers; DT is the world's time step.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS DT, Modes, Speeds, Corrections, MaxCalls, MaxRejects

VARIABLES mode,     \* [strict, post, fixed]
          pc, t, target, dt, x, v,
          x0,       \* where the present step started
          blocked, cleared,   \* configurations known to overlap, or not to
          rejects, calls,
          due,      \* where the bodies have to be by the velocities so far
          tried,    \* trials of the present step, longest first
          hist      \* the behaviour: solves and ends of calls

env == <<blocked, cleared>>
vars == <<mode, pc, t, target, dt, x, v, x0, blocked, cleared, rejects, calls, due, tried, hist>>

AllModes == [strict : BOOLEAN, post : BOOLEAN, fixed : BOOLEAN]
VariableModes == {m \in AllModes : ~m.fixed}
FixedModes == {m \in AllModes : m.fixed}
LenientModes == {m \in AllModes : ~m.strict}
SomeSpeeds == {1, -2}
OneSpeed == {3}
SomeCorrections == {0, 6}
NoCorrections == {0}

Init ==
    /\ mode \in Modes
    /\ pc = "idle" /\ t = 0 /\ target = 0 /\ dt = 0 /\ x = 0 /\ v = 0 /\ x0 = 0
    /\ blocked = {} /\ cleared = {0}
    /\ rejects = 0 /\ calls = 0 /\ due = 0 /\ tried = <<>>
    /\ hist = <<>>

Call ==
    /\ pc = "idle" /\ calls < MaxCalls
    /\ pc' = "solve" /\ calls' = calls + 1
    /\ target' = t + DT /\ dt' = DT
    /\ UNCHANGED <<mode, t, x, v, x0, env, rejects, due, tried, hist>>

\* the engine sees the clock, the time asked for and the present state
Solve ==
    /\ pc = "solve"
    /\ \E u \in Speeds :
          /\ v' = u
          /\ hist' = Append(hist, [op |-> "solve", t |-> t, dt |-> dt, x |-> x, v |-> u])
    /\ x0' = x /\ tried' = <<>>
    /\ pc' = "trial"
    /\ UNCHANGED <<mode, t, target, dt, x, env, rejects, calls, due>>

At(d) == x0 + v * d

Accept ==
    /\ x' = At(dt) /\ due' = due + v * dt
    /\ tried' = Append(tried, dt)
    /\ pc' = IF mode.post THEN "correct" ELSE "advance"
    /\ UNCHANGED <<mode, t, target, dt, v, x0, rejects, calls, hist>>

TrialClear ==
    /\ pc = "trial" /\ At(dt) \notin blocked
    /\ cleared' = cleared \cup {At(dt)}
    /\ Accept /\ UNCHANGED blocked

GivesUp == ~mode.strict /\ 4 * dt < DT

TrialGivenUp ==
    /\ pc = "trial" /\ At(dt) \notin cleared /\ GivesUp
    /\ blocked' = blocked \cup {At(dt)}
    /\ Accept /\ UNCHANGED cleared

TrialRejected ==
    /\ pc = "trial" /\ At(dt) \notin cleared /\ ~GivesUp
    /\ rejects < MaxRejects /\ dt % 2 = 0
    /\ blocked' = blocked \cup {At(dt)}
    /\ dt' = dt \div 2 /\ x' = x0
    /\ rejects' = rejects + 1 /\ tried' = Append(tried, dt)
    /\ UNCHANGED <<mode, pc, t, target, v, x0, cleared, calls, due, hist>>

\* half of the engine's correction, for the accepted time; velocities stay
Correct ==
    /\ pc = "correct"
    /\ \E c \in Corrections :
          /\ x' = x + (c \div 2) * dt /\ due' = due + (c \div 2) * dt
          /\ hist' = Append(hist, [op |-> "correct", t |-> t, dt |-> dt, x |-> x, v |-> c])
    /\ pc' = "advance"
    /\ UNCHANGED <<mode, t, target, dt, v, x0, env, rejects, calls, tried>>

Advance ==
    /\ pc = "advance"
    /\ t' = t + dt
    /\ IF mode.fixed /\ t + dt < target
       THEN pc' = "solve" /\ dt' = target - (t + dt) /\ hist' = hist
       ELSE pc' = "idle" /\ dt' = dt /\
            hist' = Append(hist, [op |-> "end", t |-> t + dt, dt |-> dt, x |-> x, v |-> v])
    /\ UNCHANGED <<mode, target, x, v, x0, env, rejects, calls, due, tried>>

Next == Call \/ Solve \/ TrialClear \/ TrialGivenUp \/ TrialRejected \/ Correct \/ Advance
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Finished == pc = "idle" /\ calls = MaxCalls

(* Invariants: the properties of stepping, on the design.                  *)
InTime == t <= target
FixedArrives == pc = "idle" /\ calls > 0 /\ mode.fixed => t = target
AdvancesAtMost == pc = "idle" /\ calls > 0 => t <= target
Accounted == pc \in {"idle", "solve", "correct", "advance"} => x = due   \* S01
NothingLeft == pc = "trial" => x = x0                                    \* S02
StrictClear == mode.strict /\ pc \in {"correct", "advance"} => At(dt) \in cleared   \* S03, S04
LongestClear ==   \* the longest acceptable trial is taken
    pc \in {"correct", "advance"} => \A i \in 1..(Len(tried) - 1) : At(tried[i]) \in blocked
LenientBound ==   \* S04
    ~mode.strict /\ pc \in {"correct", "advance"} => 8 * dt >= DT \/ tried = <<dt>>
LenientTrials == ~mode.strict => Len(tried) <= 4
Progress == pc = "advance" => dt > 0
Returns == <>Finished   \* of lenient worlds, S04

Emit == Finished => PrintT("BEH " \o ToJson([mode |-> mode, rejects |-> rejects, hist |-> hist,
                                            blocked |-> blocked]))
=============================================================================
