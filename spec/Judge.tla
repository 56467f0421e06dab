------------------------------- MODULE Judge --------------------------------
(***************************************************************************)
(* Runs a verdict over every record of a recorded trace.  A verdict is a   *)
(* set of pairs <<clause, holds>>, one for each clause of the specification *)
(* that says something about the record.  Verdicts are total: a record that *)
(* breaks a clause is reported by name and the next one is judged.         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == JsonDeserialize(IOEnv.TRACE)

VARIABLES l,     \* the next record
          hits   \* how often each clause was exercised

jvars == <<l, hits>>

\* arguments are evaluated only as far as they are needed
Clause(name, guard, holds) == IF guard THEN {<<name, holds>>} ELSE {}

JudgeInit == l = 1 /\ hits = [x \in {} |-> 0]

Bump(h, names) ==
    [n \in DOMAIN h \cup names |->
        (IF n \in DOMAIN h THEN h[n] ELSE 0) + (IF n \in names THEN 1 ELSE 0)]

\* every record says what it is; "crash" is the implementation failing outright
Crash(r) == Clause("no exception, hang or lost contact callback",
                   TRUE, r.k # "crash")

Report(r, v) ==
    LET broken == {c[1] : c \in {x \in v : ~x[2]}} IN
    IF broken = {} THEN TRUE
    ELSE \A b \in broken : PrintT("BAD " \o ToString(l) \o " " \o b)

Finish(h) == \A n \in DOMAIN h : PrintT("HIT " \o ToString(h[n]) \o " " \o n)

JudgeRecord(v) ==
    /\ Report(Trace[l], v)
    /\ l' = l + 1
    /\ hits' = Bump(hits, {c[1] : c \in v})

JudgeNext(V(_)) ==
    \/ /\ l <= Len(Trace)
       /\ JudgeRecord(Crash(Trace[l]) \cup
                      IF Trace[l].k = "crash" THEN {} ELSE V(Trace[l]))
    \/ /\ l = Len(Trace) + 1
       /\ Finish(hits)
       /\ PrintT("DONE " \o ToString(Len(Trace)))
       /\ l' = l + 1
       /\ UNCHANGED hits
=============================================================================
