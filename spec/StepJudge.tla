------------------------------ MODULE StepJudge ------------------------------
(* Verdicts over recorded steps (Step.tla) and replayed behaviours (Stepper). *)
EXTENDS Step, Contacts, Judge

LOCAL Tol9 == RExp10(-9)
V(b) == b.v
Vs(bs) == [i \in 1..Len(bs) |-> bs[i].v]
Advance(r) == r.t2 \ominus r.t

PlaceTol(r) == RExp10(-9) \otimes Extent(r.post)

(* ---------------------------------------------- S01: time and movement -- *)
MoveVerdict(r) ==
    LET dt == Advance(r)
        k == Halvings(r.dt, dt)
        m == Margin(r.pre) IN
    Clause("bodies move by their new velocity times the advance of the clock", TRUE,
           /\ Len(r.pre) = Len(r.post)
           /\ \A i \in 1..Len(r.post) :
                \A c \in 1..3 : RNear(r.post[i].p[c], r.pre[i].p[c] \oplus (r.post[i].v[c] \otimes dt), PlaceTol(r)))
    \cup Clause("the clock advances by the time step or by it halved", TRUE, k # 99)
    \cup Clause("every longer trial of a retried step overlaps", k \in 1..40,
                \A j \in 0..(k - 1) :
                    ~ClearTo(Trial(r.pre, Vs(r.post), Halved(r.dt, j)), r.excl, r.tol \ominus m))
    \cup Clause("a step that was not given up ends without overlap",
                r.strict \/ (Half \otimes (Half \otimes r.dt)) \preceq dt,
                ClearTo(r.post, r.excl, r.tol \oplus m))

(* --------------------------------------------------------- S02: rollback -- *)
AngleOK(a, j, j2, bs, dt, tol) ==   \* the angles a joint keeps, where it shows them
    /\ Len(a) = Len(j2)
    /\ (Len(a) >= 1 /\ j.i1 # 0) => RNear(j2[1], a[1] \oplus (bs[j.i1].v[1] \otimes dt), tol)
    /\ (Len(a) >= 2 /\ j.i2 # 0) => RNear(j2[2], a[2] \oplus (bs[j.i2].v[1] \otimes dt), tol)
RollbackVerdict(r) ==
    LET dt == Advance(r)
        k == Halvings(r.dt, dt)
        vs == Vs(r.post)
        tol == PlaceTol(r) IN
    Clause("after retries bodies are where the accepted trial alone puts them", k \in 1..40,
           SamePlaces(r.post, Trial(r.pre, vs, dt), tol))
    \cup Clause("after retries joints are where the accepted trial alone puts them", k \in 1..40 /\ Len(r.prej) > 0,
                SameJoints(r.postj, [i \in 1..Len(r.prej) |-> MovedJoint(r.prej[i], r.pre, vs, dt)], tol))
    \cup Clause("after retries joint angles have advanced by the accepted time", k \in 1..40 /\ Len(r.prej) > 0,
                \A i \in 1..Len(r.prej) :
                    r.prej[i].kind = "joint" =>
                        AngleOK(r.prej[i].ang, r.prej[i], r.postj[i].ang, r.post, dt, tol))
    \cup Clause("without retries bodies and joints move once", k = 0,
                /\ SamePlaces(r.post, Trial(r.pre, vs, dt), tol)
                /\ SameJoints(r.postj, [i \in 1..Len(r.prej) |-> MovedJoint(r.prej[i], r.pre, vs, dt)], tol))
\* r.a stepped with retries, r.b asked for the accepted time at once
TwinVerdict(r) ==
    LET tol == RExp10(-9) \otimes Extent(r.a.bodies) IN
    Clause("a retried step ends like one asked for the accepted time at once", TRUE,
           /\ SamePlaces(r.a.bodies, r.b.bodies, tol)
           /\ \A i \in 1..Len(r.a.bodies) : SeqNear(r.a.bodies[i].v, r.b.bodies[i].v, tol)
           /\ SameJoints(r.a.joints, r.b.joints, tol)
           /\ \A i \in 1..Len(r.a.joints) : SeqNear(r.a.joints[i].ang, r.b.joints[i].ang, tol)
           /\ RNear(r.a.t, r.b.t, RExp10(-12)))
    \cup Clause("a retried step finds the contacts of the accepted configuration", TRUE,
                SameContacts(r.a.contacts, r.b.contacts, RExp10(-7) \otimes Extent(r.a.bodies)))

(* ------------------------------------- S03, S04: overlap, length of step -- *)
StrictVerdict(r) ==
    Clause("no pair that may touch overlaps at the end of a step", TRUE,
           ClearTo(r.post, r.excl, r.tol \oplus Margin(r.post)))

RetryVerdict(r) ==
    LET dt == Advance(r)  m == Margin(r.post)
        quarter == Half \otimes (Half \otimes r.dt)
        slack == R1 \oplus RExp10(-9) IN
    Clause("a lenient step is at least an eighth of the time step", ~r.strict,
           (Half \otimes quarter) \preceq (dt \otimes slack))
    \cup Clause("a lenient step gives up only below a quarter of the time step",
                ~r.strict /\ ~ClearTo(r.post, r.excl, r.tol \oplus m), dt \prec quarter)
    \cup Clause("a strict step takes no trial that overlaps", r.strict,
                ClearTo(r.post, r.excl, r.tol \oplus m))
    \cup Clause("a step is not shorter than the first trial that is acceptable", dt \prec (r.dt \oslash slack),
                ~ClearTo(Trial(r.pre, Vs(r.post), R2 \otimes dt), r.excl, r.tol \ominus m))

(* ------------------------------------------------------------ S05: views -- *)
ViewsVerdict(r) ==
    LET tol == RExp10(-9) \otimes Extent(r.bodies) IN
    Clause("the world's velocities are the bodies'", TRUE,
           /\ Len(r.wv) = 3 * Len(r.bodies)
           /\ \A i \in 1..Len(r.bodies) : \A c \in 1..3 :
                REq(r.wv[(3 * (i - 1)) + c], r.bodies[i].v[c]))
    \cup Clause("orientation and position are those of the generalized position", TRUE,
                \A i \in 1..Len(r.bodies) : SeqEq(r.rots[i] \o r.poss[i], r.bodies[i].p))
    \cup Clause("the collision proxy is where the body is", TRUE,
                \A i \in 1..Len(r.bodies) : VNear(r.proxies[i], Pos(r.bodies[i]), tol))
    \cup Clause("a rectangle's proxy is turned like it", \E i \in 1..Len(r.turns) : r.turns[i].rect,
                \A i \in 1..Len(r.turns) : r.turns[i].rect =>   \* up to half a turn
                    LET a == r.bodies[i].p[1] IN
                    RNear(VCross(r.turns[i].axis, <<RCos(a), RSin(a)>>), R0, RExp10(-6)))
    \cup Clause("assigned velocities and positions are taken over", r.assigned # <<>>,
                SeqEq(r.assigned, r.got))
    \cup Clause("after a step the contacts are those of the present configuration", r.stepped,
                SameContacts(r.contacts, r.again, RExp10(-7) \otimes Extent(r.bodies)))

(* ------------------------------------------------------------ S06: start -- *)
StartVerdict(r) ==
    LET m == Margin(r.bodies)
        clear == ClearTo(r.bodies, r.excl, r.tol \ominus m)
        clash == ~ClearTo(r.bodies, r.excl, r.tol \oplus m) IN
    Clause("a strict world without overlap starts", r.strict /\ clear, ~r.refused)
    \cup Clause("a strict world with overlap is refused", r.strict /\ clash, r.refused)
    \cup Clause("a lenient world starts in either case", ~r.strict, ~r.refused)

(* ------------------------------------------------------ S07: fixed steps -- *)
\* r.solves: what the engine was asked, as [t, dt, p, v]: clock, time, positions
FixedVerdict(r) ==
    LET n == Len(r.solves)
        target == r.t \oplus r.dt
        tiny == RExp10(-9) \otimes (R1 \oplus RAbs(target))
        End(i) == IF i = n THEN r.t2 ELSE r.solves[i + 1].t
        EndP(i) == IF i = n THEN r.p2 ELSE r.solves[i + 1].p IN
    Clause("a fixed step ends at its target time", TRUE, RNear(r.t2, target, tiny))
    \cup Clause("the first sub-step starts at the clock of the call", n > 0, RNear(r.solves[1].t, r.t, RExp10(-12)))
    \cup Clause("each sub-step asks for what is left to the target", n > 0,
                \A i \in 1..n : RNear(r.solves[i].dt, target \ominus r.solves[i].t, tiny))
    \cup Clause("sub-steps advance and do not pass the target", n > 0,
                \A i \in 1..n : r.solves[i].t \prec End(i) /\ End(i) \preceq (target \oplus tiny))
    \cup Clause("each sub-step takes what is left or halves it", n > 0,
                \A i \in 1..n : LET d == End(i) \ominus r.solves[i].t IN
                    d \preceq RExp10(-9) \/ Halvings(r.solves[i].dt, d) # 99)
    \cup Clause("each sub-step moves the bodies by its own velocities and time", n > 0,
                \A i \in 1..n : \A c \in 1..Len(r.p2) :
                    RNear(EndP(i)[c], r.solves[i].p[c] \oplus (r.solves[i].v[c] \otimes (End(i) \ominus r.solves[i].t)),
                          RExp10(-9) \otimes (R1 \oplus RAbs(r.p2[c]))))

(* ------------------------------------------------- S08: corrected steps -- *)
StabVerdict(r) ==
    LET dt == Advance(r)
        dp == [i \in 1..Len(r.pre) |-> r.dp[i]]
        acc == Trial(r.pre, r.newv, dt)
        half == [i \in 1..Len(r.pre) |-> VScale3(Half, r.dp[i])]
        tol == PlaceTol(r) IN
    Clause("a corrected step ends with the velocities the engine solved for", TRUE,
           \A i \in 1..Len(r.post) : SeqNear(r.post[i].v, r.newv[i], RExp10(-12)) /\ Len(r.post[i].v) = 3)
    \cup Clause("the correction is asked for at the accepted configuration", TRUE,
                SamePlaces(r.asked, acc, tol))
    \cup Clause("a correction moves bodies by half of it for the accepted time", TRUE,
                SamePlaces(r.post, Trial(acc, half, dt), tol))
    \cup Clause("joints follow a corrected step", Len(r.prej) > 0,
                LET j1 == [i \in 1..Len(r.prej) |-> MovedJoint(r.prej[i], r.pre, r.newv, dt)] IN
                SameJoints(r.postj, [i \in 1..Len(j1) |-> MovedJoint(j1[i], acc, half, dt)], tol))
    \cup Clause("after a correction the contacts are those of the present configuration", TRUE,
                SameContacts(r.contacts, r.again, RExp10(-7) \otimes Extent(r.post)))
    \cup Clause("a corrected step has the velocities and clock of an uncorrected one", r.hastwin,
                /\ RNear(r.t2, r.twint, RExp10(-12))
                /\ \A i \in 1..Len(r.post) : SeqNear(r.post[i].v, r.twinv[i], RExp10(-12)))

(* ------------------------------------------------------ replayed Stepper -- *)
ReplayVerdict(r) ==
    LET ends(s) == SelectSeq(s, LAMBDA e : e.op = "end")
        solves(s) == SelectSeq(s, LAMBDA e : e.op = "solve")
        corr(s) == SelectSeq(s, LAMBDA e : e.op = "correct") IN
    Clause("replayed protocol: clock, places and velocities at the end of each call", TRUE,
           ends(r.expected) = ends(r.found))
    \cup Clause("replayed protocol: what the engine is asked", TRUE, solves(r.expected) = solves(r.found))
    \cup Clause("replayed protocol: where corrections are asked for", r.post, corr(r.expected) = corr(r.found))
    \cup Clause("replayed protocol: contacts are those of the last configuration", TRUE, r.last = r.where)

Verdict(r) ==
    CASE r.k = "move" -> MoveVerdict(r)
      [] r.k = "rollback" -> RollbackVerdict(r)
      [] r.k = "twin" -> TwinVerdict(r)
      [] r.k = "strict" -> StrictVerdict(r)
      [] r.k = "retry" -> RetryVerdict(r)
      [] r.k = "views" -> ViewsVerdict(r)
      [] r.k = "start" -> StartVerdict(r)
      [] r.k = "fixed" -> FixedVerdict(r)
      [] r.k = "stab" -> StabVerdict(r)
      [] r.k = "replay" -> ReplayVerdict(r)
      [] r.k = "returns" ->
            Clause("a strict step that starts with a gap between all bodies returns",
                   ClearTo(r.pre, r.excl, RNeg(RExp10(-4))), r.returned)
      [] r.k = "none" -> {}

Init == JudgeInit
Next == JudgeNext(Verdict)
=============================================================================
