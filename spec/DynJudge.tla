------------------------------ MODULE DynJudge ------------------------------
(* Verdicts over recorded velocity updates (Dynamics.tla).  Where a law says *)
(* that impulses exist, the record brings them as witnesses, and the spec    *)
(* checks that they explain the new velocities.                              *)
EXTENDS Dynamics, Judge

Olds(r) == [i \in 1..Len(r.bodies) |-> r.bodies[i].v]
Abs3(v) == RMax(RAbs(v[1]), RMax(RAbs(v[2]), RAbs(v[3])))
\* the scale of speeds in an update: bodies and points of them at their reach
Rush(r, vs) ==
    SeqMax([i \in 1..Len(r.bodies) |->
        RMax(Abs3(vs[i]), RAbs(vs[i][1]) \otimes Reach(r.bodies[i]))])
Push(r, fs) ==
    LET ms == Masses(r.bodies, r.mats) IN
    SeqMax([i \in 1..Len(r.bodies) |->
        LET u == FreeVelocity(Zero3, ms[i], ForceOn(fs[i], r.mats[i], r.t), r.dt) IN Abs3(u)])
Scale(r) == R1 \oplus (Rush(r, Olds(r)) \oplus Rush(r, r.vs)) \oplus Push(r, r.forces)
\* r.acc: accuracy asked for, relative to the scale
Tol(r) == r.acc \otimes Scale(r)

\* Did the impulses lj (joints), ln and lt (contacts) and the forces bring the new velocities?
Residual(r, i, ms) ==
    LET given == Mul3(ms[i], Sub3(r.vs[i], r.bodies[i].v))
        force == VScale3(r.dt, ForceOn(r.forces[i], r.mats[i], r.t))
        js == Sum3([k \in 1..Len(r.joints) |-> JointWrench(r.joints[k], r.lj[k], i)])
        cs == Sum3([k \in 1..Len(r.contacts) |-> ContactWrench(r.contacts[k], r.ln[k], r.lt[k], i)]) IN
    Sub3(Sub3(given, force), Add3(js, cs))
Explained(r) ==
    LET ms == Masses(r.bodies, r.mats)  tol == Tol(r) IN
    /\ Len(r.lj) = Len(r.joints) /\ Len(r.ln) = Len(r.contacts) /\ Len(r.lt) = Len(r.contacts)
    /\ \A i \in 1..Len(r.bodies) : Near3(Residual(r, i, ms), Zero3, VScale3(tol, ms[i]))

PlaceTol(r) == RExp10(-9) \otimes Extent(r.post)
SameSize(r) == Len(r.vs) = Len(r.bodies) /\ \A i \in 1..Len(r.vs) : Len(r.vs[i]) = 3

(* --------------------------------------------------- D01: free bodies -- *)
Loose(r) == Apart(r.bodies, r.excl, r.gap)
            \ UNION {{r.joints[k].i1, r.joints[k].i2} : k \in 1..Len(r.joints)}
FreeVerdict(r) ==
    LET ms == Masses(r.bodies, r.mats)  free == Loose(r)
        tol == Tol(r) IN
    Clause("there is a velocity for every body", TRUE, SameSize(r))
    \cup Clause("a free body changes its velocity by force times time over mass", free # {},
                \A i \in free :
                    Near3(r.vs[i], FreeVelocity(r.bodies[i].v, ms[i], ForceOn(r.forces[i], r.mats[i], r.t), r.dt),
                          <<tol, tol, tol>>))
    \cup Clause("a free body moves by its new velocity", free # {} /\ ~r.corrected,
                \A i \in free :
                    \A c \in 1..3 : RNear(r.post[i].p[c], r.bodies[i].p[c] \oplus (r.vs[i][c] \otimes r.adv), PlaceTol(r)))
    \cup Clause("a body in company moves as it would alone", free # {} /\ r.alone # <<>>,
                \A k \in 1..Len(r.alone) :
                    r.alone[k].i \in free => Near3(r.vs[r.alone[k].i], r.alone[k].v, <<tol, tol, tol>>))

(* --------------------------------------------------------- D02: forces -- *)
\* groups of jointed bodies, free of contacts and of outside hold: the joints cancel out
Groups(r) ==
    LET ties == JointTies(r.joints)
        all == {Reached({i}, ties) : i \in 1..Len(r.bodies)} IN
    {g \in all : g \cap Held(r.joints) = {} /\ g \subseteq Apart(r.bodies, r.excl, r.gap)}
GroupForce(r, g) ==
    Sum3([i \in 1..Len(r.bodies) |-> IF i \in g THEN ForceOn(r.forces[i], r.mats[i], r.t) ELSE Zero3])
ForceVerdict(r) ==
    LET ms == Masses(r.bodies, r.mats)  groups == Groups(r)
        singles == {g \in groups : Cardinality(g) = 1 /\ \A k \in 1..Len(r.joints) :
                                    g \cap {r.joints[k].i1, r.joints[k].i2} = {}}
        tol == Tol(r)
        heavy == RSum([i \in 1..Len(ms) |-> ms[i][2]]) IN
    Clause("a body gathers the impulse of the sum of its forces at the clock of the step", singles # {},
           \A g \in singles : \A i \in g :
                Near3(Mul3(ms[i], Sub3(r.vs[i], r.bodies[i].v)),
                      VScale3(r.dt, ForceOn(r.forces[i], r.mats[i], r.t)), VScale3(tol, ms[i])))
    \cup Clause("a group of jointed bodies gathers the impulse of all forces on it", groups # singles,
           \A g \in groups \ singles :
                LET got == Sub3(Linear(ms, r.vs, g), Linear(ms, Olds(r), g))
                    due == VScale3(r.dt, GroupForce(r, g)) IN
                /\ RNear(got[2], due[2], tol \otimes heavy) /\ RNear(got[3], due[3], tol \otimes heavy))
    \cup Clause("a body without forces gathers no impulse", \E g \in singles : \A i \in g : r.forces[i] = <<>>,
           \A g \in singles : \A i \in g : r.forces[i] = <<>> => Near3(r.vs[i], r.bodies[i].v, <<tol, tol, tol>>))
\* the force functions themselves, at r.t
PlainVerdict(r) ==
    Clause("a force is its direction at that time times the multiplier", TRUE,
           \A k \in 1..Len(r.found) :
                Near3(r.found[k], ForceOf(r.forces[k], r.mat, r.t),
                      LET z == RExp10(-9) \otimes (R1 \oplus Abs3(r.found[k])) IN <<z, z, z>>))
    \cup Clause("the forces on a body add up", TRUE,
                Near3(r.sum, ForceOn(r.forces, r.mat, r.t),
                      LET z == RExp10(-9) \otimes (R1 \oplus SeqMax([k \in 1..(Len(r.found) + 1) |->
                                    IF k > Len(r.found) THEN R0 ELSE Abs3(r.found[k])])) IN <<z, z, z>>))

(* --------------------------------------------------------- D03: joints -- *)
JointsHold(r, tol) ==
    \A k \in 1..Len(r.joints) :
        LET rates == JointRates(r.joints[k], r.vs) IN
        \A c \in 1..Len(rates) : RNear(rates[c], R0, tol)
OldRates(r) == {RAbs(JointRates(r.joints[k], Olds(r))[1]) : k \in 1..Len(r.joints)}
JointVerdict(r) ==
    LET tol == Tol(r)
        some(S) == \E k \in 1..Len(r.joints) : r.joints[k].kind \in S
        hold(S) == \A k \in 1..Len(r.joints) :
                        r.joints[k].kind \in S =>
                            LET rates == JointRates(r.joints[k], r.vs) IN
                            \A c \in 1..Len(rates) : RNear(rates[c], R0, tol) IN
    Clause("bodies of a revolute joint have the same velocity at its anchor", some({"joint"}), hold({"joint"}))
    \cup Clause("bodies of a fixed joint move as one", some({"fixed"}), hold({"fixed"}))
    \cup Clause("a constrained coordinate has no velocity", some({"x", "y", "rot", "total"}),
                hold({"x", "y", "rot", "total"}))
    \cup Clause("joints hold when the old velocities violated them",
                \E x \in OldRates(r) : tol \prec x, JointsHold(r, tol))
    \cup Clause("joints hold next to contacts", r.contacts # <<>> /\ r.joints # <<>>, JointsHold(r, tol))

(* ----------------------------------------------------- D04: reactions -- *)
ReactionVerdict(r) ==
    Clause("momentum changes by forces and by reactions along the joints only",
           r.contacts = <<>> /\ r.joints # <<>>, Explained(r))
    \cup Clause("the update is the one closest to free motion among those the joints admit",
           r.contacts = <<>> /\ r.joints # <<>> /\ r.others # <<>>,
           LET ms == Masses(r.bodies, r.mats)
               free == [i \in 1..Len(ms) |-> FreeVelocity(r.bodies[i].v, ms[i], ForceOn(r.forces[i], r.mats[i], r.t), r.dt)]
               off(vs) == Kinetic(ms, [i \in 1..Len(ms) |-> Sub3(vs[i], free[i])]) IN
           \A k \in 1..Len(r.others) :
                off(r.vs) \preceq (off(r.others[k]) \otimes (R1 \oplus RExp10(-6)) \oplus RExp10(-6)))

(* --------------------------------------------------- D05, D06: contacts -- *)
Slack(r, c) == Parting(c, r.vs) \oplus (Bounce(c, r.mats) \otimes Parting(c, Olds(r)))
PushVerdict(r) ==
    LET tol == Tol(r) IN
    Clause("contacts separate by restitution", r.contacts # <<>>,
           \A k \in 1..Len(r.contacts) : RNeg(tol) \preceq Slack(r, r.contacts[k]))
    \cup Clause("impulses that push along the normals explain the new velocities", r.contacts # <<>>, Explained(r))
    \cup Clause("a contact pushes, and only where it does not separate faster", r.contacts # <<>>,
           \A k \in 1..Len(r.contacts) :
                /\ R0 \preceq r.ln[k]
                /\ (R2 \otimes tol) \prec Slack(r, r.contacts[k]) => REq(r.ln[k], R0))
    \cup Clause("without friction there is no tangential impulse (normal law)",
           \E k \in 1..Len(r.contacts) : REq(Rub(r.contacts[k], r.mats), R0),
           \A k \in 1..Len(r.contacts) : REq(Rub(r.contacts[k], r.mats), R0) => REq(r.lt[k], R0))
FrictionVerdict(r) ==
    LET tol == Tol(r)
        tiny(k) == RExp10(-9) \otimes (R1 \oplus RAbs(r.ln[k]))
        mu(k) == Rub(r.contacts[k], r.mats)
        slide(k) == Sliding(r.contacts[k], r.vs)
        cap(k) == mu(k) \otimes r.ln[k] IN
    Clause("impulses within Coulomb's law explain the new velocities", r.contacts # <<>>, Explained(r))
    \cup Clause("tangential impulses are at most friction times normal impulse", r.contacts # <<>>,
           \A k \in 1..Len(r.contacts) :
                R0 \preceq r.ln[k] /\ RAbs(r.lt[k]) \preceq (cap(k) \oplus tiny(k)))
    \cup Clause("where surfaces slide friction has full size and opposes", 
           \E k \in 1..Len(r.contacts) : (R2 \otimes tol) \prec RAbs(slide(k)),
           \A k \in 1..Len(r.contacts) :
                /\ (R2 \otimes tol) \prec slide(k) => RNear(r.lt[k], RNeg(cap(k)), tiny(k))
                /\ slide(k) \prec (RNeg(R2) \otimes tol) => RNear(r.lt[k], cap(k), tiny(k)))
    \cup Clause("without friction there is no tangential impulse", \E k \in 1..Len(r.contacts) : REq(mu(k), R0),
           \A k \in 1..Len(r.contacts) : REq(mu(k), R0) => REq(r.lt[k], R0))

(* ------------------------------------------------------- D07: momentum -- *)
Islands(r) ==
    LET ties == JointTies(r.joints) \cup ContactTies(r.contacts)
        all == {Reached({i}, ties) : i \in 1..Len(r.bodies)} IN
    {g \in all : g \cap Held(r.joints) = {} /\ \A i \in g : r.forces[i] = <<>>}
MomentumVerdict(r) ==
    LET ms == Masses(r.bodies, r.mats)  isles == Islands(r)
        tol == Tol(r)
        heavy == RSum([i \in 1..Len(ms) |-> ms[i][2]])
        whirl(q) == RSum([i \in 1..Len(ms) |-> ms[i][1] \oplus (ms[i][2] \otimes VDist(Pos(r.bodies[i]), q))])
        olds == Olds(r)
        points == {<<R0, R0>>, <<RInt(7), RInt(-3)>>} \cup {Pos(r.bodies[i]) : i \in 1..Len(ms)} IN
    Clause("linear momentum of isolated bodies is kept", isles # {},
           \A g \in isles :
                LET a == Linear(ms, olds, g)  b == Linear(ms, r.vs, g) IN
                RNear(a[2], b[2], tol \otimes heavy) /\ RNear(a[3], b[3], tol \otimes heavy))
    \cup Clause("linear momentum of isolated bodies with joints and contacts is kept",
           \E g \in isles : Cardinality(g) > 1,
           \A g \in isles :
                LET a == Linear(ms, olds, g)  b == Linear(ms, r.vs, g) IN
                RNear(a[2], b[2], tol \otimes heavy) /\ RNear(a[3], b[3], tol \otimes heavy))
    \cup Clause("angular momentum of isolated bodies is kept", isles # {},
           \A g \in isles : \A q \in points :
                \* surfaces rub on each other across the gap between them
                LET gaps == RSum([k \in 1..Len(r.contacts) |->
                                IF r.contacts[k].i1 \in g
                                THEN RAbs(r.contacts[k].pen) \otimes (Rub(r.contacts[k], r.mats) \otimes r.ln[k])
                                ELSE R0]) IN
                RNear(Angular(r.bodies, ms, olds, q, g), Angular(r.bodies, ms, r.vs, q, g),
                      (tol \otimes whirl(q)) \oplus ((R1 \oplus RExp10(-6)) \otimes gaps)))

(* --------------------------------------------------------- D08: energy -- *)
EnergyVerdict(r) ==
    LET ms == Masses(r.bodies, r.mats)
        olds == Olds(r)
        before == Kinetic(ms, olds)  after == Kinetic(ms, r.vs)
        tol == Tol(r)
        \* what an error of size tol in each velocity does
        room == RMul(tol, R1 \oplus RSum([i \in 1..Len(ms) |-> RDot(ms[i], <<RAbs(r.vs[i][1]), RAbs(r.vs[i][2]), RAbs(r.vs[i][3])>>)
                                                    \oplus RDot(ms[i], <<RAbs(olds[i][1]), RAbs(olds[i][2]), RAbs(olds[i][3])>>)]))
        quiet == \A i \in 1..Len(ms) : r.forces[i] = <<>>
        es == {r.mats[r.contacts[k].i1].e : k \in 1..Len(r.contacts)} \cup {r.mats[r.contacts[k].i2].e : k \in 1..Len(r.contacts)}
        dead == \A k \in 1..Len(r.contacts) : REq(Bounce(r.contacts[k], r.mats), R0)
        alike == \A x, y \in es : REq(x, y) /\ x \preceq R1
        smooth == \A k \in 1..Len(r.contacts) : REq(Rub(r.contacts[k], r.mats), R0)
        elastic == \A x \in es : REq(x, R1)
        consistent == \A k \in 1..Len(r.joints) :
                        LET rates == JointRates(r.joints[k], olds) IN
                        \A c \in 1..Len(rates) : RNear(rates[c], R0, RExp10(-9)) IN
    Clause("no energy without restitution", quiet /\ dead /\ r.contacts # <<>>, after \preceq (before \oplus room))
    \cup Clause("no energy from joints", quiet /\ r.contacts = <<>>, after \preceq (before \oplus room))
    \cup Clause("no energy from equal restitution without friction", quiet /\ alike /\ smooth /\ consistent /\ r.contacts # <<>>,
                after \preceq (before \oplus room))
    \cup Clause("full restitution without friction keeps the energy",
                quiet /\ elastic /\ smooth /\ consistent /\ r.contacts # <<>>, RNear(before, after, room))

(* ------------------------------------------------- S09: corrections -- *)
\* r.vs is the correction, r.bodies have the velocities it corrects
CorrectionVerdict(r) ==
    LET tol == Tol(r)  olds == Olds(r)
        ms == Masses(r.bodies, r.mats)
        due(c) == RNeg((R1 \ominus Bounce(c, r.mats)) \otimes Parting(c, olds))
        over(c) == Parting(c, r.vs) \ominus due(c)
        pull(i) == Sum3([k \in 1..Len(r.joints) |-> JointWrench(r.joints[k], r.lj[k], i)])
        press(i) == Sum3([k \in 1..Len(r.contacts) |-> ContactWrench(r.contacts[k], r.ln[k], R0, i)])
        still == /\ \A k \in 1..Len(r.joints) : \A c \in 1..Len(JointRates(r.joints[k], olds)) :
                        RNear(JointRates(r.joints[k], olds)[c], R0, RExp10(-12))
                 /\ \A k \in 1..Len(r.contacts) : due(r.contacts[k]) \preceq RExp10(-12) IN
    Clause("there is a correction for every body", TRUE, SameSize(r))
    \cup Clause("the correction cancels the velocity along the joints", r.joints # <<>>,
                \A k \in 1..Len(r.joints) :
                    LET a == JointRates(r.joints[k], r.vs)  b == JointRates(r.joints[k], olds) IN
                    \A c \in 1..Len(a) : RNear(a[c], RNeg(b[c]), tol))
    \cup Clause("the correction parts contacts by what restitution does not cover", r.contacts # <<>>,
                \A k \in 1..Len(r.contacts) : RNeg(tol) \preceq over(r.contacts[k]))
    \cup Clause("the correction is the least effort that does this", TRUE,
                /\ \A i \in 1..Len(ms) : Near3(Mul3(ms[i], r.vs[i]), Add3(pull(i), press(i)), VScale3(tol, ms[i]))
                /\ \A k \in 1..Len(r.contacts) :
                    /\ R0 \preceq r.ln[k]
                    /\ (R2 \otimes tol) \prec over(r.contacts[k]) => REq(r.ln[k], R0))
    \cup Clause("where everything is at rest there is no correction", still,
                \A i \in 1..Len(ms) : Near3(r.vs[i], Zero3, <<tol, tol, tol>>))

Verdict(r) ==
    CASE r.k = "free" -> FreeVerdict(r)
      [] r.k = "force" -> ForceVerdict(r)
      [] r.k = "plain" -> PlainVerdict(r)
      [] r.k = "joint" -> JointVerdict(r)
      [] r.k = "reaction" -> ReactionVerdict(r)
      [] r.k = "push" -> PushVerdict(r)
      [] r.k = "friction" -> FrictionVerdict(r)
      [] r.k = "momentum" -> MomentumVerdict(r)
      [] r.k = "energy" -> EnergyVerdict(r)
      [] r.k = "correction" -> CorrectionVerdict(r)
      [] r.k = "none" -> {}

Init == JudgeInit
Next == JudgeNext(Verdict)
=============================================================================
