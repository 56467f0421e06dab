----------------------------- MODULE LearnJudge -----------------------------
(***************************************************************************)
(* Judges recorded learning loops against Descent.tla with the losses and  *)
(* optimizers of the experiments, and the scene and the runs of the        *)
(* inference experiment.                                                   *)
(***************************************************************************)
EXTENDS Geom, FiniteSets, Judge

----------------------------------------------------------------------------
(* A loop.  r.truth: what is to be reached; r.iters[k]: [param, pred, jac, *)
(* shown], the parameters of a run, what came of it, its derivative by     *)
(* each parameter (if it is known) and the gradient the loop found (if it  *)
(* can be seen); r.final: the parameters in the end.                       *)
Errors(r, it) == LET m == IF Len(it.pred) < Len(r.truth) THEN Len(it.pred) ELSE Len(r.truth) IN
                 [i \in 1..m |-> it.pred[i] \ominus r.truth[i]]
Loss(r, it) == LET e == Errors(r, it) IN
               IF r.loss = "mse" THEN RDot(e, e) \oslash RInt(Len(e)) ELSE RSqrt(RDot(e, e))
\* by parameter k
Slope(r, it, k) == LET e == Errors(r, it)  d == RDot(e, SubSeq(it.jac[k], 1, Len(e))) IN
                   IF r.loss = "mse" THEN (R2 \otimes d) \oslash RInt(Len(e)) ELSE d \oslash Loss(r, it)
Known(it) == Len(it.jac) > 0
Seen(it) == Len(it.shown) > 0
Grad(r, it) == IF Seen(it) THEN it.shown ELSE [k \in 1..Len(it.jac) |-> Slope(r, it, k)]

\* RMSprop as in torch.optim: a running mean of squared gradients scales the step
Mean(old, g) == (RRat(99, 100) \otimes old) \oplus (RRat(1, 100) \otimes (g \otimes g))
RECURSIVE MeanR(_, _, _)
MeanR(r, k, j) == IF k = 0 THEN R0 ELSE Mean(MeanR(r, k - 1, j), Grad(r, r.iters[k])[j])
RECURSIVE PowR(_, _)
PowR(x, k) == IF k = 0 THEN R1 ELSE x \otimes PowR(x, k - 1)
\* iteration k may name its mean: it then has to follow from that of the iteration before
Named(r, k) == k > 0 /\ Len(r.iters[k].mean) > 0
MeanAt(r, k, j) == IF k = 0 THEN R0 ELSE IF Named(r, k) THEN r.iters[k].mean[j] ELSE MeanR(r, k, j)
MeanHolds(r, k, j) == Named(r, k) => LET m == Mean(MeanAt(r, k - 1, j), Grad(r, r.iters[k])[j]) IN
                                     RNear(r.iters[k].mean[j], m, RExp10(-10) \otimes m)
Change(r, k, j) ==
    LET g == Grad(r, r.iters[k])[j] IN
    IF r.rule = "rmsprop" THEN (r.rate \otimes g) \oslash (RSqrt(MeanAt(r, k, j)) \oplus RExp10(-8))
    ELSE (r.rate \otimes PowR(r.decay, k - 1)) \otimes g
After(r, k) == IF k < Len(r.iters) THEN r.iters[k + 1].param ELSE r.final
HasAfter(r, k) == k < Len(r.iters) \/ r.ended
GradsKnown(r, k) == \A i \in (IF Len(r.iters[k].mean) > 0 THEN {k} ELSE 1..k) : Known(r.iters[i]) \/ Seen(r.iters[i])

Settled(r, k, slack) == (RAbs(Loss(r, r.iters[k]) \ominus Loss(r, r.iters[k - 1])) \oplus slack) \prec r.stop
Slack(r, k) == RExp10(-12) \otimes (r.stop \oplus Loss(r, r.iters[k]))
LoopClauses(r) ==
    LET N == Len(r.iters) IN
    UNION {LET it == r.iters[k] IN
           Clause("the gradient is that of this iteration's loss", Known(it) /\ Seen(it),
                  \A j \in 1..Len(it.jac) : RNear(it.shown[j], Slope(r, it, j), r.acc \otimes (R1 \oplus RAbs(Slope(r, it, j)))))
           \cup Clause("the parameters move as the optimizer has it for the gradients so far", HasAfter(r, k) /\ GradsKnown(r, k),
                  \A j \in 1..Len(it.param) :
                     /\ MeanHolds(r, k, j)
                     /\ RNear(After(r, k)[j], it.param[j] \ominus Change(r, k, j),
                           RExp10(-9) \otimes (R1 \oplus RAbs(it.param[j]) \oplus RAbs(Change(r, k, j)))))
           \cup Clause("they move against the gradient", HasAfter(r, k) /\ Seen(it),
                  \A j \in 1..Len(it.param) :
                     /\ (RExp10(-6) \prec it.shown[j] => After(r, k)[j] \preceq it.param[j])
                     /\ (it.shown[j] \prec RExp10(-6) \otimes RInt(-1) => it.param[j] \preceq After(r, k)[j]))
           \cup Clause("the loop goes on while the loss changes", k > 1 /\ k < N, ~Settled(r, k, Slack(r, k)))
           : k \in 1..N}
    \cup Clause("the loop ends when the loss has settled or the iterations are used up", r.ended,
                N = r.max \/ (N > 1 /\ Settled(r, N, RNeg(Slack(r, N)))))
    \cup Clause("there are no more iterations than allowed", TRUE, N >= 1 /\ N <= r.max)
    \cup Clause("the loop is a behaviour of the model", r.beh > 0, N = r.beh /\ r.ended)
    \cup Clause("what is run in the end has the parameters of the last update", r.ended /\ Len(r.lastrun) > 0,
                SeqEq(r.lastrun, r.final))

----------------------------------------------------------------------------
(* The chain of the inference experiment and the projectile.  r.mass: the  *)
(* total mass; r.n: the number of links; r.bodies: all bodies, the links   *)
(* first; r.masses, r.shares: their masses and the derivatives of these by *)
(* the total mass; r.joints: [i1, i2, pos], i2 = 0 for the background.     *)
Near9(a, b) == RNear(a, b, RExp10(-9) \otimes (R1 \oplus RAbs(b)))
Dangling(r) == \A i \in 1..r.n :
    \E k \in 1..Len(r.joints) :
        LET j == r.joints[k] IN
        /\ {j.i1, j.i2} = {i, i - 1}
        /\ \A m \in {j.i1, j.i2} \ {0} : Inside(Corners(r.bodies[m]), j.pos)
SceneClauses(r) ==
    Clause("the links and the projectile are there", TRUE, Len(r.bodies) = r.n + 1 /\ r.bodies[r.n + 1].kind = "c")
    \cup Clause("the links share the mass equally", TRUE,
                \A i \in 1..r.n : Near9(r.masses[i], r.mass \oslash RInt(r.n)))
    \cup Clause("the mass of the links is a function of the total mass", TRUE,
                \A i \in 1..r.n : Near9(r.shares[i], R1 \oslash RInt(r.n)))
    \cup Clause("every link hangs on the one before, the first on the background", TRUE,
                Len(r.joints) = r.n /\ Dangling(r))
    \cup Clause("the projectile is level with the last link", TRUE, Near9(r.bodies[r.n + 1].p[3], r.bodies[r.n].p[3]))
    \cup Clause("neighbours do not collide", TRUE,
                \A k \in 1..Len(r.touching) : r.touching[k][2] # r.touching[k][1] + 1 \/ r.touching[k][2] > r.n)

(* A run: r.states, what is returned; r.hand: the poses of stepping by hand, *)
(* with the world's clock; r.until: the run time.                            *)
RunClauses(r) ==
    Clause("a run returns the poses before and after every step", TRUE,
           /\ Len(r.states) = Len(r.hand)
           /\ \A k \in 1..Len(r.states) : k <= Len(r.hand) => SeqEq(r.states[k], r.hand[k].p))
    \cup Clause("a run ends when the time is up", Len(r.states) <= Len(r.hand),
                LET N == Len(r.states) IN
                /\ N >= 1 /\ r.until \preceq r.hand[N].t
                /\ \A k \in 1..(N - 1) : r.hand[k].t \prec r.until)
    \cup Clause("the picture follows the run", r.screen, r.shown >= 1)

Verdict(r) ==
    CASE r.k = "loop" -> LoopClauses(r)
      [] r.k = "scene" -> SceneClauses(r)
      [] r.k = "run" -> RunClauses(r)
      [] OTHER -> {}
Init == JudgeInit
Next == JudgeNext(Verdict)
=============================================================================
