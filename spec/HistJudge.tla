------------------------------ MODULE HistJudge ------------------------------
(* Verdicts over histories: what is held stays, anchors follow, engines       *)
(* forget, laws are the same everywhere, worlds do not know of each other.    *)
EXTENDS Dynamics, Symmetry, Judge

Tol9 == RExp10(-9)

(* ------------------------------------------------ D09: held coordinates -- *)
\* r.joints: of the start; r.track[n][i]: position of body i after n steps
Coords(kind) == CASE kind = "x" -> {2} [] kind = "y" -> {3} [] kind = "rot" -> {1} [] kind = "total" -> {1, 2, 3} [] OTHER -> {}
HeldCoords(r) == {<<r.joints[k].i1, c>> : k \in 1..Len(r.joints), c \in 1..3} \cap
                 UNION {{<<r.joints[k].i1, c>> : c \in Coords(r.joints[k].kind)} : k \in 1..Len(r.joints)}
HoldVerdict(r) ==
    LET held == HeldCoords(r)  n == Len(r.track)
        tol(h) == RExp10(-7) \otimes (R1 \oplus RAbs(r.track[1][h[1]][h[2]])) IN
    Clause("a held coordinate keeps its value", held # {},
           \A h \in held : \A k \in 1..n : RNear(r.track[k][h[1]][h[2]], r.track[1][h[1]][h[2]], tol(h)))
    \cup Clause("a body that is held is still pushed in its other coordinates", r.loose # <<>>,
           \* r.loose: bodies under constraints only, in no contact: [i, v2, v, f, m3, dt]
           \A k \in 1..Len(r.loose) :
                LET b == r.loose[k]
                    m3 == Mass3(b.body, b.mat)
                    want == FreeVelocity(b.body.v, m3, ForceOn(b.forces, b.mat, b.t), b.dt) IN
                \A c \in 1..3 : <<b.i, c>> \notin held =>
                    RNear(b.v2[c], want[c], RExp10(-8) \otimes (R1 \oplus RAbs(want[c]))))

(* -------------------------------------------------------- D10: anchors -- *)
\* r.states[n] = [p, w, joints, dt]: positions of the bodies, their spins during the step that led here
\* and its length
RECURSIVE Sway(_, _, _, _)
\* how far the second body's own anchor may have come away after state n
Sway(r, k, n, j0) ==
    IF n = 1 THEN R0
    ELSE LET s == r.states[n]
             th1 == s.w[j0.i1] \otimes s.dt
             th2 == s.w[j0.i2] \otimes s.dt
             sq(x) == x \otimes x IN
         (Sway(r, k, n - 1, j0) \otimes RSqrt(R1 \oplus sq(th2)))
            \oplus (Half \otimes ((sq(th1) \otimes VNorm(j0.a1)) \oplus (sq(th2) \otimes VNorm(j0.a2))))
P2(p) == <<p[2], p[3]>>
AnchorVerdict(r) ==
    LET n == Len(r.states)  s0 == r.states[1]  js0 == s0.joints
        size == R1 \oplus SeqMax([i \in 1..Len(r.states[n].p) |-> RMax(VNorm(P2(r.states[n].p[i])), VNorm(P2(s0.p[i])))])
        tol == RExp10(-8) \otimes size
        some(kind) == \E k \in 1..Len(js0) : js0[k].kind = kind
        turned(s, i) == s.p[i][1] \ominus s0.p[i][1] IN
    Clause("an anchor is a point of its first body, carried along", some("joint"),
           \A q \in 1..n : \A k \in 1..Len(js0) : js0[k].kind = "joint" =>
                LET s == r.states[q]  j0 == js0[k]  j == s.joints[k] IN
                /\ VNear(j.a1, Turn(turned(s, j0.i1), j0.a1), tol)
                /\ VNear(j.pos, VAdd(P2(s.p[j0.i1]), j.a1), tol))
    \cup Clause("the anchor of a fixed joint is the center of its first body", some("fixed"),
           \A q \in 1..n : \A k \in 1..Len(js0) : js0[k].kind = "fixed" =>
                LET s == r.states[q] IN VNear(s.joints[k].pos, P2(s.p[js0[k].i1]), tol) /\ VNear(s.joints[k].a1, <<R0, R0>>, tol))
    \cup Clause("lever arms lead from the bodies to the anchor", some("joint") \/ some("fixed"),
           \A q \in 1..n : \A k \in 1..Len(js0) : Anchored(js0[k]) =>
                LET s == r.states[q]  j == s.joints[k] IN
                /\ VNear(VAdd(P2(s.p[j.i1]), j.a1), j.pos, tol)
                /\ j.i2 # 0 => VNear(VAdd(P2(s.p[j.i2]), j.a2), j.pos, tol))
    \cup Clause("the second body keeps the anchor up to the error of the time step",
                ~r.corrected /\ \E k \in 1..Len(js0) : Anchored(js0[k]) /\ js0[k].i2 # 0,
           \A k \in 1..Len(js0) : (Anchored(js0[k]) /\ js0[k].i2 # 0) =>
                \A q \in {n, (n + 1) \div 2} :
                    LET s == r.states[q]  j0 == js0[k] IN
                    VDist(s.joints[k].a2, Turn(turned(s, j0.i2), j0.a2)) \preceq (Sway(r, k, q, j0) \oplus (RExp10(-5) \otimes size)))
    \cup Clause("a fixed joint keeps the angle between its bodies", some("fixed") /\ ~r.corrected,
           \A q \in 1..n : \A k \in 1..Len(js0) : js0[k].kind = "fixed" =>
                RNear(turned(r.states[q], js0[k].i1), turned(r.states[q], js0[k].i2), RExp10(-6)))
    \cup Clause("a pinned body keeps its pin up to the error of the time step",
                ~r.corrected /\ \E k \in 1..Len(js0) : js0[k].kind = "joint" /\ js0[k].i2 = 0,
           \A k \in 1..Len(js0) : (js0[k].kind = "joint" /\ js0[k].i2 = 0) =>
                LET j0 == js0[k]
                    drift == RSum([q \in 1..n |-> IF q = 1 THEN R0 ELSE
                                LET th == r.states[q].w[j0.i1] \otimes r.states[q].dt IN
                                (Half \otimes (th \otimes th)) \otimes VNorm(j0.a1)]) IN
                VDist(r.states[n].joints[k].pos, j0.pos) \preceq (drift \oplus (RExp10(-5) \otimes size)))

(* -------------------------------------------------- D11: engine memory -- *)
MemoryVerdict(r) ==
    LET scale(s) == RExp10(-7) \otimes (R1 \oplus SeqMax([k \in 1..(Len(s) + 1) |-> IF k > Len(s) THEN R0 ELSE RAbs(s[k])])) IN
    Clause("a used engine computes the velocities a fresh one does", TRUE,
           SeqNear(r.used, r.fresh, scale(r.fresh)))
    \cup Clause("a used engine computes the corrections a fresh one does", r.usedc # <<>>,
           SeqNear(r.usedc, r.freshc, scale(r.freshc)))
    \cup Clause("a step takes the velocities a fresh engine computes", r.after # <<>>,
           SeqNear(r.after, r.fresh, scale(r.fresh)))

(* ------------------------------------------------------ D12: symmetry -- *)
\* r.a: contacts, velocities after the step and clock of the scene; r.b: of the moved one
MovedVerdict(r) ==
    LET m == r.motion  n == Len(r.a.v)
        big == R1 \oplus SeqMax([i \in 1..n |-> RMax(RAbs(r.a.v[i][1]), RMax(RAbs(r.a.v[i][2]), RAbs(r.a.v[i][3])))])
        tol == RExp10(-5) \otimes big
        image == [k \in 1..Len(r.a.contacts) |-> MoveContact(m, r.perm, r.a.contacts[k])] IN
    Clause("contacts move with the scene", TRUE,
           SameContacts(image, r.b.contacts, RExp10(-7) \otimes r.size))
    \cup Clause("velocities after a step move with the scene", TRUE,
           /\ Len(r.b.v) = n
           /\ \A i \in 1..n : SeqNear(r.b.v[r.perm[i]], MoveVel(m, r.a.v[i]), tol))
    \cup Clause("positions after a step move with the scene", TRUE,
           \A i \in 1..n : VNear(P2(r.b.p[r.perm[i]]), MovePt(m, P2(r.a.p[i])), tol \oplus (RExp10(-7) \otimes r.size)))
    \cup Clause("a step of a moved scene takes as long", TRUE, RNear(r.a.t, r.b.t, RExp10(-9)))

(* ------------------------------------------------- D13: independence -- *)
\* the same world stepped alone and in company: r.alone[n], r.mixed[n] = [p, v, t]
TwinVerdict(r) ==
    LET scale(s) == RExp10(-6) \otimes (R1 \oplus SeqMax([k \in 1..Len(s) |-> RAbs(s[k])])) IN
    Clause(r.clause, TRUE,
           /\ Len(r.alone) = Len(r.mixed)
           /\ \A n \in 1..Len(r.alone) :
                /\ SeqNear(r.alone[n].p, r.mixed[n].p, scale(r.alone[n].p))
                /\ SeqNear(r.alone[n].v, r.mixed[n].v, scale(r.alone[n].v))
                /\ RNear(r.alone[n].t, r.mixed[n].t, RExp10(-9)))

Verdict(r) ==
    CASE r.k = "hold" -> HoldVerdict(r)
      [] r.k = "anchor" -> AnchorVerdict(r)
      [] r.k = "memory" -> MemoryVerdict(r)
      [] r.k = "moved" -> MovedVerdict(r)
      [] r.k = "twin" -> TwinVerdict(r)
      [] r.k = "none" -> {}

Init == JudgeInit
Next == JudgeNext(Verdict)
=============================================================================
