------------------------------ MODULE BodyJudge ------------------------------
(* Verdicts over bodies: mass properties, rigidity, equivalent descriptions. *)
EXTENDS Bodies, Judge

Tol9 == RExp10(-9)
Tol8 == RExp10(-8)

\* r.M is the 3 x 3 mass matrix, r.p where the body is, r.vs its vertices, both
\* as the code has them; r.given the vertices as given, r.ref the reference point
MassMatrix(M, inertia, m, tol) ==
    /\ Len(M) = 3
    /\ \A i, j \in 1..3 :
          RClose(M[i][j], IF i # j THEN R0 ELSE IF i = 1 THEN inertia ELSE m, tol)

MassVerdict(r) ==
    CASE r.kind = "circle" ->
            Clause("inertia of a disc", TRUE, MassMatrix(r.M, CircleInertia(r.r, r.mass), r.mass, Tol9))
            \cup Clause("a circle is where it is put", TRUE, SeqNear(r.p, r.given, R0))
      [] r.kind = "rect" ->
            Clause("inertia of a rectangle", TRUE,
                   MassMatrix(r.M, RectInertia(r.w, r.h, r.mass), r.mass, Tol9))
            \cup Clause("inertia of a rectangle is that of the hull with its corners", TRUE,
                        RClose(r.M[1][1], HullInertia(r.vs, r.mass), Tol9))
            \cup Clause("a rectangle is where it is put", TRUE, SeqNear(r.p, r.given, Tol9))
            \cup Clause("a rectangle has its corners", TRUE,
                        LET hw == Half \otimes r.w  hh == Half \otimes r.h
                            c == << <<hw, hh>>, <<RNeg(hw), hh>>, <<RNeg(hw), RNeg(hh)>>, <<hw, RNeg(hh)>> >> IN
                        /\ Len(r.vs) = 4
                        /\ \A i \in 1..4 : \E j \in 1..4 : VNear(r.vs[j], Turn(r.p[1], c[i]), Tol9))
      [] r.kind = "hull" ->
            LET com == CenterOfMass(r.given)
                size == R1 \oplus RMaxAbs([i \in 1..Len(r.given) |-> RMaxAbs(r.given[i])])
                tol == Tol9 \otimes (size \otimes size) IN
            Clause("a hull is at its center of mass", TRUE,
                   /\ VNear(<<r.p[2], r.p[3]>>, VAdd(r.ref, com), tol) /\ REq(r.p[1], R0))
            \cup Clause("a hull's vertices are the given ones, seen from its center", TRUE,
                   /\ Len(r.vs) = Len(r.given)
                   /\ \A i \in 1..Len(r.vs) : VNear(r.vs[i], VSub(r.given[i], com), tol))
            \cup Clause("a hull's inertia is that of a uniform polygon about its center", TRUE,
                   MassMatrix(r.M, HullInertia(r.given, r.mass), r.mass, tol))

(* A body after some motion, against the body as it was made.             *)
RigidVerdict(r) ==
    LET a == r.start  b == r.now
        tol == Tol8 \otimes (R1 \oplus Reach(a))
        d == b.p[1] \ominus a.p[1] IN
    Clause("vertices are the first ones turned by the orientation", a.kind = "h",
           /\ Len(a.vs) = Len(b.vs)
           /\ \A i \in 1..Len(a.vs) : VNear(b.vs[i], Turn(d, a.vs[i]), tol))
    \cup Clause("a circle keeps its radius", a.kind = "c", REq(a.r, b.r))
    \cup Clause("mass and inertia never change", TRUE, r.startM = r.nowM)

SameBody(a, b, tol) ==
    /\ a.kind = b.kind
    /\ SeqClose(a.p, b.p, tol) /\ SeqClose(a.v, b.v, tol)
    /\ IF a.kind = "c" THEN RClose(a.r, b.r, tol)
       ELSE Len(a.vs) = Len(b.vs) /\ \A i \in 1..Len(a.vs) : SeqClose(a.vs[i], b.vs[i], tol)
    /\ \A f \in {"I", "m", "e", "mu"} : RClose(a.matter[f], b.matter[f], tol)

Verdict(r) ==
    CASE r.k = "mass" -> MassVerdict(r)
      [] r.k = "rigid" -> RigidVerdict(r)
      [] r.k = "forms" ->
            Clause("the same body in another form", TRUE,
                   SameBody(r.ref, r.got, IF r.single THEN RExp10(-5) ELSE RExp10(-12)))
            \cup Clause("numbers take the type of the tensors given", TRUE, r.types = <<r.want>>)
            \cup Clause("arguments are not modified", TRUE, r.kept = TRUE)
      [] r.k = "refused" ->
            Clause("vertices in the wrong direction or fewer than three are refused", TRUE, r.raised = r.expected)
      [] r.k = "grad" ->
            Clause("parameters given as tensors stay connected", TRUE,
                   /\ r.connected
                   /\ RNear(r.grad, r.diff, RExp10(-5) \otimes (R1 \oplus RAbs(r.diff))))

Init == JudgeInit
Next == JudgeNext(Verdict)
=============================================================================
