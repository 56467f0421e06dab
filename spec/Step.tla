-------------------------------- MODULE Step --------------------------------
(***************************************************************************)
(* One step of a world over the reals.  Between the solution for new       *)
(* velocities and the end of the step, the bodies are moved, so that the   *)
(* configuration tried for the time dt is a function of the state before   *)
(* the step and the new velocities.  dt is the longest of the time asked   *)
(* for, its half, its quarter, ... whose configuration is acceptable.      *)
(***************************************************************************)
EXTENDS Geom

\* a body that moves with velocity v = <<spin, x, y>> for the time dt
Moved(b, v, dt) == MoveBody(b, <<v[1] \otimes dt, v[2] \otimes dt, v[3] \otimes dt>>)
Trial(bs, vs, dt) == [i \in 1..Len(bs) |-> Moved(bs[i], vs[i], dt)]

\* pairs of bodies that may touch
Couples(bs, excl) ==
    {p \in (1..Len(bs)) \X (1..Len(bs)) :
        p[1] < p[2] /\ \A k \in 1..Len(excl) : {excl[k][1], excl[k][2]} # {p[1], p[2]}}

\* nothing overlaps by more than depth
ClearTo(bs, excl, depth) ==
    \A p \in Couples(bs, excl) : RNeg(depth) \preceq Sep(bs[p[1]], bs[p[2]])

Extent(bs) == R1 \oplus SeqMax([i \in 1..Len(bs) |->
                RMax(Reach(bs[i]), RMax(RAbs(bs[i].p[2]), RAbs(bs[i].p[3])))])
Margin(bs) == RExp10(-10) \otimes Extent(bs)

RECURSIVE Halved(_, _)
Halved(dt, k) == IF k = 0 THEN dt ELSE Half \otimes Halved(dt, k - 1)
\* how often dt0 was halved to give dt; 99 if it was not
Halvings(dt0, dt) ==
    LET tol == RExp10(-12) \oplus (RExp10(-9) \otimes dt) IN
    IF \E k \in 0..40 : RNear(Halved(dt0, k), dt, tol)
    THEN CHOOSE k \in 0..40 : RNear(Halved(dt0, k), dt, tol) /\ \A j \in 0..(k - 1) : ~RNear(Halved(dt0, j), dt, tol)
    ELSE 99

\* bodies where they must be
SamePlaces(as, bs, tol) ==
    /\ Len(as) = Len(bs)
    /\ \A i \in 1..Len(as) :
        /\ SeqNear(as[i].p, bs[i].p, tol)
        /\ as[i].kind = "h" => /\ Len(as[i].vs) = Len(bs[i].vs)
                               /\ \A k \in 1..Len(as[i].vs) : SeqNear(as[i].vs[k], bs[i].vs[k], tol)

(* Anchors.  A joint [kind, i1, i2, a1, a2, pos] belongs to its first body *)
(* and turns with it; a2 is its place seen from the second.                *)
MovedJoint(j, bs, vs, dt) ==
    LET a1 == IF j.kind = "joint" THEN Turn(vs[j.i1][1] \otimes dt, j.a1) ELSE <<R0, R0>>
        pos == VAdd(Pos(Moved(bs[j.i1], vs[j.i1], dt)), a1) IN
    [j EXCEPT !.a1 = a1, !.pos = pos,
              !.a2 = IF j.i2 = 0 THEN j.a2 ELSE VSub(pos, Pos(Moved(bs[j.i2], vs[j.i2], dt)))]
Anchored(j) == j.kind \in {"joint", "fixed"}
SameJoint(a, b, tol) ==
    /\ a.kind = b.kind /\ a.i1 = b.i1 /\ a.i2 = b.i2
    /\ Anchored(a) => /\ SeqNear(a.pos, b.pos, tol) /\ SeqNear(a.a1, b.a1, tol)
                      /\ a.i2 # 0 => SeqNear(a.a2, b.a2, tol)
SameJoints(s, t, tol) ==
    Len(s) = Len(t) /\ \A i \in 1..Len(s) : SameJoint(s[i], t[i], tol)
=============================================================================
