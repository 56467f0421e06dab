------------------------------ MODULE Symmetry ------------------------------
(***************************************************************************)
(* The plane moved: a motion [mirror, ang, by] mirrors x if mirror, turns  *)
(* by ang and shifts by the vector by.  Laws that are the same everywhere  *)
(* commute with motions and with the renumbering of bodies.                *)
(***************************************************************************)
EXTENDS Contacts

Flip(m, a) == IF m.mirror THEN <<RNeg(a[1]), a[2]>> ELSE a
MoveVec(m, a) == Turn(m.ang, Flip(m, a))
MovePt(m, a) == VAdd(MoveVec(m, a), m.by)
Spin(m, w) == IF m.mirror THEN RNeg(w) ELSE w
\* velocities: what turns, and what moves
MoveVel(m, v) == LET a == MoveVec(m, <<v[2], v[3]>>) IN <<Spin(m, v[1])>> \o a
\* contacts are relative to their bodies; perm[i] is the new number of body i
MoveContact(m, perm, c) ==
    [n |-> MoveVec(m, c.n), p1 |-> MoveVec(m, c.p1), p2 |-> MoveVec(m, c.p2), pen |-> c.pen,
     i1 |-> perm[c.i1], i2 |-> perm[c.i2]]
=============================================================================
