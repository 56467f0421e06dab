------------------------------ MODULE Dynamics ------------------------------
(***************************************************************************)
(* The update of the velocities over the reals.  An update takes the       *)
(* bodies bs (with their velocities), what they are made of (mats), the    *)
(* forces on each, joints, contacts, the clock t and the time step dt to   *)
(* new velocities vs.  Not a function but laws: momentum changes only by   *)
(* forces, by impulses at joints along what they hold, and by impulses at  *)
(* contacts which push along the normal and rub along the tangent.         *)
(***************************************************************************)
EXTENDS Step, Bodies

\* mats[i] = [m, e, mu]: mass, restitution, friction
Inertia(b, mat) == IF b.kind = "c" THEN CircleInertia(b.r, mat.m) ELSE HullInertia(b.vs, mat.m)
Mass3(b, mat) == <<Inertia(b, mat), mat.m, mat.m>>
Masses(bs, mats) == [i \in 1..Len(bs) |-> Mass3(bs[i], mats[i])]

Add3(a, b) == <<a[1] \oplus b[1], a[2] \oplus b[2], a[3] \oplus b[3]>>
Sub3(a, b) == <<a[1] \ominus b[1], a[2] \ominus b[2], a[3] \ominus b[3]>>
Mul3(a, b) == <<a[1] \otimes b[1], a[2] \otimes b[2], a[3] \otimes b[3]>>
Zero3 == <<R0, R0, R0>>
RECURSIVE Sum3R(_, _)
Sum3R(s, i) == IF i > Len(s) THEN Zero3 ELSE Add3(s[i], Sum3R(s, i + 1))
Sum3(s) == Sum3R(s, 1)
Near3(a, b, tol) == \A c \in 1..3 : RNear(a[c], b[c], tol[c])

(* ----------------------------------------------------------- forces -- *)
\* y points down, so down is positive
Early(t) == t \prec RRat(1, 10)
ForceOf(f, mat, t) ==
    CASE f.name = "gravity" -> <<R0, R0, f.mult \otimes mat.m>>
      [] f.name = "down" -> <<R0, R0, f.mult>>
      [] f.name = "vert" -> IF Early(t) THEN <<R0, R0, f.mult>> ELSE Zero3
      [] f.name = "hor" -> IF Early(t) THEN <<R0, f.mult, R0>> ELSE Zero3
      [] f.name = "rot" -> IF Early(t) THEN <<f.mult, R0, R0>> ELSE Zero3
      \* a force of the user's own, f(t) = (sin 3t, cos 5t, t)
      [] f.name = "wave" -> VScale3(f.mult, <<RSin(RInt(3) \otimes t), RCos(RInt(5) \otimes t), t>>)
ForceOn(fs, mat, t) == Sum3([k \in 1..Len(fs) |-> ForceOf(fs[k], mat, t)])

\* the velocity force alone gives
FreeVelocity(v, m3, force, dt) ==
    <<v[1] \oplus ((force[1] \otimes dt) \oslash m3[1]),
      v[2] \oplus ((force[2] \otimes dt) \oslash m3[2]),
      v[3] \oplus ((force[3] \otimes dt) \oslash m3[3])>>

(* ---------------------------------------------------- joints, contacts -- *)
PointVel(v, lever) == <<v[2] \ominus (v[1] \otimes lever[2]), v[3] \oplus (v[1] \otimes lever[1])>>
Wrench(lever, f) == <<VCross(lever, f), f[1], f[2]>>

\* what a joint says of velocities: each entry is to be zero
JointRates(j, vs) ==
    LET v == vs[j.i1]
        rel == VSub(PointVel(v, j.a1), IF j.i2 = 0 THEN <<R0, R0>> ELSE PointVel(vs[j.i2], j.a2)) IN
    CASE j.kind = "joint" -> rel
      [] j.kind = "fixed" -> rel \o <<v[1] \ominus vs[j.i2][1]>>
      [] j.kind = "rot" -> <<v[1]>>
      [] j.kind = "x" -> <<v[2]>>
      [] j.kind = "y" -> <<v[3]>>
      [] j.kind = "total" -> <<v[1], v[2], v[3]>>
\* the impulse on body i of a joint that reacts by lam, an entry for each rate
JointWrench(j, lam, i) ==
    LET pull == <<lam[1], lam[2]>>
        twist == IF j.kind = "fixed" THEN <<lam[3], R0, R0>> ELSE Zero3 IN
    CASE i # j.i1 /\ i # j.i2 -> Zero3
      [] j.kind \in {"joint", "fixed"} /\ i = j.i1 -> Add3(Wrench(j.a1, pull), twist)
      [] j.kind \in {"joint", "fixed"} /\ i = j.i2 -> VScale3(RNeg(R1), Add3(Wrench(j.a2, pull), twist))
      [] j.kind = "rot" -> <<lam[1], R0, R0>>
      [] j.kind = "x" -> <<R0, lam[1], R0>>
      [] j.kind = "y" -> <<R0, R0, lam[1]>>
      [] j.kind = "total" -> <<lam[1], lam[2], lam[3]>>

Tangent(n) == <<n[2], RNeg(n[1])>>
\* the velocity of the first body's surface relative to the second's
Surface(c, vs) == VSub(PointVel(vs[c.i1], c.p1), PointVel(vs[c.i2], c.p2))
Parting(c, vs) == VDot(c.n, Surface(c, vs))
Sliding(c, vs) == VDot(Tangent(c.n), Surface(c, vs))
ContactWrench(c, ln, lt, i) ==
    LET f == VAdd(VScale(ln, c.n), VScale(lt, Tangent(c.n))) IN
    CASE i = c.i1 -> Wrench(c.p1, f)
      [] i = c.i2 -> VScale3(RNeg(R1), Wrench(c.p2, f))
      [] OTHER -> Zero3
Mean(a, b) == Half \otimes (a \oplus b)
Bounce(c, mats) == Mean(mats[c.i1].e, mats[c.i2].e)
Rub(c, mats) == Mean(mats[c.i1].mu, mats[c.i2].mu)

(* -------------------------------------------------------------- totals -- *)
Kinetic(ms, vs) ==
    Half \otimes RSum([i \in 1..Len(ms) |-> RDot(ms[i], Mul3(vs[i], vs[i]))])
Linear(ms, vs, S) ==
    Sum3([i \in 1..Len(ms) |-> IF i \in S THEN Mul3(<<R0, ms[i][2], ms[i][3]>>, vs[i]) ELSE Zero3])
\* about the point q
Angular(bs, ms, vs, q, S) ==
    RSum([i \in 1..Len(ms) |->
        IF i \in S THEN (ms[i][1] \otimes vs[i][1]) \oplus
                        (ms[i][2] \otimes VCross(VSub(Pos(bs[i]), q), <<vs[i][2], vs[i][3]>>))
        ELSE R0])

\* bodies tied to body i, directly or not, by the pairs of ties
RECURSIVE Reached(_, _)
Reached(S, ties) ==
    LET N == S \cup UNION {t : t \in {u \in ties : u \cap S # {}}} IN
    IF N = S THEN S ELSE Reached(N, ties)
JointTies(js) == {{js[k].i1, js[k].i2} : k \in {q \in 1..Len(js) : js[q].i2 # 0}}
ContactTies(cs) == {{cs[k].i1, cs[k].i2} : k \in 1..Len(cs)}
Held(js) == {js[k].i1 : k \in {q \in 1..Len(js) : js[q].i2 = 0}}
\* bodies farther than gap from everything they may touch
Apart(bs, excl, gap) ==
    {i \in 1..Len(bs) : \A p \in Couples(bs, excl) :
        (i \in {p[1], p[2]}) => gap \prec Sep(bs[p[1]], bs[p[2]])}
=============================================================================
