------------------------------ MODULE Contacts ------------------------------
(***************************************************************************)
(* What a contact search must report.  A contact is a record [n, p1, p2,   *)
(* pen, i1, i2]: the normal, the point relative to the centers of bodies   *)
(* i1 and i2, and the penetration (negative for a gap).  The normal points *)
(* from body i2 to body i1.                                                *)
(***************************************************************************)
EXTENDS Geom

LOCAL Tol == RExp10(-9)
LOCAL NTol == RExp10(-7)

\* bodies bs[c.i1], bs[c.i2]
PointOn1(bs, c) == VAdd(Pos(bs[c.i1]), c.p1)
PointOn2(bs, c) == VAdd(Pos(bs[c.i2]), c.p2)

Scale(bs) == R1 \oplus RMaxAbs([i \in 1..Len(bs) |-> RMaxAbs(bs[i].p) \oplus Reach(bs[i])])

\* every contact, of whatever shapes
WellFormed(bs, c) ==
    /\ c.i1 \in 1..Len(bs) /\ c.i2 \in 1..Len(bs) /\ c.i1 # c.i2
    /\ RNear(VNorm(c.n), R1, Tol)
    /\ RFinite(c.pen)
    /\ VNear(PointOn1(bs, c), PointOn2(bs, c), Tol \otimes Scale(bs))

(* ------------------------------------------------------ circle, circle -- *)
CCNear(bs, eps, tol) == Sep(bs[1], bs[2]) \preceq (eps \ominus tol)
CCFar(bs, eps, tol) == (eps \oplus tol) \prec Sep(bs[1], bs[2])
CCContact(bs, c) ==
    LET a == bs[c.i1]  b == bs[c.i2]
        s == Sep(a, b)
        u == VUnit(VSub(Pos(a), Pos(b)))
        mid == VAdd(Pos(b), VScale(b.r \oplus (Half \otimes s), u))
        tol == Tol \otimes Scale(bs) IN
    /\ VNear(c.n, u, NTol)
    /\ RNear(c.pen, RNeg(s), tol)
    /\ VNear(PointOn1(bs, c), mid, tol)

(* -------------------------------------------------------- circle, hull -- *)
CHContact(bs, c) ==
    LET circ == IF bs[1].kind = "c" THEN bs[1] ELSE bs[2]
        hull == IF bs[1].kind = "c" THEN bs[2] ELSE bs[1]
        cs == Corners(hull)
        q == Pos(circ)
        ds == EdgeDists(cs, q)
        s == SignedDist(cs, q)
        \* as seen from the circle
        n == IF bs[c.i1].kind = "c" THEN c.n ELSE VNeg(c.n)
        pt == PointOn1(bs, c)
        tol == Tol \otimes Scale(bs) IN
    /\ RNear(c.pen, circ.r \ominus s, tol)
    /\ RNear(VDist(pt, q), RAbs(s), tol)
    /\ RLe(BoundaryDist(cs, pt), tol)
    /\ IF s \preceq RExp10(-6)
       THEN \* in the hull, or so close that the direction is not determined
            \/ RExp10(-11) \prec s
            \/ \E i \in 1..Len(cs) :
                  /\ RNear(ds[i], SeqMax(ds), tol)
                  /\ VNear(n, EdgeNormal(cs, i), NTol)
       ELSE VNear(n, VUnit(VSub(q, pt)), NTol)

(* ---------------------------------------------------------- hull, hull -- *)
\* the part of the segment a b between the lines through u and w that are
\* perpendicular to w - u; a sequence of its ends, empty if there is none
Stretch(a, b, u, w) ==
    LET d == VSub(w, u)
        len == VDot(d, d)
        ta == VDot(VSub(a, u), d) \oslash len
        tb == VDot(VSub(b, u), d) \oslash len IN
    <<ta, tb, RMax(R0, RMin(ta, tb)), RMin(R1, RMax(ta, tb))>>

Facing(a, b, u, w) ==
    LET st == Stretch(a, b, u, w)
        ta == st[1]  tb == st[2]  lo == st[3]  hi == st[4]
        at(t) == IF REq(ta, tb) THEN a
                 ELSE VAdd(a, VScale((t \ominus ta) \oslash (tb \ominus ta), VSub(b, a))) IN
    IF lo \preceq (hi \oplus RExp10(-9)) THEN <<at(lo), at(hi)>> ELSE <<>>     \* corner to corner is facing still

\* edge i of hull a as the reference, edge j of hull b facing it
Incident(as, bs, i, j) ==
    LET n == EdgeNormal(as, i)
        dots == [k \in 1..Len(bs) |-> VDot(n, EdgeNormal(bs, k))] IN
    RNear(dots[j], SeqMin(dots), RExp10(-9))

\* the manifold for this choice: pairs <<point, gap>>
Manifold(as, bs, i, j) ==
    LET n == EdgeNormal(as, i)
        ends == Facing(bs[j], Nxt(bs, j), as[i], Nxt(as, i)) IN
    [k \in 1..Len(ends) |->
        LET g == VDot(n, VSub(ends[k], as[i])) IN
        <<VSub(ends[k], VScale(g, n)), g>>]

\* contact c is the k-th point of manifold m; n points out of the reference
IsPoint(bodies, c, mk, tol) ==
    /\ VNear(PointOn1(bodies, c), mk[1], tol)
    /\ RNear(c.pen, RNeg(mk[2]), tol)

\* contacts cs are those of reference edge i of body ra against edge j of rb
Explains(bodies, cs, ra, rb, i, j, eps, tol) ==
    LET as == Corners(bodies[ra])  bs == Corners(bodies[rb])
        n == EdgeNormal(as, i)
        m == Manifold(as, bs, i, j) IN
    /\ \A k \in 1..Len(cs) :
          /\ VNear(IF cs[k].i2 = ra THEN cs[k].n ELSE VNeg(cs[k].n), n, NTol)
          /\ \E q \in 1..Len(m) : IsPoint(bodies, cs[k], m[q], tol)
    /\ \A q \in 1..Len(m) :
          (m[q][2] \preceq (eps \ominus tol)) =>
             \E k \in 1..Len(cs) : IsPoint(bodies, cs[k], m[q], tol)

HHManifold(bodies, cs, eps) ==
    LET tol == RExp10(-8) \otimes Scale(bodies)
        c1 == Corners(bodies[1])  c2 == Corners(bodies[2])
        s == HullSep(c1, c2)
        e12 == EdgeSeps(c1, c2)  e21 == EdgeSeps(c2, c1) IN
    \/ \E i \in 1..Len(c1) : RNear(e12[i], s, tol) /\
          \E j \in 1..Len(c2) : Incident(c1, c2, i, j) /\ Explains(bodies, cs, 1, 2, i, j, eps, tol)
    \/ \E i \in 1..Len(c2) : RNear(e21[i], s, tol) /\
          \E j \in 1..Len(c1) : Incident(c2, c1, i, j) /\ Explains(bodies, cs, 2, 1, i, j, eps, tol)

\* corner to corner: the stretch is a point, and rounding decides whether it is there
Cornered(as, bs, i, j) ==
    LET st == Stretch(bs[j], Nxt(bs, j), as[i], Nxt(as, i)) IN RNear(st[3], st[4], RExp10(-8))
HHCorners(bodies) ==
    LET tol == RExp10(-8) \otimes Scale(bodies)
        c1 == Corners(bodies[1])  c2 == Corners(bodies[2])
        s == HullSep(c1, c2)
        e12 == EdgeSeps(c1, c2)  e21 == EdgeSeps(c2, c1) IN
    \/ \E i \in 1..Len(c1) : RNear(e12[i], s, tol) /\
          \E j \in 1..Len(c2) : Incident(c1, c2, i, j) /\ Cornered(c1, c2, i, j)
    \/ \E i \in 1..Len(c2) : RNear(e21[i], s, tol) /\
          \E j \in 1..Len(c1) : Incident(c2, c1, i, j) /\ Cornered(c2, c1, i, j)

Deepest(cs) == SeqMax([k \in 1..Len(cs) |-> cs[k].pen])

\* two searches of the same configuration found the same contacts
SameContact(a, b, tol) ==
    /\ RNear(a.pen, b.pen, tol)
    /\ \/ /\ a.i1 = b.i1 /\ a.i2 = b.i2
          /\ VNear(a.n, b.n, tol) /\ VNear(a.p1, b.p1, tol) /\ VNear(a.p2, b.p2, tol)
       \/ /\ a.i1 = b.i2 /\ a.i2 = b.i1
          /\ VNear(a.n, VNeg(b.n), tol) /\ VNear(a.p1, b.p2, tol) /\ VNear(a.p2, b.p1, tol)
SameContacts(s, t, tol) ==
    /\ Len(s) = Len(t)
    /\ \A i \in 1..Len(s) : \E j \in 1..Len(t) : SameContact(s[i], t[j], tol)
    /\ \A j \in 1..Len(t) : \E i \in 1..Len(s) : SameContact(s[i], t[j], tol)
=============================================================================
