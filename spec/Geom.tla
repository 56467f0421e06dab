-------------------------------- MODULE Geom --------------------------------
(***************************************************************************)
(* Plane geometry of the bodies: points and vectors are pairs of reals.    *)
(* A body is a record [kind, p, r | vs]: p = <<rotation, x, y>>, r the     *)
(* radius of a circle ("c"), vs the vertices of a hull ("h") relative to   *)
(* its center, in the order in which the interior lies to the left of the  *)
(* direction of travel when y points up.                                   *)
(***************************************************************************)
EXTENDS R64

X(v) == v[1]
Y(v) == v[2]
VAdd(a, b) == <<a[1] \oplus b[1], a[2] \oplus b[2]>>
VSub(a, b) == <<a[1] \ominus b[1], a[2] \ominus b[2]>>
VScale(k, a) == <<k \otimes a[1], k \otimes a[2]>>
VScale3(k, a) == <<k \otimes a[1], k \otimes a[2], k \otimes a[3]>>
VNeg(a) == <<RNeg(a[1]), RNeg(a[2])>>
VDot(a, b) == (a[1] \otimes b[1]) \oplus (a[2] \otimes b[2])
VCross(a, b) == (a[1] \otimes b[2]) \ominus (a[2] \otimes b[1])
VNorm(a) == RSqrt(VDot(a, a))
VDist(a, b) == VNorm(VSub(a, b))
VUnit(a) == VScale(R1 \oslash VNorm(a), a)
VNear(a, b, tol) == RNear(a[1], b[1], tol) /\ RNear(a[2], b[2], tol)
\* a turned by a quarter so that the outside of a hull's edge is on its side
Outward(a) == <<a[2], RNeg(a[1])>>
Turn(ang, a) ==
    LET c == RCos(ang)  s == RSin(ang) IN
    <<(c \otimes a[1]) \ominus (s \otimes a[2]), (s \otimes a[1]) \oplus (c \otimes a[2])>>
Rot(b) == b.p[1]
Pos(b) == <<b.p[2], b.p[3]>>

Nxt(vs, i) == vs[(i % Len(vs)) + 1]
Corners(b) == [i \in 1..Len(b.vs) |-> VAdd(b.vs[i], Pos(b))]
MaxOver(S, f(_)) == LET x == CHOOSE x \in S : \A y \in S : f(y) \preceq f(x) IN f(x)
MinOver(S, f(_)) == LET x == CHOOSE x \in S : \A y \in S : f(x) \preceq f(y) IN f(x)
RECURSIVE SeqMaxR(_, _), SeqMinR(_, _)
SeqMaxR(s, i) == IF i = Len(s) THEN s[i] ELSE RMax(s[i], SeqMaxR(s, i + 1))
SeqMinR(s, i) == IF i = Len(s) THEN s[i] ELSE RMin(s[i], SeqMinR(s, i + 1))
SeqMax(s) == SeqMaxR(s, 1)
SeqMin(s) == SeqMinR(s, 1)
RECURSIVE VSumR(_, _)
VSumR(s, i) == IF i > Len(s) THEN <<R0, R0>> ELSE VAdd(s[i], VSumR(s, i + 1))
VSum(s) == VSumR(s, 1)

EdgeNormal(vs, i) == VUnit(Outward(VSub(Nxt(vs, i), vs[i])))
StrictlyConvex(vs) ==
    \A i \in 1..Len(vs) :
        LET e == VSub(Nxt(vs, i), vs[i])
            f == VSub(Nxt(vs, (i % Len(vs)) + 1), Nxt(vs, i)) IN
        R0 \prec VCross(e, f)

\* distance of the point q to the segment a b, and the point of it next to q
OnSegment(q, a, b) ==
    LET d == VSub(b, a)
        t == RMax(R0, RMin(R1, VDot(VSub(q, a), d) \oslash VDot(d, d))) IN
    VAdd(a, VScale(t, d))
SegDist(q, a, b) == VDist(q, OnSegment(q, a, b))

\* signed distance of q to the line of each edge: negative inside
EdgeDists(cs, q) == [i \in 1..Len(cs) |-> VDot(EdgeNormal(cs, i), VSub(q, cs[i]))]
\* to the boundary
BoundaryDist(cs, q) == SeqMin([i \in 1..Len(cs) |-> SegDist(q, cs[i], Nxt(cs, i))])
Inside(cs, q) == SeqMax(EdgeDists(cs, q)) \preceq R0
\* signed distance of a point to a convex polygon: true distance outside,
\* minus the depth inside
SignedDist(cs, q) ==
    LET m == SeqMax(EdgeDists(cs, q)) IN IF m \preceq R0 THEN m ELSE BoundaryDist(cs, q)

\* separation of two polygons along the edges of the first: per edge
EdgeSep(cs, ds, i) ==
    LET n == EdgeNormal(cs, i) IN
    SeqMin([j \in 1..Len(ds) |-> VDot(n, VSub(ds[j], cs[i]))])
EdgeSeps(cs, ds) == [i \in 1..Len(cs) |-> EdgeSep(cs, ds, i)]
HullSep(cs, ds) == RMax(SeqMax(EdgeSeps(cs, ds)), SeqMax(EdgeSeps(ds, cs)))

(* Separation of two bodies.  Negative: minus the depth of their overlap,   *)
(* the shortest shift that would part them.  For hulls apart from each      *)
(* other a lower bound of the distance (exact for a corner next to an edge).*)
Sep(a, b) ==
    CASE a.kind = "c" /\ b.kind = "c" ->
            VDist(Pos(a), Pos(b)) \ominus (a.r \oplus b.r)
      [] a.kind = "c" /\ b.kind = "h" ->
            SignedDist(Corners(b), Pos(a)) \ominus a.r
      [] a.kind = "h" /\ b.kind = "c" ->
            SignedDist(Corners(a), Pos(b)) \ominus b.r
      [] OTHER -> HullSep(Corners(a), Corners(b))

\* true distance of two disjoint hulls
HullDist(cs, ds) ==
    RMin(SeqMin([i \in 1..Len(cs) |-> BoundaryDist(ds, cs[i])]),
         SeqMin([i \in 1..Len(ds) |-> BoundaryDist(cs, ds[i])]))

\* the radius of the circle about the center that holds the body
Reach(b) == IF b.kind = "c" THEN b.r ELSE SeqMax([i \in 1..Len(b.vs) |-> VNorm(b.vs[i])])

(* A body moved: center and rotation by the increment d = <<dr, dx, dy>>.  *)
MoveBody(b, d) ==
    LET p == <<b.p[1] \oplus d[1], b.p[2] \oplus d[2], b.p[3] \oplus d[3]>> IN
    IF b.kind = "c" THEN [b EXCEPT !.p = p]
    ELSE [b EXCEPT !.p = p, !.vs = [i \in 1..Len(b.vs) |-> Turn(d[1], b.vs[i])]]
=============================================================================
