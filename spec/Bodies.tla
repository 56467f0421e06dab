------------------------------- MODULE Bodies -------------------------------
(***************************************************************************)
(* Mass properties.  The polygon is cut into triangles from its first      *)
(* corner; areas, first and second moments add up over the triangles, and  *)
(* the second moment is moved to the center of mass (parallel axes).       *)
(***************************************************************************)
EXTENDS Geom

Tri(cs, i) == <<cs[1], cs[i], cs[i + 1]>>       \* i \in 2..Len(cs)-1
TriArea(t) == Half \otimes VCross(VSub(t[2], t[1]), VSub(t[3], t[1]))
TriCenter(t) == VScale(RRat(1, 3), VAdd(t[1], VAdd(t[2], t[3])))
\* second polar moment of a triangle about its own center, unit density
TriPolar(t) ==
    LET sq(a, b) == VDot(VSub(a, b), VSub(a, b)) IN
    TriArea(t) \otimes ((sq(t[1], t[2]) \oplus sq(t[2], t[3]) \oplus sq(t[3], t[1])) \oslash RInt(36))

Area(cs) == RSum([k \in 1..(Len(cs) - 2) |-> TriArea(Tri(cs, k + 1))])
CenterOfMass(cs) ==
    VScale(R1 \oslash Area(cs),
           VSum([k \in 1..(Len(cs) - 2) |->
                    VScale(TriArea(Tri(cs, k + 1)), TriCenter(Tri(cs, k + 1)))]))
\* second polar moment about the point c, for unit density
PolarAbout(cs, c) ==
    RSum([k \in 1..(Len(cs) - 2) |->
            LET t == Tri(cs, k + 1)  d == VSub(TriCenter(t), c) IN
            TriPolar(t) \oplus (TriArea(t) \otimes VDot(d, d))])
HullInertia(cs, mass) == (mass \oslash Area(cs)) \otimes PolarAbout(cs, CenterOfMass(cs))
CircleInertia(r, mass) == Half \otimes (mass \otimes (r \otimes r))
RectInertia(w, h, mass) == RRat(1, 12) \otimes (mass \otimes ((w \otimes w) \oplus (h \otimes h)))
=============================================================================
