------------------------------ MODULE Picture -------------------------------
(***************************************************************************)
(* What the picture of a body shows at a pixel.  Pixels are places of the  *)
(* plane times the scale; the outline, of thickness th (0: filled), is in  *)
(* the body's color ("b"), the mark of its orientation in that of marks    *)
(* ("m"): a radius of a circle, the diagonals of a rectangle, the center   *)
(* of any other hull; the rest is background ("w").  Rounding to whole     *)
(* pixels is allowed for by Blur.                                          *)
(***************************************************************************)
EXTENDS Geom

Blur == RInt(4)

\* the body as it appears: in pixels
OnScreen(b, scale) ==
    IF b.kind = "c" THEN [b EXCEPT !.p = <<b.p[1], scale \otimes b.p[2], scale \otimes b.p[3]>>, !.r = scale \otimes b.r]
    ELSE [b EXCEPT !.p = <<b.p[1], scale \otimes b.p[2], scale \otimes b.p[3]>>,
                   !.vs = [i \in 1..Len(b.vs) |-> VScale(scale, b.vs[i])]]

\* signed distance of a place to the outline
Depth(b, q) == IF b.kind = "c" THEN VDist(q, Pos(b)) \ominus b.r ELSE SignedDist(Corners(b), q)
\* distance to the mark
Tip(b) == VAdd(Pos(b), VScale(b.r, <<RCos(Rot(b)), RSin(Rot(b))>>))
MarkDist(b, q) ==
    IF b.kind = "c" THEN SegDist(q, Pos(b), Tip(b))
    ELSE IF b.rect THEN LET c == Corners(b) IN RMin(SegDist(q, c[1], c[3]), SegDist(q, c[2], c[4]))
    ELSE VDist(q, Pos(b))

\* may the pixel q have this color?
Allowed(b, th, q, color) ==
    LET d == Depth(b, q)  w == Blur \oplus RInt(th) IN
    CASE color = "b" -> /\ d \preceq w
                        /\ (th = 0 \/ RNeg(w) \preceq d)
      [] color = "m" -> /\ MarkDist(b, q) \preceq (IF b.kind = "h" /\ ~b.rect THEN RInt(5) ELSE w)
                        \* what is filled hides its marks, except the center of a hull
                        /\ (th > 0 \/ RNeg(Blur) \preceq d \/ (b.kind = "h" /\ ~b.rect))
      [] color = "w" -> th > 0 \/ RNeg(Blur) \preceq d
      [] OTHER -> FALSE
\* is a color to be found next to q?
Outlined(b, q) == RAbs(Depth(b, q)) \preceq R1
Marked(b, th, q) == /\ MarkDist(b, q) \preceq R1
                    /\ IF b.kind = "h" /\ ~b.rect THEN TRUE
                       ELSE th > 0 /\ Depth(b, q) \preceq RNeg(Blur \oplus RInt(th + 2))

\* a joint is shown by a sign around its place, a fixed joint by a line between its bodies
JointDist(j, scale, q) ==
    IF j.kind = "fixed" THEN SegDist(q, VScale(scale, j.ends[1]), VScale(scale, j.ends[2]))
    ELSE VDist(q, VScale(scale, j.ends[1]))
=============================================================================
