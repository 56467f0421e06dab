----------------------------- MODULE GradJudge ------------------------------
(***************************************************************************)
(* Is a gradient the derivative of an outcome?  A record holds runs of one *)
(* scene: the outcome and the events (which bodies touch in each step, how *)
(* long it takes) with the parameters as they are, and moved along some    *)
(* directions by h, 2h, -h and -2h.  Where the events are the same and the *)
(* outcome has no kink in any of these directions, the derivative that     *)
(* backpropagation claims has to be the limit of the difference quotients. *)
(***************************************************************************)
EXTENDS R64, FiniteSets, Judge

Slope(a, b, h) == (a \ominus b) \oslash h
Quotients(r, d) ==
    LET h == r.h  h2 == R2 \otimes r.h
        right == Slope(d.p1, r.out, h)   left == Slope(r.out, d.m1, h)
        right2 == Slope(d.p2, r.out, h2)  left2 == Slope(r.out, d.m2, h2) IN
    [near |-> (right \oplus left) \oslash R2, far |-> (right2 \oplus left2) \oslash R2,
     bend |-> right \ominus left, bend2 |-> right2 \ominus left2]
\* curvature makes the slopes on the two sides differ in proportion to h, a kink makes them differ for all h
Smooth(r, d) ==
    LET q == Quotients(r, d)
        size == R1 \oplus RAbs(q.near) IN
    /\ d.same
    /\ RAbs(q.near \ominus q.far) \preceq (RRat(1, 1000) \otimes size)
    /\ RAbs((R2 \otimes q.bend) \ominus q.bend2) \preceq (r.kink \otimes size)
Limit(r, d) == LET q == Quotients(r, d) IN ((RInt(4) \otimes q.near) \ominus q.far) \oslash RInt(3)

GradVerdict(r) ==
    LET smooth == \A k \in 1..Len(r.dirs) : Smooth(r, r.dirs[k]) IN
    UNION {LET d == r.dirs[k] IN
           Clause("the gradient in " \o d.what \o " is the derivative of the outcome", smooth,
                  RNear(d.claimed, Limit(r, d), r.acc \otimes (R1 \oplus RAbs(Limit(r, d))))) : k \in 1..Len(r.dirs)}

Verdict(r) == IF r.k = "grad" THEN GradVerdict(r) ELSE {}
Init == JudgeInit
Next == JudgeNext(Verdict)
=============================================================================
