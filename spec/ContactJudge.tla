---------------------------- MODULE ContactJudge ----------------------------
(* Verdicts over the contacts found for pairs of bodies. *)
EXTENDS Contacts, Judge

LOCAL Tol == RExp10(-9)
Kinds(r) == {r.bodies[1].kind, r.bodies[2].kind}

CC(r) ==
    LET bs == r.bodies  tol == Tol \otimes Scale(bs)
        near == CCNear(bs, r.eps, tol)  far == CCFar(bs, r.eps, tol) IN
    Clause("circles within reach have exactly one contact", near, Len(r.contacts) = 1)
    \cup Clause("circles out of reach have no contact", far, Len(r.contacts) = 0)
    \cup Clause("contact of circles: normal, penetration and point", Len(r.contacts) > 0,
                \A k \in 1..Len(r.contacts) :
                    WellFormed(bs, r.contacts[k]) /\ CCContact(bs, r.contacts[k]))

CH(r) ==
    LET bs == r.bodies  tol == Tol \otimes Scale(bs)
        near == CCNear(bs, r.eps, tol)  far == CCFar(bs, r.eps, tol)
        s == Sep(bs[1], bs[2]) IN
    Clause("circle and hull within reach have exactly one contact", near, Len(r.contacts) = 1)
    \cup Clause("circle and hull out of reach have no contact", far, Len(r.contacts) = 0)
    \cup Clause("contact of circle and hull: normal, penetration and point", Len(r.contacts) > 0,
                \A k \in 1..Len(r.contacts) :
                    WellFormed(bs, r.contacts[k]) /\ CHContact(bs, r.contacts[k]))

HH(r) ==
    LET bs == r.bodies  tol == Tol \otimes Scale(bs)
        s == Sep(bs[1], bs[2])
        over == s \preceq R0
        d == IF over THEN R0 ELSE HullDist(Corners(bs[1]), Corners(bs[2]))
        \* a corner opposite a corner: there is no edge for the other hull to face
        facing == over \/ RNear(d \otimes d, s \otimes s, RExp10(-14))
        n == Len(r.contacts)
        corners == HHCorners(bs) IN
    Clause("overlapping hulls have a contact", over /\ ~corners, n > 0)
    \cup Clause("hulls out of reach have no contact", (r.eps \oplus tol) \prec s, n = 0)
    \cup Clause("hulls within reach across an edge have a contact",
                ~over /\ facing /\ ~corners /\ s \preceq (r.eps \ominus tol), n > 0)
    \cup Clause("contact of hulls: unit normal, one point on both bodies", n > 0,
                \A k \in 1..n : WellFormed(bs, r.contacts[k]))
    \cup Clause("deepest contact of hulls has the least overlap as penetration", n > 0 /\ facing,
                RNear(Deepest(r.contacts), RNeg(s), tol))
    \cup Clause("contacts of hulls are the ends of the stretch facing the reference edge",
                over \/ s \preceq (r.eps \ominus tol),
                HHManifold(bs, r.contacts, r.eps) \/ (corners /\ n = 0))

PairVerdict(r) ==
    CASE Kinds(r) = {"c"} -> CC(r)
      [] Kinds(r) = {"h"} -> HH(r)
      [] OTHER -> CH(r)

\* hulls that are apart by s, one with an edge that faces the other
AcrossEdge(bs, s) ==
    LET d == HullDist(Corners(bs[1]), Corners(bs[2])) IN
    RNear(d \otimes d, s \otimes s, RExp10(-14)) /\ ~HHCorners(bs)

\* a world of many bodies: which pairs are reported
PairsOf(cs) == {{cs[k].i1, cs[k].i2} : k \in 1..Len(cs)}
ToPairs(s) == {{s[k][1], s[k][2]} : k \in 1..Len(s)}
SceneVerdict(r) ==
    LET bs == r.bodies
        tol == Tol \otimes Scale(bs)
        all == {p \in (1..Len(bs)) \X (1..Len(bs)) : p[1] < p[2]}
        excl == ToPairs(r.excluded)
        near == {p \in all : LET s == Sep(bs[p[1]], bs[p[2]]) IN
                    IF bs[p[1]].kind = "h" /\ bs[p[2]].kind = "h"
                    THEN \/ s \preceq R0
                         \/ s \preceq (r.eps \ominus tol) /\ AcrossEdge(<<bs[p[1]], bs[p[2]]>>, s)
                    ELSE s \preceq (r.eps \ominus tol)}
        far == {p \in all : (r.eps \oplus tol) \prec Sep(bs[p[1]], bs[p[2]])}
        got == PairsOf(r.contacts) IN
    Clause("every pair within reach that is not excluded is reported", near # {},
           \A p \in near : {p[1], p[2]} \notin excl => {p[1], p[2]} \in got)
    \cup Clause("no excluded pair is reported", excl # {}, excl \cap got = {})
    \cup Clause("no pair out of reach is reported", far # {},
                \A p \in far : {p[1], p[2]} \notin got)
    \cup Clause("each pair is examined once", got # {},
                \A p \in all :
                    LET n == Cardinality({k \in 1..Len(r.contacts) :
                                {r.contacts[k].i1, r.contacts[k].i2} = {p[1], p[2]}}) IN
                    n <= (IF bs[p[1]].kind = "h" /\ bs[p[2]].kind = "h" THEN 2 ELSE 1))

Verdict(r) ==
    CASE r.k = "pair" -> PairVerdict(r)
      [] r.k = "same" ->
            Clause("contacts do not depend on history, order or chance", TRUE,
                   SameContacts(r.contacts, r.fresh, RExp10(-7)))
      [] r.k = "scene" -> SceneVerdict(r)
      [] r.k = "replay" ->   \* a behaviour of NoContact, replayed
            Clause("exclusions are symmetric, for the pair only, at any time", TRUE,
                   r.expected = r.found)
      [] r.k = "agree" ->
            Clause("the two contact handlers agree", TRUE,
                   /\ Len(r.contacts) = Len(r.fresh)
                   /\ \A i \in 1..Len(r.contacts) : \E j \in 1..Len(r.fresh) :
                        LET a == r.contacts[i]  b == r.fresh[j]
                            tol == RExp10(-7) IN
                        /\ {a.i1, a.i2} = {b.i1, b.i2}
                        /\ RNear(a.pen, b.pen, tol)
                        /\ VNear(a.n, IF a.i1 = b.i1 THEN b.n ELSE VNeg(b.n), tol))

Init == JudgeInit
Next == JudgeNext(Verdict)
=============================================================================
