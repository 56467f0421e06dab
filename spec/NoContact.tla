------------------------------ MODULE NoContact ------------------------------
(***************************************************************************)
(* Exclusion of contact between pairs of bodies: bodies are excluded from  *)
(* contact with each other (in either role, before or after the world is   *)
(* made), moved so that they touch according to some graph, and searched.  *)
(* A search must report the pairs that touch and are not excluded.         *)
(* Every behaviour of length Depth is printed and replayed on the code.    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS N, Depth, MaxExclude, MaxMove

VARIABLES excl,    \* excluded pairs
          touch,   \* pairs that touch
          made,    \* the world exists
          found,   \* what the last search must have reported
          hist     \* the behaviour so far

Bodies == 1..N
Pairs == {S \in SUBSET Bodies : Cardinality(S) = 2}
\* the arrangements that the harness can place: cliques of neighbours
Arrangements == {{}, Pairs, {{1, 2}}, {{1, 2}, {2, 3}}}

vars == <<excl, touch, made, found, hist>>
Count(op) == Cardinality({i \in 1..Len(hist) : hist[i].op = op})

RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SetSeq(S \ {x})
PairSeq(P) == SetSeq({(10 * q[1]) + q[2] : q \in {q \in Bodies \X Bodies : q[1] < q[2] /\ {q[1], q[2]} \in P}})
Log(op, a, b) ==
    hist' = Append(hist, [op |-> op, a |-> a, b |-> b,
                          touch |-> PairSeq(touch'), found |-> PairSeq(found')])

Init == excl = {} /\ touch = {} /\ made = FALSE /\ found = {} /\ hist = <<>>

Exclude(a, b) ==
    /\ a # b /\ Count("exclude") < MaxExclude
    /\ excl' = excl \cup {{a, b}}
    /\ UNCHANGED <<touch, made, found>>      \* seen by the next search
    /\ Log("exclude", a, b)

Make ==
    /\ ~made /\ made' = TRUE
    /\ found' = touch \ excl
    /\ UNCHANGED <<excl, touch>>
    /\ Log("make", 0, 0)

Move(g) ==
    /\ Count("move") < MaxMove
    /\ touch' = g
    /\ found' = IF made THEN g \ excl ELSE {}
    /\ UNCHANGED <<excl, made>>
    /\ Log("move", 0, 0)

Next == /\ Len(hist) < Depth
        /\ \/ \E a, b \in Bodies : Exclude(a, b)
           \/ Make
           \/ \E g \in Arrangements : Move(g)

NeverExcluded == (made /\ hist[Len(hist)].op # "exclude") => found \cap excl = {}
NothingLost == (made /\ hist[Len(hist)].op # "exclude") => touch \ excl \subseteq found
Emit == (Len(hist) = Depth /\ made) => PrintT("BEH " \o ToJson(hist))
=============================================================================
