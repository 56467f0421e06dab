------------------------------ MODULE SatSearch ------------------------------
(***************************************************************************)
(* The separating axis search of the contact handler: it visits the edges  *)
(* cyclically from the edge where the last search on this hull ended,      *)
(* keeps the best one and gives up at the first edge that separates by     *)
(* more than Eps.  Over all tables of distances (values Dist, N edges, a   *)
(* sequence of configurations) the outcome must not depend on where it     *)
(* starts: separated or not, and the best distance.  The edge itself is    *)
(* determined where the best is unique.                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS N, Dist, Eps

VARIABLES dist,   \* distance of the other body to each edge, this configuration
          start,  \* remembered edge
          i,      \* edges visited
          best, edge,
          done, sep

vars == <<dist, start, i, best, edge, done, sep>>
DistSet == -3..2
Edges == 0..(N - 1)
Low == -1000

Init == /\ dist \in [Edges -> Dist]
        /\ start = 0 /\ i = 0 /\ best = Low /\ edge = 0 /\ done = FALSE /\ sep = FALSE

Visit ==
    LET e == (start + i) % N IN
    /\ ~done
    /\ IF dist[e] > best
       THEN IF dist[e] > Eps
            THEN done' = TRUE /\ sep' = TRUE /\ edge' = e /\ UNCHANGED <<best, i>>
            ELSE best' = dist[e] /\ edge' = e /\ i' = i + 1 /\ done' = (i + 1 = N) /\ UNCHANGED sep
       ELSE i' = i + 1 /\ done' = (i + 1 = N) /\ UNCHANGED <<best, edge, sep>>
    /\ UNCHANGED <<dist, start>>

\* the bodies move and the search starts over, from the edge found last
Again ==
    /\ done
    /\ \E d \in [Edges -> Dist] : dist' = d
    /\ start' = edge /\ i' = 0 /\ best' = Low /\ done' = FALSE /\ sep' = FALSE
    /\ UNCHANGED edge

Next == Visit \/ Again

Max == CHOOSE x \in {dist[e] : e \in Edges} : \A e \in Edges : dist[e] <= x
SeparatedIffSome == done => (sep <=> Max > Eps)
BestIsMax == (done /\ ~sep) => best = Max /\ dist[edge] = Max
EdgeUnique == (done /\ ~sep /\ Cardinality({e \in Edges : dist[e] = Max}) = 1)
                 => edge = (CHOOSE e \in Edges : dist[e] = Max)
=============================================================================
