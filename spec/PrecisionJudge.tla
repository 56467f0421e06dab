---------------------------- MODULE PrecisionJudge ----------------------------
(* Verdicts over a scene given in single precision, next to the same scene and *)
(* its close neighbours in double precision.                                   *)
EXTENDS R64, Judge

\* r.single[n]: the numbers of the state after step n; r.doubles[j][n]: those of neighbour j, the first of them the scene itself
Size(r, n) == R1 \oplus RMaxAbs(r.doubles[1][n])
Largest(S) == CHOOSE x \in S : \A y \in S : y \preceq x
Apart(s, t) == IF Len(s) # Len(t) THEN Infinity ELSE RMaxAbs([i \in 1..Len(s) |-> s[i] \ominus t[i]])
Spread(r, n) == Largest({R0} \cup {Apart(r.doubles[1][n], r.doubles[j][n]) : j \in 2..Len(r.doubles)})
\* what the neighbours agree on does not hang on rounding
Settled(r, n) == \A j \in 1..Len(r.doubles) : Len(r.doubles[j]) >= n /\ \A q \in 1..n : /\ RFinite(RMaxAbs(r.doubles[1][q]))
                                 /\ Spread(r, q) \preceq (RExp10(-3) \otimes Size(r, q))
Follows(r, n) == Apart(r.doubles[1][n], r.single[n])
                     \preceq ((RExp10(-3) \otimes Size(r, n)) \oplus (RInt(30) \otimes Spread(r, n)))

Verdict(r) ==
    CASE r.k = "single" ->
            Clause("the state keeps the precision it is given in", TRUE, r.types = <<r.want>>)
            \cup Clause("single precision follows double precision", Len(r.doubles[1]) > 1 /\ Settled(r, 2),
                   \A n \in 1..Len(r.doubles[1]) : Settled(r, n) => (n <= Len(r.single) /\ Follows(r, n)))
            \cup Clause("contacts in single precision follow those in double precision",
                   r.met /\ Settled(r, Len(r.doubles[1])),
                   /\ Len(r.single) >= Len(r.doubles[1])
                   /\ Follows(r, Len(r.doubles[1])))
            \cup Clause("positions in single precision are numbers", TRUE, RFinite(RMaxAbs(r.last)))
      [] r.k = "slope" ->
            Clause("a gradient has the precision of what it is taken for", TRUE, r.types = <<r.want>>)
            \cup Clause("gradients in single precision follow those in double precision", ~r.met /\ Settled(r, 1), Follows(r, 1))
      [] r.k = "none" -> {}

Init == JudgeInit
Next == JudgeNext(Verdict)
=============================================================================
