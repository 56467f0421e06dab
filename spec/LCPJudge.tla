------------------------------ MODULE LCPJudge ------------------------------
(* Verdicts over calls of the LCP solver.                                    *)
EXTENDS LCP, SolverLoop, Judge

\* r.x, z, y: a solution known beforehand; r.found: what the solver returned
SolveVerdict(r) ==
    LET P == r.prob
        size == R1 \oplus RMax(RMax(Size(r.x), Size(r.z)), RMax(Size(r.y), RMax(Size(P.p), Size(P.h))))
        tol == r.acc \otimes size IN
    Clause("oracle: the planted point is a solution", TRUE, Solves(P, r.x, r.z, r.y, RExp10(-9) \otimes size))
    \cup Clause("the solver returns the solution", TRUE, SeqNear(r.found, r.x, tol))
    \cup Clause("the solution obeys the equalities", P.b # <<>>, SeqNear(MatVec(P.A, r.found), P.b, tol))

\* r.probs: a batch; r.table[k][i]: the point returned for problem i with k iterations and all the patience;
\* r.runs: what was returned with other limits
LoopVerdict(r) ==
    LET viol(i, q) == Violation(r.probs[i], q.x, q.z, q.y, q.s)
        size(i) == R1 \oplus RMax(Size(r.probs[i].p), Size(r.probs[i].h))
        notworse(i, a, b) == a \preceq (b \oplus RMax(RExp10(-9) \otimes b, RExp10(-11) \otimes size(i)))
        v == [k \in 1..Len(r.table) |-> [i \in 1..Len(r.probs) |-> viol(i, r.table[k][i])]]
        seen == [k \in 1..Len(r.table) |-> [i \in 1..Len(r.probs) |-> <<r.table[k][i], v[k][i]>>]]
        better(a, b) == a[1] # b[1]
        done(a) == a[2] \prec r.eps
        due(run) == v[Last(seen, run.max, run.patience, better, done)] IN
    Clause("more iterations never give a worse answer", TRUE,
           \A k \in 2..Len(v) : \A i \in 1..Len(r.probs) : notworse(i, v[k][i], v[k - 1][i]))
    \cup Clause("the solver gives up only for lack of progress", r.runs # <<>>,
           \A k \in 1..Len(r.runs) : LET run == r.runs[k]  d == due(run) IN
               \A i \in 1..Len(r.probs) : notworse(i, viol(i, run.points[i]), d[i]))
    \cup Clause("more patience never gives a worse answer", Len(r.runs) > 1,
           \A m, n \in 1..Len(r.runs) :
               r.runs[m].max <= r.runs[n].max /\ r.runs[m].patience <= r.runs[n].patience =>
                   \A i \in 1..Len(r.probs) :
                       notworse(i, viol(i, r.runs[n].points[i]), viol(i, r.runs[m].points[i])))

\* r.alone, r.together: answers and gradients of one problem
BatchVerdict(r) ==
    LET near(a, b, acc) == SeqNear(a, b, acc \otimes (R1 \oplus Size(a))) IN
    Clause("a problem in a batch has the solution it has alone", TRUE, near(r.alone, r.together, r.acc))
    \cup Clause("a problem in a batch has the gradients it has alone", r.galone # <<>>,
           /\ Len(r.galone) = Len(r.gtogether)
           /\ \A k \in 1..Len(r.galone) : near(r.galone[k], r.gtogether[k], r.gacc))
    \cup Clause("inputs are left as they are", TRUE, r.kept)
AgainVerdict(r) ==
    Clause("earlier calls make no difference", TRUE,
           SeqNear(r.first, r.again, r.acc \otimes (R1 \oplus Size(r.first))))

\* r.found: what the solver returned; its gradients are judged where that is the solution (else see L01);
\* r.tight: which inequalities hold with a positive multiplier; r.g: gradient of the loss;
\* r.d: gradients returned for the inputs
GradVerdict(r) ==
    LET P == r.prob  d == r.d
        u == d.p  w == VTimes(RInt(-1), d.h)  v == VTimes(RInt(-1), d.b)
        size == R1 \oplus RMax(RMax(Size(r.x), RMax(Size(r.z), Size(r.y))), RMax(Size(u), RMax(Size(w), RMax(Size(v), Size(r.g)))))
        tol == r.acc \otimes (size \otimes size)
        solved == SeqNear(r.found, r.x, RExp10(-8) \otimes size) IN
    Clause("oracle: the planted point is a strict solution", TRUE,
           /\ Solves(P, r.x, r.z, r.y, RExp10(-8) \otimes size)
           /\ LET s == Slack(P, r.x, r.z) IN
              \A i \in 1..Nineq(P) : IF r.tight[i] THEN RRat(1, 100) \preceq r.z[i] ELSE RRat(1, 100) \preceq s[i])
    \cup Clause("gradients in p, h and b are the adjoint of the solution", solved,
           /\ Len(d.p) = Nz(P) /\ Len(d.h) = Nineq(P) /\ Len(d.b) = Neq(P)
           /\ AdjointHolds(P, r.tight, r.g, u, w, v, tol))
    \cup Clause("the gradient in Q is that of the solution", solved,
           \A i, j \in 1..Nz(P) : RNear(d.Q[i][j] \oplus d.Q[j][i], Outer(u, r.x, i, j) \oplus Outer(r.x, u, i, j), tol))
    \cup Clause("the gradient in G is that of the solution", solved, IsOuters(d.G, w, r.x, r.z, u, tol))
    \cup Clause("the gradient in A is that of the solution", solved /\ P.b # <<>>, IsOuters(d.A, v, r.x, r.y, u, tol))
    \cup Clause("the gradient in F is that of the solution", solved,
           IsOuters(d.F, VTimes(RInt(-1), w), r.z, Zeros(Nineq(P)), Zeros(Nineq(P)), tol))

Verdict(r) ==
    CASE r.k = "solve" -> SolveVerdict(r)
      [] r.k = "loop" -> LoopVerdict(r)
      [] r.k = "batch" -> BatchVerdict(r)
      [] r.k = "again" -> AgainVerdict(r)
      [] r.k = "grad" -> GradVerdict(r)
      [] r.k = "none" -> {}

Init == JudgeInit
Next == JudgeNext(Verdict)
=============================================================================
