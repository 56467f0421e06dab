--------------------------- MODULE BreakoutJudge ----------------------------
(***************************************************************************)
(* The Breakout experiment: judges what is read from frames, the worlds    *)
(* made of it, their steps, and the controller, against Breakout.tla.      *)
(***************************************************************************)
EXTENDS Geom, Judge, Breakout

Halves(x, n) == REq(R2 \otimes x, RInt(n))
Whole(x, n) == REq(x, RInt(n))

----------------------------------------------------------------------------
(* A frame and what was read from it.                                      *)
StateOf(r) == [paddle |-> r.paddle, blocks |-> {r.blocks[i] : i \in 1..Len(r.blocks)}, ball |-> r.ball]
SameShape(g, e) == Halves(g.x, e.x) /\ Halves(g.y, e.y) /\ Whole(g.w, e.w) /\ Whole(g.h, e.h)
FrameClauses(r) ==
    LET s == StateOf(r)  e == Expected(s)  g == r.got IN
    Clause("the frame is one of the game", TRUE,
           /\ Proper(s)
           /\ \A k \in 1..Len(r.pixels) : r.pixels[k][3] = Pixel(s, r.pixels[k][1], r.pixels[k][2]))
    \cup Clause("the paddle is read", Readable(s), SameShape(g.paddle, e.paddle))
    \cup Clause("every block is read, and nothing else", Readable(s),
                /\ Len(g.blocks) = Cardinality(e.blocks)
                /\ \A b \in e.blocks : \E k \in 1..Len(g.blocks) : SameShape(g.blocks[k], b))
    \cup Clause("the ball is read", Readable(s) /\ e.ball # <<>>,
                Halves(g.ball.x, e.ball[1]) /\ Halves(g.ball.y, e.ball[2]) /\ Halves(g.ball.r, e.ball[3]))
    \cup Clause("a ball that is not there is far below the screen", Readable(s) /\ e.ball = <<>>, RInt(2 * H) \preceq g.ball.y)
    \cup Clause("the frame is not changed", TRUE, ~r.changed)

----------------------------------------------------------------------------
(* A world made of parameters.  r.bodies with indices r.ball, r.paddle,    *)
(* r.blocks; r.given: the parameters; r.tried: pairs of bodies put on each *)
(* other and whether they were found to touch.                             *)
Corner(x, y, w, h) == {<<x \oplus w, y \oplus h>>, <<x \oplus w, y \ominus h>>, <<x \ominus w, y \oplus h>>, <<x \ominus w, y \ominus h>>}
IsRect(b, x, y, w, h) ==
    /\ b.kind = "h" /\ Len(b.vs) = 4
    /\ \A c \in Corner(x, y, Half \otimes w, Half \otimes h) :
          \E i \in 1..4 : VNear(Corners(b)[i], c, RExp10(-9))
IsBox(b, x) == IsRect(b, RRat(x.l + x.r, 2), RRat(x.t + x.b, 2), RInt(x.r - x.l), RInt(x.b - x.t))
IsShape(b, g) == IsRect(b, g.x, g.y, g.w, g.h)
Parts == DOMAIN Scenery
PartAt(r, name) == {i \in 1..Len(r.bodies) : i \notin ({r.ball, r.paddle} \cup {r.blocks[k] : k \in 1..Len(r.blocks)})
                                             /\ IsBox(r.bodies[i], Scenery[name])}
Index(r, name) == CHOOSE i \in PartAt(r, name) : TRUE
Found(r) == \A name \in Parts : Cardinality(PartAt(r, name)) = 1
MayHit(r, i) == i \notin {Index(r, name) : name \in Stoppers}
WorldClauses(r) ==
    LET ball == r.bodies[r.ball]  g == r.given IN
    Clause("the ball is where and as large as given, with the velocity given", TRUE,
           /\ ball.kind = "c" /\ REq(ball.r, g.ball.r)
           /\ SeqEq(Pos(ball), <<g.ball.x, g.ball.y>>) /\ SeqEq(ball.v, <<R0, r.vel[1], r.vel[2]>>))
    \cup Clause("the paddle is where and as large as given", TRUE, IsShape(r.bodies[r.paddle], g.paddle))
    \cup Clause("each block is where and as large as given", TRUE,
                /\ Len(r.blocks) = Len(g.blocks)
                /\ \A k \in 1..Len(g.blocks) : IsShape(r.bodies[r.blocks[k]], g.blocks[k]))
    \cup Clause("the scenery is complete, and there is nothing else", TRUE,
                Found(r) /\ Len(r.bodies) = 2 + Len(g.blocks) + Cardinality(Parts))
    \cup Clause("all but the ball and the paddle is held in place", TRUE,
                \A i \in 1..Len(r.bodies) : i \notin {r.ball, r.paddle} => SeqNear(r.bodies[i].p, r.later[i], RExp10(-6)))
    \cup Clause("no two parts of the scenery touch each other", TRUE,
                \A k \in 1..Len(r.contacts) : r.ball \in {r.contacts[k][1], r.contacts[k][2]}
                                              \/ r.paddle \in {r.contacts[k][1], r.contacts[k][2]})
    \cup UNION {LET x == r.tried[k]  i == x[1]  j == x[2] IN
                Clause("the ball may touch paddle, walls, roof and blocks, but not stoppers", Found(r) /\ i = r.ball,
                       x[3] = MayHit(r, j))
                \cup Clause("the paddle may not touch walls and roof, but stoppers", Found(r) /\ i = r.paddle,
                            x[3] = (j \in {Index(r, name) : name \in Stoppers}))
                : k \in 1..Len(r.tried)}

----------------------------------------------------------------------------
(* A state vector and back, and actions.                                   *)
\* what stands for no blocks at all is a block far to the side
Beyond(g) == RInt(2 * W) \preceq g.x
SameGiven(a, b) == REq(a.x, b.x) /\ REq(a.y, b.y) /\ REq(a.w, b.w) /\ REq(a.h, b.h)
Vector(g) == <<g.paddle.x, g.paddle.y, g.paddle.w, g.paddle.h>>
VectorClauses(r) ==
    Clause("the paddle and the ball come back", TRUE,
           /\ SameGiven(r.given.paddle, r.back.paddle)
           /\ REq(r.given.ball.x, r.back.ball.x) /\ REq(r.given.ball.y, r.back.ball.y) /\ REq(r.given.ball.r, r.back.ball.r))
    \cup Clause("the blocks come back in order", r.given.blocks # <<>>,
                /\ Len(r.given.blocks) = Len(r.back.blocks)
                /\ \A k \in 1..Len(r.given.blocks) : SameGiven(r.given.blocks[k], r.back.blocks[k]))
    \cup Clause("without blocks one beyond the screen stands for them", r.given.blocks = <<>>,
                Len(r.back.blocks) = 1 /\ Beyond(r.back.blocks[1]))
    \cup Clause("the vector begins with the paddle and ends with the ball", TRUE,
                /\ SeqEq(SubSeq(r.vector, 1, 4), Vector(r.given))
                /\ SeqEq(SubSeq(r.vector, Len(r.vector) - 2, Len(r.vector)), <<r.given.ball.x, r.given.ball.y, r.given.ball.r>>))
    \cup Clause("a vector made of parameters read from it is the same", TRUE, SeqEq(r.vector, r.again))
\* actions of the game: 0 none, 2 to the right, 3 to the left; the controller's are positive to the left
NoMove == 0
ToRight == 2
ToLeft == 3
ActionClauses(r) ==
    Clause("an action below the threshold is no move", RAbs(r.a) \prec r.threshold, r.action = NoMove)
    \cup Clause("an action above is a move to the side of its sign", r.threshold \preceq RAbs(r.a) /\ ~REq(r.a, R0),
                r.action = IF R0 \prec r.a THEN ToLeft ELSE ToRight)

----------------------------------------------------------------------------
(* A step of a Breakout world: r.bodies before, p2 and v2 after.           *)
SpanOf(S) == [l |-> MinOver(S, X), r |-> MaxOver(S, X), t |-> MinOver(S, Y), b |-> MaxOver(S, Y)]
\* where a body is in the course of a move by d in a straight line
Swept(b, d) ==
    LET e == <<X(Pos(b)) \oplus X(d), Y(Pos(b)) \oplus Y(d)>> IN
    IF b.kind = "c"
    THEN LET s == SpanOf({Pos(b), e}) IN [l |-> s.l \ominus b.r, r |-> s.r \oplus b.r, t |-> s.t \ominus b.r, b |-> s.b \oplus b.r]
    ELSE SpanOf(UNION {{Corners(b)[i], VAdd(Corners(b)[i], d)} : i \in 1..Len(b.vs)})
Apart(p, q, m) == \/ (p.r \oplus m) \prec q.l \/ (q.r \oplus m) \prec p.l
                  \/ (p.b \oplus m) \prec q.t \/ (q.b \oplus m) \prec p.t
Still == <<R0, R0>>
Margin == RRat(1, 2)
After(r, i) == r.after[i]
Command(r) == VScale(r.a, r.pv)
BallV(r) == <<r.bodies[r.ball].v[2], r.bodies[r.ball].v[3]>>
Turning(r) == ~REq(r.bodies[r.paddle].v[1], R0)
BallSweep(r) == Swept(r.bodies[r.ball], BallV(r))
PaddleSweep(r) == Swept(r.bodies[r.paddle], Command(r))
Others(r) == (1..Len(r.bodies)) \ {r.ball, r.paddle}
BallAlone(r) == Apart(BallSweep(r), PaddleSweep(r), Margin) /\ ~Turning(r)
Near(r) == {i \in Others(r) : /\ ~(i \in {Index(r, name) : name \in Stoppers})
                              /\ ~Apart(BallSweep(r), Swept(r.bodies[i], Still), Margin)}
PaddleFree(r) == BallAlone(r) /\ \A name \in Stoppers : Apart(PaddleSweep(r), Swept(r.bodies[Index(r, name)], Still), Margin)
\* the whole path of the ball is within the width (or the height) of a box
AgainstX(r, i) == LET s == BallSweep(r)  q == Swept(r.bodies[i], Still) IN q.l \preceq s.l /\ s.r \preceq q.r
AgainstY(r, i) == LET s == BallSweep(r)  q == Swept(r.bodies[i], Still) IN q.t \preceq s.t /\ s.b \preceq q.b
Acc == RExp10(-5)
StepClauses(r) ==
    LET b == r.bodies[r.ball]  v == BallV(r)
        v2 == <<r.v2[r.ball][2], r.v2[r.ball][3]>>
        p2 == <<r.p2[r.ball][2], r.p2[r.ball][3]>>
        pad == r.bodies[r.paddle]
        near == Near(r)
        size == R1 \oplus VNorm(v)
        one == CHOOSE i \in near : TRUE
        single == BallAlone(r) /\ Cardinality(near) = 1 IN
    Clause("a step lasts one frame", TRUE, RNear(r.t2 \ominus r.t, R1, RExp10(-9)))
    \cup Clause("the paddle moves as commanded if nothing is in its way", PaddleFree(r),
                VNear(<<r.p2[r.paddle][2], r.p2[r.paddle][3]>>, VAdd(Pos(pad), Command(r)), Acc))
    \cup Clause("the ball flies straight if nothing is in its way", BallAlone(r) /\ near = {},
                VNear(p2, VAdd(Pos(b), v), Acc) /\ VNear(v2, v, Acc))
    \cup Clause("the ball bounces off the scenery at equal speed", BallAlone(r) /\ near # {},
                RNear(VNorm(v2), VNorm(v), Acc \otimes size))
    \cup Clause("off a face it is reflected", single /\ (AgainstX(r, one) \/ AgainstY(r, one)),
                IF AgainstX(r, one)
                THEN RNear(v2[1], v[1], Acc \otimes size) /\ RNear(RAbs(v2[2]), RAbs(v[2]), Acc \otimes size)
                ELSE RNear(v2[2], v[2], Acc \otimes size) /\ RNear(RAbs(v2[1]), RAbs(v[1]), Acc \otimes size))
    \cup Clause("the ball stays on its side of a face", single /\ (AgainstX(r, one) \/ AgainstY(r, one)),
                LET c == Pos(r.bodies[one]) IN
                IF AgainstX(r, one) THEN R0 \preceq ((p2[2] \ominus c[2]) \otimes (Pos(b)[2] \ominus c[2]))
                ELSE R0 \preceq ((p2[1] \ominus c[1]) \otimes (Pos(b)[1] \ominus c[1])))
    \cup Clause("the ball gets into nothing", TRUE,
                \A i \in Others(r) \cup {r.paddle} :
                    i \notin {Index(r, name) : name \in Stoppers} => RNeg(RExp10(-5)) \preceq Sep(After(r, r.ball), After(r, i)))
    \cup Clause("everything else stays in place", TRUE, \A i \in Others(r) : SeqNear(r.p2[i], r.bodies[i].p, Acc))
    \cup Clause("the state returned is that after the step", r.sn # <<>>,
                /\ Len(r.sn) = 7 + 4 * Len(r.blocks)
                /\ VNear(<<r.sn[1], r.sn[2]>>, <<r.p2[r.paddle][2], r.p2[r.paddle][3]>>, RExp10(-12))
                /\ VNear(<<r.sn[Len(r.sn) - 2], r.sn[Len(r.sn) - 1]>>, p2, RExp10(-12))
                /\ REq(r.sn[Len(r.sn)], b.r)
                /\ VNear(<<r.sn[3], r.sn[4]>>, r.dims, RExp10(-9))
                /\ \A k \in 1..Len(r.blocks) : VNear(<<r.sn[4 * k + 1], r.sn[4 * k + 2]>>,
                                                     <<r.p2[r.blocks[k]][2], r.p2[r.blocks[k]][3]>>, RExp10(-12))
                                            /\ SeqNear(SubSeq(r.sn, 4 * k + 3, 4 * k + 4), r.sizes[k], RExp10(-9)))
    \cup Clause("the paddle follows the action: the gradient is its velocity", r.slope # <<>> /\ PaddleFree(r),
                VNear(r.slope, r.pv, Acc))
\* the paddle of the game and that of the world move to the same side
SideClauses(r) ==
    Clause("the world's paddle moves to the side the game's does", ~REq(r.a, R0) /\ ~REq(r.moved, R0),
           (r.action = ToRight) = (R0 \prec r.moved))

----------------------------------------------------------------------------
(* The controller: r.calls what it asked of the game, r.wanted what        *)
(* spec/Controller.tla asks for, r.plans its calls of the planner.         *)
ControlClauses(r) ==
    Clause("the controller plays as the model does", TRUE, r.calls = r.wanted)
    \cup Clause("the average reward is reported", TRUE,
                RClose(RMul(RInt(r.episodes), r.average), RInt(r.reward), RExp10(-12)))
    \cup UNION {LET p == r.plans[k]
                    e == Expected(StateOf(p.game))  old == Expected(StateOf(p.prev))  n == Len(p.state) IN
                Clause("plans are made for the state in the frame", TRUE,
                       /\ n = 7 + 4 * (IF e.blocks = {} THEN 1 ELSE Cardinality(e.blocks))
                       /\ Halves(p.state[1], e.paddle.x) /\ Halves(p.state[2], e.paddle.y)
                       /\ Halves(p.state[n - 2], e.ball[1]) /\ Halves(p.state[n - 1], e.ball[2]))
                \cup Clause("the ball's velocity is that between the last two frames", TRUE,
                            Halves(p.vel[1], e.ball[1] - old.ball[1]) /\ Halves(p.vel[2], e.ball[2] - old.ball[2]))
                \cup Clause("plans go on from the plan before", p.rest # <<>>, SeqEq(p.carried, p.rest))
                : k \in 1..Len(r.plans)}
----------------------------------------------------------------------------
(* The planner's problem: r.costs[t] with the cost matrix of frame t - 1.  *)
RECURSIVE QuadR(_, _, _)
QuadR(Q, x, i) == IF i > Len(x) THEN R0 ELSE (x[i] \otimes RDot(Q[i], x)) \oplus QuadR(Q, x, i + 1)
\* no ball on the screen: extract_params puts one in the middle, far below
Lost(r) == RInt(5 * H) \prec r.s[Len(r.s) - 1]
PlanClauses(r) ==
    UNION {LET x == r.x  n == Len(x)
               gap == x[n - 3] \ominus x[1]       \* the action is last
               cost == QuadR(r.costs[t], x, 1)
               price == r.lambda \otimes (x[n] \otimes x[n])
               frames == (r.s[2] \ominus r.s[Len(r.s) - 1]) \oslash r.vel[2]
               falling == R0 \prec r.vel[2] IN
           Clause("the paddle is to be below the ball until it arrives", falling /\ R0 \preceq frames /\ t - 1 <= RFloor(frames) + 1,
                  RClose(cost, (gap \otimes gap) \oplus price, RExp10(-9)))
           \cup Clause("there is nothing to do after that", falling /\ R0 \preceq frames /\ t - 1 > RFloor(frames) + 1,
                       RClose(cost, price, RExp10(-9)))
           \cup Clause("there is nothing to do while the ball rises", ~falling /\ (~r.centering \/ ~Lost(r)), RClose(cost, price, RExp10(-9)))
           \cup Clause("without a ball the paddle is to be in the middle, if that is asked for", ~falling /\ r.centering /\ Lost(r),
                       RClose(cost, (gap \otimes gap) \oplus price, RExp10(-9)))
           : t \in 1..Len(r.costs)}
    \cup Clause("actions are bounded", TRUE, REq(r.lower, RInt(0 - 1)) /\ REq(r.upper, R1))
    \cup Clause("the planner starts from the state and the plan given", TRUE, SeqEq(r.init, r.s) /\ SeqEq(r.guess, r.plan))
    \cup Clause("its model is a step of the world", TRUE, SeqNear(r.next, r.stepped, RExp10(-9)))
    \cup Clause("its answer is handed on", TRUE, SeqEq(r.answer, r.handed))

Verdict(r) ==
    CASE r.k = "frame" -> FrameClauses(r)
      [] r.k = "world" -> WorldClauses(r)
      [] r.k = "vector" -> VectorClauses(r)
      [] r.k = "action" -> ActionClauses(r)
      [] r.k = "side" -> SideClauses(r)
      [] r.k = "bstep" -> StepClauses(r)
      [] r.k = "control" -> ControlClauses(r)
      [] r.k = "plan" -> PlanClauses(r)
      [] OTHER -> {}
Init == JudgeInit
Next == JudgeNext(Verdict)
=============================================================================
