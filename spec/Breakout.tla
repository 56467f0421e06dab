------------------------------ MODULE Breakout ------------------------------
(***************************************************************************)
(* The game of Breakout as its screen shows it, and the parameters that    *)
(* can be read from a frame.  Rows and columns are counted from 0; places  *)
(* are in half pixels.  A state of the game is the column of the paddle,   *)
(* the runs of blocks <<row of blocks, from, to>>, and the ball's top left *)
(* pixel, or <<>> if there is none.                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS H, W, Wall, RoofTop, Roof, BlockTop, BlockH, Colors, Line, PaddleH, PaddleW, BallH, BallW, StopperH
Red == 200
Gray == 142
Cyan == 66

RealColors == <<200, 198, 180, 162, 72, 66>>
SmallColors == <<200, 198>>

In(r, i, j) == r.t <= i /\ i < r.b /\ r.l <= j /\ j < r.r
Overlap(p, q) == p.t < q.b /\ q.t < p.b /\ p.l < q.r /\ q.l < p.r
Box(t, l, b, r) == [t |-> t, l |-> l, b |-> b, r |-> r]

PaddleBox(s) == Box(Line, s.paddle, Line + PaddleH, s.paddle + PaddleW)
BallBox(s) == Box(s.ball[1], s.ball[2], s.ball[1] + BallH, s.ball[2] + BallW)
BlockBox(k) == Box(BlockTop + (k[1] - 1) * BlockH, k[2], BlockTop + k[1] * BlockH, k[3])
LeftStopper == Box(Line, 0, Line + StopperH, Wall)
RightStopper == Box(Line, W - Wall, Line + StopperH, W)
RoofBox == Box(RoofTop, 0, Roof, W)
LeftWall == Box(Roof, 0, Line, Wall)
RightWall == Box(Roof, W - Wall, Line, W)

\* the red channel of a pixel
Pixel(s, i, j) ==
    IF s.ball # <<>> /\ In(BallBox(s), i, j) THEN Red
    ELSE IF In(PaddleBox(s), i, j) \/ In(RightStopper, i, j) THEN Red
    ELSE IF In(LeftStopper, i, j) THEN Cyan
    ELSE IF In(RoofBox, i, j) \/ In(LeftWall, i, j) \/ In(RightWall, i, j) THEN Gray
    ELSE IF \E k \in s.blocks : In(BlockBox(k), i, j) THEN Colors[(CHOOSE k \in s.blocks : In(BlockBox(k), i, j))[1]]
    ELSE 0

(* States that a frame tells apart: the ball flies free, and next to what  *)
(* is red it does not look like a part of it.                              *)
Beside(p, q) == p.l <= q.r /\ q.l <= p.r
Covers(p, i) == p.t <= i /\ i < p.b
Proper(s) ==
    /\ s.paddle \in Wall..(W - PaddleW)
    /\ \A k \in s.blocks : /\ k[1] \in 1..Len(Colors) /\ Wall <= k[2] /\ k[2] + BallW < k[3] /\ k[3] <= W - Wall
                           /\ \A m \in s.blocks : m # k /\ m[1] = k[1] => m[3] < k[2] \/ k[3] < m[2]
    /\ s.ball # <<>> => LET b == BallBox(s) IN
          /\ Roof <= b.t /\ b.b < H /\ Wall <= b.l /\ b.r <= W - Wall
          /\ ~Overlap(b, PaddleBox(s))
          /\ \A k \in s.blocks : ~Overlap(b, BlockBox(k))
Readable(s) ==
    /\ Proper(s)
    /\ s.ball # <<>> => LET b == BallBox(s)  p == PaddleBox(s) IN
          /\ ~(Covers(b, Line) /\ Beside(b, p))
          /\ ~Overlap(b, Box(p.t, p.l, p.b + 1, p.r + 1))
          /\ ~(Covers(b, BlockTop) /\ \E k \in s.blocks : k[1] = 1 /\ Beside(b, BlockBox(k)))

\* what is to be read: twice the center, and the size
Shape(r) == [x |-> r.l + r.r, y |-> r.t + r.b, w |-> r.r - r.l, h |-> r.b - r.t]
Least(a, b) == IF a < b THEN a ELSE b
Expected(s) == [paddle |-> Shape(PaddleBox(s)),
                blocks |-> {Shape(BlockBox(k)) : k \in s.blocks},
                ball |-> IF s.ball = <<>> THEN <<>>
                         ELSE <<Shape(BallBox(s)).x, Shape(BallBox(s)).y, Least(Least(BallH, BallW), 2)>>]

(* The scenery of the physical world: the ball may hit some of it, the     *)
(* paddle the stoppers, and nothing of it moves.                           *)
Scenery == [left |-> Box(0, 0, Line, Wall), right |-> Box(0, W - Wall, Line + StopperH, W),
            roof |-> Box(0, Wall, Roof, W - Wall), stopleft |-> LeftStopper,
            stopright |-> Box(Line, W, Line + StopperH, W + Wall)]
Bouncers == {"left", "right", "roof"}
Stoppers == {"stopleft", "stopright"}
=============================================================================
