------------------------------- MODULE Reader -------------------------------
(***************************************************************************)
(* The way the encoder reads a frame, on a small screen: checked by TLC to *)
(* give the expected parameters for every readable state of the game.      *)
(***************************************************************************)
EXTENDS Breakout, TLC, Json

CONSTANTS Slots,        \* the columns at which blocks start and end
          Paddles, BallRows, BallCols, Fillings

VARIABLE s

Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
\* of the slots of a row that hold a block, the maximal runs
Runs(row, filled) ==
    {<<row, Slots[i], Slots[j + 1]>> : <<i, j>> \in
        {p \in filled \X filled : /\ p[1] <= p[2] /\ \A m \in p[1]..p[2] : m \in filled
                                  /\ p[1] - 1 \notin filled /\ p[2] + 1 \notin filled}}
AllFillings == [1..Len(Colors) -> SUBSET (1..(Len(Slots) - 1))]
\* some rows with the same blocks
FewFillings == {[i \in 1..Len(Colors) |-> IF i \in rows THEN S ELSE {}] :
                   rows \in {{1}, {2, 4, 6}, 1..6, {1, 6}}, S \in SUBSET (1..(Len(Slots) - 1))}
SmallSlots == <<2, 5, 8, 12>>
RealSlots == <<8, 16, 48, 96, 152>>
Balls == {<<>>} \cup (BallRows \X BallCols)
\* chosen in two steps, so that TLC's workers share them
Init == \E p \in Paddles, b \in Balls : s = [paddle |-> p, blocks |-> {}, ball |-> b, ready |-> FALSE]
Next == /\ ~s.ready
        /\ \E f \in Fillings : s' = [s EXCEPT !.blocks = UNION {Runs(i, f[i]) : i \in 1..Len(Colors)}, !.ready = TRUE]

Cols(from) == from..(W - 1)
\* the first column of the largest value in a line
ArgMax(f(_), from) == LET m == Max({f(j) : j \in Cols(from)}) IN Min({j \in Cols(from) : f(j) = m})
\* the first column from which a line is not red, 0 (an offset) if there is none
RedEnd(f(_), from) == LET S == {j \in Cols(from) : f(j) # Red} IN IF S = {} THEN from ELSE Min(S)

Read ==
    LET line(j) == Pixel(s, Line, j)
        first == ArgMax(line, 0)
        left == IF line(first + BallW) # Red THEN ArgMax(line, first + BallW) ELSE first
        end == RedEnd(line, left)
        right == Least(IF end = left THEN W ELSE end, left + PaddleW)
        \* one row and one column too many
        cleared == Box(Line, left, Line + PaddleH + 1, right + 1)
        blocks == UNION {LET top == BlockTop + (i - 1) * BlockH
                             on(j) == ~In(cleared, top, j) /\ Pixel(s, top, j) = Colors[i] IN
                         {Box(top, r[1], top + BlockH, r[2]) : r \in
                             {q \in Cols(1) \X (1..W) : /\ q[1] + BallW < q[2]
                                                        /\ \A j \in q[1]..(q[2] - 1) : on(j)
                                                        /\ ~on(q[1] - 1) /\ (q[2] = W \/ ~on(q[2]))}} : i \in 1..Len(Colors)}
        red == {p \in (0..(H - 1)) \X (0..(W - 1)) : /\ Pixel(s, p[1], p[2]) = Red
                                                     /\ ~In(cleared, p[1], p[2]) /\ ~In(RightStopper, p[1], p[2])
                                                     /\ \A r \in blocks : ~In(r, p[1], p[2])}
        row == Min({p[1] : p \in red})
        col == Min({p[2] : p \in {q \in red : q[1] = row}})
        wide == Min({j \in Cols(col) : <<row, j>> \notin red}) - col
        high == Min({i \in row..(H - 1) : <<i, col>> \notin red}) - row IN
    [paddle |-> Shape(Box(Line, left, Line + PaddleH, right)),
     blocks |-> {Shape(r) : r \in blocks},
     ball |-> IF red = {} THEN <<>> ELSE <<2 * col + wide, 2 * row + high, Least(Least(wide, high), 2)>>]

ReadsRight == s.ready /\ Readable(s) => Read = Expected(s)
Emit == s.ready /\ Readable(s) => PrintT("BEH " \o ToJson([paddle |-> s.paddle, blocks |-> s.blocks, ball |-> s.ball]))
=============================================================================
