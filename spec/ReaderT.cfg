INIT Init
NEXT Next
CONSTANTS H = 15  W = 14  Wall = 2  RoofTop = 0  Roof = 1  BlockTop = 3  BlockH = 2  Colors <- SmallColors  Line = 10  PaddleH = 2  PaddleW = 4
  BallH = 2  BallW = 2  StopperH = 3
  Slots <- SmallSlots  Paddles = {2, 3, 5, 6, 9, 10}  BallRows = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13}  BallCols = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11}  Fillings <- AllFillings
INVARIANTS ReadsRight
CHECK_DEADLOCK FALSE
