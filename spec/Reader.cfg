INIT Init
NEXT Next
CONSTANTS H = 15  W = 14  Wall = 2  RoofTop = 0  Roof = 1  BlockTop = 3  BlockH = 2  Colors <- SmallColors  Line = 10  PaddleH = 2  PaddleW = 4
  BallH = 2  BallW = 2  StopperH = 3
  Slots <- SmallSlots  Paddles = {2, 6, 9}  BallRows = {1, 2, 3, 7, 9, 10, 12}  BallCols = {2, 3, 4, 5, 7, 8, 10}  Fillings <- AllFillings
INVARIANTS ReadsRight
CHECK_DEADLOCK FALSE
