INIT Init
NEXT Next
CONSTANTS H = 210  W = 160  Wall = 8  RoofTop = 17  Roof = 31  BlockTop = 57  BlockH = 6  Colors <- RealColors  Line = 189  PaddleH = 4
  PaddleW = 16  BallH = 4  BallW = 2  StopperH = 6
  Slots <- RealSlots  Paddles = {8, 9, 70, 136, 143, 144}  BallRows = {31, 53, 54, 57, 58, 63, 93, 150, 185, 186, 189, 190, 193, 205}
  BallCols = {8, 14, 46, 48, 54, 67, 68, 86, 88, 150}  Fillings <- FewFillings
INVARIANTS Emit
CHECK_DEADLOCK FALSE
