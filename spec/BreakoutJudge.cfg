INIT Init
NEXT Next
CONSTANTS H = 210  W = 160  Wall = 8  RoofTop = 17  Roof = 31  BlockTop = 57  BlockH = 6  Colors <- RealColors  Line = 189  PaddleH = 4
  PaddleW = 16  BallH = 4  BallW = 2  StopperH = 6
CHECK_DEADLOCK FALSE
