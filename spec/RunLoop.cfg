INIT Init
NEXT Next
CONSTANTS DT = 2  RunTimes = {0, 1, 2, 7, 8}  Animations = {1, 2, 5}  Costs = {0, 1, 3, 6}
  Kinds = {"bare", "screen", "recorder", "batch"}  Closings = {0, 1, 3}
INVARIANTS EndsInTime NotAhead AllRecorded NoneSeen Paced Emit
CHECK_DEADLOCK FALSE
