INIT Init
NEXT Next
CONSTANTS DT = 2  RunTimes = {0, 1, 2, 3, 8, 11}  Animations = {1, 2, 3, 5, 9}  Costs = {0, 1, 2, 3, 7}
  Kinds = {"bare", "screen", "recorder", "batch"}  Closings = {0, 1, 2, 4}
INVARIANTS EndsInTime NotAhead AllRecorded NoneSeen Paced Emit
CHECK_DEADLOCK FALSE
