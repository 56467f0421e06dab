INIT Init
NEXT Next
CONSTANTS Intervals = {1, 2, 3, 5}  Increments = {0, 1, 2, 3, 4, 7}  MaxCalls = 6
INVARIANTS NeverEarly KeepsUp Increasing Emit
CHECK_DEADLOCK FALSE
