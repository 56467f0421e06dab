INIT Init
NEXT Next
CONSTANTS Intervals = {1, 2, 3}  Increments = {0, 1, 2, 4}  MaxCalls = 5
INVARIANTS NeverEarly KeepsUp Increasing Emit
CHECK_DEADLOCK FALSE
