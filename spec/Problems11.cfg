INIT Init
NEXT Next
CONSTANTS N = 1  M = 1  Part = 0  Parts = 1
INVARIANTS Planted Unique Emit
CHECK_DEADLOCK FALSE
