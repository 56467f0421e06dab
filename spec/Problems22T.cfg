INIT Init
NEXT Next
CONSTANTS N = 2  M = 2  Part = 0  Parts = 6
INVARIANTS Planted Emit
CHECK_DEADLOCK FALSE
