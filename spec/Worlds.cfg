INIT Init
NEXT Next
CONSTANTS Steps = 2  MaxNoise = 2
INVARIANTS Independent ScratchFits Emit
CHECK_DEADLOCK FALSE
