INIT Init
NEXT Next
CONSTANTS Episodes = {3, 4}  MaxSteps = 2  Serves = 5  Plans = {"left"}
INVARIANTS Served Answered Emit
CHECK_DEADLOCK FALSE
