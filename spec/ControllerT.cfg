INIT Init
NEXT Next
CONSTANTS Episodes = {1, 2}  MaxSteps = 3  Serves = 5  Plans = {"none", "left", "right"}
INVARIANTS Served Answered Emit
CHECK_DEADLOCK FALSE
