INIT Init
NEXT Next
CONSTANTS N = 3  Depth = 5  MaxExclude = 2  MaxMove = 2
INVARIANTS NeverExcluded NothingLost Emit
CHECK_DEADLOCK FALSE
