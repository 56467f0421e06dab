SPECIFICATION Spec
CONSTANTS Losses = {1, 2, 5, 9}  Flat = FALSE  Eps = 1  MaxIter = 6
INVARIANTS SettledAtTheEnd NotSettledBefore Bounded Downhill Emit
PROPERTY Ends
CHECK_DEADLOCK FALSE
