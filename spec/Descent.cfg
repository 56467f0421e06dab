SPECIFICATION Spec
CONSTANTS Losses = {2, 5, 9}  Flat = TRUE  Eps = 1  MaxIter = 5
INVARIANTS SettledAtTheEnd NotSettledBefore Bounded Downhill Emit
PROPERTY Ends
CHECK_DEADLOCK FALSE
