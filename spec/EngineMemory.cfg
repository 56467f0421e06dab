INIT Init
NEXT Next
CONSTANTS MaxOps = 6  Kinds <- AllKinds
INVARIANTS RightAnswer CacheCurrent Emit
CHECK_DEADLOCK FALSE
