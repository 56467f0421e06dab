INIT Init
NEXT Next
CONSTANTS N = 4  Dist <- DistSet  Eps = 0
INVARIANTS SeparatedIffSome BestIsMax EdgeUnique
CHECK_DEADLOCK FALSE
