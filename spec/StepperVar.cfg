INIT Init
NEXT Next
CONSTANTS DT = 4096  Modes <- VariableModes  Speeds <- SomeSpeeds  Corrections <- SomeCorrections  MaxCalls = 2  MaxRejects = 6
INVARIANTS InTime FixedArrives AdvancesAtMost Accounted NothingLeft StrictClear LongestClear LenientBound LenientTrials Progress Emit
CHECK_DEADLOCK FALSE
