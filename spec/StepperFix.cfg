INIT Init
NEXT Next
CONSTANTS DT = 4096  Modes <- FixedModes  Speeds <- SomeSpeeds  Corrections <- SomeCorrections  MaxCalls = 1  MaxRejects = 4
INVARIANTS InTime FixedArrives AdvancesAtMost Accounted NothingLeft StrictClear LongestClear LenientBound LenientTrials Progress Emit
CHECK_DEADLOCK FALSE
