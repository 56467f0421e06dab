SPECIFICATION Spec
CONSTANTS DT = 16777216  Modes <- LenientModes  Speeds <- OneSpeed  Corrections <- NoCorrections  MaxCalls = 1  MaxRejects = 1000
INVARIANTS InTime FixedArrives Accounted NothingLeft LongestClear LenientBound LenientTrials Progress
PROPERTY Returns
CHECK_DEADLOCK FALSE
