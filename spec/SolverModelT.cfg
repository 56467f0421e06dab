INIT Init
NEXT Next
CONSTANTS Problems = 2  Iterates = 5  Levels = 2
INVARIANTS FollowsRule MoreIsBetter CompanyIsNoHarm
CHECK_DEADLOCK FALSE
