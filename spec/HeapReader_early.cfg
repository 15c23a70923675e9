SPECIFICATION Spec
CONSTANTS Defect = "early"
 Objects = {1, 2}
 MaxCalls = 3
 Laps = 4
 Warm = 2
INVARIANT Read
CHECK_DEADLOCK FALSE
