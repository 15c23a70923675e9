SPECIFICATION Spec
CONSTANTS Defect = "renew"
 Objects = {1, 2}
 MaxCalls = 3
 Laps = 4
 Warm = 2
INVARIANT Read
CHECK_DEADLOCK FALSE
