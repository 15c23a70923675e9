SPECIFICATION Spec
CONSTANTS Defect = ""
 Objects = {1, 2}
 MaxCalls = 3
 Laps = 4
 Warm = 2
INVARIANTS Bounded Quiet Read
CHECK_DEADLOCK FALSE
