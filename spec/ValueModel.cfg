SPECIFICATION Spec
CONSTANTS Defect = "none"
 Places = {1, 2, 3}
 MaxCalls = 3
INVARIANTS NoConflict Kept
CHECK_DEADLOCK FALSE
