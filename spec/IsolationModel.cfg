SPECIFICATION Spec
CONSTANTS Defect = "none"
 MaxCalls = 6
 MaxRuns = 2
INVARIANT NoConflict
CHECK_DEADLOCK FALSE
