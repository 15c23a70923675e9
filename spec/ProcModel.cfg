SPECIFICATION Spec
CONSTANTS Defect = ""
 Settings = {0, 1, 2}
 Inputs = {0, 1}
 MaxCalls = 4
INVARIANTS Kept Same
CHECK_DEADLOCK FALSE
