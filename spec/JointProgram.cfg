SPECIFICATION Spec
CONSTANTS Resets = {}
 NeedFrame = TRUE
 Whole = TRUE
VIEW View
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
