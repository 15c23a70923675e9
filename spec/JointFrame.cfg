SPECIFICATION Spec
CONSTANTS Resets = {}
 NeedFrame = TRUE
 Whole = FALSE
VIEW View
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
