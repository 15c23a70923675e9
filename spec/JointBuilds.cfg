SPECIFICATION Spec
CONSTANTS Resets = {}
 NeedFrame = FALSE
 Whole = FALSE
VIEW View
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
