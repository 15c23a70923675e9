SPECIFICATION Spec
CONSTANTS Resets = {"Init", "Initialize", "Start", "Whole", "LoadKey", "LoadEnc", "LoadDec"}
 NeedFrame = FALSE
 Whole = FALSE
VIEW View
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
