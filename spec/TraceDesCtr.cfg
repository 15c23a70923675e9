CONSTANT DefectListed = TRUE
SPECIFICATION TraceSpec
INVARIANT ReportKnown
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
