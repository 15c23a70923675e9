CONSTANT DefectListed = FALSE
SPECIFICATION TraceSpec
INVARIANT ReportKnown
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
