SPECIFICATION TraceSpec
CONSTANT Middle <- FullRounds
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
