SPECIFICATION TraceSpec
CONSTANT Middle <- SixRounds
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
