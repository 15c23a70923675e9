INIT Init
NEXT Next
INVARIANT Show
CONSTANT Rounds = 20
CHECK_DEADLOCK FALSE
