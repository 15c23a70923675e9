INIT Init
NEXT Next
INVARIANT Show
CHECK_DEADLOCK FALSE
