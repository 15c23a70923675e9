SPECIFICATION Spec
INVARIANTS Collected Sign Finished
CHECK_DEADLOCK FALSE
