SPECIFICATION Spec
CONSTANT N = 3
VIEW View
INVARIANT TypeOK
ACTION_CONSTRAINT PrintEdge
CHECK_DEADLOCK FALSE
