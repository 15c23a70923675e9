SPECIFICATION Spec
CONSTANTS B = 8
 L = 2
 MaxLen = 26
 MaxPiece = 19
INVARIANTS Absorbed PaddedWhole SplitIndependent
CHECK_DEADLOCK FALSE
