SPECIFICATION Spec
CONSTANTS Defect = "none"
 MaxLen = 40
 Block = 8
 Word = 4
INVARIANTS Right Kept InputKept
CHECK_DEADLOCK FALSE
