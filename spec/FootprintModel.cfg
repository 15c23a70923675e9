SPECIFICATION Spec
CONSTANTS Defect = "none"
 MaxLen = 70
 Block = 16
 Word = 4
INVARIANTS Inside Everything
CHECK_DEADLOCK FALSE
