SPECIFICATION Spec
CONSTANTS B = 2
 MaxLen = 4
 MaxPackets = 3
INVARIANT Synchronised
INVARIANT DamageIsLocal
CHECK_DEADLOCK FALSE
