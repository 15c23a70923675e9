SPECIFICATION Spec
CONSTANTS B = 2
 MaxLen = 3
 MaxPackets = 2
INVARIANT Synchronised
INVARIANT DamageIsLocal
CHECK_DEADLOCK FALSE
