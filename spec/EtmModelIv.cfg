SPECIFICATION Spec
CONSTANTS B = 2
 MaxLen = 5
 MaxPackets = 3
 MaxDeliveries = 4
 Mode = "iv"
 Order = TRUE
INVARIANTS TailRight AllRight
PROPERTY Recoverable
CHECK_DEADLOCK FALSE
