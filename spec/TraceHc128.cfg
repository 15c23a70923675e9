SPECIFICATION TraceSpec
CONSTANTS KeySetup <- Hc128Key
 IvSetup <- NoIV
 Packet <- Hc128Packet
 PacketLong <- Hc128Long
 IvNeeded = FALSE
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
