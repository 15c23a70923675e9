SPECIFICATION TraceSpecC
CONSTANTS KeySetup <- ChaChaKey
 IvSetup <- NoIV
 Packet <- ChaChaPacket
 PacketLong <- ChaChaLong
 IvNeeded = FALSE
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
CONSTANT Rounds = 12
