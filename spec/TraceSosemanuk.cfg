SPECIFICATION TraceSpec
CONSTANTS KeySetup <- SosKey
 IvSetup <- SosIV
 Packet <- SosPacket
 PacketLong <- SosLong
 IvNeeded = TRUE
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
