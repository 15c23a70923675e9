SPECIFICATION TraceSpec
CONSTANTS KeySetup <- RabbitKey
 IvSetup <- RabbitIV
 Packet <- RabbitPacket
 PacketLong <- RabbitLong
 IvNeeded = FALSE
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
