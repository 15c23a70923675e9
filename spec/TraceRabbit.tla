---------------------------- MODULE TraceRabbit ----------------------------
EXTENDS Rabbit, StreamTrace
=============================================================================
