---------------------------- MODULE TraceHc128 ----------------------------
EXTENDS Hc128, StreamTrace
NoIV(m, iv) == m
=============================================================================
