--------------------------- MODULE TraceSosemanuk ---------------------------
EXTENDS Sosemanuk, StreamTrace
=============================================================================
