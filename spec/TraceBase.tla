----------------------------- MODULE TraceBase -----------------------------
(***************************************************************************)
(* Reading position in a recorded trace.  A trace module extends a session *)
(* machine and this module; each of its actions consumes one line and is   *)
(* the conjunction of Is("...") with an action of the machine.  The trace  *)
(* is accepted when every line has been consumed.                          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
Is(op) == l <= Len(Trace) /\ Trace[l].e = op /\ l' = l + 1
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
