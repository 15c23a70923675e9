---------------------------- MODULE TraceDesCtr ----------------------------
EXTENDS DesCtr, TraceBase
TraceInit == CInit /\ l = 1
TraceNext ==
  \/ Is("LoadEnc") /\ Load(E.s, E.key)
  \/ Is("Process") /\ Other(E.s, E.in, E.out)
  \/ Is("Ctr")     /\ Ctr(E.s, E.nonce, E.in, E.out)
ReportKnown == l = Len(Trace) + 1 => PrintT("KNOWN " \o ToString(known))
TraceSpec == TraceInit /\ [][TraceNext]_<<cvars, l>>
=============================================================================
