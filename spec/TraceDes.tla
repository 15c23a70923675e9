------------------------------ MODULE TraceDes ------------------------------
EXTENDS DesSession, TraceBase
TraceInit == DInit /\ l = 1
TraceNext ==
  \/ Is("LoadEnc") /\ LoadEnc(E.s, E.key)
  \/ Is("LoadDec") /\ LoadDec(E.s, E.key)
  \/ Is("Process") /\ Process(E.s, E.in, E.out)
  \/ Is("ProcessLong") /\ ProcessLong(E.s, E.seed, E.z, WordBE(E.sum, 1))
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
=============================================================================
