---------------------------- MODULE StreamTrace ----------------------------
EXTENDS StreamSession, TraceBase
TraceInit == SInit /\ l = 1
TraceNext ==
  \/ Is("LoadKey")   /\ LoadKey(E.s, E.key)
  \/ Is("Init")      /\ LoadKey(E.s, E.key \o E.iv)
  \/ Is("LoadIV")    /\ LoadIV(E.s, E.iv)
  \/ Is("Process")   /\ Process(E.s, E.in, E.out)
  \/ Is("ProcessLong") /\ ProcessLong(E.s, E.seed, E.z, WordBE(E.sum, 1))
  \/ Is("Keystream") /\ Keystream(E.s, Len(E.out), E.out)
  \/ Is("Burn")      /\ Burn(E.s, E.n)
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
=============================================================================
