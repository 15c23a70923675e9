---------------------------- MODULE TraceAesCtr ----------------------------
EXTENDS AesCtr, TraceBase
TraceInit == CtrInit /\ l = 1
TraceNext ==
  \/ Is("LoadKey") /\ LoadKey(E.s, E.key)
  \/ Is("LoadIV")  /\ LoadIV(E.s, E.iv)
  \/ Is("Process") /\ Process(E.s, E.in, E.out)
  \/ Is("ProcessLong") /\ ProcessLong(E.s, E.seed, E.z, WordBE(E.sum, 1))
  \/ Is("Burn")    /\ Burn(E.s, E.blocks)
  \/ Is("Block")   /\ Block(E.s, E.out)
  \/ Is("SetCounter") /\ IF E.done = 1 THEN Seek(E.s, WordBE(E.ctr, 1)) ELSE UNCHANGED sess
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
=============================================================================
