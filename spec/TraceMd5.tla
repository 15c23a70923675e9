------------------------------ MODULE TraceMd5 ------------------------------
EXTENDS Md5Session, TraceBase
TraceInit == MInit /\ l = 1
TraceNext ==
  \/ Is("Start")  /\ Start(E.s)
  \/ Is("Update") /\ Update(E.s, E.in)
  \/ Is("UpdateLong") /\ UpdateLong(E.s, E.seed, E.z)
  \/ Is("Skip")   /\ IF E.done = 1 THEN Skip(E.s, WordBE(E.lo, 1), WordBE(E.hi, 1)) ELSE UNCHANGED vars
  \/ Is("Final")  /\ Final(E.s, E.out, E.left)
  \/ Is("Whole")  /\ Whole(E.s, E.in, E.out, E.left)
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
=============================================================================
