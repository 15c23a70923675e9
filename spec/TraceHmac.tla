----------------------------- MODULE TraceHmac -----------------------------
EXTENDS HmacSession, TraceBase
TraceInit == HInit /\ l = 1
TraceNext ==
  \/ Is("LoadKey")  /\ LoadKey(E.s, E.key)
  \/ Is("Tag")      /\ Tag(E.s, E.in, E.tag)
  \/ Is("Validate") /\ Validate(E.s, E.in, E.tag, E.res = 1)
  \/ Is("TagLong")  /\ TagLong(E.s, E.seed, E.z, E.tag)
  \/ Is("ValidateLong") /\ ValidateLong(E.s, E.seed, E.z, E.tag, E.res = 1)
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
=============================================================================
