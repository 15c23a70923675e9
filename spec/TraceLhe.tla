------------------------------ MODULE TraceLhe ------------------------------
EXTENDS LheSession, TraceBase
B(x) == FromBE(x)
TraceInit == LInit /\ l = 1
\* every call leaves its inputs alone
Frame == "frame" \in DOMAIN E => E.frame = 1
TraceNext == l <= Len(Trace) /\ Frame /\
  (
  \/ Is("KeyGen")   /\ KeyGen(E.id, E.k, B(E.n), B(E.y), B(E.p))
  \/ Is("UserKey")  /\ UserKey(E.id, B(E.c), B(E.x))
  \/ Is("MaskInit") /\ MaskInit(E.h, E.key, E.iv)
  \/ Is("Encrypt")  /\ Encrypt(E.s, E.id, E.h, B(E.m), B(E.label), B(E.a), B(E.c), B(E.b))
  \/ Is("EncMask")  /\ EncMask(E.s, E.s1, E.s2, B(E.c))
  \/ Is("AddL")     /\ AddL(E.s, E.s1, E.s2, B(E.a), B(E.c))
  \/ Is("SubL")     /\ SubL(E.s, E.s1, E.s2, B(E.a), B(E.c))
  \/ Is("CMulL")    /\ CMulL(E.s, E.s1, B(E.x), B(E.a), B(E.c))
  \/ Is("AddA")     /\ AddA(E.s, E.s1, E.s2, B(E.c))
  \/ Is("SubA")     /\ SubA(E.s, E.s1, E.s2, B(E.c))
  \/ Is("CMulA")    /\ CMulA(E.s, E.s1, B(E.x), B(E.c))
  \/ Is("Mult")     /\ Mult(E.s, E.s1, E.s2, B(E.c))
  \/ Is("Mult3")    /\ Mult3(E.s, E.s1, E.s2, E.s3, E.h12, E.h13, E.h23, B(E.c))
  \/ Is("DecL")     /\ DecL(E.s, B(E.m))
  \/ Is("DecA")     /\ DecA(E.s, B(E.b), B(E.m))
  )
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
=============================================================================
