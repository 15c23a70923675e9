------------------------------ MODULE TraceJl ------------------------------
EXTENDS JlSession, TraceBase
B(x) == FromBE(x)
TraceInit == JInit /\ l = 1
\* every call leaves its inputs alone
Frame == "frame" \in DOMAIN E => E.frame = 1
TraceNext == l <= Len(Trace) /\ Frame /\
  (
  \/ Is("KeyGen")  /\ KeyGen(E.id, E.k, E.size, B(E.n), B(E.y), B(E.p))
  \/ Is("SetKey")  /\ SetKey(E.id, E.k, B(E.n), B(E.y), B(E.p))
  \/ Is("Encrypt") /\ Encrypt(E.s, E.id, B(E.m), B(E.c))
  \/ Is("Product") /\ Product(E.s, E.a, E.b, B(E.c))
  \/ Is("Power")   /\ Power(E.s, E.a, B(E.x), B(E.c))
  \/ Is("Decrypt") /\ Decrypt(E.s, B(E.m))
  \/ Is("Raw")     /\ DecryptRaw(E.id, B(E.c), B(E.m))
  )
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
=============================================================================
