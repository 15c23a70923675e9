---------------------------- MODULE TraceAesCfb ----------------------------
EXTENDS AesCfb, TraceBase
TraceInit == CfbInit /\ l = 1
TraceNext ==
  \/ Is("Initialize") /\ Initialize(E.s, E.key, E.iv)
  \/ Is("Encrypt") /\ Encrypt(E.s, E.in, E.out)
  \/ Is("Decrypt") /\ Decrypt(E.s, E.in, E.out)
  \/ Is("EncryptLong") /\ EncryptLong(E.s, E.seed, E.z, WordBE(E.sum, 1))
  \/ Is("DecryptLong") /\ DecryptLong(E.s, E.seed, E.z, WordBE(E.sum, 1))
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
=============================================================================
