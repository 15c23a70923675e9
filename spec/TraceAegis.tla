----------------------------- MODULE TraceAegis -----------------------------
EXTENDS Aegis, TraceBase
TraceInit == AegisInit /\ l = 1
TraceNext ==
  \/ Is("LoadKey") /\ LoadKey(E.s, E.key)
  \/ Is("Encrypt") /\ Encrypt(E.s, E.iv, E.ad, E.in, E.out, E.tag)
  \/ Is("EncryptLong") /\ EncryptLong(E.s, E.iv, E.adseed, E.adz, E.seed, E.z, WordBE(E.sum, 1), E.tag)
  \/ Is("Decrypt") /\ IF E.res = 1 THEN Accept(E.s, E.iv, E.ad, E.in, E.tag, E.out)
                      ELSE Reject(E.s, E.iv, E.ad, E.in, E.tag, Zeros(Len(E.in)))  \* what is released: AeChannel
  \/ Is("OpenLong") /\ E.kind = "ok" /\ E.res = 1 /\ WordBE(E.sum, 1) = PatternSum(E.seed, E.z) /\ UNCHANGED vars
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
=============================================================================
