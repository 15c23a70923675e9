--------------------------- MODULE TraceAeChannel ---------------------------
EXTENDS AeChannel, TraceBase
TraceInit == AeInit /\ l = 1
TraceNext ==
  \/ Is("LoadKey") /\ LoadKey(E.s, E.key)
  \/ Is("Encrypt") /\ Seal(E.s, E.iv, E.ad, E.in, E.out, E.tag)
  \/ Is("Decrypt") /\ IF E.res = 1 THEN Accept(E.s, E.iv, E.ad, E.in, E.tag, E.out)
                      ELSE Reject(E.s, E.iv, E.ad, E.in, E.tag, E.out, E.prior)
  \/ Is("EncryptLong") /\ SealLong(E.s, E.seed, E.z)
  \/ Is("OpenLong") /\ OpenLong(E.s, E.kind, E.res = 1, WordBE(E.sum, 1), E.blank = 1)
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
=============================================================================
