---------------------------- MODULE TraceSha256 ----------------------------
(* Hashing keeps no state: a digest depends on the bytes of its own message only. *)
EXTENDS Sha256, TraceBase
TraceInit == l = 1
TraceNext ==
  \/ Is("Hash") /\ E.out = Digest(E.in)
  \/ Is("HashLong") /\ E.out = DigestLong(<<>>, E.seed, E.z)
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
