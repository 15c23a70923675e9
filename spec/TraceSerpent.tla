---------------------------- MODULE TraceSerpent ----------------------------
(* A Serpent object holds the round keys of the key loaded last. *)
EXTENDS Serpent, TraceBase
VARIABLE sess
vars == <<sess>>
LoadKey(s, key) == sess' = (s :> SerpentKeys(key)) @@ sess
Process(s, in, out) == s \in DOMAIN sess /\ out = WordsToBytesLE(Serpent24(sess[s], BytesToWordsLE(in))) /\ UNCHANGED sess
\* the S2 layer used by Sosemanuk on its own
Layer(in, out) == out = WordsToBytesLE(SBoxW(2, BytesToWordsLE(in))) /\ UNCHANGED sess
TraceInit == sess = <<>> /\ l = 1
TraceNext ==
  \/ Is("LoadKey") /\ LoadKey(E.s, E.key)
  \/ Is("Process") /\ Process(E.s, E.in, E.out)
  \/ Is("Layer")   /\ Layer(E.in, E.out)
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
=============================================================================
