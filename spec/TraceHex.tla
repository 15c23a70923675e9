------------------------------ MODULE TraceHex ------------------------------
EXTENDS Hex, TraceBase
TraceInit == l = 1
TraceNext ==
  \/ Is("Encode") /\ E.out = Append(Encode(E.in), 0)
  \/ Is("Decode") /\ E.out = Decode(E.in)
  \/ Is("EncodeLong") /\ WordBE(E.sum, 1) = EncodeLong(E.seed, E.z)
  \/ Is("DecodeLong") /\ WordBE(E.sum, 1) = PatternSum(E.seed, E.z)        \* the text of the pattern
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
