---------------------------- MODULE TraceChaCha ----------------------------
EXTENDS ChaCha, StreamTrace
NoIV(m, iv) == m
\* the keystream block of any counter value; the session is not disturbed
Block(s, ctr, out) == Known(s) /\ out = ChaChaBlock(sess[s].run.key, sess[s].run.nonce, ctr) /\ UNCHANGED sess
\* the exported quarter round works on words 2, 7, 8, 13 (from 0)
Quarter(in, out) == out = WordsToBytesBE(QuarterRound(BytesToWordsBE(in), 3, 8, 9, 14)) /\ UNCHANGED sess
TraceNextC ==
  \/ TraceNext
  \/ Is("Block") /\ Block(E.s, WordBE(E.ctr, 1), E.out)
  \/ Is("Quarter") /\ Quarter(E.in, E.out)
TraceSpecC == TraceInit /\ [][TraceNextC]_<<vars, l>>
=============================================================================
