------------------------------- MODULE ChaCha -------------------------------
(* ChaCha of RFC 8439 with a configurable number of rounds. *)
EXTENDS Integers, Sequences, SequencesExt, TLC, Words
CONSTANT Rounds            \* 20, 12 or 8
LOCAL Sigma == <<1634760805, 857760878, 2036477234, 1797285236>>
QuarterRound(s, a, b, c, d) ==
  LET a1 == AddW(s[a], s[b])   d1 == RotlW(XorW(s[d], a1), 16)
      c1 == AddW(s[c], d1)     b1 == RotlW(XorW(s[b], c1), 12)
      a2 == AddW(a1, b1)       d2 == RotlW(XorW(d1, a2), 8)
      c2 == AddW(c1, d2)       b2 == RotlW(XorW(b1, c2), 7)
  IN  [s EXCEPT ![a] = a2, ![b] = b2, ![c] = c2, ![d] = d2]
\* index quadruples of a column round followed by a diagonal round, from 1
LOCAL Quads == << <<1,5,9,13>>, <<2,6,10,14>>, <<3,7,11,15>>, <<4,8,12,16>>,
                  <<1,6,11,16>>, <<2,7,12,13>>, <<3,8,9,14>>, <<4,5,10,15>> >>
LOCAL DoubleRound(s) == FoldLeft(LAMBDA t, q : QuarterRound(t, q[1], q[2], q[3], q[4]), s, Quads)
\* 64 keystream bytes of one block; key: 8 words, nonce: 3 words, ctr: a word
BlockOf(rounds, key, nonce, ctr) ==
  LET s0 == Sigma \o key \o <<ctr>> \o nonce
      s1 == FoldLeft(LAMBDA t, i : DoubleRound(t), s0, [i \in 1..(rounds \div 2) |-> i])
  IN  WordsToBytesLE([i \in 1..16 |-> AddW(s1[i], s0[i])])
ChaChaBlock(key, nonce, ctr) == BlockOf(Rounds, key, nonce, ctr)
\* the stream operators (see StreamSession): key and nonce are fixed for the
\* object's life, every packet starts again at block 1
ChaChaKey(kn) == [key |-> BytesToWordsLE(SubSeq(kn, 1, 32)), nonce |-> BytesToWordsLE(SubSeq(kn, 33, 44))]
ChaChaPacket(st, n) ==
  LET blk == TLCEval([i \in 1..((n + 63) \div 64) |-> ChaChaBlock(st.key, st.nonce, i)])
  IN  [st |-> st, ks |-> [j \in 1..n |-> blk[(j-1) \div 64 + 1][((j-1) % 64) + 1]]]
\* the ciphertext checksum of a packet whose message is a pattern (see Words)
SumOf(rounds, st, seed, z) ==
  LET n == Size(z)
      blk == TLCEval([i \in 1..((n + 63) \div 64) |-> BlockOf(rounds, st.key, st.nonce, i)])
  IN  Checksum(XorSeq(Pattern(seed, n), [j \in 1..n |-> blk[(j-1) \div 64 + 1][((j-1) % 64) + 1]]))
ChaChaLong(st, seed, z) == [st |-> st, sum |-> SumOf(Rounds, st, seed, z)]
=============================================================================
