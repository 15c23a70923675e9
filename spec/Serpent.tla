------------------------------ MODULE Serpent ------------------------------
(***************************************************************************)
(* Serpent as Sosemanuk uses it: 25 round keys and the state after the     *)
(* 12th, 18th and 24th round.  The S-boxes are the published 4-bit tables, *)
(* applied to the 32 bit positions of four words.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC, Words
LOCAL SBoxes == <<
  <<3, 8, 15, 1, 10, 6, 5, 11, 14, 13, 4, 2, 7, 0, 9, 12>>,
  <<15, 12, 2, 7, 9, 0, 5, 10, 1, 11, 14, 8, 6, 13, 3, 4>>,
  <<8, 6, 7, 9, 3, 12, 10, 15, 13, 1, 14, 4, 0, 11, 5, 2>>,
  <<0, 15, 11, 8, 12, 9, 6, 3, 13, 1, 2, 4, 10, 7, 5, 14>>,
  <<1, 15, 8, 3, 12, 0, 11, 6, 2, 5, 4, 10, 9, 14, 7, 13>>,
  <<15, 5, 2, 11, 4, 10, 9, 12, 0, 3, 14, 8, 13, 6, 7, 1>>,
  <<7, 2, 12, 5, 8, 4, 6, 11, 14, 9, 1, 15, 13, 3, 10, 0>>,
  <<1, 13, 15, 0, 14, 8, 2, 11, 7, 4, 12, 10, 9, 3, 5, 6>> >>
LOCAL BitOf(w, i) == ShrW(w, i) % 2
\* bits of the table output: OutBit[s][j][v+1] = bit j of SBoxes[s][v]
LOCAL OutBits == [s \in 1..8 |-> [v \in 1..16 |-> LET x == SBoxes[s][v] IN <<x % 2, (x \div 2) % 2, (x \div 4) % 2, x \div 8>>]]
\* S-box n (from 0) on four words
SBoxW(n, x) ==
  LET T == OutBits[n + 1]
      col == TLCEval([i \in 0..31 |-> T[BitOf(x[1], i) + 2 * BitOf(x[2], i) + 4 * BitOf(x[3], i) + 8 * BitOf(x[4], i) + 1]])
      \* 16-bit halves assembled from their bits
      HalfOf(j, base) == LET b(i) == col[base + i][j]
        IN  b(0) + 2*b(1) + 4*b(2) + 8*b(3) + 16*b(4) + 32*b(5) + 64*b(6) + 128*b(7)
            + 256*(b(8) + 2*b(9) + 4*b(10) + 8*b(11) + 16*b(12) + 32*b(13) + 64*b(14) + 128*b(15))
  IN  TLCEval([j \in 1..4 |-> Mk(HalfOf(j, 16), HalfOf(j, 0))])
LTrans(x) ==
  LET a0 == RotlW(x[1], 13)  a2 == RotlW(x[3], 3)
      b1 == RotlW(XorW(XorW(x[2], a0), a2), 1)
      b3 == RotlW(XorW(XorW(x[4], a2), ShlW(a0, 3)), 7)
      c0 == RotlW(XorW(XorW(a0, b1), b3), 5)
      c2 == RotlW(XorW(XorW(a2, b3), ShlW(b1, 7)), 22)
  IN  <<c0, b1, c2, b3>>
LOCAL Phi == -1640531527          \* 9e3779b9
\* a key of n <= 32 bytes is extended by a one bit and zeros; byte strings are little-endian
PadKey(key) == IF Len(key) = 32 THEN key ELSE key \o <<1>> \o Zeros(31 - Len(key))
Prekeys(key, n) ==
  LET w0 == BytesToWordsLE(PadKey(key))
  IN  SubSeq(FoldLeft(LAMBDA w, i : Append(w, RotlW(XorW(XorW(XorW(w[i - 8], w[i - 5]), XorW(w[i - 3], w[i - 1])), XorW(Phi, i - 9)), 11)),
               w0, [t \in 1..n |-> t + 8]), 9, 8 + n)
\* the first nk round keys; the S-boxes run 3, 2, 1, 0, 7, 6, 5, 4, 3, ...
RoundKeysN(key, nk) ==
  LET w == Prekeys(key, 4 * nk)
  IN  TLCEval([r \in 1..nk |-> SBoxW((35 - (r - 1)) % 8, SubSeq(w, 4 * r - 3, 4 * r))])
SerpentKeys(key) == RoundKeysN(key, 25)
LOCAL RoundAll(K, x) ==        \* states after rounds 1..24, the last before the final key
  FoldLeft(LAMBDA acc, r : Append(acc, LTrans(SBoxW((r - 1) % 8, XorWSeq(acc[r], K[r])))), <<x>>, [r \in 1..24 |-> r])
\* <<after 12, after 18, after 24 and the 25th key>> as 12 words
Serpent24(K, x) ==
  LET s == RoundAll(K, x) IN s[13] \o s[19] \o XorWSeq(s[25], K[25])
\* the full 32-round cipher, to check the tables against a published vector
Serpent32(key, x) ==
  LET K == RoundKeysN(key, 33)
      y == FoldLeft(LAMBDA t, r : LTrans(SBoxW((r - 1) % 8, XorWSeq(t, K[r]))), x, [r \in 1..31 |-> r])
  IN  XorWSeq(SBoxW(7, XorWSeq(y, K[32])), K[33])
=============================================================================
