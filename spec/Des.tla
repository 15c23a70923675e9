-------------------------------- MODULE Des --------------------------------
(* DES of FIPS 46-3, on sequences of bits (bit 1 is the most significant bit of the first byte). *)
EXTENDS Integers, Sequences, SequencesExt, TLC, Words
LOCAL Sel(b, t) == [i \in 1..Len(t) |-> b[t[i]]]
LOCAL IP == << 58,50,42,34,26,18,10,2, 60,52,44,36,28,20,12,4, 62,54,46,38,30,22,14,6, 64,56,48,40,32,24,16,8,
               57,49,41,33,25,17,9,1, 59,51,43,35,27,19,11,3, 61,53,45,37,29,21,13,5, 63,55,47,39,31,23,15,7 >>
LOCAL FP == [i \in 1..64 |-> CHOOSE j \in 1..64 : IP[j] = i]
LOCAL EBox == << 32,1,2,3,4,5, 4,5,6,7,8,9, 8,9,10,11,12,13, 12,13,14,15,16,17, 16,17,18,19,20,21, 20,21,22,23,24,25,
                 24,25,26,27,28,29, 28,29,30,31,32,1 >>
LOCAL PBox == << 16,7,20,21, 29,12,28,17, 1,15,23,26, 5,18,31,10, 2,8,24,14, 32,27,3,9, 19,13,30,6, 22,11,4,25 >>
LOCAL PC1 == << 57,49,41,33,25,17,9, 1,58,50,42,34,26,18, 10,2,59,51,43,35,27, 19,11,3,60,52,44,36,
                63,55,47,39,31,23,15, 7,62,54,46,38,30,22, 14,6,61,53,45,37,29, 21,13,5,28,20,12,4 >>
LOCAL PC2 == << 14,17,11,24,1,5, 3,28,15,6,21,10, 23,19,12,4,26,8, 16,7,27,20,13,2,
                41,52,31,37,47,55, 30,40,51,45,33,48, 44,49,39,56,34,53, 46,42,50,36,29,32 >>
LOCAL Rots == << 1,1,2,2,2,2,2,2,1,2,2,2,2,2,2,1 >>
LOCAL S == <<
 << 14,4,13,1,2,15,11,8,3,10,6,12,5,9,0,7, 0,15,7,4,14,2,13,1,10,6,12,11,9,5,3,8,
    4,1,14,8,13,6,2,11,15,12,9,7,3,10,5,0, 15,12,8,2,4,9,1,7,5,11,3,14,10,0,6,13 >>,
 << 15,1,8,14,6,11,3,4,9,7,2,13,12,0,5,10, 3,13,4,7,15,2,8,14,12,0,1,10,6,9,11,5,
    0,14,7,11,10,4,13,1,5,8,12,6,9,3,2,15, 13,8,10,1,3,15,4,2,11,6,7,12,0,5,14,9 >>,
 << 10,0,9,14,6,3,15,5,1,13,12,7,11,4,2,8, 13,7,0,9,3,4,6,10,2,8,5,14,12,11,15,1,
    13,6,4,9,8,15,3,0,11,1,2,12,5,10,14,7, 1,10,13,0,6,9,8,7,4,15,14,3,11,5,2,12 >>,
 << 7,13,14,3,0,6,9,10,1,2,8,5,11,12,4,15, 13,8,11,5,6,15,0,3,4,7,2,12,1,10,14,9,
    10,6,9,0,12,11,7,13,15,1,3,14,5,2,8,4, 3,15,0,6,10,1,13,8,9,4,5,11,12,7,2,14 >>,
 << 2,12,4,1,7,10,11,6,8,5,3,15,13,0,14,9, 14,11,2,12,4,7,13,1,5,0,15,10,3,9,8,6,
    4,2,1,11,10,13,7,8,15,9,12,5,6,3,0,14, 11,8,12,7,1,14,2,13,6,15,0,9,10,4,5,3 >>,
 << 12,1,10,15,9,2,6,8,0,13,3,4,14,7,5,11, 10,15,4,2,7,12,9,5,6,1,13,14,0,11,3,8,
    9,14,15,5,2,8,12,3,7,0,4,10,1,13,11,6, 4,3,2,12,9,5,15,10,11,14,1,7,6,0,8,13 >>,
 << 4,11,2,14,15,0,8,13,3,12,9,7,5,10,6,1, 13,0,11,7,4,9,1,10,14,3,5,12,2,15,8,6,
    1,4,11,13,12,3,7,14,10,15,6,8,0,5,9,2, 6,11,13,8,1,4,10,7,9,5,0,15,14,2,3,12 >>,
 << 13,2,8,4,6,15,11,1,10,9,3,14,5,0,12,7, 1,15,13,8,10,3,7,4,12,5,6,11,0,14,9,2,
    7,11,4,1,9,12,14,2,0,6,10,13,15,3,5,8, 2,1,14,7,4,10,8,13,15,12,9,0,3,5,6,11 >> >>
LOCAL Pow2 == <<128, 64, 32, 16, 8, 4, 2, 1>>
ToBits(b) == TLCEval([i \in 1..(8 * Len(b)) |-> (b[(i-1) \div 8 + 1] \div Pow2[((i-1) % 8) + 1]) % 2])
ToBytes(b) == [k \in 1..(Len(b) \div 8) |-> 128*b[8*k-7] + 64*b[8*k-6] + 32*b[8*k-5] + 16*b[8*k-4] + 8*b[8*k-3] + 4*b[8*k-2] + 2*b[8*k-1] + b[8*k]]
LOCAL Rot(x, n) == SubSeq(x, n + 1, Len(x)) \o SubSeq(x, 1, n)
\* the sixteen 48-bit round keys
DesKeys(key) ==
  LET cd == TLCEval(Sel(ToBits(key), PC1))
      r == FoldLeft(LAMBDA acc, n : LET c == Rot(acc.c, n)  d == Rot(acc.d, n)
                                    IN  [c |-> c, d |-> d, ks |-> Append(acc.ks, TLCEval(Sel(c \o d, PC2)))],
                    [c |-> SubSeq(cd, 1, 28), d |-> SubSeq(cd, 29, 56), ks |-> <<>>], Rots)
  IN  r.ks
LOCAL Nibble == [v \in 0..15 |-> <<v \div 8, (v \div 4) % 2, (v \div 2) % 2, v % 2>>]
LOCAL Feistel(R, k) ==
  LET x == TLCEval([i \in 1..48 |-> (R[EBox[i]] + k[i]) % 2])
      out(j) == LET o == 6 * j - 5
                IN  Nibble[S[j][(2 * x[o] + x[o+5]) * 16 + 8 * x[o+1] + 4 * x[o+2] + 2 * x[o+3] + x[o+4] + 1]]
      y == TLCEval([j \in 1..8 |-> out(j)])
  IN  TLCEval([i \in 1..32 |-> LET p == PBox[i] IN y[(p-1) \div 4 + 1][((p-1) % 4) + 1]])
\* eight bytes under a sequence of round keys
DesBlock(ks, in) ==
  LET b == TLCEval(Sel(ToBits(in), IP))
      r == FoldLeft(LAMBDA acc, k : LET f == Feistel(acc.R, k) IN [L |-> acc.R, R |-> TLCEval([i \in 1..32 |-> (acc.L[i] + f[i]) % 2])],
                    [L |-> SubSeq(b, 1, 32), R |-> SubSeq(b, 33, 64)], ks)
  IN  ToBytes(TLCEval(Sel(r.R \o r.L, FP)))
Backwards(ks) == [i \in 1..16 |-> ks[17 - i]]
\* a sequence of blocks
EcbOut(ks, in) ==
  LET bs == TLCEval([i \in 1..(Len(in) \div 8) |-> DesBlock(ks, SubSeq(in, 8 * i - 7, 8 * i))])
  IN  [j \in 1..Len(in) |-> bs[(j-1) \div 8 + 1][((j-1) % 8) + 1]]
EcbLong(ks, seed, z) == Checksum(EcbOut(ks, Pattern(seed, Size(z))))
=============================================================================
