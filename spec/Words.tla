------------------------------- MODULE Words -------------------------------
(***************************************************************************)
(* 32-bit words and bytes.                                                 *)
(*                                                                         *)
(* TLC integers are 32-bit signed, so a 32-bit word is represented by the  *)
(* integer in -2^31 .. 2^31-1 with the same two's complement bit pattern.  *)
(* Every definition below is executable by TLC without overflow.  For      *)
(* speed TLC may load the Java class of the same name, which overrides     *)
(* the operators; module WordsCheck compares the two.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences
LOCAL INSTANCE Bitwise
LOCAL INSTANCE SequencesExt

Word == (-2147483647 - 1) .. 2147483647
Byte == 0 .. 255

Hi(w) == (w \div 65536) % 65536
Lo(w) == w % 65536
Mk(h, l) == IF h >= 32768 THEN (h - 65536) * 65536 + l ELSE h * 65536 + l

XorB(a, b) == a ^^ b                 \* on bytes (and any naturals)
AndB(a, b) == a & b
XorW(a, b) == Mk(Hi(a) ^^ Hi(b), Lo(a) ^^ Lo(b))
AndW(a, b) == Mk(Hi(a) & Hi(b), Lo(a) & Lo(b))
OrW(a, b)  == Mk(Hi(a) | Hi(b), Lo(a) | Lo(b))
NotW(a)    == -1 - a
AddW(a, b) == LET l == Lo(a) + Lo(b)
              IN  Mk((Hi(a) + Hi(b) + l \div 65536) % 65536, l % 65536)
NegW(a)    == AddW(NotW(a), 1)
SubW(a, b) == AddW(a, NegW(b))
\* carry out of the 32-bit unsigned addition a + b + c, c in {0, 1}
CarryW(a, b, c) == LET l == Lo(a) + Lo(b) + c
                   IN  (Hi(a) + Hi(b) + l \div 65536) \div 65536

ShlW(a, n) == IF n >= 32 THEN 0
              ELSE IF n >= 16 THEN Mk((Lo(a) % 2^(32-n)) * 2^(n-16), 0)
              ELSE LET l == (Lo(a) % 2^(16-n)) * 2^n
                       c == Lo(a) \div 2^(16-n)
                   IN  Mk((Hi(a) % 2^(16-n)) * 2^n + c, l)
ShrW(a, n) == IF n >= 32 THEN 0
              ELSE IF n >= 16 THEN Hi(a) \div 2^(n-16)
              ELSE Mk(Hi(a) \div 2^n, (Hi(a) % 2^n) * 2^(16-n) + Lo(a) \div 2^n)
RotlW(a, n) == IF n = 0 THEN a ELSE OrW(ShlW(a, n), ShrW(a, 32 - n))
RotrW(a, n) == IF n = 0 THEN a ELSE RotlW(a, 32 - n)

\* product of two words: limbs of 8 bits, schoolbook; result <<high, low>>
LOCAL D8(w, i) == CASE i = 0 -> Lo(w) % 256 [] i = 1 -> Lo(w) \div 256
                    [] i = 2 -> Hi(w) % 256 [] i = 3 -> Hi(w) \div 256
                    [] OTHER -> 0
MulHiLo(a, b) ==
  LET Col(k) == LET P(i) == IF k - i \in 0..3 THEN D8(a, i) * D8(b, k - i) ELSE 0
                IN  P(0) + P(1) + P(2) + P(3)
      c0 == Col(0)
      c1 == Col(1) + (c0 \div 256)
      c2 == Col(2) + (c1 \div 256)
      c3 == Col(3) + (c2 \div 256)
      c4 == Col(4) + (c3 \div 256)
      c5 == Col(5) + (c4 \div 256)
      c6 == Col(6) + (c5 \div 256)
      c7 == c6 \div 256
  IN  << Mk(c7 * 256 + (c6 % 256), (c5 % 256) * 256 + (c4 % 256)),
         Mk((c3 % 256) * 256 + (c2 % 256), (c1 % 256) * 256 + (c0 % 256)) >>
MulW(a, b) == MulHiLo(a, b)[2]

\* bytes of a word; byte 0 is the most significant (BE) or least (LE)
Byte3(w) == Hi(w) \div 256
Byte2(w) == Hi(w) % 256
Byte1(w) == Lo(w) \div 256
Byte0(w) == Lo(w) % 256
BytesBE(w) == << Byte3(w), Byte2(w), Byte1(w), Byte0(w) >>
BytesLE(w) == << Byte0(w), Byte1(w), Byte2(w), Byte3(w) >>
WordBE(b, i) == Mk(b[i] * 256 + b[i+1], b[i+2] * 256 + b[i+3])   \* bytes i..i+3
WordLE(b, i) == Mk(b[i+3] * 256 + b[i+2], b[i+1] * 256 + b[i])

\* sequences of words <-> sequences of bytes
WordsToBytesBE(ws) == [i \in 1..(4 * Len(ws)) |-> BytesBE(ws[(i-1) \div 4 + 1])[((i-1) % 4) + 1]]
WordsToBytesLE(ws) == [i \in 1..(4 * Len(ws)) |-> BytesLE(ws[(i-1) \div 4 + 1])[((i-1) % 4) + 1]]
BytesToWordsBE(bs) == [i \in 1..(Len(bs) \div 4) |-> WordBE(bs, 4 * i - 3)]
BytesToWordsLE(bs) == [i \in 1..(Len(bs) \div 4) |-> WordLE(bs, 4 * i - 3)]

\* pointwise exclusive or, of the length of the first argument (which is not longer)
XorSeq(a, b)  == [i \in 1..Len(a) |-> a[i] ^^ b[i]]
XorWSeq(a, b) == [i \in 1..Len(a) |-> XorW(a[i], b[i])]
Zeros(n) == [i \in 1..n |-> 0]

\* sizes beyond TLC's integers are pairs: high part and low 16 bits
Size(z) == 65536 * z[1] + z[2]

\* Inputs and outputs too long to be written into a trace: the input is the first n bytes of a linear congruential
\* sequence, and the output is recorded by its FNV-1a checksum.
Pattern(seed, n) ==
  FoldLeft(LAMBDA a, i : LET x == AddW(MulW(a.x, 1664525), 1013904223) IN [x |-> x, out |-> Append(a.out, Byte3(x))],
           [x |-> seed, out |-> <<>>], [i \in 1..n |-> i]).out
Checksum(bytes) == FoldLeft(LAMBDA x, b : MulW(XorW(x, b), 16777619), -2128831035, bytes)
\* checksums compose: that of a \o b from that of a
ChecksumOn(x0, bytes) == FoldLeft(LAMBDA x, b : MulW(XorW(x, b), 16777619), x0, bytes)
PatternSum(seed, z) == Checksum(Pattern(seed, Size(z)))
=============================================================================
