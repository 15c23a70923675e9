----------------------------- MODULE WordsCheck -----------------------------
(***************************************************************************)
(* Compares Words (possibly overridden by Words.java) with WordsPure, the  *)
(* same text under a name that no Java class overrides.  The orchestrator  *)
(* generates WordsPure.tla from Words.tla.                                 *)
(***************************************************************************)
EXTENDS Words, TLC
P == INSTANCE WordsPure
VARIABLES a, b, n
Corner == {0, 1, 2, -1, -2, 255, 256, 65535, 65536, 65537, 2147483647, -2147483647 - 1,
           -2147483647, 16711935, -16711936, 1431655765, -1431655766, -65536, 32768, -32768}
Step(x) == P!AddW(P!MulW(x, 1664525), 1013904223)
Init == a \in Corner /\ b \in Corner /\ n = 0
Next == n < 6 /\ n' = n + 1 /\ a' = Step(P!XorW(a, b)) /\ b' = Step(P!AddW(b, a'))
Bs(x, y) == P!BytesBE(x) \o P!BytesLE(y)
Agree ==
  /\ XorW(a, b) = P!XorW(a, b)      /\ AndW(a, b) = P!AndW(a, b)   /\ OrW(a, b) = P!OrW(a, b)
  /\ NotW(a) = P!NotW(a)            /\ AddW(a, b) = P!AddW(a, b)   /\ SubW(a, b) = P!SubW(a, b)
  /\ NegW(a) = P!NegW(a)
  /\ \A c \in {0, 1} : CarryW(a, b, c) = P!CarryW(a, b, c)
  /\ MulHiLo(a, b) = P!MulHiLo(a, b) /\ MulW(a, b) = P!MulW(a, b)
  /\ \A k \in 0..32 : ShlW(a, k) = P!ShlW(a, k) /\ ShrW(a, k) = P!ShrW(a, k)
  /\ \A k \in 0..31 : RotlW(a, k) = P!RotlW(a, k) /\ RotrW(a, k) = P!RotrW(a, k)
  /\ BytesBE(a) = P!BytesBE(a) /\ BytesLE(a) = P!BytesLE(a)
  /\ <<Byte0(a), Byte1(a), Byte2(a), Byte3(a)>> = BytesLE(a)
  /\ \A k \in 1..5 : WordBE(Bs(a, b), k) = P!WordBE(Bs(a, b), k) /\ WordLE(Bs(a, b), k) = P!WordLE(Bs(a, b), k)
  /\ WordsToBytesBE(<<a, b>>) = P!WordsToBytesBE(<<a, b>>) /\ WordsToBytesLE(<<a, b>>) = P!WordsToBytesLE(<<a, b>>)
  /\ BytesToWordsBE(Bs(a, b)) = P!BytesToWordsBE(Bs(a, b)) /\ BytesToWordsLE(Bs(a, b)) = P!BytesToWordsLE(Bs(a, b))
  /\ XorSeq(BytesBE(a), BytesBE(b)) = P!XorSeq(BytesBE(a), BytesBE(b))
  /\ XorSeq(BytesBE(a), Bs(a, b)) = P!XorSeq(BytesBE(a), Bs(a, b))
  /\ XorWSeq(<<a, b>>, <<b, b>>) = P!XorWSeq(<<a, b>>, <<b, b>>)
  /\ Zeros(3) = P!Zeros(3)
  /\ Pattern(a, 9) = P!Pattern(a, 9) /\ Checksum(Bs(a, b)) = P!Checksum(Bs(a, b)) /\ ChecksumOn(a, Bs(a, b)) = P!ChecksumOn(a, Bs(a, b))
  /\ PatternSum(a, <<0, 5>>) = P!PatternSum(a, <<0, 5>>)
  /\ XorB(Byte0(a), Byte0(b)) = P!XorB(Byte0(a), Byte0(b)) /\ AndB(Byte0(a), Byte1(b)) = P!AndB(Byte0(a), Byte1(b))
=============================================================================
