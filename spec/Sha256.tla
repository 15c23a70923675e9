------------------------------- MODULE Sha256 -------------------------------
(* SHA-256 of FIPS 180-4 on byte strings. *)
EXTENDS Integers, Sequences, SequencesExt, TLC, Words
LOCAL K == << 1116352408, 1899447441, -1245643825, -373957723, 961987163, 1508970993, -1841331548, -1424204075,
  -670586216, 310598401, 607225278, 1426881987, 1925078388, -2132889090, -1680079193, -1046744716,
  -459576895, -272742522, 264347078, 604807628, 770255983, 1249150122, 1555081692, 1996064986,
  -1740746414, -1473132947, -1341970488, -1084653625, -958395405, -710438585, 113926993, 338241895,
  666307205, 773529912, 1294757372, 1396182291, 1695183700, 1986661051, -2117940946, -1838011259,
  -1564481375, -1474664885, -1035236496, -949202525, -778901479, -694614492, -200395387, 275423344,
  430227734, 506948616, 659060556, 883997877, 958139571, 1322822218, 1537002063, 1747873779,
  1955562222, 2024104815, -2067236844, -1933114872, -1866530822, -1538233109, -1090935817, -965641998 >>
LOCAL H0 == << 1779033703, -1150833019, 1013904242, -1521486534, 1359893119, -1694144372, 528734635, 1541459225 >>
LOCAL Ch(x, y, z)  == XorW(AndW(x, y), AndW(NotW(x), z))
LOCAL Maj(x, y, z) == XorW(XorW(AndW(x, y), AndW(x, z)), AndW(y, z))
LOCAL BigS0(x) == XorW(XorW(RotrW(x, 2), RotrW(x, 13)), RotrW(x, 22))
LOCAL BigS1(x) == XorW(XorW(RotrW(x, 6), RotrW(x, 11)), RotrW(x, 25))
LOCAL SmS0(x)  == XorW(XorW(RotrW(x, 7), RotrW(x, 18)), ShrW(x, 3))
LOCAL SmS1(x)  == XorW(XorW(RotrW(x, 17), RotrW(x, 19)), ShrW(x, 10))
LOCAL From16 == [i \in 1..48 |-> i + 16]
LOCAL OneTo64 == [i \in 1..64 |-> i]
LOCAL Schedule(W16) ==
  FoldLeft(LAMBDA W, t : Append(W, AddW(AddW(SmS1(W[t-2]), W[t-7]), AddW(SmS0(W[t-15]), W[t-16]))), W16, From16)
LOCAL Rnd(v, k, w) ==
  LET T1 == AddW(AddW(AddW(v[8], BigS1(v[5])), AddW(Ch(v[5], v[6], v[7]), k)), w)
      T2 == AddW(BigS0(v[1]), Maj(v[1], v[2], v[3]))
  IN  TLCEval(<<AddW(T1, T2), v[1], v[2], v[3], AddW(v[4], T1), v[5], v[6], v[7]>>)
Compress(H, W16) ==
  LET W == TLCEval(Schedule(W16))
      v == FoldLeft(LAMBDA x, t : Rnd(x, K[t], W[t]), H, OneTo64)
  IN  TLCEval([i \in 1..8 |-> AddW(v[i], H[i])])
\* length of the padded message: a one bit, zeros, 64-bit length in bits
PadLen(n) == 64 * ((n + 8) \div 64 + 1)
Pad(m) == m \o <<128>> \o Zeros(PadLen(Len(m)) - Len(m) - 9) \o BytesBE(ShrW(Len(m), 29)) \o BytesBE(ShlW(Len(m), 3))
Digest(m) ==
  LET p == Pad(m)
  IN  WordsToBytesBE(FoldLeft(LAMBDA H, i : Compress(H, [j \in 1..16 |-> WordBE(p, 64 * (i - 1) + 4 * j - 3)]), H0,
                              [i \in 1..(Len(p) \div 64) |-> i]))
\* a message that is a prefix and a pattern
DigestLong(prefix, seed, z) == Digest(prefix \o Pattern(seed, Size(z)))
=============================================================================
