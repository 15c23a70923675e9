----------------------------- MODULE Sosemanuk -----------------------------
(* Sosemanuk (eSTREAM portfolio).  State: LFSR s (10 words), registers R1 and R2. *)
EXTENDS Serpent
\* multiplication in GF(2^8) with x^8 + x^7 + x^5 + x^3 + 1
LOCAL Dbl(a) == IF a >= 128 THEN XorB(2 * a - 256, 169) ELSE 2 * a
RECURSIVE GMul(_, _)
GMul(a, b) == IF b = 0 THEN 0 ELSE XorB(IF b % 2 = 1 THEN a ELSE 0, GMul(Dbl(a), b \div 2))
LOCAL Beta == TLCEval(FoldLeft(LAMBDA t, i : Append(t, Dbl(t[i])), <<1>>, [i \in 1..254 |-> i]))   \* Beta[i+1] = beta^i
LOCAL Row(c, e3, e2, e1, e0) == WordBE(<<GMul(Beta[e3 + 1], c), GMul(Beta[e2 + 1], c), GMul(Beta[e1 + 1], c), GMul(Beta[e0 + 1], c)>>, 1)
LOCAL MulT == TLCEval([c \in 0..255 |-> Row(c, 23, 245, 48, 239)])
LOCAL DivT == TLCEval([c \in 0..255 |-> Row(c, 16, 39, 6, 64)])
MulAlpha(w) == XorW(ShlW(w, 8), MulT[Byte3(w)])
DivAlpha(w) == XorW(ShrW(w, 8), DivT[Byte0(w)])
LOCAL Trans(w) == RotlW(MulW(1415926535, w), 7)
\* one step: FSM, then LFSR
LOCAL SStep(st) ==
  LET s == st.s
      r1 == AddW(st.R2, IF st.R1 % 2 = 0 THEN s[2] ELSE XorW(s[2], s[9]))
      r2 == Trans(st.R1)
  IN  [s |-> << s[2], s[3], s[4], s[5], s[6], s[7], s[8], s[9], s[10], XorW(XorW(s[10], DivAlpha(s[4])), MulAlpha(s[1])) >>,
       R1 |-> r1, R2 |-> r2, f |-> XorW(AddW(s[10], r1), r2), out |-> s[1]]
SosKey(key) == SerpentKeys(key)
SosIV(K, iv) ==
  LET y == Serpent24(K, BytesToWordsLE(iv))
  IN  [s |-> << y[12], y[11], y[10], y[9], y[6], y[8], y[4], y[3], y[2], y[1] >>, R1 |-> y[5], R2 |-> y[7]]
\* four steps give 16 bytes of keystream
SosBlock(st) ==
  LET a == SStep(st)  b == SStep(a)  c == SStep(b)  d == SStep(c)
      z == XorWSeq(SBoxW(2, <<a.f, b.f, c.f, d.f>>), <<a.out, b.out, c.out, d.out>>)
  IN  [st |-> [s |-> d.s, R1 |-> d.R1, R2 |-> d.R2], ks |-> WordsToBytesLE(z)]
SosBlocks(st, n) ==
  FoldLeft(LAMBDA acc, i : LET b == SosBlock(acc.st) IN [st |-> b.st, ks |-> acc.ks \o b.ks], [st |-> st, ks |-> <<>>], [i \in 1..n |-> i])
\* a packet of n bytes takes n \div 16 + 1 blocks
SosPacket(st, n) == LET r == SosBlocks(st, n \div 16 + 1) IN [st |-> r.st, ks |-> SubSeq(r.ks, 1, n)]
\* the same for a packet whose message is a pattern: checksum of the ciphertext
SosLong(st, seed, z) ==
  LET p == SosPacket(st, Size(z)) IN [st |-> p.st, sum |-> Checksum(XorSeq(p.ks, Pattern(seed, Size(z))))]
=============================================================================
