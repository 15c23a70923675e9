----------------------------- MODULE AegisCore -----------------------------
(* AEGIS-128 as functions.  A 128-bit quantity is a sequence of four words (AES columns). *)
EXTENDS Aes
LOCAL X(a, b) == XorWSeq(a, b)
LOCAL And4(a, b) == [i \in 1..4 |-> AndW(a[i], b[i])]
Const0 == BytesToWordsBE(<<0, 1, 1, 2, 3, 5, 8, 13, 21, 34, 55, 89, 144, 233, 121, 98>>)
Const1 == BytesToWordsBE(<<219, 61, 24, 85, 109, 194, 47, 241, 32, 17, 49, 66, 115, 181, 40, 221>>)

Update(S, m) == << Round(S[5], X(S[1], m)), Round(S[1], S[2]), Round(S[2], S[3]), Round(S[3], S[4]), Round(S[4], S[5]) >>
Setup(key, iv) ==
  LET k == BytesToWordsBE(key)
      v == BytesToWordsBE(iv)
      S0 == << X(k, v), Const1, Const0, X(k, Const0), X(k, Const1) >>
  IN  FoldLeft(LAMBDA S, i : Update(S, IF i % 2 = 1 THEN k ELSE X(k, v)), S0, [i \in 1..10 |-> i])

NBlk(n) == (n + 15) \div 16
\* i-th 16-byte block (from 0), padded with zeros
Blk(b, i) == LET hi == IF 16 * i + 16 < Len(b) THEN 16 * i + 16 ELSE Len(b)
                 c == SubSeq(b, 16 * i + 1, hi)
             IN  c \o Zeros(16 - Len(c))
Absorb(S, data) == FoldLeft(LAMBDA T, i : Update(T, BytesToWordsBE(Blk(data, i))), S, [i \in 1..NBlk(Len(data)) |-> i - 1])
KeyStream(S) == WordsToBytesBE(X(X(S[2], S[5]), And4(S[3], S[4])))

Take(b, n) == SubSeq(b, 1, n)
BlkLen(n, i) == IF 16 * i + 16 <= n THEN 16 ELSE n - 16 * i
EncBody(S, pt) ==
  FoldLeft(LAMBDA acc, i :
             [S |-> Update(acc.S, BytesToWordsBE(Blk(pt, i))),
              out |-> Append(acc.out, Take(XorSeq(Blk(pt, i), KeyStream(acc.S)), BlkLen(Len(pt), i)))],
           [S |-> S, out |-> <<>>], [i \in 1..NBlk(Len(pt)) |-> i - 1])
DecBody(S, ct) ==
  FoldLeft(LAMBDA acc, i :
             LET n == BlkLen(Len(ct), i)
                 p == Take(XorSeq(Blk(ct, i), KeyStream(acc.S)), n)
             IN  [S |-> Update(acc.S, BytesToWordsBE(p \o Zeros(16 - n))), out |-> Append(acc.out, p)],
           [S |-> S, out |-> <<>>], [i \in 1..NBlk(Len(ct)) |-> i - 1])
Flat(chunks, n) == [j \in 1..n |-> chunks[(j-1) \div 16 + 1][((j-1) % 16) + 1]]
\* lengths in bits, 64-bit little-endian each (byte lengths below 2^32)
LenBlock(adlen, msglen) == BytesToWordsBE(BytesLE(ShlW(adlen, 3)) \o BytesLE(ShrW(adlen, 29)) \o
                                          BytesLE(ShlW(msglen, 3)) \o BytesLE(ShrW(msglen, 29)))
TagOf(S, adlen, msglen) ==
  LET t == X(S[4], LenBlock(adlen, msglen))
      F == FoldLeft(LAMBDA T, i : Update(T, t), S, <<1, 2, 3, 4, 5, 6, 7>>)
  IN  WordsToBytesBE(X(X(X(F[1], F[2]), X(F[3], F[4])), F[5]))

Seal(key, iv, ad, pt) ==
  LET b == EncBody(Absorb(Setup(key, iv), ad), pt)
  IN  [ct |-> Flat(b.out, Len(pt)), tag |-> TagOf(b.S, Len(ad), Len(pt))]
Open(key, iv, ad, ct) ==
  LET b == DecBody(Absorb(Setup(key, iv), ad), ct)
  IN  [pt |-> Flat(b.out, Len(ct)), tag |-> TagOf(b.S, Len(ad), Len(ct))]
\* a packet whose associated data and message are patterns: checksum of the ciphertext, tag
SealLong(key, iv, adseed, adz, seed, z) ==
  LET r == Seal(key, iv, Pattern(adseed, Size(adz)), Pattern(seed, Size(z))) IN [sum |-> Checksum(r.ct), tag |-> r.tag]
=============================================================================
