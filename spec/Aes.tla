-------------------------------- MODULE Aes --------------------------------
(***************************************************************************)
(* AES-128 (FIPS 197) as a value-level definition.  A block is a sequence  *)
(* of four words, each holding one column with row 0 in the most           *)
(* significant byte.  All tables are derived from the definition.          *)
(***************************************************************************)
EXTENDS Words, TLC, SequencesExt

Xtime(a) == IF a >= 128 THEN XorB((2 * a) % 256, 27) ELSE 2 * a

\* powers of the generator 3 of GF(2^8)*, and the S-box
LOCAL Pow3 == FoldLeft(LAMBDA acc, i : Append(acc, XorB(acc[i], Xtime(acc[i]))), <<1>>, [i \in 1..254 |-> i])
LOCAL LogOf == [v \in 1..255 |-> CHOOSE i \in 1..255 : Pow3[i] = v]
GInv(a) == IF a = 0 THEN 0 ELSE IF LogOf[a] = 1 THEN 1 ELSE Pow3[257 - LogOf[a]]
LOCAL Rotl8(a, n) == ((a * 2^n) % 256) + (a \div 2^(8-n))
SBox == TLCEval([a \in 0..255 |->
          LET b == GInv(a)
          IN XorB(99, XorB(b, XorB(Rotl8(b, 1), XorB(Rotl8(b, 2), XorB(Rotl8(b, 3), Rotl8(b, 4))))))])

\* SubBytes followed by MixColumns for a byte of row 0; rows 1..3 are rotations
LOCAL T0 == TLCEval([a \in 0..255 |-> LET s == SBox[a] IN
               WordBE(<<Xtime(s), s, s, XorB(s, Xtime(s))>>, 1)])
LOCAL T1 == TLCEval([a \in 0..255 |-> RotrW(T0[a], 8)])
LOCAL T2 == TLCEval([a \in 0..255 |-> RotrW(T0[a], 16)])
LOCAL T3 == TLCEval([a \in 0..255 |-> RotrW(T0[a], 24)])

SubWord(w) == WordBE(<<SBox[Byte3(w)], SBox[Byte2(w)], SBox[Byte1(w)], SBox[Byte0(w)]>>, 1)

\* one full round: SubBytes, ShiftRows, MixColumns, AddRoundKey
LOCAL MixCol(a, b, c, d, k) ==
  XorW(k, XorW(XorW(T0[Byte3(a)], T1[Byte2(b)]), XorW(T2[Byte1(c)], T3[Byte0(d)])))
Round(s, k) == << MixCol(s[1], s[2], s[3], s[4], k[1]), MixCol(s[2], s[3], s[4], s[1], k[2]),
                  MixCol(s[3], s[4], s[1], s[2], k[3]), MixCol(s[4], s[1], s[2], s[3], k[4]) >>
LOCAL LastCol(a, b, c, d, k) ==
  XorW(k, WordBE(<<SBox[Byte3(a)], SBox[Byte2(b)], SBox[Byte1(c)], SBox[Byte0(d)]>>, 1))
FinalRound(s, k) == << LastCol(s[1], s[2], s[3], s[4], k[1]), LastCol(s[2], s[3], s[4], s[1], k[2]),
                       LastCol(s[3], s[4], s[1], s[2], k[3]), LastCol(s[4], s[1], s[2], s[3], k[4]) >>

LOCAL RconAt == TLCEval([i \in 1..10 |-> IF i = 9 THEN 27 ELSE IF i = 10 THEN 54 ELSE 2^(i-1)])
\* eleven round keys of four words each
KeyExpansion(key) ==
  LET Next(w, i) == LET t == w[i-1]
                        u == IF (i - 1) % 4 = 0
                             THEN XorW(SubWord(RotlW(t, 8)), ShlW(RconAt[(i-1) \div 4], 24)) ELSE t
                    IN  Append(w, XorW(w[i-4], u))
      w44 == TLCEval(FoldLeft(Next, BytesToWordsBE(key), [i \in 1..40 |-> i + 4]))
  IN  TLCEval([r \in 1..11 |-> SubSeq(w44, 4*r - 3, 4*r)])

\* rounds: the sequence of middle round keys used, 2..10 for the standard cipher
FullRounds == <<2, 3, 4, 5, 6, 7, 8, 9, 10>>
SixRounds  == <<6, 7, 8, 9, 10>>
EncryptBlock(rk, middle, block) ==
  FinalRound(FoldLeft(LAMBDA s, i : Round(s, rk[i]), XorWSeq(block, rk[1]), middle), rk[11])
EncryptBytes(rk, middle, bytes) == WordsToBytesBE(EncryptBlock(rk, middle, BytesToWordsBE(bytes)))
=============================================================================
