------------------------------ MODULE AesModes ------------------------------
(***************************************************************************)
(* Counter mode and cipher feedback mode of AES-128 as functions.          *)
(***************************************************************************)
EXTENDS Aes

Blocks(n) == (n + 15) \div 16
\* counter mode: blocks nonce || ctr, nonce || ctr + 1, ...
KeyBlock(rk, middle, nonce, ctr) == EncryptBytes(rk, middle, nonce \o BytesBE(ctr))
CtrOut(rk, middle, nonce, ctr, in) ==
  LET ks == TLCEval([i \in 0..(Blocks(Len(in)) - 1) |-> KeyBlock(rk, middle, nonce, AddW(ctr, i))])
  IN  [j \in 1..Len(in) |-> XorB(in[j], ks[(j-1) \div 16][((j-1) % 16) + 1])]

\* cipher feedback: reg is the last 16 bytes of IV || ciphertext
Last16(bytes) == SubSeq(bytes, Len(bytes) - 15, Len(bytes))
Chunk(b, i) == SubSeq(b, 16 * i + 1, IF 16 * i + 16 < Len(b) THEN 16 * i + 16 ELSE Len(b))
\* ciphertext of each chunk, from the feedback of the one before
LOCAL EncryptChunks(rk, middle, reg, in) ==
  FoldLeft(LAMBDA acc, i :
             LET c == XorSeq(Chunk(in, i), EncryptBytes(rk, middle, acc.reg))
             IN  [reg |-> Last16(acc.reg \o c), out |-> Append(acc.out, c)],
           [reg |-> reg, out |-> <<>>], [i \in 1..Blocks(Len(in)) |-> i - 1]).out
LOCAL Flat(cs, n) == [j \in 1..n |-> cs[(j-1) \div 16 + 1][((j-1) % 16) + 1]]
CfbEncOut(rk, middle, reg, in) == Flat(EncryptChunks(rk, middle, reg, in), Len(in))
CfbDecOut(rk, middle, reg, in) ==
  LET fb(i) == IF i = 0 THEN reg ELSE Chunk(in, i - 1)
      ks == TLCEval([i \in 0..(Blocks(Len(in)) - 1) |-> EncryptBytes(rk, middle, fb(i))])
  IN  [j \in 1..Len(in) |-> XorB(in[j], ks[(j-1) \div 16][((j-1) % 16) + 1])]
\* the register is a function of the ciphertext seen, whoever produced it
RegAfter(reg, ct) == IF Len(ct) = 0 THEN reg ELSE Last16(reg \o SubSeq(ct, IF Len(ct) > 16 THEN Len(ct) - 15 ELSE 1, Len(ct)))

\* the same on the input Pattern(seed, Size(z)): checksum of the output, register afterwards
CtrLong(rk, middle, nonce, ctr, seed, z) == Checksum(CtrOut(rk, middle, nonce, ctr, Pattern(seed, Size(z))))
CfbEncLong(rk, middle, reg, seed, z) ==
  LET c == TLCEval(CfbEncOut(rk, middle, reg, Pattern(seed, Size(z)))) IN [sum |-> Checksum(c), reg |-> RegAfter(reg, c)]
CfbDecLong(rk, middle, reg, seed, z) ==
  LET c == TLCEval(Pattern(seed, Size(z))) IN [sum |-> Checksum(CfbDecOut(rk, middle, reg, c)), reg |-> RegAfter(reg, c)]
=============================================================================
