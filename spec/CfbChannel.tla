----------------------------- MODULE CfbChannel -----------------------------
(***************************************************************************)
(* Endpoints of a CFB session over a faulty channel, with the cipher left  *)
(* uninterpreted: all that is required is that the keystream of a block is *)
(* a function of the key and of the 16 ciphertext bytes before it.  From   *)
(* that the machine derives what a receiver must output, whatever packets  *)
(* were lost, corrupted, or encrypted under another IV: see CfbModel for   *)
(* the exhaustive check of the consequences.                               *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Words, SequencesExt
VARIABLES ep,      \* endpoint -> [key, reg]
          memo,    \* <<key, feedback>> -> longest known prefix of the keystream block, for recent packets
          sent     \* endpoint -> [pt, ct, reg] of its last packet
vars == <<ep, memo, sent>>
ChInit == ep = <<>> /\ memo = <<>> /\ sent = <<>>

Last16(bytes) == SubSeq(bytes, Len(bytes) - 15, Len(bytes))
Chunk(b, i) == SubSeq(b, 16 * i + 1, IF 16 * i + 16 < Len(b) THEN 16 * i + 16 ELSE Len(b))
NBlocks(n) == (n + 15) \div 16
RegAfter(reg, ct) == IF Len(ct) = 0 THEN reg ELSE Last16(reg \o SubSeq(ct, IF Len(ct) > 16 THEN Len(ct) - 15 ELSE 1, Len(ct)))
Fb(reg, ct, i) == IF i = 0 THEN reg ELSE Chunk(ct, i - 1)
IsPre(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
\* keystream revealed by a packet, block by block, must agree with what is known
Point(key, reg, ct, i) == <<key, Fb(reg, ct, i)>>
KsOf(in, out, i) == XorSeq(Chunk(in, i), Chunk(out, i))
Consistent(known, p, k) == p \in DOMAIN known => (IsPre(k, known[p]) \/ IsPre(known[p], k))
Learn(known, p, k) == IF p \in DOMAIN known /\ Len(known[p]) >= Len(k) THEN known ELSE (p :> k) @@ known

Initialize(s, key, iv) == ep' = (s :> [key |-> key, reg |-> iv]) @@ ep /\ UNCHANGED <<memo, sent>>
\* only the points of the packets since the last encryption are remembered
Packet(s, in, out, ct, fresh) ==
  LET e == ep[s]
      r == FoldLeft(LAMBDA acc, i :
             LET p == Point(e.key, e.reg, ct, i)
                 k == KsOf(in, out, i)
             IN  [ok |-> acc.ok /\ Consistent(memo, p, k) /\ Consistent(acc.known, p, k), known |-> Learn(acc.known, p, k)],
             [ok |-> TRUE, known |-> IF fresh THEN <<>> ELSE memo], [i \in 1..NBlocks(Len(in)) |-> i - 1])
  IN  /\ s \in DOMAIN ep /\ Len(out) = Len(in)
      /\ r.ok
      /\ memo' = r.known
      /\ ep' = (s :> [e EXCEPT !.reg = RegAfter(@, ct)]) @@ ep
Encrypt(s, in, out) == Packet(s, in, out, out, TRUE) /\ sent' = (s :> [pt |-> in, ct |-> out, reg |-> ep[s].reg, key |-> ep[s].key]) @@ sent
\* what arrives may be anything; if it is a genuine packet and the registers agree, the plaintext is delivered
Decrypt(s, from, in, out) ==
  /\ Packet(s, in, out, in, FALSE) /\ UNCHANGED sent
  /\ LET p == sent[from] IN
     (from \in DOMAIN sent /\ in = p.ct /\ p.key = ep[s].key /\ p.reg = ep[s].reg) => out = p.pt
=============================================================================
