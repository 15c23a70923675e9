------------------------------- MODULE Rabbit -------------------------------
(* Rabbit (RFC 4503), bytes in eSTREAM order.  State: X, C (8 words each, from index 1) and the counter carry b. *)
EXTENDS Integers, Sequences, SequencesExt, TLC, Words
LOCAL A == << 1295307597, -749914925, 886263092, 1295307597, -749914925, 886263092, 1295307597, -749914925 >>
LOCAL Half(b, i) == b[2*i + 1] + 256 * b[2*i + 2]       \* i-th 16-bit half of a byte string
LOCAL Join(hi, lo) == Mk(hi, lo)
LOCAL M8(i) == (i % 8) + 1
LOCAL Counters(C, b) ==
  FoldLeft(LAMBDA acc, j : [C |-> Append(acc.C, AddW(AddW(C[j], A[j]), acc.b)), b |-> CarryW(C[j], A[j], acc.b)],
           [C |-> <<>>, b |-> b], <<1, 2, 3, 4, 5, 6, 7, 8>>)
LOCAL g(x, c) == LET s == AddW(x, c)  p == MulHiLo(s, s) IN XorW(p[1], p[2])
LOCAL Next8(X, C) ==
  LET G == TLCEval([j \in 1..8 |-> g(X[j], C[j])])
  IN  TLCEval([i \in 1..8 |-> IF i % 2 = 1
        THEN AddW(AddW(G[i], RotlW(G[M8(i + 6)], 16)), RotlW(G[M8(i + 5)], 16))
        ELSE AddW(AddW(G[i], RotlW(G[M8(i + 6)], 8)), G[M8(i + 5)])])
Iterate(st) == LET c == Counters(st.C, st.b) IN [X |-> Next8(st.X, c.C), C |-> c.C, b |-> c.b]
LOCAL Four(st) == Iterate(Iterate(Iterate(Iterate(st))))
RabbitKey(key) ==
  LET K(i) == Half(key, i % 8)
      X0 == [j \in 1..8 |-> LET i == j - 1 IN IF i % 2 = 0 THEN Join(K(i + 1), K(i)) ELSE Join(K(i + 5), K(i + 4))]
      C0 == [j \in 1..8 |-> LET i == j - 1 IN IF i % 2 = 0 THEN Join(K(i + 4), K(i + 5)) ELSE Join(K(i), K(i + 1))]
      S == Four([X |-> X0, C |-> C0, b |-> 0])
  IN  [S EXCEPT !.C = [j \in 1..8 |-> XorW(S.C[j], S.X[M8(j + 3)])]]
RabbitIV(master, iv) ==
  LET V(i) == Half(iv, i)
      W == << Join(V(1), V(0)), Join(V(3), V(1)), Join(V(3), V(2)), Join(V(2), V(0)) >>
  IN  Four([master EXCEPT !.C = [j \in 1..8 |-> XorW(master.C[j], W[((j - 1) % 4) + 1])]])
LOCAL LoH(w) == w % 65536
LOCAL HiH(w) == (w \div 65536) % 65536
LOCAL Extract(X) ==
  WordsToBytesLE(<< Join(XorB(HiH(X[1]), LoH(X[4])), XorB(LoH(X[1]), HiH(X[6]))),
                    Join(XorB(HiH(X[3]), LoH(X[6])), XorB(LoH(X[3]), HiH(X[8]))),
                    Join(XorB(HiH(X[5]), LoH(X[8])), XorB(LoH(X[5]), HiH(X[2]))),
                    Join(XorB(HiH(X[7]), LoH(X[2])), XorB(LoH(X[7]), HiH(X[4]))) >>)
RabbitBlocks(st, n) ==
  FoldLeft(LAMBDA acc, i : LET s == Iterate(acc.st) IN [st |-> s, ks |-> acc.ks \o Extract(s.X)],
           [st |-> st, ks |-> <<>>], [i \in 1..n |-> i])
\* a packet takes whole 16-byte blocks
RabbitPacket(st, n) == LET r == RabbitBlocks(st, (n + 15) \div 16) IN [st |-> r.st, ks |-> SubSeq(r.ks, 1, n)]
\* the same for a packet whose message is a pattern: checksum of the ciphertext
RabbitLong(st, seed, z) ==
  LET p == RabbitPacket(st, Size(z)) IN [st |-> p.st, sum |-> Checksum(XorSeq(p.ks, Pattern(seed, Size(z))))]
=============================================================================
