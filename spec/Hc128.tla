------------------------------- MODULE Hc128 -------------------------------
(* HC-128 (eSTREAM portfolio).  State: tables P and Q of 512 words and the step number modulo 1024. *)
EXTENDS Integers, Sequences, SequencesExt, TLC, Words
LOCAL f1(x) == XorW(XorW(RotrW(x, 7), RotrW(x, 18)), ShrW(x, 3))
LOCAL f2(x) == XorW(XorW(RotrW(x, 17), RotrW(x, 19)), ShrW(x, 10))
LOCAL g1(x, y, z) == AddW(XorW(RotrW(x, 10), RotrW(z, 23)), RotrW(y, 8))
LOCAL g2(x, y, z) == AddW(XorW(RotlW(x, 10), RotlW(z, 23)), RotlW(y, 8))
LOCAL h(T, x) == AddW(T[Byte0(x) + 1], T[256 + Byte2(x) + 1])
LOCAL At(T, j) == T[(j % 512) + 1]
\* one step: the state and the keystream word
Step(st) ==
  LET j == st.n % 512 IN
  IF st.n < 512
  THEN LET v == AddW(st.P[j+1], g1(At(st.P, j - 3), At(st.P, j - 10), At(st.P, j - 511)))
       IN  [st |-> [st EXCEPT !.P[j+1] = v, !.n = (st.n + 1) % 1024], z |-> XorW(h(st.Q, At(st.P, j - 12)), v)]
  ELSE LET v == AddW(st.Q[j+1], g2(At(st.Q, j - 3), At(st.Q, j - 10), At(st.Q, j - 511)))
       IN  [st |-> [st EXCEPT !.Q[j+1] = v, !.n = (st.n + 1) % 1024], z |-> XorW(h(st.P, At(st.Q, j - 12)), v)]
LOCAL Expand(key, iv) ==
  LET k == BytesToWordsLE(key)  v == BytesToWordsLE(iv)
  IN  FoldLeft(LAMBDA W, i : Append(W, AddW(AddW(AddW(f2(W[i-1]), W[i-6]), AddW(f1(W[i-14]), W[i-15])), i)),
               k \o k \o v \o v, [t \in 1..1264 |-> t + 15])
\* 1024 steps whose outputs replace the table elements
Hc128Init(key, iv) ==
  LET W == Expand(key, iv)
      S0 == [P |-> SubSeq(W, 257, 768), Q |-> SubSeq(W, 769, 1280), n |-> 0]
      Feed(S, i) == LET r == Step(S) IN IF i <= 512 THEN [r.st EXCEPT !.P[i] = r.z] ELSE [r.st EXCEPT !.Q[i - 512] = r.z]
  IN  FoldLeft(Feed, S0, [i \in 1..1024 |-> i])
Hc128Words(S, n) ==
  FoldLeft(LAMBDA acc, i : LET r == Step(acc.st) IN [st |-> r.st, ws |-> Append(acc.ws, r.z)], [st |-> S, ws |-> <<>>], [i \in 1..n |-> i])
\* the stream operators: key and IV are given together; a packet takes whole words
Hc128Key(kv) == Hc128Init(SubSeq(kv, 1, 16), SubSeq(kv, 17, 32))
Hc128Packet(st, n) ==
  LET r == Hc128Words(st, (n + 3) \div 4) IN [st |-> r.st, ks |-> SubSeq(WordsToBytesLE(r.ws), 1, n)]
\* the same for a packet whose message is a pattern: checksum of the ciphertext
Hc128Long(st, seed, z) ==
  LET p == Hc128Packet(st, Size(z)) IN [st |-> p.st, sum |-> Checksum(XorSeq(p.ks, Pattern(seed, Size(z))))]
=============================================================================
