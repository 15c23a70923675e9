-------------------------------- MODULE Md5 --------------------------------
(***************************************************************************)
(* MD5 of RFC 1321, as an incremental context: chaining value, number of   *)
(* bytes so far, and the bytes of the incomplete last block.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC, Words
LOCAL T == << -680876936, -389564586, 606105819, -1044525330, -176418897, 1200080426, -1473231341, -45705983,
  1770035416, -1958414417, -42063, -1990404162, 1804603682, -40341101, -1502002290, 1236535329,
  -165796510, -1069501632, 643717713, -373897302, -701558691, 38016083, -660478335, -405537848,
  568446438, -1019803690, -187363961, 1163531501, -1444681467, -51403784, 1735328473, -1926607734,
  -378558, -2022574463, 1839030562, -35309556, -1530992060, 1272893353, -155497632, -1094730640,
  681279174, -358537222, -722521979, 76029189, -640364487, -421815835, 530742520, -995338651,
  -198630844, 1126891415, -1416354905, -57434055, 1700485571, -1894986606, -1051523, -2054922799,
  1873313359, -30611744, -1560198380, 1309151649, -145523070, -1120210379, 718787259, -343485551 >>
LOCAL Shift == << <<7, 12, 17, 22>>, <<5, 9, 14, 20>>, <<4, 11, 16, 23>>, <<6, 10, 15, 21>> >>
LOCAL F(r, x, y, z) == CASE r = 0 -> OrW(AndW(x, y), AndW(NotW(x), z))
                        [] r = 1 -> OrW(AndW(x, z), AndW(y, NotW(z)))
                        [] r = 2 -> XorW(XorW(x, y), z)
                        [] OTHER -> XorW(y, OrW(x, NotW(z)))
LOCAL Idx(r, i) == CASE r = 0 -> i [] r = 1 -> (5 * i + 1) % 16 [] r = 2 -> (3 * i + 5) % 16 [] OTHER -> (7 * i) % 16
LOCAL Step(v, X, t) ==
  LET i == t - 1
      r == i \div 16
      a == AddW(AddW(v[1], F(r, v[2], v[3], v[4])), AddW(X[Idx(r, i) + 1], T[t]))
  IN  TLCEval(<<v[4], AddW(v[2], RotlW(a, Shift[r + 1][(i % 4) + 1])), v[2], v[3]>>)
LOCAL OneTo64 == [i \in 1..64 |-> i]
Transform(st, X) == LET v == FoldLeft(LAMBDA x, t : Step(x, X, t), st, OneTo64) IN TLCEval([i \in 1..4 |-> AddW(st[i], v[i])])
\* a context: chaining value, length in bits as two words (low, high), bytes of the incomplete block
Md5New == [st |-> <<1732584193, -271733879, -1732584194, 271733878>>, lo |-> 0, hi |-> 0, buf |-> <<>>]
Md5Add(c, m) ==
  LET all == c.buf \o m
      k == Len(all) \div 64
      n8 == ShlW(Len(m), 3)
  IN  [st |-> FoldLeft(LAMBDA s, i : Transform(s, [j \in 1..16 |-> WordLE(all, 64 * (i - 1) + 4 * j - 3)]), c.st, [i \in 1..k |-> i]),
       lo |-> AddW(c.lo, n8), hi |-> AddW(AddW(c.hi, ShrW(Len(m), 29)), CarryW(c.lo, n8, 0)),
       buf |-> SubSeq(all, 64 * k + 1, Len(all))]
\* an update with a pattern
Md5AddLong(c, seed, z) == Md5Add(c, Pattern(seed, Size(z)))
\* one bit, zeros up to 56 modulo 64, the length
Md5End(c) ==
  LET z == (119 - Len(c.buf)) % 64
      f == Md5Add(c, <<128>> \o Zeros(z) \o BytesLE(c.lo) \o BytesLE(c.hi))
  IN  WordsToBytesLE(f.st)
Md5Digest(m) == Md5End(Md5Add(Md5New, m))
=============================================================================
