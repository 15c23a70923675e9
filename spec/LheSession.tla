----------------------------- MODULE LheSession -----------------------------
(***************************************************************************)
(* Labelled homomorphic encryption over Joye-Libert.  mask: HC-128 states  *)
(* by name; ct: ciphertexts with ghosts m (message) and b (mask):          *)
(*   "lab":  a + b = m modulo 2^k and beta encrypts b                      *)
(*   "beta": c encrypts b          (helper of the triple product)          *)
(*   "alpha": c encrypts m - b                                             *)
(***************************************************************************)
EXTENDS JlNumbers, Hc128
VARIABLES keys, mask, ct
vars == <<keys, mask, ct>>
LInit == keys = <<>> /\ mask = <<>> /\ ct = <<>>
Put(f, x, v) == (x :> TLCEval(v)) @@ f
K(s) == keys[ct[s].key]
EncK(k, c, m) == Encrypts(c, m, k.N, k.y, k.p, k.k)
KeyGen(id, k, N, y, p) ==
  /\ GoodKey(N, y, p, k)
  /\ keys' = Put(keys, id, [N |-> N, y |-> y, p |-> p, k |-> k]) /\ UNCHANGED <<mask, ct>>
\* a user key of the multi-user variant is an encrypted 128-bit seed
UserKey(id, upk, usk) ==
  /\ BitLen(usk) <= 128 /\ EncK(keys[id], upk, ModN(usk, Pow2N(keys[id].k))) /\ UNCHANGED vars
MaskInit(h, key, iv) == mask' = Put(mask, h, Hc128Key(key \o iv)) /\ UNCHANGED <<keys, ct>>
\* the label's bytes, most significant first, at the front of a zeroed buffer, enciphered
\* and read as 32-bit words, most significant word first
LabelBuf(label, n) == [i \in 1..n |-> IF i <= Len(label) THEN label[Len(label) + 1 - i] ELSE 0]
WordsMsf(b) == Norm([i \in 1..Len(b) |-> LET w == (Len(b) - i) \div 4 r == (i - 1) % 4 IN b[4 * w + r + 1]])
Encrypt(s, id, h, m, label, a, beta, b) ==
  LET k == keys[id].k
      P == Hc128Packet(mask[h], k \div 8)
  IN  /\ LtN(m, Pow2N(k)) /\ LtN(label, Pow2N(k)) /\ k % 32 = 0
      /\ b = WordsMsf(XorSeq(LabelBuf(label, k \div 8), P.ks))
      /\ a = SubK(m, b, k)
      /\ EncK(keys[id], beta, b)
      /\ mask' = Put(mask, h, P.st)
      /\ ct' = Put(ct, s, [kind |-> "lab", key |-> id, m |-> m, b |-> b, a |-> a, c |-> beta]) /\ UNCHANGED keys
EncMask(s, s1, s2, c) ==                     \* an encryption of the product of two masks
  LET b == MulK(ct[s1].b, ct[s2].b, K(s1).k)
  IN  /\ EncK(K(s1), c, b)
      /\ ct' = Put(ct, s, [kind |-> "beta", key |-> ct[s1].key, m |-> <<>>, b |-> b, a |-> <<>>, c |-> c]) /\ UNCHANGED <<keys, mask>>
\* a labelled result with messages m and mask b
Lab(s, id, m, b, a, beta) ==
  /\ LtN(a, Pow2N(keys[id].k)) /\ AddK(a, b, keys[id].k) = m /\ EncK(keys[id], beta, b)
  /\ ct' = Put(ct, s, [kind |-> "lab", key |-> id, m |-> m, b |-> b, a |-> a, c |-> beta]) /\ UNCHANGED <<keys, mask>>
Alpha(s, id, m, b, c) ==
  /\ EncK(keys[id], c, SubK(m, b, keys[id].k))
  /\ ct' = Put(ct, s, [kind |-> "alpha", key |-> id, m |-> m, b |-> b, a |-> <<>>, c |-> c]) /\ UNCHANGED <<keys, mask>>
Is2(s1, s2, kd) == ct[s1].kind = kd /\ ct[s2].kind = kd /\ ct[s1].key = ct[s2].key
Op2(F(_, _, _), s1, s2, f) == F(ct[s1][f], ct[s2][f], K(s1).k)
AddL(s, s1, s2, a, beta) == Is2(s1, s2, "lab") /\ Lab(s, ct[s1].key, Op2(AddK, s1, s2, "m"), Op2(AddK, s1, s2, "b"), a, beta)
SubL(s, s1, s2, a, beta) == Is2(s1, s2, "lab") /\ Lab(s, ct[s1].key, Op2(SubK, s1, s2, "m"), Op2(SubK, s1, s2, "b"), a, beta)
CMulL(s, s1, x, a, beta) == Is2(s1, s1, "lab") /\ Lab(s, ct[s1].key, MulK(ct[s1].m, x, K(s1).k), MulK(ct[s1].b, x, K(s1).k), a, beta)
AddA(s, s1, s2, c) == Is2(s1, s2, "alpha") /\ Alpha(s, ct[s1].key, Op2(AddK, s1, s2, "m"), Op2(AddK, s1, s2, "b"), c)
SubA(s, s1, s2, c) == Is2(s1, s2, "alpha") /\ Alpha(s, ct[s1].key, Op2(SubK, s1, s2, "m"), Op2(SubK, s1, s2, "b"), c)
CMulA(s, s1, x, c) == Is2(s1, s1, "alpha") /\ Alpha(s, ct[s1].key, MulK(ct[s1].m, x, K(s1).k), MulK(ct[s1].b, x, K(s1).k), c)
Mult(s, s1, s2, c) == Is2(s1, s2, "lab") /\ Alpha(s, ct[s1].key, Op2(MulK, s1, s2, "m"), Op2(MulK, s1, s2, "b"), c)
Mult3(s, s1, s2, s3, h12, h13, h23, c) ==
  LET k == K(s1).k
  IN  /\ Is2(s1, s2, "lab") /\ Is2(s2, s3, "lab") /\ Is2(h12, h13, "beta") /\ Is2(h13, h23, "beta")
      /\ ct[h12].b = Op2(MulK, s1, s2, "b") /\ ct[h13].b = Op2(MulK, s1, s3, "b") /\ ct[h23].b = Op2(MulK, s2, s3, "b")
      /\ Alpha(s, ct[s1].key, MulK(Op2(MulK, s1, s2, "m"), ct[s3].m, k), MulK(Op2(MulK, s1, s2, "b"), ct[s3].b, k), c)
DecL(s, m) == Is2(s, s, "lab") /\ m = ct[s].m /\ UNCHANGED vars
\* decryption under whatever mask the caller presents
DecA(s, b, m) == Is2(s, s, "alpha") /\ m = AddK(SubK(ct[s].m, ct[s].b, K(s).k), b, K(s).k) /\ UNCHANGED vars
=============================================================================
