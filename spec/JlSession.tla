----------------------------- MODULE JlSession -----------------------------
(***************************************************************************)
(* Sessions of the Joye-Libert cryptosystem.  keys: key pairs by name;     *)
(* ct: ciphertexts by name with the ghost message each carries; used: all  *)
(* ciphertexts that encryption has produced so far under a key.            *)
(***************************************************************************)
EXTENDS JlNumbers
VARIABLES keys, ct, used
vars == <<keys, ct, used>>
JInit == keys = <<>> /\ ct = <<>> /\ used = {}
Put(f, x, v) == (x :> TLCEval(v)) @@ f
\* leading zero bits of the random halves make N a little shorter than asked
SizeOk(N, size) == BitLen(N) \in (size - 40)..(size + 1)
KeyGen(id, k, size, N, y, p) ==
  /\ GoodKey(N, y, p, k) /\ SizeOk(N, size)
  /\ keys' = Put(keys, id, [N |-> N, y |-> y, p |-> p, k |-> k]) /\ UNCHANGED <<ct, used>>
\* a key from elsewhere
SetKey(id, k, N, y, p) ==
  /\ GoodKey(N, y, p, k)
  /\ keys' = Put(keys, id, [N |-> N, y |-> y, p |-> p, k |-> k]) /\ UNCHANGED <<ct, used>>
\* with few units, ciphertexts may coincide by chance
Roomy(N) == BitLen(N) >= 60
Encrypt(s, id, m, c) ==
  LET K == keys[id]
  IN  /\ id \in DOMAIN keys /\ LtN(m, Pow2N(K.k))
      /\ Encrypts(c, m, K.N, K.y, K.p, K.k)
      /\ Roomy(K.N) => <<K.N, c>> \notin used
      /\ used' = used \cup {<<K.N, c>>}
      /\ ct' = Put(ct, s, [key |-> id, m |-> m, c |-> c]) /\ UNCHANGED keys
\* the homomorphic operations are the caller's own modular arithmetic
Product(s, a, b, c) ==
  LET K == keys[ct[a].key]
  IN  /\ ct[a].key = ct[b].key
      /\ c = ModN(MulN(ct[a].c, ct[b].c), K.N)
      /\ ct' = Put(ct, s, [key |-> ct[a].key, m |-> AddK(ct[a].m, ct[b].m, K.k), c |-> c]) /\ UNCHANGED <<keys, used>>
Power(s, a, e, c) ==
  LET K == keys[ct[a].key]
  IN  /\ c = PowModN(ct[a].c, e, K.N)
      /\ ct' = Put(ct, s, [key |-> ct[a].key, m |-> MulK(ct[a].m, e, K.k), c |-> c]) /\ UNCHANGED <<keys, used>>
Decrypt(s, m) == m = ct[s].m /\ UNCHANGED vars
\* any unit is the encryption of exactly one message
DecryptRaw(id, c, m) ==
  LET K == keys[id]
  IN  GcdN(c, K.N) = <<1>> /\ DecryptsTo(c, m, K.y, K.p, K.k) /\ UNCHANGED vars
=============================================================================
