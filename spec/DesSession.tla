----------------------------- MODULE DesSession -----------------------------
(***************************************************************************)
(* DES objects hold the round keys, forward for encryption and backward    *)
(* for decryption; blocks are independent of each other.                   *)
(***************************************************************************)
EXTENDS Des
VARIABLE ks
vars == <<ks>>
DInit == ks = <<>>
LoadEnc(s, key) == ks' = (s :> TLCEval(DesKeys(key))) @@ ks
LoadDec(s, key) == ks' = (s :> TLCEval(Backwards(DesKeys(key)))) @@ ks
Process(s, in, out) == s \in DOMAIN ks /\ out = EcbOut(ks[s], in) /\ UNCHANGED ks
ProcessLong(s, seed, z, sum) == s \in DOMAIN ks /\ sum = EcbLong(ks[s], seed, z) /\ UNCHANGED ks
=============================================================================
