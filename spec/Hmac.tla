-------------------------------- MODULE Hmac --------------------------------
(* HMAC-SHA-256 of RFC 2104. *)
EXTENDS Sha256
HmacPad(key) == LET k == IF Len(key) > 64 THEN Digest(key) ELSE key IN k \o Zeros(64 - Len(k))
LOCAL Mask(k, c) == [i \in 1..64 |-> XorB(k[i], c)]
\* what a key object keeps: the two masked keys
HmacKey(key) == LET k == HmacPad(key) IN [inner |-> Mask(k, 54), outer |-> Mask(k, 92)]
HmacTag(hk, msg) == Digest(hk.outer \o Digest(hk.inner \o msg))
\* a message that is a pattern
HmacTagLong(hk, seed, z) == Digest(hk.outer \o DigestLong(hk.inner, seed, z))
=============================================================================
