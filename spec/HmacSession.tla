---------------------------- MODULE HmacSession ----------------------------
(***************************************************************************)
(* Authentication objects: loading a key fixes the two masked keys;        *)
(* generation and validation are functions of them and change nothing.     *)
(***************************************************************************)
EXTENDS Hmac
VARIABLE hk
vars == <<hk>>
HInit == hk = <<>>
LoadKey(s, key) == hk' = (s :> TLCEval(HmacKey(key))) @@ hk
Tag(s, in, tag) == s \in DOMAIN hk /\ tag = SubSeq(HmacTag(hk[s], in), 1, Len(tag)) /\ UNCHANGED hk
TagLong(s, seed, z, tag) == s \in DOMAIN hk /\ tag = SubSeq(HmacTagLong(hk[s], seed, z), 1, Len(tag)) /\ UNCHANGED hk
Validate(s, in, tag, ok) == s \in DOMAIN hk /\ (ok <=> tag = SubSeq(HmacTag(hk[s], in), 1, Len(tag))) /\ UNCHANGED hk
ValidateLong(s, seed, z, tag, ok) == s \in DOMAIN hk /\ (ok <=> tag = SubSeq(HmacTagLong(hk[s], seed, z), 1, Len(tag))) /\ UNCHANGED hk
=============================================================================
