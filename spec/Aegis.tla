------------------------------- MODULE Aegis -------------------------------
(***************************************************************************)
(* AEGIS-128 sessions: a state object holds only a key between packets.    *)
(***************************************************************************)
EXTENDS AegisCore
VARIABLE sess               \* session -> key (16 bytes)
vars == <<sess>>
AegisInit == sess = <<>>

LoadKey(s, key) == sess' = (s :> key) @@ sess
Encrypt(s, iv, ad, pt, ct, tag) ==
  /\ s \in DOMAIN sess
  /\ LET r == Seal(sess[s], iv, ad, pt) IN ct = r.ct /\ tag = r.tag
  /\ UNCHANGED sess
\* packets too long to be written down
EncryptLong(s, iv, adseed, adz, seed, z, sum, tag) ==
  /\ s \in DOMAIN sess
  /\ SealLong(sess[s], iv, adseed, adz, seed, z) = [sum |-> sum, tag |-> tag]
  /\ UNCHANGED sess
Accept(s, iv, ad, ct, tag, pt) ==
  /\ s \in DOMAIN sess
  /\ LET r == Open(sess[s], iv, ad, ct) IN tag = r.tag /\ pt = r.pt
  /\ UNCHANGED sess
\* nothing of the packet is released: the output buffer is zeroed
Reject(s, iv, ad, ct, tag, pt) ==
  /\ s \in DOMAIN sess
  /\ tag # Open(sess[s], iv, ad, ct).tag
  /\ pt = Zeros(Len(ct))
  /\ UNCHANGED sess
=============================================================================
