------------------------------- MODULE AesCfb -------------------------------
(***************************************************************************)
(* AES-128 cipher feedback sessions with carry-over.  reg is the feedback  *)
(* register: the last 16 bytes of IV \o ciphertext.  A packet starts a     *)
(* new cipher block; inside a packet the register advances every 16 bytes. *)
(***************************************************************************)
EXTENDS AesModes
CONSTANT Middle
VARIABLE sess
vars == <<sess>>

St(s) == sess[s]
Put(s, r) == sess' = (s :> r) @@ sess
CfbInit == sess = <<>>

Initialize(s, key, iv) == Put(s, [rk |-> KeyExpansion(key), reg |-> iv])
Encrypt(s, in, out) ==
  /\ s \in DOMAIN sess
  /\ out = CfbEncOut(St(s).rk, Middle, St(s).reg, in)
  /\ Put(s, [St(s) EXCEPT !.reg = RegAfter(@, out)])
Decrypt(s, in, out) ==
  /\ s \in DOMAIN sess
  /\ out = CfbDecOut(St(s).rk, Middle, St(s).reg, in)
  /\ Put(s, [St(s) EXCEPT !.reg = RegAfter(@, in)])
\* packets too long to be written down: pattern in, checksum out
EncryptLong(s, seed, z, sum) ==
  LET r == CfbEncLong(St(s).rk, Middle, St(s).reg, seed, z)
  IN  s \in DOMAIN sess /\ sum = r.sum /\ Put(s, [St(s) EXCEPT !.reg = r.reg])
DecryptLong(s, seed, z, sum) ==
  LET r == CfbDecLong(St(s).rk, Middle, St(s).reg, seed, z)
  IN  s \in DOMAIN sess /\ sum = r.sum /\ Put(s, [St(s) EXCEPT !.reg = r.reg])
\* the register can only be observed through the keystream of the next packet
=============================================================================
