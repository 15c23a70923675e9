------------------------------- MODULE AesCtr -------------------------------
(***************************************************************************)
(* AES-128 counter mode sessions.  sess maps a session to its round keys,  *)
(* 96-bit nonce and the 32-bit counter of the next block.                  *)
(***************************************************************************)
EXTENDS AesModes
CONSTANT Middle          \* FullRounds or SixRounds
VARIABLE sess
vars == <<sess>>

Fresh == [rk |-> <<>>, nonce |-> <<>>, ctr |-> 1]
St(s) == IF s \in DOMAIN sess THEN sess[s] ELSE Fresh
Ready(s) == St(s).rk # <<>> /\ St(s).nonce # <<>>
Put(s, r) == sess' = (s :> r) @@ sess

CtrInit == sess = <<>>


LoadKey(s, key) == Put(s, [St(s) EXCEPT !.rk = KeyExpansion(key)])
LoadIV(s, iv)   == Put(s, [St(s) EXCEPT !.nonce = iv, !.ctr = 1])
Process(s, in, out) ==
  /\ Ready(s)
  /\ out = CtrOut(St(s).rk, Middle, St(s).nonce, St(s).ctr, in)
  /\ Put(s, [St(s) EXCEPT !.ctr = AddW(@, Blocks(Len(in)))])
\* a packet too long to be written down: pattern in, checksum out (n bytes, as a pair)
ProcessLong(s, seed, z, sum) ==
  /\ Ready(s)
  /\ sum = CtrLong(St(s).rk, Middle, St(s).nonce, St(s).ctr, seed, z)
  /\ Put(s, [St(s) EXCEPT !.ctr = AddW(@, (z[1] * 4096) + ((z[2] + 15) \div 16))])
\* a long packet of which only the length in blocks is observed
Burn(s, blocks) == Ready(s) /\ Put(s, [St(s) EXCEPT !.ctr = AddW(@, blocks)])
\* the session continues at another block position
Seek(s, ctr) == Ready(s) /\ Put(s, [St(s) EXCEPT !.ctr = ctr])
\* the cipher applied to the current counter block leaves the session alone
Block(s, out) == Ready(s) /\ out = KeyBlock(St(s).rk, Middle, St(s).nonce, St(s).ctr) /\ UNCHANGED sess
=============================================================================
