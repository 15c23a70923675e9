--------------------------- MODULE StreamSession ---------------------------
(***************************************************************************)
(* Sessions of a synchronous stream cipher object.  A cipher is given by   *)
(*   KeySetup(key)      what loading a key leaves in the object,           *)
(*   IvSetup(m, iv)     the running state after loading an IV,             *)
(*   Packet(run, n)     keystream of a packet of n bytes and next state,   *)
(*   PacketLong(run, seed, z)  ciphertext checksum and next state of a        *)
(*                      packet whose message is a pattern (see Words),     *)
(*   IvNeeded           FALSE if KeySetup(key) is itself a running state.  *)
(* The IV set-up depends on the loaded key only, never on the running      *)
(* state: that is the re-synchronisation guarantee.                        *)
(***************************************************************************)
EXTENDS Words, TLC
CONSTANTS KeySetup(_), IvSetup(_, _), Packet(_, _), PacketLong(_, _, _), IvNeeded
VARIABLE sess
vars == <<sess>>
SInit == sess = <<>>
Put(s, r) == sess' = (s :> r) @@ sess
Known(s) == s \in DOMAIN sess
LoadKey(s, key) == LET m == TLCEval(KeySetup(key)) IN Put(s, [master |-> m, run |-> m, ready |-> ~IvNeeded])
LoadIV(s, iv) == Known(s) /\ Put(s, [sess[s] EXCEPT !.run = TLCEval(IvSetup(sess[s].master, iv)), !.ready = TRUE])
Process(s, in, out) ==
  /\ Known(s) /\ sess[s].ready
  /\ LET p == TLCEval(Packet(sess[s].run, Len(in)))
     IN  out = XorSeq(in, p.ks) /\ Put(s, [sess[s] EXCEPT !.run = p.st])
ProcessLong(s, seed, z, sum) ==
  /\ Known(s) /\ sess[s].ready
  /\ LET p == TLCEval(PacketLong(sess[s].run, seed, z))
     IN  sum = p.sum /\ Put(s, [sess[s] EXCEPT !.run = p.st])
\* keystream read directly, without a message
Keystream(s, n, out) == Process(s, Zeros(n), out)
\* a long packet of which only the length is observed
Burn(s, n) == Known(s) /\ sess[s].ready /\ Put(s, [sess[s] EXCEPT !.run = TLCEval(Packet(@, n).st)])
=============================================================================
