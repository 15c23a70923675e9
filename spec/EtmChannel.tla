------------------------------ MODULE EtmChannel ------------------------------
(***************************************************************************)
(* Encrypt-then-MAC: a packet is a ciphertext (after its IV, for a cipher  *)
(* that needs one) and a tag over both.  The cipher and the MAC are left   *)
(* uninterpreted.  A receiver takes exactly the packets some sender with   *)
(* its MAC key produced.  What it then reads:                              *)
(*   mode "hc"   the IV travels in the packet: the message that was sent,  *)
(*               whatever was lost, forged, replayed or reordered before;  *)
(*   mode "cfb"  the feedback register is carried from packet to packet:   *)
(*               everything after the first 16 bytes, and all of it when   *)
(*               the register is what the sender's was.                    *)
(* Nothing rejected is decrypted, nor does it move the register.           *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC
VARIABLES ep,      \* endpoint -> [mac, enc, mode, reg]
          genuine  \* <<mac key, iv, ciphertext, tag>> -> set of what it may have been: [pt, reg, enc, mode]
vars == <<ep, genuine>>
EtmInit == ep = <<>> /\ genuine = <<>>
Last16(b) == SubSeq(b, Len(b) - 15, Len(b))
RegAfter(reg, ct) == IF Len(ct) = 0 THEN reg ELSE Last16(reg \o ct)
From(b, i) == SubSeq(b, i, Len(b))
Keys(s, mode, mac, enc, iv) ==
  ep' = (s :> [mac |-> mac, enc |-> enc, mode |-> mode, reg |-> iv]) @@ ep /\ UNCHANGED genuine
\* the test run is over: no packet made so far will be presented again
Forget == genuine' = <<>> /\ UNCHANGED ep
Of(g) == IF g \in DOMAIN genuine THEN genuine[g] ELSE {}
Send(s, iv, in, ct, tag) ==
  LET e == ep[s]
      g == <<e.mac, iv, ct, tag>>
  IN  /\ s \in DOMAIN ep /\ Len(ct) = Len(in)
      /\ genuine' = (g :> (Of(g) \cup {[pt |-> in, reg |-> e.reg, enc |-> e.enc, mode |-> e.mode]})) @@ genuine
      /\ ep' = IF e.mode = "cfb" THEN [ep EXCEPT ![s].reg = RegAfter(@, ct)] ELSE ep
Reads(e, p, out) ==
  /\ Len(out) = Len(p.pt)
  /\ p.enc = e.enc /\ p.mode = e.mode =>
       \/ e.mode = "hc" /\ out = p.pt
       \/ e.mode = "cfb" /\ (IF p.reg = e.reg THEN out = p.pt ELSE From(out, 17) = From(p.pt, 17))
Receive(s, iv, ct, tag, accepted, out) ==
  LET e == ep[s]
      g == <<e.mac, iv, ct, tag>>
  IN  /\ s \in DOMAIN ep
      /\ accepted = (g \in DOMAIN genuine)
      /\ accepted => \A p \in genuine[g] : Reads(e, p, out)
      /\ ep' = IF accepted /\ e.mode = "cfb" THEN [ep EXCEPT ![s].reg = RegAfter(@, ct)] ELSE ep
      /\ UNCHANGED genuine
=============================================================================
