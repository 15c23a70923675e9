------------------------------- MODULE AeModel -------------------------------
(***************************************************************************)
(* Exhaustive model of the accept/reject logic of AeChannel over a small   *)
(* symbolic world: an adversary may recombine nonces, associated data,     *)
(* ciphertexts and tags of sealed packets, or use values never seen.  The  *)
(* receiver recomputes an ideal tag (a function of everything under it)    *)
(* and compares word by word, as the code does; the invariants say that it *)
(* accepts only what was sent, that it accepts everything that was sent,   *)
(* and that the two formulations (recomputed tag, genuine set) coincide.   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Ivs, Ads, Msgs, MaxSeals, TagWords
VARIABLES sealed, verdict
vars == <<sealed, verdict>>
\* ideal tag: distinct for distinct inputs in every word
Tag(iv, ad, ct) == [w \in 1..TagWords |-> <<w, iv, ad, ct>>]
Junk == <<0, 0, 0, <<"ct", 0, 0>>>>
Ct(iv, m) == <<"ct", iv, m>>
Erased == 0          \* what a rejected packet releases (messages are 1, 2, ...)
Pt(iv, ct) == IF ct[2] = iv THEN ct[3] ELSE 1000 + ct[3]
Init == sealed = {} /\ verdict = [kind |-> "none"]
SealOne(iv, ad, m) ==
  /\ Cardinality(sealed) < MaxSeals
  /\ \A p \in sealed : p.iv # iv                     \* a sender never reuses a nonce
  /\ sealed' = sealed \cup {[iv |-> iv, ad |-> ad, ct |-> Ct(iv, m), tag |-> Tag(iv, ad, Ct(iv, m)), m |-> m]}
  /\ verdict' = [kind |-> "none"]
\* tags the adversary can build: any mixture of words of known tags and a junk word
Mix == LET known == {p.tag : p \in sealed} IN
       {t \in [1..TagWords -> {Junk} \cup UNION {{x[w] : w \in 1..TagWords} : x \in known}] :
            \A w \in 1..TagWords : t[w] = Junk \/ \E x \in known : t[w] = x[w]}
Compare(a, b) == \A w \in 1..TagWords : a[w] = b[w]
Deliver(iv, ad, ct, tag) ==
  /\ LET good == Compare(Tag(iv, ad, ct), tag)
     IN  verdict' = [kind |-> "d", accepted |-> good, out |-> IF good THEN Pt(iv, ct) ELSE Erased, iv |-> iv, ad |-> ad, ct |-> ct, tag |-> tag]
  /\ UNCHANGED sealed
Next == \/ \E iv \in Ivs, ad \in Ads, m \in Msgs : SealOne(iv, ad, m)
        \/ sealed # {} /\ \E iv \in Ivs, ad \in Ads, p \in sealed, t \in Mix : Deliver(iv, ad, p.ct, t)
Spec == Init /\ [][Next]_vars
Genuine(v) == \E p \in sealed : p.iv = v.iv /\ p.ad = v.ad /\ p.ct = v.ct /\ p.tag = v.tag
AcceptedIffGenuine == verdict.kind = "d" => (verdict.accepted <=> Genuine(verdict))
Released == verdict.kind = "d" => IF verdict.accepted
              THEN \E p \in sealed : p.iv = verdict.iv /\ p.ct = verdict.ct /\ verdict.out = p.m
              ELSE verdict.out = Erased
=============================================================================
