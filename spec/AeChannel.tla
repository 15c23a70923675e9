------------------------------ MODULE AeChannel ------------------------------
(***************************************************************************)
(* Authenticated packets, with the cipher left uninterpreted.  A receiver  *)
(* accepts exactly what some sender with the same key produced - nonce,    *)
(* associated data, ciphertext and tag all together - and then returns the *)
(* message sent.  A rejected packet releases nothing: the output buffer is *)
(* erased or as it was before the call.  Neither outcome changes the key.  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Words
VARIABLES key,       \* session -> key
          genuine,   \* <<key, iv, ad, ct, tag>> -> message
       long       \* the packet too long to be written down that was sealed last: its key and the message's pattern
vars == <<key, genuine, long>>
AeInit == key = <<>> /\ genuine = <<>> /\ long = <<>>
LoadKey(s, k) == key' = (s :> k) @@ key /\ UNCHANGED <<genuine, long>>
\* the epoch of a test run ends: earlier packets will not be seen again
Forget == genuine' = <<>> /\ UNCHANGED <<key, long>>
Seal(s, iv, ad, pt, ct, tag) ==
  /\ s \in DOMAIN key
  /\ Len(ct) = Len(pt)
  /\ genuine' = (<<key[s], iv, ad, ct, tag>> :> pt) @@ genuine
  /\ UNCHANGED <<key, long>>
Accept(s, iv, ad, ct, tag, pt) ==
  LET g == <<key[s], iv, ad, ct, tag>>
  IN  g \in DOMAIN genuine /\ pt = genuine[g] /\ UNCHANGED vars
Reject(s, iv, ad, ct, tag, pt, prior) ==
  /\ <<key[s], iv, ad, ct, tag>> \notin DOMAIN genuine
  /\ pt = prior \/ \A i \in 1..Len(pt) : pt[i] = 0
  /\ UNCHANGED vars
SealLong(s, seed, z) ==
  /\ s \in DOMAIN key
  /\ long' = <<key[s], seed, z>>
  /\ UNCHANGED <<key, genuine>>
\* that packet is presented as it is (kind "ok") or with one bit of one of its parts changed
OpenLong(s, kind, accepted, sum, blank) ==
  /\ s \in DOMAIN key /\ long # <<>>
  /\ accepted <=> (kind = "ok" /\ long[1] = key[s])
  /\ IF accepted THEN sum = PatternSum(long[2], long[3]) ELSE blank
  /\ UNCHANGED vars
=============================================================================
