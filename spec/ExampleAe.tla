------------------------------ MODULE ExampleAe ------------------------------
(***************************************************************************)
(* What a program that follows Encrypt-then-MAC may do, told from the      *)
(* library calls it makes while something else owns the memory between its *)
(* sending and its receiving half.  Bytes under a tag that does not match  *)
(* are never given to a cipher; bytes under a matching tag are, and come   *)
(* out as the message they were made from; a program that ends normally    *)
(* has read everything it accepted.                                        *)
(***************************************************************************)
EXTENDS TraceBase, FiniteSets, SequencesExt
VARIABLES made,      \* <<body, tag>> pairs the sender made
          refused,   \* bodies that were refused
          unread,    \* accepted bodies not yet deciphered
          clear      \* ciphertext -> message
vars == <<made, refused, unread, clear>>
Start == made = {} /\ refused = {} /\ unread = {} /\ clear = <<>>
Suffix(x, b) == Len(x) > 0 /\ Len(x) <= Len(b) /\ SubSeq(b, Len(b) - Len(x) + 1, Len(b)) = x
Begin == made' = {} /\ refused' = {} /\ unread' = {} /\ clear' = <<>>
Make(body, tag) == made' = made \cup {<<body, tag>>} /\ UNCHANGED <<refused, unread, clear>>
Check(body, tag, res) ==
  /\ (res = 1) = (<<body, tag>> \in made)
  /\ IF res = 1 THEN unread' = unread \cup {body} /\ UNCHANGED refused
                ELSE refused' = refused \cup {body} /\ UNCHANGED unread
  /\ UNCHANGED <<made, clear>>
\* iv is empty for a self-synchronising cipher; where there is one, it must be under the tag as well
Crypt(iv, in, out) ==
  LET reads == {b \in unread : Suffix(in, b)}
  IN  /\ \A b \in refused : ~Suffix(in, b)
      /\ \A b \in reads : Len(iv) > 0 => b = iv \o in
      /\ reads # {} => (in \in DOMAIN clear /\ out = clear[in])
      /\ unread' = unread \ reads
      /\ clear' = IF reads = {} THEN (out :> in) @@ clear ELSE clear
      /\ UNCHANGED <<made, refused>>
\* the program ended with this status
End(rc) == (rc = 0 => unread = {}) /\ (refused = {} => rc = 0) /\ UNCHANGED vars
TraceInit == Start /\ l = 1
TraceNext ==
  \/ Is("Begin") /\ Begin
  \/ Is("Make") /\ Make(E.body, E.tag)
  \/ Is("Check") /\ Check(E.body, E.tag, E.res)
  \/ Is("Crypt") /\ Crypt(E.iv, E.in, E.out)
  \/ Is("End") /\ End(E.rc)
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
=============================================================================
