----------------------------- MODULE Md5Session -----------------------------
(***************************************************************************)
(* Incremental MD5.  A context is usable from Init until Final; what Final *)
(* leaves behind (clean) is the same for every message.                    *)
(***************************************************************************)
EXTENDS Md5
VARIABLES ctx, clean
vars == <<ctx, clean>>
MInit == ctx = <<>> /\ clean = <<>>
Put(s, c) == ctx' = (s :> c) @@ ctx
Start(s) == Put(s, Md5New) /\ UNCHANGED clean
Update(s, in) == s \in DOMAIN ctx /\ Put(s, TLCEval(Md5Add(ctx[s], in))) /\ UNCHANGED clean
UpdateLong(s, seed, z) == s \in DOMAIN ctx /\ Put(s, TLCEval(Md5AddLong(ctx[s], seed, z))) /\ UNCHANGED clean
\* the context claims another length so far: lo, hi are its length in bits
Skip(s, lo, hi) == s \in DOMAIN ctx /\ Put(s, [ctx[s] EXCEPT !.lo = lo, !.hi = hi]) /\ UNCHANGED clean
Clean(left) == (clean = <<>> \/ clean = left) /\ clean' = left
Final(s, out, left) ==
  /\ s \in DOMAIN ctx /\ out = Md5End(ctx[s]) /\ Clean(left)
  /\ ctx' = [t \in DOMAIN ctx \ {s} |-> ctx[t]]
Whole(s, in, out, left) == out = Md5Digest(in) /\ Clean(left) /\ ctx' = [t \in DOMAIN ctx \ {s} |-> ctx[t]]
=============================================================================
