------------------------------- MODULE DesCtr -------------------------------
(***************************************************************************)
(* Counter mode over DES, without fixing the layout of the counter block:  *)
(* deciphering a mask gives the cipher block that was enciphered, and that *)
(* block must be a function of nonce and index alone - the same under      *)
(* every key, message, state history and packet (plan remembers it).       *)
(* Blocks of one nonce are distinct.  The implementation has a known       *)
(* defect: it enciphers the first eight bytes of the nonce at every index. *)
(* That pattern, and no other coincidence of blocks, is let through and    *)
(* counted in known.                                                       *)
(***************************************************************************)
EXTENDS DesSession, FiniteSets
CONSTANT DefectListed   \* whether known_findings.json lists the defect; when it does not, the defect is a violation
VARIABLES plan,     \* nonce -> sequence of cipher blocks, as far as seen
          known     \* packets with at least two blocks that show the known defect
cvars == <<ks, plan, known>>
CInit == DInit /\ plan = <<>> /\ known = 0
Masks(k, in, out) == [i \in 1..(Len(in) \div 8) |-> DesBlock(Backwards(k), [j \in 1..8 |-> XorB(in[8*i-8+j], out[8*i-8+j])])]
Plan(nonce) == IF nonce \in DOMAIN plan THEN plan[nonce] ELSE <<>>
Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Distinct(p) == Cardinality({p[i] : i \in 1..Len(p)}) = Len(p)
Stuck(nonce, p) == \A i \in 1..Len(p) : p[i] = SubSeq(nonce, 1, 8)
Ctr(s, nonce, in, out) ==
  /\ s \in DOMAIN ks
  /\ LET x == TLCEval(Masks(ks[s], in, out))
         old == Plan(nonce)
     IN  /\ Prefix(x, old) \/ Prefix(old, x)
         /\ Distinct(x) \/ (DefectListed /\ Stuck(nonce, x))
         /\ plan' = IF Len(x) > Len(old) THEN (nonce :> x) @@ plan ELSE plan
         /\ known' = IF Distinct(x) THEN known ELSE known + 1
  /\ UNCHANGED ks
Load(s, key) == LoadEnc(s, key) /\ UNCHANGED <<plan, known>>
Other(s, in, out) == Process(s, in, out) /\ UNCHANGED <<plan, known>>
=============================================================================
