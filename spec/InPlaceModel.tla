----------------------------- MODULE InPlaceModel ---------------------------
(***************************************************************************)
(* Processing a packet of n bytes in a keystream mode: blocks, words and   *)
(* bytes, input and output apart (shift = n) or the same memory (shift =   *)
(* 0).  Values are symbolic: a cell holds the set of symbols whose         *)
(* exclusive or it is, so that the result holds for all data.  Step        *)
(* orders that need the input again after the output was written (Defect)  *)
(* work for separate buffers only.                                         *)
(***************************************************************************)
EXTENDS Integers
CONSTANTS Defect, MaxLen, Block, Word
VARIABLES n, shift, at, mem, reg, pc
vars == <<n, shift, at, mem, reg, pc>>
Xor(a, b) == (a \cup b) \ (a \cap b)
In(i) == i                   \* address of input byte i, the output byte lies shift further on
Out(i) == i + shift
Init == /\ n \in 0..MaxLen /\ shift \in {0, n} /\ at = 0 /\ reg = {} /\ pc = "work"
        /\ mem = [a \in 0..(2 * n) |-> IF a < n THEN {<<"in", a>>} ELSE {}]
Step == IF n - at >= Block THEN Block ELSE IF n - at >= Word THEN Word ELSE 1
Span == at..(at + Step - 1)
\* a step reads its whole span before it writes it
Mask == /\ pc = "work" /\ at < n
        /\ mem' = [a \in DOMAIN mem |-> IF \E i \in Span : a = Out(i) THEN LET i == a - shift IN Xor(mem[In(i)], {<<"ks", i>>}) ELSE mem[a]]
        /\ at' = at + Step
        /\ reg' = IF Defect = "feedback" THEN mem'[In(at)] ELSE mem[In(at)]       \* something a mode keeps of the packet
        /\ UNCHANGED <<n, shift, pc>>
\* keystream first, the input afterwards
Lay == /\ pc = "work" /\ at < n /\ Defect = "keystreamfirst"
       /\ mem' = [a \in DOMAIN mem |-> IF \E i \in Span : a = Out(i) THEN {<<"ks", a - shift>>} ELSE mem[a]]
       /\ pc' = "mix" /\ UNCHANGED <<n, shift, at, reg>>
Mix == /\ pc = "mix"
       /\ mem' = [a \in DOMAIN mem |-> IF \E i \in Span : a = Out(i) THEN Xor(mem[a], mem[a - shift]) ELSE mem[a]]
       /\ at' = at + Step /\ pc' = "work" /\ UNCHANGED <<n, shift, reg>>
Next == (IF Defect = "keystreamfirst" THEN Lay ELSE Mask) \/ Mix
Spec == Init /\ [][Next]_vars
Right == at = n /\ pc = "work" => \A i \in 0..(n - 1) : mem[Out(i)] = {<<"in", i>>, <<"ks", i>>}
Kept == at > 0 /\ pc = "work" /\ Defect # "keystreamfirst" => \E i \in 0..(n - 1) : reg = {<<"in", i>>}
InputKept == shift = n => \A i \in 0..(n - 1) : mem[In(i)] = {<<"in", i>>} 
=============================================================================
