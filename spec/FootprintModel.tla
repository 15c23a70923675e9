--------------------------- MODULE FootprintModel ---------------------------
(***************************************************************************)
(* The common shape of packet processing in the library: whole blocks,     *)
(* then whole words of the last block, then its bytes, over an input and   *)
(* an output of exactly n bytes; and of a padding copy of a last block.    *)
(* reads and writes are the addresses touched, 0..n-1 being the buffers'.  *)
(* Each of the usual defects (Defect) leaves them for some length.         *)
(***************************************************************************)
EXTENDS Integers
CONSTANTS Defect, MaxLen, Block, Word
VARIABLES n, at, reads, writes, done
vars == <<n, at, reads, writes, done>>
Init == n \in 0..MaxLen /\ at = 0 /\ reads = {} /\ writes = {} /\ done = FALSE
Touch(r, w, step) == reads' = reads \cup r /\ writes' = writes \cup w /\ at' = at + step /\ UNCHANGED <<n, done>>
Span(a, k) == a..(a + k - 1)
Left == n - at
Blocks == Left >= Block \/ (Defect = "lastblock" /\ Left > 0)
Words == ~Blocks /\ (Left >= Word \/ (Defect = "lastword" /\ Left > 0))
ABlock == Blocks /\ Touch(Span(at, Block), Span(at, IF Left < Block THEN Left ELSE Block), IF Left < Block THEN Left ELSE Block)
AWord == Words /\ Touch(Span(at, IF Left < Word THEN Left ELSE Word), Span(at, Word), IF Left < Word THEN Left ELSE Word)
AByte == ~Blocks /\ ~Words /\ Left > 0 /\ Touch({at}, {at}, 1)
\* what was written is looked at again, to continue from
Feedback == /\ Left = 0 /\ ~done /\ done' = TRUE
            /\ reads' = reads \cup (IF Defect = "feedback" THEN Span(n - Block, Block) ELSE Span(n - (n % Block), n % Block))
            /\ UNCHANGED <<n, at, writes>>
Next == ABlock \/ AWord \/ AByte \/ Feedback
Spec == Init /\ [][Next]_vars
Inside == reads \subseteq Span(0, n) /\ writes \subseteq Span(0, n)
Everything == done => writes = Span(0, n)
=============================================================================
