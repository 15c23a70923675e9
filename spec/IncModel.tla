------------------------------ MODULE IncModel ------------------------------
(***************************************************************************)
(* Incremental hashing over blocks of B symbols with a trailer of L        *)
(* symbols, the compression function left uninterpreted (the list of       *)
(* blocks).  Pieces of every size up to MaxPiece are fed in every order.   *)
(* Whatever the split, the blocks absorbed and the pending symbols are the *)
(* message, and the padded message is a whole number of blocks which       *)
(* determines the message.                                                 *)
(***************************************************************************)
EXTENDS Naturals, Sequences
CONSTANTS B, L, MaxLen, MaxPiece
VARIABLES fed, blocks, buf, n
vars == <<fed, blocks, buf, n>>
Init == fed = <<>> /\ blocks = <<>> /\ buf = <<>> /\ n = 0
Cut(all) == [i \in 1..(Len(all) \div B) |-> SubSeq(all, B * (i - 1) + 1, B * i)]
Feed(m) == LET all == buf \o m
               k == Len(all) \div B
           IN  /\ fed' = fed \o m /\ n' = n + Len(m)
               /\ blocks' = blocks \o Cut(all)
               /\ buf' = SubSeq(all, B * k + 1, Len(all))
\* piece of the fixed message 1, 2, 3, ...
Next == \E k \in 0..MaxPiece : Len(fed) + k <= MaxLen /\ Feed([i \in 1..k |-> Len(fed) + i])
Spec == Init /\ [][Next]_vars
RECURSIVE Flat(_)
Flat(bs) == IF bs = <<>> THEN <<>> ELSE Head(bs) \o Flat(Tail(bs))
Absorbed == Flat(blocks) \o buf = fed /\ Len(buf) < B /\ n = Len(fed)
\* trailer: marker, zeros, length in L symbols
PadOf(k) == LET z == (2 * B - L - 1 - (k % B)) % B IN <<"one">> \o [i \in 1..z |-> "zero"] \o [i \in 1..L |-> "len"]
Final == Cut(buf \o PadOf(n))
PaddedWhole == (Len(fed) + Len(PadOf(n))) % B = 0 /\ Len(PadOf(n)) >= L + 1 /\ Len(PadOf(n)) <= B + L
SplitIndependent == blocks \o Final = Cut(fed \o PadOf(Len(fed)))
=============================================================================
