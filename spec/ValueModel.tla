----------------------------- MODULE ValueModel -----------------------------
(***************************************************************************)
(* Operations on numbers that are kept in places.  An operation takes the  *)
(* values in two places and stores a result in a third, which may be one   *)
(* of them.  The host moves values between places at any time.  The        *)
(* implementation is right or has one hidden dependency:                   *)
(*   "place"    it remembers what it derived from an operand by its place, *)
(*   "order"    the result is begun before the last operand is read,       *)
(*   "global"   something of the operation before is used,                 *)
(*   "old"      the place of the result is not emptied first,              *)
(*   "consume"  an operand is used as working space.                       *)
(* The reader (ValueTrace) knows only that equal operands must have equal  *)
(* results and that nothing but the place of the result may change.        *)
(***************************************************************************)
EXTENDS Naturals, TLC
CONSTANTS Defect, Places, MaxCalls
VARIABLES cell, cache, last, known, conflict, kept, calls
vars == <<cell, cache, last, known, conflict, kept, calls>>
Values == 0..3
None == 9
F(x, y) == (x + (2 * y) + 1) % 4
Init == /\ cell \in [Places -> {0, 1}] /\ cache = [p \in Places |-> None] /\ last = 0
        /\ known = <<>> /\ conflict = FALSE /\ kept = TRUE /\ calls = 0
Move(p, v) == /\ cell' = [cell EXCEPT ![p] = v] /\ cell' # cell
              /\ UNCHANGED <<cache, last, known, conflict, kept, calls>>
Call(a, b, t) ==
  LET x == cell[a]
      y == cell[b]
      used == IF Defect = "place" /\ cache[b] # None THEN cache[b] ELSE y
      read == IF Defect = "order" /\ t = b THEN x ELSE used
      extra == CASE Defect = "global" -> last [] Defect = "old" -> cell[t] [] OTHER -> 0
      r == (F(x, read) + extra) % 4
      work == IF Defect = "consume" /\ b # t THEN [cell EXCEPT ![b] = (2 * y) % 4] ELSE cell
  IN  /\ calls < MaxCalls /\ calls' = calls + 1
      /\ cell' = [work EXCEPT ![t] = r]
      /\ cache' = IF cache[b] = None THEN [cache EXCEPT ![b] = y] ELSE cache
      /\ last' = x
      /\ conflict' = (conflict \/ (<<x, y>> \in DOMAIN known /\ known[<<x, y>>] # r))
      /\ known' = IF <<x, y>> \in DOMAIN known THEN known ELSE (<<x, y>> :> r) @@ known
      /\ kept' = (kept /\ \A p \in Places \ {t} : cell'[p] = cell[p])
Next == \/ \E p \in Places, v \in {0, 1} : Move(p, v)
        \/ \E a, b, t \in Places : Call(a, b, t)
Spec == Init /\ [][Next]_vars
NoConflict == ~conflict
Kept == kept
=============================================================================
