---------------------------- MODULE SchedChannel ----------------------------
(***************************************************************************)
(* Schedules for a self-synchronising receiver: packets are delivered,     *)
(* dropped, corrupted at a position, or the receiver restarts with another *)
(* IV.  good counts the intact aligned ciphertext bytes since the last     *)
(* damage, up to 16.  Every transition is printed and later executed.      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Lens, Fates
VARIABLES good, prev, op
vars == <<good, prev, op>>
Min(a, b) == IF a < b THEN a ELSE b
Init == good = 16 /\ prev = "deliver" /\ op = [name |-> "none", len |-> 0, pos |-> 0]
Deliver(n) == good' = Min(16, good + n) /\ prev' = "deliver" /\ op' = [name |-> "deliver", len |-> n, pos |-> 0]
Drop(n) == good' = (IF n = 0 THEN good ELSE 0) /\ prev' = "fault" /\ op' = [name |-> "drop", len |-> n, pos |-> 0]
Corrupt(n, pos) == good' = Min(16, n - pos) /\ prev' = "fault" /\ op' = [name |-> "corrupt", len |-> n, pos |-> pos]
WrongIV == good' = 0 /\ prev' = "fault" /\ op' = [name |-> "wrongiv", len |-> 0, pos |-> 0]
Positions(n) == {1, n, (n + 1) \div 2, IF n > 16 THEN 16 ELSE 1, IF n > 16 THEN 17 ELSE n}
Next == \/ \E n \in Lens : Deliver(n)
        \/ "drop" \in Fates /\ \E n \in Lens : Drop(n)
        \/ "corrupt" \in Fates /\ \E n \in Lens \ {0} : \E pos \in Positions(n) : Corrupt(n, pos)
        \/ "wrongiv" \in Fates /\ WrongIV
Spec == Init /\ [][Next]_vars
View == <<good, prev>>
TypeOK == good \in 0..16
PrintEdge == PrintT("EDGE " \o ToJson(<<<<good, prev>>, op', <<good', prev'>>>>))
=============================================================================
