------------------------------- MODULE SchedAe -------------------------------
(***************************************************************************)
(* Schedules for an authenticated channel: packets of every length class   *)
(* are sealed and then delivered genuinely, replayed, or with one kind of  *)
(* tampering; every kind follows every other, on packets of every class.   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Kinds, MsgLens, AdLens
VARIABLES prev, sealed, op
vars == <<prev, sealed, op>>
Init == prev = "none" /\ sealed = 0 /\ op = [name |-> "none", msg |-> 0, ad |-> 0]
SealPacket(m, a) == /\ sealed' = 1 /\ prev' = "none" /\ op' = [name |-> "seal", msg |-> m, ad |-> a]
DeliverAs(kd) == /\ sealed = 1 /\ prev' = kd /\ op' = [name |-> kd, msg |-> 0, ad |-> 0] /\ UNCHANGED sealed
Next == (\E m \in MsgLens, a \in AdLens : SealPacket(m, a)) \/ \E kd \in Kinds : DeliverAs(kd)
Spec == Init /\ [][Next]_vars
View == <<prev, sealed>>
PrintEdge == PrintT("EDGE " \o ToJson(<<<<prev, sealed>>, op', <<prev', sealed'>>>>))
=============================================================================
