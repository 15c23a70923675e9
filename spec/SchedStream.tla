---------------------------- MODULE SchedStream ----------------------------
(***************************************************************************)
(* Call protocol of a keyed stream object, from which conformance          *)
(* schedules are generated: TLC visits every state and prints every        *)
(* transition; walks taking all of them are executed on the real code.     *)
(* A state remembers which key and IV are loaded and how the last packet   *)
(* ended, so that every pair of consecutive packet lengths, and every call *)
(* after every kind of packet, occurs.                                     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS NKeys, NIvs, Lens,
          IvNeeded,       \* packets need a loaded IV
          KeyClearsIv     \* loading a key forgets the IV
VARIABLES k, v, last, op
vars == <<k, v, last, op>>
Init == k = 0 /\ v = 0 /\ last = 0 /\ op = [name |-> "none", arg |-> 0]
LoadKey(i) == /\ k' = i /\ last' = 0 /\ op' = [name |-> "LoadKey", arg |-> i]
              /\ v' = IF KeyClearsIv THEN 0 ELSE v
LoadIV(i)  == /\ k # 0 /\ v' = i /\ last' = 0 /\ op' = [name |-> "LoadIV", arg |-> i] /\ k' = k
Process(n) == /\ k # 0 /\ (IvNeeded => v # 0) /\ last' = n + 1 /\ op' = [name |-> "Process", arg |-> n]
              /\ UNCHANGED <<k, v>>
Next == (\E i \in 1..NKeys : LoadKey(i)) \/ (\E i \in 1..NIvs : LoadIV(i)) \/ (\E n \in Lens : Process(n))
Spec == Init /\ [][Next]_vars
View == <<k, v, last>>
TypeOK == k \in 0..NKeys /\ v \in 0..NIvs /\ last \in {0} \cup {n + 1 : n \in Lens}
PrintEdge == PrintT("EDGE " \o ToJson(<<<<k, v, last>>, op', <<k', v', last'>>>>))
=============================================================================
