------------------------------ MODULE SchedLhe ------------------------------
(***************************************************************************)
(* Programs over labelled ciphertexts, from which conformance schedules    *)
(* are generated: slots are empty, labelled or products; every operation   *)
(* is taken with every choice of operand and result slots.                 *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANT N
VARIABLES kind, op
vars == <<kind, op>>
S == 1..N
Init == kind = [s \in S |-> "none"] /\ op = <<"none">>
To(s, kd, o) == kind' = [kind EXCEPT ![s] = kd] /\ op' = o
Both(x, y, kd) == kind[x] = kd /\ kind[y] = kd
Next == \E s \in S :
  \/ kind[s] /= "none" /\ To(s, "none", <<"Forget", s>>)
  \/ To(s, "lab", <<"Encrypt", s>>)
  \/ kind[s] = "lab" /\ kind' = kind /\ op' = <<"DecL", s>>
  \/ kind[s] = "alpha" /\ kind' = kind /\ op' = <<"DecA", s>>
  \/ \E x \in S :
     \/ kind[x] = "lab" /\ To(s, "lab", <<"CMulL", s, x>>)
     \/ kind[x] = "alpha" /\ To(s, "alpha", <<"CMulA", s, x>>)
     \/ \E y \in S :
        \/ Both(x, y, "lab") /\ (To(s, "lab", <<"AddL", s, x, y>>) \/ To(s, "lab", <<"SubL", s, x, y>>) \/ To(s, "alpha", <<"Mult", s, x, y>>))
        \/ Both(x, y, "alpha") /\ (To(s, "alpha", <<"AddA", s, x, y>>) \/ To(s, "alpha", <<"SubA", s, x, y>>))
        \/ \E z \in S : Both(x, y, "lab") /\ kind[z] = "lab" /\ To(s, "alpha", <<"Mult3", s, x, y, z>>)
Spec == Init /\ [][Next]_vars
View == kind
TypeOK == kind \in [S -> {"none", "lab", "alpha"}]
PrintEdge == PrintT("EDGE " \o ToJson(<<kind, op', kind'>>))
=============================================================================
