------------------------------ MODULE LheModel ------------------------------
(***************************************************************************)
(* The algebra of labelled ciphertexts modulo M, an encryption modelled by *)
(* the value it carries.  The operations compute as the scheme prescribes, *)
(* from a and the carried value e only; the ghosts m and b follow the      *)
(* plaintext function.  The invariant is inductive: the initial states are *)
(* all states that satisfy it.                                             *)
(***************************************************************************)
EXTENDS Integers
CONSTANTS M, Slots
VARIABLE ct
R == 0..(M - 1)
Lab == {[kind |-> "lab", m |-> (a + b) % M, b |-> b, a |-> a, e |-> b] : a \in R, b \in R}
Alpha == {[kind |-> "alpha", m |-> m, b |-> b, a |-> 0, e |-> (m - b + M) % M] : m \in R, b \in R}
Init == ct \in [Slots -> Lab \cup Alpha]
L(m, b, a, e) == [kind |-> "lab", m |-> m % M, b |-> b % M, a |-> a % M, e |-> e % M]
A(m, b, e) == [kind |-> "alpha", m |-> m % M, b |-> b % M, a |-> 0, e |-> e % M]
Set(s, v) == ct' = [ct EXCEPT ![s] = v]
AddL(s, x, y) == x.kind = "lab" /\ y.kind = "lab" /\ Set(s, L(x.m + y.m, x.b + y.b, x.a + y.a, x.e + y.e))
SubL(s, x, y) == x.kind = "lab" /\ y.kind = "lab" /\ Set(s, L(x.m + M - y.m, x.b + M - y.b, x.a + M - y.a, x.e + M - y.e))
CMulL(s, x, c) == x.kind = "lab" /\ Set(s, L(x.m * c, x.b * c, x.a * c, x.e * c))
AddA(s, x, y) == x.kind = "alpha" /\ y.kind = "alpha" /\ Set(s, A(x.m + y.m, x.b + y.b, x.e + y.e))
SubA(s, x, y) == x.kind = "alpha" /\ y.kind = "alpha" /\ Set(s, A(x.m + M - y.m, x.b + M - y.b, x.e + M - y.e))
CMulA(s, x, c) == x.kind = "alpha" /\ Set(s, A(x.m * c, x.b * c, x.e * c))
Mult(s, x, y) == x.kind = "lab" /\ y.kind = "lab" /\ Set(s, A(x.m * y.m, x.b * y.b, x.a * y.a + x.a * y.e + y.a * x.e))
\* the caller supplies encryptions of the pairwise products of masks
Mult3(s, x, y, z) ==
  /\ x.kind = "lab" /\ y.kind = "lab" /\ z.kind = "lab"
  /\ Set(s, A(x.m * y.m * z.m, x.b * y.b * z.b,
              x.a * y.a * z.a + x.a * (y.b * z.b) + y.a * (x.b * z.b) + z.a * (x.b * y.b)
              + z.e * x.a * y.a + y.e * x.a * z.a + x.e * y.a * z.a))
Next == \E s, i, j \in Slots :
  \/ AddL(s, ct[i], ct[j]) \/ SubL(s, ct[i], ct[j]) \/ AddA(s, ct[i], ct[j]) \/ SubA(s, ct[i], ct[j]) \/ Mult(s, ct[i], ct[j])
  \/ \E c \in R : CMulL(s, ct[i], c) \/ CMulA(s, ct[i], c)
  \/ \E h \in Slots : Mult3(s, ct[i], ct[j], ct[h])
Spec == Init /\ [][Next]_ct
Carries == \A s \in Slots : ct[s] \in Lab \cup Alpha
=============================================================================
