---- MODULE RabbitCheck ----
(* Values of the operators that Rabbit.java overrides, printed: setup evaluates this module with and without the class. *)
EXTENDS Rabbit
VARIABLE vn
B(k, len) == Pattern((vn * 7919) + k, len)
Lens == <<0, 1, 3, 4, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100>>
L == Lens[(vn % 14) + 1]
M == Lens[((vn * 5) % 14) + 1]
Z == <<0, L>>
Sd == (vn * 104729) - 500000
S == RabbitIV(RabbitKey(B(1, 16)), B(2, 8))
T == [S EXCEPT !.C = [j \in 1..8 |-> 0 - (j * vn)], !.b = vn % 2]
Of(s) == <<Iterate(s), RabbitBlocks(s, vn), RabbitLong(s, Sd, Z)>>
Vals == <<Of(S), Of(T)>>
Init == vn = 0
Next == vn < 30 /\ vn' = vn + 1
Show == PrintT("VAL " \o ToString(<<vn, Vals>>))
====
